"""Generic minimiser over choice sequences (in the style of Conjecture)."""
import time


def minimise(values, spans, test, deadline):
    """`test(values)` -> (values_used, spans) if it still fails the same way,
    else None.  Returns the smallest failing sequence found by `deadline`."""
    best, bspans = list(values), list(spans)

    def late():
        return time.monotonic() > deadline

    def key(v):
        return (len(v), sum(1 for x in v if x), v)

    def attempt(cand):
        nonlocal best, bspans
        if late():
            return False
        r = test(cand)
        if r is None:
            return False
        used, sp = r
        used = list(used)
        while used and used[-1] == 0:
            used.pop()
        if key(used) < key(best):
            best, bspans = used, sp
            return True
        return False

    improved = True
    while improved and not late():
        improved = False
        # 1. delete whole spans, biggest first
        i = 0
        sp = sorted(set(bspans), key=lambda s: s[0] - s[1])
        while i < len(sp) and not late():
            a, b = sp[i]
            if b <= len(best) + 1 and b > a and attempt(best[:a] + best[b:]):
                improved = True
                sp = sorted(set(bspans), key=lambda s: s[0] - s[1])
                i = max(0, i - 1)
            else:
                i += 1
        # 2. delete chunks
        size = max(1, len(best) // 2)
        while size >= 1 and not late():
            a = 0
            while a < len(best) and not late():
                if attempt(best[:a] + best[a + size:]):
                    improved = True
                else:
                    a += size
            size //= 2
            if len(best) > 400 and size < 4:
                break
        # 3. zero chunks, then lower single values
        size = max(1, len(best) // 4)
        while size >= 1 and not late():
            a = 0
            while a < len(best) and not late():
                if any(best[a:a + size]):
                    if attempt(best[:a] + [0] * len(best[a:a + size]) + best[a + size:]):
                        improved = True
                a += size
            size //= 2
        if len(best) <= 300:
            a = 0
            while a < len(best) and not late():
                v = best[a]
                for nv in (1, v // 2, v - 1):
                    if 0 <= nv < v and attempt(best[:a] + [nv] + best[a + 1:]):
                        improved = True
                        break
                a += 1
    return best, bspans
