"""Independent RLP codec and Merkle-Patricia root (reference model)."""
from Crypto.Hash import keccak as _k

_cache = {}


def keccak(b):
    b = bytes(b)
    if len(b) <= 64:
        h = _cache.get(b)
        if h is None:
            h = _k.new(digest_bits=256, data=b).digest()
            if len(_cache) < 200000:
                _cache[b] = h
        return h
    return _k.new(digest_bits=256, data=b).digest()


def int_b(n):
    return n.to_bytes((n.bit_length() + 7) // 8, "big")


def _len(n, off):
    if n < 56:
        return bytes([off + n])
    b = int_b(n)
    return bytes([off + 55 + len(b)]) + b


def enc(x):
    if isinstance(x, (bytes, bytearray)):
        x = bytes(x)
        if len(x) == 1 and x[0] < 128:
            return x
        return _len(len(x), 128) + x
    if isinstance(x, bool):
        return enc(b"\x01" if x else b"")
    if isinstance(x, int):
        return enc(int_b(x))
    p = b"".join(enc(i) for i in x)
    return _len(len(p), 192) + p


def dec(b):
    x, rest = _dec(bytes(b))
    if rest:
        raise ValueError("trailing")
    return x


def _dec(b):
    p = b[0]
    if p < 128:
        return b[:1], b[1:]
    if p < 184:
        n = p - 128
        return b[1:1 + n], b[1 + n:]
    if p < 192:
        ll = p - 183
        n = int.from_bytes(b[1:1 + ll], "big")
        return b[1 + ll:1 + ll + n], b[1 + ll + n:]
    if p < 248:
        n, o = p - 192, 1
    else:
        ll = p - 247
        n, o = int.from_bytes(b[1:1 + ll], "big"), 1 + ll
    body, rest = b[o:o + n], b[o + n:]
    out = []
    while body:
        x, body = _dec(body)
        out.append(x)
    return out, rest


EMPTY_ROOT = keccak(enc(b""))
EMPTY_CODE = keccak(b"")


def _hp(nibs, leaf):
    f = 2 if leaf else 0
    if len(nibs) % 2:
        n = [f + 1] + nibs
    else:
        n = [f, 0] + nibs
    return bytes(n[i] * 16 + n[i + 1] for i in range(0, len(n), 2))


def _ref(node):
    if node is None:
        return b""
    e = enc(node)
    return node if len(e) < 32 else keccak(e)


def _node(items, depth):
    # items: list of (nibbles, value) sorted
    if not items:
        return None
    if len(items) == 1:
        k, v = items[0]
        return [_hp(k[depth:], True), v]
    first, last = items[0][0], items[-1][0]
    p = depth
    while p < len(first) and p < len(last) and first[p] == last[p]:
        p += 1
    if p > depth:
        return [_hp(first[depth:p], False), _ref(_node(items, p))]
    br = []
    value = b""
    i = 0
    if len(items[0][0]) == depth:
        value = items[0][1]
        i = 1
    for nib in range(16):
        j = i
        while j < len(items) and items[j][0][depth] == nib:
            j += 1
        br.append(_ref(_node(items[i:j], depth + 1)))
        i = j
    return br + [value]


def _nib(k):
    out = []
    for c in k:
        out.append(c >> 4)
        out.append(c & 15)
    return out


def trie_root(mapping):
    """mapping: key bytes -> value bytes (already encoded)."""
    if not mapping:
        return EMPTY_ROOT
    items = sorted((_nib(k), v) for k, v in mapping.items())
    return keccak(enc(_node(items, 0)))


def list_root(values):
    return trie_root({enc(i): v for i, v in enumerate(values)})


def storage_root(slots):
    """slots: int/bytes32 -> int (zeros ignored)"""
    return trie_root({
        keccak(k if isinstance(k, bytes) else k.to_bytes(32, "big")): enc(v)
        for k, v in slots.items() if v})


def state_root(accounts):
    """accounts: addr -> (nonce, balance, code, slots)"""
    out = {}
    for a, (n, b, c, s) in accounts.items():
        out[keccak(a)] = enc([n, b, storage_root(s), keccak(c)])
    return trie_root(out)
