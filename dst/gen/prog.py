"""Seeded generator of contract programs.

Programs are built from whole statements that leave the stack as they found
it, mix every observed value into an accumulator, and keep the call tree
bounded through a time-to-live in the first calldata word.
"""
from dst.ref.evm import (BERLIN, BYZANTIUM, CANCUN, CONSTANTINOPLE, HOMESTEAD, ISTANBUL, LONDON, OSAKA, PARIS, PRAGUE, SHANGHAI,
                         SPURIOUS, TANGERINE, INTRO)

ACC = 0x80          # memory offset of the accumulator
BUF = 0xA0          # scratch
ENV = [0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3A, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x4A, 0x3D, 0x59, 0x5A,
       0x58]
BINOPS = [0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x0A, 0x0B, 0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1A,
          0x1B, 0x1C, 0x1D]


def push(n):
    if n == 0:
        return b"\x60\x00"
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([0x5F + len(b)]) + b


def push20(a):
    return b"\x73" + a


class Asm:
    """Byte code with forward labels (PUSH2) and appended data."""

    def __init__(self):
        self.b = bytearray()
        self.fix = []
        self.labels = {}
        self.n = 0
        self.data = []

    def op(self, *xs):
        for x in xs:
            self.b += bytes([x]) if isinstance(x, int) else x
        return self

    def new(self):
        self.n += 1
        return self.n

    def ref(self, label):
        self.fix.append((len(self.b) + 1, label))
        self.b += b"\x61\0\0"

    def mark(self, label, dest=True):
        self.labels[label] = len(self.b)
        if dest:
            self.b.append(0x5B)

    def blob(self, data):
        """Append data behind the code; returns its label."""
        k = self.new()
        self.data.append((k, bytes(data)))
        return k

    def out(self):
        b = self.b + b"\x00"
        for k, d in self.data:
            self.labels[k] = len(b)
            b += d
        for pos, label in self.fix:
            b[pos:pos + 2] = self.labels[label].to_bytes(2, "big")
        return bytes(b)


class Gen:
    """Program generator bound to a fork and address pools."""

    def __init__(self, c, fi, pool, contracts, style):
        self.c, self.fi, self.pool, self.contracts, self.style = c, fi, pool, contracts, style
        self.toucher = self.runner = None
        self.env = [o for o in ENV if fi >= INTRO.get(o, 0)]
        self.bin = [o for o in BINOPS if fi >= INTRO.get(o, 0)]
        self.probe_slots = 4

    # -- small pieces -------------------------------------------------
    def mix(self, a):
        """stack: v -> ; acc = acc * 3 + v"""
        a.op(push(ACC), 0x51, push(3), 0x02, 0x01, push(ACC), 0x52)

    def address(self):
        c = self.c
        k = c.weighted([(6, 0), (3, 1), (1, 2), (1, 3)])
        if k == 0:
            return push20(c.choice(self.contracts))
        if k == 1:
            return push20(c.choice(self.pool))
        if k == 2:
            return b"\x30"                  # ADDRESS
        return push(c.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10] + ([11, 12, 13, 14, 15, 18, 0x100] if self.fi >= PRAGUE else [])))

    def value(self):
        c = self.c
        k = c.draw(8)
        if k < 3:
            return push(k)
        if k == 3:
            return push(c.choice([7, 255, 2**64, 2**128 - 1, 2**255, 2**256 - 1, 2**256 - 2]))
        if k == 4:
            return push(ACC) + b"\x51"
        if k == 5:
            return push(0) + b"\x35"        # CALLDATALOAD(0)
        return push(c.draw(100))

    def slot(self):
        c = self.c
        return push(c.draw(self.probe_slots)) if not c.bool(0.05) else self.value()

    def gas(self):
        c = self.c
        k = c.draw(8)
        if k < 5:
            return push([60000, 20000, 120000, 3000, 300][k])
        if k == 5:
            return push(c.choice([0, 2300, 700, 2600, 40000, 2**64, 2**256 - 1]))
        return b"\x5a"

    # -- statements ---------------------------------------------------
    def call(self, a, target=None, kind=None):
        """A call guarded by the time-to-live; the callee gets one less."""
        c, fi = self.c, self.fi
        end = a.new()
        a.op(push(0), 0x35, 0x15)
        a.ref(end)
        a.op(0x57)
        a.op(push(1), push(0), 0x35, 0x03, push(0), 0x52)
        a.op(push(ACC), 0x51, push(32), 0x52)
        kinds = [0xF1, 0xF2]
        if fi >= HOMESTEAD:
            kinds.append(0xF4)
        if fi >= BYZANTIUM:
            kinds += [0xFA] * self.style.get("static", 1)
        k = kind or c.choice(kinds)
        val = push(0)
        if k in (0xF1, 0xF2):
            val = c.weighted([(5, push(0)), (4, push(1)), (2, push(1000)), (1, b"\x30\x31"), (1, push(2**200))])
        target = target if target is not None else self.address()
        ins = c.choice([64, 32, 0, 96, 128])
        outs = c.choice([0, 32, 64, 5])
        a.op(push(outs), push(BUF), push(ins), push(0))
        if k in (0xF1, 0xF2):
            a.op(val)
        a.op(target, self.gas(), k)
        self.mix(a)
        if outs and c.bool(0.6):
            a.op(push(BUF), 0x51)
            self.mix(a)
        if fi >= BYZANTIUM and c.bool(0.5):
            a.op(0x3D)
            self.mix(a)
            if c.bool(0.4):
                # RETURNDATACOPY of what there is (or, rarely, beyond)
                if c.bool(0.9):
                    a.op(0x3D, push(0), push(BUF), 0x3E)
                else:
                    a.op(push(33), push(c.draw(40)), push(BUF), 0x3E)
                a.op(push(BUF), 0x51)
                self.mix(a)
        if c.bool(0.2):
            a.op(0x5A)
            self.mix(a)
        a.mark(end)

    def create(self, a, level):
        c, fi = self.c, self.fi
        end = a.new()
        a.op(push(0), 0x35, 0x15)
        a.ref(end)
        a.op(0x57)
        init = self.initcode(level + 1)
        lab = a.blob(init)
        ln = len(init)
        a.op(push(ln))
        a.ref(lab)
        a.op(push(BUF), 0x39)
        two = fi >= CONSTANTINOPLE and c.bool(0.5)
        if two:
            a.op(push(c.draw(3)))
        a.op(push(ln), push(BUF), c.weighted([(5, push(0)), (2, push(1)), (1, push(2**100))]), 0xF5 if two else 0xF0)
        again = c.bool(0.15)
        a.op(0x80)
        self.mix(a)
        if fi >= BYZANTIUM and c.bool(0.5):
            a.op(0x3D)
            self.mix(a)
        if c.bool(0.5):
            # call what was created
            a.op(push(0), push(0), push(0), push(0), c.choice([push(0), push(1)]), 0x85, push(50000), 0xF1)
            self.mix(a)
        if c.bool(0.3):
            a.op(0x80, 0x31)
            self.mix(a)
        a.op(push(2 + c.draw(2)), 0x55) if c.bool(0.2) else a.op(0x50)
        if again and two:
            a.op(push(ln))
            a.ref(lab)
            a.op(push(BUF), 0x39, push(0), push(ln), push(BUF), push(0), 0xF5)
            self.mix(a)
        a.mark(end)

    def touch_words(self, fresh):
        """Calldata words for a touch: through up to three runners, which may fail, down to the toucher."""
        c = self.c
        words = []
        hops = c.weighted([(2, 0), (5, 1), (3, 2), (1, 3)])
        for j in range(hops):
            kind = c.weighted([(5, 0), (1, 1), (2, 2 if self.fi >= HOMESTEAD else 0), (self.style.get("static", 1), 3 if self.fi >= BYZANTIUM else 0)])
            end = c.weighted([(3, 0), (3, 1), (2, 2), (1, 3)])
            nxt = self.runner if j + 1 < hops else self.toucher
            words += [kind + 8 * (c.draw(6) == 0) + 16 * end, int.from_bytes(nxt, "big")]
        words += [0, fresh]
        if c.bool(0.7):
            words.append(c.choice([0, 1, 7, 2**255]))
            if c.bool(0.15):
                words.append(int.from_bytes(c.choice(self.pool), "big"))
        return (self.runner if hops else self.toucher), words

    def touch(self, a, key, words=None):
        """Touch a key through runners, which may fail and undo it."""
        c = self.c
        top, words = self.touch_words(key) if words is None else (self.toucher, words)
        for k, w in enumerate(words):
            a.op(push(w), push(0x300 + 32 * k), 0x52)
        kind = c.weighted([(5, 0xF1), (1, 0xF2), (1, 0xF4 if self.fi >= HOMESTEAD else 0xF1)])
        a.op(push(32), push(BUF), push(32 * len(words)), push(0x300))
        if kind != 0xF4:
            a.op(push(c.draw(6) // 5))
        a.op(push20(top), push(200_000) if c.bool(0.8) else self.gas(), kind)
        self.mix(a)
        a.op(push(BUF), 0x51)
        self.mix(a)

    def undo(self, a, level):
        """Touch something inside a frame that mostly fails, then touch it again."""
        c, fi = self.c, self.fi
        end = a.new()
        a.op(push(0), 0x35, 0x15)
        a.ref(end)
        a.op(0x57)
        key = 16 + c.draw(12) if c.bool(0.7) else c.draw(4)
        if c.bool(0.6):
            self.touch(a, key)
        else:
            i = Asm()
            for _ in range(c.int(1, 2)):
                if c.bool(0.7):
                    self.touch(i, key)
                else:
                    i.op(self.value(), push(c.draw(3)), c.choice([0x55] + ([0x5D] if fi >= CANCUN else [])))
            if fi >= CANCUN:
                i.op(push(c.draw(3)), 0x5C)
                self.mix(i)
            what = c.weighted([(3, "revert"), (2, "bad"), (2, "ef"), (2, "big"), (2, "code")])
            if what == "revert":
                i.op(push(32), push(ACC), 0xFD)
            elif what == "bad":
                i.op(0xFE)
            elif what == "ef":
                i.op(push(0xEF), push(0x600), 0x53, push(1), push(0x600), 0xF3)
            elif what == "big":
                i.op(push(c.choice([24577, 3000, 24576])), push(0), 0xF3)
            else:
                i.op(push(4), push(ACC + 28), 0xF3)
            init = i.out()
            two = fi >= CONSTANTINOPLE and c.bool(0.6)
            lab = a.blob(init)
            for again in range(1 + (two and c.bool(0.6))):
                a.op(push(len(init)))
                a.ref(lab)
                a.op(push(0x400), 0x39)
                if two:
                    a.op(push(key))
                a.op(push(len(init)), push(0x400), push(c.draw(3) // 2), 0xF5 if two else 0xF0)
                self.mix(a)
        for _ in range(c.int(1, 2)):
            if c.bool(0.7):
                w = [0, key] + ([c.draw(3)] if c.bool(0.5) else [])
                self.touch(a, key, w)
            else:
                self.touch(a, key)
        a.mark(end)

    def initcode(self, level):
        c, fi = self.c, self.fi
        a = Asm()
        if c.bool(0.5):
            self.block(a, level, 2)
        end = c.weighted([(6, "code"), (2, "empty"), (1, "revert"), (1, "bad"), (1, "sd"), (1, "ef"), (1, "big"), (1, "sub")])
        if end == "code":
            code = self.runtime(level + 1)
            lab = a.blob(code)
            a.op(push(len(code)))
            a.ref(lab)
            a.op(push(BUF), 0x39, push(len(code)), push(BUF), 0xF3)
        elif end == "sub":
            a.op(push(c.draw(40)), push(ACC), 0xF3)
        elif end == "revert":
            a.op(push(ACC), 0x51, push(BUF), 0x52, push(32), push(BUF), 0xFD)
        elif end == "bad":
            a.op(c.choice([0xFE, 0x50, 0x56]))
        elif end == "sd":
            a.op(self.address(), 0xFF)
        elif end == "ef":
            a.op(push(0xEF), push(BUF), 0x53, push(c.choice([1, 3, 23])), push(BUF), 0xF3)
        elif end == "big":
            a.op(push(c.choice([200, 3000, 24576, 24577])), push(0), 0xF3)
        return a.out()

    def runtime(self, level):
        c = self.c
        a = Asm()
        k = c.draw(6)
        if k == 0:
            a.op(self.address(), 0xFF)
        elif k == 1:
            a.op(push(1), push(0), 0x55)
        elif level <= 2:
            self.block(a, level, 2)
            self.terminator(a)
        else:
            a.op(push(0), 0x54, push(1), 0x01, push(0), 0x55)
        return a.out()

    def statement(self, a, level):
        c, fi, st = self.c, self.fi, self.style
        w = [(6, "sstore"), (4, "sload"), (14 * st.get("call", 1), "call"), (3, "env"), (3, "acct"), (3, "arith"), (2, "log"),
             (2, "if"), (1, "loop"), (2, "mem"), (1, "hash"), (1, "copy"), (0.5 * st.get("wild", 1), "wild")]
        if level < 3:
            w.append((2 * st.get("create", 1), "create"))
        if level < 2 and self.runner:
            w.append((2 * st.get("undo", 0.5), "undo"))
        if fi >= CANCUN:
            w.append((3 * st.get("transient", 1), "transient"))
            w.append((1, "blobhash"))
        w.append((st.get("blockhash", 1), "blockhash"))
        k = c.weighted([(int(2 * x), y) for x, y in w])
        if k == "sstore":
            a.op(self.value(), self.slot(), 0x55)
        elif k == "sload":
            a.op(self.slot(), 0x54)
            self.mix(a)
        elif k == "call":
            self.call(a)
        elif k == "env":
            a.op(c.choice(self.env))
            self.mix(a)
        elif k == "acct":
            ops = [0x31, 0x3B] + ([0x3F] if fi >= CONSTANTINOPLE else [])
            o = c.choice(ops + [0x3C])
            if o == 0x3C:
                a.op(push(c.draw(40)), push(c.draw(40)), push(BUF), self.address(), 0x3C, push(BUF), 0x51)
            else:
                a.op(self.address(), o)
            self.mix(a)
        elif k == "arith":
            o = c.draw(4)
            if o == 0:
                a.op(self.value(), self.value(), self.value(), c.choice([0x08, 0x09]))
            elif o == 1:
                a.op(self.value(), c.choice([0x15, 0x19] + ([0x1E] if fi >= OSAKA else [])))
            else:
                a.op(self.value(), self.value(), c.choice(self.bin))
            self.mix(a)
        elif k == "log":
            n = c.draw(5)
            for _ in range(n):
                a.op(self.value())
            a.op(push(c.choice([0, 32, 7])), push(ACC), 0xA0 + n)
        elif k == "if":
            end = a.new()
            a.op(c.choice([push(ACC) + b"\x51", push(0) + b"\x35", self.slot() + b"\x54"]), push(1), 0x16, 0x15)
            a.ref(end)
            a.op(0x57)
            with c.span():
                self.block(a, level, 1)
                if c.bool(0.3):
                    self.terminator(a)
            a.mark(end)
        elif k == "loop":
            top = a.new()
            a.op(push(c.int(1, 4)))
            a.mark(top)
            with c.span():
                self.simple(a)
            a.op(push(1), 0x90, 0x03, 0x80)
            a.ref(top)
            a.op(0x57, 0x50)
        elif k == "mem":
            self.simple_mem(a)
        elif k == "hash":
            a.op(push(c.draw(100)), push(c.draw(100)), 0x20)
            self.mix(a)
        elif k == "copy":
            a.op(push(c.draw(70)), push(c.choice([0, 1, 40, 2**40])), push(BUF), c.choice([0x37, 0x39]))
            a.op(push(BUF), 0x51)
            self.mix(a)
        elif k == "create":
            self.create(a, level)
        elif k == "undo":
            with c.span():
                self.undo(a, level)
        elif k == "transient":
            if c.bool(0.5):
                a.op(self.value(), push(c.draw(3)), 0x5D)
            else:
                a.op(push(c.draw(3)), 0x5C)
                self.mix(a)
        elif k == "blobhash":
            a.op(push(c.draw(4)), 0x49)
            self.mix(a)
        elif k == "blockhash":
            a.op(push(c.choice([1, 0, 2, 5, 255, 256, 257, 300])), 0x43, 0x03, 0x40)
            self.mix(a)
        elif k == "wild":
            for _ in range(c.int(1, 3)):
                a.op(push(c.draw(50)))
            a.op(c.draw(256))

    def simple(self, a):
        c = self.c
        k = c.draw(4)
        if k == 0:
            a.op(self.slot(), 0x54, push(1), 0x01, self.slot(), 0x55)
        elif k == 1:
            a.op(c.choice(self.env))
            self.mix(a)
        elif k == 2:
            a.op(self.value(), self.slot(), 0x55)
        else:
            a.op(self.address(), 0x31)
            self.mix(a)

    def simple_mem(self, a):
        c, fi = self.c, self.fi
        k = c.draw(5)
        if k == 0:
            a.op(self.value(), push(BUF + c.draw(64)), 0x52)
        elif k == 1:
            a.op(self.value(), push(BUF + c.draw(64)), 0x53)
        elif k == 2:
            a.op(push(c.choice([0, 100, 1000, 4000])), 0x51)
            self.mix(a)
        elif k == 3 and fi >= CANCUN:
            a.op(push(c.draw(70)), push(c.draw(200)), push(BUF + c.draw(50)), 0x5E)
        else:
            a.op(0x59)
            self.mix(a)

    def block(self, a, level, mean):
        for _ in self.c.steps(mean, 8):
            self.statement(a, level)

    def terminator(self, a):
        c, fi = self.c, self.fi
        st = self.style
        k = c.weighted([(10, "store"), (8, "return"), (4, "stop"), (2 * st.get("revert", 1), "revert"), (1, "invalid"),
                        (1, "jump"), (1, "under"), (st.get("sd", 1), "sd"), (1, "mem"), (1, "burn")])
        if k == "store":
            a.op(push(ACC), 0x51, push(c.draw(2) + 4), 0x55)
        elif k == "return":
            a.op(push(c.choice([32, 0, 64, 5])), push(ACC), 0xF3)
        elif k == "stop":
            a.op(0x00)
        elif k == "revert":
            a.op(push(c.choice([32, 0, 64])), push(ACC), 0xFD)
        elif k == "invalid":
            a.op(c.choice([0xFE, 0xEF, 0x0C]))
        elif k == "jump":
            a.op(push(c.draw(5000)), 0x56)
        elif k == "under":
            a.op(0x50, 0x50)
        elif k == "sd":
            a.op(self.address(), 0xFF)
        elif k == "mem":
            a.op(push(2**c.int(20, 60)), 0x51)
        elif k == "burn":
            top = a.new()
            a.mark(top)
            a.op(push(1), push(BUF + 32), 0x51, 0x01, push(BUF + 32), 0x52, push(c.int(1, 60)), push(BUF + 32), 0x51, 0x10)
            a.ref(top)
            a.op(0x57)

    def undoer(self):
        """A contract made of touch, undo, touch again."""
        c = self.c
        a = Asm()
        for _ in range(c.int(2, 4)):
            with c.span():
                self.undo(a, 0)
            if c.bool(0.3):
                self.statement(a, 2)
        a.op(push(ACC), 0x51, push(5), 0x55)
        return a.out()

    def contract(self):
        a = Asm()
        self.block(a, 0, self.style.get("len", 7))
        self.terminator(a)
        return a.out()


def twin_code(c, variant, mine):
    """One of several codes of equal length whose jump destinations, constants and effects differ: what two branches may put at
    one address.  Stores a number telling the variants apart, or fails where the other variant would have gone on."""
    a = Asm()
    n = 8
    # PUSH1 x JUMP, then a field of n pieces of three bytes, one of which holds the destination
    at = 3 + 3 * (variant % n)
    a.op(push(at), 0x56)
    for k in range(n):
        if k == variant % n:
            a.op(0x5B, 0x58, 0x50)           # JUMPDEST PC POP
        elif k > variant % n:
            a.op(0x5B if mine & 1 else 0x58, 0x58, 0x50)
            if not mine & 1:
                a.b[-3:] = bytes([0x58, 0x50, 0x5B])
        else:
            a.op(0x60, 0x5B, 0xFE)           # a push that hides a destination
    a.op(push(10 + variant % n + 16 * (mine % 8)), push(1), 0x54, 0x01, push(1), 0x55)
    a.op(push(variant % n), push(2), 0x55, 0x00)
    return bytes(a.b)


def installer(code):
    """Init code that installs code."""
    a = Asm()
    lab = a.blob(code)
    a.op(push(len(code)))
    a.ref(lab)
    a.op(push(0), 0x39, push(len(code)), push(0), 0xF3)
    return a.out()


def toucher_code(fi):
    """Reads the slot named by word 1 (and the transient slot, and the balance of that address), returns the sum; with a
    third word also writes it there, logs, and with a fourth destroys itself."""
    a = Asm()
    end = a.new()
    a.op(push(32), 0x35, 0x54, push(ACC), 0x52)
    if fi >= CANCUN:
        a.op(push(32), 0x35, 0x5C, push(ACC), 0x51, 0x01, push(ACC), 0x52)
    a.op(push(32), 0x35, 0x31, push(ACC), 0x51, 0x01, push(ACC), 0x52)
    a.op(push(65), 0x36, 0x10)
    a.ref(end)
    a.op(0x57)
    a.op(push(64), 0x35, push(32), 0x35, 0x55)
    if fi >= CANCUN:
        a.op(push(64), 0x35, push(32), 0x35, 0x5D)
    a.op(push(64), 0x35, push(32), push(0), 0xA1)
    a.op(push(97), 0x36, 0x10)
    a.ref(end)
    a.op(0x57, push(96), 0x35, 0xFF)
    a.mark(end)
    a.op(push(32), push(ACC), 0xF3)
    return a.out()


def runner_code(fi):
    """Calls the address in word 1 with the calldata from word 2 on, in the manner drawn by word 0, then ends as word 0 says:
    word 0 = kind + 8 * value + 16 * ending (0 return, 1 revert, 2 invalid, 3 stack underflow)."""
    a = Asm()
    done, over = a.new(), a.new()
    a.op(push(64), 0x36, 0x10)
    a.ref(done)
    a.op(0x57)
    a.op(push(64), 0x36, 0x03, push(64), push(0x200), 0x37)
    for k, op in enumerate([0xF1, 0xF2] + ([0xF4] if fi >= HOMESTEAD else []) + ([0xFA] if fi >= BYZANTIUM else [])):
        nxt = a.new()
        a.op(push(0), 0x35, push(3), 0x16, push(k), 0x03)
        a.ref(nxt)
        a.op(0x57, push(32), push(BUF), push(64), 0x36, 0x03, push(0x200))
        if op in (0xF1, 0xF2):
            a.op(push(8), push(0), 0x35, push(8), 0x16, 0x04)
        a.op(push(32), 0x35)
        if fi < TANGERINE:
            a.op(push(12000), 0x5A, 0x03)
        else:
            a.op(0x5A)
        a.op(op)
        self_mix(a)
        a.mark(nxt)
    a.mark(done)
    a.op(push(BUF), 0x51)
    self_mix(a)
    a.op(push(16), push(0), 0x35, 0x04, push(3), 0x16)
    for k in (1, 2, 3):
        nxt = a.new()
        a.op(0x80, push(k), 0x03)
        a.ref(nxt)
        a.op(0x57)
        if k == 1:
            a.op(push(32), push(ACC), 0xFD)
        elif k == 2:
            a.op(0xFE)
        else:
            a.op(0x50, 0x50)
        a.mark(nxt)
    a.op(push(32), push(ACC), 0xF3)
    return a.out()


def self_mix(a):
    a.op(push(ACC), 0x51, push(3), 0x02, 0x01, push(ACC), 0x52)


def deep_code(c, fi, me):
    """Calls itself calldata[0] times passing on all it can, then acts; each level notes a failed call."""
    a = Asm()
    bottom, fail = a.new(), a.new()
    a.op(push(0), 0x35, 0x15)
    a.ref(bottom)
    a.op(0x57, push(1), push(0), 0x35, 0x03, push(0), 0x52)
    kind = c.choice([0xF1, 0xF1, 0xF2] + ([0xF4] if fi >= HOMESTEAD else []) + ([0xFA] if fi >= BYZANTIUM else []))
    a.op(push(0), push(0), push(32), push(0))
    if kind in (0xF1, 0xF2):
        a.op(push(0))
    a.op(push20(me))
    if fi < TANGERINE:
        a.op(push(26000), 0x5A, 0x03)
    else:
        a.op(0x5A)
    a.op(kind, 0x15)
    a.ref(fail)
    a.op(0x57, 0x00)
    a.mark(fail)
    a.op(push(0), 0x35, push(c.draw(3)), 0x55)
    if c.bool(0.5):
        a.op(push(0), push(0), push(0), 0xF0, push(3), 0x55)
    a.op(0x00)
    a.mark(bottom)
    end = c.draw(4)
    if end == 0:
        a.op(push(1), push(4), 0x55)
    elif end == 1:
        a.op(0xFE)
    elif end == 2:
        a.op(push(0), push(0), push(0), 0xF0, push(5), 0x55)
    else:
        a.op(push20(me), 0xFF)
    return a.out()


# ------------------------------------------------------- system contracts
BEACON_ROOTS_CODE = bytes.fromhex(
    "3373fffffffffffffffffffffffffffffffffffffffe14604d57602036146024575f5ffd5b5f35801560495762001fff810690815414603c57"
    "5f5ffd5b62001fff01545f5260205ff35b5f5ffd5b62001fff42064281555f359062001fff015500")
HISTORY_CODE = bytes.fromhex(
    "3373fffffffffffffffffffffffffffffffffffffffe14604657602036036042575f35600143038111604257611fff81430311604257611fff"
    "9006545f5260205ff35b5f5ffd5b5f35611fff60014303065500")


def queue_code(limit, revert=False):
    """A request queue with the shape of the EIP-7002/7251 predeploys: users append a calldata word, the system call
    returns (and removes) up to `limit` oldest entries.  slot 0 = head, slot 1 = tail, 2+i = entry i."""
    a = Asm()
    sysm, done, loop = a.new(), a.new(), a.new()
    a.op(0x33, push20(b"\xff" * 19 + b"\xfe"), 0x14)
    a.ref(sysm)
    a.op(0x57)
    # user: entries[tail] = calldataload(32) ^ caller ; tail += 1 ; if calldataload(32) & 7 == 7 revert
    a.op(push(1), 0x54, 0x80, push(2), 0x01, push(32), 0x35, 0x33, 0x18, 0x90, 0x55, push(1), 0x01, push(1), 0x55, 0x00)
    a.mark(sysm)
    if revert:
        a.op(push(0), push(0), 0xFD)
    a.op(push(0), push(0x40), 0x52)             # count at 0x40
    a.mark(loop)
    # if count == limit or head == tail -> done
    a.op(push(limit), push(0x40), 0x51, 0x14)
    a.ref(done)
    a.op(0x57, push(0), 0x54, push(1), 0x54, 0x14)
    a.ref(done)
    a.op(0x57)
    # mem[0x60 + 32*count] = entries[head]; head += 1; count += 1
    a.op(push(0), 0x54, push(2), 0x01, 0x54, push(0x40), 0x51, push(32), 0x02, push(0x60), 0x01, 0x52)
    a.op(push(0), 0x54, push(1), 0x01, push(0), 0x55, push(0x40), 0x51, push(1), 0x01, push(0x40), 0x52)
    a.ref(loop)
    a.op(0x56)
    a.mark(done)
    a.op(push(0x40), 0x51, push(32), 0x02, push(0x60), 0xF3)
    return a.out()


def deposit_code():
    """Logs its calldata (from byte 32 on) as a deposit event; reverts when the first word is odd."""
    from dst.ref.chain import DEPOSIT_TOPIC
    a = Asm()
    ok = a.new()
    a.op(push(32), 0x36, 0x03, push(32), push(0), 0x37)      # CALLDATACOPY(0, 32, size-32)
    a.op(push(int.from_bytes(DEPOSIT_TOPIC, "big")), push(32), 0x36, 0x03, push(0), 0xA1)
    a.op(push(0), 0x35, push(1), 0x16, 0x15)
    a.ref(ok)
    a.op(0x57, push(0), push(0), 0xFD)
    a.mark(ok)
    a.op(0x00)
    return a.out()


def deposit_data(c, bad=False):
    w = [160, 256, 320, 384, 512]
    sizes = [48, 32, 8, 96, 8]
    d = bytearray(576)
    if bad:
        k = c.draw(3)
        if k == 0:
            w[c.draw(5)] += 1
        elif k == 1:
            sizes[c.draw(5)] += 1
        else:
            d += b"\0" * 32
    for k in range(5):
        d[32 * k:32 * k + 32] = w[k].to_bytes(32, "big")
    for off, size in zip((160, 256, 320, 384, 512), sizes):
        d[off:off + 32] = size.to_bytes(32, "big")
        d[off + 32:off + 40] = bytes(c.bytes(4)) * 2
    return bytes(d)
