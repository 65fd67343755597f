"""Independent executable model of transaction execution, frontier .. osaka.

Written from the protocol definition (yellow paper and EIPs), structured
differently from the code under test: immutable-tuple accounts, whole-map
snapshots, one interpreter with fork switches.
"""
import hashlib
import sys

from dst.ref import rlp as R

sys.setrecursionlimit(60000)

(FRONTIER, HOMESTEAD, DAO, TANGERINE, SPURIOUS, BYZANTIUM, CONSTANTINOPLE, ISTANBUL, MUIR, BERLIN, LONDON, ARROW,
 GRAY, PARIS, SHANGHAI, CANCUN, PRAGUE, OSAKA) = range(18)
FORKS = ["frontier", "homestead", "dao_fork", "tangerine_whistle", "spurious_dragon", "byzantium",
         "constantinople", "istanbul", "muir_glacier", "berlin", "london", "arrow_glacier",
         "gray_glacier", "paris", "shanghai", "cancun", "prague", "osaka"]
M = (1 << 256) - 1
S = 1 << 255
EMPTY = (0, 0, b"")
SECP_N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
RIPEMD = (3).to_bytes(20, "big")
SYSTEM = bytes.fromhex("fffffffffffffffffffffffffffffffffffffffe")
keccak = R.keccak


def addr(n):
    return n.to_bytes(20, "big")


def w32(n):
    return n.to_bytes(32, "big")


class Unsupported(Exception):
    """outside what the model covers (curve arithmetic)"""


class Halt(Exception):
    """exceptional halt: consumes everything"""


class RevertEx(Exception):
    pass


# ------------------------------------------------------------------ world
class World:
    """acc: address -> (nonce, balance, code); sto: address -> {slot: value}"""

    def __init__(self):
        self.acc = {}
        self.sto = {}

    def copy(self):
        w = World()
        w.acc = dict(self.acc)
        w.sto = {a: dict(d) for a, d in self.sto.items()}
        return w

    def snap(self):
        # storage maps are replaced, never mutated, while a snapshot may exist
        return (dict(self.acc), dict(self.sto))

    def restore(self, s):
        self.acc, self.sto = dict(s[0]), dict(s[1])

    def get(self, a):
        return self.acc.get(a, EMPTY)

    def bal(self, a):
        return self.acc.get(a, EMPTY)[1]

    def put(self, a, nonce=None, balance=None, code=None):
        o = self.acc.get(a, EMPTY)
        self.acc[a] = (o[0] if nonce is None else nonce, o[1] if balance is None else balance,
                       o[2] if code is None else code)

    def sload(self, a, k):
        d = self.sto.get(a)
        return d.get(k, 0) if d else 0

    def sstore(self, a, k, v):
        d = dict(self.sto.get(a, ()))
        if v:
            d[k] = v
        else:
            d.pop(k, None)
        if d:
            self.sto[a] = d
        else:
            self.sto.pop(a, None)

    def destroy(self, a):
        self.acc.pop(a, None)
        self.sto.pop(a, None)

    def dead(self, a):
        return self.acc.get(a, EMPTY) == EMPTY

    def total(self):
        return sum(x[1] for x in self.acc.values())

    def root(self):
        return R.state_root({a: (n, b, c, self.sto.get(a, {})) for a, (n, b, c) in self.acc.items()})


class Block:
    """Environment of the block being executed."""

    def __init__(self, **kw):
        self.coinbase = b"\0" * 20
        self.number = self.time = self.gas_limit = self.base_fee = self.difficulty = 0
        self.prev_randao = b"\0" * 32
        self.excess_blob = 0
        self.chain_id = 1
        self.hashes = []          # most recent last
        self.__dict__.update(kw)

    def blockhash(self, n):
        k = self.number - n
        if k < 1 or k > 256:
            return 0
        if k > len(self.hashes):
            raise Unsupported("history not available")
        h = self.hashes[-k]
        return int.from_bytes(h, "big") if h is not None else 0


class Tx:
    """Transaction-scoped data."""

    def __init__(self, fi, world, blk, origin, price, blobs=(), hook=None):
        self.fi, self.w, self.blk, self.origin, self.price, self.blobs = fi, world, blk, origin, price, blobs
        self.tstore = {}
        self.warm_a, self.warm_s = frozenset(), frozenset()
        self.created = frozenset()
        self.touched = frozenset()
        self.destroyed = frozenset()
        self.logs = ()
        self.refund = 0
        self.orig = {a: d for a, d in world.sto.items()}
        self.hook = hook

    def snap(self):
        return (self.w.snap(), dict(self.tstore), self.warm_a, self.warm_s, self.created, self.touched,
                self.destroyed, self.logs, self.refund)

    def restore(self, s):
        rip = self.fi >= SPURIOUS and RIPEMD in self.touched
        self.w.restore(s[0])
        self.tstore = dict(s[1])
        (self.warm_a, self.warm_s, self.created, self.touched, self.destroyed, self.logs, self.refund) = s[2:]
        if rip:
            self.touched |= {RIPEMD}

    def original(self, a, k):
        if a in self.created:
            return 0
        d = self.orig.get(a)
        return d.get(k, 0) if d else 0

    def transfer(self, frm, to, v):
        if v:
            self.w.put(frm, balance=self.w.bal(frm) - v)
            self.w.put(to, balance=self.w.bal(to) + v)


def precompiles(fi):
    n = 4 if fi < BYZANTIUM else 8 if fi < ISTANBUL else 9 if fi < CANCUN else 10 if fi < PRAGUE else 17
    s = {addr(i) for i in range(1, n + 1)}
    if fi >= OSAKA:
        s.add(addr(0x100))
    return s


PRE = [frozenset(precompiles(i)) for i in range(18)]


def words(n):
    return (n + 31) // 32


# ------------------------------------------------------------- precompiles
def _modexp(fi, d):
    def num(off, ln):
        return int.from_bytes((d[off:off + ln] + b"\0" * ln)[:ln], "big") if ln else 0
    lb, le, lm = num(0, 32), num(32, 32), num(64, 32)
    if fi >= OSAKA and max(lb, le, lm) > 1024:
        raise Halt("modexp length")
    mx = max(lb, lm)
    head = num(96 + lb, min(le, 32)) if lb < (1 << 40) else 0
    hb = max(0, head.bit_length() - 1)
    if fi < BERLIN:
        it = hb if le <= 32 else 8 * (le - 32) + hb
        if mx <= 64:
            c = mx * mx
        elif mx <= 1024:
            c = mx * mx // 4 + 96 * mx - 3072
        else:
            c = mx * mx // 16 + 480 * mx - 199680
        gas = c * max(it, 1) // 20
    elif fi < OSAKA:
        it = max(1, hb if le <= 32 else 8 * (le - 32) + hb)
        gas = max(200, ((mx + 7) // 8) ** 2 * it // 3)
    else:
        it = max(1, hb if le <= 32 else 16 * (le - 32) + hb)
        c = 16 if mx <= 32 else 2 * ((mx + 7) // 8) ** 2
        gas = max(500, c * it)

    def run():
        if lb == 0 and lm == 0:
            return b""
        b, e, m = num(96, lb), num(96 + lb, le), num(96 + lb + le, lm)
        return (pow(b, e, m) if m else 0).to_bytes(lm, "big")
    return gas, run


def _ecrecover(d):
    import coincurve
    d = (d + b"\0" * 128)[:128]
    v, r, s = (int.from_bytes(d[i:i + 32], "big") for i in (32, 64, 96))
    if v not in (27, 28) or not 0 < r < SECP_N or not 0 < s < SECP_N:
        return b""
    try:
        pk = coincurve.PublicKey.from_signature_and_message(d[64:128] + bytes([v - 27]), d[:32], hasher=None)
    except Exception:
        return b""
    return b"\0" * 12 + keccak(pk.format(compressed=False)[1:])[12:]


BN_P = 21888242871839275222246405745257275088696311157297823662689037894645226208583


def run_precompile(fi, a, data, gas):
    """-> (gas_left, output); raises Halt.  Curve arithmetic is only modelled
    for trivial and invalid inputs, which is all the generator produces."""
    n = int.from_bytes(a, "big")
    ln = len(data)

    def charge(c):
        if c > gas:
            raise Halt("precompile gas")
        return gas - c
    if n == 1:
        return charge(3000), _ecrecover(data)
    if n == 2:
        return charge(60 + 12 * words(ln)), hashlib.sha256(data).digest()
    if n == 3:
        return charge(600 + 120 * words(ln)), b"\0" * 12 + hashlib.new("ripemd160", data).digest()
    if n == 4:
        return charge(15 + 3 * words(ln)), data
    if n == 5:
        c, run = _modexp(fi, data)
        return charge(c), run()
    if n in (6, 7):
        cost = (500, 150) if n == 6 else (40000, 6000)
        left = charge(cost[fi >= ISTANBUL])
        pts = [int.from_bytes((data + b"\0" * 128)[i:i + 32], "big") for i in range(0, 128 if n == 6 else 64, 32)]
        for x, y in zip(pts[::2], pts[1::2]):
            if x >= BN_P or y >= BN_P or ((x, y) != (0, 0) and (y * y - x ** 3 - 3) % BN_P):
                raise Halt("not on curve")
        if any(pts):
            raise Unsupported("bn128 arithmetic")
        return left, b"\0" * 64
    if n == 8:
        k = ln // 192
        left = charge((100000 + 80000 * k) if fi < ISTANBUL else (45000 + 34000 * k))
        if ln % 192:
            raise Halt("pairing length")
        if any(data):
            raise Unsupported("pairing")
        return left, w32(1)
    if n == 9:
        if ln != 213:
            raise Halt("blake2 length")
        raise Unsupported
    if n == 10:
        if ln != 192:
            raise Halt("kzg length")
        raise Unsupported
    if 11 <= n <= 17:
        fixed = {11: 256, 13: 512, 16: 64, 17: 128}
        if n in fixed:
            if ln != fixed[n]:
                raise Halt("bls length")
            raise Unsupported
        unit = {12: 160, 14: 288, 15: 384}[n]
        if ln == 0 or ln % unit:
            raise Halt("bls length")
        raise Unsupported
    if n == 0x100:
        left = charge(6900)
        if ln != 160:
            return left, b""
        raise Unsupported
    raise AssertionError(n)


# ---------------------------------------------------------------- frames
class Frame:
    __slots__ = ("tx", "code", "addr", "caller", "value", "data", "gas", "depth", "static", "stack", "mem", "pc", "ret",
                 "jd")


def jumpdests(code):
    out = set()
    i = 0
    while i < len(code):
        o = code[i]
        if o == 0x5B:
            out.add(i)
        elif 0x60 <= o <= 0x7F:
            i += o - 0x5F
        i += 1
    return out


def delegation(code):
    return code[3:] if len(code) == 23 and code[:3] == b"\xef\x01\x00" else None


STATS = {}
TRACE = None          # listener of executed instructions


def stat(kind, depth, ok):
    k = f"{kind}_{'ok' if ok else 'fail'}_d{min(depth, 3)}"
    STATS[k] = STATS.get(k, 0) + 1


class Result:
    __slots__ = ("ok", "gas", "out", "halt")

    def __init__(self, ok, gas, out, halt=None):
        self.ok, self.gas, self.out, self.halt = ok, gas, out, halt


def call(tx, caller, to, code_addr, value, data, gas, depth, static, transfer, code, no_pre=False):
    """A message call.  Effects are applied to tx when ok."""
    s = tx.snap()
    fi = tx.fi
    if fi < SPURIOUS:
        tx.w.acc.setdefault(to, EMPTY)
    elif fi < PARIS:
        # a touched account exists for the rest of the transaction
        tx.touched |= {to}
    if transfer:
        tx.transfer(caller, to, value)
    try:
        if code_addr in PRE[fi] and not no_pre:
            if tx.hook:
                tx.hook("pre", depth)
            left, out = run_precompile(fi, code_addr, data, gas)
            return Result(True, left, out)
        if code_addr in PRE[fi]:
            return Result(True, gas, b"")
        left, out = traced(tx, caller, to, value, data, gas, depth, static, code)
        stat("static" if static else "call", depth, True)
        return Result(True, left, out)
    except Halt as e:
        stat("static" if static else "call", depth, False)
        tx.restore(s)
        return Result(False, 0, b"", str(e) or "halt")
    except RevertEx as e:
        stat("static" if static else "call", depth, False)
        tx.restore(s)
        return Result(False, e.args[0], e.args[1])


def create(tx, caller, new, value, init, gas, depth):
    """Contract creation at `new` (collision already excluded)."""
    s = tx.snap()
    fi = tx.fi
    tx.created |= {new}
    tx.w.put(new, nonce=tx.w.get(new)[0] + (1 if fi >= SPURIOUS else 0))
    if SPURIOUS <= fi < PARIS:
        tx.touched |= {new}
    tx.transfer(caller, new, value)
    try:
        left, out = traced(tx, caller, new, value, b"", gas, depth, False, init)
        if fi >= LONDON and out[:1] == b"\xef":
            raise Halt("0xEF prefix")
        cost = 200 * len(out)
        if fi >= SPURIOUS and len(out) > 24576:
            raise Halt("code size")
        if cost > left:
            if fi >= HOMESTEAD:
                raise Halt("code deposit")
            # frontier: the contract is left without code
            return Result(True, left, b"")
        tx.w.put(new, code=out)
        stat("create", depth, True)
        return Result(True, left - cost, out)
    except Halt as e:
        stat("create", depth, False)
        tx.restore(s)
        return Result(False, 0, b"", str(e) or "halt")
    except RevertEx as e:
        stat("create", depth, False)
        tx.restore(s)
        return Result(False, e.args[0], e.args[1])


def collision(tx, a):
    n, _, c = tx.w.get(a)
    return n != 0 or c != b"" or bool(tx.w.sto.get(a))


def sgn(x):
    return x - (1 << 256) if x & S else x


def _sdiv(a, b):
    a, b = sgn(a), sgn(b)
    if b == 0:
        return 0
    q = abs(a) // abs(b)
    return (q if (a < 0) == (b < 0) else -q) & M


def _smod(a, b):
    a, b = sgn(a), sgn(b)
    if b == 0:
        return 0
    r = abs(a) % abs(b)
    return (-r if a < 0 else r) & M


def _signext(k, x):
    if k > 30:
        return x
    bit = 8 * k + 7
    return (x | (M ^ ((1 << bit) - 1))) if x >> bit & 1 else x & ((1 << bit) - 1)


BIN = {
    0x01: (3, lambda a, b: (a + b) & M), 0x02: (5, lambda a, b: (a * b) & M), 0x03: (3, lambda a, b: (a - b) & M),
    0x04: (5, lambda a, b: a // b if b else 0), 0x05: (5, _sdiv), 0x06: (5, lambda a, b: a % b if b else 0),
    0x07: (5, _smod), 0x0B: (5, _signext), 0x10: (3, lambda a, b: int(a < b)), 0x11: (3, lambda a, b: int(a > b)),
    0x12: (3, lambda a, b: int(sgn(a) < sgn(b))), 0x13: (3, lambda a, b: int(sgn(a) > sgn(b))),
    0x14: (3, lambda a, b: int(a == b)), 0x16: (3, lambda a, b: a & b), 0x17: (3, lambda a, b: a | b),
    0x18: (3, lambda a, b: a ^ b), 0x1A: (3, lambda i, x: (x >> (8 * (31 - i))) & 0xFF if i < 32 else 0),
    0x1B: (3, lambda s, x: (x << s) & M if s < 256 else 0), 0x1C: (3, lambda s, x: x >> s if s < 256 else 0),
    0x1D: (3, lambda s, x: (sgn(x) >> min(s, 256)) & M),
}
INTRO = {0x1B: CONSTANTINOPLE, 0x1C: CONSTANTINOPLE, 0x1D: CONSTANTINOPLE, 0x1E: OSAKA, 0x3D: BYZANTIUM, 0x3E: BYZANTIUM,
         0x3F: CONSTANTINOPLE, 0x46: ISTANBUL, 0x47: ISTANBUL, 0x48: LONDON, 0x49: CANCUN, 0x4A: CANCUN, 0x5C: CANCUN,
         0x5D: CANCUN, 0x5E: CANCUN, 0x5F: SHANGHAI, 0xF4: HOMESTEAD, 0xF5: CONSTANTINOPLE, 0xFA: BYZANTIUM,
         0xFD: BYZANTIUM}
DEFINED = (set(range(0x00, 0x0C)) | set(range(0x10, 0x1F)) | {0x20} | set(range(0x30, 0x4B)) | set(range(0x50, 0x60))
           | set(range(0x60, 0xA5)) | {0xF0, 0xF1, 0xF2, 0xF3, 0xF4, 0xF5, 0xFA, 0xFD, 0xFF})


def valid_op(fi, o):
    return o in DEFINED and fi >= INTRO.get(o, 0)


def blob_price(fi, excess):
    d = 3338477 if fi < PRAGUE else 5007716
    i, out, acc = 1, 0, d
    while acc > 0:
        out += acc
        acc = acc * excess // (d * i)
        i += 1
    return out // d


def traced(tx, caller, me, value, data, gas, depth, static, code):
    if TRACE is None:
        return execute(tx, caller, me, value, data, gas, depth, static, code)
    try:
        left, out = execute(tx, caller, me, value, data, gas, depth, static, code)
        TRACE.left(tx, depth, left)
        return left, out
    except Halt:
        TRACE.failed(tx, depth)
        raise
    except RevertEx as e:
        TRACE.failed(tx, depth, e.args[0])
        raise


def execute(tx, caller, me, value, data, gas, depth, static, code):
    """Run code; returns (gas_left, output), raises Halt / RevertEx(gas, out)."""
    fi, w, blk = tx.fi, tx.w, tx.blk
    st = []
    mem = bytearray()
    pc = 0
    ret = b""
    jd = None
    hook = tx.hook
    n_code = len(code)

    def pop():
        if not st:
            raise Halt("underflow")
        return st.pop()

    def popn(n):
        if len(st) < n:
            raise Halt("underflow")
        return [st.pop() for _ in range(n)]

    def push(v):
        if len(st) >= 1024:
            raise Halt("overflow")
        st.append(v)

    def use(n):
        nonlocal gas
        if n > gas:
            raise Halt("out of gas")
        gas -= n

    def memcost(*ranges):
        """gas for expansion and new size; does not expand"""
        size = len(mem)
        for off, ln in ranges:
            if ln:
                size = max(size, 32 * words(off + ln))
        a, b = size // 32, len(mem) // 32
        return (3 * a + a * a // 512) - (3 * b + b * b // 512), size

    def grow(size):
        if size > len(mem):
            mem.extend(bytes(size - len(mem)))

    def touch_mem(extra, *ranges):
        c, size = memcost(*ranges)
        use(c + extra)
        grow(size)

    def copy_in(dst, src_bytes, off, ln):
        if ln:
            chunk = src_bytes[off:off + ln] if off < len(src_bytes) else b""
            mem[dst:dst + ln] = chunk + bytes(ln - len(chunk))

    def access(a, cold_cost=2600, warm=100):
        if a in tx.warm_a:
            return warm
        tx.warm_a |= {a}
        return cold_cost

    def account_gas(a, frontier, tang, ist):
        if fi >= BERLIN:
            return access(a)
        return ist if fi >= ISTANBUL else tang if fi >= TANGERINE else frontier

    while pc < n_code:
        o = code[pc]
        if not valid_op(fi, o):
            if TRACE:
                TRACE.op(tx, depth, pc, o, gas, st, mem, ret, "invalid")
            raise Halt("invalid opcode")
        if TRACE:
            TRACE.op(tx, depth, pc, o, gas, st, mem, ret, None)
        if hook:
            hook("op", depth)
        if 0x60 <= o <= 0x7F:
            use(3)
            ln = o - 0x5F
            push(int.from_bytes((code[pc + 1:pc + 1 + ln] + bytes(ln))[:ln], "big"))
            pc += ln + 1
            continue
        if 0x80 <= o <= 0x8F:
            use(3)
            k = o - 0x7F
            if len(st) < k:
                raise Halt("underflow")
            push(st[-k])
        elif 0x90 <= o <= 0x9F:
            use(3)
            k = o - 0x8E
            if len(st) < k:
                raise Halt("underflow")
            st[-1], st[-k] = st[-k], st[-1]
        elif o in BIN:
            a, b = popn(2)
            g, f = BIN[o]
            use(g)
            push(f(a, b))
        elif o == 0x00:
            return gas, b""
        elif o == 0x08 or o == 0x09:
            a, b, n = popn(3)
            use(8)
            push(((a + b) % n if o == 8 else a * b % n) if n else 0)
        elif o == 0x0A:
            a, b = popn(2)
            use(10 + (50 if fi >= SPURIOUS else 10) * ((b.bit_length() + 7) // 8))
            push(pow(a, b, 1 << 256))
        elif o == 0x15:
            a = pop()
            use(3)
            push(int(a == 0))
        elif o == 0x19:
            a = pop()
            use(3)
            push(a ^ M)
        elif o == 0x1E:
            a = pop()
            use(5)
            push(256 - a.bit_length())
        elif o == 0x20:
            off, ln = popn(2)
            touch_mem(30 + 6 * words(ln), (off, ln))
            push(int.from_bytes(keccak(bytes(mem[off:off + ln]) if ln else b""), "big"))
        elif o == 0x30:
            use(2)
            push(int.from_bytes(me, "big"))
        elif o == 0x31:
            a = addr(pop() & ((1 << 160) - 1))
            use(account_gas(a, 20, 400, 700))
            push(w.bal(a))
        elif o == 0x32:
            use(2)
            push(int.from_bytes(tx.origin, "big"))
        elif o == 0x33:
            use(2)
            push(int.from_bytes(caller, "big"))
        elif o == 0x34:
            use(2)
            push(value)
        elif o == 0x35:
            i = pop()
            use(3)
            push(int.from_bytes((data[i:i + 32] + bytes(32))[:32], "big") if i < len(data) else 0)
        elif o == 0x36:
            use(2)
            push(len(data))
        elif o in (0x37, 0x39):
            dst, off, ln = popn(3)
            touch_mem(3 + 3 * words(ln), (dst, ln))
            copy_in(dst, data if o == 0x37 else code, off, ln)
        elif o == 0x38:
            use(2)
            push(n_code)
        elif o == 0x3A:
            use(2)
            push(tx.price)
        elif o == 0x3B:
            a = addr(pop() & ((1 << 160) - 1))
            use(account_gas(a, 20, 700, 700))
            push(len(w.get(a)[2]))
        elif o == 0x3C:
            a, dst, off, ln = popn(4)
            a = addr(a & ((1 << 160) - 1))
            touch_mem(account_gas(a, 20, 700, 700) + 3 * words(ln), (dst, ln))
            copy_in(dst, w.get(a)[2], off, ln)
        elif o == 0x3D:
            use(2)
            push(len(ret))
        elif o == 0x3E:
            dst, off, ln = popn(3)
            touch_mem(3 + 3 * words(ln), (dst, ln))
            if off + ln > len(ret):
                raise Halt("returndata bounds")
            copy_in(dst, ret, off, ln)
        elif o == 0x3F:
            a = addr(pop() & ((1 << 160) - 1))
            use(account_gas(a, 0, 400, 700))
            push(0 if w.dead(a) else int.from_bytes(keccak(w.get(a)[2]), "big"))
        elif o == 0x40:
            n = pop()
            use(20)
            push(blk.blockhash(n))
        elif o == 0x41:
            use(2)
            push(int.from_bytes(blk.coinbase, "big"))
        elif o == 0x42:
            use(2)
            push(blk.time)
        elif o == 0x43:
            use(2)
            push(blk.number)
        elif o == 0x44:
            use(2)
            push(blk.difficulty if fi < PARIS else int.from_bytes(blk.prev_randao, "big"))
        elif o == 0x45:
            use(2)
            push(blk.gas_limit)
        elif o == 0x46:
            use(2)
            push(blk.chain_id)
        elif o == 0x47:
            use(5)
            push(w.bal(me))
        elif o == 0x48:
            use(2)
            push(blk.base_fee)
        elif o == 0x49:
            i = pop()
            use(3)
            push(int.from_bytes(tx.blobs[i], "big") if i < len(tx.blobs) else 0)
        elif o == 0x4A:
            use(2)
            push(blob_price(fi, blk.excess_blob))
        elif o == 0x50:
            pop()
            use(2)
        elif o == 0x51:
            off = pop()
            touch_mem(3, (off, 32))
            push(int.from_bytes(mem[off:off + 32], "big"))
        elif o == 0x52:
            off, v = popn(2)
            touch_mem(3, (off, 32))
            mem[off:off + 32] = w32(v)
        elif o == 0x53:
            off, v = popn(2)
            touch_mem(3, (off, 1))
            mem[off] = v & 0xFF
        elif o == 0x54:
            k = pop()
            if fi >= BERLIN:
                if (me, k) in tx.warm_s:
                    use(100)
                else:
                    tx.warm_s |= {(me, k)}
                    use(2100)
            else:
                use(800 if fi >= ISTANBUL else 200 if fi >= TANGERINE else 50)
            push(w.sload(me, k))
        elif o == 0x55:
            k, v = popn(2)
            sstore_gas = 0
            cur = w.sload(me, k)
            if fi < ISTANBUL:
                use(20000 if v and not cur else 5000)
                if static:
                    raise Halt("static")
                if cur and not v:
                    tx.refund += 15000
            else:
                if gas <= 2300:
                    raise Halt("sstore stipend")
                orig = tx.original(me, k)
                sload = 800 if fi < BERLIN else 100
                reset = 5000 if fi < BERLIN else 2900
                clear = 15000 if fi < LONDON else 4800
                if fi >= BERLIN and (me, k) not in tx.warm_s:
                    tx.warm_s |= {(me, k)}
                    sstore_gas += 2100
                if cur == v:
                    sstore_gas += sload
                elif orig == cur:
                    sstore_gas += 20000 if orig == 0 else reset
                else:
                    sstore_gas += sload
                use(sstore_gas)
                if static:
                    raise Halt("static")
                if cur != v:
                    if orig == cur:
                        if orig and not v:
                            tx.refund += clear
                    else:
                        if orig:
                            if not cur:
                                tx.refund -= clear
                            elif not v:
                                tx.refund += clear
                        if orig == v:
                            tx.refund += (20000 if orig == 0 else reset) - sload
            w.sstore(me, k, v)
        elif o == 0x56 or o == 0x57:
            if o == 0x56:
                d = pop()
                use(8)
                go = True
            else:
                d, c = popn(2)
                use(10)
                go = c != 0
            if go:
                if jd is None:
                    jd = jumpdests(code)
                if d not in jd:
                    raise Halt("bad jump")
                pc = d
                continue
        elif o == 0x58:
            use(2)
            push(pc)
        elif o == 0x59:
            use(2)
            push(len(mem))
        elif o == 0x5A:
            use(2)
            push(gas)
        elif o == 0x5B:
            use(1)
        elif o == 0x5C:
            k = pop()
            use(100)
            push(tx.tstore.get((me, k), 0))
        elif o == 0x5D:
            k, v = popn(2)
            use(100)
            if static:
                raise Halt("static")
            tx.tstore[(me, k)] = v
        elif o == 0x5E:
            dst, src, ln = popn(3)
            touch_mem(3 + 3 * words(ln), (dst, ln), (src, ln))
            if ln:
                mem[dst:dst + ln] = bytes(mem[src:src + ln])
        elif o == 0x5F:
            use(2)
            push(0)
        elif 0xA0 <= o <= 0xA4:
            n = o - 0xA0
            off, ln = popn(2)
            topics = [w32(x) for x in popn(n)]
            touch_mem(375 + 375 * n + 8 * ln, (off, ln))
            if static:
                raise Halt("static")
            tx.logs += ((me, tuple(topics), bytes(mem[off:off + ln]) if ln else b""),)
        elif o in (0xF0, 0xF5):
            v, off, ln = popn(3)
            salt = pop() if o == 0xF5 else 0
            extra = 32000
            if o == 0xF5:
                extra += 6 * words(ln)
            if fi >= SHANGHAI:
                extra += 2 * words(ln)
            touch_mem(extra, (off, ln))
            init = bytes(mem[off:off + ln]) if ln else b""
            if fi >= SHANGHAI and ln > 49152:
                raise Halt("initcode size")
            if static:
                raise Halt("static")
            child = gas if fi < TANGERINE else gas - gas // 64
            gas -= child
            ret = b""
            nonce = w.get(me)[0]
            if w.bal(me) < v or nonce == 2**64 - 1 or depth + 1 > 1024:
                gas += child
                push(0)
            else:
                if o == 0xF0:
                    new = keccak(R.enc([me, R.int_b(nonce)]))[12:]
                else:
                    new = keccak(b"\xff" + me + w32(salt) + keccak(init))[12:]
                if fi >= BERLIN:
                    tx.warm_a |= {new}
                w.put(me, nonce=nonce + 1)
                if collision(tx, new):
                    push(0)
                else:
                    r = create(tx, me, new, v, init, child, depth + 1)
                    gas += r.gas
                    if r.ok:
                        push(int.from_bytes(new, "big"))
                    else:
                        ret = r.out
                        push(0)
        elif o in (0xF1, 0xF2, 0xF4, 0xFA):
            if o in (0xF1, 0xF2):
                want, t, v, io, il, oo, ol = popn(7)
            else:
                want, t, io, il, oo, ol = popn(6)
                v = 0
            t = addr(t & ((1 << 160) - 1))
            extra = account_gas(t, 40, 700, 700)
            code_addr, c_code, no_pre = t, w.get(t)[2], False
            if fi >= PRAGUE:
                dl = delegation(c_code)
                if dl is not None:
                    extra += access(dl)
                    code_addr, c_code, no_pre = dl, w.get(dl)[2], True
            if v:
                extra += 9000
            if o == 0xF1:
                if fi < SPURIOUS:
                    # an account touched in this transaction exists
                    if t not in w.acc:
                        extra += 25000
                elif v and w.dead(t):
                    extra += 25000
            mc, size = memcost((io, il), (oo, ol))
            if fi < TANGERINE:
                sub = want
                use(mc + extra + sub)
            else:
                if gas < mc + extra:
                    raise Halt("out of gas")
                avail = gas - mc - extra
                sub = min(want, avail - avail // 64)
                use(mc + extra + sub)
            if static and o == 0xF1 and v:
                raise Halt("static")
            grow(size)
            if v:
                sub += 2300
            ret = b""
            if (o in (0xF1, 0xF2) and w.bal(me) < v) or depth + 1 > 1024:
                gas += sub
                push(0)
            else:
                arg = bytes(mem[io:io + il]) if il else b""
                if o == 0xF1:
                    r = call(tx, me, t, code_addr, v, arg, sub, depth + 1, static, True, c_code, no_pre)
                elif o == 0xF2:
                    r = call(tx, me, me, code_addr, v, arg, sub, depth + 1, static, True, c_code, no_pre)
                elif o == 0xF4:
                    r = call(tx, caller, me, code_addr, value, arg, sub, depth + 1, static, False, c_code, no_pre)
                else:
                    r = call(tx, me, t, code_addr, 0, arg, sub, depth + 1, True, True, c_code, no_pre)
                gas += r.gas
                ret = r.out
                push(int(r.ok))
                n = min(ol, len(ret))
                if n:
                    mem[oo:oo + n] = ret[:n]
        elif o == 0xF3 or o == 0xFD:
            off, ln = popn(2)
            touch_mem(0, (off, ln))
            out = bytes(mem[off:off + ln]) if ln else b""
            if o == 0xFD:
                raise RevertEx(gas, out)
            return gas, out
        elif o == 0xFF:
            t = addr(pop() & ((1 << 160) - 1))
            cost = 5000 if fi >= TANGERINE else 0
            if fi >= BERLIN and t not in tx.warm_a:
                tx.warm_a |= {t}
                cost += 2600
            b = w.bal(me)
            if fi >= SPURIOUS:
                if w.dead(t) and b:
                    cost += 25000
            elif fi >= TANGERINE and t not in w.acc:
                cost += 25000
            use(cost)
            if static:
                raise Halt("static")
            if fi < LONDON and me not in tx.destroyed:
                tx.refund += 24000
            if fi < SPURIOUS:
                w.acc.setdefault(t, EMPTY)
            elif fi < PARIS:
                tx.touched |= {t}
            if fi < CANCUN or me in tx.created:
                if b:
                    w.put(t, balance=w.bal(t) + b)
                    w.put(me, balance=0)
                tx.destroyed |= {me}
            elif t != me and b:
                w.put(t, balance=w.bal(t) + b)
                w.put(me, balance=0)
            return gas, b""
        else:
            raise AssertionError(hex(o))
        pc += 1
    if TRACE and n_code:
        TRACE.op(tx, depth, pc, 0, gas, st, mem, ret, "stop")
    return gas, b""
