"""Network simulation (C01, C02, C04, C05, C07, C12).

Real nodes of one fork on a simulated network, fed by honest and Byzantine
producers.  The simulator owns delivery (order, loss, duplication, delay,
partition), crashes and restarts.  Every delivery is judged by the reference
model; blocks are built by the model, so a Byzantine block can break exactly
one rule while everything it commits to is consistent.
"""
import os
import shutil
import tempfile

from dst.core import HarnessError
from dst.gen import prog
from dst.gen import world as G
from dst.ref import chain as C
from dst.ref import evm as E
from dst.ref import rlp as R
from dst.ref.evm import (BERLIN, BYZANTIUM, CANCUN, DAO, HOMESTEAD, LONDON, OSAKA, PARIS, PRAGUE, SHANGHAI, SPURIOUS)
from dst.scen import execsim
from dst.scen import node as N

PREFIX = {}
OPTIMIZED = False
STYLE = {
    "valid": {"call": 1},
    "agree": {"call": 2, "create": 2, "sd": 2, "system": 2, "auth": 2},
    "hashes": {},
    "ommers": {},
    "requests": {"system": 8, "call": 2, "revert": 2},
    "replay": {"auth": 5},
}
PROBE = R.keccak(b"probe")[:20]
ECHO = R.keccak(b"echo")[:20]


def setup(env):
    global OPTIMIZED
    OPTIMIZED = bool(env.get("optimized"))
    N.setup(env)
    if env.get("preload"):
        for f in env["forks"]:
            PREFIX[f] = synthetic(N.MODS[f].fi)


# ------------------------------------------------------------ synthetic past
def synthetic(fi, n=304):
    """A linked chain of empty-looking headers, to start a run deep inside a chain without executing it."""
    rules = C.Rules(fi, 1, None)
    out, tip = [], None
    w = E.World()
    for k in range(n):
        rec = C.genesis(rules, w, number=k, ts=1000 + 13 * k, hash_salt=b"%d" % k)
        h = list(rec.header)
        if tip is not None:
            h[C.PARENT] = tip.hash
        h[C.GU] = R.int_b(C.i(h[C.GL]) // 2)
        tip = C.Rec(C.body_of(fi, h, [], [], []), tip, None)
        out.append(tip)
    return out


def probe_code():
    """calldata: pairs (op selector, argument) -> storage[pair index + base] = result; base is the first word."""
    a = prog.Asm()
    # i = 32
    a.op(0x60, 0x20)                       # [i]
    loop, end = a.new(), a.new()
    a.mark(loop)
    a.op(0x36, 0x81, 0x10, 0x15)           # i < calldatasize ; iszero
    a.ref(end)
    a.op(0x57)
    a.op(0x80, 0x35)                       # [i, arg]
    a.op(0x40)                             # [i, blockhash(arg)]
    a.op(0x81, 0x60, 0x00, 0x35, 0x01)     # [i, h, i + base]
    a.op(0x55)                             # sstore(i + base, h)
    a.op(0x60, 0x20, 0x01)                 # [i + 32]
    a.ref(loop)
    a.op(0x56)
    a.mark(end)
    a.op(0x00)
    return a.out()


def echo_code():
    """calldata: target ++ base ++ words; calls target with each word and stores the returned word (or 7 on failure)."""
    a = prog.Asm()
    a.op(0x60, 0x40)                       # [i]
    loop, end, ok = a.new(), a.new(), a.new()
    a.mark(loop)
    a.op(0x36, 0x81, 0x10, 0x15)
    a.ref(end)
    a.op(0x57)
    a.op(0x80, 0x35, 0x60, 0x00, 0x52)     # mem[0] = arg
    a.op(0x60, 0x20, 0x60, 0x20, 0x60, 0x20, 0x60, 0x00, 0x60, 0x00)  # outsz=32 out=32 insz=32 in=0 value=0
    a.op(0x60, 0x00, 0x35, 0x5a, 0xf1)     # call(gas, target, ...)
    a.ref(ok)
    a.op(0x57)
    a.op(0x60, 0x07, 0x60, 0x20, 0x52)
    a.mark(ok)
    a.op(0x60, 0x20, 0x51)                 # [i, r]
    a.op(0x81, 0x60, 0x20, 0x35, 0x01, 0x55)
    a.op(0x60, 0x20, 0x01)
    a.ref(loop)
    a.op(0x56)
    a.mark(end)
    a.op(0x00)
    return a.out()


# ------------------------------------------------------------------- one run
class Sim:
    def __init__(self, ctx):
        self.ctx, self.c = ctx, ctx.c
        self.mode = ctx.params["mode"]
        self.m = N.MODS[ctx.params["fork"]]
        self.fi = self.m.fi
        self.setup()
        self.tree = {self.gen.hash: self.gen}     # every block the model accepts
        self.honest = []                          # raw blocks of honest producers, in order of production
        self.evil = []
        self.net = []                             # (destination, raw) in flight
        self.cut = set()                          # partitioned nodes
        self.verdicts = {}
        self.seen_txs = []
        self.twin_at = []
        self.nodes = [Node(self, n) for n in range(1 if self.mode in ("hashes", "requests", "ommers") else self.c.int(1, 2)
                                                   if self.mode != "agree" else 2)]

    def setup(self):
        c, fi, mode = self.c, self.fi, self.mode
        fork_block, number = 0, 0
        if fi in (LONDON, DAO):
            fork_block = c.choice([0, 1, 2, 50]) if mode in ("valid", "agree") else 0
        if mode in ("valid", "agree") and fi < PARIS and c.bool(0.3):
            number = C.BOMB.get(fi, 0) + c.choice([199_998, 250_000, 1_200_000])
            if fi == LONDON and c.bool(0.5):
                fork_block = number + 1
        if fi in (LONDON, DAO):
            execsim.set_fork_block(self.m, fork_block)
        chain_id = c.choice([1, 5])
        self.su = su = G.Setup(c, fi, STYLE[mode], chain_id, 2 if mode in ("ommers", "hashes") else 4, fork_block)
        self.rules = su.rules
        self.coded = self.maxed = None
        if mode in ("valid", "replay") and c.bool(0.5):
            self.maxed = 3
            su.world.put(su.eoas[3], nonce=2**64 - 1 - c.draw(2))
        if mode in ("valid", "replay") and c.bool(0.4):
            self.coded = 2
            su.world.put(su.eoas[2], code=c.choice([b"\x00", b"\x60\x00", b"\xef\x01\x00" + su.contracts[0],
                                                    b"\xef\x01\x00" + su.contracts[0][1:]]), nonce=1)
        if mode == "hashes":
            su.world.put(PROBE, nonce=1, code=probe_code())
            su.world.put(ECHO, nonce=1, code=echo_code())
        gl = c.weighted([(8, 8_000_000), (3, 3_000_000), (2, 60_000_000 if fi >= OSAKA else 20_000_000),
                         (1, 5000)]) if mode == "valid" else 8_000_000
        if self.m.name in PREFIX and mode == "hashes":
            n = c.choice([1, 2, 3, 40, 253, 254, 255, 256, 257, 258, 300])
            base = PREFIX[self.m.name][n - 1]
            self.gen = C.Rec(base.body, base.parent, su.world)
        else:
            self.gen = C.genesis(self.rules, su.world, number=number, gas_limit=gl,
                                 ts=c.choice([1000, 10**9]), diff=c.choice([131072 * 40, 131072, 131072 + 70, 2**40]),
                                 base=c.choice([1000, 7, 10**9]),
                                 excess=c.choice([0, 131072 * 2, 131072 * 200]))

    # ---------------------------------------------------------------- oracle
    def judge(self, raw, tip):
        """(rec, None) if the model accepts raw on tip, else (None, rule)."""
        key = (tip.hash, R.keccak(raw))
        if key not in self.verdicts:
            try:
                self.verdicts[key] = (C.validate(self.rules, raw, tip), None)
            except C.Bad as e:
                self.verdicts[key] = (None, e.rule)
        return self.verdicts[key]

    def known(self, rec):
        self.tree.setdefault(rec.hash, rec)

    # ------------------------------------------------------------- producers
    def times(self, tip):
        c = self.c
        return C.i(tip.header[C.TS]) + c.choice([13, 1, 8, 9, 10, 12, 20, 100, 1000])

    def skeleton(self, tip, plain=False):
        c, fi = self.c, self.fi
        p = tip.header
        gl, extra = None, b""
        if not plain and c.bool(0.25):
            pgl = C.i(p[C.GL]) * (2 if fi == LONDON and tip.number + 1 == self.rules.fork_block else 1)
            d = pgl // 1024
            gl = c.choice([pgl, pgl + d - 1, pgl - d + 1, pgl + d // 2])
            gl = max(gl, 5000)
            if not pgl - d < gl < pgl + d:
                gl = pgl
        elif fi == LONDON and tip.number + 1 == self.rules.fork_block:
            gl = 2 * C.i(p[C.GL])
        if not plain and c.bool(0.15):
            extra = b"x" * c.choice([32, 1, 31])
        nonce = bytes([c.draw(255)]) * 8 if fi < PARIS and c.bool(0.2) else b"\0" * 8
        h = C.skeleton(self.rules, tip, c.choice(self.su.miners), self.times(tip), gas_limit=gl, extra=extra,
                       randao=c.choice([b"\x07" * 32, b"\0" * 32, b"\xff" * 32]) if fi >= PARIS else b"\0" * 32,
                       beacon=R.keccak(b"beacon%d" % tip.depth) if fi >= CANCUN else b"")
        h[C.NONCE] = nonce
        return h

    def withdrawals(self):
        c = self.c
        if self.fi < SHANGHAI:
            return []
        pool = self.su.pool + [G.NOBODY[2], b"\0" * 20]
        few = 6 if self.mode == "requests" else 3
        wd = []
        for j in range(c.draw(few)):
            wd.append([R.int_b(j + c.draw(2)), R.int_b(c.draw(9)), c.choice(pool),
                       R.int_b(c.choice([1, 0, 10**9, 32 * 10**9, 2**64 - 1]))])
        if wd and c.bool(0.15):
            wd.append(list(c.choice(wd)))
        return wd

    def plan(self, tip, mean, plain=False, cut=0.15, extra_first=None, extra_last=None):
        """Header + valid transactions on tip."""
        ctx, c, fi, su = self.ctx, self.c, self.fi, self.su
        h = self.skeleton(tip, plain)
        w = tip.world.copy()
        blk = C.environment(self.rules, h, tip)
        out = C.Out()
        C.start_block(fi, w, blk, h[C.PARENT], h[C.BEACON] if fi >= CANCUN else b"")
        bp = E.blob_price(fi, blk.excess_blob) if fi >= CANCUN else 0
        txs = []

        def add(raw):
            nonlocal w, out
            w2, o2 = w.copy(), execsim.clone(out)
            try:
                C.process_tx(fi, w2, blk, o2, raw)
            except C.Bad:
                return False
            w, out = w2, o2
            txs.append(raw)
            return True
        for raw in extra_first or ():
            add(raw)
        if C.i(h[C.GL]) >= 400_000:
            for _ in c.steps(mean, 5):
                d = self.probe_tx(w, blk) if self.mode == "hashes" and c.bool(0.8) else su.tx_fields(w, blk.base_fee)
                if su.fit_gas(d, w, blk, out, cut):
                    ctx.fault("gas_exhaustion_point")
                raw = su.sign(d, bp)
                if add(raw):
                    self.seen_txs.append((raw, d))
        for raw in extra_last or ():
            add(raw)
        return h, txs, (w, blk, out)

    def probe_tx(self, w, blk):
        """A transaction asking for ancestor hashes, stored history or beacon roots."""
        c, fi, su = self.c, self.fi, self.su
        d = su.tx_fields(w, blk.base_fee, key=c.draw(2))
        if d["kind"] >= 3:
            d["kind"] = 0
        n = blk.number
        what = c.draw(3 if fi >= PRAGUE else 2 if fi >= CANCUN else 1)
        d["value"], d["al"] = 0, []
        base = E.w32(c.draw(1000) * 4096)
        if what == 0:
            d["to"] = PROBE
            ks = [c.choice([1, 2, 3, 255, 256, 257, 254, 0, -1, 100, 128, n]) for _ in range(c.int(1, 5))]
            d["data"] = base + b"".join(E.w32((n - k) % 2**256) for k in ks)
            if c.bool(0.1):
                d["data"] += E.w32(c.choice([2**64, 2**256 - 1, 2**255]))
        elif what == 1:
            d["to"] = ECHO
            ts = [c.choice([blk.time, blk.time - 13, blk.time - 1, 0, blk.time + 1, blk.time - 8191]) for _ in range(3)]
            d["data"] = C.BEACON_ROOTS.rjust(32, b"\0") + base + b"".join(E.w32(t % 2**256) for t in ts)
        else:
            d["to"] = ECHO
            ks = [c.choice([1, 2, 0, 3, 255, 256, 8191, n]) for _ in range(3)]
            d["data"] = C.HISTORY.rjust(32, b"\0") + base + b"".join(E.w32((n - k) % 2**256) for k in ks)
        d["gas"], d["fixed"] = 400_000, True
        return d

    def finish(self, tip, h, txs, omm, wd, skip=()):
        """Execute and commit; returns (raw, rec)."""
        w, out = C.state_only(self.rules, h, tip, txs, omm, wd, skip=skip)
        body = C.body_of(self.fi, h, txs, omm, wd)
        return R.enc(body), C.Rec(body, tip, w, out)

    def honest_block(self, tip, mean=2.0):
        c = self.c
        first = None
        if self.mode == "replay" and self.seen_txs and c.bool(0.6):
            first = [c.choice(self.seen_txs)[0] for _ in range(c.int(1, 3))]      # re-inclusion on another branch
        elif self.mode == "replay" and c.bool(0.4):
            first = self.auth_again(tip)
        elif self.mode == "requests" and self.fi >= PRAGUE and c.bool(0.35):
            first = self.request_txs(tip, c.int(2, 5))
        elif self.mode == "agree" and c.bool(0.5):
            first = self.twins(tip)
        elif self.mode in ("requests", "valid") and c.bool(0.02):
            first = self.many(tip)
        for _ in range(3):
            h, txs, (w, blk, out) = self.plan(tip, mean, extra_first=first)
            omm = []
            if self.fi < PARIS and c.bool(0.7 if self.mode == "ommers" else 0.15):
                omm = self.good_ommers(h, tip)
            try:
                raw, rec = self.finish(tip, h, txs, omm, self.withdrawals())
            except C.Bad:
                continue          # e.g. a malformed deposit log spoiled it: nothing an honest producer publishes
            break
        else:
            h = self.skeleton(tip, True)
            try:
                raw, rec = self.finish(tip, h, [], [], [])
            except C.Bad:
                return None
        for t in rec.out.txs:
            self.ctx.probe("tx_ok" if t["ok"] else "tx_failed")
        self.known(rec)
        if c.bool(0.1):
            rec2, rule = self.judge(raw, tip)
            if rec2 is None:
                raise HarnessError(f"model refuses its own block: {rule}")
        else:
            self.verdicts[(tip.hash, R.keccak(raw))] = (rec, None)
        return raw, rec

    # ---------------------------------------------------------------- ommers
    def make_ommer(self, anc, salt=None):
        """A valid-looking header of a block that was never adopted, child of anc."""
        c, fi = self.c, self.fi
        # an uncle of the london fork block itself may scale its gas limit as well
        h = C.skeleton(self.rules, anc, c.choice(self.su.miners + [G.NOBODY[1]]), self.times(anc))
        for k in (C.SROOT, C.TXROOT, C.RCROOT):
            h[k] = R.keccak(b"ommer%d%d" % (k, c.draw(50) if salt is None else salt))
        h[C.BLOOM] = b"\0" * 256
        h[C.GU] = R.int_b(c.draw(21000))
        h[C.MIX] = C.seal(h)
        return h

    def headers_around(self, tip):
        """Headers of known blocks that are not on tip's chain."""
        on = {b.hash for b in tip.chain(12)}
        return [b for x, b in self.tree.items() if x not in on and b.parent is not None]

    def good_ommers(self, h, tip):
        c = self.c
        num = C.i(h[C.NUM])
        out = []
        for _ in range(c.int(1, 2)):
            cands = [b.header for b in self.headers_around(tip) if 1 <= num - b.number <= 6]
            if cands and c.bool(0.5):
                o = c.choice(cands)
            else:
                age = c.int(1, 6)
                anc = tip.ancestor(num - age - 1)
                if anc is None or anc.number < self.gen.number:
                    continue
                o = self.make_ommer(anc)
            try:
                hh = list(h)
                hh[C.OMM] = R.keccak(R.enc(out + [o]))
                C.check_ommers(self.rules, hh, out + [o], tip)
            except C.Bad:
                continue
            out.append(o)
        if out:
            self.ctx.probe("ommers_included", len(out))
        return out

    def bad_ommers(self, h, tip):
        """-> (ommers, rules to skip)"""
        c = self.c
        num = C.i(h[C.NUM])
        kind = c.choice(["ancestor", "used", "duplicate", "sibling", "age7", "count", "header", "parent", "hash", "self_future",
                         "used", "age0"])
        self.ctx.fault("byz_ommer_" + kind)

        def fresh(age, salt=None):
            anc = tip.ancestor(num - age - 1)
            if anc is None:
                anc = self.gen
            return self.make_ommer(anc, salt)
        if kind == "ancestor":
            b = c.choice(tip.chain(min(7, tip.depth - self.gen.depth + 1)))
            return [b.header]
        if kind == "used":
            used = [o for b in tip.chain(7) for o in b.body[2]]
            if used:
                return [c.choice(used)] + ([fresh(c.int(1, 3))] if c.bool(0.3) else [])
            o = fresh(2)
            return [o, o]
        if kind == "duplicate":
            o = fresh(c.int(1, 6))
            return [o, list(o)]
        if kind == "sibling":
            return [self.make_ommer(tip)]
        if kind == "age7":
            return [fresh(c.choice([7, 8]))]
        if kind == "count":
            a = c.int(1, 4)
            return [fresh(a, 1), fresh(a, 2), fresh(c.int(1, 4), 3)]
        if kind == "header":
            o = fresh(c.int(1, 4))
            k = c.choice([C.TS, C.GL, C.DIFF, C.EXTRA, C.MIX, C.GU, C.NONCE] + ([C.BASEFEE] if self.fi >= LONDON else []))
            p = tip.ancestor(C.i(o[C.NUM]) - 1) or self.gen
            p = p.header
            if k == C.TS:
                o[k] = R.int_b(C.i(p[C.TS]) - c.draw(2))
                o[C.DIFF] = R.int_b(C.difficulty(self.fi, C.i(o[C.NUM]), C.i(o[k]), p))
            elif k == C.GL:
                o[k] = R.int_b(C.i(p[k]) + c.choice([1, -1]) * (C.i(p[k]) // 1024))
            elif k == C.DIFF:
                o[k] = R.int_b(C.i(o[k]) + c.choice([1, -1, 2048]))
            elif k == C.EXTRA:
                o[k] = b"y" * 33
            elif k == C.GU:
                o[k] = R.int_b(C.i(o[C.GL]) + 1)
            elif k == C.BASEFEE:
                o[k] = R.int_b(C.i(o[k]) + 1)
            if k == C.NONCE:
                o[k] = b"\xff" * 8
            o[C.MIX] = C.seal(o) if k != C.MIX else b"\1" * 32
            return [o]
        if kind == "parent":
            side = [b for b in self.headers_around(tip) if 1 <= num - b.number <= 6]
            anc = c.choice(side) if side else None
            o = self.make_ommer(anc) if anc else fresh(2)
            if not anc:
                o[C.PARENT] = R.keccak(b"nowhere")
                o[C.MIX] = C.seal(o)
            return [o]
        if kind in ("self_future", "age0"):
            o = fresh(1)
            o[C.NUM] = R.int_b(num + (1 if kind == "self_future" else 0))
            o[C.MIX] = C.seal(o)
            return [o]
        return [fresh(c.int(1, 3))]

    # ------------------------------------------------------------- byzantine
    KINDS = {
        "valid": [(6, "field"), (2, "shape"), (4, "body"), (12, "header"), (14, "tx"), (2, "seal"), (2, "ommer"), (4, "state"),
                  (2, "wd"), (2, "requests"), (2, "rlp"), (2, "reparent"), (3, "edge"), (1, "system")],
        "agree": [(3, "field"), (2, "body"), (2, "state"), (1, "rlp")],
        "hashes": [(2, "state"), (1, "header"), (1, "field")],
        "ommers": [(12, "ommer"), (4, "reward"), (1, "body"), (1, "header")],
        "requests": [(8, "requests"), (6, "wd"), (2, "field"), (2, "state"), (3, "deposit")],
        "replay": [(8, "replay"), (4, "auth"), (4, "tx"), (1, "reparent")],
    }

    def evil_block(self, tip):
        """A block that breaks something (not necessarily invalid: the verdict comes from the model)."""
        c = self.c
        pool = [(w, k) for w, k in self.KINDS[self.mode]
                if not (k in ("seal", "reward") and self.fi >= PARIS) and not (k == "wd" and self.fi < SHANGHAI)
                and not (k in ("requests", "deposit", "auth", "system") and self.fi < PRAGUE)]
        kind = c.weighted(pool)
        try:
            raw = getattr(self, "evil_" + kind)(tip)
        except C.Bad:                       # the block before the mutation is already refused
            self.ctx.count("unusable_" + kind)
            raw = None
        if raw is None:
            return None
        self.ctx.fault("byz_" + kind)
        return raw

    def seal(self, h):
        if self.fi < PARIS:
            h[C.MIX] = C.seal(h)

    def base_block(self, tip, mean=1.0):
        """Parts of a valid block: (h, txs, omm, wd, world, out)"""
        c = self.c
        h, txs, _ = self.plan(tip, mean)
        omm = self.good_ommers(h, tip) if self.fi < PARIS and c.bool(0.1) else []
        wd = self.withdrawals()
        try:
            w, out = C.state_only(self.rules, h, tip, txs, omm, wd)
        except C.Bad:
            h, txs, omm = self.skeleton(tip, True), [], []
            w, out = C.state_only(self.rules, h, tip, txs, omm, wd)
        return h, txs, omm, wd, w, out

    def pack(self, h, txs, omm, wd):
        return R.enc(C.body_of(self.fi, h, txs, omm, wd))

    def fallback(self, tip, h, txs, omm, wd, skip=()):
        """Seal a block even if the model cannot execute it."""
        try:
            C.state_only(self.rules, h, tip, txs, omm, wd, skip=skip)
        except (C.Bad, OverflowError):
            self.ctx.count("byz_unexecutable")
            C.commitments(self.fi, h, tip.world, C.Out(), txs, omm, wd)
            self.seal(h)
        return self.pack(h, txs, omm, wd)

    def evil_field(self, tip):
        c = self.c
        h, txs, omm, wd, w, out = self.base_block(tip)
        k = c.draw(len(h))
        v = h[k]
        if k in (C.DIFF, C.NUM, C.GL, C.GU, C.TS, C.BASEFEE, C.BLOBGAS, C.EXCESS):
            n = C.i(v)
            h[k] = c.choice([R.int_b(n + 1), R.int_b(max(0, n - 1)), b"", R.int_b(n * 2), R.int_b(n + 131072), b"\0" + v,
                             b"\xff" * 9, b"\xff" * 33, R.int_b(max(0, n - 131072))])
        else:
            b = bytearray(v)
            if b:
                b[c.choice([0, len(b) - 1, c.draw(len(b))])] ^= c.choice([1, 0x80, 0xff])
            h[k] = c.choice([bytes(b), bytes(b), b"", v[:-1], v + b"\0", tip.header[k] if k < len(tip.header) else v,
                             b"\0" * len(v)])
        if c.bool(0.9):
            self.seal(h)
        self.ctx.probe("field_" + C.HEADER_FIELDS[k])
        return self.pack(h, txs, omm, wd)

    def evil_shape(self, tip):
        c = self.c
        h, txs, omm, wd, w, out = self.base_block(tip)
        k = c.draw(6)
        body = C.body_of(self.fi, h, txs, omm, wd)
        if k == 0:
            h.pop()
        elif k == 1:
            h.append(c.choice([b"", b"\1", b"\0" * 32]))
        elif k == 2:
            body.append([])
        elif k == 3:
            body.pop()
        elif k == 4:
            body[1] = list(txs) + [c.choice([b"", b"\x05" + R.enc([]), b"\x7f", [], [b""] * 9, b"\x02"])]
        else:
            body[2] = [h[:5]]
        if k in (0, 1) and self.fi < PARIS and len(h) > C.NONCE:
            self.seal(h)
        return R.enc(body)

    def evil_body(self, tip):
        """Body altered under an unchanged header."""
        c = self.c
        h, txs, omm, wd, w, out = self.base_block(tip, 2.5)
        txs, wd = list(txs), list(wd)
        what = c.draw(5)
        if what == 4 and wd:
            k = c.draw(len(wd))
            e = list(wd[k])
            f = c.draw(4)
            e[f] = R.int_b(C.i(e[f]) + 1) if f != 2 else c.choice(self.su.pool)
            wd[k] = e
        elif not txs:
            wd, omm = wd[1:], omm[1:]
            if self.fi < PARIS and not omm and c.bool(0.5):
                omm = self.good_ommers(h, tip)
            else:
                txs = [c.choice(self.seen_txs)[0]] if self.seen_txs else txs
        elif what == 0:
            txs.pop(c.draw(len(txs)))
        elif what == 1:
            txs.insert(c.draw(len(txs) + 1), c.choice(txs))
        elif what == 2 and len(txs) > 1:
            k = c.draw(len(txs) - 1)
            txs[k], txs[k + 1] = txs[k + 1], txs[k]
        else:
            k = c.draw(len(txs))
            t = txs[k]
            if isinstance(t, bytes):
                b = bytearray(t)
                b[c.draw(len(b))] ^= 1 << c.draw(8)
                txs[k] = bytes(b)
            else:
                t = list(t)
                f = c.draw(9)
                b = bytearray(t[f]) or bytearray(b"\1")
                b[c.draw(len(b))] ^= 1 << c.draw(8)
                t[f] = bytes(b)
                txs[k] = t
        return self.pack(h, txs, omm, wd)

    def evil_header(self, tip):
        """A header rule broken, everything committed to consistently."""
        c, fi = self.c, self.fi
        h = self.skeleton(tip, True)
        p = tip.header
        kinds = ["gas_limit", "gas_limit", "gas_min", "timestamp", "extra", "number", "stale", "difficulty", "gas_used"]
        kinds += ["base_fee"] * 2 if fi >= LONDON else []
        kinds += ["excess"] * 2 if fi >= CANCUN else []
        kinds += ["nonce", "omm_hash", "ommers"] if fi >= PARIS else []
        kinds += ["dao"] * 2 if fi == DAO else []
        kind = c.choice(kinds)
        skip = ()
        txs, wd = [], self.withdrawals()
        if kind == "gas_limit":
            g = C.i(p[C.GL]) * (2 if fi == LONDON and tip.number + 1 == self.rules.fork_block else 1)
            d = g // 1024
            h[C.GL] = R.int_b(c.choice([g + d, g - d, g + d + 1, g - d - 1, g * 2, g // 2, g + d - 1, g - d + 1]))
        elif kind == "gas_min":
            h[C.GL] = R.int_b(c.choice([4999, 5000, 1]))
        elif kind == "timestamp":
            h[C.TS] = R.int_b(max(0, C.i(p[C.TS]) - c.choice([0, 1, 0, 13, 10**9])))
            if fi < PARIS:
                h[C.DIFF] = R.int_b(C.difficulty(fi, C.i(h[C.NUM]), C.i(h[C.TS]), p))
        elif kind == "extra":
            h[C.EXTRA] = b"z" * c.choice([33, 32, 64, 1000])
        elif kind == "number":
            h[C.NUM] = R.int_b(max(0, C.i(h[C.NUM]) + c.choice([1, -1, 2, -2, 255])))
            if fi < PARIS and c.bool(0.7):
                anc = tip.ancestor(C.i(h[C.NUM]) - 1)
                if anc:
                    h[C.DIFF] = R.int_b(C.difficulty(fi, C.i(h[C.NUM]), C.i(h[C.TS]), anc.header))
        elif kind == "stale" and tip.depth > self.gen.depth:
            # child of an older ancestor by its header, but executed on top of the tip
            chain = tip.chain(tip.depth - self.gen.depth + 1)
            anc = c.choice(chain[1:])
            h = self.skeleton(anc, True)
        elif kind == "difficulty":
            n = C.i(h[C.DIFF])
            h[C.DIFF] = R.int_b(c.choice([n + 1, max(0, n - 1), n + max(1, n // 2048), max(0, n - n // 2048), 131072, 0]))
        elif kind == "base_fee":
            n = C.i(h[C.BASEFEE])
            h[C.BASEFEE] = R.int_b(c.choice([n + 1, max(0, n - 1), C.i(p[C.BASEFEE]), n + n // 8, max(0, n - n // 8), 10**9]))
        elif kind == "excess":
            n = C.i(h[C.EXCESS])
            h[C.EXCESS] = R.int_b(c.choice([n + 131072, max(0, n - 131072), n + 1, 0, C.i(p[C.EXCESS]), n + 2**30]))
        elif kind == "nonce":
            h[C.NONCE] = c.choice([b"\0" * 7 + b"\1", b"\1" + b"\0" * 7])
        elif kind == "dao":
            h[C.EXTRA] = c.choice([b"", b"dao-hard-forc", b"dao-hard-fork", b"dao-hard-fork\0"])
        h2, txs2, _ = self.plan(tip, 1.0, plain=True) if c.bool(0.3) and C.i(h[C.GL]) > 3_000_000 else (None, [], None)
        txs = txs2
        if kind == "gas_used":
            # a transaction with a larger gas limit than the block's
            d = self.su.tx_fields(tip.world, C.i(h[C.BASEFEE]) if fi >= LONDON else 0, key=0)
            raw = self.fallback(tip, h, txs, [], wd)
            h[C.GU] = R.int_b(C.i(h[C.GL]) + 1)
            self.seal(h)
            return self.pack(h, txs, [], wd)
        raw = self.fallback(tip, h, txs, [], wd, skip)
        if kind == "omm_hash":
            h[C.OMM] = c.choice([R.keccak(b""), b"\0" * 32])
            raw = self.pack(h, txs, [], wd)
        if kind == "ommers":
            o = list(tip.header)
            if c.bool(0.5):
                h[C.OMM] = R.keccak(R.enc([o]))
            raw = self.pack(h, txs, [o], wd)
        return raw

    def evil_seal(self, tip):
        c = self.c
        h, txs, omm, wd, w, out = self.base_block(tip, 0.3)
        k = c.draw(3)
        if k == 0:
            h[C.NONCE] = b"\xff" + h[C.NONCE][1:]
            self.seal(h)
        elif k == 1:
            h[C.NONCE] = bytes([h[C.NONCE][0] ^ 1]) + h[C.NONCE][1:]
        else:
            b = bytearray(h[C.MIX])
            b[c.draw(32)] ^= 1
            h[C.MIX] = bytes(b)
        return self.pack(h, txs, omm, wd)

    def evil_state(self, tip):
        """Commits to a state somebody tampered with."""
        c = self.c
        h, txs, omm, wd, w, out = self.base_block(tip)
        w = w.copy()
        a = c.choice([x for x in self.su.pool if x in w.acc] or self.su.eoas)
        n, b, code = w.get(a)
        k = c.draw(6)
        if k == 0:
            w.put(a, balance=b + 1)
        elif k == 1:
            w.put(a, balance=max(0, b - 1))
        elif k == 2:
            w.put(a, nonce=n + 1)
        elif k == 3:
            w.sstore(c.choice(self.su.contracts), c.draw(4), 99)
        elif k == 4:
            w.put(a, code=code + b"\0")
        else:
            w = tip.world
        h[C.SROOT] = w.root()
        self.seal(h)
        return self.pack(h, txs, omm, wd)

    def evil_reward(self, tip):
        """Ommers fine, rewards wrong."""
        c, fi = self.c, self.fi
        h, txs, _ = self.plan(tip, 0.2)
        omm = self.good_ommers(h, tip)
        w, out = C.state_only(self.rules, h, tip, txs, omm, [])
        r = C.REWARD[fi]
        w = w.copy()
        who = [h[C.COINBASE]] + [o[C.COINBASE] for o in omm]
        a = c.choice(who)
        d = c.choice([r // 8, r // 32, r, -(r // 32), -(r // 8), 1])
        w.put(a, balance=max(0, w.bal(a) + d))
        h[C.SROOT] = w.root()
        self.seal(h)
        return self.pack(h, txs, omm, [])

    def evil_ommer(self, tip):
        c, fi = self.c, self.fi
        if fi >= PARIS:
            h, txs, omm, wd, w, out = self.base_block(tip, 0.3)
            o = list(tip.header if c.bool(0.5) else self.make_pos_ommer(tip))
            if c.bool(0.6):
                h[C.OMM] = R.keccak(R.enc([o]))
            return self.pack(h, txs, [o], wd)
        h, txs, _ = self.plan(tip, 0.2, plain=True)
        bad = self.bad_ommers(h, tip)
        if c.bool(0.15) and len(bad) < 2:
            bad = bad + self.good_ommers(h, tip)[:1]
            if c.bool(0.5):
                bad.reverse()
        if c.bool(0.06):
            # committed list differs from the body's
            w, out = C.state_only(self.rules, h, tip, txs, bad, [])
            h[C.OMM] = c.choice([C.EMPTY_OMMERS, R.keccak(R.enc(bad + bad))])
            self.seal(h)
            return self.pack(h, txs, bad, [])
        try:
            C.state_only(self.rules, h, tip, txs, bad, [])
        except (C.Bad, OverflowError):
            C.commitments(fi, h, tip.world, C.Out(), txs, bad, [])
            self.seal(h)
        return self.pack(h, txs, bad, [])

    def make_pos_ommer(self, tip):
        anc = tip.parent or tip
        return C.skeleton(self.rules, anc, self.c.choice(self.su.miners), C.i(anc.header[C.TS]) + 5)[:6] + list(tip.header[6:])

    def evil_wd(self, tip):
        c = self.c
        h, txs, omm, wd, w, out = self.base_block(tip, 0.5)
        k = c.draw(6)
        if not wd:
            wd = [[b"", b"", c.choice(self.su.pool), R.int_b(10**9)]]
            k = 4
        e = c.draw(len(wd))
        w = w.copy()
        a, amt = wd[e][2], C.i(wd[e][3]) * 10**9
        if k == 0:                     # credited twice
            w.put(a, balance=w.bal(a) + amt)
        elif k == 1:                   # not credited
            w.put(a, balance=max(0, w.bal(a) - amt))
        elif k == 2:                   # listed but executed for another list
            wd = wd + [list(wd[e])]
        elif k == 3:
            wd = wd[:e] + wd[e + 1:]
        elif k == 4:                   # unannounced
            pass
        else:                          # wei instead of gwei
            w.put(a, balance=max(0, w.bal(a) - amt) + C.i(wd[e][3]))
        h[C.SROOT] = w.root()
        if c.bool(0.7):
            h[C.WROOT] = R.list_root([R.enc(x) for x in wd])
        return self.pack(h, txs, omm, wd)

    def evil_requests(self, tip):
        c = self.c
        first = self.request_txs(tip)
        h, txs, _ = self.plan(tip, 0.7, extra_first=first)
        wd = self.withdrawals()
        try:
            w, out = C.state_only(self.rules, h, tip, txs, [], wd)
        except C.Bad:
            return self.fallback(tip, h, txs, [], wd)
        rq = list(out.requests)
        k = c.draw(8)
        if k == 0 and rq:
            rq.pop(c.draw(len(rq)))
        elif k == 1 and len(rq) > 1:
            rq[0], rq[1] = rq[1], rq[0]
        elif k == 2:
            rq.append(c.choice([b"\x00", b"\x01", b"\x02", b"\x03", b""]))
        elif k == 3 and rq:
            j = c.draw(len(rq))
            b = bytearray(rq[j])
            b[-1] ^= 1
            rq[j] = bytes(b)
        elif k == 4:
            rq.insert(0, b"\x00" + prog.deposit_data(c)[:192])
        elif k == 5 and rq:
            j = c.draw(len(rq))
            rq[j] = rq[j] + rq[j][1:]
        elif k == 6:
            have = {r[0] for r in rq}
            rq = sorted(rq + [bytes([t]) for t in range(3) if t not in have])
        elif rq:
            rq = rq[:-1]
        else:
            rq = [b"\x01" + b"\0" * 76]
        h[C.REQ] = C.requests_hash(rq)
        return self.pack(h, txs, [], wd)

    def twins(self, tip):
        """Install code at an address where another branch may put other code of the same length, and call such addresses."""
        c, su, fi = self.c, self.su, self.fi
        base = C.base_fee(fi, tip.header, tip.number + 1, self.rules.fork_block) if fi >= LONDON else 0
        out = []
        key = c.draw(2)
        d = su.tx_fields(tip.world, base, key=key)
        nonce = d["nonce"]
        d.update(kind=0, value=0, al=[], data=b"", fixed=True, gas=300_000)
        there = [a for a in self.twin_at if tip.world.get(a)[2]]
        if not there or c.bool(0.5):
            d.update(to=b"", data=prog.installer(prog.twin_code(c, c.draw(8), c.draw(8))))
            out.append(su.sign(d))
            a = R.keccak(R.enc([su.eoas[key], R.int_b(nonce)]))[12:]
            if a not in self.twin_at:
                self.twin_at.append(a)
            there.append(a)
            nonce += 1
        for _ in range(c.int(1, 2)):
            d.update(to=c.choice(there), nonce=nonce, data=b"", gas=120_000)
            out.append(su.sign(d))
            nonce += 1
        return out

    def many(self, tip):
        """More transactions than fit in one byte of index (their keys in the tries grow longer): transfers, some with logs."""
        c, su, fi = self.c, self.su, self.fi
        w = tip.world.copy()
        base = C.base_fee(fi, tip.header, tip.number + 1, self.rules.fork_block) if fi >= LONDON else 0
        out = []
        n = {}
        for j in range(c.choice([129, 131, 140])):
            d = su.tx_fields(w, base, key=j % 3)
            d.update(kind=0, to=C.DEPOSIT if fi >= PRAGUE and c.bool(0.05) else c.choice(G.NOBODY), value=j, gas=21_000, al=[], data=b"",
                     fixed=True)
            if d["to"] == C.DEPOSIT:
                d["data"], d["gas"] = E.w32(0) + prog.deposit_data(c), 70_000
            d["nonce"] += n.get(j % 3, 0)
            n[j % 3] = n.get(j % 3, 0) + 1
            out.append(su.sign(d))
        return out

    def request_txs(self, tip, n=None):
        """A few transactions to the request contracts themselves."""
        c, su = self.c, self.su
        out = []
        w = tip.world.copy()
        base = C.base_fee(self.fi, tip.header, tip.number + 1, None)
        for j in range(c.draw(3) if n is None else n):
            d = su.tx_fields(w, base, key=j)
            d.update(kind=2, to=c.choice([C.DEPOSIT, C.DEPOSIT, C.WITHDRAWAL_REQ, C.CONSOLIDATION_REQ]), value=c.choice([0, 1]), gas=600_000,
                     chain=self.rules.chain_id, al=[])
            d["data"] = (E.w32(c.draw(4) // 3) + prog.deposit_data(c)) if d["to"] == C.DEPOSIT else E.w32(c.draw(3)) + c.bytes(4)
            out.append(su.sign(d))
        return out

    def evil_deposit(self, tip):
        """A deposit log of the wrong shape; the block is invalid whatever it commits to."""
        c, su = self.c, self.su
        base = C.base_fee(self.fi, tip.header, tip.number + 1, None)
        d = su.tx_fields(tip.world, base, key=0)
        d.update(kind=2, to=C.DEPOSIT, value=0, gas=600_000, chain=self.rules.chain_id, al=[])
        d["data"] = E.w32(0) + prog.deposit_data(c, True)
        h, txs, _ = self.plan(tip, 0.5, extra_last=[su.sign(d)])
        return self.fallback(tip, h, txs, [], [])

    def evil_system(self, tip):
        """Nothing at all in the block: exercises the system calls alone."""
        h = self.skeleton(tip, True)
        return self.fallback(tip, h, [], [], [])

    def evil_rlp(self, tip):
        c = self.c
        h, txs, omm, wd, w, out = self.base_block(tip, 0.7)
        b = bytearray(self.pack(h, txs, omm, wd))
        k = c.draw(4)
        if k == 0:
            for _ in range(c.int(1, 3)):
                b[c.draw(len(b))] ^= 1 << c.draw(8)
        elif k == 1:
            del b[c.draw(len(b)):]
        elif k == 2:
            b += b"\0" * c.int(1, 3)
        else:
            p = c.draw(len(b))
            del b[p:p + c.int(1, 4)]
        return bytes(b)

    def evil_reparent(self, tip):
        """An old block relabelled as child of the tip."""
        c = self.c
        olds = [b for b in self.tree.values() if b.parent is not None]
        if not olds:
            return None
        b = c.choice(olds)
        h = list(b.header)
        k = c.draw(3)
        h[C.PARENT] = tip.hash
        if k:
            h[C.NUM] = R.int_b(tip.number + 1)
        if k == 2:
            h[C.TS] = R.int_b(C.i(tip.header[C.TS]) + 13)
            if self.fi < PARIS:
                h[C.DIFF] = R.int_b(C.difficulty(self.fi, tip.number + 1, C.i(h[C.TS]), tip.header))
            if self.fi >= LONDON:
                h[C.BASEFEE] = R.int_b(C.base_fee(self.fi, tip.header, tip.number + 1, self.rules.fork_block))
        self.seal(h)
        return R.enc([h] + b.body[1:])

    # -- transactions
    def tx_rules(self):
        fi = self.fi
        r = ["intrinsic", "nonce_low", "nonce_high", "balance", "balance", "block_gas", "chain", "sig", "high_s", "nonce_max",
             "sender_code"]
        if fi >= LONDON:
            r += ["price", "balance_cap", "prio"]
        if fi >= SHANGHAI:
            r += ["initcode"]
        if fi >= CANCUN:
            r += ["blob_count", "blob_version", "blob_price", "blob_gas", "blob_cap"]
        if fi >= PRAGUE:
            r += ["no_auths", "floor"]
        if fi >= OSAKA:
            r += ["gas_cap", "blob_max"]
        return r

    def evil_tx(self, tip, edge=False):
        """One transaction just outside (edge: just inside) one rule, inside a consistent block."""
        c, fi, su = self.c, self.fi, self.su
        rule = c.choice(self.tx_rules())
        self.ctx.fault(("edge_tx_" if edge else "byz_tx_") + rule)
        h, txs, (w, blk, out) = self.plan(tip, 0.6, plain=True)
        bp = E.blob_price(fi, blk.excess_blob) if fi >= CANCUN else 0
        made = self.off_by_one(rule, edge, h, txs, w, blk, out)
        if made is None:
            return None
        raw, skip = made
        txs = txs + [raw]
        if c.bool(0.2):
            # something innocent after it
            d2 = su.tx_fields(w, blk.base_fee, key=5)
            d2["gas"] = 100_000
            txs.append(su.sign(d2, bp))
        return self.fallback(tip, h, txs, [], self.withdrawals(), skip)

    def off_by_one(self, rule, edge, h, txs, w, blk, out):
        """A transaction just outside (edge: just inside) one rule, to run after txs, which led to w and out; may add to txs."""
        c, fi, su = self.c, self.fi, self.su
        bp = E.blob_price(fi, blk.excess_blob) if fi >= CANCUN else 0
        key = c.draw(2)
        if rule == "nonce_max":
            if self.maxed is None:
                return None
            key = self.maxed
        if rule == "sender_code":
            if self.coded is None:
                return None
            key = self.coded
        k = su.keys[key]
        d = su.tx_fields(w, blk.base_fee, key=key)
        d["al"] = []
        d["gas"] = 600_000 if C.i(h[C.GL]) - out.gas_used > 600_000 else max(1, C.i(h[C.GL]) - out.gas_used)
        skip = {"tx:" + rule}
        want = None
        off = 0 if edge else 1
        if rule in ("price", "balance_cap", "prio") or (rule == "chain" and c.bool(0.4) and fi >= LONDON):
            self.retype(d, c.choice([2, 2, 3, 4][:(2 if fi < CANCUN else 3 if fi < PRAGUE else 4)]), w, blk)
        if rule.startswith("blob"):
            self.retype(d, 3, w, blk)
        if rule == "no_auths":
            self.retype(d, 4, w, blk)
            if not edge:
                d["auths"] = []
        if rule in ("intrinsic", "floor"):
            if rule == "floor":
                d["data"] = bytes([1]) * c.int(100, 1500)
                if d["to"] == b"":
                    d["to"] = su.eoas[1]
            elif c.bool(0.5) and d["kind"]:
                d["al"] = [(c.choice(su.pool), [1, 2])]
            t = C.parse_tx(fi, su.sign(d, bp))
            g0, fl = C.intrinsic(fi, t)
            d["gas"] = max(g0, fl) - off
            skip = {"tx:intrinsic"}
        elif rule == "nonce_low":
            d["nonce"] -= off
            if d["nonce"] < 0:
                return None
        elif rule == "nonce_high":
            d["nonce"] += off
        elif rule == "nonce_max":
            d["nonce"] = w.get(k.addr)[0]
        elif rule == "chain":
            if d["kind"] == 0 and fi < SPURIOUS:
                d["chain"] = self.rules.chain_id
                skip |= {"tx:sig"}
            else:
                d["chain"] = self.rules.chain_id + c.choice([1, 2, -1]) * off
                if d["chain"] < 0:
                    d["chain"] = 9
        elif rule == "high_s":
            d["high_s"] = not edge
        elif rule == "initcode":
            d["kind"] = min(d["kind"], 2)
            d["to"], d["value"] = b"", 0
            d["data"] = b"\0" * (49152 + off)
            d["gas"] = 600_000
        elif rule == "gas_cap":
            d["gas"] = 2**24 + off
        elif rule == "block_gas":
            d["gas"] = C.i(h[C.GL]) - out.gas_used + off
            if d["gas"] > 2**24 and fi >= OSAKA:
                return None
        elif rule == "price":
            d["price"] = blk.base_fee - off
            d["tip"] = c.choice([0, d["price"]]) if d["price"] >= 0 else 0
            if d["price"] < 0:
                return None
        elif rule == "prio":
            d["tip"] = d["price"] + off
        elif rule == "blob_count":
            d["blobs"] = [] if not edge else d["blobs"]
        elif rule == "blob_version":
            if not edge:
                x = d["blobs"][-1]
                d["blobs"] = d["blobs"][:-1] + [c.choice([b"\0", b"\2"]) + x[1:]]
        elif rule == "blob_price":
            d["bcap"] = bp - off
        elif rule == "blob_cap":
            # enough for the blob price but not for the cap the transaction promises
            d["bcap"] = bp * 1000 + 10**6
            skip = {"tx:balance"}
        elif rule == "blob_gas":
            room = (C.blob_limit(fi) - out.blob_gas) // 131072 + off
            if fi >= OSAKA and room > 6:
                # fill up first
                f = dict(d, blobs=[b"\1" + R.keccak(b"f%d" % j)[1:] for j in range(6)], key=5,
                         nonce=w.get(su.keys[5].addr)[0], gas=100_000, to=su.eoas[1], data=b"", auths=[])
                raw = su.sign(f, bp)
                try:
                    w2, o2 = w.copy(), execsim.clone(out)
                    C.process_tx(fi, w2, blk, o2, raw)
                except C.Bad:
                    return None
                w, out = w2, o2
                txs.append(raw)
                room -= 6
            d["blobs"] = [b"\1" + R.keccak(b"x%d" % j)[1:] for j in range(room)]
            d["nonce"] = w.get(k.addr)[0]
        elif rule == "blob_max":
            d["blobs"] = [b"\1" + R.keccak(b"x%d" % j)[1:] for j in range(6 + off)]
        if rule in ("balance", "balance_cap", "blob_cap"):
            if rule == "balance" and c.bool(0.3) and d["kind"] < 3 and d["to"] != b"":
                d["to"] = k.addr       # to itself: the transfer would cancel out
            if rule == "balance_cap":
                d["price"] = blk.base_fee * 10 + 10**10
                d["tip"] = c.choice([0, 1])
                skip = {"tx:balance"}
            if d["kind"] == 3:
                d.setdefault("bcap", bp + 5)
            most = d["gas"] * d["price"] + (131072 * len(d["blobs"]) * d["bcap"] if d["kind"] == 3 else 0)
            bal = w.bal(k.addr)
            if rule == "balance" or bal >= most and c.bool(0.5):
                d["value"] = bal - most + off
            else:
                # scale the cap until it just exceeds what the account has
                d["value"] = 0
                d["price"] = (bal - (most - d["gas"] * d["price"])) // d["gas"] + off
            if d["value"] < 0 or d["price"] < d["tip"] or (fi >= LONDON and d["price"] < blk.base_fee):
                return None
        try:
            raw = su.sign(d, bp)
        except (ValueError, OverflowError):
            return None
        if rule == "sig":
            raw = self.bad_sig(raw) if not edge else raw
        return raw, skip

    def retype(self, d, kind, w, blk):
        c = self.c
        d["kind"] = kind
        d["chain"] = self.rules.chain_id
        if kind >= 3 and d["to"] == b"":
            d["to"] = c.choice(self.su.eoas)
            d["data"] = b""
        if kind == 3:
            d["blobs"] = [b"\x01" + R.keccak(b"blob%d" % j)[1:] for j in range(c.int(1, 2))]
        if kind == 4:
            d["auths"] = self.su.auths(w, d["key"])
        if kind >= 2 and d["price"] < blk.base_fee:
            d["price"] = blk.base_fee

    def bad_sig(self, raw):
        c = self.c
        if isinstance(raw, list):
            f = list(raw)
            k = c.draw(4)
            if k == 0:
                f[6] = c.choice([b"", b"\x1d", b"\x1a", R.int_b(C.i(f[6]) + 2), R.int_b(35), b"\xff" * 32])
            elif k == 1:
                f[7] = c.choice([b"", R.int_b(E.SECP_N), b"\xff" * 32])
            elif k == 2:
                f[8] = c.choice([b"", R.int_b(E.SECP_N), b"\xff" * 32])
            else:
                f[7] = R.int_b(C.i(f[7]) ^ 1)
            return f
        f = R.dec(raw[1:])
        k = c.draw(4)
        if k == 0:
            f[-3] = c.choice([b"\2", b"\x1b", b"\xff"])
        elif k == 1:
            f[-2] = c.choice([b"", R.int_b(E.SECP_N), b"\xff" * 32])
        elif k == 2:
            f[-1] = c.choice([b"", R.int_b(E.SECP_N), b"\xff" * 32])
        else:
            f[-2] = R.int_b(C.i(f[-2]) ^ 1)
        return raw[:1] + R.enc(f)

    def evil_edge(self, tip):
        return self.evil_tx(tip, edge=True)

    # -- replays
    def evil_replay(self, tip):
        """A block repeating transactions: from itself, from its ancestors, from another branch or chain."""
        c, fi, su = self.c, self.fi, self.su
        h, txs, (w, blk, out) = self.plan(tip, 1.2, plain=True)
        bp = E.blob_price(fi, blk.excess_blob) if fi >= CANCUN else 0
        k = c.draw(5)
        on_chain = [t for b in tip.chain(20) if b.out is not None for t in b.body[1]]
        skip = {"tx:nonce_low", "tx:nonce_high", "tx:balance", "tx:price"}
        if k == 0 and txs:
            txs.insert(c.draw(len(txs) + 1), c.choice(txs))
        elif k in (1, 2) and on_chain:
            txs.insert(c.draw(len(txs) + 1), c.choice(on_chain))
        elif k == 3 and self.seen_txs:
            txs += [c.choice(self.seen_txs)[0]]
        else:
            # signed for another chain
            d = su.tx_fields(w, blk.base_fee)
            if d["kind"] == 0 and fi < SPURIOUS and fi >= BERLIN:
                d["kind"] = 1
            d["chain"] = self.rules.chain_id + c.choice([1, 4])
            skip |= {"tx:chain"}
            if fi < SPURIOUS:
                skip |= {"tx:sig"}
            txs.append(su.sign(d, bp))
        return self.fallback(tip, h, txs, [], self.withdrawals(), skip)

    def auth_again(self, tip):
        """Transactions carrying authorizations that were used before (valid transactions, void authorizations)."""
        c, su = self.c, self.su
        if self.fi < PRAGUE:
            return None
        olds = [a for raw, d in self.seen_txs for a in d.get("auths", ())]
        if not olds:
            return None
        d = su.tx_fields(tip.world, C.base_fee(self.fi, tip.header, tip.number + 1, None), key=c.draw(2))
        d.update(kind=4, chain=self.rules.chain_id, auths=[c.choice(olds) for _ in range(c.int(1, 4))], al=[], value=0,
                 gas=600_000)
        d["to"] = d["to"] or su.eoas[0]
        self.ctx.fault("authorization_replayed")
        raw = su.sign(d)
        self.seen_txs.append((raw, d))
        return [raw]

    def evil_auth(self, tip):
        """Commits to a state in which an authorization counted once too often (or not at all)."""
        c = self.c
        h, txs, _ = self.plan(tip, 0.5, plain=True, extra_first=self.auth_again(tip))
        w, out = C.state_only(self.rules, h, tip, txs, [], [])
        w = w.copy()
        k = c.choice(self.su.keys)
        n, b, code = w.get(k.addr)
        kind = c.draw(3)
        if kind == 0:
            w.put(k.addr, nonce=n + 1)
        elif kind == 1:
            w.put(k.addr, nonce=n + 1, code=b"\xef\x01\x00" + self.su.contracts[0])
        else:
            w.put(k.addr, code=b"" if code else b"\xef\x01\x00" + self.su.contracts[1])
        h[C.SROOT] = w.root()
        return self.pack(h, txs, [], [])

    # --------------------------------------------------------------- network
    def publish(self, raw, faulty=True):
        for n in self.nodes:
            if faulty and self.c.bool(0.08):
                self.ctx.fault("message_lost")
                continue
            self.net.append((n, raw))
            if faulty and self.c.bool(0.08):
                self.ctx.fault("message_duplicated")
                self.net.append((n, raw))

    def deliver(self, k):
        n, raw = self.net[k]
        if n.n in self.cut:
            return
        if k:
            self.ctx.fault("message_reordered")
        self.net.pop(k)
        n.receive(raw)

    def pick_tip(self):
        """Where a producer builds: mostly the best head, sometimes behind it."""
        c = self.c
        node = c.choice(self.nodes)
        tip = self.tree[node.head]
        if self.mode in ("hashes", "ommers", "agree", "replay", "valid") and c.bool(0.25):
            back = c.int(1, 3)
            while back and tip.parent is not None and tip.depth > self.gen.depth:
                tip = tip.parent
                back -= 1
        return tip

    def step(self):
        c, ctx = self.c, self.ctx
        act = c.weighted([(6, "honest"), (self.w_evil, "evil"), (6, "deliver"), (1, "restart"),
                          (1 if len(self.nodes) > 1 else 0, "cut"), (1, "again")])
        if act == "honest":
            tip = self.pick_tip()
            x = self.honest_block(tip, 1.5)
            if x:
                self.honest.append(x[0])
                self.publish(x[0])
                ctx.log("produce", x[1].hash.hex()[:12], len(x[1].body[1]), len(x[1].body[2]))
        elif act == "evil":
            # several forgeries on one tip are cheap and go straight to a node
            node = c.choice(self.nodes)
            for _ in range(c.int(1, 4)):
                with c.span():
                    tip = self.tree[node.head]
                    raw = self.evil_block(tip)
                    if raw is not None:
                        if c.bool(0.85):
                            node.receive(raw)
                        else:
                            self.publish(raw)
        elif act == "deliver":
            for _ in range(c.int(1, 4)):
                if self.net:
                    self.deliver(c.draw(len(self.net)))
        elif act == "restart":
            node = c.choice(self.nodes)
            ctx.fault("crash_restart")
            node.restart(c.draw(2))
        elif act == "cut":
            n = c.draw(len(self.nodes))
            if n in self.cut:
                self.cut.discard(n)
                ctx.fault("partition_healed")
            else:
                self.cut.add(n)
                ctx.fault("partition")
        elif act == "again" and self.honest:
            node = c.choice(self.nodes)
            if node.n not in self.cut:
                ctx.fault("stale_block_delivered")
                node.direct(c.choice(self.honest))

    def go(self):
        c, ctx = self.c, self.ctx
        self.w_evil = {"agree": 1, "valid": 9, "hashes": 1, "ommers": 7, "requests": 5, "replay": 5}[self.mode]
        warm = {"ommers": 5, "hashes": 2, "replay": 2}.get(self.mode, 1)
        for _ in range(c.int(0, warm)):
            x = self.honest_block(self.tree[self.nodes[0].head], 0.5)
            if x:
                self.honest.append(x[0])
                for n in self.nodes:
                    n.receive(x[0])
        for _ in c.steps(7, 16):
            self.step()
        # faults stop: everything arrives everywhere
        self.cut.clear()
        while self.net:
            self.deliver(c.draw(len(self.net)))
        size = 0
        while size != len(self.tree):      # an orphan freed here may be news to the others
            size = len(self.tree)
            for n in self.nodes:
                for h in c.shuffle(sorted(self.tree)):
                    if h not in n.known:
                        n.receive(self.tree[h].raw)
        for n in self.nodes:
            missing = [h.hex()[:12] for h in self.tree if h not in n.known]
            ctx.check(not missing, "valid-block-never-accepted", f"node {n.n} never accepted {missing[:3]}")
        best = max((self.tree[n.head] for n in self.nodes), key=lambda r: r.depth)
        x = self.honest_block(best, 1.0)
        if x:
            for n in self.nodes:
                n.receive(x[0])
                ctx.check(n.head == x[1].hash, "no-progress", f"node {n.n} does not follow the next valid block")
        roots = {n.root() for n in self.nodes}
        ctx.check(len(roots) == 1, "replicas-differ", f"{len(roots)} state roots for one chain")
        if x:
            self.along(x[1])
        ctx.log("end", best.hash.hex()[:16], len(self.tree))
        ctx.sim_time = C.i(best.header[C.TS]) - C.i(self.gen.header[C.TS])
        ctx.nontrivial = True
        for n in self.nodes:
            n.close()

    def along(self, tip):
        """Statements about one whole accepted chain that need no model."""
        ctx = self.ctx
        txs, ommers, own = set(), set(), set()
        for b in tip.chain():
            own.add(b.hash)
            if b.out is None:
                continue
            for t in b.body[1]:
                k = R.keccak(R.enc(t) if isinstance(t, list) else t)
                ctx.check(k not in txs, "transaction-twice", f"{self.m.name}: transaction {k.hex()} is on the chain twice")
                txs.add(k)
            for o in b.body[2]:
                k = C.hash_header(o)
                ctx.check(k not in ommers, "ommer-twice", f"{self.m.name}: ommer {k.hex()} is on the chain twice")
                ommers.add(k)
        ctx.check(not (own & ommers), "ommer-is-ancestor", self.m.name)


def hash_of(raw):
    return C.hash_header(R.dec(raw)[0])


def parent_of(raw):
    """(hash, parent hash) if the outer structure can be read at all."""
    try:
        b = R.dec(raw)
        h = b[0]
        if isinstance(h, list) and isinstance(h[0], bytes) and len(h[0]) == 32:
            return C.hash_header(h), h[0]
    except Exception:
        pass
    return None, None


class Node:
    """Driver around one real chain object: block tree, fork choice, orphans, restart."""

    def __init__(self, sim, n):
        self.sim, self.n, self.m, self.ctx, self.c = sim, n, sim.m, sim.ctx, sim.c
        self.gen = sim.gen
        self.disk = OPTIMIZED
        self.path = None
        self.state = None
        self.known = {self.gen.hash}
        self.orphans = {}
        self.snaps = {}
        self.head = self.gen.hash
        self.chain = self.boot(self.gen)
        if not self.disk:
            self.snaps[self.gen.hash] = N.copy_chain(self.m, self.chain)
        if not N.same_state(self.m, self.chain.state, self.gen.world):
            raise HarnessError("genesis state differs: " + "; ".join(N.diff(self.m, self.chain.state, self.gen.world)[:3]))

    # ------------------------------------------------------------- lifecycle
    def boot(self, rec):
        """A chain object positioned at rec, from stored blocks and stored state."""
        from ethereum_types.numeric import U64
        if self.disk:
            self.drop_disk()
            self.path = tempfile.mkdtemp(prefix="net-", dir=os.environ.get("VERIF_SCRATCH"))
            S = self.m.state
            self.state = state = S.State(os.path.join(self.path, "db"))
            N.fill(self.m, state, rec.world)
            S.commit_db_transaction(state)
            S.begin_db_transaction(state)
        else:
            state = N.new_state(self.m, rec.world)
        blocks = [N.decode_block(self.m, b.raw) for b in rec.chain(255)[::-1]]
        return self.m.fork.BlockChain(blocks=blocks, state=state, chain_id=U64(self.sim.rules.chain_id))

    def reopen(self, tip):
        from ethereum_types.numeric import U64
        S = self.m.state
        S.rollback_db_transaction(self.state)
        S.close_state(self.state)
        self.state = state = S.State(os.path.join(self.path, "db"))
        blocks = [N.decode_block(self.m, b.raw) for b in tip.chain(255)[::-1]]
        self.chain = self.m.fork.BlockChain(blocks=blocks, state=state, chain_id=U64(self.sim.rules.chain_id))
        self.ctx.fault("database_reopened")

    def drop_disk(self):
        if self.path:
            try:
                self.m.state.rollback_db_transaction(self.state)
                self.m.state.close_state(self.state)
            except Exception:
                pass
            self.state = None
            self.chain = None
            shutil.rmtree(self.path, ignore_errors=True)
            self.path = None

    def close(self):
        if self.disk:
            self.drop_disk()

    def at(self, h):
        """Position the live chain object at block h."""
        if self.disk:
            return self.boot(self.sim.tree[h])
        return N.copy_chain(self.m, self.snaps[h])

    def restart(self, how):
        """Crash: everything but the stored blocks is gone."""
        sim = self.sim
        self.orphans = {}
        tip = sim.tree[self.head]
        if how == 0 and self.disk:
            self.reopen(tip)                                # the database as the crash left it
        elif how == 0 or tip.depth == self.gen.depth:
            self.chain = self.boot(tip)                     # stored state of the head
        else:
            back = [b for b in tip.chain() if b.depth >= self.gen.depth][::-1]
            self.chain = self.boot(self.gen)                # replay of the stored blocks
            for b in back[1:]:
                err = N.transition(self.m, self.chain, b.raw)
                self.ctx.check(err is None, "replay-refused",
                               f"{self.m.name}: block {b.number} accepted before, refused after a restart: {err!r}")
                if self.disk:
                    self.settle(True)
        self.ctx.check(N.same_state(self.m, self.chain.state, tip.world), "replay-differs",
                       lambda: f"{self.m.name}: " + "; ".join(N.diff(self.m, self.chain.state, tip.world)[:3]))
        self.ctx.log("restart", self.n, how)

    def settle(self, ok):
        S = self.m.state
        st = self.chain.state
        if ok:
            S.commit_db_transaction(st)
        else:
            S.rollback_db_transaction(st)
        S.begin_db_transaction(st)

    def root(self):
        return bytes(self.m.state.state_root(self.chain.state))

    # -------------------------------------------------------------- delivery
    def receive(self, raw):
        h, p = parent_of(raw)
        if h in self.known:
            self.ctx.fault("duplicate_delivered")
            if self.c.bool(0.3):
                self.direct(raw)
            return
        if p is None or p == self.head:
            rec = self.attempt(raw, self.sim.tree[self.head])
            self.adopt(rec)
        elif p in self.known:
            if self.c.bool(0.3):
                self.direct(raw)
            self.branch(raw, p)
        else:
            if self.c.bool(0.5):
                self.direct(raw)
            self.orphans.setdefault(p, []).append(raw)
            self.ctx.fault("out_of_order")

    def direct(self, raw):
        """Whatever it is, try it on the current head."""
        rec = self.attempt(raw, self.sim.tree[self.head])
        self.adopt(rec)

    def adopt(self, rec):
        if rec is None:
            return
        self.head = rec.hash
        self.after(rec)

    def after(self, rec):
        self.known.add(rec.hash)
        self.sim.known(rec)
        for raw in self.orphans.pop(rec.hash, ()):
            self.receive(raw)

    def branch(self, raw, p):
        """Import on a side branch; switch if it becomes the longer one."""
        sim = self.sim
        old, oldhead = self.chain, self.head
        tip = sim.tree[p]
        self.chain, self.head = self.at(p), p
        rec = self.attempt(raw, tip)
        if rec is not None and rec.depth > sim.tree[oldhead].depth:
            self.ctx.fault("reorg")
            self.head = rec.hash
            self.after(rec)
            return
        if self.disk:
            self.chain = self.boot(sim.tree[oldhead])
        else:
            self.chain = old
        self.head = oldhead
        if rec is not None:
            self.after(rec)

    def attempt(self, raw, tip):
        """One delivery of a block to the real node at tip, judged by the model.  -> Rec if accepted."""
        ctx, m = self.ctx, self.m
        want, rule = self.sim.judge(raw, tip)
        ids = N.block_ids(self.chain)
        chain = self.chain
        err = N.transition(m, chain, raw)
        now = N.block_ids(chain)
        what = f"{m.name} node {self.n} at block {tip.number} ({len(raw)} bytes)"
        ctx.log("import", self.n, tip.number, rule or "ok", "refused" if err is not None else "accepted")
        ctx.state(m.name, rule or "ok", self.sim.mode)
        if rule:
            ctx.probe("refused " + rule)
        if want is None:
            ctx.check(err is not None, "invalid-block-accepted", f"{what}: breaks {rule}, was imported", key=rule)
            ctx.check(now == ids, "refusal-changed-history", f"{what}: refused for {rule}, history changed")
            self.restore(tip)
            return None
        if err is not None:
            ctx.check(False, "valid-block-refused", f"{what}: {type(err).__name__} {err}")
        ctx.check(now == (ids + (want.hash,))[-255:], "wrong-history", f"{what}: block list after import is wrong")
        ctx.check(bytes(m.state.state_root(chain.state)) == want.header[C.SROOT], "state-differs",
                  lambda: f"{what}: " + "; ".join(N.diff(m, chain.state, want.world, self.sim.su.pool)[:4]))
        if self.disk:
            self.settle(True)
        else:
            self.snaps[want.hash] = N.copy_chain(m, chain)
        ctx.probe("accepted")
        return want

    def restore(self, tip):
        """Back to the last accepted state, keeping whatever block list the refusal left."""
        if self.disk:
            self.settle(False)
        else:
            self.chain.state = N.copy_chain(self.m, self.snaps[tip.hash]).state


def run(ctx):
    try:
        Sim(ctx).go()
    except E.Unsupported:
        ctx.count("unsupported_input")
