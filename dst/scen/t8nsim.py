"""Transition tool simulation (C20, C21, C22).

The real tool, started through its command line entry, on generated
environments, pre-states and transaction lists.  The reference model decides
which transactions are rejected and what the accepted ones do; injected halts
reach the tool through the tracer seam.
"""
import io
import json
import logging
import os
import shutil
import tempfile

from dst.core import HarnessError
from dst.gen import world as G
from dst.ref import chain as C
from dst.ref import evm as E
from dst.ref import rlp as R
from dst.ref.evm import (BERLIN, BYZANTIUM, CANCUN, DAO, HOMESTEAD, LONDON, OSAKA, PARIS, PRAGUE, SHANGHAI, SPURIOUS)
from dst.scen import execsim, netsim
from dst.scen import node as N

TOOLS = None
NAMES = {"constantinople": "ConstantinopleFix"}
ALIASES = {"tangerine_whistle": "EIP150", "spurious_dragon": "EIP158", "paris": "Merge"}
# fork pairs the tool knows to switch at block five
SWITCH = {("frontier", 0): "FrontierToHomesteadAt5", ("homestead", 1): "FrontierToHomesteadAt5",
          ("homestead", 0): "HomesteadToDaoAt5", ("dao_fork", 1): "HomesteadToDaoAt5",
          ("tangerine_whistle", 1): "HomesteadToEIP150At5", ("spurious_dragon", 0): "EIP158ToByzantiumAt5",
          ("byzantium", 1): "EIP158ToByzantiumAt5", ("byzantium", 0): "ByzantiumToConstantinopleAt5",
          ("constantinople", 1): "ByzantiumToConstantinopleAt5", ("constantinople", 0): "ConstantinopleToIstanbulAt5",
          ("istanbul", 1): "ConstantinopleToIstanbulAt5", ("berlin", 0): "BerlinToLondonAt5",
          ("london", 1): "BerlinToLondonAt5"}
netsim.STYLE.update({"t8n": {"call": 2, "create": 2, "auth": 2}, "trace": {"call": 4, "create": 3, "revert": 3},
                     "files": {"call": 1}})


def setup(env):
    global TOOLS
    N.setup(env)
    import subprocess
    import types

    import ethereum_spec_tools.evm_tools as tools
    # the command line parser asks git for its commit
    tools.subprocess = types.SimpleNamespace(
        run=lambda *a, **k: types.SimpleNamespace(stdout="0" * 40), PIPE=subprocess.PIPE,
        CalledProcessError=subprocess.CalledProcessError)
    log = logging.getLogger("T8N")
    log.addHandler(logging.NullHandler())
    log.propagate = False
    TOOLS = tools
    import ethereum_spec_tools.forks as forks
    found = forks.Hardfork.discover()
    forks.Hardfork.discover = classmethod(lambda cls, *a, **k: list(found))


def fork_name(c, name, number):
    k = c.draw(6)
    if k == 1 and name in ALIASES:
        return ALIASES[name]
    if k == 2 and (name, int(number >= 5)) in SWITCH:
        return SWITCH[(name, int(number >= 5))]
    return NAMES.get(name) or "".join(x.title() for x in name.split("_"))


def hx(n):
    return hex(n)


def hb(b):
    return "0x" + b.hex()


class Item:
    """One transaction as given to the tool: raw (None: no transaction at all) and a JSON override."""

    def __init__(self, raw, json_form=None, d=None, why=None):
        self.raw, self.json, self.d, self.why = raw, json_form, d, why


class Case:
    """One invocation of the tool on one block."""
    state_test = False
    reward = None
    ommers = ()
    wds = ()
    txs = ()
    parent = None


class Outcome:
    pass


def well_shaped(fi, raw):
    if raw is None:
        return False
    try:
        if isinstance(raw, list):
            return C.fit(raw, C.LEGACY_SHAPE)
        C.shape_typed(raw)
        return fi >= BERLIN
    except C.Bad:
        return False


def expect(fi, case, hook=None, trace=None, as_import=False):
    """What the tool has to answer."""
    o = Outcome()
    w, out = case.world.copy(), C.Out()
    blk = case.blk
    o.rejected, o.accepted = {}, []
    o.exception = None
    h = case.h
    if as_import:
        C.start_block(fi, w, blk, blk.hashes[-1], h[C.BEACON] if fi >= CANCUN else b"", hook)
    elif not case.state_test:
        # the tool does it the other way round, which nobody can tell
        if fi >= PRAGUE:
            C.system_call(fi, w, blk, C.HISTORY, blk.hashes[-1], hook)
        if fi >= CANCUN:
            C.system_call(fi, w, blk, C.BEACON_ROOTS, h[C.BEACON], hook)
    for n, it in enumerate(case.txs):
        if not well_shaped(fi, it.raw):
            o.rejected[n] = "shape"
            continue
        w2, out2 = w.copy(), execsim.clone(out)
        if trace:
            trace.begin(n)
        try:
            C.process_tx(fi, w2, blk, out2, it.raw, (), hook)
        except C.Bad as e:
            o.rejected[n] = e.rule
            continue
        if trace:
            trace.end(out2.txs[-1])
        w, out = w2, out2
        o.accepted.append(n)
    if not case.state_test:
        if fi < PARIS and case.reward != -1:
            r = C.REWARD[fi] if case.reward is None else case.reward
            w.put(blk.coinbase, balance=w.bal(blk.coinbase) + r + len(case.ommers) * (r // 32))
            for delta, a in case.ommers:
                w.put(a, balance=w.bal(a) + (8 - delta) * r // 8)
        if fi >= PARIS:
            try:
                C.end_block(fi, w, blk, out, [], case.wds, (), hook)
            except C.Bad as e:
                o.exception = e.rule
    o.world, o.out = w, out
    return o


# ------------------------------------------------------------------- forms
def json_tx(c, fi, raw, chain_id, item=None):
    """The transaction as a JSON object."""
    legacy = isinstance(raw, list)
    n = C.i
    o = {}
    if legacy:
        kind = 0
        nonce, price, gas, to, value, data, v, r, s = raw
        o["gasPrice"] = hx(n(price))
    else:
        kind = raw[0]
        f = R.dec(raw[1:])
        v, r, s = f[-3:]
        if n(f[0]) != 1 or c.bool(0.7):
            o["chainId"] = hx(n(f[0])) if c.bool(0.8) else str(n(f[0]))
        if kind == 1:
            _, nonce, price, gas, to, value, data, al = f[:8]
            o["gasPrice"] = hx(n(price))
        else:
            _, nonce, tip, cap, gas, to, value, data, al = f[:9]
            o["maxPriorityFeePerGas"], o["maxFeePerGas"] = hx(n(tip)), hx(n(cap))
            if kind == 3:
                o["maxFeePerBlobGas"] = hx(n(f[9]))
                o["blobVersionedHashes"] = [hb(x) for x in f[10]]
            if kind == 4:
                o["authorizationList"] = [dict(chainId=hx(n(a[0])), address=hb(a[1]), nonce=hx(n(a[2])), v=hx(n(a[3])),
                                               r=hx(n(a[4])), s=hx(n(a[5]))) for a in f[9]]
        o["accessList"] = [dict(address=hb(a), storageKeys=[hb(k) for k in ks]) for a, ks in al]
        if kind > 1 and not al and c.bool(0.2):
            del o["accessList"]
    if c.bool(0.7):
        o["type"] = hx(kind) if c.bool(0.8) else str(kind)
    o.update(nonce=hx(n(nonce)), gas=hx(n(gas)), value=hx(n(value)) if n(value) or c.bool(0.7) else "0x", input=hb(data))
    if to:
        o["to"] = hb(to)
    elif c.bool(0.6):
        o["to"] = c.choice([None, ""])
    d = item.d if item else None
    if d is not None and not d.get("high_s") and (kind or chain_id == 1 or d["chain"] is None) and c.bool(0.25):
        # left to the tool to sign
        o["secretKey"] = "0x" + G.keys()[d["key"]].key.secret.hex()
        if kind == 0 and d["chain"] is None and (fi >= SPURIOUS or c.bool(0.5)):
            o["protected"] = False
        z = c.draw(3)
        if z:
            o.update(v=[None, "0x0"][z - 1], r=[None, "0x0"][z - 1], s=[None, "0x0"][z - 1])
    else:
        o.update(r=hx(n(r)), s=hx(n(s)))
        z = c.draw(3) if kind else 0
        if z != 1:
            o["v"] = hx(n(v))
        if z:
            o["y_parity"] = hx(n(v))
    return o


def mangle(c, fi, raw):
    """An entry of the list that may or may not still be a transaction."""
    raw = list(raw) if isinstance(raw, list) else raw
    k = c.draw(8)
    if isinstance(raw, list):
        if k == 0:
            return raw[:-1]
        if k == 1:
            return raw + [b"\1"]
        if k == 2:
            raw[c.draw(9)] = b"\0"
        elif k == 3:
            raw[3] = raw[3] + b"\1"
        elif k == 4:
            raw[c.choice([1, 4, 6])] = b"\1" * 33
        elif k == 5:
            raw[5] = [raw[5]]
        elif k == 6:
            return []
        else:
            raw[c.choice([0, 6, 7, 8])] = b"\0\1"
        return raw
    if k == 0:
        return raw[:-1]
    if k == 1:
        return raw + b"\0"
    if k == 2:
        return bytes([c.choice([0, 5, 0x7f, 0xc0, 0xff])]) + raw[1:]
    if k == 3:
        return raw[:1]
    if k == 4:
        return b""
    f = R.dec(raw[1:])
    if k == 5:
        f[c.draw(len(f))] = b"\0"
    elif k == 6:
        f = f[:-1]
    else:
        p = [5, 6, 6, 6][raw[0] - 1] if raw[0] > 1 else 4
        f[p - 1 if raw[0] > 1 else p] = b"\1" * 19
    return raw[:1] + R.enc(f)


def mangle_json(c, fi, o):
    """JSON object that is no transaction of this fork."""
    o = dict(o)
    k = c.draw(6)
    if k == 0:
        for x in c.choice([["gas"], ["nonce"], ["input"], ["value"], ["gasPrice", "maxFeePerGas"]]):
            o.pop(x, None)
    elif k == 1:
        o["type"] = c.choice(["0x5", "0x7f", "9", "0xff"])
    elif k == 2:
        top = 4 if fi >= PRAGUE else 3 if fi >= CANCUN else 2 if fi >= LONDON else 1 if fi >= BERLIN else 0
        if top == 4:
            o["nonce"] = "zz"
        else:
            o["type"] = hx(top + 1)
    elif k == 3:
        o[c.choice(["nonce", "gas", "value"])] = c.choice(["0x1" + "0" * 64, "0xzz", 17, None, []])
        if isinstance(o["gas"], str) and o["gas"].startswith("0x1" + "0" * 60):
            o["gas"] = None          # an enormous gas limit is well formed
    elif k == 4:
        o["to"] = c.choice(["0x" + "11" * 21, "nobody", 5])
    else:
        return c.choice([0, 5, "0x", [], "garbage"])
    return o


# --------------------------------------------------------------------- sim
class Sim(netsim.Sim):
    def __init__(self, ctx):
        self.ctx, self.c = ctx, ctx.c
        self.mode = ctx.params["mode"]
        self.m = N.MODS[ctx.params["fork"]]
        self.fi = self.m.fi
        self.setup()
        self.tree = {self.gen.hash: self.gen}
        self.verdicts, self.seen_txs, self.twin_at = {}, [], []
        self.opts = {}

    def setup(self):
        super().setup()
        c, su, fi = self.c, self.su, self.fi
        w = su.world
        if c.bool(0.5):
            self.maxed = 3
            w.put(su.eoas[3], nonce=2**64 - 1 - c.draw(2))
        if c.bool(0.4):
            self.coded = 2
            w.put(su.eoas[2], code=c.choice([b"\x00", b"\x60\x00", b"\xef\x01\x00" + su.contracts[0],
                                             b"\xef\x01\x00" + su.contracts[0][1:]]), nonce=1)
        if fi == DAO:
            import ethereum.dao_fork.dao as dao
            for a in [bytes(x) for x in dao.DAO_ACCOUNTS] + [bytes(dao.DAO_RECOVERY)]:
                w.put(a)
        if fi >= PARIS:
            for a in [a for a in w.acc if w.dead(a)]:
                w.destroy(a)
        self.gen = C.genesis(self.rules, w, ts=c.choice([1000, 10**9]), diff=c.choice([131072 * 40, 131072, 2**40]),
                             gas_limit=c.choice([8_000_000, 8_000_000, 2_000_000]), base=c.choice([1000, 7, 10**9]),
                             excess=c.choice([0, 131072 * 2, 131072 * 200]))

    # ----------------------------------------------------------- generation
    def free(self, case):
        """An environment that no chain of ours leads to."""
        c, fi, h = self.c, self.fi, case.h
        n = c.choice([1, 2, 5, 6, 200, 255, 256, 257, 300, 10**6, 2**40])
        h[C.NUM] = R.int_b(n)
        hashes = [R.keccak(b"anc%d" % (n - k)) for k in range(min(256, n), 0, -1)]
        case.blk = E.Block(coinbase=h[C.COINBASE], number=n, time=C.i(h[C.TS]), gas_limit=C.i(h[C.GL]),
                           difficulty=C.i(h[C.DIFF]), base_fee=C.i(h[C.BASEFEE]) if fi >= LONDON else 0,
                           prev_randao=h[C.MIX], excess_blob=C.i(h[C.EXCESS]) if fi >= CANCUN else 0,
                           chain_id=self.rules.chain_id, hashes=hashes)
        h[C.PARENT] = hashes[-1]
        if fi < PARIS:
            case.reward = c.choice([None, None, -1, 1, 10**18 + 31])
            if case.reward == -1:
                case.ommers = []
            else:
                case.ommers = [(c.int(1, min(6, n)), c.choice(self.su.miners + G.NOBODY)) for _ in range(c.draw(3))]
            if case.ommers:
                self.ctx.probe("ommers", len(case.ommers))

    def build(self, tip, chained):
        c, fi, su = self.c, self.fi, self.su
        case = Case()
        case.chained = chained
        case.h = h = self.skeleton(tip, plain=True)
        if fi >= PARIS and c.bool(0.3):
            h[C.MIX] = (C.i(h[C.MIX]) >> c.choice([4, 12, 16, 252])).to_bytes(32, "big")
        case.world = tip.world
        case.tip = tip
        if chained:
            case.blk = C.environment(self.rules, h, tip)
        else:
            self.free(case)
            case.state_test = c.bool(0.2)
        case.wds = self.withdrawals()
        blk = case.blk
        bp = E.blob_price(fi, blk.excess_blob) if fi >= CANCUN else 0
        case.txs = []
        w, out = tip.world.copy(), C.Out()
        if not case.state_test:
            C.start_block(fi, w, blk, h[C.PARENT], h[C.BEACON] if fi >= CANCUN else b"")

        def add(raw, d=None, why=None):
            nonlocal w, out
            ok = False
            if well_shaped(fi, raw):
                w2, o2 = w.copy(), execsim.clone(out)
                try:
                    C.process_tx(fi, w2, blk, o2, raw)
                    w, out, ok = w2, o2, True
                except C.Bad:
                    pass
            case.txs.append(Item(raw, d=d if ok else None, why=why))
        rules = self.tx_rules()
        for _ in c.steps(1.0 if case.state_test else 5.0, 2 if case.state_test else 14):
            kind = c.weighted([(12, "tx"), (5, "bad"), (3, "edge"), (2, "mangled"), (1, "again"), (1, "json")])
            if kind == "again" and case.txs:
                it = c.choice(case.txs)
                if it.json is not None:
                    case.txs.append(it)
                else:
                    add(it.raw, why="again")
                self.ctx.fault("tx_repeated")
                continue
            if kind in ("bad", "edge"):
                rule = c.choice(rules)
                more = []
                made = self.off_by_one(rule, kind == "edge", h, more, w, blk, out)
                if made:
                    for f in more:
                        add(f)
                    add(made[0], why=rule)
                    self.ctx.fault(("bad_tx_" if kind == "bad" else "edge_tx_") + rule)
                continue
            d = su.tx_fields(w, blk.base_fee)
            if su.fit_gas(d, w, blk, out, 0.15):
                self.ctx.fault("gas_exhaustion_point")
            raw = su.sign(d, bp)
            if kind == "mangled":
                add(mangle(c, fi, raw), why="mangled")
                self.ctx.fault("mangled_tx")
            elif kind == "json":
                case.txs.append(Item(None, json_form=mangle_json(c, fi, json_tx(c, fi, raw, self.rules.chain_id))))
                self.ctx.fault("mangled_json_tx")
            else:
                if d["kind"] == 3:
                    d.setdefault("bcap", bp + 5)
                add(raw, d)
        if case.state_test:
            del case.txs[1:]
        return case

    # ----------------------------------------------------------------- form
    def env_json(self, case):
        c, fi, h, blk = self.c, self.fi, case.h, case.blk
        p = case.tip.header
        n = C.i

        def num(x):
            return hx(x) if c.bool(0.85) else str(x)
        e = dict(currentCoinbase=hb(h[C.COINBASE]), currentGasLimit=num(blk.gas_limit), currentNumber=num(blk.number),
                 currentTimestamp=num(blk.time))
        derive = case.chained and c.bool(0.5)
        if fi < PARIS:
            if derive:
                e.update(parentTimestamp=num(n(p[C.TS])), parentDifficulty=num(n(p[C.DIFF])))
                if fi >= BYZANTIUM and (p[C.OMM] != C.EMPTY_OMMERS or c.bool(0.5)):
                    e["parentUncleHash"] = hb(p[C.OMM])
            else:
                e["currentDifficulty"] = num(blk.difficulty)
        else:
            x = h[C.MIX].hex()
            z = c.draw(3)
            e["currentRandom"] = ("0x" if z else "") + (x if z != 2 else x.lstrip("0") or "0")
        if fi >= LONDON:
            if derive:
                e.update(parentGasUsed=num(n(p[C.GU])), parentGasLimit=num(n(p[C.GL])), parentBaseFee=num(n(p[C.BASEFEE])))
            else:
                e["currentBaseFee"] = num(blk.base_fee)
        if fi >= CANCUN:
            e["parentBeaconBlockRoot"] = hb(h[C.BEACON])
            if derive:
                e.update(parentExcessBlobGas=num(n(p[C.EXCESS])), parentBlobGasUsed=num(n(p[C.BLOBGAS])))
            else:
                e["currentExcessBlobGas"] = num(blk.excess_blob)
        if fi >= PRAGUE and not case.state_test:
            e["parentHash"] = hb(h[C.PARENT])
        if fi >= SHANGHAI:
            e["withdrawals"] = [dict(index=hx(n(x[0])), validatorIndex=hx(n(x[1])), address=hb(x[2]), amount=hx(n(x[3])))
                                for x in case.wds]
        if derive:
            self.ctx.probe("env_from_parent")
        bh = {}
        for k, x in enumerate(reversed(blk.hashes), 1):
            at = blk.number - k
            bh[c.choice(["0x%x", "%x", "0x%04x"]) % at if k < 4 else hx(at)] = hb(x)
        if c.bool(0.3):
            bh[hx(blk.number)] = hb(R.keccak(b"self"))
            if blk.number > 300:
                bh[hx(blk.number - 257)] = hb(R.keccak(b"old"))
        e["blockHashes"] = bh
        if case.ommers or c.bool(0.1):
            e["ommers"] = [dict(delta=c.choice([str(x), hx(x)]), address=hb(a)) for x, a in case.ommers]
        return e

    def alloc_json(self, case):
        c, w = self.c, case.world
        out = {}
        style = c.draw(3)
        for a, (nonce, bal, code) in w.acc.items():
            o = {}
            if nonce or style == 1:
                o["nonce"] = hx(nonce)
            if bal or style == 1:
                o["balance"] = hx(bal) if style != 2 else str(bal)
            if code or style == 1:
                o["code"] = hb(code)
            if w.sto.get(a):
                o["storage"] = {hb(E.w32(k)) if style else hx(k): hx(v) if style != 1 else hb(E.w32(v))
                                for k, v in w.sto[a].items()}
            out[hb(a)] = o
        return out

    def request(self, case, as_rlp):
        c, fi = self.c, self.fi
        req = dict(env=self.env_json(case), alloc=getattr(case, "alloc", None) or self.alloc_json(case))
        if as_rlp:
            case.txs = [x for x in case.txs if x.json is None]
            req["txs"] = hb(R.enc([x.raw for x in case.txs]))
        else:
            items = []
            for x in case.txs:
                if x.json is None and not well_shaped(fi, x.raw):
                    # not expressible as JSON
                    continue
                items.append(x)
            case.txs = items
            req["txs"] = [x.json if x.raw is None else json_tx(c, fi, x.raw, self.rules.chain_id, x) for x in items]
            if not items and c.bool(0.3):
                req["txs"] = None
        case.as_rlp = as_rlp
        return req

    def args(self, case, extra=()):
        c = self.c
        a = ["t8n", "--state.fork", fork_name(c, self.m.name, case.blk.number), "--state.chainid", str(self.rules.chain_id)]
        if case.reward is not None:
            a += [f"--state.reward={case.reward}"]
        if case.state_test:
            a += ["--state-test"]
        return a + list(extra)


STDIO = ["--input.alloc=stdin", "--input.env=stdin", "--input.txs=stdin", "--output.result=stdout",
         "--output.alloc=stdout", "--output.body=stdout"]


class quiet:
    """The tool's own messages on the standard streams are not part of a run."""

    def __enter__(self):
        import contextlib
        self.s = contextlib.ExitStack()
        self.s.enter_context(contextlib.redirect_stdout(io.StringIO()))
        self.s.enter_context(contextlib.redirect_stderr(io.StringIO()))

    def __exit__(self, *a):
        self.s.close()


def call(args, text="", hooks=None, out=None):
    """-> (status or exception, text written)"""
    out = io.StringIO() if out is None else out
    old = N.TRACE.set_evm_trace(hooks.tracer) if hooks is not None else None
    try:
        with quiet():
            rc = TOOLS.main(list(args), out, io.StringIO(text))
    except RecursionError as e:
        raise HarnessError("recursion") from e
    except SystemExit as e:
        rc = e
    except Exception as e:
        rc = e
    finally:
        if hooks is not None:
            N.TRACE.set_evm_trace(old)
    return rc, out.getvalue()


# ----------------------------------------------------------------- judging
def problems(sim, case, o, rep):
    """Differences between the tool's report and the expected outcome."""
    fi, out, w = sim.fi, o.out, o.world
    res, alloc = rep.get("result"), rep.get("alloc")
    bad = []

    def eq(what, got, want):
        if got != want:
            bad.append(f"{what}: tool says {str(got)[:150]}, expected {str(want)[:150]}")
    rej = sorted(x["index"] for x in res["rejected"])
    if rej != sorted(o.rejected):
        why = {n: o.rejected.get(n) or next((x["error"] for x in res["rejected"] if x["index"] == n), "")[:80]
               for n in set(rej) ^ set(o.rejected)}
        bad.append(f"rejected {rej}, expected {sorted(o.rejected)}: {why}")
    if o.exception:
        if "blockException" not in res:
            bad.append(f"no block exception, expected {o.exception}")
        return bad
    eq("blockException", res.get("blockException"), None)
    eq("gasUsed", res["gasUsed"], hx(out.gas_used))
    eq("stateRoot", res["stateRoot"], hb(w.root()))
    eq("logsBloom", res["logsBloom"], hb(C.bloom(out.logs)))
    eq("logsHash", res["logsHash"], hb(R.keccak(R.enc([[a, list(tp), d] for a, tp, d in out.logs]))))
    want = []
    for n, rec, enc in zip(o.accepted, out.txs, out.receipts):
        raw = case.txs[n].raw
        f = enc if isinstance(enc, list) else R.dec(enc[1:])
        r = {"transactionHash": hb(R.keccak(raw if isinstance(raw, bytes) else R.enc(raw))),
             "gasUsed": hx(C.i(f[1])), "bloom": hb(f[2])}
        if fi >= BYZANTIUM:
            r["succeeded"] = f[0] == b"\1"
        else:
            r["post_state"] = hb(f[0])
        want.append(r)
    eq("receipts", [{k: v for k, v in r.items()} for r in res["receipts"]], want)
    if not o.rejected:
        items = [case.txs[n].raw for n in o.accepted]
        eq("txRoot", res["txRoot"], hb(R.list_root([x if isinstance(x, bytes) else R.enc(x) for x in items])))
        eq("receiptsRoot", res["receiptsRoot"],
           hb(R.list_root([x if isinstance(x, bytes) else R.enc(x) for x in out.receipts])))
    if fi < PARIS:
        eq("currentDifficulty", res["currentDifficulty"], hx(case.blk.difficulty))
    if fi >= LONDON:
        eq("currentBaseFee", res["currentBaseFee"], hx(case.blk.base_fee))
    if fi >= SHANGHAI:
        wr = R.EMPTY_ROOT if case.state_test else R.list_root([R.enc(x) for x in case.wds])
        eq("withdrawalsRoot", res["withdrawalsRoot"], hb(wr))
    if fi >= CANCUN:
        eq("currentExcessBlobGas", res["currentExcessBlobGas"], hx(case.blk.excess_blob))
        eq("blobGasUsed", res.get("blobGasUsed"), hx(out.blob_gas))
    if fi >= PRAGUE:
        eq("requests", res["requests"], [hb(x) for x in out.requests])
        eq("requestsHash", res["requestsHash"], hb(C.requests_hash(out.requests)))
    if alloc is not None:
        got = {bytes.fromhex(a[2:]): v for a, v in alloc.items()}
        for a in sorted(set(got) | set(w.acc)):
            x, y = got.get(a), w.acc.get(a)
            if (x is None) != (y is None):
                bad.append(f"alloc {a.hex()}: tool says {x}, expected {N.fmt(y)}")
                continue
            t = (int(x.get("nonce", "0x0"), 16), int(x.get("balance", "0x0"), 16), bytes.fromhex(x.get("code", "0x")[2:]))
            if t != y:
                bad.append(f"alloc {a.hex()}: tool says {N.fmt(t)}, expected {N.fmt(y)}")
            st = {int(k, 16): int(v, 16) for k, v in x.get("storage", {}).items()}
            if st != {k: v for k, v in w.sto.get(a, {}).items() if v}:
                bad.append(f"alloc {a.hex()} storage: tool says {st}, expected {w.sto.get(a)}")
    if "body" in rep and all(x.raw is not None and well_shaped(fi, x.raw) for x in case.txs):
        eq("body", rep["body"], hb(R.enc([x.raw for x in case.txs])))
    return bad


def block(sim, tip, chained):
    """One invocation judged; -> next tip for a chained run."""
    ctx, c, fi = sim.ctx, sim.c, sim.fi
    case = sim.build(tip, chained)
    if sim.opts.get("alloc") is not None:
        case.alloc = sim.opts["alloc"]
    as_rlp = c.bool(0.4)
    req = sim.request(case, as_rlp)
    count = N.Injector(sim.m, ())
    expect(fi, case, count.hook)
    at = sorted(c.draw(count.n) for _ in range(c.int(1, 2))) if count.n and c.bool(0.4) else []
    ref = N.Injector(sim.m, at)
    o = expect(fi, case, ref.hook)
    real = N.Injector(sim.m, at, c.draw(32))
    rc, text = call(sim.args(case, STDIO), json.dumps(req), real)
    ctx.fault("injected_halt", real.fired)
    tag = (f"{sim.m.name} block {case.blk.number} {'rlp' if as_rlp else 'json'} {len(case.txs)} txs"
           f"{' state test' if case.state_test else ''}{' chained' if chained else ''} reward {case.reward}"
           f"{' ommers %d' % len(case.ommers) if case.ommers else ''} halts at {at}")
    ctx.check(rc == 0, "tool-failed", f"{tag}: {type(rc).__name__} {rc}")
    rep = json.loads(text)
    bad = problems(sim, case, o, rep)
    whys = [x.why for x in case.txs]
    ctx.check(not bad, "tool-differs", f"{tag} (unusual: {whys}): {'; '.join(bad[:4])}")
    ctx.check(real.n == ref.n, "tool-differs", f"{tag}: {real.n} traced steps, expected {ref.n}")
    for n in o.accepted:
        ctx.probe("accepted")
    for n, why in o.rejected.items():
        ctx.probe("rejected_" + why)
        ctx.state(sim.m.name, why, n, as_rlp, case.state_test)
    if case.ommers or case.wds:
        ctx.probe("block_with_ommers_or_withdrawals")
    if o.exception:
        ctx.probe("block_exception")
    for r in o.out.txs:
        ctx.state(sim.m.name, r["kind"], r["ok"], r["halt"])
    ctx.log("t8n", case.blk.number, len(o.accepted), sorted(o.rejected), rep["result"]["stateRoot"][:18])
    if not chained or o.exception:
        return None
    # the same transactions as a block
    h = list(case.h)
    txs = [case.txs[n].raw for n in o.accepted]
    C.commitments(fi, h, o.world, o.out, txs, [], case.wds)
    if fi < PARIS:
        h[C.MIX] = C.seal(h)
    rec = C.Rec(C.body_of(fi, h, txs, [], case.wds), tip, o.world, o.out)
    inj = N.Injector(sim.m, [])
    if not at:
        err = N.transition(sim.m, sim.chain, rec.raw, inj)
        ctx.check(err is None and N.same_state(sim.m, sim.chain.state, o.world), "import-differs",
                  f"{tag}: the block of the accepted transactions: {type(err).__name__} {err}")
    else:
        sim.chain = None
    sim.opts["alloc"] = rep["alloc"]
    return rec


# ---------------------------------------------------------------- tracing
class Line:
    __slots__ = ("pc", "op", "gas", "size", "stack", "mem", "ret", "depth", "refund", "kind", "error", "after", "refund2")


class Events:
    """What the model executed: one list of lines per transaction, and instruction counts per environment."""

    def __init__(self, m):
        self.m = m
        self.per = {}
        self.counts = []
        self.cur = None
        self.last_tx = None

    def begin(self, n):
        self.index, self.cur = n, []

    def end(self, rec):
        self.per[self.index] = (self.cur, rec)
        self.cur = None

    def op(self, tx, depth, pc, o, gas, st, mem, ret, kind):
        if kind != "invalid" and kind != "stop":
            if tx is not self.last_tx:
                self.counts.append({})
                self.last_tx = tx
            n = self.m.ops(o).name
            self.counts[-1][n] = self.counts[-1].get(n, 0) + 1
        if self.cur is None or tx.origin == E.SYSTEM:
            return
        x = Line()
        x.pc, x.op, x.gas, x.size, x.stack, x.mem, x.ret, x.depth = pc, o, gas, len(mem), list(st), bytes(mem), ret, depth
        x.refund, x.kind, x.error, x.after = tx.refund, kind, False, None
        self.seen(tx)
        x.refund2 = None
        for y in reversed(self.cur):
            if y.depth == depth:
                if y.after is None:
                    y.after = gas
                break
            if y.depth < depth:
                break
        self.cur.append(x)

    def ours(self, tx, depth):
        if self.cur is None or tx.origin == E.SYSTEM:
            return None
        for y in reversed(self.cur):
            if y.depth == depth:
                return y
            if y.depth < depth:
                return None
        return None

    def seen(self, tx):
        if self.cur and self.cur[-1].refund2 is None:
            self.cur[-1].refund2 = tx.refund

    def left(self, tx, depth, gas):
        y = self.ours(tx, depth)
        self.seen(tx)
        if y is not None and y.after is None:
            y.after = gas

    def failed(self, tx, depth, gas=None):
        y = self.ours(tx, depth)
        self.seen(tx)
        if y is not None:
            y.error = True
            y.after = gas


CALLS = {0xF0, 0xF1, 0xF2, 0xF4, 0xF5, 0xFA}


def lines_differ(m, fi, lines, rec, text, memory, stack, returndata, gas_limit):
    """First difference between a written trace and what was executed."""
    try:
        got = [json.loads(x) for x in text.splitlines()]
    except ValueError as e:
        return f"not JSON lines: {e}"
    if text and not text.endswith("\n"):
        return "last line not ended"
    if not got or "output" not in got[-1] or "pc" in got[-1]:
        return "no closing line"
    last = got.pop()
    if len(got) != len(lines):
        k = next((k for k, (a, b) in enumerate(zip(got, lines)) if a["pc"] != b.pc), min(len(got), len(lines)))
        return (f"{len(got)} lines, {len(lines)} instructions were executed; first difference at {k}: "
                f"{got[k] if k < len(got) else None} against pc {lines[k].pc if k < len(lines) else None}")
    for k, (g, x) in enumerate(zip(got, lines)):
        want = {"pc": x.pc, "op": x.op, "depth": x.depth + 1, "memSize": x.size}
        if x.gas < 2**64:
            want["gas"] = hx(x.gas)
        if x.kind == "invalid":
            want["opName"] = "InvalidOpcode"
        else:
            want["opName"] = m.ops(x.op).name
        if stack:
            want["stack"] = [hx(v) for v in x.stack]
        if memory and x.size:
            want["memory"] = hb(x.mem)
        if returndata and fi >= BYZANTIUM:
            want["returnData"] = hb(x.ret)
        rest = dict(g)
        for f, v in want.items():
            if rest.pop(f, None) != v:
                return f"line {k} {f}: trace says {str(g.get(f))[:100]}, executed {str(v)[:100]} ({m_name(x)})"
        cost, refund, error = rest.pop("gasCost", None), rest.pop("refund", None), rest.pop("error", None)
        if rest:
            return f"line {k}: unexpected {sorted(rest)}"
        if not x.error and refund not in (x.refund, x.refund2):
            return f"line {k}: refund {refund}, was {x.refund} before and {x.refund2} after ({m_name(x)})"
        if bool(error) != x.error:
            return f"line {k}: error {error}, instruction {'failed' if x.error else 'succeeded'} ({m_name(x)})"
        if x.after is not None and x.op not in CALLS and not x.error:
            want_cost = x.gas - x.after
            if cost is None and want_cost >= 2**64:
                continue
            if int(cost, 16) != want_cost:
                return f"line {k}: gasCost {cost}, was {hx(want_cost)} ({m_name(x)})"
    # what a creation whose code is refused leaves as its output is nobody's business
    refused = rec["halt"] in ("code deposit", "code size", "0xEF prefix")
    if not refused and last["output"] != rec["out"].hex() or last["gasUsed"] != hx(rec["gross"] - rec["intrinsic"]) or (
            bool(last.get("error")) != (not rec["ok"])):
        return f"closing line {last}, expected output {rec['out'].hex()[:64]} gas {hx(rec['gross'] - rec['intrinsic'])} ok {rec['ok']}"
    return None


def m_name(x):
    return f"op {x.op:#x} at {x.pc} depth {x.depth}"


def expect_traced(sim, case, hook=None, as_import=False):
    ev = Events(sim.m)
    E.TRACE = ev
    try:
        return expect(sim.fi, case, hook, ev, as_import), ev
    finally:
        E.TRACE = None


def collided(fi, ev, n):
    """A creation stopped before any frame existed leaves nothing to trace."""
    return ev.per[n][1]["halt"] == "collision"


def hash_of(raw):
    return R.keccak(raw if isinstance(raw, bytes) else R.enc(raw))


def check_counts(sim, ev, got, tag):
    total = {}
    for x in ev.counts:
        for k, v in x.items():
            total[k] = total.get(k, 0) + v
    last = ev.counts[-1] if ev.counts else {}
    sim.ctx.check(got in (last, total), "count-differs", f"{tag}: {got}, executed {last} last, {total} in all")


def traced_tool(sim):
    """The tool with tracing options: same report, and a true trace."""
    ctx, c, fi = sim.ctx, sim.c, sim.fi
    case = sim.build(sim.gen, c.bool(0.5))
    req = sim.request(case, c.bool(0.4))
    o, ev = expect_traced(sim, case)
    d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    try:
        memory, stack, returndata, count = c.bool(0.5), not c.bool(0.3), c.bool(0.5), c.bool(0.5)
        trace = c.bool(0.85)
        opts = [f"--output.basedir={d}"] + ["--trace"] * trace + ["--trace.memory"] * memory + [
            "--trace.nostack"] * (not stack) + ["--trace.returndata"] * returndata
        if count:
            opts += ["--opcode.count=" + c.choice(["stdout", "counts.json"])]
        rc, text = call(sim.args(case, STDIO + opts), json.dumps(req))
        tag = f"{sim.m.name} tool {' '.join(x for x in opts if 'basedir' not in x)} {len(case.txs)} txs"
        ctx.check(rc == 0, "tool-failed", f"{tag}: {type(rc).__name__} {rc}")
        rep = json.loads(text)
        bad = problems(sim, case, o, rep)
        ctx.check(not bad, "trace-changes-outcome", f"{tag}: {'; '.join(bad[:3])}")
        files = set(os.listdir(d))
        if count:
            if "counts.json" in files:
                files.discard("counts.json")
                with open(os.path.join(d, "counts.json")) as f:
                    got = json.load(f)
            else:
                got = rep["opcodeCount"]
            check_counts(sim, ev, got, tag)
        want = {}
        if trace:
            want = {f"trace-{n}-{hb(hash_of(case.txs[n].raw))}.jsonl": n for n in o.accepted if not collided(fi, ev, n)}
        ctx.check(files == set(want), "trace-differs", f"{tag}: files {sorted(files)}, expected {sorted(want)}")
        for name, n in want.items():
            lines, rec = ev.per[n]
            with open(os.path.join(d, name)) as f:
                text = f.read()
            why = lines_differ(sim.m, fi, lines, rec, text, memory, stack, returndata, rec["gas"])
            ctx.check(why is None, "trace-differs", f"{tag} transaction {n}: {why}")
            note(ctx, sim.m, lines, rec)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.log("traced", len(case.txs), sorted(o.accepted), case.blk.number)


def note(ctx, m, lines, rec):
    ctx.probe("traced_lines", len(lines))
    ctx.probe("traced_errors", sum(x.error for x in lines))
    ctx.probe("traced_tx_failed", int(not rec["ok"]))
    ctx.state(m.name, min(len(lines), 40), max((x.depth for x in lines), default=0), sum(x.error for x in lines), rec["ok"])


class Toggle:
    """Switches a tracer on for some transactions only, and injects the drawn halts after it has seen the event."""

    def __init__(self, inner, on, inj):
        self.inner, self.on, self.inj = inner, on, inj

    def tracer(self, evm, event, **kw):
        n = evm.message.tx_env.index_in_block
        if n is not None and int(n) in self.on:
            self.inner(evm, event)
        if self.inj is not None:
            self.inj.tracer(evm, event)


def traced_import(sim):
    """Block import with tracers switched on and off between transactions, and halts at drawn instants."""
    from ethereum_spec_tools.evm_tools.t8n.evm_trace.count import CountTracer
    from ethereum_spec_tools.evm_tools.t8n.evm_trace.eip3155 import Eip3155Tracer
    from ethereum_spec_tools.evm_tools.t8n.evm_trace.group import GroupTracer
    ctx, c, fi, m = sim.ctx, sim.c, sim.fi, sim.m
    case = sim.build(sim.gen, True)
    o = expect(fi, case)
    case.txs = [case.txs[n] for n in o.accepted]
    count = N.Injector(m, ())
    expect(fi, case, count.hook, as_import=True)
    at = sorted(c.draw(count.n) for _ in range(c.int(1, 3))) if count.n and c.bool(0.6) else []
    ref = N.Injector(m, at)
    o, ev = expect_traced(sim, case, ref.hook, True)
    if o.exception or o.rejected:
        return
    h = list(case.h)
    C.commitments(fi, h, o.world, o.out, [x.raw for x in case.txs], [], case.wds)
    if fi < PARIS:
        h[C.MIX] = C.seal(h)
    raw = R.enc(C.body_of(fi, h, [x.raw for x in case.txs], [], case.wds))
    on = {n for n in o.accepted if c.bool(0.6)}
    kind = c.choice(["eip3155", "count", "group", "eip3155"])
    memory, stack, returndata = c.bool(0.5), c.bool(0.7), c.bool(0.5)
    stream = io.StringIO()
    inner = None
    if kind != "count":
        inner = Eip3155Tracer(trace_memory=memory, trace_stack=stack, trace_return_data=returndata, output_basedir=stream)
    if kind != "eip3155":
        cnt = CountTracer()
        if inner is None:
            inner = cnt
        else:
            g = GroupTracer()
            g.add(inner)
            g.add(cnt)
            inner = g
    real = Toggle(inner, on, N.Injector(m, at, c.draw(32)))
    chain = N.new_chain(m, sim.gen, sim.rules.chain_id)
    err = N.transition(m, chain, raw, real)
    ctx.fault("injected_halt", real.inj.fired)
    ctx.fault("tracer_switched", sum((n in on) != (n + 1 in on) for n in range(len(case.txs) - 1)))
    tag = f"{m.name} import {kind} on {sorted(on)} of {len(case.txs)} halts at {at}"
    ctx.check(err is None and N.same_state(m, chain.state, o.world), "trace-changes-outcome",
              f"{tag}: {type(err).__name__ if err else ''} {err}; {'; '.join(N.diff(m, chain.state, o.world)[:3])}")
    if kind != "count":
        parts, text = [], ""
        for x in stream.getvalue().splitlines(True):
            text += x
            if '"gasUsed"' in x:
                parts.append(text)
                text = ""
        want = [n for n in sorted(on) if not collided(fi, ev, n)]
        ctx.check(len(parts) == len(want) and not text, "trace-differs",
                  f"{tag}: {len(parts)} traces, expected {len(want)}")
        for n, text in zip(want, parts):
            lines, rec = ev.per[n]
            why = lines_differ(m, fi, lines, rec, text, memory, stack, returndata, rec["gas"])
            ctx.check(why is None, "trace-differs", f"{tag} transaction {n}: {why}")
            note(ctx, m, lines, rec)
    ctx.log("import", sorted(on), at, len(case.txs))


# ------------------------------------------------------------------- files
class SimRaw(io.FileIO):
    """A file whose every operation is a point where the disk may fail."""

    def __init__(self, disk, path, mode):
        self.disk, self.name_ = disk, os.path.basename(str(path))
        super().__init__(path, mode)

    def write(self, b):
        how = self.disk.point("write", self.name_)
        if how == "short":
            return super().write(bytes(b)[:max(1, len(b) // 2)])
        if how:
            super().write(bytes(b)[:self.disk.torn % (len(b) + 1)])
            raise OSError(how, os.strerror(how))
        return super().write(b)

    def readinto(self, b):
        how = self.disk.point("read", self.name_)
        if how == "short":
            x = super().read(max(1, len(b) // 2))
            b[:len(x)] = x
            return len(x)
        if how:
            raise OSError(how, os.strerror(how))
        return super().readinto(b)

    def readall(self):
        how = self.disk.point("read", self.name_)
        if how and how != "short":
            raise OSError(how, os.strerror(how))
        return super().readall()

    def close(self):
        if not self.closed:
            how = self.disk.point("close", self.name_)
            super().close()
            if how and how != "short":
                raise OSError(how, os.strerror(how))


class Sink(io.RawIOBase):
    """Standard output of the process."""

    def __init__(self, disk):
        self.disk, self.data = disk, b""

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        how = self.disk.point("write", "stdout")
        if how == "short":
            b = b[:max(1, len(b) // 2)]
        elif how:
            self.data += b[:self.disk.torn % (len(b) + 1)]
            raise OSError(how, os.strerror(how))
        self.data += b
        return len(b)


class Disk:
    """Everything under root, with a drawn operation failing."""

    def __init__(self, root, at=None, how=None, torn=0):
        self.root, self.at, self.how, self.torn = root, at, how, torn
        self.n, self.ops, self.fired = 0, [], None

    def point(self, op, name):
        k = self.n
        self.n += 1
        self.ops.append((op, name))
        if k == self.at:
            self.fired = (op, name)
            return self.how
        return None

    def inside(self, path):
        try:
            return os.path.abspath(os.fspath(path)).startswith(self.root + os.sep) or os.path.abspath(path) == self.root
        except TypeError:
            return False

    def __enter__(self):
        import builtins
        self.saved = [(builtins, "open", builtins.open), (io, "open", io.open)]
        real = builtins.open
        disk = self

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if isinstance(file, int) or not disk.inside(file):
                return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
            write = any(x in mode for x in "wxa+")
            how = disk.point("open-write" if write else "open-read", os.path.basename(str(file)))
            if how and how != "short":
                raise OSError(how, os.strerror(how), str(file))
            raw = SimRaw(disk, file, mode.replace("t", "").replace("b", ""))
            buf = io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw) if write else io.BufferedReader(raw)
            return buf if "b" in mode else io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
        builtins.open = io.open = sim_open
        for name in ("remove", "unlink", "listdir", "rename", "replace", "scandir", "mkdir", "makedirs", "rmdir"):
            self.saved.append((os, name, getattr(os, name)))

            def wrap(*a, _f=getattr(os, name), _n=name, **k):
                if a and disk.inside(a[0]):
                    how = disk.point(_n, os.path.basename(str(a[0])) if _n != "listdir" else "")
                    if how and how != "short":
                        raise OSError(how, os.strerror(how), str(a[0]))
                return _f(*a, **k)
            setattr(os, name, wrap)
        return self

    def __exit__(self, *a):
        for obj, name, f in self.saved:
            setattr(obj, name, f)


def tree(d):
    out = {}
    for base, _, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as g:
                out[os.path.relpath(p, d)] = g.read()
    return out


def io_run(sim):
    """One command line run against a faulty disk; success has to mean complete output."""
    import errno
    ctx, c, fi = sim.ctx, sim.c, sim.fi
    case = sim.build(sim.gen, c.bool(0.5))
    req = sim.request(case, c.bool(0.4))
    # half of the inputs come through files
    inputs = {k: c.choice(["stdin", k + ".json"]) for k in ("alloc", "env", "txs")}
    outputs = {"result": c.choice(["stdout", "result.json", "r.out"]), "alloc": c.choice(["stdout", "alloc.json", "a.out"]),
               "body": c.choice([None, "stdout", "body.txt", "txs.rlp"])}
    trace, count = c.bool(0.5), c.choice([None, None, "stdout", "counts.json"])
    sub = c.choice(["", "out"])
    args = []
    for k, v in inputs.items():
        if v != k + ".json" or c.bool(0.5):
            args.append(f"--input.{k}={v}")
    for k, v in outputs.items():
        if v is not None and (v != k + ".json" or c.bool(0.5)):
            args.append(f"--output.{k}={v}")
    if trace:
        args += ["--trace"] + ["--trace.memory"] * c.draw(2)
    if count:
        args.append(f"--opcode.count={count}")
    if sub or c.bool(0.3):
        args.append(f"--output.basedir={sub or '.'}")
    args = sim.args(case, args)
    o, ev = expect_traced(sim, case)
    stdin = {k: req[k] for k, v in inputs.items() if v == "stdin"}
    broken = c.weighted([(5, None), (1, "missing"), (2, "truncated"), (1, "garbled")])
    files = {v: json.dumps(req[k]).encode() for k, v in inputs.items() if v != "stdin"}
    text = json.dumps(stdin)
    if broken:
        names = sorted(files) + (["stdin"] if stdin else [])
        name = c.choice(names)
        if name == "stdin":
            text = text[:c.draw(len(text))] if broken != "garbled" else text[:c.draw(len(text))] + "\x00"
        elif broken == "missing":
            del files[name]
        else:
            x = files[name]
            files[name] = x[:c.draw(len(x))] + (b"" if broken == "truncated" else b"\xff\x00")
        ctx.fault("input_" + broken)
    # what an earlier run left behind
    stale = {}
    for k, v in list(outputs.items()) + [("count", count)]:
        if v not in (None, "stdout") and c.bool(0.6):
            stale[v] = b"{" + b"old " * c.choice([1, 10, 20000])
    for n in range(c.draw(3)):
        pick = c.choice(case.txs).raw if case.txs and c.bool(0.5) else None
        x = hash_of(pick) if pick is not None else R.keccak(b"stale%d" % n)
        stale[f"trace-{c.choice([0, 1, 2, 10, 137])}-{hb(x)}.jsonl"] = b"{}\n" * c.choice([1, 5000])
    keep = {"notes.txt": b"mine", "trace.txt": b"mine too"}
    ctx.fault("stale_output", len(stale))

    def attempt(disk_at=None, how=None, torn=0):
        d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
        d = os.path.realpath(d)
        cwd = os.getcwd()
        try:
            outdir = os.path.join(d, sub)
            os.makedirs(outdir, exist_ok=True)
            for k, v in list(stale.items()) + list(keep.items()):
                with open(os.path.join(outdir, k), "wb") as f:
                    f.write(v)
            for k, v in files.items():
                with open(os.path.join(d, k), "wb") as f:
                    f.write(v)
            os.chdir(d)
            disk = Disk(d, disk_at, how, torn)
            sink = Sink(disk)
            out = io.TextIOWrapper(io.BufferedWriter(sink), "utf-8")
            with disk:
                rc = status(args, text, out)
            try:
                out.detach().detach()
            except (OSError, ValueError):
                pass
            return rc, sink.data.decode(), tree(d), disk
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)

    def judge(rc, text, got, what):
        tag = f"{sim.m.name} {' '.join(args[5:])} {what}"
        if rc not in (0, None):
            return False
        at = sub + "/" if sub else ""
        for k, v in keep.items():
            ctx.check(got.get(at + k) == v, "foreign-file-touched", f"{tag}: {k}")
        rep = {}
        try:
            if text:
                rep = json.loads(text)
            for k, v in outputs.items():
                if v not in (None, "stdout"):
                    rep[k] = json.loads(got[at + v])
            if count and count != "stdout":
                rep["opcodeCount"] = json.loads(got[at + count])
            lost = [k for k in ("result", "alloc", "body") if outputs[k] and k not in rep]
            bad = ["missing " + ", ".join(lost)] if lost else problems(sim, case, o, rep)
            if count and "opcodeCount" not in rep:
                bad.append("missing opcodeCount")
        except (ValueError, KeyError) as e:
            bad = [f"output is not there or not complete: {type(e).__name__} {e}"]
        ctx.check(not bad, "success-without-output", f"{tag}: {'; '.join(bad[:3])}")
        if count:
            check_counts(sim, ev, rep["opcodeCount"], tag)
        names = {f for f in got if f.startswith(at + "trace-")}
        want = {}
        if trace:
            want = {f"{at}trace-{n}-{hb(hash_of(case.txs[n].raw))}.jsonl": n for n in o.accepted if not collided(fi, ev, n)}
        ctx.check(names == set(want), "success-without-output", f"{tag}: traces {sorted(names)}, expected {sorted(want)}")
        for name, n in want.items():
            lines, rec = ev.per[n]
            try:
                t = got[name].decode()
            except ValueError:
                t = "not text"
            why = lines_differ(sim.m, fi, lines, rec, t, "--trace.memory" in args, True, False, rec["gas"])
            ctx.check(why is None, "success-without-output", f"{tag} trace {n}: {why}")
        return True
    rc, out, got, disk = attempt()
    if broken:
        ctx.check(not judge(rc, out, got, f"{broken} {name}"), "success-without-input", f"{args[5:]} {broken} {name}")
    else:
        ctx.check(judge(rc, out, got, "no fault"), "tool-failed", f"{sim.m.name} {' '.join(args[5:])}: {type(rc).__name__} {rc}")
    ctx.probe("disk_operations", disk.n)
    for _ in range(c.int(2, 5)):
        if not disk.n:
            break
        k = c.draw(disk.n)
        how = c.weighted([(3, errno.ENOSPC), (2, errno.EIO), (1, errno.EACCES), (1, errno.EMFILE), (1, errno.ENOENT),
                          (1, errno.EPIPE), (1, "short")])
        rc, out, got, d2 = attempt(k, how, c.draw(9000))
        ok = judge(rc, out, got, f"{how if how == 'short' else errno.errorcode[how]} at {d2.fired}")
        ctx.fault(f"disk_{how if how == 'short' else errno.errorcode[how]}")
        ctx.state(d2.fired, how, ok, sub, broken)
        ctx.probe("succeeded_despite_fault" if ok else "failed_with_fault")
        if how == "short" and not broken:
            ctx.check(ok, "tool-failed", f"{sim.m.name} {args[5:]} short transfer at {d2.fired}: {rc}")
    ctx.log("files", [d for d in disk.ops][:50], broken)


def status(args, text, out):
    """Exit status of the process, as its parent would see it."""
    try:
        with quiet():
            rc = TOOLS.main(list(args), out, io.StringIO(text))
        if rc not in (0, None):
            return rc
    except RecursionError as e:
        raise HarnessError("recursion") from e
    except SystemExit as e:
        if e.code not in (0, None):
            return e
    except Exception as e:
        return e
    try:
        out.flush()
    except OSError as e:
        return e
    return 0


def run(ctx):
    try:
        simulate(ctx)
    except E.Unsupported:
        ctx.count("unsupported_input")


def simulate(ctx):
    sim = Sim(ctx)
    c = ctx.c
    if sim.mode == "t8n":
        chained = c.bool(0.5)
        tip = sim.gen
        sim.chain = N.new_chain(sim.m, sim.gen, sim.rules.chain_id) if chained else None
        for _ in range(c.int(1, 3)):
            tip = block(sim, tip, chained)
            if tip is None or sim.chain is None:
                tip = sim.gen
                sim.opts.pop("alloc", None)
                sim.chain = N.new_chain(sim.m, sim.gen, sim.rules.chain_id) if chained else None
    elif sim.mode == "trace":
        for _ in range(c.int(1, 2)):
            if c.bool(0.5):
                traced_tool(sim)
            else:
                traced_import(sim)
    elif sim.mode == "files":
        io_run(sim)
    else:
        raise HarnessError(sim.mode)
    ctx.nontrivial = True
