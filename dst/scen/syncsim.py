"""Chain-sync simulation (C06, C15, C16, C17).

Real: `ethereum_spec_tools.sync` (both threads), the standard queue, fork
selection, block decoding under every fork, `apply_fork`, the mdbx-backed state
and its metadata.  Simulated: thread scheduling, time, the RPC server and its
network.  Stubbed: block *validation* (`state_transition`), replaced by a
recorder that checks what the client hands over and writes a marker into the
real state store so durability of imported blocks can be checked.
"""
import importlib
import io
import json
import logging
import os
import pkgutil
import random
import shutil
import sys
import tempfile
import urllib.error
import urllib.request

from dst import tsim
from dst.core import HarnessError, Violation
from dst.ref import rlp as R

FORK_ORDER = ["frontier", "homestead", "dao_fork", "tangerine_whistle", "spurious_dragon", "byzantium",
              "constantinople", "istanbul", "muir_glacier", "berlin", "london", "arrow_glacier",
              "gray_glacier", "paris", "shanghai", "cancun", "prague", "osaka"]
JSON_FORKS = [("frontier", None), ("homestead", "homesteadBlock"), ("tangerine_whistle", "eip150Block"),
              ("spurious_dragon", "eip155Block"), ("byzantium", "byzantiumBlock"),
              ("constantinople", "constantinopleBlock"), ("istanbul", "istanbulBlock"), ("berlin", "berlinBlock"),
              ("london", "londonBlock"), ("paris", "mergeForkBlock")]
MAINNET = [("frontier", 1), ("homestead", 1150000), ("dao_fork", 1920000), ("tangerine_whistle", 2463000),
           ("spurious_dragon", 2675000), ("byzantium", 4370000), ("constantinople", 7280000),
           ("istanbul", 9069000), ("muir_glacier", 9200000), ("berlin", 12244000), ("london", 12965000),
           ("arrow_glacier", 13773000), ("gray_glacier", 15050000), ("paris", 15537394)]
MAINNET_TS = [("shanghai", 1681338455), ("cancun", 1710338135), ("prague", 1746612311)]
ACC = b"\xac" * 20
MODS = {}
RUN = None
_real_get_data = pkgutil.get_data


class CrashNow(Exception):
    pass


class ServerFault(Exception):
    pass


def setup(env):
    logging.disable(logging.CRITICAL)
    import ethereum_optimized
    ethereum_optimized.monkey_patch(None)
    for f in FORK_ORDER:
        MODS[f] = {n: importlib.import_module(f"ethereum.{f}.{n}")
                   for n in ("fork", "blocks", "transactions", "state", "fork_types", "trie", "utils.hexadecimal")}
    import ethereum.genesis  # noqa: F401


_patched = False


def patch():
    """In the forked child: simulator primitives, then import the client."""
    global _patched
    if _patched:
        return
    _patched = True
    tsim.install()
    urllib.request.urlopen = urlopen
    pkgutil.get_data = get_data
    for f in FORK_ORDER:
        m = MODS[f]["fork"]
        wrap_fork(f, m)
    import ethereum_spec_tools.sync  # noqa: F401
    import queue
    real_init = queue.Queue.__init__

    def init(self, maxsize=0):
        # buggify knob: the hand-over queue may be much smaller
        if RUN is not None and RUN.queue_size and maxsize > 0:
            maxsize = min(maxsize, RUN.queue_size)
        real_init(self, maxsize)
    queue.Queue.__init__ = init


def get_data(package, resource):
    if RUN is not None and RUN.config is not None and resource.endswith("sepolia.json"):
        return json.dumps(RUN.config).encode()
    if RUN is not None and resource.endswith("mainnet.json"):
        return RUN.mainnet_json()
    return _real_get_data(package, resource)


def wrap_fork(name, m):
    real_apply = m.apply_fork

    def apply_fork(old):
        out = real_apply(old)
        RUN.on_apply(name, out)
        return out

    def state_transition(chain, block):
        RUN.on_import(name, m, chain, block)
    m.apply_fork = apply_fork
    m.state_transition = state_transition


# ------------------------------------------------------------------ chain data
def ib(n):
    return R.int_b(n)


def rb(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, "big") if n else b""


def mk_tx(rng, fi):
    to = b"" if rng.random() < 0.2 else rb(rng, 20)
    data = rb(rng, rng.choice([0, 0, 4, 40]))
    nonce, gas, value = rng.randrange(2**20), rng.randrange(21000, 2**25), rng.randrange(2**80)
    price = rng.randrange(2**40)
    r, s = rng.getrandbits(256), rng.getrandbits(255)
    kinds = [0]
    if fi >= 9:
        kinds.append(1)
    if fi >= 10:
        kinds.append(2)
    if fi >= 15:
        kinds.append(3)
    if fi >= 16:
        kinds.append(4)
    k = rng.choice(kinds)
    if k == 0:
        return [ib(nonce), ib(price), ib(gas), to, ib(value), data, ib(rng.choice([27, 28, 37])), ib(r), ib(s)], 0
    al = [[rb(rng, 20), [rb(rng, 32) for _ in range(rng.randrange(3))]] for _ in range(rng.randrange(3))]
    y = ib(rng.randrange(2))
    if k == 1:
        f = [ib(1), ib(nonce), ib(price), ib(gas), to, ib(value), data, al, y, ib(r), ib(s)]
    elif k == 2:
        f = [ib(1), ib(nonce), ib(price // 2), ib(price), ib(gas), to, ib(value), data, al, y, ib(r), ib(s)]
    elif k == 3:
        to = to or rb(rng, 20)
        f = [ib(1), ib(nonce), ib(price // 2), ib(price), ib(gas), to, ib(value), data, al, ib(7),
             [b"\x01" + rb(rng, 31)], y, ib(r), ib(s)]
    else:
        to = to or rb(rng, 20)
        auth = [[ib(1), rb(rng, 20), ib(rng.randrange(100)), y, ib(r), ib(s)]]
        f = [ib(1), ib(nonce), ib(price // 2), ib(price), ib(gas), to, ib(value), data, al, auth, y, ib(r), ib(s)]
    return bytes([k]) + R.enc(f), k


def mk_header(rng, fi, number, ts, parent, gas_used):
    h = [parent, rb(rng, 32), rb(rng, 20), rb(rng, 32), rb(rng, 32), rb(rng, 32), rb(rng, 256),
         ib(rng.randrange(2**40)) if fi < 13 else b"", ib(number), ib(30_000_000), ib(gas_used), ib(ts),
         rb(rng, rng.randrange(33)), rb(rng, 32), rb(rng, 8)]
    if fi >= 10:
        h.append(ib(rng.randrange(1, 2**40)))
    if fi >= 14:
        h.append(rb(rng, 32))
    if fi >= 15:
        h += [ib(rng.randrange(2**18)), ib(rng.randrange(2**24)), rb(rng, 32)]
    if fi >= 16:
        h.append(rb(rng, 32))
    return h


class Chain:
    """Synthetic chain, generated on demand, identical for a given seed."""

    def __init__(self, seed, start, start_parent, start_ts, step, fork_of):
        self.seed, self.start, self.step, self.fork_of = seed, start, step, fork_of
        self.parent, self.start_ts = start_parent, start_ts
        self.raw, self.hash, self.fields = {}, {}, {}
        self.next = start

    def ts(self, n):
        return self.start_ts + (n - self.start + 1) * self.step

    def get(self, n):
        while self.next <= n:
            i = self.next
            rng = random.Random(f"{self.seed}/{i}")
            fi = FORK_ORDER.index(self.fork_of(i, self.ts(i)))
            ntx = rng.choice([0, 0, 1, 2])
            txs = [mk_tx(rng, fi)[0] for _ in range(ntx)]
            omm = []
            if fi < 13 and rng.random() < 0.15:
                omm = [mk_header(rng, fi, i - 1, self.ts(i) - 1, rb(rng, 32), 0)
                       for _ in range(rng.randrange(1, 3))]
            h = mk_header(rng, fi, i, self.ts(i), self.parent, 21000 * ntx)
            body = [h, txs, omm]
            if fi >= 14:
                body.append([[ib(rng.randrange(2**20)), ib(rng.randrange(2**20)), rb(rng, 20), ib(rng.randrange(2**40))]
                             for _ in range(rng.randrange(3))])
            self.raw[i] = R.enc(body)
            self.fields[i] = body
            self.hash[i] = R.keccak(R.enc(h))
            self.parent = self.hash[i]
            self.next += 1
        return self.raw[n]


def hx(b):
    return "0x" + b.hex()


def qty(b):
    return hex(int.from_bytes(b, "big"))


def header_json(h):
    names = ["parentHash", "sha3Uncles", "miner", "stateRoot", "transactionsRoot", "receiptsRoot", "logsBloom",
             "difficulty", "number", "gasLimit", "gasUsed", "timestamp", "extraData", "mixHash", "nonce",
             "baseFeePerGas", "withdrawalsRoot"]
    quant = {"difficulty", "number", "gasLimit", "gasUsed", "timestamp", "baseFeePerGas"}
    return {n: (qty(v) if n in quant else hx(v)) for n, v in zip(names, h)}


def tx_json(t):
    if isinstance(t, list):
        n, p, g, to, v, d, vv, r, s = t
        return dict(type="0x0", nonce=qty(n), gasPrice=qty(p), gas=qty(g), to=hx(to) if to else None, value=qty(v),
                    input=hx(d), v=qty(vv), r=qty(r), s=qty(s))
    k = t[0]
    f = R.dec(t[1:])
    al = [{"address": hx(a), "storageKeys": [hx(x) for x in ks]} for a, ks in (f[7] if k == 1 else f[8])]
    if k == 1:
        cid, n, p, g, to, v, d, _, y, r, s = f
        return dict(type="0x1", chainId=qty(cid), nonce=qty(n), gasPrice=qty(p), gas=qty(g),
                    to=hx(to) if to else None, value=qty(v), input=hx(d), accessList=al, v=qty(y), r=qty(r), s=qty(s))
    cid, n, tip, cap, g, to, v, d, _, y, r, s = f
    return dict(type="0x2", chainId=qty(cid), nonce=qty(n), maxPriorityFeePerGas=qty(tip), maxFeePerGas=qty(cap),
                gasPrice=qty(cap), gas=qty(g), to=hx(to) if to else None, value=qty(v), input=hx(d), accessList=al,
                v=qty(y), r=qty(r), s=qty(s))


def block_json(body):
    j = header_json(body[0])
    j["transactions"] = [tx_json(t) for t in body[1]]
    j["uncles"] = [hx(R.keccak(R.enc(h))) for h in body[2]]
    if len(body) > 3:
        j["withdrawals"] = [dict(index=qty(a), validatorIndex=qty(b), address=hx(c), amount=qty(d))
                            for a, b, c, d in body[3]]
    return j


# ------------------------------------------------------------------ RPC server
class Response(io.BytesIO):
    status = 200

    def __init__(self, data, breaks=None):
        super().__init__(data)
        self.breaks = breaks

    def read(self, *a):
        tsim.sim().yield_()
        if self.breaks:
            raise self.breaks
        return super().read(*a)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def urlopen(req, *a, **kw):
    return RUN.serve(req)


HARD = ["refused", "reset", "http500", "truncated", "nonlist", "rpcerror", "missing", "badid", "garbage"]


class Run:
    def __init__(self, ctx):
        self.ctx, self.c = ctx, ctx.c
        self.config = None
        self.queue_size = 0
        self.imports = []          # (fork, number) of this incarnation
        self.model_state = None
        self.hard_fault = None     # first non-recoverable fault injected
        self.eoc_fault = False
        self.invalid_at = None
        self.requests = 0
        self.applied = []

    def mainnet_json(self):
        return self.small_mainnet

    # ---------------------------------------------------------- server
    def serve(self, req):
        s = tsim.sim()
        c, ctx = self.c, self.ctx
        data = req.data if hasattr(req, "data") else None
        calls = json.loads(data)
        self.requests += 1
        with c.span():
            delay = c.weighted([(6, 0), (2, 1), (1, 5), (1, 30)])
            fault = None
            if self.fault_rate and not self.hard_fault and c.bool(self.fault_rate):
                fault = c.choice(self.fault_kinds)
            reorder = self.benign and c.bool(0.4)
            if delay:
                ctx.fault("slow_reply")
                s.sleep(delay)
            else:
                s.yield_()
            if self.grow and self.head < self.grow_to:
                # always at least one more block, so a follower makes progress
                self.head = min(self.grow_to, self.head + 1 + c.int(0, 3))
            if isinstance(calls, dict):
                calls = [calls]
            first = int(calls[0]["params"][0], 16) if calls else 0
            ctx.log(f"t={s.now - s.t0:.0f} request #{self.requests} {calls[0]['method'] if calls else ''} first={first} n={len(calls)}"
                    f" delay={delay} fault={fault} reorder={reorder}")
            if fault in ("refused", "reset", "http500"):
                self.note_hard(fault)
                if fault == "refused":
                    raise urllib.error.URLError(ConnectionRefusedError(111, "refused"))
                if fault == "http500":
                    raise urllib.error.HTTPError("http://x", 500, "internal", {}, None)
                return Response(b"", ConnectionResetError(104, "reset by peer"))
            replies = []
            for call in calls:
                replies.append(self.answer(call))
            victim = None
            if fault in ("missing", "badid", "rpcerror", "garbage"):
                live = [i for i, r in enumerate(replies) if r.get("result") is not None]
                if live:
                    victim = live[c.draw(len(live))]
                    self.note_hard(fault)
                    if fault == "missing":
                        del replies[victim]
                    elif fault == "badid":
                        replies[victim]["id"] = hex(int(replies[victim]["id"], 16) + 100000)
                    elif fault == "rpcerror":
                        replies[victim] = {"jsonrpc": "2.0", "id": replies[victim]["id"],
                                           "error": {"code": -32603, "message": "internal error"}}
                    else:
                        res = replies[victim]["result"]
                        replies[victim]["result"] = res[:-2] if isinstance(res, str) else {"number": "0x1"}
            if reorder and len(replies) > 1:
                # a few swaps and a rotation: cheap to draw, easy to minimise
                ctx.fault("reordered_replies")
                if c.bool(0.3):
                    replies.reverse()
                else:
                    k = c.draw(len(replies))
                    replies = replies[k:] + replies[:k]
                for _ in range(c.int(0, 3)):
                    i, j = c.draw(len(replies)), c.draw(len(replies))
                    replies[i], replies[j] = replies[j], replies[i]
            if self.benign and c.bool(0.15) and replies:
                ctx.fault("duplicated_reply")
                replies.append(dict(replies[c.draw(len(replies))]))
            body = json.dumps(replies).encode()
            if fault == "truncated":
                self.note_hard(fault)
                body = body[:c.draw(max(1, len(body) - 1))]
            if fault == "nonlist":
                self.note_hard(fault)
                body = b'{"jsonrpc":"2.0","error":{"code":-32005,"message":"rate limited"}}'
            if delay and c.bool(0.3):
                s.sleep(1)
            return Response(body)

    def note_hard(self, fault):
        self.ctx.fault("rpc_" + fault)
        self.hard_fault = fault

    def answer(self, call):
        rid, m = call["id"], call["method"]
        n = int(call["params"][0], 16)
        base = {"jsonrpc": "2.0", "id": rid}
        if m == "debug_getRawBlock":
            if n > self.head:
                return dict(base, error={"code": -32000, "message": "block not found"})
            self.max_served = max(self.max_served, n)
            return dict(base, result=hx(self.chain.get(n)))
        if m == "eth_getBlockByNumber":
            if n > self.head:
                if self.stall_null:
                    return dict(base, result=None)
                return dict(base, error={"code": -32000, "message": "block not found"})
            self.chain.get(n)
            self.max_served = max(self.max_served, n)
            return dict(base, result=block_json(self.chain.fields[n]))
        if m == "eth_getUncleByBlockNumberAndIndex":
            self.chain.get(n)
            return dict(base, result=header_json(self.chain.fields[n][2][int(call["params"][1], 16)]))
        return dict(base, error={"code": -32601, "message": "unknown method"})

    # ---------------------------------------------------------- import stub
    def on_apply(self, fork, chain):
        self.applied.append(fork)
        self.ctx.log("apply_fork", fork)
        n = self.expect_next
        want = self.fork_of(n, self.chain.ts(n))
        self.ctx.check(fork == want, "wrong-fork-applied",
                       f"rule set {fork} applied before block {n}, the schedule says {want}")
        self.pending_apply = fork

    def on_import(self, fork, mod, chain, block):
        ctx, s = self.ctx, tsim.sim()
        try:
            self._on_import(fork, mod, chain, block)
        except (Violation, HarnessError) as e:
            s.fail(e)

    def _on_import(self, fork, mod, chain, block):
        ctx, s, c = self.ctx, tsim.sim(), self.c
        n = self.expect_next
        from ethereum_rlp import rlp
        raw = rlp.encode(block)
        ctx.check(raw == self.chain.get(n), "wrong-block-imported",
                  lambda: f"import was given block {int(block.header.number)} ({'altered' if int(block.header.number) == n else 'out of order'}),"
                          f" expected block {n} exactly as served")
        want = self.fork_of(n, self.chain.ts(n))
        ctx.check(fork == want, "wrong-fork-for-block", f"block {n} processed by {fork}, the schedule says {want}")
        ctx.check(type(block) is MODS[want]["blocks"].Block, "wrong-fork-for-block",
                  lambda: f"block {n} decoded as {type(block).__module__}, the schedule says {want}")
        exp = rlp.decode_to(MODS[want]["blocks"].Block, self.chain.get(n))
        bad = deep_diff(block, exp)
        ctx.check(bad is None, "block-altered", lambda: f"block {n} differs from its encoding: {bad}")
        # the transition into this fork must have run exactly at its first block
        first_of_fork = n == 1 or self.fork_of(n - 1, self.chain.ts(n - 1)) != want
        ctx.check((self.pending_apply == want) == first_of_fork, "fork-transition-misplaced",
                  lambda: f"block {n} ({want}): transition applied={self.pending_apply}, first block of fork={first_of_fork}")
        self.pending_apply = None
        # ancestors the client holds
        have = [b for b in chain.blocks]
        exp_len = min(255, len(have))
        for b, k in zip(reversed(have[-exp_len:]), range(n - 1, n - 1 - exp_len, -1)):
            if self.first_import or k == n - 1:
                if k == 0:
                    ctx.check(int(b.header.number) == 0, "wrong-ancestors", "genesis expected")
                elif k >= self.chain.start:
                    ctx.check(rlp.encode(b) == self.chain.get(k), "wrong-ancestors",
                              lambda: f"importing block {n}: ancestor at position of block {k} is not block {k}")
        if self.first_import:
            need = min(n - 1, 255)
            ctx.check(len([b for b in have if int(b.header.number) > 0]) >= need, "missing-ancestors",
                      lambda: f"importing block {n} with only {len(have)} ancestors, {need} needed")
            ctx.check(chain.chain_id is not None and int(chain.chain_id) == self.chain_id, "wrong-chain-id",
                      lambda: f"chain id {chain.chain_id}")
        self.first_import = False
        if self.invalid_at == n:
            ctx.fault("invalid_block")
            ctx.log("import refuses block", n)
            raise ValueError("simulated invalid block")
        # marker in the real state store
        st = MODS[fork]["state"]
        types = MODS[fork]["fork_types"]
        from ethereum_types.bytes import Bytes20, Bytes32
        from ethereum_types.numeric import U256, Uint
        cur = st.get_account_optional(chain.state, Bytes20(ACC))
        have_n = None if cur is None else int(cur.nonce)
        ctx.check((have_n if have_n is not None else self.base_number) == n - 1, "state-block-mismatch",
                  lambda: f"importing block {n} onto a state that has imported up to {have_n}")
        st.set_account(chain.state, Bytes20(ACC), types.Account(Uint(n), U256(1), b""))
        st.set_storage(chain.state, Bytes20(ACC), Bytes32(bytes(31) + bytes([n % 7])),
                       U256(int.from_bytes(self.chain.hash[n], "big")))
        st.state_root(chain.state)
        chain.blocks.append(block)
        if len(chain.blocks) > 255:
            chain.blocks = chain.blocks[-255:]
        self.imports.append((fork, n))
        self.expect_next = n + 1
        ctx.count("blocks_imported")
        ctx.log(f"t={s.now - s.t0:.0f} imported", n, fork)
        d = 0
        if self.slow_import and c.bool(0.1):
            d = c.choice([0, 1, 3, 20])
        if d:
            ctx.fault("slow_import")
            s.sleep(d)
        else:
            s.yield_()


def deep_diff(a, b, path=""):
    if type(a) is not type(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
        return f"{path}: type {type(a).__name__} instead of {type(b).__name__}"
    if hasattr(a, "__dataclass_fields__"):
        for f in a.__dataclass_fields__:
            d = deep_diff(getattr(a, f), getattr(b, f), f"{path}.{f}")
            if d:
                return d
        return None
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return f"{path}: length"
        for i, (x, y) in enumerate(zip(a, b)):
            d = deep_diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a!r} != {b!r}"


# ------------------------------------------------------------------ scenario
def draw_schedule(c, run, eth):
    """A custom chain config and the model of which fork each block is under."""
    n = 0
    cfg = {"chainId": 7331}
    sched = [("frontier", 0)]
    for name, key in JSON_FORKS[1:]:
        n += c.weighted([(4, 0), (3, 1), (2, 7), (1, 40), (1, 250)])
        cfg[key] = n
        sched.append((name, n))
    cfg["eip158Block"] = cfg["eip155Block"]
    cfg["petersburgBlock"] = cfg["constantinopleBlock"]
    return cfg, sched


def fork_model(sched, ts_sched):
    # coinciding block forks: the later one wins
    def fork_of(n, ts):
        f = sched[0][0]
        for name, at in sched:
            if n >= at:
                f = name
        for name, at in ts_sched:
            if ts >= at:
                f = name
        return f
    return fork_of


def run(ctx):
    patch()
    global RUN
    c = ctx.c
    mode = ctx.params["mode"]
    RUN = R_ = Run(ctx)
    base = tempfile.mkdtemp(prefix="sync-", dir=os.environ.get("VERIF_SCRATCH"))
    try:
        _run(ctx, R_, c, mode, base)
    finally:
        RUN = None
        tsim.finish()
        shutil.rmtree(base, ignore_errors=True)


def _run(ctx, r, c, mode, base):
    geth = not c.bool(0.35)
    mainnet = c.bool(0.4 if mode == "fork" else 0.2)
    r.queue_size = c.choice([0, 2, 5, 16, 64])
    r.slow_import = c.bool(0.5)
    r.benign = c.bool(0.6)
    r.grow = 0
    r.stall_null = False
    r.fault_rate = 0
    r.fault_kinds = HARD
    length = c.weighted([(4, 12), (4, 40), (2, 120), (1, 300), (1, 620)])
    gas_per_commit = c.choice([1, 100_000, 500_000, 3_000_000, 10**9])
    step = c.choice([12, 1, 15])
    persist = mode in ("crash", "fork") or c.bool(0.3)
    args = ["sync", "--rpc-url", "http://sim/"]
    seed = c.draw(1 << 30)
    if mainnet:
        # start from a database persisted shortly before a published boundary
        which = c.choice([x for x in MAINNET[1:]] + MAINNET_TS)
        if not geth and FORK_ORDER.index(which[0]) >= 15:
            geth = True
        before = c.choice([1, 0, 2, 9, 254, 255, 256])
        persist = True
        fork_of = fork_model(MAINNET, MAINNET_TS)
        if which in MAINNET_TS:
            number = 17_034_870 if which[0] == "shanghai" else 19_426_587 if which[0] == "cancun" else 22_431_084
            # first block with ts >= boundary is `number`
            offset = c.choice([0, step - 1])
            first_ts = which[1] + offset
        else:
            number = which[1]
            approx = {"paris": 1663224179}.get(which[0])
            first_ts = approx or 1438269988 + which[1] * 13
        persisted = number - 1 - before
        start = max(1, persisted - 300)
        start_ts = first_ts - (number - start + 1) * step
        r.chain = Chain(seed, start, b"\x11" * 32, start_ts, step, fork_of)
        r.chain_id = 1
        args.append("--mainnet")
        r.small_mainnet = json.dumps({"config": {"chainId": 1}, "alloc": {}, "difficulty": "0x400000000", "extraData": "0x",
                                      "gasLimit": "0x1388", "nonce": "0x0000000000000042", "timestamp": "0x0"}).encode()
        ctx.log("mainnet boundary", which[0], "persisted", persisted, "boundary block", number)
        ctx.state("boundary", which[0], before)
    else:
        cfg, sched = draw_schedule(c, r, not geth)
        ts0 = 1_600_000_000
        sh = cfg["mergeForkBlock"] + c.weighted([(3, 0), (3, 1), (2, 11), (2, 100000)])
        cfg["shanghaiTime"] = ts0 + max(1, sh) * step - c.int(0, step - 1)
        r.config = {"config": cfg, "alloc": {"0x" + "aa" * 20: {"balance": "1000"}}, "difficulty": "0x20000",
                    "extraData": "0x", "gasLimit": "0x1c9c380", "nonce": "0x0000000000000000", "timestamp": hex(ts0)}
        fork_of = fork_model(sched, [("shanghai", cfg["shanghaiTime"])])
        args.append("--sepolia")
        r.chain_id = 7331
        persisted = 0
        r.chain = Chain(seed, 1, b"\x00" * 32, ts0, step, fork_of)
        ctx.log("schedule", json.dumps(cfg))
        ctx.state("sched", tuple(sorted(x for x in cfg.values() if isinstance(x, int) and x < 1000)))
    r.fork_of = fork_of
    r.base_number = persisted
    r.head = persisted + length
    r.max_served = persisted
    target = None
    if c.bool(0.6):
        target = persisted + c.int(1, length)
        args += ["--stop-at", str(target)]
    if geth:
        args.append("--geth")
    elif c.bool(0.4) and target:
        # a following server: empty answers beyond its head, which then grows
        r.stall_null = True
        r.grow = 1
        r.grow_to = r.head
        r.head = persisted + c.int(1, length)
    args += ["--gas-per-commit", str(gas_per_commit)]
    path = None
    if persist:
        path = os.path.join(base, "g0")
        os.mkdir(path)
    if mainnet:
        seed_db(path, persisted, r.chain.ts(persisted), r.chain_id)
    ctx.log(f"mode={mode} geth={geth} queue={r.queue_size} head={r.head} target={target} commit={gas_per_commit}")
    if mode == "fault":
        r.fault_rate = c.choice([0.3, 0.1, 0.8])
        if c.bool(0.3):
            r.invalid_at = persisted + c.int(1, length)
    crashes_left = 0
    if mode in ("crash", "fork"):
        crashes_left = c.int(1, 4)
    gen = 0
    durable_n = persisted if mainnet else None
    ctx.nontrivial = True
    while True:
        r.imports, r.hard_fault, r.applied = [], None, []
        r.first_import, r.pending_apply = True, None
        r.requests = 0
        r.expect_next = (durable_n or 0) + 1
        sim = tsim.start(ctx, max_time=40_000, max_steps=150_000)
        if c.bool(0.5):
            sim.enable_line_preemption(("ethereum_spec_tools/sync.py",), c.int(1, 12), 400)
        crash_at = None
        if crashes_left > 0:
            crash_at = c.choice([60, 300, 900, 2500])
            crash_at = c.int(1, crash_at)
        incarnation(ctx, r, sim, args + (["--persist", path] if path else []), crash_at, base)
        out = r.outcome
        ctx.log("ended:", out)
        ctx.state("end", out.split(":")[0], mode, mainnet, geth)
        if out == "hang":
            raise Violation("sync-hangs", r.detail + f" (last server fault: {r.hard_fault})")
        if out == "crash":
            ctx.fault("crash")
            crashes_left -= 1
            gen += 1
            newp = os.path.join(base, f"g{gen}")
            os.mkdir(newp)
            if os.path.exists(os.path.join(path, "mdbx.dat")):
                shutil.copyfile(os.path.join(path, "mdbx.dat"), os.path.join(newp, "mdbx.dat"))
            path = newp
            durable_n = check_durable(ctx, r, path, durable_n, persisted)
            # reading it opened an environment; give the next life a fresh copy
            gen += 1
            newp = os.path.join(base, f"g{gen}")
            os.mkdir(newp)
            shutil.copyfile(os.path.join(path, "mdbx.dat"), os.path.join(newp, "mdbx.dat"))
            path = newp
            if crashes_left < 0:
                raise HarnessError("crash without plan")
            if target is not None and durable_n is not None and durable_n >= target:
                ctx.log("target already persisted before crash")
                break
            continue
        if out.startswith("error"):
            justified = r.hard_fault is not None or r.invalid_at == r.expect_next
            ctx.check(justified, "sync-fails-without-cause", lambda: f"client ended with {out} though nothing failed")
            ctx.probe("ended_with_error_after_fault")
            break
        # normal return
        last = r.expect_next - 1
        if r.hard_fault:
            # a failure the client may only ignore if it had already fetched
            # everything it was asked for
            ctx.check(target is not None and last == target, "sync-reports-success-after-failure",
                      lambda: f"server fault {r.hard_fault}, client returned normally after block {last} (target {target})")
        elif target is not None and target <= r.head:
            ctx.check(last == target, "sync-stopped-early",
                      lambda: f"returned after block {last}, target {target}, server head {r.head}")
        else:
            ctx.check(last >= min(r.head, r.max_served) and last == r.head, "sync-stopped-early",
                      lambda: f"returned after block {last}, server head {r.head}")
        ctx.probe("completed")
        if path and target is not None and last == target:
            n = check_durable(ctx, r, copy_db(base, path, "final"), durable_n, persisted)
            ctx.check(n == target, "target-not-persisted", lambda: f"stopped at {target} but database is at {n}")
        break
    ctx.sample = {"mode": mode, "log": ctx.log_tail[:14]}


def copy_db(base, path, name):
    d = os.path.join(base, name)
    os.mkdir(d)
    shutil.copyfile(os.path.join(path, "mdbx.dat"), os.path.join(d, "mdbx.dat"))
    return d


def seed_db(path, number, ts, chain_id):
    import rust_pyspec_glue
    db = rust_pyspec_glue.DB(path)
    db.begin_mutable()
    db.set_metadata(b"block_number", str(number).encode())
    db.set_metadata(b"block_timestamp", str(ts).encode())
    db.set_metadata(b"chain_id", str(chain_id).encode())
    db.commit_mutable()
    db.close()


def check_durable(ctx, r, path, before, base_number):
    """Database after a crash: block number, state and metadata agree."""
    import rust_pyspec_glue
    db = rust_pyspec_glue.DB(path)
    db.begin_mutable()
    num = db.get_metadata(b"block_number")
    ts = db.get_metadata(b"block_timestamp")
    acc = db.get_account_optional(ACC)
    n = None if num is None else int(num)
    done = r.expect_next - 1
    ctx.check(n is None or n <= done, "persisted-beyond-import", lambda: f"database at {n}, imported {done}")
    ctx.check((n or 0) >= (before or 0), "persisted-went-back", lambda: f"database at {n}, was {before}")
    if n is not None and n > base_number:
        ctx.check(ts is not None and int(ts) == r.chain.ts(n), "persisted-metadata-inconsistent",
                  lambda: f"block {n} timestamp {ts}")
        ctx.check(acc is not None and int(acc[0]) == n, "persisted-state-inconsistent",
                  lambda: f"metadata says block {n}, state says {acc and acc[0]}")
        for k in range(max(base_number + 1, n - 6), n + 1):
            v = db.get_storage(ACC, bytes(31) + bytes([k % 7]))
            ctx.check(int(v) == int.from_bytes(r.chain.hash[k], "big"), "persisted-state-inconsistent",
                      lambda: f"marker of block {k} wrong")
    elif n is None:
        ctx.check(acc is None, "persisted-state-inconsistent", "state without block number")
    db.rollback_mutable()
    db.close()
    ctx.log("database at", n)
    ctx.probe("durable_checked")
    return n


def incarnation(ctx, r, sim, argv, crash_at, base):
    import ethereum_spec_tools.sync as S
    r.outcome = None
    r.detail = ""
    holder = {}
    if crash_at is not None:
        real = sim._dispatch

        def dispatch(me, leaving=False):
            if sim.steps == crash_at and sim.stop_error is None:
                sim.stop_error = CrashNow()
                ctx.log(f"CRASH at step {crash_at}")
            return real(me, leaving)
        sim._dispatch = dispatch
        r.db_crash = None

    def main():
        sys.argv = argv
        try:
            holder["sync"] = S.Sync()
            holder["sync"].process_blocks()
            holder["ok"] = True
        except SystemExit as e:
            holder["err"] = f"exit {e.code}"
        except Exception as e:  # noqa: B902
            holder["err"] = f"{type(e).__name__}: {str(e)[:120]}"
    try:
        sim.run(main)
    except CrashNow:
        r.outcome = "crash"
    except (tsim.TimeLimit, tsim.Deadlock, tsim.StepLimit) as e:
        r.outcome = "hang"
        r.detail = str(e)
    else:
        r.outcome = "ok" if holder.get("ok") else "error: " + str(holder.get("err"))
    ctx.count("thread_switches", sim.switches)
    ctx.state("sched", sim.sched_hash)
    tsim.finish()
    holder.clear()
