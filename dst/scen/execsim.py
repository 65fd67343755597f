"""Execution simulation (C03, C08-C11): blocks of generated transactions run
through the real `state_transition`, with execution cut off at drawn instants
(exhausted gas, injected halts at the k-th instruction), against the model."""
from dst.core import HarnessError
from dst.gen import world as G
from dst.ref import chain as C
from dst.ref import evm as E
from dst.ref import rlp as R
from dst.scen import node as N

FOCUS = {
    "abort": {"call": 2, "revert": 2, "create": 2, "undo": 3},
    "fees": {"sd": 2, "call": 1, "auth": 2},
    "static": {"static": 5, "call": 2, "wild": 3, "undo": 2},
    "scope": {"transient": 3, "sd": 2, "create": 2, "undo": 3},
    "ether": {"sd": 3, "create": 2, "call": 2},
}


def setup(env):
    N.setup(env)


def plan_block(ctx, su, tip, p_cut, mean_txs=3):
    """A block of generated transactions on top of tip: (header, txs, withdrawals), all valid without injected halts."""
    c, fi, rules = ctx.c, su.fi, su.rules
    h = C.skeleton(rules, tip, c.choice(su.miners), C.i(tip.header[C.TS]) + c.choice([13, 1, 8, 20, 100]),
                   randao=bytes([7]) * 32 if fi >= E.PARIS else b"\0" * 32,
                   beacon=R.keccak(b"beacon%d" % tip.depth) if fi >= E.CANCUN else b"")
    if fi == E.LONDON and tip.number + 1 == rules.fork_block:
        h[C.GL] = R.int_b(2 * C.i(tip.header[C.GL]))
    w = tip.world.copy()
    blk = C.environment(rules, h, tip)
    out = C.Out()
    C.start_block(fi, w, blk, h[C.PARENT], h[C.BEACON] if fi >= E.CANCUN else b"")
    txs = []
    bp = E.blob_price(fi, blk.excess_blob) if fi >= E.CANCUN else 0
    for _ in c.steps(mean_txs, 6):
        d = su.tx_fields(w, blk.base_fee)
        if su.fit_gas(d, w, blk, out, p_cut):
            ctx.fault("gas_exhaustion_point")
        raw = su.sign(d, bp)
        w2, o2 = w.copy(), clone(out)
        try:
            rec = C.process_tx(fi, w2, blk, o2, raw)
        except C.Bad as e:
            ctx.count("unincludable")
            continue
        w, out = w2, o2
        txs.append(raw)
        ctx.log("tx", fi, rec["kind"], rec["ok"], rec["used"], rec["halt"])
    wd = []
    if fi >= E.SHANGHAI:
        for j in range(c.draw(3)):
            wd.append([R.int_b(j), R.int_b(c.draw(9)), c.choice(su.pool + [G.NOBODY[2]]), R.int_b(c.choice([0, 1, 10**9]))])
    return h, txs, wd


def clone(out):
    o = C.Out()
    o.__dict__.update(out.__dict__)
    for k in ("receipts", "logs", "txs", "requests"):
        setattr(o, k, list(getattr(out, k)))
    return o


def run(ctx):
    try:
        simulate(ctx)
    except E.Unsupported:
        ctx.count("unsupported_input")


def simulate(ctx):
    c = ctx.c
    p = ctx.params
    mode, fork = p["mode"], p["fork"]
    m = N.MODS[fork]
    fi = m.fi
    fork_block = 0
    if fi == E.LONDON:
        fork_block = 1 if c.bool(0.2) else 0
    if fi in (E.LONDON, E.DAO):
        set_fork_block(m, fork_block)
    su = G.Setup(c, fi, FOCUS[mode], chain_id=c.choice([1, 5]), fork_block=fork_block,
                 deep=mode in ("abort", "static") and c.bool(0.04))
    gen = C.genesis(su.rules, su.world, gas_limit=c.choice([8_000_000, 3_000_000]) if not su.deep else 10**13, base=c.choice([1000, 7, 10**9]),
                    excess=c.choice([0, 0, 131072 * 40]))
    chain = N.new_chain(m, gen, su.rules.chain_id)
    if not N.same_state(m, chain.state, su.world):
        raise HarnessError("genesis state differs: " + "; ".join(N.diff(m, chain.state, su.world)[:3]))
    tip = gen
    for _ in range(c.int(1, 3)):
        with c.span():
            tip = one_block(ctx, m, su, chain, tip, mode)
    ctx.sim_time = C.i(tip.header[C.TS]) - 1000
    ctx.nontrivial = True


def set_fork_block(m, n):
    from ethereum.fork_criteria import ByBlockNumber
    m.fork.FORK_CRITERIA = ByBlockNumber(n)


def one_block(ctx, m, su, chain, tip, mode):
    c, fi, rules = ctx.c, su.fi, su.rules
    h, txs, wd = plan_block(ctx, su, tip, 0.3)
    count = N.Injector(m, ())
    marks = []
    try:
        C.state_only(rules, list(h), tip, txs, [], wd, hook=count.hook, mark=lambda n: marks.append(count.n))
    except C.Bad:
        pass
    at = []
    if count.n and c.bool(0.6):
        # mostly inside the transactions, now and then in a system call
        lo, hi = (marks[0], marks[-1]) if marks and not c.bool(0.06) else (0, count.n)
        if hi > lo:
            at = sorted(lo + c.draw(hi - lo) for _ in range(c.int(1, 3)))
    E.STATS.clear()
    which = c.draw(32)
    ref = N.Injector(m, at)
    bad = None
    try:
        w, out = C.state_only(rules, h, tip, txs, [], wd, hook=ref.hook)
    except C.Bad as e:
        bad = e.rule
        # unsealed: the block cannot be valid whatever it commits to
        C.commitments(fi, h, tip.world, C.Out(), txs, [], wd)
    real = N.Injector(m, at, which)
    raw = R.enc(C.body_of(fi, h, txs, [], wd))
    before = N.copy_chain(m, chain) if bad else None
    err = N.transition(m, chain, raw, real)
    ctx.fault("injected_halt", real.fired)
    tag = f"{m.name} block {tip.depth + 1} txs={len(txs)} halts at {at}"
    if bad:
        ctx.check(err is not None, "invalid-block-accepted", f"{tag}: {bad}")
        ctx.fault("system_call_failed")
        chain.blocks, chain.state = before.blocks, before.state
        return tip
    if err is not None or not N.same_state(m, chain.state, w):
        d = N.diff(m, chain.state, w, su.pool)
        recs = [(r["ok"], r["used"], r["halt"]) for r in out.txs]
        ctx.check(False, "execution-differs",
                  f"{tag}: node says {type(err).__name__ if err else 'imported'} {err}; {len(d)} differences: "
                  f"{'; '.join(d[:4])}; model transactions (ok, gas, halt): {recs}; model gas {out.gas_used}")
    ctx.check(real.n == ref.n, "execution-differs", f"{tag}: {real.n} traced steps, model {ref.n}")
    direct(ctx, m, su, chain, tip, w, out, tag)
    for k, v in E.STATS.items():
        ctx.probe(k, v)
    for r in out.txs:
        ctx.state(m.name, r["kind"], r["ok"], r["halt"], r["destroyed"] > 0, r["logs"], r["refund"] > 0)
        ctx.probe("tx_ok" if r["ok"] else "tx_failed")
        if r["destroyed"]:
            ctx.probe("selfdestruct_effective")
        if r["refund"]:
            ctx.probe("refund")
    ctx.log("block", h[C.SROOT].hex()[:16], out.gas_used, at)
    return C.Rec(C.body_of(fi, h, txs, [], wd), tip, w, out)


def direct(ctx, m, su, chain, tip, w, out, tag):
    """Statements checked on the real state itself, without trusting the model's execution."""
    S = m.state
    fi = su.fi
    # every account the model knows (equal roots: there are no others)
    total = 0
    for a in w.acc:
        b = int(S.get_account(chain.state, N.addr(m, a)).balance)
        ctx.check(0 <= b < 2**256, "balance-out-of-range", f"{tag}: {a.hex()} {b}")
        total += b
    base = tip.world.total()
    ctx.check(total == base + out.issued - out.burned, "ether-not-conserved",
              f"{tag}: {base} + {out.issued} - {out.burned} != {total}")
    nonces = {}
    for r in out.txs:
        nonces[r["sender"]] = nonces.get(r["sender"], 0) + 1
        ctx.check(max(r["floor"], r["intrinsic"] // 2) <= r["used"] <= r["gas"], "gas-out-of-range", tag)
