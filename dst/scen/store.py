"""State-store simulation (C13, C14).

The *real* optimized state (`ethereum_optimized.state_db` over the real mdbx
binding) and the *real* plain state of the fork are driven in lock step by one
seeded operation sequence and compared, after every step, with a third,
independent model (nested dictionaries, own RLP and trie).  In crash mode only
the optimized store runs: the database handle is a thin proxy so a simulated
crash can strike before or after any single database call, including inside a
commit; the files as the operating system sees them at that instant are what
the next incarnation opens.
"""
import importlib
import importlib.util
import os
import shutil
import sys
import tempfile

from dst.core import HarnessError
from dst.ref import rlp as R

ADDRS = [bytes([0xA0 + i]) * 20 for i in range(5)]
KEYS = [bytes(31) + bytes([i]) for i in range(4)] + [b"\xff" * 32]
VALS = [0, 1, 2, 255, 2**256 - 1]
CODES = [b"", b"\x00", b"\x60\x01\x60\x02", bytes(range(40))]
METAKEYS = [b"block_number", b"chain_id", b"x"]

_mods = {}


class SimCrash(BaseException):
    pass


def setup(env):
    import ethereum_optimized.state_db  # noqa: F401
    import rust_pyspec_glue  # noqa: F401
    from dst.registry import FORKS
    for f in FORKS:
        load(f)


def load(fork):
    """(plain module, optimized copy, fork_types)"""
    if fork in _mods:
        return _mods[fork]
    from ethereum_optimized.state_db import get_optimized_state_patches
    plain = importlib.import_module(f"ethereum.{fork}.state")
    spec = importlib.util.find_spec(f"ethereum.{fork}.state")
    name = f"ethereum.{fork}.state_optimized_copy"
    spec2 = importlib.util.spec_from_file_location(name, spec.origin)
    opt = importlib.util.module_from_spec(spec2)
    sys.modules[name] = opt
    spec2.loader.exec_module(opt)
    for k, v in get_optimized_state_patches(fork).items():
        setattr(opt, k, v)
    types = importlib.import_module(f"ethereum.{fork}.fork_types")
    _mods[fork] = (plain, opt, types)
    return _mods[fork]


# ---------------------------------------------------------------- model
class Model:
    """Trivial reference: accounts {addr: [nonce, balance, code]}, storage."""

    def __init__(self, paris):
        self.acc, self.sto, self.tra = {}, {}, {}
        self.meta = {}
        self.stack = []
        self.created = set()
        self.paris = paris
        self.dirtyzero = set()

    def snap(self):
        return ({a: list(v) for a, v in self.acc.items()},
                {a: dict(v) for a, v in self.sto.items()},
                {a: dict(v) for a, v in self.tra.items()})

    def begin(self):
        self.stack.append(self.snap())

    def commit(self):
        self.stack.pop()
        if not self.stack:
            self.created = set()

    def rollback(self):
        self.acc, self.sto, self.tra = self.stack.pop()
        if not self.stack:
            self.created = set()

    def modify(self, a, f):
        v = list(self.acc.get(a, (0, 0, b"")))
        f(v)
        self.acc[a] = v
        if self.paris and v == [0, 0, b""]:
            self.destroy(a)

    def destroy(self, a):
        self.sto.pop(a, None)
        self.acc.pop(a, None)

    def root(self):
        return R.state_root({a: (v[0], v[1], v[2], {k: x for k, x in self.sto.get(a, {}).items()})
                             for a, v in self.acc.items()})

    def sroot(self, a):
        return R.storage_root(self.sto.get(a, {}))


def copy_model(m):
    n = Model(m.paris)
    n.acc, n.sto, _ = m.snap()   # transient storage is never durable
    n.meta = dict(m.meta)
    n.dirtyzero = set(m.dirtyzero)
    return n


# ---------------------------------------------------------------- sides
class Side:
    def __init__(self, mod, state, tr):
        self.m, self.s, self.tr = mod, state, tr


def outcome(f):
    try:
        return ("ok", f())
    except (AssertionError, OverflowError, ValueError, KeyError, TypeError, AttributeError, IndexError, RuntimeError) as e:
        return ("exc", type(e).__name__ + ": " + str(e)[:200])
    except Exception as e:  # noqa: B902
        return ("exc", type(e).__name__ + ": " + str(e)[:200])


def norm_acc(a):
    return None if a is None else (int(a.nonce), int(a.balance), bytes(a.code))


def run(ctx):
    if ctx.params.get("mode") == "crash":
        return run_crash(ctx)
    return run_equiv(ctx)


def prims(fork):
    from ethereum_types.bytes import Bytes20, Bytes32
    from ethereum_types.numeric import U256, Uint
    return Bytes20, Bytes32, U256, Uint


def draw_op(c, depth, outer_only_ok, feats):
    ops = [(8, "set_storage"), (4, "modify"), (3, "begin"), (6 if depth else 0, "end")]
    if depth >= 6:
        ops[2] = (0, "begin")
    ops += [(2, "destroy_storage"), (1, "destroy_account"), (2, "move"), (4, "probe")]
    if "mark_account_created" in feats:
        ops.append((2, "create"))
    if "transient" in feats:
        ops.append((3, "tset"))
    if depth == 0:
        ops += [(2, "dbcommit"), (1, "dbrollback"), (2, "roots"), (1, "meta")]
    if "destroy_touched" in feats and depth <= 1:
        ops.append((1, "touched"))
    return c.weighted([o for o in ops if o[0]])


class Driver:
    """Applies one operation to every side and to the model."""

    def __init__(self, ctx, fork, sides, model):
        self.ctx, self.c, self.fork = ctx, ctx.c, fork
        self.sides, self.model = sides, model
        self.B20, self.B32, self.U256, self.Uint = prims(fork)
        m = sides[0].m
        self.feats = set()
        self.disk = self.sroot_used = False
        for f in ("mark_account_created", "get_storage_original", "account_exists_and_is_empty", "is_account_alive"):
            if hasattr(m, f):
                self.feats.add(f)
        if hasattr(m, "TransientStorage"):
            self.feats.add("transient")
        if hasattr(m, "destroy_touched_empty_accounts"):
            self.feats.add("destroy_touched")

    def both(self, what, call, expect=None, check=True):
        """call(side) on every side; all outcomes equal and equal to expect."""
        outs = [outcome(lambda s=s: call(s)) for s in self.sides]
        if check:
            names = ["plain", "optimized"] if len(self.sides) == 2 else ["optimized"]
            if expect is not None:
                for n, o in zip(names, outs):
                    self.ctx.check(o == expect, f"{n}-store-wrong-result",
                                   lambda: f"{what}: {n} gave {o!r}, the model says {expect!r}")
            else:
                for n, o in zip(names, outs):
                    self.ctx.check(o[0] == "ok", f"{n}-store-error", lambda: f"{what}: {n} raised {o!r}")
        return outs

    def addr(self):
        return self.c.choice(ADDRS)

    def tx(self, name):
        def call(s):
            f = getattr(s.m, name)
            return f(s.s, s.tr) if s.tr is not None else f(s.s)
        return call

    def step(self, allow_db=True):
        c, m, ctx = self.c, self.model, self.ctx
        with c.span():
            op = draw_op(c, len(m.stack), True, self.feats)
            if op in ("dbcommit", "dbrollback", "meta") and not allow_db:
                op = "roots"
            getattr(self, "op_" + op)()
            ctx.state(self.fork, op, len(m.stack), len(m.acc), sum(map(len, m.sto.values())))
            ctx.count("op_" + op)

    # -- operations
    def op_set_storage(self):
        a, k, v = self.addr(), self.c.choice(KEYS), self.c.choice(VALS)
        if a not in self.model.acc:
            return self.op_modify(a)
        self.ctx.log("set_storage", a[:1].hex(), k[-1], v)
        self.both("set_storage", lambda s: s.m.set_storage(s.s, self.B20(a), self.B32(k), self.U256(v)))
        self.set_slot(a, k, v)

    def set_slot(self, a, k, v):
        d = self.model.sto.setdefault(a, {})
        if v:
            d[k] = v
        else:
            d.pop(k, None)
            self.model.dirtyzero.add(a)
        if not d:
            self.model.sto.pop(a, None)

    def op_modify(self, a=None):
        a = a or self.addr()
        what = self.c.choice(["balance", "nonce", "code", "touch"])
        if what == "balance":
            v = self.c.choice([0, 1, 7, 2**64, 2**256 - 1])
            self.ctx.log("balance", a[:1].hex(), v)
            self.both("set_account_balance", lambda s: s.m.set_account_balance(s.s, self.B20(a), self.U256(v)))
            self.model.modify(a, lambda x: x.__setitem__(1, v))
        elif what == "nonce":
            self.ctx.log("nonce", a[:1].hex())
            self.both("increment_nonce", lambda s: s.m.increment_nonce(s.s, self.B20(a)))
            self.model.modify(a, lambda x: x.__setitem__(0, x[0] + 1))
        elif what == "code":
            v = self.c.choice(CODES)
            self.ctx.log("code", a[:1].hex(), v.hex())
            self.both("set_code", lambda s: s.m.set_code(s.s, self.B20(a), v))
            self.model.modify(a, lambda x: x.__setitem__(2, v))
        else:
            if not hasattr(self.sides[0].m, "touch_account"):
                return
            self.ctx.log("touch", a[:1].hex())
            self.both("touch_account", lambda s: s.m.touch_account(s.s, self.B20(a)))
            if a not in self.model.acc:
                self.model.acc[a] = [0, 0, b""]

    def op_move(self):
        a, b = self.addr(), self.addr()
        have = self.model.acc.get(a, (0, 0, b""))[1]
        amt = self.c.choice([0, 1, have])
        if amt > have or (a != b and self.model.acc.get(b, (0, 0, b""))[1] + amt >= 2**256):
            amt = 0
        self.ctx.log("move", a[:1].hex(), b[:1].hex(), amt)
        self.both("move_ether", lambda s: s.m.move_ether(s.s, self.B20(a), self.B20(b), self.U256(amt)))
        self.model.modify(a, lambda x: x.__setitem__(1, x[1] - amt))
        self.model.modify(b, lambda x: x.__setitem__(1, x[1] + amt))

    def op_begin(self):
        self.ctx.log("begin", len(self.model.stack))
        self.both("begin_transaction", self.tx("begin_transaction"))
        self.model.begin()

    def op_end(self):
        if self.c.bool(0.5):
            self.ctx.log("rollback")
            self.ctx.fault("rollback_nested" if len(self.model.stack) > 1 else "rollback_outer")
            self.both("rollback_transaction", self.tx("rollback_transaction"))
            self.model.rollback()
            self.readback()
        else:
            self.ctx.log("commit")
            self.both("commit_transaction", self.tx("commit_transaction"))
            self.model.commit()
            if not self.model.stack and self.c.bool(0.3):
                self.readback()

    def op_destroy_storage(self):
        a = self.addr()
        self.ctx.log("destroy_storage", a[:1].hex())
        self.both("destroy_storage", lambda s: s.m.destroy_storage(s.s, self.B20(a)))
        self.model.sto.pop(a, None)

    def op_destroy_account(self):
        a = self.addr()
        self.ctx.log("destroy_account", a[:1].hex())
        self.both("destroy_account", lambda s: s.m.destroy_account(s.s, self.B20(a)))
        self.model.destroy(a)

    def op_create(self):
        # creation protocol used by the interpreter: mark, then clear storage
        if not self.model.stack:
            return self.op_begin()
        a = self.addr()
        if self.model.acc.get(a, (0, 0, b""))[2]:
            return
        self.ctx.log("create", a[:1].hex())
        self.both("mark_account_created", lambda s: s.m.mark_account_created(s.s, self.B20(a)))
        self.both("destroy_storage", lambda s: s.m.destroy_storage(s.s, self.B20(a)))
        self.model.created.add(a)
        self.model.sto.pop(a, None)

    def op_touched(self):
        addrs = [a for a in ADDRS if self.c.bool(0.5)]
        self.ctx.log("touched", *[a[:1].hex() for a in addrs])
        self.both("destroy_touched_empty_accounts",
                  lambda s: s.m.destroy_touched_empty_accounts(s.s, {self.B20(a) for a in addrs}))
        for a in addrs:
            if self.model.acc.get(a) == [0, 0, b""]:
                self.model.destroy(a)

    def op_tset(self):
        if self.sides[0].tr is None or not self.model.stack:
            return
        a, k, v = self.addr(), self.c.choice(KEYS), self.c.choice(VALS)
        self.ctx.log("tset", a[:1].hex(), k[-1], v)
        self.both("set_transient", lambda s: s.m.set_transient_storage(s.tr, self.B20(a), self.B32(k), self.U256(v)))
        self.model.tra.setdefault(a, {})[k] = v

    def op_meta(self):
        k, v = self.c.choice(METAKEYS), self.c.bytes(2)
        self.ctx.log("meta", k, v.hex())
        s = self.sides[-1]
        o = outcome(lambda: s.m.set_metadata(s.s, k, v))
        self.ctx.check(o[0] == "ok", "optimized-store-error", lambda: f"set_metadata {o}")
        self.model.meta[k] = v

    def op_dbcommit(self):
        self.ctx.log("dbcommit")
        s = self.sides[-1]
        o = outcome(lambda: (s.m.commit_db_transaction(s.s), s.m.begin_db_transaction(s.s)))
        self.ctx.check(o[0] == "ok", "optimized-store-error", lambda: f"commit_db {o}")
        self.model.dirtyzero = set()
        self.sroot_used = False
        self.durable = copy_model(self.model)
        self.ctx.probe("db_commit")

    def op_dbrollback(self):
        # disk rollback returns the optimized side to its last disk commit; the
        # plain side has no such operation and is rebuilt from the model
        if not self.disk or self.sroot_used or self.c.bool(0.5):
            # (the binding's in-memory mode has no rollback, and its rollback
            # forgets to drop a storage root computed in the same transaction)
            return self.op_roots()
        self.ctx.log("dbrollback")
        self.ctx.fault("db_rollback")
        s = self.sides[-1]
        o = outcome(lambda: (s.m.rollback_db_transaction(s.s), s.m.begin_db_transaction(s.s)))
        self.ctx.check(o[0] == "ok", "optimized-store-error", lambda: f"rollback_db {o}")
        self.model = copy_model(self.durable)
        self.rebuild_plain()
        self.readback()

    def rebuild_plain(self):
        if len(self.sides) < 2:
            return
        p = self.sides[0]
        p.s = p.m.State()
        if p.tr is not None:
            p.tr = p.m.TransientStorage()
            self.sides[1].tr = self.sides[1].m.TransientStorage()
        acct = load(self.fork)[2].Account
        for a, (n, b, code) in self.model.acc.items():
            p.m.set_account(p.s, self.B20(a), acct(self.Uint(n), self.U256(b), code))
        for a, d in self.model.sto.items():
            for k, v in d.items():
                p.m.set_storage(p.s, self.B20(a), self.B32(k), self.U256(v))

    def op_roots(self):
        if self.model.stack:
            return
        self.roots()

    def roots(self):
        self.ctx.log("roots")
        exp = self.model.root()
        self.both("state_root", lambda s: bytes(s.m.state_root(s.s)), ("ok", exp))
        self.model.dirtyzero = set()
        a = self.addr()
        if a in self.model.acc:
            self.sroot_used = True
            self.both("storage_root", lambda s: bytes(s.m.storage_root(s.s, self.B20(a))), ("ok", self.model.sroot(a)))
        self.ctx.probe("root_compared")

    def op_probe(self):
        a = self.addr()
        self.read_account(a)
        self.read_slot(a, self.c.choice(KEYS))

    def read_account(self, a):
        m = self.model
        v = m.acc.get(a)
        exp = None if v is None else tuple(v)
        A = self.B20(a)
        self.both(f"get_account_optional {a[:1].hex()}", lambda s: norm_acc(s.m.get_account_optional(s.s, A)), ("ok", exp))
        self.both("get_account", lambda s: norm_acc(s.m.get_account(s.s, A)), ("ok", exp or (0, 0, b"")))
        self.both("account_exists", lambda s: s.m.account_exists(s.s, A), ("ok", v is not None))
        self.both("account_has_code_or_nonce", lambda s: s.m.account_has_code_or_nonce(s.s, A),
                  ("ok", v is not None and (v[0] != 0 or v[2] != b"")))
        has = bool(m.sto.get(a))
        if not has and a in m.dirtyzero:
            # recorded finding: see known_findings.jsonl, key has-storage-after-zeroing
            o = self.both("account_has_storage", lambda s: s.m.account_has_storage(s.s, A), check=False)
            self.ctx.check(o[0] == ("ok", has) or len(o) == 1, "plain-store-wrong-result", f"account_has_storage {o[0]}")
            if o[-1] != ("ok", has):
                self.ctx.known.append(["has-storage-after-zeroing", "account_has_storage stays true on the disk-backed state "
                                       "after a transaction zeroes every stored slot"])
        else:
            self.both(f"account_has_storage {a[:1].hex()}", lambda s: s.m.account_has_storage(s.s, A), ("ok", has))
        if "account_exists_and_is_empty" in self.feats:
            self.both("account_exists_and_is_empty", lambda s: s.m.account_exists_and_is_empty(s.s, A),
                      ("ok", v == [0, 0, b""]))
        if "is_account_alive" in self.feats:
            self.both("is_account_alive", lambda s: s.m.is_account_alive(s.s, A), ("ok", v is not None and v != [0, 0, b""]))

    def read_slot(self, a, k):
        m = self.model
        A, K = self.B20(a), self.B32(k)
        self.both(f"get_storage {a[:1].hex()}[{k[-1]}]", lambda s: int(s.m.get_storage(s.s, A, K)),
                  ("ok", m.sto.get(a, {}).get(k, 0)))
        if m.stack and "get_storage_original" in self.feats:
            exp = 0 if a in m.created else m.stack[0][1].get(a, {}).get(k, 0)
            self.both(f"get_storage_original {a[:1].hex()}[{k[-1]}]",
                      lambda s: int(s.m.get_storage_original(s.s, A, K)), ("ok", exp))
        if self.sides[0].tr is not None and m.stack:
            self.both("get_transient", lambda s: int(s.m.get_transient_storage(s.tr, A, K)),
                      ("ok", m.tra.get(a, {}).get(k, 0)))

    def readback(self):
        for a in ADDRS:
            self.read_account(a)
            for k in KEYS:
                self.read_slot(a, k)
        self.ctx.probe("full_readback")


def is_paris(fork):
    return fork in ("paris", "shanghai", "cancun", "prague", "osaka")


def run_equiv(ctx):
    fork = ctx.params["fork"]
    c = ctx.c
    plain, opt, types = load(fork)
    disk = c.bool(0.3)
    path = None
    if disk:
        path = tempfile.mkdtemp(prefix="db-", dir=os.environ.get("VERIF_SCRATCH"))
    try:
        trs = [None, None]
        if hasattr(plain, "TransientStorage"):
            trs = [plain.TransientStorage(), plain.TransientStorage()]
        sides = [Side(plain, plain.State(), trs[0]), Side(opt, opt.State(path), trs[1])]
        model = Model(is_paris(fork))
        d = Driver(ctx, fork, sides, model)
        d.durable = copy_model(model)
        d.disk = disk
        mean = c.choice([60, 15, 150, 300])
        ctx.log("fork", fork, "disk", disk)
        n = 0
        for _ in c.steps(mean, 600):
            d.step()
            n += 1
        while d.model.stack:
            d.op_end()
        d.readback()
        d.roots()
        ctx.sim_time += n
        ctx.nontrivial = True
        ctx.sample = {"fork": fork, "steps": n, "first_ops": ctx.log_tail[:12]}
        opt.close_state(sides[1].s)
    finally:
        if path:
            shutil.rmtree(path, ignore_errors=True)


# ---------------------------------------------------------------- crash mode
class CrashDB:
    """Proxy for the database handle; counts calls, crashes or fails at one."""

    def __init__(self, real, plan):
        object.__setattr__(self, "_r", real)
        object.__setattr__(self, "_p", plan)

    def __getattr__(self, name):
        f = getattr(self._r, name)
        plan = self._p

        def call(*a):
            return plan.around(name, f, a)
        return call


class Plan:
    def __init__(self):
        self.n = 0
        self.at = None       # crash at this call number
        self.after = False   # after the real call took effect
        self.fail_commit = False
        self.fired = None

    def around(self, name, f, a):
        self.n += 1
        hit = self.at is not None and self.n == self.at
        if hit and not self.after:
            self.fired = "before:" + name
            raise SimCrash()
        if name == "commit_mutable" and self.fail_commit:
            self.fail_commit = False
            self.fired = "failed:" + name
            raise OSError(28, "No space left on device (injected)")
        if name == "commit_mutable":
            self.in_commit = True
        r = f(*a)
        if name == "commit_mutable":
            self.committed = True
        if hit:
            self.fired = "after:" + name
            raise SimCrash()
        return r


def run_crash(ctx):
    """Incarnations over one database path; each ends in a crash or a close."""
    import rust_pyspec_glue
    import ethereum_optimized.state_db as sdb
    fork = ctx.params["fork"]
    c = ctx.c
    plain, opt, types = load(fork)
    base = tempfile.mkdtemp(prefix="db-", dir=os.environ.get("VERIF_SCRATCH"))
    real_db = rust_pyspec_glue.DB
    handles = []

    class FakeGlue:
        plan = None

        @staticmethod
        def DB(path):
            real = real_db(path)
            handles.append(real)
            return CrashDB(real, FakeGlue.plan)

    saved = sdb.rust_pyspec_glue
    sdb.rust_pyspec_glue = FakeGlue
    try:
        model = Model(is_paris(fork))   # what the running incarnation sees
        durable = copy_model(model)
        gen = 0
        path = os.path.join(base, "g0")
        os.mkdir(path)
        lives = 0
        for life in c.steps(3, 6):
            lives += 1
            plan = Plan()
            plan.committed = False
            FakeGlue.plan = plan
            allowed = [durable]          # states recovery may show
            ctx.log("open life", life)
            crash_kind = c.weighted([(3, "call"), (2, "commit"), (2, "close"), (2, "op"), (1, "enospc"), (1, "early")])
            if crash_kind == "call":
                plan.at = c.int(1, 120)
                plan.after = c.bool(0.5)
            elif crash_kind == "early":
                plan.at = c.int(1, 4)    # during recovery / right after opening
                plan.after = c.bool(0.5)
            d = None
            state = None
            try:
                state = opt.State(path)
                side = Side(opt, state, plain.TransientStorage() if hasattr(plain, "TransientStorage") else None)
                d = Driver(ctx, fork, [side], copy_model(durable))
                d.durable = durable
                check_recovered(ctx, d, allowed)
                for i in c.steps(20, 100):
                    commits = not d.model.stack and c.bool(0.12)
                    if commits:
                        if crash_kind == "commit" and c.bool(0.5):
                            plan.at = plan.n + c.int(1, 8)
                            plan.after = c.bool(0.5)
                            ctx.log("crash armed in commit")
                        if crash_kind == "enospc" and c.bool(0.6):
                            plan.fail_commit = True
                        plan.committed = False
                        nxt = copy_model(d.model)
                        ctx.log("commit to disk")
                        try:
                            opt.commit_db_transaction(state)
                        except SimCrash:
                            # inside a commit: before the engine's commit call
                            # returned nothing of it may show, after it all of it
                            if plan.committed:
                                durable = nxt
                            raise
                        except OSError:
                            ctx.fault("disk_full_on_commit")
                            ctx.log("commit failed: disk full")
                            raise SimCrash()
                        ctx.check(plan.committed, "commit-not-durable",
                                  "committing returned without committing to the database")
                        durable = nxt
                        ctx.probe("db_commit")
                        opt.begin_db_transaction(state)
                    else:
                        d.step(allow_db=False)
                        if d.c.bool(0.1) and not d.model.stack:
                            d.op_meta()
                if crash_kind == "op":
                    ctx.log("crash between operations", len(d.model.stack))
                    raise SimCrash()
                if crash_kind in ("close", "commit", "enospc", "call", "early"):
                    while d.model.stack:
                        d.op_end()
                    if c.bool(0.5):
                        plan.committed = False
                        nxt = copy_model(d.model)
                        ctx.log("commit then close")
                        try:
                            opt.commit_db_transaction(state)
                        except SimCrash:
                            if plan.committed:
                                durable = nxt
                            raise
                        except OSError:
                            raise SimCrash()
                        ctx.check(plan.committed, "commit-not-durable", "commit returned without committing")
                        durable = nxt
                        ctx.probe("db_commit")
                    plan.at = None
                    opt.close_state(state)
                    ctx.log("closed")
                    ctx.probe("clean_close")
                    continue
            except SimCrash:
                where = plan.fired or f"op/depth{len(d.model.stack) if d else 0}"
                ctx.fault("crash_" + where.split("/")[0])
                ctx.log("CRASH", where)
                ctx.state("crash", where, fork)
            # freeze the files as they are now, drop the dead incarnation
            gen += 1
            newp = os.path.join(base, f"g{gen}")
            os.mkdir(newp)
            shutil.copyfile(os.path.join(path, "mdbx.dat"), os.path.join(newp, "mdbx.dat"))
            state = d = side = None
            handles.clear()
            path = newp
        # final life: verify
        FakeGlue.plan = Plan()
        state = opt.State(path)
        side = Side(opt, state, plain.TransientStorage() if hasattr(plain, "TransientStorage") else None)
        d = Driver(ctx, fork, [side], copy_model(durable))
        check_recovered(ctx, d, [durable])
        ctx.sim_time += lives
        ctx.nontrivial = True
        ctx.sample = {"fork": fork, "lives": lives, "log": ctx.log_tail[-15:]}
        opt.close_state(state)
    finally:
        sdb.rust_pyspec_glue = saved
        handles.clear()
        shutil.rmtree(base, ignore_errors=True)


def check_recovered(ctx, d, allowed):
    d.readback()
    for k in METAKEYS:
        s = d.sides[0]
        got = outcome(lambda: s.m.get_metadata(s.s, k))
        exp = d.model.meta.get(k)
        ctx.check(got == ("ok", exp), "recovered-metadata-wrong", lambda: f"{k}: {got} expected {exp}")
    d.roots()
    ctx.probe("recovery_checked")
