"""Real node: the fork modules behind a small driver.

Blocks arrive as raw bytes and are decoded by the code under test.  Only the
public surface is used: `state_transition`, `BlockChain`, the state accessors
and the tracer seam.  Ethash's two heavy functions are replaced by a keyed
hash, so sealing and checking a seal both stay cheap.
"""
import copy
import importlib
import sys

from dst.core import HarnessError
from dst.ref import chain as C
from dst.ref import evm as E
from dst.ref import rlp as R

MODS = {}
TRACE = None
sys.setrecursionlimit(60000)


class Mod:
    pass


def setup(env):
    global TRACE
    if env.get("optimized"):
        import ethereum_optimized
        import ethereum_optimized.fork as of
        of.ethash = FakeEthash
        for f in env.get("forks") or E.FORKS:
            ethereum_optimized.monkey_patch_optimized_state_db(f, None)
            if E.FORKS.index(f) < E.FORKS.index("paris"):
                ethereum_optimized.monkey_patch_optimized_spec(f)
    from ethereum import trace
    import ethereum.ethash as ethash
    TRACE = trace
    patch_pow(ethash)
    for f in env.get("forks") or E.FORKS:
        load(f)
    immutable()


def immutable():
    """Deep copies of a state share its immutable leaves."""
    from ethereum_types import bytes as tb
    from ethereum_types import numeric as tn

    def same(self, memo):
        return self
    kinds = [x for mod in (tb, tn) for x in vars(mod).values() if isinstance(x, type) and x.__module__ == mod.__name__]
    kinds += [m.fork_types.Account for m in MODS.values()]
    for k in kinds:
        try:
            k.__deepcopy__ = same
        except (TypeError, AttributeError):
            pass


def patch_pow(m):
    for name, fn in (("generate_cache", lambda number: number), ("dataset_size", lambda number: number),
                     ("hashimoto_light", fake_hashimoto)):
        if hasattr(m, name):
            setattr(m, name, fn)


def fake_hashimoto(header_hash, nonce, cache, size):
    return C.pow_mix(bytes(header_hash), bytes(nonce)), C.pow_result(bytes(nonce))


class FakeEthash:
    """Stand-in for the native ethash library used by the optimized validator."""

    @staticmethod
    def verify(epoch, header_hash, mix, nonce, boundary):
        n = int(nonce).to_bytes(8, "big")
        return bytes(mix) == C.pow_mix(bytes(header_hash), n) and C.pow_result(n) <= bytes(boundary)


def load(fork):
    m = Mod()
    base = f"ethereum.{fork}"
    m.name, m.fi = fork, E.FORKS.index(fork)
    for n in ("fork", "state", "blocks", "fork_types", "trie"):
        setattr(m, n, importlib.import_module(f"{base}.{n}"))
    m.exc = importlib.import_module(f"{base}.vm.exceptions")
    patch_pow(m.fork)
    m.ops = importlib.import_module(f"ethereum.{fork}.vm.instructions").Ops
    m.halts = sorted((x for x in vars(m.exc).values() if isinstance(x, type) and issubclass(x, m.exc.ExceptionalHalt)
                      and x is not m.exc.ExceptionalHalt and x.__name__ not in ("InvalidOpcode", "InvalidParameter")),
                     key=lambda x: x.__name__)
    MODS[fork] = m
    return m


def addr(m, a):
    return m.fork_types.Address(a)


def fill(m, state, world):
    from ethereum_types.bytes import Bytes32
    from ethereum_types.numeric import U256, Uint
    S = m.state
    for a, (n, b, code) in world.acc.items():
        S.set_account(state, addr(m, a), m.fork_types.Account(nonce=Uint(n), balance=U256(b), code=code))
    for a, d in world.sto.items():
        for k, v in d.items():
            S.set_storage(state, addr(m, a), Bytes32(E.w32(k)), U256(v))


def new_state(m, world):
    s = m.state.State()
    fill(m, s, world)
    return s


def decode_block(m, raw):
    from ethereum_rlp import rlp
    return rlp.decode_to(m.blocks.Block, raw)


def new_chain(m, genesis, chain_id, state=None):
    from ethereum_types.numeric import U64
    state = new_state(m, genesis.world) if state is None else state
    return m.fork.BlockChain(blocks=[decode_block(m, genesis.raw)], state=state, chain_id=U64(chain_id))


def copy_chain(m, chain):
    return m.fork.BlockChain(blocks=list(chain.blocks), state=copy.deepcopy(chain.state), chain_id=chain.chain_id)


def hash_of(block):
    from ethereum_rlp import rlp
    return R.keccak(rlp.encode(block.header))


def block_ids(chain):
    return tuple(hash_of(b) for b in chain.blocks)


class Injector:
    """Mirrored fault: an exceptional halt at the k-th traced instruction of a block."""

    def __init__(self, m, at, which=0):
        self.m, self.at, self.n, self.which, self.fired = m, set(at), 0, which, 0

    def tracer(self, evm, event, trace_memory=False, trace_stack=True, trace_return_data=False):
        if isinstance(event, (TRACE.OpStart, TRACE.PrecompileStart)):
            k = self.n
            self.n += 1
            if k in self.at:
                self.fired += 1
                h = self.m.halts
                raise h[(self.which + k) % len(h)]()

    def hook(self, kind, depth):
        k = self.n
        self.n += 1
        if k in self.at:
            self.fired += 1
            raise E.Halt("injected")


def transition(m, chain, raw, inj=None):
    """-> None if imported, else the exception."""
    try:
        block = decode_block(m, raw)
    except Exception as e:
        return e
    old = None
    if inj is not None:
        old = TRACE.set_evm_trace(inj.tracer)
    try:
        m.fork.state_transition(chain, block)
        return None
    except RecursionError as e:
        raise HarnessError("recursion") from e
    except Exception as e:
        return e
    finally:
        if inj is not None:
            TRACE.set_evm_trace(old)


def diff(m, state, world, extra=()):
    """First differences between the real state and the model world, through the public accessors."""
    from ethereum_types.bytes import Bytes32
    out = []
    S = m.state
    addrs = sorted(set(world.acc) | set(world.sto) | set(extra))
    for a in addrs:
        o = S.get_account_optional(state, addr(m, a))
        got = None if o is None else (int(o.nonce), int(o.balance), bytes(o.code))
        want = world.acc.get(a)
        if got != want:
            out.append(f"{a.hex()}: code says {fmt(got)}, expected {fmt(want)}")
        for k in sorted(set(world.sto.get(a, ())) | set(range(8))):
            v = int(S.get_storage(state, addr(m, a), Bytes32(E.w32(k))))
            if v != world.sload(a, k):
                out.append(f"{a.hex()}[{k}]: code says {v}, expected {world.sload(a, k)}")
    return out


def fmt(x):
    if x is None:
        return "absent"
    return f"(nonce {x[0]}, balance {x[1]}, code {x[2][:24].hex()}{'..' if len(x[2]) > 24 else ''})"


def same_state(m, state, world):
    return bytes(m.state.state_root(state)) == world.root()
