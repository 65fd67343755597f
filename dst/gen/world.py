"""Seeded generator of worlds, transactions and blocks for one fork."""
from dst.gen import prog
from dst.ref import chain as C
from dst.ref import evm as E
from dst.ref import rlp as R
from dst.ref.evm import (BERLIN, BYZANTIUM, CANCUN, CONSTANTINOPLE, HOMESTEAD, LONDON, OSAKA, PARIS, PRAGUE, SHANGHAI,
                         SPURIOUS, TANGERINE)

N_KEYS = 6
KEYS = None


def keys():
    global KEYS
    if KEYS is None:
        KEYS = [C.Key(n) for n in range(N_KEYS)]
    return KEYS


CONTRACTS = [R.keccak(b"contract%d" % n)[:20] for n in range(7)]
NOBODY = [R.keccak(b"nobody%d" % n)[:20] for n in range(3)]
MINERS = [R.keccak(b"miner%d" % n)[:20] for n in range(4)]
EMPTY_ONE = R.keccak(b"empty")[:20]
TOUCHER, RUNNER = R.keccak(b"toucher")[:20], R.keccak(b"runner")[:20]


class Setup:
    """Everything one run needs: rules, genesis world, pools, generator."""

    def __init__(self, c, fi, style=None, chain_id=1, n_contracts=5, fork_block=None, deep=False):
        self.c, self.fi, self.style = c, fi, style or {}
        self.rules = C.Rules(fi, chain_id, fork_block)
        self.keys = keys()
        self.eoas = [k.addr for k in self.keys]
        self.contracts = CONTRACTS[:n_contracts]
        self.miners = MINERS + self.eoas[:1] + self.contracts[:1]
        self.pool = self.eoas + NOBODY + MINERS[:2] + self.contracts + [TOUCHER]
        if fi < PARIS:
            self.pool.append(EMPTY_ONE)
        self.system = []
        if fi >= CANCUN:
            self.system.append(C.BEACON_ROOTS)
        if fi >= PRAGUE:
            self.system += [C.HISTORY, C.WITHDRAWAL_REQ, C.CONSOLIDATION_REQ, C.DEPOSIT]
            self.pool += [C.WITHDRAWAL_REQ, C.DEPOSIT]
        if fi >= CANCUN:
            self.pool.append(C.BEACON_ROOTS)
        self.gen = prog.Gen(c, fi, self.pool, self.contracts, self.style)
        self.deep = R.keccak(b"deep")[:20] if deep else None
        self.gen.toucher, self.gen.runner = TOUCHER, RUNNER
        self.world = self.build()

    def build(self):
        c, fi = self.c, self.fi
        w = E.World()
        for n, a in enumerate(self.eoas):
            w.put(a, nonce=0 if n else c.choice([0, 0, 5]), balance=10**24 if n != 4 else 10**19)
        for n, a in enumerate(self.contracts):
            with c.span():
                code = self.gen.undoer() if n == 0 and self.style.get("undo", 0) > 1 else self.gen.contract()
                nonce = 1 if fi >= SPURIOUS else c.draw(2)
                if c.bool(0.02):
                    nonce = 2**64 - 1 - c.draw(2)
                w.put(a, nonce=nonce, balance=c.choice([0, 5000, 10**18]), code=code)
                for k in range(4):
                    v = c.weighted([(3, 0), (2, 1), (1, 2**255), (1, 7)])
                    if v:
                        w.sstore(a, k, v)
        n = 1 if fi >= SPURIOUS else 0
        w.put(TOUCHER, nonce=n, balance=c.choice([0, 10]), code=prog.toucher_code(fi))
        w.put(RUNNER, nonce=n, balance=c.choice([0, 10]), code=prog.runner_code(fi))
        w.put(MINERS[0], balance=1)
        if self.deep:
            w.put(self.deep, nonce=1 if fi >= SPURIOUS else 0, balance=9, code=prog.deep_code(c, fi, self.deep))
        if fi < PARIS and c.bool(0.5):
            w.put(EMPTY_ONE)
        if c.bool(0.1):
            # something already sits where a contract will create
            a = c.choice(self.contracts)
            new = R.keccak(R.enc([a, R.int_b(w.get(a)[0])]))[12:]
            k = c.draw(3)
            w.put(new, balance=3)
            if k == 1:
                w.put(new, nonce=1)
            elif k == 2:
                w.put(new, nonce=1, code=b"\x00")
        if fi >= CANCUN:
            w.put(C.BEACON_ROOTS, nonce=1, code=prog.BEACON_ROOTS_CODE)
        if fi >= PRAGUE:
            w.put(C.HISTORY, nonce=1, code=prog.HISTORY_CODE)
            w.put(C.WITHDRAWAL_REQ, nonce=1, code=prog.queue_code(3))
            w.put(C.CONSOLIDATION_REQ, nonce=1, code=prog.queue_code(1))
            w.put(C.DEPOSIT, nonce=1, code=prog.deposit_code())
            if c.bool(0.3):
                to = c.choice(self.contracts + [E.addr(2), self.eoas[5]])
                w.put(self.eoas[5], nonce=1, code=b"\xef\x01\x00" + to)
        return w

    # ------------------------------------------------------------ transactions
    def tx_fields(self, w, base, key=None):
        """Fields of a valid transaction on world w, with ample gas."""
        c, fi = self.c, self.fi
        n = c.draw(N_KEYS) if key is None else key
        k = self.keys[n]
        kinds = [0, 0] + ([1] if fi >= BERLIN else []) + ([2] if fi >= LONDON else []) + ([3] if fi >= CANCUN else []) + (
            [4] * self.style.get("auth", 1) if fi >= PRAGUE else [])
        kind = c.choice(kinds)
        st = self.style
        to = c.weighted([(8, "contract"), (1, "eoa"), (st.get("create", 1), "create"), (1, "pool"), (1, "pre"),
                         (st.get("system", 1) if self.system else 0, "system")])
        d = dict(kind=kind, key=n, nonce=w.get(k.addr)[0], data=b"", value=0, al=[], chain=None)
        if to == "contract":
            d["to"] = c.choice(self.contracts)
            if self.style.get("undo", 0) > 1 and c.bool(0.3):
                d["to"], d["ample"] = self.contracts[0], True
        elif to == "eoa":
            d["to"] = c.choice(self.eoas)
        elif to == "create" and kind < 3:
            d["to"] = b""
        elif to == "pre":
            d["to"] = E.addr(c.int(1, 4))
        elif to == "system":
            d["to"] = c.choice(self.system)
        else:
            d["to"] = c.choice(self.pool)
        d["value"] = c.choice([0, 1, 1000, 10**15])
        if c.bool(0.08) and kind != 3 and to == "contract":
            d["to"], ws = self.gen.touch_words(16 + c.draw(12) if c.bool(0.5) else c.draw(4))
            d["data"] = b"".join(E.w32(x) for x in ws)
        elif d["to"] == b"":
            d["data"] = self.gen.initcode(0)
        elif d["to"] == C.DEPOSIT:
            d["data"] = E.w32(c.draw(4) // 3) + prog.deposit_data(c, c.bool(0.03))
        else:
            ttl = c.weighted([(3, 1), (1, 0), (4, 2), (3, 3)])
            d["data"] = E.w32(ttl) + c.choice([b"", E.w32(c.draw(1000)), c.bytes(5), b"\0" * 40])
            if c.bool(0.08):
                d["data"] += bytes([c.draw(2) * 9]) * c.choice([300, 2000, 5000])
        if self.deep and c.bool(0.4) and kind < 3:
            d["to"] = self.deep
            d["data"] = E.w32(c.int(1021, 1027))
            d["gas"] = 40_000_000 if fi < TANGERINE else 2**24 - 10 if fi >= OSAKA else 10**12
            d["fixed"] = True
        if kind or (fi >= SPURIOUS and c.bool(0.5)):
            d["chain"] = self.rules.chain_id
        tip = c.choice([0, 1, 7, 10**9])
        if fi >= LONDON:
            d["price"] = base + (c.choice([0, 1, 10**9]) if kind >= 2 else tip)
            d["tip"] = min(tip, d["price"])
        else:
            d["price"] = d["tip"] = tip
        if kind:
            for _ in range(c.draw(3)):
                d["al"].append((c.choice(self.pool), [c.draw(5) for _ in range(c.draw(3))]))
        if kind == 3:
            d["blobs"] = [b"\x01" + R.keccak(b"blob%d" % j)[1:] for j in range(c.int(1, 2))]
        if kind == 4:
            d["auths"] = self.auths(w, n)
        d.setdefault("gas", 400_000)
        return d

    def auths(self, w, sender):
        c = self.c
        out = []
        for _ in range(c.int(1, 3)):
            n = c.draw(N_KEYS)
            k = self.keys[n]
            nonce = min(2**64 - 1, w.get(k.addr)[0] + (1 if n == sender else 0))
            what = c.weighted([(6, "ok"), (1, "nonce"), (1, "chain0"), (1, "chain"), (1, "high_s"), (1, "y"), (1, "again")])
            to = c.weighted([(5, 0), (2, 1), (1, 2), (1, 3)])
            to = [c.choice(self.contracts), b"\0" * 20, E.addr(c.int(1, 9)), c.choice(self.eoas)][to]
            chain = {"chain0": 0, "chain": self.rules.chain_id + 1}.get(what, self.rules.chain_id)
            if what == "nonce":
                nonce = min(2**64 - 1, c.choice([nonce + 1, 2**64 - 1]))
            if what == "again" and out:
                out.append(c.choice(out))
                continue
            a = C.sign_auth(chain, to, nonce, k, what == "high_s")
            if what == "y":
                a[3] = b"\x02"
            out.append(a)
        return out

    def sign(self, d, blob_price=1):
        d = dict(d)
        if d["kind"] == 3:
            d.setdefault("bcap", blob_price + 5)
        return C.sign_tx(d, self.keys[d["key"]])

    def fit_gas(self, d, w, blk, out, cut=0.5, room=None):
        """Choose the gas limit: ample, or cut off at a drawn instant of the execution (fault: gas exhaustion)."""
        c, fi = self.c, self.fi
        if d.get("fixed"):
            return False
        bp = E.blob_price(fi, blk.excess_blob) if fi >= CANCUN else 0
        full = self.sign(d, bp)
        t = C.parse_tx(fi, full)
        g0, floor = C.intrinsic(fi, t)
        if not c.bool(cut):
            d["gas"] = max(g0, floor) + (1_200_000 if d.get("ample") else c.choice([400_000, 100_000, 30_000]))
            return False
        d["gas"] = max(g0, floor) + 400_000
        w2, o2 = w.copy(), C.Out()
        o2.gas_used, o2.blob_gas = out.gas_used, out.blob_gas
        try:
            rec = C.process_tx(fi, w2, blk, o2, self.sign(d, bp))
        except C.Bad:
            return False
        ex = rec["gross"] - g0
        if ex <= 0:
            return False
        d["gas"] = max(floor, g0 + c.draw(ex + 1))
        return True
