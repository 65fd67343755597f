"""Independent executable model of blocks, transactions and chains.

Works on RLP field lists, shares nothing with the code under test.  Rules are
named, and `skip` lets a Byzantine producer build a block that breaks exactly
one rule while every commitment in it is consistent.
"""
import hashlib

import coincurve

from dst.ref import evm as E
from dst.ref import rlp as R
from dst.ref.evm import (ARROW, BERLIN, BYZANTIUM, CANCUN, CONSTANTINOPLE, DAO, FRONTIER, GRAY, HOMESTEAD, ISTANBUL, LONDON,
                         MUIR, OSAKA, PARIS, PRAGUE, SHANGHAI, SPURIOUS, TANGERINE)

(PARENT, OMM, COINBASE, SROOT, TXROOT, RCROOT, BLOOM, DIFF, NUM, GL, GU, TS, EXTRA, MIX, NONCE, BASEFEE, WROOT, BLOBGAS,
 EXCESS, BEACON, REQ) = range(21)
HEADER_FIELDS = ["parent_hash", "ommers_hash", "coinbase", "state_root", "transactions_root", "receipt_root", "bloom",
                 "difficulty", "number", "gas_limit", "gas_used", "timestamp", "extra_data", "mix_digest", "nonce",
                 "base_fee", "withdrawals_root", "blob_gas_used", "excess_blob_gas", "beacon_root", "requests_hash"]
EMPTY_OMMERS = R.keccak(R.enc([]))
BEACON_ROOTS = bytes.fromhex("000f3df6d732807ef1319fb7b8bb8522d0beac02")
HISTORY = bytes.fromhex("0000f90827f1c53a10cb7a02335b175320002935")
WITHDRAWAL_REQ = bytes.fromhex("00000961ef480eb55e80d19ad83579a64c007002")
CONSOLIDATION_REQ = bytes.fromhex("0000bbddc7ce488642fb579f8b00f3a590007251")
DEPOSIT = bytes.fromhex("00000000219ab540356cbb839cbe05303d7705fa")
DEPOSIT_TOPIC = bytes.fromhex("649bbc62d0e31342afea4e5cd82d4049e7e1ee912fc0889aa790803be39038c5")
SYSTEM_GAS = 30_000_000
INITIAL_BASE_FEE = 10**9


class Bad(Exception):
    """Block or transaction breaks the named rule."""

    def __init__(self, rule):
        super().__init__(rule)
        self.rule = rule


def i(b):
    return int.from_bytes(b, "big")


def header_len(fi):
    return 15 + (fi >= LONDON) + (fi >= SHANGHAI) + 3 * (fi >= CANCUN) + (fi >= PRAGUE)


def hash_header(h):
    return R.keccak(R.enc(h))


def pow_mix(header_hash, nonce):
    return R.keccak(b"seal" + header_hash + nonce)


def pow_result(nonce):
    return b"\xff" * 32 if nonce[:1] == b"\xff" else b"\0" * 32


def seal(h):
    """Stand-in for the proof-of-work seal: binds the mix digest to everything but the seal."""
    return pow_mix(R.keccak(R.enc(h[:MIX] + h[NONCE + 1:])), h[NONCE])


# ------------------------------------------------------------- transactions
class TxView:
    """Decoded transaction."""
    __slots__ = ("raw", "kind", "chain", "nonce", "price", "tip", "gas", "to", "value", "data", "al", "blobs", "bcap",
                 "auths", "v", "r", "s", "sighash")


def parse_tx(fi, item):
    t = TxView()
    t.raw = item
    t.al, t.blobs, t.auths, t.bcap, t.chain = [], [], [], 0, None
    if isinstance(item, list):
        t.kind = 0
        nonce, price, gas, to, value, data, v, r, s = item
        t.price = t.tip = i(price)
        base = item[:6]
        t.v, t.r, t.s = i(v), i(r), i(s)
        if t.v >= 35:
            t.chain = (t.v - 35) // 2
            t.sighash = R.keccak(R.enc(base + [R.int_b(t.chain), b"", b""]))
        else:
            t.sighash = R.keccak(R.enc(base))
    else:
        t.kind = item[0]
        top = 4 if fi >= PRAGUE else 3 if fi >= CANCUN else 2 if fi >= LONDON else 1 if fi >= BERLIN else 0
        if not 1 <= t.kind <= top:
            raise Bad("tx:type")
        f = R.dec(item[1:])
        t.v, t.r, t.s = (i(x) for x in f[-3:])
        t.sighash = R.keccak(item[:1] + R.enc(f[:-3]))
        t.chain = i(f[0])
        if t.kind == 1:
            _, nonce, price, gas, to, value, data, al = f[:8]
            t.price = t.tip = i(price)
        else:
            _, nonce, tip, cap, gas, to, value, data, al = f[:9]
            t.price, t.tip = i(cap), i(tip)
            if t.kind == 3:
                t.bcap, t.blobs = i(f[9]), f[10]
            if t.kind == 4:
                t.auths = f[9]
        t.al = al
    t.nonce, t.gas, t.to, t.value, t.data = i(nonce), i(gas), to, i(value), data
    return t


_rec = {}


def recover(sighash, parity, r, s):
    k = (sighash, parity, r, s)
    if k not in _rec:
        try:
            pk = coincurve.PublicKey.from_signature_and_message(
                E.w32(r) + E.w32(s) + bytes([parity]), sighash, hasher=None)
            _rec[k] = R.keccak(pk.format(compressed=False)[1:])[12:]
        except Exception:
            _rec[k] = None
    return _rec[k]


class Key:
    def __init__(self, n):
        self.key = coincurve.PrivateKey(R.keccak(b"key%d" % n))
        self.addr = R.keccak(self.key.public_key.format(compressed=False)[1:])[12:]

    def sign(self, h):
        b = self.key.sign_recoverable(h, hasher=None)
        return i(b[:32]), i(b[32:64]), b[64]


def sign_tx(d, key):
    """d: dict(kind, chain (None: unprotected legacy), nonce, price, tip, gas, to, value, data, al, blobs, bcap, auths,
    high_s).  -> raw item"""
    n = R.int_b
    k = d["kind"]
    if k == 0:
        base = [n(d["nonce"]), n(d["price"]), n(d["gas"]), d["to"], n(d["value"]), d["data"]]
        c = d.get("chain")
        h = R.keccak(R.enc(base if c is None else base + [n(c), b"", b""]))
        r, s, y = key.sign(h)
        if d.get("high_s"):
            s, y = E.SECP_N - s, 1 - y
        return base + [n(27 + y if c is None else 35 + 2 * c + y), n(r), n(s)]
    al = [[a, [E.w32(x) for x in ks]] for a, ks in d.get("al", ())]
    head = [n(d["chain"]), n(d["nonce"])]
    head += [n(d["price"])] if k == 1 else [n(d["tip"]), n(d["price"])]
    head += [n(d["gas"]), d["to"], n(d["value"]), d["data"], al]
    if k == 3:
        head += [n(d["bcap"]), list(d["blobs"])]
    if k == 4:
        head += [list(d["auths"])]
    r, s, y = key.sign(R.keccak(bytes([k]) + R.enc(head)))
    if d.get("high_s"):
        s, y = E.SECP_N - s, 1 - y
    return bytes([k]) + R.enc(head + [n(y), n(r), n(s)])


def sign_auth(chain, address, nonce, key, high_s=False):
    n = R.int_b
    f = [n(chain), address, n(nonce)]
    r, s, y = key.sign(R.keccak(b"\x05" + R.enc(f)))
    if high_s:
        s, y = E.SECP_N - s, 1 - y
    return f + [n(y), n(r), n(s)]


def sender_of(fi, chain_id, t, skip):
    if not 0 < t.r < E.SECP_N or not 0 < t.s < E.SECP_N:
        raise Bad("tx:sig")
    if fi >= HOMESTEAD and t.s > E.SECP_N // 2 and "tx:high_s" not in skip:
        raise Bad("tx:high_s")
    if t.kind == 0:
        if t.v in (27, 28):
            y = t.v - 27
        elif fi >= SPURIOUS and t.v >= 35:
            if t.chain != chain_id and "tx:chain" not in skip:
                raise Bad("tx:chain")
            y = (t.v - 35) % 2
        else:
            raise Bad("tx:sig")
    else:
        if t.chain != chain_id and "tx:chain" not in skip:
            raise Bad("tx:chain")
        y = t.v
        if y > 1:
            raise Bad("tx:sig")
    a = recover(t.sighash, y, t.r, t.s)
    if a is None:
        raise Bad("tx:sig")
    return a


def intrinsic(fi, t):
    z = t.data.count(0)
    nz = len(t.data) - z
    g = 21000 + 4 * z + (16 if fi >= ISTANBUL else 68) * nz
    if t.to == b"":
        if fi >= HOMESTEAD:
            g += 32000
        if fi >= SHANGHAI:
            g += 2 * E.words(len(t.data))
    for _, ks in t.al:
        g += 2400 + 1900 * len(ks)
    g += 25000 * len(t.auths)
    floor = 21000 + 10 * (z + 4 * nz) if fi >= PRAGUE else 0
    return g, floor


def blob_limit(fi):
    return 131072 * (6 if fi < PRAGUE else 9)


class Out:
    """Outcome of executing a block body."""

    def __init__(self):
        self.gas_used = self.blob_gas = 0
        self.receipts = []      # encoded
        self.logs = []
        self.txs = []           # per-transaction dicts
        self.burned = 0
        self.issued = 0
        self.deposits = b""
        self.requests = []


def apply_auths(fi, tx, chain_id, auths):
    refund = 0
    w = tx.w
    for a in auths:
        cid, address, nonce, y, r, s = a
        cid, nonce, y, r, s = i(cid), i(nonce), i(y), i(r), i(s)
        if cid not in (0, chain_id) or nonce >= 2**64 - 1:
            continue
        if y > 1 or not 0 < r < E.SECP_N or not 0 < s <= E.SECP_N // 2:
            continue
        who = recover(R.keccak(b"\x05" + R.enc(a[:3])), y, r, s)
        if who is None:
            continue
        tx.warm_a |= {who}
        n, b, c = w.get(who)
        if c and E.delegation(c) is None:
            continue
        if n != nonce:
            continue
        if who in w.acc:
            refund += 12500
        w.put(who, nonce=n + 1, code=b"" if address == b"\0" * 20 else b"\xef\x01\x00" + address)
    return refund


def check_tx(fi, w, blk, out, t, skip=()):
    """Raise Bad(rule) unless includable; -> (sender, price, intrinsic, floor, blob_fee)"""
    def need(ok, rule):
        if not ok and rule not in skip:
            raise Bad(rule)
    g0, floor = intrinsic(fi, t)
    need(t.gas >= max(g0, floor), "tx:intrinsic")
    need(t.nonce < 2**64 - 1, "tx:nonce_max")
    if fi >= SHANGHAI and t.to == b"":
        need(len(t.data) <= 49152, "tx:initcode")
    if fi >= OSAKA:
        need(t.gas <= 2**24, "tx:gas_cap")
    need(t.gas <= blk.gas_limit - out.gas_used, "tx:block_gas")
    bg = 131072 * len(t.blobs)
    if fi >= CANCUN:
        need(bg <= blob_limit(fi) - out.blob_gas, "tx:blob_gas")
    sender = sender_of(fi, blk.chain_id, t, skip)
    n, b, c = w.get(sender)
    base = blk.base_fee
    if fi >= LONDON:
        if t.kind >= 2:
            need(t.price >= t.tip, "tx:prio")
        need(t.price >= base, "tx:price")
        price = base + min(t.tip, t.price - base) if t.kind >= 2 else t.price
    else:
        price = t.price
    most = t.gas * t.price
    blob_fee = 0
    if t.kind == 3:
        need(len(t.blobs) > 0, "tx:blob_count")
        if fi >= OSAKA:
            need(len(t.blobs) <= 6, "tx:blob_max")
        need(all(len(x) == 32 and x[0] == 1 for x in t.blobs), "tx:blob_version")
        bp = E.blob_price(fi, blk.excess_blob)
        need(t.bcap >= bp, "tx:blob_price")
        most += bg * t.bcap
        blob_fee = bg * bp
    if t.kind >= 3:
        need(t.to != b"", "tx:blob_create")
    if t.kind == 4:
        need(len(t.auths) > 0, "tx:no_auths")
    need(t.nonce >= n, "tx:nonce_low")
    need(t.nonce <= n, "tx:nonce_high")
    need(b >= most + t.value, "tx:balance")
    need(c == b"" or (fi >= PRAGUE and E.delegation(c) is not None), "tx:sender_code")
    return sender, price, g0, floor, blob_fee


def bloom(logs):
    b = 0
    for a, topics, _ in logs:
        for x in (a,) + tuple(topics):
            h = R.keccak(x)
            for k in (0, 2, 4):
                b |= 1 << (((h[k] << 8) | h[k + 1]) & 2047)
    return b.to_bytes(256, "big")


def make_tx(fi, w, blk, sender, price, hook, t=None):
    tx = E.Tx(fi, w, blk, sender, price, tuple(t.blobs) if t else (), hook)
    return tx


def process_tx(fi, w, blk, out, raw, skip=(), hook=None):
    """Execute one transaction on world `w`; appends to `out`."""
    t = parse_tx(fi, raw)
    sender, price, g0, floor, blob_fee = check_tx(fi, w, blk, out, t, skip)
    before = w.total()
    rec = dict(sender=sender, price=price, gas=t.gas, nonce=t.nonce, kind=t.kind, blob_fee=blob_fee, intrinsic=g0,
               floor=floor, to=t.to)
    gas = max(0, t.gas - g0)
    n, b, _ = w.get(sender)
    w.put(sender, nonce=n + 1, balance=max(0, b - t.gas * price - blob_fee))
    tx = E.Tx(fi, w, blk, sender, price, tuple(t.blobs), hook)
    extra_refund = 0
    if t.to == b"":
        target = R.keccak(R.enc([sender, R.int_b(n)]))[12:]
    else:
        target = t.to
    if fi >= BERLIN:
        tx.warm_a = E.PRE[fi] | {sender, target}
        for a, ks in t.al:
            tx.warm_a |= {a}
            tx.warm_s |= {(a, i(k)) for k in ks}
        if fi >= SHANGHAI:
            tx.warm_a |= {blk.coinbase}
    if t.to == b"":
        if E.collision(tx, target):
            res = E.Result(False, 0, b"", "collision")
        else:
            res = E.create(tx, sender, target, t.value, t.data, gas, 0)
    else:
        if t.auths:
            extra_refund = apply_auths(fi, tx, blk.chain_id, t.auths)
        code, code_addr, no_pre = w.get(target)[2], target, False
        if fi >= PRAGUE:
            dl = E.delegation(code)
            if dl is not None:
                tx.warm_a |= {dl}
                code_addr, code, no_pre = dl, w.get(dl)[2], True
        res = E.call(tx, sender, target, code_addr, t.value, t.data, gas, 0, False, True, code, no_pre)
    if not res.ok:
        tx.touched = tx.destroyed = frozenset()
        tx.logs = ()
        tx.refund = 0
    used = t.gas - res.gas
    rec["gross"] = used
    refund = max(0, tx.refund) + extra_refund
    used -= min(refund, used // (5 if fi >= LONDON else 2))
    used = max(used, floor)
    base = blk.base_fee if fi >= LONDON else 0
    w.put(sender, balance=w.bal(sender) + (t.gas - used) * price)
    fee = used * (price - base)
    cb = w.bal(blk.coinbase) + fee
    if fi < SPURIOUS or cb:
        w.put(blk.coinbase, balance=cb)
    elif blk.coinbase in w.acc and w.dead(blk.coinbase):
        w.destroy(blk.coinbase)
    for a in tx.destroyed:
        w.destroy(a)
    if SPURIOUS <= fi < PARIS:
        for a in tx.touched:
            if a in w.acc and w.dead(a):
                w.destroy(a)
    out.gas_used += used
    out.blob_gas += 131072 * len(t.blobs)
    rec.update(ok=res.ok, used=used, logs=len(tx.logs), delta=w.total() - before, out=res.out, halt=res.halt,
               refund=refund, destroyed=len(tx.destroyed))
    out.burned += before - w.total()
    first = w.root() if fi < BYZANTIUM else (b"\x01" if res.ok else b"")
    body = R.enc([first, R.int_b(out.gas_used), bloom(tx.logs),
                  [[a, list(tp), d] for a, tp, d in tx.logs]])
    enc = R.dec(body) if t.kind == 0 else bytes([t.kind]) + body
    out.receipts.append(enc)
    out.logs += tx.logs
    out.txs.append(rec)
    for a, tp, d in tx.logs:
        if fi >= PRAGUE and a == DEPOSIT and tp and tp[0] == DEPOSIT_TOPIC:
            # a malformed deposit log only spoils the block when the requests are gathered
            out.deposits += deposit(d) if deposit(d) is not None else b""
            if deposit(d) is None:
                out.bad_deposit = True
    return rec


DEP = ((160, 48), (256, 32), (320, 8), (384, 96), (512, 8))


def deposit(d):
    if len(d) != 576:
        return None
    o = b""
    for k, (off, size) in enumerate(DEP):
        if i(d[32 * k:32 * k + 32]) != off or i(d[off:off + 32]) != size:
            return None
        o += d[off + 32:off + 32 + size]
    return o


def system_call(fi, w, blk, target, data, hook=None):
    tx = E.Tx(fi, w, blk, E.SYSTEM, blk.base_fee, (), hook)
    code = w.get(target)[2]
    code_addr, no_pre = target, False
    dl = E.delegation(code) if fi >= PRAGUE else None
    if dl is not None:
        code_addr, code, no_pre = dl, w.get(dl)[2], True
        tx.warm_a |= {dl}
    return E.call(tx, E.SYSTEM, target, code_addr, 0, data, SYSTEM_GAS, 0, False, False, code, no_pre)


REWARD = {f: 5 * 10**18 for f in range(BYZANTIUM)}
REWARD[BYZANTIUM] = 3 * 10**18
REWARD.update({f: 2 * 10**18 for f in range(CONSTANTINOPLE, PARIS)})


def start_block(fi, w, blk, parent_hash, beacon, hook=None):
    if fi >= CANCUN:
        system_call(fi, w, blk, BEACON_ROOTS, beacon, hook)
    if fi >= PRAGUE:
        system_call(fi, w, blk, HISTORY, parent_hash, hook)


def end_block(fi, w, blk, out, ommers, withdrawals, skip=(), hook=None):
    before = w.total()
    if fi < PARIS:
        r = REWARD[fi]
        w.put(blk.coinbase, balance=w.bal(blk.coinbase) + r + len(ommers) * (r // 32))
        for o in ommers:
            w.put(o[COINBASE], balance=w.bal(o[COINBASE]) + (8 - (blk.number - i(o[NUM]))) * r // 8)
    if fi >= SHANGHAI:
        for _, _, a, amt in withdrawals:
            if i(amt):
                w.put(a, balance=w.bal(a) + i(amt) * 10**9)
            elif a in w.acc and w.dead(a):
                w.destroy(a)
    out.issued = w.total() - before
    if fi >= PRAGUE:
        if getattr(out, "bad_deposit", False):
            raise Bad("req:deposit_log")
        if out.deposits:
            out.requests.append(b"\x00" + out.deposits)
        for k, a in ((b"\x01", WITHDRAWAL_REQ), (b"\x02", CONSOLIDATION_REQ)):
            if not w.get(a)[2]:
                raise Bad("req:no_contract")
            r = system_call(fi, w, blk, a, b"", hook)
            if not r.ok:
                raise Bad("req:failed")
            if r.out:
                out.requests.append(k + r.out)
    return out


def run_body(fi, w, blk, parent_hash, beacon, txs, ommers, withdrawals, skip=(), hook=None, mark=None):
    out = Out()
    start_block(fi, w, blk, parent_hash, beacon, hook)
    for n, t in enumerate(txs):
        if mark:
            mark(n)
        process_tx(fi, w, blk, out, t, skip, hook)
    if mark:
        mark(len(txs))
    return end_block(fi, w, blk, out, ommers, withdrawals, skip, hook)


def requests_hash(reqs):
    return hashlib.sha256(b"".join(hashlib.sha256(r).digest() for r in reqs)).digest()


# ------------------------------------------------------------------- shapes
def is_b(x, n=None):
    return isinstance(x, bytes) and (n is None or len(x) == n)


def is_n(x, size=None):
    return isinstance(x, bytes) and x[:1] != b"\0" and (size is None or len(x) <= size)


def is_to(x):
    return isinstance(x, bytes) and len(x) in (0, 20)


def fit(fields, spec):
    return isinstance(fields, list) and len(fields) == len(spec) and all(f(x) for f, x in zip(spec, fields))


def N32(x):
    return is_n(x, 32)


def N8(x):
    return is_n(x, 8)


def N1(x):
    return is_n(x, 1)


def B32(x):
    return is_b(x, 32)


def B20(x):
    return is_b(x, 20)


HEADER_SHAPE = [B32, B32, B20, B32, B32, B32, lambda x: is_b(x, 256), is_n, is_n, is_n, is_n, N32, is_b, B32,
                lambda x: is_b(x, 8), is_n, B32, N8, N8, B32, B32]
LEGACY_SHAPE = [N32, is_n, is_n, is_to, N32, is_b, N32, N32, N32]


def AL(x):
    return isinstance(x, list) and all(
        isinstance(y, list) and len(y) == 2 and B20(y[0]) and isinstance(y[1], list) and all(map(B32, y[1])) for y in x)


def BLOBS(x):
    return isinstance(x, list) and all(map(B32, x))


def AUTHS(x):
    return isinstance(x, list) and all(fit(y, [N32, B20, N8, N1, N32, N32]) for y in x)


TYPED_SHAPE = {1: [N8, N32, is_n, is_n, is_to, N32, is_b, AL, N32, N32, N32],
               2: [N8, N32, is_n, is_n, is_n, is_to, N32, is_b, AL, N32, N32, N32],
               3: [N8, N32, is_n, is_n, is_n, B20, N32, is_b, AL, N32, BLOBS, N32, N32, N32],
               4: [N8, N8, is_n, is_n, is_n, B20, N32, is_b, AL, AUTHS, N32, N32, N32]}


def shape(fi, body):
    """Raise Bad unless the decoded block has the fork's field types."""
    def want(ok, what):
        if not ok:
            raise Bad("shape:" + what)
    want(isinstance(body, list) and len(body) == (4 if fi >= SHANGHAI else 3), "block")
    spec = HEADER_SHAPE[:header_len(fi)]
    want(fit(body[0], spec), "header")
    want(isinstance(body[1], list), "txs")
    for t in body[1]:
        if isinstance(t, list):
            want(fit(t, LEGACY_SHAPE), "tx")
        else:
            want(fi >= BERLIN, "tx")
            shape_typed(t)
    want(isinstance(body[2], list) and all(fit(o, spec) for o in body[2]), "ommers")
    if fi >= SHANGHAI:
        want(isinstance(body[3], list) and all(fit(x, [N8, N8, B20, N32]) for x in body[3]), "withdrawals")


def shape_typed(t):
    try:
        f = R.dec(t[1:])
        ok = t[:1] and 1 <= t[0] <= 4 and R.enc(f) == t[1:] and fit(f, TYPED_SHAPE[t[0]])
    except Exception:
        ok = False
    if not ok:
        raise Bad("shape:tx")


# ------------------------------------------------------------------ headers
BOMB = {BYZANTIUM: 3000000, CONSTANTINOPLE: 5000000, ISTANBUL: 5000000, MUIR: 9000000, BERLIN: 9000000, LONDON: 9700000,
        ARROW: 10700000, GRAY: 11400000}


def difficulty(fi, number, ts, parent):
    pd, dt = i(parent[DIFF]), ts - i(parent[TS])
    q = pd // 2048
    if fi < HOMESTEAD:
        d = pd + (q if dt < 13 else -q)
    elif fi < BYZANTIUM:
        d = pd + q * max(1 - dt // 10, -99)
    else:
        d = pd + q * max((2 if parent[OMM] != EMPTY_OMMERS else 1) - dt // 9, -99)
    n = (number - BOMB.get(fi, 0)) // 100000 - 2
    if n >= 0:
        d += 2**n
    return max(d, 131072)


def base_fee(fi, parent, number, fork_block):
    if number == fork_block:
        return INITIAL_BASE_FEE
    gl, gu, bf = i(parent[GL]), i(parent[GU]), i(parent[BASEFEE])
    tgt = gl // 2
    if gu == tgt:
        return bf
    if gu > tgt:
        return bf + max(bf * (gu - tgt) // tgt // 8, 1)
    return bf - bf * (tgt - gu) // tgt // 8


def excess_blob(fi, parent):
    if len(parent) <= EXCESS:
        return 0
    e, u = i(parent[EXCESS]), i(parent[BLOBGAS])
    tgt = 131072 * (3 if fi < PRAGUE else 6)
    if e + u < tgt:
        return 0
    if fi >= OSAKA and 8192 * i(parent[BASEFEE]) > 131072 * E.blob_price(fi, e):
        return e + u * 3 // 9
    return e + u - tgt


class Rules:
    def __init__(self, fi, chain_id=1, fork_block=None):
        self.fi, self.chain_id, self.fork_block = fi, chain_id, fork_block


class Rec:
    """A block as the model knows it: raw, fields, hash, parent Rec, post world."""

    def __init__(self, body, parent, world, out=None):
        self.body, self.header, self.parent, self.world, self.out = body, body[0], parent, world, out
        self.hash = hash_header(body[0])
        self.raw = R.enc(body)
        self.number = i(self.header[NUM])
        self.depth = parent.depth + 1 if parent else 0

    def chain(self, limit=300):
        out, b = [], self
        while b is not None and len(out) < limit:
            out.append(b)
            b = b.parent
        return out          # most recent first

    def ancestor(self, number):
        b = self
        while b is not None and b.number > number:
            b = b.parent
        return b if b is not None and b.number == number else None


def need(ok, rule, skip):
    if not ok and rule not in skip:
        raise Bad(rule)


def check_header(rules, h, tip, skip=()):
    """Header against its parent on the chain ending at `tip` (model of the fork's header rules)."""
    fi = rules.fi
    need(len(h) == header_len(fi), "hdr:fields", ())
    num = i(h[NUM])
    need(num >= 1, "hdr:number", skip)
    if fi < PARIS:
        # proof-of-work headers are checked against the block of the previous height
        p = tip.ancestor(num - 1)
        need(p is not None, "hdr:number", ())
        p = p.header
    else:
        p = tip.header
    need(num == i(p[NUM]) + 1, "hdr:number", skip)
    need(i(h[GU]) <= i(h[GL]), "hdr:gas_used", skip)
    need(i(h[TS]) > i(p[TS]), "hdr:timestamp", skip)
    need(len(h[EXTRA]) <= 32, "hdr:extra", skip)
    need(h[PARENT] == hash_header(p), "hdr:parent", skip)
    gl, pgl = i(h[GL]), i(p[GL])
    if fi >= LONDON and num == rules.fork_block:
        pgl *= 2
    d = pgl // 1024
    need(gl < pgl + d and gl > pgl - d and gl >= 5000, "hdr:gas_limit", skip)
    if fi >= LONDON:
        need(i(h[BASEFEE]) == base_fee(fi, p, num, rules.fork_block), "hdr:base_fee", skip)
    if fi < PARIS:
        need(i(h[DIFF]) == difficulty(fi, num, i(h[TS]), p), "hdr:difficulty", skip)
        need(h[MIX] == seal(h), "hdr:seal", skip)
        need(i(pow_result(h[NONCE])) <= (1 << 256) // i(h[DIFF]), "hdr:pow_target", skip)
    else:
        need(i(h[DIFF]) == 0, "hdr:difficulty", skip)
        need(h[NONCE] == b"\0" * 8, "hdr:nonce", skip)
        need(h[OMM] == EMPTY_OMMERS, "hdr:ommers", skip)
    if fi == DAO and rules.fork_block <= num < rules.fork_block + 10:
        need(h[EXTRA] == b"dao-hard-fork", "hdr:dao_extra", skip)
    if fi >= CANCUN:
        need(i(h[EXCESS]) == excess_blob(fi, p), "hdr:excess", skip)


def check_ommers(rules, h, ommers, tip, skip=()):
    need(R.keccak(R.enc(ommers)) == h[OMM], "omm:hash", skip)
    if not ommers:
        return
    need(len(ommers) <= 2, "omm:count", skip)
    recent = tip.chain(7)
    hashes = {b.hash for b in recent}
    used = {hash_header(o) for b in recent for o in b.body[2]}
    oh = [hash_header(o) for o in ommers]
    need(len(set(oh)) == len(oh), "omm:duplicate", skip)
    num = i(h[NUM])
    for o, x in zip(ommers, oh):
        age = num - i(o[NUM])
        need(1 <= age <= 6, "omm:age", skip)
        try:
            check_header(rules, o, tip, ())
        except Bad as e:
            if "omm:header" not in skip and not ("omm:parent" in skip and e.rule == "hdr:parent"):
                raise Bad("omm:header") from e
        need(x not in hashes, "omm:ancestor", skip)
        need(x not in used, "omm:used", skip)
        need(o[PARENT] in hashes, "omm:parent", skip)
        need(o[PARENT] != h[PARENT], "omm:sibling", skip)


def environment(rules, h, tip):
    hashes = [b.hash for b in tip.chain(256)][::-1]
    fi = rules.fi
    return E.Block(coinbase=h[COINBASE], number=i(h[NUM]), time=i(h[TS]), gas_limit=i(h[GL]), difficulty=i(h[DIFF]),
                   base_fee=i(h[BASEFEE]) if fi >= LONDON else 0, prev_randao=h[MIX],
                   excess_blob=i(h[EXCESS]) if fi >= CANCUN else 0, chain_id=rules.chain_id, hashes=hashes)


def commitments(fi, h, w, out, txs, ommers, withdrawals):
    """Fill in the header fields that commit to the body and its effects."""
    h[SROOT] = w.root()
    h[TXROOT] = R.list_root([x if isinstance(x, bytes) else R.enc(x) for x in txs])
    h[RCROOT] = R.list_root([x if isinstance(x, bytes) else R.enc(x) for x in out.receipts])
    h[BLOOM] = bloom(out.logs)
    h[GU] = R.int_b(out.gas_used)
    h[OMM] = R.keccak(R.enc(ommers))
    if fi >= SHANGHAI:
        h[WROOT] = R.list_root([R.enc(x) for x in withdrawals])
    if fi >= CANCUN:
        h[BLOBGAS] = R.int_b(out.blob_gas)
    if fi >= PRAGUE:
        h[REQ] = requests_hash(out.requests)


def skeleton(rules, tip, coinbase, ts, gas_limit=None, extra=b"", randao=b"\0" * 32, beacon=b"\0" * 32, number=None):
    """Header of a child of `tip` with everything but the commitments filled in."""
    fi, p = rules.fi, tip.header
    num = tip.number + 1 if number is None else number
    n = R.int_b
    h = [tip.hash, EMPTY_OMMERS, coinbase, b"", b"", b"", b"", b"", n(num), n(gas_limit or i(p[GL])), b"", n(ts), extra,
         randao, b"\0" * 8]
    if fi == DAO and rules.fork_block <= num < rules.fork_block + 10:
        h[EXTRA] = b"dao-hard-fork"
    h[DIFF] = n(difficulty(fi, num, ts, p)) if fi < PARIS else b""
    if fi >= LONDON:
        h.append(n(base_fee(fi, p, num, rules.fork_block)))
    if fi >= SHANGHAI:
        h.append(b"")
    if fi >= CANCUN:
        h += [b"", n(excess_blob(fi, p)), beacon]
    if fi >= PRAGUE:
        h.append(b"")
    return h


def body_of(fi, h, txs, ommers, withdrawals):
    return [h, txs, ommers] + ([withdrawals] if fi >= SHANGHAI else [])


def validate(rules, raw, tip, skip=(), hook=None):
    """Full independent validation of a raw block as child of tip; -> Rec, raises Bad."""
    fi = rules.fi
    try:
        body = R.dec(raw)
        if R.enc(body) != raw:
            raise Bad("rlp")
    except Bad:
        raise
    except Exception:
        raise Bad("rlp") from None
    shape(fi, body)
    h, txs, ommers = body[:3]
    wd = body[3] if fi >= SHANGHAI else []
    if fi >= OSAKA:
        need(len(raw) <= 8388608, "rlp:size", skip)
    check_header(rules, h, tip, skip)
    if fi < PARIS:
        need(h[PARENT] == tip.hash, "hdr:parent", skip)
        check_ommers(rules, h, ommers, tip, skip)
    else:
        need(ommers == [], "omm:any", skip)
    w = tip.world.copy()
    blk = environment(rules, h, tip)
    out = run_body(fi, w, blk, h[PARENT], h[BEACON] if fi >= CANCUN else b"", txs, ommers, wd, skip, hook)
    want = list(h)
    commitments(fi, want, w, out, txs, ommers, wd)
    for k, (a, b) in enumerate(zip(h, want)):
        need(a == b, "commit:" + HEADER_FIELDS[k], skip)
    return Rec(body, tip, w, out)


def state_only(rules, h, tip, txs, ommers, wd, skip=(), hook=None, mark=None):
    """Execute a prepared header + body; returns (world, out) with the header completed and sealed."""
    fi = rules.fi
    w = tip.world.copy()
    blk = environment(rules, h, tip)
    out = run_body(fi, w, blk, h[PARENT], h[BEACON] if fi >= CANCUN else b"", txs, ommers, wd, skip, hook, mark)
    commitments(fi, h, w, out, txs, ommers, wd)
    if fi < PARIS:
        h[MIX] = seal(h)
    return w, out


def genesis(rules, world, number=0, gas_limit=8_000_000, ts=1000, diff=131072 * 4, base=1000, excess=0, hash_salt=b""):
    fi = rules.fi
    n = R.int_b
    # the header of a fork boundary parent only has the fields of the fork before; here the root block is of the
    # fork itself
    h = [R.keccak(b"root" + hash_salt), EMPTY_OMMERS, b"\0" * 20, world.root(), R.EMPTY_ROOT, R.EMPTY_ROOT, b"\0" * 256,
         n(diff) if fi < PARIS else b"", n(number), n(gas_limit), b"", n(ts), b"root", b"\0" * 32, b"\0" * 8]
    if fi >= LONDON:
        h.append(n(base))
    if fi >= SHANGHAI:
        h.append(R.EMPTY_ROOT)
    if fi >= CANCUN:
        h += [b"", n(excess), b"\0" * 32]
    if fi >= PRAGUE:
        h.append(requests_hash([]))
    return Rec(body_of(fi, h, [], [], []), None, world)
