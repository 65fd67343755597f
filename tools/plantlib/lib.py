"""Helpers for demonstrations: run the transition tool in this process on JSON input."""
import contextlib
import io
import json
import logging
import os
import sys

logging.disable(logging.CRITICAL)
KEY = "0x45a915e4d060149eb4365960e6a7a45f334393093061116b197e3240065ff2d8"
SENDER = "0xa94f5374fce5edbc8e2a8697c15331677e6ebf0b"
MINER = "0x2adc25665018aa1fe0e6bc666dac8fc2697ff9ba"


def t8n(fork, alloc, txs, env=None, extra=(), chainid=1, reward="-1"):
    from ethereum_spec_tools import evm_tools
    e = {
        "currentCoinbase": MINER, "currentGasLimit": "0x1c9c380", "currentNumber": "0x1", "currentTimestamp": "0x3e8",
        "currentDifficulty": "0x20000", "currentRandom": "0x0", "currentBaseFee": "0x7", "currentExcessBlobGas": "0x0",
        "parentBeaconBlockRoot": "0x" + "00" * 32, "parentHash": "0x" + "11" * 32, "blockHashes": {"0x0": "0x" + "11" * 32},
        "withdrawals": [], "ommers": [],
    }
    e.update(env or {})
    inp = io.StringIO(json.dumps({"env": e, "alloc": alloc, "txs": txs}))
    out = io.StringIO()
    rc = evm_tools.main(
        ["t8n", "--input.env=stdin", "--input.alloc=stdin", "--input.txs=stdin", "--output.result=stdout",
         "--output.body=stdout", "--output.alloc=stdout", f"--state.fork={fork}", f"--state.chainid={chainid}",
         f"--state.reward={reward}", *extra], out_file=out, in_file=inp)
    assert rc == 0, rc
    return json.loads(out.getvalue())


def acc(balance=10**18, nonce=0, code="", storage=None):
    return {"balance": hex(balance), "nonce": hex(nonce), "code": code or "0x", "storage": storage or {}}


def tx(nonce=0, to="0x" + "cc" * 20, gas=1_000_000, price=10, value=0, data="0x", **more):
    t = {"nonce": hex(nonce), "to": to, "gas": hex(gas), "gasPrice": hex(price), "value": hex(value), "input": data,
         "v": "0x0", "r": "0x0", "s": "0x0", "secretKey": KEY}
    t.update(more)
    return t


def slot(out, addr, k):
    st = out["alloc"].get(addr, {}).get("storage", {})
    for a, v in st.items():
        if int(a, 16) == k:
            return int(v, 16)
    return 0
