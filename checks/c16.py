"""C16: optimize(use_checkpoint=True), interrupted anywhere and started again, ends with the same dataset."""

import json
import os
import signal
import threading
import time

from hypothesis import strategies as st

from vlib import proc
from vlib.runner import Sub, expect

PROPERTY = "C16"
RULE = (
    "A case is an optimize() call, the interruptions of its first attempts (an exception, the death of a worker, the death "
    "of every process, at a given input or after a given time), each attempt in real processes. Non-trivial: an attempt was "
    "interrupted after a checkpoint had been saved."
)
ASSUMPTIONS = [
    "processes start with fork; local folders; what a killed attempt left running is killed too",
    "an attempt is not interrupted between the publication of the finished index and the removal of the checkpoints",
]
TIMEOUT = 25

fault_st = st.one_of(
    st.fixed_dictionaries({"kind": st.sampled_from(["raise", "raise", "exit", "kill"]), "at": st.integers(0, 23),
                           "wait_ms": st.sampled_from([0, 0, 5, 40])}),
    st.fixed_dictionaries({"kind": st.just("timer"), "after_ms": st.integers(1, 400)}),
)


@st.composite
def cases(draw):
    return {
        "append": draw(st.booleans()), "n": draw(st.integers(2, 24)), "workers": draw(st.integers(1, 3)),
        "inputs": draw(st.sampled_from(["int", "str", "tuple", "dict"])),
        "skip": draw(st.sampled_from([0, 0, 2, 3, -3])),
        "chunk": draw(st.integers(1, 6)), "bytes": draw(st.booleans()), "uploaders": draw(st.sampled_from([None, 1, 2, 3])),
        "compression": draw(st.sampled_from([None, "zstd"])), "weights": draw(st.booleans()),
        "faults": draw(st.lists(fault_st, min_size=1, max_size=3)), "other": draw(st.booleans()),
        "pause_ms": draw(st.sampled_from([0, 0, 2, 10])),
    }


def _key(x):
    return x["k"] if isinstance(x, dict) else int(x[0]) if isinstance(x, tuple) else int(x)


def run(case, rec):
    from litdata import StreamingDataset, optimize

    out, log = os.path.join(rec.dir, "out"), os.path.join(rec.dir, "log")
    n = case["n"]
    mk = {"int": lambda k: k, "str": str, "tuple": lambda k: (k, "x"), "dict": lambda k: {"k": k, "p": (1, 2)}}[case["inputs"]]
    inputs = [mk(k) for k in range(n)]
    skip = case["skip"]
    skipped = {k for k in range(n) if (skip > 0 and k % skip == 0) or (skip < 0 and k < -skip)}
    if len(skipped) == n:
        skipped = set()
    pad = b"p" * 20
    limit = {"chunk_bytes": 60 * case["chunk"]} if case["bytes"] else {"chunk_size": case["chunk"]}
    weights = [1 + k % 3 for k in range(n)] if case["weights"] else None
    kw = dict(output_dir=out, num_workers=case["workers"], compression=case["compression"], num_uploaders=case["uploaders"],
              start_method="fork", **limit)
    expected = []
    if case["append"]:
        base = proc.run(lambda: optimize(fn=lambda x: {"k": x, "v": pad}, inputs=[1000, 1001, 1002], **kw), TIMEOUT,
                        proc.dirs(os.path.join(rec.dir, "base")))
        expect(base.kind == "ok", f"creating the dataset to append to: {base}")
        expected = [1000, 1001, 1002]
    expected = expected + [k for k in range(n) if k not in skipped]
    ck = os.path.join(out, ".checkpoints")
    mode = "append" if case["append"] else None

    def attempt(fault, inputs=inputs, workers=case["workers"]):
        def fn(x):
            k = _key(x)
            with open(log, "a") as f:
                f.write(f"{k}\n")
            if case["pause_ms"]:
                time.sleep(case["pause_ms"] / 1000)
            if fault and fault["kind"] != "timer" and k == fault["at"] % n:
                time.sleep(fault["wait_ms"] / 1000)
                if fault["kind"] == "raise":
                    raise ValueError("planned failure")
                if fault["kind"] == "exit":
                    os._exit(7)
                os.killpg(0, signal.SIGKILL)
            return None if k in skipped else {"k": k, "v": pad}

        def call():
            if fault and fault["kind"] == "timer":
                def later():
                    time.sleep(fault["after_ms"] / 1000)
                    os.killpg(0, signal.SIGKILL)

                threading.Thread(target=later, daemon=True).start()
            optimize(fn=fn, inputs=inputs, mode=mode, use_checkpoint=True, weights=weights, **dict(kw, num_workers=workers))

        with open(log, "w"):
            pass
        res = proc.run(call, TIMEOUT, proc.dirs(os.path.join(rec.dir, "scratch")))
        with open(log) as f:
            return res, [int(i) for i in f.read().split()]

    done = False
    for a, fault in enumerate(case["faults"] + [None]):
        where = f"attempt {a} ({fault}) of {case}"
        saved = 0
        if os.path.isdir(ck):
            for f in os.listdir(ck):
                if f.startswith("checkpoint-"):
                    try:
                        with open(os.path.join(ck, f)) as h:
                            saved += sum(c["chunk_size"] for c in json.load(h)["chunks"])
                    except (ValueError, KeyError, TypeError):
                        pass
            if saved:
                rec.hit()
            if case["other"] and os.path.exists(os.path.join(ck, "config.json")):
                res, ran = attempt(None, inputs=[mk(k + 1) for k in range(n)])
                expect(res.kind == "error" and not ran, f"{where}: other inputs than those of the checkpoint: {res}")
                res, ran = attempt(None, workers=case["workers"] + 1)
                expect(res.kind == "error" and not ran, f"{where}: another number of workers: {res}")
        res, ran = attempt(fault)
        fired = fault is not None and (fault["kind"] == "timer" or fault["at"] % n in ran)
        expect(len(ran) == len(set(ran)), f"{where}: an input was processed twice in one attempt: {ran}")
        expect(len(ran) <= n - saved, f"{where}: {len(ran)} of {n} inputs processed though {saved} samples were saved")
        if not fired:
            expect(res.kind == "ok", f"{where} should have finished: {res}")
            done = True
            break
        if fault["kind"] == "timer":
            if res.kind == "ok":
                done = True
                break
            expect(res.kind == "died", f"{where}: {res}")
        elif fault["kind"] == "kill":
            expect(res.kind == "died", f"{where}: {res}")
        else:
            expect(res.kind == "error", f"{where}: the failure wasn't reported: {res}")
        if case["append"]:
            ds = StreamingDataset(out)
            old = [ds[i]["k"] for i in range(len(ds))]
            if not (fault["kind"] == "timer" and len(old) > 3):
                expect(old == [1000, 1001, 1002], f"{where}: the dataset appended to now holds {old}")
            elif len(old) > 3:
                done = True  # killed after the publication of the index
                break
        elif fault["kind"] == "timer" and os.path.exists(os.path.join(out, "index.json")):
            done = True
            break
        else:
            expect(not os.path.exists(os.path.join(out, "index.json")), f"{where}: interrupted, and an index was published")
        rec.label(f"fault={fault['kind']}")
    assert done
    ds = StreamingDataset(out)
    got = [ds[i] for i in range(len(ds))]
    keys = [g["k"] for g in got]
    expect(sorted(keys) == sorted(expected), f"{case}: the dataset holds {keys}, expected {expected}")
    expect(weights is not None or keys == expected, f"{case}: the samples are {keys}, in order: {expected}")
    expect(all(g["v"] == pad for g in got), f"{case}: altered samples")
    rec.label("append" if case["append"] else "fresh", f"attempts={a + 1}")


SUBS = [Sub("resume", cases(), run, quick=240, thorough=8000, hang_s=300)]
