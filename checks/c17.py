"""C17: map() runs the function once per input and delivers every file it wrote, or raises."""

import collections
import json
import os

from hypothesis import strategies as st

from vlib import fakes3, proc
from vlib.runner import Sub, expect

PROPERTY = "C17"
RULE = (
    "A case is one map() call run with real worker processes into a local folder or an object store, with or without a "
    "planned failure (of the function, of a worker, of an upload, of a download). Non-trivial: several files were written by "
    "two or more workers, or a planned failure happened."
)
ASSUMPTIONS = [
    "processes start with fork; the object store stands in for S3 behind the boto3 client",
    "no two inputs write the same output name; inputs don't share files of the input_dir",
]
TIMEOUT = 40

name_part = st.text("ab.-_ é#?%;&=+", min_size=1, max_size=6).filter(lambda s: s.strip(" .") != "" and s not in (".", ".."))
names_st = st.lists(
    st.one_of(
        name_part,
        st.sampled_from(["x.checkpoints", ".checkpoints", "chunk-0-0.bin", "index.json", ".hidden", "a" * 60, "x.tmp",
                         "checkpoint-0-" + "a" * 32 + ".json"]),
        st.tuples(name_part, name_part).map("/".join),
        st.tuples(st.sampled_from([".checkpoints", "d.bin", "sub"]), name_part).map("/".join),
        st.tuples(name_part, name_part, name_part).map("/".join),
    ), min_size=0, max_size=3)

case_st = st.fixed_dictionaries({
    "n": st.integers(1, 16), "inputs": st.sampled_from(["int", "tuple", "files", "files", "files-url"]),
    "names": st.lists(names_st, min_size=1, max_size=5),
    "workers": st.integers(1, 4), "batch": st.sampled_from([None, None, 1, 2, 3]),
    "weights": st.booleans(), "reorder": st.booleans(),
    "uploaders": st.sampled_from([None, 1, 2, 3]), "downloaders": st.sampled_from([None, 1, 3]),
    "out": st.sampled_from(["local", "local", "s3", "dotted"]),
    "existing": st.booleans(), "refuse": st.booleans(), "callable": st.booleans(),
    "fault": st.one_of(
        st.none(), st.none(), st.none(),
        st.fixed_dictionaries({"kind": st.sampled_from(["raise", "exit"]), "at": st.integers(0, 15)}),
        st.fixed_dictionaries({"kind": st.sampled_from(["upload", "download"]), "at": st.integers(0, 15),
                               "after": st.sampled_from([0, 0, 2])}),
    ),
})


def _content(k, name):
    return (f"{k}|{name}|" * (1 + k % 3)).encode() if (k + len(name)) % 5 else b""


def _outputs(k, names):
    """Relative path -> content of what the function writes for input k."""
    out = {}
    for name in names[k % len(names)]:
        # a folder of its own for each input in half of the cases; otherwise the key is part of the name
        rel = f"{name}.{k}" if k % 2 else f"k{k}/{name}"
        out[rel] = _content(k, name)
    # a path can't be both a file and a folder
    for rel in sorted(out, key=len, reverse=True):
        if any(o != rel and o.startswith(rel + "/") for o in out):
            del out[rel]
    return out


def run(case, rec):
    from litdata import map as ld_map
    from litdata.processing import data_processor
    from litdata.streaming.resolver import Dir

    n, names, fault = case["n"], case["names"], case["fault"]
    ind = os.path.join(rec.dir, "in")
    log = os.path.join(rec.dir, "log")
    store = fakes3.FakeS3(os.path.join(rec.dir, "s3"))
    os.makedirs(os.path.join(store.root, "b"))
    inputs, input_dir = list(range(n)), None
    if case["inputs"] == "tuple":
        inputs = [(k, "x", [k]) for k in range(n)]
    if case["inputs"].startswith("files"):
        os.makedirs(ind)
        inputs = []
        for k in range(n):
            p = os.path.join(ind, f"f{k}")
            with open(p, "w") as f:
                f.write(f"{k} in")
            inputs.append((p, k))
        input_dir = ind
        if case["inputs"] == "files-url":
            for k in range(n):
                store.put("b", f"in/f{k}", f"{k} in".encode())
            input_dir = Dir(path=ind, url="s3://b/in")
    batched = isinstance(case["batch"], int) and case["batch"] > 1
    units = [inputs[p: p + case["batch"]] for p in range(0, n, case["batch"])] if batched else [[i] for i in inputs]
    weights = [1 + (u * 5) % 4 for u in range(len(units))] if case["weights"] else None
    expected = {}
    for k in range(n):
        expected.update(_outputs(k, names))

    # the destination, with what it already holds
    folder = {"local": "out", "dotted": "my.checkpoints/out", "s3": "out"}[case["out"]]
    local = os.path.join(rec.dir, folder)
    remote = case["out"] == "s3"
    before = {"keep/me.txt": b"mine", "keep.txt": b"too"} if case["existing"] else {}
    neighbours = {"out2/x": b"n", "out-old/y": b"m"}
    for rel, data in before.items():
        if remote:
            store.put("b", f"out/{rel}", data)
        else:
            os.makedirs(os.path.dirname(os.path.join(local, rel)), exist_ok=True)
            with open(os.path.join(local, rel), "wb") as f:
                f.write(data)
    for rel, data in neighbours.items():
        store.put("b", rel, data)
    if not remote:
        os.makedirs(local, exist_ok=True)

    # the plan of failures
    kind = fault and fault["kind"]
    if kind == "upload" and (not remote or not expected):
        kind = None
    if kind == "download" and case["inputs"] != "files-url":
        kind = None
    at = fault["at"] % n if kind else None
    if kind == "upload":
        key = sorted(expected)[fault["at"] % len(expected)]
        store.faults = [{"op": "upload", "match": f"out/{key}"}]
    elif kind == "download":
        store.faults = [{"op": "download", "match": f"in/f{at}", "after": fault["after"]}]

    def work(x, output_dir, is_last):
        items = list(x) if batched else [x]
        for it in items:
            if case["inputs"].startswith("files"):
                with open(it[0]) as f:
                    k = int(f.read().split()[0])
                if k != it[1]:
                    raise RuntimeError("another file than the one given")
            else:
                k = it[0] if isinstance(it, tuple) else it
            with open(log, "a") as f:
                f.write(json.dumps([k, os.environ.get("DATA_OPTIMIZER_GLOBAL_RANK"), bool(is_last)]) + "\n")
            if kind == "raise" and k == at:
                raise ValueError("planned failure")
            if kind == "exit" and k == at:
                os._exit(9)
            for rel, data in _outputs(k, names).items():
                p = os.path.join(output_dir, rel)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(data)

    if case["callable"]:
        class Fn:
            def __call__(self, x, output_dir, is_last):
                return work(x, output_dir, is_last)

        fn = Fn()
    else:
        def fn(x, output_dir, is_last):
            return work(x, output_dir, is_last)

    def call():
        # waits for 25 GB to be free on the disk when files are fetched
        data_processor._wait_for_disk_usage_higher_than_threshold = lambda *a, **k: None
        with fakes3.installed(store):
            ld_map(fn=fn, inputs=inputs, output_dir="s3://b/out" if remote else local, input_dir=input_dir, weights=weights,
                   num_workers=case["workers"], num_uploaders=case["uploaders"], num_downloaders=case["downloaders"],
                   reorder_files=case["reorder"], batch_size=case["batch"], error_when_not_empty=case["refuse"],
                   start_method="fork")

    if case["out"] == "dotted":
        open(log, "w").close()
    res = proc.run(call, TIMEOUT, proc.dirs(os.path.join(rec.dir, "scratch")))
    where = f"{case}"
    expect(res.kind != "hang", f"{where}: map() never ended")

    def delivered():
        root = local
        if remote:
            root = os.path.join(rec.dir, "export")
            os.makedirs(root, exist_ok=True)
            store.export("b", "out", root)
        out = {}
        for dp, _, fs in os.walk(root):
            for f in fs:
                p = os.path.join(dp, f)
                with open(p, "rb") as h:
                    out[os.path.relpath(p, root)] = h.read()
        return out

    got = delivered()
    ran = []
    if os.path.exists(log):
        with open(log) as f:
            ran = [json.loads(line) for line in f]
    lost = {r: got.get(r) for r, d in before.items() if got.get(r) != d}
    expect(not lost, f"{where}: files of the output folder were changed or deleted: {lost}")
    if case["inputs"].startswith("files"):
        for k in range(n):
            p = os.path.join(ind, f"f{k}")
            expect(os.path.exists(p) and open(p).read() == f"{k} in", f"{where}: the input file {k} was changed or deleted")
    snap = store.snapshot()
    bad = [r for r, d in neighbours.items() if snap.get(("b", r)) != d]
    expect(not bad, f"{where}: objects outside of the output folder were changed: {bad}")
    if case["refuse"] and before:
        expect(res.kind == "error" and not ran, f"{where}: the folder wasn't empty: {res}")
        expect(got == before, f"{where}: a refused call wrote files")
        return
    extra = [r for r in got if r not in before and r not in expected]
    expect(not extra, f"{where}: files nobody wrote: {extra}")
    wrong = [r for r in got if r in expected and got[r] != expected[r]]
    if kind is None:
        expect(not wrong, f"{where}: files with another content: {wrong}")
    counts = collections.Counter(k for k, _, _ in ran)
    expect(all(c == 1 for c in counts.values()), f"{where}: inputs processed more than once: {counts}")
    if kind is not None:
        expect(res.kind == "error", f"{where}: the failure wasn't reported: {res}")
        rec.hit()
        rec.label(f"fault={kind}")
        return
    expect(res.kind == "ok", f"{where}: {res}")
    expect(sorted(counts) == list(range(n)), f"{where}: processed {sorted(counts)} of {n} inputs")
    missing = [r for r in expected if r not in got]
    expect(not missing, f"{where}: files that weren't delivered: {missing}")
    by = collections.OrderedDict()
    for k, rank, last in ran:
        by.setdefault(rank, []).append((k, last))
    expect(set(by) <= {str(w) for w in range(case["workers"])}, f"{where}: the inputs were processed by the ranks {list(by)}")
    for rank, seen in by.items():
        size = case["batch"] if batched else 1
        flags = [last for _, last in seen]
        # the last unit of a worker, and only it
        unit_of = {}
        for u, unit in enumerate(units):
            for it in unit:
                unit_of[it[1] if case["inputs"].startswith("files") else it[0] if isinstance(it, tuple) else it] = u
        final = unit_of[seen[-1][0]]
        want = [unit_of[k] == final for k, _ in seen]
        expect(flags == want, f"{where}: is_last was {flags} for the inputs {[k for k, _ in seen]} of worker {rank} ({size})")
    rec.hit(len(by) > 1 and len(expected) > 1)
    rec.label(case["out"], case["inputs"], "batched" if batched else "single")


SUBS = [Sub("map", case_st, run, quick=800, thorough=12000, hang_s=200)]
