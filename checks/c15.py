"""C15: a history of optimize() calls on one folder leaves exactly the samples the function produced."""

import collections
import os

from hypothesis import strategies as st

from vlib import proc, sim
from vlib.runner import Sub, expect

PROPERTY = "C15"
RULE = (
    "A case is a history of one to three optimize() calls into the same folder, each run with real worker processes; "
    "after each, the folder is read and compared with a model (a list of samples). Non-trivial: at least one call with "
    "two or more workers finished with two or more samples, or a call was refused or failed over an existing dataset."
)
ASSUMPTIONS = [
    "processes start with fork; local folders",
    "order is asserted when the work is neither reordered by file size nor weighted",
    "a call whose function produces no sample at all leaves no readable dataset and is not compared",
]
TIMEOUT = 60

fn_st = st.one_of(
    st.fixed_dictionaries({"kind": st.just("value")}),
    st.fixed_dictionaries({"kind": st.just("skip"), "mod": st.integers(2, 4)}),
    st.fixed_dictionaries({"kind": st.just("gen"), "mod": st.integers(1, 4)}),
    st.fixed_dictionaries({"kind": st.just("fail"), "at": st.integers(0, 20), "gen": st.booleans()}),
)
limit_st = st.one_of(
    st.fixed_dictionaries({"chunk_size": st.integers(1, 12)}),
    st.fixed_dictionaries({"chunk_bytes": st.one_of(st.integers(40, 600), st.sampled_from(["64MB", "1KB", "2kb"]))}),
)
call_st = st.fixed_dictionaries({
    "mode": st.sampled_from([None, "append", "append", "overwrite"]),
    "n": st.integers(1, 24),
    "inputs": st.sampled_from(["int", "str", "tuple", "dict", "files", "files", "files-outside"]),
    "fn": fn_st,
    "limit": limit_st,
    "workers": st.integers(1, 5),
    "batch": st.sampled_from([None, None, None, 1, 2, 3]),
    "uploaders": st.sampled_from([None, 1, 2, 3]),
    "downloaders": st.sampled_from([None, 1, 1, 3]),
    "reorder": st.booleans(),
    "big": st.sampled_from([0, 0, 1 << 21]),
    "weights": st.sampled_from([False, False, False, True]),
    "pad": st.integers(0, 60),
})


@st.composite
def cases(draw):
    calls = draw(st.lists(call_st, min_size=1, max_size=3))
    if draw(st.integers(0, 3)):  # mostly one limit for the whole history
        for c in calls[1:]:
            c["limit"] = calls[0]["limit"]
    return {"compression": draw(st.sampled_from([None, None, "zstd"])), "calls": calls,
            "read_workers": draw(st.integers(0, 3))}


case_st = cases()


def _key(item):
    """The integer every generated input carries."""
    if isinstance(item, dict):
        return item["k"] if "k" in item else _key(item["path"])
    if isinstance(item, (tuple, list)):
        return _key(item[0])
    if isinstance(item, str) and "/" in item:
        with open(item) as f:
            return int(f.read().split()[0])
    return int(item)


def _sample(tag, key, j, pad):
    return {"id": f"{tag}:{key}:{j}", "n": key * 10 + j, "pad": b"p" * ((pad * (key + j)) % 61)}


def _failing(item, call):
    return call["fn"]["kind"] == "fail" and _key(item) == call["fn"]["at"] % call["n"]


def _outputs(tag, items, call):
    """What the function produces for one input (a batch of items)."""
    kind, out = call["fn"]["kind"], []
    for it in items:
        k = _key(it)
        if kind == "skip":
            if k % call["fn"]["mod"] == 0:
                continue
            out.append(_sample(tag, k, 0, call["pad"]))
        elif kind == "gen":
            out.extend(_sample(tag, k, j, call["pad"]) for j in range(k % (call["fn"]["mod"] + 1)))
        else:
            out.append(_sample(tag, k, 0, call["pad"]))
    return out


def _make_fn(tag, call, batched, inputs):
    outside = call["inputs"] == "files-outside"

    def each(x):
        items = list(x) if batched else [x]
        if any(_failing(i, call) for i in items):
            raise ValueError("planned failure")
        for i in items:
            if outside and open(i[1]).read() != "shared":
                raise RuntimeError("the second path doesn't lead to the file given")
        return _outputs(tag, items, call)

    if call["fn"]["kind"] == "gen" or batched or call["fn"].get("gen"):
        def fn(x):
            yield from each(x)
    else:
        def fn(x):
            out = each(x)
            return out[0] if out else None
    return fn


def _inputs(case_dir, c, call):
    n, kind = call["n"], call["inputs"]
    d = os.path.join(case_dir, f"in{c}")
    if kind.startswith("files"):
        os.makedirs(d)
        os.makedirs(os.path.join(case_dir, "outside"), exist_ok=True)
        out = []
        for k in range(n):
            p = os.path.join(d, f"f{k}")
            with open(p, "w") as f:
                # every other file is much slower to fetch
                f.write(f"{k} " + "x" * ((k * 37) % 90 if k % 2 else call["big"]))
            if kind == "files":
                out.append([p, {"path": p}, (p, k)][n % 3])
            else:
                q = os.path.join(case_dir, "outside", f"s{k % 3}")
                with open(q, "w") as f:
                    f.write("shared")
                out.append((p, q))
        return out, d
    if kind == "int":
        return list(range(n)), None
    if kind == "str":
        return [str(k) for k in range(n)], None
    if kind == "tuple":
        return [(k, "x") for k in range(n)], None
    return [{"k": k, "v": [k]} for k in range(n)], None


def _snapshot(root):
    out = {}
    for dp, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(dp, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
    return out


def _read(path, workers=0):
    from litdata import StreamingDataset

    ds = StreamingDataset(path)
    direct = [ds[i] for i in range(len(ds))]
    if not workers:
        return direct, None
    d = StreamingDataset(path)
    d.set_num_workers(workers)
    return direct, [x for ws in sim.iterate_workers(d, workers) for x in ws]


def _ids(samples):
    return [s["id"] for s in samples]


def run(case, rec):
    from litdata import optimize

    out = os.path.join(rec.dir, "out")
    os.makedirs(out)
    with open(os.path.join(out, "notes.txt"), "w") as f:
        f.write("mine")
    model, marks = [], []  # marks: (start, end) of the parts whose order isn't promised
    exists, limit = False, None
    for c, call in enumerate(case["calls"]):
        inputs, folder = _inputs(rec.dir, c, call)
        before = _snapshot(os.path.join(rec.dir, f"in{c}")) if folder else {}
        batched = isinstance(call["batch"], int) and call["batch"] > 1
        units = [inputs[p: p + call["batch"]] for p in range(0, len(inputs), call["batch"])] if batched else [
            [i] for i in inputs]
        tag = f"c{c}"
        fails = any(_failing(i, call) for i in inputs)
        weights = [1 + (u * 7) % 5 for u in range(len(units))] if call["weights"] else None
        kw = dict(fn=_make_fn(tag, call, batched, inputs), inputs=inputs, output_dir=out, input_dir=folder,
                  num_workers=call["workers"], mode=call["mode"], compression=case["compression"],
                  num_uploaders=call["uploaders"], num_downloaders=call["downloaders"], reorder_files=call["reorder"],
                  batch_size=call["batch"], weights=weights, start_method="fork", **call["limit"])
        produced = [s for u in units for s in _outputs(tag, u, call)]
        refused = call["mode"] is None and exists
        # a dataset has one chunk limit: appending with another may be refused
        other = call["mode"] == "append" and exists and call["limit"] != limit
        res = proc.run(lambda: optimize(**kw), TIMEOUT, proc.dirs(os.path.join(rec.dir, f"scratch{c}")))
        where = f"call {c} ({ {k: v for k, v in call.items()} })"
        expect(res.kind != "hang", f"{where}: optimize() never ended")
        if folder:
            now = _snapshot(folder)
            expect(now == before, f"{where}: the input files changed: {sorted(before)} became {sorted(now)}")
            shared = os.path.join(rec.dir, "outside")
            if os.path.isdir(shared):
                lost = [k for k in range(min(3, call["n"])) if call["inputs"] == "files-outside"
                        and not os.path.exists(os.path.join(shared, f"s{k}"))]
                expect(not lost, f"{where}: files the inputs point to, outside of input_dir, were deleted: {lost}")
        with open(os.path.join(out, "notes.txt")) as f:
            expect(f.read() == "mine", "another file of the output folder was changed")
        if other and res.kind == "error":
            refused = True
        if refused or fails:
            expect(res.kind == "error", f"{where}: should have raised, got {res.kind}")
            if call["mode"] == "overwrite" or (not exists and call["mode"] is None):
                exists, model, marks = False, [], []
                expect(not os.path.exists(os.path.join(out, "index.json")),
                       f"{where}: a failed call left an index behind")
        else:
            expect(res.kind == "ok", f"{where} failed: {res}")
            if call["mode"] != "append":
                model, marks = [], []
            ordered = weights is None and (folder is None or not call["reorder"])
            if not ordered:
                marks.append((len(model), len(model) + len(produced)))
            if call["mode"] != "append" or not exists:
                limit = call["limit"]
            model = model + produced
            exists = True
            if not produced and not model:
                break
            if call["workers"] > 1 and len(produced) > 1:
                rec.hit()
        if not exists or not model:
            continue
        if refused or fails:
            rec.hit()
        got, streamed = _read(out, case["read_workers"])
        expect(collections.Counter(_ids(got)) == collections.Counter(_ids(model)),
               f"{where}: the dataset holds {_ids(got)}, expected {_ids(model)}")
        free = set(i for a, b in marks for i in range(a, b))
        for a, b in marks:
            expect(sorted(_ids(got)[a:b]) == sorted(_ids(model)[a:b]), f"{where}: appended samples moved")
        wrong = [i for i in range(len(model)) if i not in free and got[i] != model[i]]
        expect(not wrong, f"{where}: the samples are {_ids(got)}, in order: {_ids(model)}")
        by_id = {s["id"]: s for s in model}
        expect(all(by_id[s["id"]] == s for s in got), f"{where}: a sample was altered")
        if streamed is not None:
            expect(sorted(_ids(streamed)) == sorted(_ids(model)), f"{where}: streaming delivers {_ids(streamed)}")
        rec.label(f"mode={call['mode']}", "fail" if fails else "refused" if refused else call["fn"]["kind"],
                  call["inputs"], "batched" if batched else "single")


SUBS = [Sub("history", case_st, run, quick=320, thorough=8000, hang_s=300)]
