"""Shared stand-ins and builders: no PyPI query, short polling sleeps, simulated ranks and workers, dataset builders."""

import contextlib
import copy
import os
import threading

_installed = False


class _W:
    """Stand-in for torch's WorkerInfo."""

    def __init__(self, id, num_workers):
        self.id, self.num_workers, self.seed, self.dataset = id, num_workers, 0, None


def install():
    """Replace waits by short ones and the version query by nothing. Behaviour under test is otherwise untouched."""
    global _installed
    if _installed:
        return
    _installed = True
    import importlib

    def patch(modname, attr, value):
        try:
            mod = importlib.import_module(modname)
        except ImportError:
            return
        if hasattr(mod, attr):
            setattr(mod, attr, value)

    patch("litdata.streaming.dataset", "_check_version_and_prompt_upgrade", lambda *a, **k: None)
    patch("litdata.processing.functions", "_check_version_and_prompt_upgrade", lambda *a, **k: None)

    import time as _time

    class FastTime:
        def __getattr__(self, name):
            return getattr(_time, name)

        @staticmethod
        def sleep(s):
            _time.sleep(min(s, 0.0005))

    patch("litdata.utilities.dataset_utilities", "time", FastTime())
    fast_sleep = lambda s: _time.sleep(min(s, 0.002))  # noqa: E731
    patch("litdata.streaming.item_loader", "sleep", fast_sleep)
    patch("litdata.streaming.writer", "sleep", fast_sleep)

    try:
        reader = importlib.import_module("litdata.streaming.reader")
        orig = reader._get_from_queue

        def _get_from_queue(queue, timeout=0.1):
            return orig(queue, timeout=0.004 if timeout <= 0.2 else 0.05)

        reader._get_from_queue = _get_from_queue
    except (ImportError, AttributeError):
        pass
    import builtins

    import torch  # noqa: F401

    torch.set_num_threads(1)
    os.environ.setdefault("PYTHONWARNINGS", "ignore")
    _ = builtins


@contextlib.contextmanager
def env(**kw):
    old = {k: os.environ.get(k) for k in kw}
    try:
        for k, v in kw.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = str(v)
        yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


@contextlib.contextmanager
def rank_env(world=1, rank=0, nodes=1):
    """The process is rank `rank` of `world`, on `nodes` nodes (read by litdata from these variables)."""
    with env(WORLD_SIZE=world, GLOBAL_RANK=rank, NNODES=nodes):
        yield


@contextlib.contextmanager
def worker_env(worker=0, num_workers=1, inside=True):
    """The code runs inside data-loader worker `worker` of `num_workers`."""
    from torch.utils.data._utils import worker as w

    if not inside:
        yield
        return
    old = w._worker_info
    w._worker_info = _W(worker, num_workers)
    try:
        yield
    finally:
        w._worker_info = old


def quick_force_download(seconds=1.0):
    """A chunk deleted by another reader is asked for again after this time instead of after 30 s."""
    import litdata.streaming.item_loader as il

    if hasattr(il, "_FORCE_DOWNLOAD_TIME"):
        il._FORCE_DOWNLOAD_TIME = seconds


def quiet():
    return contextlib.redirect_stdout(open(os.devnull, "w"))


def write_dataset(path, items, chunk_size=None, chunk_bytes=None, compression=None, encryption=None, item_loader=None,
                  serializers=None):
    """Write items with the Cache API (one writer), the format optimize() produces."""
    from litdata.streaming import Cache

    os.makedirs(path, exist_ok=True)
    cache = Cache(path, chunk_size=chunk_size, chunk_bytes=chunk_bytes, compression=compression,
                  encryption=encryption, item_loader=item_loader, serializers=serializers)
    for i, it in enumerate(items):
        cache[i] = it
    cache.done()
    cache.merge()
    return cache


def write_chunks(path, sizes, make=lambda i: i, compression=None, encryption=None, item_loader=None):
    """Write a dataset whose chunks have exactly the given sizes (one append-style writer per distinct layout).

    Chunks of a size chosen per chunk are what a dataset merged from several workers looks like: one writer per chunk,
    each of its own rank, merged into one index in order.
    """
    import json

    from litdata.streaming.cache import Cache

    os.makedirs(path, exist_ok=True)
    chunks, config, n = [], None, 0
    for c, size in enumerate(sizes):
        sub = os.path.join(path, f"w{c}")
        with env(DATA_OPTIMIZER_GLOBAL_RANK=None):
            cache = Cache(sub, chunk_size=max(size, 1), compression=compression, encryption=encryption,
                          item_loader=item_loader)
        for i in range(size):
            cache[i] = make(n + i)
        cache.done()
        cache.merge()
        n += size
        with open(os.path.join(sub, "index.json")) as f:
            data = json.load(f)
        for k, ch in enumerate(data["chunks"]):
            old = ch["filename"]
            new = old.replace("chunk-0-", f"chunk-{c}-", 1)
            os.rename(os.path.join(sub, old), os.path.join(path, new))
            ch["filename"] = new
            chunks.append(ch)
        config = data["config"]
        os.remove(os.path.join(sub, "index.json"))
        for leftover in os.listdir(sub):
            os.remove(os.path.join(sub, leftover))
        os.rmdir(sub)
    config["chunk_size"] = max(sizes)
    with open(os.path.join(path, "index.json"), "w") as f:
        json.dump({"chunks": chunks, "config": config, "updated_at": "1"}, f, sort_keys=True)
    return n


def write_int_chunks(path, sizes, base=0):
    """Fast writer of a dataset of the integers base..base+n-1 with the given chunk sizes, in the documented layout.

    Each item is a python int: one leaf, format 'int' (8 bytes), preceded by its uint32 size.
    """
    import json

    import numpy as np

    os.makedirs(path, exist_ok=True)
    tmpl = _int_template()
    chunks, n = [], 0
    for c, size in enumerate(sizes):
        head = np.uint32(8).tobytes()
        items = [head + np.int64(base + n + i).tobytes() for i in range(size)]
        offs = np.array([0] + [len(b) for b in items]).cumsum().astype(np.uint32)
        offs += 4 + 4 * (size + 1)
        data = np.uint32(size).tobytes() + offs.tobytes() + b"".join(items)
        name = f"chunk-0-{c}.bin"
        with open(os.path.join(path, name), "wb") as f:
            f.write(data)
        chunks.append({"chunk_bytes": len(data), "chunk_size": size, "dim": None, "filename": name})
        n += size
    cfg = copy.deepcopy(tmpl)
    cfg["chunk_size"] = max(sizes)
    with open(os.path.join(path, "index.json"), "w") as f:
        json.dump({"chunks": chunks, "config": cfg, "updated_at": "1"}, f, sort_keys=True)
    return n


_tmpl = None


def _int_template():
    """The index config litdata itself writes for integers (taken from a real write, once per process)."""
    global _tmpl
    if _tmpl is None:
        import json
        import shutil
        import tempfile

        d = tempfile.mkdtemp()
        write_dataset(d, [0, 1], chunk_size=2)
        with open(os.path.join(d, "index.json")) as f:
            _tmpl = json.load(f)["config"]
        shutil.rmtree(d)
    return _tmpl


def stop_reader_threads(ds):
    """End the background thread of a dataset's reader, if any (a case leaves no thread behind)."""
    with contextlib.suppress(Exception):
        r = ds.cache._reader
        t = r._prepare_thread
        if t is not None:
            t.force_stop()
            t.join(2)
            r._prepare_thread = None


def iterate_workers(ds, num_workers, rank_kw=None):
    """Iterate a copy of the dataset in each of the workers of one rank; returns the list of per-worker sample lists."""
    out = []
    for w in range(max(num_workers, 1)):
        d = copy.deepcopy(ds)
        with worker_env(w, num_workers, inside=num_workers > 0):
            out.append([x for x in d])
        stop_reader_threads(d)
    return out


def assemble(per_worker, batch_size):
    """The batches a data loader yields from per-worker streams: round robin, exhausted workers skipped."""
    qs = [[s[i : i + batch_size] for i in range(0, len(s), batch_size)] for s in per_worker]
    out, i = [], 0
    active = list(range(len(qs)))
    pos = [0] * len(qs)
    while active:
        nxt = []
        for w in active:
            if pos[w] < len(qs[w]):
                out.append((w, qs[w][pos[w]]))
                pos[w] += 1
                nxt.append(w)
        active = nxt
        i += 1
    return out


def live_litdata_threads():
    return [t for t in threading.enumerate() if type(t).__name__ == "PrepareChunksThread"]
