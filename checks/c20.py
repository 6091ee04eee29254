"""C20: a file fetched from a remote is the remote's file, whole, whatever fails or dies meanwhile."""

import contextlib
import json
import os
import shutil
import threading
import time

from hypothesis import strategies as st

from vlib import fakes3, proc, sim
from vlib.runner import Sub, expect

PROPERTY = "C20"
RULE = (
    "fetch: a file of some size behind a provider (S3, Google, Azure, Hugging Face, a folder), and a sequence of attempts to "
    "fetch it to the same place, each by several threads, that may fail or be killed after some bytes; stream: a dataset in an "
    "object store, streamed again and again with planned failures and kills, into the same cache. Non-trivial: an attempt "
    "failed or was killed after part of a file had been transferred, or several threads fetched the file."
)
ASSUMPTIONS = [
    "the clients of the providers are stand-ins which transfer in blocks: Google's writes under the name it is given, "
    "Azure's into the open file, S3's and Hugging Face's into a temporary file (as the real ones do)",
]


class Planned(Exception):
    pass


class Wire:
    """The transfer of a file in blocks, with a planned end."""

    def __init__(self, data, block):
        self.data, self.block, self.fault, self.at, self.started = data, block, None, 0, 0
        self.slow = 0.0
        self.lock = threading.Lock()

    def blocks(self):
        with self.lock:
            self.started += 1
        pos = 0
        while pos < len(self.data) or pos == 0:
            if self.fault is not None and pos >= self.at:
                if self.fault == "kill":
                    os._exit(9)
                raise Planned("planned failure of the transfer")
            yield self.data[pos : pos + self.block]
            pos += max(self.block, 1)
            if self.slow:
                time.sleep(self.slow)
        if self.fault is not None:
            if self.fault == "kill":
                os._exit(9)
            raise Planned("planned failure of the transfer")

    def write(self, f, close=False):
        for b in self.blocks():
            f.write(b)
            f.flush()

    def to_file(self, path):
        with open(path, "wb") as f:
            self.write(f)


class Blob:
    def __init__(self, find, key):
        self.find, self.key = find, key

    def download_to_filename(self, filename, **_):
        self.find(self.key).to_file(filename)

    def download_to_file(self, f, **_):
        self.find(self.key).write(f)

    def download_as_bytes(self, **_):
        return b"".join(self.find(self.key).blocks())

    def exists(self, **_):
        try:
            self.find(self.key)
            return True
        except Exception:
            return False


class Stream:
    def __init__(self, wire):
        self.wire = wire

    def readinto(self, f):
        self.wire.write(f)
        return len(self.wire.data)

    def readall(self):
        return b"".join(self.wire.blocks())

    def chunks(self):
        return self.wire.blocks()


@contextlib.contextmanager
def provider(name, files):
    """files: key -> Wire. The clients of the provider find their objects there."""

    def find(key):
        if key not in files:
            raise FileNotFoundError(f"no such object: {key}")
        return files[key]

    from unittest import mock

    with contextlib.ExitStack() as stack:
        if name == "gs":
            import google.cloud.storage as gs

            class Client:
                def __init__(self, **_):
                    pass

                def bucket(self, b, **_):
                    assert b == "buck"
                    return self

                get_bucket = bucket

                def blob(self, key, **_):
                    return Blob(find, key)

                get_blob = blob

            stack.enter_context(mock.patch.object(gs, "Client", Client))
        elif name == "azure":
            import azure.storage.blob as az

            class BlobClient:
                def __init__(self, key):
                    self.key = key

                def download_blob(self, **_):
                    return Stream(find(self.key))

                def exists(self, **_):
                    return self.key in files

            class Service:
                def __init__(self, **_):
                    pass

                def get_blob_client(self, container, blob, **_):
                    assert container == "buck"
                    return BlobClient(blob)

            stack.enter_context(mock.patch.object(az, "BlobServiceClient", Service))
        elif name == "hf":
            import huggingface_hub as hf

            def hf_hub_download(repo_id, filename, *, cache_dir=None, repo_type=None, **_):
                assert repo_id == "org/repo"
                base = os.path.join(cache_dir, "datasets--org--repo")
                os.makedirs(os.path.join(base, "blobs"), exist_ok=True)
                tmp = os.path.join(base, "blobs", "x.incomplete")
                find(filename).to_file(tmp)
                os.rename(tmp, os.path.join(base, "blobs", "x"))
                snap = os.path.join(base, "snapshots", "rev", filename)
                os.makedirs(os.path.dirname(snap), exist_ok=True)
                if not os.path.lexists(snap):
                    os.symlink(os.path.join(base, "blobs", "x"), snap)
                return snap

            stack.enter_context(mock.patch.object(hf, "hf_hub_download", hf_hub_download))
        elif name == "s3":
            from litdata.streaming import client

            class C:
                def download_file(self, Bucket, Key, Filename, **_):
                    assert Bucket == "buck"
                    tmp = f"{Filename}.{os.urandom(4).hex()}"
                    try:
                        find(Key).to_file(tmp)
                        os.replace(tmp, Filename)
                    finally:
                        with contextlib.suppress(FileNotFoundError):
                            os.remove(tmp)

                def download_fileobj(self, Bucket, Key, Fileobj, **_):
                    find(Key).write(Fileobj)

            stack.enter_context(mock.patch.object(client.S3Client, "_create_client",
                                                  lambda self: setattr(self, "_client", C())))
        yield


URL = {"s3": "s3://buck/", "gs": "gs://buck/", "azure": "azure://buck/", "hf": "hf://datasets/org/repo/"}

fetch_case = st.fixed_dictionaries({
    "provider": st.sampled_from(["s3", "gs", "azure", "hf", "folder", "local"]),
    "name": st.sampled_from(["chunk-0-0.bin", "index.json", "a/chunk-0-0.zstd.bin", "chunk#1.bin", "b c.bin"]),
    "size": st.integers(0, 400),
    "block": st.integers(1, 200),
    "attempts": st.lists(st.fixed_dictionaries({
        "threads": st.integers(1, 3), "fault": st.sampled_from([None, None, "raise", "raise", "kill"]),
        "at": st.integers(0, 400), "missing": st.sampled_from([False, False, False, True])}), min_size=1, max_size=4),
})


def run_fetch(case, rec):
    from litdata.streaming.downloader import get_downloader

    p, name = case["provider"], case["name"]
    if p not in ("folder", "local") and "#" in name:
        name = name.replace("#", "-")  # known to be cut: see DESIGN.md
    data = bytes((i * 7 + i // 251) % 256 for i in range(case["size"]))
    wire = Wire(data, case["block"])
    cache, remote = os.path.join(rec.dir, "cache"), os.path.join(rec.dir, "remote")
    local = os.path.join(cache, name)
    os.makedirs(os.path.dirname(local))
    files = {"data/" + name: wire}
    if p in ("folder", "local"):
        url = remote if p == "folder" else "local:" + remote
        path = os.path.join(remote, name)
        os.makedirs(os.path.dirname(path))
    else:
        url = URL[p] + "data"
    rec.label(p)

    with contextlib.ExitStack() as stack:
        stack.enter_context(provider(p, files))
        if p in ("folder", "local"):
            with open(path, "wb") as f:
                f.write(data)
            real = shutil.copy

            def copy(src, dst, *a, **kw):
                with open(dst, "wb") as f:
                    wire.write(f)
                return dst

            from unittest import mock

            for fn in ("copy", "copyfile", "copy2"):
                stack.enter_context(mock.patch.object(shutil, fn, copy))
            _ = real

        def whole(when):
            if os.path.exists(local):
                with open(local, "rb") as f:
                    got = f.read()
                expect(got == data, f"{p}: {when}, the file has {len(got)} bytes: {got[:40]!r}…, the remote's has {len(data)}")
                return True
            return False

        killed = False
        for n, a in enumerate(case["attempts"] + [{"threads": 1, "fault": None, "at": 0, "missing": False}]):
            # Google's client writes under the final name: after a kill, what is there need not be whole
            have = False if killed and p == "gs" else whole(f"before attempt {n}")
            if a["missing"]:
                # another file, which the remote hasn't
                d = get_downloader(url, cache, [], {})
                gone = os.path.join(cache, "none.bin")
                err = None
                try:
                    d.download_file(url + "/none.bin", gone)
                except Exception as e:
                    err = e
                expect(err is not None, f"{p}: fetching a file that the remote hasn't didn't raise")
                expect(not os.path.exists(gone), f"{p}: fetching a file that the remote hasn't left a file")
                rec.label("missing")
            wire.fault, wire.at, wire.started = a["fault"], a["at"], 0
            errors = []

            def one():
                try:
                    get_downloader(url, cache, [], {}).download_file(url + "/" + name, local)
                except Planned as e:
                    errors.append(e)

            if a["fault"] == "kill":
                pid = os.fork()
                if pid == 0:
                    try:
                        one()
                    finally:
                        os._exit(0)
                _, status = os.waitpid(pid, 0)
                killed = killed or bool(status)
                rec.label("killed" if status else "not killed")
                if status and 0 < a["at"] and not have:
                    rec.hit()
                continue
            wire.slow = 0.0005 if a["threads"] > 1 else 0.0
            if a["threads"] == 1:
                one()
            else:
                ths = [threading.Thread(target=one) for _ in range(a["threads"])]
                for t in ths:
                    t.start()
                for t in ths:
                    t.join()
                rec.hit()
            if a["fault"] == "raise" and not have:
                expect(errors, f"{p}: a failed transfer was not raised")
                rec.label("failed")
                if a["at"]:
                    rec.hit()
            expect(not errors or a["fault"], f"{p}: {errors}")
            there = whole(f"after attempt {n} ({'failed' if errors else 'done'})")
            if not errors and not a["fault"]:
                expect(there, f"{p}: attempt {n} was done, and the file isn't there")
            if not errors:
                killed = False
            if have:
                expect(wire.started == 0, f"{p}: the file was fetched again although it was there")
        # nothing but the file and locks is left
        left = sorted(os.path.relpath(os.path.join(d, f), cache) for d, _, fs in os.walk(cache) for f in fs)
        junk = [f for f in left if f != name and not f.endswith(".lock") and not (f.endswith(".tmp"))]
        if not any(a["fault"] == "kill" for a in case["attempts"]):
            expect(not junk, f"{p}: left behind: {junk}")


stream_case = st.fixed_dictionaries({
    "provider": st.sampled_from(["s3", "gs", "azure"]),
    "sizes": st.lists(st.integers(1, 5), min_size=1, max_size=5),
    "zstd": st.booleans(),
    "block": st.integers(8, 64),
    "cache": st.sampled_from([None, None, 200]),
    "attempts": st.lists(st.fixed_dictionaries({
        "fault": st.sampled_from([None, "raise", "kill", "kill"]), "which": st.integers(0, 5), "at": st.integers(0, 150),
        "shuffle": st.booleans()}), min_size=1, max_size=3),
})


def run_stream(case, rec):
    import litdata.streaming.item_loader as il
    from litdata import StreamingDataset

    p, n = case["provider"], sum(case["sizes"])
    src = os.path.join(rec.dir, "src")
    make = lambda i: {"i": i, "b": bytes([i % 256]) * (i % 40)}  # noqa: E731
    sim.write_chunks(src, case["sizes"], make=make, compression="zstd" if case["zstd"] else None)
    files = {}
    for f in sorted(os.listdir(src)):
        with open(os.path.join(src, f), "rb") as fh:
            files["data/" + f] = Wire(fh.read(), case["block"])
    url = URL[p] + "data"
    names = sorted(files)
    cache = os.path.join(rec.dir, "cache")
    os.makedirs(cache)
    old = {k: getattr(il, k) for k in ("_FORCE_DOWNLOAD_TIME", "_MAX_WAIT_TIME") if hasattr(il, k)}

    def read(shuffle):
        import logging

        logging.disable(logging.CRITICAL)
        threading.excepthook = lambda *_: None
        ds = StreamingDataset(url, cache_dir=cache, shuffle=shuffle,
                              max_cache_size=case["cache"] or "1GB")
        return [x for x in ds]

    rec.label(p)
    try:
        il._FORCE_DOWNLOAD_TIME, il._MAX_WAIT_TIME = 0.3, 1.2
        with provider(p, files):
            for k, a in enumerate(case["attempts"] + [{"fault": None, "which": 0, "at": 0, "shuffle": False}]):
                for w in files.values():
                    w.fault = None
                if a["fault"]:
                    w = files[names[a["which"] % len(names)]]
                    w.fault, w.at = a["fault"], a["at"]
                out = proc.run(lambda: read(a["shuffle"]), timeout=40, env={"DATA_OPTIMIZER_CACHE_FOLDER": cache})
                expect(out.kind != "hang", f"{p}: attempt {k} didn't end: {out}")
                if a["fault"] and a["at"] and out.kind != "ok":
                    rec.hit()
                    rec.label(a["fault"])
                if not a["fault"]:
                    expect(out.kind == "ok", f"{p}: reading without any failure, after earlier ones: {out}")
                if out.kind == "ok":
                    got = out.value
                    if a["shuffle"]:
                        got = sorted(got, key=lambda x: x["i"])
                    expect(got == [make(i) for i in range(n)], f"{p}: attempt {k} delivered {got}")
    finally:
        for k, v in old.items():
            setattr(il, k, v)


SUBS = [
    Sub("fetch", fetch_case, run_fetch, quick=1600, thorough=40000, hang_s=40),
    Sub("stream", stream_case, run_stream, quick=160, thorough=4000, hang_s=150),
]
_ = (fakes3, json)
