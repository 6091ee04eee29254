"""An object store in a folder, with the calls of the boto3 client that litdata makes.

Faults are planned as {"op": "upload" | "download", "match": text, "times": n, "after": bytes or None}: a call whose key
contains the text fails, n times (over all processes), after having transferred some bytes when asked.
"""

import contextlib
import os
import urllib.parse

PAGE = 7  # keys per page of a listing (1000 for the real store)


def _error(code, msg, op):
    from botocore.exceptions import ClientError

    return ClientError({"Error": {"Code": code, "Message": msg}}, op)


class Fault(Exception):
    pass


class FakeS3:
    def __init__(self, root, faults=(), log=None):
        self.root, self.faults, self.log = root, list(faults), log

    # keys are stored as flat files, named after the quoted key
    def _path(self, bucket, key):
        return os.path.join(self.root, bucket, urllib.parse.quote(key, safe=""))

    def _bucket(self, bucket):
        p = os.path.join(self.root, bucket)
        if not os.path.isdir(p):
            raise _error("NoSuchBucket", "The specified bucket does not exist", "ListObjectsV2")
        return p

    def keys(self, bucket):
        p = self._bucket(bucket)
        return sorted(urllib.parse.unquote(f) for f in os.listdir(p) if not f.startswith("%00"))

    def _fault(self, op, key):
        for i, f in enumerate(self.faults):
            if f["op"] != op or f["match"] not in key:
                continue
            for n in range(f.get("times", 1)):
                mark = os.path.join(self.root, f".fault-{i}-{n}")
                with contextlib.suppress(FileExistsError):
                    os.close(os.open(mark, os.O_CREAT | os.O_EXCL))
                    return f
        return None

    def faults_fired(self):
        return sorted(f for f in os.listdir(self.root) if f.startswith(".fault-"))

    def _write(self, path, data):
        tmp = os.path.join(os.path.dirname(path), f"%00{os.getpid()}-{os.urandom(4).hex()}")
        with open(tmp, "wb") as f:
            f.write(data)
        os.replace(tmp, path)

    def _note(self, op, bucket, key):
        if self.log:
            with open(self.log, "a") as f:
                f.write(f"{op} {bucket} {key}\n")

    def upload_file(self, Filename, Bucket, Key, **_):
        self._bucket(Bucket)
        with open(Filename, "rb") as f:
            data = f.read()
        if self._fault("upload", Key):
            raise Fault(f"planned failure of the upload of {Key}")
        self._note("put", Bucket, Key)
        self._write(self._path(Bucket, Key), data)

    def upload_fileobj(self, Fileobj, Bucket, Key, **_):
        self._note("put", Bucket, Key)
        self._write(self._path(Bucket, Key), Fileobj.read())

    def put_object(self, Bucket, Key, Body=b"", **_):
        self._write(self._path(Bucket, Key), Body if isinstance(Body, bytes) else Body.read())
        return {}

    def _read(self, bucket, key, out):
        self._bucket(bucket)
        try:
            with open(self._path(bucket, key), "rb") as f:
                data = f.read()
        except FileNotFoundError:
            raise _error("404", "Not Found", "HeadObject") from None
        fault = self._fault("download", key)
        if fault:
            out.write(data[: fault.get("after") or 0])
            out.flush()
            raise Fault(f"planned failure of the download of {key}")
        out.write(data)

    def download_fileobj(self, Bucket, Key, Fileobj, **_):
        self._read(Bucket, Key, Fileobj)

    def download_file(self, Bucket, Key, Filename, **_):
        # as boto3 does: into a temporary file, renamed once complete
        tmp = f"{Filename}.{os.urandom(4).hex()}"
        try:
            with open(tmp, "wb") as f:
                self._read(Bucket, Key, f)
            os.replace(tmp, Filename)
        finally:
            with contextlib.suppress(FileNotFoundError):
                os.remove(tmp)

    def list_objects_v2(self, Bucket, Prefix="", Delimiter=None, ContinuationToken=None, MaxKeys=PAGE, StartAfter=None, **_):
        entries = []  # keys and common prefixes, in order
        for k in self.keys(Bucket):
            if not k.startswith(Prefix):
                continue
            if Delimiter and Delimiter in k[len(Prefix):]:
                e = ("p", Prefix + k[len(Prefix):].split(Delimiter)[0] + Delimiter)
            else:
                e = ("k", k)
            if e not in entries[-1:]:
                entries.append(e)
        entries = [e for e in entries if e[1] > (ContinuationToken or StartAfter or "")]
        page = entries[:MaxKeys]
        out = {"KeyCount": len(page), "IsTruncated": len(entries) > len(page), "Name": Bucket, "Prefix": Prefix}
        keys = [{"Key": k, "Size": os.path.getsize(self._path(Bucket, k))} for t, k in page if t == "k"]
        if keys:
            out["Contents"] = keys
        prefixes = [{"Prefix": k} for t, k in page if t == "p"]
        if prefixes:
            out["CommonPrefixes"] = prefixes
        if out["IsTruncated"]:
            out["NextContinuationToken"] = page[-1][1]
        return out

    def get_paginator(self, name):
        assert name == "list_objects_v2"
        store = self

        class P:
            def paginate(self, **kw):
                kw.pop("PaginationConfig", None)
                while True:
                    page = store.list_objects_v2(**kw)
                    yield page
                    if not page["IsTruncated"]:
                        return
                    kw["ContinuationToken"] = page["NextContinuationToken"]

        return P()

    def delete_object(self, Bucket, Key, **_):
        self._bucket(Bucket)
        self._note("delete", Bucket, Key)
        with contextlib.suppress(FileNotFoundError):
            os.remove(self._path(Bucket, Key))
        return {}

    def delete_objects(self, Bucket, Delete, **_):
        for o in Delete["Objects"]:
            self.delete_object(Bucket, o["Key"])
        return {}

    def head_object(self, Bucket, Key, **_):
        try:
            return {"ContentLength": os.path.getsize(self._path(Bucket, Key))}
        except FileNotFoundError:
            # the message of the real client
            raise _error("404", "Not Found", "HeadObject") from None

    def get_object(self, Bucket, Key, **_):
        import io

        buf = io.BytesIO()
        self._read(Bucket, Key, buf)
        buf.seek(0)
        return {"Body": buf}

    def copy(self, CopySource, Bucket, Key, **_):
        import io

        buf = io.BytesIO()
        self._read(CopySource["Bucket"], CopySource["Key"], buf)
        self._note("put", Bucket, Key)
        self._write(self._path(Bucket, Key), buf.getvalue())

    def copy_object(self, Bucket, Key, CopySource, **_):
        self.copy(CopySource, Bucket, Key)
        return {}

    # for the checks
    def put(self, bucket, key, data):
        os.makedirs(os.path.join(self.root, bucket), exist_ok=True)
        self._write(self._path(bucket, key), data)

    def get(self, bucket, key):
        with open(self._path(bucket, key), "rb") as f:
            return f.read()

    def snapshot(self):
        return {(b, k): self.get(b, k) for b in sorted(os.listdir(self.root)) if os.path.isdir(os.path.join(self.root, b))
                for k in self.keys(b)}

    def export(self, bucket, prefix, folder):
        """Lay the objects under a prefix out as local files."""
        prefix = prefix.rstrip("/") + "/"
        for k in self.keys(bucket):
            if k.startswith(prefix):
                p = os.path.join(folder, k[len(prefix):])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(self.get(bucket, k))


@contextlib.contextmanager
def installed(store):
    """Every S3Client talks to the store (in this process and those it forks)."""
    from litdata.streaming import client

    def create(self):
        self._client = store

    old = client.S3Client._create_client
    client.S3Client._create_client = create
    try:
        yield store
    finally:
        client.S3Client._create_client = old
