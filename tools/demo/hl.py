"""Writes small Hudi tables into a scratch directory for a demonstration."""
import json
import os
import shutil
import struct
import sys
import tempfile

import pyarrow as pa
import pyarrow.parquet as pq

META = ["_hoodie_commit_time", "_hoodie_commit_seqno", "_hoodie_record_key",
        "_hoodie_partition_path", "_hoodie_file_name"]


class Tbl:
    """A table written step by step."""

    def __init__(self, mor=False, parts=(), hive=True, props=None, schema=None, root=None):
        self.tmp = tempfile.mkdtemp(prefix="demo-")
        self.dir = root(self.tmp) if root else os.path.join(self.tmp, "t")
        os.makedirs(self.dir + "/.hoodie")
        self.parts = list(parts)
        self.schema = schema or pa.schema([("id", pa.string()), ("ts", pa.int64()), ("v", pa.string())])
        p = {
            "hoodie.table.name": "t",
            "hoodie.table.type": "MERGE_ON_READ" if mor else "COPY_ON_WRITE",
            "hoodie.table.version": "6",
            "hoodie.timeline.layout.version": "1",
            "hoodie.table.base.file.format": "PARQUET",
            "hoodie.table.checksum": "1",
            "hoodie.table.precombine.field": "ts",
            "hoodie.table.recordkey.fields": "id",
            "hoodie.table.keygenerator.class": "org.apache.hudi.keygen.SimpleKeyGenerator" if parts
            else "org.apache.hudi.keygen.NonpartitionedKeyGenerator",
            "hoodie.table.timeline.timezone": "UTC",
            "hoodie.datasource.write.hive_style_partitioning": "true" if hive else "false",
            "hoodie.datasource.write.partitionpath.urlencode": "false",
            "hoodie.datasource.write.drop.partition.columns": "false",
            "hoodie.populate.meta.fields": "true",
        }
        if parts:
            p["hoodie.table.partition.fields"] = ",".join(parts)
        p.update(props or {})
        with open(self.dir + "/.hoodie/hoodie.properties", "w") as f:
            for k, v in p.items():
                if v is not None:
                    f.write(f"{k}={v}\n")

    def batch(self, rows, ts, part="", fname="f", seq=None):
        """rows: dicts of the columns; '_c' overrides the commit time of a row (carried over)."""
        cols, fields = [], []
        vals = {m: [] for m in META}
        for i, r in enumerate(rows):
            c = r.get("_c", ts)
            vals[META[0]].append(c)
            vals[META[1]].append(r.get("_s", f"{c}_0_{i}"))
            vals[META[2]].append(str(r["id"]))
            vals[META[3]].append(part)
            vals[META[4]].append(fname)
        for m in META:
            cols.append(pa.array(vals[m], pa.string()))
            fields.append(pa.field(m, pa.string()))
        for f in self.schema:
            cols.append(pa.array([r.get(f.name) for r in rows], f.type))
            fields.append(f)
        return pa.Table.from_arrays(cols, schema=pa.schema(fields))

    def _dir(self, part):
        d = os.path.join(self.dir, part) if part else self.dir
        os.makedirs(d, exist_ok=True)
        if part and not os.path.exists(d + "/.hoodie_partition_metadata"):
            with open(d + "/.hoodie_partition_metadata", "w") as f:
                f.write("commitTime=0\npartitionDepth=1\n")
        return d

    def base(self, fid, ts, rows, part="", token="0-1-1", **kw):
        """Writes a base file; returns its write stat."""
        name = f"{fid}_{token}_{ts}.parquet"
        d = self._dir(part)
        pq.write_table(self.batch(rows, ts, part, name), f"{d}/{name}", **kw)
        return {"_p": part, "fileId": fid, "path": f"{part}/{name}" if part else name,
                "prevCommit": "null", "numWrites": len(rows)}

    def log(self, fid, base_ts, ts, blocks, part="", version=1, token="0-1-1", logs=None, base_token="0-1-1", append=False):
        """Writes a log file of the given blocks (bytes); returns its write stat."""
        name = f".{fid}_{base_ts}.log.{version}_{token}"
        d = self._dir(part)
        with open(f"{d}/{name}", "ab" if append else "wb") as f:
            for b in blocks:
                f.write(b)
        return {"_p": part, "fileId": fid, "path": f"{part}/{name}" if part else name,
                "baseFile": f"{fid}_{base_token}_{base_ts}.parquet", "logFiles": logs or [name],
                "prevCommit": base_ts, "numWrites": 1}

    def data_block(self, ts, rows, part="", fid="f", version=1, footer=None, batch=None, instant=None):
        import io
        buf = io.BytesIO()
        t = batch if batch is not None else self.batch(rows, ts, part, fid)
        pq.write_table(t, buf)
        return frame(5, {0: instant or ts, 2: self.avro_schema()}, buf.getvalue(), version, footer)

    def rollback_block(self, ts, target):
        return frame(0, {0: ts, 1: target, 3: "0"}, b"")

    def avro_schema(self):
        names = {pa.int64(): "long", pa.int32(): "int", pa.string(): "string", pa.float64(): "double",
                 pa.bool_(): "boolean", pa.float32(): "float", pa.binary(): "bytes"}
        fs = [{"name": f.name, "type": ["null", names.get(f.type, "string")], "default": None} for f in self.schema]
        return json.dumps({"type": "record", "name": "t_record", "namespace": "hoodie.t", "fields": fs})

    def commit(self, ts, action, stats=(), replaced=None, op=None, completed=True, extra=None, requested=True):
        w = {}
        for s in stats:
            s = dict(s)
            w.setdefault(s.pop("_p"), []).append(s)
        m = {"partitionToWriteStats": w, "compacted": False,
             "extraMetadata": {"schema": self.avro_schema()} if extra is None else extra,
             "operationType": op or ("UPSERT" if action != "replacecommit" else "INSERT_OVERWRITE")}
        if replaced is not None:
            m["partitionToReplaceFileIds"] = replaced
        h = f"{self.dir}/.hoodie/{ts}"
        if requested:
            open(f"{h}.{action}.requested", "w").close()
            open(f"{h}.inflight" if action == "commit" else f"{h}.{action}.inflight", "w").close()
        if completed:
            with open(f"{h}.{action}", "w") as f:
                json.dump(m, f)

    def open(self, **options):
        from hudi import HudiTable
        return HudiTable(self.dir, options or None)


def frame(kind, header, content, version=1, footer=None):
    """A log block."""
    def md(m):
        b = struct.pack(">I", len(m))
        for k, v in m.items():
            v = v.encode()
            b += struct.pack(">II", k, len(v)) + v
        return b
    body = struct.pack(">II", version, kind) + md(header) + struct.pack(">Q", len(content)) + content
    if version == 1:
        body += md(footer or {})
        n = len(body) + 8
        body += struct.pack(">Q", n + 14)
    return b"#HUDI#" + struct.pack(">Q", len(body)) + body


def rows(batches, *cols):
    """Sorted tuples of the columns of the batches."""
    out = []
    for b in batches if isinstance(batches, (list, tuple)) else [batches]:
        d = b.to_pydict()
        out += list(zip(*[d[c] for c in cols]))
    return sorted(out, key=repr)


_tables = []


def run(f):
    """Runs a demonstration; exits with 1 if it fails."""
    before = set(os.listdir(tempfile.gettempdir()))
    try:
        f()
        print("OK")
    except BaseException as e:
        print("FAILED:", type(e).__name__, str(e)[:800])
        code = 1
    else:
        code = 0
    for t in _tables:
        shutil.rmtree(t, ignore_errors=True)
    sys.exit(code)


_init = Tbl.__init__


def _tracked(self, *a, **k):
    _init(self, *a, **k)
    _tables.append(self.tmp)


Tbl.__init__ = _tracked


def eq(got, want, what=""):
    assert got == want, f"{what}: got {got!r}, want {want!r}"
