"""Answers requests, one JSON line each, with the Python API; one JSON line per answer."""
import json
import sys
import threading

import hudi
import pyarrow as pa
from hudi._internal import build_hudi_table

# What the code under test prints must not mix with the answers.
import os
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)


def batches(x):
    """As an IPC stream in hex: one per batch."""
    if isinstance(x, pa.RecordBatch):
        x = [x]
    res = []
    for b in x:
        sink = pa.BufferOutputStream()
        with pa.ipc.new_stream(sink, b.schema) as w:
            w.write_batch(b)
        res.append(sink.getvalue().to_pybytes().hex())
    return res


def schema(s):
    return s.serialize().to_pybytes().hex()


def one_slice(f):
    return {
        "file_id": f.file_id,
        "partition_path": f.partition_path,
        "creation_instant_time": f.creation_instant_time,
        "base_file_name": f.base_file_name,
        "base_file_size": f.base_file_size,
        "base_file_byte_size": f.base_file_byte_size,
        "log_file_names": list(f.log_file_names),
        "num_records": f.num_records,
        "base_file_relative_path": f.base_file_relative_path(),
        "log_files_relative_paths": list(f.log_files_relative_paths()),
    }


def slices(fs):
    return [one_slice(f) for f in fs]


def instant(i):
    return [i.timestamp, i.action, i.state, i.epoch_mills]


def tuples(v):
    return None if v is None else [tuple(t) for t in v]


def call(f, names, args, style):
    """Calls with the arguments by position, by name, or leaving out those that are None."""
    if style == "position":
        return f(*args)
    if style == "name":
        return f(**dict(zip(names, args)))
    return f(**{n: a for n, a in zip(names, args) if a is not None})


def table(req):
    o = req["open"]
    kind = o["kind"]
    if kind == "ctor":
        return call(hudi.HudiTable, ["base_uri", "options"], [o["uri"], o["options"]], o["style"])
    if kind == "function":
        return call(
            build_hudi_table,
            ["base_uri", "hudi_options", "storage_options", "options"],
            [o["uri"], o["hudi_options"], o["storage_options"], o["options"]],
            o["style"],
        )
    # What another builder was told, and what happens later to a dict that was handed over, is of no concern to this one.
    other = hudi.HudiTableBuilder.from_base_uri(o["uri"])
    given = []
    other.with_option("another.builder", "1").with_hudi_option("another.hudi", "1").with_storage_option("another.storage", "1")
    b = hudi.HudiTableBuilder.from_base_uri(o["uri"])
    for what, single in (("hudi_options", "with_hudi_option"), ("storage_options", "with_storage_option"), ("options", "with_option")):
        m = o[what]
        if m is None:
            continue
        if o["style"] == "position":
            d = dict(m)
            b = getattr(b, single + "s")(d)
            given.append((d, dict(m)))
        elif o["style"] == "name":
            # The first by name, the others as one dict.
            d = dict(list(m.items())[1:])
            for k, v in list(m.items())[:1]:
                b = getattr(b, single)(k=k, v=v)
            b = getattr(b, single + "s")(**{what: d})
            given.append((d, dict(d)))
        else:
            for k, v in m.items():
                b = getattr(b, single)(k, v)
    other.with_options({"another.later": "1"})
    for d, was in given:
        if d != was:
            raise RuntimeError(f"the builder changed the dict it was given: {was} became {d}")
        d["given.later"] = "1"
    return b.build()


def perform(t, c):
    m, a, st = c["m"], c["a"], c["style"]
    if m in ("hudi_options", "storage_options"):
        return getattr(t, m)()
    if m in ("table_name", "table_type", "is_mor", "timezone"):
        return getattr(t, m)
    if m == "get_avro_schema":
        return t.get_avro_schema()
    if m in ("get_schema", "get_partition_schema"):
        return schema(getattr(t, m)())
    if m == "get_file_slices":
        return slices(call(t.get_file_slices, ["filters"], [tuples(a[0])], st))
    if m == "get_file_slices_as_of":
        return slices(call(t.get_file_slices_as_of, ["timestamp", "filters"], [a[0], tuples(a[1])], st))
    if m == "get_file_slices_splits":
        return [slices(x) for x in call(t.get_file_slices_splits, ["n", "filters"], [a[0], tuples(a[1])], st)]
    if m == "get_file_slices_splits_as_of":
        return [
            slices(x)
            for x in call(t.get_file_slices_splits_as_of, ["n", "timestamp", "filters"], [a[0], a[1], tuples(a[2])], st)
        ]
    if m == "get_file_slices_between":
        return slices(call(t.get_file_slices_between, ["start_timestamp", "end_timestamp"], a, st))
    if m == "read_snapshot":
        return batches(call(t.read_snapshot, ["filters"], [tuples(a[0])], st))
    if m == "read_snapshot_as_of":
        return batches(call(t.read_snapshot_as_of, ["timestamp", "filters"], [a[0], tuples(a[1])], st))
    if m == "read_incremental_records":
        return batches(call(t.read_incremental_records, ["start_timestamp", "end_timestamp"], a, st))
    if m == "read_file_slices":
        # Every slice listed as of a time, read with a reader made by the table or on its own.
        if a[2] is None:
            r = call(t.create_file_group_reader_with_options, ["options"], [a[1]], st)
        else:
            r = call(hudi.HudiFileGroupReader, ["base_uri", "options"], [a[2], a[1]], st)
        return [batches(r.read_file_slice(f)) for f in t.get_file_slices_as_of(a[0], None)]
    if m == "read_file_slices_between":
        r = call(t.create_file_group_reader_with_options, ["options"], [a[2]], st)
        return [batches(r.read_file_slice(f)) for f in t.get_file_slices_between(a[0], a[1])]
    if m == "read_base_files":
        if a[2] is None:
            r = call(t.create_file_group_reader_with_options, ["options"], [a[1]], st)
        else:
            r = call(hudi.HudiFileGroupReader, ["base_uri", "options"], [a[2], a[1]], st)
        return [
            batches(r.read_file_slice_by_base_file_path(f.base_file_relative_path()))
            for f in t.get_file_slices_as_of(a[0], None)
        ]
    if m == "read_path":
        return batches(t.create_file_group_reader_with_options(None).read_file_slice_by_base_file_path(a[0]))
    tl = t.get_timeline()
    if m.startswith("get_completed_"):
        return [instant(i) for i in call(getattr(tl, m), ["desc"], a, st)]
    if m == "instant_metadata":
        return [tl.get_instant_metadata_in_json(i) for i in tl.get_completed_commits()]
    if m in ("get_latest_commit_timestamp", "get_latest_avro_schema"):
        return getattr(tl, m)()
    if m == "get_latest_schema":
        return schema(tl.get_latest_schema())
    raise AssertionError("HARNESS: " + m)


def attempt(f):
    try:
        return {"ok": f()}
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return {"err": type(e).__name__, "msg": str(e)}


def answer(req):
    t = None

    def opened():
        nonlocal t
        t = table(req)

    a = attempt(opened)
    if "err" in a:
        return {"open": a, "calls": []}
    calls = req["calls"]
    res = [None] * len(calls)
    if req["threads"]:
        ts = []
        for k, c in enumerate(calls):
            def work(k=k, c=c):
                res[k] = attempt(lambda: perform(t, c))
            ts.append(threading.Thread(target=work))
        for x in ts:
            x.start()
        for x in ts:
            x.join()
    else:
        for k, c in enumerate(calls):
            res[k] = attempt(lambda: perform(t, c))
    return {"open": {"ok": None}, "calls": res}


for line in sys.stdin:
    out.write(json.dumps(answer(json.loads(line))) + "\n")
    out.flush()
