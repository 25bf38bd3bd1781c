"""Replays behaviours of Readers.tla: writes the files, opens them with the
data readers, records what they return."""
import hashlib, io, json, os, shutil, tempfile, warnings

import env  # noqa: F401
import pandas as pd
import pyarrow as pa
import pyarrow.parquet as pq
import fastavro
import dataprofiler as dp
from dataprofiler.data_readers.avro_data import AVROData
from dataprofiler.data_readers.csv_data import CSVData
from dataprofiler.data_readers.json_data import JSONData
from dataprofiler.data_readers.parquet_data import ParquetData
from dataprofiler.data_readers.text_data import TextData

from structured import strip

CLS = {"csv": CSVData, "json": JSONData, "parquet": ParquetData, "avro": AVROData, "text": TextData}
NONASCII = "\u00e9"


def text(cs):
    return "".join(cs).replace("~", NONASCII)


def chars(s):
    return list(str(s).replace(NONASCII, "~"))


def columns(T):
    for j, name in enumerate(T["cols"]):
        cells = []
        for i in range(len(T["rows"])):
            m, v = T["marks"][i][j], text(T["rows"][i][j])
            cells.append(None if m in "nx" else int(v) if m == "i" else v)
        yield text(name), cells


def content(op):
    """The bytes of the file."""
    T, w = op["T"], op["w"]
    if op["kind"] == "parquet":
        b = io.BytesIO()
        t = pa.table({n: pa.array(c, type=None if c and isinstance(c[0], int) else pa.string())
                      for n, c in columns(T)})
        pq.write_table(t, b, row_group_size=w["grp"])
        return b.getvalue()
    if op["kind"] == "avro":
        cols = list(columns(T))
        sch = {"type": "record", "name": "r", "fields": [
            {"name": n, "type": "long" if isinstance(c[0], int) else ["string", "null"]} for n, c in cols]}
        b = io.BytesIO()
        fastavro.writer(b, fastavro.parse_schema(sch),
                        [{n: c[i] for n, c in cols} for i in range(len(T["rows"]))])
        return b.getvalue()
    return text(op["text"]).encode(op["w"]["enc"])


def source(op, d, n):
    raw = content(op)
    if op["via"] == "bytes":
        return io.BytesIO(raw)
    if op["via"] == "string":
        return io.StringIO(text(op["text"]))
    path = os.path.join(d, "f%d" % n)
    with open(path, "wb") as f:
        f.write(raw)
    return path


def opts(op):
    T, w, o = op["T"], op["w"], {}
    k = op["kind"]
    if op["sel"]:
        o["selected_keys" if k in ("json", "avro") else "selected_columns"] = [text(T["cols"][j - 1]) for j in op["sel"]]
    if not op["auto"] or op["fmt"] not in ("dataframe", "flattened_dataframe", "text"):
        o["data_format"] = op["fmt"]
    if op["k"]:
        o["record_samples_per_line" if k == "csv" else "samples_per_line"] = op["k"]
    if op["n"]:
        o["sample_nrows"] = op["n"]
    if k == "csv":
        for g in op["given"]:
            if g == "delimiter":
                o[g] = w["d"]
            if g == "quotechar":
                o[g] = w["q"]
            if g == "header":
                o[g] = w["skip"] if w["hdr"] else None
    if "encoding" in op["given"] and k in ("csv", "json", "text") and op["via"] in ("path", "bytes"):
        o["encoding"] = w["enc"]
    return o


def obs(r):
    d = r.data
    o = {"cols": [], "rows": [], "index": [], "recs": [], "len": len(r), "struct": int(bool(r.is_structured)),
         "delim": getattr(r, "_delimiter", None) or "", "header": -1}
    h = getattr(r, "_header", None)
    o["header"] = -1 if h is None else h if isinstance(h, int) else -2
    fmt, kind = r.data_format, r.data_type
    o["meta"] = []
    if kind == "json" and isinstance(d, pd.DataFrame):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = r.metadata
        o["meta"] = [[chars(c), chars(v)] for c in (m.columns if m is not None else []) for v in m[c]]
    if isinstance(d, pd.DataFrame):
        o["cols"] = [chars(c) for c in d.columns]
        o["rows"] = [[chars(c) for c in row] for row in d.values.tolist()]
        o["index"] = [int(i) for i in d.index]
    elif kind in ("csv", "text"):
        o["recs"] = [chars(x) for x in d]
    else:
        recs = [json.loads(x) for x in "\n".join(d).split("\n")] if fmt == "records" else json.loads("".join(d))
        flat = []
        for x in recs:
            y = {}
            for a, b in x.items():
                if isinstance(b, dict):
                    y.update({a + "." + c: v for c, v in b.items()})
                else:
                    y[a] = b
            flat.append(y)
        keys = list(flat[0]) if flat else []
        o["cols"] = [chars(k) for k in keys]
        if all(sorted(x) == sorted(keys) for x in flat):
            o["rows"] = [[chars(x[k]) for k in keys] for x in flat]
    return o


def profile(r):
    """Profiling the reader is profiling the records it returns."""
    po = dp.ProfilerOptions()
    po.set({"data_labeler.is_enabled": False, "multiprocess.is_enabled": False})
    d = r.data
    if isinstance(d, list) and not any(x.strip() for x in d) or not len(d):
        return {"same": 2, "type": ""}
    a = strip(dp.Profiler(r, options=po).report({"output_format": "serializable"}))
    b = strip(dp.Profiler(d if isinstance(d, pd.DataFrame) else list(d), options=po,
                          profiler_type="structured" if r.is_structured else "unstructured"
                          ).report({"output_format": "serializable"}))
    ty = a["global_stats"].pop("file_type")
    a["global_stats"].pop("encoding", 0)
    for k in ("file_type", "encoding"):
        b["global_stats"].pop(k, 0)
    for x in (a, b):
        if not r.is_structured:
            for k in ("vocab", "words"):
                x["data_stats"]["statistics"][k] = sorted(x["data_stats"]["statistics"][k])
        else:
            for c in x["data_stats"]:
                c.pop("samples", 0)
    return {"same": int(json.dumps(a, sort_keys=True, default=str) == json.dumps(b, sort_keys=True, default=str)),
            "type": ty}


def digest(r):
    return hashlib.md5(json.dumps(obs(r), sort_keys=True).encode()).hexdigest()


def replay(beh):
    scratch = tempfile.mkdtemp(prefix="rd")
    slot, dig, steps = {}, {}, []
    try:
        for n, op in enumerate(beh["ops"]):
            st = dict(op)
            st.pop("text")
            st.update(ok=1, err="", obs=[], chg=[], found="", prof={"same": 2, "type": ""})
            o, p = op["op"], op["p"]
            try:
                if o == "open":
                    slot.pop(p, None)
                    c = CLS[op["kind"]]
                    if op["via"] == "memory":
                        slot[p] = c(data=text(op["text"]), options=opts(op))
                    elif op["auto"]:
                        slot[p] = dp.Data(source(op, scratch, n), options=opts(op))
                    else:
                        slot[p] = c(source(op, scratch, n), options=opts(op))
                    st["found"] = slot[p].data_type
                elif o == "reload":
                    if op["via"] == "memory":
                        slot[p].reload(data=text(op["text"]), options=opts(op))
                    else:
                        slot[p].reload(source(op, scratch, n), options=opts(op))
                elif o == "format":
                    slot[p].data_format = op["fmt"]
                elif o == "profile":
                    st["prof"] = profile(slot[p])
                st["obs"] = obs(slot[p])
            except Exception as e:
                st["ok"], st["err"] = 0, "%s: %s" % (type(e).__name__, str(e)[:200])
            for k in sorted(slot):
                try:
                    d = digest(slot[k])
                except Exception as e:
                    d = repr(e)
                if k != p and dig.get(k) != d:
                    st["chg"].append(k)
                dig[k] = d
            steps.append(st)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return {"seed": beh["seed"], "steps": steps}
