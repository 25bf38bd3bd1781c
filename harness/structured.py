"""Replay ProfilerGen behaviours against dataprofiler.StructuredProfiler and
record what it observably does."""
import copy, datetime, hashlib, io, json, math, os, re, tempfile

import env  # noqa: F401  (environment for importing the code under test)
import numpy as np
import pandas as pd
import scipy.stats
import dataprofiler as dp
from dataprofiler.data_readers.csv_data import CSVData

import views
from proj import tagged, J

NSLOTS = 4


SWITCH = {"mad": "median_abs_deviation", "zeros": "num_zeros", "negs": "num_negatives",
          "hist": "histogram_and_quantiles"}
SWITCHES = {"prec": "float.precision", "vocab": "text.vocab", "chi2": "chi2_homogeneity", "string": "text",
            "uniqrows": "row_statistics.unique_count", "nullrows": "row_statistics.null_count",
            "rowstats": "row_statistics"}
PARTS = ("int", "float", "datetime", "order", "category")


def switch_off(s, name):
    """Switch one statistic off (Options.tla has the names)."""
    if name in SWITCHES or name in PARTS:
        paths = [SWITCHES.get(name, name)]
    else:
        kinds, stat = name.split(".") if "." in name else (None, name)
        kinds = {"string": ["text"], None: ["int", "float", "text"]}.get(kinds, [kinds])
        paths = ["%s.%s" % (k, SWITCH.get(stat, stat)) for k in kinds]
    for path in paths:
        o = s
        for k in path.split("."):
            o = getattr(o, k)
        o.is_enabled = False


def options(cfg, off=()):
    o = dp.ProfilerOptions()
    o.set({"*.data_labeler.is_enabled": False, "data_labeler.is_enabled": False,
           "multiprocess.is_enabled": False})
    s = o.structured_options
    for name in off:
        switch_off(s, name)
    if cfg == "hll":
        s.row_statistics.unique_count.hashing_method = "hll"
    elif cfg == "corr":
        s.correlation.is_enabled = True
    elif cfg == "nrep":
        s.null_replication_metrics.is_enabled = True
    elif cfg == "cms":
        s.category.cms = True
        s.category.cms_confidence = 0.99
        s.category.cms_relative_error = 0.005
    elif cfg == "bias":
        o.set({"*.bias_correction.is_enabled": False})
    elif cfg == "heavy":
        s.category.cms = True
        s.category.cms_confidence = 0.99
        s.category.cms_relative_error = 0.005
        s.category.cms_max_num_heavy_hitters = 4
    elif cfg == "topk":
        s.category.top_k_categories = 2
    elif cfg == "stop":
        s.category.max_sample_size_to_check_stop_condition = 6
        s.category.stop_condition_unique_value_ratio = 0.5
    elif cfg == "nulls":
        s.null_values = {"": 0, "0": 0, "nan": re.IGNORECASE, "red": re.IGNORECASE, "x.*": 0, "-1": 0}
    elif cfg == "colnulls":
        s.column_null_values = {0: {"5": 0, "a": 0}, 1: {"1.*": 0}}
    return o


def text(cs):
    return "".join(cs)


def typed(cell, how, missing):
    """The cell as another object that is written the same way or nearly so."""
    if how == "str":
        return cell
    if cell == "nan":  # a missing object is not the text which stands for it
        return float("nan") if missing else cell
    if cell in ("True", "False"):
        return cell == "True"
    for f in (int, float, datetime.date.fromisoformat, datetime.datetime.fromisoformat):
        try:
            x = f(cell)
            if f is float and math.isnan(x):
                return cell
            return np.float64(x) if f is float and how == "numpy" else x
        except ValueError:
            pass
    return cell


def batch(op, form):
    """The data as the profiler is given it, and the cells as text."""
    cells = [[text(c) for c in col] for col in op["data"]]
    if form == "mixed":
        how = [["str", "native", "numpy"][(i + len(op["ids"])) % 3] for i in range(len(cells))]
    else:
        how = [{"native": "native", "numpy": "numpy", "list": "native", "series": "native"}.get(form, "str")] * len(cells)
    vals = [[typed(c, h, form != "mixed") for c in col] for col, h in zip(cells, how)]
    if form == "list":
        rows = [list(r) for r in zip(*vals)]
        return rows, [[str(r[i]) for r in rows] for i in range(len(vals))]
    df = pd.DataFrame({i: col for i, col in enumerate(vals)}, dtype=None if form == "numpy" else object)
    texts = [[str(x) for x in df[i]] for i in range(len(vals))]
    df.columns = [text(c) for c in op["cols"]]
    df.index = pd.Index(op["ids"], dtype="int64")
    if form == "series" and len(vals) == 1:
        df = df.iloc[:, 0]
    if form == "reader":
        return CSVData(data=df), texts
    return df, texts


REPORT = {"output_format": "serializable"}


def full_report(p):
    return p.report(dict(REPORT))


def strip(x, drop=("times", "samples")):
    if isinstance(x, dict):
        return {str(k): strip(v, drop) for k, v in x.items() if k not in drop}
    if isinstance(x, (list, tuple)):
        return [strip(v, drop) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((strip(v, drop) for v in x), key=repr)
    if isinstance(x, np.ndarray):
        return strip(x.tolist(), drop)
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, float):
        return "nan" if math.isnan(x) else float("%.9g" % x)
    return x


def canon_report(p):
    """The report with everything that is not a function of the data removed
    (timings, the random sample values) and unordered parts sorted."""
    r = strip(full_report(p))
    for c in r.get("data_stats", []):
        s = c.get("statistics", {})
        for k in ("vocab", "null_types", "categories", "format"):
            if isinstance(s.get(k), list):
                s[k] = sorted(s[k])
    return r


def digest(p):
    return hashlib.md5(json.dumps(canon_report(p), sort_keys=True, default=str).encode()).hexdigest()


# ---------------------------------------------------------------- projection
def power_sums(mean, var, skew, kurt, n, biased=False, tol=1e-3):
    """Invert the reported moments to scaled raw power sums (4*value)."""
    N = lambda x: x is None or (isinstance(x, float) and math.isnan(x))
    if N(mean):
        return [tagged(mean)] + [[0, 0]] * 3
    s1 = tagged(mean * n * 4)
    if N(var):
        return [s1, tagged(var), tagged(skew), tagged(kurt)]
    m = mean
    M2 = var * (n if biased else n - 1)
    r2 = M2 + n * m * m
    s2 = tagged(r2 * 16)
    if N(skew):
        return [s1, s2, tagged(skew), tagged(kurt)]
    # the population skewness and excess kurtosis behind the reported ones
    g1 = skew if biased or n < 3 else skew * (n - 2) / math.sqrt(n * (n - 1))
    g2 = kurt if N(kurt) or biased or n < 4 else (kurt * (n - 2) * (n - 3) / (n - 1) - 6) / (n + 1)
    if M2 < 1e-9:
        return [s1, s2, [4, int(round(g1 * 1000))],
                tagged(kurt) if N(kurt) else [4, int(round(g2 * 1000))]]
    m2 = M2 / n
    m3 = g1 * m2 ** 1.5
    r3 = n * (m3 + 3 * m * m2 + m ** 3)
    s3 = tagged(r3 * 64, 1, tol)
    if N(kurt):
        return [s1, s2, s3, tagged(kurt)]
    m4 = (g2 + 3) * m2 * m2
    r4 = n * (m4 + 4 * m * m3 + 6 * m * m * m2 + m ** 4)
    return [s1, s2, s3, tagged(r4 * 256, 1, tol)]


def rounded(x, digits, scale):
    """Interval (scaled integers) of numbers which round to x at `digits`
    significant figures."""
    if x is None or (isinstance(x, float) and math.isnan(x)):
        return [0, 0, 0]
    if x == 0:
        h = 10.0 ** (-digits)
    else:
        h = 0.5 * 10.0 ** (math.floor(math.log10(abs(x))) - digits + 1)
    return [1, math.floor((x - h) * scale) - 1, math.ceil((x + h) * scale) + 1]


def spread(p, d):
    """1 if the reported std is the root of the reported var and the margin of
    error is 3.291 std / sqrt(n), up to the rounding to d figures."""
    N = lambda x: x is None or math.isnan(x)
    if N(p["var"]) or N(p["std"]) or N(p["margin_of_error"]):
        return int(N(p["var"]) and N(p["std"]) and N(p["margin_of_error"]))
    iv = lambda x: [max(0, y / 1e6) for y in rounded(x, d, 1e6)[1:]]
    hit = lambda a, b: a[0] <= b[1] and b[0] <= a[1]
    v, s, m = iv(p["var"]), iv(p["std"]), iv(p["margin_of_error"])
    k = 3.291 / math.sqrt(p["sample_size"])
    return int(hit([math.sqrt(x) for x in v], s) and hit([k * x for x in s], m)
               and abs(p["confidence_level"] - 0.999) < 1e-9)


def whole(x):
    """Nearest integer within TLC's range (far outside any right value else)."""
    if x is None or math.isnan(x):
        return -2000000000
    return int(max(-2000000000, min(2000000000, round(x))))


FORMATS = ["%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S", "%Y-%m-%dT%H:%M:%S.%fZ", "%Y-%m-%dt%H:%M:%S.%fz",
           "%m/%d/%y %H:%M", "%m/%d/%Y %H:%M", "%Y%m%dT%H%M%S", "%Y-%m-%d", "%m/%d/%Y", "%m/%d/%y", "%b %d, %Y",
           "%B %d, %Y", "%d%b%y", "%b-%d-%y", "%m%d%Y", "%H:%M:%S.%f"]  # as Dates.tla numbers them


def formats(fs):
    return [FORMATS.index(f) + 1 if f in FORMATS else 0 for f in fs or []]


def col_obs(c, cfg):
    s = c["statistics"]
    on = 100000000 if cfg == "far" and c["data_type"] in ("int", "float") else 0
    on = 255 if cfg == "long" and c["data_type"] in ("string", "text") else on
    off = lambda x: None if x is None else x - on
    n = s["sample_size"]
    v = n - s["null_count"]
    o = {"name": list(str(c["column_name"])), "dt": "string" if c["data_type"] == "text" else c["data_type"] or "none",
         "dname": c["data_type"] or "none",
         "cat": int(bool(c["categorical"])) if c["categorical"] is not None else 2,
         "order": c["order"] or "none", "n": n, "nullc": s["null_count"],
         "null": sorted([list(k), sorted(int(i) for i in ix)]
                        for k, ix in s["null_types_index"].items()),
         "ntypes": sorted(list(k) for k in s["null_types"]),
         "samples": [list(x) for x in (c["samples"] or [])]}
    rep = s.get("data_type_representation")
    rep = {"string" if k == "text" else k: x for k, x in (rep or {}).items()}
    o["repr"] = [tagged(rep.get(t, 0) * v) for t in ("datetime", "int", "float", "string")]
    o["uniq"] = s.get("unique_count", -1)
    ur = s.get("unique_ratio")
    o["uratio"] = [1, math.floor(ur * 1000 + 1e-6)] if ur is not None else [2, 0]
    cc = s.get("categorical_count")
    o["hascats"] = int(cc is not None)
    o["cats"] = [[list(k), int(n_)] for k, n_ in (cc or {}).items()]
    o["catlist"] = [list(k) for k in (s.get("categories") or [])]
    gi, ua = s.get("gini_impurity"), s.get("unalikeability")
    # both are the number of unequal pairs, over v^2 and over v^2 - v
    o["gini"] = [2, 0] if gi is None else tagged(gi * v * v)
    o["unal"] = [2, 0] if ua is None else tagged(ua * (v * v - v) if v > 1 else ua)
    dt = o["dt"]
    none = [2, 0]
    o["mom"] = [none] * 4
    for k in ("mn", "mx", "sum", "sd", "z", "g"):
        o[k] = none
    o["vocab"] = []
    o["dmin"] = o["dmax"] = o["fmt"] = []
    o["prec"] = []
    o["psd"] = 1
    o["ed"], o["cum"], o["q"], o["mode"], o["med"], o["mad"] = [], [], [], [], 0, 0
    if dt in ("int", "float", "string"):
        o["mom"] = power_sums(off(s["mean"]), s["variance"], s["skewness"], s["kurtosis"], v, cfg == "bias", 0.2 if cfg == "far" else 1e-3)
        o["mn"] = tagged(off(s["min"]), 4)
        o["mx"] = tagged(off(s["max"]), 4)
        o["sum"] = tagged(None if s["sum"] is None else s["sum"] - on * v, 4)
        sd = s["stddev"]
        va = s["variance"]
        o["sd"] = [1, int(abs(sd * sd - va) < 1e-6 * max(1, abs(va)))] if sd is not None and not math.isnan(sd) else tagged(sd)
        o["z"] = tagged(s.get("num_zeros"))
        o["g"] = tagged(s.get("num_negatives"))
        h = s["histogram"]
        if h and h["bin_counts"] is not None:
            cnt = np.asarray(h["bin_counts"], float)
            ed = np.asarray(h["bin_edges"], float)
            q = s["quantiles"] or {}
            qs = [q[k] for k in sorted(q, key=int)] if isinstance(q, dict) else list(q)
            o["ed"] = [whole((x - on) * 4000) for x in ed]
            o["cum"] = [whole(x * 1000) for x in np.cumsum(cnt)]
            o["q"] = [whole((x - on) * 4000) for x in qs]
            o["med"] = whole((s["median"] - on) * 4000)
            o["mad"] = whole(s["median_abs_deviation"] * 4000)
            o["mode"] = [whole((x - on) * 4000) for x in (s["mode"] or [])]
        if dt == "string":
            o["vocab"] = [x for x in s.get("vocab") or []]
        if dt == "float":
            p = s["precision"]
            mx = p["max"] or 0
            d = max(1, int(mx))
            o["prec"] = [tagged(p["min"]), tagged(p["max"]), rounded(p["mean"], d, 10000),
                         rounded(p["var"], d, 10000), tagged(p["sample_size"])]
            o["psd"] = spread(p, d)
    elif dt == "datetime":
        o["dmin"] = list(s["min"] or "")
        o["dmax"] = list(s["max"] or "")
        o["fmt"] = formats(s["format"])
    return o


def ratio(r, n):
    return tagged(r * n) if r is not None else [2, 0]


def pair_obs(r):
    """Statistics about pairs of columns, inverted to integers: chi-squared
    statistics in hundredths, n^2 covariance of 4 * value, counts and sums."""
    g, cols = r["global_stats"], r["data_stats"]
    n = len(cols)
    chi2, corr = [], []
    if g.get("chi2_matrix") is not None:
        m = np.asarray(g["chi2_matrix"], float)
        cats = [set(c["statistics"].get("categorical_count") or ()) for c in cols]
        for i in range(n):
            row = []
            for j in range(n):
                pv, df = m[i][j], len(cats[i] | cats[j]) - 1
                if i == j:
                    row.append(tagged(1 - pv))
                elif math.isnan(pv):
                    row.append([0, 0])
                elif pv == 0:
                    row.append([3, 1])
                else:
                    row.append([1, math.floor(100 * scipy.stats.chi2.isf(pv, df) + 0.01)])
            chi2.append(row)
    if g.get("correlation_matrix") is not None:
        m = np.asarray(g["correlation_matrix"], float)
        num = lambda x: float("nan") if x is None else float(x)
        var = [num(c["statistics"].get("variance")) for c in cols]
        rows = g["row_count"]
        for i in range(n):
            corr.append([tagged(m[i][j] * math.sqrt(var[i] * var[j]) * rows * (rows - 1) * 16
                                if not math.isnan(m[i][j]) else float("nan"), 1, 1e-2) for j in range(n)])
    nrep = []
    for i, c in enumerate(cols):
        x = c.get("null_replication_metrics")
        if not x:
            nrep.append([])
            continue
        s = c["statistics"]
        nn, nc = s["sample_size"], s["null_count"]
        wide = lambda v: list(v[:i]) + [0] + list(v[i:])
        nrep.append({"prior": [tagged(q * nn) for q in x["class_prior"]],
                     "rest": [tagged(v, 4) for v in wide(x["class_sum"][0])],
                     "null": [tagged(v, 4) for v in wide(x["class_sum"][1])],
                     "restmean": [tagged(v * (nn - nc), 4) for v in wide(x["class_mean"][0])],
                     "nullmean": [tagged(v * nc, 4) for v in wide(x["class_mean"][1])]})
    return chi2, corr, nrep


def prof_obs(p, cfg, pairs=0):
    r = full_report(p)
    g = r["global_stats"]
    rows = g["row_count"]
    least = min([c["statistics"]["sample_size"] for c in r["data_stats"]], default=0)
    tol = 0.45 if cfg == "hll" else 1e-3
    chi2, corr, nrep = pair_obs(r) if pairs else ([], [], [])
    return {
        "chi2": chi2, "corr": corr, "nrep": nrep,
        "rows": rows, "used": g["samples_used"], "ncols": g["column_count"],
        "hasnull": ratio(g["row_has_null_ratio"], least),
        "isnull": ratio(g["row_is_null_ratio"], least),
        "uniq": [2, 0] if g["unique_row_ratio"] is None else tagged(g["unique_row_ratio"] * rows, 1, tol),
        "dup": [2, 0] if g["duplicate_row_count"] is None else tagged(g["duplicate_row_count"], 1, tol),
        "schema": sorted([list(str(k)), sorted(v)] for k, v in g["profile_schema"].items()),
        "cols": [col_obs(c, cfg) for c in r["data_stats"]],
    }


# --------------------------------------------------------------- comparisons
def numdiff(d, scale=1):
    if isinstance(d, str):
        return [5, 0] if d == "unchanged" else [6, 0]
    if isinstance(d, (list, tuple)):
        return [6, 1]
    return tagged(d, scale)


def strdiff(d):
    if d is None:
        return ["absent"]
    if isinstance(d, str) and d == "unchanged":
        return ["unchanged"]
    name = lambda x: "none" if x is None else str(int(x)) if isinstance(x, (bool, np.bool_)) else str(x)
    return [name(x) for x in d]


def setdiff(d, key=lambda x: x):
    if isinstance(d, str):
        return {"same": int(d == "unchanged"), "a": [], "b": [], "both": []}
    if d is None or len(d) != 3:  # not a three-way comparison
        return {"same": 2, "a": [], "b": [], "both": []}
    return {"same": 0, "a": [key(x) for x in d[0]], "both": [key(x) for x in d[1]], "b": [key(x) for x in d[2]]}


def idxdiff(d):
    """Row positions per null spelling."""
    if isinstance(d, str):
        return {"same": int(d == "unchanged"), "a": [], "b": [], "both": []}
    f = lambda m: [[list(str(k)), sorted(int(i) for i in v)] for k, v in m.items()]
    return {"same": 0, "a": f(d[0]), "b": f(d[2]),
            "both": [[list(str(k)), setdiff(v, int)] for k, v in d[1].items()]}


def seconds(d):
    if isinstance(d, str) and d == "unchanged":
        return [5, 0]
    m = re.match(r"^([+-])(?:(\d+) days?,? )?(\d+):(\d\d):(\d\d)$", d) if isinstance(d, str) else None
    if not m:
        return [6, 0]
    d, h, mi, s = (int(x or 0) for x in m.groups()[1:])
    return [1, (-1 if m.group(1) == "-" else 1) * (((d * 24 + h) * 60 + mi) * 60 + s)]


def ten(x):
    """In ten-thousandths; not a number and absent kept apart from numbers."""
    if isinstance(x, str):
        return [5, 0] if x == "unchanged" else [6, 0]
    if isinstance(x, (list, tuple)):
        return [6, 1]
    if x is None:
        return [2, 0]
    return [0, 0] if math.isnan(x) else [1, whole(x * 10000)]


AGREE = [("median", "median"), ("median_absolute_deviation", "median_abs_deviation"),
         ("variance", "variance"), ("stddev", "stddev")]


def ttest(t, a, b, n1, n2):
    if t is None or t["t-statistic"] is None:
        return [[2, 0], [2, 0], 0]
    v1, v2 = a["variance"], b["variance"]
    w1, w2 = v1 / n1, v2 / n2
    x = t["t-statistic"]
    k, w = t["conservative"], t["welch"]
    wdf = (w1 + w2) ** 2 / (w1 ** 2 / (n1 - 1) + w2 ** 2 / (n2 - 1))
    pv = lambda df: 2 * scipy.stats.t.sf(abs(x), df)
    good = (abs(w["deg_of_free"] - wdf) < 1e-6 * wdf and abs(pv(wdf) - w["p-value"]) < 1e-6
            and abs(pv(k["deg_of_free"]) - k["p-value"]) < 1e-6)
    return [tagged(x * math.sqrt(w1 + w2) * n1 * n2 * 4, 1, 1e-2), tagged(k["deg_of_free"]), int(good)]


def diff_col(c, a, b):
    """One column of the comparison; a, b: the two columns' reports."""
    s, sa, sb = c["statistics"], a["statistics"], b["statistics"]
    n1, n2 = sa["sample_size"], sb["sample_size"]
    v1, v2 = n1 - sa["null_count"], n2 - sb["null_count"]
    o = {"n": numdiff(s["sample_size"]), "nullc": numdiff(s["null_count"]),
         "nullr": numdiff(s["null_ratio"], n1 * n2), "ntypes": setdiff(s["null_types"], list),
         "nullidx": idxdiff(s["null_types_index"]), "order": strdiff(c["order"]),
         "cat": strdiff(c["categorical"]), "dt": ["string" if x == "text" else x for x in strdiff(c["data_type"])],
         "uniq": numdiff(s["unique_count"]), "uratio": numdiff(s["unique_ratio"], v1 * v2)}
    rep = s.get("data_type_representation") or {}
    rep = rep if isinstance(rep, dict) else {}
    o["repr"] = [numdiff(rep.get(t, "absent"), v1 * v2) for t in ("datetime", "int", "float", "text")]
    o["hascats"] = int("categorical_count" in s)
    none = {"same": 2, "a": [], "b": [], "both": []}
    o["cats"], o["catcount"], o["chi"] = none, [], {"df": [2, 0], "x": [0, 0], "p": 1}
    if o["hascats"]:
        o["cats"] = setdiff(s["categories"], list)
        cc = s["categorical_count"]
        o["catcount"] = [[list(k), 0 if isinstance(v, str) else v] for k, v in cc.items()] if isinstance(cc, dict) else []
        x = s["chi2-test"]
        st, df, pv = x["chi2-statistic"], x["deg_of_free"], x["p-value"]
        o["chi"]["df"] = tagged(df)
        if df is None:
            k = len(set(sa["categorical_count"] or ()) | set(sb["categorical_count"] or ()))
            o["chi"]["df"] = [1, k - 1] if k <= 1 else [2, 0]
        elif math.isinf(st):
            o["chi"].update(x=[3, 1], p=int(pv == 0))
        else:
            o["chi"].update(x=[1, math.floor(100 * st + 0.01)], p=int(abs(scipy.stats.chi2.sf(st, df) - pv) < 1e-9))
    o["mn"] = o["mx"] = o["sum"] = o["mean"] = o["dmin"] = o["dmax"] = [2, 0]
    o["agree"], o["mode"], o["vocab"], o["t"], o["psi"], o["fmt"] = [], 1, none, [], [2, 0], 1
    if o["dt"] == ["unchanged"] and a["data_type"] in ("int", "float", "string"):
        o["mn"], o["mx"], o["sum"] = (numdiff(s[k], 4) for k in ("min", "max", "sum"))
        o["mean"] = numdiff(s["mean"], 4 * v1 * v2)
        o["agree"] = [{"d": ten(s[d]), "a": ten(sa[r]), "b": ten(sb[r])} for d, r in AGREE]
        if o["hascats"]:
            o["agree"] += [{"d": ten(s[k]), "a": ten(sa[k]), "b": ten(sb[k])} for k in ("gini_impurity", "unalikeability")]
        m = setdiff(s["mode"])
        ma, mb = sa["mode"], sb["mode"]
        o["mode"] = int(m["same"] == 1 and sorted(ma) == sorted(mb) or
                        m["same"] == 0 and sorted(ma) != sorted(mb)
                        and sorted(m["a"] + m["both"]) == sorted(ma) and sorted(m["b"] + m["both"]) == sorted(mb)
                        and not set(m["a"]) & set(m["b"]))
        o["t"] = ttest(s["t-test"], sa, sb, v1, v2)
        o["psi"] = ten(s.get("psi"))
        if a["data_type"] == "string":
            o["vocab"] = setdiff(s["vocab"])
        if a["data_type"] == "float":
            o["agree"] += [{"d": ten(v), "a": ten(sa["precision"][k]), "b": ten(sb["precision"][k])}
                           for k, v in s["precision"].items()]
    elif o["dt"] == ["unchanged"] and a["data_type"] == "datetime":
        o["dmin"], o["dmax"] = seconds(s["min"]), seconds(s["max"])
        f = setdiff(s["format"])
        fa, fb = set(sa["format"]), set(sb["format"])
        o["fmt"] = int(f["same"] == 1 and fa == fb or f["same"] == 0 and fa != fb and set(f["a"]) == fa - fb
                       and set(f["b"]) == fb - fa and set(f["both"]) == fa & fb)
    return o


def matdiff(d, a, b):
    """Entries of a comparison of matrices; shape: 1 if there is one."""
    if a is None or b is None or np.shape(a) != np.shape(b):
        return {"shape": int(d is not None), "want": 0, "e": []}
    if d is None:
        return {"shape": 0, "want": 1, "e": []}
    f = lambda m: [float("nan") if x is None else float(x) for r in m for x in r]
    e = ["unchanged"] * len(f(a)) if isinstance(d, str) else f(d)
    return {"shape": 1, "want": 1, "e": [{"d": ten(x), "a": ten(y), "b": ten(z)} for x, y, z in zip(e, f(a), f(b))]}


def diff_obs(p, q):
    d = p.diff(q)
    a, b = full_report(p), full_report(q)
    g = d["global_stats"]
    n1, n2 = a["global_stats"]["row_count"], b["global_stats"]["row_count"]
    sc = g["profile_schema"]
    sch = {"same": 1, "a": [], "b": [], "both": [], "moved": []}
    if not isinstance(sc, str):
        f = lambda m: [list(str(k)) for k in m]
        sch = {"same": 0, "a": f(sc[0]), "both": f(sc[1]), "b": f(sc[2]),
               "moved": [list(str(k)) for k, v in sc[1].items() if not isinstance(v, str)]}
    cols = d["data_stats"]
    return {"rows": numdiff(g["row_count"]), "used": numdiff(g["samples_used"]), "ncols": numdiff(g["column_count"]),
            "hasnull": numdiff(g["row_has_null_ratio"], n1 * n2), "isnull": numdiff(g["row_is_null_ratio"], n1 * n2),
            "rowuniq": numdiff(g["unique_row_ratio"], n1 * n2), "dup": numdiff(g["duplicate_row_count"]),
            "schema": sch,
            "mats": [matdiff(g[k], a["global_stats"][k], b["global_stats"][k]) for k in ("chi2_matrix", "correlation_matrix")],
            "cols": [diff_col(c, x, y) for c, x, y in zip(cols, a["data_stats"], b["data_stats"])]}


# ------------------------------------------------------------------- driving
def listing(p):
    """Per column the labels of missing values and the counts of the others
    (None if they are not listed)."""
    out = []
    for c in full_report(p)["data_stats"]:
        s = c["statistics"]
        v = s["sample_size"] - s["null_count"]
        out.append(({int(i) for ix in s["null_types_index"].values() for i in ix},
                    s.get("categorical_count") if v else {}))
    return out


def long_table(rows, pct):
    """Counts of a profile of a long table, fed twice."""
    o = options("plain", ["order", "category", "datetime", "float", "string", "chi2", "int.hist", "int.mode", "int.median",
                          "int.mad"])
    o.structured_options.sampling_ratio = pct / 100
    df = pd.DataFrame({"a": [str(i % 7) for i in range(rows)], "b": [""] * rows})
    p = dp.Profiler(df, options=o)
    p.update_profile(df)
    r = full_report(p)
    a, b = (c["statistics"] for c in r["data_stats"])
    ix = {int(i) for x in b["null_types_index"].values() for i in x}
    g = r["global_stats"]
    return [a["sample_size"], b["sample_size"], g["row_count"], g["samples_used"],
            len(ix) if ix <= set(range(2 * rows)) else -1]


def sampled(before, after, kind):
    """What the columns list now and did not list before."""
    nl, nv = [], []
    before = before or [(set(), {})] * len(after)
    for (l0, c0), (l1, c1) in zip(before, after):
        if kind == 2 and (c0 is None or c1 is None):
            return [], []
        nl.append(sorted(l1 - l0))
        nv.append([list(x) for x in c1 if c1[x] > c0.get(x, 0)] if kind == 2 else [])
    return nl, nv


def reload_profile(p, method):
    if method == "pickle":
        buf = io.BytesIO()
        d = tempfile.mkdtemp()
        fn = os.path.join(d, "p.pkl")
        try:
            p.save(filepath=fn)
            return dp.Profiler.load(fn)
        finally:
            if os.path.exists(fn):
                os.unlink(fn)
            os.rmdir(d)
    d = tempfile.mkdtemp()
    fn = os.path.join(d, "p.json")
    try:
        p.save(filepath=fn, save_method="json")
        return dp.Profiler.load(fn, load_method="json")
    finally:
        if os.path.exists(fn):
            os.unlink(fn)
        os.rmdir(d)


def replay(beh):
    """One behaviour -> one trace."""
    cfg, form = beh["cfg"], beh["form"]
    slot, dig, steps, shown = {}, {}, [], []
    kind = beh["sampling"]
    for i, op in enumerate(beh["ops"]):
        if kind:
            dp.set_seed(97 * beh["seed"] + i)
        st = dict(op)
        o, p, q, r = op["op"], op["p"], op["q"], op["r"]
        st.update(ok=1, err="", obs=[], chg=[], same=2, tchg=0, diff=[], seen=[], stale=[], again=2)
        tgt = {"new": p, "update": p, "merge": r, "reload": r}.get(o, 0)
        try:
            if any(k and k not in slot for k in ({"new": [], "reload": [p], "view": [p], "big": []}.get(o, [p, q]))):
                raise LookupError("operand does not exist")
            if o == "new":
                data, cells = batch(op, form)
                st["data"] = [[list(c) for c in col] for col in cells]
                make = lambda: dp.Profiler(data, options=options(cfg, op["off"]), samples_per_update=op["k"] or None,
                                           min_true_samples=op["mt"])
                slot[p] = make()
                if kind:
                    st["nl"], st["nv"] = sampled(None, listing(slot[p]), kind)
                    st["again"] = int(strip(full_report(slot[p]), ("times",)) == strip(full_report(make()), ("times",)))
            elif o == "update":
                data, cells = batch(op, form)
                st["data"] = [[list(c) for c in col] for col in cells]
                if kind:
                    old = listing(slot[p])
                    slot[p].update_profile(data, sample_size=op["k"] or None, min_true_samples=op["mt"] or None)
                    st["nl"], st["nv"] = sampled(old, listing(slot[p]), kind)
                else:
                    slot[p].update_profile(data)
            elif o == "merge":
                new = slot[p] + slot[q]
                slot[r] = new
            elif o == "reload":
                new = reload_profile(slot[p], op["m"])
                slot[r] = new
            elif o == "report":
                for fmt in ("pretty", "compact", "serializable", "flat", None):
                    slot[p].report({"output_format": fmt, "num_quantile_groups": 4})
            elif o == "big":
                st["seen"] = long_table(op["g"], op["rdf"])
            elif o == "view":
                st["seen"], rep = views.look(slot[p], op)
                shown.append([p, rep, copy.deepcopy(rep)])
            elif o == "diff":
                if beh["pairs"] == 2:
                    st["diff"] = diff_obs(slot[p], slot[q])
                else:
                    slot[p].diff(slot[q])
        except Exception as e:  # recorded: the specification says whether it may fail
            st["ok"] = 0
            st["err"] = "%s: %s" % (type(e).__name__, str(e)[:200])
        for k in sorted(slot):
            try:
                d = digest(slot[k])
            except Exception as e:
                d = "unreportable " + repr(e)[:200]
                if k == tgt:
                    st["ok"] = 0
                    st["err"] = "report: " + d
            if dig.get(k) != d:
                if k == tgt:
                    st["tchg"] = 1
                else:
                    st["chg"].append(k)
            dig[k] = d
        for x in shown:  # reports handed out before stay as they were
            if not views.same(x[1], x[2]):
                st["stale"].append(x[0])
                x[2] = copy.deepcopy(x[1])
        if o == "reload" and st["ok"]:
            st["same"] = int(dig[p] == dig[r])
        if tgt in slot and st["ok"]:
            try:
                st["obs"] = prof_obs(slot[tgt], cfg, beh["pairs"] == 1)
            except Exception as e:
                if st["ok"]:
                    st["ok"] = 0
                    st["err"] = "projection: %s: %s" % (type(e).__name__, str(e)[:200])
        steps.append(st)
    dp.set_seed(None)
    return {"seed": beh["seed"], "cfg": cfg, "pairs": beh["pairs"], "sampling": kind, "steps": steps}
