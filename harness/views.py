"""Ask for a report with options and record how it relates to the plain one."""
import copy, json, math

import numpy as np


def same(a, b):
    """Equal, nan equal to nan, arrays element by element."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and same(a.tolist(), b.tolist())
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a):
        return math.isnan(b)
    return a == b


def leaves(x, path=(), col=0):
    """(column, path, value) of every leaf; the quantiles count as one."""
    if isinstance(x, dict):
        if len(path) == 4 and path[0] == "data_stats" and path[3] == "quantiles":
            if x:
                yield col, path + ("#",), x
            return
        for k, v in x.items():
            yield from leaves(v, path + (str(k),), col)
    elif path == ("data_stats",) and isinstance(x, list):
        for j, v in enumerate(x, 1):
            if v is not None:
                yield from leaves(v, path + ("@%d" % j,), j)
    else:
        yield col, path, x


def flat_key(path):
    return "_".join([k.replace(" ", "_") for k in path[:-1]] + [path[-1]])


def unflatten(view, base):
    """Leaves of a flat report, by the paths of the plain one."""
    names = {}
    for c, path, _ in base:
        names.setdefault((c, flat_key(path[2:] if c else path)), []).append(path)

    def part(d, c):
        q = {}
        for k, v in d.items():
            if c and str(k).startswith("statistics_quantiles_"):
                q[int(k.rsplit("_", 1)[1])] = v
                continue
            ps = names.get((c, str(k)), [("?", str(k))])
            if len(ps) == 1 and not isinstance(v, dict):
                yield c, ps[0], v
            else:
                yield c, ("??", str(k)), v
        if q:
            yield c, ("data_stats", "@%d" % c, "statistics", "quantiles", "#"), q

    cols = view.get("data_stats")
    if isinstance(cols, list):
        yield from part({k: v for k, v in view.items() if k != "data_stats"}, 0)
        for j, col in enumerate(cols, 1):
            if col is not None:
                yield from part(col, j)
    else:
        yield from part(view, 0)


def short(v, text):
    """Is the text the array, or its first and its last k elements?"""
    if len(v) == 0 and isinstance(text, list):
        return text == []
    a = np.array(v)
    s = lambda x: np.array2string(x, separator=", ")
    return isinstance(text, str) and (text == s(a) or any(
        text == s(a[:k])[:-1] + ", ... , " + s(a[-k:])[1:] for k in range(1, len(a) + 1)))


def renders(fmt, a, b):
    if fmt in ("pretty", "compact"):
        if isinstance(a, float) and not isinstance(a, bool):
            return isinstance(b, float) and (math.isnan(a) and math.isnan(b) or
                                             abs(a - b) <= 0.50001e-4 and b == round(b, 4))
        if isinstance(a, (list, np.ndarray)):
            return short(a, b)
    if fmt == "serializable" and isinstance(a, np.ndarray):
        return isinstance(b, list) and same(a.tolist(), b)
    return same(a, b)


def request(op, names):
    ref = lambda k: (names[int(k[1:]) - 1] if int(k[1:]) <= len(names) else "nowhere") if k.startswith("@") else k
    fmt = op["fmt"] or None
    if fmt and len(op["omit"]) == 1:
        fmt = fmt.upper()
    r = {"output_format": fmt, "omit_keys": [".".join(ref(k) for k in p) for p in op["omit"]],
         "num_quantile_groups": op["g"], "remove_disabled_flag": bool(op["rdf"])}
    if not op["omit"]:
        del r["omit_keys"]
        if op["g"] == 4:
            del r["num_quantile_groups"]
            if not op["fmt"] and not op["rdf"]:
                return None
    return r


def scribble(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            scribble(v)
        x["scribble"] = 1
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x.append("scribble")


def look(prof, op):
    """The observation of one view, and the report itself."""
    plain = prof.report({"num_quantile_groups": 1000})
    names = [str(c["column_name"]) for c in plain["data_stats"]] if isinstance(plain["data_stats"], list) else []
    req = request(op, names)
    kept = copy.deepcopy(req)
    view = prof.report(req) if req is not None else prof.report()
    base = list(leaves(plain))
    value = {p: v for _, p, v in base}
    seen = list(unflatten(view, base) if op["fmt"] == "flat" else leaves(view))
    rows, q = [], {}
    for c, p, v in seen:
        if p[3:] == ("quantiles", "#"):
            full = list(value.get(p, {}).values())
            keys = list(v)
            vals = [v[k] for k in sorted(v)]
            ok = int(sorted(keys) == list(range(len(keys))))
            out = []
            for x in vals:
                at = [i for i, y in enumerate(full) if renders(op["fmt"], y, x)]
                out.append([at[0], at[-1]] if at else [-1, -2])
            q[c] = out
        else:
            ok = int(p in value and renders("" if p[1:2] == ("profile_schema",) else op["fmt"], value[p], v))
        rows.append({"c": c, "path": list(p), "ok": ok})
    cols = view.get("data_stats") if isinstance(view, dict) else None
    js = 1
    if op["fmt"] == "serializable":
        try:
            json.dumps(view)
        except (TypeError, ValueError):
            js = 0
    obs = {"base": [{"c": c, "path": list(p)} for c, p, _ in base], "view": rows,
           "cols": [int(c is not None) for c in cols] if isinstance(cols, list) else [],
           "q": [q.get(j, []) for j in range(1, len(names) + 1)], "json": js, "asked": int(kept == req)}
    scribble(prof.report(copy.deepcopy(req)))
    return obs, view
