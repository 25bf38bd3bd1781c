"""Replays behaviours of Bulk.tla: profiles of long tables given as runs."""
import numpy as np
import pandas as pd

import structured as S
import dataprofiler as dp


def table(op):
    n = [r["n"] for r in op["runs"]]
    cols = {"c%d" % j: np.repeat(np.array([S.text(r["row"][j]) for r in op["runs"]], dtype=object), n)
            for j in range(op["nc"])}
    if op["ramp"]:
        a, k = op["ramp"][0]
        cols["r"] = np.array([str(a + i) for i in range(k)], dtype=object)
    df = pd.DataFrame(cols)
    if op["mix"]:
        order = np.random.RandomState(len(df)).permutation(len(df))
        df = df.iloc[order].reset_index(drop=True)
    return df


def options(cfg):
    o = S.options(cfg)
    o.structured_options.sampling_ratio = 1.0
    return o


def obs(p, cfg):
    o = S.prof_obs(p, cfg)
    for c in o["cols"]:
        labels = [i for _, ix in c["null"] for i in ix]
        c["nulln"] = [[k, len(ix)] for k, ix in c["null"]]
        c["nullin"] = int(len(set(labels)) == len(labels) and all(0 <= i < o["rows"] for i in labels))
        c.pop("null")
        c["catlist"] = []
        if c["dt"] == "int" and c["uniq"] > 100:  # the column of distinct numbers
            c["ed"], c["q"], c["mode"], c["cats"] = [], [], [], []
            c["cum"] = c["cum"][-1:]
            c["mom"] = []
    return o


def replay(beh):
    cfg = beh["cfg"]
    slot, dig, steps = {}, {}, []
    for op in beh["ops"]:
        st = dict(op)
        st.update(ok=1, err="", obs=[], chg=[], same=2)
        o, p, q, r = op["op"], op["p"], op["q"], op["r"]
        tgt = r if o in ("merge", "reload") else p
        try:
            if o == "new":
                slot.pop(p, None)
                slot[p] = dp.Profiler(table(op), options=options(cfg))
            elif o == "update":
                slot[p].update_profile(table(op))
            elif o == "merge":
                slot[r] = slot[p] + slot[q]
            elif o == "reload":
                a = S.digest(slot[p])
                slot[r] = S.reload_profile(slot[p], op["m"])
                st["same"] = int(a == S.digest(slot[r]))
            st["obs"] = obs(slot[tgt], cfg)
        except Exception as e:
            st["ok"], st["err"] = 0, "%s: %s" % (type(e).__name__, str(e)[:200])
        for k in sorted(slot):
            try:
                d = S.digest(slot[k])
            except Exception as e:
                d = repr(e)
            if k != tgt and dig.get(k) != d:
                st["chg"].append(k)
            dig[k] = d
        steps.append(st)
    return {"seed": beh["seed"], "cfg": cfg, "steps": steps}
