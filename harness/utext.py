"""Replays behaviours of UText.tla into the unstructured profiler."""
import copy, hashlib, json

import env  # noqa: F401
import pandas as pd
import dataprofiler as dp

import views
from proj import tagged
from structured import numdiff, reload_profile, setdiff, strip

PRESET = {
    "plain": {},
    "fold": {"text.is_case_sensitive": False},
    "nostop": {"text.stop_words": []},
    "own": {"text.stop_words": ["cat", "the"], "text.top_k_chars": 4, "text.top_k_words": 3},
    "ownf": {"text.is_case_sensitive": False, "text.stop_words": ["cat"], "text.top_k_words": 2},
    "topk": {"text.top_k_chars": 2, "text.top_k_words": 2},
    "chars": {"text.words.is_enabled": False},
    "words": {"text.is_case_sensitive": False, "text.stop_words": [], "text.top_k_chars": 3,
              "text.vocab.is_enabled": False},
}
TWO = "\u00e9"


def text(cs):
    return "".join(cs).replace("~", TWO)


def chars(s):
    return list(s.replace(TWO, "~"))


def options(m):
    o = dp.ProfilerOptions()
    o.set({"data_labeler.is_enabled": False})
    u = o.unstructured_options
    for k, v in PRESET[m].items():
        u.set({k: v})
    return o


def feed(data, form):
    ls = [text(x) for x in data]
    if form == "str":
        return ls[0]
    if form == "list":
        return ls
    if form == "series":
        return pd.Series(ls, dtype=object)
    if form == "named":
        return pd.Series(ls, dtype=object, name="t")
    if form == "shifted":
        return pd.Series(ls, dtype=object, index=range(7, 7 + len(ls)))
    return pd.DataFrame({"t": pd.Series(ls, dtype=object)})


def digest(p):
    r = strip(p.report({"output_format": "serializable"}))
    t = r["data_stats"]["statistics"]
    for k in ("vocab", "words"):
        t[k] = sorted(t[k])
    return hashlib.md5(json.dumps(r, sort_keys=True, default=str).encode()).hexdigest()


def obs(p):
    r = p.report({"output_format": "serializable"})
    g, t = r["global_stats"], r["data_stats"]["statistics"]
    return {"lines": g["samples_used"], "empty": g["empty_line_count"],
            "mem": tagged(g["memory_size"] * 1024 ** 2),
            "chars": [chars(c)[0] for c in t["vocab"]],
            "charcount": [[chars(c)[0], n] for c, n in t["vocab_count"].items()],
            "words": [chars(w) for w in t["words"]],
            "wordcount": [[chars(w), n] for w, n in t["word_count"].items()]}


def bagdiff(d, key):
    if isinstance(d, str):
        return {"same": int(d == "unchanged"), "a": [], "b": [], "both": []}
    f = lambda m: [[key(k), 0 if v == "unchanged" else v] for k, v in m.items()]
    return {"same": 0, "a": f(d[0]), "both": f(d[1]), "b": f(d[2])}


def diff_obs(d):
    g, t = d["global_stats"], d["data_stats"]["statistics"]
    one = lambda c: chars(c)[0]
    return {"lines": numdiff(g["samples_used"]), "empty": numdiff(g["empty_line_count"]),
            "mem": numdiff(g["memory_size"], 1024 ** 2),
            "chars": setdiff(t["vocab"], one), "words": setdiff(t["words"], chars),
            "charcount": bagdiff(t["vocab_count"], one), "wordcount": bagdiff(t["word_count"], chars)}


def tags(p):
    """Words which identify lines, and the number of empty lines."""
    r = p.report()
    return ({w for w in r["data_stats"]["statistics"]["words"] if w[0] == "w" and w[1:].isdigit()},
            r["global_stats"]["empty_line_count"])


def replay(beh):
    kind = beh["sampling"]
    slot, dig, steps, shown = {}, {}, [], []
    for i, op in enumerate(beh["ops"]):
        if kind:
            dp.set_seed(97 * beh["seed"] + i)
        st = dict(op)
        o, p, q, r = op["op"], op["p"], op["q"], op["r"]
        st.update(ok=1, err="", obs=[], chg=[], same=2, diff=[], seen=[], stale=[], again=2)
        tgt = {"new": p, "update": p, "merge": r, "reload": r}.get(o, 0)
        try:
            if any(k and k not in slot for k in ({"new": [], "reload": [p]}.get(o, [p, q]))):
                raise LookupError("operand does not exist")
            if o == "new":
                make = lambda: dp.Profiler(feed(op["data"], op["form"]), profiler_type="unstructured",
                                           options=options(op["m"]), samples_per_update=op["k"] or None,
                                           min_true_samples=op["mt"])
                slot[p] = make()
                if kind:
                    ws, st["ne"] = tags(slot[p])
                    st["nv"] = [list(w) for w in sorted(ws)]
                    st["again"] = int(digest(slot[p]) == digest(make()))
            elif o == "update":
                if kind:
                    w0, e0 = tags(slot[p])
                    slot[p].update_profile(feed(op["data"], op["form"]), sample_size=op["k"] or None,
                                           min_true_samples=op["mt"] or None)
                    w1, e1 = tags(slot[p])
                    st["nv"], st["ne"] = [list(w) for w in sorted(w1 - w0)], e1 - e0
                else:
                    slot[p].update_profile(feed(op["data"], op["form"]))
            elif o == "merge":
                slot[r] = slot[p] + slot[q]
            elif o == "reload":
                slot[r] = reload_profile(slot[p], "pickle")
            elif o == "report":
                for fmt in ("pretty", "compact", "serializable", "flat", None):
                    slot[p].report({"output_format": fmt})
            elif o == "view":
                st["seen"], rep = views.look(slot[p], op)
                shown.append([p, rep, copy.deepcopy(rep)])
            elif o == "diff":
                st["diff"] = diff_obs(slot[p].diff(slot[q]))
        except Exception as e:
            st["ok"] = 0
            st["err"] = "%s: %s" % (type(e).__name__, str(e)[:200])
        for k in sorted(slot):
            try:
                d = digest(slot[k])
            except Exception as e:
                d = "unreportable " + repr(e)[:200]
                if k == tgt:
                    st["ok"], st["err"] = 0, "report: " + d
            if dig.get(k) != d and k != tgt:
                st["chg"].append(k)
            dig[k] = d
        for x in shown:
            if not views.same(x[1], x[2]):
                st["stale"].append(x[0])
                x[2] = copy.deepcopy(x[1])
        if o == "reload" and st["ok"]:
            st["same"] = int(dig[p] == dig[r])
        if tgt in slot and st["ok"]:
            try:
                st["obs"] = obs(slot[tgt])
            except Exception as e:
                st["ok"], st["err"] = 0, "projection: %s: %s" % (type(e).__name__, str(e)[:200])
        steps.append(st)
    dp.set_seed(None)
    return {"seed": beh["seed"], "sampling": kind, "steps": steps}
