"""Replays behaviours of Labels.tla into labelers and into profiles that use labelers."""
import hashlib, json, os, random, shutil, tempfile

import env  # noqa: F401
import numpy as np
import pandas as pd
import dataprofiler as dp
from dataprofiler.labelers import data_processing as proc
from dataprofiler.labelers.base_model import AutoSubRegistrationMeta, BaseModel
from dataprofiler.labelers.base_data_labeler import BaseDataLabeler
from dataprofiler.labelers.column_name_model import ColumnNameModel
from dataprofiler.labelers.regex_model import RegexModel

from structured import reload_profile, strip

MAP = {"PAD": 0, "UNKNOWN": 1, "NUM": 2, "LOW": 3, "UPP": 4}
NAMES = ["UNKNOWN", "NUM", "LOW", "UPP"]
SEP = [" ", "\x01" * 5, "||"]
PATS = ["[0-9]+", "ab", "[a-c]+[0-9]", "-[0-9]+", "[AB]+", "b", "[0-9][0-9]"]
RMAP = {"UNKNOWN": 0, "A": 1, "B": 2, "C": 3}


def label_of(c):
    return 2 if c.isdigit() else 3 if c in "abc" else 4 if c in "ABC" else 0 if c == "#" else 1


class CharByChar(BaseModel, metaclass=AutoSubRegistrationMeta):
    """Labels every character by what it is (LabelOf of the specification)."""

    requires_zero_mapping = True

    def __init__(self, label_mapping, parameters=None):
        BaseModel.__init__(self, label_mapping, parameters or {})

    def _validate_parameters(self, parameters):
        pass

    def _construct_model(self):
        pass

    def _reconstruct_model(self):
        pass

    def _need_to_reconstruct_model(self):
        return False

    def reset_weights(self):
        pass

    def predict(self, data, batch_size=32, show_confidences=False, verbose=True):
        pred, conf = [], []
        for batch in data:
            for row in batch:
                x = np.array([label_of(c) for c in str(row[0])], dtype=int)
                pred.append(x)
                conf.append(np.eye(5)[x])
        return {"pred": pred, "conf": conf} if show_confidences else {"pred": pred}

    @classmethod
    def load_from_disk(cls, dirpath):
        with open(os.path.join(dirpath, "label_mapping.json")) as f:
            return cls(json.load(f))

    def save_to_disk(self, dirpath):
        os.makedirs(dirpath, exist_ok=True)
        with open(os.path.join(dirpath, "label_mapping.json"), "w") as f:
            json.dump(self.label_mapping, f)


def text(x):
    return "".join(x)


def make(kind, par):
    """A labeler with the given parameters."""
    if kind == "text":
        pre, post = proc.CharPreprocessor(), proc.CharPostprocessor()
        model = CharByChar(dict(MAP))
    elif kind == "cells":
        pre, post = proc.StructCharPreprocessor(), proc.StructCharPostprocessor(random_state=1)
        model = CharByChar(dict(MAP))
    elif kind in ("regex", "sregex"):
        pre = proc.DirectPassPreprocessor()
        post = proc.RegexPostProcessor(random_state=1) if kind == "regex" else proc.StructRegexPostProcessor(random_state=1)
        model = RegexModel(dict(RMAP), {})
    else:
        pre, post = proc.DirectPassPreprocessor(), proc.ColumnNameModelPostprocessor()
        model = ColumnNameModel({"UNKNOWN": 0, "hit": 1}, names_par(par))
    lab = BaseDataLabeler.load_with_components(pre, model, post)
    configure(lab, kind, par)
    return lab


def names_par(par):
    r = {"true_positive_dict": [{"attribute": text(x), "label": "n%d" % i} for i, x in enumerate(par["tp"], 1)],
         "false_positive_dict": [{"attribute": text(x), "label": "bad"} for x in par["fp"]] or None,
         "negative_threshold_config": par["neg"], "positive_threshold_config": par["pos"], "include_label": True}
    return r


def configure(lab, kind, par):
    if kind in ("text", "cells"):
        pre = {"max_length": par["ml"], "flatten_separator": SEP[par["sep"]],
               "is_separate_at_max_len": bool(par["amax"])}
        post = {"flatten_separator": SEP[par["sep"]]}
        if kind == "text":
            pre["flatten_split"] = par["fs"] / 10
            post.update(use_word_level_argmax=bool(par["word"]), word_level_min_percent=par["pct"] / 100,
                        output_format="NER" if par["ner"] else "character_argmax")
        lab.set_params({"preprocessor": pre, "postprocessor": post})
    elif kind in ("regex", "sregex"):
        pats = {"UNKNOWN": []}
        for k, ps in zip("ABC", par["pats"]):
            pats[k] = [PATS[i - 1] for i in ps]
        lab.set_params({"model": {
            "regex_patterns": pats, "ignore_case": bool(par["ic"]), "default_label": "UNKNOWN",
            "encapsulators": {"start": "(?<![a-zA-Z0-9])" if par["enc"] else "", "end": "(?![a-zA-Z0-9])" if par["enc"] else ""}}})
        if kind == "regex":
            lab.set_params({"postprocessor": {"aggregation_func": par["agg"], "priority_order": list(par["order"])}})
    else:
        lab.set_params({"model": names_par(par)})


def form(data, f):
    if f == "series":
        return pd.Series(data, dtype=object, index=range(5, 5 + len(data)))
    if f == "array":
        return np.array(data, dtype=object)
    if f == "frame":
        return pd.DataFrame({"t": pd.Series(data, dtype=object)})
    return list(data)


def ints(xs, times):
    return [int(round(float(x) * times)) for x in xs]


def predict(lab, kind, par, op):
    data = [text(x) for x in op["data"]] * op["rep"]
    before = form(data, op["form"])
    given = form(data, op["form"])
    out = lab.predict(given, batch_size=op["bs"], predict_options={"show_confidences": True}, verbose=False)
    plain = lab.predict(given, batch_size=op["bs"], verbose=False)
    kept = before.equals(given) if hasattr(before, "equals") else list(before) == list(given)
    o = {"kept": int(kept)}
    if kind == "text":
        show = (lambda p: [[[int(a), int(b), lab.label_mapping[l]] for a, b, l in x] for x in p]) if par["ner"] else \
            (lambda p: [[int(k) for k in x] for x in p])
        o["pred"] = show(out["pred"])
        o["conf"] = [[int(np.argmax(v)) if np.isclose(max(v), 1) else -9 for v in x] for x in out["conf"]]
        o["alone"] = show(plain["pred"])
    elif kind == "cells":
        show = lambda p: [-1 if x is None or str(x) in ("None", "nan") else lab.label_mapping[str(x)] for x in p]
        o["pred"], o["conf"] = show(out["pred"]), [ints(v, 100000) for v in out["conf"]]
        o["alone"] = show(plain["pred"])
    elif kind == "regex":
        six = lambda p: [[ints(v, 6) for v in x] for x in p]
        show = six if par["agg"] == "split" else (lambda p: [[int(k) for k in x] for x in p])
        o["pred"], o["conf"], o["alone"] = show(out["pred"]), six(out["conf"]), show(plain["pred"])
    elif kind == "sregex":
        show = lambda p: [int(k) for k in p]
        o["pred"], o["conf"] = show(out["pred"]), [ints(v, 100000) for v in out["conf"]]
        o["alone"] = show(plain["pred"])
    else:
        show = lambda p: [int(str(x)[1:]) for x in p]
        o["pred"], o["conf"], o["alone"] = show(out["pred"]), ints(out["conf"], 100), show(plain["pred"])
    return o


def train(lab, kind, par, op):
    """The samples a model would be trained on."""
    rev = {v: k for k, v in MAP.items()}
    data = np.empty(len(op["data"]), dtype=object)
    data[:] = [text(x) for x in op["data"]]
    if kind == "cells":
        labels = np.array([rev[s[0][2]] for s in op["spans"]], dtype=object)
    else:
        labels = np.empty(len(op["spans"]), dtype=object)
        labels[:] = [[(a, b, rev[k]) for a, b, k in s] for s in op["spans"]]
    sep = "\x02" * len(SEP[par["sep"]])
    lab.set_params({"preprocessor": {"flatten_separator": sep}})
    try:
        out = {"pairs": [], "pad": 1, "lens": [], "sizes": []}
        for xs, ys in lab.preprocessor.process(data, labels=labels, label_mapping=dict(MAP), batch_size=op["bs"]):
            out["sizes"].append(len(xs))
            for x, y in zip(xs, ys):
                s, k = str(x[0]), np.argmax(y, axis=1)
                out["lens"].append(len(s))
                if y.shape != (par["ml"], 5) or not (y.sum(axis=1) == 1).all():
                    out["pad"] = 0
                for i, c in enumerate(s):
                    if c == "\x02":
                        if k[i] != 1:
                            out["pad"] = 0
                    else:
                        out["pairs"].append([c, int(k[i])])
                if any(k[i] != 0 for i in range(len(s), len(k))):
                    out["pad"] = 0
        out["coded"] = int(coded(lab, kind, data, labels, op["bs"]))
        return out
    finally:
        lab.set_params({"preprocessor": {"flatten_separator": SEP[par["sep"]]}})


def coded(lab, kind, data, labels, bs):
    """The same samples as numbers, zeros after their end."""
    if kind != "text":
        return True
    num = {chr(i): i for i in range(1, 127)}
    keys = ("max_length", "flatten_split", "flatten_separator", "is_separate_at_max_len")
    par = lab.preprocessor.get_parameters(list(keys))
    pre = proc.CharEncodedPreprocessor(encoding_map=num, **par)
    back = lambda v: "".join(chr(i) for i in v).rstrip("\0")
    same = True
    for labs in (None, labels):
        a = list(lab.preprocessor.process(data, labels=labs, label_mapping=dict(MAP), batch_size=bs))
        b = list(pre.process(data, labels=labs, label_mapping=dict(MAP), batch_size=bs))
        same &= len(a) == len(b)
        for x, y in zip(a, b):
            (xs, xl), (ys, yl) = (x, y) if labs is not None else ((x, 0), (y, 0))
            same &= len(xs) == len(ys) and all(len(v) == par["max_length"] and back(v) == str(u[0]) for u, v in zip(xs, ys))
            same &= labs is None or bool((xl == yl).all())
    return same


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, random.Random):
        return plain(x.getstate())
    if isinstance(x, proc.BaseDataProcessor):
        return [type(x).__name__, plain(x._parameters)]
    return x


def described(lab):
    """What a labeler consists of, by value."""
    return [lab.label_mapping, lab.reverse_label_mapping, sorted(lab.labels), type(lab.model).__name__,
            plain(lab.model._parameters), plain(lab.preprocessor), plain(lab.postprocessor)]


def resaved(lab):
    d = tempfile.mkdtemp()
    try:
        lab.save_to_disk(d)
        return BaseDataLabeler.load_from_disk(d)
    finally:
        shutil.rmtree(d)


def replay_pipe(beh):
    kind, steps, lab = beh["kind"], [], None
    for op in beh["ops"]:
        st = dict(op)
        st.update(ok=1, err="", out=[], obs=[], same=2, chg=[], map=[], names=[])
        par = op["par"]
        try:
            if op["op"] == "set":
                if lab is None:
                    lab = make(kind, par)
                else:
                    configure(lab, kind, par)
            elif op["op"] == "predict":
                st["out"] = predict(lab, kind, par, op)
            elif op["op"] == "label":
                lab.add_label(op["m"], op["form"] or None)
            elif op["op"] == "train":
                st["out"] = train(lab, kind, par, op)
            else:
                new = resaved(lab)
                st["same"] = int(described(new) == described(lab))
                lab = new
        except Exception as e:
            st["ok"], st["err"] = 0, "%s: %s" % (type(e).__name__, str(e)[:300])
        try:
            st["map"] = [[k, v] for k, v in lab.label_mapping.items()]
            st["names"] = list(lab.labels)
        except Exception as e:
            st["ok"], st["err"] = 0, "mapping: %s: %s" % (type(e).__name__, str(e)[:300])
        steps.append(st)
    return {"seed": beh["seed"], "kind": kind, "steps": steps}


# --- profiles
def options(kind, d, par):
    o = dp.ProfilerOptions()
    if kind == "column":
        o.structured_options.multiprocess.is_enabled = False
        t = o.structured_options.data_labeler
        if par["ms"]:
            t.max_sample_size = par["ms"]
    else:
        t = o.unstructured_options.data_labeler
    t.is_enabled, t.data_labeler_dirpath = True, d
    return o


def feed(kind, data):
    if kind == "column":
        return pd.DataFrame({"abcd"[j]: pd.Series([text(x) for x in c], dtype=object) for j, c in enumerate(data)})
    return pd.Series([text(x) for x in data], dtype=object)


def obs(kind, p):
    r = p.report({"output_format": "serializable"})
    if kind == "column":
        cols = []
        for c in r["data_stats"]:
            s = c["statistics"]
            lab = c["data_label"]
            if lab is None:
                none = int(s["data_label_representation"] is None)
                cols.append({"none": none, "label": [], "avg": [0] * 4, "rep": [0] * 4})
                continue
            five = lambda d: [int(round(d[k] * 100000)) for k in NAMES] if sorted(d) == sorted(NAMES) else [-9] * 4
            cols.append({"none": 0,
                         "label": [0] if lab == "could not determine" else [NAMES.index(x) + 1 for x in lab.split("|")],
                         "avg": five(s["avg_predictions"]),
                         "rep": five(s["data_label_representation"])})
        return {"cols": cols}
    t = r["data_stats"]["data_label"]
    keys = list(MAP)
    vec = lambda d, f: [f(d.get(k, 0)) for k in keys] if set(d) <= set(keys) else [-9] * 5
    c, q = t["entity_counts"], t["entity_percentages"]
    pc = lambda x: int(round(x * 100000))
    return {"chars": vec(c["true_char_level"], int), "post": vec(c["postprocess_char_level"], int),
            "words": vec(c["word_level"], int), "pchars": vec(q["true_char_level"], pc),
            "ppost": vec(q["postprocess_char_level"], pc), "pwords": vec(q["word_level"], pc)}


def net(d, keys, times):
    """Differences by key; what one side lacks counts as zero there."""
    if isinstance(d, str):
        return [0] * len(keys) if d == "unchanged" else [-10 ** 8] * len(keys)
    if not set(d) <= set(keys):
        return [-10 ** 8] * len(keys)
    one = lambda v: 0 if isinstance(v, str) else (v[0] or 0) - (v[1] or 0) if isinstance(v, (list, tuple)) else v
    return [int(round(one(d.get(k, 0)) * times)) for k in keys]


def diff_obs(kind, d):
    if kind == "column":
        cols = []
        for c in d["data_stats"]:
            x = c["data_label"]
            if isinstance(x, str):
                lab = [int(x == "unchanged"), [], [], []]
            elif len(x) == 2:
                lab = [2, x[0] or [], [], x[1] or []]
            else:
                lab = [0] + list(x)
            num = lambda ls: sorted(0 if v == "could not determine" else NAMES.index(v) + 1 for v in ls)
            cols.append({"how": lab[0], "a": num(lab[1]), "both": num(lab[2]), "b": num(lab[3]),
                         "avg": net(c["statistics"]["avg_predictions"], NAMES, 100000),
                         "rep": net(c["statistics"]["label_representation"], NAMES, 100000)})
        return {"cols": cols}
    t, keys = d["data_stats"]["data_label"], list(MAP)
    c, q = t["entity_counts"], t["entity_percentages"]
    return {"chars": net(c["true_char_level"], keys, 1), "post": net(c["postprocess_char_level"], keys, 1),
            "words": net(c["word_level"], keys, 1), "pchars": net(q["true_char_level"], keys, 100000),
            "ppost": net(q["postprocess_char_level"], keys, 100000), "pwords": net(q["word_level"], keys, 100000)}


def digest(p):
    return hashlib.md5(json.dumps(strip(p.report({"output_format": "serializable"})), sort_keys=True,
                                  default=str).encode()).hexdigest()


def replay_prof(beh):
    kind, steps, slot, dig = beh["kind"], [], {}, {}
    d = tempfile.mkdtemp()
    try:
        if kind == "column":
            lab = BaseDataLabeler.load_with_components(
                proc.StructCharPreprocessor(max_length=50), CharByChar(dict(MAP)), proc.StructCharPostprocessor(random_state=1))
        else:
            lab = BaseDataLabeler.load_with_components(
                proc.CharPreprocessor(max_length=40, flatten_split=0), CharByChar(dict(MAP)), proc.CharPostprocessor())
        lab.save_to_disk(d)
        for op in beh["ops"]:
            st = dict(op)
            o, p, q, r = op["op"], op["p"], op["q"], op["r"]
            st.update(ok=1, err="", out=[], obs=[], chg=[], same=2)
            tgt = {"new": p, "update": p, "merge": r, "reload": r, "diff": 0}[o]
            try:
                if any(k and k not in slot for k in ([] if o == "new" else [p] if o == "reload" else [p, q])):
                    raise LookupError("operand does not exist")
                if o == "new":
                    slot[p] = dp.Profiler(feed(kind, op["data"]), options=options(kind, d, op["par"]),
                                          profiler_type="structured" if kind == "column" else "unstructured")
                elif o == "update":
                    slot[p].update_profile(feed(kind, op["data"]))
                elif o == "merge":
                    slot[r] = slot[p] + slot[q]
                elif o == "diff":
                    st["obs"] = obs(kind, slot[p])
                    st["out"] = [obs(kind, slot[q]), diff_obs(kind, slot[p].diff(slot[q]))]
                else:
                    slot[r] = reload_labelled(slot[p], op["m"], d)
            except Exception as e:
                st["ok"], st["err"] = 0, "%s: %s" % (type(e).__name__, str(e)[:300])
            for k in sorted(slot):
                try:
                    g = digest(slot[k])
                except Exception as e:
                    g = "unreportable " + repr(e)[:200]
                    if k == tgt:
                        st["ok"], st["err"] = 0, "report: " + g
                if dig.get(k) != g and k != tgt:
                    st["chg"].append(k)
                dig[k] = g
            if o == "reload" and st["ok"]:
                st["same"] = int(dig[p] == dig[r])
            if tgt in slot and st["ok"]:
                try:
                    st["obs"] = obs(kind, slot[tgt])
                except Exception as e:
                    st["ok"], st["err"] = 0, "projection: %s: %s" % (type(e).__name__, str(e)[:300])
            steps.append(st)
    finally:
        shutil.rmtree(d)
    return {"seed": beh["seed"], "kind": kind, "steps": steps}


def reload_labelled(p, m, d):
    if m == "json":
        for c in p.profile:
            t = c.profiles.get("data_label_profile")
            if t is not None:
                t._profiles["data_labeler"].data_labeler._default_model_loc = d
    return reload_profile(p, m)


def replay(beh):
    return replay_prof(beh) if beh["kind"] in ("column", "lines") else replay_pipe(beh)
