"""Decide one property: model-check the specification, sample behaviours of
it, replay them into the code under test, have TLC judge the recorded traces."""
import concurrent.futures as cf
import hashlib, importlib, json, multiprocessing as mp, os, re, signal, sys, time, traceback

import tlc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
FINDINGS = os.path.join(ROOT, "known-findings.txt")
NCPU = min(8, os.cpu_count() or 1)
STEP_LIMIT = 120  # seconds one behaviour may take


# definitions a trace module replaces by a table computed once
TABLES = {"ProfilerTrace": {"Facts": "KnownFacts"}, "BulkTrace": {"Facts": "KnownFacts"}}


class Suite:
    """Behaviours of one generator flavour and the clauses that are judged."""

    def __init__(self, driver, gen, trace, flavour, quick, thorough, claim=None, const=None,
                 workers=None):
        self.driver, self.gen, self.trace, self.flavour = driver, gen, trace, flavour
        self.sizes = {"quick": quick, "thorough": thorough}
        self.claim = claim or (lambda f: True)
        self.const = const or {}
        self.workers = workers


class MC:
    """An exhaustive TLC run on the specification itself."""

    def __init__(self, module, quick, thorough=None, invariants=(), properties=(), subst=None,
                 view=None, constraints=(), init="Init", next_="Next"):
        self.module, self.sizes = module, {"quick": quick, "thorough": thorough or quick}
        self.kw = dict(invariants=invariants, properties=properties, view=view,
                       constraints=constraints, init=init, next_=next_)
        self.subst = subst or {}


class Fail:
    """One violated clause of one step of one trace."""

    def __init__(self, t):
        t = list(t) + [""] * (8 - len(t))
        self.seed, self.step, self.op, self.pid, self.col, self.clause, self.fresh, self.via = t[:8]

    def __repr__(self):
        return "%s (behaviour %s, step %s, %s of profile %s, column %s%s)" % (
            self.clause, self.seed, self.step, self.op, self.pid, self.col,
            ", via " + self.via if self.via else "")


# ------------------------------------------------------------------ replaying
class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


_driver = None


def _one(beh):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(STEP_LIMIT)
    try:
        return _driver.replay(beh)
    except Hang:
        return {"seed": beh["seed"], "broken": "did not finish within %d s" % STEP_LIMIT}
    except Exception:
        return {"seed": beh["seed"], "broken": traceback.format_exc()[-1500:]}
    finally:
        signal.alarm(0)


def replay_all(driver, behs, workers=None):
    """Replay in forked workers.  A worker that dies is recorded as broken."""
    global _driver
    _driver = driver
    out = {}
    n = workers or NCPU
    ctx = mp.get_context("fork")
    with cf.ProcessPoolExecutor(n, mp_context=ctx) as ex:
        futs = {ex.submit(_one, b): b for b in behs}
        for f, b in futs.items():
            try:
                out[b["seed"]] = f.result(timeout=STEP_LIMIT * 4)
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt):
                    raise
                out[b["seed"]] = None
    lost = [b for b in behs if out[b["seed"]] is None]
    for b in lost:  # after a crashed worker: once more, each on its own
        with cf.ProcessPoolExecutor(1, mp_context=ctx) as ex:
            try:
                out[b["seed"]] = ex.submit(_one, b).result(timeout=STEP_LIMIT * 2)
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt):
                    raise
                out[b["seed"]] = {"seed": b["seed"], "broken": "process died: %r" % e}
    return [out[b["seed"]] for b in behs]


def judge(module, traces, what, const=None):
    """TLC's verdict on every trace; a trace TLC cannot evaluate (an observation
    of the wrong shape) is reported as a failure of that trace."""
    if not traces:
        return [], 0, 0
    try:
        fails, res = tlc.validate(module, traces, const, view="View", what=what, subst=TABLES.get(module))
        return [Fail(f) for f in fails], res["states"], res["distinct"]
    except tlc.TlcError as e:
        if len(traces) == 1:
            f = Fail([traces[0]["seed"], 0, "", 0, 0, "unjudgeable", True, ""])
            f.detail = str(e)[-1500:]
            return [f], 0, 0
        h = len(traces) // 2
        a, b = judge(module, traces[:h], what, const), judge(module, traces[h:], what, const)
        return a[0] + b[0], a[1] + b[1], a[2] + b[2]


# ------------------------------------------------------------- known findings
def findings(pid):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) match=(\{.*?\}) (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((json.loads(m.group(2)), m.group(3)))
    return out


def matches(rule, suite, fail, beh, trace):
    """A finding names the flavour's step by what was done, not by position:
    all of the given fields have to agree."""
    st = {}
    if trace and fail.step and fail.step <= len(trace.get("steps", [])):
        st = trace["steps"][fail.step - 1]
    have = {"flavour": suite.flavour, "op": fail.op, "clause": fail.clause, "via": fail.via,
            "seed": fail.seed, "cfg": (trace or {}).get("cfg", ""), "err": st.get("err", "")}
    for k, v in rule.items():
        if k == "err":
            if v not in have["err"]:
                return False
        elif isinstance(v, list):
            if have.get(k) not in v:
                return False
        elif have.get(k) != v:
            return False
    return True


# --------------------------------------------------------------------- deciding
def run_mc(mc, tier, workers):
    res = tlc.run(mc.module, mc.sizes[tier], subst=mc.subst, workers=workers,
                  timeout=3000 if tier == "thorough" else 300, **mc.kw)
    tlc.need_ok(res, "model checking " + mc.module)
    return res


def decide(pid, prop, tier, seed):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    rep = os.path.join(EVID, "replay")
    os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rep, f))
    states = trans = 0
    cov = {"model_checking": [], "conformance": []}
    bg = cf.ThreadPoolExecutor(1)
    mcs = [(m, bg.submit(run_mc, m, tier, 4)) for m in prop.mcs]
    violations, known = [], {}
    nbeh = nsteps = 0
    distinct = set()
    samples = []
    rules = findings(pid)
    for s in prop.suites:
        n, nops = s.sizes[tier]
        if not n:
            continue
        driver = importlib.import_module(s.driver)
        lo = ((seed - 1) * 1009) % 15000 + 1
        todo, at = n, lo
        while todo > 0:
            k = min(todo, 500)
            c = dict(s.const, SeedLo=at, SeedHi=at + k - 1, Flavour=s.flavour, NOps=nops)
            behs, gres = tlc.behaviours(s.gen, c, what="generator %s/%s" % (s.gen, s.flavour))
            if len(behs) != k:
                raise tlc.TlcError("generator %s/%s: %d of %d behaviours" % (s.gen, s.flavour, len(behs), k))
            traces = replay_all(driver, behs, s.workers)
            good = [t for t in traces if "broken" not in t]
            fails, st, di = judge(s.trace, good, "traces %s/%s" % (s.trace, s.flavour))
            for t in traces:
                if "broken" in t:
                    f = Fail([t["seed"], 0, "", 0, 0, "crash", True, ""])
                    f.detail = t["broken"]
                    fails.append(f)
            byseed = {b["seed"]: b for b in behs}
            bytr = {t["seed"]: t for t in traces}
            nf = 0
            for f in fails:
                if not s.claim(f) and f.clause not in ("crash", "unjudgeable"):
                    continue
                hit = [w for r, w in rules if matches(r, s, f, byseed[f.seed], bytr[f.seed])]
                if hit:
                    known[hit[0]] = known.get(hit[0], 0) + 1
                else:
                    nf += 1
                    violations.append((s, f, byseed[f.seed], bytr[f.seed]))
            states += di
            trans += st
            nbeh += len(behs)
            nsteps += sum(len(b.get("ops", b.get("steps", []))) for b in behs)
            for b in behs:
                distinct.add(hashlib.md5(json.dumps({k: v for k, v in b.items() if k != "seed"},
                                                    sort_keys=True).encode()).hexdigest())
            if len(samples) < 3:
                samples.append({"flavour": s.flavour, "behaviour": compact(behs[0])})
            cov["conformance"].append({"generator": s.gen, "flavour": s.flavour, "judge": s.trace,
                                       "seeds": [at, at + k - 1], "behaviours": len(behs),
                                       "operations_per_behaviour": nops, "judged_states": di,
                                       "failed_clauses": nf})
            at += k
            todo -= k
    for m, fut in mcs:
        res = fut.result()
        states += res["distinct"]
        trans += res["states"]
        cov["model_checking"].append({"module": m.module, "constants": {k: str(v) for k, v in m.sizes[tier].items()},
                                      "invariants": list(m.kw["invariants"]) + list(m.kw["properties"]),
                                      "distinct_states": res["distinct"], "states": res["states"],
                                      "exhaustive_within_bounds": True})
    bg.shutdown()
    cov.update(states=states, transitions=trans, traces_validated_against_impl=nbeh,
               operations_replayed=nsteps, distinct_behaviours=len(distinct), samples=samples,
               known_findings_seen=known)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop.level, "coverage": cov,
          "assumptions": prop.assumptions, "wall_s": round(time.time() - t0, 1),
          "violations": len(violations)}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w, k in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    if not violations:
        print("%s holds: %d behaviours (%d operations) replayed and judged, %d states, %.1f s"
              % (pid, nbeh, nsteps, states, time.time() - t0))
        return 0
    seen = set()
    for s, f, beh, tr in violations:
        if len(seen) >= 5 or (f.clause, f.op) in seen:
            continue
        seen.add((f.clause, f.op))
        path = os.path.join(rep, "%s-%s-%s.json" % (pid, s.flavour, f.seed))
        with open(path, "w") as fh:
            json.dump({"property": pid, "driver": s.driver, "trace": s.trace, "flavour": s.flavour,
                       "clause": f.clause, "step": f.step, "behaviour": beh, "recorded": tr}, fh)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s/%s: %r" % (s.gen, s.flavour, f))
        if getattr(f, "detail", ""):
            print("    " + f.detail.replace("\n", "\n    "))
        else:
            st = tr["steps"][f.step - 1] if f.step else {}
            if st.get("err"):
                print("    " + st["err"])
    print("%s: %d violated clauses in %d behaviours" % (pid, len(violations), nbeh))
    return 1


def compact(beh):
    """A behaviour written for reading: cells as strings."""
    def c(x):
        if isinstance(x, list):
            if x and all(isinstance(y, str) and len(y) == 1 for y in x):
                return "".join(x)
            return [c(y) for y in x]
        if isinstance(x, dict):
            return {k: c(v) for k, v in x.items() if v not in ("", 0, [])}
        return x
    return c(beh)


def replay_file(path):
    d = json.load(open(path))
    driver = importlib.import_module(d["driver"])
    tr = replay_all(driver, [d["behaviour"]], 1)[0]
    if "broken" in tr:
        print(tr["broken"])
        return 1
    fails, _, _ = judge(d["trace"], [tr], "replay")
    print(json.dumps(compact(d["behaviour"]), indent=1))
    for i, st in enumerate(tr["steps"], 1):
        if st.get("err"):
            print("step %d: %s" % (i, st["err"]))
    for f in fails:
        print("FAILED", f)
    return 1 if fails else 0
