"""Run TLC on a module of /verif/spec and parse what it prints."""
import json, os, re, shutil, subprocess, tempfile, time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = ":".join([
    "/opt/veriftools/tla/tla2tools.jar",
    "/opt/veriftools/tla/CommunityModules-deps.jar",
])


class TlcError(Exception):
    pass


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (int,)):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    raise TypeError(v)


def run(module, constants=None, init="Init", next_="Next", invariants=(), properties=(),
        constraints=(), view=None, post=None, workers=8, timeout=600, heap="4g",
        subst=None, scratch=None, env=None, deadlock=False, extra=()):
    """Returns dict(out, states, distinct, wall, printed)."""
    cfg = []
    if constants or subst:
        cfg.append("CONSTANTS")
        for k, v in (constants or {}).items():
            cfg.append(" %s = %s" % (k, tla(v)))
        for k, v in (subst or {}).items():
            cfg.append(" %s <- %s" % (k, v))
    cfg.append("INIT %s\nNEXT %s" % (init, next_))
    if view:
        cfg.append("VIEW %s" % view)
    if invariants:
        cfg.append("INVARIANTS " + " ".join(invariants))
    if properties:
        cfg.append("PROPERTIES " + " ".join(properties))
    if constraints:
        cfg.append("CONSTRAINTS " + " ".join(constraints))
    if post:
        cfg.append("POSTCONDITION %s" % post)
    if not deadlock:
        cfg.append("CHECK_DEADLOCK FALSE")
    d = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    try:
        cfgp = os.path.join(d, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write("\n".join(cfg) + "\n")
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update(env)
        t0 = time.time()
        # TLC extracts library modules to java.io.tmpdir: keep that private too
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "md"),
               "-config", cfgp, *extra, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcError("TLC timed out on %s" % module)
        out = p.stdout.decode("utf8", "replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m = None
    for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out):
        pass
    st = int(m.group(1).replace(",", "")) if m else 0
    di = int(m.group(2).replace(",", "")) if m else 0
    return dict(out=out, rc=p.returncode, states=st, distinct=di, wall=time.time() - t0)


def ok(res):
    return "Model checking completed. No error has been found." in res["out"]


def need_ok(res, what):
    if not ok(res):
        raise TlcError("%s failed:\n%s" % (what, tail(res["out"])))
    return res


def tail(out, n=60):
    keep = [l for l in out.splitlines()
            if not l.startswith(("Parsing file", "Semantic processing", "Progress", '"{'))]
    return "\n".join(keep[-n:])


def behaviours(module, constants, what="generator", **kw):
    """Run a generator module; one JSON document per printed line."""
    kw.setdefault("view", "View")
    res = need_ok(run(module, constants, **kw), what)
    docs = []
    for line in res["out"].splitlines():
        if line.startswith('"{'):
            docs.append(json.loads(json.loads(line)))
    docs.sort(key=lambda d: d.get("seed", 0))
    return docs, res


FAIL = re.compile(r'^<<"FAIL", (.*)>>$')


def validate(module, traces, constants=None, what="trace validation", scratch=None, **kw):
    """Write the recorded traces, run the trace module, return its verdicts.

    Every step of every trace is judged: a FAIL line is printed per violated
    clause and validation continues, so the verdict is total."""
    fd, path = tempfile.mkstemp(suffix=".json", dir=scratch)
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(traces, f)
        c = dict(constants or {})
        c["File"] = path
        res = run(module, c, post="Consumed", scratch=scratch, **kw)
    finally:
        os.unlink(path)
    need_ok(res, what)
    fails = []
    for line in join_wrapped(res["out"]):
        m = FAIL.match(line)
        if m:
            fails.append(parse_tuple(m.group(1)))
    return fails, res


def join_wrapped(out):
    """TLC breaks long printed values over several lines; join them again."""
    buf = None
    for line in out.splitlines():
        if buf is None:
            if line.startswith('<<"FAIL"') or line.startswith('<< "FAIL"'):
                buf = line
            else:
                continue
        else:
            buf += " " + line.strip()
        if buf.count("<<") <= buf.count(">>"):
            s = re.sub(r"\s+", " ", buf)
            s = s.replace("<< ", "<<").replace(" >>", ">>")
            yield s
            buf = None


def parse_tuple(s):
    out, i = [], 0
    tok = re.compile(r'\s*("(?:[^"\\]|\\.)*"|-?\d+|TRUE|FALSE)\s*,?')
    while i < len(s):
        m = tok.match(s, i)
        if not m:
            out.append(s[i:].strip())
            break
        t = m.group(1)
        out.append(json.loads(t) if t[0] == '"' else (t == "TRUE" if t in ("TRUE", "FALSE") else int(t)))
        i = m.end()
    return out
