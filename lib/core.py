"""Shared machinery: build the harness against /repo's working tree, run the
real code on cases, run TLC, collect verdicts, write evidence."""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
CORES = max(1, min(8, os.cpu_count() or 1))

class ToolError(Exception):
    pass

class EvalError(ToolError):
    """TLC could not evaluate the specification on what was observed."""

class TimeUp(EvalError):
    """TLC did not finish (an overflow deep in an expression can take it
    forever to report)."""

_work = None
def work():
    global _work
    if _work is None:
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        _work = tempfile.mkdtemp(prefix="run-", dir=base)
    return _work

def cleanup():
    global _work
    if _work and os.path.isdir(_work) and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(_work, ignore_errors=True)
    _work = None

# ------------------------------------------------------------------ harness

def build_harness():
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"),
                           env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("harness does not build against /repo:\n" + r.stderr[-4000:])
        exe = os.path.join(work(), "qharness")
        shutil.copy2(os.path.join(BUILD, "target", "debug", "qharness"), exe)
    return exe

def build_shim():
    so = os.path.join(work(), "qshim.so")
    r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "lib", "qshim.c"), "-ldl"],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("read shim does not build:\n" + r.stderr[-2000:])
    return so

def _run_chunk(exe, mode, cases, timeout, env, tag):
    d = os.path.join(work(), "h-%s" % tag)
    os.makedirs(os.path.join(d, "scratch"), exist_ok=True)
    cf, of = os.path.join(d, "cases.ndjson"), os.path.join(d, "obs.ndjson")
    with open(cf, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    obs, first = {}, 0
    index = {c["id"]: i for i, c in enumerate(cases)}
    e = dict(os.environ, QH_SCRATCH=os.path.join(d, "scratch"))
    e.update(env or {})
    while first < len(cases):
        if os.path.exists(of):
            os.unlink(of)
        try:
            r = subprocess.run([exe, mode, cf, of, str(first), str(timeout)], env=e, stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, timeout=timeout * 3 + 600)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -999
        begun = None
        if os.path.exists(of):
            with open(of, errors="replace") as f:
                for line in f:
                    try:
                        o = json.loads(line)
                    except ValueError:
                        continue
                    if o["st"] == "begin":
                        begun = o["id"]
                    else:
                        obs[o["id"]] = o
                        if o["st"] != "hang":
                            begun = None
        if rc == 0:
            break
        if begun is None:
            raise ToolError("harness ended with %s outside any case" % rc)
        if begun not in obs:
            obs[begun] = {"id": begun, "st": "abort", "msg": "process ended with status %s" % rc}
        first = index[begun] + 1
    shutil.rmtree(d, ignore_errors=True)
    return obs

_tag = [0]
def run_harness(exe, mode, cases, timeout=20, env=None, jobs=CORES):
    """Observations by case id."""
    if not cases:
        return {}
    n = max(1, min(jobs, (len(cases) + 3) // 4))
    chunks = [cases[i::n] for i in range(n)]
    _tag[0] += 1
    t = _tag[0]
    out = {}
    with ThreadPoolExecutor(n) as ex:
        for o in ex.map(lambda ic: _run_chunk(exe, mode, ic[1], timeout, env, "%d-%d" % (t, ic[0])),
                        enumerate(chunks)):
            out.update(o)
    missing = [c["id"] for c in cases if c["id"] not in out]
    if missing:
        raise ToolError("no observation for cases %s" % missing[:5])
    return out

# ------------------------------------------------------------------ TLC

class Tlc:
    def __init__(self):
        self.generated = self.distinct = self.depth = 0
        self.printed = []
        self.violation = None
        self.out = ""

def run_tlc(module, cfg=None, env=None, workers=CORES, constants=None, timeout=800, extra=(), heap=None):
    """Runs TLC in a private copy of the specification directory."""
    _tag[0] += 1
    d = os.path.join(work(), "t-%d" % _tag[0])
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg", ".ndjson")):
            shutil.copy2(os.path.join(SPEC, f), d)
    cfgfile = os.path.join(d, (cfg or module) + ".cfg")
    if constants:
        text = open(cfgfile).read()
        for k, v in constants.items():
            text, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?)%s\s*=.*$" % re.escape(k), r"\g<1>%s = %s" % (k, v), text)
            if n != 1:
                raise ToolError("constant %s not in %s" % (k, cfgfile))
        open(cfgfile, "w").write(text)
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = (heap or "-Xmx6g") + " -Xss64m -Dfile.encoding=UTF-8 -Dstdout.encoding=UTF-8"
    cmd = ["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
           "-config", cfgfile] + list(extra) + [os.path.join(d, module + ".tla")]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, encoding="utf-8", errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TimeUp("TLC timed out on %s" % module)
    t = Tlc()
    t.out = r.stdout + r.stderr
    for line in r.stdout.splitlines():
        if line.startswith('"@@'):
            try:
                t.printed.append(json.loads(json.loads(line)[2:]))
            except ValueError:
                raise ToolError("unreadable TLC output: %r" % line[:200])
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout)
    if m:
        t.generated, t.distinct = (int(x.replace(",", "")) for x in m.groups())
    m = re.search(r"depth of the complete state graph search is (\d+)", r.stdout)
    if m:
        t.depth = int(m.group(1))
    if "No error has been found" not in r.stdout:
        m = re.search(r"Error: (.*(?:violated|is not a).*)", r.stdout)
        if m and "evaluat" not in m.group(1):
            t.violation = m.group(1)
        else:
            i = r.stdout.find("Error:")
            kind = ToolError
            if t.generated or "Finished computing initial states" in r.stdout:
                if re.search(r"verflow|[Aa]ttempted to|CHOOSE|not in the domain|out of (?:bounds|range)|should be an? ", r.stdout[i:]) \
                        and not re.search(r"OutOfMemory|heap space|StackOverflow|No space", r.stdout):
                    kind = EvalError
            raise kind("TLC failed on %s:\n%s" % (module, (r.stdout[i:i+3000] if i >= 0 else t.out[-3000:])))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(d, ignore_errors=True)
    return t

TIME = 420

def judge(module, pid, cases, obs, slim=None, timeout=TIME):
    """Checks every observation against the specification. Returns (verdicts by
    id, Tlc). An observation on which the specification cannot even be
    evaluated (a value of a kind or size no behaviour of it has) is none of its
    behaviours; it is found by halving."""
    try:
        return judge_all(module, pid, cases, obs, slim, timeout)
    except EvalError as e:
        if isinstance(e, TimeUp):
            if timeout == TIME:
                # only judge as long as it takes to find the case
                timeout = 45
            elif len(cases) > 1:
                timeout = 30
        if len(cases) == 1:
            t = Tlc()
            return {cases[0]["id"]: {"id": cases[0]["id"], "bad": [{"t": "unreadable", "at": str(e)[-300:]}], "judged": True}}, t
        h = (len(cases) + 1)//2
        v, t = judge(module, pid, cases[:h], obs, slim, timeout)
        v2, t2 = judge(module, pid, cases[h:], obs, slim, timeout)
        v.update(v2)
        t.distinct += t2.distinct
        t.generated += t2.generated
        return v, t

def judge_all(module, pid, cases, obs, slim=None, timeout=TIME):
    path = os.path.join(work(), "%s-%d.ndjson" % (module, len(os.listdir(work()))))
    with open(path, "w") as f:
        for c in cases:
            r = dict(c)
            r["obs"] = obs[c["id"]]
            if slim:
                r = slim(r)
            f.write(json.dumps(r) + "\n")
    try:
        t = run_tlc(module, env={"CASES": path, "PID": pid}, timeout=timeout)
    finally:
        os.unlink(path)
    v = {p["id"]: p for p in t.printed}
    if t.violation:
        raise ToolError("%s: %s" % (module, t.violation))
    if len(v) != len(cases) or len(t.printed) != len(cases):
        raise ToolError("%s: %d verdicts for %d cases" % (module, len(t.printed), len(cases)))
    return v, t

# ------------------------------------------------------------------ findings

def known_findings():
    """Entries 'finding: property=<id> match=<regex> <text>' of KNOWN_FINDINGS."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line)
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3).strip()))
    return out
