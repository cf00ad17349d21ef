"""Machinery shared by the checks: build the real code, run scenarios against it, let TLC judge."""
import json, os, random, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
OUT = os.path.join(VERIF, "out")
TARGET = os.path.join(VERIF, "target", "harness")
FFI_TARGET = os.path.join(VERIF, "target", "ffi")
CORES = os.cpu_count() or 4


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def cap_memory():
    lim = 12 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


# variants of the harness: features, program, target directory
VARIANTS = {None: ([], "hbh", TARGET), "ffi": (["--features", "ffi"], "hbh", FFI_TARGET), "ord": (["--features", "ord"], "hbo", TARGET)}


def hbh(variant=None):
    return os.path.join(VARIANTS[variant][2], "debug", VARIANTS[variant][1])


def build(variant=None):
    feat, prog, target = VARIANTS[variant]
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--bin", prog] + feat, cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0:
        raise ToolError("the harness does not build against /repo:\n" + p.stdout[-4000:])


# ---------------------------------------------------------------------------- TLC

class Tlc:
    """One TLC run, in the background."""

    def __init__(self, module, cfg, env=None, workers="auto", extra=(), tag=None, timeout=600, expect="ok"):
        self.module, self.tag, self.expect = module, tag or module, expect
        self.dir = os.path.join(OUT, "tlc", f"{os.getpid()}_{self.tag}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        if "\n" in cfg:
            path = os.path.join(self.dir, "run.cfg")
            with open(path, "w") as f:
                f.write(cfg)
            cfg = path
        e = dict(os.environ)
        e.update(env or {})
        tmp = os.path.join(self.dir, "tmp")
        os.makedirs(tmp)
        e["JAVA_TOOL_OPTIONS"] = f"-Xss256m -Xmx6g -XX:+UseParallelGC -Djava.io.tmpdir={tmp}"
        cmd = ["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(self.dir, "md"),
               "-config", cfg, *extra, module + ".tla"]
        self.out = open(os.path.join(self.dir, "out"), "w")
        self.t0, self.timeout = time.time(), timeout
        self.p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=self.out, stderr=subprocess.STDOUT)

    def wait(self):
        try:
            self.p.wait(timeout=max(1, self.timeout - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.p.kill()
            raise ToolError(f"TLC timed out on {self.tag}")
        self.out.close()
        with open(os.path.join(self.dir, "out")) as f:
            self.text = f.read()
        for x in ("md", "tmp"):
            shutil.rmtree(os.path.join(self.dir, x), ignore_errors=True)
        self.wall = time.time() - self.t0
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", self.text)
        self.generated, self.distinct = (int(m[1]), int(m[2])) if m else (0, 0)
        self.ok = self.p.returncode == 0 and "No error has been found" in self.text
        return self

    def need_ok(self):
        self.wait()
        if self.expect == "violated":      # a wrong design
            if not re.search(r"(is|was) violated", self.text):
                raise ToolError(f"TLC does not see what is wrong with {self.tag}:\n" + self.text[-3000:])
            self.tag += " (wrong design: violated, as it must be)"
        elif not self.ok:
            raise ToolError(f"TLC rejects the specification itself ({self.tag}):\n" + self.text[-3000:])
        return self


def generate(which):
    """Start generating a family of scenarios from Gen.tla."""
    path = os.path.join(OUT, f"gen_{os.getpid()}_{which}.ndjson")
    os.makedirs(OUT, exist_ok=True)
    t = Tlc("Gen", "Gen.cfg", env={"WHICH": which, "OUT": path}, workers=1, tag="gen_" + which)
    t.path = path
    return t


def generated(t):
    t.need_ok()
    with open(t.path) as f:
        r = [json.loads(x) for x in f]
    os.remove(t.path)
    return r


# ---------------------------------------------------------------------------- running the real code

def write_nd(path, items):
    with open(path, "w") as f:
        for x in items:
            f.write(json.dumps(x, separators=(",", ":")) + "\n")


def read_nd(path):
    with open(path) as f:
        return [json.loads(x) for x in f]


def _hbh(dirname, scenarios, limit, timeout, variant=None):
    os.makedirs(dirname, exist_ok=True)
    scratch = os.path.join(dirname, "scratch")
    os.makedirs(scratch, exist_ok=True)
    s, t = os.path.join(dirname, "s.ndjson"), os.path.join(dirname, "t.ndjson")
    write_nd(s, scenarios)
    env = dict(os.environ, HBH_SCRATCH=scratch, HBH_LIMIT=str(limit))
    try:
        p = subprocess.run([hbh(variant), s, t], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           preexec_fn=cap_memory, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    shutil.rmtree(scratch, ignore_errors=True)
    return (read_nd(t) if rc == 0 else None), rc


def run_real(tag, scenarios, limit=30, variant=None):
    """Traces of the scenarios. A scenario that kills the process becomes a trace saying so."""
    d = os.path.join(OUT, f"run_{os.getpid()}_{tag}")
    tr, rc = _hbh(d, scenarios, limit, 300, variant)
    if tr is None:
        log(f"the harness process died ({rc}); looking for the scenario that kills it")
        lo, part = 0, scenarios
        while len(part) > 1:
            half = part[:len(part) // 2]
            r, _ = _hbh(d, half, limit, 120, variant)
            if r is None:
                part = half
            else:
                lo, part = lo + len(half), part[len(half):]
        r, rc2 = _hbh(d, part, limit, 120, variant)
        if r is not None:
            raise ToolError(f"the harness died ({rc}), but not again")
        tr = [{"id": part[0].get("id", "?"), "sc": lo, "choices": [],
               "ev": [{"e": "died", "msg": f"the process ended: {rc2}"}]}]
    shutil.rmtree(d, ignore_errors=True)
    return tr


# ---------------------------------------------------------------------------- judging

TRACE_CFG = """CONSTANTS MaxKeys = 8
  Check = {%s}
SPECIFICATION Spec
VIEW Where
INVARIANT Conforms
ALIAS Alias
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
"""


def judge(tag, traces, aspects, timeout=800):
    """None if every trace conforms, else dict(trace, event index (0-based), what)."""
    d = os.path.join(OUT, f"judge_{os.getpid()}_{tag}")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "t.ndjson")
    write_nd(path, [{"id": t["id"], "ev": t["ev"]} for t in traces])
    t = Tlc("Trace", TRACE_CFG % ", ".join(f'"{a}"' for a in sorted(aspects)), env={"TRACES": path},
            tag="trace_" + tag, timeout=timeout)
    t.wait()
    shutil.rmtree(d, ignore_errors=True)
    if t.ok:
        return t, None
    trs = re.findall(r"/\\ tr = (\d+)", t.text)
    ls = re.findall(r"/\\ l = (\d+)", t.text)
    bad = re.findall(r"/\\ bad = (\{[^}]*\})", t.text)
    if "Invariant Conforms is violated" in t.text and trs:
        i, l = int(trs[-1]) - 1, int(ls[-1]) - 2
        return t, {"trace": traces[i], "at": l, "what": bad[-1]}
    if trs and "evaluat" in t.text:
        i, l = int(trs[-1]) - 1, int(ls[-1]) - 1
        return t, {"trace": traces[i], "at": l, "what": "{\"uninterpretable\"}", "tlc": t.text[-1500:]}
    if "Java heap space" in t.text and len(traces) > 1:
        for part in (traces[:len(traces) // 2], traces[len(traces) // 2:]):
            t2, v = judge(tag, part, aspects, timeout)
            if v:
                break
        return t2, v
    raise ToolError("TLC failed on the traces:\n" + t.text[-3000:])


def replayable(scenarios, v):
    sc = dict(scenarios[v["trace"]["sc"]])
    if v["trace"].get("choices"):
        sc["sched"] = {"kind": "choices", "c": v["trace"]["choices"]}
    return sc


def known_findings(pid):
    """Open findings of this property: (id pattern of the scenario, text)."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) (.*)", line)
            if m and m[1] == pid:
                out.append((m[2], m[3]))
    return out
