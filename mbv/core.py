"""Shared machinery of the checks: building, running TLC, evidence, verdicts."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MBV_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CACHE = os.path.join(VERIF, ".cache")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4
START = time.time()


class ToolError(Exception):
    """The check could not be carried out (exit 2): says nothing about the code."""


def left(limit):
    """Seconds left of the time a check may take."""
    return limit - (time.time() - START)


def env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), RUSTUP_TOOLCHAIN="nightly", RUSTUP_AUTO_INSTALL="0", RUSTC_WRAPPER="",
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def run(cmd, timeout, cwd=None, extra=None, stdin=None):
    e = env()
    e.update(extra or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise ToolError(f"{' '.join(map(str, cmd[:4]))} ... took more than {timeout:.0f} s")
    return p.returncode, out


# ------------------------------------------------------------------------------------------------ cargo

BUILDS = {
    # name: (crate, cargo arguments, rustflags, binary)
    "std": ("harness", [], "", "debug/ringcheck"),
    "noalloc": ("harness", ["--no-default-features"], "", "debug/ringcheck"),
    "vmem": ("harness", ["--no-default-features", "--features", "vmem"], "", "debug/ringcheck"),
    "concv": ("explorer", ["--features", "vmem"], "--cfg mrb_verif", "debug/explorer"),
    "conc": ("explorer", [], "--cfg mrb_verif", "debug/explorer"),
}
_locks = {}
_guard = threading.Lock()


def build(name):
    """Builds one of the drivers against the current tree of the crate; the path of the binary."""
    with _guard:
        lock = _locks.setdefault(name, threading.Lock())
    crate, args, flags, binary = BUILDS[name]
    target = os.path.join(CACHE, "t-" + name)
    extra = {"CARGO_TARGET_DIR": target}
    if flags:
        extra["RUSTFLAGS"] = flags
    with lock:
        rc, out = run(["cargo", "build", "--offline", "--locked", "--quiet"] + args, 700, os.path.join(VERIF, crate), extra)
        if rc != 0:
            raise ToolError(f"the {name} driver does not build against {REPO}:\n{out[-3000:]}")
    return os.path.join(target, binary)


def build_if(c, name):
    """The same for a configuration that only adds to what is checked: None if the tree does not build in it."""
    try:
        return build(name)
    except ToolError as e:
        c.assumptions.append(f"left out: the {name} build: {str(e)[-300:]}")
        print(f"{c.prop}: left out: the {name} driver does not build against {REPO}")
        return None


# ------------------------------------------------------------------------------------------------ TLC

def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (set, frozenset, list, tuple)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    if isinstance(v, str):
        return '"' + v + '"'
    return str(v)


class TlcResult:
    def __init__(self, out, path, wall):
        self.out, self.path, self.wall = out, path, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m:
            self.generated = self.distinct = int(m[-1])
        self.ok = "No error has been found" in out or (bool(m) and "Error:" not in out)
        m = re.search(r"Error: (.*)", out)
        self.error = m.group(1) if m else ""


def tlc(module, name, constants, spec="Spec", invariants=(), properties=(), extra=(), view=None, workers=1,
        timeout=600, heap="3g", keep=None, java=(), argv=(), env_extra=None, lint=True):
    """Runs TLC on spec/<module>.tla with a configuration made of the arguments."""
    work = os.path.join(CACHE, "tlc", f"{name}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    cfg = os.path.join(work, "M.cfg")
    with open(cfg, "w") as f:
        f.write(f"SPECIFICATION {spec}\n")
        for k, v in constants.items():
            f.write(f"CONSTANT {k} = {tla(v)}\n")
        if view:
            f.write(f"VIEW {view}\n")
        for i in invariants:
            f.write(f"INVARIANT {i}\n")
        for i in properties:
            f.write(f"PROPERTY {i}\n")
        for i in extra:
            f.write(i + "\n")
    for n in os.listdir(SPEC):
        if n.endswith(".tla"):
            os.symlink(os.path.join(SPEC, n), os.path.join(work, n))
    out_path = keep or os.path.join(work, "out")
    t = time.time()
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-Xmx{heap}", "-Xss16m",
           "-Djava.io.tmpdir=" + work, *java, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(work, "md"), "-config", "M.cfg", *argv, module + ".tla"]
    e = env()
    e.update(env_extra or {})
    with open(out_path, "w") as f:
        p = subprocess.Popen(cmd, cwd=work, env=e, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise ToolError(f"TLC on {module}/{name} took more than {timeout} s")
    with open(out_path, errors="replace") as f:
        out = "".join(l for l in f if not l.startswith('"<<'))
    r = TlcResult(out, out_path, time.time() - t)
    if not keep:
        shutil.rmtree(work, ignore_errors=True)
    else:
        shutil.rmtree(os.path.join(work, "md"), ignore_errors=True)
    return r


def parallel(jobs, n=4):
    """Runs the thunks, at most n at a time; their results in order. The first ToolError is raised."""
    with cf.ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(j) for j in jobs]
        return [f.result() for f in fs]


# ------------------------------------------------------------------------------------------------ verdicts

class Check:
    """Collects what a run of the check of one property covered and found."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations = []
        self.states = self.transitions = self.validated = 0
        self.samples = []
        self.parts = []
        self.assumptions = []

    def violation(self, what, data):
        self.violations.append((what, data))

    def known(self):
        """Lines of the known-findings file about this property, but the fixed ones: (identification, text)."""
        res = []
        path = os.path.join(VERIF, "known_findings")
        if os.path.exists(path):
            for l in open(path):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == self.prop:
                    res.append((m.group(2), m.group(3)))
        return res

    def finish(self, level):
        known = dict(self.known())
        fresh, listed = [], set()
        for what, data in self.violations:
            key = hashlib.sha256(json.dumps(data.get("key", what), sort_keys=True).encode()).hexdigest()[:16]
            if key in known:
                listed.add(key)
            else:
                fresh.append((what, data, key))
        os.makedirs(EVID, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
               "samples": self.samples[:6], "parts": self.parts}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - START, 2), "violations": len(fresh)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, text in known.items():
            print(f"KNOWN-FINDING: property={self.prop} {text}")
        if not fresh:
            print(f"{self.prop}: held ({self.states} states, {self.transitions} transitions of the specification, "
                  f"{self.validated} behaviours against the code, {ev['wall_s']} s)")
            return 0
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, self.prop + ".json")
        with open(path, "w") as f:
            json.dump([{"what": w, "key": k, "data": d} for w, d, k in fresh[:50]], f, indent=1)
        for w, _, _ in fresh[:3]:
            print("  " + w[:400])
        print(f"VIOLATION property={self.prop} replay={path}")
        return 1
