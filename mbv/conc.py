"""The concurrent world: programs run on the real buffer under every schedule and memory outcome, judged by ConcTrace.tla."""
import hashlib
import itertools
import json
import os
import random
import re
import shutil

from . import core

# calls of each role; z: also for slots without values
P1 = ["push", "pushi", "pushS1", "pushS2", "pushcS2", "pushiS2", "pushciS2", "win", "win.1", "winE1", "winE2", "winE2.1", "winA", "winA.1",
      "winM1", "winM2", "ptr"]
P1Z = ["pushi", "pushiS1", "pushiS2", "pushciS2", "ptr"]
W1 = ["win", "winE1", "winE2", "winE2.1", "winA", "winA.1", "winM1", "winM2"]
C1 = ["pop", "copy", "clone", "takeS1", "takeS2", "cloneS2", "peek", "peekE1", "peekE2", "peekE2.1", "peekA", "win", "winE2", "winA", "winA.1",
      "winM2"]
PA = ["push", "pushS2", "pushcS2", "win", "winE2", "winA", "winM2", "ptr"]
CA = ["pop", "copy", "clone", "takeS2", "cloneS2", "peek", "peekE2", "peekA", "win", "winE2", "winA"]
WA = ["win", "winE2", "winA", "winM2"]


def prog(L, P=(), C=(), W=None, z=0, m="ra", asy=0, D=None, O=0, I=0, J=0):
    """O, I, J: rounds of one item each before the threads start, items left in the buffer then, how many of them the worker has released."""
    s = f"L={L};z={z};w={int(W is not None)};m={m};as={asy};P={','.join(P)};C={','.join(C)}"
    if W is not None:
        s += f";W={','.join(W)}"
    if D:
        s += f";D={D}"
    for k, n in (("O", O), ("I", I), ("J", J)):
        if n:
            s += f";{k}={n}"
    return s


def forms(m="ra"):
    """Every form of every call, against plain partners, with wrap-around."""
    r = []
    for p in P1:
        r.append(prog(3, [p, p, "push"], ["pop", "takeS2"], m=m))
        r.append(prog(2, ["push", p.replace("2", "1"), p.replace("2", "1")], ["pop", "pop"], m=m))
    for p in P1Z:
        r.append(prog(3, [p, p, "pushi"], ["move", "pop", "move"], z=1, m=m))
        r.append(prog(2, [p.replace("2", "1")] * 3, ["move", "move"], z=1, m=m))
    for c in C1:
        r.append(prog(3, ["push", "pushS2", "push"], [c, c, "pop"], m=m))
        r.append(prog(2, ["push", "push", "push"], [c.replace("2", "1")] * 2, m=m))
    for w in W1:
        r.append(prog(3, ["push", "push", "push"], ["pop", "pop"], [w, w], m=m))
        r.append(prog(2, ["push", "push"], ["pop", "pop"], [w.replace("2", "1")] * 2, m=m))
    for c in C1:
        r.append(prog(3, ["push", "push"], [c, c], ["win", "winA"], m=m))
    for p in P1:
        r.append(prog(3, [p, "push"], ["pop", "pop"], ["winA", "win"], m=m))
    return r


P3 = ["pushS3", "pushcS3", "pushiS3", "pushciS3", "winE3", "winE3.2", "winA", "winM3"]
C3 = ["takeS3", "cloneS3", "peekE3", "peekE3.2", "peekA", "winE3", "winA"]
W3 = ["winE3", "winE3.1", "winA", "winM3"]


def wrapped(m="ra"):
    """Requests for several slots across the end of the storage, of which one part or the other is longer."""
    r = []
    for L, O in ((4, 2), (4, 3), (5, 3), (5, 4)):
        for p in P3:
            r.append(prog(L, [p, "push"], ["pop", "pop"], O=O, I=L - 4, m=m))
            r.append(prog(L, [p], ["pop", "takeS2"], O=O - 1, I=1, m=m))
        for c in C3:
            r.append(prog(L, ["push", "pushS2"], [c], O=O, I=3, m=m))
            r.append(prog(L, ["push", "push"], ["pop", c], O=O - 1, I=L - 1, m=m))
        for w in W3:
            r.append(prog(L, ["push", "push"], ["pop", "takeS2"], [w], O=O, I=3, m=m))
        for c in C3[:5]:
            r.append(prog(L, ["push"], [c], ["win"], O=O, I=L - 1, J=L - 2, m=m))
    for O in (1, 2, 3):
        r.append(prog(3, ["pushiS2", "pushi"], ["move", "move"], z=1, O=O, m=m))
        r.append(prog(4, ["pushiS3", "pushi"], ["move", "move"], z=1, O=O, I=1, m=m))
    return r


def longer(m="ra"):
    """Several rounds, cached availabilities, looks without moves."""
    return [
        prog(2, ["push"] * 5, ["pop"] * 5, m=m),
        prog(3, ["push"] * 6, ["pop"] * 5, m=m),
        prog(4, ["push", "pushS3", "push", "pushS2"], ["pop", "takeS2", "pop", "takeS2"], m=m),
        prog(3, ["avail", "push", "push", "avail", "push"], ["avail", "pop", "avail", "pop", "pop"], m=m),
        prog(3, ["win.0", "push", "winA.0", "push", "push"], ["peek.0", "pop", "peekA.0", "takeS2"], m=m),
        prog(3, ["push"] * 4, ["pop"] * 3, ["win"] * 3, m=m),
        prog(2, ["push"] * 3, ["pop"] * 3, ["win"] * 3, m=m),
        prog(4, ["pushS3", "pushS2", "push"], ["takeS2", "pop", "takeS2"], ["winE2", "winA", "win"], m=m),
        prog(3, ["push", "avail", "push", "push"], ["avail", "pop", "pop"], ["avail", "win.0", "winA", "win"], m=m),
        prog(5, ["pushS3", "pushS3", "push"], ["peekE2", "takeS2", "peekA"], m=m),
        prog(1, ["push", "win", "avail"], ["pop", "avail"], ["win"], m=m),
        prog(3, ["pushiS2", "pushi", "pushi"], ["move", "move", "move"], ["win", "winA"], z=1, m=m),
        prog(3, ["push", "pushi", "pushi", "pushi"], ["move", "pop", "move"], m=m),
        prog(4, ["push"] * 4, ["index", "pop", "index", "takeS2"], ["winM2", "index", "winM2"], m=m),
    ]


def resets(m="ra"):
    return [
        prog(3, ["push"] * 3, ["pop", "reset", "pop"], m=m),
        prog(3, ["push"] * 3, ["peekA.0", "reset", "pop", "avail"], m=m),
        prog(4, ["push", "pushS2", "push"], ["peekE2.1", "reset", "takeS2", "pop"], m=m),
        prog(3, ["push"] * 3, ["pop", "pop"], ["winA.0", "reset", "win"], m=m),
        prog(3, ["push"] * 3, ["reset", "pop"], ["win", "reset", "win"], m=m),
        prog(4, ["pushS2", "push", "push"], ["avail", "reset", "pop"], ["winE2.1", "reset", "winA"], m=m),
        prog(3, ["push"] * 4, ["reset", "reset", "pop"], m=m),
    ]


def detached(m="ra"):
    return [
        prog(3, ["det", "win", "win", "att", "push"], ["pop", "pop", "pop"], m=m),
        prog(3, ["det", "win", "sync", "win", "back1", "win", "att"], ["pop", "takeS2"], m=m),
        prog(3, ["push"] * 3, ["pop", "pop"], ["det", "win", "win", "back1", "sync", "win", "att"], m=m),
        prog(4, ["pushS3", "push"], ["takeS2", "pop"], ["det", "winE2", "back1", "win", "att", "winA"], m=m),
        prog(4, ["pushS3", "push"], ["det", "winE2", "back2", "win", "att", "pop"], m=m),
        prog(3, ["push"] * 3, ["det", "winA", "sync", "win", "back1", "att", "pop"], m=m),
        prog(3, ["push"] * 3, ["pop"], ["det", "reset", "win", "sync", "att", "win"], m=m),
        prog(3, ["push"] * 3, ["det", "win", "reset", "att", "pop"], m=m),
        prog(3, ["push", "det", "winA", "avail", "att"], ["det", "winA", "avail", "att"], m=m),
        prog(3, ["push"] * 2, ["det", "win", "drop"], ["det", "win", "drop"], m=m),
        prog(4, ["det", "winE3", "sync", "att"], ["seeP", "seeP", "pop"], m=m),
        prog(5, ["push", "seeC", "seeC", "seeP"], ["det", "winE3", "back1", "sync", "winA", "att"], I=3, m=m),
        prog(4, ["seeW", "push", "seeW"], ["seeW", "seeP", "seeW"], ["det", "winE2", "win", "sync", "drop"], I=3, m=m),
        prog(3, ["seeC", "seeW"], ["det", "winE2", "att", "seeW"], ["det", "win", "seeP", "att"], I=2, J=1, m=m),
        prog(2, ["det", "win", "back1", "win", "sync", "win", "att"], ["pop", "pop"], m=m),
    ]


def lives(m="ra"):
    """Drops in every position, observed or not."""
    r = []
    for ops in (["drop"], ["push", "drop"]):
        for cops in (["drop"], ["pop", "drop"], ["aliveP", "pop", "drop"], ["aliveP", "avail", "drop"]):
            r.append(prog(3, ops, cops, m=m))
            for w in (["drop"], ["win", "drop"], ["aliveP", "aliveC", "win", "drop"]):
                r.append(prog(3, ops, cops, w, m=m))
    r += [
        prog(3, ["push", "push", "drop"], ["aliveP", "takeS2", "aliveP", "takeS2"], m=m),
        prog(3, ["push", "drop"], ["aliveW", "pop", "aliveP", "pop"], ["win", "drop"], m=m),
        prog(3, ["push", "aliveC", "avail", "push", "push"], ["pop", "drop"], m=m),
        prog(2, ["push", "aliveC", "avail", "push", "push"], ["pop", "pop", "drop"], m=m),
        prog(3, ["push", "drop"], ["aliveP", "aliveW", "avail"], ["aliveP", "win", "aliveC"], m=m),
        prog(3, ["push", "push", "drop"], ["peekA.0", "drop"], ["winA.0", "drop"], m=m),
        prog(3, ["det", "win", "drop"], ["aliveP", "pop", "drop"], m=m),
        prog(3, ["push", "aliveW", "push", "drop"], ["pop"], ["win", "drop"], m=m),
    ]
    for d in ("PCW", "CPW", "CWP", "WPC", "WCP"):
        r.append(prog(2, ["push"], ["pop"], ["win"], m=m, D=d))
    r += [prog(2, ["drop"], [], [], m=m), prog(2, [], ["drop"], [], m=m), prog(2, [], [], ["drop"], m=m), prog(2, ["drop"], ["drop"], [], m=m),
          prog(2, ["push", "drop"], [], ["win", "drop"], m=m), prog(2, [], ["pop", "drop"], ["win", "drop"], m=m)]
    return r


def asyncs(m="ra"):
    r = []
    for p in PA:
        q = p.replace("2", "1")
        r.append(prog(2, [q, q, q], ["pop", "pop"], asy=1, m=m))
        r.append(prog(3, [p, "push", p], ["pop", "takeS2"], asy=1, m=m))
    for c in CA:
        q = c.replace("2", "1")
        r.append(prog(2, ["push", "push"], [q, q], asy=1, m=m))
        r.append(prog(3, ["push", "pushS2"], [c, "pop"], asy=1, m=m))
    for w in WA:
        q = w.replace("2", "1")
        r.append(prog(2, ["push", "push"], ["pop", "pop"], [q, q], asy=1, m=m))
        r.append(prog(3, ["push", "push"], ["pop"], [w], asy=1, m=m))
    r += [
        prog(2, ["push"] * 3, ["pop"] * 3, ["win"] * 3, asy=1, m=m),
        prog(2, ["push"] * 3, ["pop"] * 4, asy=1, m=m),
        prog(2, ["push"] * 4, ["pop"] * 2, asy=1, m=m),
        prog(3, ["pushS2"] * 3, ["takeS2"] * 3, asy=1, m=m),
        prog(3, ["push", "drop"], ["pop", "aliveP", "drop"], ["win", "aliveP", "drop"], asy=1, m=m),
        prog(3, ["push", "push", "drop"], ["pop", "reset", "pop"], asy=1, m=m),
    ]
    return r


def cancels(m="ra"):
    """Futures that are polled once, and dropped if they are pending."""
    r = []
    for p in PA:
        q = p.replace("2", "1")
        r.append(prog(2, ["?" + q, q, "?" + q], ["pop", "?pop"], asy=1, m=m))
        r.append(prog(3, ["?" + p, "?" + p, "push"], ["?pop", "takeS2"], asy=1, m=m))
    for c in CA:
        q = c.replace("2", "1")
        r.append(prog(2, ["push", "?push"], ["?" + q, q, "?" + q], asy=1, m=m))
        r.append(prog(3, ["push", "?pushS2"], ["?" + c, "?" + c, "pop"], asy=1, m=m))
    for w in WA:
        q = w.replace("2", "1")
        r.append(prog(2, ["push", "push"], ["pop", "?pop"], ["?" + q, q], asy=1, m=m))
        r.append(prog(3, ["push", "?push"], ["?pop", "pop"], ["?" + w, "?" + w, "win"], asy=1, m=m))
    return r


def asydet(m="ra"):
    """Detached asynchronous iterators."""
    det = ["det", "go1", "back1", "go1", "sync", "go1"]
    r = [
        prog(3, ["winA.0", "det", "go1", "sync", "go1", "att", "push"], ["pop", "pop"], asy=1, m=m),
        prog(4, ["winE3.0"] + det + ["att", "push"], ["takeS2", "pop"], asy=1, m=m),
        prog(3, ["winE2.0", "det", "go1", "sync", "back1", "go2", "drop"], ["pop", "pop"], asy=1, m=m),
        prog(3, ["push"] * 3, ["winA.0"] + det + ["att", "pop"], asy=1, m=m),
        prog(4, ["pushS2", "push", "push", "push"], ["winE2.0", "det", "go2", "sync", "back1", "att", "pop"], asy=1, m=m),
        prog(3, ["push"] * 3, ["winE2.0", "det", "go2", "drop"], asy=1, m=m),
        prog(3, ["push", "push"], ["pop", "pop"], ["winA.0"] + det + ["att", "win"], asy=1, m=m),
        prog(4, ["pushS3", "push"], ["takeS2", "pop"], ["winE3.0", "det", "go3", "back2", "sync", "go2", "att", "?win"], asy=1, m=m),
        prog(3, ["push", "push"], ["?pop", "pop"], ["winA.0", "det", "go1", "drop"], asy=1, m=m),
        prog(4, ["winE3.0", "det", "go3", "sync", "att"], ["seeP", "?pop", "seeP"], asy=1, m=m),
        prog(4, ["?push", "seeW"], ["seeW", "?pop"], ["winE3.0", "det", "go2", "back1", "sync", "go2", "att"], asy=1, I=3, m=m),
        prog(4, ["seeC", "?push", "seeC"], ["winE3.0", "det", "go3", "att"], asy=1, I=3, m=m),
        prog(3, ["winA.0", "det", "go1", "att"], ["winA.0", "det", "go1", "att"], ["winA.0", "det", "go1", "att"], asy=1, m=m),
        prog(4, ["push", "winE2.0"] + det + ["att"], ["pop", "winA.0"] + det + ["att"], asy=1, O=3, m=m),
        prog(3, ["push", "push"], ["pop", "aliveW", "pop"], ["winE2.0"] + det + ["drop"], asy=1, I=1, m=m),
    ]
    return r


def harassed(m="ra"):
    """A call of one thread, while another publishes after each of its accesses."""
    r = []
    end = lambda t: f";V={t}"
    for asy in (0, 1):
        for p in (PA if asy else P1 + ["avail", "index", "aliveC"]):
            r.append(prog(32, [p], ["pop"] * 30, asy=asy, I=30, m=m) + end(1))
        for c in (CA if asy else C1 + ["avail", "index", "aliveP", "reset"]):
            r.append(prog(32, ["push"] * 30, [c], asy=asy, m=m) + end(3))
            r.append(prog(32, [], [c], ["win"] * 30, I=30, asy=asy, m=m) + end(3))
        for w in (WA if asy else W1 + ["avail", "index", "aliveP", "reset"]):
            r.append(prog(32, ["push"] * 30, [], [w], asy=asy, m=m) + end(2))
    # wait_for ends once there is enough
    for n in (1, 3, 9):
        r.append(prog(12, [f"wait{n}", "push"], ["pop"] * 10, I=11, m=m) + end(1))
        r.append(prog(12, ["push"] * 10, [f"wait{n}", "pop", f"wait1", "det", "wait1", "att"], m=m) + end(3))
        r.append(prog(12, ["push"] * 10, [], [f"wait{n}", "win", "wait1"], m=m) + end(2))
        r.append(prog(12, ["push"], [f"wait{n}"], ["win"] * 10, I=9, m=m) + end(3))
    for t, who in ((1, "P"), (3, "C")):
        for ops in (["det", "win", "sync", "avail"], ["det", "winA.1", "back1", "att"], ["det", "drop"], ["drop"]):
            if t == 1:
                r.append(prog(32, ops, ["pop"] * 30, I=30, m=m) + end(t))
            else:
                r.append(prog(32, ["push"] * 30, ops, m=m) + end(t))
    return r


def _start(rnd, L, w):
    """Where the threads begin."""
    I = rnd.choice([0, 0, rnd.randint(0, L - 1)])
    return dict(O=rnd.choice([0, rnd.randint(0, L)]), I=I, J=rnd.randint(0, I) if w else 0)


def mixed(seed, n, m="ra"):
    """Random programs."""
    rnd = random.Random(seed * 1000 + len(m))
    r = []
    looks = ["avail", "winA.0", "win.0", "index", "seeP", "seeC"]
    for _ in range(n):
        L = rnd.choice([2, 2, 3, 3, 3, 4, 4, 5])
        w = rnd.random() < 0.5
        k = rnd.randint(2, 3 if w else 4)
        fit = lambda xs: [x for x in xs if (L > 2 or "2" not in x) and (L > 3 or "3" not in x)]
        some = lambda xs, k, more=(): [rnd.choice(fit(xs) + (list(more) if rnd.random() < 0.3 else []) if rnd.random() < 0.85 else looks) for _ in range(k)]
        ps, cs, ws = some(P1 + P3, k), some(C1 + C3, k, ["reset"]), some(W1 + W3, k - 1, ["reset"]) if w else None
        for ops in (ps, cs, ws):
            if ops is not None and rnd.random() < 0.25:
                ops.append("drop")
        r.append(prog(L, ps, cs, ws, m=m, **_start(rnd, L, w)))
    return r


def mixlong(seed, n, m="ra"):
    """Longer ones: too many executions for all of them."""
    rnd = random.Random(seed * 1000 + 300 + len(m))
    r = []
    for _ in range(n):
        L = rnd.choice([2, 3, 4, 5])
        w = rnd.random() < 0.5
        fit = lambda xs: [x for x in xs if (L > 2 or "2" not in x) and (L > 3 or "3" not in x)]
        some = lambda xs, k: [rnd.choice(fit(xs)) for _ in range(k)]
        k = rnd.randint(4, 5 if w else 7)
        r.append(prog(L, some(P1 + P3 + ["push"] * 8 + ["avail"], k), some(C1 + C3 + ["pop"] * 8 + ["avail", "index"], k),
                      some(W1 + W3 + ["win"] * 4 + ["avail"], k) if w else None, m=m, **_start(rnd, L, w)))
    return r


def mixdet(seed, n, m="ra"):
    """Random programs with detached iterators."""
    rnd = random.Random(seed * 1000 + 500 + len(m))
    r = []
    for _ in range(n):
        L = rnd.choice([2, 3, 3, 4, 4, 5])
        w = rnd.random() < 0.6
        fit = lambda xs: [x for x in xs if (L > 2 or "2" not in x) and (L > 3 or "3" not in x)]
        local = fit(["win", "win", "winE2", "winA", "winA.1", "winE2.1", "winM2", "back1", "back2", "sync", "avail", "index", "winA.0", "seeP"])

        def ops(role, plain):
            if rnd.random() < 0.35:
                return [rnd.choice(fit(plain)) for _ in range(rnd.randint(1, 3))]
            mine = local + (["reset"] if role != "P" else [])
            mid = [rnd.choice(mine) for _ in range(rnd.randint(1, 4))]
            end = rnd.choice([["att"], ["att", rnd.choice(fit(plain))], ["sync"], ["drop"], []])
            return [rnd.choice(fit(plain))] * rnd.randint(0, 1) + ["det"] + mid + end
        r.append(prog(L, ops("P", ["push", "pushS2", "win", "seeC"]), ops("C", ["pop", "takeS2", "win", "avail", "seeP"]), ops("W", ["win", "winA", "winE2"]) if w else None,
                      m=m, **_start(rnd, L, w)))
    return r


def mixasy(seed, n, m="ra"):
    """Random programs of tasks."""
    rnd = random.Random(seed * 1000 + 700 + len(m))
    r = []
    for _ in range(n):
        L = rnd.choice([2, 2, 3, 3, 4])
        w = rnd.random() < 0.5
        fit = lambda xs: [x for x in xs if L > 2 or "2" not in x]
        k = rnd.randint(1, 2 if w else 3)
        ps = [rnd.choice(fit(PA)) for _ in range(k)]
        cs = [rnd.choice(fit(CA)) for _ in range(k)]
        ws = [rnd.choice(fit(WA)) for _ in range(k)] if w else None
        for ops in (ps, cs, ws):
            if ops is not None and rnd.random() < 0.3:
                ops.append(rnd.choice(["drop", "avail", "aliveP", "aliveC"]))
        r.append(prog(L, ps, cs, ws, asy=1, m=m, **_start(rnd, L, w)))
    return r


# ------------------------------------------------------------------------------------------------ running

def explore(programs, seed, dfs, rand, keep, ms, tag, jobs=8, timeout=600, build="conc", total=1000000):
    binary = core.build(build)
    work = os.path.join(core.CACHE, "conc", f"{tag}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    src, out = os.path.join(work, "programs"), os.path.join(work, "traces")
    with open(src, "w") as f:
        f.write("\n".join(programs) + "\n")
    rc, text = core.run([binary, f"programs={src}", f"out={out}", f"seed={seed}", f"dfs={dfs}", f"random={rand}", f"keep={keep[0]}", f"akeep={keep[1]}", f"ms={ms}",
                         f"jobs={jobs}", f"total={total}"], timeout, extra={"RINGCHECK_TMP": core.CACHE})
    if rc != 0:
        raise core.ToolError(f"explorer: exit {rc}\n{text[-2000:]}")
    traces, stats, crashes = [], [], []
    with open(out) as f:
        for l in f:
            if l[0] == "#":
                stats.append(json.loads(l[1:]))
            elif l[0] == "!":
                crashes.append(json.loads(l[1:]))
            else:
                traces.append(l)
    return work, traces, stats, crashes


def judge(work, traces, n=8, timeout=600):
    """TLC on all traces, in parallel. [(trace, {(what, event)})]"""
    jobs = n
    n = max(1, min(n, (len(traces) + 199) // 200), (len(traces) + 7999) // 8000)
    parts = [traces[k::n] for k in range(n)]

    def one(k):
        path = os.path.join(work, f"t{k}.ndjson")
        with open(path, "w") as f:
            f.writelines(parts[k])
        r = core.tlc("ConcTrace", f"ct{k}-{os.path.basename(work)}", {}, extra=["ACTION_CONSTRAINT Report", "CHECK_DEADLOCK FALSE"],
                     timeout=timeout, heap="2g", env_extra={"TRACES": path}, java=("-Xss64m",), keep=path + ".out", lint=False)
        bad = []
        for l in open(path + ".out", errors="replace"):
            m = re.match(r'"<<\\"BAD\\", (\d+), \{(.*)\}>>"', l)
            if m:
                kinds = {(a, int(b)) for a, b in re.findall(r'<<\\"(.*?)\\", (\d+)>>', m.group(2))}
                bad.append((parts[k][int(m.group(1)) - 1], kinds))
        if not r.ok or r.distinct != len(parts[k]) + 1:
            raise core.ToolError(f"TLC on ConcTrace: {r.error or r.out[-1500:]}")
        return r, bad
    res = core.parallel([lambda k=k: one(k) for k in range(n)], jobs)
    return [r for r, _ in res], [b for _, bs in res for b in bs]


# ------------------------------------------------------------------------------------------------ the designs

PIPE = dict(L=2, Worker=False, N=3, MaxReq=1, LoadOrd="a", StoreOrd="r", Spare=1, Early=False, Resets=False, Forgets=True)
PIPE_INV = ["Prefix", "NoRace", "Ordered", "CacheSound"]
DROP_INV = ["FreedOnce", "FreedAtEnd", "DeadShows"]


def designs(prop, tier):
    """(module, tag, constants, spec, invariants, properties, whether it has to hold)"""
    r = []
    if prop in ("C02", "C03", "C04", "C05", "C10", "C11"):
        pipe = lambda tag, ok=True, **kw: r.append(("Pipeline", tag, dict(PIPE, **kw), "Spec", PIPE_INV, [], ok))
        pipe("two", L=3, MaxReq=2, N=5)
        pipe("three", Worker=True, L=3, N=4, MaxReq=2)
        pipe("resets", L=3, N=3, MaxReq=2, Resets=True)
        pipe("no-load", LoadOrd="x", ok=False)
        pipe("no-store", StoreOrd="x", ok=False)
        pipe("no-spare", Spare=0, ok=False)
        pipe("early", Early=True, ok=False)
        pipe("remembers", L=3, N=4, MaxReq=2, Resets=True, Forgets=False, ok=False)
        for w in (False, True):
            r.append(("Pipeline", f"drains{w}", dict(PIPE, Worker=w, L=3), "FairSpec", [], ["Drains"], True))
        if tier == "thorough":
            pipe("two-deep", L=4, MaxReq=3, N=7)
            pipe("three-deep", Worker=True, L=4, N=5, MaxReq=3)
            pipe("three-resets", Worker=True, L=3, N=3, Resets=True)
            pipe("two-resets", L=3, N=4, MaxReq=2, Resets=True)
    if prop == "C07":
        for n, R, P, o, lo, ok in (("two", "PC", "bits", "ar", "a", True), ("three", "PWC", "bits", "ar", "a", True),
                                   ("rmw-relaxed", "PC", "bits", "x", "a", False), ("rmw-release", "PC", "bits", "r", "a", False),
                                   ("rmw-acquire", "PC", "bits", "a", "a", False), ("look-relaxed", "PC", "bits", "ar", "x", False),
                                   ("flags", "PC", "flags", "ar", "a", False), ("flags-three", "PWC", "flags", "ar", "a", False)):
            r.append(("DropRace", n, dict(Roles=set(R), Protocol=P, RmwOrd=o, LookOrd=lo), "Spec", DROP_INV, [], ok))
    if prop == "C15":
        for m, ok in (("self", True), ("keep", False), ("peer", False), ("peer2", True)):
            r.append(("Wake", m, dict(L=3, N=4, Mode=m), "Spec", [], ["NeverParkedForever", "AllDone"], ok))
    return r


def design(c):
    def one(d):
        mod, tag, const, spec, inv, props, ok = d
        r = core.tlc(mod, f"{mod}-{tag}", const, spec=spec, invariants=inv, properties=props, extra=["CHECK_DEADLOCK FALSE"], workers=2,
                     timeout=800)
        if r.ok != ok or (not ok and "violated" not in r.error):
            raise core.ToolError(f"TLC on {mod}/{tag}: {'expected to hold' if ok else 'expected to be refuted'}: {r.error or r.out[-800:]}")
        return {"design": mod, "case": tag, "expected": "holds" if ok else "refuted", "states": r.distinct}
    ds = designs(c.prop, c.tier)
    for d, p in zip(ds, core.parallel([lambda d=d: one(d) for d in ds], 4)):
        c.parts.append(p)
        if p["expected"] == "holds":
            c.states += p["states"]


# ------------------------------------------------------------------------------------------------ the checks

KINDS = {
    "C02": ["took a value that is not next", "saw a value that is not next", "items lost", "race on slot", "panicked",
            "granted beyond the iterator ahead", "crash"],
    "C03": ["race on slot", "slot granted to another accessed", "granted a slot held by another", "crash"],
    "C04": ["granted beyond the iterator ahead", "a position that was not published", "reset beyond the iterator ahead", "index() is wrong", "available() reports too many",
            "moved without success"],
    "C05": ["available() reports too many", "refused, but changed something", "did not hand back the value",
            "granted another number than requested", "not a multiple", "granted beyond the iterator ahead"],
    "C07": ["freed twice", "freed while in use", "free races with an access", "used after free", "not freed", "reported dead while alive",
            "dead, but what it published is not visible", "crash"],
    "C10": ["does not end", "hang", "refused though available", "granted less than available", "takes ever more steps while others run", "available() misses what was published",
            "items lost"],
    "C11": None,
    "C12": None,
    "C14": ["panicked", "pending though possible", "pending, but changed something", "refused though available", "granted less than available",
            "refused, but changed something", "polled again, still pending though possible", "does not end", "hang"],
    "C15": ["parked forever though possible", "polled again, still pending though possible"],
}
# families: what is judged, what has to be right for the former to count (C11, C12); sc: also in sequentially consistent runs
PLAN = {
    "C02": (["forms", "wrapped", "longer", "resets", "detached", "asyncs", "asydet", "mixed", "mixdet", "mixlong"], [], ["longer", "mixed"]),
    "C03": (["forms", "wrapped", "longer", "resets", "detached", "asyncs", "asydet", "mixed", "mixdet", "mixlong"], [], []),
    "C04": (["longer", "resets", "detached", "asydet", "mixed", "mixdet", "mixlong"], [], ["longer", "resets"]),
    "C05": (["forms", "wrapped", "longer", "resets", "cancels", "mixed", "mixlong"], [], ["forms", "longer", "mixed"]),
    "C07": (["lives", "asyncs", "asydet"], [], ["lives"]),
    "C10": (["harassed", "forms", "wrapped", "longer", "resets", "mixed", "lives", "cancels", "mixlong"], [], ["forms", "longer", "resets", "mixed", "cancels"]),
    "C11": (["resets"], ["longer"], ["resets"]),
    "C12": (["detached", "asydet", "mixdet"], ["longer", "asyncs"], ["detached", "asydet", "mixdet"]),
    "C14": (["asyncs", "cancels", "mixasy"], [], ["asyncs", "cancels", "mixasy"]),
    "C15": (["asyncs", "cancels", "mixasy"], [], ["asyncs", "cancels", "mixasy"]),
}


def family(name, mode, c):
    if name.startswith("mix"):
        n = {"mixlong": 64, "mixasy": 160}.get(name, 240)
        return globals()[name](c.seed, n if c.tier == "quick" else 3000, mode)
    return globals()[name](mode)


# mirrored buffers
VMEM = {
    "C02": ["forms", "wrapped", "longer", "detached", "mixed"],
    "C03": ["forms", "wrapped", "longer", "detached", "mixed"],
    "C04": ["longer", "resets", "detached", "mixed"],
    "C05": ["forms", "wrapped", "longer", "mixed"],
    "C07": ["lives"],
    "C10": ["forms", "wrapped", "longer", "resets", "mixed"],
    "C11": ["resets"],
    "C12": ["detached", "asydet", "mixdet"],
    "C14": ["asyncs", "cancels"],
    "C15": ["asyncs", "cancels"],
    "C17": ["forms", "wrapped", "longer", "resets", "detached", "lives", "asyncs", "cancels", "asydet", "mixed", "mixdet", "mixasy"],
}


def check(c):
    """The concurrent part of the check of c.prop."""
    if c.prop in PLAN:
        fams, controls, sc = PLAN[c.prop]
        part(c, "conc", [(m, f, False) for m, fs in (("ra", fams), ("sc", sc)) for f in fs] + [("ra", f, True) for f in controls])
    if c.prop in VMEM and (c.prop == "C17" or core.build_if(c, "concv")):
        controls = PLAN[c.prop][1] if c.prop in PLAN else []
        part(c, "concv", [("ra", f, False) for f in VMEM[c.prop]] + [("ra", f, True) for f in controls])


def part(c, build, which):
    progs = [(p, f, k) for mode, f, k in which for p in family(f, mode, c)]     # (text, family, control)
    controls = any(k for _, _, k in which)
    quick = c.tier == "quick"
    dfs, rand, keep, akeep, ms, total = (3000, 300, 400, 60, 1500, 240) if quick else (40000, 8000, 1000, 400, 20000, 2400)
    if build == "concv" and c.prop != "C17":
        keep, akeep = keep // 10, akeep // 3
    work, traces, stats, crashes = explore([p for p, _, _ in progs], c.seed, dfs, rand, (keep, akeep), ms, f"{c.prop}-{build}", timeout=800 if quick else 7200,
                                           build=build, total=total)
    skipped = sum("skip" in s for s in stats)
    if skipped:
        c.assumptions.append(f"{skipped} programs on mirrored buffers left out: such a buffer could not be made of few slots")
        stats = [s for s in stats if "skip" not in s]
    res, bad = judge(work, traces, timeout=800 if quick else 3600) if traces else ([], [])
    for f in set(f for _, f, _ in progs):
        of = {i for i, p in enumerate(progs) if p[1] == f}
        st = [s for s in stats if s["p"] in of]
        c.parts.append({"programs": f, "build": build, "number": len(of), "executions": sum(s["execs"] for s in st),
                        "distinct": sum(s["distinct"] for s in st), "exhaustive": sum(s["complete"] for s in st), "judged": sum(s["kept"] for s in st)})
    c.validated += len(traces)
    c.transitions += sum(t.count('["') for t in traces)
    c.samples.append({"program": progs[0][0], "trace": json.loads(traces[0])["e"][:20]} if traces else {})
    found = []     # program index, kind, event, trace
    for x in crashes:
        found.append((x["p"], "hang" if x["kind"] == "hang" else "crash", 0, x))
    for line, kinds in bad:
        t = json.loads(line)
        # what comes first; later events may follow from it
        for kind, at in sorted(kinds, key=lambda k: k[1]):
            if kind.startswith(("HARNESS", "ILLEGAL")):
                if at <= min(k[1] for k in kinds):
                    raise core.ToolError(f"judging {progs[t['p']][0]}: {kind} at {t['e'][at - 1]}")
                continue
            found.append((t["p"], kind, at, t))
    shutil.rmtree(work, ignore_errors=True)
    if any(progs[p][2] for p, _, _, _ in found) and controls:
        return
    kinds = KINDS.get(c.prop)
    seen = set()
    for p, kind, at, t in found:
        if (kinds is None or kind in kinds) and (p, kind) not in seen:
            seen.add((p, kind))
            what = f"[{build} {progs[p][0]}] {kind}" + (f" at event {at}: {json.dumps(t['e'][at - 1])}" if at else f": {t.get('msg', '')}")
            c.violation(what, {"program": progs[p][0], "kind": kind, "event": at, "trace": t.get("e", t), "build": build, "seed": c.seed, "key": [progs[p][0], kind, at]})
