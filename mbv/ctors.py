"""Buffers of many lengths, built in every way: what the code did, judged by Build.tla."""
import json
import os
import re
import subprocess

from . import core

BUILDS = {"C07": ["std"], "C08": ["std"], "C17": ["vmem"], "C18": ["std", "noalloc", "vmem"]}
# what is judged (None: everything)
PHASES = {"C07": ("freed",), "C08": ("destroyed",)}


def table(build):
    """The rows, and the request at which the driver died."""
    binary = core.build(build)
    try:
        p = subprocess.run([binary, "build"], env=core.env(), stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired as e:
        err = (e.stderr or b"").decode() if isinstance(e.stderr, bytes) else e.stderr or ""
        return [], {"died": "does not end", "at": (err.splitlines() or [""])[-1]}
    rows = []
    for l in p.stdout.splitlines():
        try:
            rows.append(json.loads(l))
        except ValueError:
            pass
    if p.returncode < 0:
        return rows, {"died": f"signal {-p.returncode}", "at": (p.stderr.splitlines() or [""])[-1]}
    if p.returncode:
        raise core.ToolError(f"build table of {build}: exit {p.returncode}\n{p.stderr[-1500:]}")
    return rows, None


def judge(rows, tag):
    path = os.path.join(core.CACHE, f"build-{tag}-{os.getpid()}.ndjson")
    with open(path, "w") as f:
        f.writelines(json.dumps(r) + "\n" for r in rows)
    r = core.tlc("Build", "build-" + tag, {}, invariants=["Sum", "Enough", "Report"], extra=["CHECK_DEADLOCK FALSE"],
                 env_extra={"TABLE": path}, keep=path + ".out", timeout=300)
    bad = []
    for l in open(path + ".out", errors="replace"):
        m = re.match(r'"<<\\"BAD\\", (\d+), \\"(\w+)\\">>"', l)
        if m:
            bad.append((int(m.group(1)) - 1, m.group(2)))
    os.unlink(path)
    os.unlink(path + ".out")
    if not r.ok:
        raise core.ToolError(f"TLC on Build/{tag}: {r.error or r.out[-1500:]}")
    return r, bad


def check(c):
    for b in BUILDS[c.prop]:
        if b != BUILDS[c.prop][0] and not core.build_if(c, b):
            continue
        rows, died = table(b)
        if died:
            c.violation(f"[{b}] building a buffer: {died['died']} at {died['at']}", dict(died, build=b, key=[b, "died", died["at"]]))
        if not rows:
            continue
        r, bad = judge(rows, b)
        # a right row is taken, wrong ones are noticed
        right = {"build": "std", "kind": "-", "ctor": "vec", "item": "-", "period": 100, "n": 5, "stages": 3, "panic": False, "len": 5, "avail": [4, 0, 0],
                 "seen": [[0, 4]], "accepted": 4, "refused": True, "got": [[7, 4]], "after": [0, 0, 4], "left": 0,
                 "bytes": 0, "errors": 0}
        wrong = [dict(right, **x) for x in ({"len": 6}, {"avail": [4, 0, 1]}, {"panic": True}, {"accepted": 5}, {"refused": False}, {"n": 0},
                                            {"seen": [[1, 4]]}, {"got": [[7, 2], [8, 2]]}, {"after": [0, 1, 4]}, {"left": 1}, {"bytes": 8}, {"errors": 8}, {"build": "vmem"})]
        if judge([right], b + "-right")[1]:
            raise core.ToolError("Build: refuses a right row")
        seen = {i for i, _ in judge(wrong, b + "-wrong")[1]}
        if len(seen) < len(wrong):
            raise core.ToolError(f"Build: wrong rows go unnoticed: only {seen}")
        c.states += r.distinct
        c.transitions += r.generated
        c.validated += len(rows)
        c.parts.append({"specification": "Build", "build": b, "requests": len(rows), "lengths": len({x["n"] for x in rows}), "mismatches": len(bad)})
        for i, ph in bad:
            x = rows[i]
            if ph not in PHASES.get(c.prop, (ph,)):
                continue
            c.violation(f"[{b}] {x['kind']} of {x['n']} {x['item']} ({x['ctor']}, {x['stages']} stages): not as specified when {ph}: "
                        f"{ {k: v for k, v in x.items() if k in ('panic', 'len', 'avail', 'accepted', 'after', 'left', 'bytes', 'errors')} }",
                        {"build": b, "row": x, "phase": ph, "key": [b, x["kind"], x["ctor"], x["item"], x["n"], x["stages"], ph]})
