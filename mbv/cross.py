"""Which handles may get to other threads: the compiler's answers, judged by Cross.tla."""
import json
import os
import re

from . import core

BUILDS = {"std": [], "noalloc": ["--no-default-features"], "vmem": ["--no-default-features", "--features", "vmem"]}
SEND = {"both", "both-own", "send"}


def table(name):
    target = os.path.join(core.CACHE, "t-cross-" + name)
    rc, out = core.run(["cargo", "build", "--offline", "--locked", "--quiet"] + BUILDS[name], 600, os.path.join(core.VERIF, "crossing"),
                       {"CARGO_TARGET_DIR": target})
    if rc != 0:
        raise core.ToolError(f"the types do not compile against {core.REPO}:\n{out[-3000:]}")
    rc, out = core.run([os.path.join(target, "debug/crossing")], 60)
    if rc != 0:
        raise core.ToolError(f"crossing: exit {rc}\n{out[-2000:]}")
    return [json.loads(l) for l in out.splitlines()]


def model(rows, tag, invariants=()):
    path = os.path.join(core.CACHE, f"table-{tag}-{os.getpid()}.ndjson")
    with open(path, "w") as f:
        f.writelines(json.dumps(r) + "\n" for r in rows)
    r = core.tlc("Cross", "cross-" + tag, {}, invariants=invariants, extra=["ACTION_CONSTRAINT Report", "CHECK_DEADLOCK FALSE"],
                 env_extra={"TABLE": path}, keep=path + ".out", timeout=600)
    bad = set()
    for l in open(path + ".out", errors="replace"):
        m = re.match(r'"<<\\"CROSS\\", <<(.*)>>>>"', l)
        if m:
            bad.add(tuple(re.findall(r'\\"(.*?)\\"', m.group(1))))
    os.unlink(path)
    os.unlink(path + ".out")
    return r, bad


def check(c):
    def one(b):
        try:
            rows = table(b)
        except core.ToolError as e:
            if b == "std":
                raise
            c.assumptions.append(f"left out: the {b} build: {str(e)[-300:]}")
            print(f"{c.prop}: left out: the types of the {b} build")
            return None
        return rows, *model(rows, b)

    res = dict(zip(BUILDS, core.parallel([lambda b=b: one(b) for b in BUILDS], 3)))
    res = {b: x for b, x in res.items() if x}
    # the model itself: a table that lets through what it must lets nothing bad through and some cross; a wrong row is noticed
    rows = res["std"][0]
    ideal = [dict(r, send=r["variant"] == "conc" and r["item"] in SEND, sync=False) for r in rows]
    r, bad = model(ideal, "ideal", ["NoCrossing"])
    if bad or "NoCrossing is violated" not in r.error:
        raise core.ToolError(f"Cross: the ideal table: {bad} {r.error}")
    for k, change in (((("local", "heap", "P", "asyncdetached", "both")), {"send": True}), (("local", "stack", "W", "detached", "none"), {"sync": True}),
                      (("conc", "heap", "CW", "futureitem", "sync"), {"send": True})):
        wrong = [dict(x, **change) if (x["variant"], x["storage"], x["stage"], x["wrap"], x["item"]) == k else x for x in ideal]
        r, bad = model(wrong, "wrong")
        if {b[:5] for b in bad} != {k}:
            raise core.ToolError(f"Cross: the wrong row {k} gives {bad}")
    for b, (rows, r, bad) in res.items():
        if not r.ok:
            raise core.ToolError(f"TLC on Cross/{b}: {r.error or r.out[-1500:]}")
        c.states += r.distinct
        c.transitions += r.generated
        c.validated += len(rows)
        c.parts.append({"build": b, "types": len(rows), "send": sum(x["send"] for x in rows), "sync": sum(x["sync"] for x in rows),
                        "states": r.distinct, "forbidden crossings": len(bad)})
        c.samples.append({"build": b, "rows": rows[:2]})
        for x in sorted(bad):
            variant, storage, stage, wrap, item, how = x
            c.violation(f"[{b}] safe code can {'move' if how == 'moved' else 'lend'} the {wrap} of stage {stage} of a {variant} {storage} buffer "
                        f"over items that are {item} to another thread", {"build": b, "type": x, "key": list(x)})
