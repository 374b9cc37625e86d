"""The sequential world: every transition of Ring.tla, replayed on the real buffers."""
import hashlib
import json
import os
import re

from . import core

INVARIANTS = ["TypeOK", "StageOrder", "LocalOrder", "SumOK", "CacheSound", "InFlightOccupied", "LocalOccupied"]
PROPERTIES = ["RefusedNoEffect", "DetachedLocal", "ResetOK", "OwnPub", "SplitOK"]

# name: (L, worker at the first split, zeroed, classes)
CONFIGS = {
    "base1": (1, True, False, ("base", "own", "det")),
    "base2": (2, True, False, ("base", "own")),
    "base4": (4, True, False, ("base",)),
    "base5": (5, False, False, ("base",)),
    "own4": (4, True, False, ("lean", "own")),
    "own4s": (4, False, False, ("lean", "own")),
    "zero3": (3, True, True, ("base", "own")),
    "zero4": (4, False, True, ("lean", "own")),
    "cell2z": (2, False, True, ("lean", "own")),
    "cell2": (2, True, False, ("lean", "own")),
    "det2": (2, False, False, ("base", "own", "det")),
    "det3": (3, True, False, ("lean", "det")),
    "det4": (4, False, False, ("lean", "det")),
    "detz": (3, False, True, ("lean", "own", "det")),
    "life3": (3, True, False, ("lean", "life", "own")),
    "life2": (2, True, False, ("lean", "life", "own", "det")),
    "lifez": (3, False, True, ("lean", "life", "own")),
    "split3": (3, True, False, ("lean", "life", "resplit")),
    "split2z": (2, False, True, ("lean", "own", "life", "resplit")),
    "fut3": (3, True, False, ("mini", "fut1")),
    "fut3s": (3, False, False, ("mini", "fut1")),
    "fut2z": (2, False, True, ("mini", "fut", "own")),
    "fut3z": (3, True, True, ("mini", "fut1", "own")),
    "futlife2": (2, True, False, ("mini", "fut1", "life")),
    "futlife3": (3, False, False, ("mini", "fut1", "life")),
    # thorough only
    "base7": (7, False, False, ("base",)),
    "base6": (6, True, False, ("lean",)),
    "own5": (5, True, False, ("lean", "own")),
    "zero4w": (4, True, True, ("lean", "own")),
    "det4w": (4, True, False, ("lean", "det")),
    "det3o": (3, True, False, ("lean", "own", "det")),
    "life4": (4, True, False, ("lean", "life")),
    "split4": (4, True, False, ("lean", "life", "resplit")),
    "split3z": (3, True, True, ("lean", "own", "life", "resplit")),
    "fut4": (4, False, False, ("mini", "fut1")),
    "fut3two": (3, False, False, ("mini", "fut")),
    # long buffers
    "blocks": (4096, True, False, ("lean",)),
    "blocksdet": (4096, False, False, ("lean", "det")),
    "blocksz": (4096, False, True, ("lean", "own", "life")),
    "walk": (4096, True, False, ("base", "own")),
    "walkdet": (4096, False, False, ("lean", "det", "own")),
    "walkfut": (4096, False, False, ("mini", "fut1", "own")),
    "long": (300, True, False, ("base", "own")),
    "longdet": (300, True, False, ("lean", "det")),
    "longz": (300, False, True, ("lean", "own", "det")),
    "longfut": (300, True, False, ("mini", "fut1")),
    "huge": (69632, True, False, ("base",)),
    "hugedet": (69632, False, False, ("lean", "det")),
}
_BLOCKS = {1024, 2048, 3072, 4096}
_STEPS = {1, 2, 1365, 2047, 2048, 4095, 4096}
_LONG = {1, 2, 7, 100, 149, 150, 255, 256, 257, 298, 299, 300, 301}
_HUGE = {1, 255, 32768, 65536, 69631, 69632}
# name: (sizes of requests and moves, behaviours and their length if not all of them are explored)
SCOPE = {"huge": (_HUGE, (3, 30)), "hugedet": (_HUGE, (3, 30)),
         "blocks": (_BLOCKS, None), "blocksdet": (_BLOCKS, None), "blocksz": (_BLOCKS, None),
         "walk": (_STEPS, (8, 60)), "walkdet": (_STEPS, (8, 60)), "walkfut": (_STEPS, (8, 60)),
         "long": (_LONG, (12, 100)), "longdet": (_LONG, (12, 100)), "longz": (_LONG, (12, 100)), "longfut": (_LONG, (12, 100))}
STACK_MAX = 5

COPY = ["u8", "u64", "u128", "arr3", "arr24"]
OWN = ["own1", "own8f", "own8l", "own16", "own17", "own24", "wide", "pad", "box"]
# one slot's worth of bytes, of which one or two are not zero: every position in turn
_SIZES = {"v1": 1, "v2": 2, "v3": 3, "v4": 4, "v5": 5, "v6": 6, "v8": 8, "v9": 9, "v12": 12, "v16": 16, "v20": 20, "v24": 24, "v33": 33,
          "v40": 40, "v48": 48}
CELLS = [f"{v}@{k}" for v, n in _SIZES.items() for k in range(n)]
CELLS += [f"{v}@{k}{m}{j}" for v, n in _SIZES.items() for k, j in ((0, n - 1), (n - 1, n // 2), (0, n // 2), (n // 2, 1)) if n > 2 and k != j for m in "=+"]
PAGES = ["page", "page2", "pagec"]     # in mirrored buffers of few slots
LONG_ITEMS = ["u8", "u64", "u128", "arr3", "arr24", "wide", "pad", "box"]   # of which there may be many
ON_STACK = ["u64", "own16", "box"]


def profiles(build, cfg, items=None, styles=("sync", "async", "attach"), ctors=None, kinds=None):
    """All variants that can perform the histories of the configuration."""
    L, _, zeroed, classes = CONFIGS[cfg]
    resplit = "resplit" in classes
    futs = "fut" in classes or "fut1" in classes
    res = []
    for kind in ("conc-heap", "local-heap", "conc-stack", "local-stack"):
        heap = kind.endswith("heap")
        if kinds and kind not in kinds:
            continue
        if heap and (build == "noalloc" or resplit):
            continue
        if not heap and (build == "vmem" or L > STACK_MAX):
            continue
        for item in (items or COPY + OWN):
            if L > 50 and item not in LONG_ITEMS:
                continue
            if not heap and item not in ON_STACK:
                continue
            for style in styles:
                if futs and style != "async":
                    continue
                for ctor in (("zeroed",) if zeroed else ("from", "default")):
                    if ctor == "default" and (not heap or style != "sync"):
                        continue
                    if ctors and ctor not in ctors:
                        continue
                    a = "s"
                    if style == "async" and kind.startswith("conc"):
                        # with `alloc', an asynchronous split of a stack buffer moves it to the heap, for good
                        a = "a" if heap or build == "noalloc" or not resplit else "s"
                    if futs and kind.startswith("local") and build == "noalloc":
                        pass
                    res.append(f"{kind}:{item}:{style}:{ctor}:{a}")
    return res


def model(name, export=True, seed=1, factor=1):
    """Runs TLC on a configuration: the specification's properties, and its transitions into a file."""
    L, worker, zeroed, classes = CONFIGS[name]
    sizes, sim = SCOPE.get(name, (set(range(1, L + 2)), None))
    os.makedirs(os.path.join(core.CACHE, "graphs"), exist_ok=True)
    keep = os.path.join(core.CACHE, "graphs", f"{name}-{os.getpid()}.out")
    argv = ["-simulate", f"num={sim[0] * factor}", "-depth", str(sim[1]), "-seed", str(seed)] if sim else []
    r = core.tlc("Ring", name, {"L": L, "Sizes": sizes, "Worker": worker, "Zeroed": zeroed, "Classes": set(classes), "Export": export},
                 invariants=INVARIANTS, properties=PROPERTIES, view=None if sim else "View",
                 extra=["ACTION_CONSTRAINT EdgeExport", "CHECK_DEADLOCK FALSE"], keep=keep, timeout=800, argv=argv)
    if not r.ok:
        raise core.ToolError(f"TLC on Ring/{name}: {r.error or r.out[-1500:]}")
    return r


def replay(binary, name, graph, profs, seed, random, rlen, jobs=8, timeout=800, factor=1, alike=False, small=False):
    """None: a mirrored buffer cannot be that small."""
    out = graph + "." + hashlib.md5((binary + ",".join(profs)).encode()).hexdigest()[:8] + ".json"
    more = [f"prune={400 * factor}"] if SCOPE.get(name, (0, None))[1] else []
    if small:
        more.append("small")
    if CONFIGS[name][0] > 1000:
        random, rlen = random // 4, min(rlen, 100)
    if name.startswith("huge"):
        more, random, rlen = [f"prune={25 * factor}"], random // 10, 60
    rc, text = core.run([binary, "replay", f"graph={graph}", f"name={name}", f"profiles={','.join(profs)}", f"seed={seed}",
                         f"random={random}", f"rlen={rlen}", f"jobs={jobs}", f"out={out}", f"alike={int(alike)}", *more], timeout, extra={"RINGCHECK_TMP": core.CACHE})
    if rc != 0:
        raise core.ToolError(f"replay of {name}: exit {rc}\n{text[-2000:]}")
    if small and "NOT-SMALL" in text:
        return None
    d = json.load(open(out))
    os.unlink(out)
    return d


# ------------------------------------------------------------------------------------------------ attribution

TAKES = {"take", "takeS", "move"}
PUSHES = {"push", "pushI", "pushS", "pushSI", "ptr"}


class M:
    """A mismatch between specification and code, and what the history before it contains."""

    def __init__(self, d, cfg, build):
        self.d, self.cfg, self.build = d, cfg, build
        self.kind, self.msg = d["kind"], d["msg"]
        role, _, call = d["op"].partition(".")
        self.role, self.call = role, call
        self.bufkind, self.item, self.style, self.ctor, self.asplit = d["profile"].split(":")
        names = [re.match(r"(\w)\.([\w:]+)\(", o).groups() for o in d["ops"]]
        self.resets = any(c == "reset" for _, c in names)
        self.det = any(c in ("detach",) for _, c in names)
        self.detached_now = set()
        for r, c in names:
            if c == "detach":
                self.detached_now.add(r)
            elif c == "attach":
                self.detached_now.discard(r)
        self.splits = any(r == "B" for r, _ in names)
        self.futs = any(c.startswith("fnew") for _, c in names)
        self.drops = any(c == "drop" for _, c in names)
        self.moves = any(c.endswith("move") for _, c in names)
        if self.call in ("fPoll", "fpoll", "fdrop", "fDrop"):
            last = [c for r, c in names if r == role and c.startswith("fnew:")]
            self.base_call = last[-1][5:] if last else self.call
        else:
            self.base_call = self.call
        self.over, self.under = self.direction()
        self.bad = self.kind == "harness" or "HARNESS:" in self.msg or "LEDGER:" in self.msg
        if self.kind == "panic" and "OBS:" in self.msg:
            self.kind = "refused"
        if self.kind == "panic" and re.search(r"panicked at src/(graph|alloc|proc|main)\.rs", self.msg):
            self.bad = True

    def direction(self):
        m = re.search(r"got (.*), specified (.*)$", self.msg)
        if not m or self.kind not in ("avail", "grant"):
            return (False, False)
        num = lambda s: {"true": 1, "false": 0}.get(s, int((re.findall(r"\d+", s) or ["0"])[0]))
        g, w = num(m.group(1)), num(m.group(2))
        return (g > w, g < w)

    @property
    def fatal(self):
        return self.kind in ("crash", "panic", "hang")

    def __str__(self):
        return f"[{self.cfg}/{self.build} {self.d['profile']}] {self.kind} at {self.d['op']} (step {self.d['step']}): {self.msg}"


def only_with(ms, feature):
    """Mismatches that have the feature, if none is without it. feature: True, False, None (no statement)."""
    f = [(m, feature(m)) for m in ms]
    if any(x is False for _, x in f):
        return []
    return [m for m, x in f if x]


def attribute(prop, ms):
    """The mismatches that show the property to be broken."""
    if prop == "C01":
        return [m for m in ms if m.kind in ("val", "slot", "win", "idx", "pub", "crash", "panic")
                or (m.kind == "grant" and m.over) or (m.kind == "avail" and m.over)
                or (m.kind == "grant" and m.role == "C" and m.base_call in TAKES)]
    if prop == "C04":
        return [m for m in ms if m.kind in ("idx", "pub", "avail", "grant", "crash", "panic")]
    if prop == "C05":
        return [m for m in ms if m.kind in ("avail", "grant", "refused", "panic", "crash", "hang")
                or (m.kind in ("idx", "pub") and not m.d["ops"][-1].endswith("=ok") and "=no" in m.d["ops"][-1])]
    if prop == "C06":
        return [m for m in ms if m.kind in ("win", "slot", "val", "idx", "pub", "crash", "panic")
                or (m.kind == "grant" and m.base_call in ("winN", "winA", "winM", "peekN", "peekA", "pushS", "pushSI", "takeS", "win1", "peek1"))
                or (m.kind == "alloc" and "past the end" in m.msg)]
    if prop == "C07":
        return [m for m in ms if m.kind in ("alloc", "alive", "crash")
                or (m.kind == "ledger" and (m.call in ("drop", "end")))
                or (m.kind == "panic" and m.call in ("drop", "end"))
                or (m.drops and m.kind in ("val", "slot") and "255" in m.msg)]
    if prop == "C08":
        return [m for m in ms if m.item not in COPY and (m.kind in ("ledger", "crash", "panic")
                or (m.kind == "alloc" and ("free" in m.msg or "leak" in m.msg or "not freed" in m.msg))
                or (m.kind in ("slot", "val") and "255" in m.msg))]
    if prop == "C09":
        return [m for m in ms if CONFIGS[m.cfg][2] or m.moves]
    if prop == "C10":
        return [m for m in ms if m.kind == "hang"]
    if prop == "C11":
        at = [m for m in ms if m.call == "reset"]
        return at or only_with(ms, lambda m: m.resets)
    if prop == "C12":
        at = [m for m in ms if m.call in ("attach", "sync", "back", "set", "detach") or (m.call == "reset" and m.role in m.detached_now)]
        return at or only_with(ms, lambda m: True if m.det or m.style == "attach" else None if m.style == "async" else False)
    if prop == "C13":
        return [m for m in ms if m.kind == "vary"]
    if prop == "C14":
        return only_with(ms, lambda m: m.style == "async")
    if prop == "C15":
        return [m for m in ms if m.kind in ("wake", "hang") or (m.kind == "grant" and m.call in ("fPoll", "fpoll") and m.under)]
    if prop == "C17":
        return [m for m in ms if m.build == "vmem"]
    if prop == "C18":
        at = [m for m in ms if m.call == "init" or m.role == "B"]
        return at or only_with(ms, lambda m: m.splits)
    raise KeyError(prop)


# what each property is checked on: quick, thorough (in addition)
PLAN = {
    "C01": (["base4", "own4", "zero3", "det3", "life2", "long", "longz", "huge"], ["base6", "base7", "own5", "zero4w", "det4w"]),
    "C04": (["base1", "base4", "base5", "det3", "life3", "long", "longdet", "huge"], ["base6", "base7", "det4w"]),
    "C05": (["base1", "base2", "base4", "base5", "fut3s", "life2", "long", "huge"], ["base6", "base7", "own5", "fut3"]),
    "C06": (["base4", "base5", "own4", "zero4", "long", "longz", "huge"], ["base6", "base7", "own5"]),
    "C07": (["life3", "life2", "split3"], ["life4", "split4", "lifez"]),
    "C08": (["own4", "zero3", "life3", "lifez", "fut2z", "longz", "cell2z", "cell2"], ["own5", "zero4w", "split3z", "fut3z"]),
    "C09": (["zero3", "zero4", "detz", "fut2z", "split2z", "longz", "cell2z"], ["zero4w", "split3z", "fut3z", "lifez"]),
    "C10": (["base4", "det2", "fut3s"], ["base6", "det3", "fut3"]),
    "C11": (["base4", "base5", "det3", "det4", "zero3", "life3", "longdet"], ["base6", "base7", "det4w", "split3"]),
    "C12": (["det2", "det3", "det4", "detz", "base4", "life2", "longdet", "hugedet"], ["det4w", "det3o", "base6"]),
    "C13": (["base4", "own4s", "det3", "zero3", "life3", "long"], ["base5", "base6", "own5", "det4w", "split3", "life4"]),
    "C14": (["base4", "own4s", "fut3", "fut3s", "fut2z", "futlife2", "futlife3", "life2", "longfut"], ["fut3z", "fut4", "fut3two", "zero4"]),
    "C15": (["fut3", "fut3s", "fut2z", "futlife2", "futlife3"], ["fut3z", "fut4", "fut3two"]),
    "C17": (["blocks", "blocksdet", "blocksz", "walk", "walkdet", "walkfut"], []),
    "C18": (["base1", "base2", "base4", "zero3", "split3", "split2z"], ["split4", "split3z", "base5", "own4"]),
}
# mirrored buffers of few slots
SMALL = (["base1", "base2", "base4", "base5", "own4", "zero3", "zero4", "det2", "det3", "life2", "life3", "lifez", "fut3s", "fut2z", "futlife2"],
         ["base6", "base7", "own5", "zero4w", "det4w", "det3o", "life4", "fut3z", "fut4"])
# of them, for the properties which only add what is special about them there
SMALL_TOO = {"C01": ["own4"], "C04": ["det3"], "C05": ["base4"], "C06": ["base4", "zero4"], "C07": ["life2"], "C08": ["own4", "zero3"],
             "C09": ["zero4"], "C11": ["det3"], "C12": ["det3"], "C14": ["fut3s"], "C15": ["fut3s"], "C18": ["base4"]}
# also on the build without `alloc'
NOALLOC = {"C13", "C14", "C18", "C07"}


def narrow(prop, cfg, tier):
    """Which variants, where not all of them add to the property."""
    kw = {}
    if prop in ("C08", "C09"):
        kw["items"] = OWN + ["u64"]
    if prop == "C01":
        kw["items"] = ["u8", "u64", "arr3", "own1", "own16", "pad", "box"]
    if prop in ("C04", "C12"):
        kw["items"] = ["u8", "u64", "own16", "box"]
    if prop in ("C06", "C13", "C14"):
        kw["items"] = ["u8", "u64", "u128", "arr3", "arr24", "own1", "own16", "own17", "wide", "pad", "box"]
    if prop == "C07":
        kw["items"] = ["u64", "own16", "box", "own24"]
    if prop == "C15":
        kw["items"] = ["u64", "own16", "box"]
    if prop in ("C10", "C11", "C18", "C05"):
        kw["items"] = ["u8", "u64", "u128", "own1", "own16", "pad", "box"]
    if prop == "C17":
        kw["items"] = LONG_ITEMS if tier != "quick" else ["u64", "wide"] if cfg in ("blocksdet", "blocksz") else ["u8", "arr3", "wide", "box"]
    if cfg.startswith("cell"):
        kw.update(items=CELLS, styles=("sync",), kinds=("conc-heap",))
    if cfg.startswith("huge"):
        kw.update(items=["u64"], styles=("sync", "attach") if cfg == "hugedet" else ("sync",), kinds=("conc-heap", "local-heap"), ctors=("from",))
    if cfg.startswith("life"):
        kw["items"] = ["u64", "own1", "own16", "box"] if tier != "quick" else ["own16", "box"] if prop == "C08" else ["u64", "own16"]
    return kw


def check(c, extra=()):
    """The sequential part of the check of c.prop. Yields all mismatches (attributed or not)."""
    thorough = c.tier == "thorough"
    pick = lambda p: list(p[0]) + (list(p[1]) if thorough else [])
    builds = ["vmem"] if c.prop == "C17" else ["std"] + (["noalloc"] if c.prop in NOALLOC else []) + (["vmem"] if c.prop in SMALL_TOO else [])
    work = [(n, False) for n in pick(PLAN[c.prop])] + [(n, True) for n in (pick(SMALL) if c.prop == "C17" else SMALL_TOO.get(c.prop, []))]
    names = list(dict.fromkeys(n for n, _ in work))
    random, rlen = (80, 250) if not thorough else (3000, 1000)
    factor = 20 if thorough else 1
    thunks = [(lambda b=b: core.build(b) if b == builds[0] else core.build_if(c, b)) for b in builds] + [(lambda n=n: model(n, seed=c.seed, factor=factor)) for n in names]
    res = core.parallel(thunks, 5)
    bins = dict(zip(builds, res))
    graphs = dict(zip(names, res[len(builds):]))
    for g in graphs.values():
        c.states += g.distinct
        c.transitions += g.generated - 1
    ms = []
    for n, small in work:
        g = graphs[n]
        for b in builds if c.prop == "C17" else [b for b in builds if (b == "vmem") == small]:
            ps = profiles(b, n, items=PAGES) if small else profiles(b, n, **narrow(c.prop, n, c.tier))
            if b == "noalloc":
                ps = [p for p in ps if "stack" in p]
            if not ps or not bins[b]:
                continue
            d = replay(bins[b], n, g.path, ps, c.seed, random, rlen, factor=factor, alike=c.prop == "C13", small=small)
            if d is None:
                c.parts.append({"config": n, "build": b, "skipped": "this tree does not take its page size from the system"})
                continue
            c.validated += d["runs"]
            c.parts.append({"config": n, "constants": CONFIGS[n][:3], "classes": CONFIGS[n][3], "build": b + ("/small" if small else ""),
                            "states": d["states"], "transitions": d["edges"], "covering_paths": d["cover_paths"],
                            "random_paths": d["paths"] - d["cover_paths"], "variants": len(ps), "replays": d["runs"],
                            "steps": d["steps"], "calls": len(d["calls"]), "mismatches": len(d["mismatches"])})
            if len(c.samples) < 3:
                c.samples.append({"config": n, "history": d["sample"][:25]})
            ms += [M(x, n, b) for x in d["mismatches"]]
    for g in graphs.values():
        os.unlink(g.path)
    bad = [m for m in ms if m.bad]
    if bad:
        raise core.ToolError(f"the driver failed: {bad[0]}")
    for m in attribute(c.prop, ms):
        c.violation(str(m), dict(m.d, build=m.build, seed=c.seed, random=random, rlen=rlen,
                                 key=[m.kind, m.d["op"], m.d["profile"], m.d["ops"]]))
    return ms
