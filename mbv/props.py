"""What decides each property."""
from . import conc, cross, ctors, seq

_SEQ = "TLA+ (TLC): exhaustive model of the ring; every exported transition replayed on the real buffers, states compared"
_CONC = ("TLA+ (TLC): trace specification with a C11 memory model judges executions of the real code over all schedules and "
         "memory outcomes of small programs; design models of the protocol")
TECHNIQUE, LEVEL, NOTE = {}, {}, {}
_SEQ_NOTE = ("Exhaustive over all histories of the specification within small lengths; the code is bound by replaying every transition "
             "(covering walks plus random walks) on all buffer variants. Trusts the replay driver and TLC.")
_CONC_NOTE = ("Threads: exhaustive over schedules and C11 reads-from choices for the small programs listed in the evidence (sampled where "
              "not exhaustive); TLC judges the recorded executions. Trusts the explorer, which intercepts atomics and page-protects slots.")
for _p in set(seq.PLAN) | set(conc.VMEM):
    TECHNIQUE[_p] = "; ".join(([_SEQ] if _p in seq.PLAN else []) + ([_CONC] if _p in conc.VMEM else []))
    NOTE[_p] = " ".join(([_SEQ_NOTE] if _p in seq.PLAN else []) + ([_CONC_NOTE] if _p in conc.VMEM else []))
    LEVEL[_p] = "model_checking"
for _p in ctors.BUILDS:
    TECHNIQUE[_p] += "; a table of constructions recorded from the code, judged by a model of construction, split, filling and draining"
    NOTE[_p] += " Constructions: the lengths listed in the driver (all small ones, powers of two and page sizes with their neighbours)."
TECHNIQUE["C16"] = ("TLA+ (TLC): model of what safe code may do with handles, over the table of Send/Sync facts the compiler derives for the "
                    "crate's types")
NOTE["C16"] = ("Exhaustive over wrappers, stages, buffer variants, storages, futures and item classes in three builds; items are represented by "
               "eight types. Trusts rustc's trait solver and TLC.")
LEVEL["C16"] = "model_checking"
NOT = {}


def run(c):
    jobs = []
    if c.prop == "C16":
        jobs.append(lambda: cross.check(c))
    if c.prop in conc.VMEM:
        jobs += [lambda: conc.check(c), lambda: conc.design(c)]
    if c.prop in seq.PLAN:
        jobs.append(lambda: seq.check(c))
    if c.prop in ctors.BUILDS:
        jobs.append(lambda: ctors.check(c))
    for j in jobs:
        j()
