-------------------------------- MODULE RAMem --------------------------------
(***************************************************************************)
(* Atomic memory with C11 orderings, operationally: every location has a   *)
(* modification order, to which stores append; a thread may read any       *)
(* message not older than what it knows of.  `Know' is what a thread (or a *)
(* message) knows: clk, the accesses that happen before, and view, the     *)
(* oldest message of each location that may still be read.  A thread's     *)
(* clock ticks after each of its stores: accesses before a store have its  *)
(* stamp or a smaller one, accesses after it a larger one.                 *)
(*                                                                         *)
(* SeqCst accesses and fences are ordered among themselves at least as     *)
(* strongly as C11 demands, so nothing C11 forbids is possible here.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Threads, Locs

Larger(a, b) == IF a > b THEN a ELSE b
Nothing == [clk |-> [t \in Threads |-> 0], view |-> [l \in Locs |-> 1]]
JoinV(a, b) == [l \in Locs |-> Larger(a[l], b[l])]
Join(a, b) == [clk |-> [t \in Threads |-> Larger(a.clk[t], b.clk[t])], view |-> JoinV(a.view, b.view)]

IsAcq(o) == o \in {"a", "ar", "sc"}
IsRel(o) == o \in {"r", "ar", "sc"}

\* know, acq, rel: thread -> Know;  msgs: location -> sequence of [val, know];  sc: view of all SC accesses
InitMem(vals) ==
    [know |-> [t \in Threads |-> [Nothing EXCEPT !.clk[t] = 1]],
     acq  |-> [t \in Threads |-> Nothing],
     rel  |-> [t \in Threads |-> Nothing],
     msgs |-> [l \in Locs |-> <<[val |-> vals[l], know |-> Nothing]>>],
     sc   |-> Nothing.view]

\* The messages t may read with ordering o; i is a position in the modification order
Oldest(mem, t, l, o) == IF o = "sc" THEN Larger(mem.know[t].view[l], mem.sc[l]) ELSE mem.know[t].view[l]
Latest(mem, l) == Len(mem.msgs[l])
Readable(mem, t, l, o) == Oldest(mem, t, l, o) .. Latest(mem, l)

Absorb(mem, t, l, o, i) ==
    LET k == mem.msgs[l][i].know
        m == [mem EXCEPT !.know[t].view[l] = Larger(@, i)]
    IN  IF IsAcq(o) THEN [m EXCEPT !.know[t] = Join(@, k)]
        ELSE [m EXCEPT !.acq[t] = Join(@, k)]

Append1(mem, t, l, o, v, read) ==
    LET i == Latest(mem, l) + 1
        k0 == IF IsRel(o) THEN mem.know[t] ELSE mem.rel[t]
        k == [Join(k0, read) EXCEPT !.view[l] = i]
    IN  [mem EXCEPT !.msgs[l] = Append(@, [val |-> v, know |-> k]),
                    !.know[t].view[l] = i,
                    !.know[t].clk[t] = @ + 1,
                    !.sc[l] = IF o = "sc" THEN i ELSE @]

Load(mem, t, l, o, i) == Absorb(mem, t, l, o, i)
Store(mem, t, l, o, v) == Append1(mem, t, l, o, v, Nothing)
\* reads the latest message, and continues the release sequence
Rmw(mem, t, l, o, v) ==
    LET i == Latest(mem, l)
        k == mem.msgs[l][i].know
    IN  Append1(Absorb(mem, t, l, o, i), t, l, o, v, k)
RmwFailed(mem, t, l, o) == Absorb(mem, t, l, o, Latest(mem, l))

Fence(mem, t, o) ==
    LET m1 == IF IsAcq(o) THEN [mem EXCEPT !.know[t] = Join(@, mem.acq[t])] ELSE mem
        v == JoinV(m1.know[t].view, m1.sc)
        m2 == IF o = "sc" THEN [m1 EXCEPT !.know[t].view = v, !.sc = v] ELSE m1
    IN  IF IsRel(o) THEN [m2 EXCEPT !.rel[t] = m2.know[t], !.know[t].clk[t] = @ + 1] ELSE m2

\* t comes to know what all of ts know
JoinAll(mem, t, ts) ==
    LET all == [clk |-> [u \in Threads |-> LET S == {mem.know[x].clk[u] : x \in ts \cup {t}} IN CHOOSE y \in S : \A z \in S : z <= y],
                view |-> [l \in Locs |-> LET S == {mem.know[x].view[l] : x \in ts \cup {t}} IN CHOOSE y \in S : \A z \in S : z <= y]]
    IN  [mem EXCEPT !.know[t] = all]

\* an access of thread u with stamp c (its own clock then) happens before t's next step
Before(mem, t, u, c) == c <= mem.know[t].clk[u]
==============================================================================
