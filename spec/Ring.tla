-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* The sequential core of mutringbuf: one buffer of L slots, a producer P, *)
(* an optional worker W and a consumer C.  One action per public call (one *)
(* call is one atomic step in single-threaded use).  Calls outside of the  *)
(* documented contract (advance beyond `available', plain pushes onto      *)
(* empty slots, ...) are not actions.                                      *)
(*                                                                         *)
(* `op' is an observation variable: the last call and its result.  It is   *)
(* hidden by VIEW and exported, with the states around it, by EdgeExport:  *)
(* the harness replays every exported transition on the real code.         *)
(*                                                                         *)
(* `cache' follows the remembered availability of the implementation.  It  *)
(* does not influence any result (see CacheSound and the definition of     *)
(* Grant); it is kept so that every history that leaves a different        *)
(* memory behind is a different state, hence is replayed separately.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS L,          \* length of the buffer
          Sizes,      \* sizes of requests and moves, those below L+2
          Worker,     \* TRUE: three stages at the first split
          Zeroed,     \* TRUE: buffer built by new_zeroed
          Classes,    \* which calls: subset of {"base","lean","mini","own","det","life","fut","fut1","resplit"}
          Export      \* TRUE: print every transition

VARIABLES idx,    \* role -> local position
          pub,    \* role -> published position
          cache,  \* role -> remembered availability
          det,    \* role -> detached?
          alive,  \* role -> iterator exists?
          wk,     \* the current session has a worker stage
          holes,  \* the slots that hold no value (vacated, or fresh from new_zeroed)
          fut,    \* role -> pending future: <<>> or <<call, n>>
          op      \* last call: <<role, call, n, ok, cnt>>

core == <<idx, pub, cache, det, alive, wk, holes, fut>>
vars == <<idx, pub, cache, det, alive, wk, holes, fut, op>>
View == core

Roles == {"P", "W", "C"}
Slots == 0 .. L - 1
Present == IF wk THEN Roles ELSE {"P", "C"}
Min(a, b) == IF a < b THEN a ELSE b
Has(c) == c \in Classes

\* Whose published position limits r
Ahead(r) == CASE r = "P" -> "C"
              [] r = "W" -> "P"
              [] OTHER   -> IF wk THEN "W" ELSE "P"

Dist(a, b) == (b + L - a) % L

\* How many slots r may really use, were its position i
AvailAt(r, i) == IF r = "P" THEN L - 1 - Dist(pub["C"], i)
                 ELSE Dist(i, pub[Ahead(r)])
Avail(r) == AvailAt(r, idx[r])

\* Is the slot in a window of n slots at r's position?
In(s, r, n) == Dist(idx[r], s) < n
\* The slots of such a window; whether all of them hold values
Window(r, n) == {(idx[r] + k) % L : k \in 0 .. n - 1}
Full(r, n) == \A s \in holes : ~In(s, r, n)

\* A request for n slots is granted exactly if they are available
Grant(r, n) == n <= Avail(r)
\* and is remembered so
Remember(r, n) == IF cache[r] >= n THEN cache[r] ELSE Avail(r)

-----------------------------------------------------------------------------
Note(r, call, n, ok, cnt) == op' = <<r, call, n, ok, cnt>>

\* r may be called directly (no future borrows it)
Usable(r) == r \in Present /\ alive[r] /\ fut[r] = <<>>
Plain(r) == Usable(r) /\ ~det[r]

\* Move r by n having c remembered
Move(r, n, c) ==
    LET i == (idx[r] + n) % L
    IN  /\ idx' = [idx EXCEPT ![r] = i]
        /\ pub' = IF det[r] THEN pub ELSE [pub EXCEPT ![r] = i]
        /\ cache' = [cache EXCEPT ![r] = IF c > n THEN c - n ELSE 0]

Stay == UNCHANGED <<idx, pub>>
Rest == UNCHANGED <<det, alive, wk, fut>>
Big == 1000   \* stands for a request far beyond the capacity
Ns == {n \in Sizes : 1 <= n /\ n <= L + 1}
Upto == {n \in Ns : n < L}
Mods == {n \in Ns : n <= L}

\* A call that hands out up to n slots without moving
Look(r, call, n, cnt) ==
    /\ Stay /\ cache' = [cache EXCEPT ![r] = Remember(r, n)]
    /\ Note(r, call, n, Grant(r, n), IF Grant(r, n) THEN cnt ELSE 0)
    /\ UNCHANGED holes /\ Rest

\* A call that hands out whatever is available (cnt of it)
LookFresh(r, call, n, cnt) ==
    /\ Stay /\ cache' = [cache EXCEPT ![r] = Avail(r)]
    /\ Note(r, call, n, cnt > 0, cnt)
    /\ UNCHANGED holes /\ Rest

\* A call that uses n slots and moves past them, or is refused; occupied: whether they hold values then
Use(r, call, n, occupied) ==
    /\ IF Grant(r, n)
       THEN /\ Move(r, n, Remember(r, n))
            /\ holes' = IF occupied THEN {s \in holes : ~In(s, r, n)} ELSE holes \cup Window(r, n)
       ELSE /\ Stay /\ cache' = [cache EXCEPT ![r] = Remember(r, n)]
            /\ UNCHANGED holes
    /\ Note(r, call, n, Grant(r, n), IF Grant(r, n) THEN n ELSE 0)
    /\ Rest

-----------------------------------------------------------------------------
(* Any iterator *)

Available(r) == /\ Usable(r)
                /\ LookFresh(r, "avail", 0, Avail(r))

WaitFor(r, n) == /\ Usable(r) /\ n <= Avail(r)
                 /\ Stay /\ cache' = [cache EXCEPT ![r] = Avail(r)]
                 /\ Note(r, "wait", n, TRUE, 0) /\ UNCHANGED holes /\ Rest

\* get_workable and its slice forms.  Through references: slots must hold values.
Workable(r) == Usable(r) /\ (Grant(r, 1) => Full(r, 1)) /\ Look(r, "win1", 1, 1)
WorkableN(r, n) == /\ Usable(r) /\ (Grant(r, n) => Full(r, n))
                   /\ Look(r, "winN", n, n)
WorkableA(r) == Usable(r) /\ Full(r, Avail(r)) /\ LookFresh(r, "winA", 0, Avail(r))
WorkableM(r, m) == LET n == Avail(r) - (Avail(r) % m)
                   IN  Usable(r) /\ Full(r, n) /\ LookFresh(r, "winM", m, n)

Advance(r, n) == /\ Usable(r) /\ n <= Avail(r)
                 /\ (r = "P" => Full(r, n))
                 /\ Move(r, n, cache[r])
                 /\ Note(r, "adv", n, TRUE, n)
                 /\ UNCHANGED holes /\ Rest

\* reset_index: jump to the iterator ahead (worker and consumer, also detached)
Reset(r) == /\ Usable(r) /\ r # "P"
            /\ idx' = [idx EXCEPT ![r] = pub[Ahead(r)]]
            /\ pub' = IF det[r] THEN pub ELSE [pub EXCEPT ![r] = pub[Ahead(r)]]
            /\ cache' = [cache EXCEPT ![r] = 0]
            /\ Note(r, "reset", 0, TRUE, 0)
            /\ UNCHANGED holes /\ Rest

(* Producer *)

\* push, push_slice[_clone]: assign, hence onto values only
Push == Plain("P") /\ (Grant("P", 1) => Full("P", 1)) /\ Use("P", "push", 1, TRUE)
PushS(n) == /\ Plain("P") /\ (Grant("P", n) => Full("P", n))
            /\ Use("P", "pushS", n, TRUE)
\* the *_init forms: onto anything
PushI == Plain("P") /\ Use("P", "pushI", 1, TRUE)
PushSI(n) == Plain("P") /\ Use("P", "pushSI", n, TRUE)
\* get_next_item_mut_init: a pointer through which the caller stores a value, without moving
PtrInit == /\ Plain("P")
           /\ Stay /\ cache' = [cache EXCEPT !["P"] = Remember("P", 1)]
           /\ holes' = IF Grant("P", 1) THEN holes \ {idx["P"]} ELSE holes
           /\ Note("P", "ptr", 1, Grant("P", 1), IF Grant("P", 1) THEN 1 ELSE 0)
           /\ Rest

(* Consumer *)

Peek == Plain("C") /\ Look("C", "peek1", 1, 1)
PeekN(n) == Plain("C") /\ Look("C", "peekN", n, n)
PeekA == Plain("C") /\ LookFresh("C", "peekA", 0, Avail("C"))
\* pop, copy_item, clone_item: the slot keeps its value
Take == Plain("C") /\ Use("C", "take", 1, TRUE)
TakeS(n) == Plain("C") /\ Use("C", "takeS", n, TRUE)
\* pop_move: the slot is vacated
PopMove == Plain("C") /\ Use("C", "move", 1, FALSE)

(* Detached iterators *)

Detach(r) == /\ Plain(r) /\ det' = [det EXCEPT ![r] = TRUE]
             /\ Note(r, "detach", 0, TRUE, 0)
             /\ UNCHANGED <<idx, pub, cache, alive, wk, holes, fut>>
Attach(r) == /\ Usable(r) /\ det[r] /\ det' = [det EXCEPT ![r] = FALSE]
             /\ pub' = [pub EXCEPT ![r] = idx[r]]
             /\ Note(r, "attach", 0, TRUE, 0)
             /\ UNCHANGED <<idx, cache, alive, wk, holes, fut>>
Sync(r) == /\ Usable(r) /\ det[r]
           /\ pub' = [pub EXCEPT ![r] = idx[r]]
           /\ Note(r, "sync", 0, TRUE, 0)
           /\ UNCHANGED <<idx, cache, det, alive, wk, holes, fut>>
\* Local moves stay within the unpublished window: published position .. iterator ahead
GoBack(r, n) == /\ Usable(r) /\ det[r] /\ n <= Dist(pub[r], idx[r])
                /\ idx' = [idx EXCEPT ![r] = (idx[r] + L - n) % L]
                /\ cache' = [cache EXCEPT ![r] = cache[r] + n]
                /\ Note(r, "back", n, TRUE, 0)
                /\ UNCHANGED <<pub, det, alive, wk, holes, fut>>
SetIndex(r, i) == LET k == Dist(pub[r], i)
                 IN  /\ Usable(r) /\ det[r] /\ k <= AvailAt(r, pub[r])
                     /\ (r = "P" => \A s \in holes : Dist(pub[r], s) >= k)
                     /\ idx' = [idx EXCEPT ![r] = i]
                     /\ cache' = [cache EXCEPT ![r] = 0]
                     /\ Note(r, "set", i, TRUE, 0)
                     /\ UNCHANGED <<pub, det, alive, wk, holes, fut>>

(* Iterators dropped; a stack buffer split again *)

Drop(r) == /\ r \in Present /\ alive[r] /\ fut[r] = <<>>
           /\ alive' = [alive EXCEPT ![r] = FALSE]
           /\ Note(r, "drop", 0, TRUE, Cardinality({x \in Roles : alive[x]}) - 1)
           /\ UNCHANGED <<idx, pub, cache, det, wk, holes, fut>>

NoneAlive == \A r \in Roles : ~alive[r]
Zero == [r \in Roles |-> 0]
No == [r \in Roles |-> FALSE]

(* What a split may start from: the published positions, where every item  *)
(* in flight passes the (new) worker again, or keeps the place the worker  *)
(* of the previous session left it at; or an empty buffer.                 *)
SplitPositions(w) ==
    {[P |-> pub["P"], W |-> i, C |-> pub["C"]] :
        i \in IF w THEN {pub["C"]} \cup IF wk THEN {pub["W"]} ELSE {} ELSE {pub["W"]}}
    \cup {[P |-> i, W |-> i, C |-> i] : i \in {0, pub["P"], pub["C"]}}

Resplit(w) ==
    /\ NoneAlive
    /\ wk' = w
    /\ alive' = [r \in Roles |-> r # "W" \/ w]
    /\ \E p \in SplitPositions(w) : pub' = p /\ idx' = p
    /\ cache' = Zero /\ det' = No
    /\ Note("B", IF w THEN "split3" ELSE "split2", 0, TRUE, 0)
    /\ UNCHANGED <<holes, fut>>

(* Futures: created, polled any number of times, completed or dropped *)

FutCalls(r) == {<<"win1", 1>>, <<"winA", 0>>} \cup {<<"winN", n>> : n \in Ns}
    \cup {<<"winM", m>> : m \in Mods}
    \cup CASE r = "P" -> {<<"push", 1>>, <<"ptr", 1>>} \cup {<<"pushS", n>> : n \in Ns}
           [] r = "C" -> {<<"peek1", 1>>, <<"peekA", 0>>, <<"take", 1>>, <<"move", 1>>}
                           \cup {<<"peekN", n>> : n \in Ns} \cup {<<"takeS", n>> : n \in Ns}
           [] OTHER   -> {}

FutNew(r, f) ==
    /\ Plain(r)
    /\ f[1] = "move" => Has("own")
    /\ fut' = [fut EXCEPT ![r] = f]
    /\ Note(r, "fnew:" \o f[1], f[2], TRUE, 0)
    /\ UNCHANGED <<idx, pub, cache, det, alive, wk, holes>>

\* What one attempt of the pending call is granted
FutNeed(r) == LET f == fut[r] IN
    CASE f[1] = "winA" -> Avail(r)
      [] f[1] = "peekA" -> Avail(r)
      [] f[1] = "winM" -> Avail(r) - (Avail(r) % f[2])
      [] OTHER -> f[2]
FutReady(r) == CASE fut[r][1] \in {"winA", "winM"} -> FutNeed(r) > 0
                 [] fut[r][1] = "peekA" -> TRUE
                 [] OTHER -> Grant(r, FutNeed(r))
FutMoves == {"push", "pushS", "take", "takeS", "move"}

FutPoll(r) ==
    /\ r \in Present /\ alive[r] /\ fut[r] # <<>>
    /\ LET f == fut[r]
           n == FutNeed(r)
           ok == FutReady(r)
       IN  /\ (ok /\ f[1] \in {"win1", "winN", "winA", "winM", "push", "pushS"}) => Full(r, n)
           /\ IF ok /\ f[1] \in FutMoves THEN Move(r, n, Remember(r, n))
              ELSE /\ Stay
                   /\ cache' = [cache EXCEPT ![r] =
                        IF f[1] \in {"winA", "peekA", "winM"} THEN Avail(r) ELSE Remember(r, n)]
           /\ holes' = IF ok /\ f[1] = "move" THEN holes \cup Window(r, n)
                        ELSE IF ok /\ f[1] = "ptr" THEN holes \ Window(r, n) ELSE holes
           /\ fut' = IF ok THEN [fut EXCEPT ![r] = <<>>] ELSE fut
           /\ Note(r, "fpoll", 0, ok, IF ok THEN n ELSE 0)
           /\ UNCHANGED <<det, alive, wk>>

FutDrop(r) == /\ r \in Present /\ alive[r] /\ fut[r] # <<>>
              /\ fut' = [fut EXCEPT ![r] = <<>>]
              /\ Note(r, "fdrop", 0, TRUE, 0)
              /\ UNCHANGED <<idx, pub, cache, det, alive, wk, holes>>

-----------------------------------------------------------------------------
Init == /\ idx = Zero /\ pub = Zero /\ cache = Zero
        /\ det = No /\ wk = Worker
        /\ alive = [r \in Roles |-> r # "W" \/ Worker]
        /\ holes = IF Zeroed THEN Slots ELSE {}
        /\ fut = [r \in Roles |-> <<>>]
        /\ op = <<"B", "init", 0, TRUE, 0>>

\* Calls that move by single slots, too?
One == 1 \in Sizes
Look_(r) == \/ Available(r) \/ Workable(r) \/ WorkableA(r)
            \/ \E n \in Ns \cup {Big} : WorkableN(r, n)
            \/ \E n \in Mods : WorkableM(r, n)
            \/ \E n \in Upto : WaitFor(r, n)
Base == \/ \E r \in Roles : Look_(r) \/ Reset(r) \/ \E n \in Upto : Advance(r, n)
        \/ One /\ (Push \/ Peek \/ Take)
        \/ PeekA
        \/ \E n \in Ns : PushS(n) \/ PeekN(n) \/ TakeS(n)
        \/ PeekN(Big)
Own == \/ One /\ (PushI \/ PtrInit \/ PopMove)
       \/ \E n \in Ns : PushSI(n)
Det == \E r \in Roles : \/ Detach(r) \/ Attach(r) \/ Sync(r)
                        \/ \E n \in Upto : GoBack(r, n)
                        \/ \E i \in {(pub[r] + k) % L : k \in Upto \cup {0}} : SetIndex(r, i)
Life == \E r \in Roles : Drop(r)
FutAny == \E r \in Roles : FutPoll(r) \/ FutDrop(r) \/ \E f \in FutCalls(r) : FutNew(r, f)
\* at most one future pending at a time
Fut1 == FutAny /\ Cardinality({r \in Roles : fut'[r] # <<>>}) <= 1

(* Shorter lists of calls, for the classes whose states are many *)
Lean == \/ \E r \in Roles : \/ Available(r) \/ WorkableA(r) \/ Reset(r)
                            \/ \E n \in Ns : WorkableN(r, n)
                            \/ \E n \in Upto : Advance(r, n)
        \/ One /\ (Push \/ Take)
        \/ \E n \in Ns : PushS(n) \/ PeekN(n) \/ TakeS(n)
Mini == \/ \E n \in Upto : Advance("W", n)
        \/ Push \/ Take \/ Available("P") \/ Available("C") \/ Reset("C")

Next == \/ Has("base") /\ Base
        \/ Has("lean") /\ Lean
        \/ Has("mini") /\ Mini
        \/ Has("own") /\ Own
        \/ Has("det") /\ Det
        \/ Has("life") /\ Life
        \/ Has("fut") /\ FutAny
        \/ Has("fut1") /\ Fut1
        \/ Has("resplit") /\ \E w \in BOOLEAN : Resplit(w)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)

TypeOK == /\ idx \in [Roles -> Slots] /\ pub \in [Roles -> Slots]
          /\ cache \in [Roles -> 0 .. L - 1]
          /\ det \in [Roles -> BOOLEAN] /\ alive \in [Roles -> BOOLEAN]
          /\ holes \subseteq Slots

\* C04: consumer, worker, producer in this order around the ring, producer less than a lap ahead
InFlight == Dist(pub["C"], pub["P"])
StageOrder == /\ InFlight <= L - 1
              /\ wk => Dist(pub["C"], pub["W"]) <= InFlight
\* ... locally as well, detached or not: r is between its own published position and the one ahead
LocalOrder == \A r \in Present : Dist(pub[r], idx[r]) <= AvailAt(r, pub[r])

\* C04: the availabilities sum to L-1 when no iterator is detached
Sum == Avail("P") + Avail("C") + (IF wk THEN Avail("W") ELSE 0)
SumOK == (\A r \in Present : ~det[r] /\ (alive[r] \/ idx[r] = pub[r])) => Sum = L - 1

\* C05: what is remembered is never more than what is available
CacheSound == \A r \in Present : cache[r] <= Avail(r)

\* C09: whatever the consumer or the worker may be granted holds a value
InFlightOccupied == \A s \in holes : Dist(pub["C"], s) >= InFlight
LocalOccupied == \A s \in holes : Dist(pub["C"], s) >= Dist(pub["C"], idx["P"])

\* C05, C14: a refused call leaves everything but memory of availability as it was
RefusedNoEffect == [][~op'[4] => UNCHANGED <<idx, pub, det, alive, wk, holes, fut>>]_vars

\* C12: while detached, only attach and sync publish
DetachedLocal == [][\A r \in Roles : (det[r] /\ pub'[r] # pub[r] /\ op'[1] # "B")
                      => op'[1] = r /\ op'[2] \in {"attach", "sync"}]_vars

\* C11: after a reset nothing is available, and what was skipped is to the iterator behind
ResetOK == [][(op'[2] = "reset" /\ op'[1] # "B") =>
                LET r == op'[1] IN
                /\ Dist(idx'[r], pub'[Ahead(r)]) = 0
                /\ cache'[r] = 0]_vars

\* Nobody publishes for another
OwnPub == [][\A r \in Roles : (pub'[r] # pub[r] /\ op'[1] # "B") => op'[1] = r]_vars

\* C18: a split starts a consistent session
SplitOK == [][op'[1] = "B" => (Dist(pub'["C"], pub'["P"]) <= InFlight /\ SumOK')]_vars

-----------------------------------------------------------------------------
(* Export of the transitions.  The slots: their number, whether the first is *)
(* a hole, and where holes begin or end.                                     *)
B(x) == IF x THEN 1 ELSE 0
Key(i, p, c, d, a, w, o, f) ==
    << i["P"], i["W"], i["C"], p["P"], p["W"], p["C"], c["P"], c["W"], c["C"],
       B(d["P"]) + 2 * B(d["W"]) + 4 * B(d["C"]), B(a["P"]) + 2 * B(a["W"]) + 4 * B(a["C"]), B(w),
       << L, B(0 \in o), {s \in o : s > 0 /\ s - 1 \notin o} \cup ({s + 1 : s \in o} \ (o \cup {L})) >>, f["P"], f["W"], f["C"] >>

EdgeExport == Export =>
    PrintT(ToString(<<"E", Key(idx, pub, cache, det, alive, wk, holes, fut), op',
             Key(idx', pub', cache', det', alive', wk', holes', fut'),
             <<L - 1 - Dist(pub'["C"], idx'["P"]),
               IF wk' THEN Dist(idx'["W"], pub'["P"]) ELSE 0,
               Dist(idx'["C"], pub'[IF wk' THEN "W" ELSE "P"])>> >>))
=============================================================================
