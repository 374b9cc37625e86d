------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The concurrent protocol of the ring on the memory of RAMem: producer,   *)
(* worker and consumer threads, each with its local position and its       *)
(* remembered availability, communicating through the three published      *)
(* positions only.  A request is granted from memory of an earlier look,   *)
(* or from a fresh load; then slots are accessed and the new position is   *)
(* published.  Constants choose orderings and mistakes, to see that the    *)
(* properties do depend on them.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS L, Worker, N,      \* length, three stages?, number of items
          MaxReq,            \* largest request
          LoadOrd, StoreOrd, \* "a"/"x", "r"/"x"
          Spare,             \* slots the producer keeps free: 1
          Early,             \* TRUE: publish before the access (a mistake)
          Resets,            \* TRUE: worker and consumer may reset
          Forgets            \* TRUE: a reset forgets the remembered availability

VARIABLES mem, idx, cache, cnt, pc, val, lw, lr, out, race, skip

vars == <<mem, idx, cache, cnt, pc, val, lw, lr, out, race, skip>>

Roles == IF Worker THEN {"P", "W", "C"} ELSE {"P", "C"}
Threads == Roles
Locs == Roles
INSTANCE RAMem

Slots == 0 .. L - 1
Ahead(r) == CASE r = "P" -> "C" [] r = "W" -> "P" [] OTHER -> IF Worker THEN "W" ELSE "P"
Dist(a, b) == (b + L - a) % L
AvailWith(r, p) == IF r = "P" THEN LET d == Dist(idx[r], p) IN (IF d = 0 THEN L ELSE d) - Spare ELSE Dist(idx[r], p)

Init == /\ mem = InitMem([l \in Locs |-> 0])
        /\ idx = [r \in Roles |-> 0] /\ cache = [r \in Roles |-> 0] /\ cnt = [r \in Roles |-> 0]
        /\ pc = [r \in Roles |-> <<>>]
        /\ val = [s \in Slots |-> 0]
        /\ lw = [s \in Slots |-> [r \in Roles |-> 0]] /\ lr = [s \in Slots |-> [r \in Roles |-> 0]]
        /\ out = <<>> /\ race = FALSE /\ skip = {}

Window(r, n) == {(idx[r] + k) % L : k \in 0 .. n - 1}
Stamp(m, r) == m.know[r].clk[r]
Unordered(m, r, S, w) == \E s \in S, u \in Roles \ {r} : \/ ~Before(m, r, u, lw[s][u])
                                                         \/ w /\ ~Before(m, r, u, lr[s][u])

\* r uses the next n slots, knowing m
Access(r, n, m) ==
    LET S == Window(r, n)
        w == r # "C"
    IN  /\ race' = (race \/ Unordered(m, r, S, w))
        /\ lw' = IF w THEN [s \in Slots |-> IF s \in S THEN [lw[s] EXCEPT ![r] = Stamp(m, r)] ELSE lw[s]] ELSE lw
        /\ lr' = IF r # "P" THEN [s \in Slots |-> IF s \in S THEN [lr[s] EXCEPT ![r] = Stamp(m, r)] ELSE lr[s]] ELSE lr
        /\ val' = [s \in Slots |-> IF s \notin S THEN val[s]
                     ELSE CASE r = "P" -> cnt[r] + Dist(idx[r], s) + 1
                            [] r = "W" -> val[s] + 100
                            [] OTHER -> val[s]]
        /\ out' = IF r = "C" THEN out \o [k \in 1 .. n |-> val[(idx[r] + k - 1) % L]] ELSE out

Move(r, n, c) == /\ idx' = [idx EXCEPT ![r] = (@ + n) % L]
                 /\ cnt' = [cnt EXCEPT ![r] = @ + n]
                 /\ cache' = [cache EXCEPT ![r] = IF c > n THEN c - n ELSE 0]

Room(r, n) == r = "P" => cnt["P"] + n <= N
Same == UNCHANGED <<val, lw, lr, out, race>>

\* A request for n: granted from memory, or after reading message i
Granted(r, n, m, c) ==
    /\ Move(r, n, c)
    /\ mem' = m
    /\ IF Early THEN pc' = [pc EXCEPT ![r] = <<"access", n>>] /\ Same
       ELSE pc' = [pc EXCEPT ![r] = <<"publish", n>>] /\ Access(r, n, m)
    /\ UNCHANGED skip
Request(r, n, i) ==
    /\ pc[r] = <<>> /\ Room(r, n)
    /\ IF cache[r] >= n THEN i = Latest(mem, Ahead(r)) /\ Granted(r, n, mem, cache[r])
       ELSE LET m == Load(mem, r, Ahead(r), LoadOrd, i)
                a == AvailWith(r, mem.msgs[Ahead(r)][i].val)
            IN  /\ i \in Readable(mem, r, Ahead(r), LoadOrd)
                /\ IF a >= n THEN Granted(r, n, m, a)
                   ELSE /\ mem' = m /\ cache' = [cache EXCEPT ![r] = a]
                        /\ UNCHANGED <<idx, cnt, pc, skip>> /\ Same

Publish(r) == /\ pc[r] # <<>> /\ pc[r][1] = "publish"
              /\ mem' = Store(mem, r, r, StoreOrd, idx[r])
              /\ pc' = [pc EXCEPT ![r] = <<>>]
              /\ UNCHANGED <<idx, cache, cnt, skip>> /\ Same

\* the mistake: the position is out already
EarlyPublish(r) == /\ pc[r] # <<>> /\ pc[r][1] = "access"
                   /\ mem' = Store(mem, r, r, StoreOrd, idx[r])
                   /\ pc' = [pc EXCEPT ![r] = <<"late", pc[r][2]>>]
                   /\ UNCHANGED <<idx, cache, cnt, skip>> /\ Same
LateAccess(r) == /\ pc[r] # <<>> /\ pc[r][1] = "late"
                 /\ LET n == pc[r][2]
                        S == {(idx[r] + L - k) % L : k \in 1 .. n}
                        w == r # "C"
                    IN  /\ race' = (race \/ Unordered(mem, r, S, w))
                        /\ lw' = IF w THEN [s \in Slots |-> IF s \in S THEN [lw[s] EXCEPT ![r] = Stamp(mem, r)] ELSE lw[s]] ELSE lw
                        /\ lr' = IF r # "P" THEN [s \in Slots |-> IF s \in S THEN [lr[s] EXCEPT ![r] = Stamp(mem, r)] ELSE lr[s]] ELSE lr
                 /\ pc' = [pc EXCEPT ![r] = <<>>]
                 /\ UNCHANGED <<mem, idx, cache, cnt, val, out, skip>>

Reset(r, i) == /\ Resets /\ r # "P" /\ pc[r] = <<>> /\ Latest(mem, r) <= N + 1
               /\ i \in Readable(mem, r, Ahead(r), LoadOrd)
               /\ LET p == mem.msgs[Ahead(r)][i].val
                      n == Dist(idx[r], p)
                  IN  /\ idx' = [idx EXCEPT ![r] = p]
                      /\ cnt' = [cnt EXCEPT ![r] = @ + n]
                      /\ cache' = [cache EXCEPT ![r] = IF Forgets THEN 0 ELSE @]
                      /\ skip' = skip \cup {<<r, cnt[r] + k>> : k \in 1 .. n}
                      /\ pc' = [pc EXCEPT ![r] = <<"publish", n>>]
                      /\ mem' = Load(mem, r, Ahead(r), LoadOrd, i)
                      /\ Same

Step(r) == \/ \E n \in 1 .. MaxReq, i \in 1 .. N + 2 : i <= Latest(mem, Ahead(r)) /\ Request(r, n, i)
           \/ \E i \in 1 .. N + 2 : i <= Latest(mem, Ahead(r)) /\ Reset(r, i)
           \/ Publish(r) \/ EarlyPublish(r) \/ LateAccess(r)
\* retrying: one at a time, what was published is seen at some time
Retry(r) == Request(r, 1, Latest(mem, Ahead(r))) \/ Publish(r)

Next == \E r \in Roles : Step(r)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A r \in Roles : WF_vars(Retry(r))

-----------------------------------------------------------------------------
Skipped(r, k) == <<r, k>> \in skip
Expected(k) == IF Worker /\ ~Skipped("W", k) THEN k + 100 ELSE k
\* the items not skipped by the consumer, in order
Kept == SelectSeq([k \in 1 .. cnt["C"] |-> k], LAMBDA k : ~Skipped("C", k))

\* C02
Prefix == out = [j \in 1 .. Len(Kept) |-> Expected(Kept[j])]
\* C03
NoRace == ~race
\* C04
Ordered == /\ cnt["C"] <= (IF Worker THEN cnt["W"] ELSE cnt["P"])
           /\ Worker => cnt["W"] <= cnt["P"]
           /\ cnt["P"] - cnt["C"] <= L - 1
\* C05: remembered or not, never more than there is
Reached(r) == CHOOSE c \in 0 .. N : c = cnt[r] - (IF pc[r] = <<>> THEN 0 ELSE IF pc[r][1] \in {"publish", "access"} THEN pc[r][2] ELSE 0)
CacheSound == \A r \in Roles : cache[r] <= IF r = "P" THEN L - 1 - (cnt["P"] - Reached("C")) ELSE Reached(Ahead(r)) - cnt[r]
\* C10: a pipeline whose stages keep retrying drains
Drains == <>(cnt["C"] = N)
=============================================================================
