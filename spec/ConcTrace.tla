------------------------------ MODULE ConcTrace ------------------------------
(***************************************************************************)
(* Judges executions of the real buffer, recorded with every atomic access *)
(* (and what it read), every access to a slot, every call and its result.  *)
(* The memory model (RAMem) is followed to know what happens before what;  *)
(* the abstract pipeline is followed to know what every call may return.   *)
(* Nothing is assumed about how the code uses its atomics.                 *)
(*                                                                         *)
(* Positions count from the start: the k-th item pushed has position k     *)
(* (from 0) and lives in slot k % L.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Threads == 0 .. 3
Locs == 0 .. 11
INSTANCE RAMem

Traces == ndJsonDeserialize(IOEnv.TRACES)

Roles == {"P", "W", "C"}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

-----------------------------------------------------------------------------
(* State of the monitor

   mem           RAMem; unused locations are given their value by "I" events
   lw, lr        slot -> <<thread, stamp>> of the last write; slot -> thread -> stamp of the last read
   la            thread -> stamp of its last access to anything of the buffer
   loc           role -> position
   far           role -> the farthest position it may have published (what a call in progress may publish included)
   pubs          role -> <<position, thread, stamp>> of completed publications
   from, upto    role -> the window it was granted and has not moved past
   skipped       role -> positions it went past while detached, from one publication to the next
   det, gone     role -> BOOLEAN
   dropview      role -> what its thread knew of when it began to drop it
   val           position + 1 -> value
   call          thread -> <<role, call, n, vals, low, wrote>>; <<>>: none
   freed         block -> how often
   bad           what was violated, and at which event
   k             number of events so far
*)
None == <<>>
Start(tr) ==
    [L |-> tr.L, w |-> tr.w, sc |-> tr.sc,
     mem |-> [InitMem([l \in Locs |-> 0]) EXCEPT !.know[0].clk[0] = 0],
     lw |-> [s \in 0 .. tr.L - 1 |-> <<0, 0>>], lr |-> [s \in 0 .. tr.L - 1 |-> [t \in Threads |-> 0]],
     la |-> [t \in Threads |-> 0],
     loc |-> [r \in Roles |-> 0], far |-> [r \in Roles |-> 0], pubs |-> [r \in Roles |-> {}],
     from |-> [r \in Roles |-> 0], upto |-> [r \in Roles |-> 0],
     skipped |-> [r \in Roles |-> {}],
     det |-> [r \in Roles |-> FALSE], gone |-> [r \in Roles |-> r = "W" /\ ~tr.w],
     dropview |-> [r \in Roles |-> Nothing.view],
     val |-> <<>>, call |-> [t \in Threads |-> None],
     freed |-> [b \in 0 .. tr.nb - 1 |-> 0], bad |-> {}, v |-> tr.v, own |-> 0, k |-> 0]

Ahead(m, r) == CASE r = "P" -> "C" [] r = "W" -> "P" [] OTHER -> IF m.w THEN "W" ELSE "P"
\* what r may use were the iterator ahead of it at position p
Use(m, r, p) == IF r = "P" THEN m.L - 1 - (m.loc[r] - p) ELSE p - m.loc[r]
Most(m, r) == Use(m, r, m.far[Ahead(m, r)])
\* what r has to be offered: published by calls that happen before this one of t (in an SC run: that ended before)
KnownOf(m, q, t) == MaxOf({0} \cup {p[1] : p \in {x \in m.pubs[q] : m.sc \/ Before(m.mem, t, x[2], x[3])}})
Known(m, r, t) == KnownOf(m, Ahead(m, r), t)
Least(m, r, t) == Larger(0, Use(m, r, Known(m, r, t)))

Say(m, what) == [m EXCEPT !.bad = @ \cup {<<what, m.k>>}]
Want(m, ok, what) == IF ok THEN m ELSE Say(m, what)

Slots(m, a, b) == IF b - a >= m.L THEN 0 .. m.L - 1 ELSE {p % m.L : p \in a .. b - 1}
Held(m, r) == IF m.gone[r] \/ m.upto[r] <= m.from[r] THEN {} ELSE Slots(m, m.from[r], m.upto[r])
ClaimOK(m, r, a, b) == \A q \in Roles \ {r} : Held(m, q) \cap Slots(m, a, b) = {}

RoleOf(m, t) == IF t = 0 THEN IF m.call[0] = None THEN "" ELSE m.call[0][1] ELSE <<"P", "W", "C">>[t]
ValAt(m, p) == IF p < Len(m.val) THEN m.val[p + 1] ELSE 0
SetVals(m, p, vs) ==
    LET n == Larger(Len(m.val), p + Len(vs))
    IN  [m EXCEPT !.val = [i \in 1 .. n |-> IF i > p /\ i <= p + Len(vs) THEN vs[i - p] ELSE IF i <= Len(@) THEN @[i] ELSE 0]]
SeenOK(m, r, vs) == \A i \in 1 .. Len(vs) : vs[i] = ValAt(m, m.loc[r] + i - 1)

-----------------------------------------------------------------------------
(* Memory *)

Touch(m, t) == [m EXCEPT !.la[t] = m.mem.know[t].clk[t]]
Wrote(m, t) == IF m.call[t] = None THEN m ELSE [m EXCEPT !.call[t][6] = TRUE]

OnLoad(m, e) ==
    LET t == e[2] l == e[3] o == e[4] i == e[6] + 1
    IN  IF i \in Readable(m.mem, t, l, o) /\ m.mem.msgs[l][i].val = e[5]
        THEN Touch([m EXCEPT !.mem = Load(@, t, l, o, i)], t)
        ELSE Say(m, "ILLEGAL load")
OnStore(m, e) ==
    LET t == e[2] l == e[3]
        same == m.mem.msgs[l][Latest(m.mem, l)].val = e[5]
        m1 == IF same THEN m ELSE Wrote(m, t)
        \* the access itself is what later ones come after: its stamp is the one before the final tick
        m2 == [m1 EXCEPT !.mem = Store(@, t, l, e[4], e[5])]
    IN  [m2 EXCEPT !.la[t] = m2.mem.know[t].clk[t] - 1]
OnRmw(m, e) ==
    LET t == e[2] l == e[3] o == e[4]
        legal == m.mem.msgs[l][Latest(m.mem, l)].val = e[5]
        m1 == IF e[7] = 1 /\ e[5] # e[6] THEN Wrote(m, t) ELSE m
    IN  IF ~legal THEN Say(m, "ILLEGAL rmw")
        ELSE IF e[7] = 1 THEN LET m2 == [m1 EXCEPT !.mem = Rmw(@, t, l, o, e[6])]
                              IN  [m2 EXCEPT !.la[t] = m2.mem.know[t].clk[t] - 1]
        ELSE Touch([m EXCEPT !.mem = RmwFailed(@, t, l, o)], t)
OnFence(m, e) == [m EXCEPT !.mem = Fence(@, e[2], e[3])]

\* an access to a slot
OnAccess(m, e) ==
    LET t == e[2] s == e[3] wr == e[1] = "w"
        w0 == m.lw[s]
        raced == \/ w0[1] # t /\ ~Before(m.mem, t, w0[1], w0[2])
                 \/ wr /\ \E u \in Threads \ {t} : ~Before(m.mem, t, u, m.lr[s][u])
        r == RoleOf(m, t)
        stolen == r # "" /\ \E q \in Roles \ {r} : s \in Held(m, q)
        c == m.mem.know[t].clk[t]
        m1 == Touch(Want(Want(m, ~raced, "race on slot"), ~stolen, "slot granted to another accessed"), t)
    IN  IF wr THEN Wrote([m1 EXCEPT !.lw[s] = <<t, c>>], t)
        ELSE [m1 EXCEPT !.lr[s][t] = c]

OnFree(m, e) ==
    LET t == e[2] b == e[3]
        again == m.freed[b] > 0
        early == \E r \in Roles : ~m.gone[r]
        raced == \E u \in Threads \ {t} : ~Before(m.mem, t, u, m.la[u])
    IN  [Want(Want(Want(m, ~again, "freed twice"), ~early, "freed while in use"), ~raced, "free races with an access")
         EXCEPT !.freed[b] = @ + 1]

-----------------------------------------------------------------------------
(* Calls *)

Moving == {"push", "take"}

OnBegin(m, e) ==
    LET t == e[2] r == e[3] c == e[4] n == e[5]
        m0 == [m EXCEPT !.call[t] = <<r, c, n, e[6], IF c = "see" THEN KnownOf(m, <<"P", "W", "C">>[n], t) ELSE Least(m, r, t), FALSE>>]
        to == m.loc[r] + n
    IN  CASE c \in Moving ->
               LET m1 == [m0 EXCEPT !.far[r] = Larger(@, to), !.from[r] = to]
               IN  IF c = "push" THEN SetVals(m1, m.loc[r], e[6]) ELSE m1
          [] c = "adv" ->
               LET m1 == [m0 EXCEPT !.far[r] = IF m.det[r] THEN @ ELSE Larger(@, to), !.from[r] = to]
                   m2 == Want(m1, to <= m.upto[r], "HARNESS advance beyond what was granted")
               IN  IF r \in {"P", "W"} THEN SetVals(m2, m.loc[r], e[6]) ELSE m2
          [] c = "reset" -> [m0 EXCEPT !.far[r] = IF m.det[r] THEN @ ELSE Larger(@, m.far[Ahead(m, r)]), !.upto[r] = 0]
          [] c \in {"sync", "att"} ->
               [m0 EXCEPT !.far[r] = Larger(@, m.loc[r]),
                          !.skipped[r] = @ \cup (MaxOf({0} \cup {p[1] : p \in m.pubs[r]}) + 1 .. m.loc[r] - 1)]
          [] c = "drop" -> [m0 EXCEPT !.gone[r] = TRUE, !.dropview[r] = m.mem.know[t].view]
          [] OTHER -> m0

\* the call published r's position
Publish(m, r, t) ==
    IF m.det[r] THEN m
    ELSE [m EXCEPT !.far[r] = m.loc[r], !.pubs[r] = @ \cup {<<m.loc[r], t, m.mem.know[t].clk[t]>>}]

\* ok: granted cnt of n
Granted(m, r, n, cnt) ==
    LET most == Most(m, r)
        m1 == Want(m, cnt <= most, "granted beyond the iterator ahead")
    IN  Want(m1, ClaimOK(m1, r, m.loc[r], m.loc[r] + cnt), "granted a slot held by another")

OnEnd(m, e) ==
    LET t == e[2] r == e[3] c == e[4] ok == e[5] = 1 cnt == e[6] vals == e[7] num == e[8]
        call == m.call[t]
        n == call[3] low == call[5] wrote == call[6]
        m0 == [m EXCEPT !.call[t] = None]
        refusedOK == Want(Want(m0, low < Larger(n, 1), "refused though available"), ~wrote, "refused, but changed something")
        move == [m0 EXCEPT !.loc[r] = @ + n]
    IN  CASE c \in Moving /\ ok ->
               LET m1 == Granted(m0, r, n, n)
                   m2 == IF c = "take" THEN Want(m1, SeenOK(m1, r, vals), "took a value that is not next") ELSE m1
                   m3 == Want(m2, cnt = n, "HARNESS count")
                   m4 == [m3 EXCEPT !.loc[r] = @ + n]
               IN  Publish([m4 EXCEPT !.from[r] = m4.loc[r]], r, t)
          [] c \in Moving ->
               LET m1 == [refusedOK EXCEPT !.from[r] = m.loc[r], !.far[r] = IF m.det[r] THEN @ ELSE m.loc[r]]
               IN  IF c = "push" /\ vals # <<>> THEN Want(m1, vals = call[4], "did not hand back the value") ELSE m1
          [] c = "adv" -> Publish([m0 EXCEPT !.loc[r] = @ + n], r, t)
          [] c = "look" /\ ok ->
               LET m1 == Want(Granted(m0, r, n, cnt), cnt = n, "granted another number than requested")
               IN  [m1 EXCEPT !.from[r] = m.loc[r], !.upto[r] = Larger(@, m.loc[r] + cnt)]
          [] c = "look" -> refusedOK
          [] c \in {"lookA", "lookM"} ->
               LET must == IF c = "lookA" THEN low ELSE low - (low % n)
                   m1 == Want(m0, cnt >= must, "granted less than available")
                   m2 == IF c = "lookM" THEN Want(m1, cnt % n = 0, "not a multiple") ELSE m1
               IN  IF ok THEN [Granted(m2, r, cnt, cnt) EXCEPT !.from[r] = m.loc[r], !.upto[r] = Larger(@, m.loc[r] + cnt)]
                   ELSE Want(m2, ~wrote, "refused, but changed something")
          [] c = "avail" -> Want(Want(m0, num <= Most(m, r), "available() reports too many"), num >= low, "available() misses what was published")
          [] c = "see" ->
               LET q == <<"P", "W", "C">>[n]
               IN  Want(m0, \E p \in low .. m.far[q] : p % m.L = num /\ p \notin m.skipped[q], "a position that was not published")
          [] c = "index" -> Want(m0, num = m.loc[r] % m.L, "index() is wrong")
          [] c = "alive" ->
               LET q == <<"P", "W", "C">>[n]
               IN  IF num = 1 THEN m0
                   ELSE LET m1 == Want(m0, m.gone[q], "reported dead while alive")
                        IN  Want(m1, \A l \in Locs : m.dropview[q][l] <= m.mem.know[t].view[l], "dead, but what it published is not visible")
          [] c = "reset" ->
               LET p == m.loc[r] + ((num + m.L - (m.loc[r] % m.L)) % m.L)
                   m1 == Want(m0, p <= m.far[Ahead(m, r)], "reset beyond the iterator ahead")
                   m2 == [m1 EXCEPT !.loc[r] = p, !.from[r] = p, !.upto[r] = 0]
               IN  Publish(m2, r, t)
          [] c = "back" -> [m0 EXCEPT !.loc[r] = @ - n, !.from[r] = m.loc[r] - n]
          [] c = "det" -> [m0 EXCEPT !.det[r] = TRUE]
          [] c = "att" -> Publish([m0 EXCEPT !.det[r] = FALSE], r, t)
          [] c = "sync" -> [Publish([m0 EXCEPT !.det[r] = FALSE], r, t) EXCEPT !.det[r] = TRUE]
          [] OTHER -> m0

\* a poll begins: what happened before it counts
OnPoll(m, e) == LET t == e[2] IN [m EXCEPT !.call[t][5] = Least(m, m.call[t][1], t), !.call[t][6] = FALSE]
OnPending(m, e) ==
    LET t == e[2] c == m.call[t] low == c[5] n == c[3]
        must == CASE c[2] = "lookA" -> low > 0 [] c[2] = "lookM" -> low >= n [] OTHER -> low >= Larger(n, 1)
    IN  Want(Want(m, ~must, "pending though possible"), ~c[6], "pending, but changed something")
\* nothing runs any more, and t still waits
OnQuiet(m, e) ==
    LET t == e[2] c == m.call[t]
        a == Use(m, c[1], MaxOf({0} \cup {p[1] : p \in m.pubs[Ahead(m, c[1])]}))
        can == CASE c[2] = "lookA" -> a > 0 [] c[2] = "lookM" -> a >= c[3] [] OTHER -> a >= c[3]
    IN  IF ~can THEN m ELSE Say(m, IF e[3] = 1 THEN "polled again, still pending though possible" ELSE "parked forever though possible")

OnDrained(m) ==
    LET left == ~m.gone["C"] /\ m.loc["C"] < m.far[Ahead(m, "C")]
        unworked == ~m.gone["W"] /\ m.loc["W"] < m.far["P"]
    IN  Want(m, ~left /\ ~unworked, "items lost")

Event(m, e) ==
    CASE e[1] = "I" -> [m EXCEPT !.mem.msgs[e[2]][1].val = e[3]]
      [] e[1] = "L" -> OnLoad(m, e)
      [] e[1] = "S" -> OnStore(m, e)
      [] e[1] = "U" -> OnRmw(m, e)
      [] e[1] = "F" -> OnFence(m, e)
      [] e[1] \in {"r", "w"} -> OnAccess(m, e)
      [] e[1] = "B" -> OnBegin(m, e)
      [] e[1] = "E" -> OnEnd(m, e)
      [] e[1] = "V" -> Want(m, SeenOK(m, e[3], e[4]), "saw a value that is not next")
      [] e[1] = "f" -> OnFree(m, e)
      [] e[1] = "u" -> Say(m, "used after free")
      [] e[1] = "b" -> OnPoll(m, e)
      [] e[1] = "p" -> OnPending(m, e)
      [] e[1] = "Q" -> OnQuiet(m, e)
      [] e[1] = "X" -> Say(m, "does not end")
      [] e[1] = "A" -> Say(m, "panicked")
      [] e[1] = "J" -> [m EXCEPT !.mem = JoinAll(@, 0, {1, 2, 3})]
      [] e[1] = "T" -> [m EXCEPT !.mem = JoinAll(JoinAll(JoinAll(@, 1, {0}), 2, {0}), 3, {0})]
      [] e[1] = "D" -> OnDrained(m)
      [] e[1] = "Z" -> Want(m, \A b \in DOMAIN m.freed : m.freed[b] = 1, "not freed")
      [] OTHER -> m

\* how many accesses a call for n slots may take whatever others do: far more than any needs, far fewer than others make in the meantime
Bound(n) == 16 + 4 * n
Counted(m, e) ==
    IF m.v = 0 \/ Len(e) < 2 THEN m
    ELSE IF e[1] \in {"B", "b"} /\ e[2] = m.v THEN [m EXCEPT !.own = 0]
    ELSE IF e[1] \in {"L", "S", "U"} /\ e[2] = m.v /\ m.call[m.v] # None /\ m.call[m.v][2] # "wait"
    THEN LET m1 == [m EXCEPT !.own = @ + 1]
         IN  Want(m1, m1.own # Bound(IF m.call[m.v][2] = "lookA" THEN m.L ELSE m.call[m.v][3]) + 1, "takes ever more steps while others run")
    ELSE m
Step(m, e) == LET m1 == [m EXCEPT !.k = @ + 1] IN Event(Counted(m1, e), e)
Judge(tr) == FoldLeft(Step, Start(tr), tr.e)

-----------------------------------------------------------------------------
(* One step per trace *)
VARIABLES i, bad
Init == i = 0 /\ bad = {}
Next == /\ i < Len(Traces)
        /\ i' = i + 1
        /\ bad' = Judge(Traces[i + 1]).bad
Report == bad' # {} => PrintT(ToString(<<"BAD", i', bad'>>))
Done == i = Len(Traces)
Spec == Init /\ [][Next]_<<i, bad>>
==============================================================================
