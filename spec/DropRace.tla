------------------------------ MODULE DropRace ------------------------------
(***************************************************************************)
(* Dropping the iterators of one heap buffer in different threads.  Each   *)
(* does its last work on the buffer, then drops: either by one atomic      *)
(* read-modify-write on a set of bits ("bits", as the code does), or by    *)
(* flags of its own, fences and looks at the flags of the others           *)
(* ("flags", as the code once did).                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Roles, Protocol, RmwOrd, LookOrd

VARIABLES mem, pc, saw, freed, bad, last, seenDead
vars == <<mem, pc, saw, freed, bad, last, seenDead>>

Threads == Roles
Bits == "bits"
\* data: what a role published last, by itself
Data(r) == "data" \o r
Locs == {Bits} \cup Roles \cup {Data(r) : r \in Roles}
INSTANCE RAMem

\* the bits, as a number: one binary digit for each role
Order == CHOOSE f \in [Roles -> 1 .. Cardinality(Roles)] : \A a, b \in Roles : a # b => f[a] # f[b]
Bit(r) == 2 ^ (Order[r] - 1)
All == (2 ^ Cardinality(Roles)) - 1
HasBit(x, r) == (x \div Bit(r)) % 2 = 1

Init == /\ mem = InitMem([l \in Locs |-> IF l = Bits THEN All ELSE IF l \in Roles THEN 1 ELSE 0])
        /\ pc = [r \in Roles |-> "work"] /\ saw = [r \in Roles |-> {}]
        /\ freed = 0 /\ bad = {} /\ last = [r \in Roles |-> 0] /\ seenDead = [r \in Roles |-> {}]

Go(r, p) == pc' = [pc EXCEPT ![r] = p]
Use(r, m) == /\ last' = [last EXCEPT ![r] = mem.know[r].clk[r]]
             /\ bad' = bad \cup (IF freed > 0 THEN {"used after free"} ELSE {})

\* last publication, and a last access to the buffer
Work(r) == /\ pc[r] = "work" /\ Go(r, "drop")
           /\ mem' = Store(mem, r, Data(r), "r", 1)
           /\ Use(r, mem') /\ UNCHANGED <<saw, freed, seenDead>>
\* is another one still alive?
LookBits(r) == /\ Protocol = "bits" /\ pc[r] \in {"work", "drop"}
               /\ \E i \in Readable(mem, r, Bits, LookOrd) :
                    /\ mem' = Load(mem, r, Bits, LookOrd, i)
                    /\ seenDead' = [seenDead EXCEPT ![r] = {q \in Roles : ~HasBit(mem.msgs[Bits][i].val, q)}]
               /\ Use(r, mem') /\ UNCHANGED <<pc, saw, freed>>

Free(r, m) ==
    /\ freed' = freed + 1
    /\ bad' = bad \cup (IF freed > 0 THEN {"freed twice"} ELSE {})
                  \cup (IF \E q \in Roles \ {r} : pc[q] \in {"work", "drop"} THEN {"freed in use"} ELSE {})
                  \cup (IF \E q \in Roles \ {r} : ~Before(m, r, q, last[q]) THEN {"free races"} ELSE {})

DropBits(r) ==
    /\ Protocol = "bits" /\ pc[r] = "drop"
    /\ LET x == mem.msgs[Bits][Latest(mem, Bits)].val - Bit(r)
           m == Rmw(mem, r, Bits, RmwOrd, x)
       IN  /\ mem' = m
           /\ IF x = 0 THEN Free(r, m) /\ UNCHANGED last
              ELSE Use(r, m) /\ UNCHANGED freed
    /\ Go(r, "done") /\ UNCHANGED <<saw, seenDead>>

\* fence, clear own flag, look at the others, fence, free if all are clear
FlagClear(r) == /\ Protocol = "flags" /\ pc[r] = "drop" /\ Go(r, "look")
                /\ mem' = Store(mem, r, r, "r", 0)
                /\ Use(r, mem') /\ UNCHANGED <<saw, freed, seenDead>>
FlagLook(r) == /\ pc[r] = "look"
               /\ \E q \in Roles \ ({r} \cup {x[1] : x \in saw[r]}), i \in 1 .. 3 :
                    /\ i \in Readable(mem, r, q, "a")
                    /\ mem' = Load(mem, r, q, "a", i)
                    /\ saw' = [saw EXCEPT ![r] = @ \cup {<<q, mem.msgs[q][i].val>>}]
               /\ Use(r, mem') /\ UNCHANGED <<pc, freed, seenDead>>
FlagEnd(r) == /\ pc[r] = "look" /\ Cardinality(saw[r]) = Cardinality(Roles) - 1
              /\ Go(r, "done")
              /\ mem' = Fence(mem, r, "sc")
              /\ IF \A x \in saw[r] : x[2] = 0 THEN Free(r, mem') /\ UNCHANGED last ELSE UNCHANGED <<freed, bad, last>>
              /\ UNCHANGED <<saw, seenDead>>

Next == \E r \in Roles : Work(r) \/ LookBits(r) \/ DropBits(r) \/ FlagClear(r) \/ FlagLook(r) \/ FlagEnd(r)
Spec == Init /\ [][Next]_vars

FreedOnce == bad = {} /\ freed <= 1
FreedAtEnd == (\A r \in Roles : pc[r] = "done") => freed = 1
\* who sees another dead sees what that one published
DeadShows == \A r \in Roles : \A q \in seenDead[r] \ {r} : mem.know[r].view[Data(q)] = 2
==============================================================================
