-------------------------------- MODULE Build --------------------------------
(***************************************************************************)
(* A buffer from its construction to its first drained session, for every  *)
(* way of building one and many lengths: TABLE holds what the real code    *)
(* did (one row per request), and every row has to be the behaviour this   *)
(* module specifies for its request.  Sequences of item numbers are        *)
(* written as runs <<first, how many>>; numbers repeat after `period'.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Rows == ndJsonDeserialize(IOEnv.TABLE)
Page == 4096

VARIABLES row,    \* which row
          ph,     \* "request", "refused", "built", "session", "full", "ready", "drained", "destroyed", "freed"
          len,    \* length of the buffer
          kept,   \* runs of the contents, slots 0 .. len-1 ("none": not known)
          avail,  \* of the producer, the worker and the consumer
          queue   \* runs of the pushed items not consumed yet
vars == <<row, ph, len, kept, avail, queue>>

R == Rows[row]
Known(c) == c \in {"vec", "roomy", "array"}
\* mirrored buffers: whole pages
Length(build, n) == IF build = "vmem" THEN ((n + Page - 1) \div Page) * Page ELSE n
Run(first, n) == IF n = 0 THEN << >> ELSE << <<first, n>> >>

\* `seen', a sequence of runs, spells `n' numbers from `first' on (a run goes on past the period)
Spells(seen, first, n, period) ==
    IF n = 0 THEN seen = << >> ELSE Len(seen) = 1 /\ seen[1][1] = first % period /\ seen[1][2] = n

Init == row \in 1 .. Len(Rows) /\ ph = "request" /\ len = 0 /\ kept = << >> /\ avail = <<0, 0, 0>> /\ queue = << >>

Refuse == /\ ph = "request" /\ R.n = 0 /\ ph' = "refused"
          /\ UNCHANGED <<row, len, kept, avail, queue>>
Construct == /\ ph = "request" /\ R.n > 0 /\ ph' = "built"
             /\ len' = Length(R.build, R.n)
             /\ kept' = IF Known(R.ctor) THEN Run(0, len') ELSE << >>
             /\ UNCHANGED <<row, avail, queue>>
Split == /\ ph = "built" /\ ph' = "session" /\ avail' = <<len - 1, 0, 0>>
         /\ UNCHANGED <<row, len, kept, queue>>
Fill == /\ ph = "session" /\ ph' = "full"
        /\ queue' = Run(7, avail[1])
        /\ avail' = IF R.stages = 3 THEN <<0, avail[1], 0>> ELSE <<0, 0, avail[1]>>
        /\ UNCHANGED <<row, len, kept>>
Release == /\ ph = "full" /\ ph' = "ready" /\ avail' = <<0, 0, avail[2] + avail[3]>>
           /\ UNCHANGED <<row, len, kept, queue>>
Drain == /\ ph = "ready" /\ ph' = "drained" /\ queue' = << >> /\ avail' = <<avail[3], 0, 0>>
         /\ UNCHANGED <<row, len, kept>>
\* all iterators dropped: nothing is left of the items and of the storage
Drop == /\ ph = "drained" /\ ph' = "destroyed" /\ UNCHANGED <<row, len, kept, avail, queue>>
Free == /\ ph = "destroyed" /\ ph' = "freed" /\ UNCHANGED <<row, len, kept, avail, queue>>
Next == Refuse \/ Construct \/ Split \/ Fill \/ Release \/ Drain \/ Drop \/ Free
Spec == Init /\ [][Next]_vars

\* the specification itself
Sum == ph \in {"session", "full", "ready", "drained"} => avail[1] + avail[2] + avail[3] = len - 1
Enough == ph \notin {"request", "refused"} => len >= R.n /\ (R.build # "vmem" => len = R.n) /\ (R.build = "vmem" => len % Page = 0 /\ len < R.n + Page)

\* what the code showed at this point
Agrees ==
    CASE ph = "request" -> R.panic = (R.n = 0)
      [] R.panic -> TRUE
      [] ph = "built" -> R.len = len
      [] ph = "session" -> R.avail = avail /\ (kept # << >> => Spells(R.seen, 0, len - 1, R.period))
      [] ph = "full" -> R.refused /\ R.accepted = len - 1
      [] ph = "ready" -> R.after = avail /\ Spells(R.got, 7, len - 1, R.period)
      [] ph = "destroyed" -> R.left = 0
      [] ph = "freed" -> R.bytes = 0 /\ R.errors = 0
      [] OTHER -> TRUE
Report == Agrees \/ PrintT(ToString(<<"BAD", row, ph>>))
=============================================================================
