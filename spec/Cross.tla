-------------------------------- MODULE Cross --------------------------------
(***************************************************************************)
(* How the iterators of one session may get to other threads, in safe      *)
(* code.  What the type system lets through is not part of the model: it   *)
(* is the table TABLE, one row for each type, made by asking the compiler  *)
(* about the crate's types.  The model says what safe code does with them: *)
(* change wrapper, move, lend by reference, start a call and send the      *)
(* future elsewhere.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Table == ndJsonDeserialize(IOEnv.TABLE)
Rows == {Table[i] : i \in 1 .. Len(Table)}
Key(r) == <<r.variant, r.storage, r.stage, r.wrap, r.item>>
CanSend == [k \in {Key(r) : r \in Rows} |-> (CHOOSE r \in Rows : Key(r) = k).send]
CanSync == [k \in {Key(r) : r \in Rows} |-> (CHOOSE r \in Rows : Key(r) = k).sync]

Sessions == {[variant |-> r.variant, storage |-> r.storage, item |-> r.item] : r \in Rows}
Sendable(item) == item \in {"both", "both-own", "send"}
Threads == 0 .. 1
Futures == {"future", "futureitem", "futureslice"}

VARIABLES ses,    \* the session
          stages, \* its stages
          wrap, at, refs,
          fut     \* stage -> the future in progress and where it is, or <<>>
vars == <<ses, stages, wrap, at, refs, fut>>

KeyOf(s, w) == <<ses.variant, ses.storage, s, w, ses.item>>
Init == /\ ses \in Sessions
        /\ stages \in {{"P", "C"}, {"P", "W", "CW"}}
        /\ wrap = [s \in stages |-> "plain"] /\ at = [s \in stages |-> 0]
        /\ refs = [s \in stages |-> {}] /\ fut = [s \in stages |-> <<>>]

Alone(s) == refs[s] = {} /\ fut[s] = <<>>
Becomes == {<<"plain", "detached">>, <<"detached", "plain">>, <<"plain", "async">>, <<"async", "plain">>,
            <<"async", "asyncdetached">>, <<"asyncdetached", "async">>}
Wrap(s) == \E b \in Becomes : /\ b[1] = wrap[s] /\ Alone(s)
                              /\ wrap' = [wrap EXCEPT ![s] = b[2]] /\ UNCHANGED <<ses, stages, at, refs, fut>>
\* by value, or lent by mutable reference
Move(s, t) == /\ Alone(s) /\ t # at[s] /\ CanSend[KeyOf(s, wrap[s])]
              /\ at' = [at EXCEPT ![s] = t] /\ UNCHANGED <<ses, stages, wrap, refs, fut>>
Lend(s, t) == /\ fut[s] = <<>> /\ t # at[s] /\ t \notin refs[s] /\ CanSync[KeyOf(s, wrap[s])]
              /\ refs' = [refs EXCEPT ![s] = @ \cup {t}] /\ UNCHANGED <<ses, stages, wrap, at, fut>>
Return(s) == /\ refs[s] # {} /\ refs' = [refs EXCEPT ![s] = {}] /\ UNCHANGED <<ses, stages, wrap, at, fut>>
Call(s) == /\ wrap[s] = "async" /\ Alone(s)
           /\ \E f \in Futures : fut' = [fut EXCEPT ![s] = <<f, at[s]>>]
           /\ UNCHANGED <<ses, stages, wrap, at, refs>>
MoveFuture(s, t) == /\ fut[s] # <<>> /\ refs[s] = {} /\ fut[s][2] # t /\ CanSend[KeyOf(s, fut[s][1])]
                    /\ fut' = [fut EXCEPT ![s][2] = t] /\ UNCHANGED <<ses, stages, wrap, at, refs>>
LendFuture(s, t) == /\ fut[s] # <<>> /\ fut[s][2] # t /\ t \notin refs[s] /\ CanSync[KeyOf(s, fut[s][1])]
                    /\ refs' = [refs EXCEPT ![s] = @ \cup {t}] /\ UNCHANGED <<ses, stages, wrap, at, fut>>
EndCall(s) == /\ fut[s] # <<>> /\ refs[s] = {}
              /\ fut' = [fut EXCEPT ![s] = <<>>] /\ UNCHANGED <<ses, stages, wrap, at, refs>>

Step(s) == \/ Wrap(s) \/ Return(s) \/ Call(s) \/ EndCall(s)
           \/ \E t \in Threads : Move(s, t) \/ Lend(s, t) \/ MoveFuture(s, t) \/ LendFuture(s, t)
Next == \E s \in stages : Step(s)
Spec == Init /\ [][Next]_vars

Holders(s) == {at[s]} \cup (IF fut[s] = <<>> THEN {} ELSE {fut[s][2]})
\* iterators of a local buffer stay on their thread, and references to them too
LocalConfined == ses.variant = "local" => \A s \in stages : Holders(s) \cup refs[s] = {0}
\* so do iterators over items that cannot be sent
ItemsConfined == ~Sendable(ses.item) => \A s \in stages : Holders(s) = {0}

\* every crossing that must not be, once: reported, and not followed
Crossed == ~(LocalConfined' /\ ItemsConfined')
What == LET s == CHOOSE x \in stages : <<at[x], refs[x], fut[x]>> # <<at'[x], refs'[x], fut'[x]>>
        IN  <<ses.variant, ses.storage, s, IF fut[s] = <<>> THEN wrap[s] ELSE fut[s][1], ses.item, IF refs[s] = refs'[s] THEN "moved" ELSE "lent">>
Report == Crossed => (PrintT(ToString(<<"CROSS", What>>)) /\ FALSE)
\* to see that crossing is possible at all
NoCrossing == \A s \in stages : at[s] = 0
=============================================================================
