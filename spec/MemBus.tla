------------------------------- MODULE MemBus ------------------------------
(***************************************************************************)
(* The in-memory event bus: senders hand over events through a bounded     *)
(* buffer to one consumer that calls the handler.                          *)
(*                                                                         *)
(* A step is the beginning or end of a Dispatch call, of Start, of a call  *)
(* of the handler, the end of the bus's context, or a moment of quiet (all *)
(* goroutines wait).                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Check, Loud
On(P) == P \cap Check # {}
Must(P, name, cond) == IF On(P) THEN (IF cond THEN TRUE ELSE Loud /\ PrintT(<<"GUARD", name>>) /\ FALSE) ELSE TRUE

VARIABLES
  cap,     \* room in the buffer
  first,   \* event -> events that must be handed over before it
  handed,  \* events handed over
  open,    \* call -> its events, while the sender waits
  taken,   \* events of finished Dispatch calls
  busy,    \* the handler runs
  on       \* "no", "yes", "over": the bus runs
vars == <<cap, first, handed, open, taken, busy, on>>
Nil == [x \in {} |-> x]
Range(s) == {s[i] : i \in DOMAIN s}

Init == cap = 0 /\ first = Nil /\ handed = {} /\ open = Nil /\ taken = {} /\ busy = FALSE /\ on = "no"

Cfg(e) == cap' = e.cap /\ UNCHANGED <<first, handed, open, taken, busy, on>>
Call(e) ==
  /\ first' = [x \in Range(e.evs) |-> taken \cup {e.evs[i] : i \in 1..((CHOOSE k \in DOMAIN e.evs : e.evs[k] = x) - 1)}] @@ first
  /\ open' = (e.c :> Range(e.evs)) @@ open
  /\ UNCHANGED <<cap, handed, taken, busy, on>>
Ret(e) ==
  /\ e.c \in DOMAIN open
  /\ Must({"P35"}, "sending fails", e.r = "ok" \/ on = "over")
  /\ taken' = taken \cup open[e.c]
  /\ open' = [c \in DOMAIN open \ {e.c} |-> open[c]]
  /\ UNCHANGED <<cap, first, handed, busy, on>>
Start(e) == on' = (IF on = "no" THEN "yes" ELSE on) /\ UNCHANGED <<cap, first, handed, open, taken, busy>>
Stop(e)  == on' = "over" /\ UNCHANGED <<cap, first, handed, open, taken, busy>>
Hand(e) ==
  /\ Must({"P35"}, "an event is handed over while the bus does not run", on = "yes")
  /\ Must({"P35"}, "an event is handed over that was not sent", e.e \in DOMAIN first)
  /\ Must({"P35"}, "an event is changed on the way", e.same)
  /\ Must({"P35"}, "an event is handed over twice", e.e \notin handed)
  /\ Must({"P35"}, "an event overtakes an earlier one", e.e \in DOMAIN first => first[e.e] \subseteq handed)
  /\ Must({"P35"}, "two consumers at work", ~busy)
  /\ handed' = handed \cup {e.e}
  /\ busy' = TRUE
  /\ UNCHANGED <<cap, first, open, taken, on>>
Done(e) == busy' = FALSE /\ UNCHANGED <<cap, first, handed, open, taken, on>>
\* nothing moves any more by itself
Quiet(e) ==
  /\ on = "yes" /\ ~busy => Must({"P35"}, "an event is not handed over", DOMAIN first \subseteq handed)
  /\ Must({"P35"}, "a sender waits although there is room", open # Nil /\ on # "over" => Cardinality(DOMAIN first \ handed) > cap)
  /\ Must({"P35"}, "a sender does not wait although there is no room", on # "over" => Cardinality(taken \ handed) <= cap)
  /\ Must({"P35"}, "the consumer outlives the bus", on = "over" /\ ~busy => e.left = 0)
  /\ Must({"P35"}, "more than one consumer", e.left <= 1)
  /\ UNCHANGED vars

Step(e) ==
  CASE e.op = "cfg"   -> Cfg(e)
    [] e.op = "call"  -> Call(e)
    [] e.op = "ret"   -> Ret(e)
    [] e.op = "start" -> Start(e)
    [] e.op = "stop"  -> Stop(e)
    [] e.op = "hand"  -> Hand(e)
    [] e.op = "done"  -> Done(e)
    [] e.op = "quiet" -> Quiet(e)
=============================================================================
