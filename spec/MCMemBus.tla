----------------------------- MODULE MCMemBus ------------------------------
(***************************************************************************)
(* Every way of using a channel-like bus up to a depth: senders, a buffer, *)
(* one consumer.  Each step is offered to MemBus with all its guards, and  *)
(* the way to every situation is printed as a script for the driver.       *)
(* Variants are broken buses that MemBus has to refuse.                    *)
(***************************************************************************)
EXTENDS MemBus, Json, IOUtils
Variant == IOEnv.MC_VARIANT
Depth   == CHOOSE d \in 0..60 : ToString(d) = IOEnv.MC_DEPTH
Caps    == {0, 1, 2}

VARIABLES buf, wait, cons, script, bad, n, k, quiet, stopped, two
mcvars == <<vars, buf, wait, cons, script, bad, n, k, quiet, stopped, two>>
\* buf: events accepted; wait: calls that still have events to hand over (<<call, rest>> in order of arrival);
\* cons: "none", "idle", "busy", "gone"

MCInit ==
  /\ Init /\ buf = <<>> /\ wait = <<>> /\ cons = "none" /\ script = <<>> /\ bad = "" /\ n = 0 /\ k = 0 /\ quiet = TRUE /\ stopped = FALSE /\ two = 0
Do(e) == IF ENABLED Step(e) THEN Step(e) /\ bad' = bad ELSE bad' = e.op /\ UNCHANGED vars
Say(s) == script' = Append(script, s) /\ n' = n + 1 /\ quiet' = FALSE
Hush == UNCHANGED <<script, n>> /\ quiet' = FALSE

Config == \E c \in Caps :
  /\ script = <<>>
  /\ Do([op |-> "cfg", cap |-> c])
  /\ Say(<<"cap", c>>)
  /\ UNCHANGED <<buf, wait, cons, k, stopped, two>>

(* the bus by itself: accepts, returns, hands over *)
Room == Len(buf) < cap \/ (cap = 0 /\ cons = "idle" /\ buf = <<>> /\ ~stopped)
Accept == \E i \in DOMAIN wait :
  /\ wait[i][2] # <<>> /\ Room
  /\ buf' = IF Variant = "lifo" THEN <<Head(wait[i][2])>> \o buf ELSE Append(buf, Head(wait[i][2]))
  /\ wait' = [wait EXCEPT ![i] = <<@[1], Tail(@[2])>>]
  /\ Hush /\ UNCHANGED <<vars, bad, cons, k, stopped, two>>
Drop == \E i \in DOMAIN wait :
  /\ Variant = "drop" /\ wait[i][2] # <<>> /\ ~Room
  /\ wait' = [wait EXCEPT ![i] = <<@[1], Tail(@[2])>>]
  /\ Hush /\ UNCHANGED <<vars, bad, cons, k, stopped, two, buf>>
Return == \E i \in DOMAIN wait :
  /\ wait[i][2] = <<>>
  /\ Do([op |-> "ret", c |-> wait[i][1], r |-> "ok"])
  /\ wait' = SubSeq(wait, 1, i - 1) \o SubSeq(wait, i + 1, Len(wait))
  /\ Hush /\ UNCHANGED <<buf, cons, k, stopped, two>>
HandOver ==
  /\ buf # <<>> /\ (~stopped \/ Variant = "deaf")
  /\ cons = "idle" \/ (two = 1 /\ cons = "busy")
  /\ Do([op |-> "hand", e |-> Head(buf), same |-> TRUE])
  /\ buf' = Tail(buf)
  /\ cons' = "busy" /\ two' = IF cons = "busy" THEN 2 ELSE two
  /\ Hush /\ UNCHANGED <<wait, k, stopped>>
Leave ==
  /\ cons = "idle" /\ stopped
  /\ cons' = "gone"
  /\ Hush /\ UNCHANGED <<vars, bad, buf, wait, k, stopped, two>>
Inner == ENABLED Accept \/ ENABLED Return \/ ENABLED HandOver \/ ENABLED Leave \/ ENABLED Drop
Look ==
  /\ ~Inner /\ ~quiet
  /\ Do([op |-> "quiet", left |-> IF cons \in {"idle", "busy"} \/ (Variant = "stays" /\ cons = "gone") THEN 1 ELSE 0])
  /\ quiet' = TRUE /\ UNCHANGED <<script, n, buf, wait, cons, k, stopped, two>>

(* what its users do *)
Ev(i) == "e" \o ToString(i)
Send == \E m \in 1..3 :
  /\ k + m <= 6
  /\ LET evs == [i \in 1..m |-> Ev(k + i)] IN
     /\ Do([op |-> "call", c |-> n, evs |-> evs])
     /\ wait' = Append(wait, <<n, evs>>)
     /\ Say(<<"send", n>> \o evs)
  /\ k' = k + m
  /\ UNCHANGED <<buf, cons, stopped, two>>
Begin ==
  /\ ~stopped
  /\ Do([op |-> "start"])
  /\ cons' = IF cons = "none" THEN "idle" ELSE cons
  /\ two' = IF Variant = "twice" /\ cons # "none" THEN 1 ELSE two
  /\ Say(<<"start">>)
  /\ UNCHANGED <<buf, wait, k, stopped>>
Finish == \E r \in {"ok", "err"} :
  /\ cons = "busy"
  /\ Do([op |-> "done", r |-> r])
  /\ cons' = IF two = 2 THEN "busy" ELSE IF Variant = "quits" /\ r = "err" THEN "gone" ELSE "idle"
  /\ two' = IF two = 2 THEN 1 ELSE two
  /\ Say(<<"fin", r>>)
  /\ UNCHANGED <<buf, wait, k, stopped>>
End ==
  /\ ~stopped /\ cons # "none"
  /\ Do([op |-> "stop"])
  /\ stopped' = TRUE
  /\ Say(<<"stop">>)
  /\ UNCHANGED <<buf, wait, cons, k, two>>

MCNext ==
  /\ bad = ""
  /\ IF script = <<>> THEN Config
     ELSE IF Inner THEN Accept \/ Return \/ HandOver \/ Leave \/ Drop
     ELSE IF ~quiet THEN Look
     ELSE n < Depth /\ (Send \/ Begin \/ Finish \/ End)
MCSpec == MCInit /\ [][MCNext]_mcvars
Fine == bad = ""
Emit == (quiet /\ n = Depth) => PrintT("SC " \o ToJson([steps |-> script]))
=============================================================================
