------------------------------ MODULE MCRouter -----------------------------
(***************************************************************************)
(* Every table of up to MaxReg registrations for two types, and every      *)
(* delivery or question, with every outcome, on a router that works as     *)
(* documented; each step is offered to Router with its guards and the      *)
(* whole history is printed as a script for the driver.                    *)
(* Variants are broken routers that Router has to refuse.                  *)
(***************************************************************************)
EXTENDS Router, Json, IOUtils
Variant == IOEnv.MC_VARIANT
Mode    == IOEnv.MC_MODE       \* ev, chk, two
MaxReg  == IF Mode = "two" THEN 2 ELSE 3
VARIABLES phase, script, bad, cur, n
mcvars == <<vars, phase, script, bad, cur, n>>
Types == {"t1", "t2"}
Handlers == IF Mode = "two" THEN {<<"data", FALSE>>, <<"raw", TRUE>>} ELSE {<<"raw", FALSE>>, <<"data", FALSE>>, <<"some", FALSE>>, <<"map", TRUE>>, <<"raw", TRUE>>, <<"data", TRUE>>}
Pls == IF Mode = "two" THEN {"full", "bad"} ELSE {"full", "null", "mis", "bad"}
Outs(cmd) == IF cmd THEN {"ok", "err", "break", "save", "init"} ELSE {"ok", "err"}

MCInit == Init /\ phase = "reg" /\ script = <<>> /\ bad = "" /\ cur = [c |-> 0, type |-> "", left |-> <<>>, r |-> "ok", h |-> <<>>] /\ n = 0
Do(e) == IF ENABLED Step(e) THEN Step(e) /\ bad' = bad ELSE bad' = e.op /\ UNCHANGED vars
Hid == "h" \o ToString(n + 1)
Regs == \E t \in Types, k \in Handlers :
  /\ phase = "reg" /\ Mode # "chk" /\ n < MaxReg
  /\ t = "t2" => n > 0
  /\ Do([op |-> "reg", type |-> t, h |-> Hid, arg |-> k[1], cmd |-> k[2], r |-> "ok"])
  /\ script' = Append(script, <<"reg", t, Hid, k[1], IF k[2] THEN 1 ELSE 0>>)
  /\ n' = n + 1 /\ UNCHANGED <<phase, cur>>
Chks == \E t \in Types, a \in {"raw", "data", "some", "map"}, st \in 0..2 :
  /\ phase = "reg" /\ Mode = "chk" /\ n < 2 /\ t \notin DOMAIN chks
  /\ Do([op |-> "regchk", type |-> t, h |-> Hid, arg |-> a, r |-> "ok"])
  /\ script' = Append(script, <<"regchk", t, Hid, a, st>>)
  /\ n' = n + 1 /\ UNCHANGED <<phase, cur>>
Order(s) == IF Variant = "reverse" THEN [i \in DOMAIN s |-> s[Len(s) + 1 - i]] ELSE IF Variant = "first" /\ Len(s) > 1 THEN <<s[1]>> ELSE s
Event == \E t \in Types, pl \in Pls :
  /\ phase \in {"reg", "again"} /\ Mode # "chk"
  /\ cur.c < (IF Mode = "two" THEN 2 ELSE 1)
  /\ Do([op |-> "ev", c |-> cur.c + 1, type |-> t, pl |-> pl])
  /\ cur' = [c |-> cur.c + 1, type |-> t, pl |-> pl, left |-> Order(Of(hs, IF Variant = "all" /\ Of(hs, t, <<>>) = <<>> THEN "t1" ELSE t, <<>>)), r |-> "ok", h |-> <<>>, outs |-> <<>>]
  /\ phase' = "run"
  /\ UNCHANGED <<script, n>>
Call ==
  /\ phase = "run" /\ cur.left # <<>> /\ (cur.r = "ok" \/ Variant = "goeson")
  /\ LET h == Head(cur.left) IN
     IF Decodes(h.arg, cur.pl) \/ (Variant = "zero" /\ cur.pl # "none")
     THEN /\ Do([op |-> "h", c |-> cur.c, h |-> h.h, same |-> TRUE])
          /\ cur' = [cur EXCEPT !.h = <<h>>] /\ phase' = "out"
     ELSE cur' = [cur EXCEPT !.r = "decode", !.left = <<>>] /\ UNCHANGED <<vars, bad, phase>>
  /\ UNCHANGED <<script, n>>
Out == phase = "out" /\ \E o \in Outs(cur.h[1].cmd) :
  /\ LET r == IF o \in {"ok", "break"} THEN "ok" ELSE "e" \o cur.h[1].h IN
     /\ IF Variant = "lazy" /\ cur.h[1].cmd THEN UNCHANGED <<vars, bad>> ELSE Do([op |-> "out", c |-> cur.c, h |-> cur.h[1].h, r |-> r, late |-> FALSE])
     /\ cur' = [cur EXCEPT !.r = IF Variant = "swallow" /\ cur.h[1].cmd THEN @ ELSE IF @ = "ok" THEN r ELSE @, !.left = Tail(@), !.outs = Append(@, o)]
  /\ phase' = "run"
  /\ UNCHANGED <<script, n>>
Ret ==
  /\ phase = "run" /\ (cur.left = <<>> \/ (cur.r # "ok" /\ Variant # "goeson"))
  /\ Do([op |-> "evret", c |-> cur.c, r |-> cur.r])
  /\ script' = Append(script, <<"ev", cur.type, cur.pl, cur.outs>>)
  /\ phase' = "again" /\ UNCHANGED <<cur, n>>
Question == \E t \in Types, pl \in Pls :
  /\ phase = "reg" /\ Mode = "chk"
  /\ Do([op |-> "ask", c |-> 1, type |-> t, pl |-> pl])
  /\ cur' = [c |-> 1, type |-> t, pl |-> pl, left |-> <<>>, r |-> "ok", h |-> <<>>]
  /\ phase' = "asked" /\ script' = Append(script, <<"ask", t, pl>>) /\ UNCHANGED n
Asked ==
  /\ phase = "asked"
  /\ IF cur.type \in DOMAIN chks /\ Decodes(chks[cur.type].arg, cur.pl)
     THEN \E st \in 0..2 : Do([op |-> "chk", c |-> 1, h |-> chks[cur.type].h, same |-> TRUE, st |-> st]) /\ cur' = [cur EXCEPT !.c = st]
     ELSE UNCHANGED <<vars, bad>> /\ cur' = [cur EXCEPT !.c = IF Variant = "commits" THEN 1 ELSE 2]
  /\ phase' = "answer" /\ UNCHANGED <<script, n>>
Answering ==
  /\ phase = "answer"
  /\ Do([op |-> "ans", c |-> 1, st |-> cur.c])
  /\ phase' = "done" /\ UNCHANGED <<script, n, cur>>

MCNext == bad = "" /\ (Regs \/ Chks \/ Event \/ Call \/ Out \/ Ret \/ Question \/ Asked \/ Answering)
MCSpec == MCInit /\ [][MCNext]_mcvars
Fine == bad = ""
\* a history is complete
Emit == (phase = "done" \/ (phase = "again" /\ (Mode # "two" \/ cur.c = 2))) => PrintT("SC " \o ToJson([steps |-> script]))
=============================================================================
