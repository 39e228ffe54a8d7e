------------------------------- MODULE MCFlow -------------------------------
(***************************************************************************)
(* Exhaustive exploration of how the stack carries out commands, a         *)
(* statement at a time: two commands of two processes on one account, each *)
(* under its lock in a transaction of its own, with ordinary events sent   *)
(* and transactional ones prepared before the data is committed, and       *)
(* released after; the check-back of what stays prepared; deliveries that  *)
(* may fail; statements that fail (and commits that fail though they took  *)
(* effect); processes that die anywhere.  Every step is offered to Flow    *)
(* with all its guards; `bad` says that Flow refused one.                  *)
(***************************************************************************)
EXTENDS Flow, Json, IOUtils
Variant == IOEnv.MC_VARIANT
Faults  == CHOOSE d \in 0..9 : ToString(d) = IOEnv.MC_FAULTS

VARIABLES pc, lk, seen, wrote, rec, msgs, sent, dead, over, tries, left, sh, bad
mcvars == <<vars, pc, lk, seen, wrote, rec, msgs, sent, dead, over, tries, left, sh, bad>>

Cs == {"c1", "c2"}
Proc(c) == IF c = "c1" THEN "i1" ELSE "i2"
Shapes == {"ok", "err"}
Ev(c) == c \o ".e"
Tx(c) == c \o ".t"
D(c) == IF c = "c1" THEN 1 ELSE 10
Pending == {x \in sent : <<"s", x>> \notin done}

MCInit ==
  /\ acc = [k \in {"a"} |-> 0] /\ item = Nil /\ evlog = {} /\ svcs = {"s"} /\ cmds = Nil /\ done = {} /\ sick = FALSE
  /\ pc = [c \in Cs |-> "new"] /\ lk = "" /\ seen = [c \in Cs |-> 0] /\ wrote = [c \in Cs |-> FALSE] /\ rec = [c \in Cs |-> FALSE]
  /\ msgs = {} /\ sent = {} /\ dead = {} /\ over = FALSE /\ tries = 0 /\ left = Faults /\ sh \in [Cs -> Shapes] /\ bad = ""

Do(e) == IF ENABLED Step(e) THEN Step(e) /\ bad' = bad ELSE bad' = e.op /\ UNCHANGED vars
Nothing == UNCHANGED vars /\ bad' = bad
Goes(c, x) == pc' = [pc EXCEPT ![c] = x]

Start(c) ==
  /\ pc[c] = "new"
  /\ Do([op |-> "call", i |-> Proc(c), c |-> c, ds |-> <<[k |-> "a", d |-> D(c)]>>, items |-> 1, drop |-> c = "c2", evs |-> <<Ev(c)>>, txs |-> <<Tx(c)>>,
         fail |-> IF sh[c] = "ok" THEN "" ELSE "err", cx |-> FALSE])
  /\ Goes(c, "lock") /\ UNCHANGED <<lk, seen, wrote, rec, msgs, sent>>
Lock(c) ==
  /\ pc[c] = "lock" /\ (lk = "" \/ Variant = "nolock")
  /\ lk' = (IF Variant = "nolock" THEN lk ELSE c)
  /\ Goes(c, "read") /\ Nothing /\ UNCHANGED <<seen, wrote, rec, msgs, sent>>
Read(c) ==
  /\ pc[c] = "read" /\ seen' = [seen EXCEPT ![c] = acc["a"]]
  /\ IF Variant = "eager" THEN sent' = sent \cup {Ev(c)} ELSE sent' = sent
  /\ Goes(c, IF sh[c] = "err" THEN "back" ELSE "save") /\ Nothing /\ UNCHANGED <<lk, wrote, rec, msgs>>
DbLine(c, data, log) ==
  [op |-> "db", i |-> Proc(c), acc |-> IF data THEN <<[k |-> "a", v |-> seen[c] + D(c), by |-> c]>> ELSE <<>>, accGone |-> 0,
   items |-> IF data THEN <<[k |-> c \o "-x", x |-> "a", by |-> c, was |-> FALSE]>> ELSE <<>>,
   itemsGone |-> IF data /\ c = "c2" THEN [j \in 1..Cardinality(DOMAIN item) |-> [k |-> CHOOSE x \in DOMAIN item : TRUE, x |-> "a"]] ELSE <<>>,
   log |-> IF log THEN <<[k |-> Ev(c), by |-> c], [k |-> Tx(c), by |-> c]>> ELSE <<>>, logGone |-> 0]
Save(c) ==          \* the rows of the command, in its transaction
  /\ pc[c] = "save" /\ wrote' = [wrote EXCEPT ![c] = TRUE]
  /\ IF Variant = "parts" THEN Do(DbLine(c, TRUE, FALSE)) ELSE Nothing
  /\ Goes(c, "log") /\ UNCHANGED <<lk, seen, rec, msgs, sent>>
Log(c) ==           \* and its events
  /\ pc[c] = "log" /\ rec' = [rec EXCEPT ![c] = TRUE]
  /\ IF Variant = "outside" THEN Do(DbLine(c, FALSE, TRUE)) ELSE Nothing
  /\ Goes(c, "prep") /\ UNCHANGED <<lk, seen, wrote, msgs, sent>>
Prep(c) ==
  /\ pc[c] = "prep" /\ msgs' = msgs \cup {c}
  /\ Goes(c, IF Variant = "late" THEN "commit" ELSE "send") /\ Nothing /\ UNCHANGED <<lk, seen, wrote, rec, sent>>
Send(c) ==
  /\ pc[c] = "send" /\ sent' = sent \cup {Ev(c)}
  /\ Goes(c, IF Variant = "late" THEN "unlock" ELSE IF Variant = "early" THEN "msg" ELSE "commit") /\ Nothing /\ UNCHANGED <<lk, seen, wrote, rec, msgs>>
Commit(c) ==
  /\ pc[c] = "commit" /\ Do(DbLine(c, Variant # "parts", Variant # "outside"))
  /\ wrote' = [wrote EXCEPT ![c] = FALSE] /\ rec' = [rec EXCEPT ![c] = FALSE]
  /\ Goes(c, IF Variant = "early" THEN "unlock" ELSE "msg") /\ UNCHANGED <<lk, seen, msgs, sent>>
Msg(c) ==
  /\ pc[c] = "msg" /\ msgs' = msgs \ {c} /\ sent' = (IF c \in msgs THEN sent \cup {Tx(c)} ELSE sent)
  /\ Goes(c, IF Variant = "early" THEN "commit" ELSE IF Variant = "late" THEN "send" ELSE "unlock") /\ Nothing /\ UNCHANGED <<lk, seen, wrote, rec>>
Back(c) ==          \* undone
  /\ pc[c] = "back" /\ msgs' = msgs \ {c} /\ wrote' = [wrote EXCEPT ![c] = FALSE] /\ rec' = [rec EXCEPT ![c] = FALSE]
  /\ Goes(c, "unlockF") /\ Nothing /\ UNCHANGED <<lk, seen, sent>>
Unlock(c) ==
  /\ pc[c] \in {"unlock", "unlockF"} /\ lk' = (IF lk = c THEN "" ELSE lk)
  /\ Goes(c, IF pc[c] = "unlock" THEN "ret" ELSE "retF") /\ Nothing /\ UNCHANGED <<seen, wrote, rec, msgs, sent>>
Return(c) ==
  /\ pc[c] \in {"ret", "retF"} /\ Do([op |-> "ret", i |-> Proc(c), c |-> c, r |-> IF pc[c] = "ret" THEN "ok" ELSE "err"])
  /\ Goes(c, "done") /\ UNCHANGED <<lk, seen, wrote, rec, msgs, sent>>
Moves(c) == Start(c) \/ Lock(c) \/ Read(c) \/ Save(c) \/ Log(c) \/ Prep(c) \/ Send(c) \/ Commit(c) \/ Msg(c) \/ Back(c) \/ Unlock(c) \/ Return(c)

(* A statement of command c fails: it is undone (the release of a message is let be). *)
Fails(c) ==
  /\ left > 0 /\ left' = left - 1
  /\ pc[c] \in {"lock", "read", "save", "log", "prep", "send", "commit", "msg"}
  /\ Do([op |-> "fault", i |-> Proc(c)])
  /\ Goes(c, CASE pc[c] = "lock" -> "retF" [] pc[c] = "msg" -> (IF Variant = "early" THEN "back" ELSE "unlock")
               [] pc[c] = "commit" -> (IF Variant = "withdraw" THEN "back" ELSE "unlockF") [] OTHER -> "back")
  /\ wrote' = [wrote EXCEPT ![c] = FALSE] /\ rec' = [rec EXCEPT ![c] = FALSE]
  /\ UNCHANGED <<lk, seen, msgs, sent, dead, over, tries, sh>>
Doubt(c) ==         \* the commit took effect, but fails: two steps, the trouble first
  /\ left > 0 /\ left' = left - 1
  /\ pc[c] = "commit" /\ Do([op |-> "fault", i |-> Proc(c)])
  /\ Goes(c, "commitX") /\ UNCHANGED <<lk, seen, wrote, rec, msgs, sent, dead, over, tries, sh>>
Doubted(c) ==
  /\ pc[c] = "commitX" /\ Do(DbLine(c, Variant # "parts", Variant # "outside"))
  /\ wrote' = [wrote EXCEPT ![c] = FALSE] /\ rec' = [rec EXCEPT ![c] = FALSE]
  /\ Goes(c, IF Variant = "withdraw" THEN "back" ELSE "unlockF")
  /\ UNCHANGED <<lk, seen, msgs, sent, dead, over, tries, left, sh>>
Dies(c) ==
  /\ left > 0 /\ left' = left - 1
  /\ pc[c] \notin {"new", "done"} /\ Proc(c) \notin dead
  /\ Do([op |-> "crash", i |-> Proc(c)])
  /\ dead' = dead \cup {Proc(c)} /\ Goes(c, "done")
  /\ lk' = (IF lk = c THEN "" ELSE lk)      \* its lock expires
  /\ wrote' = [wrote EXCEPT ![c] = FALSE] /\ rec' = [rec EXCEPT ![c] = FALSE]
  /\ UNCHANGED <<seen, msgs, sent, over, tries, sh>>

(* The bus: the check-back of what was left prepared, and deliveries. *)
Stored(c) == Tx(c) \in evlog
CheckBack(c) ==
  /\ c \in msgs /\ pc[c] = "done" /\ Variant # "forget"
  /\ msgs' = msgs \ {c} /\ sent' = (IF Stored(c) \/ Variant = "believe" THEN sent \cup {Tx(c)} ELSE sent)
  /\ Nothing /\ UNCHANGED <<pc, lk, seen, wrote, rec, dead, over, tries, left, sh>>
Deliver(x) ==
  /\ x \in Pending
  /\ Do([op |-> "hs", i |-> "z", svc |-> "s", n |-> x])
  /\ IF bad' # "" THEN UNCHANGED <<sent, tries>> ELSE
     IF tries = 0 THEN sent' = (IF Variant = "once" THEN sent \ {x} ELSE sent) /\ tries' = 1    \* the first one fails
     ELSE UNCHANGED tries /\ sent' = (sent \ {x}) \cup {x \o "!"}
  /\ UNCHANGED <<pc, lk, seen, wrote, rec, msgs, dead, over, left, sh>>
Delivered(x) ==
  /\ x \o "!" \in sent /\ Do([op |-> "he", i |-> "z", svc |-> "s", n |-> x, r |-> "ok"])
  /\ sent' = sent \ {x \o "!"}
  /\ UNCHANGED <<pc, lk, seen, wrote, rec, msgs, dead, over, tries, left, sh>>
Names == {Ev(c) : c \in Cs} \cup {Tx(c) : c \in Cs}

Rest == (\A c \in Cs : pc[c] = "done") /\ sent = {} /\ (Variant # "forget" => msgs = {})
Finish ==
  /\ Rest /\ ~over /\ over' = TRUE
  /\ Do([op |-> "end", msgs |-> Cardinality(msgs), locks |-> IF lk = "" THEN <<>> ELSE <<lk>>])
  /\ UNCHANGED <<pc, lk, seen, wrote, rec, msgs, sent, dead, tries, left, sh>>

MCNext == bad = "" /\
  \/ \E c \in Cs : (Proc(c) \notin dead /\ Moves(c) /\ UNCHANGED <<dead, over, tries, left, sh>>)
  \/ \E c \in Cs : Fails(c) \/ Doubt(c) \/ Doubted(c) \/ Dies(c) \/ CheckBack(c)
  \/ \E x \in Names : Deliver(x) \/ Delivered(x)
  \/ Finish
MCSpec == MCInit /\ [][MCNext]_mcvars
Fine == bad = ""
=============================================================================
