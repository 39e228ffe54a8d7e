------------------------------ MODULE MCLease ------------------------------
(***************************************************************************)
(* Exhaustive exploration of how a lease lock may be used and interleaved: *)
(* processes that read, insert, take over, renew and delete the row (or    *)
(* set and delete the key) one statement at a time, while time passes,     *)
(* processes die and rows vanish.  Every step is offered to Lease with all *)
(* its guards; `bad` says that Lease refused one.  For every situation     *)
(* reached, a script of how to get there is printed; the driver replays it *)
(* on the real lock statement by statement.                                *)
(***************************************************************************)
EXTENDS Lease, Json, IOUtils
Profile == IOEnv.MC_PROFILE        \* lock, run, redis
Variant == IOEnv.MC_VARIANT        \* how the model locks: "" or a broken way
Depth   == CHOOSE d \in 0..60 : ToString(d) = IOEnv.MC_DEPTH

VARIABLES now, pc, loc, script, bad, holdr, n, drop
mcvars == <<vars, now, pc, loc, script, bad, holdr, n, drop>>

Redis == Profile = "redis"
Procs == IF Profile \in {"lock", "run", "late"} THEN {"p1", "p2"} ELSE {"p1", "p2", "p3"}
Unit == IF Profile \in {"lock", "lock3"} THEN 60 ELSE 50
TTL == IF Redis THEN 250 ELSE 100
RI == 50
K == "k"
Runs(p) == Profile \in {"run", "late"} /\ p = "p1"
Loc0 == [own |-> "", at |-> 0, h |-> "", c |-> 0, t |-> 0, next |-> 0, dead |-> 0, buf |-> FALSE, lost |-> FALSE, told |-> FALSE]

MCInit ==
  /\ Init
  /\ now = 0 /\ script = <<>> /\ bad = "" /\ n = 0 /\ drop = 0
  /\ pc = [p \in Procs |-> "idle"]
  /\ loc = [p \in Procs |-> Loc0]
  /\ holdr = {}                   \* who was told to hold: <<process, token, until>>

\* offers a record to the specification
Do(e) == IF ENABLED Step(e) THEN Step(e) /\ bad' = bad ELSE bad' = e.op /\ UNCHANGED vars
Say(s) == script' = Append(script, s) /\ n' = n + 1
Quiet == script' = script /\ n' = n
Go(p) == Say(<<"go", p>>)
Kv(p, own, at) == [op |-> "kv", i |-> p, c |-> loc[p].c, key |-> K, own |-> own, at |-> at, t |-> now]
RetRec(p, k, r, own, cx) == [op |-> "ret", i |-> p, k |-> k, c |-> loc[p].c, r |-> r, own |-> own, cx |-> cx, t |-> now]
CallRec(p, k, own, c) == [op |-> "call", i |-> p, k |-> k, c |-> c, key |-> K, own |-> own, late |-> 0, t |-> now]
Becomes(p, x) == pc' = [pc EXCEPT ![p] = x]
Tok(p) == p \o "." \o ToString(loc[p].c)
Urgent == \E p \in Procs : pc[p] \in {"retok", "retno", "retun", "rete", "start", "runend", "cx"}
Cur == IF K \in DOMAIN row THEN row[K] ELSE [own |-> "", at |-> 0]
Other(p) == {q \in Procs : q # p}

Start ==
  /\ conf.kind = ""
  /\ Do([op |-> "cfg", kind |-> IF Redis THEN "redis" ELSE "db", ttl |-> TTL, ri |-> RI, retry |-> Redis, slack |-> IF Redis \/ Profile = "late" THEN 100 ELSE 0,
         least |-> IF Redis THEN TTL ELSE 0, most |-> 4000, t |-> now])
  /\ UNCHANGED <<now, pc, loc, script, holdr, n, drop>>

(************************* calls begin *************************************)
LockCall(p) ==
  /\ pc[p] = "idle" /\ ~Runs(p)
  /\ LET c == n + 1 IN
     /\ Do(CallRec(p, "lock", "?", c))
     /\ loc' = [loc EXCEPT ![p] = [Loc0 EXCEPT !.c = c, !.h = "h" \o ToString(c), !.t = now, !.next = now, !.dead = now + TTL]]
     /\ Say(<<"lock", p, "h" \o ToString(c), K>>)
     /\ Becomes(p, IF Redis THEN "try" ELSE "read")
  /\ UNCHANGED <<now, holdr, drop>>
RunCall(p) ==
  /\ pc[p] = "idle" /\ Runs(p)
  /\ LET c == n + 1 IN
     /\ Do(CallRec(p, "run", "?", c))
     /\ loc' = [loc EXCEPT ![p] = [Loc0 EXCEPT !.c = c, !.h = "h" \o ToString(c), !.t = now]]
     /\ Say(<<"run", p, "h" \o ToString(c), K, 0, "hand">>)
     /\ Becomes(p, "read")
  /\ UNCHANGED <<now, holdr, drop>>
UnlockCall(p) ==
  /\ pc[p] = "hold"
  /\ LET c == n + 1 IN
     /\ Do(CallRec(p, "unlock", loc[p].own, c))
     /\ loc' = [loc EXCEPT ![p].c = c]
     /\ Say(<<"unlock", p, loc[p].h>>)
     /\ holdr' = {x \in holdr : x[1] # p}
     /\ Becomes(p, "del")
  /\ UNCHANGED <<now, drop>>

(************************* statements of the database lock *****************)
Read(p) ==
  /\ pc[p] = "read"
  /\ LET live == Cur.own # "" /\ Cur.at + TTL > now IN
     Becomes(p, IF live THEN "retno" ELSE IF Cur.own = "" THEN "ins" ELSE "cas")
  /\ loc' = [loc EXCEPT ![p].own = Cur.own, ![p].at = Cur.at]
  /\ Go(p)
  /\ UNCHANGED <<vars, now, bad, holdr, drop>>
Insert(p) ==
  /\ pc[p] = "ins"
  /\ IF Cur.own = "" \/ Variant = "replace"
     THEN Do(Kv(p, Tok(p), now)) /\ Becomes(p, "retok") /\ loc' = [loc EXCEPT ![p].own = Tok(p)]
     ELSE UNCHANGED <<vars, bad, loc>> /\ Becomes(p, "retno")
  /\ Go(p)
  /\ UNCHANGED <<now, holdr, drop>>
Cas(p) ==
  /\ pc[p] = "cas"
  /\ IF (Cur.own = loc[p].own /\ (Cur.at = loc[p].at \/ Variant = "stale")) \/ (Variant = "nocas" /\ Cur.own # "")
     THEN Do(Kv(p, Tok(p), now)) /\ Becomes(p, "retok") /\ loc' = [loc EXCEPT ![p].own = Tok(p)]
     ELSE UNCHANGED <<vars, bad, loc>> /\ Becomes(p, "retno")
  /\ Go(p)
  /\ UNCHANGED <<now, holdr, drop>>
Delete(p) ==
  /\ pc[p] = "del"
  /\ IF Cur.own = loc[p].own \/ (Variant = "anyone" /\ Cur.own # "")
     THEN Do(Kv(p, "", 0)) /\ Becomes(p, IF Runs(p) THEN "runend" ELSE "retun")
     ELSE UNCHANGED <<vars, bad>> /\ Becomes(p, IF Runs(p) THEN "runend" ELSE "rete")
  /\ Go(p)
  /\ UNCHANGED <<now, loc, holdr, drop>>
Renew(p) ==
  /\ pc[p] = "renew"
  /\ IF Cur.own = loc[p].own
     THEN Do(Kv(p, Cur.own, now)) /\ Becomes(p, IF loc[p].buf THEN "renew" ELSE "work") /\ loc' = [loc EXCEPT ![p].buf = FALSE]
          /\ holdr' = {x \in holdr : x[1] # p} \cup {<<p, loc[p].own, now + TTL>>}
     ELSE UNCHANGED <<vars, bad>> /\ Becomes(p, IF Variant = "deaf" THEN "work" ELSE "cx") /\ UNCHANGED loc /\ holdr' = {x \in holdr : x[1] # p}
  /\ Go(p)
  /\ UNCHANGED <<now, drop>>
\* a renewal still under way when the work ends comes to nothing
Abort(p) ==
  /\ pc[p] = "abort"
  /\ Becomes(p, "del") /\ Go(p)
  /\ UNCHANGED <<vars, now, loc, bad, holdr, drop>>

(************************* the Redis server ********************************)
Gone == IF Redis /\ K \in DOMAIN row /\ row[K].at + TTL <= now THEN TRUE ELSE FALSE
Vanish ==
  /\ Gone
  /\ Do([op |-> "gone", key |-> K, t |-> now])
  /\ Quiet /\ UNCHANGED <<now, pc, loc, holdr, drop>>
SetNX(p) ==
  /\ pc[p] = "try" /\ loc[p].next <= now
  /\ IF Cur.own = ""
     THEN Do(Kv(p, Tok(p), now)) /\ Becomes(p, "retok") /\ loc' = [loc EXCEPT ![p].own = Tok(p)]
     ELSE UNCHANGED <<vars, bad>> /\ Becomes(p, IF now >= loc[p].dead THEN "retno" ELSE "try") /\ loc' = [loc EXCEPT ![p].next = now + 100]
  /\ Go(p)
  /\ UNCHANGED <<now, holdr, drop>>
DeadlineOver(p) ==
  /\ pc[p] = "try" /\ loc[p].next > now /\ loc[p].dead <= now
  /\ Becomes(p, "retno")
  /\ Quiet
  /\ UNCHANGED <<vars, now, loc, bad, holdr, drop>>

(************************* calls end ***************************************)
Returns(p) ==
  /\ pc[p] \in {"retok", "retno", "retun", "rete"}
  /\ CASE pc[p] = "retok" /\ ~Runs(p) -> Do(RetRec(p, "lock", "ok", loc[p].own, FALSE)) /\ Becomes(p, "hold") /\ holdr' = holdr \cup {<<p, loc[p].own, now + TTL>>}
       [] pc[p] = "retok" /\ Runs(p)  -> Do([op |-> "ws", i |-> p, c |-> loc[p].c, t |-> now]) /\ Becomes(p, "work") /\ holdr' = holdr \cup {<<p, loc[p].own, now + TTL>>}
       [] pc[p] = "retno" -> Do(RetRec(p, IF Runs(p) THEN "run" ELSE "lock", "locked", "", FALSE)) /\ Becomes(p, "idle") /\ UNCHANGED holdr
       [] pc[p] = "retun" -> Do(RetRec(p, "unlock", "ok", "", FALSE)) /\ Becomes(p, "idle") /\ UNCHANGED holdr
       [] pc[p] = "rete"  -> Do(RetRec(p, "unlock", "err", "", FALSE)) /\ Becomes(p, "idle") /\ UNCHANGED holdr
  /\ loc' = [loc EXCEPT ![p].next = now + RI]
  /\ Quiet /\ UNCHANGED <<now, drop>>
Told(p) ==
  /\ pc[p] = "cx"
  /\ Do([op |-> "cx", i |-> p, c |-> loc[p].c, t |-> now])
  /\ loc' = [loc EXCEPT ![p].told = TRUE]
  /\ Becomes(p, "work") /\ Quiet
  /\ UNCHANGED <<now, holdr, drop>>
WorkDone(p) ==
  /\ pc[p] \in {"work", "renew"}
  /\ Do([op |-> "we", i |-> p, c |-> loc[p].c, t |-> now])
  /\ Becomes(p, IF pc[p] = "renew" THEN "abort" ELSE "del")
  /\ holdr' = {x \in holdr : x[1] # p}
  /\ Say(<<"done", p, loc[p].h>>)
  /\ UNCHANGED <<now, loc, drop>>
RunReturns(p) ==
  /\ pc[p] = "runend"
  /\ Do(RetRec(p, "run", "ok", "", TRUE))
  /\ Becomes(p, "idle") /\ Quiet
  /\ UNCHANGED <<now, loc, holdr, drop>>

(************************* the world ***************************************)
Late == Profile # "late" /\ \E p \in Procs : pc[p] = "renew" /\ loc[p].buf   \* time does not run away from a renewal under way
Wait ==
  /\ ~Late /\ now < 8 * Unit
  /\ now' = now + Unit
  /\ LET due == {p \in Procs : pc[p] \in {"work", "renew"} /\ loc[p].next <= now + Unit /\ ~loc[p].told} IN
     /\ pc' = [p \in Procs |-> IF p \in due THEN "renew" ELSE pc[p]]
     /\ loc' = [p \in Procs |-> LET l == [loc[p] EXCEPT !.lost = (pc[p] = "renew" /\ Cur.own # loc[p].own)] IN
                          IF p \in due THEN [l EXCEPT !.next = @ + RI, !.buf = (pc[p] = "renew")] ELSE l]
  /\ Do([op |-> "tick", t |-> now + Unit])
  /\ Say(<<"wait", Unit>>)
  /\ UNCHANGED <<holdr, drop>>
\* (in profile late the holder of the lock may stand still for longer: its lock may be taken over, or saved in the last moment)
\* a renewal must not be delayed for longer than the time-to-live leaves room for
Prompt == \A p \in Procs : pc[p] = "renew" =>
            IF Cur.own = loc[p].own THEN Cur.at + TTL + (IF Profile = "late" THEN Unit ELSE 0) > now + Unit ELSE Profile = "late" /\ ~loc[p].lost
Steal ==
  /\ drop < 1 /\ Cur.own # "" /\ drop' = drop + 1
  /\ Do([op |-> "kv", i |-> "operator", c |-> 0, key |-> K, own |-> "", at |-> 0, t |-> now])
  /\ holdr' = {x \in holdr : x[2] # Cur.own}
  /\ Say(<<"steal", K>>)
  /\ UNCHANGED <<now, pc, loc>>
Die(p) ==
  /\ drop < 1 /\ pc[p] # "idle" /\ pc[p] # "dead" /\ drop' = drop + 1
  /\ Do([op |-> "crash", i |-> p, t |-> now])
  /\ Becomes(p, "dead") /\ Say(<<"crash", p>>)
  /\ holdr' = {x \in holdr : x[1] # p}
  /\ UNCHANGED <<now, loc>>

MCNext ==
  /\ bad = ""
  /\ IF conf.kind = "" THEN Start
     ELSE IF Gone THEN Vanish
     ELSE IF \E p \in Procs : ENABLED Returns(p) \/ ENABLED Told(p) \/ ENABLED RunReturns(p) \/ ENABLED DeadlineOver(p)
          THEN \E p \in Procs : Returns(p) \/ Told(p) \/ RunReturns(p) \/ DeadlineOver(p)
     ELSE /\ n < Depth
          /\ \/ \E p \in Procs : \/ LockCall(p) \/ RunCall(p) \/ UnlockCall(p)
                                 \/ Read(p) \/ Insert(p) \/ Cas(p) \/ Delete(p) \/ Renew(p) \/ Abort(p) \/ SetNX(p)
                                 \/ WorkDone(p) \/ Die(p)
             \/ (Wait /\ Prompt)
             \/ Steal
MCSpec == MCInit /\ [][MCNext]_mcvars

\* nothing the specification refuses ever happens, and nobody shares what it was told to hold
Accepted2 == bad = ""
Exclusive == \A a, b \in holdr : a[3] > now /\ b[3] > now => a = b
Last == IF script = <<>> THEN <<"">> ELSE script[Len(script)]
View == <<conf.kind, row, [p \in Procs |-> <<pc[p], loc[p].own, loc[p].at, loc[p].next, loc[p].dead, loc[p].buf, loc[p].told, loc[p].lost>>], now, holdr, drop, bad, DOMAIN calls, Last[1]>>
Emit == (n > 0 /\ ~Urgent /\ n >= Depth - 3) => PrintT("SC " \o ToJson([profile |-> Profile, steps |-> script]))
=============================================================================
