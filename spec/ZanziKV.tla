------------------------------ MODULE ZanziKV -------------------------------
(***************************************************************************)
(* How requests are carried out on a key-value store, one operation of the *)
(* store per step, by several clients, with operations which fail and a    *)
(* process which ends at any moment. A relationship has three keys:        *)
(*   fwd   from its object to its subject, followed by checks              *)
(*   back  from its subject to its object, followed by lists and dumps     *)
(*   data  its application data                                            *)
(* Checked: this refines Zanzi. Requests which return have one of the      *)
(* Outcomes of Zanzi in the state they leave, requests which fail or never *)
(* return leave one of the FaultPosts.                                     *)
(***************************************************************************)
EXTENDS Zanzi

CONSTANTS Locked,       \* requests which change something exclude all others
          SafeOrder,    \* back is written before and removed after fwd
          PolicyLast,   \* a policy is removed after its relationships
          Clients, Calls, Faults

TheChars(s) == <<[c |-> "_", k |-> "id"], [c |-> "t", k |-> "id"], [c |-> "h", k |-> "id"],
                 [c |-> "i", k |-> "id"], [c |-> "s", k |-> "id"]>>

----------------------------------------------------------------------------
(* A small universe                                                        *)
Rel(n) == [name |-> n, desc |-> "", expr |-> [f |-> "text", s |-> "_this"], restr |-> [f |-> "universal"]]
Pol(id) == [id |-> id, name |-> "", desc |-> "", attrs |-> <<>>,
            resources |-> <<[name |-> "u", desc |-> "", relations |-> <<>>],
                            [name |-> "d", desc |-> "", relations |-> <<Rel("a"), Rel("b")>>]>>]
A == <<"s", "d", "1", "a">>
B == <<"s", "d", "1", "b">>
U == <<"e", "u", "x">>
AnySel == [o |-> <<"any">>, r |-> <<"any">>, s |-> <<"any">>]

Requests ==
  { [op |-> "CreatePolicy", def |-> [f |-> "struct", p |-> Pol("p")], app |-> "1"],
    [op |-> "DeletePolicy", id |-> "p"],
    [op |-> "SetRelationship", pid |-> "p", o |-> A, s |-> B, app |-> "2"],
    [op |-> "SetRelationship", pid |-> "p", o |-> B, s |-> U, app |-> "3"],
    [op |-> "DeleteRelationship", pid |-> "p", o |-> A, s |-> B],
    [op |-> "DeleteRelationships", pid |-> "p", sel |-> AnySel],
    [op |-> "FindRelationships", pid |-> "p", sel |-> AnySel],
    [op |-> "Check", pid |-> "p", o |-> A, u |-> U] }

Writer(q) == q.op \notin {"FindRelationships", "Check"}
PidOf(q) == IF q.op = "CreatePolicy" THEN q.def.p.id ELSE IF q.op = "DeletePolicy" THEN q.id ELSE q.pid

----------------------------------------------------------------------------
VARIABLES pol, fwd, back, data,   \* the store
          run,                    \* client -> [st, q, pc, todo, seen, n, begin]
          abs,                    \* the state of Zanzi
          left,                   \* calls and faults which may still happen
          wrong                   \* what Zanzi does not allow, or ""
vars == <<pol, fwd, back, data, run, abs, left, wrong>>

Abs(P, F, K, D) ==
  [pol |-> P, rel |-> [k \in F |-> D[k]], half |-> [k \in (K \ F) \cap DOMAIN D |-> D[k]]]
Now == Abs(pol, fwd, back, data)

Idle == [st |-> "idle"]

Init == /\ pol = NoFun /\ fwd = {} /\ back = {} /\ data = NoFun
        /\ run = [c \in Clients |-> Idle]
        /\ abs = EmptyState
        /\ left = [calls |-> Calls, faults |-> Faults]
        /\ wrong = ""

(* clients which hold the lock                                             *)
Holders == { c \in Clients : run[c].st = "run" }
MayEnter(q) ==
  \/ ~Locked
  \/ Holders = {}
  \/ ~Writer(q) /\ \A c \in Holders : ~Writer(run[c].q)

Call(c) ==
  /\ run[c].st = "idle" /\ left.calls > 0
  /\ \E q \in Requests : run' = [run EXCEPT ![c] = [st |-> "wait", q |-> q]]
  /\ left' = [left EXCEPT !.calls = @ - 1]
  /\ UNCHANGED <<pol, fwd, back, data, abs, wrong>>

Enter(c) ==
  /\ run[c].st = "wait" /\ MayEnter(run[c].q)
  /\ run' = [run EXCEPT ![c] = [st |-> "run", q |-> @.q, pc |-> "begin", todo |-> {}, cur |-> <<>>, seen |-> {}, n |-> 0,
                                found |-> FALSE, begin |-> abs]]
  /\ UNCHANGED <<pol, fwd, back, data, abs, left, wrong>>

Go(c, upd) == run' = [run EXCEPT ![c] = upd]
Same == UNCHANGED <<pol, fwd, back, data>>
Quiet == UNCHANGED <<abs, left, wrong>>

(* the request of c returns resp: is that an outcome in the present state? *)
Return(c, resp) ==
  /\ run' = [run EXCEPT ![c] = Idle]
  /\ left' = left
  /\ LET q == run[c].q
         out == { x \in Outcomes(abs, q, 0) : Match(abs, q, x.resp, resp) }
     IN  /\ wrong' = IF \E x \in out : x.post = Now THEN wrong ELSE "returned"
         /\ abs' = Now
  /\ Same

Key(c, q) == <<q.pid, q.o, q.s>>

(* one operation of the store                                              *)
Step(c) ==
  LET r == run[c]
      q == r.q
      pid == PidOf(q)
      To(pc) == [r EXCEPT !.pc = pc]
  IN
  /\ r.st = "run"
  /\ CASE r.pc = "begin" /\ q.op \in {"DeleteRelationship"} ->
            /\ Go(c, [r EXCEPT !.pc = "drop1", !.cur = Key(c, q), !.found = Key(c, q) \in fwd]) /\ Same /\ Quiet
       [] r.pc = "begin" /\ q.op = "DeleteRelationships" ->
            /\ Go(c, [r EXCEPT !.pc = "pick", !.todo = { k \in back : k[1] = pid /\ Selects(q.sel, k[2], k[3]) }]) /\ Same /\ Quiet
       [] r.pc = "begin" /\ q.op \notin {"DeleteRelationship", "DeleteRelationships"} ->      \* get the policy
            LET live == pid \in DOMAIN pol IN
           (CASE q.op = "CreatePolicy" -> IF live THEN Return(c, Err) ELSE Go(c, To("put")) /\ Same /\ Quiet
              [] q.op = "DeletePolicy" -> IF ~live THEN Return(c, [r |-> "ok", found |-> FALSE, n |-> 0])
                                          ELSE (IF PolicyLast THEN Go(c, To("list")) ELSE Go(c, To("remove"))) /\ Same /\ Quiet
              [] ~live -> Return(c, Err)
              [] q.op = "SetRelationship" -> Go(c, To("has")) /\ Same /\ Quiet
              [] q.op = "FindRelationships" -> Go(c, To("scan")) /\ Same /\ Quiet
              [] q.op = "Check" -> Go(c, [r EXCEPT !.pc = "walk", !.todo = {q.o}]) /\ Same /\ Quiet)
       [] r.pc = "put" ->
            /\ pol' = With(pol, pid, NewPolicy(q.def.p, q.app, 0))
            /\ Go(c, To("made")) /\ UNCHANGED <<fwd, back, data>> /\ Quiet
       [] r.pc = "made" -> Return(c, [r |-> "ok", rec |-> PolicyRec(NewPolicy(q.def.p, q.app, 0))])
       [] r.pc = "list" ->
            /\ Go(c, [r EXCEPT !.pc = "pick", !.todo = { k \in back : k[1] = pid }]) /\ Same /\ Quiet
       [] r.pc = "pick" /\ r.todo # {} ->       \* is it there?
            LET k == CHOOSE k \in r.todo : TRUE IN
            /\ Go(c, [r EXCEPT !.pc = "drop1", !.cur = k, !.todo = @ \ {k}, !.n = @ + 1]) /\ Same /\ Quiet
       [] r.pc = "pick" /\ r.todo = {} ->
            IF q.op = "DeletePolicy"
            THEN IF PolicyLast THEN Go(c, To("remove")) /\ Same /\ Quiet ELSE Return(c, [r |-> "ok", found |-> TRUE, n |-> r.n])
            ELSE Return(c, [r |-> "ok", n |-> r.n])
       [] r.pc = "drop1" ->
            /\ IF SafeOrder THEN fwd' = fwd \ {r.cur} /\ back' = back ELSE back' = back \ {r.cur} /\ fwd' = fwd
            /\ Go(c, To("drop2")) /\ UNCHANGED <<pol, data>> /\ Quiet
       [] r.pc = "drop2" ->
            /\ IF SafeOrder THEN back' = back \ {r.cur} /\ fwd' = fwd ELSE fwd' = fwd \ {r.cur} /\ back' = back
            /\ Go(c, To("drop3")) /\ UNCHANGED <<pol, data>> /\ Quiet
       [] r.pc = "drop3" ->
            /\ data' = Without(data, {r.cur})
            /\ Go(c, To(IF q.op = "DeleteRelationship" THEN "dropped" ELSE "pick")) /\ UNCHANGED <<pol, fwd, back>> /\ Quiet
       [] r.pc = "dropped" -> Return(c, [r |-> "ok", found |-> r.found])
       [] r.pc = "remove" ->
            /\ pol' = Without(pol, {pid})
            /\ Go(c, To(IF PolicyLast THEN "removed" ELSE "list")) /\ UNCHANGED <<fwd, back, data>> /\ Quiet
       [] r.pc = "removed" -> Return(c, [r |-> "ok", found |-> TRUE, n |-> r.n])
       [] r.pc = "has" -> Go(c, [r EXCEPT !.pc = "set1", !.found = Key(c, q) \in fwd]) /\ Same /\ Quiet
       [] r.pc = "set1" ->
            /\ data' = With(data, Key(c, q), [app |-> q.app, at |-> 0])
            /\ Go(c, To("set2")) /\ UNCHANGED <<pol, fwd, back>> /\ Quiet
       [] r.pc = "set2" ->
            /\ IF SafeOrder THEN back' = back \cup {Key(c, q)} /\ fwd' = fwd ELSE fwd' = fwd \cup {Key(c, q)} /\ back' = back
            /\ Go(c, To("set3")) /\ UNCHANGED <<pol, data>> /\ Quiet
       [] r.pc = "set3" ->
            /\ IF SafeOrder THEN fwd' = fwd \cup {Key(c, q)} /\ back' = back ELSE back' = back \cup {Key(c, q)} /\ fwd' = fwd
            /\ Go(c, To("set4")) /\ UNCHANGED <<pol, data>> /\ Quiet
       [] r.pc = "set4" -> Return(c, [r |-> "ok", over |-> r.found])
       [] r.pc = "scan" ->
            /\ Go(c, [r EXCEPT !.pc = "load", !.todo = { k \in back : k[1] = pid }]) /\ Same /\ Quiet
       [] r.pc = "load" /\ r.todo # {} ->
            LET k == CHOOSE k \in r.todo : TRUE IN
            /\ Go(c, [r EXCEPT !.todo = @ \ {k}, !.seen = @ \cup (IF k \in DOMAIN data THEN {Rec(data, k)} ELSE {})]) /\ Same /\ Quiet
       [] r.pc = "load" /\ r.todo = {} -> Return(c, [r |-> "ok", recs |-> SetToSeq(r.seen)])
       [] r.pc = "walk" /\ q.u \notin r.seen /\ r.todo # {} ->      \* successors of one node at a time
            LET n == CHOOSE n \in r.todo : TRUE
                new == { k[3] : k \in { k \in fwd : k[1] = pid /\ k[2] = n } }
            IN  /\ Go(c, [r EXCEPT !.seen = @ \cup {n} \cup new, !.todo = (@ \cup { m \in new : m[1] = "s" /\ m \notin r.seen }) \ {n}])
                /\ Same /\ Quiet
       [] r.pc = "walk" /\ (q.u \in r.seen \/ r.todo = {}) -> Return(c, [r |-> "ok", auth |-> (q.u \in r.seen)])

Spend == left.faults > 0 /\ left' = [left EXCEPT !.faults = @ - 1]

(* an operation of the store fails: the request returns an error           *)
StepFails(c) ==
  /\ Spend
  /\ run[c].st = "run" /\ run[c].pc \notin {"made", "dropped", "removed", "set4"}
  /\ run' = [run EXCEPT ![c] = Idle]
  /\ wrong' = IF Now \in FaultPosts(abs, run[c].q, 0) THEN wrong ELSE "failed"
  /\ abs' = Now
  /\ Same

(* the process ends: what was under way took effect, or not, or half       *)
Busy == { c \in Clients : run[c].st = "run" /\ Writer(run[c].q) }
Crash ==
  /\ Spend
  /\ Cardinality(Busy) <= 1 \/ ~Locked
  /\ run' = [c \in Clients |-> Idle]
  /\ wrong' = IF Now = abs \/ \E c \in Busy : Now \in FaultPosts(abs, run[c].q, 0) THEN wrong ELSE "crashed"
  /\ abs' = Now
  /\ Same

Next == Crash \/ \E c \in Clients : Call(c) \/ Enter(c) \/ Step(c) \/ StepFails(c)

Spec == Init /\ [][Next]_vars /\ \A c \in Clients : WF_vars(Enter(c) \/ Step(c))

----------------------------------------------------------------------------
(* Every behaviour is one of Zanzi                                         *)
Refines == wrong = ""

(* what grants access is listed, and has data                              *)
Listed == fwd \subseteq back /\ back \subseteq DOMAIN data

(* relationships belong to live policies                                   *)
Owned == \A k \in fwd \cup back : k[1] \in DOMAIN pol

(* between requests the store is what Zanzi says                           *)
Settled == Busy = {} => Now = abs

(* no request waits forever                                                *)
Answered == \A c \in Clients : (run[c].st = "wait") ~> (run[c].st # "wait")
=============================================================================
