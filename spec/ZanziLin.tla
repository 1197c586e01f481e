------------------------------ MODULE ZanziLin ------------------------------
(***************************************************************************)
(* Linearizability of recorded concurrent executions. A trace is a         *)
(* sequence of                                                             *)
(*   [k |-> "call", c, q, resp]  client c sends q, and will receive resp   *)
(*   [k |-> "ret", c]            client c receives the response            *)
(*   [k |-> "hang", c]           the requests under way never return       *)
(* C is the set of pairs of a state which some order of the requests sent  *)
(* so far leads to, and the clients whose request already took effect in   *)
(* it. Requests take effect atomically between call and return.            *)
(***************************************************************************)
EXTENDS Zanzi, Json, IOUtils

Batch == JsonDeserialize(IOEnv.TRACES)
TheChars(s) == Batch.strs[s]

VARIABLES ti, l, C, pending      \* pending: client -> its call
vars == <<ti, l, C, pending>>

Trace == Batch.traces[ti]
Ev == Trace[l]

Init == /\ ti \in DOMAIN Batch.traces
        /\ l = 1
        /\ C = {[st |-> EmptyState, done |-> {}]}
        /\ pending = NoFun

(* all configurations reached by letting pending requests take effect      *)
RECURSIVE Closure(_, _)
Closure(seen, front) ==
  LET new == UNION { UNION { { [st |-> p, done |-> x.done \cup {c}]
                               : p \in After(x.st, pending[c].q, 0, pending[c].resp) }
                             : c \in DOMAIN pending \ x.done } : x \in front } \ seen
  IN  IF new = {} THEN seen ELSE Closure(seen \cup new, new)

Verdict(what) == PrintT(<<what, ti, l>>)

Next ==
  /\ l <= Len(Trace)
  /\ ti' = ti
  /\ l' = l + 1
  /\ CASE Ev.k = "call" -> /\ pending' = With(pending, Ev.c, Ev)
                           /\ C' = C
       [] Ev.k = "ret"  -> /\ C' = { [x EXCEPT !.done = @ \ {Ev.c}] : x \in { x \in Closure(C, C) : Ev.c \in x.done } }
                           /\ pending' = Without(pending, {Ev.c})
       [] OTHER         -> /\ C' = {}
                           /\ pending' = pending
  /\ IF C' = {} THEN Verdict("REJECT")
     ELSE IF l = Len(Trace) THEN Verdict("ACCEPT") ELSE TRUE
  /\ C' # {}

Spec == Init /\ [][Next]_vars
=============================================================================
