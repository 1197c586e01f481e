----------------------------- MODULE ZanziTrace -----------------------------
(***************************************************************************)
(* Validation of recorded executions. The file named by TRACES holds       *)
(*   strs    characters of every expression and type text which occurs     *)
(*   traces  sequences of events: a request, its observed response resp,   *)
(*           j: judge the response ("all") or only follow it ("lax"),      *)
(*           fault: storage failed ("err") or the process ended ("crash")  *)
(*           during the request, its caller gave up ("cancel"), or ""      *)
(* S is the set of states the service may be in. A trace is refused at the *)
(* first event which none of them explains.                                *)
(***************************************************************************)
EXTENDS Zanzi, Json, IOUtils

Batch == JsonDeserialize(IOEnv.TRACES)
TheChars(s) == Batch.strs[s]

VARIABLES ti, l, S
vars == <<ti, l, S>>

Trace == Batch.traces[ti]
Ev == Trace[l]

Init == /\ ti \in DOMAIN Batch.traces
        /\ l = 1
        /\ S = {EmptyState}

Now == IF "now" \in DOMAIN Ev THEN Ev.now ELSE l

Explained ==
  CASE Ev.fault = ""      -> UNION { After(st, Ev, Now, Ev.resp) : st \in S }
    [] Ev.fault = "crash" -> UNION { FaultPosts(st, Ev, Now) : st \in S }
    [] Ev.fault = "cancel" /\ Ev.resp.r # "err" -> UNION { After(st, Ev, Now, Ev.resp) : st \in S }
    [] Ev.fault = "cancel" -> UNION { {st} \cup { x.post : x \in Outcomes(st, Ev, Now) } : st \in S }   \* all or nothing
    [] OTHER -> IF Ev.resp.r = "err" THEN UNION { FaultPosts(st, Ev, Now) : st \in S } ELSE {}

(* follow an event without judging it; only success or failure has to fit  *)
Followed ==
  UNION { { x.post : x \in { x \in Outcomes(st, Ev, Now) : x.resp.r = Ev.resp.r } } : st \in S }

Verdict(what) == PrintT(<<what, ti, l>>)

Next ==
  /\ l <= Len(Trace)
  /\ ti' = ti
  /\ l' = l + 1
  /\ S' = IF Ev.j = "lax" /\ Ev.fault = "" THEN Followed ELSE Explained
  /\ IF S' = {} THEN Verdict(IF Ev.j = "lax" THEN "FOREIGN" ELSE "REJECT")
     ELSE IF l = Len(Trace) THEN Verdict("ACCEPT") ELSE TRUE
  /\ S' # {}

Spec == Init /\ [][Next]_vars
=============================================================================
