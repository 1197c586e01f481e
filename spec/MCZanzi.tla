------------------------------ MODULE MCZanzi -------------------------------
(***************************************************************************)
(* Exhaustive exploration of the service over a finite universe of         *)
(* requests, read from the file named by REQS: muts and reads are          *)
(* sequences of requests, strs the characters of the texts in them.        *)
(*                                                                         *)
(* Every distinct state is printed with a shortest sequence of requests    *)
(* leading to it, from which the conformance tests are made: one execution *)
(* of the real code per state and request.                                 *)
(***************************************************************************)
EXTENDS Zanzi, Json, IOUtils

Input == JsonDeserialize(IOEnv.REQS)
TheChars(s) == Input.strs[s]
Muts  == Range1(Input.muts)
Reads == Range1(Input.reads)

VARIABLES st, path

Init == st = EmptyState /\ path = <<>>

Next == /\ Len(path) < Input.depth
        /\ \E i \in DOMAIN Input.muts :
          \E x \in Outcomes(st, Input.muts[i], 0) :
            /\ st' = x.post
            /\ path' = Append(path, i)

Spec == Init /\ [][Next]_<<st, path>>

StateView == st

Emit == PrintT(<<"PATH", path>>)

----------------------------------------------------------------------------
(* The policies a request is about                                         *)
Targets(q) ==
  CASE q.op \in {"CreatePolicy", "UpdatePolicy"} -> IF DefOK(q.def) THEN {DefPolicy(q.def).id} ELSE {}
    [] q.op \in {"DeletePolicy", "GetPolicy"} -> {q.id}
    [] q.op = "ListPolicyIds" -> {}
    [] OTHER -> {q.pid}

PartOf(s, pid) ==
  [pol  |-> IF pid \in DOMAIN s.pol THEN <<s.pol[pid]>> ELSE <<>>,
   rel  |-> [k \in KeysOf(s.rel, pid) |-> s.rel[k]],
   half |-> [k \in KeysOf(s.half, pid) |-> s.half[k]]]

Pids(s) == DOMAIN s.pol \cup { k[1] : k \in DOMAIN s.rel } \cup { k[1] : k \in DOMAIN s.half }

SameOutside(s, t, T) == \A pid \in (Pids(s) \cup Pids(t)) \ T : PartOf(s, pid) = PartOf(t, pid)

(* every request has an outcome                                            *)
Total == \A q \in Muts \cup Reads : Outcomes(st, q, 0) # {}

(* C03 *)
Isolation == \A q \in Muts : \A x \in Outcomes(st, q, 0) : SameOutside(st, x.post, Targets(q))

(* C04: reads change nothing; C16: neither do refused requests             *)
ReadsPure  == \A q \in Reads : \A x \in Outcomes(st, q, 0) : x.post = st
ErrorsPure == \A q \in Muts : \A x \in Outcomes(st, q, 0) : x.resp.r = "err" => x.post = st

(* C05: what is added is admitted by the policy stored at that moment      *)
AdmittedOnly ==
  \A q \in Muts : \A x \in Outcomes(st, q, 0) :
    \A k \in DOMAIN x.post.rel \ DOMAIN st.rel :
      k[1] \in DOMAIN st.pol /\ Admissible(st.pol[k[1]].c, k[2], k[3])

(* C06: only well formed policies are stored                               *)
StoredWellFormed == \A pid \in DOMAIN st.pol : WellFormed(st.pol[pid].p) /\ st.pol[pid].p.id = pid

(* C07: relationships belong to live policies                              *)
NoOrphans == \A k \in DOMAIN st.rel \cup DOMAIN st.half : k[1] \in DOMAIN st.pol

(* C07: an update keeps the relationships                                  *)
UpdatesKeep == \A q \in Muts : q.op = "UpdatePolicy" => \A x \in Outcomes(st, q, 0) : x.post.rel = st.rel

(* C08: deleting by selector removes what finding by it lists              *)
DeletesWhatItFinds ==
  \A q \in Muts : q.op = "DeleteRelationships" =>
    \A x \in Outcomes(st, q, 0) : x.resp.r = "ok" =>
      LET gone == DOMAIN st.rel \ DOMAIN x.post.rel IN
      /\ x.resp.n = Cardinality(gone)
      /\ gone = Matching(st.rel, q.pid, q.sel)

(* C01, C02: there is always an answer, and where no subtraction takes part *)
(* more relationships never revoke                                         *)
RECURSIVE Positive(_)
Positive(t) == t.k # "op" \/ (t.op # "-" /\ Positive(t.l) /\ Positive(t.r))
Monotone ==
  \A q \in Muts : q.op = "SetRelationship" /\ IsLive(st, q.pid) =>
    \A x \in Outcomes(st, q, 0) : x.resp.r = "ok" =>
      LET c == st.pol[q.pid].c IN
      (\A k \in DOMAIN c.rel : Positive(c.rel[k].tree)) =>
        \A rd \in { rd \in Reads : rd.op = "Check" /\ rd.pid = q.pid } :
          AnswersOf(st, q.pid, rd.o, rd.u) = {"t"} => "t" \in AnswersOf(x.post, q.pid, rd.o, rd.u)

(* ... and it is membership in the least set closed under the rules        *)
ClosedSet(G, hits, M) == hits \subseteq M /\ \A n \in DOMAIN G : HoldsIn(G[n], M, M) => n \in M
LeastFixedPoint ==
  \A pid \in DOMAIN st.pol :
    LET c == st.pol[pid].c
        g == Graph(st, pid)
    IN (\A k \in DOMAIN c.rel : Positive(c.rel[k].tree)) =>
       \A rd \in { rd \in Reads : rd.op = "Check" /\ rd.pid = pid /\ DefinedNode(c, rd.o) } :
         LET N == Reach(c, g, {rd.o})
             G == GraphOver(c, g, N)
             h == Hits(N, rd.u)
             closed == { M \in SUBSET N : ClosedSet(G, h, M) }
             least == { n \in N : \A M \in closed : n \in M }
         IN (Cardinality(N) <= 7 /\ ~\E n \in N : UndefinedNode(c, n)) =>
              AnswersOf(st, pid, rd.o, rd.u) = { IF rd.o \in least THEN "t" ELSE "f" }

(* C14: a failed request concerns nothing else, grants nothing which it    *)
(* was not asked to grant, and repeating it brings what it promised        *)
FaultsContained ==
  \A q \in Muts : \A f \in FaultPosts(st, q, 0) :
    /\ SameOutside(st, f, Targets(q))
    /\ DOMAIN f.rel \subseteq DOMAIN st.rel
         \cup (IF q.op = "SetRelationship" THEN {<<q.pid, q.o, q.s>>} ELSE {})
    /\ \A k \in DOMAIN f.rel \cup DOMAIN f.half : k[1] \in DOMAIN f.pol
RetryHeals ==
  \A q \in Muts : \A x \in Outcomes(st, q, 0) :
    x.resp.r = "ok" => \A f \in FaultPosts(st, q, 0) : \E y \in Outcomes(f, q, 0) : y.post = x.post
=============================================================================
