------------------------------- MODULE Zanzi --------------------------------
(***************************************************************************)
(* The service as a state machine: one atomic step per request.            *)
(*                                                                         *)
(* State [pol, rel, half]                                                  *)
(*   pol   policy id -> [p, c, app, at]  the stored definition, its        *)
(*         compiled form, application data and the step which created it   *)
(*   rel   <<policy id, object, subject>> -> [app, at]                     *)
(*   half  the same for relationships which a request that storage failed  *)
(*         left behind: they grant nothing and may still be listed         *)
(*                                                                         *)
(* Outcomes(st, q, now) is the set of outcomes [resp, post] which request  *)
(* q may have in st. Explanations, expansions and dumps are documents: the *)
(* outcome names what they have to show and Match decides whether an       *)
(* observed document shows it.                                             *)
(***************************************************************************)
EXTENDS ZanziCore

NoFun == [x \in {} |-> 0]
EmptyState == [pol |-> NoFun, rel |-> NoFun, half |-> NoFun]

Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

IsLive(st, pid) == pid \in DOMAIN st.pol
KeysOf(f, pid)  == { k \in DOMAIN f : k[1] = pid }
Graph(st, pid)  == GraphOf({ <<k[2], k[3]>> : k \in KeysOf(st.rel, pid) })
Rec(f, k)       == [pid |-> k[1], o |-> k[2], s |-> k[3], app |-> f[k].app, at |-> f[k].at]
Has(st, k)      == k \in DOMAIN st.rel
IsHalf(st, k)   == k \in DOMAIN st.half

Err == [r |-> "err"]
Out(resp, post) == [resp |-> resp, post |-> post]
Fail(st) == { Out(Err, st) }

----------------------------------------------------------------------------
(* Policies                                                                *)

NewPolicy(p, app, at) == [p |-> p, c |-> Compile(p), app |-> app, at |-> at]
PolicyRec(e) == [p |-> e.p, app |-> e.app, at |-> e.at]

CreatePolicy(st, q, now) ==
  IF ~DefOK(q.def) THEN Fail(st)
  ELSE LET p == DefPolicy(q.def) IN
       IF IsLive(st, p.id) \/ ~WellFormed(p) THEN Fail(st)
       ELSE LET e == NewPolicy(p, q.app, now) IN
            { Out([r |-> "ok", rec |-> PolicyRec(e)], [st EXCEPT !.pol = With(@, p.id, e)]) }

UpdatePolicy(st, q, now) ==
  IF ~DefOK(q.def) THEN Fail(st)
  ELSE LET p == DefPolicy(q.def) IN
       IF ~IsLive(st, p.id) \/ ~WellFormed(p) THEN Fail(st)
       ELSE LET e == NewPolicy(p, q.app, st.pol[p.id].at) IN
            { Out([r |-> "ok"], [st EXCEPT !.pol = With(@, p.id, e)]) }

RemoveAll(st, pid) ==
  [pol |-> Without(st.pol, {pid}),
   rel |-> Without(st.rel, KeysOf(st.rel, pid)),
   half |-> Without(st.half, KeysOf(st.half, pid))]

DeletePolicy(st, q, now) ==
  IF ~IsLive(st, q.id)
  THEN { Out([r |-> "ok", found |-> FALSE, n |-> 0], st) } \cup (IF q.id = "" THEN Fail(st) ELSE {})
  ELSE LET full == Cardinality(KeysOf(st.rel, q.id))
           half == Cardinality(KeysOf(st.half, q.id))
       IN  { Out([r |-> "ok", found |-> TRUE, n |-> n], RemoveAll(st, q.id)) : n \in full..(full + half) }

GetPolicy(st, q, now) ==
  IF IsLive(st, q.id) THEN { Out([r |-> "ok", found |-> TRUE, rec |-> PolicyRec(st.pol[q.id])], st) }
  ELSE { Out([r |-> "ok", found |-> FALSE], st) } \cup (IF q.id = "" THEN Fail(st) ELSE {})

ListPolicyIds(st, q, now) == { Out([r |-> "ok", ids |-> DOMAIN st.pol], st) }

----------------------------------------------------------------------------
(* Relationships                                                           *)

SetRelationship(st, q, now) ==
  LET k == <<q.pid, q.o, q.s>> IN
  IF ~IsLive(st, q.pid) \/ ~Admissible(st.pol[q.pid].c, q.o, q.s) THEN Fail(st)
  ELSE { Out([r |-> "ok", over |-> over],
             [st EXCEPT !.rel = With(@, k, [app |-> q.app, at |-> now]), !.half = Without(@, {k})])
         : over \in IF IsHalf(st, k) THEN BOOLEAN ELSE {Has(st, k)} }

DeleteRelationship(st, q, now) ==
  LET k == <<q.pid, q.o, q.s>> IN
  IF ~CompleteRel(q.o, q.s) THEN Fail(st)
  ELSE { Out([r |-> "ok", found |-> found],
             [st EXCEPT !.rel = Without(@, {k}), !.half = Without(@, {k})])
         : found \in IF IsHalf(st, k) THEN BOOLEAN ELSE {Has(st, k)} }
       \cup (IF IsLive(st, q.pid) THEN {} ELSE Fail(st))

(* many relationships of one policy set one after the other, in one event *)
SetMany(st, q, now) ==
  LET ks  == { <<q.pid, e[1], e[2]>> : e \in Range1(q.es) }
      old == { k \in ks : Has(st, k) }
  IN  IF ~IsLive(st, q.pid) \/ (\E k \in ks : ~Admissible(st.pol[q.pid].c, k[2], k[3])) \/ (\E k \in ks : IsHalf(st, k))
      THEN Fail(st)     \* not asked for in such states
      ELSE { Out([r |-> "ok", n |-> Cardinality(old)],
                 [st EXCEPT !.rel = [k \in DOMAIN @ \cup ks |-> IF k \in ks THEN [app |-> q.app, at |-> now] ELSE @[k]]]) }

GetRelationship(st, q, now) ==
  LET k == <<q.pid, q.o, q.s>> IN
  IF ~CompleteRel(q.o, q.s) THEN Fail(st)
  ELSE (IF Has(st, k) THEN { Out([r |-> "ok", found |-> TRUE, rec |-> Rec(st.rel, k)], st) }
        ELSE { Out([r |-> "ok", found |-> FALSE], st) })
       \cup (IF IsHalf(st, k) THEN { Out([r |-> "ok", found |-> TRUE, rec |-> Rec(st.half, k)], st) } ELSE {})
       \cup (IF IsLive(st, q.pid) THEN {} ELSE Fail(st))

Matching(f, pid, sel) == { k \in KeysOf(f, pid) : Selects(sel, k[2], k[3]) }

FindRelationships(st, q, now) ==
  IF ~IsLive(st, q.pid) \/ ~ValidSel(st.pol[q.pid].c, q.sel) THEN Fail(st)
  ELSE { Out([r |-> "ok", recs |-> { Rec(st.rel, k) : k \in Matching(st.rel, q.pid, q.sel) },
              maybe |-> { Rec(st.half, k) : k \in Matching(st.half, q.pid, q.sel) }], st) }
       \cup (IF VagueSel(q.sel) THEN Fail(st) ELSE {})

DeleteRelationships(st, q, now) ==
  IF ~CompleteSel(q.sel) THEN Fail(st)
  ELSE LET full == Matching(st.rel, q.pid, q.sel)
           half == Matching(st.half, q.pid, q.sel)
       IN  { Out([r |-> "ok", n |-> n], [st EXCEPT !.rel = Without(@, full), !.half = Without(@, half)])
             : n \in Cardinality(full)..(Cardinality(full) + Cardinality(half)) }
           \cup (IF VagueSel(q.sel) \/ ~IsLive(st, q.pid) THEN Fail(st) ELSE {})

----------------------------------------------------------------------------
(* The relation graph                                                      *)

AnswersOf(st, pid, o, u) ==
  IF ~IsLive(st, pid) THEN {"err"} ELSE Answers(st.pol[pid].c, Graph(st, pid), o, u)

Formats == {"json", "dot", "spew"}

Check(st, q, now) ==
  { IF a = "err" THEN Out(Err, st) ELSE Out([r |-> "ok", auth |-> (a = "t")], st)
    : a \in AnswersOf(st, q.pid, q.o, q.u) }

(* many checks of one policy in one event                                  *)
CheckMatrix(st, q, now) == { Out([r |-> "ok"], st) }

Explain(st, q, now) ==
  IF q.fmt \notin Formats THEN Fail(st)
  ELSE { IF a = "err" THEN Out(Err, st) ELSE Out([r |-> "ok", auth |-> (a = "t"), fmt |-> q.fmt], st)
         : a \in AnswersOf(st, q.pid, q.o, q.u) }

Expand(st, q, now) ==
  IF q.fmt \notin Formats \/ ~IsLive(st, q.pid) \/ ~CompleteNode(q.root) THEN Fail(st)
  ELSE LET c == st.pol[q.pid].c
           N == Reach(c, Graph(st, q.pid), {q.root})
       IN  IF UndefinedNode(c, q.root) THEN Fail(st)
           ELSE { Out([r |-> "ok", fmt |-> q.fmt], st) }
                \cup (IF \E n \in N : UndefinedNode(c, n) \/ (n[1] # "s" /\ n[2] \notin c.res)
                      THEN Fail(st) ELSE {})

Dump(st, q, now) ==
  IF q.fmt # "dot" \/ ~IsLive(st, q.pid) THEN Fail(st) ELSE { Out([r |-> "ok"], st) }

(* Printing an expression tree: the text has to mean the same tree         *)
PrintExpr(st, q, now) == { Out([r |-> "ok"], st) }

(* A new instance over the same storage                                    *)
Reopen(st, q, now) == { Out([r |-> "ok"], st) }

----------------------------------------------------------------------------
(* Documents                                                               *)

Pretty(n) ==
  CASE n[1] = "s" -> "(" \o n[2] \o ":" \o n[3] \o ", " \o n[4] \o ")"
    [] n[1] = "e" -> "(" \o n[2] \o ":" \o n[3] \o ")"
    [] n[1] = "w" -> "(" \o n[2] \o ":*)"
    [] OTHER -> ""

(* Goal trees: [t |-> "nil"], [t |-> "path", n, res, sub, why],            *)
(* [t |-> "or" | "and" | "multi", res, subs], [t |-> "diff", res, l, r].   *)
(* res is "S", "F" or "U". A node is <<"lab", text>> in a DOT document.    *)
(* why names the rule which led to the node.                               *)

RuleText(rule) ==
  CASE rule.k = "this" -> "Rule This"
    [] rule.k = "cu"   -> "Rule Computed Userset: " \o rule.r
    [] rule.k = "ttu"  -> "Rule Tuple To Userset: " \o rule.t \o " " \o rule.c

RECURSIVE TopPaths(_)
TopPaths(t) ==
  CASE t.t = "nil"  -> {}
    [] t.t = "path" -> {t}
    [] t.t = "diff" -> TopPaths(t.l) \cup TopPaths(t.r)
    [] OTHER -> UNION { TopPaths(t.subs[i]) : i \in DOMAIN t.subs }

RECURSIVE AllPaths(_)
AllPaths(t) ==
  CASE t.t = "nil"  -> {}
    [] t.t = "path" -> {t} \cup AllPaths(t.sub)
    [] t.t = "diff" -> AllPaths(t.l) \cup AllPaths(t.r)
    [] OTHER -> UNION { AllPaths(t.subs[i]) : i \in DOMAIN t.subs }

RECURSIVE OpsOK(_)
OpsOK(t) ==
  CASE t.t = "nil"  -> TRUE
    [] t.t = "path" -> OpsOK(t.sub)
    [] t.t = "diff" -> /\ t.res = "S" => t.l.res = "S" /\ t.r.res = "F"
                       /\ t.res = "F" => ~(t.l.res = "S" /\ t.r.res = "F")
                       /\ OpsOK(t.l) /\ OpsOK(t.r)
    [] OTHER ->
         LET rs == { t.subs[i].res : i \in DOMAIN t.subs } IN
         /\ t.res = "S" => "S" \in rs
         /\ t.res = "S" /\ t.t = "and" => rs = {"S"}
         /\ t.res = "F" /\ t.t = "or"  => "S" \notin rs
         /\ t.res = "F" /\ rs # {} /\ t.t # "or" => rs # {"S"}
         /\ \A i \in DOMAIN t.subs : OpsOK(t.subs[i])

(* the nodes of N a path of a document may stand for                       *)
Meant(N, n) == IF n[1] = "lab" THEN { m \in N : Pretty(m) = n[2] } ELSE {n} \cap N

(* the nodes which the rule named by a path leads to from n                *)
Because(c, g, n, why) ==
  IF ~DefinedNode(c, n) THEN {}
  ELSE UNION { Leaf(g, n, rule) : rule \in { rule \in Rules(c.rel[<<n[2], n[4]>>].tree) : RuleText(rule) = why } }

ResultOf(t) == IF t.t = "nil" THEN "U" ELSE t.res

(* The labels below node m justify the label of m                          *)
Justified(c, g, m, t) ==
  LET top == TopPaths(t.sub)
      gt  == GroundOf(c, g, m)
      L   == LeafNodes(gt)
      Lab(r) == UNION { Meant(L, x.n) : x \in { x \in top : x.res = r } }
  IN  /\ \A x \in top : Meant(Because(c, g, m, x.why), x.n) # {}
      /\ t.res = t.sub.res
      /\ t.res = "S" => HoldsIn(gt, Lab("S"), L \ Lab("F"))
      /\ t.res = "F" => ~HoldsIn(gt, L \ Lab("F"), Lab("S"))

GoalTreeOK(c, g, q, auth, tree) ==
  LET L    == Layers(c, g, {q.o})
      N    == UNION Range1(L)
      mem  == Members(c, g, L, q.u)
      free == NegCycle(c, g, N) \/ \E n \in N : UndefinedNode(c, n)
  IN  /\ tree.t = "path" /\ tree.why = "Request"
      /\ q.o \in Meant(N, tree.n)
      /\ tree.res = (IF auth THEN "S" ELSE "F")
      /\ OpsOK(tree)
      /\ \A t \in AllPaths(tree) :
           \E m \in Meant(N, t.n) :
             /\ t.res = "S" => free \/ m \in mem.certain
             /\ IF t.sub.t = "nil" THEN TRUE
                ELSE DefinedNode(c, m) /\ Justified(c, g, m, t)

ExpandTreeOK(c, g, root, tree) ==
  LET N  == Reach(c, g, {root})
      ps == AllPaths(tree)
      OpenAs(t, n) ==   \* t shows every successor of n, and nothing else
        LET S == Succ(c, g, n) top == TopPaths(t.sub) IN
        /\ \A x \in top : Meant(Because(c, g, n, x.why), x.n) # {}
        /\ \A m \in S : \E x \in top : m \in Meant(S, x.n)
  IN  /\ tree.t = "path" /\ tree.why = "Request"
      /\ root \in Meant(N, tree.n)
      /\ \A t \in ps : \E m \in Meant(N, t.n) : t.sub.t = "nil" \/ OpenAs(t, m)
      /\ \A n \in N : \E t \in ps : n \in Meant(N, t.n)
      /\ \A n \in { n \in N : Succ(c, g, n) # {} } :
           \E t \in ps : n \in Meant(N, t.n) /\ t.sub.t # "nil" /\ OpenAs(t, n)

(* dump [nodes, edges]: nodes label of each node id, edges pairs of ids    *)
LabelPair(k) == <<Pretty(k[2]), Pretty(k[3])>>

DumpOK(st, pid, d) ==
  LET must == KeysOf(st.rel, pid)
      may  == must \cup KeysOf(st.half, pid)
      shown == { <<d.edges[i][3], d.edges[i][4]>> : i \in DOMAIN d.edges }
      ids   == { <<d.edges[i][1], d.edges[i][2]>> : i \in DOMAIN d.edges }
      ends  == UNION { {Pretty(k[2]), Pretty(k[3])} : k \in may }
  IN  /\ { LabelPair(k) : k \in must } \subseteq shown
      /\ shown \subseteq { LabelPair(k) : k \in may }
      /\ Cardinality(ids) = Len(d.edges)
      /\ Len(d.edges) \in Cardinality(must)..Cardinality(may)
      /\ \A i \in DOMAIN d.nodes : d.nodes[i] \in ends

----------------------------------------------------------------------------
Outcomes(st, q, now) ==
  CASE q.op = "CreatePolicy"        -> CreatePolicy(st, q, now)
    [] q.op = "UpdatePolicy"        -> UpdatePolicy(st, q, now)
    [] q.op = "DeletePolicy"        -> DeletePolicy(st, q, now)
    [] q.op = "GetPolicy"           -> GetPolicy(st, q, now)
    [] q.op = "ListPolicyIds"       -> ListPolicyIds(st, q, now)
    [] q.op = "SetRelationship"     -> SetRelationship(st, q, now)
    [] q.op = "SetMany"             -> SetMany(st, q, now)
    [] q.op = "DeleteRelationship"  -> DeleteRelationship(st, q, now)
    [] q.op = "GetRelationship"     -> GetRelationship(st, q, now)
    [] q.op = "FindRelationships"   -> FindRelationships(st, q, now)
    [] q.op = "DeleteRelationships" -> DeleteRelationships(st, q, now)
    [] q.op = "Check"               -> Check(st, q, now)
    [] q.op = "CheckMatrix"         -> CheckMatrix(st, q, now)
    [] q.op = "Explain"             -> Explain(st, q, now)
    [] q.op = "Expand"              -> Expand(st, q, now)
    [] q.op = "Dump"                -> Dump(st, q, now)
    [] q.op = "PrintExpr"           -> PrintExpr(st, q, now)
    [] q.op = "Reopen"              -> Reopen(st, q, now)

SameRec(rec, seen) ==
  rec.p = seen.p /\ rec.app = seen.app /\ rec.at = seen.at

(* Does the observed response to q in st show the response want?           *)
Match(st, q, want, seen) ==
  IF want.r # seen.r THEN FALSE
  ELSE IF want.r = "err" THEN TRUE
  ELSE CASE q.op = "CreatePolicy"  -> SameRec(want.rec, seen.rec)
         [] q.op = "GetPolicy"     ->
              IF want.found THEN seen.found /\ SameRec(want.rec, seen.rec)
              ELSE ~seen.found
         [] q.op = "DeletePolicy"  -> want.found = seen.found /\ want.n = seen.n
         [] q.op = "ListPolicyIds" -> Range1(seen.ids) = want.ids /\ Len(seen.ids) = Cardinality(want.ids)
         [] q.op = "SetRelationship"    -> want.over = seen.over
         [] q.op = "SetMany"            -> want.n = seen.n
         [] q.op = "DeleteRelationship" -> want.found = seen.found
         [] q.op = "GetRelationship"    ->
              want.found = seen.found /\ (want.found => want.rec = seen.rec)
         [] q.op = "FindRelationships" ->
              LET recs == Range1(seen.recs) IN
              /\ Len(seen.recs) = Cardinality(recs)
              /\ want.recs \subseteq recs
              /\ recs \subseteq want.recs \cup want.maybe
         [] q.op = "DeleteRelationships" -> want.n = seen.n
         [] q.op = "Check" -> want.auth = seen.auth
         [] q.op = "CheckMatrix" ->
              LET g == Graph(st, q.pid) IN
              \A i \in DOMAIN q.qs :
                seen.as[i] \in IF IsLive(st, q.pid) THEN Answers(st.pol[q.pid].c, g, q.qs[i][1], q.qs[i][2]) ELSE {"err"}
         [] q.op = "Explain" ->
              /\ want.auth = seen.auth /\ want.fmt = seen.fmt
              /\ "plain" \in DOMAIN seen => seen.plain = (IF want.auth THEN "t" ELSE "f")   \* what the plain check says
              /\ IF q.fmt = "spew" THEN seen.size > 0
                 ELSE GoalTreeOK(st.pol[q.pid].c, Graph(st, q.pid), q, want.auth, seen.tree)
         [] q.op = "Expand" ->
              /\ want.fmt = seen.fmt
              /\ IF q.fmt = "spew" THEN seen.size > 0
                 ELSE ExpandTreeOK(st.pol[q.pid].c, Graph(st, q.pid), q.root, seen.tree)
         [] q.op = "Dump" -> DumpOK(st, q.pid, seen.dump)
         [] q.op = "PrintExpr" -> LET e == Parse(CharsOf(seen.text)) IN e.ok /\ e.tree = q.tree
         [] OTHER -> TRUE

(* The states st may be in after q returned what was seen                  *)
After(st, q, now, seen) ==
  { x.post : x \in { x \in Outcomes(st, q, now) : Match(st, q, x.resp, seen) } }

----------------------------------------------------------------------------
(* Storage failures and crashes: the states a request may leave behind     *)

Halve(st, k) ==
  [st EXCEPT !.half = With(@, k, IF k \in DOMAIN st.rel THEN st.rel[k] ELSE st.half[k]),
             !.rel = Without(@, {k})]

Drop(st, K) == [st EXCEPT !.rel = Without(@, K), !.half = Without(@, K)]

(* any part of the relationships K removed, at most one of them half way   *)
PartlyRemoved(st, K) ==
  LET cut == { Drop(st, R) : R \in SUBSET K } IN
  cut \cup UNION { { Halve(x, k) : k \in K \cap DOMAIN x.rel } : x \in cut }

FaultPosts(st, q, now) ==
  LET posts == { x.post : x \in Outcomes(st, q, now) } IN
  {st} \cup posts \cup
  CASE q.op = "SetRelationship" ->
         LET k == <<q.pid, q.o, q.s>> IN
         IF posts = {st} \/ Has(st, k) THEN {}
         ELSE { [st EXCEPT !.half = With(@, k, [app |-> q.app, at |-> now])] }
    [] q.op = "DeleteRelationship" ->
         LET k == <<q.pid, q.o, q.s>> IN IF Has(st, k) THEN { Halve(st, k) } ELSE {}
    [] q.op = "DeleteRelationships" ->
         IF CompleteSel(q.sel)
         THEN PartlyRemoved(st, Matching(st.rel, q.pid, q.sel) \cup Matching(st.half, q.pid, q.sel))
         ELSE {}
    [] q.op = "DeletePolicy" ->
         PartlyRemoved(st, KeysOf(st.rel, q.id) \cup KeysOf(st.half, q.id))
    [] OTHER -> {}
=============================================================================
