----------------------------- MODULE ZanziCore ------------------------------
(***************************************************************************)
(* The sequential meaning of zanzi: policies, admission of relationships,  *)
(* selectors, and membership in the sets denoted by relation expressions.  *)
(*                                                                         *)
(* Nodes of the relation graph                                             *)
(*   <<"e", resource, id>>            an entity                            *)
(*   <<"s", resource, id, relation>>  an entity set (object and relation)  *)
(*   <<"w", resource>>                a wildcard, all entities             *)
(*   <<"x">>                          an unset or meaningless node         *)
(* A relationship is a pair of an entity set node (its object and          *)
(* relation) and a subject node.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, ExprLang

CONSTANT CharsOf(_)     \* the characters of a string, as a text of ExprLang

Range1(f) == { f[i] : i \in DOMAIN f }

----------------------------------------------------------------------------
(* Policies.                                                               *)
(* policy   [id, name, desc, attrs, resources]                             *)
(* resource [name, desc, relations]                                        *)
(* relation [name, desc, expr, restr]                                      *)
(* expr     [f |-> "text", s] | [f |-> "tree", tree] | [f |-> "none"]      *)
(* restr    [f |-> "none" | "unset" | "universal"] | [f |-> "set", es]     *)
(*          entries <<"e", resource>>, <<"s", resource, relation>>, <<"x">>*)

TreeOf(e) ==
  CASE e.f = "text" -> Parse(CharsOf(e.s))
    [] e.f = "tree" -> IF CompleteTree(e.tree) THEN Parsed(e.tree, 0) ELSE NoParse
    [] OTHER -> NoParse

ResNames(p) == { r.name : r \in Range1(p.resources) }
RelKeys(p)  == UNION { { <<r.name, q.name>> : q \in Range1(r.relations) } : r \in Range1(p.resources) }

NoDuplicates(names) == Cardinality(Range1(names)) = Len(names)
NamesOf(seq) == [i \in 1..Len(seq) |-> seq[i].name]

RestrictionOK(p, rs) ==
  CASE rs.f \in {"none", "universal"} -> TRUE
    [] rs.f = "set" -> \A i \in 1..Len(rs.es) :
         LET e == rs.es[i] IN
         CASE e[1] = "e" -> e[2] \in ResNames(p)
           [] e[1] = "s" -> <<e[2], e[3]>> \in RelKeys(p)
           [] OTHER -> FALSE
    [] OTHER -> FALSE

RuleOK(p, resource, rule) ==
  CASE rule.k = "this" -> TRUE
    [] rule.k = "cu"   -> <<resource, rule.r>> \in RelKeys(p)
    [] rule.k = "ttu"  -> <<resource, rule.t>> \in RelKeys(p)
    [] OTHER -> FALSE

RelationOK(p, resource, q) ==
  /\ q.name # ""
  /\ LET t == TreeOf(q.expr) IN t.ok /\ \A rule \in Rules(t.tree) : RuleOK(p, resource, rule)
  /\ RestrictionOK(p, q.restr)

WellFormed(p) ==
  /\ p.id # ""
  /\ NoDuplicates(NamesOf(p.resources))
  /\ \A r \in Range1(p.resources) :
       /\ r.name # ""
       /\ NoDuplicates(NamesOf(r.relations))
       /\ \A q \in Range1(r.relations) : RelationOK(p, r.name, q)

(* What the rest of the system needs of a well formed policy.              *)
Compile(p) ==
  [res |-> ResNames(p),
   rel |-> [k \in RelKeys(p) |->
             LET r == CHOOSE r \in Range1(p.resources) : r.name = k[1]
                 q == CHOOSE q \in Range1(r.relations) : q.name = k[2]
             IN [tree |-> TreeOf(q.expr).tree, restr |-> q.restr]]]

----------------------------------------------------------------------------
(* YAML definitions.                                                       *)
(* doc [ok, id, name, doc, attrs, resources], resources [name, doc,        *)
(* relations], relations [name, doc, expr, types]; ok is FALSE for a text  *)
(* which is not a document of that shape. The maps of a document are given *)
(* in the order of their keys, whatever the order in the text: that is also *)
(* the order of the definition it stands for.                              *)

Concat(text) == FoldLeft(LAMBDA acc, ch : acc \o ch.c, "", text)

TypeEntry(type) ==
  LET cs == CharsOf(type)
      colons == { i \in 1..Len(cs) : cs[i].c = ":" }
  IN IF colons = {} THEN <<"e", type>>
     ELSE LET i == Min(colons) IN
          <<"s", Concat(SubSeq(cs, 1, i - 1)), Concat(SubSeq(cs, i + 1, Len(cs)))>>

TypesRestriction(types) ==
  IF "*" \in Range1(types) THEN [f |-> "universal"]
  ELSE [f |-> "set", es |-> [i \in 1..Len(types) |-> TypeEntry(types[i])]]

FromYaml(d) ==
  [id |-> d.id, name |-> d.name, desc |-> d.doc, attrs |-> d.attrs,
   resources |-> [i \in 1..Len(d.resources) |->
     LET r == d.resources[i] IN
     [name |-> r.name, desc |-> r.doc,
      relations |-> [j \in 1..Len(r.relations) |->
        LET q == r.relations[j] IN
        [name |-> q.name, desc |-> q.doc,
         expr |-> [f |-> "text", s |-> q.expr],
         restr |-> TypesRestriction(q.types)]]]]]

(* A definition is [f |-> "struct", p], [f |-> "yaml", doc] or [f |-> "none"] *)
DefOK(d) == d.f = "struct" \/ (d.f = "yaml" /\ d.doc.ok)
DefPolicy(d) == IF d.f = "yaml" THEN FromYaml(d.doc) ELSE d.p

----------------------------------------------------------------------------
(* Relationships and admission                                             *)

CompleteNode(n) ==
  CASE n[1] = "e" -> n[2] # "" /\ n[3] # ""
    [] n[1] = "s" -> n[2] # "" /\ n[3] # "" /\ n[4] # ""
    [] n[1] = "w" -> n[2] # ""
    [] OTHER -> FALSE

CompleteRel(o, s) == o[1] = "s" /\ CompleteNode(o) /\ CompleteNode(s)

DefinedSubject(c, s) ==
  IF s[1] = "s" THEN <<s[2], s[4]>> \in DOMAIN c.rel ELSE s[2] \in c.res

RestrictionAllows(rs, s) ==
  CASE rs.f = "universal" -> TRUE
    [] rs.f = "set" -> \E i \in 1..Len(rs.es) :
         IF s[1] = "s" THEN rs.es[i] = <<"s", s[2], s[4]>> ELSE rs.es[i] = <<"e", s[2]>>
    [] OTHER -> FALSE

Admissible(c, o, s) ==
  /\ CompleteRel(o, s)
  /\ <<o[2], o[4]>> \in DOMAIN c.rel
  /\ DefinedSubject(c, s)
  /\ RestrictionAllows(c.rel[<<o[2], o[4]>>].restr, s)

----------------------------------------------------------------------------
(* Selectors [o, r, s]:                                                    *)
(*   o <<"any">> <<"res", resource>> <<"obj", resource, id>> <<"x">>       *)
(*   r <<"any">> <<"name", relation>> <<"x">>                              *)
(*   s <<"any">> <<"res", resource>> <<"subj", node>> <<"x">>              *)

CompleteSel(sel) == sel.o[1] # "x" /\ sel.r[1] # "x" /\ sel.s[1] # "x"

(* a selector for exactly one entity or subject which is itself incomplete *)
VagueSel(sel) ==
  \/ sel.o[1] = "obj" /\ (sel.o[2] = "" \/ sel.o[3] = "")
  \/ sel.s[1] = "subj" /\ ~CompleteNode(sel.s[2])
  \/ sel.o[1] = "res" /\ sel.o[2] = ""
  \/ sel.s[1] = "res" /\ sel.s[2] = ""
  \/ sel.r[1] = "name" /\ sel.r[2] = ""

ValidSel(c, sel) ==
  /\ CompleteSel(sel)
  /\ sel.o[1] # "any" => sel.o[2] \in c.res
  /\ sel.r[1] = "name" =>
       IF sel.o[1] = "any" THEN \E k \in DOMAIN c.rel : k[2] = sel.r[2]
       ELSE <<sel.o[2], sel.r[2]>> \in DOMAIN c.rel
  /\ sel.s[1] = "res" => sel.s[2] \in c.res
  /\ sel.s[1] = "subj" => sel.s[2][1] # "x" /\ sel.s[2][2] \in c.res

Selects(sel, o, s) ==
  /\ CASE sel.o[1] = "any" -> TRUE
       [] sel.o[1] = "res" -> o[2] = sel.o[2]
       [] sel.o[1] = "obj" -> o[2] = sel.o[2] /\ o[3] = sel.o[3]
       [] OTHER -> FALSE
  /\ CASE sel.r[1] = "any" -> TRUE
       [] sel.r[1] = "name" -> o[4] = sel.r[2]
       [] OTHER -> FALSE
  /\ CASE sel.s[1] = "any" -> TRUE
       [] sel.s[1] = "res" -> s[2] = sel.s[2]
       [] sel.s[1] = "subj" -> s = sel.s[2]
       [] OTHER -> FALSE

----------------------------------------------------------------------------
(* The relation graph. g maps the objects of relationships to the set of   *)
(* their subjects.                                                         *)

GraphOf(rels) == [n \in { e[1] : e \in rels } |-> { e[2] : e \in { e \in rels : e[1] = n } }]

Direct(g, n) == IF n \in DOMAIN g THEN g[n] ELSE {}

Leaf(g, n, rule) ==
  CASE rule.k = "this" -> Direct(g, n)
    [] rule.k = "cu"   -> { <<"s", n[2], n[3], rule.r>> }
    [] rule.k = "ttu"  -> { IF d[1] = "w" THEN <<"x", d[2]>> ELSE <<"s", d[2], d[3], rule.c>> :
                              d \in Direct(g, <<"s", n[2], n[3], rule.t>>) }

RECURSIVE Ground(_, _, _)
Ground(g, n, t) ==
  IF t.k = "op" THEN [k |-> "op", op |-> t.op, l |-> Ground(g, n, t.l), r |-> Ground(g, n, t.r)]
  ELSE [k |-> "leaf", ns |-> Leaf(g, n, t)]

RECURSIVE LeafNodes(_)
LeafNodes(gt) == IF gt.k = "leaf" THEN gt.ns ELSE LeafNodes(gt.l) \cup LeafNodes(gt.r)

(* Nodes subtracted somewhere in a ground tree                             *)
RECURSIVE Subtracted(_)
Subtracted(gt) ==
  IF gt.k = "leaf" THEN {}
  ELSE Subtracted(gt.l) \cup (IF gt.op = "-" THEN LeafNodes(gt.r) ELSE Subtracted(gt.r))

DefinedNode(c, n) == n[1] = "s" /\ <<n[2], n[4]>> \in DOMAIN c.rel
UndefinedNode(c, n) == n[1] = "x" \/ (n[1] = "s" /\ <<n[2], n[4]>> \notin DOMAIN c.rel)

GroundOf(c, g, n) == Ground(g, n, c.rel[<<n[2], n[4]>>].tree)
Succ(c, g, n) == IF DefinedNode(c, n) THEN LeafNodes(GroundOf(c, g, n)) ELSE {}

(* The nodes reachable from ns, as a sequence of sets: those one step      *)
(* away, two steps away, ...                                               *)
RECURSIVE LayersFrom(_, _, _, _)
LayersFrom(c, g, seen, layers) ==
  LET new == (UNION { Succ(c, g, n) : n \in layers[Len(layers)] }) \ seen
  IN  IF new = {} THEN layers ELSE LayersFrom(c, g, seen \cup new, Append(layers, new))
Layers(c, g, ns) == LayersFrom(c, g, ns, <<ns>>)
Reach(c, g, ns) == UNION Range1(Layers(c, g, ns))

(* Ground graph over a closed set of nodes: defined node -> ground tree    *)
GraphOver(c, g, N) == [n \in { n \in N : DefinedNode(c, n) } |-> GroundOf(c, g, n)]

RECURSIVE HoldsIn(_, _, _)
HoldsIn(gt, pos, neg) ==
  IF gt.k = "leaf" THEN gt.ns \cap pos # {}
  ELSE CASE gt.op = "+" -> HoldsIn(gt.l, pos, neg) \/ HoldsIn(gt.r, pos, neg)
         [] gt.op = "&" -> HoldsIn(gt.l, pos, neg) /\ HoldsIn(gt.r, pos, neg)
         [] gt.op = "-" -> HoldsIn(gt.l, pos, neg) /\ ~HoldsIn(gt.r, neg, pos)

(* Least fixed point where subtracted nodes are looked up in neg. L holds  *)
(* the nodes of G in layers; beginning with the last one only makes it     *)
(* quicker.                                                                *)
RECURSIVE Lfp(_, _, _, _)
Lfp(G, L, neg, pos) ==
  LET Add(layer, acc) == LET new == { n \in layer : n \notin acc /\ n \in DOMAIN G /\ HoldsIn(G[n], acc, neg) }
                         IN  IF new = {} THEN acc ELSE acc \cup new
      next == FoldRight(Add, L, pos)
  IN  IF next = pos THEN pos ELSE Lfp(G, L, neg, next)

(* Alternating fixed point: the nodes which certainly, and which possibly,  *)
(* contain the subject. Undefined nodes are possible only.                 *)
RECURSIVE Alternate(_, _, _, _, _)
Alternate(G, L, hits, unknown, certain) ==
  LET possible == Lfp(G, L, certain, hits \cup unknown)
      next     == Lfp(G, L, possible, hits)
  IN  IF next = certain THEN [certain |-> certain, possible |-> possible]
      ELSE Alternate(G, L, hits, unknown, next)

Hits(N, u) == { n \in N : n = u \/ n = <<"w", u[2]>> }

Members(c, g, L, u) ==
  LET N == UNION Range1(L)
      G == GraphOver(c, g, N)
      hits == Hits(N, u)
      unknown == { n \in N : UndefinedNode(c, n) }
  IN  IF unknown = {} /\ \A n \in DOMAIN G : Subtracted(G[n]) = {}
      THEN LET m == Lfp(G, L, {}, hits) IN [certain |-> m, possible |-> m]     \* nothing alternates
      ELSE Alternate(G, L, hits, unknown, {})

(* A cycle through a subtraction: there is no least fixed point to demand  *)
NegCycle(c, g, N) ==
  \E n \in { n \in N : DefinedNode(c, n) } :
    \E m \in Subtracted(GroundOf(c, g, n)) : n \in Reach(c, g, {m})

(* The answers a check may give: "t", "f", "err"                           *)
Answers(c, g, origin, u) ==
  IF ~CompleteNode(origin) \/ ~CompleteNode(u) \/ ~DefinedNode(c, origin) THEN {"err"}
  ELSE LET L   == Layers(c, g, {origin})
           N   == UNION Range1(L)
           m   == Members(c, g, L, u)
           bad == \E n \in N : UndefinedNode(c, n)
       IN  (IF bad THEN {"err"} ELSE {})
           \cup (IF NegCycle(c, g, N) THEN {"t", "f"}
                 ELSE (IF origin \in m.possible THEN {"t"} ELSE {})
                      \cup (IF origin \notin m.certain THEN {"f"} ELSE {}))
=============================================================================
