------------------------------- MODULE MCExpr -------------------------------
(***************************************************************************)
(* The expression language, explored word by word. A finite automaton with *)
(* a counter, independent of the parser of ExprLang, says which sequences  *)
(* of words can still become a sentence; every sequence which can, and     *)
(* every sequence whose last word ruins it, is a state. The laws below are *)
(* checked in each, and the sequences are printed for replay in the code.  *)
(***************************************************************************)
EXTENDS ExprLang, FiniteSets, TLC, IOUtils

Bound == atoi(IOEnv.WORDS)

(* words, as characters                                                    *)
Id(c) == [c |-> c, k |-> "id"]
Sym(c) == [c |-> c, k |-> c]
Blank == [c |-> " ", k |-> "sp"]
Words == {"_this", "a", "b", "+", "&", "-", "->", "(", ")"}
CharsOfWord(w) ==
  CASE w = "_this" -> <<Id("_"), Id("t"), Id("h"), Id("i"), Id("s")>>
    [] w \in {"a", "b"} -> <<Id(w)>>
    [] w = "->" -> <<Sym("-"), Sym(">")>>
    [] OTHER -> <<Sym(w)>>

Spell(ws) == FoldLeft(LAMBDA acc, w : acc \o CharsOfWord(w) \o <<Blank>>, <<>>, ws)

(* without blanks wherever two neighbours do not melt together             *)
Melt(v, w) ==
  \/ v \in {"_this", "a", "b"} /\ w \in {"_this", "a", "b"}
  \/ v = "-" /\ w = "->" /\ FALSE      \* "-" "->" reads as "--" ">", the same words
Tight(ws) ==
  FoldLeft(LAMBDA acc, i : acc \o (IF i > 1 /\ Melt(ws[i - 1], ws[i]) THEN <<Blank>> ELSE <<>>) \o CharsOfWord(ws[i]),
           <<>>, [i \in 1..Len(ws) |-> i])

VARIABLES ws,      \* the words so far
          want,    \* what has to come next: "term", "op" (a complete rule came last), "arrow" (an identifier came last),
                   \* "id" (an arrow came last) or "dead"
          depth,   \* open parentheses
          tree     \* stack of contexts <<tree or [k |-> "x"], pending operator>> of the reading so far
vars == <<ws, want, depth, tree>>

Hole == [k |-> "x"]
Push(stack, t) ==     \* a term t is complete
  LET top == stack[Len(stack)] IN
  [stack EXCEPT ![Len(stack)] = [t |-> IF top.o = "" THEN t ELSE Op(top.o, top.t, t), o |-> ""]]

Init == ws = <<>> /\ want = "term" /\ depth = 0 /\ tree = <<[t |-> Hole, o |-> ""]>>

Close(stack) == Push(SubSeq(stack, 1, Len(stack) - 1), stack[Len(stack)].t)

(* an identifier is pushed when it is known that no arrow follows          *)
Settled == IF want = "arrow" THEN Push(tree, Cu(ws[Len(ws)])) ELSE tree

Dead == want' = "dead" /\ UNCHANGED <<depth, tree>>

Next ==
  /\ want # "dead"
  /\ Len(ws) < Bound
  /\ \E w \in Words :
     /\ ws' = Append(ws, w)
     /\ CASE want = "term" /\ w = "_this" -> want' = "op" /\ tree' = Push(tree, This) /\ depth' = depth
          [] want = "term" /\ w \in {"a", "b"} -> want' = "arrow" /\ UNCHANGED <<tree, depth>>
          [] want = "term" /\ w = "(" -> want' = "term" /\ depth' = depth + 1 /\ tree' = Append(tree, [t |-> Hole, o |-> ""])
          [] want = "arrow" /\ w = "->" -> want' = "id" /\ UNCHANGED <<tree, depth>>
          [] want = "id" /\ w \in {"a", "b"} -> want' = "op" /\ tree' = Push(tree, Ttu(ws[Len(ws) - 1], w)) /\ depth' = depth
          [] want \in {"op", "arrow"} /\ w \in Ops ->
               want' = "term" /\ depth' = depth /\ tree' = [Settled EXCEPT ![Len(tree)].o = w]
          [] want \in {"op", "arrow"} /\ w = ")" /\ depth > 0 ->
               want' = "op" /\ depth' = depth - 1 /\ tree' = Close(Settled)
          [] OTHER -> Dead

Spec == Init /\ [][Next]_vars

Sentence == want \in {"op", "arrow"} /\ depth = 0
Reading == Settled[1].t

----------------------------------------------------------------------------
P == Parse(Spell(ws))

(* the parser accepts the sentences, and reads them as the automaton does  *)
Agrees == P.ok = Sentence /\ (P.ok => P.tree = Reading)

(* blanks between words do not matter                                      *)
Blanks == Parse(Tight(ws)).ok = P.ok /\ (P.ok => Parse(Tight(ws)).tree = P.tree)

(* printing gives the tree back, also when printed again                   *)
PrintWords(t) ==
  LET F[u \in {t} \cup Subtrees(t)] ==
        CASE u.k = "this" -> <<"_this">>
          [] u.k = "cu" -> <<u.r>>
          [] u.k = "ttu" -> <<u.t, "->", u.c>>
          [] OTHER -> <<"(">> \o F[u.l] \o <<u.op>> \o F[u.r] \o <<")">>
  IN F[t]
PrintedBack == P.ok => LET q == Parse(Spell(PrintWords(P.tree))) IN q.ok /\ q.tree = P.tree

(* parentheses around a whole sentence change nothing                      *)
Wrapped == P.ok => LET q == Parse(Spell(<<"(">> \o ws \o <<")">>)) IN q.ok /\ q.tree = P.tree

(* operators associate to the left: what is appended applies to everything *)
LeftAssoc == P.ok => \A o \in Ops : Parse(Spell(ws \o <<o, "_this">>)).tree = Op(o, P.tree, This)

Emit == PrintT(<<"WORDS", Sentence, ws>>)
=============================================================================
