------------------------------ MODULE ExprLang ------------------------------
(***************************************************************************)
(* The relation expression mini language (docs/relation-expression.md).    *)
(*                                                                         *)
(* A text is a sequence of characters [c |-> "o", k |-> class] where the   *)
(* class is "id" (letter, digit, underscore), "sp" (white space), one of   *)
(* the symbols  + & - > ( )  or "other".                                   *)
(*                                                                         *)
(* A tree is [k |-> "this"], [k |-> "cu", r |-> relation],                 *)
(* [k |-> "ttu", t |-> tupleset relation, c |-> computed relation] or      *)
(* [k |-> "op", op |-> "+" | "&" | "-", l |-> tree, r |-> tree].           *)
(* [k |-> "x"] stands for anything incomplete.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Ops == {"+", "&", "-"}

This      == [k |-> "this"]
Cu(r)     == [k |-> "cu", r |-> r]
Ttu(t, c) == [k |-> "ttu", t |-> t, c |-> c]
Op(o, l, r) == [k |-> "op", op |-> o, l |-> l, r |-> r]

----------------------------------------------------------------------------
(* Lexer: identifiers are maximal runs; "->" are two adjacent characters.  *)

IdToken(v) == [t |-> IF v = "_this" THEN "this" ELSE "id", v |-> v]

Flush(s) == IF s.cur = "" THEN s.toks ELSE Append(s.toks, IdToken(s.cur))

LexStep(s, ch) ==
  IF ~s.ok THEN s
  ELSE IF ch.k = "id"
  THEN [s EXCEPT !.cur = @ \o ch.c, !.prev = "id"]
  ELSE LET s1 == [ok |-> TRUE, toks |-> Flush(s), cur |-> "", prev |-> ch.k] IN
       CASE ch.k = "sp" -> s1
         [] ch.k \in {"+", "&", "-", "(", ")"} ->
              [s1 EXCEPT !.toks = Append(@, [t |-> ch.k, v |-> ""])]
         [] ch.k = ">" /\ s.prev = "-" ->
              [s1 EXCEPT !.toks[Len(s1.toks)] = [t |-> "->", v |-> ""]]
         [] OTHER -> [s1 EXCEPT !.ok = FALSE]

Lex(text) ==
  LET s == FoldLeft(LexStep, [ok |-> TRUE, toks |-> <<>>, cur |-> "", prev |-> ""], text)
  IN  [ok |-> s.ok, toks |-> Flush(s)]

----------------------------------------------------------------------------
(* Parser: expr == term (op term)*, one precedence, left associative.      *)

Tok(ts, i) == IF i <= Len(ts) THEN ts[i].t ELSE "eof"
NoParse == [ok |-> FALSE, tree |-> [k |-> "x"], next |-> 0]
Parsed(tree, next) == [ok |-> TRUE, tree |-> tree, next |-> next]

RECURSIVE PExpr(_, _), PTail(_, _, _), PTerm(_, _)

PTerm(ts, i) ==
  CASE Tok(ts, i) = "this" -> Parsed(This, i + 1)
    [] Tok(ts, i) = "id" ->
         IF Tok(ts, i + 1) = "->" /\ Tok(ts, i + 2) = "id"
         THEN Parsed(Ttu(ts[i].v, ts[i + 2].v), i + 3)
         ELSE Parsed(Cu(ts[i].v), i + 1)
    [] Tok(ts, i) = "(" ->
         LET e == PExpr(ts, i + 1) IN
         IF e.ok /\ Tok(ts, e.next) = ")" THEN Parsed(e.tree, e.next + 1) ELSE NoParse
    [] OTHER -> NoParse

PTail(ts, acc, i) ==
  IF Tok(ts, i) \notin Ops THEN Parsed(acc, i)
  ELSE LET t == PTerm(ts, i + 1) IN
       IF t.ok THEN PTail(ts, Op(ts[i].t, acc, t.tree), t.next) ELSE NoParse

PExpr(ts, i) ==
  LET t == PTerm(ts, i) IN IF t.ok THEN PTail(ts, t.tree, t.next) ELSE NoParse

Parse(text) ==
  LET lx == Lex(text) IN
  IF ~lx.ok THEN NoParse
  ELSE LET e == PExpr(lx.toks, 1) IN
       IF e.ok /\ e.next = Len(lx.toks) + 1 THEN e ELSE NoParse

----------------------------------------------------------------------------
(* Printing, and the rules of a tree                                       *)

RECURSIVE PrintTree(_)
PrintTree(t) ==
  CASE t.k = "this" -> "_this"
    [] t.k = "cu"   -> t.r
    [] t.k = "ttu"  -> t.t \o "->" \o t.c
    [] t.k = "op"   -> "(" \o PrintTree(t.l) \o " " \o t.op \o " " \o PrintTree(t.r) \o ")"
    [] OTHER -> ""

RECURSIVE CompleteTree(_)
CompleteTree(t) ==
  CASE t.k \in {"this", "cu", "ttu"} -> TRUE
    [] t.k = "op" -> t.op \in Ops /\ CompleteTree(t.l) /\ CompleteTree(t.r)
    [] OTHER -> FALSE

RECURSIVE Subtrees(_)
Subtrees(t) == {t} \cup (IF t.k = "op" THEN Subtrees(t.l) \cup Subtrees(t.r) ELSE {})

RECURSIVE Rules(_)
Rules(t) == IF t.k = "op" THEN Rules(t.l) \cup Rules(t.r) ELSE {t}
=============================================================================
