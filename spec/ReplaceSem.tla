----------------------------- MODULE ReplaceSem ----------------------------
(***************************************************************************)
(* The meaning of replace rules, on strings.                               *)
(*                                                                         *)
(* A set of parallel rules relates an upper string x to a lower string y   *)
(* when x can be cut into steps, each of which copies one symbol or        *)
(* replaces a factor by an image that a mapping allows there, such that    *)
(* every replaced factor stands in a context of its rule, and (obligatory  *)
(* rules) no factor that could have been replaced lies in a stretch of     *)
(* copied symbols.  Contexts look at the upper or the lower string.        *)
(* Directed rules cut x deterministically: from the left (right), at the   *)
(* first (last) possible factor, the longest or shortest one.              *)
(*                                                                         *)
(* A rule is [maps, type, ctx]: maps a sequence of [kind, a, b, b2] where  *)
(* a is a set of strings and b, b2 sets of <<string, weight>>; ctx a       *)
(* sequence of [l, lb, r, rb], l and r sets of strings, lb and rb whether  *)
(* they are anchored at the word boundary.                                 *)
(***************************************************************************)
EXTENDS FstMore

Left(x, p)  == SubSeq(x, 1, p - 1)         \* before position p
Right(x, q) == SubSeq(x, q, Len(x))        \* from position q on
EndsIn(s, L, anchored)   == IF anchored THEN s \in L ELSE \E k \in 1..(Len(s)+1) : SubSeq(s, k, Len(s)) \in L
StartsIn(s, R, anchored) == IF anchored THEN s \in R ELSE \E k \in 0..Len(s) : SubSeq(s, 1, k) \in R

\* x upper, y lower; the factor is x[p..q-1] and corresponds to y[yp..yq-1]
InCtx(r, x, y, p, q, yp, yq) ==
  \/ Len(r.ctx) = 0
  \/ \E k \in 1..Len(r.ctx) :
       LET c == r.ctx[k]
           ls == IF r.type \in {"||", "\\\\"} THEN Left(x, p) ELSE Left(y, yp)
           rs == IF r.type \in {"||", "//"} THEN Right(x, q) ELSE Right(y, yq)
       IN EndsIn(ls, c.l, c.lb) /\ StartsIn(rs, c.r, c.rb)

\* images of the factor u under mapping m: set of <<string, weight>>
Image(m, u) ==
  CASE m.kind = "mark" -> { << b[1] \o u \o d[1], b[2] + d[2] >> : b \in m.b, d \in m.b2 }
    [] OTHER -> m.b

\* steps: [p, q, out, r, w]; r = 0 for a copied symbol
Copy(x, p) == [ p |-> p, q |-> p + 1, out |-> <<x[p]>>, r |-> 0, w |-> 0 ]
StepsAt(rules, x, p) ==
  { Copy(x, p) }
  \cup UNION { UNION { { [ p |-> p, q |-> q, out |-> b[1], r |-> k, w |-> b[2] ] :
                           b \in UNION { Image(rules[k].maps[j], SubSeq(x, p, q-1)) :
                                         j \in { i \in 1..Len(rules[k].maps) : SubSeq(x, p, q-1) \in rules[k].maps[i].a } } }
                       : q \in (p+1)..(Len(x)+1) } : k \in 1..Len(rules) }
RECURSIVE Cuts(_, _, _)
Cuts(rules, x, p) ==
  IF p > Len(x) THEN {<<>>}
  ELSE UNION { { <<s>> \o c : c \in Cuts(rules, x, s.q) } : s \in StepsAt(rules, x, p) }
RECURSIVE Low(_, _)
Low(c, k) == IF k > Len(c) THEN <<>> ELSE c[k].out \o Low(c, k + 1)
RECURSIVE Cost(_, _)
Cost(c, k) == IF k > Len(c) THEN 0 ELSE c[k].w + Cost(c, k + 1)
RECURSIVE Off(_, _)                       \* position in y at which step k begins
Off(c, k) == IF k = 1 THEN 1 ELSE Off(c, k - 1) + Len(c[k-1].out)

Legal(rules, x, c, oblig) ==
  LET y == Low(c, 1)
      off == TLCEval([ k \in 1..(Len(c)+1) |-> Off(c, k) ])
  IN /\ \A k \in 1..Len(c) : c[k].r # 0 => InCtx(rules[c[k].r], x, y, c[k].p, c[k].q, off[k], off[k+1])
     /\ oblig => \A i \in 1..Len(c) : \A j \in i..Len(c) :
          (\A k \in i..j : c[k].r = 0) =>
            ~ \E r \in 1..Len(rules) : /\ \E m \in 1..Len(rules[r].maps) : SubSeq(x, c[i].p, c[j].q - 1) \in rules[r].maps[m].a
                                       /\ InCtx(rules[r], x, y, c[i].p, c[j].q, off[i], off[j+1])
ReplPairs(rules, x, oblig) == { << x, Low(c, 1), Cost(c, 1) >> : c \in { d \in Cuts(rules, x, 1) : Legal(rules, x, d, oblig) } }

\* insertion of one image at every place in context (the upper side is the empty string)
RECURSIVE InsAt(_, _, _)
InsAt(rule, x, p) ==      \* set of <<string, weight>> for the part from position p
  LET here == IF InCtx(rule, x, x, p, p, p, p) THEN UNION { m.b : m \in Rng(rule.maps) } ELSE { <<<<>>, 0>> }
      rest == IF p > Len(x) THEN { <<<<>>, 0>> } ELSE { << <<x[p]>> \o s[1], s[2] >> : s \in InsAt(rule, x, p + 1) }
  IN { << h[1] \o s[1], h[2] + s[2] >> : h \in here, s \in rest }

\* directed rules, contexts on the upper side
HitsFrom(rules, x, p) == { q \in (p+1)..(Len(x)+1) : \E r \in Rng(rules) : InCtx(r, x, x, p, q, p, q) /\ \E m \in Rng(r.maps) : SubSeq(x, p, q-1) \in m.a }
HitsTo(rules, x, q)   == { p \in 1..(q-1) : \E r \in Rng(rules) : InCtx(r, x, x, p, q, p, q) /\ \E m \in Rng(r.maps) : SubSeq(x, p, q-1) \in m.a }
Images(rules, x, p, q) == UNION { UNION { Image(m, SubSeq(x, p, q-1)) : m \in { n \in Rng(r.maps) : SubSeq(x, p, q-1) \in n.a } } :
                                  r \in { s \in Rng(rules) : InCtx(s, x, x, p, q, p, q) } }
RECURSIVE FromLeft(_, _, _, _)
FromLeft(rules, x, p, longest) ==
  IF p > Len(x) THEN { <<<<>>, 0>> }
  ELSE LET h == HitsFrom(rules, x, p)
           q == IF h = {} THEN p + 1 ELSE IF longest THEN MaxS(h) ELSE MinS(h)
           im == IF h = {} THEN { << <<x[p]>>, 0 >> } ELSE Images(rules, x, p, q)
       IN { << a[1] \o s[1], a[2] + s[2] >> : a \in im, s \in FromLeft(rules, x, q, longest) }
RECURSIVE FromRight(_, _, _, _)
FromRight(rules, x, q, longest) ==        \* the part x[1..q-1]
  IF q = 1 THEN { <<<<>>, 0>> }
  ELSE LET h == HitsTo(rules, x, q)
           p == IF h = {} THEN q - 1 ELSE IF longest THEN MinS(h) ELSE MaxS(h)
           im == IF h = {} THEN { << <<x[p]>>, 0 >> } ELSE Images(rules, x, p, q)
       IN { << s[1] \o a[1], a[2] + s[2] >> : a \in im, s \in FromRight(rules, x, p, longest) }

Prep(x, S) == { << x, s[1], s[2] >> : s \in S }
ReplOf(arrow, rules, x) ==
  CASE arrow = "->"   -> ReplPairs(rules, x, TRUE)
    [] arrow = "(->)" -> ReplPairs(rules, x, FALSE)
    [] arrow = "@->"  -> Prep(x, FromLeft(rules, x, 1, TRUE))
    [] arrow = "@>"   -> Prep(x, FromLeft(rules, x, 1, FALSE))
    [] arrow = "->@"  -> Prep(x, FromRight(rules, x, Len(x) + 1, TRUE))
    [] arrow = ">@"   -> Prep(x, FromRight(rules, x, Len(x) + 1, FALSE))
    [] arrow = "[..]" -> Prep(x, InsAt(rules[1], x, 1))

\* relation in the window: set of <<x, y, least weight>>
ReplRel(arrow, rules, U, N, weighted) ==
  LET all == UNION { { t \in ReplOf(arrow, rules, x) : Len(t[2]) <= N } : x \in StrsN(U, N) }
  IN IF weighted THEN Least({ <<t[3], t[1], t[2]>> : t \in all }, {}) ELSE { <<t[1], t[2], 0>> : t \in all }
=============================================================================
