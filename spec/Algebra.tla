------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* The transducer algebra as a state machine over registers.               *)
(*                                                                         *)
(* State: reg, a register file of transducer values.  Each logged event is *)
(* one call on the real library; the action for that operation says which  *)
(* values the called object (and its argument) may have afterwards.  The   *)
(* spec is nondeterministic in the representation (any machine with the    *)
(* right relation) and deterministic in the relation.                      *)
(*                                                                         *)
(* This module is a trace specification: Cases is the log, one case per    *)
(* behaviour.  A case is accepted when every event is an allowed step.     *)
(***************************************************************************)
EXTENDS FstDecide, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Has(e, k) == k \in DOMAIN e
Get(e, k, dflt) == IF k \in DOMAIN e THEN e[k] ELSE dflt
FRESH == {"%1", "%2"}

\* Same relation on the window, over a common universe
EqRel(M, R, N, w) == Rel(M, N, w) = Rel(R, N, w)
EqPair(M, R, N, w) == PRel(M, N, w) = PRel(R, N, w)

HasSp(A) == \E k \in 1..Len(A.t) : A.t[k][3] \in {ID, UNK} \/ A.t[k][4] \in {ID, UNK}
UnivP(S) == LET u == UNION { Alph(A) \cup Syms(A) : A \in S }
            IN IF \E A \in S : HasSp(A) THEN u \cup FRESH ELSE u

SameValue(A, B, N, w) == (A.t = B.t /\ A.f = B.f /\ Rng(A.a) = Rng(B.a))
                         \/ (LET U == UnivP({A, B}) IN EqRel(Conc(A, U), Conc(B, U), N, w))

Automaton(A) == \A k \in 1..Len(A.t) : A.t[k][3] = A.t[k][4] /\ A.t[k][3] # UNK

(***************************************************************************)
(* Operations whose result is given by a machine construction.             *)
(***************************************************************************)
UnOps == {"repeat_star", "repeat_plus", "optionalize", "repeat_n", "repeat_n_minus", "repeat_n_plus", "repeat_n_to_k",
          "invert", "reverse", "input_project", "output_project", "set_final_weights", "transform_weights"}
UnM(e, A) ==
  CASE e.op = "repeat_star"    -> StarM(A)
    [] e.op = "repeat_plus"    -> PlusM(A)
    [] e.op = "optionalize"    -> OptM(A)
    [] e.op = "repeat_n"       -> PowM(A, e.k)
    [] e.op = "repeat_n_minus" -> RangeM(A, 0, e.k)
    [] e.op = "repeat_n_plus"  -> AtLeastM(A, e.k)
    [] e.op = "repeat_n_to_k"  -> RangeM(A, e.k, e.k2)
    [] e.op = "invert"         -> InvertM(A)
    [] e.op = "reverse"        -> ReverseM(A)
    [] e.op = "input_project"  -> InM(A)
    [] e.op = "output_project" -> OutM(A)
    [] e.op = "set_final_weights" -> MapWM(A, LAMBDA x : x, LAMBDA x : IF Get(e, "inc", 0) = 1 THEN x + e.w ELSE e.w)
    [] e.op = "transform_weights" -> LET g(x) == CASE e.fn = "double" -> 2 * x [] e.fn = "plus" -> x + 2 [] OTHER -> 0
                                     IN MapWM(A, g, g)

BinOps == {"concatenate", "disjunct", "compose", "cross_product", "shuffle"}
BinM(e, A, B) ==
  CASE e.op = "concatenate"   -> ConcatM(A, B)
    [] e.op = "disjunct"      -> UnionM(A, B)
    [] e.op = "compose"       -> ComposeM(A, B)
    [] e.op = "cross_product" -> CrossM(A, B)
    [] e.op = "shuffle"       -> ShuffleM(A, B)

(***************************************************************************)
(* Operations on label pairs: intersection and difference of the languages *)
(* of pair strings; for automata this is the usual intersection/difference.*)
(***************************************************************************)
PairOps == {"intersect", "subtract"}
PairOK(e, A, B, R, N, w) ==
  CASE e.op = "intersect" -> EqPair(PairProdM(A, B), R, N, w)
    [] e.op = "subtract"  -> LET b == { r[1] : r \in PRel(B, N, FALSE) }
                             IN { r \in PRel(A, N, w) : r[1] \notin b } = PRel(R, N, w)

PriorityOK(A, B, R, N, w) ==
  LET ina == Ins(RelS(InM(A), N))
      ra == Rel(A, N, w)
      rb == Rel(B, N, w)
  IN Rel(R, N, w) = ra \cup { r \in rb : r[1] \notin ina }

LenientOK(A, B, R, N, w) ==
  LET C == ComposeM(A, B)
      inc == Ins(RelS(InM(C), N))
  IN Rel(R, N, w) = Rel(C, N, w) \cup { r \in Rel(A, N, w) : r[1] \notin inc }

NegateOK(A, R, U, N) ==
  LET la == Ins(RelS(A, N)) IN RelS(R, N) = { <<s, s>> : s \in StrsN(U, N) \ la }

(***************************************************************************)
(* Substitution and insertion are defined on transition labels; the result *)
(* is interpreted over the alphabet the implementation reports.            *)
(***************************************************************************)
Relab(A, S(_), alph) ==   \* S(<<i,o>>): set of pairs that replace the label
  LET arcs == UNION { { <<A.t[k][1], A.t[k][2], p[1], p[2], A.t[k][5]>> : p \in S(<<A.t[k][3], A.t[k][4]>>) } : k \in 1..Len(A.t) }
  IN [ n |-> A.n, t |-> ToSeq(arcs), f |-> A.f, a |-> alph ]

MapOf(m, x) == IF \E k \in 1..Len(m) : m[k][1] = x THEN m[CHOOSE k \in 1..Len(m) : m[k][1] = x][2] ELSE x
Pairs(s) == { <<s[k][1], s[k][2]>> : k \in 1..Len(s) }
SubstOps == {"substitute_symbol", "substitute_pair", "substitute_pair_set", "substitute_symbols", "substitute_pairs", "substitute_func"}
SubstV(e, A) ==
  LET P(x) == <<x[1], x[2]>>
      S(p) == CASE e.op = "substitute_symbol" -> { << IF Get(e, "i", 1) = 1 /\ p[1] = e.old THEN e.new ELSE p[1],
                                                      IF Get(e, "o", 1) = 1 /\ p[2] = e.old THEN e.new ELSE p[2] >> }
                [] e.op = "substitute_pair" -> { IF p = P(e.old) THEN P(e.new) ELSE p }
                [] e.op = "substitute_pair_set" -> IF p = P(e.old) THEN Pairs(e.new) ELSE {p}
                [] e.op = "substitute_symbols" -> { << MapOf(e.map, p[1]), MapOf(e.map, p[2]) >> }
                [] e.op = "substitute_pairs" -> { IF \E k \in 1..Len(e.map) : P(e.map[k][1]) = p
                                                  THEN P(e.map[CHOOSE k \in 1..Len(e.map) : P(e.map[k][1]) = p][2]) ELSE p }
                [] e.op = "substitute_func" -> IF p = <<"a", "a">> THEN {<<"a", "b">>, <<"b", "b">>} ELSE {p}
  IN Relab(A, S, e.res.a)

\* every arc of A labelled with pair p replaced by a copy of machine T
SubstTrM(A, p, T) ==
  LET hit == { x \in { <<q, t>> : q \in 0..(A.n-1), t \in UNION { A.d[q] : q \in 0..(A.n-1) } } :
                 x[2] \in A.d[x[1]] /\ x[2][2] = p[1] /\ x[2][3] = p[2] }
      hs == ToSeq(hit)
      base(j) == A.n + (j-1) * T.n
      D(q) == IF q < A.n
              THEN { t \in A.d[q] : ~ (t[2] = p[1] /\ t[3] = p[2]) }
                   \cup { <<base(j) + T.s, EPS, EPS, hs[j][2][4]>> : j \in {j \in 1..Len(hs) : hs[j][1] = q} }
              ELSE LET j == ((q - A.n) \div T.n) + 1  x == (q - A.n) % T.n
                   IN Sh(T.d[x], base(j)) \cup { <<hs[j][2][1], EPS, EPS, w>> : w \in T.f[x] }
      F(q) == IF q < A.n THEN A.f[q] ELSE {}
  IN Force(Mach(A.n + Len(hs) * T.n, A.s, D, F))

\* a copy of T attached at every state of A
InsertTrM(A, T) ==
  LET D(q) == IF q < A.n THEN A.d[q] \cup { <<A.n + q * T.n + T.s, EPS, EPS, 0>> }
              ELSE LET s == (q - A.n) \div T.n  x == (q - A.n) % T.n
                   IN Sh(T.d[x], A.n + s * T.n) \cup { <<s, EPS, EPS, w>> : w \in T.f[x] }
      F(q) == IF q < A.n THEN A.f[q] ELSE {}
  IN Force(Mach(A.n + A.n * T.n, A.s, D, F))
InsertPairM(A, p) == Force(Mach(A.n, A.s, LAMBDA q : A.d[q] \cup { <<q, p[1], p[2], 0>> }, LAMBDA q : A.f[q]))

(***************************************************************************)
(* compose_intersect: compose with the intersection of the rules.          *)
(***************************************************************************)
RECURSIVE InterAll(_, _)
InterAll(Ms, k) == IF k = 0 THEN EmptyM ELSE IF k = 1 THEN Ms[1] ELSE Force(PairProdM(InterAll(Ms, k-1), Ms[k]))

(***************************************************************************)
(* n_best: the result is a set of paths of A; every path kept is at least  *)
(* as good as every path dropped.  Stated on an acyclic A via the bag of   *)
(* path weights, and on relations via minimal weights.                     *)
(***************************************************************************)

NBestOK(A, R, k, N) ==
  LET ra == RelW(A, N)  rr == RelW(R, N)
      pr == Paths(R)  pa == Paths(A)
  IN /\ rr \subseteq ra \/ \A r \in rr : \E x \in pa : x[1] = r[1] /\ x[2] = r[2] /\ x[3] = r[3]
     \* the weights of the paths of R are the k least weights of paths of A
     /\ SortedW(pr) = LET s == SortedW(pa) IN SubSeq(s, 1, MinN(k, Len(s)))

(***************************************************************************)
(* Structure that normalising operations promise.                          *)
(***************************************************************************)
Pairset(A, q) == { k \in 1..Len(A.t) : A.t[k][1] = q }
NoEps(A) == ~ \E k \in 1..Len(A.t) : A.t[k][3] = EPS /\ A.t[k][4] = EPS
Deterministic(A) == /\ NoEps(A)
                    /\ \A j, k \in 1..Len(A.t) : (j < k /\ A.t[j][1] = A.t[k][1]) => <<A.t[j][3], A.t[j][4]>> # <<A.t[k][3], A.t[k][4]>>
StructOK(e, A, w, unweightedInput) ==
  CASE e.op = "determinize" -> Deterministic(e.res)
    [] e.op = "minimize" -> unweightedInput => (Deterministic(e.res) /\ Minimal(e.res))
    [] e.op = "remove_epsilons" -> NoEps(e.res)
    [] e.op = "prune" -> LET us == Useful(Conc(e.res, UnivP({e.res}))) IN us = 0..(e.res.n - 1) \/ (us = {} /\ e.res.n = 1)
    [] OTHER -> TRUE
UnarySame == {"determinize", "minimize", "optimize", "remove_epsilons", "push_weights", "push_labels", "prune",
              "dump", "set_name", "set_property", "prune_alphabet", "convert"}
NoWeights(A) == (\A k \in 1..Len(A.t) : A.t[k][5] = 0) /\ (\A k \in 1..Len(A.f) : A.f[k][2] = 0)

(***************************************************************************)
(* Verdict: "" if the event is an allowed step from reg, else the reason.  *)
(* w: whether weights are observable (tropical semiring).                  *)
(***************************************************************************)
Allowed(e, x) == Has(e, "allow") /\ \E k \in 1..Len(e.allow) : e.allow[k] = x
Verdict(reg, e, N, w) ==
  IF e.exc # "" THEN
    CASE e.op \in {"cross_product", "shuffle"} /\ e.exc \in {"TransducersAreNotAutomataException"} ->
           IF Automaton(reg[e.r]) /\ Automaton(reg[e.a]) THEN "refused automata" ELSE ""
      [] e.op = "negate" /\ e.exc = "TransducerIsNotAutomatonException" ->
           IF Automaton(reg[e.r]) THEN "refused an automaton" ELSE ""
      [] OTHER -> "exception " \o e.exc
  ELSE IF e.op = "load" THEN (IF SameValue(e.fst, e.res, N, w) THEN "" ELSE "load changed the relation")
  ELSE IF e.op \in {"copy", "assign"} THEN (IF SameValue(reg[e.a], e.res, N, w) THEN "" ELSE "copy differs")
  ELSE IF e.op \in UnOps THEN
    LET A == reg[e.r]  U == UnivP({A, e.res})
    IN IF EqRel(UnM(e, Conc(A, U)), Conc(e.res, U), N, w) THEN "" ELSE "wrong relation"
  ELSE IF e.op \in UnarySame THEN
    LET A == reg[e.r]  w2 == w /\ Get(e, "to", "tropical") = "tropical"
    IN IF ~ SameValue(A, e.res, N, w2) THEN "relation changed"
       ELSE IF ~ StructOK(e, A, w, NoWeights(A)) THEN "result lacks the promised form"
       ELSE IF e.op = "convert" /\ e.rtype # e.to THEN "wrong type" ELSE ""
  ELSE IF e.op \in BinOps \cup PairOps \cup {"priority_union", "lenient_composition"} THEN
    LET A == reg[e.r]  B == reg[e.a]  U == UnivP({A, B, e.res})
        CA == Conc(A, U)  CB == Conc(B, U)  CR == Conc(e.res, U)
        ok == CASE e.op \in BinOps -> EqRel(BinM(e, CA, CB), CR, N, w)
                [] e.op \in PairOps -> PairOK(e, CA, CB, CR, N, w)
                [] e.op = "priority_union" -> PriorityOK(CA, CB, CR, N, w)
                [] e.op = "lenient_composition" -> LenientOK(CA, CB, CR, N, w)
    IN IF ~ ok THEN "wrong relation"
       ELSE IF e.op \in {"cross_product", "shuffle"} /\ ~ (Automaton(A) /\ Automaton(B)) /\ ~ EqRel(InM(CA), CA, N, FALSE)
            THEN "accepted a non-automaton"
       ELSE IF e.a # e.r /\ ~ SameValue(B, e.arg, N, w) THEN "argument changed" ELSE ""
  ELSE IF e.op = "negate" THEN
    LET A == reg[e.r]  U == Alph(A) \cup Alph(e.res) \cup FRESH
    IN IF ~ Automaton(A) THEN "negated a non-automaton"
       ELSE IF NegateOK(Conc(A, U), Conc(e.res, U), U, N) THEN "" ELSE "wrong relation"
  ELSE IF e.op \in SubstOps THEN
    LET X == SubstV(e, reg[e.r])  U == UnivP({X, e.res})
    IN IF EqRel(Conc(X, U), Conc(e.res, U), N, w) THEN "" ELSE "wrong relation"
  ELSE IF e.op = "substitute_transducer" THEN
    LET A == reg[e.r]  B == reg[e.a]  U == UnivP({A, B, e.res})
    IN IF ~ EqRel(SubstTrM(Conc(A, U), e.old, Conc(B, U)), Conc(e.res, U), N, w) THEN "wrong relation"
       ELSE IF ~ SameValue(B, e.arg, N, w) THEN "argument changed" ELSE ""
  ELSE IF e.op = "insert_freely" THEN
    LET A == reg[e.r]  U == UnivP({A, e.res}) \cup (Rng(e.pair) \ SPECIAL)
    IN IF EqRel(InsertPairM(Conc(A, U), e.pair), Conc(e.res, U), N, w) THEN "" ELSE "wrong relation"
  ELSE IF e.op = "insert_freely_tr" THEN
    LET A == reg[e.r]  B == reg[e.a]  U == UnivP({A, B, e.res})
    IN IF ~ EqRel(InsertTrM(Conc(A, U), Conc(B, U)), Conc(e.res, U), N, w) THEN "wrong relation"
       ELSE IF ~ SameValue(B, e.arg, N, w) THEN "argument changed" ELSE ""
  ELSE IF e.op = "compose_intersect" THEN
    LET A == reg[e.r]  rs == [k \in 1..Len(e.rules) |-> reg[e.rules[k]]]
        U == UnivP({A, e.res} \cup Rng(rs))
        I == InterAll([k \in 1..Len(rs) |-> Conc(rs[k], U)], Len(rs))
        X == IF Get(e, "inv", 0) = 1 THEN ComposeM(I, Conc(A, U)) ELSE ComposeM(Conc(A, U), I)
    IN IF EqRel(X, Conc(e.res, U), N, w) THEN "" ELSE "wrong relation"
  ELSE IF e.op = "n_best" THEN
    LET A == reg[e.r]  U == UnivP({A, e.res})
    IN IF NBestOK(Conc(A, U), Conc(e.res, U), e.k, 20) THEN "" ELSE "not the n best paths"
  ELSE IF e.op = "compare" THEN
    LET A == reg[e.r]  B == reg[e.a]  U == UnivP({A, B})
        TA == TrimM(Conc(A, U))  TB == TrimM(Conc(B, U))
        \* weighted operands are acyclic; an acyclic and a cyclic trim machine have different languages
        eq == IF (NoWeights(A) /\ NoWeights(B)) \/ ~ w THEN EqLang(PairM(TA), PairM(TB))
              ELSE IF CyclicM(TA) # CyclicM(TB) THEN FALSE
              ELSE EqPair(TA, TB, IF CyclicM(TA) THEN N ELSE 14, TRUE)
    IN IF eq = (e.ans = 1) THEN "" ELSE "wrong answer"
  ELSE IF e.op = "query" THEN
    LET A == reg[e.r]  C == Conc(A, Alph(A) \cup Syms(A) \cup FRESH)
    IN IF ~ SameValue(A, e.res, N, w) THEN "query changed the value"
       ELSE IF (e.cyclic = 1) # CyclicM(C) /\ (e.cyclic = 1) # CyclicFrom(C) THEN "is_cyclic wrong"
       ELSE IF (e.automaton = 1) # Automaton(A) THEN "is_automaton wrong"
       ELSE IF e.states # e.res.n /\ ~ (e.states = 0 /\ e.res.n = 1 /\ Len(e.res.t) = 0 /\ Len(e.res.f) = 0) THEN "number_of_states wrong"
       ELSE IF e.arcs # Len(e.res.t) THEN "number_of_arcs wrong"
       ELSE IF (e.hasw = 1) # (w /\ ~ NoWeights(e.res)) THEN "has_weights wrong"
       ELSE IF Rng(e.alpha) \ SPECIAL # Alph(A) THEN "alphabet wrong"
       ELSE IF e.infamb >= 0 /\ (e.infamb = 1) # InfAmb(C) THEN "is_infinitely_ambiguous wrong"
       ELSE ""
  ELSE "no action for " \o e.op

NewReg(reg, e) ==
  LET r1 == IF Has(e, "res") THEN [k \in DOMAIN reg \cup {e.r} |-> IF k = e.r THEN e.res ELSE reg[k]] ELSE reg
  IN IF Has(e, "arg") /\ Has(e, "a") /\ e.a # e.r THEN [r1 EXCEPT ![e.a] = e.arg] ELSE r1

VARIABLES c, l, reg, bad
vars == <<c, l, reg, bad>>

Init == /\ c \in 1..Len(Cases)
        /\ l = 1 /\ bad = "" /\ reg = << >>

Next == /\ bad = ""
        /\ l <= Len(Cases[c].ev)
        /\ LET e == Cases[c].ev[l]
               v == Verdict(reg, e, Cases[c].N, Cases[c].type = "tropical")
           IN /\ bad' = v
              /\ l' = l + 1
              /\ reg' = IF v = "" THEN NewReg(reg, e) ELSE reg
              /\ c' = c
              /\ IF v # "" THEN PrintT("REJECT|" \o ToString(Cases[c].id) \o "|" \o ToString(l) \o "|" \o e.op \o "|" \o v)
                 ELSE IF l = Len(Cases[c].ev) THEN PrintT("DONE|" \o ToString(Cases[c].id)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
