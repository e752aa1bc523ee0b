-------------------------------- MODULE RegexSem ------------------------------
(***************************************************************************)
(* Xerox-style regular expressions.  The meaning of an expression is a     *)
(* relation over ALL strings of symbols: "?" is any symbol whatsoever, ~A  *)
(* every other string, whether or not its symbols occur in the expression. *)
(* Ev(x, U) is that meaning over a universe U that contains every symbol   *)
(* of the expression and of the compiled result, and fresh ones.           *)
(***************************************************************************)
EXTENDS ReplaceSem, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Get(e, k, dflt) == IF k \in DOMAIN e THEN e[k] ELSE dflt
FRESH == {"%1", "%2"}
ANY == "@U"

SideSet(s, U) == IF s = ANY THEN U ELSE {s}
LabM(i, o, U) == SetM(SideSet(i, U) \X SideSet(o, U))
RECURSIVE StrM(_, _)
StrM(s, k) == IF k > Len(s) THEN EpsM ELSE ConcatM(SymM(s[k], s[k]), StrM(s, k + 1))

RECURSIVE Ev(_, _)
Ev(x, U) ==
  LET o == x[1]
      E1 == Ev(x[2], U)
      E2 == Ev(x[3], U)
  IN
  CASE o = "sym"   -> SymM(x[2], x[2])
    [] o = "eps"   -> EpsM
    [] o = "any"   -> AnyM(U)
    [] o = "pair"  -> LabM(x[2], x[3], U)
    [] o = "word"  -> StrM(x[2], 1)
    [] o \in {"cross", "colon"} -> CrossM(E1, E2)
    [] o = "or"    -> UnionM(E1, E2)
    [] o = "cat"   -> ConcatM(E1, E2)
    [] o = "and"   -> AndM(E1, E2)
    [] o = "minus" -> MinusM(E1, E2, U)
    [] o = "comp"  -> Comp(E1, E2)
    [] o = "lenient" -> LenientM(E1, E2, U)
    [] o = "prio"  -> PrioM(E1, E2, U)
    [] o = "lprio" -> LowPrioM(E1, E2, U)
    [] o = "ignore" -> IgnoreM(E1, E2)
    [] o = "before" -> BeforeM(E1, E2, U)
    [] o = "after"  -> BeforeM(E2, E1, U)
    [] o = "restr" -> RestrictM(E1, TLCEval([ k \in 1..Len(x[3]) |-> << Ev(x[3][k][1], U), Ev(x[3][k][2], U) >> ]), U)
    [] o = "not"   -> NotM(E1, U)
    [] o = "has"   -> HasM(E1, U)
    [] o = "once"  -> OnceM(E1, U)
    [] o = "atmost" -> UnionM(OnceM(E1, U), NotM(HasM(E1, U), U))
    [] o = "term"  -> MinusM(AnyM(U), E1, U)
    [] o = "opt"   -> OptM(E1)
    [] o = "star"  -> StarM(E1)
    [] o = "plus"  -> PlusM(E1)
    [] o = "rev"   -> ReverseM(E1)
    [] o = "inv"   -> InvertM(E1)
    [] o = "up"    -> InM(E1)
    [] o = "low"   -> OutM(E1)
    [] o = "pow"   -> PowM(E1, x[3])
    [] o = "more"  -> AtLeastM(E1, x[3] + 1)
    [] o = "less"  -> RangeM(E1, 0, x[3] - 1)
    [] o = "range" -> RangeM(E1, x[3], x[4])
    [] o = "weight" -> WeightM(E1, x[3])
    [] o = "net"   -> Conc(x[2], U)      \* a transducer value

RECURSIVE SymsOf(_)
SymsOf(x) ==
  LET o == x[1] IN
  CASE o = "sym" -> {x[2]}
    [] o = "pair" -> {x[2], x[3]} \ {ANY, EPS}
    [] o = "word" -> Rng(x[2])
    [] o \in {"eps", "any"} -> {}
    [] o = "net" -> (Alph(x[2]) \cup Syms(x[2])) \ SPECIAL
    [] o \in {"cross", "colon", "or", "cat", "and", "minus", "comp", "lenient", "prio", "lprio", "ignore", "before", "after"} -> SymsOf(x[2]) \cup SymsOf(x[3])
    [] o = "restr" -> SymsOf(x[2]) \cup UNION { SymsOf(x[3][k][1]) \cup SymsOf(x[3][k][2]) : k \in 1..Len(x[3]) }
    [] OTHER -> SymsOf(x[2])

(***************************************************************************)
(* Definitions are expanded where they stand; functions where they are     *)
(* called.                                                                 *)
(***************************************************************************)
RECURSIVE Res(_, _, _)
Res(x, st, args) ==
  LET o == x[1] IN
  CASE o = "def" -> st.defs[x[2]]
    [] o = "arg" -> args[x[2]]
    [] o = "call" -> LET as == [ k \in 1..Len(x[3]) |-> Res(x[3][k], st, args) ] IN Res(st.fns[x[2]], st, as)
    [] o \in {"sym", "eps", "any", "pair", "word", "net"} -> x
    [] o \in {"cross", "colon", "or", "cat", "and", "minus", "comp", "lenient", "prio", "lprio", "ignore", "before", "after"}
         -> << o, Res(x[2], st, args), Res(x[3], st, args) >>
    [] o = "restr" -> << o, Res(x[2], st, args), [ k \in 1..Len(x[3]) |-> << Res(x[3][k][1], st, args), Res(x[3][k][2], st, args) >> ] >>
    [] OTHER -> [ x EXCEPT ![2] = Res(x[2], st, args) ]

(***************************************************************************)
(* Replace rules: the parts are expressions, taken as sets of strings.     *)
(***************************************************************************)
LangS(x, U, N) == Ins(RelS(Ev(x, U), N))
LangW(x, U, N) == { <<r[1], r[3]>> : r \in RelW(Ev(x, U), N) }
RuleOf(r, U, N) ==
  [ type |-> r.type,
    maps |-> TLCEval([ k \in 1..Len(r.maps) |-> [ kind |-> r.maps[k].kind, a |-> LangS(r.maps[k].a, U, N),
                       b |-> LangW(r.maps[k].b, U, N), b2 |-> LangW(r.maps[k].b2, U, N) ] ]),
    ctx |-> TLCEval([ k \in 1..Len(r.ctx) |-> [ l |-> LangS(r.ctx[k].l, U, N), lb |-> r.ctx[k].lb = 1,
                      r |-> LangS(r.ctx[k].r, U, N), rb |-> r.ctx[k].rb = 1 ] ]) ]
RuleSyms(r) == UNION { SymsOf(r.maps[k].a) \cup SymsOf(r.maps[k].b) \cup SymsOf(r.maps[k].b2) : k \in 1..Len(r.maps) }
               \cup UNION { SymsOf(r.ctx[k].l) \cup SymsOf(r.ctx[k].r) : k \in 1..Len(r.ctx) }
=============================================================================
