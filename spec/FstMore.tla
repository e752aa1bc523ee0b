------------------------------ MODULE FstMore ------------------------------
(***************************************************************************)
(* Regular languages and relations over a finite universe U of concrete    *)
(* symbols: determinisation, complement and the operators built from them. *)
(* Everything is exact (no window): the results are machines again.        *)
(***************************************************************************)
EXTENDS FstDecide

\* states reachable from the start and leading to a final state, renumbered
RenumM(M) ==
  LET us == Useful(M)
      sq == ToSeq(us)
      ix == TLCEval([ q \in us |-> (CHOOSE k \in 1..Len(sq) : sq[k] = q) - 1 ])
  IN IF us = {} THEN EmptyM
     ELSE [ n |-> Len(sq), s |-> ix[M.s],
            d |-> TLCEval([ k \in 0..(Len(sq)-1) |-> { <<ix[t[1]], t[2], t[3], t[4]>> : t \in {u \in M.d[sq[k+1]] : u[1] \in us} } ]),
            f |-> TLCEval([ k \in 0..(Len(sq)-1) |-> M.f[sq[k+1]] ]) ]

Explicit(M) ==   \* a lazy machine with few reachable states, made explicit
  LET rs == FwdS(M, {M.s}, {M.s})
      sq == ToSeq(rs)
      ix == TLCEval([ q \in rs |-> (CHOOSE k \in 1..Len(sq) : sq[k] = q) - 1 ])
  IN RenumM([ n |-> Len(sq), s |-> ix[M.s],
       d |-> TLCEval([ k \in 0..(Len(sq)-1) |-> { <<ix[t[1]], t[2], t[3], t[4]>> : t \in M.d[sq[k+1]] } ]),
       f |-> TLCEval([ k \in 0..(Len(sq)-1) |-> M.f[sq[k+1]] ]) ])

SymM(i, o) == [ n |-> 2, s |-> 0, d |-> (0 :> {<<1, i, o, 0>>} @@ 1 :> {}), f |-> (0 :> {} @@ 1 :> {0}) ]
SetM(P)    == [ n |-> 2, s |-> 0, d |-> (0 :> { <<1, p[1], p[2], 0>> : p \in P } @@ 1 :> {}), f |-> (0 :> {} @@ 1 :> {0}) ]
Diag(S)    == { <<x, x>> : x \in S }
AnyM(U)    == SetM(Diag(U))
AllM(U)    == [ n |-> 1, s |-> 0, d |-> (0 :> { <<0, x, x, 0>> : x \in U }), f |-> (0 :> {0}) ]
WeightM(M, w) == Force(Mach(M.n, M.s, LAMBDA q : M.d[q], LAMBDA q : { x + w : x \in M.f[q] }))

(***************************************************************************)
(* Subset construction on the input labels of an acceptor.                 *)
(***************************************************************************)
RECURSIVE Subsets(_, _, _, _)
Subsets(M, U, front, acc) ==
  IF front = {} THEN acc
  ELSE LET nx == { SetStep(M, S, x) : S \in front, x \in U } \ acc IN Subsets(M, U, nx, acc \cup nx)

DetCM(M, U, compl) ==   \* deterministic and complete; complemented if compl
  LET s0 == EClo(M, {M.s}, {M.s})
      S == Subsets(M, U, {s0}, {s0})
      sq == ToSeq(S)
      ix == TLCEval([ x \in S |-> (CHOOSE k \in 1..Len(sq) : sq[k] = x) - 1 ])
  IN [ n |-> Len(sq), s |-> ix[s0],
       d |-> TLCEval([ k \in 0..(Len(sq)-1) |-> { <<ix[SetStep(M, sq[k+1], x)], x, x, 0>> : x \in U } ]),
       f |-> TLCEval([ k \in 0..(Len(sq)-1) |-> IF Acc(M, sq[k+1]) # compl THEN {0} ELSE {} ]) ]
DetM(M, U)  == RenumM(DetCM(M, U, FALSE))
NotM(M, U)  == RenumM(DetCM(M, U, TRUE))

Comp(A, B)   == Explicit(ComposeM(A, B))
AndM(A, B)   == Explicit(PairProdM(A, B))        \* acceptors
MinusM(A, B, U) == Explicit(PairProdM(A, NotM(B, U)))
Cat3(A, B, C) == ConcatM(A, ConcatM(B, C))
HasM(A, U)   == Cat3(AllM(U), A, AllM(U))
NullableM(A) == Acc(A, EClo(A, {A.s}, {A.s}))
\* labels x of S deleted
EraseM(A, S) == RelabelM(A, LAMBDA p : { << IF p[1] \in S THEN EPS ELSE p[1], IF p[2] \in S THEN EPS ELSE p[2] >> })

PrioM(A, B, U)  == UnionM(A, Comp(NotM(InM(A), U), B))
LowPrioM(A, B, U) == UnionM(A, Comp(B, NotM(OutM(A), U)))
LenientM(A, B, U) == PrioM(Comp(A, B), A, U)

\* a copy of T attached at every state of A
IgnoreM(A, T) ==
  LET D(q) == IF q < A.n THEN A.d[q] \cup { <<A.n + q * T.n + T.s, EPS, EPS, 0>> }
              ELSE LET s == (q - A.n) \div T.n  x == (q - A.n) % T.n
                   IN Sh(T.d[x], A.n + s * T.n) \cup { <<s, EPS, EPS, w>> : w \in T.f[x] }
      F(q) == IF q < A.n THEN A.f[q] ELSE {}
  IN Force(Mach(A.n + A.n * T.n, A.s, D, F))

(***************************************************************************)
(* Restriction  A => L1 _ R1, ..., Lk _ Rk : every factor in A stands in   *)
(* one of the contexts.  A string is bad when it can be marked  x < y >  z *)
(* with y in A and no context: x ends in Li, z starts in Ri                 *)
(***************************************************************************)
MKL == "<<"
MKR == ">>"
RECURSIVE UnionAll(_, _)
UnionAll(Ms, k) == IF k = 0 THEN EmptyM ELSE IF k = 1 THEN Ms[1] ELSE UnionM(UnionAll(Ms, k-1), Ms[k])
Marked(X, Y, Z) == ConcatM(X, ConcatM(SymM(MKL, MKL), ConcatM(Y, ConcatM(SymM(MKR, MKR), Z))))
RestrictM(A, cs, U) ==   \* cs: sequence of <<L, R>>
  LET all == AllM(U)
      U2 == U \cup {MKL, MKR}
      good == UnionAll([ k \in 1..Len(cs) |-> Marked(ConcatM(all, cs[k][1]), all, ConcatM(cs[k][2], all)) ], Len(cs))
      bad == MinusM(Marked(all, A, all), good, U2)
  IN NotM(EraseM(bad, {MKL, MKR}), U)

\* exactly one factor in A (A without the empty string)
OnceM(A, U) ==
  LET all == AllM(U)
      some == ConcatM(AnyM(U), all)
      \* two different factors: one starts before the other, or same start and different ends
      two == UnionM(AndM(Cat3(some, A, all), ConcatM(A, all)), AndM(ConcatM(A, some), A))
  IN MinusM(HasM(A, U), HasM(two, U), U)
\* no factor of A B order: no B before A
BeforeM(A, B, U) == NotM(HasM(Cat3(B, AllM(U), A), U), U)
=============================================================================
