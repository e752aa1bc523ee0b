------------------------------ MODULE FstDecide -----------------------------
(***************************************************************************)
(* Exact decision procedures on machines: language equivalence, minimality,*)
(* cyclicity, infinite ambiguity, path enumeration.                        *)
(***************************************************************************)
EXTENDS Fst

RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN Append(ToSeq(S \ {x}), x)

RECURSIVE SumS(_)
SumS(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + SumS(S \ {x})

(***************************************************************************)
(* Equivalence of the input languages of two machines (acceptors in their  *)
(* first label): search for a distinguishing string over pairs of subsets. *)
(***************************************************************************)
RECURSIVE EClo(_, _, _)
EClo(M, front, acc) == IF front = {} THEN acc
  ELSE LET nx == UNION { { t[1] : t \in {u \in M.d[q] : u[2] = EPS} } : q \in front } \ acc IN EClo(M, nx, acc \cup nx)
SetStep(M, S, x) == LET nx == UNION { { t[1] : t \in {u \in M.d[q] : u[2] = x} } : q \in S } IN EClo(M, nx, nx)
LabelsOf(M) == { t[2] : t \in UNION { M.d[q] : q \in 0..(M.n-1) } } \ {EPS}
Acc(M, S) == \E q \in S : M.f[q] # {}

RECURSIVE EqSearch(_, _, _, _, _)
EqSearch(M1, M2, L, front, seen) ==
  IF \E p \in front : Acc(M1, p[1]) # Acc(M2, p[2]) THEN FALSE
  ELSE IF front = {} THEN TRUE
  ELSE LET nx == { << SetStep(M1, p[1], x), SetStep(M2, p[2], x) >> : p \in front, x \in L } \ seen
       IN EqSearch(M1, M2, L, nx, seen \cup nx)
EqLang(M1, M2) == LET s == << EClo(M1, {M1.s}, {M1.s}), EClo(M2, {M2.s}, {M2.s}) >>
                  IN EqSearch(M1, M2, LabelsOf(M1) \cup LabelsOf(M2), {s}, {s})

(***************************************************************************)
(* Minimality of a deterministic value: every state is useful (except the  *)
(* start state of the empty language) and no two states are equivalent.    *)
(* Labels are compared literally, as pairs.                                *)
(***************************************************************************)
ValD(A) == [ q \in 0..(A.n-1) |-> { <<A.t[k][2], <<A.t[k][3], A.t[k][4]>> >> : k \in {j \in 1..Len(A.t) : A.t[j][1] = q} } ]
ValF(A) == { A.f[k][1] : k \in 1..Len(A.f) }
RECURSIVE Refine(_, _, _)
\* part: [state -> class]; classes are refined by (class, set of <<label, class of target>>)
Refine(A, d, part) ==
  LET sig == TLCEval([ q \in DOMAIN part |-> << part[q], { <<t[2], part[t[1]]>> : t \in d[q] } >> ])
      sigs == { sig[q] : q \in DOMAIN sig }
  IN IF Cardinality(sigs) = Cardinality({ part[q] : q \in DOMAIN part }) THEN Cardinality(sigs)
     ELSE LET sq == ToSeq(sigs)
          IN Refine(A, d, TLCEval([ q \in DOMAIN part |-> CHOOSE k \in 1..Len(sq) : sq[k] = sig[q] ]))
Minimal(A) ==
  LET d == TLCEval(ValD(A))
      C == [ n |-> A.n, s |-> 0, d |-> [q \in 0..(A.n-1) |-> { <<t[1], EPS, EPS, 0>> : t \in d[q] }],
             f |-> [q \in 0..(A.n-1) |-> IF q \in ValF(A) THEN {0} ELSE {}] ]
      us == Useful(C)
      classes == Refine(A, d, TLCEval([ q \in 0..(A.n-1) |-> IF q \in ValF(A) THEN 1 ELSE 0 ]))
  IN IF us = {} THEN A.n = 1 ELSE us = 0..(A.n-1) /\ classes = A.n

(***************************************************************************)
(* Cycles.                                                                 *)
(***************************************************************************)
FiltM(M, P(_)) == [ n |-> M.n, s |-> M.s, d |-> TLCEval([q \in 0..(M.n-1) |-> {u \in M.d[q] : P(u)}]), f |-> M.f ]
OnCycle(M, q) == LET s == { t[1] : t \in M.d[q] } IN q \in FwdS(M, s, s)
CyclicM(M) == \E q \in 0..(M.n-1) : OnCycle(M, q)
CyclicFrom(M) == \E q \in FwdS(M, {M.s}, {M.s}) : OnCycle(M, q)
TrimM(M) == LET us == Useful(M) IN [ n |-> M.n, s |-> M.s, f |-> M.f,
              d |-> TLCEval([q \in 0..(M.n-1) |-> IF q \in us THEN {u \in M.d[q] : u[1] \in us} ELSE {}]) ]
\* some input string has infinitely many accepting paths: an input-epsilon cycle
InfAmb(M) == LET E == FiltM(M, LAMBDA t : t[2] = EPS) IN \E q \in 0..(M.n-1) : OnCycle(E, q)
InfAmbU(M) == LET us == Useful(M)  E == FiltM(M, LAMBDA t : t[2] = EPS /\ t[1] \in us) IN \E q \in us : OnCycle(E, q)

(***************************************************************************)
(* Accepting paths of an acyclic machine, as <<in, out, w, arc word>>.     *)
(***************************************************************************)
RECURSIVE PathsFrom(_, _, _, _)
PathsFrom(M, front, out, fuel) ==
  IF front = {} \/ fuel = 0 THEN out
  ELSE LET done == UNION { { << p[2], p[3], p[4] + w, p[5] >> : w \in M.f[p[1]] } : p \in front }
           nx == UNION { { << t[1], Ap(p[2], t[2]), Ap(p[3], t[3]), p[4] + t[4], Append(p[5], <<p[1], t>>) >> : t \in M.d[p[1]] } : p \in front }
       IN PathsFrom(M, nx, out \cup done, fuel - 1)
Paths(M) == PathsFrom(M, {<< M.s, <<>>, <<>>, 0, <<>> >>}, {}, 30)

RECURSIVE SortedBag(_, _)
SortedBag(P, acc) == IF P = {} THEN acc
  ELSE LET m == MinS({p[3] : p \in P})  x == CHOOSE p \in P : p[3] = m IN SortedBag(P \ {x}, Append(acc, m))
SortedW(P) == SortedBag(P, <<>>)
=============================================================================
