-------------------------------- MODULE Fst --------------------------------
(***************************************************************************)
(* The semantic domain of HFST: weighted finite-state transducers and the  *)
(* weighted string relations they denote.                                  *)
(*                                                                         *)
(* A transducer VALUE (the projection of an implementation object that the *)
(* harness logs) is a record                                               *)
(*   [n |-> number of states (0 is initial),                               *)
(*    t |-> << <<src, dst, isym, osym, w>>, ... >>,                        *)
(*    f |-> << <<state, w>>, ... >>,                                       *)
(*    a |-> << symbols of the alphabet >> ]                                *)
(* Weights are integers (quarter units).  "" is epsilon, "@I" identity and *)
(* "@U" unknown.                                                           *)
(*                                                                         *)
(* A MACHINE is a record [n, s, d, f]: states 0..n-1, start state s,       *)
(* d[q] = set of arcs <<dst, i, o, w>>, f[q] = set of final weights; its   *)
(* labels are concrete symbols or "".  Conc(A, U) makes the machine of a   *)
(* value over the universe U.  Rel(M, N) is its relation restricted to     *)
(* pairs of strings of at most N symbols each: inside that window it is    *)
(* exact, also for cyclic machines (least path weight, by Dijkstra).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

EPS == ""
ID  == "@I"
UNK == "@U"
SPECIAL == {EPS, ID, UNK}

Rng(s) == { s[k] : k \in 1..Len(s) }
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
MinN(a, b) == IF a <= b THEN a ELSE b
Alph(A) == Rng(A.a) \ SPECIAL
Syms(A) == UNION { {A.t[k][3], A.t[k][4]} : k \in 1..Len(A.t) } \ SPECIAL

RECURSIVE StrsN(_, _)
StrsN(U, n) == IF n = 0 THEN {<<>>}
               ELSE LET S == StrsN(U, n-1)
                    IN S \cup { Append(s, x) : s \in {z \in S : Len(z) = n-1}, x \in U }

(***************************************************************************)
(* Concrete arcs.  U is the universe of concrete symbols: every symbol that*)
(* any participating transducer knows, plus symbols unknown to all of them.*)
(* In A an identity or unknown arc ranges over U minus A's own alphabet.   *)
(***************************************************************************)
ArcPairs(i, o, oth) ==
  IF i = ID \/ o = ID THEN { <<x, x>> : x \in oth }
  ELSE IF i = UNK /\ o = UNK THEN { p \in oth \X oth : p[1] # p[2] }
  ELSE (IF i = UNK THEN oth ELSE {i}) \X (IF o = UNK THEN oth ELSE {o})

Conc(A, U) ==
  LET oth == U \ Alph(A)
      plain == { k \in 1..Len(A.t) : A.t[k][3] \notin {ID, UNK} /\ A.t[k][4] \notin {ID, UNK} }
      spec  == (1..Len(A.t)) \ plain
  IN [ n |-> A.n, s |-> 0,
       d |-> TLCEval([ q \in 0..(A.n - 1) |->
                 { <<A.t[k][2], A.t[k][3], A.t[k][4], A.t[k][5]>> : k \in {j \in plain : A.t[j][1] = q} }
                 \cup UNION { { <<A.t[k][2], p[1], p[2], A.t[k][5]>> : p \in ArcPairs(A.t[k][3], A.t[k][4], oth) }
                              : k \in {j \in spec : A.t[j][1] = q} } ]),
       f |-> TLCEval([ q \in 0..(A.n - 1) |->
                 { A.f[k][2] : k \in {j \in 1..Len(A.f) : A.f[j][1] = q} } ]) ]

Ap(s, x) == IF x = EPS THEN s ELSE Append(s, x)

(***************************************************************************)
(* Rel(M, N): set of << in, out, w >>, w the least weight of the pair.     *)
(* Configurations are <<state, in, out>>; weight levels in increasing order*)
(***************************************************************************)
Fits(u, c, N) == (u[2] = EPS \/ Len(c[2]) < N) /\ (u[3] = EPS \/ Len(c[3]) < N)

RECURSIVE Clo0(_, _, _, _, _)
Clo0(M, N, front, acc, seen) ==
  IF front = {} THEN acc
  ELSE LET nx == UNION { { <<t[1], Ap(c[2], t[2]), Ap(c[3], t[3])>> :
                             t \in {u \in M.d[c[1]] : u[4] = 0 /\ Fits(u, c, N)} } : c \in front }
           new == (nx \ acc) \ seen
       IN Clo0(M, N, new, acc \cup new, seen)

RECURSIVE Lvl(_, _, _, _, _)
Lvl(M, N, pend, seen, out) ==
  IF pend = {} THEN out
  ELSE LET w0 == MinS({p[1] : p \in pend})
           st == { p[2] : p \in {x \in pend : x[1] = w0} } \ seen
           cl == Clo0(M, N, st, st, seen)
           seen2 == seen \cup cl
           add == UNION { { << w0 + t[4], <<t[1], Ap(c[2], t[2]), Ap(c[3], t[3])>> >> :
                             t \in {u \in M.d[c[1]] : u[4] > 0 /\ Fits(u, c, N)} } : c \in cl }
           fin == UNION { { << w0 + w, c[2], c[3] >> : w \in M.f[c[1]] } : c \in cl }
           pend2 == { p \in (pend \cup add) : p[1] > w0 /\ p[2] \notin seen2 }
       IN Lvl(M, N, pend2, seen2, out \cup fin)

RECURSIVE Least(_, _)
Least(S, acc) ==
  IF S = {} THEN acc
  ELSE LET w0 == MinS({s[1] : s \in S})
           h  == { <<s[2], s[3], s[1]>> : s \in {x \in S : x[1] = w0} }
           ks == { <<x[1], x[2]>> : x \in h }
       IN Least({ s \in S : s[1] > w0 /\ <<s[2], s[3]>> \notin ks }, acc \cup h)

RelW(M, N) == Least(Lvl(M, N, {<<0, <<M.s, <<>>, <<>>>>>>}, {}, {}), {})

\* the relation without weights: a plain search
RECURSIVE Reach(_, _, _, _)
Reach(M, N, front, acc) ==
  IF front = {} THEN acc
  ELSE LET nx == UNION { { <<t[1], Ap(c[2], t[2]), Ap(c[3], t[3])>> : t \in {u \in M.d[c[1]] : Fits(u, c, N)} } : c \in front }
           new == nx \ acc
       IN Reach(M, N, new, acc \cup new)
RelS(M, N) == LET st == {<<M.s, <<>>, <<>>>>}
              IN { <<c[2], c[3]>> : c \in {x \in Reach(M, N, st, st) : M.f[x[1]] # {}} }

Supp(R) == { <<r[1], r[2]>> : r \in R }
Ins(R)  == { r[1] : r \in R }
Outs(R) == { r[2] : r \in R }

(***************************************************************************)
(* Rel(M, N, w): relation of M; with weights if w, else all weights 0.     *)
(***************************************************************************)
Rel(M, N, weighted) == IF weighted THEN RelW(M, N) ELSE { <<p[1], p[2], 0>> : p \in RelS(M, N) }

(***************************************************************************)
(* Machine constructions: the reference meaning of every operation.        *)
(***************************************************************************)
Mach(n, s, D(_), F(_)) == [ n |-> n, s |-> s, d |-> [q \in 0..(n-1) |-> D(q)], f |-> [q \in 0..(n-1) |-> F(q)] ]
Force(M) == [ n |-> M.n, s |-> M.s, d |-> TLCEval(M.d), f |-> TLCEval(M.f) ]
Sh(arcs, k) == { <<t[1] + k, t[2], t[3], t[4]>> : t \in arcs }
EmptyM == Mach(1, 0, LAMBDA q : {}, LAMBDA q : {})
EpsM   == Mach(1, 0, LAMBDA q : {}, LAMBDA q : {0})

UnionM(A, B) ==
  LET D(q) == IF q = 0 THEN {<<A.s + 1, EPS, EPS, 0>>, <<B.s + 1 + A.n, EPS, EPS, 0>>}
              ELSE IF q <= A.n THEN Sh(A.d[q-1], 1) ELSE Sh(B.d[q-1-A.n], 1 + A.n)
      F(q) == IF q = 0 THEN {} ELSE IF q <= A.n THEN A.f[q-1] ELSE B.f[q-1-A.n]
  IN Force(Mach(1 + A.n + B.n, 0, D, F))

ConcatM(A, B) ==
  LET D(q) == IF q < A.n THEN A.d[q] \cup { <<B.s + A.n, EPS, EPS, w>> : w \in A.f[q] }
              ELSE Sh(B.d[q - A.n], A.n)
      F(q) == IF q < A.n THEN {} ELSE B.f[q - A.n]
  IN Force(Mach(A.n + B.n, A.s, D, F))

PlusM(A) ==
  LET D(q) == A.d[q] \cup { <<A.s, EPS, EPS, w>> : w \in A.f[q] }
  IN Force(Mach(A.n, A.s, D, LAMBDA q : A.f[q]))
OptM(A) == UnionM(A, EpsM)
StarM(A) == OptM(PlusM(A))

RECURSIVE PowM(_, _)
PowM(A, k) == IF k = 0 THEN EpsM ELSE IF k = 1 THEN A ELSE ConcatM(PowM(A, k-1), A)
\* between lo and hi repetitions
RangeM(A, lo, hi) == ConcatM(PowM(A, lo), PowM(OptM(A), hi - lo))
AtLeastM(A, k) == ConcatM(PowM(A, k), StarM(A))

InvertM(A) == Force(Mach(A.n, A.s, LAMBDA q : { <<t[1], t[3], t[2], t[4]>> : t \in A.d[q] }, LAMBDA q : A.f[q]))
InM(A)  == Force(Mach(A.n, A.s, LAMBDA q : { <<t[1], t[2], t[2], t[4]>> : t \in A.d[q] }, LAMBDA q : A.f[q]))
OutM(A) == Force(Mach(A.n, A.s, LAMBDA q : { <<t[1], t[3], t[3], t[4]>> : t \in A.d[q] }, LAMBDA q : A.f[q]))
\* maps every arc label pair
ReverseM(A) ==
  LET D(q) == IF q = 0 THEN UNION { { <<p + 1, EPS, EPS, w>> : w \in A.f[p] } : p \in 0..(A.n-1) }
              ELSE UNION { { <<p + 1, t[2], t[3], t[4]>> : t \in {u \in A.d[p] : u[1] = q - 1} } : p \in 0..(A.n-1) }
      F(q) == IF q = A.s + 1 THEN {0} ELSE {}
  IN Force(Mach(A.n + 1, 0, D, F))

ComposeM(A, B) ==
  LET D(x) == LET p == x \div B.n  q == x % B.n IN
                UNION { IF t[3] = EPS THEN {<<t[1] * B.n + q, t[2], EPS, t[4]>>}
                        ELSE { <<t[1] * B.n + u[1], t[2], u[3], t[4] + u[4]>> : u \in {v \in B.d[q] : v[2] = t[3]} }
                        : t \in A.d[p] }
                \cup { <<p * B.n + u[1], EPS, u[3], u[4]>> : u \in {v \in B.d[q] : v[2] = EPS} }
      F(x) == { v + w : v \in A.f[x \div B.n], w \in B.f[x % B.n] }
  IN Mach(A.n * B.n, A.s * B.n + B.s, D, F)

\* product on label pairs; eps:eps arcs move one side alone
PairProdM(A, B) ==
  LET D(x) == LET p == x \div B.n  q == x % B.n IN
                UNION { IF t[2] = EPS /\ t[3] = EPS THEN {<<t[1] * B.n + q, EPS, EPS, t[4]>>}
                        ELSE { <<t[1] * B.n + u[1], t[2], t[3], t[4] + u[4]>> : u \in {v \in B.d[q] : v[2] = t[2] /\ v[3] = t[3]} }
                        : t \in A.d[p] }
                \cup { <<p * B.n + u[1], EPS, EPS, u[4]>> : u \in {v \in B.d[q] : v[2] = EPS /\ v[3] = EPS} }
      F(x) == { v + w : v \in A.f[x \div B.n], w \in B.f[x % B.n] }
  IN Mach(A.n * B.n, A.s * B.n + B.s, D, F)

\* every input of A with every output of B
CrossM(A, B) == ConcatM(Mach(A.n, A.s, LAMBDA q : { <<t[1], t[2], EPS, t[4]>> : t \in A.d[q] }, LAMBDA q : A.f[q]),
                        Mach(B.n, B.s, LAMBDA q : { <<t[1], EPS, t[3], t[4]>> : t \in B.d[q] }, LAMBDA q : B.f[q]))

ShuffleM(A, B) ==
  LET D(x) == LET p == x \div B.n  q == x % B.n IN
                { <<t[1] * B.n + q, t[2], t[3], t[4]>> : t \in A.d[p] } \cup { <<p * B.n + u[1], u[2], u[3], u[4]>> : u \in B.d[q] }
      F(x) == { v + w : v \in A.f[x \div B.n], w \in B.f[x % B.n] }
  IN Mach(A.n * B.n, A.s * B.n + B.s, D, F)

\* pair symbols as single symbols, for operations that work on label pairs
PairM(A) == Force(Mach(A.n, A.s, LAMBDA q : { <<t[1], IF t[2] = EPS /\ t[3] = EPS THEN EPS ELSE t[2] \o ":" \o t[3], EPS, t[4]>> : t \in A.d[q] },
                       LAMBDA q : A.f[q]))
PRel(A, N, weighted) == { <<r[1], r[3]>> : r \in Rel(PairM(A), N, weighted) }

\* every label pair p of A replaced by the labels of S(p)
RelabelM(A, S(_)) == Force(Mach(A.n, A.s, LAMBDA q : UNION { { <<t[1], p[1], p[2], t[4]>> : p \in S(<<t[2], t[3]>>) } : t \in A.d[q] },
                                LAMBDA q : A.f[q]))
MapWM(A, AW(_), FW(_)) == Force(Mach(A.n, A.s, LAMBDA q : { <<t[1], t[2], t[3], AW(t[4])>> : t \in A.d[q] },
                                   LAMBDA q : { FW(w) : w \in A.f[q] }))

(***************************************************************************)
(* Trimming: the states that lie on an accepting path.                     *)
(***************************************************************************)
RECURSIVE FwdS(_, _, _)
FwdS(M, front, acc) == IF front = {} THEN acc
  ELSE LET nx == UNION { { t[1] : t \in M.d[q] } : q \in front } \ acc IN FwdS(M, nx, acc \cup nx)
RECURSIVE BwdS(_, _)
BwdS(M, acc) == LET nx == { q \in 0..(M.n-1) : q \notin acc /\ \E t \in M.d[q] : t[1] \in acc }
                IN IF nx = {} THEN acc ELSE BwdS(M, acc \cup nx)
Useful(M) == FwdS(M, {M.s}, {M.s}) \cap BwdS(M, { q \in 0..(M.n-1) : M.f[q] # {} })
=============================================================================
