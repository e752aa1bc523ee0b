-------------------------------- MODULE Lookup -------------------------------
(***************************************************************************)
(* Paths, flag diacritics and lookup.                                      *)
(*                                                                         *)
(* State: registers holding transducer values.  A flag table of the case   *)
(* (ft: sequence of <<symbol, operator, feature, value>>) says which       *)
(* symbols are flag diacritics.  A flag CONFIGURATION is a set of          *)
(* <<feature, polarity, value>> with at most one entry per feature; flags  *)
(* are its transitions (FStep).  Everything else is a search over          *)
(* <<state, flag configuration, input position, ...>>.                     *)
(***************************************************************************)
EXTENDS FstDecide, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Has(e, k) == k \in DOMAIN e
Get(e, k, d) == IF k \in DOMAIN e THEN e[k] ELSE d
FRESH == {"%1", "%2"}

(***************************************************************************)
(* Flag diacritics.                                                        *)
(***************************************************************************)
FlagsOf(ft) == { ft[k][1] : k \in 1..Len(ft) }
FRec(ft, x) == ft[CHOOSE k \in 1..Len(ft) : ft[k][1] = x]
FSet(fc, f) == { y \in fc : y[1] = f }
FStep(ft, fc, x) ==
  LET r == FRec(ft, x)  op == r[2]  f == r[3]  v == r[4]
      cur == FSet(fc, f)  rest == fc \ cur
      pos == <<f, 1, v>> \in cur
  IN CASE op = "P" -> { rest \cup {<<f, 1, v>>} }
       [] op = "N" -> { rest \cup {<<f, 0, v>>} }
       [] op = "C" -> { rest }
       [] op = "R" -> IF v = "" THEN (IF cur # {} THEN {fc} ELSE {}) ELSE (IF pos THEN {fc} ELSE {})
       [] op = "D" -> IF v = "" THEN (IF cur = {} THEN {fc} ELSE {}) ELSE (IF pos THEN {} ELSE {fc})
       [] op = "U" -> IF cur = {} \/ pos \/ \E y \in cur : y[2] = 0 /\ y[3] # v THEN { rest \cup {<<f, 1, v>>} } ELSE {}

\* literal machine of a value: special symbols are labels like any other
Lit(A) == [ n |-> A.n, s |-> 0,
            d |-> TLCEval([ q \in 0..(A.n-1) |-> { <<A.t[k][2], A.t[k][3], A.t[k][4], A.t[k][5]>> : k \in {j \in 1..Len(A.t) : A.t[j][1] = q} } ]),
            f |-> TLCEval([ q \in 0..(A.n-1) |-> { A.f[k][2] : k \in {j \in 1..Len(A.f) : A.f[j][1] = q} } ]) ]

\* successors <<arc, fc'>> of (q, fc); obey = FALSE: flags are not interpreted
Nxt(M, ft, obey, q, fc) ==
  UNION { IF obey /\ t[2] \in FlagsOf(ft) THEN { <<t, g>> : g \in FStep(ft, fc, t[2]) } ELSE { <<t, fc>> } : t \in M.d[q] }

(***************************************************************************)
(* The machine without the flags: states are <<state, configuration>>.     *)
(***************************************************************************)
NoF(ft, S, x) == IF x \in S THEN EPS ELSE x
RECURSIVE FReach(_, _, _, _)
FReach(M, ft, front, acc) ==
  IF front = {} THEN acc
  ELSE LET nx == UNION { { <<y[1][1], y[2]>> : y \in Nxt(M, ft, TRUE, p[1], p[2]) } : p \in front } \ acc
       IN FReach(M, ft, nx, acc \cup nx)
FlagM(M, ft) ==
  LET F == FlagsOf(ft)
      R == FReach(M, ft, {<<M.s, {}>>}, {<<M.s, {}>>})
  IN [ s |-> <<M.s, {}>>,
       d |-> TLCEval([ p \in R |-> { << <<y[1][1], y[2]>>, NoF(ft, F, y[1][2]), NoF(ft, F, y[1][3]), y[1][4] >> : y \in Nxt(M, ft, TRUE, p[1], p[2]) } ]),
       f |-> TLCEval([ p \in R |-> M.f[p[1]] ]) ]
\* the same with the states numbered
NumM(M) == LET q == ToSeq(DOMAIN M.d)
               ix == TLCEval([ p \in DOMAIN M.d |-> (CHOOSE k \in 1..Len(q) : q[k] = p) - 1 ])
           IN Force(Mach(Len(q), ix[M.s], LAMBDA k : { <<ix[t[1]], t[2], t[3], t[4]>> : t \in M.d[q[k+1]] }, LAMBDA k : M.f[q[k+1]]))
\* the flags dropped without being interpreted
NoFlagM(M, F) == [ M EXCEPT !.d = TLCEval([ q \in DOMAIN M.d |-> { <<t[1], NoF(<<>>, F, t[2]), NoF(<<>>, F, t[3]), t[4]>> : t \in M.d[q] } ]) ]
\* flags of one feature only
FtOf(ft, feat) == SelectSeq(ft, LAMBDA r : r[3] = feat)

(***************************************************************************)
(* Path enumeration.                                                       *)
(* Walks(M, ft, obey, lim): label sequences and weights of the accepting   *)
(* walks that visit no state more than lim times (lim < 0: no limit, for   *)
(* acyclic machines).                                                      *)
(***************************************************************************)
Vis(v, q) == IF q \in DOMAIN v THEN v[q] ELSE 0
RECURSIVE WalkFrom(_, _, _, _, _, _)
WalkFrom(M, ft, obey, lim, front, out) ==
  IF front = {} THEN out
  ELSE LET done == UNION { { <<p.i, p.o, p.w + w>> : w \in M.f[p.q] } : p \in front }
           nx == UNION { { [ q |-> y[1][1], fc |-> y[2], i |-> Append(p.i, y[1][2]), o |-> Append(p.o, y[1][3]), w |-> p.w + y[1][4],
                             v |-> IF lim < 0 THEN p.v ELSE [p.v EXCEPT ![y[1][1]] = @ + 1] ]
                            : y \in { z \in Nxt(M, ft, obey, p.q, p.fc) : lim < 0 \/ p.v[z[1][1]] < lim } } : p \in front }
       IN WalkFrom(M, ft, obey, lim, nx, out \cup done)
Walks(M, ft, obey, lim) ==
  WalkFrom(M, ft, obey, lim, {[ q |-> M.s, fc |-> {}, i |-> <<>>, o |-> <<>>, w |-> 0,
                                v |-> IF lim < 0 THEN <<>> ELSE [ q \in 0..(M.n-1) |-> IF q = M.s THEN 1 ELSE 0 ] ]}, {})

\* is <<ins, outs, w>> the label sequence of an accepting walk?
IsWalk(M, ft, obey, a) ==
  LET RECURSIVE G(_, _)
      G(S, k) == IF k > Len(a[1]) THEN S
                 ELSE G(UNION { { <<y[1][1], y[2], p[3] + y[1][4]>> : y \in {z \in Nxt(M, ft, obey, p[1], p[2]) : z[1][2] = a[1][k] /\ z[1][3] = a[2][k]} } : p \in S }, k + 1)
  IN \E p \in G({<<M.s, {}, 0>>}, 1) : \E w \in M.f[p[1]] : p[3] + w = a[3]

Filt(F, s) == [ k \in 1..Len(s) |-> IF s[k] \in F THEN EPS ELSE s[k] ]
NoEps(s) == SelectSeq(s, LAMBDA x : x # EPS)
Strip(F, s) == SelectSeq(s, LAMBDA x : x # EPS /\ x \notin F)
FiltW(F, W) == { <<Filt(F, x[1]), Filt(F, x[2]), x[3]>> : x \in W }
BareW(W) == { <<NoEps(x[1]), NoEps(x[2]), x[3]>> : x \in W }
LeastW(W) == Least({ <<x[3], x[1], x[2]>> : x \in W }, {})
\* the walks of a flag-filtered query seen through the filter: filtered label sequences match a filtered walk
IsFiltWalk(M, ft, F, a) ==
  LET RECURSIVE G(_, _)
      G(S, k) == IF k > Len(a[1]) THEN S
                 ELSE G(UNION { { <<y[1][1], y[2], p[3] + y[1][4]>> : y \in {z \in Nxt(M, ft, TRUE, p[1], p[2]) :
                        NoF(ft, F, z[1][2]) = a[1][k] /\ NoF(ft, F, z[1][3]) = a[2][k]} } : p \in S }, k + 1)
  IN \E p \in G({<<M.s, {}, 0>>}, 1) : \E w \in M.f[p[1]] : p[3] + w = a[3]

Cyc(M) == \E q \in FwdS(M, {M.s}, {M.s}) : OnCycle(M, q)
CycAny(M) == \E q \in 0..(M.n-1) : OnCycle(M, q)       \* is_cyclic may or may not look at unreachable states
AnsSet(e) == { <<e.ans[k][1], e.ans[k][2], e.ans[k][3]>> : k \in 1..Len(e.ans) }

PathsOK(e, M, ft) ==
  LET F == FlagsOf(ft)
      obey == Get(e, "fd", 0) = 1
      filt == obey /\ Get(e, "filter", 1) = 1
      A == AnsSet(e)
      see(W) == IF filt THEN FiltW(F, W) ELSE W
  IN /\ filt \/ Cardinality(A) = Len(e.ans)     \* a filtered flag and an epsilon look alike
     /\ IF e.cycles >= 0 \/ ~ Cyc(M)
        THEN LET all == see(Walks(M, ft, obey, IF e.cycles >= 0 THEN e.cycles + 1 ELSE -1))
             IN IF e.max < 1 THEN A = all
                ELSE IF filt THEN A \subseteq all /\ Len(e.ans) <= e.max /\ (Len(e.ans) < e.max => A = all)
                ELSE A \subseteq all /\ Cardinality(A) = MinN(e.max, Cardinality(all))
        ELSE /\ Len(e.ans) = e.max       \* cyclic, no cycle limit: given only to machines with infinitely many walks
             /\ \A a \in A : IF filt THEN IsFiltWalk(M, ft, F, a) ELSE IsWalk(M, ft, obey, a)

\* the walks seen through remove_flags (label pairs with a flag are dropped): is a one of them?
IsDropWalk(M, ft, F, a) ==
  LET flg(t) == t[2] \in F \/ t[3] \in F
      ok(p) == p[3] <= a[3]
      RECURSIVE Cl(_, _), G(_, _)
      Cl(front, acc) == IF front = {} THEN acc
         ELSE LET nx == { p \in UNION { { <<y[1][1], y[2], p[3] + y[1][4]>> : y \in {z \in Nxt(M, ft, TRUE, p[1], p[2]) : flg(z[1])} } : p \in front } : ok(p) } \ acc
              IN Cl(nx, acc \cup nx)
      G(S0, k) == LET S == Cl(S0, S0) IN
                  IF k > Len(a[1]) THEN S
                  ELSE G(UNION { { <<y[1][1], y[2], p[3] + y[1][4]>> : y \in {z \in Nxt(M, ft, TRUE, p[1], p[2]) : ~ flg(z[1]) /\ z[1][2] = a[1][k] /\ z[1][3] = a[2][k]} } : p \in S }, k + 1)
  IN \E p \in G({<<M.s, {}, 0>>}, 1) : \E w \in M.f[p[1]] : p[3] + w = a[3]

RandomOK(e, M, ft) ==
  LET F == FlagsOf(ft)
      obey == Get(e, "fd", 0) = 1
      filt == obey /\ Get(e, "filter", 1) = 1
      A == AnsSet(e)
  IN /\ Cardinality(A) <= e.max
     /\ \A a \in A : IF filt THEN IsDropWalk(M, ft, F, a) ELSE IsWalk(M, ft, obey, a)

ShortOK(e, M) ==
  LET all == BareW(Walks(M, <<>>, FALSE, -1))
      A == BareW(AnsSet(e))
  IN /\ (A = {}) = (all = {})
     /\ A \subseteq all
     /\ \A a \in A : a[3] = MinS({x[3] : x \in all})

LongestOK(e, M, ft) ==
  LET F == FlagsOf(ft)
      all == Walks(M, ft, e.obey = 1, -1)
      len(x) == Len(x[1])
      top == { x \in all : \A y \in all : len(y) <= len(x) }
      see(x) == IF e.obey = 1 THEN <<Strip(F, x[1]), Strip(F, x[2]), x[3]>> ELSE <<NoEps(x[1]), NoEps(x[2]), x[3]>>
  IN /\ (e.ret = 1) = (all # {})
     /\ (e.ret = 0) = (e.ans = << >>)
     /\ LeastW(BareW(AnsSet(e))) = LeastW({ see(x) : x \in top })

LongSizeOK(e, M, ft) ==
  LET all == Walks(M, ft, e.obey = 1, -1)
  IN e.ans = MaxS({-1} \cup { Len(x[1]) : x \in all })

(***************************************************************************)
(* Lookup in a basic transducer.  A configuration remembers the states     *)
(* passed since the last consumed symbol; returning to one of them is an   *)
(* epsilon cycle, of which at most "cycles" may follow each other.         *)
(***************************************************************************)
RECURSIVE IndexOf(_, _, _)
IndexOf(s, x, k) == IF k > Len(s) THEN 0 ELSE IF s[k] = x THEN k ELSE IndexOf(s, x, k + 1)
Match(A, x, sym) == sym = x \/ (x \in {ID, UNK} /\ sym \notin Rng(A.a))

RECURSIVE LkFrom(_, _, _, _, _, _, _)
LkFrom(A, M, ft, e, word, front, out) ==
  IF front = {} THEN out
  ELSE
    LET obey == Get(e, "flags", 0) = 1
        F == FlagsOf(ft)
        cap(w) == ~ Has(e, "maxw") \/ w <= e.maxw
        \* arrival: cut the epsilon path at an earlier visit
        arr(p) == LET k == IndexOf(p.ep, p.q, 1)
                  IN IF k = 0 THEN p ELSE [p EXCEPT !.ep = SubSeq(p.ep, 1, k), !.cy = p.cy + 1]
        F1 == { arr(p) : p \in {x \in front : cap(x.w)} }
        F2 == IF Has(e, "cycles") THEN { p \in F1 : p.cy <= e.cycles } ELSE F1
        done == UNION { IF p.k > Len(word) THEN { <<p.i, p.o, p.w + w>> : w \in {v \in M.f[p.q] : cap(p.w + v)} } ELSE {} : p \in F2 }
        free(p, y) == [ p EXCEPT !.q = y[1][1], !.fc = y[2], !.ep = IF Len(p.ep) > 0 /\ p.ep[Len(p.ep)] = p.q THEN p.ep ELSE Append(p.ep, p.q),
                                 !.i = Append(p.i, y[1][2]), !.o = Append(p.o, y[1][3]), !.w = p.w + y[1][4] ]
        eat(p, t) == [ p EXCEPT !.q = t[1], !.ep = <<>>, !.cy = 0, !.k = p.k + 1, !.i = Append(p.i, word[p.k]),
                                !.o = Append(p.o, IF t[2] = ID THEN word[p.k] ELSE t[3]), !.w = p.w + t[4] ]
        nx == UNION { { free(p, y) : y \in { z \in Nxt(M, ft, obey, p.q, p.fc) : z[1][2] = EPS \/ z[1][2] \in F } }
                      \cup (IF p.k > Len(word) THEN {}
                            ELSE { eat(p, t) : t \in { u \in M.d[p.q] : u[2] # EPS /\ u[2] \notin F /\ Match(A, u[2], word[p.k]) } }) : p \in F2 }
    IN LkFrom(A, M, ft, e, word, nx, out \cup done)
BLookup(A, ft, e) ==
  LET M == Lit(A)
  IN LkFrom(A, M, ft, e, e.word, {[ q |-> 0, fc |-> {}, k |-> 1, ep |-> <<>>, cy |-> 0, i |-> <<>>, o |-> <<>>, w |-> 0 ]}, {})
BLookupOK(e, A, ft) ==
  LET all == BLookup(A, ft, e)  R == AnsSet(e)
      m == Get(e, "max", -1)
  IN IF m < 0 THEN R = all ELSE R \subseteq all /\ Cardinality(R) = MinN(m, Cardinality(all))

(***************************************************************************)
(* Optimized lookup.  The word is tokenized by longest match over the      *)
(* input symbols; flags are always obeyed.                                 *)
(***************************************************************************)
\* all results of reading word: <<output without epsilons and flags, weight>>; FIN bounds the number of arcs that read nothing in a row
OLook(A, ft, word, fin) ==
  LET M == Lit(A)
      F == FlagsOf(ft)
      RECURSIVE G(_, _, _)
      G(front, seen, out) ==
        IF front = {} THEN out
        ELSE LET done == UNION { IF p.k > Len(word) THEN { <<p.o, p.w + w>> : w \in M.f[p.q] } ELSE {} : p \in front }
                 nx == UNION { { [ p EXCEPT !.q = y[1][1], !.fc = y[2], !.o = IF y[1][3] \in F THEN p.o ELSE Ap(p.o, y[1][3]), !.w = p.w + y[1][4], !.r = p.r + 1 ]
                                 : y \in { z \in Nxt(M, ft, TRUE, p.q, p.fc) : (z[1][2] = EPS \/ z[1][2] \in F) /\ p.r < fin } }
                               \cup (IF p.k > Len(word) THEN {}
                                     ELSE { [ p EXCEPT !.q = t[1], !.k = p.k + 1, !.r = 0, !.o = Ap(p.o, IF t[3] \in {ID, UNK} THEN word[p.k] ELSE IF t[3] \in F THEN EPS ELSE t[3]), !.w = p.w + t[4] ]
                                            : t \in { u \in M.d[p.q] : u[2] # EPS /\ u[2] \notin F /\ Match(A, u[2], word[p.k]) } }) : p \in front } \ seen
             IN G(nx, seen \cup nx, out \cup done)
      st == {[ q |-> 0, fc |-> {}, k |-> 1, r |-> 0, o |-> <<>>, w |-> 0 ]}
  IN G(st, st, {})
\* is <<out, w>> a result?  (any number of silent arcs)
OIs(A, ft, word, a) ==
  LET M == Lit(A)
      F == FlagsOf(ft)
      RECURSIVE G(_, _)
      G(front, acc) ==
        IF front = {} THEN acc
        ELSE LET ok(p) == p.j <= Len(a[1]) /\ p.w <= a[2]
                 \* output x of an arc appended: still a prefix of a[1]?
                 app(p, x) == IF x = EPS \/ x \in F THEN {p.j} ELSE IF p.j < Len(a[1]) /\ a[1][p.j + 1] = x THEN {p.j + 1} ELSE {}
                 nx == UNION { UNION { { [ p EXCEPT !.q = y[1][1], !.fc = y[2], !.j = j, !.w = p.w + y[1][4] ] : j \in app(p, y[1][3]) }
                                 : y \in { z \in Nxt(M, ft, TRUE, p.q, p.fc) : z[1][2] = EPS \/ z[1][2] \in F } }
                               \cup (IF p.k > Len(word) THEN {}
                                     ELSE UNION { { [ p EXCEPT !.q = t[1], !.k = p.k + 1, !.j = j, !.w = p.w + t[4] ] : j \in app(p, IF t[3] \in {ID, UNK} THEN word[p.k] ELSE t[3]) }
                                            : t \in { u \in M.d[p.q] : u[2] # EPS /\ u[2] \notin F /\ Match(A, u[2], word[p.k]) } }) : p \in front }
                 nw == { p \in nx : p.w <= a[2] } \ acc
             IN G(nw, acc \cup nw)
      st == {[ q |-> 0, fc |-> {}, k |-> 1, j |-> 0, w |-> 0 ]}
  IN \E p \in G(st, st) : p.k > Len(word) /\ p.j = Len(a[1]) /\ (p.w + 0) <= a[2] /\ \E w \in M.f[p.q] : p.w + w = a[2]

\* the tokens of a string (a sequence of characters): the longest symbol of the input side at each place, else one character.
\* sp: spelling of the symbols that are longer than one character
InSyms(A, F) == { A.t[k][3] : k \in 1..Len(A.t) } \ ({EPS, ID, UNK} \cup F)
Spell(sp, x) == IF \E k \in 1..Len(sp) : sp[k][1] = x THEN sp[CHOOSE k \in 1..Len(sp) : sp[k][1] = x][2] ELSE <<x>>
Tok(S, sp, cs) ==
  LET RECURSIVE T(_)
      T(k) == IF k > Len(cs) THEN <<>>
              ELSE LET C == { x \in S : LET q == Spell(sp, x) IN k + Len(q) - 1 <= Len(cs) /\ SubSeq(cs, k, k + Len(q) - 1) = q }
                       lens == { Len(Spell(sp, x)) : x \in C }
                   IN IF C = {} THEN <<cs[k]>> \o T(k + 1)
                      ELSE LET m == MaxS(lens) IN << CHOOSE x \in C : Len(Spell(sp, x)) = m >> \o T(k + m)
  IN T(1)
Toks(e, A, case) == IF Has(e, "toks") THEN e.toks ELSE Tok(InSyms(A, FlagsOf(case.ft)), case.sp, e.chars)

\* silent arcs can go on for ever while reading word (whether or not they lead to a result)
\* weak: a state is met again (flags may be set differently then); obey = FALSE: flags are not interpreted
OInf3(A, ft, word, obey, weak) ==
  LET M == Lit(A)
      F == FlagsOf(ft)
      sil(p) == { <<y[1][1], y[2]>> : y \in { z \in Nxt(M, ft, obey, p[1], p[2]) : z[1][2] = EPS \/ z[1][2] \in F } }
      RECURSIVE Sil(_, _)
      Sil(front, acc) == IF front = {} THEN acc ELSE LET nx == UNION { sil(p) : p \in front } \ acc IN Sil(nx, acc \cup nx)
      RECURSIVE At(_)
      At(k) == LET S == IF k = 1 THEN {<<0, {}>>}
                        ELSE UNION { { <<t[1], p[2]>> : t \in { u \in M.d[p[1]] : u[2] # EPS /\ u[2] \notin F /\ Match(A, u[2], word[k-1]) } } : p \in At(k-1) }
               IN Sil(S, S)
      loop(p) == LET S == Sil(sil(p), sil(p)) IN IF weak THEN \E x \in S : x[1] = p[1] ELSE p \in S
  IN \E k \in 1..(Len(word) + 1) : \E p \in At(k) : loop(p)
OInf(A, ft, word) == OInf3(A, ft, word, TRUE, FALSE)

OlOK(e, A, ft, toks) ==
  LET F == FlagsOf(ft)
      R == { <<Strip(F, e.ans[k][1]), e.ans[k][2]>> : k \in 1..Len(e.ans) }
      wz == Get(e, "unw", 0) = 1
      Z(S) == IF wz THEN { <<x[1], 0>> : x \in S } ELSE S
  IN IF Get(e, "inf", 0) = 1      \* endless silent arcs: whatever is returned must be right, and as much as asked for (the generator gives a limit)
     THEN Len(e.ans) <= e.limit /\ \A a \in R : OIs(A, ft, toks, a)
     ELSE LET all == Z(OLook(A, ft, toks, 30))
          IN IF e.limit < 0 THEN R = all
             ELSE R \subseteq all /\ Len(e.ans) <= e.limit /\ (e.limit > 0 => (R = {}) = (all = {})) /\ (Cardinality(all) < e.limit => R # {} \/ all = {})

Univ(A, e) == Alph(A) \cup Syms(A) \cup FRESH

Verdict(reg, e, case) ==
  LET ft == case.ft
      v == IF Has(e, "r") /\ Has(reg, e.r) THEN reg[e.r] ELSE [n |-> 0, t |-> <<>>, f |-> <<>>, a |-> <<>>]
      F == FlagsOf(ft)
  IN
  IF e.exc # "" THEN
    CASE e.exc = "TransducerIsCyclicException" /\ e.op = "x_paths" -> IF e.max < 1 /\ e.cycles < 0 /\ CycAny(Lit(v)) THEN "" ELSE "wrongly refused as cyclic"
      [] e.exc = "TransducerIsCyclicException" /\ e.op \in {"x_longest", "x_longest_size"} -> IF CycAny(Lit(v)) THEN "" ELSE "wrongly refused as cyclic"
      [] e.exc = "FunctionNotImplementedException" /\ e.op = "ol_lookup" -> IF case.type \in {"ol", "olw"} \/ Get(e, "isol", 1) = 1 THEN "refused" ELSE ""
      [] e.op = "eliminate_flag" /\ e.exc = "HfstException" -> IF \E x \in F \cap (Rng(v.a) \cup Syms(v)) : FRec(ft, x)[3] = e.flag THEN "refused a feature it has" ELSE ""
      [] e.exc = "FunctionNotImplementedException" /\ e.op = "x_random" /\ case.type = "log" /\ e.fd = 0 -> ""
      [] OTHER -> "exception " \o e.exc
  ELSE IF e.op \in {"load", "b_load"} THEN ""
  ELSE IF e.op = "x_paths" THEN
    (IF e.max < 1 /\ e.cycles < 0 /\ Cyc(Lit(v)) THEN "cyclic transducer not refused" ELSE IF PathsOK(e, Lit(v), ft) THEN "" ELSE "wrong paths")
  ELSE IF e.op = "x_random" THEN (IF RandomOK(e, Lit(v), ft) THEN "" ELSE "not random paths of the transducer")
  ELSE IF e.op = "x_shortest" THEN (IF ShortOK(e, Lit(v)) THEN "" ELSE "not the best path")
  ELSE IF e.op = "x_longest" THEN (IF Cyc(Lit(v)) THEN "cyclic transducer not refused" ELSE IF LongestOK(e, Lit(v), ft) THEN "" ELSE "not the longest paths")
  ELSE IF e.op = "x_longest_size" THEN (IF Cyc(Lit(v)) THEN "cyclic transducer not refused" ELSE IF LongSizeOK(e, Lit(v), ft) THEN "" ELSE "wrong length")
  ELSE IF e.op = "has_flags" THEN (IF (e.ans = 1) = (F \cap Rng(v.a) # {}) THEN "" ELSE "wrong answer")
  ELSE IF e.op = "b_lookup" THEN (IF BLookupOK(e, v, ft) THEN "" ELSE "wrong lookup results")
  ELSE IF e.op = "b_lookup_inf_amb" THEN
    LET obey == Get(e, "flags", 0) = 1
    IN IF (OInf3(v, ft, e.word, obey, FALSE) /\ e.ans = 0) \/ (~ OInf3(v, ft, e.word, obey, TRUE) /\ e.ans = 1) THEN "wrong answer about infinite ambiguity" ELSE ""
  ELSE IF e.op = "b_inf_amb" THEN
    (IF (e.ans = 1) = InfAmb([ Lit(v) EXCEPT !.d = [ q \in DOMAIN Lit(v).d |-> { <<t[1], NoF(<<>>, F, t[2]), t[3], t[4]>> : t \in Lit(v).d[q] } ] ])
     THEN "" ELSE "wrong answer about infinite ambiguity")
  ELSE IF e.op = "eliminate_flags" THEN
    LET U == (Univ(v, e) \cup Univ(e.res, e)) \ F
    IN IF F \cap Syms(e.res) # {} THEN "flags left"
       ELSE IF RelW(FlagM(Conc(v, U), ft), case.N) = RelW(Conc(e.res, U), case.N) THEN "" ELSE "wrong relation after elimination"
  ELSE IF e.op = "eliminate_flag" THEN
    LET U == (Univ(v, e) \cup Univ(e.res, e)) \ F
    IN IF \E x \in F \cap Syms(e.res) : FRec(ft, x)[3] = e.flag THEN "flags left"
       ELSE IF RelW(FlagM(Conc(v, U), ft), case.N) = RelW(FlagM(Conc(e.res, U), ft), case.N) THEN "" ELSE "wrong relation after elimination"
  ELSE IF e.op = "twosided_flag_diacritics" THEN
    LET U == (Univ(v, e) \cup Univ(e.res, e)) \ F
    IN IF \E k \in 1..Len(e.res.t) : (e.res.t[k][3] \in F \/ e.res.t[k][4] \in F) /\ e.res.t[k][3] # e.res.t[k][4] THEN "one-sided flag left"
       ELSE IF RelW(NoFlagM(Conc(e.res, U), F), case.N) = RelW(NoFlagM(Conc(v, U), F), case.N) THEN "" ELSE "wrong relation"
  ELSE IF e.op = "flag_binary" THEN
    LET w == reg[e.a]
        U == (Univ(v, e) \cup Univ(w, e) \cup Univ(e.res, e)) \ F
        A == NumM(FlagM(Conc(v, U), ft))  B == NumM(FlagM(Conc(w, U), ft))
        out == CASE e.how = "compose" -> ComposeM(A, B) [] e.how = "intersect" -> ComposeM(A, B) [] e.how = "concatenate" -> ConcatM(A, B) [] OTHER -> A
    IN IF RelW(FlagM(Conc(e.hres, U), ft), case.N) # RelW(A, case.N) \/ RelW(FlagM(Conc(e.harg, U), ft), case.N) # RelW(B, case.N) THEN "harmonizing the flags changed an operand"
       ELSE IF e.how # "none" /\ RelW(FlagM(Conc(e.res, U), ft), case.N) # RelW(out, case.N) THEN "wrong relation of the operation with harmonized flags"
       ELSE ""
  ELSE IF e.op = "ol_back" THEN
    LET U == (Univ(v, e) \cup Univ(e.res, e)) \ F
        M1 == FlagM(Conc(v, U), ft)  M2 == FlagM(Conc(e.res, U), ft)
    IN IF Rel(M1, case.N, Get(e, "unw", 0) = 0) = Rel(M2, case.N, Get(e, "unw", 0) = 0) THEN "" ELSE "wrong relation in the optimized-lookup format"
  ELSE IF e.op \in {"to_ol", "reload"} THEN (IF e.rtype = e.to THEN "" ELSE "wrong type")
  ELSE IF e.op = "ol_lookup" THEN
    (IF OlOK(e, v, ft, Toks(e, v, case)) THEN "" ELSE "wrong lookup results")
  ELSE IF e.op = "ol_pairs" THEN
    LET toks == Toks(e, v, case)
        R == { <<Strip(F, x[2]), x[3]>> : x \in AnsSet(e) }
        all == OLook(v, ft, toks, 30)
        wz == Get(e, "unw", 0) = 1
        Z(S) == IF wz THEN { <<x[1], 0>> : x \in S } ELSE S
    IN IF \E x \in AnsSet(e) : Strip(F, x[1]) # toks THEN "results for another input"
       ELSE IF e.limit < 0 /\ R = Z(all) THEN ""
       ELSE IF e.limit >= 0 /\ R \subseteq Z(all) /\ Len(e.ans) <= e.limit THEN ""
       ELSE "wrong lookup results"
  ELSE IF e.op = "ol_inf" THEN
    LET toks == Toks(e, v, case)
    IN IF (OInf(v, ft, toks) /\ e.ans = 0) \/ (~ OInf3(v, ft, toks, TRUE, TRUE) /\ e.ans = 1) THEN "wrong answer about infinite ambiguity" ELSE ""
  ELSE "no action for " \o e.op

Keeps == {"x_paths", "x_random", "x_shortest", "x_longest", "x_longest_size", "has_flags", "b_lookup", "b_inf_amb", "b_lookup_inf_amb"}
Same(A, B) == A.n = B.n /\ Rng(A.t) = Rng(B.t) /\ Rng(A.f) = Rng(B.f)

VARIABLES c, l, reg, bad
vars == <<c, l, reg, bad>>
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = "" /\ reg = << >>
Next == /\ bad = ""
        /\ l <= Len(Cases[c].ev)
        /\ LET e == Cases[c].ev[l]
               v1 == Verdict(reg, e, Cases[c])
               v == IF v1 # "" THEN v1 ELSE IF e.exc = "" /\ e.op \in Keeps /\ ~ Same(reg[e.r], e.res) THEN "a query changed the transducer" ELSE ""
           IN /\ bad' = v /\ l' = l + 1 /\ c' = c
              /\ reg' = IF v = "" /\ Has(e, "res") /\ e.op # "ol_back" THEN [k \in DOMAIN reg \cup {e.r} |-> IF k = e.r THEN e.res ELSE reg[k]] ELSE reg
              /\ IF v # "" THEN PrintT("REJECT|" \o ToString(Cases[c].id) \o "|" \o ToString(l) \o "|" \o e.op \o "|" \o v)
                 ELSE IF l = Len(Cases[c].ev) THEN PrintT("DONE|" \o ToString(Cases[c].id)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
