-------------------------------- MODULE Basic --------------------------------
(***************************************************************************)
(* HfstBasicTransducer as a state machine.                                 *)
(*                                                                         *)
(* State: registers holding mutable machine values                         *)
(*   [n: number of states, t: set of arcs <<s, d, i, o, w>>,               *)
(*    f: set of <<state, final weight>>, a: alphabet without the specials] *)
(* Every editing call is a transition with exactly one outcome (the        *)
(* numbering of states that add_state and friends hand out is documented); *)
(* calls that graft whole machines are specified up to state numbers, by   *)
(* the relation; queries leave the state alone and return the value the    *)
(* state determines; calls outside their precondition must throw and leave *)
(* the state alone.                                                        *)
(***************************************************************************)
EXTENDS FstDecide, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Has(e, k) == k \in DOMAIN e
Get(e, k, d) == IF k \in DOMAIN e THEN e[k] ELSE d
FRESH == {"%1", "%2"}

V(A) == [ n |-> A.n, t |-> { A.t[k] : k \in 1..Len(A.t) }, f |-> Rng(A.f), a |-> Rng(A.a) \ SPECIAL ]
\* back to a value the relational semantics understands
U2(v) == [ n |-> v.n, t |-> ToSeq(v.t), f |-> ToSeq(v.f), a |-> ToSeq(v.a) ]
VSyms(v) == UNION { {x[3], x[4]} : x \in v.t }
Mx(a, b) == IF a >= b THEN a ELSE b
Finals(v) == { x[1] : x \in v.f }
EqV(x, y) == x.n = y.n /\ x.t = y.t /\ x.f = y.f /\ x.a = y.a
UnivV(S) == UNION { v.a \cup (VSyms(v) \ SPECIAL) : v \in S } \cup FRESH
RelV(v, U, N) == RelW(Conc(U2(v), U), N)
P2(x) == <<x[1], x[2]>>
PS(s) == { P2(s[k]) : k \in 1..Len(s) }
MapOf(m, x) == IF \E k \in 1..Len(m) : m[k][1] = x THEN m[CHOOSE k \in 1..Len(m) : m[k][1] = x][2] ELSE x

\* alphabet after an edit: symbols of the arcs plus the symbols known before; the symbols in "gone" stay only if still used
Relabel(v, S(_)) == [ v EXCEPT !.t = UNION { { <<x[1], x[2], p[1], p[2], x[5]>> : p \in S(<<x[3], x[4]>>) } : x \in v.t } ]

(***************************************************************************)
(* Edits with a unique outcome.                                            *)
(***************************************************************************)
Edit(e, v) ==
  CASE e.op = "b_add_state" -> IF Has(e, "s") THEN [v EXCEPT !.n = Mx(v.n, e.s + 1)] ELSE [v EXCEPT !.n = v.n + 1]
    [] e.op = "b_add_transition" ->
         [ v EXCEPT !.n = Mx(v.n, Mx(e.s, e.d) + 1), !.t = v.t \cup { <<e.s, e.d, e.i, e.o, e.w>> },
                    !.a = IF Get(e, "flag", 1) = 1 THEN v.a \cup ({e.i, e.o} \ SPECIAL) ELSE v.a ]
    [] e.op = "b_remove_transition" ->
         LET t2 == { x \in v.t : ~ (x[1] = e.s /\ x[2] = e.d /\ x[3] = e.i /\ x[4] = e.o) }
             used == UNION { {x[3], x[4]} : x \in t2 }
         IN [ v EXCEPT !.t = t2, !.a = IF Get(e, "flag", 0) = 1 /\ e.s < v.n THEN v.a \ ({e.i, e.o} \ used) ELSE v.a ]
    [] e.op = "b_set_final" -> [ v EXCEPT !.n = Mx(v.n, e.s + 1), !.f = { x \in v.f : x[1] # e.s } \cup {<<e.s, e.w>>} ]
    [] e.op = "b_remove_final" -> [ v EXCEPT !.f = { x \in v.f : x[1] # e.s } ]
    [] e.op = "b_add_symbol" -> [ v EXCEPT !.a = v.a \cup ({e.sym} \ SPECIAL) ]
    [] e.op = "b_remove_symbol" -> [ v EXCEPT !.a = v.a \ {e.sym} ]
    [] e.op = "b_add_symbols" -> [ v EXCEPT !.a = v.a \cup (Rng(e.syms) \ SPECIAL) ]
    [] e.op = "b_remove_symbols" -> [ v EXCEPT !.a = v.a \ Rng(e.syms) ]
    [] e.op = "b_prune_alphabet" -> IF Get(e, "flag", 1) = 0 /\ VSyms(v) \cap {ID, UNK} # {} THEN v
                                    ELSE [ v EXCEPT !.a = v.a \cap VSyms(v) ]
    [] e.op = "b_insert_freely" -> [ v EXCEPT !.t = v.t \cup { <<q, q, e.pair[1], e.pair[2], e.w>> : q \in 0..(v.n-1) },
                                              !.a = v.a \cup (Rng(e.pair) \ SPECIAL) ]
    [] e.op = "b_insert_freely_set" -> [ v EXCEPT !.t = v.t \cup { <<q, q, p[1], p[2], e.w>> : q \in 0..(v.n-1), p \in PS(e.pairs) },
                                                  !.a = v.a \cup (UNION { Rng(e.pairs[k]) : k \in 1..Len(e.pairs) } \ SPECIAL) ]
    [] e.op = "b_remove_transitions" -> [ v EXCEPT !.t = { x \in v.t : <<x[3], x[4]>> # P2(e.pair) } ]
    [] e.op = "b_substitute_symbol" -> Relabel(v, LAMBDA p : { << IF Get(e, "i", 1) = 1 /\ p[1] = e.old THEN e.new ELSE p[1],
                                                                IF Get(e, "o", 1) = 1 /\ p[2] = e.old THEN e.new ELSE p[2] >> })
    [] e.op = "b_substitute_pair" -> Relabel(v, LAMBDA p : { IF p = P2(e.old) THEN P2(e.new) ELSE p })
    [] e.op = "b_substitute_pair_set" -> Relabel(v, LAMBDA p : IF p = P2(e.old) THEN PS(e.new) ELSE {p})
    [] e.op = "b_substitute_symbols" -> Relabel(v, LAMBDA p : { << MapOf(e.map, p[1]), MapOf(e.map, p[2]) >> })
    [] e.op = "b_substitute_pairs" -> Relabel(v, LAMBDA p : { IF \E k \in 1..Len(e.map) : P2(e.map[k][1]) = p
                                                       THEN P2(e.map[CHOOSE k \in 1..Len(e.map) : P2(e.map[k][1]) = p][2]) ELSE p })
    [] e.op = "b_substitute_func" -> Relabel(v, LAMBDA p : IF p = <<"a", "a">> THEN {<<"a", "b">>, <<"b", "b">>} ELSE {p})
    [] e.op = "b_flag_purge" -> LET fl(x) == \E k \in 1..Len(e.purged) : e.purged[k] = x
                                IN [ Relabel(v, LAMBDA p : { IF fl(p[1]) \/ fl(p[2]) THEN <<EPS, EPS>> ELSE p }) EXCEPT !.a = { x \in v.a : ~ fl(x) } ]
    [] e.op = "b_complete" ->
         LET m == v.n + 1
             new == { <<q, v.n, x, x, 0>> : q \in 0..v.n, x \in v.a }
         IN [ v EXCEPT !.n = m, !.t = v.t \cup { y \in new : ~ \E x \in v.t : x[1] = y[1] /\ x[3] = y[3] } ]
    [] OTHER -> v   \* queries and sort_arcs

Substs == {"b_substitute_symbol", "b_substitute_pair", "b_substitute_pair_set", "b_substitute_symbols", "b_substitute_pairs",
           "b_substitute_func", "b_remove_transitions"}
Edits == {"b_add_state", "b_add_transition", "b_remove_transition", "b_set_final", "b_remove_final", "b_add_symbol", "b_remove_symbol",
          "b_add_symbols", "b_remove_symbols", "b_prune_alphabet", "b_insert_freely", "b_insert_freely_set", "b_flag_purge", "b_sort_arcs"}
Queries == {"b_is_final", "b_get_final", "b_transitions", "b_index", "b_max_state", "b_states", "b_alphabet", "b_symbols_used", "b_inputs", "b_outputs",
            "b_pairs", "b_flags", "b_longest", "b_topsort", "b_inf_amb", "b_lookup_inf_amb", "b_neg_cycles"}

(***************************************************************************)
(* Which alphabets may follow a substitution: symbols used by the arcs are *)
(* known, nothing appears from nowhere, symbols the substitution does not  *)
(* mention are kept.                                                       *)
(***************************************************************************)
Mentioned(e) ==
  CASE e.op = "b_substitute_symbol" -> {e.old, e.new}
    [] e.op = "b_substitute_pair" -> Rng(e.old) \cup Rng(e.new)
    [] e.op = "b_substitute_pair_set" -> Rng(e.old) \cup UNION { Rng(e.new[k]) : k \in 1..Len(e.new) }
    [] e.op = "b_substitute_symbols" -> UNION { Rng(e.map[k]) : k \in 1..Len(e.map) }
    [] e.op = "b_substitute_pairs" -> UNION { Rng(e.map[k][1]) \cup Rng(e.map[k][2]) : k \in 1..Len(e.map) }
    [] e.op = "b_substitute_func" -> {"a", "b"}
    [] e.op = "b_remove_transitions" -> Rng(e.pair)
    [] OTHER -> {}
SubstAlphOK(e, v, r) == /\ (VSyms(v) \ SPECIAL) \subseteq v.a => (VSyms(r) \ SPECIAL) \subseteq r.a
                        /\ r.a \subseteq v.a \cup Mentioned(e)
                        /\ (v.a \ Mentioned(e)) \subseteq r.a

(***************************************************************************)
(* Queries.                                                                *)
(***************************************************************************)
M0(v) == [ n |-> v.n, s |-> 0, d |-> TLCEval([q \in 0..(v.n-1) |-> { <<x[2], x[3], x[4], x[5]>> : x \in {y \in v.t : y[1] = q} }]),
           f |-> TLCEval([q \in 0..(v.n-1) |-> { x[2] : x \in {y \in v.f : y[1] = q} }]) ]
RECURSIVE Dist(_, _, _, _)
\* greatest distance of every reachable state of an acyclic machine
Dist(M, k, front, acc) ==
  IF front = {} THEN acc
  ELSE Dist(M, k + 1, UNION { { t[1] : t \in M.d[q] } : q \in front }, TLCEval([q \in 0..(M.n-1) |-> IF q \in front THEN k ELSE acc[q]]))
Far(v) == LET M == M0(v) IN Dist(M, 0, {0}, [q \in 0..(v.n-1) |-> -1])

\* can word w (a sequence of known symbols) be read along infinitely many paths (not necessarily to a final state)?
Reads(M, w, k) == LET RECURSIVE R(_)
                      R(j) == IF j = 0 THEN EClo(M, {M.s}, {M.s})
                              ELSE LET nx == UNION { { t[1] : t \in {u \in M.d[q] : u[2] = w[j]} } : q \in R(j-1) } IN EClo(M, nx, nx)
                  IN R(k)
LookupInf(v, w) ==
  LET U == UnivV({v}) \cup Rng(w)
      M == Conc(U2(v), U)
      E == FiltM(M, LAMBDA t : t[2] = EPS)
  IN \E k \in 0..Len(w) : \E q \in Reads(M, w, k) : OnCycle(E, q)

\* a cycle of epsilon arcs whose weights sum to less than zero (Bellman-Ford over walks of at most n arcs)
NegCycle(v) ==
  LET eps == { x \in v.t : x[3] = EPS /\ x[4] = EPS }
      INF == 1000000
      RECURSIVE BF(_, _)
      BF(d, k) == IF k = 0 THEN d
                  ELSE BF(TLCEval([ q \in 0..(v.n-1) |-> MinS({d[q]} \cup { d[x[1]] + x[5] : x \in {y \in eps : y[2] = q} }) ]), k - 1)
      d0 == [ q \in 0..(v.n-1) |-> 0 ]
      dn == BF(d0, v.n)
  IN \E x \in eps : dn[x[1]] + x[5] < dn[x[2]]

QueryOK(e, v) ==
  CASE e.op = "b_is_final" -> (e.ans = 1) = (e.s \in Finals(v))
    [] e.op = "b_get_final" -> <<e.s, e.ans>> \in v.f
    [] e.op \in {"b_transitions", "b_index"} -> { <<e.s, x[1], x[2], x[3], x[4]>> : x \in Rng(e.ans) } = { y \in v.t : y[1] = e.s }
    [] e.op = "b_max_state" -> e.ans = v.n - 1
    [] e.op = "b_states" -> Rng(e.ans) = 0..(v.n-1) /\ Len(e.ans) = v.n
    [] e.op = "b_alphabet" -> Rng(e.ans) \ SPECIAL = v.a
    [] e.op = "b_symbols_used" -> Rng(e.ans) = VSyms(v)
    [] e.op = "b_inputs" -> Rng(e.ans) = { x[3] : x \in v.t }
    [] e.op = "b_outputs" -> Rng(e.ans) = { x[4] : x \in v.t }
    [] e.op = "b_pairs" -> { P2(e.ans[k]) : k \in 1..Len(e.ans) } = { <<x[3], x[4]>> : x \in v.t }
    [] e.op = "b_flags" -> Rng(e.ans) = v.a \cap Rng(e.allflags)
    [] e.op = "b_longest" -> LET d == Far(v) IN e.ans = MaxS({-1} \cup { d[q] : q \in Finals(v) \cap 0..(v.n-1) })
    [] e.op = "b_topsort" -> LET d == Far(v) IN \A q \in 0..(v.n-1) : { k \in 1..Len(e.ans) : q \in Rng(e.ans[k]) } = (IF d[q] < 0 THEN {} ELSE {d[q] + 1})
    [] e.op = "b_inf_amb" -> (e.ans = 1) = InfAmb(M0(v))
    [] e.op = "b_lookup_inf_amb" -> (e.ans = 1) = LookupInf(v, e.word)
    [] e.op = "b_neg_cycles" -> (e.ans = 1) = NegCycle(v)

(***************************************************************************)
(* Grafting: up to state numbers.                                          *)
(***************************************************************************)
GraftM(v, hit, T) ==   \* hit: sequence of <<src, dst, w>>: a copy of T between src and dst
  LET A == M0([v EXCEPT !.t = v.t])
      base(j) == v.n + (j-1) * T.n
      D(q) == IF q < v.n THEN A.d[q] \cup { <<base(j) + T.s, EPS, EPS, hit[j][3]>> : j \in {j \in 1..Len(hit) : hit[j][1] = q} }
              ELSE LET j == ((q - v.n) \div T.n) + 1  x == (q - v.n) % T.n
                   IN Sh(T.d[x], base(j)) \cup { <<hit[j][2], EPS, EPS, w>> : w \in T.f[x] }
      F(q) == IF q < v.n THEN A.f[q] ELSE {}
  IN Force(Mach(v.n + Len(hit) * T.n, 0, D, F))

\* accepted pair strings with weights (pairs as symbols), for a trie without epsilon arcs
RelPairs(v, N) == LET M == M0(v)
                      Q == [ n |-> M.n, s |-> 0, f |-> M.f, d |-> TLCEval([q \in 0..(M.n-1) |-> { <<t[1], <<t[2], t[3]>>, EPS, t[4]>> : t \in M.d[q] }]) ]
                      RECURSIVE W(_, _)
                      W(front, acc) == IF front = {} THEN acc
                         ELSE W(UNION { { <<t[1], Append(c[2], t[2]), c[3] + t[4]>> : t \in Q.d[c[1]] } : c \in {x \in front : Len(x[2]) < N} },
                                acc \cup UNION { { <<c[2], c[3] + w>> : w \in Q.f[c[1]] } : c \in front })
                  IN W({<<0, <<>>, 0>>}, {})
SameRelM(M, r, N) == RelW(M, N) = RelW(M0(r), N)
\* special arcs are kept as labels here ("@I" is a symbol like any other): no harmonization is promised
GraftOK(e, reg, r, N) ==
  LET v == reg[e.r] IN
  CASE e.op = "b_substitute_graph" ->
         LET g == reg[e.a]  hit == { x \in v.t : <<x[3], x[4]>> = P2(e.old) }
         IN SameRelM(GraftM([v EXCEPT !.t = v.t \ hit], ToSeq({ <<x[1], x[2], x[5], x>> : x \in hit }), M0(g)), r, N)
    [] e.op = "b_insert_freely_graph" ->
         SameRelM(GraftM(v, ToSeq({ <<q, q, 0>> : q \in 0..(v.n-1) }), M0(reg[e.a])), r, N)
    [] e.op = "b_insert_transducer" ->
         SameRelM(GraftM(v, << <<e.s, e.s2, 0>> >>, M0(reg[e.a])), r, N)
    [] e.op = "b_substitute_map" ->
         LET tgt(x) == reg[MapOf(e.map, x)]
             keys == { e.map[k][1] : k \in 1..Len(e.map) }
             hit == { x \in v.t : x[3] \in keys }
             RECURSIVE G(_, _)
             G(S, cur) == IF S = {} THEN M0(cur)
                          ELSE LET x == CHOOSE y \in S : TRUE
                                   g == M0(tgt(x[3]))
                                   M == GraftM(cur, << <<x[1], x[2], x[5]>> >>, g)
                               IN G(S \ {x}, [ n |-> M.n, t |-> UNION { { <<q, t[1], t[2], t[3], t[4]>> : t \in M.d[q] } : q \in 0..(M.n-1) },
                                               f |-> UNION { { <<q, w>> : w \in M.f[q] } : q \in 0..(M.n-1) }, a |-> cur.a ])
         IN SameRelM(G(hit, [v EXCEPT !.t = v.t \ hit]), r, N)
    [] e.op = "b_disjunct" ->
         LET old == RelPairs(v, N)  new == RelPairs(r, N)
             w == MinS({e.w} \cup { x[2] : x \in {y \in old : y[1] = [k \in 1..Len(e.path) |-> P2(e.path[k])]} })
             pth == [k \in 1..Len(e.path) |-> P2(e.path[k])]
         IN new = { x \in old : x[1] # pth } \cup { <<pth, w>> }

(***************************************************************************)
(* Intersection of deterministic epsilon-free machines.                    *)
(***************************************************************************)
InterOK(e, reg, N) ==
  LET r == V(e.out)
  IN PRel(M0(r), N, TRUE) = PRel(PairProdM(M0(reg[e.r]), M0(reg[e.a])), N, TRUE)

(***************************************************************************)
(* Harmonization: afterwards both machines know every symbol of the other  *)
(* and each still denotes its relation over any common universe.           *)
(***************************************************************************)
HarmOK(e, reg, N) ==
  LET v == reg[e.r]  g == reg[e.a]  r == V(e.res)  h == V(e.arg)
      U == UnivV({v, g})
  IN /\ r.a = h.a /\ v.a \cup g.a \subseteq r.a /\ r.a \subseteq U
     /\ RelV(r, U, N) = RelV(v, U, N)
     /\ RelV(h, U, N) = RelV(g, U, N)

Grafts == {"b_substitute_graph", "b_insert_freely_graph", "b_insert_transducer", "b_substitute_map", "b_disjunct"}
Autom(v) == \A x \in v.t : x[3] = x[4]

\* sorted arcs: within a state, arcs with the same input, and with the same input and output, are neighbours
Grouped(t) == \A j, k, m \in 1..Len(t) :
                (j < k /\ k < m /\ t[j][1] = t[k][1] /\ t[k][1] = t[m][1]) =>
                  /\ t[j][3] = t[m][3] => t[k][3] = t[j][3]
                  /\ (t[j][3] = t[m][3] /\ t[j][4] = t[m][4]) => t[k][4] = t[j][4]

Verdict(reg, e, N) ==
  LET v == IF Has(reg, e.r) THEN reg[e.r] ELSE [n |-> 0, t |-> {}, f |-> {}, a |-> {}]  IN
  IF e.exc # "" THEN
    CASE e.op = "b_get_final" /\ e.exc = "StateIndexOutOfBoundsException" -> IF e.s >= v.n THEN "" ELSE "refused a state it has"
      [] e.op = "b_get_final" /\ e.exc = "StateIsNotFinalException" -> IF e.s < v.n /\ e.s \notin Finals(v) THEN "" ELSE "wrong refusal"
      [] e.op \in {"b_transitions", "b_index"} /\ e.exc = "StateIndexOutOfBoundsException" -> IF e.s >= v.n THEN "" ELSE "refused a state it has"
      [] e.op = "b_complete" /\ e.exc = "TransducersAreNotAutomataException" -> IF Autom(v) THEN "refused an automaton" ELSE ""
      [] e.op = "b_substitute_map" /\ e.exc = "HfstException" ->
           IF \E x \in v.t : x[3] # x[4] /\ {x[3], x[4]} \cap { e.map[k][1] : k \in 1..Len(e.map) } # {} THEN "" ELSE "wrong refusal"
      [] OTHER -> "exception " \o e.exc
  ELSE IF e.op \in {"b_new"} THEN (IF EqV(V(e.res), [n |-> 1, t |-> {}, f |-> {}, a |-> {}]) THEN "" ELSE "not an empty one-state machine")
  ELSE IF e.op = "b_load" THEN (IF EqV(V(e.res), [V(e.fst) EXCEPT !.a = V(e.res).a]) /\ V(e.res).a = V(e.fst).a \cup (VSyms(V(e.fst)) \ SPECIAL) THEN "" ELSE "wrong machine")
  ELSE IF e.op \in {"b_copy", "b_assign"} THEN (IF EqV(V(e.res), reg[e.a]) THEN "" ELSE "copy differs")
  ELSE IF e.op \in Edits THEN
    (IF ~ EqV(V(e.res), Edit(e, v)) THEN "wrong state after edit"
     ELSE IF e.op = "b_sort_arcs" /\ ~ Grouped(e.res.t) THEN "arcs not in label order"
     ELSE IF e.op = "b_add_state" /\ e.ans # (IF Has(e, "s") THEN e.s ELSE v.n) THEN "wrong state number" ELSE "")
  ELSE IF e.op = "b_complete" THEN
    (IF ~ Autom(v) THEN "completed a transducer"
     ELSE LET r == V(e.res)  w == Edit(e, v)
          IN IF r.n = w.n /\ r.f = w.f /\ r.a = w.a /\ r.t = w.t THEN "" ELSE "not complete")
  ELSE IF e.op \in Substs THEN
    LET r == V(e.res)  x == Edit(e, v)
    IN IF ~ (r.n = x.n /\ r.t = x.t /\ r.f = x.f) THEN "wrong arcs" ELSE IF SubstAlphOK(e, v, r) THEN "" ELSE "wrong alphabet"
  ELSE IF e.op \in Queries THEN
    (IF ~ EqV(V(e.res), v) THEN "query changed the machine" ELSE IF QueryOK(e, v) THEN "" ELSE "wrong answer")
  ELSE IF e.op \in Grafts THEN (IF GraftOK(e, reg, V(e.res), N) THEN "" ELSE "wrong relation")
  ELSE IF e.op = "b_intersect" THEN (IF ~ EqV(V(e.res), v) \/ ~ EqV(V(e.arg), reg[e.a]) THEN "argument changed" ELSE IF InterOK(e, reg, N) THEN "" ELSE "wrong relation")
  ELSE IF e.op = "b_harmonize" THEN (IF HarmOK(e, reg, N) THEN "" ELSE "wrong harmonization")
  ELSE "no action for " \o e.op

NewReg(reg, e) ==
  LET r1 == IF Has(e, "res") THEN [k \in DOMAIN reg \cup {e.r} |-> IF k = e.r THEN V(e.res) ELSE reg[k]] ELSE reg
  IN IF Has(e, "arg") /\ Has(e, "a") /\ e.a # e.r THEN [r1 EXCEPT ![e.a] = V(e.arg)] ELSE r1

\* registers that an event does not name stay as they are: checked at the end of every case by reading them back
VARIABLES c, l, reg, bad
vars == <<c, l, reg, bad>>
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = "" /\ reg = << >>
Next == /\ bad = ""
        /\ l <= Len(Cases[c].ev)
        /\ LET e == Cases[c].ev[l]
               v == Verdict(reg, e, Cases[c].N)
           IN /\ bad' = v /\ l' = l + 1 /\ c' = c
              /\ reg' = IF v = "" THEN NewReg(reg, e) ELSE reg
              /\ IF v # "" THEN PrintT("REJECT|" \o ToString(Cases[c].id) \o "|" \o ToString(l) \o "|" \o e.op \o "|" \o v)
                 ELSE IF l = Len(Cases[c].ev) THEN PrintT("DONE|" \o ToString(Cases[c].id)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
