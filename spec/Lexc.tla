-------------------------------- MODULE Lexc -------------------------------
(***************************************************************************)
(* Lexicons with continuation classes.                                     *)
(*                                                                         *)
(* State of a compiler: the multicharacter symbols declared so far, the    *)
(* definitions, the lexicons (name -> sequence of entries), the initial    *)
(* lexicon (Root, or the first one if there is no Root) and whether a file *)
(* had an error.  Parsing a file adds to that state; compiling must give   *)
(* the relation of the graph whose nodes are the lexicons and whose edges  *)
(* are the entries: from the initial lexicon to "#".  An entry is a string,*)
(* a pair of strings aligned from the left or a regular expression; its    *)
(* strings are cut into the longest declared symbols (a character "" is an *)
(* unescaped zero: epsilon).  A continuation that is never defined leads   *)
(* nowhere.  With flags the graph is encoded by LEXNAME flag diacritics.   *)
(***************************************************************************)
EXTENDS RegexSem

UFLAGS == {"@P.C.x@"}      \* flag diacritics are not among the symbols that ? stands for
ST0 == [ multi |-> {}, defs |-> << >>, fns |-> << >>, lex |-> << >>, init |-> "", bad |-> FALSE, flags |-> 0 ]

RECURSIVE Join(_, _)
Join(s, k) == IF k > Len(s) THEN "" ELSE s[k] \o Join(s, k + 1)
Begins(p, s, k) == k + Len(p) - 1 <= Len(s) /\ SubSeq(s, k, k + Len(p) - 1) = p
RECURSIVE Tok(_, _, _)
Tok(multi, s, k) ==
  IF k > Len(s) THEN <<>>
  ELSE LET M == { p \in multi : Begins(p, s, k) }
           j == IF M = {} THEN k + 1 ELSE k + MaxS({ Len(p) : p \in M })
       IN <<Join(SubSeq(s, k, j - 1), 1)>> \o Tok(multi, s, j)
At(s, k) == IF k <= Len(s) THEN s[k] ELSE EPS

\* an entry as kept in the state: its pairs of symbols, or its expression
Entry(e, st) ==
  [ cont |-> e.cont, w |-> e.w, ast |-> IF e.k = "r" THEN Res(e.x, st, <<>>) ELSE <<"eps">>, re |-> e.k = "r",
    ps |-> IF e.k = "r" THEN <<>>
           ELSE LET a == Tok(st.multi, e.u, 1)
                    b == Tok(st.multi, IF e.k = "s" THEN e.u ELSE e.l, 1)
                IN [ k \in 1..MaxS({Len(a), Len(b)}) |-> <<At(a, k), At(b, k)>> ] ]

Put(f, k, x) == [ j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j] ]
RECURSIVE AddDefs(_, _, _)
AddDefs(st, ds, k) == IF k > Len(ds) THEN st
  ELSE AddDefs([ st EXCEPT !.defs = Put(@, ds[k].name, Res(ds[k].ast, st, <<>>)) ], ds, k + 1)
RECURSIVE AddLex(_, _, _)
AddLex(st, ls, k) ==
  IF k > Len(ls) THEN st
  ELSE LET n == ls[k].name
           old == IF n \in DOMAIN st.lex THEN st.lex[n] ELSE <<>>
           new == [ j \in 1..Len(ls[k].entries) |-> Entry(ls[k].entries[j], st) ]
       IN AddLex([ st EXCEPT !.lex = Put(@, n, old \o new), !.init = IF n = "Root" \/ @ = "" THEN n ELSE @ ], ls, k + 1)
AddFile(st, f) == AddLex(AddDefs([ st EXCEPT !.multi = @ \cup Rng(f.multi) ], f.defs, 1), f.lexs, 1)

(***************************************************************************)
(* The machine of the lexicon graph.                                       *)
(***************************************************************************)
RECURSIVE NameSeq(_)
NameSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o NameSeq(S \ {x})
RECURSIVE Flat(_, _, _)
Flat(st, names, k) == IF k > Len(names) THEN <<>>
  ELSE [ j \in 1..Len(st.lex[names[k]]) |-> <<k - 1, st.lex[names[k]][j]>> ] \o Flat(st, names, k + 1)
PathM(ps) == [ n |-> Len(ps) + 1, s |-> 0,
               d |-> [ q \in 0..Len(ps) |-> IF q = Len(ps) THEN {} ELSE { <<q + 1, ps[q + 1][1], ps[q + 1][2], 0>> } ],
               f |-> [ q \in 0..Len(ps) |-> IF q = Len(ps) THEN {0} ELSE {} ] ]
EntryM(e, U) == WeightM(IF e.re THEN Ev(e.ast, U) ELSE PathM(e.ps), e.w)
RECURSIVE Offs(_, _, _)
Offs(ms, k, at) == IF k > Len(ms) THEN <<at>> ELSE <<at>> \o Offs(ms, k + 1, at + ms[k].n)
LexM(st, U) ==
  LET names == TLCEval(NameSeq(DOMAIN st.lex))
      L == Len(names)
      ents == TLCEval(Flat(st, names, 1))
      ms == TLCEval([ k \in 1..Len(ents) |-> EntryM(ents[k][2], U \ UFLAGS) ])
      off == TLCEval(Offs(ms, 1, L + 1))
      Idx(n) == IF n = "#" THEN L ELSE (CHOOSE k \in 1..L : names[k] = n) - 1
      cont(k) == LET n == ents[k][2].cont IN IF n = "#" \/ n \in DOMAIN st.lex THEN {Idx(n)} ELSE {}
      Own(q) == CHOOSE k \in 1..Len(ms) : off[k] <= q /\ q < off[k + 1]
      D(q) == IF q < L THEN { <<off[k] + ms[k].s, EPS, EPS, 0>> : k \in { j \in 1..Len(ms) : ents[j][1] = q } }
              ELSE IF q = L THEN {}
              ELSE LET k == Own(q) IN Sh(ms[k].d[q - off[k]], off[k])
                                      \cup { <<c, EPS, EPS, w>> : c \in cont(k), w \in ms[k].f[q - off[k]] }
  IN Force(Mach(off[Len(off)], Idx(st.init), D, LAMBDA q : IF q = L THEN {0} ELSE {}))

LexSyms(st) == UNION { UNION { IF e.re THEN SymsOf(e.ast) ELSE UNION { {p[1], p[2]} : p \in Rng(e.ps) } : e \in Rng(st.lex[n]) } : n \in DOMAIN st.lex } \ {EPS}
LexAny(st) == \E n \in DOMAIN st.lex : \E e \in Rng(st.lex[n]) : e.re

(***************************************************************************)
(* Lexicon flags: on the input side P.LEXNAME.x sets the current lexicon    *)
(* and R.LEXNAME.x needs it; the flags themselves are invisible.           *)
(***************************************************************************)
PFl(n) == "@P.LEXNAME." \o n \o "@"
RFl(n) == "@R.LEXNAME." \o n \o "@"
Obey(M, ns) ==         \* ns: sequence of lexicon names
  LET K == Len(ns) + 1
      P == [ k \in 1..Len(ns) |-> PFl(ns[k]) ]
      R == [ k \in 1..Len(ns) |-> RFl(ns[k]) ]
      Vis(s) == IF s \in Rng(P) \cup Rng(R) THEN EPS ELSE s
      Step(t, v) == IF t[2] \in Rng(R) /\ (v = 0 \/ R[v] # t[2]) THEN {}
                    ELSE LET v2 == IF t[2] \in Rng(P) THEN CHOOSE k \in 1..Len(ns) : P[k] = t[2] ELSE v
                         IN { <<t[1] * K + v2, Vis(t[2]), Vis(t[3]), t[4]>> }
  IN Force(Mach(M.n * K, M.s * K, LAMBDA x : UNION { Step(t, x % K) : t \in M.d[x \div K] }, LAMBDA x : M.f[x \div K]))

V(st, e, N, w) ==
  CASE e.exc # "" -> "exception " \o e.exc
    [] e.op \in {"lexc_new", "lexc_reset", "lexc_parse", "lexc_bad"} -> ""
    [] e.op = "lexc_compile" ->
         IF st.bad THEN IF e.ans = 0 THEN "" ELSE "a transducer from an ill-formed file"
         ELSE IF e.ans = 0 THEN "a well-formed file refused"
         ELSE LET ns == TLCEval(NameSeq(DOMAIN st.lex \cup {"#"}))
                  fl == { PFl(n) : n \in Rng(ns) } \cup { RFl(n) : n \in Rng(ns) }
                  U == (LexSyms(st) \cup Alph(e.res) \cup Syms(e.res) \cup IF LexAny(st) THEN FRESH ELSE {}) \ fl
                  M == Conc(e.res, U \ UFLAGS)        \* the flags are not among the symbols that ? stands for
                  R == IF st.flags = 1 THEN Obey(M, ns) ELSE M
              IN IF Rel(LexM(st, U), N, w) = Rel(R, N, w) THEN "" ELSE "wrong relation"
    [] OTHER -> "no action for " \o e.op

Do(st, e) ==
  CASE e.op = "lexc_new" -> [ ST0 EXCEPT !.flags = e.flags ]
    [] e.op = "lexc_reset" -> [ ST0 EXCEPT !.flags = st.flags ]
    [] e.op = "lexc_bad" -> [ st EXCEPT !.bad = TRUE ]
    [] e.op = "lexc_parse" -> IF st.bad THEN st ELSE AddFile(st, e.file)
    [] OTHER -> st

VARIABLES c, l, st, bad
vars == <<c, l, st, bad>>
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = "" /\ st = ST0
Next == /\ bad = ""
        /\ l <= Len(Cases[c].ev)
        /\ LET e == Cases[c].ev[l]
               v == IF e.op = "crash" THEN e.exc ELSE V(st, e, Cases[c].N, Cases[c].type = "tropical")
           IN /\ bad' = v /\ l' = l + 1 /\ c' = c
              /\ st' = IF v = "" THEN Do(st, e) ELSE st
              /\ IF v # "" THEN PrintT("REJECT|" \o ToString(Cases[c].id) \o "|" \o ToString(l) \o "|" \o e.op \o "|" \o v)
                 ELSE IF l = Len(Cases[c].ev) THEN PrintT("DONE|" \o ToString(Cases[c].id)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
