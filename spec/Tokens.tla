------------------------------- MODULE Tokens -------------------------------
(***************************************************************************)
(* Tokenization of strings and transducers made of strings.                *)
(*                                                                         *)
(* State: tokenizers, tk -> [multi, skip]: sets of strings (sequences of   *)
(* characters); registers.                                                 *)
(* A string is a sequence of characters; comb is the set of combining      *)
(* characters.  The next token is the longest multicharacter symbol that   *)
(* the rest of the string begins with, otherwise the next grapheme (with   *)
(* split: the next character).  Skip symbols are tokens that are left out. *)
(***************************************************************************)
EXTENDS FstDecide, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Get(e, k, d) == IF k \in DOMAIN e THEN e[k] ELSE d
Put(f, k, x) == [ j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j] ]

RECURSIVE Str(_, _)
Str(s, k) == IF k > Len(s) THEN "" ELSE s[k] \o Str(s, k + 1)
IsPrefix(p, s, k) == k + Len(p) - 1 <= Len(s) /\ SubSeq(s, k, k + Len(p) - 1) = p
RECURSIVE Grapheme(_, _, _)          \* the position after the grapheme that has begun
Grapheme(s, k, comb) == IF k <= Len(s) /\ s[k] \in comb THEN Grapheme(s, k + 1, comb) ELSE k
NextTok(T, s, k, split, comb) ==     \* the position after the token at k
  LET M == { p \in T.multi \cup T.skip : IsPrefix(p, s, k) }
  IN IF M # {} THEN k + MaxS({ Len(p) : p \in M })
     ELSE IF split THEN k + 1 ELSE Grapheme(s, k + 1, comb)
RECURSIVE Toks(_, _, _, _, _)
Toks(T, s, k, split, comb) ==
  IF k > Len(s) THEN <<>>
  ELSE LET j == NextTok(T, s, k, split, comb)
           p == SubSeq(s, k, j - 1)
       IN (IF p \in T.skip THEN <<>> ELSE <<Str(p, 1)>>) \o Toks(T, s, j, split, comb)
\* strings aligned from the left, the shorter one padded with epsilons
Zip(a, b) == [ k \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) |-> << IF k <= Len(a) THEN a[k] ELSE EPS, IF k <= Len(b) THEN b[k] ELSE EPS >> ]
RECURSIVE Spaced(_, _, _)
Spaced(s, k, cur) == IF k > Len(s) THEN (IF cur = "" THEN <<>> ELSE <<cur>>)
                     ELSE IF s[k] = " " THEN (IF cur = "" THEN <<>> ELSE <<cur>>) \o Spaced(s, k + 1, "")
                     ELSE Spaced(s, k + 1, cur \o s[k])
Same(a) == [ k \in 1..Len(a) |-> <<a[k], a[k]>> ]

\* machines of sequences of sets of pairs
Special(s) == CASE s = "@_EPSILON_SYMBOL_@" -> EPS [] s = "@_IDENTITY_SYMBOL_@" -> ID [] s = "@_UNKNOWN_SYMBOL_@" -> UNK [] OTHER -> s
SP(p) == <<Special(p[1]), Special(p[2])>>
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Chain(sets) ==
  LET t == SeqOf({ <<k - 1, k, p[1], p[2], 0>> : <<k, p>> \in UNION { {k} \X { SP(q) : q \in sets[k] } : k \in 1..Len(sets) } })
  IN [ n |-> Len(sets) + 1, t |-> t, f |-> << <<Len(sets), 0>> >>, a |-> SeqOf(UNION { UNION { {SP(q)[1], SP(q)[2]} : q \in sets[k] } : k \in 1..Len(sets) }) ]
Loop(S) == [ n |-> 1, t |-> SeqOf({ <<0, 0, SP(p)[1], SP(p)[2], 0>> : p \in S }), f |-> << <<0, 0>> >>, a |-> SeqOf(UNION { {SP(q)[1], SP(q)[2]} : q \in S }) ]
SameFst(A, B, N) ==
  LET U == Alph(A) \cup Syms(A) \cup Alph(B) \cup Syms(B) \cup {"%1", "%2"}
  IN Rel(Conc(A, U), N, TRUE) = Rel(Conc(B, U), N, TRUE)
Is(A, B, N) == IF ~ SameFst(A, B, N) THEN "another relation"
               ELSE IF (Rng(A.a) \cup Syms(A)) \ {EPS, ID, UNK} # (Rng(B.a) \cup Syms(B)) \ {EPS, ID, UNK} /\ (Rel(Conc(A, {}), 9, FALSE) # {} \/ Len(B.a) > 3)  THEN "another alphabet" ELSE ""

V(st, e, N) ==
  LET ex == e.exc
      comb == Rng(Get(e, "comb", <<>>))
      sp == Get(e, "split", 0) = 1
      T == st[e.tk]
  IN
  CASE e.op \in {"tk_new", "tk_multi", "tk_skip"} -> IF ex = "" THEN "" ELSE "exception " \o ex
    [] e.op = "tk_bytes" -> IF ex = "IncorrectUtf8CodingException" THEN "" ELSE "bytes that are not UTF-8 not refused " \o ex
    [] e.op \in {"mk_str", "mk_str2"} /\ (Len(e.s) = 0 \/ Len(Get(e, "o", <<"x">>)) = 0) -> IF ex = "EmptyStringException" THEN "" ELSE "an empty string not refused"
    [] e.op \in {"mk_sym", "mk_sym2"} /\ (e.i = "" \/ Get(e, "o", "x") = "") /\ ex = "EmptyStringException" -> ""
    [] ex # "" -> "exception " \o ex
    [] e.op = "tk_one" -> IF e.ans = Toks(T, e.s, 1, sp, comb) THEN "" ELSE "wrong tokens"
    [] e.op = "tk_tok" -> IF e.ans = Same(Toks(T, e.s, 1, sp, comb)) THEN "" ELSE "wrong tokens"
    [] e.op = "tk_pair" -> IF e.ans = Zip(Toks(T, e.s, 1, sp, comb), Toks(T, e.o, 1, sp, comb)) THEN "" ELSE "wrong alignment"
    [] e.op = "tk_space" -> IF e.ans = Same(Spaced(e.s, 1, "")) THEN "" ELSE "wrong tokens"
    [] e.op = "mk_str" -> Is(Chain(LET p == Same(Toks(T, e.s, 1, sp, comb)) IN [ k \in 1..Len(p) |-> {p[k]} ]), e.res, N)
    [] e.op = "mk_str2" -> Is(Chain(LET p == Zip(Toks(T, e.s, 1, sp, comb), Toks(T, e.o, 1, sp, comb)) IN [ k \in 1..Len(p) |-> {p[k]} ]), e.res, N)
    [] e.op = "mk_sym" -> Is(Chain(<< {<<e.i, e.i>>} >>), e.res, N)
    [] e.op = "mk_sym2" -> Is(Chain(<< {<<e.i, e.o>>} >>), e.res, N)
    [] e.op = "mk_spv" -> Is(Chain([ k \in 1..Len(e.pairs) |-> {e.pairs[k]} ]), e.res, N)
    [] e.op = "mk_set" -> Is(IF e.cyclic = 1 \/ Len(e.pairs) = 0 THEN Loop(Rng(e.pairs)) ELSE Chain(<<Rng(e.pairs)>>), e.res, N)
    [] e.op = "mk_sets" -> Is(Chain([ k \in 1..Len(e.sets) |-> Rng(e.sets[k]) ]), e.res, N)
    [] OTHER -> "no action for " \o e.op

Do(st, e) ==
  IF e.exc # "" THEN st
  ELSE CASE e.op = "tk_new" -> Put(st, e.tk, [ multi |-> {}, skip |-> {} ])
         [] e.op = "tk_multi" /\ Len(e.s) > 0 -> [ st EXCEPT ![e.tk].multi = @ \cup {e.s} ]
         [] e.op = "tk_skip" /\ Len(e.s) > 0 -> [ st EXCEPT ![e.tk].skip = @ \cup {e.s} ]
         [] OTHER -> st

VARIABLES c, l, st, bad
vars == <<c, l, st, bad>>
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = "" /\ st = << >>
Next == /\ bad = ""
        /\ l <= Len(Cases[c].ev)
        /\ LET e == Cases[c].ev[l]
               v == IF e.op = "crash" THEN e.exc ELSE V(st, e, Cases[c].N)
           IN /\ bad' = v /\ l' = l + 1 /\ c' = c
              /\ st' = IF v = "" THEN Do(st, e) ELSE st
              /\ IF v # "" THEN PrintT("REJECT|" \o ToString(Cases[c].id) \o "|" \o ToString(l) \o "|" \o e.op \o "|" \o v)
                 ELSE IF l = Len(Cases[c].ev) THEN PrintT("DONE|" \o ToString(Cases[c].id)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
