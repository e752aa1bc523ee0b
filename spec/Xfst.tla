-------------------------------- MODULE Xfst -------------------------------
(***************************************************************************)
(* The xfst shell as a stack machine.                                      *)
(*                                                                         *)
(* State: the stack (bottom first; the last element is the top), the       *)
(* definitions and functions, the files it has written or been given and   *)
(* the variable quit-on-fail.  An action is one command.  A command either *)
(* keeps a prefix of the stack untouched and puts new networks on top of   *)
(* it, whose relations follow from the operands, or rearranges networks,   *)
(* or answers a question about them without touching anything; a command   *)
(* that cannot be executed says so and leaves the stack as it was.         *)
(***************************************************************************)
EXTENDS RegexSem, FstDecide

ST0 == [ stk |-> << >>, defs |-> << >>, fns |-> << >>, files |-> << >>, quit |-> FALSE, over |-> FALSE ]
TRUE1  == << "1, (1 = TRUE, 0 = FALSE)" >>
FALSE0 == << "0, (1 = TRUE, 0 = FALSE)" >>

Top(s) == s[Len(s)]
But(s, n) == SubSeq(s, 1, Len(s) - n)
RevS(s) == [ k \in 1..Len(s) |-> s[Len(s) + 1 - k] ]
PutF(f, k, x) == [ j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j] ]
DelF(f, k) == [ j \in DOMAIN f \ {k} |-> f[j] ]
NoSpecial(A) == \A k \in 1..Len(A.t) : A.t[k][3] \notin {ID, UNK} /\ A.t[k][4] \notin {ID, UNK}
Acceptor(A) == \A k \in 1..Len(A.t) : A.t[k][3] = A.t[k][4] /\ A.t[k][3] # UNK
RECURSIVE JoinS(_, _)
JoinS(s, k) == IF k > Len(s) THEN "" ELSE s[k] \o JoinS(s, k + 1)

\* the machine of a binary command, the top being the left operand
BinM(cmd, A, B, U) ==
  CASE cmd = "union" -> UnionM(A, B)
    [] cmd = "concatenate" -> ConcatM(A, B)
    [] cmd = "compose" -> Comp(A, B)
    [] cmd = "intersect" -> AndM(A, B)
    [] cmd = "shuffle" -> ShuffleM(A, B)
    [] cmd = "minus" -> MinusM(A, B, U)
    [] cmd = "ignore" -> IgnoreM(A, B)
    [] cmd = "crossproduct" -> CrossM(A, B)
RECURSIVE Fold(_, _, _, _, _)
Fold(cmd, acc, s, k, U) == IF k = 0 THEN acc ELSE Fold(cmd, Explicit(BinM(cmd, acc, Conc(s[k], U), U)), s, k - 1, U)
UnM(cmd, A, U) ==
  CASE cmd \in {"determinize", "minimize", "epsilon-remove", "prune", "complete"} -> A
    [] cmd = "invert" -> InvertM(A)
    [] cmd = "lower-side" -> OutM(A)
    [] cmd = "upper-side" -> InM(A)
    [] cmd = "zero-plus" -> StarM(A)
    [] cmd = "one-plus" -> PlusM(A)
    [] cmd = "optional" -> OptM(A)
    [] cmd = "reverse" -> ReverseM(A)
    [] cmd = "negate" -> NotM(A, U)
All2 == {"union", "concatenate", "compose", "intersect", "shuffle"}
Two  == {"minus", "ignore", "crossproduct"}
One  == {"determinize", "minimize", "epsilon-remove", "prune", "complete", "invert", "lower-side", "upper-side", "zero-plus", "one-plus", "reverse", "negate"}
Tests1 == {"test null", "test non-null", "test upper-universal", "test lower-universal", "test upper-bounded", "test lower-bounded", "test identity"}
Tests2 == {"test equivalent", "test overlap", "test sublanguage"}
Prints == {"print words", "print upper-words", "print lower-words", "apply down", "apply up"}
Need(cmd) == IF cmd \in All2 \cup Two \cup Tests2 THEN 2 ELSE IF cmd \in One \cup Tests1 \cup Prints \cup {"sigma", "label", "define stack", "subst symbol", "write att"} THEN 1 ELSE 0
Symbols(A) == (Alph(A) \cup Syms(A)) \ SPECIAL
\* whether the command cannot be executed
Impossible(st, e) ==
  \/ Len(st.stk) < Need(e.cmd)
  \/ e.cmd = "crossproduct" /\ ~ (Acceptor(Top(st.stk)) /\ Acceptor(Top(But(st.stk, 1))))
  \/ e.cmd \in {"negate", "complete"} /\ ~ Acceptor(Top(st.stk))
  \/ e.cmd = "subst symbol" /\ e.target \notin Symbols(Top(st.stk))

EmptyL(M) == Useful(M) = {} \/ M.s \notin Useful(M)
SubL(A, B, U) == EmptyL(MinusM(A, B, U))
FinLang(M, U) == LET D == TrimM(DetM(M, U)) IN EmptyL(D) \/ ~ CyclicM(D)
RECURSIVE Inter(_, _, _, _)
Inter(acc, s, k, U) == IF k = 0 THEN acc ELSE Inter(AndM(acc, Conc(s[k], U)), s, k - 1, U)

\* the answer of a test
Answer(cmd, s, U, N) ==
  LET T == Conc(Top(s), U) IN
  CASE cmd = "test null" -> EmptyL(T)
    [] cmd = "test non-null" -> ~ EmptyL(T)
    [] cmd = "test upper-universal" -> EmptyL(NotM(InM(T), U))
    [] cmd = "test lower-universal" -> EmptyL(NotM(OutM(T), U))
    [] cmd = "test upper-bounded" -> FinLang(OutM(T), U)
    [] cmd = "test lower-bounded" -> FinLang(InM(T), U)
    [] cmd = "test equivalent" -> LET B == Conc(s[Len(s) - 1], U) IN SubL(T, B, U) /\ SubL(B, T, U)
    [] cmd = "test overlap" -> ~ EmptyL(Inter(T, s, Len(s) - 1, U))
    [] cmd = "test sublanguage" -> \A k \in 2..Len(s) : SubL(Conc(s[k], U), Conc(s[k - 1], U), U)

\* the strings of a side, for acyclic machines without special symbols
UpStr(r) == JoinS(r[1], 1)
LowStr(r) == JoinS(r[2], 1)
StrM2(w) == StrM(w, 1)

Same(A, B, U, N) == A = B \/ (A.n > 0 /\ Rel(Conc(A, U), N, FALSE) = Rel(Conc(B, U), N, FALSE))
SameAll(s, t, U, N) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Same(s[k], t[k], U, N)

Ast(st, e) == Res(e.ast, st, <<>>)
DefNets(st, names) == [ k \in 1..Len(names) |-> st.defs[names[k]] ]

V(st, e, N) ==
  CASE e.exc # "" -> "exception " \o e.exc
    [] e.op \in {"xf_new", "xf_file", "xf_skip"} -> ""
    [] e.op = "xf_bad" -> IF ~ SameAll(st.stk, e.stk, {}, N) THEN "a refused command changed the stack"
                          ELSE IF e.err = 0 THEN "an ill-formed command was not refused"
                          ELSE IF st.quit /\ e.rv = 0 THEN "a failure did not stop the shell" ELSE ""
    [] e.op = "xf" ->
       LET s == st.stk
           U == TLCEval(UNION { Symbols(s[k]) : k \in 1..Len(s) } \cup UNION { Symbols(e.stk[k]) : k \in 1..Len(e.stk) }
                        \cup (IF "ast" \in DOMAIN e THEN SymsOf(Ast(st, e)) ELSE {})
                        \cup (IF "defs" \in DOMAIN e THEN UNION { SymsOf(st.defs[e.defs[k]]) : k \in 1..Len(e.defs) } ELSE {})
                        \cup (IF "word" \in DOMAIN e THEN Rng(e.word) ELSE {}) \cup (IF "to" \in DOMAIN e THEN Rng(e.to) \cup {e.target} ELSE {})
                        \cup (IF "words" \in DOMAIN e THEN UNION { Rng(e.words[k]) : k \in 1..Len(e.words) } ELSE {}) \cup FRESH)
           Kept(n) == Len(e.stk) >= Len(s) - n /\ SameAll(But(s, n), SubSeq(e.stk, 1, Len(s) - n), U, N)
           Unchanged == SameAll(s, e.stk, U, N)
           \* n networks are replaced by one with the relation of M
           Becomes(n, M) == IF Len(e.stk) # Len(s) - n + 1 THEN "wrong stack depth"
                            ELSE IF ~ Kept(n) THEN "a network below was changed"
                            ELSE IF Rel(M, N, FALSE) # Rel(Conc(Top(e.stk), U), N, FALSE) THEN "wrong relation" ELSE ""
           Stack(t) == IF SameAll(t, e.stk, U, N) THEN "" ELSE "wrong stack"
           Says(b) == IF ~ Unchanged THEN "a question changed the stack" ELSE IF e.out = (IF b THEN TRUE1 ELSE FALSE0) THEN "" ELSE "wrong answer"
           Lists(S) == IF ~ Unchanged THEN "printing changed the stack" ELSE IF Rng(e.out) = S THEN "" ELSE "wrong strings"
       IN IF Impossible(st, e)
          THEN IF ~ Unchanged THEN "an impossible command changed the stack"
               ELSE IF st.quit /\ e.rv = 0 /\ e.cmd \notin Tests1 \cup {"crossproduct"} THEN "a failure did not stop the shell" ELSE ""
          ELSE IF e.rv # 0 THEN "a command failed"
          ELSE
          CASE e.cmd = "regex" -> Becomes(0, Ev(Ast(st, e), U))
            [] e.cmd \in {"define", "define fun", "undefine", "set", "echo"} -> IF Unchanged THEN "" ELSE "wrong stack"
            [] e.cmd = "define stack" -> Stack(But(s, 1))
            [] e.cmd = "push defined" -> IF e.name \in DOMAIN st.defs THEN Becomes(0, Ev(st.defs[e.name], U)) ELSE Stack(s)
            [] e.cmd = "push" -> IF Len(e.stk) # Len(s) + Cardinality(DOMAIN st.defs) THEN "wrong stack depth"
                                 ELSE IF ~ Kept(0) THEN "a network below was changed"
                                 ELSE IF \E f \in [ 1..Cardinality(DOMAIN st.defs) -> DOMAIN st.defs ] :
                                           /\ Rng(f) = DOMAIN st.defs
                                           /\ \A k \in DOMAIN f : Rel(Ev(st.defs[f[k]], U), N, FALSE) = Rel(Conc(e.stk[Len(s) + k], U), N, FALSE)
                                      THEN "" ELSE "wrong relation"
            [] e.cmd = "clear" -> Stack(<< >>)
            [] e.cmd = "pop" -> IF s = << >> THEN Stack(s) ELSE Stack(But(s, 1))
            [] e.cmd \in {"turn", "rotate"} -> Stack(RevS(s))
            [] e.cmd \in All2 -> Becomes(Len(s), Fold(e.cmd, Conc(Top(s), U), s, Len(s) - 1, U))
            [] e.cmd \in Two -> Becomes(2, BinM(e.cmd, Conc(Top(s), U), Conc(Top(But(s, 1)), U), U))
            [] e.cmd \in One -> Becomes(1, UnM(e.cmd, Conc(Top(s), U), U))
            [] e.cmd = "sigma" -> Becomes(0, SetM(Diag(Alph(Top(s)) \ SPECIAL)))
            [] e.cmd = "label" -> Becomes(1, SetM({ <<t[2], t[3]>> : t \in UNION { Conc(Top(s), U).d[q] : q \in 0..(Top(s).n - 1) } }))
            [] e.cmd = "subst symbol" ->
                 LET R(x) == IF x = e.target THEN Rng(e.to) ELSE {x}
                 IN IF ~ NoSpecial(Top(s)) THEN (IF Len(e.stk) = Len(s) /\ Kept(1) THEN "" ELSE "a network below was changed")
                    ELSE Becomes(1, RelabelM(Conc(Top(s), U), LAMBDA p : IF p[1] = p[2] THEN { <<x, x>> : x \in R(p[1]) } ELSE R(p[1]) \X R(p[2])))
            [] e.cmd = "test identity" ->
                 LET R == RelS(Conc(Top(s), U), N) IN
                 IF ~ Unchanged THEN "a question changed the stack"
                 ELSE IF Acceptor(Top(s)) THEN Says(TRUE)
                 ELSE IF (Ins(R) # { r[2] : r \in R } \/ "strict" \in DOMAIN e) /\ NoSpecial(Top(s)) /\ FinLang(InM(Conc(Top(s), U)), U) THEN Says(FALSE)
                 ELSE ""
            [] e.cmd \in Tests1 \cup Tests2 -> Says(Answer(e.cmd, s, U, N))
            [] e.cmd \in {"print upper-words", "print lower-words"} ->
                 LET T == Conc(Top(s), U) IN
                 IF ~ NoSpecial(Top(s)) \/ CyclicM(TrimM(T)) THEN (IF Unchanged THEN "" ELSE "printing changed the stack")
                 ELSE Lists({ IF e.cmd = "print upper-words" THEN UpStr(r) ELSE LowStr(r) : r \in RelS(T, 12) })
            [] e.cmd \in {"apply down", "apply up"} ->
                 LET T == Conc(Top(s), U)
                     M == Comp(StrM2(e.word), IF e.cmd = "apply up" THEN InvertM(T) ELSE T)
                     S == { LowStr(r) : r \in RelS(M, 12) }
                 IN IF \/ (~ NoSpecial(Top(s)) /\ ~ Acceptor(Top(s))) \/ CyclicM(TrimM(M)) THEN (IF Unchanged THEN "" ELSE "applying changed the stack")
                    ELSE Lists(IF S = {} THEN {"???"} ELSE S)
            [] e.cmd \in {"save stack", "write att"} -> IF Unchanged THEN "" ELSE "writing changed the stack"
            [] e.cmd = "load stack" -> Stack(s \o st.files[e.file])
            [] e.cmd = "read att" -> IF NoSpecial(Top(st.files[e.file])) THEN Becomes(0, Conc(Top(st.files[e.file]), U)) ELSE ""
            [] e.cmd \in {"read text", "read spaced"} -> Becomes(0, LET S == e.words IN UnionAll([ k \in 1..Len(S) |-> StrM(S[k], 1) ], Len(S)))
            [] OTHER -> "no action for " \o e.cmd
    [] OTHER -> "no action for " \o e.op

Do(st, e) ==
  CASE e.op = "xf_new" -> ST0
    [] e.op \in {"xf_file", "xf_skip"} -> st
    [] e.op = "xf_bad" -> [ st EXCEPT !.stk = e.stk ]
    [] Impossible(st, e) -> [ st EXCEPT !.stk = e.stk ]
    [] e.cmd = "define" -> [ st EXCEPT !.stk = e.stk, !.defs = PutF(@, e.name, Ast(st, e)) ]
    [] e.cmd = "define fun" -> [ st EXCEPT !.stk = e.stk, !.fns = PutF(@, e.name, e.ast) ]
    [] e.cmd = "define stack" -> [ st EXCEPT !.stk = e.stk, !.defs = PutF(@, e.name, << "net", Top(st.stk) >>) ]
    [] e.cmd = "undefine" -> [ st EXCEPT !.stk = e.stk, !.defs = [ k \in DOMAIN @ \ Rng(e.names) |-> @[k] ] ]
    [] e.cmd = "set" -> [ st EXCEPT !.stk = e.stk, !.quit = (e.on = 1) ]
    [] e.cmd \in {"save stack", "write att"} -> [ st EXCEPT !.stk = e.stk, !.files = PutF(@, e.file, st.stk) ]
    [] OTHER -> [ st EXCEPT !.stk = e.stk ]

VARIABLES c, l, st, bad
vars == <<c, l, st, bad>>
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = "" /\ st = ST0
Next == /\ bad = ""
        /\ l <= Len(Cases[c].ev)
        /\ LET e == Cases[c].ev[l]
               v0 == IF e.op = "crash" THEN e.exc ELSE V(st, e, Cases[c].N)
               v == IF v0 # "" /\ "cmd" \in DOMAIN e THEN e.cmd \o ": " \o v0 ELSE v0
           IN /\ bad' = v /\ l' = l + 1 /\ c' = c
              /\ st' = IF v = "" THEN Do(st, e) ELSE st
              /\ IF v # "" THEN PrintT("REJECT|" \o ToString(Cases[c].id) \o "|" \o ToString(l) \o "|" \o e.op \o "|" \o v)
                 ELSE IF l = Len(Cases[c].ev) THEN PrintT("DONE|" \o ToString(Cases[c].id)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
