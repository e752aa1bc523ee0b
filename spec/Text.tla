-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The text formats of transducers: AT&T tables and prolog clauses.        *)
(*                                                                         *)
(* State: registers (transducer values) and text files; a text file is a   *)
(* sequence of lines, a line is a record                                   *)
(*   AT&T    [k |-> "arc", s, t, i, o, w]  [k |-> "fin", s, w]             *)
(*           [k |-> "sep"]  [k |-> "bad"]                                  *)
(*   prolog  [k |-> "net", name]  [k |-> "sym", i]  "arc" (one = 1: the    *)
(*           line names one symbol)  "fin"  "sep"  "com"  "bad"            *)
(* where i and o are the spelled symbols, as sequences of tokens: plain    *)
(* characters and escapes.  Writing a register must give lines that denote *)
(* it, and reading lines must give what they denote.                       *)
(***************************************************************************)
EXTENDS FstDecide, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Get(e, k, d) == IF k \in DOMAIN e THEN e[k] ELSE d
Put(f, k, x) == [ j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j] ]

\* a spelled symbol: the escapes of the format undone
Unesc(fmt, tok) ==
  IF fmt = "att" THEN CASE tok = "@_SPACE_@" -> " " [] tok = "@_TAB_@" -> "\t" [] tok = "@_COLON_@" -> ":" [] OTHER -> tok
  ELSE CASE tok = "\\\"" -> "\"" [] tok = "\\\\" -> "\\" [] OTHER -> tok
RECURSIVE Cat(_, _, _)
Cat(fmt, toks, k) == IF k > Len(toks) THEN "" ELSE Unesc(fmt, toks[k]) \o Cat(fmt, toks, k + 1)
AttSym(toks, eps) ==
  LET s == Cat("att", toks, 1)
  IN CASE s = eps \/ s = "@0@" \/ s = "@_EPSILON_SYMBOL_@" -> EPS
       [] s = "@_IDENTITY_SYMBOL_@" -> ID
       [] s = "@_UNKNOWN_SYMBOL_@" -> UNK
       [] OTHER -> s
RECURSIVE Raw(_, _)
Raw(toks, k) == IF k > Len(toks) THEN "" ELSE toks[k] \o Raw(toks, k + 1)
ProSym(toks, one) ==
  LET s == Raw(toks, 1)
  IN CASE s = "0" -> EPS [] s = "%0" -> "0" [] s = "%?" -> "?"
       [] s = "?" -> IF one THEN ID ELSE UNK
       [] OTHER -> Cat("pro", toks, 1)

\* the transducer that the lines of one section denote
Denote(fmt, ls, eps) ==
  LET ar == SelectSeq(ls, LAMBDA x : x.k = "arc")
      fi == SelectSeq(ls, LAMBDA x : x.k = "fin")
      sy == SelectSeq(ls, LAMBDA x : x.k = "sym")
      one(x) == Get(x, "one", 0) = 1
      I(x) == IF fmt = "att" THEN AttSym(x.i, eps) ELSE ProSym(x.i, one(x))
      O(x) == IF fmt = "att" THEN AttSym(x.o, eps) ELSE IF one(x) THEN ProSym(x.i, TRUE) ELSE ProSym(x.o, FALSE)
      t == [ k \in 1..Len(ar) |-> <<ar[k].s, ar[k].t, I(ar[k]), O(ar[k]), Get(ar[k], "w", 0)>> ]
      \* the last line for a state decides its weight
      last(q) == CHOOSE j \in 1..Len(fi) : fi[j].s = q /\ \A h \in 1..Len(fi) : fi[h].s = q => h <= j
      fq == { fi[j].s : j \in 1..Len(fi) }
      RECURSIVE Seq2(_)
      Seq2(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seq2(S \ {x})
      f == Seq2({ <<q, Get(fi[last(q)], "w", 0)>> : q \in fq })
      a == [ k \in 1..Len(sy) |-> IF fmt = "att" THEN AttSym(sy[k].i, eps) ELSE ProSym(sy[k].i, FALSE) ]
      used == [ k \in 1..(2 * Len(t)) |-> t[(k + 1) \div 2][IF k % 2 = 1 THEN 3 ELSE 4] ]
  IN [ n |-> 1 + MaxS({0} \cup fq \cup { t[k][1] : k \in 1..Len(t) } \cup { t[k][2] : k \in 1..Len(t) }),
       t |-> t, f |-> f, a |-> a \o used ]

\* sections of a file
RECURSIVE Split(_, _, _)
Split(ls, cur, k) == IF k > Len(ls) THEN <<cur>>
                     ELSE IF ls[k].k = "sep" THEN <<cur>> \o Split(ls, <<>>, k + 1)
                     ELSE Split(ls, Append(cur, ls[k]), k + 1)
BadAtt(ls) == \E k \in 1..Len(ls) : ls[k].k = "bad"
NoCom(ls) == SelectSeq(ls, LAMBDA x : x.k # "com")
BadPro(ls0) == LET ls == NoCom(ls0)
               IN \/ Len(ls) = 0 \/ ls[1].k # "net"
                  \/ \E k \in 2..Len(ls) : ls[k].k \in {"bad", "net"} \/ Get(ls[k], "name", ls[1].name) # ls[1].name
                  \/ \E k \in 1..Len(ls0) : ls0[k].k = "com" /\ \E j \in 1..(k - 1) : ls0[j].k # "com"     \* comments come first

SameFst(A, B, N, weighted) ==
  LET U == Alph(A) \cup Syms(A) \cup Alph(B) \cup Syms(B) \cup {"%1", "%2"}
  IN Rel(Conc(A, U), N, weighted) = Rel(Conc(B, U), N, weighted)
AlphOf(A) == (Rng(A.a) \cup Syms(A)) \ {EPS, UNK, ID}
Drop(A) == [ A EXCEPT !.a = <<>>, !.t = @ ]
\* AT&T tables do not keep symbols that no arc uses
AttForm(A) == [ A EXCEPT !.a = [ k \in 1..(2 * Len(A.t)) |-> A.t[(k + 1) \div 2][IF k % 2 = 1 THEN 3 ELSE 4] ] ]

V(st, e, N) ==
  LET ex == e.exc IN
  CASE e.op = "load" -> IF ex = "" THEN "" ELSE "exception " \o ex
    [] e.op = "text_write" ->
         LET A == st.reg[e.r]
         IN IF e.fmt = "prolog" /\ Get(e, "comma", 0) = 1 THEN (IF ex # "" THEN "" ELSE "a comma in the name of a network not refused")
            ELSE IF ex # "" THEN "exception " \o ex
            ELSE IF e.res # A THEN "writing changed the transducer"
            ELSE IF e.fmt = "att" THEN
                 (IF BadAtt(e.lines) THEN "not a line of the format"
                  ELSE IF \E k \in 1..Len(e.lines) : ("w" \in DOMAIN e.lines[k]) # (e.weights = 1) THEN "weights printed or left out wrongly"
                  ELSE IF ~ SameFst(AttForm(A), Denote("att", e.lines, "@0@"), N, e.weights = 1) THEN "the text denotes another transducer" ELSE "")
            ELSE IF BadPro(e.lines) \/ e.lines[1].name # e.name THEN "not a clause of the format"
            ELSE IF \E k \in 1..Len(e.lines) : e.lines[k].k \in {"arc", "fin"} /\ ("w" \in DOMAIN e.lines[k]) # (e.weights = 1) THEN "weights printed or left out wrongly"
            ELSE LET D == Denote("prolog", e.lines, "")
                 IN IF ~ SameFst(A, D, N, e.weights = 1) THEN "the text denotes another transducer"
                    ELSE IF AlphOf(A) # AlphOf(D) THEN "the text denotes another alphabet" ELSE ""
    [] e.op = "text_put" -> ""
    [] e.op = "text_read" ->
         LET secs == Split(st.file[e.file], <<>>, 1)
             firstbad == LET B == { k \in 1..Len(secs) : IF e.fmt = "att" THEN BadAtt(secs[k]) ELSE BadPro(secs[k]) } IN IF B = {} THEN 0 ELSE MinS(B)
             want == IF firstbad = 0 THEN Len(secs) ELSE firstbad - 1
             end == IF firstbad # 0 THEN (IF e.fmt = "att" THEN "NotValidAttFormatException" ELSE "NotValidPrologFormatException") ELSE "EndOfStreamException"
         IN IF ex # "" THEN "exception " \o ex
            ELSE IF Len(e.got) # want \/ e.end # end THEN "read " \o ToString(Len(e.got)) \o " transducers up to " \o e.end \o " instead of " \o ToString(want) \o " up to " \o end
            ELSE LET K == { k \in 1..want : LET D == Denote(e.fmt, NoCom(secs[k]), e.eps)
                                            IN ~ SameFst(D, e.got[k], N, e.type \notin {"sfst", "foma"}) \/ (AlphOf(D) # AlphOf(e.got[k]) /\ (e.type # "foma" \/ Len(D.f) > 0)) }
                 IN IF K # {} THEN "another transducer read (" \o ToString(MinS(K)) \o ")" ELSE ""
    [] OTHER -> "no action for " \o e.op

Do(st, e) ==
  IF e.exc # "" THEN st
  ELSE CASE e.op = "load" -> [ st EXCEPT !.reg = Put(st.reg, e.r, e.res) ]
         [] e.op = "text_put" -> [ st EXCEPT !.file = Put(st.file, e.file, e.lines) ]
         [] e.op = "text_write" /\ e.file # "" ->
              LET old == IF e.file \in DOMAIN st.file THEN Append(st.file[e.file], [ k |-> "sep" ]) ELSE <<>>
              IN [ st EXCEPT !.file = Put(st.file, e.file, old \o e.lines) ]
         [] OTHER -> st

VARIABLES c, l, st, bad
vars == <<c, l, st, bad>>
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = "" /\ st = [ reg |-> << >>, file |-> << >> ]
Next == /\ bad = ""
        /\ l <= Len(Cases[c].ev)
        /\ LET e == Cases[c].ev[l]
               v == IF e.op = "crash" THEN e.exc ELSE V(st, e, Cases[c].N)
           IN /\ bad' = v /\ l' = l + 1 /\ c' = c
              /\ st' = IF v = "" THEN Do(st, e) ELSE st
              /\ IF v # "" THEN PrintT("REJECT|" \o ToString(Cases[c].id) \o "|" \o ToString(l) \o "|" \o e.op \o "|" \o v)
                 ELSE IF l = Len(Cases[c].ev) THEN PrintT("DONE|" \o ToString(Cases[c].id)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
