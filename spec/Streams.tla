------------------------------- MODULE Streams -------------------------------
(***************************************************************************)
(* Binary transducer streams.                                              *)
(*                                                                         *)
(* State:                                                                  *)
(*   reg   registers: [t |-> value, ty |-> type, p |-> properties]         *)
(*   file  file name -> sequence of records; a record is a register value, *)
(*         [t, ty, p, ok]; ok = FALSE: bytes of it are missing             *)
(*         a file that holds no transducers is <<JUNK>>                    *)
(*   out   output handle -> [file, ty, open]                               *)
(*   in    input handle -> [file, pos, ty, dead]                           *)
(* Opening an output stream empties the file, each accepted transducer is  *)
(* appended, and reading returns the records in order, with their          *)
(* properties, until the end.                                              *)
(***************************************************************************)
EXTENDS FstDecide, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Has(e, k) == k \in DOMAIN e
Get(e, k, d) == IF k \in DOMAIN e THEN e[k] ELSE d
Put(f, k, x) == [ j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j] ]
JUNK == [ junk |-> TRUE ]
IsJunk(r) == Has(r, "junk")

\* a property with no value is as good as none
PropSet(s) == { <<s[k][1], s[k][2]>> : k \in { j \in 1..Len(s) : s[j][2] # "" } }
SetP(p, k, v) == { x \in p : x[1] # k } \cup (IF v = "" THEN {} ELSE {<<k, v>>})
NameOf(p) == IF \E x \in p : x[1] = "name" THEN (CHOOSE x \in p : x[1] = "name")[2] ELSE ""

Unweighted(ty) == ty \in {"sfst", "foma", "ol"}
\* the same relation and alphabet (weights compared unless the format has none)
SameFst(A, B, N, weighted) ==
  LET U == Alph(A) \cup Syms(A) \cup Alph(B) \cup Syms(B) \cup {"%1", "%2"}
  IN Rel(Conc(A, U), N, weighted) = Rel(Conc(B, U), N, weighted)
SameAlph(A, B) == Rng(A.a) \cup Syms(A) \cup {EPS, UNK, ID} = Rng(B.a) \cup Syms(B) \cup {EPS, UNK, ID}

Refusals == {"EndOfStreamException", "NotTransducerStreamException", "TransducerHeaderException", "TransducerTypeMismatchException",
             "TransducerHasWrongTypeException", "HfstFatalException", "StreamNotReadableException", "HeaderParsingException", "HfstException", "FileIsInGZFormatException"}

EmptyFile(st, f) == f \notin DOMAIN st.file
RecAt(st, h) == LET i == st.in[h] IN IF i.pos <= Len(st.file[i.file]) THEN st.file[i.file][i.pos] ELSE [ eof |-> TRUE ]

\* the verdict on an event in state st
V(st, e, N) ==
  LET ex == e.exc IN
  CASE e.op \in {"load", "set_name", "set_prop", "tcopy", "tassign", "cat", "cut", "spit"} -> IF ex = "" THEN "" ELSE "exception " \o ex
    [] e.op = "tconvert" ->
         IF ex # "" THEN "exception " \o ex
         ELSE IF e.rtype # e.to THEN "wrong type"
         ELSE IF ~ SameFst(st.reg[e.r].t, e.res, N, ~ Unweighted(e.to) /\ e.to # "log") THEN "conversion changed the relation" ELSE ""
    [] e.op = "props" ->
         LET g == st.reg[e.r]
         IN IF ex # "" THEN "exception " \o ex
            ELSE IF PropSet(e.ans) # g.p \/ e.name # NameOf(g.p) THEN "wrong properties"
            ELSE IF e.rtype # g.ty THEN "wrong type" ELSE ""
    [] e.op = "os_open" -> IF ex = "" THEN "" ELSE "exception " \o ex
    [] e.op = "os_put" ->
         LET o == st.out[e.h]  g == st.reg[e.r]
         IN IF ~ o.open THEN (IF ex = "StreamIsClosedException" THEN "" ELSE "write to a closed stream not refused")
            ELSE IF g.ty # o.ty THEN (IF ex = "TransducerTypeMismatchException" THEN "" ELSE "write of another type not refused")
            ELSE IF ex = "" THEN "" ELSE "exception " \o ex
    [] e.op = "os_close" -> IF ex = "" THEN "" ELSE "exception " \o ex
    [] e.op = "is_open" ->
         IF e.file \notin DOMAIN st.file \/ Len(st.file[e.file]) = 0 THEN (IF ex \in Refusals THEN "" ELSE "missing or empty file not refused " \o ex)
         ELSE LET r == st.file[e.file][1]
              IN IF IsJunk(r) THEN (IF ex \in Refusals THEN "" ELSE "not a transducer, not refused " \o ex)
                 ELSE IF ~ r.ok /\ ex \in Refusals THEN ""
                 ELSE IF ex # "" THEN "exception " \o ex
                 ELSE IF e.rtype # r.ty THEN "wrong type" ELSE ""
    [] e.op \in {"is_state", "is_get", "is_close"} /\ e.h \notin DOMAIN st.in -> ""       \* nothing specified about a stream that failed
    [] e.op = "is_state" ->
         IF ex # "" THEN "exception " \o ex
         ELSE LET r == RecAt(st, e.h)
              IN IF (e.eof = 1) # Has(r, "eof") THEN "wrong answer about the end of the stream"
                 ELSE IF e.good = 0 /\ ~ Has(r, "eof") THEN "stream not good" ELSE ""
    [] e.op = "is_get" ->
         LET r == RecAt(st, e.h)  i == st.in[e.h]
         IN IF Has(r, "eof") THEN (IF ex = "EndOfStreamException" THEN "" ELSE "end of stream not reported " \o ex)
            ELSE IF IsJunk(r) THEN (IF ex \in Refusals THEN "" ELSE "not a transducer, not refused " \o ex)
            ELSE IF r.ty # i.ty THEN (IF ex = "TransducerTypeMismatchException" THEN "" ELSE "record of another type not refused " \o ex)
            ELSE IF ~ r.ok /\ ex \in Refusals THEN ""
            ELSE IF ex # "" THEN "exception " \o ex
            ELSE IF e.rtype # r.ty THEN "wrong type"
            ELSE IF PropSet(e.props) # r.p \/ e.name # NameOf(r.p) THEN "wrong properties"
            ELSE IF ~ SameFst(r.t, e.res, N, ~ Unweighted(r.ty)) THEN "another transducer read"
            ELSE IF ~ SameAlph(r.t, e.res) THEN "another alphabet read" ELSE ""
    [] e.op = "is_close" -> IF ex = "" THEN "" ELSE "exception " \o ex
    [] OTHER -> "no action for " \o e.op

\* effect on the state
Do(st, e) ==
  IF e.op \in {"is_get", "is_close"} /\ e.h \notin DOMAIN st.in THEN st
  ELSE IF e.exc # "" THEN (IF e.op = "is_open" \/ (e.op = "is_get" /\ e.exc # "EndOfStreamException") THEN [ st EXCEPT !.in = [ h \in DOMAIN st.in \ {e.h} |-> st.in[h] ] ]
                      ELSE st)
  ELSE
  CASE e.op = "load" -> [ st EXCEPT !.reg = Put(st.reg, e.r, [ t |-> e.res, ty |-> e.ty, p |-> {} ]) ]
    [] e.op = "set_name" -> [ st EXCEPT !.reg[e.r].p = SetP(@, "name", e.name) ]
    [] e.op = "set_prop" -> [ st EXCEPT !.reg[e.r].p = SetP(@, e.key, e.val) ]
    [] e.op \in {"tcopy", "tassign"} -> [ st EXCEPT !.reg = Put(st.reg, e.r, st.reg[e.a]) ]
    [] e.op = "tconvert" -> [ st EXCEPT !.reg[e.r].ty = e.to, !.reg[e.r].t = e.res ]
    [] e.op = "os_open" -> [ st EXCEPT !.file = Put(st.file, e.file, <<>>), !.out = Put(st.out, e.h, [ file |-> e.file, ty |-> e.type, open |-> TRUE, hfst |-> Get(e, "hfst", 1) = 1 ]) ]
    [] e.op = "os_put" ->
         LET o == st.out[e.h]  g == st.reg[e.r]
             rec == [ t |-> g.t, ty |-> g.ty, p |-> IF o.hfst THEN g.p ELSE {}, ok |-> TRUE ]
         IN [ st EXCEPT !.file[o.file] = Append(@, rec) ]
    [] e.op = "os_close" -> [ st EXCEPT !.out[e.h].open = FALSE ]
    [] e.op = "is_open" -> [ st EXCEPT !.in = Put(st.in, e.h, [ file |-> e.file, pos |-> 1, ty |-> st.file[e.file][1].ty ]) ]
    [] e.op = "is_get" -> LET r == RecAt(st, e.h) IN [ st EXCEPT !.in[e.h].pos = @ + 1, !.reg = Put(st.reg, e.r, [ t |-> e.res, ty |-> r.ty, p |-> r.p ]) ]
    [] e.op = "cat" -> LET RECURSIVE J(_) J(k) == IF k > Len(e.from) THEN <<>> ELSE st.file[e.from[k]] \o J(k + 1)
                       IN [ st EXCEPT !.file = Put(st.file, e.file, J(1)) ]
    [] e.op = "cut" -> [ st EXCEPT !.file[e.file] = IF e.kept = 0 THEN <<>> ELSE IF e.kept = e.size THEN @ ELSE [ k \in 1..Len(@) |-> IF k = Len(@) /\ ~ IsJunk(@[k]) THEN [@[k] EXCEPT !.ok = FALSE] ELSE @[k] ] ]
    [] e.op = "spit" -> [ st EXCEPT !.file = Put(st.file, e.file, IF e.text = "" THEN <<>> ELSE <<JUNK>>) ]
    [] OTHER -> st

VARIABLES c, l, st, bad
vars == <<c, l, st, bad>>
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = "" /\ st = [ reg |-> << >>, file |-> << >>, out |-> << >>, in |-> << >> ]
Next == /\ bad = ""
        /\ l <= Len(Cases[c].ev)
        /\ LET e == Cases[c].ev[l]
               v == IF e.op = "crash" THEN e.exc ELSE V(st, e, Cases[c].N)
           IN /\ bad' = v /\ l' = l + 1 /\ c' = c
              /\ st' = IF v = "" THEN Do(st, e) ELSE st
              /\ IF v # "" THEN PrintT("REJECT|" \o ToString(Cases[c].id) \o "|" \o ToString(l) \o "|" \o e.op \o "|" \o v)
                 ELSE IF l = Len(Cases[c].ev) THEN PrintT("DONE|" \o ToString(Cases[c].id)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
