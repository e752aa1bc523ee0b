-------------------------------- MODULE Regex ------------------------------
(***************************************************************************)
(* The regular expression compiler as a state machine.  State: its         *)
(* definitions and functions.  An event is one call of the compiler; the   *)
(* compiled transducer must denote the meaning (RegexSem) of the expression*)
(* with the definitions of that state.                                     *)
(***************************************************************************)
EXTENDS RegexSem

V(st, e, N, w) ==
  CASE e.op = "xre_bad" -> IF e.exc # "" \/ e.ans = 0 THEN "" ELSE "an ill-formed expression was accepted"
    [] e.exc # "" -> "exception " \o e.exc
    [] e.op \in {"xre_new", "xre_undef"} -> ""
    [] e.op \in {"xre_def", "xre_fun"} -> IF e.ans = 1 THEN "" ELSE "definition refused"
    [] e.op = "xre" ->
         IF e.ans = 0 THEN "expression refused"
         ELSE LET x == Res(e.ast, st, <<>>)
                  U == SymsOf(x) \cup Alph(e.res) \cup Syms(e.res) \cup FRESH
              IN IF Rel(Ev(x, U), N, w) = Rel(Conc(e.res, U), N, w) THEN "" ELSE "wrong relation"
    [] e.op = "repl" ->
         IF e.ans = 0 THEN "rule refused"
         ELSE LET U == UNION { RuleSyms(e.rules[k]) : k \in 1..Len(e.rules) } \cup Alph(e.res) \cup Syms(e.res) \cup {"%1"}
                  rs == TLCEval([ k \in 1..Len(e.rules) |-> RuleOf(e.rules[k], U, N) ])
                  R == ReplRel(e.arrow, rs, U, N, w)
                  X == IF e.inv = 1 THEN { <<t[2], t[1], t[3]>> : t \in R } ELSE R
              IN IF Rel(Conc(e.res, U), N, w) = X THEN "" ELSE "wrong relation"
    [] OTHER -> "no action for " \o e.op

Do(st, e) ==
  CASE e.op = "xre_new" -> [ defs |-> << >>, fns |-> << >> ]
    [] e.op = "xre_def" -> [ st EXCEPT !.defs = [ k \in DOMAIN @ \cup {e.name} |-> IF k = e.name THEN Res(e.ast, st, <<>>) ELSE @[k] ] ]
    [] e.op = "xre_undef" -> [ st EXCEPT !.defs = [ k \in DOMAIN @ \ {e.name} |-> @[k] ] ]
    [] e.op = "xre_fun" -> [ st EXCEPT !.fns = [ k \in DOMAIN @ \cup {e.name} |-> IF k = e.name THEN e.ast ELSE @[k] ] ]
    [] OTHER -> st

VARIABLES c, l, st, bad
vars == <<c, l, st, bad>>
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = "" /\ st = [ defs |-> << >>, fns |-> << >> ]
Next == /\ bad = ""
        /\ l <= Len(Cases[c].ev)
        /\ LET e == Cases[c].ev[l]
               v == IF e.op = "crash" THEN e.exc ELSE V(st, e, Cases[c].N, Cases[c].type = "tropical")
           IN /\ bad' = v /\ l' = l + 1 /\ c' = c
              /\ st' = IF v = "" THEN Do(st, e) ELSE st
              /\ IF v # "" THEN PrintT("REJECT|" \o ToString(Cases[c].id) \o "|" \o ToString(l) \o "|" \o e.op \o "|" \o v)
                 ELSE IF l = Len(Cases[c].ev) THEN PrintT("DONE|" \o ToString(Cases[c].id)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
