------------------------------- MODULE WalkLex ------------------------------
(***************************************************************************)
(* Random walks of the character machine (see Walk).                        *)
(***************************************************************************)
EXTENDS Lex, Json, WalkLexSlices, Randomization

VARIABLES ctx, prog, lex, succ
vars == <<ctx, prog, lex, succ>>

Letters == WalkSlice.letters
\* (with a parameter, so that TLC does not evaluate it once for all)
Sample(k) == RandomSubset(IF Len(Letters) < k THEN Len(Letters) ELSE k, DOMAIN Letters)
Successors(l) == LET s == Sample(16 + (Len(prog) % 2)) IN [i \in s |-> LexAll(l, Letters[i])]
Live(s) == {i \in DOMAIN s : LOk(s[i])}

Init ==
  /\ ctx \in DOMAIN WalkSlice.ctxs
  /\ prog = <<>>
  /\ lex = LexAll(Lexer(WalkSlice.ctxs[ctx].goal), WalkSlice.ctxs[ctx].pre)
  /\ succ = <<>>

\* A viable letter of the sample, one that stays within the scope if possible.
Next ==
  LET in == {i \in Live(succ) : ~succ[i].un}
      live == IF in = {} THEN Live(succ) ELSE in IN
  /\ Len(prog) < WalkSlice.max
  /\ ~lex.un
  /\ IF live = {}
     THEN UNCHANGED <<lex, prog>>
     ELSE \E i \in {RandomElement(live)} :
       /\ lex' = succ[i]
       /\ prog' = Append(prog, i)
  /\ succ' = Successors(lex')
  /\ UNCHANGED ctx

Spec == Init /\ [][Next]_vars

Out(q, k, a) == PrintT("@B " \o ToJson([x |-> ctx, p |-> prog, q |-> q, k |-> k, a |-> a, d |-> DOMAIN succ \ Live(succ)]))

Emit ==
  LET fin == EndTok(LexAll(lex, WalkSlice.ctxs[ctx].post))
      d == IF ~LOk(fin) THEN BadNode ELSE LexResult(fin)
  IN IF lex.un \/ fin.un THEN Out(<<>>, IF lex.un THEN "skip" ELSE "post", Null)
     ELSE IF ~IsBad(d) THEN Out(<<>>, "full", d)
     ELSE LET r == LexComplete(lex)
          IN Out(<<r.text>>, IF IsBad(r.a) THEN "none" ELSE "comp", r.a)

\* With line numbers, as in ExploreLex.
EmitLines ==
  LET end == EndTok(lex)
      bad == IsBad(LexResult(lex))
      eof == Feed(end.c, EofToken(end.nl))
      dead == DOMAIN succ \ Live(succ)
  IN ~lex.un =>
     PrintT("@L " \o ToJson([x |-> ctx, p |-> prog,
        d |-> [i \in DOMAIN Letters |-> IF i \in dead THEN succ[i].er ELSE <<0, 0>>],
        e |-> IF ~bad \/ end.un THEN <<0, 0>> ELSE IF ~LOk(end) THEN end.er
             ELSE IF eof.stk = <<>> /\ ~CoverPending(end.c) THEN <<lex.at, end.ln>> ELSE <<0, 0>>]))

EmitSlice == PrintT("@S " \o ToJson(WalkSlice))
ASSUME EmitSlice
=============================================================================
