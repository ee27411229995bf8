----------------------------- MODULE ExploreLex -----------------------------
(***************************************************************************)
(* Exhaustive exploration of the character machine on a slice.  A letter is *)
(* a sequence of characters; contexts are texts before and after.           *)
(***************************************************************************)
EXTENDS Lex, Json, LexSlices

VARIABLES ctx, prog, lex
vars == <<ctx, prog, lex>>

Init ==
  /\ ctx \in DOMAIN Slice.ctxs
  /\ prog = <<>>
  /\ lex = LexAll(Lexer(Slice.ctxs[ctx].goal), Slice.ctxs[ctx].pre)

Step(i) ==
  /\ Len(prog) < Slice.max
  /\ ~lex.un
  /\ lex' = LexAll(lex, Slice.letters[i])
  /\ LOk(lex')
  /\ prog' = Append(prog, i)
  /\ UNCHANGED ctx

Next == \E i \in DOMAIN Slice.letters : Step(i)

Emit ==
  LET fin == EndTok(LexAll(lex, Slice.ctxs[ctx].post))
      d == IF ~LOk(fin) THEN BadNode ELSE LexResult(fin)
  IN IF lex.un \/ fin.un
     THEN PrintT("@B " \o ToJson([x |-> ctx, p |-> prog, q |-> <<>>, k |-> IF lex.un THEN "skip" ELSE "post", a |-> Null]))
     ELSE IF ~IsBad(d)
     THEN PrintT("@B " \o ToJson([x |-> ctx, p |-> prog, q |-> <<>>, k |-> "full", a |-> d]))
     ELSE LET r == LexComplete(lex)
          IN PrintT("@B " \o ToJson([x |-> ctx, p |-> prog, q |-> <<r.text>>, k |-> IF IsBad(r.a) THEN "none" ELSE "comp", a |-> r.a]))

\* With line numbers: for every letter that cannot follow, the lines of the
\* offending token.
EmitLines ==
  LET dead == {i \in DOMAIN Slice.letters : ~LOk(LexAll(lex, Slice.letters[i]))}
      end == EndTok(lex)
      bad == IsBad(LexResult(lex))
      eof == Feed(end.c, EofToken(end.nl))
  IN ~lex.un =>
     PrintT("@L " \o ToJson([x |-> ctx, p |-> prog,
        d |-> [i \in DOMAIN Slice.letters |-> IF i \in dead THEN LexAll(lex, Slice.letters[i]).er ELSE <<0, 0>>],
        e |-> IF ~bad \/ end.un THEN <<0, 0>> ELSE IF ~LOk(end) THEN end.er
             ELSE IF eof.stk = <<>> /\ ~CoverPending(end.c) THEN <<lex.at, end.ln>> ELSE <<0, 0>>]))

EmitSlice == PrintT("@S " \o ToJson(Slice))
ASSUME EmitSlice
=============================================================================
