-------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* The specification as the judge of given source texts (real programs and  *)
(* mutants of them, written by the harness): each is run through the        *)
(* character machine, and the verdict printed: the AST, or a rejection with *)
(* the lines of the offending token, or `out of scope'.                     *)
(***************************************************************************)
EXTENDS Lex, Json
CONSTANTS TextFile, ChunkSize

Texts == ndJsonDeserialize(TextFile)

VARIABLES i, pos, lex
vars == <<i, pos, lex>>

Init ==
  /\ i \in DOMAIN Texts
  /\ pos = 0
  /\ lex = Lexer(Texts[i].goal)

Running == LOk(lex) /\ ~lex.un

Next ==
  LET text == Texts[i].c
      to == IF pos + ChunkSize > Len(text) THEN Len(text) ELSE pos + ChunkSize IN
  /\ Running
  /\ pos < Len(text)
  /\ lex' = LexAll(lex, SubSeq(text, pos + 1, to))
  /\ pos' = to
  /\ UNCHANGED i

Spec == Init /\ [][Next]_vars

Out(k, a, er) == PrintT("@J " \o ToJson([i |-> i, k |-> k, a |-> a, er |-> er]))

Verdict ==
  IF lex.un THEN Out("un", Null, <<0, 0>>)
  ELSE IF ~LOk(lex) THEN Out("dead", Null, lex.er)
  ELSE IF pos < Len(Texts[i].c) THEN TRUE
  ELSE LET end == EndTok(lex)
           d == LexResult(lex)
           eof == Feed(end.c, EofToken(end.nl))
       IN IF end.un THEN Out("un", Null, <<0, 0>>)
          ELSE IF ~LOk(end) THEN Out("dead", Null, end.er)
          ELSE IF IsBad(d)
          THEN Out("dead", Null, IF eof.stk = <<>> /\ ~CoverPending(end.c) THEN <<lex.at, end.ln>> ELSE <<0, 0>>)
          ELSE Out("full", d, <<0, 0>>)
=============================================================================
