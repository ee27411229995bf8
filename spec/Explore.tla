------------------------------- MODULE Explore ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the machine on a slice: an alphabet of letters *)
(* (each a short sequence of lexemes), contexts (text before and after) and *)
(* a bound.  One action per letter.  Every state reached is printed with    *)
(* its completion and AST, as a behaviour to be replayed on the real parser.*)
(***************************************************************************)
EXTENDS Machine, Json, Slices

VARIABLES ctx, prog, conf, nl
vars == <<ctx, prog, conf, nl>>

\* Feeding the lexemes of a letter; "\n" is a line terminator.
RECURSIVE FeedLetter(_, _, _)
FeedLetter(c, letter, pending) ==
  IF letter = <<>> \/ ~c.ok THEN c
  ELSE IF Head(letter) = "\n" THEN FeedLetter(c, Tail(letter), TRUE)
  ELSE FeedLetter(FeedLex(c, Head(letter), pending), Tail(letter), FALSE)

EndsNL(letter, pending) == IF letter = <<>> THEN pending ELSE Last(letter) = "\n"

Init ==
  /\ ctx \in DOMAIN Slice.ctxs
  /\ prog = <<>>
  /\ conf = FeedLetter(Start(Slice.ctxs[ctx].goal), Slice.ctxs[ctx].pre, FALSE)
  /\ nl = EndsNL(Slice.ctxs[ctx].pre, FALSE)

Step(i) ==
  LET letter == Slice.letters[i] IN
  /\ Len(prog) < Slice.max
  /\ ~(nl /\ letter = <<"\n">>)
  /\ conf' = FeedLetter(conf, letter, nl)
  /\ conf'.ok
  /\ prog' = Append(prog, i)
  /\ nl' = EndsNL(letter, nl)
  /\ UNCHANGED ctx

Next == \E i \in DOMAIN Slice.letters : Step(i)

Spec == Init /\ [][Next]_vars

\* Behaviours for replay.
Emit ==
  LET direct == FeedLetter(conf, Slice.ctxs[ctx].post, nl)
      d == IF direct.ok THEN Result(direct, FALSE) ELSE BadNode
  IN IF ~IsBad(d)
     THEN PrintT("@B " \o ToJson([x |-> ctx, p |-> prog, q |-> <<>>, k |-> "full", a |-> d]))
     ELSE LET r == Complete(conf, 24, nl)
              a == IF r.c.ok THEN Result(r.c, FALSE) ELSE BadNode
          IN PrintT("@B " \o ToJson([x |-> ctx, p |-> prog, q |-> r.toks, k |-> IF IsBad(a) THEN "none" ELSE "comp", a |-> a]))

EmitSlice == PrintT("@S " \o ToJson(Slice))
ASSUME EmitSlice
=============================================================================
