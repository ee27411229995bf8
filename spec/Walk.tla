-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* Random walks of the machine: programs much longer than the exhaustive    *)
(* slices reach.  Every state carries the configurations that a random sample   *)
(* of the letters leads to; the walk takes a viable one, and prints, for    *)
(* each state, the program so far, its completion, its AST and the letters  *)
(* of the sample that are not viable.                                       *)
(* Run by TLC in simulation mode.                                           *)
(***************************************************************************)
EXTENDS Machine, Json, WalkSlices, Randomization

VARIABLES ctx, prog, conf, nl, succ
vars == <<ctx, prog, conf, nl, succ>>

RECURSIVE FeedLetter(_, _, _)
FeedLetter(c, letter, pending) ==
  IF letter = <<>> \/ ~c.ok THEN c
  ELSE IF Head(letter) = "\n" THEN FeedLetter(c, Tail(letter), TRUE)
  ELSE FeedLetter(FeedLex(c, Head(letter), pending), Tail(letter), FALSE)

EndsNL(letter, pending) == IF letter = <<>> THEN pending ELSE Last(letter) = "\n"

Letters == WalkSlice.letters
\* (with a parameter, so that TLC does not evaluate it once for all)
Sample(k) == RandomSubset(IF Len(Letters) < k THEN Len(Letters) ELSE k, DOMAIN Letters)
Successors(c, pending) ==
  LET s == Sample(16 + (Len(prog) % 2)) IN [i \in {j \in s : ~(pending /\ Letters[j] = <<"\n">>)} |-> FeedLetter(c, Letters[i], pending)]
Live(s) == {i \in DOMAIN s : s[i].ok}

Init ==
  /\ ctx \in DOMAIN WalkSlice.ctxs
  /\ prog = <<>>
  /\ conf = FeedLetter(Start(WalkSlice.ctxs[ctx].goal), WalkSlice.ctxs[ctx].pre, FALSE)
  /\ nl = EndsNL(WalkSlice.ctxs[ctx].pre, FALSE)
  /\ succ = <<>>

\* One letter, chosen among the viable ones of the sample; a new sample.
Next ==
  LET live == Live(succ) IN
  /\ Len(prog) < WalkSlice.max
  /\ IF live = {}
     THEN UNCHANGED <<conf, prog, nl>>
     ELSE \E i \in {RandomElement(live)} :
       /\ conf' = succ[i]
       /\ prog' = Append(prog, i)
       /\ nl' = EndsNL(Letters[i], nl)
  /\ succ' = Successors(conf', nl')
  /\ UNCHANGED ctx

Spec == Init /\ [][Next]_vars

Emit ==
  LET direct == FeedLetter(conf, WalkSlice.ctxs[ctx].post, nl)
      d == IF direct.ok THEN Result(direct, FALSE) ELSE BadNode
      v == DOMAIN succ \ Live(succ)
  IN IF ~IsBad(d)
     THEN PrintT("@B " \o ToJson([x |-> ctx, p |-> prog, q |-> <<>>, k |-> "full", a |-> d, d |-> v]))
     ELSE LET r == Complete(conf, 60, nl)
              a == IF r.c.ok THEN Result(r.c, FALSE) ELSE BadNode
          IN PrintT("@B " \o ToJson([x |-> ctx, p |-> prog, q |-> r.toks, k |-> IF IsBad(a) THEN "none" ELSE "comp", a |-> a, d |-> v]))

EmitSlice == PrintT("@S " \o ToJson(WalkSlice))
ASSUME EmitSlice
=============================================================================
