------------------------------- MODULE Record -------------------------------
(***************************************************************************)
(* Recorded trees checked against the schema, and their leaves against the  *)
(* tokens of the text as the lexer machine splits it.  A state is a text    *)
(* and the part of it that has been read.                                   *)
(***************************************************************************)
EXTENDS Lex, Json, Schema
CONSTANTS TextFile, ChunkSize

Texts == ndJsonDeserialize(TextFile)

VARIABLES i, pos, lex
vars == <<i, pos, lex>>

Init ==
  /\ i \in DOMAIN Texts
  /\ pos = 0
  /\ lex = [Lexer(Texts[i].goal) EXCEPT !.log = TRUE]

Running == LOk(lex) /\ ~lex.un

Next ==
  LET text == Texts[i].c
      to == IF pos + ChunkSize > Len(text) THEN Len(text) ELSE pos + ChunkSize IN
  /\ Running
  /\ pos < Len(text)
  /\ lex' = LexAll(lex, SubSeq(text, pos + 1, to))
  /\ pos' = to
  /\ UNCHANGED i

Spec == Init /\ [][Next]_vars

(* Words that may or may not be leaves where they stand: all reserved words *)
(* but this, super, null, true and false; and the contextual ones.          *)
Unclear == (ReservedWords \ {"this", "super", "null", "true", "false"}) \cup ContextualWords

\* Leaves of the text: <<kind, text>>.
TokenLeaf(tok) ==
  CASE tok.k \in {"id", "kw", "ekw"} -> <<<<"name", tok.v>>>>
  [] tok.k = "str" -> <<<<"str", tok.v>>>>
  [] tok.k = "num" -> <<<<"num", tok.v>>>>
  [] tok.k = "re" -> <<<<"re", tok.v \o "/" \o tok.w>>>>
  [] tok.k \in {"tfull", "thead", "tmid", "ttail"} -> <<<<"tpl", tok.w>>>>
  [] OTHER -> <<>>

Clear(q) == SelectSeq(q, LAMBDA x : ~(x[1] = "name" /\ x[2] \in Unclear))

Small == [n \in {"10:0","10:1","10:2","10:3","10:4","10:5","10:6","10:7","10:8","10:9","10:10","10:12","10:16","10:100"} |->
  CASE n = "10:0" -> "0" [] n = "10:1" -> "1" [] n = "10:2" -> "2" [] n = "10:3" -> "3" [] n = "10:4" -> "4" [] n = "10:5" -> "5" [] n = "10:6" -> "6"
    [] n = "10:7" -> "7" [] n = "10:8" -> "8" [] n = "10:9" -> "9" [] n = "10:10" -> "10" [] n = "10:12" -> "12" [] n = "10:16" -> "16" [] n = "10:100" -> "100"]

Agree(leaf, tok) ==
  /\ leaf[1] = tok[1]
  /\ \/ leaf[3]                                        \* characters that have several names
     \/ leaf[1] = "num" /\ tok[2] \notin DOMAIN Small
     \/ leaf[1] = "num" /\ tok[2] \in DOMAIN Small /\ leaf[2] = Small[tok[2]]
     \/ leaf[1] # "num" /\ leaf[2] = tok[2]

AgreeAll(p, q) == Len(p) = Len(q) /\ \A k \in DOMAIN p : Agree(p[k], q[k])

\* Once per run of equal names (`{a as a}' and `{a}' have the same tree).
RECURSIVE Runs(_)
Runs(q) == IF Len(q) < 2 THEN q
           ELSE IF q[1][1] = "name" /\ q[2][1] = "name" /\ q[1][2] = q[2][2] THEN Runs(Tail(q)) ELSE <<Head(q)>> \o Runs(Tail(q))

\* The leaves of the specification's tree of the text.
SpecLeaf(n) ==
  CASE n.t = "Identifier" -> <<<<"name", n.s[1]>>>>
  [] n.t = "ThisExpression" -> <<<<"name", "this">>>>
  [] n.t = "Super" -> <<<<"name", "super">>>>
  [] n.t = "TemplateElement" -> <<<<"tpl", n.s[2]>>>>
  [] n.t = "RegExp" -> <<<<"re", n.s[1] \o "/" \o n.s[2]>>>>
  [] n.t = "Literal" -> IF n.s[1] \in {"str", "num"} THEN <<<<n.s[1], n.s[2]>>>> ELSE <<<<"name", n.s[2]>>>>
  [] OTHER -> <<>>
SpecKids(n) ==
  CASE n.t = "Property" /\ n.s[3] = "true" -> <<n.c[2]>>
  [] n.t \in {"ImportSpecifier", "ExportSpecifier"} /\ n.c[1] = n.c[2] -> <<n.c[1]>>
  [] n.t = "TemplateLiteral" -> [k \in 1..(Len(n.c[1].c) + Len(n.c[2].c)) |-> IF k % 2 = 1 THEN n.c[1].c[(k + 1) \div 2] ELSE n.c[2].c[k \div 2]]
  [] OTHER -> n.c
RECURSIVE SpecLeaves(_)
SpecLeaves(n) == SpecLeaf(n) \o Flatten([k \in DOMAIN SpecKids(n) |-> SpecLeaves(SpecKids(n)[k])])

Say(k, what) == PrintT("@R " \o ToJson([i |-> i, k |-> k, what |-> what]))

AtEnd == ~Running \/ pos = Len(Texts[i].c)

Check ==
  AtEnd =>
  LET bad == Faults(Texts[i].ast, "program") IN
  IF bad # {} THEN Say("fault", ToString(bad))
  ELSE LET end == EndTok(lex) IN
       /\ Say("ok", "")
       /\ IF ~Running \/ end.un \/ ~LOk(end) THEN TRUE
          ELSE
            LET d == Result(end.c, end.nl)
                all == Leaves(Texts[i].ast, "program")
                spec == IF IsBad(d) THEN <<>> ELSE SpecLeaves(d)
                toks == Clear(Flatten([k \in DOMAIN end.tk |-> TokenLeaf(end.tk[k])]))
                leaves == Clear(all)
                as == \E k \in DOMAIN end.tk : end.tk[k].t = "as"
            IN IF ~IsBad(d) /\ ~AgreeAll(all, spec)
               THEN Say("fault", "leaves " \o ToString(all) \o " of the tree, " \o ToString(spec) \o " of the specification's")
               ELSE IF AgreeAll(leaves, toks) \/ (as /\ AgreeAll(Runs(leaves), Runs(toks))) THEN Say("leaves", "")
               ELSE Say("fault", "leaves " \o ToString(leaves) \o " of the tree, " \o ToString(toks) \o " of the text")
=============================================================================
