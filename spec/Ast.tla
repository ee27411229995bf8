--------------------------------- MODULE Ast --------------------------------
(***************************************************************************)
(* ESTree nodes in a uniform representation (so that TLC can compare them): *)
(*   t  node type      s  scalar attributes (strings)      c  children      *)
(* Two auxiliary types: "[]" a list of nodes, "null" the absent child.      *)
(* Some node types live only inside the specification:                      *)
(*   Paren        a parenthesised expression (transparent in ESTree)        *)
(*   Cover        CoverParenthesizedExpressionAndArrowParameterList         *)
(*   CoverInit    the value of `a = e' in {a = e}                           *)
(*   Computed     a computed property key                                   *)
(*   SpreadComma  a spread element followed by a comma (no valid rest)      *)
(*                                                                          *)
(* The second part is the static semantics that reinterprets covered text:  *)
(* assignment targets, arrow parameters.                                    *)
(***************************************************************************)
EXTENDS Tokens, FiniteSets

N(t, s, c) == [t |-> t, s |-> s, c |-> c]
Null    == N("null", <<>>, <<>>)
List(c) == N("[]", <<>>, c)
BadNode == N("<bad>", <<>>, <<>>)

IsBad(n) == n.t = "<bad>"
AnyBad(q) == \E i \in DOMAIN q : q[i].t = "<bad>"

Last(q)  == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
Pop(q, n) == SubSeq(q, 1, Len(q) - n)
Top(q, n) == SubSeq(q, Len(q) - n + 1, Len(q))

-----------------------------------------------------------------------------
(* Traversals *)

FnTypes == {"FunctionExpression", "FunctionDeclaration", "ArrowFunctionExpression",
            "ClassExpression", "ClassDeclaration"}

\* Does the node contain a node of one of the types, not looking into functions?
RECURSIVE Contains(_, _)
Contains(n, types) ==
  \/ n.t \in types
  \/ n.t \notin FnTypes /\ \E i \in DOMAIN n.c : Contains(n.c[i], types)

\* The same looking everywhere.
RECURSIVE ContainsAll(_, _)
ContainsAll(n, types) == n.t \in types \/ \E i \in DOMAIN n.c : ContainsAll(n.c[i], types)

\* An identifier of that name, not looking into functions (but into the
\* parameters of arrow functions).
RECURSIVE Mentions(_, _)
Mentions(n, name) ==
  \/ n.t = "Identifier" /\ n.s[1] = name
  \/ n.t = "ArrowFunctionExpression" /\ Mentions(n.c[2], name)
  \/ n.t \notin FnTypes /\ \E i \in DOMAIN n.c : Mentions(n.c[i], name)

-----------------------------------------------------------------------------
(* Assignment targets *)

RECURSIVE ToTarget(_, _), ToTargetElem(_, _)

\* The target denoted by expression n in a context that is strict or not.
ToTarget(n, strict) ==
  CASE n.t = "Identifier" ->
         IF strict /\ n.s[1] \in {"eval", "arguments"} THEN BadNode ELSE n
  [] n.t = "MemberExpression" -> n
  [] n.t = "Paren" ->
         LET e == n.c[1] IN
         IF e.t \in {"Identifier", "MemberExpression", "Paren"} /\ ~IsBad(ToTarget(e, strict))
         THEN n ELSE BadNode
  [] n.t = "ArrayExpression" ->
         LET q == n.c[1].c
             Conv(i) == LET x == q[i] IN
               IF x.t = "null" THEN x
               ELSE IF x.t = "SpreadElement"
                    THEN IF i # Len(q) THEN BadNode
                         ELSE LET a == ToTarget(x.c[1], strict) IN
                              IF IsBad(a) THEN BadNode ELSE N("RestElement", <<>>, <<a>>)
               ELSE ToTargetElem(x, strict)
             r == [i \in DOMAIN q |-> Conv(i)]
         IN IF AnyBad(r) THEN BadNode ELSE N("ArrayPattern", <<>>, <<List(r)>>)
  [] n.t = "ObjectExpression" ->
         LET q == n.c[1].c
             Conv(i) == LET x == q[i] IN
               IF x.t = "SpreadElement"
               THEN IF i # Len(q) \/ x.c[1].t \in {"ArrayExpression", "ObjectExpression"} THEN BadNode
                    ELSE LET a == ToTarget(x.c[1], strict) IN
                         IF IsBad(a) THEN BadNode ELSE N("RestElement", <<>>, <<a>>)
               ELSE IF x.t # "Property" \/ x.s[1] # "init" \/ x.s[2] = "true" THEN BadNode
               ELSE LET v == ToTargetElem(x.c[2], strict) IN
                    IF IsBad(v) THEN BadNode ELSE N("Property", x.s, <<x.c[1], v>>)
             r == [i \in DOMAIN q |-> Conv(i)]
         IN IF AnyBad(r) THEN BadNode ELSE N("ObjectPattern", <<>>, <<List(r)>>)
  [] OTHER -> BadNode

\* An element of a pattern: a target with an optional default.
ToTargetElem(n, strict) ==
  IF n.t = "AssignmentExpression"
  THEN IF n.s[1] = "=" THEN N("AssignmentPattern", <<>>, n.c) ELSE BadNode
  ELSE IF n.t = "CoverInit"
  THEN LET a == ToTarget(n.c[1], strict) IN
       IF IsBad(a) THEN BadNode ELSE N("AssignmentPattern", <<>>, <<a, n.c[2]>>)
  ELSE ToTarget(n, strict)

-----------------------------------------------------------------------------
(* Parameters of arrow functions, with the flags f that decide which names  *)
(* may be bound.                                                            *)

RECURSIVE ToBind(_, _), ToBindElem(_, _), ToBindList(_, _, _)

\* Items of an array (kind "arr"), object ("obj") or parameter list ("par").
ToBindList(q, f, kind) ==
  LET Conv(i) == LET x == q[i] IN
        CASE x.t = "null" -> x
        [] x.t \in {"SpreadElement", "RestElement"} ->
             LET a == ToBind(x.c[1], f) IN
             IF i # Len(q) \/ IsBad(a) \/ (kind = "obj" /\ a.t # "Identifier") THEN BadNode
             ELSE N("RestElement", <<>>, <<a>>)
        [] x.t = "Property" /\ kind = "obj" ->
             IF x.s[1] # "init" \/ x.s[2] = "true" THEN BadNode
             ELSE LET v == ToBindElem(x.c[2], f) IN
                  IF IsBad(v) THEN BadNode ELSE N("Property", x.s, <<x.c[1], v>>)
        [] kind = "obj" -> BadNode
        [] OTHER -> ToBindElem(x, f)
  IN [i \in DOMAIN q |-> Conv(i)]

ToBind(n, f) ==
  CASE n.t = "Identifier" -> IF BindNameOK(n.s[1], f) THEN n ELSE BadNode
  [] n.t \in {"ArrayExpression", "ArrayPattern"} ->
       LET r == ToBindList(n.c[1].c, f, "arr") IN
       IF AnyBad(r) THEN BadNode ELSE N("ArrayPattern", <<>>, <<List(r)>>)
  [] n.t \in {"ObjectExpression", "ObjectPattern"} ->
       LET r == ToBindList(n.c[1].c, f, "obj") IN
       IF AnyBad(r) THEN BadNode ELSE N("ObjectPattern", <<>>, <<List(r)>>)
  [] OTHER -> BadNode

ToBindElem(n, f) ==
  IF (n.t = "AssignmentExpression" /\ n.s[1] = "=") \/ n.t \in {"AssignmentPattern", "CoverInit"}
  THEN LET a == ToBind(n.c[1], f) IN
       IF IsBad(a) THEN BadNode ELSE N("AssignmentPattern", <<>>, <<a, n.c[2]>>)
  ELSE ToBind(n, f)
=============================================================================
