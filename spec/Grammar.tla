------------------------------- MODULE Grammar ------------------------------
(***************************************************************************)
(* The syntactic grammar of ECMAScript 2018 (with optional catch binding),  *)
(* as a predictive pushdown machine that builds ESTree.                     *)
(*                                                                          *)
(* A configuration is a work stack of symbols (what is still expected) and  *)
(* a value stack of ESTree nodes (what has been recognised).  Symbols carry *)
(* the set f of context flags in force for the text they stand for:         *)
(*   in      `in' is an operator          strict  strict mode code          *)
(*   yield   [+Yield]                     mod     module goal               *)
(*   await   [+Await]                     ret     return is allowed         *)
(*   iter    inside a loop body           sw      inside a switch           *)
(*   par     inside formal parameters (yield/await expressions forbidden)   *)
(*   lex     binding of a let/const declaration                             *)
(*   nw      callee of new, which is no call                                *)
(*   sub     the body of an if or loop (no labelled function there)         *)
(*   L:x / LI:x   label x (of a loop) is visible                            *)
(* Automatic semicolon insertion is the symbol Semi.                        *)
(***************************************************************************)
EXTENDS Ast

-----------------------------------------------------------------------------
(* Symbols *)

Sym(g, k, f, s, n) == [g |-> g, k |-> k, f |-> f, s |-> s, n |-> n]

T(x)        == Sym("M", "T", {}, <<x>>, 0)       \* expect terminal x
Eat         == Sym("M", "Eat", {}, <<>>, 0)      \* consume the current token
Leaf(s)     == Sym("M", "Leaf", {}, s, 0)        \* consume it, push leaf node s
Val(s)      == Sym("M", "Val", {}, s, 0)         \* push leaf node s
Mk(n, s)    == Sym("M", "Mk", {}, s, n)          \* pop n nodes, push node s of them
App         == Sym("M", "App", {}, <<>>, 0)      \* append top node to list below it
Op(f, s)    == Sym("M", "Op", f, s, 0)           \* semantic action s on the values
Semi        == Sym("M", "Semi", {}, <<>>, 0)     \* statement terminator (ASI)
DoSemi      == Sym("M", "DoSemi", {}, <<>>, 0)   \* the one after do-while
NoNL        == Sym("M", "NoNL", {}, <<>>, 0)     \* [no LineTerminator here]
Bad         == Sym("M", "Bad", {}, <<>>, 0)      \* no production applies
NullV       == Val(<<"null">>)
ListV       == Val(<<"[]">>)

E(k, f)     == Sym("E", k, f, <<>>, 0)           \* expressions
EA(k, f, s) == Sym("E", k, f, s, 0)
S(k, f)     == Sym("S", k, f, <<>>, 0)           \* statements
SA(k, f, s) == Sym("S", k, f, s, 0)
F(k, f)     == Sym("F", k, f, <<>>, 0)           \* functions and classes
FA(k, f, s) == Sym("F", k, f, s, 0)
B(k, f)     == Sym("B", k, f, <<>>, 0)           \* bindings
BA(k, f, s) == Sym("B", k, f, s, 0)
X(k, f)     == Sym("X", k, f, <<>>, 0)           \* module items
XA(k, f, s) == Sym("X", k, f, s, 0)

Fail == <<Bad>>
Rule == <<Op({}, <<"reject">>)>>  \* an early error: the offending token is not specified

-----------------------------------------------------------------------------
(* Identifiers *)

IdOK(tok, f)   == tok.k = "id" /\ NameOK(tok.v, f)
BindOK(tok, f) == tok.k = "id" /\ BindNameOK(tok.v, f)
IsName(tok)    == tok.k \in {"id", "kw", "ekw"}
IsKey(tok)     == tok.k \in {"id", "kw", "ekw", "str", "num"} \/ tok.t = "["

\* May this key be a shorthand property? No, by a rule on names, or by its form.
Shorthand(tok, ok) == IF ok THEN "true" ELSE IF tok.k = "id" THEN "rule" ELSE "false"

KeyLeaf(tok) == IF tok.k \in {"str", "num"} THEN Leaf(<<"Literal", tok.k, tok.v>>)
                ELSE Leaf(<<"Identifier", tok.v>>)

-----------------------------------------------------------------------------
(* Operators *)

LogicalOps == {"||", "&&"}
Prec ==
     "||" :> 1 @@ "&&" :> 2 @@ "|" :> 3 @@ "^" :> 4 @@ "&" :> 5
  @@ "==" :> 6 @@ "!=" :> 6 @@ "===" :> 6 @@ "!==" :> 6
  @@ "<" :> 7 @@ ">" :> 7 @@ "<=" :> 7 @@ ">=" :> 7 @@ "instanceof" :> 7 @@ "in" :> 7
  @@ "<<" :> 8 @@ ">>" :> 8 @@ ">>>" :> 8
  @@ "+" :> 9 @@ "-" :> 9
  @@ "*" :> 10 @@ "/" :> 10 @@ "%" :> 10
  @@ "**" :> 11
BinOps == DOMAIN Prec
CompoundOps == {"+=","-=","*=","/=","%=","**=","<<=",">>=",">>>=","&=","|=","^="}
UnaryOps == {"delete","void","typeof","+","-","~","!"}

(* Tokens that can start an AssignmentExpression (decides `yield' operands). *)
StartsExpr(tok) ==
  \/ tok.k \in {"id", "num", "str", "re", "tfull", "thead"}
  \/ tok.t \in {"function","class","new","this","super","null","true","false",
                "delete","void","typeof","+","-","!","~","++","--","(","[","{"}

-----------------------------------------------------------------------------
(* Context flags of function code *)

Keep(f, q) == f \cap q
FnFlags(f, gen, asy) ==
  Keep(f, {"strict", "mod"}) \cup {"in", "ret"}
    \cup (IF gen THEN {"yield"} ELSE {}) \cup (IF asy THEN {"await"} ELSE {})
In(f)   == (f \cup {"in"}) \ {"nw"}
NoIn(f) == f \ {"in"}
Str(b)  == IF b THEN "true" ELSE "false"

-----------------------------------------------------------------------------
(* Expressions *)

\* What may follow a primary expression at the start of an AssignmentExpression.
Rest(f) == <<E("Chain", f), E("Post", f), Sym("E", "Bin", f, <<>>, 0),
             E("Cond", f), E("AsgTail", f)>>

ProdE(x, tok) ==
  LET f == x.f  k == x.k IN
  CASE k = "Expr" -> <<E("Assign", f), E("Comma", f)>>
  [] k = "Comma" ->
       IF tok.t = "," THEN <<Op({}, <<"wrap">>), E("CommaMore", f)>> ELSE <<>>
  [] k = "CommaMore" ->
       IF tok.t = "," THEN <<Eat, E("Assign", f), App, x>>
       ELSE <<Mk(1, <<"SequenceExpression">>)>>
  [] k = "Assign" ->
       IF tok.k = "id" THEN
         IF tok.t = "yield" /\ "yield" \in f
         THEN IF "par" \in f THEN Fail ELSE <<Eat, E("YieldTail", f)>>
         ELSE IF tok.t = "async" THEN <<Leaf(<<"Identifier", "async">>), E("AsyncTail", f)>>
         ELSE IF IdOK(tok, f) THEN <<Leaf(<<"Identifier", tok.v>>), E("AfterId", f)>>
         ELSE <<E("Unary", f), Sym("E", "Bin", f, <<>>, 0), E("Cond", f), E("AsgTail", f)>>
       ELSE IF tok.t = "(" THEN <<Eat, E("CoverOpen", f), E("AfterParen", f)>>
       ELSE <<E("Unary", f), Sym("E", "Bin", f, <<>>, 0), E("Cond", f), E("AsgTail", f)>>
  [] k = "AfterId" ->
       IF tok.t = "=>" THEN <<Op(f, <<"idToParams">>), F("Arrow", f)>> ELSE Rest(f)
  [] k = "Chain" ->
       IF tok.k = "p" THEN
         IF tok.t = "." THEN <<Eat, E("DotName", f), Mk(2, <<"MemberExpression", "false">>), x>>
         ELSE IF tok.t = "[" THEN <<Eat, E("Expr", In(f)), T("]"), Mk(2, <<"MemberExpression", "true">>), x>>
         ELSE IF tok.t = "(" THEN <<Eat, ListV, E("Args", In(f)), Mk(2, <<"CallExpression">>), x>>
         ELSE <<>>
       ELSE IF tok.k \in {"tfull", "thead"}
            THEN <<EA("Template", f, <<"tagged">>), Mk(2, <<"TaggedTemplateExpression">>), x>>
       ELSE <<>>
  [] k = "MChain" ->
       IF tok.t = "." THEN <<Eat, E("DotName", f), Mk(2, <<"MemberExpression", "false">>), x>>
       ELSE IF tok.t = "[" THEN <<Eat, E("Expr", In(f)), T("]"), Mk(2, <<"MemberExpression", "true">>), x>>
       ELSE IF tok.k \in {"tfull", "thead"}
            THEN <<EA("Template", f, <<"tagged">>), Mk(2, <<"TaggedTemplateExpression">>), x>>
       ELSE <<>>
  [] k = "DotName" -> IF IsName(tok) THEN <<Leaf(<<"Identifier", tok.v>>)>> ELSE Fail
  [] k = "Post" ->
       IF tok.t \in {"++", "--"} /\ ~tok.nl
       THEN <<Op(f, <<"chkSimple">>), Eat, Mk(1, <<"UpdateExpression", tok.v, "false">>)>>
       ELSE <<>>
  [] k = "Bin" ->
       IF tok.t \in BinOps /\ Prec[tok.t] > x.n /\ (tok.t = "in" => "in" \in f)
       THEN LET p == Prec[tok.t] IN
            (IF tok.t = "**" THEN <<Op({}, <<"chkPow">>)>> ELSE <<>>) \o
            <<Eat, E("Unary", f), Sym("E", "Bin", f, <<>>, IF tok.t = "**" THEN p - 1 ELSE p),
              Mk(2, <<IF tok.t \in LogicalOps THEN "LogicalExpression" ELSE "BinaryExpression", tok.t>>),
              x>>
       ELSE <<>>
  [] k = "Cond" ->
       IF tok.t = "?"
       THEN <<Eat, E("Assign", In(f)), T(":"), E("Assign", f), Mk(3, <<"ConditionalExpression">>)>>
       ELSE <<>>
  [] k = "AsgTail" ->
       IF tok.t = "=" THEN <<Op(f, <<"toTarget">>), Eat, E("Assign", f), Mk(2, <<"AssignmentExpression", "=">>)>>
       ELSE IF tok.t \in CompoundOps
            THEN <<Op(f, <<"chkSimple">>), Eat, E("Assign", f), Mk(2, <<"AssignmentExpression", tok.v>>)>>
       ELSE <<>>
  [] k = "Unary" ->
       IF tok.t \in UnaryOps THEN <<Eat, x, Mk(1, <<"UnaryExpression", tok.v>>)>>
       ELSE IF tok.t \in {"++", "--"}
            THEN <<Eat, x, Op(f, <<"chkSimple">>), Mk(1, <<"UpdateExpression", tok.v, "true">>)>>
       ELSE IF tok.t = "await" /\ "await" \in f
            THEN IF "par" \in f THEN Fail ELSE <<Eat, x, Mk(1, <<"AwaitExpression">>)>>
       ELSE <<E("Primary", f), E("Chain", f), E("Post", f)>>
  [] k = "Primary" ->
       CASE tok.k = "id" ->
              IF tok.t = "async" THEN <<Leaf(<<"Identifier", "async">>), E("AsyncPrim", f)>>
              ELSE IF IdOK(tok, f) THEN <<Leaf(<<"Identifier", tok.v>>)>> ELSE Fail
       [] tok.k = "p" ->
              IF tok.t = "[" THEN <<Eat, ListV, E("ArrElems", In(f))>>
              ELSE IF tok.t = "{" THEN <<Eat, ListV, E("ObjProps", In(f))>>
              ELSE IF tok.t = "(" THEN <<Eat, E("Expr", In(f)), T(")"), Mk(1, <<"Paren">>)>>
              ELSE Fail
       [] tok.k \in {"num", "str"} -> <<Leaf(<<"Literal", tok.k, tok.v>>)>>
       [] tok.k = "re" -> <<Leaf(<<"RegExp", tok.v, tok.w>>)>>
       [] tok.k \in {"tfull", "thead"} -> <<E("Template", f)>>
       [] tok.k = "kw" ->
              CASE tok.t = "this" -> <<Leaf(<<"ThisExpression">>)>>
              [] tok.t = "null" -> <<Leaf(<<"Literal", "null", "null">>)>>
              [] tok.t \in {"true", "false"} -> <<Leaf(<<"Literal", "bool", tok.v>>)>>
              [] tok.t = "function" -> <<Eat, FA("FnExprStar", f, <<"false">>)>>
              [] tok.t = "class" -> <<F("ClassExpr", f)>>
              [] tok.t = "new" -> <<Eat, E("NewTail", f)>>
              [] tok.t = "super" -> <<Leaf(<<"Super">>), E("SuperTail", f)>>
              [] OTHER -> Fail
       [] OTHER -> Fail
  [] k = "SuperTail" -> IF tok.t \in {".", "["} \/ (tok.t = "(" /\ "nw" \notin f) THEN <<>> ELSE Fail
  [] k = "NewTail" ->
       IF tok.t = "." THEN <<Val(<<"Identifier", "new">>), Eat, E("Target", f), Mk(2, <<"MetaProperty">>)>>
       ELSE <<E("Primary", f \cup {"nw"}), E("MChain", f), E("NewArgs", f)>>
  [] k = "Target" -> IF tok.t = "target" THEN <<Leaf(<<"Identifier", "target">>)>> ELSE Fail
  [] k = "NewArgs" ->
       IF tok.t = "(" THEN <<Eat, ListV, E("Args", In(f)), Mk(2, <<"NewExpression">>)>>
       ELSE <<ListV, Mk(2, <<"NewExpression">>)>>
  [] k = "Args" ->      \* after "(" with the list on the value stack; takes ")"
       IF tok.t = ")" THEN <<Eat>>
       ELSE IF tok.t = "..." THEN <<Eat, E("Assign", f), Mk(1, <<"SpreadElement">>), App, E("ArgsAfter", f)>>
       ELSE <<E("Assign", f), App, E("ArgsAfter", f)>>
  [] k = "ArgsAfter" ->
       IF tok.t = ")" THEN <<Eat>>
       ELSE IF tok.t = "," THEN <<Eat, Op({}, <<"markSpread">>), E("Args", f)>> ELSE Fail
  [] k = "ArrElems" ->
       IF tok.t = "," THEN <<Eat, NullV, App, x>>
       ELSE IF tok.t = "]" THEN <<Eat, Mk(1, <<"ArrayExpression">>)>>
       ELSE IF tok.t = "..." THEN <<Eat, E("Assign", f), Mk(1, <<"SpreadElement">>), App, E("ArrAfter", f)>>
       ELSE <<E("Assign", f), App, E("ArrAfter", f)>>
  [] k = "ArrAfter" ->
       IF tok.t = "]" THEN <<Eat, Mk(1, <<"ArrayExpression">>)>>
       ELSE IF tok.t = "," THEN <<Eat, Op({}, <<"markSpread">>), E("ArrElems", f)>> ELSE Fail
  [] k = "ObjProps" ->
       IF tok.t = "}" THEN <<Eat, Mk(1, <<"ObjectExpression">>)>>
       ELSE IF tok.t = "..." THEN <<Eat, E("Assign", f), Mk(1, <<"SpreadElement">>), App, E("ObjAfter", f)>>
       ELSE <<E("Prop", f), App, E("ObjAfter", f)>>
  [] k = "ObjAfter" ->
       IF tok.t = "}" THEN <<Eat, Mk(1, <<"ObjectExpression">>)>>
       ELSE IF tok.t = "," THEN <<Eat, Op({}, <<"markSpread">>), E("ObjProps", f)>> ELSE Fail
  [] k = "Prop" ->
       IF tok.t = "*" THEN <<Eat, E("PropKey", f), FA("MethodFn", f, <<"true", "false">>), Op({}, <<"prop", "init", "true", "false">>)>>
       ELSE IF tok.t \in {"get", "set"} THEN <<KeyLeaf(tok), EA("GetSetTail", f, <<tok.t>>)>>
       ELSE IF tok.t = "async" THEN <<KeyLeaf(tok), E("AsyncPropTail", f)>>
       ELSE IF tok.t = "[" THEN <<E("PropKey", f), EA("PropTail", f, <<"false">>)>>
       ELSE IF IsKey(tok) THEN <<KeyLeaf(tok), EA("PropTail", f, <<Shorthand(tok, IdOK(tok, f))>>)>>
       ELSE Fail
  [] k = "PropKey" ->
       IF tok.t = "[" THEN <<Eat, E("Assign", In(f)), T("]"), Mk(1, <<"Computed">>)>>
       ELSE IF IsKey(tok) THEN <<KeyLeaf(tok)>> ELSE Fail
  [] k = "PropTail" ->  \* s[1]: may be a shorthand
       IF tok.t = ":" THEN <<Eat, E("Assign", f), Op({}, <<"prop", "init", "false", "false">>)>>
       ELSE IF tok.t = "(" THEN <<FA("MethodFn", f, <<"false", "false">>), Op({}, <<"prop", "init", "true", "false">>)>>
       ELSE IF x.s[1] = "false" THEN Fail
       ELSE IF x.s[1] = "rule" THEN Rule
       ELSE IF tok.t = "=" THEN <<Eat, E("Assign", f), Op({}, <<"coverInit">>)>>
       ELSE IF tok.t \in {",", "}"} THEN <<Op({}, <<"dup">>), Op({}, <<"prop", "init", "false", "true">>)>>
       ELSE Fail
  [] k = "GetSetTail" ->
       IF IsKey(tok) THEN <<Op({}, <<"drop">>), E("PropKey", f), FA(x.s[1], f, <<>>), Op({}, <<"prop", x.s[1], "false", "false">>)>>
       ELSE <<EA("PropTail", f, <<"true">>)>>
  [] k = "AsyncPropTail" ->
       IF tok.t = "*" /\ ~tok.nl
       THEN <<Op({}, <<"drop">>), Eat, E("PropKey", f), FA("MethodFn", f, <<"true", "true">>), Op({}, <<"prop", "init", "true", "false">>)>>
       ELSE IF IsKey(tok) /\ ~tok.nl
       THEN <<Op({}, <<"drop">>), E("PropKey", f), FA("MethodFn", f, <<"false", "true">>), Op({}, <<"prop", "init", "true", "false">>)>>
       ELSE <<EA("PropTail", f, <<"true">>)>>
  [] k = "Template" ->
       IF tok.v = "<bad>" /\ x.s = <<>> THEN Fail
       ELSE IF tok.k = "tfull"
       THEN <<ListV, Leaf(<<"TemplateElement", tok.v, tok.w, "true">>), App, ListV, Mk(2, <<"TemplateLiteral">>)>>
       ELSE <<ListV, Leaf(<<"TemplateElement", tok.v, tok.w, "false">>), App, ListV, E("Expr", In(f)), App, EA("TplCont", f, x.s)>>
  [] k = "TplCont" ->
       IF tok.k \in {"tmid", "ttail"} /\ tok.v = "<bad>" /\ x.s = <<>> THEN Fail
       ELSE IF tok.k = "tmid" THEN <<Leaf(<<"TemplateElement", tok.v, tok.w, "false">>), Op({}, <<"appQuasi">>), E("Expr", In(f)), App, x>>
       ELSE IF tok.k = "ttail" THEN <<Leaf(<<"TemplateElement", tok.v, tok.w, "true">>), Op({}, <<"appQuasi">>), Mk(2, <<"TemplateLiteral">>)>>
       ELSE Fail
  [] k = "CoverOpen" ->     \* after "(" at the start of an AssignmentExpression
       IF tok.t = ")" THEN <<ListV, Eat, Mk(1, <<"Cover", "must">>)>>
       ELSE <<ListV, E("CoverItem", f)>>
  [] k = "CoverItem" ->
       IF tok.t = "..." THEN <<Eat, B("Target", f), Mk(1, <<"RestElement">>), App, T(")"), Mk(1, <<"Cover", "must">>)>>
       ELSE <<E("Assign", In(f)), App, E("CoverAfter", f)>>
  [] k = "CoverAfter" ->
       IF tok.t = ")" THEN <<Eat, Mk(1, <<"Cover", "may">>)>>
       ELSE IF tok.t = "," THEN <<Eat, E("CoverNext", f)>> ELSE Fail
  [] k = "CoverNext" ->
       IF tok.t = ")" THEN <<Eat, Mk(1, <<"Cover", "must">>)>> ELSE <<E("CoverItem", f)>>
  [] k = "AfterParen" ->
       IF tok.t = "=>" THEN <<Op(f, <<"coverToParams">>), F("Arrow", f)>>
       ELSE <<Op({}, <<"coverToParen">>)>> \o Rest(f)
  [] k = "AsyncTail" ->
       IF tok.t = "function" /\ ~tok.nl THEN <<Op({}, <<"drop">>), Eat, FA("FnExprStar", f, <<"true">>)>> \o Rest(f)
       ELSE IF tok.k = "id" /\ ~tok.nl /\ BindOK(tok, f \cup {"await"})
            THEN <<Op({}, <<"drop">>), Leaf(<<"Identifier", tok.v>>), Op(f, <<"idToParams">>), FA("Arrow", f, <<"async">>)>>
       ELSE IF tok.t = "(" THEN <<Eat, ListV, E("Args", In(f)), EA("AfterAsyncArgs", f, <<Str(tok.nl)>>)>>
       ELSE <<E("AfterId", f)>>
  [] k = "AfterAsyncArgs" ->
       IF tok.t = "=>" /\ x.s[1] = "false"
       THEN <<Op(f, <<"asyncArgsToParams">>), FA("Arrow", f, <<"async">>)>>
       ELSE <<Mk(2, <<"CallExpression">>)>> \o Rest(f)
  [] k = "AsyncPrim" ->
       IF tok.t = "function" /\ ~tok.nl THEN <<Op({}, <<"drop">>), Eat, FA("FnExprStar", f, <<"true">>)>>
       ELSE <<>>
  [] k = "YieldTail" ->
       IF tok.nl THEN <<NullV, Mk(1, <<"YieldExpression", "false">>)>>
       ELSE IF tok.t = "*" THEN <<Eat, E("Assign", f), Mk(1, <<"YieldExpression", "true">>)>>
       ELSE IF StartsExpr(tok) THEN <<E("Assign", f), Mk(1, <<"YieldExpression", "false">>)>>
       ELSE <<NullV, Mk(1, <<"YieldExpression", "false">>)>>
  [] OTHER -> Assert(FALSE, <<"no production for", x>>)

-----------------------------------------------------------------------------
(* Bindings *)

ProdB(x, tok) ==
  LET f == x.f  k == x.k IN
  CASE k = "Target" ->
       IF tok.k = "id" THEN IF BindOK(tok, f) THEN <<Leaf(<<"Identifier", tok.v>>)>> ELSE Fail
       ELSE IF tok.t = "[" THEN <<Eat, ListV, B("ArrPat", f)>>
       ELSE IF tok.t = "{" THEN <<Eat, ListV, B("ObjPat", f)>>
       ELSE Fail
  [] k = "Id" -> IF BindOK(tok, f) THEN <<Leaf(<<"Identifier", tok.v>>)>> ELSE Fail
  [] k = "Elem" -> <<B("Target", f), B("Init", f)>>
  [] k = "Init" ->
       IF tok.t = "=" THEN <<Eat, E("Assign", In(f)), Mk(2, <<"AssignmentPattern">>)>> ELSE <<>>
  [] k = "ArrPat" ->
       IF tok.t = "," THEN <<Eat, NullV, App, x>>
       ELSE IF tok.t = "]" THEN <<Eat, Mk(1, <<"ArrayPattern">>)>>
       ELSE IF tok.t = "..." THEN <<Eat, B("Target", f), Mk(1, <<"RestElement">>), App, T("]"), Mk(1, <<"ArrayPattern">>)>>
       ELSE <<B("Elem", f), App, B("ArrPatAfter", f)>>
  [] k = "ArrPatAfter" ->
       IF tok.t = "]" THEN <<Eat, Mk(1, <<"ArrayPattern">>)>>
       ELSE IF tok.t = "," THEN <<Eat, B("ArrPat", f)>> ELSE Fail
  [] k = "ObjPat" ->
       IF tok.t = "}" THEN <<Eat, Mk(1, <<"ObjectPattern">>)>>
       ELSE IF tok.t = "..." THEN <<Eat, B("Id", f), Mk(1, <<"RestElement">>), App, T("}"), Mk(1, <<"ObjectPattern">>)>>
       ELSE IF tok.t = "[" THEN <<E("PropKey", f), BA("ObjPatTail", f, <<"false">>), App, B("ObjPatAfter", f)>>
       ELSE IF IsKey(tok) THEN <<KeyLeaf(tok), BA("ObjPatTail", f, <<Shorthand(tok, BindOK(tok, f))>>), App, B("ObjPatAfter", f)>>
       ELSE Fail
  [] k = "ObjPatTail" ->
       IF tok.t = ":" THEN <<Eat, B("Elem", f), Op({}, <<"prop", "init", "false", "false">>)>>
       ELSE IF x.s[1] = "false" THEN Fail
       ELSE IF x.s[1] = "rule" THEN Rule
       ELSE IF tok.t = "=" THEN <<Op({}, <<"dup">>), Eat, E("Assign", In(f)), Mk(2, <<"AssignmentPattern">>), Op({}, <<"prop", "init", "false", "true">>)>>
       ELSE IF tok.t \in {",", "}"} THEN <<Op({}, <<"dup">>), Op({}, <<"prop", "init", "false", "true">>)>>
       ELSE Fail
  [] k = "ObjPatAfter" ->
       IF tok.t = "}" THEN <<Eat, Mk(1, <<"ObjectPattern">>)>>
       ELSE IF tok.t = "," THEN <<Eat, B("ObjPat", f)>> ELSE Fail
  [] OTHER -> Assert(FALSE, <<"no production for", x>>)

-----------------------------------------------------------------------------
(* Functions and classes *)

\* The body of a function: pushes a BlockStatement.
Body(f) == <<T("{"), ListV, S("Prologue", f), T("}"), Mk(1, <<"BlockStatement">>)>>

ProdF(x, tok) ==
  LET f == x.f  k == x.k  s == x.s IN
  CASE k = "Arrow" ->       \* parameters are on the value stack
       LET ke == Keep(f, {"in", "strict", "mod"}) \cup (IF s = <<"async">> THEN {"await"} ELSE {})
       IN <<NoNL, T("=>"), FA("ArrowBody", ke, s)>>
  [] k = "ArrowBody" ->
       IF tok.t = "{" THEN Body(f \cup {"in", "ret"}) \o <<Op({}, <<"arrow", "false">> \o s)>>
       ELSE <<E("Assign", f), Op({}, <<"arrow", "true">> \o s)>>
  [] k = "Params" -> <<T("("), ListV, F("ParamList", f \cup {"par"})>>
  [] k = "ParamList" ->
       IF tok.t = ")" THEN <<Eat>>
       ELSE IF tok.t = "..." THEN <<Eat, B("Target", f), Mk(1, <<"RestElement">>), App, T(")")>>
       ELSE <<B("Elem", f), App, F("ParamAfter", f)>>
  [] k = "ParamAfter" ->
       IF tok.t = ")" THEN <<Eat>> ELSE IF tok.t = "," THEN <<Eat, F("ParamList", f)>> ELSE Fail
  [] k = "FnExprStar" ->    \* after (async) function; s[1]: async
       LET asy == s[1] = "true"
           gen == tok.t = "*"
           ff  == FnFlags(f, gen, asy)
       IN (IF gen THEN <<Eat>> ELSE <<>>) \o <<F("OptName", ff), F("Params", ff)>> \o Body(ff)
          \o <<Mk(3, <<"FunctionExpression", Str(gen), "false", s[1]>>)>>
  [] k = "OptName" -> IF tok.k = "id" THEN <<B("Id", f)>> ELSE <<NullV>>
  [] k = "FnDeclPlain" -> IF tok.t = "*" THEN Fail ELSE <<FA("FnDeclStar", f, s)>>
  [] k = "FnDeclStar" ->    \* s = <<async, name optional>>
       LET asy == s[1] = "true"
           gen == tok.t = "*"
           ff  == FnFlags(f, gen, asy)
       IN (IF gen THEN <<Eat>> ELSE <<>>)
          \o (IF s[2] = "true" THEN <<F("OptName", f)>> ELSE <<B("Id", f)>>)
          \o <<F("Params", ff)>> \o Body(ff)
          \o <<Mk(3, <<"FunctionDeclaration", Str(gen), "false", s[1]>>)>>
  [] k = "MethodFn" ->      \* s = <<generator, async>>
       LET ff == FnFlags(f, s[1] = "true", s[2] = "true")
       IN <<NullV, F("Params", ff)>> \o Body(ff) \o <<Mk(3, <<"FunctionExpression", s[1], "false", s[2]>>)>>
  [] k = "get" ->
       LET ff == FnFlags(f, FALSE, FALSE)
       IN <<NullV, T("("), ListV, T(")")>> \o Body(ff) \o <<Mk(3, <<"FunctionExpression", "false", "false", "false">>)>>
  [] k = "set" ->
       LET ff == FnFlags(f, FALSE, FALSE)
       IN <<NullV, T("("), ListV, B("Elem", ff), App, T(")")>> \o Body(ff)
          \o <<Mk(3, <<"FunctionExpression", "false", "false", "false">>)>>
  [] k = "ClassExpr" ->
       LET ff == (f \ {"nw"}) \cup {"strict"}
       IN <<Eat, FA("ClassName", ff, <<"true">>), F("Heritage", ff), T("{"), ListV, F("ClassEls", ff),
            Mk(1, <<"ClassBody">>), Mk(3, <<"ClassExpression">>)>>
  [] k = "ClassDecl" ->     \* s[1]: name optional
       LET ff == f \cup {"strict"}
       IN <<Eat, FA("ClassName", ff, s), F("Heritage", ff), T("{"), ListV, F("ClassEls", ff),
            Mk(1, <<"ClassBody">>), Mk(3, <<"ClassDeclaration">>)>>
  [] k = "ClassName" ->
       IF tok.k = "id" THEN <<B("Id", f)>> ELSE IF s[1] = "true" THEN <<NullV>> ELSE Fail
  [] k = "Heritage" ->
       IF tok.t = "extends" THEN <<Eat, E("Primary", f), E("Chain", f)>> ELSE <<NullV>>
  [] k = "ClassEls" ->
       IF tok.t = "}" THEN <<Eat>>
       ELSE IF tok.t = ";" THEN <<Eat, x>>
       ELSE IF tok.t = "static" THEN <<KeyLeaf(tok), F("StaticTail", f), Op({}, <<"appMember">>), x>>
       ELSE <<FA("Member", f, <<"false">>), Op({}, <<"appMember">>), x>>
  [] k = "StaticTail" ->
       IF tok.t = "(" THEN <<FA("MethodFn", f, <<"false", "false">>), Op({}, <<"method", "method", "false">>)>>
       ELSE <<Op({}, <<"drop">>), FA("Member", f, <<"true">>)>>
  [] k = "Member" ->        \* s[1]: static
       IF tok.t = "*" THEN <<Eat, E("PropKey", f), FA("MethodFn", f, <<"true", "false">>), Op({}, <<"method", "special", s[1]>>)>>
       ELSE IF tok.t \in {"get", "set"} THEN <<KeyLeaf(tok), FA("CGetSetTail", f, <<s[1], tok.t>>)>>
       ELSE IF tok.t = "async" THEN <<KeyLeaf(tok), FA("CAsyncTail", f, s)>>
       ELSE <<E("PropKey", f), FA("MethodFn", f, <<"false", "false">>), Op({}, <<"method", "method", s[1]>>)>>
  [] k = "CGetSetTail" ->
       IF IsKey(tok) THEN <<Op({}, <<"drop">>), E("PropKey", f), FA(s[2], f, <<>>), Op({}, <<"method", s[2], s[1]>>)>>
       ELSE <<FA("MethodFn", f, <<"false", "false">>), Op({}, <<"method", "method", s[1]>>)>>
  [] k = "CAsyncTail" ->
       IF tok.t = "*" /\ ~tok.nl
       THEN <<Op({}, <<"drop">>), Eat, E("PropKey", f), FA("MethodFn", f, <<"true", "true">>), Op({}, <<"method", "special", s[1]>>)>>
       ELSE IF IsKey(tok) /\ ~tok.nl
       THEN <<Op({}, <<"drop">>), E("PropKey", f), FA("MethodFn", f, <<"false", "true">>), Op({}, <<"method", "special", s[1]>>)>>
       ELSE <<FA("MethodFn", f, <<"false", "false">>), Op({}, <<"method", "method", s[1]>>)>>
  [] OTHER -> Assert(FALSE, <<"no production for", x>>)

-----------------------------------------------------------------------------
(* Statements *)

Loop(f)  == f \cup {"iter"}
Switch(f) == f \cup {"sw"}
ExprStmt(f) == <<Semi, Mk(1, <<"ExpressionStatement">>)>>

ProdS(x, tok, vals) ==
  LET f == x.f  k == x.k  s == x.s IN
  CASE k = "Prologue" ->
       IF tok.k = "str"
       THEN <<S("Stmt", f), SA("Directive", f, <<Str(tok.v = "use strict" /\ ~tok.esc)>> \o s)>>
       ELSE IF s = <<"module">> THEN <<X("ModList", f)>> ELSE <<S("List", f)>>
  [] k = "Directive" ->     \* the statement that began with the string is on the stack
       LET strict == s[1] = "true"
           directive == Last(vals).t = "ExpressionStatement" /\ Last(vals).c[1].t = "Literal"
       IN <<App, IF directive THEN SA("Prologue", IF strict THEN f \cup {"strict"} ELSE f, Tail(s))
                 ELSE IF Tail(s) = <<"module">> THEN X("ModList", f) ELSE S("List", f)>>
  [] k = "List" ->
       IF tok.t \in {"}", "eof"} THEN <<>> ELSE <<S("Item", f \ {"sub"}), App, x>>
  [] k = "Item" ->
       IF tok.t = "function" THEN <<Eat, FA("FnDeclStar", f, <<"false", "false">>)>>
       ELSE IF tok.t = "class" THEN <<FA("ClassDecl", f, <<"false">>)>>
       ELSE IF tok.t = "const" THEN <<Eat, ListV, SA("Decl", f \cup {"lex"}, <<"const">>), Semi, Mk(1, <<"VariableDeclaration", "const">>)>>
       ELSE IF tok.t = "let" THEN <<Eat, S("LetTail", f)>>
       ELSE IF tok.t = "async" THEN <<Leaf(<<"Identifier", "async">>), S("AsyncStmt", f)>>
       ELSE <<S("Stmt", f)>>
  [] k = "LetTail" ->
       IF tok.k = "id" \/ tok.t \in {"[", "{"}
       THEN <<ListV, SA("Decl", f \cup {"lex"}, <<"let">>), Semi, Mk(1, <<"VariableDeclaration", "let">>)>>
       ELSE IF "strict" \in f THEN Rule   \* no identifier in strict code
       ELSE <<Val(<<"Identifier", "let">>), S("IdStmtTail", f)>>
  [] k = "AsyncStmt" ->
       IF tok.t = "function" /\ ~tok.nl THEN <<Op({}, <<"drop">>), Eat, FA("FnDeclStar", f, <<"true", "false">>)>>
       ELSE <<SA("IdStmtTail", f, <<"async">>)>>
  [] k = "Decl" ->          \* one or more declarators; the list is on the stack
       <<B("Target", f), SA("DeclInit", f \ {"lex"}, s), App, SA("DeclMore", f, s)>>
  [] k = "DeclMore" ->
       IF tok.t = "," THEN <<Eat, SA("Decl", f, s)>> ELSE <<>>
  [] k = "DeclInit" ->
       IF tok.t = "=" THEN <<Eat, E("Assign", f), Mk(2, <<"VariableDeclarator">>)>>
       ELSE IF s[1] = "const" THEN Fail
       ELSE <<Op({}, <<"chkNoPattern">>), NullV, Mk(2, <<"VariableDeclarator">>)>>
  [] k = "Stmt" ->
       CASE tok.k = "p" ->
              IF tok.t = "{" THEN <<S("Block", f)>>
              ELSE IF tok.t = ";" THEN <<Leaf(<<"EmptyStatement">>)>>
              ELSE <<E("Expr", f)>> \o ExprStmt(f)
       [] tok.k = "id" ->
              IF tok.t = "async" THEN <<Leaf(<<"Identifier", "async">>), S("AsyncBody", f)>>
              ELSE IF tok.t = "let" THEN <<Leaf(<<"Identifier", "let">>), S("LetBody", f)>>
              ELSE IF IdOK(tok, f) THEN <<Leaf(<<"Identifier", tok.v>>), S("IdStmtTail", f)>>
              ELSE <<E("Expr", f)>> \o ExprStmt(f)
       [] tok.k = "kw" ->
              CASE tok.t = "var" -> <<Eat, ListV, SA("Decl", f, <<"var">>), Semi, Mk(1, <<"VariableDeclaration", "var">>)>>
              [] tok.t = "if" -> <<Eat, T("("), E("Expr", f), T(")"), S("Sub", f), S("Else", f), Mk(3, <<"IfStatement">>)>>
              [] tok.t = "for" -> <<Eat, T("("), S("ForHead", f)>>
              [] tok.t = "while" -> <<Eat, T("("), E("Expr", f), T(")"), S("Sub", Loop(f)), Mk(2, <<"WhileStatement">>)>>
              [] tok.t = "do" -> <<Eat, S("Sub", Loop(f)), T("while"), T("("), E("Expr", f), T(")"), DoSemi, Mk(2, <<"DoWhileStatement">>)>>
              [] tok.t = "continue" -> <<Eat, SA("Jump", f, <<"ContinueStatement">>)>>
              [] tok.t = "break" -> <<Eat, SA("Jump", f, <<"BreakStatement">>)>>
              [] tok.t = "return" -> IF "ret" \in f THEN <<Eat, S("RetTail", f)>> ELSE Fail
              [] tok.t = "with" -> IF "strict" \in f THEN Fail
                                   ELSE <<Eat, T("("), E("Expr", f), T(")"), S("Sub", f), Mk(2, <<"WithStatement">>)>>
              [] tok.t = "switch" -> <<Eat, T("("), E("Expr", f), T(")"), T("{"), ListV, SA("Cases", Switch(f), <<"0">>), Mk(2, <<"SwitchStatement">>)>>
              [] tok.t = "throw" -> <<Eat, NoNL, E("Expr", f), Semi, Mk(1, <<"ThrowStatement">>)>>
              [] tok.t = "try" -> <<Eat, S("Block", f), S("Catch", f)>>
              [] tok.t = "debugger" -> <<Eat, Semi, Val(<<"DebuggerStatement">>)>>
              [] tok.t \in {"function", "class", "const", "import", "export"} -> Fail
              [] OTHER -> <<E("Expr", f)>> \o ExprStmt(f)
       [] OTHER -> <<E("Expr", f)>> \o ExprStmt(f)
  [] k = "Sub" -> <<S("Stmt", f \cup {"sub"})>>
  [] k = "AsyncBody" ->     \* async at the start of a Statement: no declaration
       IF tok.t = "function" /\ ~tok.nl THEN Fail ELSE <<SA("IdStmtTail", f, <<"async">>)>>
  [] k = "LetBody" ->
       IF "strict" \in f \/ tok.t = "[" \/ ((tok.k = "id" \/ tok.t = "{") /\ ~tok.nl) THEN Fail ELSE <<S("IdStmtTail", f)>>
  [] k = "IdStmtTail" ->    \* an identifier at the start of a statement has been read
       IF tok.t = ":"
       THEN IF ("L:" \o Last(vals).s[1]) \in f THEN Fail ELSE <<Eat, S("LabelBody", f)>>
       ELSE <<E(IF s = <<"async">> THEN "AsyncTail" ELSE "AfterId", f), E("Comma", f)>> \o ExprStmt(f)
  [] k = "LabelBody" ->
       LET n  == Last(vals).s[1]
           Pending == {y \in f : Len(y) > 3 /\ SubSeq(y, 1, 3) = "LP:"}
           fb == CASE tok.t \in {"for", "while", "do"} ->
                        f \cup {"L:" \o n, "LI:" \o n}
                          \cup {"LI:" \o SubSeq(y, 4, Len(y)) : y \in Pending}
                 [] tok.k = "id" -> f \cup {"L:" \o n, "LP:" \o n}
                 [] OTHER -> (f \ Pending) \cup {"L:" \o n}
       IN IF tok.t = "function" /\ {"strict", "sub"} \cap f = {}
          THEN <<Eat, FA("FnDeclPlain", f, <<"false", "false">>), Mk(2, <<"LabeledStatement">>)>>
          ELSE <<S("Stmt", fb), Mk(2, <<"LabeledStatement">>)>>
  [] k = "Block" -> <<T("{"), ListV, S("List", f), T("}"), Mk(1, <<"BlockStatement">>)>>
  [] k = "Else" -> IF tok.t = "else" THEN <<Eat, S("Sub", f)>> ELSE <<NullV>>
  [] k = "ForHead" ->
       IF tok.t = ";" THEN <<Eat, NullV, S("ForRest", f)>>
       ELSE IF tok.t = "var" THEN <<Eat, ListV, B("Target", f), SA("ForDecl", f, <<"var">>)>>
       ELSE IF tok.t = "const" THEN <<Eat, ListV, B("Target", f \cup {"lex"}), SA("ForDecl", f, <<tok.t>>)>>
       ELSE IF tok.t = "let" THEN <<Eat, S("ForLet", f)>>
       ELSE <<E("Assign", NoIn(f)), S("ForExprTail", f)>>
  [] k = "ForLet" ->
       IF tok.k = "id" \/ tok.t \in {"[", "{"} THEN <<ListV, B("Target", f \cup {"lex"}), SA("ForDecl", f, <<"let">>)>>
       ELSE IF "strict" \in f THEN Rule
       ELSE <<Val(<<"Identifier", "let">>), E("AfterId", NoIn(f)), SA("ForExprTail", f, <<"let">>)>>
  [] k = "ForDecl" ->
       IF tok.t \in {"in", "of"}
       THEN <<NullV, Mk(2, <<"VariableDeclarator">>), App, Mk(1, <<"VariableDeclaration", s[1]>>), S("ForInOf", f)>>
       ELSE <<SA("DeclInit", NoIn(f), s), App, SA("ForDeclMore", f, s)>>
  [] k = "ForDeclMore" ->
       IF tok.t = "," THEN <<Eat, B("Target", f \cup (IF s[1] = "var" THEN {} ELSE {"lex"})), SA("DeclInit", NoIn(f), s), App, x>>
       ELSE <<Mk(1, <<"VariableDeclaration", s[1]>>), T(";"), S("ForRest", f)>>
  [] k = "ForInOf" ->       \* left side on the stack, current token is in/of
       IF tok.t = "in" THEN <<Eat, E("Expr", f), T(")"), S("Sub", Loop(f)), Mk(3, <<"ForInStatement">>)>>
       ELSE <<Eat, E("Assign", f), T(")"), S("Sub", Loop(f)), Mk(3, <<"ForOfStatement">>)>>
  [] k = "ForExprTail" ->
       IF tok.t = "in" \/ (tok.t = "of" /\ s = <<>>) THEN <<Op(f, <<"toTarget">>), S("ForInOf", f)>>
       ELSE <<E("Comma", NoIn(f)), T(";"), S("ForRest", f)>>
  [] k = "ForRest" -> <<SA("ForOpt", f, <<";">>), T(";"), SA("ForOpt", f, <<")">>), T(")"), S("Sub", Loop(f)), Mk(4, <<"ForStatement">>)>>
  [] k = "ForOpt" -> IF tok.t = s[1] THEN <<NullV>> ELSE <<E("Expr", f)>>
  [] k = "Cases" ->
       IF tok.t = "}" THEN <<Eat>>
       ELSE IF tok.t = "case" THEN <<Eat, E("Expr", f), T(":"), ListV, S("CaseBody", f), Mk(2, <<"SwitchCase">>), App, x>>
       ELSE IF tok.t = "default" /\ s[1] = "0"
            THEN <<Eat, NullV, T(":"), ListV, S("CaseBody", f), Mk(2, <<"SwitchCase">>), App, SA("Cases", f, <<"1">>)>>
       ELSE Fail
  [] k = "CaseBody" -> IF tok.t \in {"case", "default", "}"} THEN <<>> ELSE <<S("Item", f \ {"sub"}), App, x>>
  [] k = "Jump" ->
       IF tok.k = "id" /\ ~tok.nl
       THEN IF ("L:" \o tok.v) \in f /\ (s[1] = "BreakStatement" \/ ("LI:" \o tok.v) \in f)
            THEN <<Leaf(<<"Identifier", tok.v>>), Semi, Mk(1, s)>> ELSE Rule
       ELSE IF "iter" \in f \/ (s[1] = "BreakStatement" /\ "sw" \in f) THEN <<NullV, Semi, Mk(1, s)>>
       ELSE Rule
  [] k = "RetTail" ->
       IF tok.nl \/ tok.t \in {";", "}", "eof"} THEN <<NullV, Semi, Mk(1, <<"ReturnStatement">>)>>
       ELSE <<E("Expr", f), Semi, Mk(1, <<"ReturnStatement">>)>>
  [] k = "Catch" ->
       IF tok.t = "catch" THEN <<Eat, S("CatchParam", f), S("Block", f), Mk(2, <<"CatchClause">>), S("Finally", f), Mk(3, <<"TryStatement">>)>>
       ELSE IF tok.t = "finally" THEN <<NullV, Eat, S("Block", f), Mk(3, <<"TryStatement">>)>>
       ELSE Fail
  [] k = "CatchParam" -> IF tok.t = "(" THEN <<Eat, B("Target", f), T(")")>> ELSE <<NullV>>
  [] k = "Finally" -> IF tok.t = "finally" THEN <<Eat, S("Block", f)>> ELSE <<NullV>>
  [] OTHER -> Assert(FALSE, <<"no production for", x>>)

-----------------------------------------------------------------------------
(* Modules *)

ProdX(x, tok) ==
  LET f == x.f  k == x.k  s == x.s IN
  CASE k = "ModList" ->
       IF tok.t = "eof" THEN <<>>
       ELSE IF tok.t = "import" THEN <<Eat, X("Import", f), App, x>>
       ELSE IF tok.t = "export" THEN <<Eat, X("Export", f), App, x>>
       ELSE <<S("Item", f), App, x>>
  [] k = "Import" ->        \* ImportDeclaration: specifiers, source
       IF tok.k = "str" THEN <<ListV, X("Source", f), Semi, Mk(2, <<"ImportDeclaration">>)>>
       ELSE IF tok.k = "id"
            THEN <<ListV, B("Id", f \cup {"lex"}), Mk(1, <<"ImportDefaultSpecifier">>), App, X("ImportMore", f)>>
       ELSE <<ListV, X("ImportStarOrList", f)>>
  [] k = "ImportMore" -> IF tok.t = "," THEN <<Eat, X("ImportStarOrList", f)>> ELSE <<X("From", f)>>
  [] k = "ImportStarOrList" ->
       IF tok.t = "*" THEN <<Eat, X("As", f), B("Id", f \cup {"lex"}), Mk(1, <<"ImportNamespaceSpecifier">>), App, X("From", f)>>
       ELSE IF tok.t = "{" THEN <<Eat, X("ImportSpecs", f), X("From", f)>>
       ELSE Fail
  [] k = "From" -> IF tok.t = "from" THEN <<Eat, X("Source", f), Semi, Mk(2, <<"ImportDeclaration">>)>> ELSE Fail
  [] k = "As" -> IF tok.t = "as" THEN <<Eat>> ELSE Fail
  [] k = "Source" -> IF tok.k = "str" THEN <<Leaf(<<"Literal", "str", tok.v>>)>> ELSE Fail
  [] k = "ImportSpecs" ->
       IF tok.t = "}" THEN <<Eat>>
       ELSE IF IsName(tok)
       THEN <<Leaf(<<"Identifier", tok.v>>), XA("ImportSpecTail", f, <<Str(BindOK(tok, f \cup {"lex"}))>>), App, X("ImportSpecAfter", f)>>
       ELSE Fail
  [] k = "ImportSpecTail" ->    \* ImportSpecifier: imported, local
       IF tok.t = "as" THEN <<Eat, B("Id", f \cup {"lex"}), Mk(2, <<"ImportSpecifier">>)>>
       ELSE IF s[1] = "true" THEN <<Op({}, <<"dup">>), Mk(2, <<"ImportSpecifier">>)>> ELSE Fail
  [] k = "ImportSpecAfter" ->
       IF tok.t = "}" THEN <<Eat>> ELSE IF tok.t = "," THEN <<Eat, X("ImportSpecs", f)>> ELSE Fail
  [] k = "Export" ->
       CASE tok.t = "*" -> <<Eat, X("ExportFrom", f), Semi, Mk(1, <<"ExportAllDeclaration">>)>>
       [] tok.t = "{" -> <<NullV, ListV, Eat, XA("ExportSpecs", f, <<"true">>)>>
       [] tok.t = "default" -> <<Eat, X("Default", f)>>
       [] tok.t = "var" -> <<S("Stmt", f), X("ExportDecl", f)>>
       [] tok.t \in {"let", "const", "function", "class"} -> <<S("Item", f), X("ExportDecl", f)>>
       [] tok.t = "async" -> <<Eat, X("ExportAsync", f)>>
       [] OTHER -> Fail
  [] k = "ExportDecl" ->    \* ExportNamedDeclaration: declaration, specifiers, source
       <<ListV, NullV, Mk(3, <<"ExportNamedDeclaration">>)>>
  [] k = "ExportAsync" ->
       IF tok.t = "function" /\ ~tok.nl THEN <<Eat, FA("FnDeclStar", f, <<"true", "false">>), X("ExportDecl", f)>> ELSE Fail
  [] k = "ExportFrom" -> IF tok.t = "from" THEN <<Eat, X("Source", f)>> ELSE Fail
  [] k = "ExportSpecs" ->   \* s[1]: every local name so far may be a reference
       IF tok.t = "}" THEN <<Eat, XA("ExportTail", f, s)>>
       ELSE IF IsName(tok)
       THEN <<Leaf(<<"Identifier", tok.v>>), X("ExportSpecTail", f), App,
              XA("ExportSpecAfter", f, <<Str(s[1] = "true" /\ IdOK(tok, f))>>)>>
       ELSE Fail
  [] k = "ExportSpecTail" ->    \* ExportSpecifier: local, exported
       IF tok.t = "as" THEN <<Eat, E("DotName", f), Mk(2, <<"ExportSpecifier">>)>>
       ELSE <<Op({}, <<"dup">>), Mk(2, <<"ExportSpecifier">>)>>
  [] k = "ExportSpecAfter" ->
       IF tok.t = "}" THEN <<Eat, XA("ExportTail", f, s)>>
       ELSE IF tok.t = "," THEN <<Eat, XA("ExportSpecs", f, s)>> ELSE Fail
  [] k = "ExportTail" ->
       IF tok.t = "from" THEN <<X("ExportFrom", f), Semi, Mk(3, <<"ExportNamedDeclaration">>)>>
       ELSE IF s[1] = "true" THEN <<NullV, Semi, Mk(3, <<"ExportNamedDeclaration">>)>> ELSE Fail
  [] k = "Default" ->
       IF tok.t = "function" THEN <<Eat, FA("FnDeclStar", f, <<"false", "true">>), Mk(1, <<"ExportDefaultDeclaration">>)>>
       ELSE IF tok.t = "class" THEN <<FA("ClassDecl", f, <<"true">>), Mk(1, <<"ExportDefaultDeclaration">>)>>
       ELSE IF tok.t = "async" THEN <<Leaf(<<"Identifier", "async">>), X("DefaultAsync", f)>>
       ELSE <<E("Assign", f), Semi, Mk(1, <<"ExportDefaultDeclaration">>)>>
  [] k = "DefaultAsync" ->
       IF tok.t = "function" /\ ~tok.nl
       THEN <<Op({}, <<"drop">>), Eat, FA("FnDeclStar", f, <<"true", "true">>), Mk(1, <<"ExportDefaultDeclaration">>)>>
       ELSE <<E("AsyncTail", f), Semi, Mk(1, <<"ExportDefaultDeclaration">>)>>
  [] OTHER -> Assert(FALSE, <<"no production for", x>>)

-----------------------------------------------------------------------------
(* Semantic actions on the value stack *)

OK(v)  == [ok |-> TRUE, vals |-> v]
YieldAwait == {"YieldExpression", "AwaitExpression"}

KO     == [ok |-> FALSE, vals |-> <<>>]
Put(vals, n, x) == IF IsBad(x) THEN KO ELSE OK(Append(Pop(vals, n), x))

DoOp(s, f, vals) ==
  LET a == s[1]  top == Last(vals)  strict == "strict" \in f
      second == vals[Len(vals) - 1]
  IN
  CASE a = "drop" -> OK(Pop(vals, 1))
  [] a = "reject" -> KO
  [] a = "dup" -> OK(Append(vals, top))
  [] a = "wrap" -> OK(Append(Pop(vals, 1), List(<<top>>)))
  [] a = "chkSimple" ->     \* target of compound assignment and of ++ and --
       LET t == ToTarget(top, strict) IN
       IF IsBad(t) \/ t.t \in {"ArrayPattern", "ObjectPattern"} THEN KO ELSE OK(vals)
  [] a = "toTarget" -> Put(vals, 1, ToTarget(top, strict))
  [] a = "chkPow" -> IF top.t \in {"UnaryExpression", "AwaitExpression"} THEN KO ELSE OK(vals)
  [] a = "chkNoPattern" -> IF top.t \in {"ArrayPattern", "ObjectPattern"} THEN KO ELSE OK(vals)
  [] a = "markSpread" ->    \* the last element of the list is followed by a comma
       LET q == top.c IN
       IF Last(q).t # "SpreadElement" THEN OK(vals)
       ELSE OK(Append(Pop(vals, 1), List(Append(Front(q), N("SpreadComma", <<>>, Last(q).c)))))
  [] a = "appQuasi" ->      \* quasis, expressions, element
       LET n == Len(vals) IN
       OK(Append(Append(Pop(vals, 3), List(Append(vals[n-2].c, top))), second))
  [] a = "coverInit" -> OK(Append(Pop(vals, 2),
       N("Property", <<"init", "false", "true", "false">>, <<second, N("CoverInit", <<>>, <<second, top>>)>>)))
  [] a = "prop" ->
       LET comp == second.t = "Computed" IN
       OK(Append(Pop(vals, 2),
          N("Property", Tail(s) \o <<Str(comp)>>, <<IF comp THEN second.c[1] ELSE second, top>>)))
  [] a = "method" ->        \* s = <<"method", kind, static>>; key and function on the stack
       LET comp == second.t = "Computed"
           name == IF comp THEN ""
                   ELSE IF second.t = "Identifier" THEN second.s[1]
                   ELSE IF second.s[1] = "str" THEN second.s[2] ELSE ""
           ctor == name = "constructor" /\ s[3] = "false"
           kind == IF ctor THEN "constructor" ELSE IF s[2] = "special" THEN "method" ELSE s[2]
       IN IF (ctor /\ s[2] # "method") \/ (name = "prototype" /\ s[3] = "true") THEN KO
          ELSE OK(Append(Pop(vals, 2),
               N("MethodDefinition", <<kind, s[3], Str(comp)>>, <<IF comp THEN second.c[1] ELSE second, top>>)))
  [] a = "appMember" ->     \* a class has at most one constructor
       LET Ctor(m) == m.s[1] = "constructor" IN
       IF Ctor(top) /\ \E i \in DOMAIN second.c : Ctor(second.c[i]) THEN KO
       ELSE OK(Append(Pop(vals, 2), List(Append(second.c, top))))
  [] a = "idToParams" -> IF BindNameOK(top.s[1], f) THEN OK(Append(Pop(vals, 1), List(<<top>>))) ELSE KO
  [] a = "coverToParams" ->
       LET r == ToBindList(top.c[1].c, f, "par") IN
       IF AnyBad(r) \/ Contains(top, YieldAwait) THEN KO ELSE OK(Append(Pop(vals, 1), List(r)))
  [] a = "asyncArgsToParams" ->
       LET r == ToBindList(top.c, f \cup {"await"}, "par") IN
       IF AnyBad(r) \/ Contains(top, YieldAwait) \/ Mentions(top, "await") THEN KO
       ELSE OK(Append(Pop(vals, 2), List(r)))
  [] a = "coverToParen" ->
       IF top.s[1] = "must" THEN KO
       ELSE LET q == top.c[1].c IN
            OK(Append(Pop(vals, 1),
               N("Paren", <<>>, <<IF Len(q) = 1 THEN q[1] ELSE N("SequenceExpression", <<>>, <<List(q)>>)>>)))
  [] a = "arrow" ->         \* s = <<"arrow", expression body?[, "async"]>>
       OK(Append(Pop(vals, 2),
          N("ArrowFunctionExpression", <<"false", s[2], Str(Len(s) = 3)>>, <<Null, second, top>>)))
  [] OTHER -> Assert(FALSE, <<"no semantic action", s>>)
=============================================================================
