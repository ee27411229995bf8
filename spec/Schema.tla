------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* What a well-formed ESTree document is, on the JSON text that the parser  *)
(* produced (encoded by the harness with every value tagged by its kind):   *)
(* the vocabulary of node types, the exact fields of each, what each field   *)
(* may hold depending on the role the node plays, and the children of every *)
(* node in source order -- so that the leaves of the tree can be compared   *)
(* with the tokens of the text as the lexer machine splits it.              *)
(* Nothing here is shared with the grammar (Grammar.tla).                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Tail1(q) == q[Len(q)]
RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flatten(Tail(q))

Statements == {"ExpressionStatement", "EmptyStatement", "DebuggerStatement", "BlockStatement", "WithStatement", "ReturnStatement", "ThrowStatement",
  "LabeledStatement", "BreakStatement", "ContinueStatement", "IfStatement", "SwitchStatement", "TryStatement", "WhileStatement", "DoWhileStatement",
  "ForStatement", "ForInStatement", "ForOfStatement"}
Declarations == {"VariableDeclaration", "FunctionDeclaration", "ClassDeclaration"}
ModuleItems == {"ImportDeclaration", "ExportNamedDeclaration", "ExportDefaultDeclaration", "ExportAllDeclaration"}
Expressions == {"ThisExpression", "Identifier", "Literal", "ArrayExpression", "ObjectExpression", "FunctionExpression", "ArrowFunctionExpression",
  "ClassExpression", "UnaryExpression", "UpdateExpression", "BinaryExpression", "LogicalExpression", "AssignmentExpression", "ConditionalExpression",
  "SequenceExpression", "CallExpression", "NewExpression", "MemberExpression", "MetaProperty", "TaggedTemplateExpression", "TemplateLiteral",
  "YieldExpression", "AwaitExpression"}

\* Which types a node may have in the role r.
Allowed(r) ==
  CASE r = "program" -> {"Program"}
  [] r = "item" -> Statements \cup Declarations \cup ModuleItems          \* of a module
  [] r = "stmtitem" -> Statements \cup Declarations                        \* of a script, function or block
  [] r = "stmt" -> Statements \cup {"VariableDeclaration"}                 \* a substatement (`var' only)
  [] r = "labelled" -> Statements \cup {"VariableDeclaration", "FunctionDeclaration"}
  [] r = "block" -> {"BlockStatement"}
  [] r = "expr" -> Expressions
  [] r = "body" -> Expressions \cup {"BlockStatement"}                     \* of an arrow function
  [] r = "arg" -> Expressions \cup {"SpreadElement"}
  [] r = "callee" -> Expressions \cup {"Super"}
  [] r = "prop" -> {"Property", "SpreadElement"}
  [] r = "id" -> {"Identifier"}
  [] r = "key" -> {"Identifier", "Literal"}
  [] r = "string" -> {"Literal"}
  [] r = "function" -> {"FunctionExpression"}
  [] r = "bind" -> {"Identifier", "ArrayPattern", "ObjectPattern"}
  [] r = "bindelem" -> {"Identifier", "ArrayPattern", "ObjectPattern", "AssignmentPattern"}
  [] r = "bindlist" -> {"Identifier", "ArrayPattern", "ObjectPattern", "AssignmentPattern", "RestElement"}
  [] r = "bindprop" -> {"Property", "RestElement"}
  [] r = "target" -> {"Identifier", "MemberExpression", "ArrayPattern", "ObjectPattern"}
  [] r = "targetelem" -> {"Identifier", "MemberExpression", "ArrayPattern", "ObjectPattern", "AssignmentPattern"}
  [] r = "targetlist" -> {"Identifier", "MemberExpression", "ArrayPattern", "ObjectPattern", "AssignmentPattern", "RestElement"}
  [] r = "targetprop" -> {"Property", "RestElement"}
  [] r = "simple" -> {"Identifier", "MemberExpression"}
  [] r = "forinit" -> Expressions \cup {"VariableDeclaration"}
  [] r = "forleft" -> {"VariableDeclaration", "Identifier", "MemberExpression", "ArrayPattern", "ObjectPattern"}
  [] r = "declarator" -> {"VariableDeclarator"}
  [] r = "case" -> {"SwitchCase"}
  [] r = "catch" -> {"CatchClause"}
  [] r = "classbody" -> {"ClassBody"}
  [] r = "member" -> {"MethodDefinition"}
  [] r = "quasi" -> {"TemplateElement"}
  [] r = "template" -> {"TemplateLiteral"}
  [] r = "import" -> {"ImportSpecifier", "ImportDefaultSpecifier", "ImportNamespaceSpecifier"}
  [] r = "export" -> {"ExportSpecifier"}
  [] r = "exported" -> Declarations
  [] r = "default" -> Expressions \cup {"FunctionDeclaration", "ClassDeclaration"}
  [] OTHER -> {}

FieldsOf(t) ==
  CASE t = "Program" -> {"body", "sourceType"}
  [] t = "ExpressionStatement" -> {"expression"}
  [] t \in {"EmptyStatement", "DebuggerStatement", "ThisExpression", "Super"} -> {}
  [] t \in {"BlockStatement", "ClassBody"} -> {"body"}
  [] t = "WithStatement" -> {"object", "body"}
  [] t \in {"ReturnStatement", "ThrowStatement", "SpreadElement", "RestElement", "AwaitExpression"} -> {"argument"}
  [] t = "LabeledStatement" -> {"label", "body"}
  [] t \in {"BreakStatement", "ContinueStatement"} -> {"label"}
  [] t \in {"IfStatement", "ConditionalExpression"} -> {"test", "consequent", "alternate"}
  [] t = "SwitchStatement" -> {"discriminant", "cases"}
  [] t = "SwitchCase" -> {"test", "consequent"}
  [] t = "TryStatement" -> {"block", "handler", "finalizer"}
  [] t = "CatchClause" -> {"param", "body"}
  [] t \in {"WhileStatement", "DoWhileStatement"} -> {"test", "body"}
  [] t = "ForStatement" -> {"init", "test", "update", "body"}
  [] t \in {"ForInStatement", "ForOfStatement"} -> {"left", "right", "body"}
  [] t = "VariableDeclaration" -> {"declarations", "kind"}
  [] t = "VariableDeclarator" -> {"id", "init"}
  [] t \in {"FunctionDeclaration", "FunctionExpression", "ArrowFunctionExpression"} -> {"id", "params", "body", "generator", "async", "expression"}
  [] t \in {"ClassDeclaration", "ClassExpression"} -> {"id", "superClass", "body"}
  [] t = "MethodDefinition" -> {"key", "value", "kind", "computed", "static"}
  [] t = "Property" -> {"key", "value", "kind", "method", "shorthand", "computed"}
  [] t = "Identifier" -> {"name"}
  [] t = "Literal" -> {"value", "raw"}                 \* and regex, of a regular expression
  [] t \in {"ArrayExpression", "ArrayPattern"} -> {"elements"}
  [] t \in {"ObjectExpression", "ObjectPattern"} -> {"properties"}
  [] t = "AssignmentPattern" -> {"left", "right"}
  [] t \in {"BinaryExpression", "LogicalExpression", "AssignmentExpression"} -> {"operator", "left", "right"}
  [] t \in {"UnaryExpression", "UpdateExpression"} -> {"operator", "prefix", "argument"}
  [] t = "YieldExpression" -> {"argument", "delegate"}
  [] t = "SequenceExpression" -> {"expressions"}
  [] t \in {"CallExpression", "NewExpression"} -> {"callee", "arguments"}
  [] t = "MemberExpression" -> {"object", "property", "computed"}
  [] t = "MetaProperty" -> {"meta", "property"}
  [] t = "TaggedTemplateExpression" -> {"tag", "quasi"}
  [] t = "TemplateLiteral" -> {"quasis", "expressions"}
  [] t = "TemplateElement" -> {"value", "tail"}
  [] t = "ImportDeclaration" -> {"specifiers", "source"}
  [] t = "ImportSpecifier" -> {"imported", "local"}
  [] t \in {"ImportDefaultSpecifier", "ImportNamespaceSpecifier"} -> {"local"}
  [] t = "ExportNamedDeclaration" -> {"declaration", "specifiers", "source"}
  [] t = "ExportSpecifier" -> {"local", "exported"}
  [] t = "ExportDefaultDeclaration" -> {"declaration"}
  [] t = "ExportAllDeclaration" -> {"source"}
  [] OTHER -> {"<no such type>"}

\* Fields that a node may have besides.
Optional(t) == CASE t = "Literal" -> {"regex"} [] t = "ForInStatement" -> {"each"} [] t = "ForOfStatement" -> {"await"} [] OTHER -> {}

IsNode(v) == v.k = "node"
Is(v, t) == v.k = "node" /\ v.t = t
IsNull(v) == v.k = "null"
IsBool(v) == v.k = "bool"
IsTrue(v) == v.k = "bool" /\ v.v
IsStr(v) == v.k = "str"
StrIn(v, S) == v.k = "str" /\ v.v \in S
IsArr(v) == v.k = "arr"

-----------------------------------------------------------------------------
(* The children of a node with their roles, in source order.                *)

Kid(v, r) == <<[v |-> v, r |-> r]>>
Opt(v, r) == IF IsNull(v) THEN <<>> ELSE Kid(v, r)
Kids(v, r) == IF IsArr(v) THEN [i \in DOMAIN v.v |-> [v |-> v.v[i], r |-> r]] ELSE Kid(v, "<not an array>")
Holes(v, r) == SelectSeq(Kids(v, r), LAMBDA x : ~IsNull(x.v))
Zip(q, e) ==     \* the pieces of a template between its expressions
  IF IsArr(q) /\ IsArr(e) /\ Len(q.v) = Len(e.v) + 1
  THEN [i \in 1..(Len(q.v) + Len(e.v)) |-> IF i % 2 = 1 THEN [v |-> q.v[(i + 1) \div 2], r |-> "quasi"] ELSE [v |-> e.v[i \div 2], r |-> "expr"]]
  ELSE Kid(q, "<quasis and expressions>")

Same(a, b) == IsNode(a) /\ IsNode(b) /\ a.t = "Identifier" /\ b.t = "Identifier" /\ a.f.name = b.f.name

\* role: that of the node itself, which its pattern children inherit.
Sub(r, elem) ==
  IF r \in {"bind", "bindelem", "bindlist", "bindprop"} THEN "bind" \o elem
  ELSE IF r \in {"target", "targetelem", "targetlist", "targetprop", "forleft"} THEN "target" \o elem ELSE "<no pattern>"

Children(v, r) ==
  LET f == v.f  t == v.t IN
  CASE t = "Program" -> Kids(f.body, IF StrIn(f.sourceType, {"module"}) THEN "item" ELSE "stmtitem")
  [] t = "ExpressionStatement" -> Kid(f.expression, "expr")
  [] t \in {"EmptyStatement", "DebuggerStatement", "ThisExpression", "Super", "Identifier", "Literal", "TemplateElement"} -> <<>>
  [] t = "BlockStatement" -> Kids(f.body, "stmtitem")
  [] t = "ClassBody" -> Kids(f.body, "member")
  [] t = "WithStatement" -> Kid(f.object, "expr") \o Kid(f.body, "stmt")
  [] t = "ReturnStatement" -> Opt(f.argument, "expr")
  [] t = "ThrowStatement" -> Kid(f.argument, "expr")
  [] t = "LabeledStatement" -> Kid(f.label, "id") \o Kid(f.body, "labelled")
  [] t \in {"BreakStatement", "ContinueStatement"} -> Opt(f.label, "id")
  [] t = "IfStatement" -> Kid(f.test, "expr") \o Kid(f.consequent, "stmt") \o Opt(f.alternate, "stmt")
  [] t = "ConditionalExpression" -> Kid(f.test, "expr") \o Kid(f.consequent, "expr") \o Kid(f.alternate, "expr")
  [] t = "SwitchStatement" -> Kid(f.discriminant, "expr") \o Kids(f.cases, "case")
  [] t = "SwitchCase" -> Opt(f.test, "expr") \o Kids(f.consequent, "stmtitem")
  [] t = "TryStatement" -> Kid(f.block, "block") \o Opt(f.handler, "catch") \o Opt(f.finalizer, "block")
  [] t = "CatchClause" -> Opt(f.param, "bind") \o Kid(f.body, "block")
  [] t = "WhileStatement" -> Kid(f.test, "expr") \o Kid(f.body, "stmt")
  [] t = "DoWhileStatement" -> Kid(f.body, "stmt") \o Kid(f.test, "expr")
  [] t = "ForStatement" -> Opt(f.init, "forinit") \o Opt(f.test, "expr") \o Opt(f.update, "expr") \o Kid(f.body, "stmt")
  [] t \in {"ForInStatement", "ForOfStatement"} -> Kid(f.left, "forleft") \o Kid(f.right, "expr") \o Kid(f.body, "stmt")
  [] t = "VariableDeclaration" -> Kids(f.declarations, "declarator")
  [] t = "VariableDeclarator" -> Kid(f.id, "bind") \o Opt(f.init, "expr")
  [] t = "FunctionDeclaration" -> (IF r = "default" THEN Opt(f.id, "id") ELSE Kid(f.id, "id")) \o Kids(f.params, "bindlist") \o Kid(f.body, "block")
  [] t = "FunctionExpression" -> (IF r = "function" THEN <<>> ELSE Opt(f.id, "id")) \o Kids(f.params, "bindlist") \o Kid(f.body, "block")
  [] t = "ArrowFunctionExpression" -> Kids(f.params, "bindlist") \o Kid(f.body, "body")
  [] t = "ClassDeclaration" -> (IF r = "default" THEN Opt(f.id, "id") ELSE Kid(f.id, "id")) \o Opt(f.superClass, "expr") \o Kid(f.body, "classbody")
  [] t = "ClassExpression" -> Opt(f.id, "id") \o Opt(f.superClass, "expr") \o Kid(f.body, "classbody")
  [] t = "MethodDefinition" -> Kid(f.key, IF IsTrue(f.computed) THEN "expr" ELSE "key") \o Kid(f.value, "function")
  [] t = "Property" ->
       (IF IsTrue(f.shorthand) THEN <<>> ELSE Kid(f.key, IF IsTrue(f.computed) THEN "expr" ELSE "key"))
         \o Kid(f.value, IF r \in {"bindprop", "targetprop"} THEN Sub(r, "elem")
                         ELSE IF StrIn(f.kind, {"get", "set"}) \/ IsTrue(f.method) THEN "function" ELSE "expr")
  [] t = "ArrayExpression" -> Holes(f.elements, "arg")
  [] t = "ObjectExpression" -> Kids(f.properties, "prop")
  [] t = "ArrayPattern" -> Holes(f.elements, Sub(r, "list"))
  [] t = "ObjectPattern" -> Kids(f.properties, Sub(r, "prop"))
  [] t = "AssignmentPattern" -> Kid(f.left, Sub(r, "")) \o Kid(f.right, "expr")
  [] t = "RestElement" -> Kid(f.argument, IF r = "bindprop" THEN "id" ELSE IF r = "targetprop" THEN "simple" ELSE Sub(r, ""))
  [] t = "SpreadElement" -> Kid(f.argument, "expr")
  [] t = "AwaitExpression" -> Kid(f.argument, "expr")
  [] t = "YieldExpression" -> IF IsTrue(f.delegate) THEN Kid(f.argument, "expr") ELSE Opt(f.argument, "expr")
  [] t = "UnaryExpression" -> Kid(f.argument, "expr")
  [] t = "UpdateExpression" -> Kid(f.argument, "simple")
  [] t \in {"BinaryExpression", "LogicalExpression"} -> Kid(f.left, "expr") \o Kid(f.right, "expr")
  [] t = "AssignmentExpression" -> Kid(f.left, IF StrIn(f.operator, {"="}) THEN "target" ELSE "simple") \o Kid(f.right, "expr")
  [] t = "SequenceExpression" -> Kids(f.expressions, "expr")
  [] t = "CallExpression" -> Kid(f.callee, "callee") \o Kids(f.arguments, "arg")
  [] t = "NewExpression" -> Kid(f.callee, "expr") \o Kids(f.arguments, "arg")
  [] t = "MemberExpression" -> Kid(f.object, "callee") \o Kid(f.property, IF IsTrue(f.computed) THEN "expr" ELSE "id")
  [] t = "MetaProperty" -> Kid(f.meta, "id") \o Kid(f.property, "id")
  [] t = "TaggedTemplateExpression" -> Kid(f.tag, "expr") \o Kid(f.quasi, "template")
  [] t = "TemplateLiteral" -> Zip(f.quasis, f.expressions)
  [] t = "ImportDeclaration" -> Kids(f.specifiers, "import") \o Kid(f.source, "string")
  [] t = "ImportSpecifier" -> IF Same(f.imported, f.local) THEN Kid(f.local, "id") ELSE Kid(f.imported, "id") \o Kid(f.local, "id")
  [] t \in {"ImportDefaultSpecifier", "ImportNamespaceSpecifier"} -> Kid(f.local, "id")
  [] t = "ExportNamedDeclaration" -> Opt(f.declaration, "exported") \o Kids(f.specifiers, "export") \o Opt(f.source, "string")
  [] t = "ExportSpecifier" -> IF Same(f.local, f.exported) THEN Kid(f.local, "id") ELSE Kid(f.local, "id") \o Kid(f.exported, "id")
  [] t = "ExportDefaultDeclaration" -> Kid(f.declaration, "default")
  [] t = "ExportAllDeclaration" -> Kid(f.source, "string")

-----------------------------------------------------------------------------
(* What must hold at a node besides: its attributes, and how they go with   *)
(* its children.                                                            *)

BinaryOps == {"==","!=","===","!==","<",">","<=",">=","<<",">>",">>>","+","-","*","/","%","**","|","^","&","in","instanceof"}
AssignOps == {"=","+=","-=","*=","/=","%=","**=","<<=",">>=",">>>=","&=","|=","^="}
Bools(f, q) == \A x \in q : IsBool(f[x])
NoDeclOrVar(v) == Is(v, "VariableDeclaration") => StrIn(v.f.kind, {"var"})
FunctionFlags(f) == Bools(f, {"generator", "async", "expression"})
AtMostOne(q, P(_)) == Cardinality({i \in DOMAIN q : P(q[i])}) <= 1
RestLast(q) == \A i \in DOMAIN q : Is(q[i], "RestElement") => i = Len(q)
KeyName(v) == IF Is(v, "Identifier") /\ IsStr(v.f.name) THEN v.f.name.v ELSE IF Is(v, "Literal") /\ IsStr(v.f.value) THEN v.f.value.v ELSE ""
NameOf(v) == IF v.f.name.k = "str" THEN v.f.name.v ELSE ""

Local(v, r) ==
  LET f == v.f  t == v.t IN
  CASE t = "Program" -> StrIn(f.sourceType, {"script", "module"})
  [] t \in {"IfStatement", "WithStatement", "WhileStatement", "DoWhileStatement", "ForStatement", "LabeledStatement"} ->
       IF t = "IfStatement" THEN NoDeclOrVar(f.consequent) /\ NoDeclOrVar(f.alternate) ELSE NoDeclOrVar(f.body)
  [] t \in {"ForInStatement", "ForOfStatement"} ->
       /\ NoDeclOrVar(f.body)
       /\ Is(f.left, "VariableDeclaration") => (IsArr(f.left.f.declarations) /\ Len(f.left.f.declarations.v) = 1 /\ IsNull(f.left.f.declarations.v[1].f.init))
       /\ "each" \in DOMAIN f => (IsBool(f.each) /\ ~f.each.v)
       /\ "await" \in DOMAIN f => (IsBool(f.await) /\ ~f.await.v)
  [] t = "SwitchStatement" -> AtMostOne(f.cases.v, LAMBDA x : IsNode(x) /\ "test" \in DOMAIN x.f /\ IsNull(x.f.test))
  [] t = "TryStatement" -> ~(IsNull(f.handler) /\ IsNull(f.finalizer))
  [] t = "VariableDeclaration" ->
       /\ StrIn(f.kind, {"var", "let", "const"})
       /\ Len(f.declarations.v) > 0
       /\ r # "forleft" => \A i \in DOMAIN f.declarations.v :
             LET d == f.declarations.v[i].f IN IsNull(d.init) => (Is(d.id, "Identifier") /\ f.kind.v # "const")
  [] t \in {"FunctionDeclaration", "FunctionExpression"} -> FunctionFlags(f) /\ ~f.expression.v /\ RestLast(f.params.v) /\ (r = "function" => IsNull(f.id))
  [] t = "ArrowFunctionExpression" ->
       FunctionFlags(f) /\ ~f.generator.v /\ IsNull(f.id) /\ RestLast(f.params.v) /\ (f.expression.v <=> ~Is(f.body, "BlockStatement"))
  [] t = "ClassBody" -> AtMostOne(f.body.v, LAMBDA m : IsNode(m) /\ "kind" \in DOMAIN m.f /\ StrIn(m.f.kind, {"constructor"}))
  [] t = "MethodDefinition" ->
       /\ Bools(f, {"computed", "static"})
       /\ StrIn(f.kind, {"constructor", "method", "get", "set"})
       /\ (f.kind.v = "constructor") <=> (~f.static.v /\ ~f.computed.v /\ KeyName(f.key) = "constructor")
       /\ f.kind.v = "constructor" => (~f.static.v /\ ~f.computed.v /\ ~f.value.f.generator.v /\ ~f.value.f.async.v)
       /\ (f.kind.v = "get" => f.value.f.params.v = <<>>) /\ (f.kind.v = "set" => Len(f.value.f.params.v) = 1)
       /\ (f.kind.v \in {"get", "set"} => (~f.value.f.generator.v /\ ~f.value.f.async.v))
       /\ ~f.computed.v => (Is(f.key, "Identifier") \/ Is(f.key, "Literal"))
  [] t = "Property" ->
       /\ Bools(f, {"method", "shorthand", "computed"})
       /\ StrIn(f.kind, {"init", "get", "set"})
       /\ r # "prop" => (f.kind.v = "init" /\ ~f.method.v)
       /\ f.kind.v # "init" => (~f.method.v /\ ~f.shorthand.v)
       /\ (f.kind.v = "get" => f.value.f.params.v = <<>>) /\ (f.kind.v = "set" => Len(f.value.f.params.v) = 1)
       /\ (f.kind.v \in {"get", "set"} => (~f.value.f.generator.v /\ ~f.value.f.async.v))
       /\ f.shorthand.v => (/\ ~f.computed.v /\ ~f.method.v /\ Is(f.key, "Identifier")
                            /\ (Same(f.key, f.value) \/ (r # "prop" /\ Is(f.value, "AssignmentPattern") /\ Same(f.key, f.value.f.left))))
  [] t = "Identifier" -> IsStr(f.name) /\ f.name.v # ""
  [] t = "Literal" ->
       IF "regex" \in DOMAIN f
       THEN /\ f.regex.k = "obj" /\ DOMAIN f.regex.f = {"pattern", "flags"} /\ IsStr(f.regex.f.pattern) /\ IsStr(f.regex.f.flags)
            /\ f.value.k \in {"obj", "null", "str"} /\ IsStr(f.raw) /\ r \notin {"key", "string"}
       ELSE /\ f.value.k \in {"str", "num", "bool", "null"} /\ IsStr(f.raw)
            /\ r = "string" => f.value.k = "str"
            /\ r = "key" => (f.value.k \in {"str", "num"} \/ (f.value.k = "null" /\ f.raw.v # "null"))
  [] t = "ArrayPattern" -> RestLast(f.elements.v)
  [] t = "ObjectPattern" -> RestLast(f.properties.v)
  [] t = "BinaryExpression" -> StrIn(f.operator, BinaryOps)
  [] t = "LogicalExpression" -> StrIn(f.operator, {"&&", "||"})
  [] t = "AssignmentExpression" -> StrIn(f.operator, AssignOps)
  [] t = "UnaryExpression" -> StrIn(f.operator, {"-", "+", "!", "~", "typeof", "void", "delete"}) /\ IsTrue(f.prefix)
  [] t = "UpdateExpression" -> StrIn(f.operator, {"++", "--"}) /\ IsBool(f.prefix)
  [] t = "YieldExpression" -> IsBool(f.delegate)
  [] t = "SequenceExpression" -> Len(f.expressions.v) > 1
  [] t = "MemberExpression" -> IsBool(f.computed)
  [] t = "MetaProperty" -> NameOf(f.meta) = "new" /\ NameOf(f.property) = "target"
  [] t = "TemplateLiteral" -> \A i \in DOMAIN f.quasis.v : IsTrue(f.quasis.v[i].f.tail) <=> i = Len(f.quasis.v)
  [] t = "TemplateElement" ->
       /\ IsBool(f.tail) /\ f.value.k = "obj" /\ DOMAIN f.value.f = {"cooked", "raw"}
       /\ IsStr(f.value.f.raw) /\ (IsStr(f.value.f.cooked) \/ IsNull(f.value.f.cooked))
  [] t = "ExportNamedDeclaration" -> ~IsNull(f.declaration) => (f.specifiers.v = <<>> /\ IsNull(f.source))
  [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* The faults of a tree: the types (and roles) of the nodes that are wrong. *)

RECURSIVE Faults(_, _)
Faults(v, r) ==
  IF ~IsNode(v) THEN {"no node as " \o r}
  ELSE IF v.t \notin Allowed(r) THEN {v.t \o " as " \o r}
  ELSE IF ~(FieldsOf(v.t) \subseteq DOMAIN v.f /\ DOMAIN v.f \subseteq FieldsOf(v.t) \cup Optional(v.t))
  THEN {"fields of " \o v.t}
  ELSE LET q == Children(v, r)
           below == UNION {Faults(q[i].v, q[i].r) : i \in DOMAIN q}
       IN IF below # {} THEN below ELSE IF Local(v, r) THEN {} ELSE {"attributes of " \o v.t \o " as " \o r}

(* The leaves of a well-formed tree in source order: <<kind, text, odd>>.   *)
LeafOf(v) ==
  CASE v.t = "Identifier" -> <<<<"name", v.f.name.v, v.f.name.odd>>>>
  [] v.t = "ThisExpression" -> <<<<"name", "this", FALSE>>>>
  [] v.t = "Super" -> <<<<"name", "super", FALSE>>>>
  [] v.t = "TemplateElement" -> <<<<"tpl", v.f.value.f.raw.v, v.f.value.f.raw.odd>>>>
  [] v.t = "Literal" ->
       IF "regex" \in DOMAIN v.f THEN <<<<"re", v.f.regex.f.pattern.v \o "/" \o v.f.regex.f.flags.v, v.f.regex.f.pattern.odd>>>>
       ELSE IF v.f.value.k = "str" THEN <<<<"str", v.f.value.v, v.f.value.odd>>>>
       ELSE IF v.f.value.k = "num" THEN <<<<"num", v.f.value.v, FALSE>>>>
       ELSE IF v.f.value.k = "bool" THEN <<<<"name", IF v.f.value.v THEN "true" ELSE "false", FALSE>>>>
       ELSE IF v.f.raw.v = "null" THEN <<<<"name", "null", FALSE>>>> ELSE <<<<"num", "inf", FALSE>>>>
  [] OTHER -> <<>>

RECURSIVE Leaves(_, _)
Leaves(v, r) == LET q == Children(v, r) IN LeafOf(v) \o Flatten([i \in DOMAIN q |-> Leaves(q[i].v, q[i].r)])
=============================================================================
