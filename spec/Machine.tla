------------------------------- MODULE Machine ------------------------------
(***************************************************************************)
(* The pushdown machine: Feed(c, tok) is the configuration reached from c   *)
(* by consuming token tok, or Dead.                                         *)
(***************************************************************************)
EXTENDS Grammar

Conf(stk, vals) == [ok |-> TRUE, stk |-> stk, vals |-> vals]
Dead == [ok |-> FALSE, stk |-> <<>>, vals |-> <<>>]
\* Dead because of a static semantics rule rather than the token itself.
DeadSem == [ok |-> FALSE, stk |-> <<"rule">>, vals |-> <<>>]

Prod(x, tok, vals) ==
  CASE x.g = "E" -> ProdE(x, tok)
  [] x.g = "S" -> ProdS(x, tok, vals)
  [] x.g = "B" -> ProdB(x, tok)
  [] x.g = "F" -> ProdF(x, tok)
  [] x.g = "X" -> ProdX(x, tok)

Reduce(vals, n, s) == Append(Pop(vals, n), N(s[1], Tail(s), Top(vals, n)))
AppendTop(vals) ==
  LET l == vals[Len(vals) - 1] IN Append(Pop(vals, 2), List(Append(l.c, Last(vals))))

RECURSIVE Adv(_, _, _)
Adv(stk, vals, tok) ==
  IF stk = <<>> THEN Dead
  ELSE LET x == Head(stk)  r == Tail(stk) IN
    IF x.g # "M" THEN Adv(Prod(x, tok, vals) \o r, vals, tok)
    ELSE CASE x.k = "T" -> IF tok.t = x.s[1] THEN Conf(r, vals) ELSE Dead
    [] x.k = "Eat" -> Conf(r, vals)
    [] x.k = "Leaf" -> Conf(r, Append(vals, N(x.s[1], Tail(x.s), <<>>)))
    [] x.k = "Val" -> Adv(r, Append(vals, N(x.s[1], Tail(x.s), <<>>)), tok)
    [] x.k = "Mk" -> Adv(r, Reduce(vals, x.n, x.s), tok)
    [] x.k = "App" -> Adv(r, AppendTop(vals), tok)
    [] x.k = "Op" -> LET o == DoOp(x.s, x.f, vals) IN IF o.ok THEN Adv(r, o.vals, tok) ELSE DeadSem
    [] x.k = "Semi" -> IF tok.t = ";" THEN Conf(r, vals)
                       ELSE IF tok.nl \/ tok.t \in {"}", "eof"} THEN Adv(r, vals, tok) ELSE Dead
    [] x.k = "DoSemi" -> IF tok.t = ";" THEN Conf(r, vals) ELSE Adv(r, vals, tok)
    [] x.k = "NoNL" -> IF tok.nl THEN Dead ELSE Adv(r, vals, tok)
    [] x.k = "Bad" -> Dead

Feed(c, tok) == IF c.ok THEN Adv(c.stk, c.vals, tok) ELSE Dead

RECURSIVE FeedAll(_, _)
FeedAll(c, toks) == IF toks = <<>> \/ ~c.ok THEN c ELSE FeedAll(Feed(c, Head(toks)), Tail(toks))

StartFlags(goal) == IF goal = "module" THEN {"in", "strict", "mod"} ELSE {"in"}

Start(goal) ==
  Conf(<<ListV, SA("Prologue", StartFlags(goal), IF goal = "module" THEN <<"module">> ELSE <<>>),
         Mk(1, <<"Program", goal>>), T("eof")>>, <<>>)

\* The outcome at the end of the input: the AST, or BadNode.
Result(c, nl) ==
  LET r == Feed(c, EofToken(nl)) IN
  IF r.ok /\ ~ContainsAll(r.vals[1], {"CoverInit"}) THEN r.vals[1] ELSE BadNode

(* A lexeme that begins with a slash is a regular expression literal only    *)
(* where the grammar does not allow a division there.                        *)
RegExpLexemes == "/r/g" :> <<"/", "r", "/", "g">> @@ "/=/" :> <<"/=", "/">>

FeedLex(c, x, nl) ==
  IF x \in DOMAIN RegExpLexemes /\ Feed(c, Lexeme(RegExpLexemes[x][1], nl)).ok
  THEN LET q == RegExpLexemes[x]
       IN FeedAll(c, [i \in DOMAIN q |-> Lexeme(q[i], nl /\ i = 1)])
  ELSE Feed(c, Lexeme(x, nl))

-----------------------------------------------------------------------------
(* A shortest text that completes a viable configuration: every symbol has  *)
(* a minimal yield, computed from the symbol alone.                         *)

MinYield(x) ==
  CASE x.k = "T" -> x.s
  [] x.k = "Semi" -> <<";">>
  [] x.k \in {"Expr", "Assign", "Unary", "Primary"} -> <<"a">>
  [] x.k \in {"DotName", "PropKey"} -> <<"a">>
  [] x.k = "YieldTail" -> <<>>
  [] x.k \in {"Args", "ParamList"} -> <<")">>
  [] x.k \in {"ArgsAfter", "CoverAfter", "CoverNext", "ParamAfter"} -> <<")">>
  [] x.k = "CoverOpen" -> <<"a", ")">>
  [] x.k = "CoverItem" -> <<"a", ")">>
  [] x.k \in {"ArrElems", "ArrAfter", "ArrPat", "ArrPatAfter"} -> <<"]">>
  [] x.k \in {"ObjProps", "ObjAfter", "ObjPat", "ObjPatAfter"} -> <<"}">>
  [] x.k = "Prop" -> <<"a">>
  [] x.k = "PropTail" -> IF x.s[1] = "true" THEN <<>> ELSE <<":", "a">>
  [] x.k \in {"GetSetTail", "AsyncPropTail"} -> <<>>
  [] x.k = "Template" -> <<"`t`">>
  [] x.k = "TplCont" -> <<"}e`">>
  [] x.k = "Target" -> IF x.g = "E" THEN <<"target">> ELSE <<"a">>
  [] x.k \in {"Id", "Elem"} -> <<"a">>
  [] x.k = "SuperTail" -> <<".", "a">>
  [] x.k = "NewTail" -> <<"a">>
  [] x.k = "AfterParen" -> <<>>
  [] x.k = "ObjPatTail" -> IF x.s[1] = "true" THEN <<>> ELSE <<":", "a">>
  [] x.k = "Params" -> <<"(", ")">>
  [] x.k = "FnExprStar" -> <<"(", ")", "{", "}">>
  [] x.k = "FnDeclStar" -> <<"a", "(", ")", "{", "}">>
  [] x.k = "MethodFn" -> <<"(", ")", "{", "}">>
  [] x.k = "get" -> <<"(", ")", "{", "}">>
  [] x.k = "set" -> <<"(", "a", ")", "{", "}">>
  [] x.k = "Arrow" -> <<"=>", "a">>
  [] x.k = "ArrowBody" -> <<"a">>
  [] x.k = "ClassName" -> IF x.s[1] = "true" THEN <<>> ELSE <<"a">>
  [] x.k = "ClassEls" -> <<"}">>
  [] x.k \in {"StaticTail"} -> <<"(", ")", "{", "}">>
  [] x.k = "Member" -> <<"a", "(", ")", "{", "}">>
  [] x.k \in {"CGetSetTail", "CAsyncTail"} -> <<"(", ")", "{", "}">>
  [] x.k \in {"Item", "Stmt", "Sub", "LabelBody"} -> <<";">>
  [] x.k \in {"IdStmtTail", "AsyncStmt", "AsyncBody", "LetBody"} -> <<";">>
  [] x.k = "LetTail" -> <<"a", ";">>
  [] x.k = "Decl" -> IF x.s[1] = "const" THEN <<"a", "=", "a">> ELSE <<"a">>
  [] x.k = "DeclInit" -> <<"=", "a">>
  [] x.k = "Block" -> <<"{", "}">>
  [] x.k = "ForHead" -> <<";", ";", ")", ";">>
  [] x.k = "ForLet" -> <<"a", ";", ";", ")", ";">>
  [] x.k = "ForDecl" -> <<"in", "a", ")", ";">>
  [] x.k = "ForDeclMore" -> <<";", ";", ")", ";">>
  [] x.k = "ForExprTail" -> <<";", ";", ")", ";">>
  [] x.k = "ForInOf" -> <<"in", "a", ")", ";">>
  [] x.k = "ForRest" -> <<";", ")", ";">>
  [] x.k = "ForOpt" -> <<>>
  [] x.k = "Cases" -> <<"}">>
  [] x.k = "Jump" -> IF {"iter", "sw"} \cap x.f = {} THEN <<"l">> ELSE <<>>
  [] x.k = "Catch" -> <<"finally", "{", "}">>
  [] x.k = "Import" -> <<"'s'", ";">>
  [] x.k \in {"ImportMore", "From"} -> <<"from", "'s'", ";">>
  [] x.k = "ImportStarOrList" -> <<"{", "}", "from", "'s'", ";">>
  [] x.k = "As" -> <<"as">>
  [] x.k = "Source" -> <<"'s'">>
  [] x.k = "ImportSpecs" -> <<"}">>
  [] x.k = "ImportSpecTail" -> IF x.s[1] = "true" THEN <<>> ELSE <<"as", "a">>
  [] x.k = "ImportSpecAfter" -> <<"}">>
  [] x.k = "Export" -> <<"{", "}", ";">>
  [] x.k = "ExportAsync" -> <<"function", "a", "(", ")", "{", "}">>
  [] x.k = "ExportFrom" -> <<"from", "'s'">>
  [] x.k \in {"ExportSpecs", "ExportSpecAfter"} -> IF x.s[1] = "true" THEN <<"}", ";">> ELSE <<"}", "from", "'s'", ";">>
  [] x.k = "ExportTail" -> IF x.s[1] = "true" THEN <<";">> ELSE <<"from", "'s'", ";">>
  [] x.k = "Default" -> <<"a", ";">>
  [] x.k = "DefaultAsync" -> <<";">>
  [] OTHER -> <<>>

(* The yields are fed through the machine one by one, re-reading the stack   *)
(* after each token, so that the completion follows the productions.         *)
RECURSIVE FirstYield(_, _)
FirstYield(stk, vals) ==   \* first terminal of the minimal completion, or <<>>
  IF stk = <<>> THEN <<>>
  ELSE IF Head(stk).k = "AfterParen" /\ vals # <<>> /\ Last(vals).t = "Cover"
            /\ (Last(vals).s[1] = "must" \/ ContainsAll(Last(vals), {"CoverInit"}))
       THEN <<"=>">>
  ELSE LET y == MinYield(Head(stk)) IN IF y = <<>> THEN FirstYield(Tail(stk), vals) ELSE <<Head(y)>>

RECURSIVE Complete(_, _, _)
Complete(c, fuel, nl) ==  \* [ok, toks]: texts that lead c to the end of input
  IF ~Feed(c, EofToken(FALSE)).ok
  THEN LET y == FirstYield(c.stk, c.vals) IN
       IF fuel = 0 \/ y = <<>> \/ y = <<"eof">> THEN [c |-> Dead, toks |-> <<>>]
       ELSE LET d == FeedLex(c, y[1], nl) IN
            IF ~d.ok THEN [c |-> Dead, toks |-> <<>>]
            ELSE LET r == Complete(d, fuel - 1, FALSE) IN [c |-> r.c, toks |-> y \o r.toks]
  ELSE [c |-> c, toks |-> <<>>]
=============================================================================
