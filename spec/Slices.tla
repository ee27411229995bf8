------------------------------- MODULE Slices -------------------------------
(***************************************************************************)
(* The slices explored: alphabets of letters (sequences of lexemes),        *)
(* contexts (what stands before and after) and length bounds.  Extra is     *)
(* added to every bound in the thorough tier.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS SliceName, Extra

W(x) == <<x>>                                \* a letter of one lexeme
Ws(q) == [i \in DOMAIN q |-> <<q[i]>>]       \* letters of one lexeme each
Script(pre, post) == [goal |-> "script", pre |-> pre, post |-> post]
Module(pre, post) == [goal |-> "module", pre |-> pre, post |-> post]
Plain == <<Script(<<>>, <<>>)>>
Sl(ctxs, letters, max) ==
  [name |-> SliceName, sep |-> " ", ctxs |-> ctxs, letters |-> letters, max |-> max + Extra]

BinaryOps == <<"||","&&","|","^","&","==","!=","===","!==","<",">","<=",">=","instanceof",
               "in","<<",">>",">>>","+","-","*","/","%","**">>
AssignOps == <<"=","+=","-=","*=","/=","%=","**=","<<=",">>=",">>>=","&=","|=","^=">>

-----------------------------------------------------------------------------
(* C02 operators *)

C02a ==  \* every sequence of three binary operators, and of assignments and conditionals
  Sl(<<Script(<<"a">>, <<>>)>>,
     [i \in 1..Len(BinaryOps) |-> <<BinaryOps[i], "b">>]
       \o << <<"?","b",":","c">>, <<"=","b">>, <<"+=","b">>, <<",","b">> >>, 3)

C02b ==  \* every operator with every operand form
  Sl(Plain, Ws(<<"a","(",")","?",":",",","!","~","typeof","void","delete","++","--",".">>
            \o BinaryOps \o AssignOps), 4)

C02c ==  \* one operator per level, deeper
  Sl(Plain, Ws(<<"a","1","(",")","?",":",",","!","-","++","=","**=","||","&&","|","==","<","in","<<","+","*","**","\n">>), 5)

C02d ==  \* the for-head initialiser, where `in' is not an operator
  Sl(<<Script(<<"for","(">>, <<";",";",")",";">>),
       Script(<<"for","(","var","a","=">>, <<";",";",")",";">>),
       Script(<<"for","(","let","a","=">>, <<";",";",")",";">>),
       Script(<<"for","(",";">>, <<";",")",";">>),
       Script(<<"for","(","a","in">>, <<")",";">>),
       Script(<<"for","(","a","of">>, <<")",";">>)>>,
     Ws(<<"a","in","(",")","[","]","?",":","=","=>",",","<","!">>), 5)

C02e ==  \* long homogeneous chains
  Sl(<<Script(<<"a">>, <<>>), Script(<<"a","=","b">>, <<>>)>>,
     << <<"+","b">>, <<"*","-","b">>, <<"**","b">>, <<"&&","b">>, <<"||","b">>, <<"?","b",":","c">>, <<"<","b">>, <<",","b">> >>, 5)

-----------------------------------------------------------------------------
(* C03 statements *)

StmtMacros == << <<"a",";">>, W(";"), W("{"), W("}"), <<"if","(","a",")">>, W("else"),
     <<"while","(","b",")">>, W("do"), <<"for","(",";",";",")">>,
     <<"l",":">>, <<"with","(","a",")">>, W("debugger"), <<"throw","a",";">>, W("try"), W("catch"),
     <<"catch","(","e",")">>, W("finally"), <<"switch","(","a",")","{">>, <<"case","a",":">>,
     <<"default",":">>, <<"function","f","(",")","{","}">>, <<"var","v",";">>, <<"let","w",";">>,
     <<"class","C","{","}">>, W("\n"), <<"for","(","a","in","b",")">>, <<"for","(","var","a","of","b",")">> >>

C03a == Sl(Plain, StmtMacros, 4)

C03b ==  \* for heads
  Sl(<<Script(<<"for","(">>, <<")",";">>), Script(<<"for","(","var">>, <<")",";">>),
       Script(<<"for","(","let">>, <<")",";">>), Script(<<"for","(","const">>, <<")",";">>)>>,
     Ws(<<"a","b","=",",",";","in","of","[","]","{","}",")","(",".","var">>), 5)

C03g ==  \* several declarators in for heads
  Sl(<<Script(<<"for","(","var","a">>, <<")",";">>), Script(<<"for","(","let","a">>, <<")",";">>), Script(<<"for","(","const","a">>, <<")",";">>), Script(<<"for","(","var","[","a","]">>, <<")",";">>), Script(<<"for","(","let">>, <<")",";">>)>>,
     << W("a"), W(","), W("="), W("in"), W("of"), W(";"), W("1"), <<"[","b","]">>, <<"{","c","}">>, <<",","b">>, <<",","b","=","1">>, W("let") >>, 5)

C03c ==  \* declarations
  Sl(<<Script(<<"var">>, <<>>), Script(<<"let">>, <<>>), Script(<<"const">>, <<>>)>>,
     Ws(<<"a","b","=",",",";","1","[","]","{","}","\n",":">>), 6)

C03d ==  \* statement keywords, token by token
  Sl(Plain, Ws(<<"a","(",")","{","}",";",":","if","else","while","do","for","switch","case","default",
            "try","catch","finally","throw","with","var","debugger","\n">>), 5)

C03e ==  \* switch and try bodies
  Sl(<<Script(<<"switch","(","a",")","{">>, <<"}">>), Script(<<"try","{">>, <<"}","finally","{","}">>)>>,
     << W("a"), W(";"), W("{"), W("}"), <<"case","b",":">>, <<"case","b",",","c",":">>, <<"default",":">>, W("break"),
        W("catch"), <<"catch","(","e",")","{">>, <<"catch","(","[","e","]",")","{">>, W("finally"), <<"let","w",";">>, W("\n"),
        <<"function","f","(",")","{","}">> >>, 5)

C03f ==  \* nested control flow, dangling else
  Sl(Plain, << <<"if","(","a",")">>, W("else"), <<"x",";">>, W("{"), W("}"), W("do"), <<"while","(","b",")">>,
       <<"for","(","var","i","in","o",")">>, <<"l",":">>, W(";") >>, 6)

-----------------------------------------------------------------------------
(* C04 jumps *)

JumpLetters == << <<"return",";">>, <<"break",";">>, <<"continue",";">>,
     <<"while","(","a",")">>, <<"do","{">>, <<"}","while","(","a",")",";">>, <<"for","(",";",";",")","{">>,
     <<"for","(","a","in","b",")">>, <<"for","(","a","of","b",")">>,
     <<"switch","(","a",")","{","case","b",":">>, <<"if","(","a",")","{">>, W("{"), W("}"),
     <<"function","f","(",")","{">>, <<"x","=","function","(",")","{">>,
     <<"x","=","(",")","=>","{">>, <<"x","=","{","m","(",")","{">>, <<"}","}">>,
     <<"class","C","{","m","(",")","{">>, <<"try","{">>, <<"}","finally","{">> >>

C04a == Sl(<<Script(<<>>, <<>>), Module(<<>>, <<>>), Script(<<"function","g","(",")","{">>, <<"}">>)>>, JumpLetters, 4)

C04b ==  \* deeper over the essential letters
  Sl(Plain, << <<"return",";">>, <<"break",";">>, <<"continue",";">>, <<"while","(","a",")","{">>,
       <<"switch","(","a",")","{","case","b",":">>, W("}"),
       <<"function","f","(",")","{">>, <<"x","=","(",")","=>","{">>,
       <<"x","=","{","get","m","(",")","{">>, <<"}","}">>, <<"class","C","{","m","(",")","{">> >>, 5)

C04c ==  \* jumps in parameter defaults, computed keys, heritage, arrow expressions
  Sl(<<Script(<<"while","(","a",")","{">>, <<"}">>), Script(<<"function","g","(",")","{">>, <<"}">>)>>,
     << <<"break",";">>, <<"continue",";">>, <<"return",";">>, <<"f","(","function","(",")","{">>, <<"}",")",";">>,
        <<"f","(","x","=>","{">>, <<"(","function","(","a","=","function","(",")","{">>, <<"}",")","{">>,
        <<"class","C","extends","function","(",")","{">>, <<"}","{","}">>, <<"async","function","h","(",")","{">>, W("}"), W("{"),
        <<"switch","(","a",")","{","default",":">>, <<"do">>, <<"while","(","b",")",";">> >>, 4)

C04d ==  \* labels
  Sl(<<Script(<<>>, <<>>), Script(<<"while","(","a",")","{">>, <<"}">>)>>,
     << <<"l",":">>, <<"m",":">>, <<"break","l",";">>, <<"continue","l",";">>, <<"break",";">>, <<"continue","m",";">>,
        <<"while","(","b",")">>, W("{"), W("}"), W(";"), <<"break","\n","l",";">> >>, 5)

-----------------------------------------------------------------------------
(* C05 strict mode *)

\* Closed constructs, after which the context is what it was before, and
\* statements that are sensitive to the context.
Closed == << <<"function","f","(",")","{","'use strict'","}">>, <<"function","*","g","(",")","{","yield","a","}">>, <<"async","function","h","(",")","{","await","a","}">>,
     <<"while","(","a",")","x",";">>, <<"switch","(","a",")","{","case","b",":","break","}">>, <<"x","=","async","(",")","=>","{","await","a","}",";">>, <<"x","=","(",")","=>","{","'use strict'","}",";">>,
     <<"class","C","{","m","(",")","{","}","}">>, <<"x","=","{","*","m","(",")","{","yield","}","}",";">>, <<"x","=","{","async","m","(",")","{","}","}",";">>, <<"for","(","x","=","(","a","in","b",")",";",";",")",";">>,
     <<"`h${","{","a",":","{","}","}","}e`",";">>, <<"x","=","{","get","}",";">>, <<"x","=","class","{","static","get","m","(",")","{","}","}",";">>, <<"for","(","var","i","in","o",")",";">>,
     <<"x","=","function","(","a","=","1",")","{","return","a","}",";">>, <<"do","x",";","while","(","a",")">>, <<"try","{","}","catch","(","e",")","{","}">>, <<"x","=","async","y","=>","await","y",";">>,
     <<"x","=","function","*","(",")","{","yield","}",";">>, <<"(","a",",","b",")","=>","{","return","}",";">>, <<"l",":","for","(",";",";",")","{","continue","l","}">>, <<"x","=","{","set","s","(","v",")","{","'use strict'",";","}","}",";">>,
     <<"class","D","extends","B","{","}">>, <<"x","=","class","extends","B","{","}",";">>, <<"x","=","class","D","extends","B","{","static","m","(",")","{","}","}",";">>, <<"x","=","class","{","*","m","(",")","{","yield","a","}","}",";">>,
     <<"class","D","{","async","m","(",")","{","await","a","}","}">>, <<"x","=","class","extends","class","{","}","{","}",";">>, <<"x","=","function","(",")","{","'use strict'","}",";">>, <<"x","=","(","a","=","class","{","}",")","=>","1",";">>,
     <<"async","function","*","k","(",")","{","yield","await","a","}">>, <<"x","=","async","function","(",")","{","await","a","}",";">>, <<"x","=","{","async","*","m","(",")","{","yield","await","a","}","}",";">>, <<"switch","(","a",")","{","case","b",":","switch","(","c",")","{","}","}">>,
     <<"while","(","a",")","{","while","(","b",")",";","}">>, <<"for","(","var","i","of","o",")","{","break","}">>, <<"do","{","continue","}","while","(","a",")">>, <<"l",":","{","break","l","}">>, <<"if","(","a",")","x",";","else","y",";">>,
     <<"x","=","function","y","(","a",",","{","b","}",")","{","}",";">>, <<"(","{","a","=","1","}",")","=>","1",";">>, <<"x","=","async","(","a",")","=>","{","return","}",";">>, <<"with","(","a",")",";">>, <<"`h${","a","in","b","}e`",";">>, <<"x","=","a","?","(","b","in","c",")",":","d",";">>,
     <<"x","=","{","[","a","in","b","]",":","1","}",";">>, <<"for","(","x","=","f","(","a","in","b",")",";",";",")",";">>, <<"for","(","x","=","[","a","in","b","]",";",";",")",";">>, <<"for","(","var","x","=","function","(",")","{","a","in","b","}",";",";",")",";">> >>
Probes == << <<"with","(","a",")",";">>, <<"yield",";">>, <<"await",";">>, <<"yield","a",";">>, <<"await","a",";">>, <<"return",";">>, <<"break",";">>, <<"continue",";">>, <<"a","in","b",";">>, <<"/r/g",";">>, <<"eval","=","1",";">>,
     <<"a","=","1",";">>, <<"}">>, <<"case","c",":">>, <<"static",";">>, <<"else",";">>, <<"`t`",";">>, <<"{">>, <<"continue","l",";">> >>

StrictOpen == << <<"'use strict'",";">>, <<"function","f","(",")","{">>, W("}"), <<"class","C","{","m","(",")","{">>, <<"}","}">>,
     <<"x","=","(",")","=>","{">>, <<"x","=","function","(",")","{">>, <<"x","=","{","m","(",")","{">> >>

C05a ==  \* where strictness starts and ends
  Sl(<<Script(<<>>, <<>>), Module(<<>>, <<>>)>>,
     StrictOpen \o << <<"'use asm'",";">>, <<"with","(","a",")",";">>, <<"static",";">>, W(";"), <<"'use strict'">>, W("\n"),
        <<"+","1",";">>, <<"(","'use strict'",")",";">>, <<"'use\\x20strict'",";">> >>, 4)

C05b ==  \* what strict mode forbids, in sloppy and strict contexts
  Sl(<<Script(<<>>, <<>>), Script(<<"'use strict'",";">>, <<>>), Module(<<>>, <<>>),
       Script(<<"function","f","(",")","{","'use strict'",";">>, <<"}">>),
       Script(<<"function","f","(",")","{","'use strict'",";","}">>, <<>>),
       Script(<<"class","C","{","}">>, <<>>), Script(<<"class","C","{","m","(",")","{">>, <<"}","}">>)>>,
     Ws(<<"a","eval","arguments","implements","interface","package","private","protected","public","static","yield","let",
          "=","++","+=",";","var","(",")",",","=>","with","{","}","[","]">>), 3)

C05c ==  \* every binding position
  Sl(<<Script(<<>>, <<>>), Script(<<"'use strict'",";">>, <<>>)>>,
     LET Names == <<"a","eval","arguments","static","yield","let","public">>
         Forms(n) == << <<"var",n,";">>, <<"let","[",n,"]","=","b",";">>, <<"var","{",n,"}","=","b",";">>, <<"var","{","k",":",n,"}","=","b",";">>,
            <<"function",n,"(",")","{","}">>, <<"function","f","(",n,")","{","}">>, <<"function","f","(","...",n,")","{","}">>,
            <<"(","function",n,"(",")","{","}",")",";">>, <<"try","{","}","catch","(",n,")","{","}">>, <<n,"=>","1",";">>, <<"(",n,")","=>","1",";">>,
            <<"(","{",n,"}",")","=>","1",";">>, <<"(","[",n,"]",")","=>","1",";">>, <<"(","b","=",n,")","=>","1",";">>, <<"async",n,"=>","1",";">>,
            <<"async","(",n,")","=>","1",";">>,
            <<n,"=","1",";">>, <<n,"++",";">>, <<"--",n,";">>, <<n,"*=","1",";">>, <<"[",n,"]","=","b",";">>, <<"(","{",n,"}","=","b",")",";">>,
            <<"(","{",n,"=","1","}","=","b",")",";">>,
            <<"(","{","k",":",n,"}","=","b",")",";">>, <<"(",n,")","=","1",";">>, <<"for","(",n,"in","b",")",";">>, <<"for","(","var",n,"of","b",")",";">>,
            <<"class",n,"{","}">>, <<"b","=","class",n,"{","}",";">>, <<n,":",";">>, <<n,";">>, <<"b",".",n,";">>, <<"b","=","{",n,":","1","}",";">>,
            <<"b","=","{",n,"}",";">>, <<"b","=","{",n,"(",")","{","}","}",";">>, <<"b","=","{","set","x","(",n,")","{","}","}",";">>,
            <<"f","(",n,")",";">>, <<"b","=",n,"+","1",";">>, <<"typeof",n,";">>, <<"[","...",n,"]","=","b",";">> >>
     IN Forms("a") \o Forms("eval") \o Forms("arguments") \o Forms("static") \o Forms("yield") \o Forms("public"), 1)

C05d ==  \* strictness after closed constructs
  Sl(<<Script(<<"'use strict'",";">>, <<>>), Script(<<>>, <<>>), Script(<<"function","f","(",")","{","'use strict'",";">>, <<"}">>), Script(<<"class","C","{","m","(",")","{">>, <<"}","}">>),
       Script(<<"class","C","extends">>, <<"{","}">>), Script(<<"x","=","class","{","static","m","(",")","{">>, <<"}","}">>), Script(<<"'use strict'",";","(",")","=>","{">>, <<"}">>), Script(<<"(",")","=>","{","'use strict'",";">>, <<"}">>), Script(<<"x","=","{","get","m","(",")","{","'use strict'",";">>, <<"}","}">>)>>,
     Closed \o << <<"with","(","a",")",";">>, <<"static",";">>, <<"eval","=","1",";">>, <<"x","=","function","(",")","{","with","(","a",")",";","}",";">>, <<"var","public",";">>, <<"yield",";">>, <<"a","=","1",";">>, <<"'use strict'",";">>, <<"class","E","{">>, <<"function","f","(",")","{">>, <<"}">>, <<"let",";">> >>, 2)

-----------------------------------------------------------------------------
(* C06 yield and await *)

FnCtxs == <<Script(<<>>, <<>>), Script(<<"function","f","(",")","{">>, <<"}">>), Script(<<"function","*","f","(",")","{">>, <<"}">>),
            Script(<<"async","function","f","(",")","{">>, <<"}">>), Script(<<"async","function","*","f","(",")","{">>, <<"}">>)>>

C06a ==  \* yield/await as operators and identifiers
  Sl(FnCtxs \o <<Module(<<>>, <<>>)>>,
     Ws(<<"yield","await","a","*","+","-",";","(",")","[","]",",","?",":","=","in","\n","/r/g","function">>), 4)

C06b ==  \* nesting of function kinds
  Sl(<<Script(<<>>, <<>>), Module(<<>>, <<>>)>>,
     << <<"yield","a",";">>, <<"await","a",";">>, <<"yield",";">>, <<"await",";">>, W("}"), <<"}","}",";">>,
        <<"function","f","(",")","{">>, <<"function","*","g","(",")","{">>,
        <<"async","function","h","(",")","{">>, <<"async","function","*","k","(",")","{">>,
        <<"x","=","(",")","=>","{">>, <<"x","=","async","(",")","=>","{">>,
        <<"x","=","{","m","(",")","{">>, <<"x","=","{","*","m","(",")","{">>, <<"x","=","{","async","m","(",")","{">>,
        <<"x","=","{","get","m","(",")","{">>, <<"x","=","function","(",")","{">>, <<"x","=","function","*","(",")","{">>,
        <<"x","=","async","function","(",")","{">> >>, 4)

C06c ==  \* binding positions
  Sl(FnCtxs \o <<Module(<<>>, <<>>)>>,
     LET Forms(n) == << <<"var",n,";">>, <<"let",n,";">>, <<"var","[",n,"]","=","b",";">>, <<"var","{",n,"}","=","b",";">>, <<"function",n,"(",")","{","}">>,
            <<"function","*",n,"(",")","{","}">>, <<"async","function",n,"(",")","{","}">>, <<"(","function",n,"(",")","{","}",")",";">>,
            <<"(","function","*",n,"(",")","{","}",")",";">>, <<"(","async","function",n,"(",")","{","}",")",";">>,
            <<"function","p","(",n,")","{","}">>, <<"function","*","p","(",n,")","{","}">>, <<"async","function","p","(",n,")","{","}">>,
            <<"function","p","(","a","=",n,")","{","}">>, <<"function","*","p","(","a","=",n,")","{","}">>, <<"async","function","p","(","a","=",n,"b",")","{","}">>,
            <<n,"=>","1",";">>, <<"(",n,")","=>","1",";">>, <<"(","a","=",n,")","=>","1",";">>, <<"(","a","=",n,"b",")","=>","1",";">>, <<"async",n,"=>","1",";">>, <<"async","(",n,")","=>","1",";">>,
            <<"async","(","a","=",n,")","=>","1",";">>, <<"async","(","a","=",n,"b",")",";">>,
            <<n,":",";">>, <<"b",".",n,";">>, <<"b","=","{",n,"}",";">>, <<"b","=","{",n,":","1","}",";">>, <<"b","=","{",n,"(",")","{","}","}",";">>,
            <<"b","=","{","*",n,"(",")","{","}","}",";">>, <<"b","=","{","[",n,"]",":","1","}",";">>,
            <<"try","{","}","catch","(",n,")","{","}">>, <<"class",n,"{","}">>, <<"b","=",n,";">>, <<n,"=","1",";">>, <<"b","=",n,"*","a",";">>, <<"b","=",n,"/r/g",";">>,
            <<"while","(",n,")",";">>, <<"f","(",n,")",";">>, <<"f","(","...",n,"a",")",";">>, <<"b","[",n,"]",";">>, <<"`h${",n,"}e`",";">>,
            <<"a","=>",n,";">>, <<"async","a","=>",n,"b",";">>, <<"async","a","=>","{",n,"b","}">>, <<"(","a",")","=>","{",n,"}",";">>, <<"for","(",n,"in","b",")",";">>, <<"switch","(",n,")","{","}">>,
            <<"b","=","{","get","x","(",")","{",n,"}","}",";">>, <<"b","=","{","async","x","(",")","{",n,"b","}","}",";">>, <<"b","=","{","*","x","(",")","{",n,"b","}","}",";">>,
            <<"class","C","{","x","(",")","{",n,"b","}","}">>, <<"class","C","{","*","x","(",")","{",n,"b","}","}">>, <<"class","C","{","async","x","(",")","{",n,"b","}","}">>,
            <<"class","C","extends",n,"{","}">>, <<"throw",n,";">>, <<"if","(",n,")",";">>, <<n,"?","a",":","b",";">>, <<"a","?",n,":",n,";">>, <<"typeof",n,";">>, <<"new",n,";">>, <<n,".","a",";">> >>
     IN Forms("yield") \o Forms("await") \o << <<"a",";">>, <<"yield","\n","a",";">>, <<"yield","*","a",";">>, <<"yield","\n","*","a",";">>,
            <<"yield","yield","a",";">>, <<"await","await","a",";">>, <<"a","+","yield","b",";">>, <<"a","+","await","b",";">>, <<"await","a","**","b",";">>, <<"-","await","a",";">>,
            <<"yield","a","?","b",":","c",";">>, <<"yield","=","a",";">>, <<"yield","a",",","b",";">>, <<"f","(","yield",",","yield",")",";">>, <<"[","yield",",","a","]",";">>, <<"await","a","(",")",".","b",";">> >>, 1)

-----------------------------------------------------------------------------
(* C07 automatic semicolon insertion and restricted productions *)

C07a == Sl(Plain, Ws(<<"a","b","\n",";","{","}","(",")","++","+","[","]","=","1">>), 5)

C07b ==  \* restricted productions
  Sl(<<Script(<<"function","f","(",")","{","while","(","a",")","{">>, <<"}","}">>),
       Script(<<"function","*","f","(",")","{","l",":","while","(","a",")","{">>, <<"}","}">>),
       Script(<<"async","function","f","(",")","{","for","(",";",";",")","{">>, <<"}","}">>)>>,
     Ws(<<"return","break","continue","throw","yield","async","function","a","l","=>","++","\n",";","}","{","(",")","x","`\n`">>), 4)

C07c ==  \* statements that end with a semicolon
  Sl(<<Script(<<>>, <<>>), Script(<<"{">>, <<"}">>)>>,
     << <<"var","a">>, <<"let","b","=","1">>, <<"a","=","b">>, <<"do","x",";","while","(","a",")">>, <<"throw","e">>, W("debugger"), <<"(","a",")">>, <<"[","a","]">>,
        <<"/r/g">>, <<"+","a">>, <<"++">>, W("\n"), W(";"), <<"if","(","a",")">>, W("else"), <<"`t`">>, W("}"), <<"for","(","a">>, <<",","b">>, <<"function","g","(",")","{","}">>, <<"x","=","function","(",")","{","}">>,
        <<"'s'">> >>, 4)

C07d ==  \* for heads never get semicolons inserted
  Sl(<<Script(<<"for","(">>, <<")",";">>), Script(<<"for","(","a">>, <<")",";">>), Script(<<"while","(","a",")">>, <<>>), Script(<<"if","(","a",")">>, <<>>)>>,
     Ws(<<"a",";","\n","=","in","+","else",")","b">>), 5)

C07e ==  \* module statements
  Sl(<<Module(<<>>, <<>>)>>,
     << <<"import","a","from","'s'">>, <<"import","'s'">>, <<"export","{","a","}">>, <<"export","*","from","'s'">>, <<"export","default","a">>, <<"export","default","function","(",")","{","}">>,
        <<"export","var","a">>, <<"export","{","a","}","from","'s'">>, <<"a">>, W("\n"), W(";"), <<"(","a",")">>, <<"export","default","class","{","}">>, <<"export","function","f","(",")","{","}">> >>, 4)

-----------------------------------------------------------------------------
(* C14 binding patterns *)

PatLetters == Ws(<<"a","b","[","]","{","}",",",":","=","...","(",")","1","'s'","if">>)

C14a ==  \* every binding position
  Sl(<<Script(<<"var">>, <<"=","z",";">>), Script(<<"let","[">>, <<"]","=","z",";">>), Script(<<"const","{">>, <<"}","=","z",";">>),
       Script(<<"function","f","(">>, <<")","{","}">>), Script(<<"try","{","}","catch","(">>, <<")","{","}">>),
       Script(<<"x","=","{","set","s","(">>, <<")","{","}","}",";">>), Script(<<"x","=","function","(","{">>, <<"}",")","{","}">>)>>,
     PatLetters, 4)

C14b == Sl(<<Script(<<"var","{">>, <<"}","=","z",";">>), Script(<<"for","(","var","[">>, <<"]","of","z",")",";">>), Script(<<"for","(","let","{">>, <<"}","in","z",")",";">>)>>,
     Ws(<<"a","[","]","{","}",",",":","=","...","k","get","async","await">>), 5)

C14c == Sl(<<Script(<<"class","C","{","m","(">>, <<")","{","}","}">>), Script(<<"x","=","{","m","(","[">>, <<"]",")","{","}","}">>), Script(<<"async","function","f","(">>, <<")","{","}">>),
             Script(<<"function","*","g","(","{">>, <<"}",")","{","}">>)>>,
     Ws(<<"a","[","]","{","}",",",":","=","...",".","this","eval">>), 5)

-----------------------------------------------------------------------------
(* C15 assignment targets and cover grammars *)

C15a == Sl(Plain, Ws(<<"a","(",")","[","]","{","}",",","=","=>","...",".","\n",":">>), 6)
C15b == Sl(<<Script(<<"x","=","(","{">>, <<"}",")",";">>), Script(<<"(","{">>, <<"}","=","z",")",";">>), Script(<<"(","{">>, <<"}",")","=>","z",";">>), Script(<<"[","{">>, <<"}","]","=","z",";">>), Script(<<"[","[">>, <<"]","]","=","z",";">>),
             Script(<<"for","(","[">>, <<"]","of","z",")",";">>), Script(<<"for","(","{">>, <<"}","in","z",")",";">>), Script(<<"async","(","{">>, <<"}",")","=>","z",";">>)>>,
     Ws(<<"a","b","(",")","[","]","{","}",",","=","...",".",":","+=">>), 4)
C15c == \* simple targets
  Sl(Plain, << W("a"), W("("), W(")"), W("="), W("+="), W("++"), W("--"), <<".","p">>, <<"[","1","]">>, <<"f","(",")">>, W("this"), W("new"), <<"`t`">>, W("1"), W("-"), W("?"), W(":"),
        <<"**=">>, <<"in">>, W(","), <<"new",".","target">>, <<"function","(",")","{","}">> >>, 4)
C15d == \* arrow parameter lists
  Sl(<<Script(<<"(">>, <<")","=>","z",";">>), Script(<<"async","(">>, <<")","=>","z",";">>), Script(<<"async","(">>, <<")",";">>), Script(<<"x","=","(">>, <<")","=>","{","}">>), Script(<<"f","(","(">>, <<")","=>","z",")">>)>>,
     Ws(<<"a","b","(",")","[","]","{","}",",","=","...",".",":","+","await","eval">>), 4)

-----------------------------------------------------------------------------
(* C16 functions *)

C16a == Sl(Plain, Ws(<<"function","async","*","f","(",")","{","}","a",",","=",";","=>","...","\n","return">>), 6)
C16b == Sl(<<Script(<<"x","=">>, <<>>), Script(<<"(">>, <<")">>), Script(<<"new">>, <<>>), Script(<<"!">>, <<>>), Module(<<"export","default">>, <<>>), Script(<<"x","?">>, <<":","z">>)>>,
     << W("function"), W("async"), W("*"), W("f"), <<"(",")">>, <<"(","a",",","b","=","1",")">>, <<"{","}">>, <<"{","return","a","}">>, W("=>"), <<"(","...","r",")">>, W("a"), W("("), W(")"), W("+"), W(","), W("\n"), <<".","p">>, W(";") >>, 4)
C16c == Sl(<<Script(<<"function","f">>, <<>>), Script(<<"async","function","f">>, <<>>), Script(<<"x","=","function","*">>, <<>>), Script(<<"x","=","async","function","*">>, <<>>)>>,
     Ws(<<"(",")","{","}","a","b",",","=","...","[","]","return",";","this">>), 5)
C16d == Sl(<<Script(<<"async">>, <<>>), Script(<<"x","=","async">>, <<>>)>>,
     Ws(<<"a","(",")",",","=>","{","}","function","*","\n","+","=",".","of","...",";","async","1">>), 5)

-----------------------------------------------------------------------------
(* C17 object and class members *)

MemberLetters == << W("get"), W("set"), W("async"), W("static"), W("*"), W("a"), W("'s'"), W("1"), W("if"), <<"[","k","]">>, <<"(",")","{","}">>, <<"(","v",")","{","}">>, W("constructor"), W("prototype"), W(";"), W(","), W(":"), W("="), W("\n"), W("...") >>

C17a == Sl(<<Script(<<"x","=","{">>, <<"}",";">>), Script(<<"(","{","k",",">>, <<"}",")",";">>)>>, MemberLetters, 4)
C17b == Sl(<<Script(<<"class","C","{">>, <<"}">>), Script(<<"x","=","class","{","m","(",")","{","}">>, <<"}">>), Script(<<"class","C","{","static">>, <<"}">>)>>, MemberLetters, 4)
C17c == \* class heads
  Sl(<<Script(<<"class">>, <<>>), Script(<<"x","=","class">>, <<>>), Module(<<"export","default","class">>, <<>>)>>,
     << W("A"), W("extends"), W("B"), W("{"), W("}"), W("("), W(")"), <<".","p">>, <<"m","(",")","{","}">>, W("null"), W("+"), W(";"), W("class"), W("static"), W("=>"), <<"[","1","]">> >>, 5)
C17d == \* two and more members
  Sl(<<Script(<<"x","=","{">>, <<"}",";">>), Script(<<"class","C","{">>, <<"}">>)>>,
     << <<"get","a","(",")","{","}">>, <<"set","a","(","v",")","{","}">>, <<"async","a","(",")","{","}">>, <<"*","a","(",")","{","}">>, <<"async","*","a","(",")","{","}">>,
        <<"a","(",")","{","}">>, <<"get","(",")","{","}">>, <<"static","a","(",")","{","}">>, <<"a",":","1">>, <<"a">>, <<"[","a","]",":","1">>, <<"...","a">>, W(","), W(";"), <<"'s'","(",")","{","}">>, <<"static","get","a","(",")","{","}">>,
        <<"async","[","k","]","(",")","{","}">>, <<"get","'s'","(",")","{","}">>, <<"set","1","(","v",")","{","}">>, <<"get">>, <<"async">>, <<"constructor","(",")","{","}">> >>, 4)

-----------------------------------------------------------------------------
(* C18 modules *)

C18a == Sl(<<Module(<<"import">>, <<>>)>>, Ws(<<"a","b","*","{","}",",","as","from","'s'","default",";","if","\n","=","let">>), 7)
C18b == Sl(<<Module(<<"export">>, <<>>)>>, Ws(<<"a","b","*","{","}",",","as","from","'s'","default",";","if","\n","var","=","let">>), 6)
C18c == Sl(<<Module(<<"export">>, <<>>), Module(<<"export","default">>, <<>>)>>,
     << W("function"), W("async"), W("class"), W("*"), W("a"), <<"(",")","{","}">>, <<"{","}">>, W("extends"), W("var"), W("let"), W("const"), W("="), W(","), W("1"), W(";"), W("=>"), W("\n"), W("(") , W(")"), W("default"), W("import") >>, 4)
C18d == \* placement
  Sl(<<Module(<<>>, <<>>), Script(<<>>, <<>>)>>,
     << <<"import","'s'",";">>, <<"import","a","from","'s'",";">>, <<"export","{","a","}",";">>, <<"export","default","a",";">>, <<"export","var","a",";">>, <<"export","*","from","'s'",";">>, <<"x",";">>, W("{"), W("}"), <<"if","(","a",")">>,
        <<"function","f","(",")","{">>, <<"l",":">>, <<"'use strict'",";">>, <<"export","function","f","(",")","{","}">>, <<"export","class","C","{","}">>, <<"export","default","class","{">> >>, 4)

-----------------------------------------------------------------------------
(* C19 chains *)

C19a == Sl(Plain, << W("a"), W("new"), <<".","b">>, <<".","if">>, <<"[","c","]">>, <<"(",")">>, <<"(","d",")">>, <<"`t`">>, <<"(","a",")">>, W("this"), <<"++">>, W("("), W(")"), W("["), W("]"), <<",","e">>, W("\n"), <<"`h${">>, <<"}e`">> >>, 5)
C19b == \* arguments
  Sl(<<Script(<<"f","(">>, <<")">>), Script(<<"new","f","(">>, <<")">>), Script(<<"a","[">>, <<"]">>), Script(<<"f","`h${">>, <<"}e`">>)>>,
     Ws(<<"a","b",",","...","=","=>","(",")","[","]","?",":","in",".">>), 5)
C19c == \* super and new.target where allowed
  Sl(<<Script(<<"class","A","extends","B","{","constructor","(",")","{">>, <<"}","}">>)>>,
     << W("super"), W("new"), W("."), <<"target">>, W("a"), W("("), W(")"), W("["), W("]"), <<"`t`">>, W(";"), W("=") >>, 5)
C19d == \* long chains
  Sl(<<Script(<<"a">>, <<>>), Script(<<"new","a">>, <<>>), Script(<<"new","new","a">>, <<>>), Script(<<"new","(","a",")">>, <<>>)>>,
     << <<".","b">>, <<"[","c",",","c","]">>, <<"(",")">>, <<"(","d",",","...","e",",",")">>, <<"`t`">>, <<"`h${","x","}m${","y","}e`">>, <<"=","1">> >>, 5)

-----------------------------------------------------------------------------
(* C22 context restoration *)

C22a == Sl(<<Script(<<>>, <<>>), Script(<<"function","q","(",")","{">>, <<"}">>), Script(<<"function","*","q","(",")","{">>, <<"}">>), Script(<<"async","function","q","(",")","{">>, <<"}">>),
             Script(<<"while","(","z",")","{">>, <<"}">>), Script(<<"switch","(","z",")","{","case","1",":">>, <<"}">>), Script(<<"class","Q","{","m","(",")","{">>, <<"}","}">>), Module(<<>>, <<>>),
             Script(<<"'use strict'",";">>, <<>>), Script(<<"async","function","*","q","(",")","{">>, <<"}">>), Script(<<"x","=","{","*","m","(",")","{">>, <<"}","}">>), Script(<<"x","=","{","async","m","(",")","{">>, <<"}","}">>), Script(<<"do","{">>, <<"}","while","(","z",")">>), Script(<<"for","(","z","of","y",")","{">>, <<"}">>), Script(<<"l",":","{">>, <<"}">>),
             Script(<<"z","=","(",")","=>","{">>, <<"}">>), Script(<<"if","(","z",")","{">>, <<"}">>)>>,
     Closed \o Probes, 2)
C22b == Sl(Plain, Closed, 3)

-----------------------------------------------------------------------------
(* C23 goals *)

C23a == Sl(<<Script(<<>>, <<>>), Module(<<>>, <<>>)>>,
     Ws(<<"a","await","yield","import","export","let","var","static","with","(",")","{","}",";","=","'s'","'use strict'","default","*","from","\n","eval","return">>), 4)
C23b == Sl(<<Script(<<>>, <<>>), Module(<<>>, <<>>)>>, StmtMacros \o << <<"await",";">>, <<"import","'s'",";">>, <<"export","default","1",";">>, <<"function","f","(",")","{","await","}">>, <<"x","=","(",")","=>","await",";">>, <<"return",";">> >>, 3)

-----------------------------------------------------------------------------
Slice ==
  CASE SliceName = "C02a" -> C02a [] SliceName = "C02b" -> C02b [] SliceName = "C02c" -> C02c [] SliceName = "C02d" -> C02d [] SliceName = "C02e" -> C02e
  [] SliceName = "C03a" -> C03a [] SliceName = "C03b" -> C03b [] SliceName = "C03c" -> C03c [] SliceName = "C03d" -> C03d [] SliceName = "C03e" -> C03e [] SliceName = "C03f" -> C03f [] SliceName = "C03g" -> C03g
  [] SliceName = "C04a" -> C04a [] SliceName = "C04b" -> C04b [] SliceName = "C04c" -> C04c [] SliceName = "C04d" -> C04d
  [] SliceName = "C05a" -> C05a [] SliceName = "C05b" -> C05b [] SliceName = "C05c" -> C05c [] SliceName = "C05d" -> C05d
  [] SliceName = "C06a" -> C06a [] SliceName = "C06b" -> C06b [] SliceName = "C06c" -> C06c
  [] SliceName = "C07a" -> C07a [] SliceName = "C07b" -> C07b [] SliceName = "C07c" -> C07c [] SliceName = "C07d" -> C07d [] SliceName = "C07e" -> C07e
  [] SliceName = "C14a" -> C14a [] SliceName = "C14b" -> C14b [] SliceName = "C14c" -> C14c
  [] SliceName = "C15a" -> C15a [] SliceName = "C15b" -> C15b [] SliceName = "C15c" -> C15c [] SliceName = "C15d" -> C15d
  [] SliceName = "C16a" -> C16a [] SliceName = "C16b" -> C16b [] SliceName = "C16c" -> C16c [] SliceName = "C16d" -> C16d
  [] SliceName = "C17a" -> C17a [] SliceName = "C17b" -> C17b [] SliceName = "C17c" -> C17c [] SliceName = "C17d" -> C17d
  [] SliceName = "C18a" -> C18a [] SliceName = "C18b" -> C18b [] SliceName = "C18c" -> C18c [] SliceName = "C18d" -> C18d
  [] SliceName = "C19a" -> C19a [] SliceName = "C19b" -> C19b [] SliceName = "C19c" -> C19c [] SliceName = "C19d" -> C19d
  [] SliceName = "C22a" -> C22a [] SliceName = "C22b" -> C22b
  [] SliceName = "C23a" -> C23a [] SliceName = "C23b" -> C23b
=============================================================================
