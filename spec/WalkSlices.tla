----------------------------- MODULE WalkSlices -----------------------------
(***************************************************************************)
(* Alphabets and contexts of the random walks.                              *)
(***************************************************************************)
EXTENDS Slices

Walk(ctxs, letters, max) == [name |-> SliceName, sep |-> " ", ctxs |-> ctxs, letters |-> letters, max |-> max]

\* What opens and closes functions.
FnOpen == << <<"function","f","(",")","{">>, <<"function","*","g","(",")","{">>, <<"async","function","h","(",")","{">>, <<"async","function","*","k","(",")","{">>,
   <<"x","=","function","(",")","{">>, <<"x","=","function","*","(",")","{">>, <<"x","=","async","function","(",")","{">>, <<"(","async","function","*","(",")","{">>,
   <<"x","=","(",")","=>","{">>, <<"x","=","y","=>","{">>, <<"x","=","async","(",")","=>","{">>, <<"x","=","async","y","=>","{">>,
   <<"x","=","{","m","(",")","{">>, <<"x","=","{","get","m","(",")","{">>, <<"x","=","{","set","m","(","v",")","{">>, <<"x","=","{","*","m","(",")","{">>,
   <<"x","=","{","async","m","(",")","{">>, <<"x","=","{","async","*","m","(",")","{">>,
   <<"class","C","{","m","(",")","{">>, <<"class","C","{","static","m","(",")","{">>, <<"class","C","extends","B","{","constructor","(",")","{">>,
   <<"x","=","class","{","*","m","(",")","{">>, <<"x","=","class","{","async","m","(",")","{">>, <<"class","C","{","get","m","(",")","{">> >>
Close == << W("}"), <<"}","}">>, W(")"), W(";"), <<"}",";">> >>
StmtOpen == << W("{"), <<"if","(","a",")","{">>, <<"if","(","a",")">>, W("else"), <<"else","{">>, <<"while","(","b",")","{">>, <<"while","(","b",")">>, <<"do","{">>, W("do"), <<"}","while","(","b",")",";">>, <<"while","(","b",")",";">>,
   <<"for","(",";",";",")","{">>, <<"for","(","var","i","in","o",")","{">>, <<"for","(","let","i","of","o",")">>, <<"for","(","a","=","1",";","a","<","2",";","a","++",")">>,
   <<"switch","(","a",")","{">>, <<"case","b",":">>, <<"default",":">>, <<"try","{">>, <<"}","catch","(","e",")","{">>, <<"}","catch","{">>, <<"}","finally","{">>,
   <<"l",":">>, <<"with","(","a",")">> >>
StmtLeaf == << <<"x",";">>, W(";"), <<"var","v","=","1",";">>, <<"let","w",";">>, <<"const","u","=","2",";">>, <<"throw","a",";">>, <<"debugger",";">>, <<"a","(",")",";">>, <<"function","f","(",")","{","}">>, <<"class","C","{","}">> >>
Jumps == << <<"return",";">>, <<"return","a",";">>, <<"break",";">>, <<"continue",";">> >>

\* Openers of contexts to start from, each closed again.
InFn(pre, post) == Script(pre, post)
Starts == <<Script(<<>>, <<>>), Module(<<>>, <<>>), Script(<<"function","f","(",")","{">>, <<"}">>), Script(<<"function","*","f","(",")","{">>, <<"}">>),
            Script(<<"async","function","f","(",")","{">>, <<"}">>), Script(<<"async","function","*","f","(",")","{">>, <<"}">>),
            Script(<<"'use strict'",";">>, <<>>), Script(<<"x","=","(",")","=>","{">>, <<"}">>), Script(<<"class","C","{","m","(",")","{">>, <<"}","}">>),
            Script(<<"while","(","a",")","{">>, <<"}">>), Script(<<"switch","(","a",")","{","case","b",":">>, <<"}">>)>>

W02 == Walk(<<Script(<<>>, <<>>), Script(<<"x","=">>, <<";">>), Script(<<"async","function","f","(",")","{">>, <<"}">>), Script(<<"function","*","f","(",")","{">>, <<"}">>),
              Script(<<"for","(">>, <<";",";",")",";">>), Script(<<"f","(">>, <<")">>), Script(<<"[">>, <<"]">>), Script(<<"if","(">>, <<")",";">>), Script(<<"`h${">>, <<"}e`">>),
              Script(<<"x","=","{","[">>, <<"]",":","1","}">>), Script(<<"class","C","extends","A","{","[">>, <<"]","(",")","{","}","}">>)>>,
  Ws(<<"a","b","1","'s'","/r/g","`t`","this","(",")","[","]","?",":",",","!","~","typeof","void","delete","++","--","await","yield","new","=>","\n",";">> \o BinaryOps \o AssignOps)
    \o << <<".","p">>, <<"(",")">>, <<"function","(",")","{","}">>, <<"{","}">>, <<"class","{","}">>, <<"+","b">>, <<"*","b">>, <<"?","b",":">>, <<"=","b">> >>, 30)

W03 == Walk(Starts, StmtOpen \o StmtLeaf \o Jumps \o Close
    \o Ws(<<"a","b","=",",","in","of","[","]","(","var","let","const","if","while","for","switch","try","catch","finally","throw","case",":","\n","else","function","class","+">>), 35)

W04 == Walk(Starts, FnOpen \o StmtOpen \o Jumps \o Close
    \o << <<"break","l",";">>, <<"continue","l",";">>, <<"continue","m",";">>, <<"m",":">>, <<"f","(","function","(",")","{">>, <<"}",")",";">>, <<"f","(","(",")","=>","{">>, <<"class","C","extends","function","(",")","{">>, <<"}","{","}">>,
          <<"(","function","(","a","=","function","(",")","{">>, <<"}",")","{">>, <<"x","=","{","[","function","(",")","{">>, <<"}","]",":","1","}",";">>, <<"`h${","function","(",")","{">>, <<"}","}e`",";">>, <<"x",";">> >>, 30)

NameForms(n) == << <<"var",n,";">>, <<"let","[",n,"]","=","b",";">>, <<"function",n,"(",")","{","}">>, <<"function","f","(",n,")","{">>, <<"function","f","(","...",n,")","{","}">>,
   <<"x","=","function",n,"(",")","{">>, <<"try","{","}","catch","(",n,")","{","}">>, <<n,"=>","1",";">>, <<"(","{",n,"}",")","=>","1",";">>, <<"async","(",n,")","=>","{">>,
   <<n,"=","1",";">>, <<n,"++",";">>, <<"[",n,"]","=","b",";">>, <<"(","{",n,"=","1","}","=","b",")",";">>, <<"for","(",n,"in","b",")">>, <<"class",n,"{","}">>, <<n,":">>, <<n,";">>, <<"b",".",n,";">>, <<"b","=","{",n,"}",";">>, <<"x","=","{","set","x","(",n,")","{">> >>

W05 == Walk(Starts, FnOpen \o << <<"'use strict'",";">>, <<"'use strict'">>, <<"'use asm'",";">>, W("\n"), <<"with","(","a",")">>, <<"'use\\x20strict'",";">>, <<"x",";">> >> \o Close
    \o <<<<"if","(","a",")","{">>, <<"while","(","b",")","{">>, <<"try","{">>, <<"}","finally","{">>, <<"f","(","function","(",")","{">>, <<"class","C","extends","(","function","(",")","{">>, <<"}",")","{","}">> >>
    \o NameForms("eval") \o NameForms("static") \o NameForms("a") \o Closed, 20)

W06 == Walk(Starts, FnOpen \o Close \o NameForms("yield") \o NameForms("await")
    \o << <<"yield","a",";">>, <<"await","a",";">>, <<"yield","*","a",";">>, <<"x","=","yield",";">>, <<"x","=","await","a","+","1",";">>, <<"f","(","yield",",","yield","a",")",";">>, <<"f","(","...","await","a",")",";">>, <<"yield","\n","a",";">>,
          <<"x","=","`h${","yield","}e`",";">>, <<"x","=","a","?","yield",":","yield",";">>, <<"for","(","yield",";",";",")">>, <<"for","(","await","a",";",";",")">>, <<"(","a","=","yield",")",";">>, <<"(","a","=","await","b",")",";">>,
          <<"(","a","=","await","b",")","=>","1",";">>, <<"(","a","=","yield","b",")","=>","1",";">>, <<"a","=>","yield",";">>, <<"a","=>","await","b",";">>, <<"async","a","=>","await","b",";">>, <<"async","(","a","=","await",")","=>","1",";">>, <<"x","=","{","[","yield","a","]",":","1","}",";">>, <<"function","*","g","(","a","=","yield",")","{">>, <<"x",";">> >>, 20)

W07 == Walk(Starts, Ws(<<"\n","a","b",";","{","}","(",")","++","--","+","-","[","]","=",",","/r/g","`t`","1","'s'","return","break","continue","throw","yield","async","function","=>","var","let","do","while","if","else","debugger","/",":","?",".","in","get","set","static">>)
    \o << <<"\n","(","a",")">>, <<"\n","++">>, <<"\n","a">>, <<"\n","[","a","]">>, <<"do","x",";","while","(","a",")">>, <<"if","(","a",")">>, <<"for","(",";",";",")">>, <<"x","=","function","(",")","{","}">>, <<"function","g","(",")","{","}">>, <<"class","C","{","}">>, <<"while","(","a",")">>, <<"}","\n">>, <<"async","\n","a">>, <<"yield","\n","a">>, <<"a","\n","=>">> >>, 35)

PatStarts == <<Script(<<"var">>, <<"=","z",";">>), Script(<<"let">>, <<"=","z",";">>), Script(<<"const">>, <<"=","z",";">>), Script(<<"function","f","(">>, <<")","{","}">>), Script(<<"try","{","}","catch","(">>, <<")","{","}">>),
   Script(<<"x","=","{","set","s","(">>, <<")","{","}","}",";">>), Script(<<"x","=","{","m","(">>, <<")","{","}","}",";">>), Script(<<"for","(","var">>, <<"of","z",")",";">>), Script(<<"for","(","let">>, <<"in","z",")",";">>),
   Script(<<"class","C","{","constructor","(">>, <<")","{","}","}">>), Script(<<"async","function","f","(">>, <<")","{","}">>), Script(<<"function","*","g","(">>, <<")","{","}">>), Script(<<"'use strict'",";","x","=","function","(">>, <<")","{","}",";">>), Module(<<"export","var">>, <<"=","z",";">>)>>
W14 == Walk(PatStarts, Ws(<<"a","b","[","]","{","}",",",":","=","...","1","'s'","if","get","async","await","yield","eval","let","this","(",")","=>",".","+","function","in","of">>)
    \o << <<"k",":">>, <<"a","=","1">>, <<"[","k","]",":">>, <<"a",",">>, <<"k",":","[">>, <<"k",":","{">>, <<"'s'",":">>, <<"1",":","a">>, <<",","...","r">>, <<"=","{","}">>, <<"=","[","]">>, <<"=","function","(",")","{","}">>, <<"=","(","a",",","b",")">>, <<",",",">> >>, 25)

CovStarts == <<Script(<<>>, <<>>), Script(<<"x","=">>, <<";">>), Script(<<"(">>, <<")",";">>), Script(<<"(">>, <<")","=>","z",";">>), Script(<<"async","(">>, <<")","=>","z",";">>), Script(<<"async","(">>, <<")",";">>), Script(<<"[">>, <<"]","=","z",";">>), Script(<<"(","{">>, <<"}","=","z",")",";">>),
   Script(<<"for","(">>, <<"of","z",")",";">>), Script(<<"for","(">>, <<"in","z",")",";">>), Script(<<"f","(">>, <<")",";">>), Script(<<"x","=","(">>, <<")","=>","{","}">>), Script(<<"'use strict'",";","(">>, <<")",";">>), Script(<<"async","function","f","(",")","{","(">>, <<")","}">>), Script(<<"function","*","f","(",")","{","(">>, <<")","}">>)>>
W15 == Walk(CovStarts, Ws(<<"a","b","(",")","[","]","{","}",",",":","=","=>","...","1","'s'","eval","async","await","yield","this","+","+=","++","-","!","?","function","new","in",".","`t`","\n","let","super","if">>)
    \o << <<".","p">>, <<"[","1","]">>, <<"(",")">>, <<"k",":">>, <<"a","=","1">>, <<"{","a","=","1","}">>, <<"[","a","]">>, <<"{","a","}">>, <<"=","z">>, <<"=>","z">>, <<"=>","{","}">>, <<"...","a">>, <<"...","[">>, <<"...","{">>, <<"k",":","{">>, <<"k",":","[">>, <<"[","k","]",":">>, <<"get","a","(",")","{","}">>, <<"m","(",")","{","}">>, <<"(","a",")">>, <<"(",")","=>">>, <<"async","a","=>">>, <<"new",".","target">> >>, 25)

W16 == Walk(<<Script(<<>>, <<>>), Script(<<"x","=">>, <<";">>), Script(<<"(">>, <<")",";">>), Module(<<"export","default">>, <<>>), Module(<<"export">>, <<>>), Script(<<"new">>, <<>>), Script(<<"a","?">>, <<":","z">>), Script(<<"if","(","a",")">>, <<>>), Script(<<"'use strict'",";">>, <<>>), Script(<<"f","(">>, <<")">>)>>,
   Ws(<<"function","async","*","f","g","(",")","{","}","a","b",",","=",";","=>","...","\n","return","[","]","1","+","?",":",".","await","yield","this","eval","'use strict'","var","x">>)
   \o << <<"(",")">>, <<"{","}">>, <<"(","a",",","b",")">>, <<"(","a","=","1",",","...","b",")">>, <<"(","{","a","}",")">>, <<"(",")","=>">>, <<"async","(",")","=>">>, <<"async","a","=>">>, <<"a","=>","{">>, <<"{","return","a","}">>, <<"(","a",",",")">>, <<"{","'use strict'","}">>, <<"function","(",")","{">>, <<"function","*","(",")","{">>, <<"async","function","(",")","{">>, <<"function","f","(",")","{">> >>, 30)

W17 == Walk(<<Script(<<"x","=","{">>, <<"}",";">>), Script(<<"class","C","{">>, <<"}">>), Script(<<"x","=","class","extends","B","{">>, <<"}",";">>), Module(<<"export","default","class","{">>, <<"}">>), Script(<<"(","{","a",",">>, <<"}",")",";">>), Script(<<"async","function","f","(",")","{","x","=","{">>, <<"}","}">>), Script(<<"function","*","f","(",")","{","class","C","{">>, <<"}","}">>), Script(<<"f","(","{">>, <<"}",")">>)>>,
   MemberLetters \o Ws(<<"await","yield","eval","{","}","(",")","[","]","b","class","extends","=>","+","this">>)
   \o << <<"get","a">>, <<"set","b","(","v",")","{","}">>, <<"async","a">>, <<"*","a">>, <<"async","*","a">>, <<"static","a">>, <<"a",":","1">>, <<"a",",">>, <<"[","a","]">>, <<"(","a",",","b","=","1",")","{">>, <<"(",")","{","return","a">>, <<"static","get","a">>, <<"static","async","*">>, <<"...","a",",">>, <<":","{">>, <<":","function","(",")","{">>, <<":","class","{">>, <<":","(",")","=>">>, <<"'constructor'","(",")","{","}">>, <<"static","constructor","(",")","{","}">>, <<"get","constructor">>, <<"static","prototype">> >>, 25)

W18 == Walk(<<Module(<<>>, <<>>), Module(<<"import">>, <<>>), Module(<<"export">>, <<>>), Module(<<"export","{">>, <<"}",";">>), Module(<<"import","{">>, <<"}","from","'s'",";">>), Module(<<"export","default">>, <<>>)>>,
   Ws(<<"import","export","a","b","*","{","}",",","as","from","'s'","default",";","if","\n","=","let","var","const","function","class","async","(",")","1","await","yield","eval","=>","+","extends","get","set","of">>)
   \o << <<"import","'s'",";">>, <<"import","a","from","'s'",";">>, <<"import","*","as","a","from","'s'",";">>, <<"export","*","from","'s'",";">>, <<"a","as">>, <<"as","b",",">>, <<"default","as">>, <<"as","default">>, <<"from","'s'",";">>, <<"}","from","'s'",";">>, <<"(",")","{","}">>, <<"export","default">>, <<"export","{">>, <<"import","{">>, <<"x",";">>, <<"{","}">> >>, 30)

W19 == Walk(<<Script(<<>>, <<>>), Script(<<"x","=">>, <<";">>), Script(<<"new">>, <<";">>), Script(<<"f","(">>, <<")",";">>), Script(<<"class","A","extends","B","{","constructor","(",")","{">>, <<"}","}">>), Script(<<"async","function","f","(",")","{">>, <<"}">>), Script(<<"`h${">>, <<"}e`">>), Script(<<"throw">>, <<>>)>>,
   << W("a"), W("new"), <<".","b">>, <<".","if">>, W("."), <<"[","c","]">>, <<"(",")">>, <<"(","d",")">>, W("`t`"), <<"(","a",")">>, W("this"), W("super"), <<"++">>, W("("), W(")"), W("["), W("]"), <<",","e">>, W("\n"), W("`h${"), W("}m${"), W("}e`"), W("..."), W(","), W("="), <<"=>","a">>, W("1"), W("'s'"), W("function"), <<"function","(",")","{","}">>, <<"class","{","}">>,
      <<"{","a","}">>, W("await"), W("import"), W("+"), W("!"), W("?"), W(":"), <<"new",".","target">>, <<"target">>, W("async"), W("/r/g"), <<"(","...","a",",",")">>, <<"new","a","(">>, <<"super",".","a">>, <<"super","(",")">>, <<"super","[","a","]">>, W(";") >>, 30)

Everything == Ws(<<"a","b","1","'s'","/r/g","`t`","`h${","}m${","}e`","this","(",")","[","]","{","}","?",":",",",";",".","...","!","typeof","delete","++","-","*","+","/","in","instanceof","<","&&","=","+=","=>","\n",
   "await","yield","async","let","static","get","set","of","from","as","eval","new","super","function","class","extends","var","const","if","else","while","do","for","switch","case","default","try","catch","finally","throw","return","break","continue","with","debugger","import","export","'use strict'","if","null","true","enum">>)
W22 == Walk(Starts, Closed \o Probes \o FnOpen \o Close \o Ws(<<"x","\n","'use strict'","do","else","catch","finally","`h${","}e`","case",":">>), 20)
W23 == Walk(<<Script(<<>>, <<>>), Module(<<>>, <<>>)>>, Everything \o << <<"import","'s'",";">>, <<"export","default">>, <<"x",";">>, <<"a","=>">>, <<"function","f","(",")","{">>, <<"async","function","f","(",")","{">>, <<"class","C","{">>, <<"if","(","a",")">>, <<"(",")","{">>, <<"for","(","var">>, <<"x","=","{">> >>, 35)

-----------------------------------------------------------------------------
WalkSlice ==
  CASE SliceName = "W02" -> W02 [] SliceName = "W03" -> W03 [] SliceName = "W04" -> W04 [] SliceName = "W05" -> W05 [] SliceName = "W06" -> W06
  [] SliceName = "W07" -> W07 [] SliceName = "W14" -> W14 [] SliceName = "W15" -> W15 [] SliceName = "W16" -> W16 [] SliceName = "W17" -> W17
  [] SliceName = "W18" -> W18 [] SliceName = "W19" -> W19 [] SliceName = "W22" -> W22 [] SliceName = "W23" -> W23
=============================================================================
