---------------------------- MODULE WalkLexSlices ---------------------------
(***************************************************************************)
(* Alphabets and contexts of the random walks at the character level.       *)
(***************************************************************************)
EXTENDS LexSlices

Walk(ctxs, letters, max) == [name |-> SliceName, sep |-> "", ctxs |-> ctxs, letters |-> letters, max |-> max]

Code == <<"a","b ","x=","(",")","[","]","{","}",",",";",":","=","=>","+","-","*","/","<","?","!",".","...","1","'s'","/r/","`","${","()","var ","let ","function f(){","if(a)","class A{","m(){","return ","new ","in ","async ","await ","yield ","get ","for(","this","typeof ","else ","while(b)","try{","}finally{","case b:","switch(a){","\n"," ">>

Outer == <<Script("", ""), Module("", ""), Script("function f(){", "}"), Script("async function f(){", "}"), Script("function*f(){", "}"), Script("x=", ";"), Script("({", "});"), Script("class A{", "}"), Script("`${", "}`"), Script("if(a)", ""), Script("(", ")=>a")>>

W01 == Walk(Outer, Lt(Code \o <<"@","#","\\","'","\"","/*","*/","//","u","\\u","0x","1e","0","9","`","$","<U+0000>","<U+00E9>","<U+2028>",CRc,"<U+1D7D8>","\\u{","import ","export ","from ","as ","static ","with(a)","do ","catch(e){","enum ","super","null","++","'use strict';","<U+D7FF>","<U+10FFFF>","<U+FFFE>">>), 30)

Seps == <<" ", TAB, VT, FF, NBSP, BOM, "\n", CRc, LSc, PSc, "/**/", "/*\n*/", "//c\n", "//c" \o CRc, "/* * / // */", "//*/\n", "/***/", "/*/*/", "  ", "\n\n", "<U+2003>", "<U+3000>", "<U+1680>"," /*a*/ /*b*/ ">>
NamedSeps == <<Ch("//c") \o Ch(LSc), Ch("//c") \o Ch(PSc), Ch("/*") \o Ch(LSc) \o Ch("*/"), Ch("/*") \o Ch(CRc) \o Ch("*/"), Ch("//c") \o Ch(CRc), Ch("/*") \o Ch(NBSP) \o Ch("*/"), Ch(CRc) \o Ch("\n"), Ch("/*c*/") \o Ch(CRc)>>
W08 == Walk(Outer, Lt(SubSeq(Seps, 1, 13)) \o NamedSeps \o Lt(SubSeq(Seps, 15, Len(Seps))) \o Lt(<<"a","b","++","--","return","throw ","break","continue","(",")","{","}",";","=","=>","async","function","f","var","let","if(a)","else","do","while(a)","/","/r/","*","+","-->","<!--","yield","`t`","[","]",",",".","..","1","'s'","get","x","of","in","\\u0061">>), 35)

StrIn == <<"a","'","\"","\\'","\\\"","\\n","\\r","\\t","\\b","\\v","\\f","\\0","\\\\","\\x41","\\x7f","\\xe9","\\u0041","\\u00e9","\\u2028","\\u{41}","\\u{1F600}","\\u{0}","\\u{00000061}","\\\n","\\","u","x","0","1","4","7","8","9","{","}","D83D","f","g","\n"," ","\\q","\\a","`","$","//","/*","<U+00E9>","<U+2028>","<U+1F600>","\\1","\\12","\\377","\\400","\\08","\\8">>
W09 == Walk(<<Script("x='", "';"), Script("x=\"", "\";"), Script("'use strict';x='", "';"), Script("f({'", "':1});"), Script("function f(){'", "'}"), Script("`${'", "'}`"), Module("import '", "';"), Script("x={'a", "'(){}}"), Script("class A{'", "'(){}}")>>,
  Lt(StrIn \o <<"\\" , ";x='", "'+'", "';y=\"">>) \o <<Ch("\\") \o Ch(CRc), Ch("\\") \o Ch(CRc) \o Ch("\n"), Ch("\\") \o Ch(LSc), Ch("\\") \o Ch(PSc), Ch("\\") \o Ch("<U+1F600>"), Ch("\\") \o Ch("<U+00E9>"), Ch(CRc)>>, 25)

W10 == Walk(<<Script("x=", ";"), Script("x=[", "];"), Script("f(", ");"), Script("'use strict';x=", ";"), Script("({", ":1});"), Script("a[", "];"), Script("-", ";"), Script("x=1", ";"), Script("x=0", ";"), Script("x=.", ";"), Script("x=0x", ";"), Script("x=5e", ";")>>,
  Lt(<<"0","1","2","3","4","5","6","7","8","9",".","e","E","+","-","0x","0X","0b","0B","0o","0O","a","f","F","_","n","00","10","99","123456789","e+","e-","E+1","e-5",".5","1.","0.","x","b","o"," ","+ ","*","/",",","()",".a","..b"," in ","(",")","$","e3","e300","e-300","000000","999999999","123123123123","ffffffff","0101010101","7777777">>), 14)

IdCh == <<"a","Z","$","_","9","0","\\u0061","\\u{62}","\\u0030","\\u{1d7d8}","\\u00e9","\\u{2F800}","\\u0301","<U+00E9>","<U+0301>","<U+1D7D8>","<U+2118>","<U+200D>","<U+200C>","<U+4E00>","<U+0660>","<U+203F>","\\u200d","i","f","n","e","w","in","do","\\u0069","\\u{6e}","var","let","of","get","async","\\u0074","t","r","u","l","s">>
W11 == Walk(<<Script("", ";"), Script("x.", ";"), Script("x=", ";"), Script("x={", ":1};"), Script("var ", ";"), Script("'use strict';", ";"), Module("", ";"), Script("function ", "(){}"), Script("class A{", "(){}}"), Script("({", "}=a);"), Module("export {", "};"), Script("function*g(){", "}"), Script("async function f(){", "}")>>,
  Lt(IdCh \o <<" ",".","+","(",")","=","{","}",",",";",":","!","<","<<","<=",">",">>",">>>",">>>=","=>","==","===","!=","!==","&","&&","|","||","^","~","?","++","--","**","**=","+=","...","[","]","*","%","-","/","'s'","1","\n">>), 20)

W12 == Walk(Outer \o <<Script("x=/", "/;"), Script("/", "/g;"), Script("a/", "/b;"), Script("return=>/", "/;")>>,
  Lt(Code \o <<"/","/","/=","/b/","/b/g","/=/","/[/]/","/\\//","/(/","/*c*/","//c\n","}/b/g","}/b",")/b/g",")/b","]/b","++/b/","++ /b","a/b","a /b/ ","1/2","'s'/b/","`t`/b","\\","[","]","}","{}","x={}","()=>{}","function(){}","class{}","throw ","do ","this ","null ","super","void ","delete ","instanceof ","++","--","g","i","b","of ","let ","with(a)","}`","${","l:","new.target","new.target ","a.if ","a.return","{return:","\\u0061 ","super.a","yield\n","x=y=>z","x=class{}","=>{}">>), 30)

W13 == Walk(<<Script("`", "`;"), Script("f`", "`;"), Script("x=`${a}", "`;"), Script("`${", "}`;"), Script("function f(){return`", "`}"), Script("x={a:`", "`}"), Script("async()=>`", "`"), Script("`${`${`", "`}`}`"), Script("class A{[`", "`](){}}")>>,
  Lt(<<"a","`","$","{","}","${","\\","}","\\n","\\0","\\x41","\\u0041","\\u{41}","\\`","\\$","\\${","$${","$$","{{","}}","'","\"","//","/*","/","\n","1","(",")","[","]",",",":","+","=>","x=","function(){","`t`","`${b}`","${c}","}`","`}","'}'","/}/","/*}*/","{d:","f",".g","()","?","\\8","\\1","\\u","\\x4","<U+00E9>","<U+1F600>","class{","m(){","async ","new ","in ","typeof "," ">>)
  \o <<Ch(CRc), Ch(LSc), Ch(CRc) \o Ch("\n"), Ch("\\") \o Ch(CRc), Ch("\\") \o Ch("\n"), Ch("\\") \o Ch(CRc) \o Ch("\n"), Ch("\\") \o Ch(PSc)>>, 30)

W21 == Walk(Outer, Lt(Code \o <<"\n","\n","/*\n*/","//c\n","'\\\n'","`\n","`\n${","}\n","import ","export ","from ","*","as ","default ","static ","set ","of ","do ","with(a)","catch(e){","break ","l:","throw ","@","'","0b2","1a","const ","a\n","b\n+","(\n",")\n","{\n",";\n">>) \o <<Ch(CRc), Ch(LSc), Ch(CRc) \o Ch("\n"), Ch("/*") \o Ch(CRc) \o Ch("*/"), Ch("//c") \o Ch(PSc)>>, 30)

-----------------------------------------------------------------------------
WalkSlice ==
  CASE SliceName = "W01" -> W01 [] SliceName = "W08" -> W08 [] SliceName = "W09" -> W09 [] SliceName = "W10" -> W10 [] SliceName = "W11" -> W11
  [] SliceName = "W12" -> W12 [] SliceName = "W13" -> W13 [] SliceName = "W21" -> W21
=============================================================================
