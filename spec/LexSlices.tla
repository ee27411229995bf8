------------------------------ MODULE LexSlices -----------------------------
(***************************************************************************)
(* Slices of the character machine.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Unicode
CONSTANTS SliceName, Extra

\* The characters of a text; a named character stands for itself.
Named(s) == Len(s) > 3 /\ SubSeq(s, 1, 1) = "<" /\ SubSeq(s, Len(s), Len(s)) = ">"
Ch(s) == IF Named(s) THEN <<s>> ELSE [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Lt(q) == [i \in DOMAIN q |-> Ch(q[i])]
In_(goal, pre, post) == [goal |-> goal, pre |-> Ch(pre), post |-> Ch(post)]
Script(pre, post) == In_("script", pre, post)
Module(pre, post) == In_("module", pre, post)
SlU(ctxs, letters, max, uni) == [name |-> SliceName, sep |-> "", ctxs |-> ctxs, letters |-> letters, max |-> max + Extra, uni |-> uni]
Sl(ctxs, letters, max) == SlU(ctxs, letters, max, <<>>)
Uni == << [n |-> "<IDS>", r |-> IDSRanges], [n |-> "<IDC>", r |-> IDCRanges], [n |-> "<ZS>", r |-> ZSRanges], [n |-> "<OTH>", r |-> OTHRanges] >>

RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Map(Op1(_), q) == [i \in DOMAIN q |-> Op1(q[i])]

TAB == "<U+0009>"  VT == "<U+000B>"  FF == "<U+000C>"  NBSP == "<U+00A0>"  BOM == "<U+FEFF>"
CRc == "<U+000D>"  LSc == "<U+2028>" PSc == "<U+2029>"

-----------------------------------------------------------------------------
(* C01 totality: raw characters and fragments *)
C01a == Sl(<<Script("", ""), Module("", "")>>,
  Lt(<<"a","0","'","`","${","}","{","(",")","[","]","/","*","\\","\n","=",">",".",",",";",":","-","u","#","@"," ">>), 4)
C01b == Sl(<<Script("x=", ""), Script("{", ""), Script("x={", ""), Script("class A{", ""), Script("(", ""), Script("f(", ""), Script("for(", ""),
             Script("`${", ""), Script("[", ""), Script("function f(", ""), Module("import ", ""), Module("export ", ""), Script("async ", ""), Script("let ", "")>>,
  Lt(<<"a","1","'b'","`t`","}","{","(",")","[","]","/","...","=>","=",",",";",":","*","${","`">>), 3)

-----------------------------------------------------------------------------
(* C08 white space, comments, line terminators *)
SepCtxs == <<Script("a", "b;"), Script("a", "++b;"), Script("x", "=>y"), Script("'s'", "+1;"), Script("function f(){return", "a}"), Script("a=1", "/2;"), Script("async", "x=>x;"),
             Script("", "a;"), Script("a", ""), Script("throw", "a;"), Script("let", "b;"), Script("`h${", "a}e`;"), Module("export", "default a;"), Script("if(a)b;", "else c;"),
             Script("a", "=/r/;"), Script("do x;while(a)", "b")>>
C08a == Sl(SubSeq(SepCtxs, 1, 7), Lt(<<" ", TAB, "\n", CRc, LSc, "/*", "*/", "//", "*", "/", "c">>), 4)
C08b == SlU(SepCtxs, Lt(<<" ", TAB, VT, FF, "<ZS>", "\n", CRc, LSc, PSc, "/**/", "/*\n*/", "//c", "<OTH>">>), 1, Uni)
C08c == Sl(SepCtxs, Lt(<<" ", TAB, VT, FF, NBSP, BOM, "\n", CRc, LSc, PSc, "/**/", "/*", "*/", "//", "<U+180E>", "<U+200B>", "<U+0085>">>), 2)
C08d == Sl(<<Script("a/*", "*/b"), Script("a//", "b"), Script("/*", "*/++b"), Script("a", "/**/b;")>>, Lt(<<"*", "/", "\n", CRc, LSc, PSc, "c", "'", "`", "\\", NBSP>>), 4)

-----------------------------------------------------------------------------
(* C09 strings *)
StrCtxs == <<Script("x='", "';"), Script("x=\"", "\";")>>
C09a == Sl(StrCtxs, Lt(<<"\\","n","x","u","0","1","4","7","8","{","}","D","'","\"","\n",CRc,LSc>>), 4)
C09b == Sl(<<Script("x='", "';")>>, Lt(<<"\\x","\\u","\\u{","}","0","4","1","F","g","D83D","DE00","00","\\","110000">>), 4)
C09c == Sl(<<Script("x='\\u", "';")>>, Lt(<<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>), 4)
C09d == Sl(<<Script("x='\\x", "';"), Script("x='\\u{", "}';"), Script("x='\\u{1", "}';"), Script("x='\\u004", "';")>>, Lt(<<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f","A","B","C","D","E","F","g","G","'","}">>), 2)
C09e == Sl(<<Script("x='\\", "';"), Script("x='a\\", "b';")>>, Lt(<<"0","1","2","3","4","5","6","7","8","9">>), 4)
C09f == \* every character, plain and after a backslash
  SlU(<<Script("x='", "';"), Script("x=\"\\", "\";"), Script("'use strict';x='a\\", "b';")>>, Lt(<<"<IDS>","<IDC>","<ZS>","<OTH>"," ","!","#","$","%","&","(",")","*","+",",","-",".","/",":",";","<","=",">","?","@","A","B","C","E","G","U","X","N","[","]","^","_","`",
     "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z","{","|","}","~",TAB,VT,FF,"<U+0000>","<U+007F>","<U+0001>">>), 1, Uni)
C09g == \* line continuations
  Sl(StrCtxs, Lt(<<"\\\n","\\","\n",CRc,LSc,PSc,"a","'">>), 5)

-----------------------------------------------------------------------------
(* C10 numbers *)
C10a == Sl(<<Script("x=", ";")>>, Lt(<<"0","1","7","8",".","e","E","+","-","x","b","o","_","n","a">>), 5)
C10b == Sl(<<Script("x=", ";"), Script("x=[", "]"), Script("a.", ";"), Script("a ", ";")>>,
  Lt(<<"0x","0X","0b","0B","0o","0O","0","1","2","7","8","9","a","f","F","g","E","_",".","$","\\u0061">>), 4)
C10c == \* hard to round, very large, very small
  Sl(<<Script("x=", ";")>>, Lt(<<"9007199254740993","4503599627370497.5","179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880","17976931348623158","e292","e293","e-340","e-324","5","2.4703282292062327","2.4703282292062328","e-308","2.2250738585072011",
     "e22","e23","0.1","0.30000000000000004","8.5","123456789012345678901234567890","0x20000000000001","0x20000000000003","0xfffffffffffffbff","0xfffffffffffffc00","0b100000000000000000000000000000000000000000000000000001","0b11111111111111111111111111111111111111111111111111111111111111111","0o400000000000000001","0o777777777777777777777777","0777777777777777777777","0400000000000000001","089.5","00","0","1",".","e400","e-400","e+21","e0">>), 2)
C10d == Sl(<<Script("x=", ";"), Script("x=-", "+1;")>>, Lt(<<"0","1","2","3","4","5","6","7","8","9",".","e">>), 4)
C10e == \* what may follow a number
  Sl(<<Script("1", ";"), Script("1.", ";"), Script("01", ";"), Script("08", ";"), Script("0x1", ";"), Script(".5", ";"), Script("1e3", ";"), Script("0", ";")>>,
     Lt(<<".","a","[0]","()"," ","in","in b","+","-","/","1","e","\n","\\","'","`t`",";","$","<U+00E9>","<U+2118>","_">>), 3)

-----------------------------------------------------------------------------
(* C11 identifiers, keywords, punctuators *)
C11a == Sl(<<Module("a", "b;"), Module("a", "1;"), Module("(a", ")")>>,
  Lt(<<"+","-","*","/","%","<",">","=","!","&","|","^","~","?",":",".",",",";","(",")","{","}","[","]"," ">>), 4)
C11b == SlU(<<Script("", ";"), Script("x.", ";"), Script("x=a", ";"), Script("x={", ":1};")>>,
  Lt(<<"<IDS>","<IDC>","<OTH>","<ZS>">>), 2, Uni)
C11c == Sl(<<Script("", ";"), Script("x=a", ";"), Script("a.", ";")>>,
  Lt(<<"a","Z","$","_","9","\\u0061","\\u{62}","\\u0030","\\u","\\","{","}","6","1","u","<U+00E9>","<U+0301>","\\u00e9","\\u{10FFFF}","\\u{2F800}","\\u0301"," ","-","@","#","<U+1D7D8>","<U+2118>","<U+200D>","\\u200c">>), 3)

Words == <<"break","case","catch","class","const","continue","debugger","default","delete","do","else","enum","export","extends","finally","for","function",
  "if","import","in","instanceof","new","return","super","switch","this","throw","try","typeof","var","void","while","with","null","true","false",
  "async","await","yield","let","static","get","set","of","from","as","target","implements","interface","package","private","protected","public","eval","arguments","constructor","undefined","NaN","prototype",
  "dos","i","Function","instanceo","newx","this1","nul","tru","falsee","typeo","voi","_var","$if","enums","awai","yields">>
Hex2 == "a" :> "61" @@ "b" :> "62" @@ "c" :> "63" @@ "d" :> "64" @@ "e" :> "65" @@ "f" :> "66" @@ "g" :> "67" @@ "i" :> "69" @@ "l" :> "6c" @@ "n" :> "6e" @@ "o" :> "6f" @@ "p" :> "70" @@ "r" :> "72"
     @@ "s" :> "73" @@ "t" :> "74" @@ "u" :> "75" @@ "v" :> "76" @@ "w" :> "77" @@ "y" :> "79" @@ "F" :> "46" @@ "N" :> "4e" @@ "_" :> "5f" @@ "$" :> "24"
Esc1(w) == "\\u00" \o Hex2[SubSeq(w, 1, 1)] \o SubSeq(w, 2, Len(w))
EscN(w) == IF SubSeq(w, Len(w), Len(w)) \in DOMAIN Hex2 THEN SubSeq(w, 1, Len(w) - 1) \o "\\u{" \o Hex2[SubSeq(w, Len(w), Len(w))] \o "}" ELSE w
WordForms(w) == Lt(<<w \o ";", "var " \o w \o ";", "a." \o w \o ";", "x={" \o w \o ":1};", "x={" \o w \o "};", "x={" \o w \o "(){}};", "x={get " \o w \o "(){}};", "class A{" \o w \o "(){}}", "class A{static " \o w \o "(){}}",
   w \o ":;", "function " \o w \o "(){}", "(" \o w \o ")=>1;", "x=" \o w \o "=>1;", "let " \o w \o ";", "class " \o w \o "{}", "{" \o w \o "}", "({" \o w \o "}=1);", "var {" \o w \o ":a}=1;", "var {" \o w \o "}=1;", "a(" \o w \o ");", "break " \o w \o ";",
   w \o "=1;", w \o " a;", w \o "(a){}", w \o " function f(){}", "a " \o w \o " b;", "for(x " \o w \o " y);", "x={" \o w \o " a(){}};", "class A{" \o w \o " a(){}}", "try{}catch(" \o w \o "){}", "new.", "new." \o w \o ";", "function f(){new." \o w \o "}">>)
AllForms == Cat(Map(WordForms, Words)) \o Cat(Map(LAMBDA w : WordForms(Esc1(w)), Words)) \o Cat(Map(LAMBDA w : WordForms(EscN(w)), Words))
C11d == Sl(<<Script("", ""), Script("'use strict';", ""), Module("", ""), Script("function*g(){", "}"), Script("async function g(){", "}")>>, AllForms, 1)
ModForms(w) == Lt(<<"import " \o w \o " from 's';", "import {" \o w \o "} from 's';", "import {" \o w \o " as b} from 's';", "import {b as " \o w \o "} from 's';", "import * as " \o w \o " from 's';",
   "export {" \o w \o "};", "export {" \o w \o "} from 's';", "export {b as " \o w \o "};", "export {" \o w \o " as b};", "export {" \o w \o " as b} from 's';", "export default " \o w \o ";", "export var " \o w \o ";",
   "import {b " \o w \o " c} from 's';", "import {b} " \o w \o " 's';", "import * " \o w \o " b from 's';", "export * " \o w \o " 's';", "export " \o w \o " a;", "export " \o w \o " function f(){}">>)
C11e == Sl(<<Module("", "")>>, Cat(Map(ModForms, Words)) \o Cat(Map(LAMBDA w : ModForms(Esc1(w)), Words)), 1)

-----------------------------------------------------------------------------
(* C12 slash *)
C12a == Sl(<<Script("", ";")>>,
  Lt(<<"a ","(",")","{","}","[","]","/r/","/","/=","=","x=","++","\n","return ","if(a)","`t`","`h${","}e`","this ","typeof ",";",":","?","1 ","'s'",",","/=/g","!">>), 4)
C12b == Sl(<<Script("", "/b/c;"), Script("", "/=/c;"), Script("", "/b;"), Script("", "/[/]/;"), Script("", "/*c*/b;"), Script("function f(){", "/b/c}"), Script("function*f(){", "/b/c}"), Script("async function f(){", "/b/c}")>>,
  Lt(<<"a ","(a)","{}","[a]","if(a)","x={}","x=function(){}","function f(){}","class A{}","x=class{}","x=()=>{}","x=y=>z","return ","throw ","do ","else ","while(a)","for(;;)","`t`","`${a}`","++","a++","this ","super ","null ","true ",
       "typeof ","void ","delete ","new ","new a","in ","a in ","instanceof ","yield ","await ","async ","case ","switch(a){case ","}",";","\n",",","?",":","a?","a?b:","&&","a&&","=>","...","f(","l:","1","'s'","/r/","/r/g","a.b","a.if ","let ","var x=","with(a)","get ","static ","of ","x={a:","x={get ","debugger ","try{}finally{}","do;while(a)","x={a(){}}","new.target","\\u0061","a.return ","a.yield ","x={if:","{return:","import ","export default ","export default {}","export default function(){}","class A extends ","static","!","~","-","a=","+=","**">>), 2)
C12c == Sl(<<Script("x=/", "/g;"), Script("x=/", ";"), Script("x=/=", "/;")>>, Lt(<<"a","/","[","]","\\","(","*","\n",LSc,"=","g","i","<U+00E9>">>), 5)
C12d == SlU(<<Script("x=/", "/;"), Script("x=/\\", "/;"), Script("x=/[", "]/;"), Script("x=/a/", ";")>>, Lt(<<"<IDS>","<IDC>","<ZS>","<OTH>","\n",CRc,LSc,PSc,TAB,"'","`","{","}","$","\"","\\","g","gi","gimsuy","0">>), 1, Uni)
C12e == \* slashes in and after templates, objects, functions in each position
  Sl(<<Script("x=", ";"), Script("f(", ");"), Script("[", "];"), Script("`${", "}`;"), Script("if(a)", ";"), Script("x=>", ";")>>,
  Lt(<<"{","}","a","(",")","/","b/","function(){","`","${","class{","a(){","[","]",":",",",".","++","\n">>), 4)

-----------------------------------------------------------------------------
(* C13 templates *)
C13a == Sl(<<Script("`", "`;"), Script("f`", "`;"), Script("`${a}", "`;")>>,
  Lt(<<"a","`","$","{","}","${","\\","u","x41","0","1","\n",CRc,"'","n">>), 4)
C13b == Sl(<<Script("`${", "}`;"), Script("x=`a${", "}b`;"), Script("f`${", "}`;"), Script("`${`${", "}`}`")>>,
  Lt(<<"a","`","${","}","{","+","(",")",":",",","x","'}'","/*}*/","/}/","\n","=>","function(){","`t`",".">>), 4)
C13c == Sl(<<Script("`", "`;"), Script("x=`a", "b`;")>>, Lt(<<"\\x","\\u","\\u{","}","0","4","1","D83D","DE00","g","\\","\\0","\\n","\\`","\\$","{">>), 4)
C13d == SlU(<<Script("`", "`;"), Script("`\\", "`;"), Script("`${a}", "${b}`;"), Script("`$", "`;")>>, Lt(<<"<IDS>","<IDC>","<ZS>","<OTH>","\n",CRc,LSc,PSc,TAB,"'","\"","/","b","f","v","n","r","t","a","8","9","z","`","{","}","$","0","!">>), 1, Uni)
C13e == Sl(<<Script("`", "`;"), Script("x=`${a}", "${b}`;")>>, Lt(<<"\n",CRc,LSc,PSc,"\\","a","$">>), 5)
C13f == \* long templates
  Sl(<<Script("`", "`"), Script("f`", "`"), Script("function g(){return`", "`}")>>, Lt(<<"a","${b}","${`c`}","${{d:e}}","${f`g${h}i`}","\\n","$","${(j)}","${'`'}","{","}","${function(){}}","\n","${k,l}","${m=>{}}">>), 4)

-----------------------------------------------------------------------------
(* C21 lines of offending tokens *)
C21a == Sl(<<Script("", ""), Script("function f(){\n", ""), Script("x={\n", ""), Script("/*\n*/a(\n", ""), Script("`\n${\n", "")>>,
  Lt(<<"a ","\n","(",")","{","}","=","+",";","if","var ","'s'","`\n`","/*\n*/","//c\n","1 ",",","else ","[","]",":","=>">>), 4)
C21b == Sl(<<Script("", "")>>, Lt(<<"a ","\n","<U+000D>","\n<U+000D>","<U+2028>","<U+2029>","/*","*/","//","*","'\\\n'","'\\<U+000D>\n'","`<U+000D>\n","${","}","`","1 ","@","(">>), 4)
C21c == Sl(<<Module("", ""), Script("class A{\n", ""), Script("for(\n", ""), Script("switch(a){\n", ""), Script("try{}\n", ""), Script("async \n", ""), Script("let\n", "")>>,
  Lt(<<"import ","export ","a ","\n","{","}","from ","'s'",";","default ","*","as ","(",")","get ","static ","case ","catch",",","=","of ","in ","1 ","/r/","`t`">>), 3)

-----------------------------------------------------------------------------
Slice ==
  CASE SliceName = "C01a" -> C01a [] SliceName = "C01b" -> C01b
  [] SliceName = "C08a" -> C08a [] SliceName = "C08b" -> C08b [] SliceName = "C08c" -> C08c [] SliceName = "C08d" -> C08d
  [] SliceName = "C09a" -> C09a [] SliceName = "C09b" -> C09b [] SliceName = "C09c" -> C09c [] SliceName = "C09d" -> C09d [] SliceName = "C09e" -> C09e [] SliceName = "C09f" -> C09f [] SliceName = "C09g" -> C09g
  [] SliceName = "C10a" -> C10a [] SliceName = "C10b" -> C10b [] SliceName = "C10c" -> C10c [] SliceName = "C10d" -> C10d [] SliceName = "C10e" -> C10e
  [] SliceName = "C11a" -> C11a [] SliceName = "C11b" -> C11b [] SliceName = "C11c" -> C11c [] SliceName = "C11d" -> C11d [] SliceName = "C11e" -> C11e
  [] SliceName = "C12a" -> C12a [] SliceName = "C12b" -> C12b [] SliceName = "C12c" -> C12c [] SliceName = "C12d" -> C12d [] SliceName = "C12e" -> C12e
  [] SliceName = "C13a" -> C13a [] SliceName = "C13b" -> C13b [] SliceName = "C13c" -> C13c [] SliceName = "C13d" -> C13d [] SliceName = "C13e" -> C13e [] SliceName = "C13f" -> C13f
  [] SliceName = "C21a" -> C21a [] SliceName = "C21b" -> C21b [] SliceName = "C21c" -> C21c
=============================================================================
