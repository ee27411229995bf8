------------------------------- MODULE Tokens -------------------------------
(***************************************************************************)
(* Tokens of the ECMAScript syntactic grammar, as records                   *)
(*   k   kind: "p" punctuator, "kw" reserved word, "id" identifier,         *)
(*       "ekw" reserved word spelt with an escape, "num", "str", "re",      *)
(*       "tfull" "thead" "tmid" "ttail" template pieces, "eof"              *)
(*   t   terminal: the text for punctuators, reserved words and unescaped   *)
(*       contextual words, otherwise the kind                               *)
(*   v   value: identifier name, string value, number, regex pattern, ...   *)
(*   w   second value: regex flags, raw text of a template piece            *)
(*   esc TRUE if the spelling contained an escape (or a line continuation)  *)
(*   nl  TRUE if a line terminator separates it from the previous token     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

ReservedWords == {
  "break","case","catch","class","const","continue","debugger","default",
  "delete","do","else","enum","export","extends","finally","for","function",
  "if","import","in","instanceof","new","return","super","switch","this",
  "throw","try","typeof","var","void","while","with","null","true","false"}

\* Words with a meaning in some contexts only; identifiers elsewhere.
ContextualWords == {
  "async","await","yield","let","static","get","set","of","from","as","target"}

StrictReserved == {
  "implements","interface","let","package","private","protected","public",
  "static","yield"}

Punctuators == {
  "{","}","(",")","[","]",".","...",";",",","<",">","<=",">=","==","!=","===",
  "!==","+","-","*","/","%","**","++","--","<<",">>",">>>","&","|","^","!","~",
  "&&","||","?",":","=","+=","-=","*=","/=","%=","**=","<<=",">>=",">>>=","&=",
  "|=","^=","=>"}

Token(k, t, v, w, esc, nl) ==
  [k |-> k, t |-> t, v |-> v, w |-> w, esc |-> esc, nl |-> nl]

IdToken(name, esc, nl) ==
  IF name \in ReservedWords
  THEN IF esc THEN Token("ekw", "ekw", name, "", TRUE, nl)
              ELSE Token("kw", name, name, "", FALSE, nl)
  ELSE Token("id", IF name \in ContextualWords /\ ~esc THEN name ELSE "id",
             name, "", esc, nl)

EofToken(nl) == Token("eof", "eof", "", "", FALSE, nl)

(***************************************************************************)
(* Token-level slices write programs as sequences of lexemes.  Lexemes that *)
(* are not words or punctuators are listed here with the token they denote. *)
(***************************************************************************)
Special ==
     "0" :> <<"num", "10:0", "">>
  @@ "1" :> <<"num", "10:1", "">>
  @@ "2" :> <<"num", "10:2", "">>
  @@ "'s'" :> <<"str", "s", "">>
  @@ "'b'" :> <<"str", "b", "">>
  @@ "'constructor'" :> <<"str", "constructor", "">>
  @@ "'use strict'" :> <<"str", "use strict", "">>
  @@ "'use\\x20strict'" :> <<"str", "use strict", "esc">>
  @@ "'use asm'" :> <<"str", "use asm", "">>
  @@ "/r/g" :> <<"re", "r", "g">>
  @@ "/=/" :> <<"re", "=", "">>
  @@ "`t`" :> <<"tfull", "t", "t">>
  @@ "`\n`" :> <<"tfull", "\n", "\n">>
  @@ "`h${" :> <<"thead", "h", "h">>
  @@ "}m${" :> <<"tmid", "m", "m">>
  @@ "}e`" :> <<"ttail", "e", "e">>

Lexeme(x, nl) ==
  IF x \in Punctuators THEN Token("p", x, x, "", FALSE, nl)
  ELSE IF x \in DOMAIN Special
       THEN LET sp == Special[x] IN
            IF sp[1] = "str" THEN Token("str", "str", sp[2], "", sp[3] = "esc", nl)
            ELSE Token(sp[1], sp[1], sp[2], sp[3], FALSE, nl)
       ELSE IdToken(x, FALSE, nl)
-----------------------------------------------------------------------------
(* Which names may be used and bound, given the context flags f (Grammar).  *)

NameOK(v, f) ==
  /\ v = "yield" => {"yield", "strict"} \cap f = {}
  /\ v = "await" => {"await", "mod"} \cap f = {}
  /\ "strict" \in f => v \notin StrictReserved

BindNameOK(v, f) ==
  /\ NameOK(v, f)
  /\ "strict" \in f => v \notin {"eval", "arguments"}
  /\ "lex" \in f => v # "let"
=============================================================================
