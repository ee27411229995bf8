--------------------------------- MODULE Lex --------------------------------
(***************************************************************************)
(* The lexical grammar as a character machine in front of the parser        *)
(* machine.  Which of the lexical goals applies (division or regular        *)
(* expression, template continuation or closing brace) is decided by what   *)
(* the parser configuration can shift, not by looking at previous tokens.   *)
(*                                                                          *)
(* A character is a one-character string, or a named one: "<U+000D>" a code *)
(* point in hexadecimal, "<#13>" in decimal, and "<IDS>", "<IDC>", "<ZS>",  *)
(* "<OTH>" any non-ASCII character of that class (Unicode.tla).             *)
(*                                                                          *)
(*   c    parser configuration          m    lexer mode                     *)
(*   b    text of the token so far      w    raw text (templates), flags    *)
(*   q    quote, or radix               d, n digits and value of an escape  *)
(*   esc  an escape was used            nl   line break before the token    *)
(*   ln   line of the next character    at   line where the token starts    *)
(*   un   unspecified from here on (outside the scope of the properties)    *)
(*   er   lines of the offending token, once the configuration is dead      *)
(*   tk   the tokens so far, if log is TRUE                                 *)
(***************************************************************************)
EXTENDS Machine, Unicode

LF == "\n"   CR == "<U+000D>"   LS == "<U+2028>"   PS == "<U+2029>"
LineTerminators == {LF, CR, LS, PS}
WhiteSpace == {" ", "<U+0009>", "<U+000B>", "<U+000C>", "<ZS>", "<U+00A0>", "<U+FEFF>"}
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
DigitVal == "0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4 @@ "5" :> 5 @@ "6" :> 6 @@ "7" :> 7
         @@ "8" :> 8 @@ "9" :> 9 @@ "a" :> 10 @@ "b" :> 11 @@ "c" :> 12 @@ "d" :> 13 @@ "e" :> 14 @@ "f" :> 15
         @@ "A" :> 10 @@ "B" :> 11 @@ "C" :> 12 @@ "D" :> 13 @@ "E" :> 14 @@ "F" :> 15
Digits == {"0","1","2","3","4","5","6","7","8","9"}
HexDigits == DOMAIN DigitVal
IsDigit(ch, radix) == ch \in HexDigits /\ DigitVal[ch] < radix
InRanges(n, q) == \E i \in DOMAIN q : q[i][1] <= n /\ n <= q[i][2]
\* The code point of a character named <U+hex>; 0 for others.
RECURSIVE HexValue(_)
HexValue(s) == IF s = "" THEN 0 ELSE 16 * HexValue(SubSeq(s, 1, Len(s) - 1)) + DigitVal[SubSeq(s, Len(s), Len(s))]
NamedCp(ch) == IF Len(ch) > 4 /\ SubSeq(ch, 1, 3) = "<U+" THEN HexValue(SubSeq(ch, 4, Len(ch) - 1)) ELSE 0
IdStart(ch) ==
  \/ ch \in Lower \/ ch \in Upper \/ ch \in {"$", "_", "<IDS>"}
  \/ Len(ch) > 4 /\ NamedCp(ch) > 127 /\ InRanges(NamedCp(ch), IDSRanges)
IdPart(ch) ==
  \/ IdStart(ch) \/ ch \in Digits \/ ch \in {"<IDC>", "<U+200C>", "<U+200D>"}
  \/ Len(ch) > 4 /\ NamedCp(ch) > 127 /\ InRanges(NamedCp(ch), IDCRanges)
IsWhite(ch) == ch \in WhiteSpace \/ (Len(ch) > 4 /\ InRanges(NamedCp(ch), ZSRanges))

Ascii == <<" ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/","0","1","2","3","4","5","6","7","8","9",":",";","<","=",">","?",
  "@","A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","[","\\","]","^","_","`",
  "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z","{","|","}","~">>
CharOf(n) == IF n = 10 THEN LF ELSE IF n >= 32 /\ n <= 126 THEN Ascii[n - 31] ELSE "<#" \o ToString(n) \o ">"
CpIdStart(n) == IF n < 128 THEN n >= 32 /\ n <= 126 /\ IdStart(CharOf(n)) ELSE InRanges(n, IDSRanges)
CpIdPart(n) == IF n < 128 THEN n >= 32 /\ n <= 126 /\ IdPart(CharOf(n)) ELSE InRanges(n, IDSRanges) \/ InRanges(n, IDCRanges)
HighSur(n) == n >= 55296 /\ n <= 56319
LowSur(n)  == n >= 56320 /\ n <= 57343

PunctStart == {"{","}","(",")","[","]",".",";",",","<",">","=","!","+","-","*","%","&","|","^","~","?",":"}

-----------------------------------------------------------------------------
Lexer(goal) ==
  [c |-> Start(goal), m |-> "start", b |-> "", w |-> "", q |-> "", d |-> 0, n |-> 0, hi |-> 0,
   esc |-> FALSE, nl |-> FALSE, ln |-> 1, at |-> 1, un |-> FALSE, er |-> <<0, 0>>,
   log |-> FALSE, tk |-> <<>>]

LOk(L) == L.c.ok

\* {a = e} has been read and may still become a pattern.
CoverPending(c) == \E i \in DOMAIN c.vals : ContainsAll(c.vals[i], {"CoverInit"})
\* (if so, the error may be that it does not become one)
DeadLines(L, lines) == [L EXCEPT !.c = Dead, !.er = IF CoverPending(L.c) THEN <<0, 0>> ELSE lines]
DeadAt(L) == DeadLines(L, <<L.at, L.ln>>)
\* A malformed token, noticed at character ch.
LexDead(L, ch) == DeadLines(L, <<L.at, IF ch \in LineTerminators THEN L.ln + 1 ELSE L.ln>>)
\* No line is specified for the error.
DeadAnywhere(L) == [L EXCEPT !.c = Dead, !.er = <<0, 0>>]
Unspec(L) == [L EXCEPT !.un = TRUE, !.m = "unspec"]

\* Hand a token to the parser.
Give(L, tok) ==
  LET c2 == Feed(L.c, tok) IN
  IF ~c2.ok THEN IF c2.stk = <<>> THEN DeadAt(L) ELSE DeadAnywhere(L)
  ELSE [L EXCEPT !.c = c2, !.m = "start", !.b = "", !.w = "", !.q = "", !.d = 0, !.n = 0, !.hi = 0, !.esc = FALSE, !.nl = FALSE, !.at = L.ln,
                  !.tk = IF L.log THEN Append(@, tok) ELSE @]

GivePunct(L, text) == Give(L, Token("p", text, text, "", FALSE, L.nl))
GiveTpl(L, closed) ==
  LET k == IF L.q = "`" THEN (IF closed THEN "tfull" ELSE "thead") ELSE (IF closed THEN "ttail" ELSE "tmid") IN
  Give(L, Token(k, k, L.b, L.w, FALSE, L.nl))

DivOK(L) == Feed(L.c, Token("p", "/", "/", "", FALSE, L.nl)).ok

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
\* Which flags exist (and that none is repeated) is out of scope.
ValidFlags(w) == LET q == Chars(w) IN /\ \A i \in DOMAIN q : q[i] \in {"g","i","m","s","u","y"}
                                      /\ \A i, j \in DOMAIN q : q[i] = q[j] => i = j

RECURSIVE BeginTok(_, _), LexChar(_, _), EndTok(_)

\* A line terminator outside tokens (CR followed by LF counts once: mode "cr").
Newline(L, ch) == [L EXCEPT !.m = IF ch = CR THEN "cr" ELSE "start", !.nl = TRUE, !.ln = @ + 1, !.at = L.ln + 1]
\* A line terminator inside a token.
Line(L, ch) == IF ch \in LineTerminators THEN [L EXCEPT !.ln = @ + 1] ELSE L

\* The first character of a token.
BeginTok(L0, ch) ==
  LET L == [L0 EXCEPT !.at = L0.ln, !.m = "start"] IN
  IF ~L.c.ok THEN L
  ELSE IF L0.un THEN L0
  ELSE IF IsWhite(ch) THEN L
  ELSE IF ch \in LineTerminators THEN Newline(L, ch)
  ELSE IF ch = "/" THEN [L EXCEPT !.m = "slash"]
  ELSE IF ch \in {"'", "\""} THEN [L EXCEPT !.m = "str", !.q = ch]
  ELSE IF ch = "`" THEN [L EXCEPT !.m = "tpl", !.q = ch]
  ELSE IF ch = "}" /\ ~Feed(L.c, Token("p", "}", "}", "", FALSE, L.nl)).ok
  THEN IF Feed(L.c, Token("ttail", "ttail", "", "", FALSE, FALSE)).ok
       THEN [L EXCEPT !.m = "tpl", !.q = ch] ELSE DeadAnywhere(L)
  ELSE IF IdStart(ch) THEN [L EXCEPT !.m = "id", !.b = ch]
  ELSE IF ch = "\\" THEN [L EXCEPT !.m = "iu", !.esc = TRUE]
  ELSE IF ch = "0" THEN [L EXCEPT !.m = "zero", !.b = "0"]
  ELSE IF ch \in Digits THEN [L EXCEPT !.m = "int", !.b = ch]
  ELSE IF ch \in PunctStart THEN [L EXCEPT !.m = "punct", !.b = ch]
  ELSE DeadAt(L)

Number(L, radix, text) == Give(L, Token("num", "num", radix \o ":" \o text, "", FALSE, L.nl))
\* The character after a numeric literal.
AfterNumber(L, radix, text, ch) ==
  IF IdStart(ch) \/ ch \in Digits \/ ch = "\\" THEN DeadAt(L)
  ELSE LET G == Number(L, radix, text) IN IF LOk(G) THEN BeginTok(G, ch) ELSE G

\* Append a denoted character to a string or template.
PutCh(L, ch, mode) == [L EXCEPT !.m = mode, !.b = @ \o ch, !.d = 0, !.n = 0]
TextMode(L) == IF L.q \in {"`", "}"} THEN "tpl" ELSE "str"
\* An escaped code point of a string or template; surrogates pair up.
PutCp(L, cp) ==
  IF HighSur(cp) THEN [L EXCEPT !.hi = cp, !.m = TextMode(L) \o "hi", !.d = 0, !.n = 0]
  ELSE IF LowSur(cp) THEN Unspec(L)
  ELSE PutCh(L, CharOf(cp), TextMode(L))
\* Tagged templates may contain malformed escapes: out of scope.
BadEscape(L, ch) == IF L.q \in {"`", "}"} /\ (L.q = "}" \/ DivOK(L)) THEN Unspec(L) ELSE LexDead(L, ch)
Raw(L, ch) == IF L.q \in {"`", "}"} THEN [L EXCEPT !.w = @ \o ch] ELSE L

SingleEscape == "'" :> "'" @@ "\"" :> "\"" @@ "\\" :> "\\" @@ "b" :> "<#8>" @@ "f" :> "<#12>" @@ "n" :> LF
             @@ "r" :> "<#13>" @@ "t" :> "<#9>" @@ "v" :> "<#11>"

\* Punctuators are the longest match.
PunctPrefixes == Punctuators \cup {".."}

LexChar(L, ch) ==
  LET m == L.m IN
  IF ~L.c.ok \/ L.un THEN L
  ELSE CASE m = "start" -> BeginTok(L, ch)
  [] m = "cr" -> IF ch = LF THEN [L EXCEPT !.m = "start"] ELSE BeginTok(L, ch)
  \* comments ---------------------------------------------------------------
  [] m = "line" -> IF ch \in LineTerminators THEN Newline(L, ch) ELSE L
  [] m \in {"block", "blockstar", "blockcr"} ->
       IF m = "blockcr" /\ ch = LF THEN [L EXCEPT !.m = "block"]
       ELSE IF m = "blockstar" /\ ch = "/" THEN [L EXCEPT !.m = "start"]
       ELSE IF ch \in LineTerminators THEN [L EXCEPT !.m = IF ch = CR THEN "blockcr" ELSE "block", !.nl = TRUE, !.ln = @ + 1]
       ELSE [L EXCEPT !.m = IF ch = "*" THEN "blockstar" ELSE "block"]
  \* slash: comment, division or regular expression --------------------------
  [] m = "slash" ->
       IF ch = "/" THEN [L EXCEPT !.m = "line"]
       ELSE IF ch = "*" THEN [L EXCEPT !.m = "block"]
       ELSE IF DivOK(L)
       THEN IF ch = "=" THEN GivePunct(L, "/=")
            ELSE LET G == GivePunct(L, "/") IN IF LOk(G) THEN BeginTok(G, ch) ELSE G
       ELSE IF Feed(L.c, Token("re", "re", "", "", FALSE, L.nl)).ok THEN LexChar([L EXCEPT !.m = "re"], ch)
       ELSE LexDead(L, ch)
  [] m \in {"re", "reclass"} ->
       IF ch \in LineTerminators THEN LexDead(L, ch)
       ELSE IF ch = "\\" THEN [L EXCEPT !.b = @ \o ch, !.m = m \o "esc"]
       ELSE IF ch = "/" /\ m = "re" THEN [L EXCEPT !.m = "reflags"]
       ELSE [L EXCEPT !.b = @ \o ch, !.m = IF ch = "[" THEN "reclass" ELSE IF ch = "]" THEN "re" ELSE m]
  [] m \in {"reesc", "reclassesc"} ->
       IF ch \in LineTerminators THEN LexDead(L, ch)
       ELSE [L EXCEPT !.b = @ \o ch, !.m = IF m = "reesc" THEN "re" ELSE "reclass"]
  [] m = "reflags" ->
       IF IdPart(ch) THEN [L EXCEPT !.w = @ \o ch]
       ELSE LET G == EndTok(L) IN IF LOk(G) THEN BeginTok(G, ch) ELSE G
  \* identifiers and keywords -------------------------------------------------
  [] m = "id" ->
       IF IdPart(ch) THEN [L EXCEPT !.b = @ \o ch]
       ELSE IF ch = "\\" THEN [L EXCEPT !.m = "iu", !.esc = TRUE]
       ELSE LET G == EndTok(L) IN IF LOk(G) THEN BeginTok(G, ch) ELSE G
  [] m = "iu" -> IF ch = "u" THEN [L EXCEPT !.m = "iu0", !.d = 0, !.n = 0] ELSE LexDead(L, ch)
  [] m \in {"iu0", "iu4"} ->
       IF m = "iu0" /\ ch = "{" THEN [L EXCEPT !.m = "iub"]
       ELSE IF ch \notin HexDigits THEN LexDead(L, ch)
       ELSE LET n == L.n * 16 + DigitVal[ch] IN
            IF L.d < 3 THEN [L EXCEPT !.m = "iu4", !.d = @ + 1, !.n = n]
            ELSE IF (IF L.b = "" THEN CpIdStart(n) ELSE CpIdPart(n)) THEN [L EXCEPT !.m = "id", !.b = @ \o CharOf(n), !.d = 0, !.n = 0]
            ELSE LexDead(L, ch)
  [] m = "iub" ->
       IF ch = "}" THEN IF L.d > 0 /\ (IF L.b = "" THEN CpIdStart(L.n) ELSE CpIdPart(L.n))
                        THEN [L EXCEPT !.m = "id", !.b = @ \o CharOf(L.n), !.d = 0, !.n = 0] ELSE LexDead(L, ch)
       ELSE IF ch \in HexDigits
       THEN LET n == L.n * 16 + DigitVal[ch] IN IF n > 1114111 THEN LexDead(L, ch) ELSE [L EXCEPT !.d = 1, !.n = n]
       ELSE LexDead(L, ch)
  \* numbers --------------------------------------------------------------------
  [] m = "zero" ->
       IF ch \in {"x", "X"} THEN [L EXCEPT !.m = "radix", !.q = "16", !.b = ""]
       ELSE IF ch \in {"o", "O"} THEN [L EXCEPT !.m = "radix", !.q = "8", !.b = ""]
       ELSE IF ch \in {"b", "B"} THEN [L EXCEPT !.m = "radix", !.q = "2", !.b = ""]
       ELSE IF IsDigit(ch, 8) THEN [L EXCEPT !.m = "octal", !.b = @ \o ch]
       ELSE LexChar([L EXCEPT !.m = "int"], ch)
  [] m = "octal" ->
       IF IsDigit(ch, 8) THEN [L EXCEPT !.b = @ \o ch]
       ELSE IF ch \in Digits THEN [L EXCEPT !.m = "int", !.b = @ \o ch]
       ELSE AfterNumber(L, "8", L.b, ch)
  [] m = "radix" ->
       IF IsDigit(ch, IF L.q = "16" THEN 16 ELSE IF L.q = "8" THEN 8 ELSE 2) THEN [L EXCEPT !.b = @ \o ch]
       ELSE IF L.b = "" THEN LexDead(L, ch)
       ELSE AfterNumber(L, L.q, L.b, ch)
  [] m = "int" ->
       IF ch \in Digits THEN [L EXCEPT !.b = @ \o ch]
       ELSE IF ch = "." THEN [L EXCEPT !.m = "frac", !.b = @ \o ch]
       ELSE IF ch \in {"e", "E"} THEN [L EXCEPT !.m = "exp0", !.b = @ \o ch]
       ELSE AfterNumber(L, "10", L.b, ch)
  [] m = "frac" ->
       IF ch \in Digits THEN [L EXCEPT !.b = @ \o ch]
       ELSE IF ch \in {"e", "E"} THEN [L EXCEPT !.m = "exp0", !.b = @ \o ch]
       ELSE AfterNumber(L, "10", L.b, ch)
  [] m \in {"exp0", "exp1"} ->
       IF m = "exp0" /\ ch \in {"+", "-"} THEN [L EXCEPT !.m = "exp1", !.b = @ \o ch]
       ELSE IF ch \in Digits THEN [L EXCEPT !.m = "exp", !.b = @ \o ch]
       ELSE LexDead(L, ch)
  [] m = "exp" ->
       IF ch \in Digits THEN [L EXCEPT !.b = @ \o ch] ELSE AfterNumber(L, "10", L.b, ch)
  \* punctuators ----------------------------------------------------------------
  [] m = "punct" ->
       IF L.b = "." /\ ch \in Digits THEN [L EXCEPT !.m = "frac", !.b = @ \o ch]
       ELSE IF L.b \o ch \in PunctPrefixes THEN [L EXCEPT !.b = @ \o ch]
       ELSE LET G == EndTok(L) IN IF LOk(G) THEN BeginTok(G, ch) ELSE G
  \* strings and templates ------------------------------------------------------
  [] m = "str" ->
       IF ch = L.q THEN Give(L, Token("str", "str", L.b, "", L.esc, L.nl))
       ELSE IF ch \in {LF, CR} THEN LexDead(L, ch)
       ELSE IF ch = "\\" THEN [L EXCEPT !.m = "esc", !.esc = TRUE]
       ELSE [Line(L, ch) EXCEPT !.b = @ \o ch]
  [] m \in {"tpl", "tplcr", "tpldollar"} ->
       IF m = "tplcr" /\ ch = LF THEN [L EXCEPT !.m = "tpl"]
       ELSE IF m = "tpldollar" /\ ch = "{" THEN GiveTpl(L, FALSE)
       ELSE LET P == IF m = "tpldollar" THEN [L EXCEPT !.b = @ \o "$", !.w = @ \o "$"] ELSE L IN
            IF ch = "`" THEN GiveTpl(P, TRUE)
            ELSE IF ch = "$" THEN [P EXCEPT !.m = "tpldollar"]
            ELSE IF ch = "\\" THEN [P EXCEPT !.m = "esc", !.w = @ \o ch]
            ELSE IF ch = CR THEN [Line(P, ch) EXCEPT !.m = "tplcr", !.b = @ \o LF, !.w = @ \o LF]
            ELSE [Line(P, ch) EXCEPT !.m = "tpl", !.b = @ \o ch, !.w = @ \o ch]
  [] m \in {"strhi", "tplhi"} ->      \* after an escaped high surrogate
       IF ch = "\\" THEN [Raw(L, ch) EXCEPT !.m = "hiesc"] ELSE Unspec(L)
  [] m = "hiesc" -> IF ch = "u" THEN [Raw(L, ch) EXCEPT !.m = "hiu", !.d = 0, !.n = 0] ELSE Unspec(L)
  [] m = "hiu" ->
       IF ch \notin HexDigits THEN Unspec(L)
       ELSE LET n == L.n * 16 + DigitVal[ch]  R == Raw(L, ch) IN
            IF L.d < 3 THEN [R EXCEPT !.d = @ + 1, !.n = n]
            ELSE IF LowSur(n) THEN PutCh([R EXCEPT !.hi = 0], CharOf(65536 + (L.hi - 55296) * 1024 + (n - 56320)), TextMode(L))
            ELSE Unspec(L)
  [] m = "esc" ->                     \* after a backslash
       IF ch = CR THEN [Raw(Line(L, ch), LF) EXCEPT !.m = "esccr"]
       ELSE IF ch \in LineTerminators THEN [Raw(Line(L, ch), ch) EXCEPT !.m = TextMode(L)]
       ELSE LET R == Raw(L, ch) IN
            IF ch \in DOMAIN SingleEscape THEN PutCh(R, SingleEscape[ch], TextMode(L))
            ELSE IF ch = "x" THEN [R EXCEPT !.m = "x", !.d = 0, !.n = 0]
            ELSE IF ch = "u" THEN [R EXCEPT !.m = "u0", !.d = 0, !.n = 0]
            ELSE IF ch \in Digits /\ L.q \in {"`", "}"}
            THEN IF ch = "0" THEN [R EXCEPT !.m = "tplnul"] ELSE BadEscape(R, ch)
            ELSE IF IsDigit(ch, 8) THEN [R EXCEPT !.m = "oct", !.d = 1, !.n = DigitVal[ch]]
            ELSE PutCh(R, ch, TextMode(L))
  [] m = "esccr" -> IF ch = LF THEN [L EXCEPT !.m = TextMode(L)] ELSE LexChar([L EXCEPT !.m = TextMode(L)], ch)
  [] m = "tplnul" -> IF ch \in Digits THEN BadEscape(L, ch) ELSE LexChar(PutCh(L, "<#0>", "tpl"), ch)
  [] m = "oct" ->                     \* legacy octal escapes: up to three digits, below 256
       IF IsDigit(ch, 8) /\ L.d < 3 /\ L.n * 8 + DigitVal[ch] < 256
       THEN [L EXCEPT !.d = @ + 1, !.n = @ * 8 + DigitVal[ch]]
       ELSE LexChar(PutCh(L, CharOf(L.n), TextMode(L)), ch)
  [] m = "x" ->
       IF ch \notin HexDigits THEN BadEscape(L, ch)
       ELSE LET n == L.n * 16 + DigitVal[ch]  R == Raw(L, ch) IN
            IF L.d = 0 THEN [R EXCEPT !.d = 1, !.n = n] ELSE PutCh(R, CharOf(n), TextMode(L))
  [] m \in {"u0", "u4"} ->
       IF m = "u0" /\ ch = "{" THEN [Raw(L, ch) EXCEPT !.m = "ub"]
       ELSE IF ch \notin HexDigits THEN BadEscape(L, ch)
       ELSE LET n == L.n * 16 + DigitVal[ch]  R == Raw(L, ch) IN
            IF L.d < 3 THEN [R EXCEPT !.m = "u4", !.d = @ + 1, !.n = n] ELSE PutCp(R, n)
  [] m = "ub" ->
       IF ch = "}" THEN IF L.d = 0 THEN BadEscape(L, ch)
                        ELSE IF HighSur(L.n) \/ LowSur(L.n) THEN Unspec(L)
                        ELSE PutCp(Raw(L, ch), L.n)
       ELSE IF ch \in HexDigits
       THEN LET n == L.n * 16 + DigitVal[ch] IN IF n > 1114111 THEN BadEscape(L, ch) ELSE [Raw(L, ch) EXCEPT !.d = 1, !.n = n]
       ELSE BadEscape(L, ch)

\* The end of a token at the end of the input, or before a character that
\* cannot belong to it.
EndTok(L) ==
  LET m == L.m IN
  IF ~L.c.ok \/ L.un THEN L
  ELSE CASE m \in {"start", "cr", "line"} -> L
  [] m = "slash" -> IF DivOK(L) THEN GivePunct(L, "/") ELSE DeadAt(L)
  [] m = "reflags" -> IF ValidFlags(L.w) THEN Give(L, Token("re", "re", L.b, L.w, FALSE, L.nl)) ELSE Unspec(L)
  [] m = "id" -> Give(L, IdToken(L.b, L.esc, L.nl))
  [] m \in {"zero", "int", "frac", "exp"} -> Number(L, "10", L.b)
  [] m = "octal" -> Number(L, "8", L.b)
  [] m = "radix" -> IF L.b = "" THEN DeadAt(L) ELSE Number(L, L.q, L.b)
  [] m = "punct" ->
       IF L.b \in Punctuators THEN GivePunct(L, L.b) ELSE DeadAt(L)
  [] OTHER -> DeadAt(L)   \* unterminated

RECURSIVE LexAll(_, _)
LexAll(L, chars) == IF chars = <<>> \/ ~L.c.ok \/ L.un THEN L ELSE LexAll(LexChar(L, Head(chars)), Tail(chars))

\* The outcome at the end of the input.
LexResult(L) ==
  LET G == EndTok(L) IN IF ~LOk(G) \/ G.un THEN BadNode ELSE Result(G.c, G.nl)

-----------------------------------------------------------------------------
(* A shortest completion: close the token in progress, then the parser's.   *)
Closer(L) ==
  CASE L.m \in {"str", "strhi"} -> L.q
  [] L.m \in {"tpl", "tplcr", "tpldollar"} -> "`"
  [] L.m = "block" -> "*/"
  [] L.m = "blockstar" -> "/"
  [] L.m = "re" -> "/"
  [] L.m = "slash" -> IF DivOK(L) THEN "" ELSE "r/"
  [] L.m = "reclass" -> "]/"
  [] L.m \in {"exp0", "exp1"} -> "1"
  [] L.m = "radix" -> IF L.b = "" THEN "1" ELSE ""
  [] L.m = "line" -> "\n"
  [] OTHER -> ""

RECURSIVE Spaced(_)
Spaced(q) == IF q = <<>> THEN "" ELSE " " \o Head(q) \o Spaced(Tail(q))

LexComplete(L) ==   \* [text, a]: a text that completes L and the AST then
  LET cl == Closer(L)
      G == EndTok(LexAll(L, Chars(cl))) IN
  IF ~LOk(G) \/ G.un THEN [text |-> "", a |-> BadNode]
  ELSE LET r == Complete(G.c, 24, G.nl)
           a == IF r.c.ok THEN Result(r.c, FALSE) ELSE BadNode
       IN [text |-> cl \o Spaced(r.toks), a |-> a]
=============================================================================
