From 5a96c63db8832706415a3ca2361e3c171ef59499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 01/78] fix: serialise member accesses as MemberExpression

---
 giron/src/estree/estree.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index ce910f1..3974874 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -540,6 +540,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "MemberExpression")]
     ComputedMemberExpression {
         computed: bool,
         object: Box<Node>,   // Expression
@@ -621,6 +622,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "MemberExpression")]
     StaticMemberExpression {
         computed: bool,
         object: Box<Node>,   // Expression
-- 
2.43.0


From cc86f456dc7b0b7b92443f9d86164daacdd528b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 02/78] fix: serialise async functions and arrows under their
 ESTree types

---
 giron/src/estree/estree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 3974874..f7d55aa 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -224,6 +224,7 @@ pub struct AssignmentPattern {
 
 #[derive(Serialize, Debug)]
 #[serde(tag = "type")]
+#[serde(rename = "FunctionExpression")]
 pub struct AsyncFunctionExpression {
     pub id: Option<Box<Node>>, // Identifier | null
     pub params: Vec<FunctionParameter>,
@@ -472,6 +473,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "ArrowFunctionExpression")]
     AsyncArrowFunctionExpression {
         id: Option<Box<Node>>, // Identifier | null
         params: Vec<FunctionParameter>,
@@ -484,6 +486,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "FunctionExpression")]
     AsyncFunctionExpression {
         id: Option<Box<Node>>, // Identifier | null
         params: Vec<FunctionParameter>,
@@ -711,6 +714,7 @@ pub enum Node {
     // ****************************************************
     // Statements & Declarations
     // ****************************************************
+    #[serde(rename = "FunctionDeclaration")]
     AsyncFunctionDeclaration {
         id: Option<Box<Node>>, // Identifier | null
         params: Vec<FunctionParameter>,
-- 
2.43.0


From 0bdcc340f60999ae7f03377e36b3d8f4989bb076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 03/78] fix: serialise identifiers in parameters and array
 patterns as Identifier

---
 giron/src/estree/estree.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index f7d55aa..556a660 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -143,6 +143,7 @@ pub enum ArrayPatternElement {
         left: Binding,
         right: Node,
     },
+    #[serde(rename = "Identifier")]
     BindingIdentifier {
         name: String,
     },
@@ -303,6 +304,7 @@ pub enum FunctionParameter {
         left: Binding,
         right: Node,
     },
+    #[serde(rename = "Identifier")]
     BindingIdentifier {
         name: String,
     },
-- 
2.43.0


From 8171b54e36b2ae19be88e9b70305d96e542e16e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 04/78] fix: serialise assignment rest elements as RestElement

---
 giron/src/estree/estree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 556a660..43e16cd 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -470,6 +470,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "RestElement")]
     AssignmentRestElement {
         argument: Box<Node>,
         #[serde(skip)]
-- 
2.43.0


From 5bab666cf4c76283d3ae63facb9df629b1d6b23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 05/78] fix: serialise regex, template values, properties and
 superClass with ESTree fields only

---
 giron/src/estree/estree.rs | 8 +++++---
 giron/src/parser/parser.rs | 6 +++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 43e16cd..fc0df52 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -58,10 +58,9 @@ pub struct ClassBody {
 }
 
 #[derive(Serialize, Debug)]
-#[serde(tag = "type")]
 pub struct Regex {
     pub pattern: String,
-    pub flags: Vec<char>,
+    pub flags: String,
 }
 
 #[derive(Serialize, Debug)]
@@ -352,10 +351,12 @@ pub enum ObjectExpressionProperty {
         kind: &'static str,
         method: bool,
         shorthand: bool,
+        #[serde(skip)]
         span: Span,
     },
     SpreadElement {
         argument: Node,
+        #[serde(skip)]
         span: Span,
     },
 }
@@ -392,7 +393,6 @@ pub struct TemplateElement {
 }
 
 #[derive(Serialize, Debug)]
-#[serde(tag = "type")]
 pub struct TemplateElementValue {
     pub cooked: String,
     pub raw: String,
@@ -539,6 +539,7 @@ pub enum Node {
     },
     ClassExpression {
         id: Option<Box<Node>>,          // Identifier | null
+        #[serde(rename = "superClass")]
         super_class: Option<Box<Node>>, // Identifier | null
         body: ClassBody,
         #[serde(skip)]
@@ -612,6 +613,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "Literal")]
     RegexLiteral {
         value: String,
         raw: String,
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6353f17..714c02f 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2539,11 +2539,11 @@ where
                 self.start_span();
                 let token = self.advance(LexGoal::Div)?;
                 Ok(Node::RegexLiteral {
-                    value: String::from(&self.current.value),
-                    raw: String::from(&self.current.value),
+                    value: String::from(&token.value),
+                    raw: String::from(&token.value),
                     regex: Regex {
                         pattern: token.pattern.unwrap(),
-                        flags: token.flags.unwrap(),
+                        flags: token.flags.unwrap().into_iter().collect(),
                     },
                     assign_target_type: "invalid",
                     span: self.end_span(),
-- 
2.43.0


From ee1eaa2ca6957fb1e44ef907f403d34e0c5d1a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 06/78] fix: parsing the empty program underflows the end of
 its token

---
 giron/src/scanner/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 9b5472b..a505541 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -1004,7 +1004,7 @@ where
             line_num: self.line,
             col: self.col,
             start: self.start,
-            end: self.current - 1,
+            end: self.current.saturating_sub(1),
         })
     }
 
-- 
2.43.0


From a3c403d085f89838ce438bfb75973bddd1113f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 07/78] fix: a malformed first token panics in Parser::new

---
 giron/src/parser/parser.rs   | 17 ++++++++++++++++-
 giron/src/scanner/scanner.rs | 17 +++++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 714c02f..ee8d562 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -68,6 +68,7 @@ enum SyntaxGoal {
 
 pub struct Parser<I> {
     scanner: Scanner<I>,
+    start_error: Option<Error>,
     has_line_terminator: bool,
     current: Token,
     ctx: Context,
@@ -83,10 +84,14 @@ where
 {
     pub fn new(source: I) -> Self {
         let mut scanner = Scanner::new(source);
-        let current = scanner.next(LexGoal::RegExp).unwrap();
+        let (current, start_error) = match scanner.next(LexGoal::RegExp) {
+            Ok(token) => (token, None),
+            Err(error) => (scanner.eof_token(), Some(error)),
+        };
 
         Parser {
             scanner,
+            start_error,
             ctx: Context {
                 strict: false,
                 in_function: false,
@@ -110,6 +115,7 @@ where
     pub fn parse_script(&mut self) -> Result<Node> {
         log!("parse_script");
         self.goal = SyntaxGoal::Script;
+        self.check_start()?;
         self.start_span();
         let mut body = self.parse_directive_prologues()?;
         body.extend(self.parse_until_eof(&mut Self::parse_stmt_list_item)?);
@@ -124,6 +130,7 @@ where
     pub fn parse_module(&mut self) -> Result<Node> {
         log!("parse_module");
         self.goal = SyntaxGoal::Module;
+        self.check_start()?;
         self.start_span();
         self.ctx.strict = true;
         let mut body = self.with_params(
@@ -143,6 +150,14 @@ where
         })
     }
 
+    /// Report a failure to scan the very first token.
+    fn check_start(&mut self) -> Result<()> {
+        match self.start_error.take() {
+            Some(error) => Err(error),
+            None => Ok(()),
+        }
+    }
+
     fn parse_directive_prologues(&mut self) -> Result<Vec<Node>> {
         let mut body = vec![];
         loop {
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index a505541..eee166a 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -91,6 +91,23 @@ where
         }
     }
 
+    pub fn eof_token(&self) -> Token {
+        Token {
+            tokentype: TokenType::Eof,
+            value: Value::Null,
+            pattern: None,
+            flags: None,
+            octal: None,
+            cooked: None,
+            head: None,
+            tail: None,
+            line_num: self.line,
+            col: self.col,
+            start: self.current,
+            end: self.current,
+        }
+    }
+
     fn scan_comments(&mut self) {
         loop {
             match self.peek2() {
-- 
2.43.0


From 3180b3c288bc58c86ee8ed2c8a9296d9d6af2089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 08/78] fix: an unterminated template panics

---
 giron/src/scanner/scanner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index eee166a..59d1d55 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -671,7 +671,7 @@ where
                 self.consume();
                 tail = true;
             }
-            (_, _) => unreachable!(),
+            (_, _) => return self.error(ErrorType::UnexpectedEOS),
         }
         self.token(
             TokenType::Template,
@@ -706,7 +706,7 @@ where
                 self.consume();
                 tail = true;
             }
-            (_, _) => unreachable!(),
+            (_, _) => return self.error(ErrorType::UnexpectedEOS),
         }
         self.token(
             TokenType::Template,
-- 
2.43.0


From bf6fbccb78e602218ed788182a4cf4ca14a0c1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 09/78] fix: an unterminated block comment is accepted

---
 giron/src/scanner/scanner.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 59d1d55..8a4f00e 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -71,7 +71,7 @@ where
         }
 
         self.newline = false;
-        self.scan_comments();
+        self.scan_comments()?;
         self.start_new_token();
 
         match self.peek2() {
@@ -108,7 +108,7 @@ where
         }
     }
 
-    fn scan_comments(&mut self) {
+    fn scan_comments(&mut self) -> Result<()> {
         loop {
             match self.peek2() {
                 (Some(cp), _) if cp.is_whitespace() => {
@@ -122,8 +122,8 @@ where
                     self.consume();
                 }
                 (Some('/'), Some('/')) => self.scan_singleline_comment(),
-                (Some('/'), Some('*')) => self.scan_multiline_comment(),
-                (_, _) => break,
+                (Some('/'), Some('*')) => self.scan_multiline_comment()?,
+                (_, _) => return Ok(()),
             }
         }
     }
@@ -142,7 +142,7 @@ where
         }
     }
 
-    fn scan_multiline_comment(&mut self) {
+    fn scan_multiline_comment(&mut self) -> Result<()> {
         self.consume();
         self.consume();
         loop {
@@ -150,12 +150,12 @@ where
                 (Some('*'), Some('/')) => {
                     self.consume();
                     self.consume();
-                    break;
+                    return Ok(());
                 }
                 (Some(_), _) => {
                     self.consume();
                 }
-                (None, _) => break,
+                (None, _) => return self.error(ErrorType::UnexpectedEOS),
             }
         }
     }
-- 
2.43.0


From a53ddac2a0d7d5106173517d75631becc82d37da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 10/78] fix: an operator that ends the text is reported as an
 unknown character

---
 giron/src/scanner/scanner.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 8a4f00e..d5caa9a 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -808,32 +808,32 @@ where
                     (_, _) => self.punc0("?"),
                 }
             }
-            (Some('+'), Some(cp)) => match cp {
-                '=' => self.punc2("+="),
-                '+' => self.punc2("++"),
+            (Some('+'), cp) => match cp {
+                Some('=') => self.punc2("+="),
+                Some('+') => self.punc2("++"),
                 _ => self.punc1("+"),
             },
-            (Some('-'), Some(cp)) => match cp {
-                '=' => self.punc2("-="),
-                '-' => self.punc2("--"),
+            (Some('-'), cp) => match cp {
+                Some('=') => self.punc2("-="),
+                Some('-') => self.punc2("--"),
                 _ => self.punc1("-"),
             },
-            (Some('&'), Some(cp)) => match cp {
-                '=' => self.punc2("&="),
-                '&' => self.punc2("&&"),
+            (Some('&'), cp) => match cp {
+                Some('=') => self.punc2("&="),
+                Some('&') => self.punc2("&&"),
                 _ => self.punc1("&"),
             },
-            (Some('|'), Some(cp)) => match cp {
-                '=' => self.punc2("|="),
-                '|' => self.punc2("||"),
+            (Some('|'), cp) => match cp {
+                Some('=') => self.punc2("|="),
+                Some('|') => self.punc2("||"),
                 _ => self.punc1("|"),
             },
-            (Some('%'), Some(cp)) => match cp {
-                '=' => self.punc2("%="),
+            (Some('%'), cp) => match cp {
+                Some('=') => self.punc2("%="),
                 _ => self.punc1("%"),
             },
-            (Some('^'), Some(cp)) => match cp {
-                '=' => self.punc2("^="),
+            (Some('^'), cp) => match cp {
+                Some('=') => self.punc2("^="),
                 _ => self.punc1("^"),
             },
             (Some('.'), _) => {
-- 
2.43.0


From b8113daf72cd86e5bec34735a0ae89e2549d5e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 11/78] fix: >>= is scanned as >> and =

---
 giron/src/scanner/scanner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index d5caa9a..f30bba0 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -889,6 +889,7 @@ where
                             (_, _) => self.punc1(">>>"),
                         }
                     }
+                    (Some('>'), Some('=')) => self.punc2(">>="),
                     (Some('>'), _) => self.punc1(">>"),
                     (_, _) => self.punc0(">"),
                 }
-- 
2.43.0


From 8938363123cd33fdfe4ebcf71ea04f28f6fc9323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 12/78] fix: unicode escapes in identifiers are not decoded

---
 giron/src/scanner/scanner.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index f30bba0..04e385b 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -75,7 +75,7 @@ where
         self.start_new_token();
 
         match self.peek2() {
-            (Some(cp), _) if cp.is_identifier_start() => self.scan_identifier(),
+            (Some(cp), _) if cp.is_identifier_start() || cp == '\\' => self.scan_identifier(),
             (Some('"'), _) | (Some('\''), _) => self.scan_string_literal(),
             (Some('.'), Some(cp)) if cp.is_decimal_digit() => self.scan_numeric_literal(),
             (Some(cp), _) if cp.is_decimal_digit() => self.scan_numeric_literal(),
@@ -170,11 +170,14 @@ where
         let part = self.scan_until_with(
             |cp| cp != '\\' && !cp.is_identifier_continue(),
             &mut |this| {
-                let cp = this.consume().unwrap();
-                if cp == '\\' {
-                    this.scan_unicode_esc_seq()
-                } else {
+                if this.matches('\\') {
+                    let cp = this.scan_unicode_esc_seq()?;
+                    if cp == '\\' || !cp.is_identifier_continue() {
+                        return this.error(ErrorType::InvalidUnicodeEscapeSequence);
+                    }
                     Ok(cp)
+                } else {
+                    Ok(this.consume().unwrap())
                 }
             },
         )?;
-- 
2.43.0


From 36216cee997c9a531b13a534ee0bf95ce98da8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 13/78] fix: an escaped keyword is taken for the keyword

---
 giron/src/parser/syntax.rs   |  2 +-
 giron/src/scanner/scanner.rs | 15 +++++++++++++++
 giron/src/token/token.rs     |  1 +
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index 38a6029..8427321 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -48,7 +48,7 @@ impl Syntax for Token {
 
     fn matches_str(&self, val: &str) -> bool {
         match &self.value {
-            Value::Str(s) if &s[..] == val => true,
+            Value::Str(s) if &s[..] == val => !self.escaped,
             _ => false,
         }
     }
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 04e385b..430254e 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -101,6 +101,7 @@ where
             cooked: None,
             head: None,
             tail: None,
+            escaped: false,
             line_num: self.line,
             col: self.col,
             start: self.current,
@@ -166,11 +167,13 @@ where
 
     pub fn scan_identifier(&mut self) -> Result<Token> {
         let mut value = String::new();
+        let mut escaped = self.matches('\\');
         value.push(self.scan_identifier_start()?);
         let part = self.scan_until_with(
             |cp| cp != '\\' && !cp.is_identifier_continue(),
             &mut |this| {
                 if this.matches('\\') {
+                    escaped = true;
                     let cp = this.scan_unicode_esc_seq()?;
                     if cp == '\\' || !cp.is_identifier_continue() {
                         return this.error(ErrorType::InvalidUnicodeEscapeSequence);
@@ -184,6 +187,17 @@ where
         value.push_str(&part);
 
         match value.as_str() {
+            // a name that needs its escape is no keyword, but still a property name
+            val if escaped => {
+                let tokentype = match val {
+                    "null" | "true" | "false" => TokenType::Keyword,
+                    val if self.is_keyword(val) => TokenType::Keyword,
+                    _ => TokenType::Identifier,
+                };
+                let mut token = self.token_simple(tokentype, Value::Str(value))?;
+                token.escaped = true;
+                Ok(token)
+            }
             "null" => self.token_simple(TokenType::NullLiteral, Value::Null),
             "true" | "false" => self.token_simple(TokenType::BooleanLiteral, Value::Str(value)),
             val => {
@@ -1022,6 +1036,7 @@ where
             cooked,
             head,
             tail,
+            escaped: false,
             line_num: self.line,
             col: self.col,
             start: self.start,
diff --git a/giron/src/token/token.rs b/giron/src/token/token.rs
index fea3a0b..93cc82d 100644
--- a/giron/src/token/token.rs
+++ b/giron/src/token/token.rs
@@ -25,6 +25,7 @@ pub struct Token {
     pub cooked: Option<String>,
     pub head: Option<bool>,
     pub tail: Option<bool>,
+    pub escaped: bool, // an identifier name written with a unicode escape
     pub line_num: usize,
     pub col: usize,
     pub start: usize,
-- 
2.43.0


From 654846ec9674d8a621d2d22cbf81707e75e7949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 14/78] fix: \u{...} overflows on long escapes and \u{} is
 accepted

---
 giron/src/scanner/scanner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 430254e..1e95d92 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -243,10 +243,14 @@ where
                     })
                 })?
                 .chars()
-                .fold(0, |value, cp| value * 16 + cp.to_digit(16).unwrap());
+                .fold(None, |value: Option<u32>, cp| {
+                    // saturates far above the largest code point
+                    let value = value.unwrap_or(0).saturating_mul(16);
+                    Some(value.saturating_add(cp.to_digit(16).unwrap()))
+                });
             // consume "}"
             self.expect('}')?;
-            char::from_u32(value).ok_or(Error {
+            value.and_then(char::from_u32).ok_or(Error {
                 line: self.line,
                 col: self.col,
                 errortype: ErrorType::InvalidUnicodeEscapeSequence,
-- 
2.43.0


From d56c69e4202eb06e26d372f1c8e309f33b29727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 15/78] fix: ZWNJ and ZWJ are refused inside identifiers

---
 giron/src/codepoint/codepoint.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giron/src/codepoint/codepoint.rs b/giron/src/codepoint/codepoint.rs
index b9518ac..b79303a 100644
--- a/giron/src/codepoint/codepoint.rs
+++ b/giron/src/codepoint/codepoint.rs
@@ -43,6 +43,8 @@ impl CodePoint for char {
     fn is_identifier_continue(self) -> bool {
         match self {
             '$' | '_' | 'A'..='Z' | 'a'..='z' | '0'..='9' | '\u{005C}' => true,
+            // ZWNJ and ZWJ
+            '\u{200C}' | '\u{200D}' => true,
             _ => self.is_id_continue(),
         }
     }
-- 
2.43.0


From 0d462e256c41963899ccecfb987b842c6b34453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 16/78] fix: the backslash of an identity escape stays in the
 string value

---
 giron/src/scanner/scanner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 1e95d92..9012553 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -498,6 +498,7 @@ where
                     return (self.scan_octal_esc_seq(), true)
                 }
                 (Some('\\'), Some(_)) => {
+                    self.consume(); // consume "\"
                     return (
                         self.consume().ok_or(Error {
                             line: self.line,
-- 
2.43.0


From 9d78a203293dd3db91e140b585bacca938a17e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 17/78] fix: a line continuation before the closing quote runs
 past the end of the string

---
 giron/src/scanner/scanner.rs | 37 ++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 9012553..9f68cb5 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -454,11 +454,18 @@ where
             _ => return self.error(ErrorType::InvalidOrUnexpectedToken),
         }
 
-        let value = self.scan_until_with(|cp| cp == quote, &mut |this| {
-            let (res, is_octal) = this.scan_string_literal_cp();
-            octal = octal || is_octal;
-            res
-        })?;
+        let mut value = String::new();
+        loop {
+            self.scan_line_continuations();
+            match self.peek() {
+                Some(cp) if cp != quote => {
+                    let (res, is_octal) = self.scan_string_literal_cp();
+                    octal = octal || is_octal;
+                    value.push(res?);
+                }
+                _ => break,
+            }
+        }
 
         self.expect(quote)?;
         self.token(
@@ -473,6 +480,19 @@ where
         )
     }
 
+    fn scan_line_continuations(&mut self) {
+        while let (Some('\\'), Some(cp)) = self.peek2() {
+            if !cp.is_line_terminator() {
+                break;
+            }
+            self.consume(); // consume "\"
+            if let (Some('\r'), Some('\n')) = self.peek2() {
+                self.consume(); // consume "\r" if <CR><LF>
+            }
+            self.consume(); // consume line terminator
+        }
+    }
+
     fn scan_string_literal_cp(&mut self) -> (Result<char>, bool) {
         loop {
             match self.peek2() {
@@ -485,13 +505,6 @@ where
                     });
                     return (val, false);
                 }
-                (Some('\\'), Some(cp)) if cp.is_line_terminator() => {
-                    self.consume(); // consume "\"
-                    if let (Some('\r'), Some('\n')) = self.peek2() {
-                        self.consume(); // consume "\r" if <CR><LF>
-                    }
-                    self.consume(); // consume line terminator
-                }
                 (Some('\\'), Some('x')) => return (self.scan_hex_esc_seq(), false),
                 (Some('\\'), Some('u')) => return (self.scan_unicode_esc_seq(), false),
                 (Some('\\'), Some(cp)) if cp.is_octal_digit() => {
-- 
2.43.0


From 99776529b91750f7a4c2849cf510aa059f5230d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 18/78] fix: U+2028 and U+2029 are refused inside strings

---
 giron/src/scanner/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 9f68cb5..9d61a4a 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -521,7 +521,7 @@ where
                         false,
                     )
                 }
-                (Some(cp), _) if cp.is_line_terminator() => {
+                (Some('\n'), _) | (Some('\r'), _) => {
                     return (
                         Err(Error {
                             line: self.line,
-- 
2.43.0


From c115a5fe54dcee29fcfae2ce068bd1ba6a03455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 19/78] fix: octal escapes take any number of digits

---
 giron/src/scanner/scanner.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 9d61a4a..7251ebf 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -558,13 +558,16 @@ where
     fn scan_octal_esc_seq(&mut self) -> Result<char> {
         self.consume();
 
-        let value = self.scan_until_with(|cp| !cp.is_octal_digit(), &mut |this| {
-            this.consume().ok_or(Error {
-                line: this.line,
-                col: this.col,
-                errortype: ErrorType::UnexpectedEOS,
-            })
-        })?;
+        // at most three digits, and no value above 255
+        let mut value = String::new();
+        while let Some(cp) = self.peek() {
+            let limit = if value.starts_with(|cp| cp > '3') { 2 } else { 3 };
+            if !cp.is_octal_digit() || value.len() == limit {
+                break;
+            }
+            value.push(cp);
+            self.consume();
+        }
 
         let mv = i64::from_str_radix(&value, 8)
             .map(|i| i as u32)
-- 
2.43.0


From 04cc9d80f2988560dfaf9703ce14170da0159092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 20/78] fix: surrogate pairs written as two escapes are refused

---
 giron/src/scanner/scanner.rs | 51 ++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 7251ebf..d57f780 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -256,15 +256,7 @@ where
                 errortype: ErrorType::InvalidUnicodeEscapeSequence,
             })
         } else {
-            let mut value = 0;
-            for _ in 0..4 {
-                match self.consume() {
-                    Some(cp) if cp.is_hex_digit() => {
-                        value = value * 16 + cp.to_digit(16).unwrap();
-                    }
-                    _ => return self.error(ErrorType::InvalidUnicodeEscapeSequence),
-                }
-            }
+            let value = self.scan_hex4()?;
             char::from_u32(value).ok_or(Error {
                 line: self.line,
                 col: self.col,
@@ -273,6 +265,43 @@ where
         }
     }
 
+    fn scan_hex4(&mut self) -> Result<u32> {
+        let mut value = 0;
+        for _ in 0..4 {
+            match self.consume() {
+                Some(cp) if cp.is_hex_digit() => {
+                    value = value * 16 + cp.to_digit(16).unwrap();
+                }
+                _ => return self.error(ErrorType::InvalidUnicodeEscapeSequence),
+            }
+        }
+        Ok(value)
+    }
+
+    /// Scans a unicode escape inside a string or template, where two \uXXXX
+    /// escapes can form a surrogate pair.
+    fn scan_string_unicode_esc(&mut self) -> Result<char> {
+        if self.reader.lookahead(2) == Some('{') {
+            return self.scan_unicode_esc_seq();
+        }
+        self.expect('\\')?;
+        self.expect('u')?;
+        let mut value = self.scan_hex4()?;
+        if let (0xD800..=0xDBFF, (Some('\\'), Some('u'))) = (value, self.peek2()) {
+            self.expect('\\')?;
+            self.expect('u')?;
+            value = match self.scan_hex4()? {
+                low @ 0xDC00..=0xDFFF => 0x10000 + ((value - 0xD800) << 10) + (low - 0xDC00),
+                _ => return self.error(ErrorType::InvalidUnicodeEscapeSequence),
+            };
+        }
+        char::from_u32(value).ok_or(Error {
+            line: self.line,
+            col: self.col,
+            errortype: ErrorType::InvalidUnicodeEscapeSequence,
+        })
+    }
+
     /// Check whether value is a keyword or future reserved word
     pub fn is_keyword(&self, value: &str) -> bool {
         match value.len() {
@@ -506,7 +535,7 @@ where
                     return (val, false);
                 }
                 (Some('\\'), Some('x')) => return (self.scan_hex_esc_seq(), false),
-                (Some('\\'), Some('u')) => return (self.scan_unicode_esc_seq(), false),
+                (Some('\\'), Some('u')) => return (self.scan_string_unicode_esc(), false),
                 (Some('\\'), Some(cp)) if cp.is_octal_digit() => {
                     return (self.scan_octal_esc_seq(), true)
                 }
@@ -788,7 +817,7 @@ where
                 })
             }
             (Some('\\'), Some('x')) => self.scan_hex_esc_seq(),
-            (Some('\\'), Some('u')) => self.scan_unicode_esc_seq(),
+            (Some('\\'), Some('u')) => self.scan_string_unicode_esc(),
             // TODO: handle octal escape
             (Some('\\'), Some(_)) => {
                 self.consume();
-- 
2.43.0


From 9bd18cf20412cd9f3bc806815511132c09d2b44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 21/78] fix: a line continuation in a template adds a NUL to
 the cooked text

---
 giron/src/scanner/scanner.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index d57f780..0356a9d 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -787,7 +787,7 @@ where
         )
     }
 
-    fn scan_template_char(&mut self) -> Result<char> {
+    fn scan_template_char(&mut self) -> Result<Option<char>> {
         match self.peek2() {
             (Some('\\'), Some(cp)) if cp.is_line_terminator() => {
                 self.consume();
@@ -795,11 +795,11 @@ where
                     (Some('\r'), Some('\n')) => {
                         self.consume();
                         self.consume();
-                        Ok('\0')
+                        Ok(None)
                     }
                     (_, _) => {
                         self.consume();
-                        Ok('\0')
+                        Ok(None)
                     }
                 }
             }
@@ -810,18 +810,18 @@ where
             | (Some('\\'), Some('r'))
             | (Some('\\'), Some('t')) => {
                 self.consume();
-                self.consume().map(|cp| cp.unescape()).ok_or(Error {
+                self.consume().map(|cp| Some(cp.unescape())).ok_or(Error {
                     line: self.line,
                     col: self.col,
                     errortype: ErrorType::UnexpectedEOS,
                 })
             }
-            (Some('\\'), Some('x')) => self.scan_hex_esc_seq(),
-            (Some('\\'), Some('u')) => self.scan_string_unicode_esc(),
+            (Some('\\'), Some('x')) => self.scan_hex_esc_seq().map(Some),
+            (Some('\\'), Some('u')) => self.scan_string_unicode_esc().map(Some),
             // TODO: handle octal escape
             (Some('\\'), Some(_)) => {
                 self.consume();
-                self.consume().ok_or(Error {
+                self.consume().map(Some).ok_or(Error {
                     line: self.line,
                     col: self.col,
                     errortype: ErrorType::UnexpectedEOS,
@@ -829,9 +829,9 @@ where
             }
             (Some(cp), _) if cp.is_line_terminator() => {
                 self.consume();
-                Ok('\n')
+                Ok(Some('\n'))
             }
-            (Some(_), _) => self.consume().ok_or(Error {
+            (Some(_), _) => self.consume().map(Some).ok_or(Error {
                 line: self.line,
                 col: self.col,
                 errortype: ErrorType::UnexpectedEOS,
@@ -1010,14 +1010,14 @@ where
     pub fn scan2_until_with<F, G>(&mut self, pred: F, read: &mut G) -> Result<String>
     where
         F: Fn((Option<char>, Option<char>)) -> bool,
-        G: FnMut(&mut Self) -> Result<char>,
+        G: FnMut(&mut Self) -> Result<Option<char>>,
     {
         let mut res = String::new();
         loop {
             match self.peek2() {
                 (Some(cp1), Some(cp2)) if pred((Some(cp1), Some(cp2))) => return Ok(res),
                 (Some(cp1), None) if pred((Some(cp1), None)) => return Ok(res),
-                (Some(_), _) => res.push(read(self)?),
+                (Some(_), _) => res.extend(read(self)?),
                 (None, _) => return Ok(res),
             }
         }
-- 
2.43.0


From 50ed551ca6314ebf8be0e8aaf04f9f94d645a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 22/78] fix: CR, CRLF, LS and PS are not normalised as
 specified in templates

---
 giron/src/scanner/scanner.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 0356a9d..e82c667 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -827,8 +827,11 @@ where
                     errortype: ErrorType::UnexpectedEOS,
                 })
             }
-            (Some(cp), _) if cp.is_line_terminator() => {
+            (Some('\r'), cp) => {
                 self.consume();
+                if cp == Some('\n') {
+                    self.consume();
+                }
                 Ok(Some('\n'))
             }
             (Some(_), _) => self.consume().map(Some).ok_or(Error {
@@ -1063,7 +1066,10 @@ where
 
     fn stop_recording(&mut self) -> String {
         self.record_raw = false;
+        // line terminator sequences are normalised in raw text, too
         mem::replace(&mut self.raw_string, String::with_capacity(8))
+            .replace("\r\n", "\n")
+            .replace('\r', "\n")
     }
 
     fn token(
-- 
2.43.0


From a1e178babbdaf55d414a823856679b5c8a51b7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 23/78] fix: octal escapes are accepted in templates and \0 is
 not NUL

---
 giron/src/scanner/scanner.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index e82c667..a617ff1 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -818,7 +818,18 @@ where
             }
             (Some('\\'), Some('x')) => self.scan_hex_esc_seq().map(Some),
             (Some('\\'), Some('u')) => self.scan_string_unicode_esc().map(Some),
-            // TODO: handle octal escape
+            (Some('\\'), Some(cp)) if cp.is_decimal_digit() => {
+                // only NUL, octal escapes are not allowed
+                self.consume();
+                self.consume();
+                match self.peek() {
+                    Some(next) if next.is_decimal_digit() => {
+                        self.error(ErrorType::InvalidOrUnexpectedToken)
+                    }
+                    _ if cp != '0' => self.error(ErrorType::InvalidOrUnexpectedToken),
+                    _ => Ok(Some('\0')),
+                }
+            }
             (Some('\\'), Some(_)) => {
                 self.consume();
                 self.consume().map(Some).ok_or(Error {
-- 
2.43.0


From fa8301088f11fec6320c2f72be371f2917184fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 24/78] fix: regular expressions run over line terminators and
 escaped brackets in classes

---
 giron/src/scanner/scanner.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index a617ff1..d960501 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -658,17 +658,11 @@ where
             return self.error(ErrorType::InvalidOrUnexpectedToken);
         }
         let mut value = String::from("");
+        let mut in_class = false;
         loop {
             match self.peek() {
-                Some('[') => {
-                    let group = self.scan_until_with(|cp| cp == ']', &mut |this| {
-                        this.consume().ok_or(Error {
-                            line: this.line,
-                            col: this.col,
-                            errortype: ErrorType::UnexpectedEOS,
-                        })
-                    })?;
-                    value.push_str(&group);
+                Some(cp) if cp.is_line_terminator() => {
+                    return self.error(ErrorType::InvalidOrUnexpectedToken)
                 }
                 Some('\\') => {
                     value.push(self.consume().ok_or(Error {
@@ -676,14 +670,22 @@ where
                         col: self.col,
                         errortype: ErrorType::UnexpectedEOS,
                     })?);
+                    if let Some(true) = self.peek().map(|cp| cp.is_line_terminator()) {
+                        return self.error(ErrorType::InvalidOrUnexpectedToken);
+                    }
                     value.push(self.consume().ok_or(Error {
                         line: self.line,
                         col: self.col,
                         errortype: ErrorType::UnexpectedEOS,
                     })?);
                 }
-                Some(cp) if cp == '/' => break,
-                Some(_) => {
+                Some(cp) if cp == '/' && !in_class => break,
+                Some(cp) => {
+                    match cp {
+                        '[' => in_class = true,
+                        ']' => in_class = false,
+                        _ => (),
+                    }
                     let res = self.consume().ok_or(Error {
                         line: self.line,
                         col: self.col,
-- 
2.43.0


From 894607994cda3b9ca003d1716a6c1b547108d34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 25/78] fix: regular expression flags take escapes, and the
 token has no text

---
 giron/src/scanner/scanner.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index d960501..57b2d28 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -640,9 +640,11 @@ where
         let pattern = self.scan_regexp_body()?;
         let flags = self.scan_regexp_flags()?;
 
+        let raw = format!("/{}/{}", pattern, flags.iter().collect::<String>());
+
         self.token(
             TokenType::RegularExpression,
-            Value::Str(String::from("")),
+            Value::Str(raw),
             Some(pattern),
             Some(flags),
             None,
@@ -701,16 +703,10 @@ where
     }
 
     fn scan_regexp_flags(&mut self) -> Result<Vec<char>> {
+        // flags may not contain escapes
         self.scan_until_with(
-            |cp| cp != '\\' && !cp.is_identifier_continue(),
-            &mut |this| {
-                let cp = this.consume().unwrap();
-                if cp == '\\' {
-                    this.scan_unicode_esc_seq()
-                } else {
-                    Ok(cp)
-                }
-            },
+            |cp| cp == '\\' || !cp.is_identifier_continue(),
+            &mut |this| Ok(this.consume().unwrap()),
         )
         .map(|value| value.chars().collect())
     }
-- 
2.43.0


From 6298ee1d09d1abc7377c0a0dbbf42b197b5fefb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 26/78] fix: radix literals take foreign digits, overflow
 beyond 63 bits and may be refused

---
 giron/src/scanner/scanner.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 57b2d28..8ae1d24 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -450,11 +450,9 @@ where
     }
 
     fn scan_radix_literal(&mut self, radix: u32) -> Result<f64> {
-        // NOTE: This function consumes as many hex digits as possible.
-        // Can this lead to Err for valid ECMAScript?
         self.expect('0')?;
         self.consume(); // b | B | o | O | x | X
-        let value = self.scan_until_with(|cp| !cp.is_hex_digit(), &mut |this| {
+        let value = self.scan_until_with(|cp| !cp.is_digit(radix), &mut |this| {
             this.consume().ok_or(Error {
                 line: this.line,
                 col: this.col,
@@ -462,13 +460,29 @@ where
             })
         })?;
 
-        i64::from_str_radix(&value, radix)
-            .map(|i| i as f64)
-            .map_err(|_| Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::InvalidOrUnexpectedToken,
-            })
+        match value.len() {
+            0 => self.error(ErrorType::InvalidOrUnexpectedToken),
+            _ => Ok(Self::radix_value(&value, radix)),
+        }
+    }
+
+    /// The double nearest to the value of digits of a radix that is a power of two.
+    fn radix_value(digits: &str, radix: u32) -> f64 {
+        let bits = radix.trailing_zeros();
+        let mut value: u64 = 0;
+        let mut dropped = 0;
+        for digit in digits.chars().map(|cp| cp.to_digit(radix).unwrap()) {
+            for bit in (0..bits).rev().map(|i| u64::from(digit >> i & 1)) {
+                if value >> 63 == 0 {
+                    value = value << 1 | bit;
+                } else {
+                    // too long: what follows only matters for rounding
+                    value |= bit;
+                    dropped += 1;
+                }
+            }
+        }
+        (0..dropped).fold(value as f64, |value, _| value * 2.0)
     }
 
     // *******************************************************************
-- 
2.43.0


From c471a2fddfa7943133892739fb1a57537881bb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 27/78] fix: numbers starting with 0 lose fraction, exponent
 and digits beyond 63 bits

---
 giron/src/scanner/scanner.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 8ae1d24..762f8dd 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -350,8 +350,8 @@ where
             (Some('0'), Some('b')) | (Some('0'), Some('B')) => self.scan_radix_literal(2),
             (Some('0'), Some('o')) | (Some('0'), Some('O')) => self.scan_radix_literal(8),
             (Some('0'), Some('x')) | (Some('0'), Some('X')) => self.scan_radix_literal(16),
-            (Some('0'), Some(cp)) if cp != '.' => {
-                let val = self.scan_until_with(|cp| !cp.is_decimal_digit(), &mut |this| {
+            (Some('0'), Some(cp)) if cp.is_decimal_digit() => {
+                let mut val = self.scan_until_with(|cp| !cp.is_decimal_digit(), &mut |this| {
                     this.consume().ok_or(Error {
                         line: this.line,
                         col: this.col,
@@ -359,17 +359,18 @@ where
                     })
                 })?;
                 // A number starting with 0 can either be octal or decimal.
-                i64::from_str_radix(&val, 8)
-                    .or_else(|_| {
-                        i64::from_str_radix(&val, 10)
-                        // TODO: Scan dot and exponent
-                    })
-                    .map(|i| i as f64)
-                    .map_err(|_| Error {
+                if val.chars().all(|cp| cp.is_octal_digit()) {
+                    Ok(Self::radix_value(&val, 8))
+                } else if self.matches('.') {
+                    self.scan_fractional_part(val)
+                } else {
+                    val.push_str(&self.scan_exponent()?);
+                    val.parse().map_err(|_| Error {
                         line: self.line,
                         col: self.col,
                         errortype: ErrorType::InvalidOrUnexpectedToken,
                     })
+                }
             }
             (Some(cp), _) if cp.is_decimal_digit() => {
                 // scan decimal digit
-- 
2.43.0


From 75cfcfb1434dfbc433e6dc378e4c2509b71928e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 28/78] fix: an identifier or digit directly after a number is
 accepted

---
 giron/src/scanner/scanner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 762f8dd..990efed 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -400,7 +400,12 @@ where
             (_, _) => self.error(ErrorType::InvalidOrUnexpectedToken),
         }?;
 
-        self.token_simple(TokenType::NumericLiteral, Value::Num(value))
+        match self.peek() {
+            Some(cp) if cp.is_identifier_start() || cp == '\\' || cp.is_decimal_digit() => {
+                self.error(ErrorType::InvalidOrUnexpectedToken)
+            }
+            _ => self.token_simple(TokenType::NumericLiteral, Value::Num(value)),
+        }
     }
 
     fn scan_fractional_part(&mut self, mut value: String) -> Result<f64> {
-- 
2.43.0


From eed76ac3eb9a9c982397b3c1277e433cb5c0902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 29/78] fix: a look-ahead loses the line and brace effects of
 the token it reads

---
 giron/src/scanner/scanner.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 990efed..0c25256 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -42,6 +42,7 @@ pub struct Scanner<I> {
     curly_stack: Vec<Brace>,
     unscanned: Option<Token>,
     state: Option<ScannerState>,
+    unscanned_state: Option<ScannerState>,
 }
 
 impl<I> Scanner<I>
@@ -61,12 +62,16 @@ where
             curly_stack: Vec::new(),
             unscanned: None,
             state: None,
+            unscanned_state: None,
         }
     }
 
     pub fn next(&mut self, goal: LexGoal) -> Result<Token> {
         if let Some(_) = self.unscanned {
             let token = mem::replace(&mut self.unscanned, None);
+            if let Some(state) = self.unscanned_state.take() {
+                self.apply_state(state);
+            }
             return Ok(token.unwrap());
         }
 
@@ -1157,7 +1162,11 @@ where
         //     raw_string: String,
         //     curly_stack: Vec<Brace>,
         // }
-        self.state = Some(ScannerState {
+        self.state = Some(self.current_state());
+    }
+
+    fn current_state(&self) -> ScannerState {
+        ScannerState {
             start: self.start,
             current: self.current,
             line: self.line,
@@ -1165,20 +1174,26 @@ where
             newline: self.newline,
             raw_string: self.raw_string.clone(),
             curly_stack: self.curly_stack.clone(),
-        });
+        }
+    }
+
+    fn apply_state(&mut self, state: ScannerState) {
+        self.start = state.start;
+        self.current = state.current;
+        self.line = state.line;
+        self.col = state.col;
+        self.newline = state.newline;
+        self.raw_string = state.raw_string;
+        self.curly_stack = state.curly_stack;
     }
 
     pub fn restore_state(&mut self, token: Token) {
         let state = mem::replace(&mut self.state, None);
         match state {
             Some(state) => {
-                self.start = state.start;
-                self.current = state.current;
-                self.line = state.line;
-                self.col = state.col;
-                self.newline = state.newline;
-                self.raw_string = state.raw_string;
-                self.curly_stack = state.curly_stack;
+                // the token is read already: what it did to the state is due when it is taken
+                self.unscanned_state = Some(self.current_state());
+                self.apply_state(state);
                 self.unscanned = Some(token);
             }
             None => panic!("Trying to restore an unsaved state."),
-- 
2.43.0


From 7bb220669cc1ccb5aa54412eb7ccfbcd7318e94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 30/78] fix: a line break inside a template or string counts as
 one before or after it

---
 giron/src/parser/parser.rs   |  2 +-
 giron/src/scanner/scanner.rs | 10 +++++++++-
 giron/src/token/token.rs     |  1 +
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index ee8d562..e712712 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -4033,7 +4033,7 @@ where
     }
 
     fn advance(&mut self, goal: LexGoal) -> Result<Token> {
-        let prev_line_num = self.current.line_num;
+        let prev_line_num = self.current.end_line_num;
         let token = mem::replace(&mut self.current, self.scanner.next(goal)?);
         self.has_line_terminator = self.current.line_num > prev_line_num;
         Ok(token)
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 0c25256..7403db6 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -22,6 +22,7 @@ pub enum Brace {
 
 struct ScannerState {
     start: usize,
+    start_line: usize,
     current: usize,
     line: usize,
     col: usize,
@@ -36,6 +37,7 @@ pub struct Scanner<I> {
     pub line: usize,
     pub col: usize,
     pub newline: bool,
+    start_line: usize,
     reader: Reader<I>,
     record_raw: bool,
     raw_string: String,
@@ -56,6 +58,7 @@ where
             line: 1,
             col: 1,
             newline: false,
+            start_line: 1,
             reader: Reader::new(source),
             record_raw: false,
             raw_string: String::with_capacity(8),
@@ -108,6 +111,7 @@ where
             tail: None,
             escaped: false,
             line_num: self.line,
+            end_line_num: self.line,
             col: self.col,
             start: self.current,
             end: self.current,
@@ -1092,6 +1096,7 @@ where
     fn start_new_token(&mut self) {
         self.col = 1;
         self.start = self.current;
+        self.start_line = self.line;
     }
 
     fn start_recording(&mut self) {
@@ -1127,7 +1132,8 @@ where
             head,
             tail,
             escaped: false,
-            line_num: self.line,
+            line_num: self.start_line,
+            end_line_num: self.line,
             col: self.col,
             start: self.start,
             end: self.current.saturating_sub(1),
@@ -1168,6 +1174,7 @@ where
     fn current_state(&self) -> ScannerState {
         ScannerState {
             start: self.start,
+            start_line: self.start_line,
             current: self.current,
             line: self.line,
             col: self.col,
@@ -1179,6 +1186,7 @@ where
 
     fn apply_state(&mut self, state: ScannerState) {
         self.start = state.start;
+        self.start_line = state.start_line;
         self.current = state.current;
         self.line = state.line;
         self.col = state.col;
diff --git a/giron/src/token/token.rs b/giron/src/token/token.rs
index 93cc82d..c1b051c 100644
--- a/giron/src/token/token.rs
+++ b/giron/src/token/token.rs
@@ -27,6 +27,7 @@ pub struct Token {
     pub tail: Option<bool>,
     pub escaped: bool, // an identifier name written with a unicode escape
     pub line_num: usize,
+    pub end_line_num: usize,
     pub col: usize,
     pub start: usize,
     pub end: usize,
-- 
2.43.0


From 64c23177f5f0282d8031079a8e6ae1cc49bbba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 31/78] fix: reporting an unexpected token scans past it, which
 can fail elsewhere

---
 giron/src/parser/parser.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index e712712..83dc189 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -300,7 +300,7 @@ where
                 }
                 _ => {
                     if this.scanner.is_keyword(&name) {
-                        let token = this.advance(LexGoal::RegExp)?;
+                        let token = this.current.clone();
                         return Err(Error {
                             line: token.line_num,
                             col: token.col,
@@ -562,7 +562,7 @@ where
                 if self.params.has_return {
                     self.parse_return_stmt()
                 } else {
-                    let token = self.advance(LexGoal::RegExp)?;
+                    let token = self.current.clone();
                     self.error(token, ErrorType::IllegalReturn)
                 }
             }
@@ -639,7 +639,7 @@ where
                 if self.params.has_return {
                     self.parse_return_stmt()
                 } else {
-                    let token = self.advance(LexGoal::RegExp)?;
+                    let token = self.current.clone();
                     self.error(token, ErrorType::IllegalReturn)
                 }
             }
@@ -726,7 +726,7 @@ where
             _ => match &id {
                 Binding::BindingIdentifier { .. } => None,
                 _ => {
-                    let token = self.advance(LexGoal::RegExp)?;
+                    let token = self.current.clone();
                     return self.error(token, ErrorType::MissingInitializer);
                 }
             },
@@ -1000,7 +1000,7 @@ where
                             _ => Ok(expr),
                         }?;
                         if expr.assign_target_type() != "simple" {
-                            let token = self.advance(LexGoal::RegExp)?;
+                            let token = self.current.clone();
                             return self.error(token, ErrorType::InvalidLhsInFor);
                         }
                         self.parse_for_in_stmt(Box::from(expr))
@@ -1014,7 +1014,7 @@ where
                             _ => Ok(expr),
                         }?;
                         if expr.assign_target_type() != "simple" {
-                            let token = self.advance(LexGoal::RegExp)?;
+                            let token = self.current.clone();
                             return self.error(token, ErrorType::InvalidLhsInFor);
                         }
                         self.parse_for_of_stmt(Box::from(expr))
@@ -4135,7 +4135,7 @@ where
     }
 
     fn error_current<T>(&mut self, errortype: ErrorType) -> Result<T> {
-        let token = self.advance(LexGoal::RegExp)?;
+        let token = self.current.clone();
         self.error(token, errortype)
     }
 
@@ -4150,7 +4150,7 @@ where
     }
 
     fn unexpected_current<T>(&mut self) -> Result<T> {
-        let token = self.advance(LexGoal::RegExp)?;
+        let token = self.current.clone();
         self.unexpected(token)
     }
 }
-- 
2.43.0


From 5ef61cbd0e3a3d363d09541e9411a2ad7925a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 32/78] fix: a slash that starts an operand is refused where a
 division was scanned

---
 giron/src/parser/parser.rs   |  8 ++++++++
 giron/src/scanner/scanner.rs | 21 ++++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 83dc189..29e5321 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2550,6 +2550,8 @@ where
             }
             TokenType::Punctuator if self.current.matches_punc("[") => self.parse_array_lit_expr(),
             TokenType::Punctuator if self.current.matches_punc("{") => self.parse_object_lit_expr(),
+            TokenType::Punctuator if self.current.matches_punc("/") => self.parse_regexp_lit(),
+            TokenType::Punctuator if self.current.matches_punc("/=") => self.parse_regexp_lit(),
             TokenType::RegularExpression => {
                 self.start_span();
                 let token = self.advance(LexGoal::Div)?;
@@ -3682,6 +3684,12 @@ where
         }
     }
 
+    fn parse_regexp_lit(&mut self) -> Result<Node> {
+        // an operand is due, so the slash is no division
+        self.current = self.scanner.rescan_regexp(&self.current)?;
+        self.parse_primary_expr()
+    }
+
     fn parse_array_lit_expr(&mut self) -> Result<Node> {
         log!("parse_array_lit_expr");
         // ArrayLiteral[Yield, Await]:
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 7403db6..c54e60d 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -667,6 +667,10 @@ where
 
     pub fn scan_regexp_literal(&mut self) -> Result<Token> {
         let pattern = self.scan_regexp_body()?;
+        self.scan_regexp_end(pattern)
+    }
+
+    fn scan_regexp_end(&mut self, pattern: String) -> Result<Token> {
         let flags = self.scan_regexp_flags()?;
 
         let raw = format!("/{}/{}", pattern, flags.iter().collect::<String>());
@@ -683,12 +687,27 @@ where
         )
     }
 
+    /// The regular expression that starts with a "/" or "/=" that was scanned as
+    /// a division, for when the parser finds that no division is possible there.
+    pub fn rescan_regexp(&mut self, division: &Token) -> Result<Token> {
+        self.start = division.start;
+        let body_start = match division.value {
+            Value::Punc(Punctuator::SlashAssign) => "=",
+            _ => "",
+        };
+        let pattern = self.scan_regexp_rest(String::from(body_start))?;
+        self.scan_regexp_end(pattern)
+    }
+
     fn scan_regexp_body(&mut self) -> Result<String> {
         self.expect('/')?;
         if let Some('*') = self.peek() {
             return self.error(ErrorType::InvalidOrUnexpectedToken);
         }
-        let mut value = String::from("");
+        self.scan_regexp_rest(String::new())
+    }
+
+    fn scan_regexp_rest(&mut self, mut value: String) -> Result<String> {
         let mut in_class = false;
         loop {
             match self.peek() {
-- 
2.43.0


From 093dbc6b142a4956b8086e27cfa9c895b5e9c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 33/78] fix: const declarations without initialiser are
 accepted

---
 giron/src/parser/parser.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 29e5321..cb83ce0 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -701,10 +701,10 @@ where
         }
         self.save_params();
         self.params.has_in = true;
-        let mut declarations = vec![self.parse_variable_dclr()?];
+        let mut declarations = vec![self.parse_variable_dclr("var")?];
         declarations.extend(self.parse_while_punc(",", &mut |this| {
             this.consume(",", LexGoal::RegExp)?;
-            this.parse_variable_dclr()
+            this.parse_variable_dclr("var")
         })?);
         self.restore_params();
         self.consume_semicolon(LexGoal::RegExp)?;
@@ -715,7 +715,7 @@ where
         })
     }
 
-    fn parse_variable_dclr(&mut self) -> Result<VariableDeclarator> {
+    fn parse_variable_dclr(&mut self, kind: &str) -> Result<VariableDeclarator> {
         log!("parse_variable_dclr");
         let id = self.parse_binding_id_or_pat()?;
         let init = match self.current.tokentype {
@@ -724,7 +724,7 @@ where
                 Some(self.parse_assignment_expr()?)
             }
             _ => match &id {
-                Binding::BindingIdentifier { .. } => None,
+                Binding::BindingIdentifier { .. } if kind != "const" => None,
                 _ => {
                     let token = self.current.clone();
                     return self.error(token, ErrorType::MissingInitializer);
@@ -844,7 +844,7 @@ where
                             this.consume(",", LexGoal::RegExp)?;
                             this.save_params();
                             this.params.has_in = true;
-                            let res = this.parse_variable_dclr();
+                            let res = this.parse_variable_dclr("var");
                             this.restore_params();
                             res
                         })?);
@@ -872,7 +872,7 @@ where
                                     this.consume(",", LexGoal::RegExp)?;
                                     this.save_params();
                                     this.params.has_in = true;
-                                    let res = this.parse_variable_dclr();
+                                    let res = this.parse_variable_dclr("var");
                                     this.restore_params();
                                     res
                                 })?);
@@ -914,7 +914,6 @@ where
                     _ => return self.unexpected_current(),
                 };
                 self.advance(LexGoal::RegExp)?;
-                let (line, col) = (self.current.line_num, self.current.col);
                 let id = self.parse_binding_id_or_pat()?;
                 match self.current.tokentype {
                     TokenType::Punctuator if self.current.matches_punc("=") => {
@@ -926,7 +925,7 @@ where
                             this.consume(",", LexGoal::RegExp)?;
                             this.save_params();
                             this.params.has_in = true;
-                            let res = this.parse_variable_dclr();
+                            let res = this.parse_variable_dclr(kind);
                             this.restore_params();
                             res
                         })?);
@@ -947,14 +946,14 @@ where
                     }
                     _ => {
                         match &id {
-                            Binding::BindingIdentifier { .. } => {
+                            Binding::BindingIdentifier { .. } if kind != "const" => {
                                 // LetOrConst BindingIdentifier "," ...
                                 let mut declarations = vec![VariableDeclarator { id, init: None }];
                                 declarations.extend(self.parse_while_punc(",", &mut |this| {
                                     this.consume(",", LexGoal::RegExp)?;
                                     this.save_params();
                                     this.params.has_in = true;
-                                    let res = this.parse_variable_dclr();
+                                    let res = this.parse_variable_dclr(kind);
                                     this.restore_params();
                                     res
                                 })?);
@@ -965,11 +964,7 @@ where
                                 }));
                                 self.parse_for_classic_stmt(init)
                             }
-                            _ => Err(Error {
-                                line,
-                                col,
-                                errortype: ErrorType::MissingInitializer,
-                            }),
+                            _ => self.error_current(ErrorType::MissingInitializer),
                         }
                     }
                 }
@@ -1904,10 +1899,10 @@ where
             }
             _ => self.unexpected_current(),
         }?;
-        let mut declarations = vec![self.parse_variable_dclr()?];
+        let mut declarations = vec![self.parse_variable_dclr(kind)?];
         declarations.extend(self.parse_while_punc(",", &mut |this| {
             this.consume(",", LexGoal::RegExp)?;
-            this.parse_variable_dclr()
+            this.parse_variable_dclr(kind)
         })?);
         self.consume_semicolon(LexGoal::RegExp)?;
         Ok(Node::VariableDeclaration {
-- 
2.43.0


From afd5c25773232d229454c3f43d3fe209a458f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 34/78] fix: in is an operator in the second and later parts of
 a for head initialiser

---
 giron/src/parser/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index cb83ce0..cd0f1d3 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -843,7 +843,7 @@ where
                         declarations.extend(self.parse_while_punc(",", &mut |this| {
                             this.consume(",", LexGoal::RegExp)?;
                             this.save_params();
-                            this.params.has_in = true;
+                            this.params.has_in = false;
                             let res = this.parse_variable_dclr("var");
                             this.restore_params();
                             res
@@ -871,7 +871,7 @@ where
                                 declarations.extend(self.parse_while_punc(",", &mut |this| {
                                     this.consume(",", LexGoal::RegExp)?;
                                     this.save_params();
-                                    this.params.has_in = true;
+                                    this.params.has_in = false;
                                     let res = this.parse_variable_dclr("var");
                                     this.restore_params();
                                     res
@@ -924,7 +924,7 @@ where
                         declarations.extend(self.parse_while_punc(",", &mut |this| {
                             this.consume(",", LexGoal::RegExp)?;
                             this.save_params();
-                            this.params.has_in = true;
+                            this.params.has_in = false;
                             let res = this.parse_variable_dclr(kind);
                             this.restore_params();
                             res
@@ -952,7 +952,7 @@ where
                                 declarations.extend(self.parse_while_punc(",", &mut |this| {
                                     this.consume(",", LexGoal::RegExp)?;
                                     this.save_params();
-                                    this.params.has_in = true;
+                                    this.params.has_in = false;
                                     let res = this.parse_variable_dclr(kind);
                                     this.restore_params();
                                     res
@@ -1018,7 +1018,7 @@ where
                         let mut expressions = vec![expr];
                         expressions.extend(self.parse_while_punc(",", &mut |this| {
                             this.consume(",", LexGoal::RegExp)?;
-                            this.with_in(true, &mut Self::parse_assignment_expr)
+                            this.with_in(false, &mut Self::parse_assignment_expr)
                         })?);
                         let init = Some(Box::from(Node::SequenceExpression {
                             expressions,
-- 
2.43.0


From 57a058c836c691e485826140dd4c99ebde477646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 35/78] fix: a single for initialiser becomes a
 SequenceExpression

---
 giron/src/parser/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index cd0f1d3..ff2f56f 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1015,6 +1015,10 @@ where
                         self.parse_for_of_stmt(Box::from(expr))
                     }
                     _ => {
+                        if !self.current.matches_punc(",") {
+                            self.end_span(); // not needed
+                            return self.parse_for_classic_stmt(Some(Box::from(expr)));
+                        }
                         let mut expressions = vec![expr];
                         expressions.extend(self.parse_while_punc(",", &mut |this| {
                             this.consume(",", LexGoal::RegExp)?;
-- 
2.43.0


From c7a4e8890ae090044d3c2db44cf7c5acde9b1fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 36/78] fix: for-in and for-of heads lose their declaration,
 and 'of' is only known after let

---
 giron/src/parser/parser.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index ff2f56f..136b6a8 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -855,13 +855,15 @@ where
                         }));
                         self.parse_for_classic_stmt(init)
                     }
-                    TokenType::Keyword if self.current.matches_str("of") => {
+                    TokenType::Identifier if self.current.matches_str("of") => {
                         // "var" (BindingIdentifier | BindingPattern) "of"
-                        self.parse_for_of_stmt(Box::from(id.to_node()?))
+                        let left = self.for_binding(id, "var");
+                        self.parse_for_of_stmt(left)
                     }
                     TokenType::Keyword if self.current.matches_str("in") => {
                         // "var" (BindingIdentifier | BindingPattern) "in"
-                        self.parse_for_in_stmt(Box::from(id.to_node()?))
+                        let left = self.for_binding(id, "var");
+                        self.parse_for_in_stmt(left)
                     }
                     _ => {
                         match &id {
@@ -938,11 +940,13 @@ where
                     }
                     TokenType::Keyword if self.current.matches_str("in") => {
                         // LetOrConst Binding "in" ...
-                        self.parse_for_in_stmt(Box::from(id.to_node()?))
+                        let left = self.for_binding(id, kind);
+                        self.parse_for_in_stmt(left)
                     }
                     TokenType::Identifier if self.current.matches_str("of") => {
                         // LetOrConst Binding "of" ...
-                        self.parse_for_of_stmt(Box::from(id.to_node()?))
+                        let left = self.for_binding(id, kind);
+                        self.parse_for_of_stmt(left)
                     }
                     _ => {
                         match &id {
@@ -1000,7 +1004,7 @@ where
                         }
                         self.parse_for_in_stmt(Box::from(expr))
                     }
-                    TokenType::Keyword if self.current.matches_str("of") => {
+                    TokenType::Identifier if self.current.matches_str("of") => {
                         self.end_span(); // not needed
                         expr = match expr {
                             Node::ObjectExpression { .. } | Node::ArrayExpression { .. } => {
@@ -1036,6 +1040,15 @@ where
         }
     }
 
+    /// The declaration in the head of a for-in or for-of statement.
+    fn for_binding(&mut self, id: Binding, kind: &'static str) -> Box<Node> {
+        Box::from(Node::VariableDeclaration {
+            declarations: vec![VariableDeclarator { id, init: None }],
+            kind,
+            span: self.end_span(),
+        })
+    }
+
     fn parse_for_classic_stmt(&mut self, init: Option<Box<Node>>) -> Result<Node> {
         // "for" "(" "var" VariableDeclarationList[~In, ?Yield, ?Await]
         //     ";" Expression[+In, ?Yield, ?Await](opt)
-- 
2.43.0


From 3c630f89567f4a2cb88a90470b11abe53a68b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 37/78] fix: an empty switch is refused

---
 giron/src/parser/parser.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 136b6a8..1e261af 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1204,7 +1204,7 @@ where
         self.consume("{", LexGoal::RegExp)?;
         let mut cases = vec![];
         let mut first_default = true;
-        loop {
+        while !self.current.matches_punc("}") {
             let test = match self.current.tokentype {
                 TokenType::Keyword if self.current.matches_str("case") => {
                     self.advance(LexGoal::RegExp)?;
@@ -1223,10 +1223,6 @@ where
             self.consume(":", LexGoal::RegExp)?;
             let consequent = self.parse_switch_case_consequent()?;
             cases.push(SwitchCase { test, consequent });
-            match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc("}") => break,
-                _ => (),
-            }
         }
         self.consume("}", LexGoal::RegExp)?;
         self.ctx.in_switch = prev_in_switch;
-- 
2.43.0


From a9932fc049e9273ba366488d676da23c71e730f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 38/78] fix: return before } is refused

---
 giron/src/parser/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 1e261af..7981151 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1307,6 +1307,8 @@ where
         self.consume_kw("return", LexGoal::RegExp)?;
         let argument = match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc(";") => None,
+            TokenType::Punctuator if self.current.matches_punc("}") => None,
+            TokenType::Eof => None,
             _ if !self.has_line_terminator => {
                 Some(Box::from(self.with_in(true, &mut Self::parse_expression)?))
             }
-- 
2.43.0


From ed5209d04a041184eb4ca2d316a0ddc1cc9effa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 39/78] fix: no semicolon is inserted after do-while on the
 same line

---
 giron/src/parser/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 7981151..3960e76 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1168,7 +1168,10 @@ where
         self.consume("(", LexGoal::RegExp)?;
         let test = Box::from(self.with_in(true, &mut Self::parse_expression)?);
         self.consume(")", LexGoal::RegExp)?;
-        self.consume_semicolon(LexGoal::RegExp)?;
+        // a semicolon is always inserted here if it is missing
+        if self.current.matches_punc(";") {
+            self.advance(LexGoal::RegExp)?;
+        }
         Ok(Node::DoWhileStatement {
             body,
             test,
-- 
2.43.0


From 0201ea43c35381c7f83275fa4ba66cb890ba9df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 40/78] fix: break and continue see the loops and switches
 around the function

---
 giron/src/parser/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 3960e76..fa98eab 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1586,9 +1586,15 @@ where
 
     fn parse_function_body(&mut self) -> Result<Node> {
         let prev_in_function = self.ctx.in_function;
+        let prev_in_iteration = self.ctx.in_iteration;
+        let prev_in_switch = self.ctx.in_switch;
         self.ctx.in_function = true;
+        self.ctx.in_iteration = false;
+        self.ctx.in_switch = false;
         let res = self.with_return(true, &mut Self::parse_function_body_block);
         self.ctx.in_function = prev_in_function;
+        self.ctx.in_iteration = prev_in_iteration;
+        self.ctx.in_switch = prev_in_switch;
         res
     }
 
-- 
2.43.0


From 1146fa2bb3aa4e59cbffcb26bce11e484d483eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 41/78] fix: let is refused as an identifier in sloppy code

---
 giron/src/parser/parser.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index fa98eab..747f770 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -546,6 +546,7 @@ where
 
     fn parse_stmt_list_item(&mut self) -> Result<Node> {
         log!("parse_stmt_list_item");
+        let is_let_id = self.is_let_identifier()?;
         match self.current.tokentype {
             // statements
             TokenType::Punctuator if self.current.matches_punc("{") => self.parse_block_stmt(),
@@ -599,7 +600,9 @@ where
             TokenType::Keyword if self.current.matches_str("class") => {
                 self.with_default(false, &mut Self::parse_class_dclr)
             }
-            TokenType::Identifier | TokenType::Keyword if self.current.is_lexical_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword
+                if self.current.is_lexical_dclr_kw() && !is_let_id =>
+            {
                 self.with_in(true, &mut Self::parse_lexical_dclr)
             }
             // ExpressionStatement | LabelledStatement
@@ -607,6 +610,23 @@ where
         }
     }
 
+    /// Whether the current token is a "let" that no binding follows, which makes
+    /// it an ordinary identifier.
+    fn is_let_identifier(&mut self) -> Result<bool> {
+        if self.current.tokentype != TokenType::Identifier || !self.current.matches_str("let") {
+            return Ok(false);
+        }
+        self.scanner.save_state();
+        let next_token = self.scanner.next(LexGoal::Div)?;
+        let is_binding = match next_token.tokentype {
+            TokenType::Identifier => true,
+            TokenType::Keyword => ["yield", "await"].contains(&next_token.to_str()),
+            _ => next_token.matches_punc("[") || next_token.matches_punc("{"),
+        };
+        self.scanner.restore_state(next_token);
+        Ok(!is_binding)
+    }
+
     fn parse_statement(&mut self) -> Result<Node> {
         log!("parse_statement");
         // Statement[Yield, Await, Return]:
@@ -830,6 +850,7 @@ where
         self.start_span();
         self.consume_kw("for", LexGoal::RegExp)?;
         self.consume("(", LexGoal::RegExp)?;
+        let is_let_id = self.is_let_identifier()?;
         match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("var") => {
                 self.start_span();
@@ -890,7 +911,9 @@ where
                     }
                 }
             }
-            TokenType::Keyword | TokenType::Identifier if self.current.is_lexical_dclr_kw() => {
+            TokenType::Keyword | TokenType::Identifier
+                if self.current.is_lexical_dclr_kw() && !is_let_id =>
+            {
                 // "for" "(" LexicalDeclaration[~In, ?Yield, ?Await] Expression[+In, ?Yield, ?Await](opt)
                 //     ";" Expression[+In, ?Yield, ?Await](opt) ")" Statement[?Yield, ?Await, ?Return]
                 // for "(" ForDeclaration[?Yield, ?Await] "in" Expression[+In, ?Yield, ?Await] ")" Statement[?Yield, ?Await, ?Return]
@@ -988,6 +1011,7 @@ where
                     }
                     _ => (),
                 }
+                let starts_with_let = self.current.matches_str("let");
                 let mut expr = self.with_in(false, &mut Self::parse_assignment_expr)?;
                 match self.current.tokentype {
                     TokenType::Keyword if self.current.matches_str("in") => {
@@ -1004,7 +1028,7 @@ where
                         }
                         self.parse_for_in_stmt(Box::from(expr))
                     }
-                    TokenType::Identifier if self.current.matches_str("of") => {
+                    TokenType::Identifier if self.current.matches_str("of") && !starts_with_let => {
                         self.end_span(); // not needed
                         expr = match expr {
                             Node::ObjectExpression { .. } | Node::ArrayExpression { .. } => {
-- 
2.43.0


From 39138640dd0ed777bbc5db438aac946f2f7ed42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 42/78] fix: any expression statement starting with a string
 counts as a directive

---
 giron/src/parser/parser.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 747f770..161370a 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -164,20 +164,25 @@ where
             match self.current.tokentype {
                 TokenType::StringLiteral => {
                     self.start_span();
-                    let expr = self.parse_expression()?;
-                    match &expr {
-                        Node::Literal { value, .. }
-                            if value == &Value::Str(String::from("use strict")) =>
-                        {
-                            self.ctx.strict = true;
-                        }
-                        _ => (),
+                    // written without escapes, the directive has exactly this length
+                    let is_use_strict = self.current.matches_str("use strict")
+                        && self.current.end - self.current.start == "'use strict".len();
+                    let expr = self.with_in(true, &mut Self::parse_expression)?;
+                    let is_directive = match &expr {
+                        Node::Literal { .. } => true,
+                        _ => false,
+                    };
+                    if is_directive && is_use_strict {
+                        self.ctx.strict = true;
                     }
                     self.consume_semicolon(LexGoal::RegExp)?;
                     body.push(Node::ExpressionStatement {
                         expression: Box::from(expr),
                         span: self.end_span(),
                     });
+                    if !is_directive {
+                        return Ok(body);
+                    }
                 }
                 _ => return Ok(body),
             }
-- 
2.43.0


From a9344151451892c1855b6b4fcdecdf3e36200c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 43/78] fix: declarations are accepted as the body of if, loops
 and labels

---
 giron/src/parser/parser.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 161370a..3a5a739 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -681,6 +681,36 @@ where
 
     fn parse_expression_or_labelled_stmt(&mut self) -> Result<Node> {
         log!("parse_expression_or_labelled_stmt");
+        // ExpressionStatement[Yield, Await]:
+        //     [lookahead ∉ { "{", function, async [no LineTerminator here] function, class, let [ }]
+        //       Expression[+In, ?Yield, ?Await] ";"
+        match self.current.tokentype {
+            TokenType::Keyword
+                if self.current.matches_str("function") || self.current.matches_str("class") =>
+            {
+                return self.unexpected_current()
+            }
+            TokenType::Identifier
+                if self.current.matches_str("async") || self.current.matches_str("let") =>
+            {
+                let is_async = self.current.matches_str("async");
+                self.scanner.save_state();
+                let next_token = self.scanner.next(LexGoal::Div)?;
+                let is_declaration = match is_async {
+                    true => {
+                        next_token.matches_str("function")
+                            && next_token.tokentype == TokenType::Keyword
+                            && next_token.line_num == self.current.end_line_num
+                    }
+                    false => next_token.matches_punc("["),
+                };
+                self.scanner.restore_state(next_token);
+                if is_declaration {
+                    return self.unexpected_current();
+                }
+            }
+            _ => (),
+        }
         self.start_span();
         let expr = self.with_in(true, &mut Self::parse_expression)?;
         match self.current.tokentype {
-- 
2.43.0


From 90454d692d3578eb9c1010fa9fad23fca3bfea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 44/78] fix: break and continue accept labels that do not exist

---
 giron/src/parser/parser.rs | 40 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 3a5a739..1e141b7 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -34,6 +34,13 @@ struct Context {
     in_function: bool,
     in_iteration: bool,
     in_switch: bool,
+    labels: Vec<Label>,
+}
+
+/// A label of an enclosing statement, and whether that is a loop (once known).
+struct Label {
+    name: String,
+    is_loop: Option<bool>,
 }
 
 #[allow(dead_code)]
@@ -97,6 +104,7 @@ where
                 in_function: false,
                 in_iteration: false,
                 in_switch: false,
+                labels: vec![],
             },
             params: Params::new(),
             has_line_terminator: false,
@@ -1325,6 +1333,9 @@ where
             None if !self.ctx.in_iteration => {
                 return self.error_current(ErrorType::NoIterationStatement)
             }
+            Some(label) if !self.has_label(label, true) => {
+                return self.error_current(ErrorType::NoIterationStatement)
+            }
             _ => (),
         }
         self.consume_semicolon(LexGoal::RegExp)?;
@@ -1334,6 +1345,15 @@ where
         })
     }
 
+    fn has_label(&self, label: &Node, of_loop: bool) -> bool {
+        self.ctx.labels.iter().any(|outer| match label {
+            Node::Identifier { name, .. } => {
+                outer.name == *name && (!of_loop || outer.is_loop == Some(true))
+            }
+            _ => false,
+        })
+    }
+
     fn parse_break_stmt(&mut self) -> Result<Node> {
         log!("parse_break_stmt");
         // BreakStatement[Yield, Await]:
@@ -1351,6 +1371,9 @@ where
             None if (!self.ctx.in_iteration && !self.ctx.in_switch) => {
                 return self.error_current(ErrorType::IllegalBreak)
             }
+            Some(label) if !self.has_label(label, false) => {
+                return self.error_current(ErrorType::IllegalBreak)
+            }
             _ => (),
         }
         self.consume_semicolon(LexGoal::RegExp)?;
@@ -1420,7 +1443,21 @@ where
                 }
             }
         }?;
+        if self.ctx.labels.iter().any(|outer| outer.name == label.name) {
+            return self.unexpected_current();
+        }
         self.consume(":", LexGoal::RegExp)?;
+        self.ctx.labels.push(Label {
+            name: label.name.clone(),
+            is_loop: None,
+        });
+        if self.current.tokentype != TokenType::Identifier {
+            // the labels directly in front of a statement all name that statement
+            let is_loop = Some(self.current.is_iteration_kw());
+            for label in self.ctx.labels.iter_mut() {
+                label.is_loop = label.is_loop.or(is_loop);
+            }
+        }
         let body =
             match self.current.tokentype {
                 TokenType::Keyword if self.current.matches_str("function") => {
@@ -1434,6 +1471,7 @@ where
                 }
                 _ => Box::from(self.parse_statement()?),
             };
+        self.ctx.labels.pop();
         Ok(Node::LabeledStatement {
             label,
             body,
@@ -1650,10 +1688,12 @@ where
         self.ctx.in_function = true;
         self.ctx.in_iteration = false;
         self.ctx.in_switch = false;
+        let prev_labels = mem::replace(&mut self.ctx.labels, vec![]);
         let res = self.with_return(true, &mut Self::parse_function_body_block);
         self.ctx.in_function = prev_in_function;
         self.ctx.in_iteration = prev_in_iteration;
         self.ctx.in_switch = prev_in_switch;
+        self.ctx.labels = prev_labels;
         res
     }
 
-- 
2.43.0


From 56ef70b8ef865d1bd78d82b690e2917c29fc0bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 45/78] fix: a labelled function is accepted as the body of if
 and loops

---
 giron/src/parser/parser.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 1e141b7..cb5935d 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -602,7 +602,7 @@ where
                     _ => {
                         self.scanner.restore_state(next_token);
                         self.end_span();
-                        self.parse_expression_or_labelled_stmt()
+                        self.parse_expression_or_labelled_stmt(true)
                     }
                 }
             }
@@ -619,7 +619,7 @@ where
                 self.with_in(true, &mut Self::parse_lexical_dclr)
             }
             // ExpressionStatement | LabelledStatement
-            _ => self.parse_expression_or_labelled_stmt(),
+            _ => self.parse_expression_or_labelled_stmt(true),
         }
     }
 
@@ -683,11 +683,11 @@ where
                 self.parse_debugger_stmt()
             }
             // ExpressionStatement | LabelledStatement
-            _ => self.parse_expression_or_labelled_stmt(),
+            _ => self.parse_expression_or_labelled_stmt(false),
         }
     }
 
-    fn parse_expression_or_labelled_stmt(&mut self) -> Result<Node> {
+    fn parse_expression_or_labelled_stmt(&mut self, allow_function: bool) -> Result<Node> {
         log!("parse_expression_or_labelled_stmt");
         // ExpressionStatement[Yield, Await]:
         //     [lookahead ∉ { "{", function, async [no LineTerminator here] function, class, let [ }]
@@ -724,7 +724,7 @@ where
         match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc(":") => match expr {
                 Node::Identifier { name, span, .. } => {
-                    self.parse_labelled_stmt(Some(Identifier { name, span }))
+                    self.parse_labelled_stmt(Some(Identifier { name, span }), allow_function)
                 }
                 _ => self.parse_expression_stmt(Box::from(expr)),
             },
@@ -1426,7 +1426,11 @@ where
         })
     }
 
-    fn parse_labelled_stmt(&mut self, label: Option<Identifier>) -> Result<Node> {
+    fn parse_labelled_stmt(
+        &mut self,
+        label: Option<Identifier>,
+        allow_function: bool,
+    ) -> Result<Node> {
         log!("parse_labelled_stmt");
         // LabelledStatement[Yield, Await, Return]:
         //     LabelIdentifier[?Yield, ?Await] ":" LabelledItem[?Yield, ?Await, ?Return]
@@ -1461,7 +1465,7 @@ where
         let body =
             match self.current.tokentype {
                 TokenType::Keyword if self.current.matches_str("function") => {
-                    if self.ctx.strict {
+                    if self.ctx.strict || !allow_function {
                         return self.error_current(ErrorType::StrictFunction);
                     } else {
                         Box::from(self.with_default(false, &mut |this| {
@@ -1469,6 +1473,9 @@ where
                         })?)
                     }
                 }
+                TokenType::Identifier => {
+                    Box::from(self.parse_expression_or_labelled_stmt(allow_function)?)
+                }
                 _ => Box::from(self.parse_statement()?),
             };
         self.ctx.labels.pop();
-- 
2.43.0


From 571d7fd2a15fbc33bfe0f07d4a07104586c36ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 46/78] fix: async function declarations are refused

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index cb5935d..765a46d 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1627,7 +1627,7 @@ where
         //     "async" [no LineTerminator here] "function" "*" BindingIdentifier[?Yield, ?Await]
         //       "(" FormalParameters[+Yield, +Await] ")" "{" AsyncGeneratorBody "}"
         //     [+Default] "async" [no LineTerminator here] "function" "*" "(" FormalParameters[+Yield, +Await] ")" "{" AsyncGeneratorBody "}"
-        if r#async && !self.has_line_terminator {
+        if r#async && self.has_line_terminator {
             return self.unexpected_current();
         }
         if !r#async {
-- 
2.43.0


From f36b4fba75e5087e408d6b03f23e492ed246d1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 47/78] fix: == is not an assignment operator

---
 giron/src/parser/syntax.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index 8427321..9f61c69 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -81,7 +81,6 @@ impl Syntax for Token {
             | Value::Punc(Punctuator::BitOrAssign)
             | Value::Punc(Punctuator::BitXorAssign)
             | Value::Punc(Punctuator::SlashAssign) => true,
-            Value::Punc(Punctuator::Equal) => true,
             _ => false,
         }
     }
-- 
2.43.0


From 18f3deef3b9c5bfbe75ff174065bb99caa1df8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 48/78] fix: % has the precedence of * and /

---
 giron/src/parser/syntax.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index 9f61c69..c11476a 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -161,7 +161,7 @@ impl Syntax for Token {
             TokenType::Punctuator if self.matches_punc("-") => 9,
             TokenType::Punctuator if self.matches_punc("*") => 10,
             TokenType::Punctuator if self.matches_punc("/") => 10,
-            TokenType::Punctuator if self.matches_punc("%") => 11,
+            TokenType::Punctuator if self.matches_punc("%") => 10,
             TokenType::Keyword if self.matches_str("instanceof") => 7,
             TokenType::Keyword if (self.matches_str("in") && has_in) => 7,
             _ => 0,
-- 
2.43.0


From 2c7d5c836097c2eb341bf67f470431bcca2b639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 49/78] fix: && and || yield LogicalExpression

---
 giron/src/estree/estree.rs |  2 +-
 giron/src/parser/parser.rs | 23 +++++++++++++++++------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index fc0df52..2c46c87 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -523,7 +523,7 @@ pub enum Node {
         span: Span,
     },
     LogicalExpression {
-        operator: &'static str,
+        operator: String,
         left: Box<Node>,  // Expression
         right: Box<Node>, // Expression
         #[serde(skip)]
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 765a46d..ce3e951 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2242,12 +2242,23 @@ where
             {
                 rhs = self.precedence_climbing(rhs, self.current.precedence(self.params.has_in))?;
             }
-            lhs = Node::BinaryExpression {
-                operator: op.to_string(),
-                left: Box::from(lhs),
-                right: Box::from(rhs),
-                assign_target_type: "invalid",
-                span: self.end_span(),
+            let (left, right) = (Box::from(lhs), Box::from(rhs));
+            let span = self.end_span();
+            let operator = op.to_string();
+            lhs = match &operator[..] {
+                "&&" | "||" => Node::LogicalExpression {
+                    operator,
+                    left,
+                    right,
+                    span,
+                },
+                _ => Node::BinaryExpression {
+                    operator,
+                    left,
+                    right,
+                    assign_target_type: "invalid",
+                    span,
+                },
             };
             self.start_span();
         }
-- 
2.43.0


From b6b0c2129f6a476d9e6a273d41e5665e18600f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 50/78] fix: an unparenthesised unary expression cannot be the
 base of **

---
 giron/src/parser/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index ce3e951..0ff5046 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2272,7 +2272,11 @@ where
         //     UpdateExpression[?Yield, ?Await] ** ExponentiationExpression[?Yield, ?Await]
         log!("parse_exponentiation_expr");
         if self.current.is_unary_op(self.params.has_await) {
-            self.parse_unary_expr()
+            let expr = self.parse_unary_expr()?;
+            if self.current.matches_punc("**") {
+                return self.unexpected_current();
+            }
+            Ok(expr)
         } else {
             self.start_span();
             let lhs = self.parse_update_expr()?;
-- 
2.43.0


From 75e401ca4f7a409b811f9d00bbdf98e606d07db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:39 +0000
Subject: [PATCH 51/78] fix: await yields AwaitExpression

---
 giron/src/parser/parser.rs | 7 +++++++
 giron/src/parser/syntax.rs | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 0ff5046..2964f4e 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2317,6 +2317,13 @@ where
                 if self.current.is_unary_op(self.params.has_await) =>
             {
                 self.start_span();
+                if self.current.matches_str("await") {
+                    self.advance(LexGoal::RegExp)?;
+                    return Ok(Node::AwaitExpression {
+                        argument: Box::new(self.parse_unary_expr()?),
+                        span: self.end_span(),
+                    });
+                }
                 Ok(Node::UnaryExpression {
                     operator: self.advance(LexGoal::RegExp)?.to_string(),
                     argument: Box::new(self.parse_unary_expr()?),
diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index c11476a..c75007e 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -123,7 +123,7 @@ impl Syntax for Token {
             _ => false,
         };
         let unary_keyword = match self.tokentype {
-            TokenType::Keyword => match self.to_str() {
+            TokenType::Keyword if !self.escaped => match self.to_str() {
                 "delete" | "void" | "typeof" => true,
                 "await" if has_await => true,
                 _ => false,
-- 
2.43.0


From f0f43921a9f8a227ee459cb3533a4a80288f7632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 52/78] fix: reserved and restricted names are refused as
 references and bindings

---
 giron/src/errors/errors.rs |  2 +
 giron/src/parser/parser.rs | 98 +++++++++++++++++---------------------
 giron/src/parser/syntax.rs |  8 +++-
 3 files changed, 51 insertions(+), 57 deletions(-)

diff --git a/giron/src/errors/errors.rs b/giron/src/errors/errors.rs
index 43ae015..0210a71 100644
--- a/giron/src/errors/errors.rs
+++ b/giron/src/errors/errors.rs
@@ -106,6 +106,7 @@ pub enum ErrorType {
     IllegalBreak,
     StrictWith,
     StrictFunction,
+    StrictEvalArguments,
     NewlineAfterThrow,
     GeneratorInSingleStatementContext,
     MissingFunctionName,
@@ -144,6 +145,7 @@ impl fmt::Display for Error {
             ),
             ErrorType::IllegalBreak => write!(f, "Illegal break statement"),
             ErrorType::StrictWith => write!(f, "Strict mode code may not include a with statement"),
+            ErrorType::StrictEvalArguments => write!(f, "Unexpected eval or arguments in strict mode"),
             ErrorType::StrictFunction => write!(f, "In strict mode code, functions can only be declared at top level or inside a block."),
             ErrorType::NewlineAfterThrow => write!(f, "Illegal newline after throw"),
             ErrorType::GeneratorInSingleStatementContext => write!(f, "Generators can only be declared at the top level or inside a block."),
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 2964f4e..5dad2e1 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3972,77 +3972,65 @@ where
         //     [~Yield] yield
         //     [~Await] await
         self.start_span();
+        let token = self.current.clone();
+        let assign_target_type = self.id_reference_type(&token)?;
+        Ok(Node::Identifier {
+            name: self.advance(LexGoal::Div)?.to_string(),
+            assign_target_type,
+            span: self.end_span(),
+        })
+    }
 
-        if self.ctx.strict && self.current.is_strict_reserved_kw() {
-            return self.error_current(ErrorType::UnexpectedStrictReserved);
+    /// Checks that a token is an identifier reference, and tells whether it can be assigned to.
+    fn id_reference_type(&mut self, token: &Token) -> Result<&'static str> {
+        if self.ctx.strict && token.is_strict_reserved_kw() {
+            return self.error(token.clone(), ErrorType::UnexpectedStrictReserved);
         }
-
-        match self.current.tokentype {
-            TokenType::Identifier => {
-                let name = self.advance(LexGoal::Div)?.to_string();
-                let assign_target_type = match &name[..] {
-                    "eval" | "arguments" if self.ctx.strict => "strict",
-                    _ => "simple",
-                };
-                Ok(Node::Identifier {
-                    name,
-                    assign_target_type,
-                    span: self.end_span(),
-                })
-            }
-            TokenType::Keyword if self.current.matches_str("yield") => {
+        match token.tokentype {
+            TokenType::Identifier => match token.to_str() {
+                "eval" | "arguments" if self.ctx.strict => Ok("strict"),
+                _ => Ok("simple"),
+            },
+            TokenType::Keyword if token.to_str() == "yield" => {
                 if self.params.has_yield {
-                    self.error_current(ErrorType::YieldInParameter)
+                    self.error(token.clone(), ErrorType::YieldInParameter)
+                } else if self.ctx.strict {
+                    self.error(token.clone(), ErrorType::UnexpectedStrictReserved)
                 } else {
-                    Ok(Node::Identifier {
-                        name: self.advance(LexGoal::Div)?.to_string(),
-                        assign_target_type: "simple",
-                        span: self.end_span(),
-                    })
+                    Ok("simple")
                 }
             }
-            TokenType::Keyword if self.current.matches_str("await") => {
-                if self.params.has_await {
-                    self.error_current(ErrorType::AwaitExpressionFormalParameter)
+            TokenType::Keyword if token.to_str() == "await" => {
+                let is_module = match self.goal {
+                    SyntaxGoal::Module => true,
+                    _ => false,
+                };
+                if self.params.has_await || is_module {
+                    self.error(token.clone(), ErrorType::AwaitExpressionFormalParameter)
                 } else {
-                    Ok(Node::Identifier {
-                        name: self.advance(LexGoal::Div)?.to_string(),
-                        assign_target_type: "simple",
-                        span: self.end_span(),
-                    })
+                    Ok("simple")
                 }
             }
-            _ => self.unexpected_current(),
+            _ => self.unexpected(token.clone()),
         }
     }
 
     fn parse_binding_id(&mut self) -> Result<Binding> {
         log!("parse_binding_id");
+        // BindingIdentifier[Yield, Await]:
+        //     Identifier
+        //     yield
+        //     await
         self.start_span();
-
-        if self.ctx.strict && self.current.is_strict_reserved_kw() {
-            return self.error_current(ErrorType::UnexpectedStrictReserved);
-        }
-
-        match self.current.tokentype {
-            TokenType::Identifier => Ok(Binding::BindingIdentifier(BindingIdentifier {
-                name: self.advance(LexGoal::Div)?.to_string(),
-                span: self.end_span(),
-            })),
-            TokenType::Keyword if self.current.matches_str("yield") => {
-                Ok(Binding::BindingIdentifier(BindingIdentifier {
-                    name: self.advance(LexGoal::Div)?.to_string(),
-                    span: self.end_span(),
-                }))
-            }
-            TokenType::Keyword if self.current.matches_str("await") => {
-                Ok(Binding::BindingIdentifier(BindingIdentifier {
-                    name: self.advance(LexGoal::Div)?.to_string(),
-                    span: self.end_span(),
-                }))
-            }
-            _ => self.unexpected_current(),
+        let token = self.current.clone();
+        // in strict code neither `eval` nor `arguments` can be bound
+        if self.id_reference_type(&token)? != "simple" {
+            return self.error(token, ErrorType::StrictEvalArguments);
         }
+        Ok(Binding::BindingIdentifier(BindingIdentifier {
+            name: self.advance(LexGoal::Div)?.to_string(),
+            span: self.end_span(),
+        }))
     }
 
     fn parse_id_name(&mut self, goal: LexGoal) -> Result<String> {
diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index c75007e..f5d3d24 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -216,8 +216,12 @@ impl Syntax for Token {
     }
 
     fn is_strict_reserved_kw(&self) -> bool {
-        match self.to_str() {
-            "implements" | "interface" | "package" | "private" | "protected" | "public" => true,
+        match &self.value {
+            Value::Str(name) => match &name[..] {
+                "implements" | "interface" | "let" | "package" | "private" | "protected"
+                | "public" | "static" => true,
+                _ => false,
+            },
             _ => false,
         }
     }
-- 
2.43.0


From 634d1fa65eb6c10e5d9eb97d37f2ff6099da47c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 53/78] fix: the value of a boolean literal is a boolean

---
 giron/src/parser/parser.rs | 8 ++++++--
 giron/src/token/value.rs   | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 5dad2e1..0bfbb79 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2686,8 +2686,12 @@ where
             | TokenType::BooleanLiteral
             | TokenType::NullLiteral => {
                 self.start_span();
-                let value = self.advance(LexGoal::Div)?.value;
-                let raw = String::from(&value);
+                let token = self.advance(LexGoal::Div)?;
+                let raw = String::from(&token.value);
+                let value = match token.tokentype {
+                    TokenType::BooleanLiteral => Value::Bool(raw == "true"),
+                    _ => token.value,
+                };
                 Ok(Node::Literal {
                     value,
                     raw,
diff --git a/giron/src/token/value.rs b/giron/src/token/value.rs
index 2af7cca..4e9fbd2 100644
--- a/giron/src/token/value.rs
+++ b/giron/src/token/value.rs
@@ -6,6 +6,7 @@ use serde::Serialize;
 pub enum Value {
     Str(String),
     Num(f64),
+    Bool(bool),
     Punc(Punctuator),
     Null,
 }
@@ -15,6 +16,7 @@ impl From<&Value> for String {
         match value {
             Value::Str(s) => s.clone(),
             Value::Num(x) => x.to_string(),
+            Value::Bool(b) => b.to_string(),
             Value::Punc(p) => p.to_string(),
             Value::Null => String::from("null"),
         }
-- 
2.43.0


From ada0d121554e0a49580d6e51ad8a567b5db853bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 54/78] fix: true, false and null are property names

---
 giron/src/parser/parser.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 0bfbb79..d718df3 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -4037,12 +4037,21 @@ where
         }))
     }
 
+    /// Whether the current token is an IdentifierName; reserved words are.
+    fn at_id_name(&self) -> bool {
+        match self.current.tokentype {
+            TokenType::Identifier
+            | TokenType::Keyword
+            | TokenType::BooleanLiteral
+            | TokenType::NullLiteral => true,
+            _ => false,
+        }
+    }
+
     fn parse_id_name(&mut self, goal: LexGoal) -> Result<String> {
         log!("parse_id_name");
         match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword => {
-                Ok(self.advance(goal)?.value.string().unwrap())
-            }
+            _ if self.at_id_name() => Ok(String::from(&self.advance(goal)?.value)),
             _ => self.unexpected_current(),
         }
     }
-- 
2.43.0


From 4b5f808a24d41564285d77bfd9195a4653f39840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 55/78] fix: function expressions: generator star, name and the
 context of parameters and body

---
 giron/src/parser/parser.rs | 66 ++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 14 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index d718df3..8f3678a 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -52,6 +52,8 @@ struct Params {
     has_tagged: bool,
     has_return: bool,
     has_default: bool,
+    in_params: bool,  // in formal parameters, which contain no yield or await expression
+    is_lexical: bool, // the bindings are of a let or const declaration
 }
 
 impl Params {
@@ -63,6 +65,8 @@ impl Params {
             has_tagged: false,
             has_return: false,
             has_default: false,
+            in_params: false,
+            is_lexical: false,
         }
     }
 }
@@ -1660,32 +1664,44 @@ where
             },
         }?;
 
+        let (params, body) = self.parse_function_params_and_body(r#async, generator)?;
+        Ok(Node::FunctionDeclaration {
+            id,
+            params,
+            body,
+            generator,
+            expression: false,
+            r#async,
+            span: self.end_span(),
+        })
+    }
+
+    fn parse_function_params_and_body(
+        &mut self,
+        r#async: bool,
+        generator: bool,
+    ) -> Result<(Vec<FunctionParameter>, Box<Node>)> {
         let params = self.with_params(
             Params {
                 has_yield: generator,
                 has_await: r#async,
+                in_params: true,
+                is_lexical: false,
                 ..self.params
             },
             &mut Self::parse_formal_params,
         )?;
-
         let body = self.with_params(
             Params {
                 has_yield: generator,
                 has_await: r#async,
+                in_params: false,
+                is_lexical: false,
                 ..self.params
             },
             &mut Self::parse_function_body,
         )?;
-        Ok(Node::FunctionDeclaration {
-            id,
-            params,
-            body: Box::from(body),
-            generator,
-            expression: false,
-            r#async,
-            span: self.end_span(),
-        })
+        Ok((params, Box::from(body)))
     }
 
     fn parse_function_body(&mut self) -> Result<Node> {
@@ -2147,6 +2163,9 @@ where
         //     delegate: bool,
         // },
         log!("parse_yield_expr");
+        if self.params.in_params {
+            return self.error_current(ErrorType::YieldInParameter);
+        }
         self.start_span();
         self.consume_kw("yield", LexGoal::RegExp)?;
         if !self.has_line_terminator {
@@ -2318,6 +2337,9 @@ where
             {
                 self.start_span();
                 if self.current.matches_str("await") {
+                    if self.params.in_params {
+                        return self.error_current(ErrorType::AwaitExpressionFormalParameter);
+                    }
                     self.advance(LexGoal::RegExp)?;
                     return Ok(Node::AwaitExpression {
                         argument: Box::new(self.parse_unary_expr()?),
@@ -3340,17 +3362,33 @@ where
         }
         self.consume_kw("function", LexGoal::RegExp)?;
         let generator = match self.current.tokentype {
-            TokenType::Punctuator if self.current.matches_str("*") => true,
+            TokenType::Punctuator if self.current.matches_punc("*") => {
+                self.advance(LexGoal::RegExp)?;
+                true
+            }
             _ => false,
         };
+        // the name is bound inside the function
         let id = match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("(") => None,
-            _ => Some(Box::from(self.parse_id_reference()?)),
+            _ => Some(Box::from(
+                self.with_params(
+                    Params {
+                        has_yield: generator,
+                        has_await: r#async,
+                        is_lexical: false,
+                        ..self.params
+                    },
+                    &mut Self::parse_binding_id,
+                )?
+                .to_node()?,
+            )),
         };
+        let (params, body) = self.parse_function_params_and_body(r#async, generator)?;
         Ok(Node::FunctionExpression {
             id,
-            params: self.parse_formal_params()?,
-            body: Box::from(self.parse_function_body()?),
+            params,
+            body,
             generator,
             expression: false,
             r#async,
-- 
2.43.0


From 9132df61b36452088e900eb631c5d81f7e438e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 56/78] fix: yield takes an operand only if one follows, string
 literals are not yield

---
 giron/src/parser/parser.rs | 72 +++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 32 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 8f3678a..57432d5 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2100,7 +2100,10 @@ where
         //     AsyncArrowFunction[?In, ?Yield, ?Await]
         //     LeftHandSideExpression[?Yield, ?Await] "=" AssignmentExpression[?In, ?Yield, ?Await]
         //     LeftHandSideExpression[?Yield, ?Await] AssignmentOperator AssignmentExpression[?In, ?Yield, ?Await]
-        if self.params.has_yield && self.current.matches_str("yield") {
+        if self.params.has_yield
+            && self.current.tokentype == TokenType::Keyword
+            && self.current.matches_str("yield")
+        {
             return self.parse_yield_expr();
         }
         self.start_span();
@@ -2168,38 +2171,43 @@ where
         }
         self.start_span();
         self.consume_kw("yield", LexGoal::RegExp)?;
-        if !self.has_line_terminator {
-            match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc("*") => {
-                    self.advance(LexGoal::RegExp)?;
-                    Ok(Node::YieldExpression {
-                        argument: Some(Box::from(
-                            self.with_yield(true, &mut Self::parse_assignment_expr)?,
-                        )),
-                        delegate: true,
-                        assign_target_type: "invalid",
-                        span: self.end_span(),
-                    })
-                }
-                TokenType::Punctuator if self.current.matches_punc("=>") => {
-                    self.parse_single_param_arrow_function_expr(String::from("yield"))
-                }
-                _ => Ok(Node::YieldExpression {
-                    argument: Some(Box::from(
-                        self.with_yield(true, &mut Self::parse_assignment_expr)?,
-                    )),
-                    delegate: false,
-                    assign_target_type: "invalid",
-                    span: self.end_span(),
-                }),
-            }
+        let delegate = !self.has_line_terminator && self.current.matches_punc("*");
+        if delegate {
+            self.advance(LexGoal::RegExp)?;
+        }
+        let argument = if delegate || (!self.has_line_terminator && self.at_operand()) {
+            Some(Box::from(
+                self.with_yield(true, &mut Self::parse_assignment_expr)?,
+            ))
         } else {
-            Ok(Node::YieldExpression {
-                argument: None,
-                delegate: false,
-                assign_target_type: "invalid",
-                span: self.end_span(),
-            })
+            None
+        };
+        Ok(Node::YieldExpression {
+            argument,
+            delegate,
+            assign_target_type: "invalid",
+            span: self.end_span(),
+        })
+    }
+
+    /// Whether the current token can begin an expression.
+    fn at_operand(&self) -> bool {
+        match self.current.tokentype {
+            TokenType::Punctuator => match &self.current.value {
+                Value::Punc(punc) => match punc.to_str() {
+                    "(" | "[" | "{" | "+" | "-" | "!" | "~" | "++" | "--" | "/" | "/=" => true,
+                    _ => false,
+                },
+                _ => false,
+            },
+            TokenType::Keyword => match self.current.to_str() {
+                "await" | "class" | "delete" | "function" | "new" | "super" | "this" | "typeof"
+                | "void" | "yield" => true,
+                _ => false,
+            },
+            TokenType::Template => self.current.head == Some(true),
+            TokenType::Eof => false,
+            _ => true,
         }
     }
 
-- 
2.43.0


From 7840c56ebc71c3bf4b95da31757469b188727943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 57/78] fix: conversion of array and object literals to
 patterns

---
 giron/src/estree/estree.rs | 229 ++++++++++++++++++++++++++-----------
 giron/src/parser/parser.rs |   4 +
 2 files changed, 166 insertions(+), 67 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 2c46c87..2f4e428 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -68,6 +68,8 @@ pub struct Regex {
 pub struct SpreadElement {
     pub argument: Node,
     #[serde(skip)]
+    pub trailing_comma: bool, // then it denotes no rest element
+    #[serde(skip)]
     pub span: Span,
 }
 
@@ -120,7 +122,7 @@ impl Binding {
                 assign_target_type: "simple",
                 span,
             }),
-            _ => panic!(),
+            Binding::Expression(expr) => Ok(*expr),
         }
     }
 
@@ -330,7 +332,12 @@ impl ArgumentListElement {
     pub fn as_node(self) -> Result<Node> {
         match self {
             ArgumentListElement::Expression(node) => Ok(node),
-            ArgumentListElement::SpreadElement(SpreadElement { argument, span }) => {
+            ArgumentListElement::SpreadElement(SpreadElement {
+                trailing_comma: true,
+                span,
+                ..
+            }) => Node::error(ErrorType::ParamAfterRest, span.start),
+            ArgumentListElement::SpreadElement(SpreadElement { argument, span, .. }) => {
                 Ok(Node::SpreadElement {
                     argument: Box::from(argument),
                     span,
@@ -357,6 +364,8 @@ pub enum ObjectExpressionProperty {
     SpreadElement {
         argument: Node,
         #[serde(skip)]
+        trailing_comma: bool,
+        #[serde(skip)]
         span: Span,
     },
 }
@@ -1053,22 +1062,6 @@ impl Node {
         }
     }
 
-    fn to_binding(self) -> Result<Binding> {
-        let node = self.to_binding_pattern()?;
-        match node {
-            Node::BindingIdentifier { name, span } => {
-                Ok(Binding::BindingIdentifier(BindingIdentifier { name, span }))
-            }
-            Node::ArrayPattern { elements, span, .. } => {
-                Ok(Binding::ArrayPattern(ArrayPattern { elements, span }))
-            }
-            Node::ObjectPattern {
-                properties, span, ..
-            } => Ok(Binding::ObjectPattern(ObjectPattern { properties, span })),
-            _ => Ok(Binding::Expression(Box::from(node))),
-        }
-    }
-
     fn to_strict_binding(self, marker: Marker) -> Result<Binding> {
         let node = self.to_binding_pattern()?;
         match node {
@@ -1102,30 +1095,28 @@ impl Node {
         span: Span,
     ) -> Result<Node> {
         let mut pat_elems = vec![];
-        let last_idx = elements.len();
+        let len = elements.len();
         for (i, element) in elements.into_iter().enumerate() {
             match element {
                 Some(ArrayExpressionElement::Expression(expr)) => {
                     let element = expr.as_assignment_element()?;
                     pat_elems.push(Some(ArrayAssignmentPatternElement::Expression(element)));
                 }
-                Some(ArrayExpressionElement::SpreadElement(SpreadElement { argument, span })) => {
-                    if i != last_idx {
+                Some(ArrayExpressionElement::SpreadElement(SpreadElement {
+                    argument,
+                    trailing_comma,
+                    span,
+                })) => {
+                    if i + 1 != len || trailing_comma {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
-                    let argument = match argument {
-                        Node::ArrayExpression { span, .. }
-                        | Node::ObjectExpression { span, .. } => {
-                            return Node::error(ErrorType::InvalidRestBindingPattern, span.start)
-                        }
-                        _ => argument,
-                    };
+                    let argument = argument.to_assignment_pattern()?;
                     if argument.assign_target_type() != "simple" {
                         return Node::error(ErrorType::InvalidLhsInAssignment, span.start);
                     }
                     pat_elems.push(Some(ArrayAssignmentPatternElement::RestElement(
                         RestElement {
-                            argument: argument.to_binding()?,
+                            argument: Binding::Expression(Box::from(argument)),
                         },
                     )))
                 }
@@ -1218,8 +1209,12 @@ impl Node {
                         shorthand,
                     });
                 }
-                ObjectExpressionProperty::SpreadElement { argument, span } => {
-                    if i != last_idx {
+                ObjectExpressionProperty::SpreadElement {
+                    argument,
+                    trailing_comma,
+                    span,
+                } => {
+                    if i != last_idx || trailing_comma {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
                     let argument = match argument {
@@ -1233,7 +1228,7 @@ impl Node {
                         return Node::error(ErrorType::InvalidLhsInAssignment, span.start);
                     }
                     pat_props.push(ObjectPatternProperty::RestElement {
-                        argument: argument.to_binding()?,
+                        argument: Binding::Expression(Box::from(argument)),
                     });
                 }
             }
@@ -1247,7 +1242,24 @@ impl Node {
 
     pub fn to_binding_pattern(self) -> Result<Node> {
         match self {
+            // `eval` and `arguments` in strict code
+            Node::Identifier {
+                assign_target_type: "strict",
+                span,
+                ..
+            } => Node::error(ErrorType::StrictEvalArguments, span.start),
             Node::Identifier { name, span, .. } => Ok(Node::BindingIdentifier { name, span }),
+            Node::ArrayAssignmentPattern { elements, span, .. } => {
+                Node::array_assign_to_pattern(elements, span)
+            }
+            Node::ObjectPattern {
+                properties, span, ..
+            } => Node::object_assign_to_pattern(properties, span),
+            Node::AssignmentPattern { left, right, span } => Ok(Node::AssignmentPattern {
+                left: left.to_node()?.to_strict_binding(span.clone().start)?,
+                right,
+                span,
+            }),
             Node::ArrayExpression { elements, span, .. } => Node::array_to_pattern(elements, span),
             Node::ObjectExpression {
                 properties, span, ..
@@ -1273,14 +1285,18 @@ impl Node {
 
     fn array_to_pattern(elements: Vec<Option<ArrayExpressionElement>>, span: Span) -> Result<Node> {
         let mut pat_elems = vec![];
-        let last_idx = elements.len() - 1;
+        let len = elements.len();
         for (i, element) in elements.into_iter().enumerate() {
             match element {
                 Some(ArrayExpressionElement::Expression(expr)) => {
-                    pat_elems.push(Some(expr.to_array_pattern_element(i == last_idx)?))
+                    pat_elems.push(Some(expr.to_array_pattern_element(i + 1 == len)?))
                 }
-                Some(ArrayExpressionElement::SpreadElement(SpreadElement { argument, span })) => {
-                    if i != last_idx {
+                Some(ArrayExpressionElement::SpreadElement(SpreadElement {
+                    argument,
+                    trailing_comma,
+                    span,
+                })) => {
+                    if i + 1 != len || trailing_comma {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
                     pat_elems.push(Some(ArrayPatternElement::RestElement {
@@ -1352,35 +1368,7 @@ impl Node {
                     shorthand,
                     span,
                 } => {
-                    let value = match value {
-                        Some(PropertyValue::Expression(expr)) => match expr.to_binding_pattern()? {
-                            Node::AssignmentPattern { left, right, .. } => {
-                                Ok(Some(PropertyValue::AssignmentPattern(AssignmentPattern {
-                                    left,
-                                    right: *right,
-                                })))
-                            }
-                            Node::BindingIdentifier { name, span } => {
-                                Ok(Some(PropertyValue::BindingIdentifier(BindingIdentifier {
-                                    name,
-                                    span,
-                                })))
-                            }
-                            Node::ObjectPattern { properties, .. } => {
-                                Ok(Some(PropertyValue::BindingPattern(
-                                    BindingPattern::ObjectPattern { properties },
-                                )))
-                            }
-                            Node::ArrayPattern { elements, .. } => {
-                                Ok(Some(PropertyValue::BindingPattern(
-                                    BindingPattern::ArrayPattern { elements },
-                                )))
-                            }
-                            _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
-                        },
-                        None => Ok(None),
-                        _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
-                    }?;
+                    let value = Node::value_to_pattern(value, span)?;
                     pat_props.push(ObjectPatternProperty::Property {
                         key,
                         computed,
@@ -1390,8 +1378,17 @@ impl Node {
                         shorthand,
                     });
                 }
-                ObjectExpressionProperty::SpreadElement { argument, span } => {
-                    if i == last_idx {
+                ObjectExpressionProperty::SpreadElement {
+                    argument,
+                    trailing_comma,
+                    span,
+                } => {
+                    // the rest of an object is bound to an identifier
+                    let is_id = match &argument {
+                        Node::Identifier { .. } => true,
+                        _ => false,
+                    };
+                    if i == last_idx && !trailing_comma && is_id {
                         pat_props.push(ObjectPatternProperty::RestElement {
                             argument: argument.to_strict_binding(span.start)?,
                         });
@@ -1408,6 +1405,104 @@ impl Node {
         })
     }
 
+    fn value_to_pattern(value: Option<PropertyValue>, span: Span) -> Result<Option<PropertyValue>> {
+        match value {
+            Some(PropertyValue::Expression(expr)) => match expr.to_binding_pattern()? {
+                Node::AssignmentPattern { left, right, .. } => {
+                    Ok(Some(PropertyValue::AssignmentPattern(AssignmentPattern {
+                        left,
+                        right: *right,
+                    })))
+                }
+                Node::BindingIdentifier { name, span } => {
+                    Ok(Some(PropertyValue::BindingIdentifier(BindingIdentifier {
+                        name,
+                        span,
+                    })))
+                }
+                Node::ObjectPattern { properties, .. } => {
+                    Ok(Some(PropertyValue::BindingPattern(
+                        BindingPattern::ObjectPattern { properties },
+                    )))
+                }
+                Node::ArrayPattern { elements, .. } => {
+                    Ok(Some(PropertyValue::BindingPattern(
+                        BindingPattern::ArrayPattern { elements },
+                    )))
+                }
+                _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
+            },
+            None => Ok(None),
+            _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
+        }
+    }
+
+    /// The binding pattern denoted by the same text as an array assignment pattern.
+    fn array_assign_to_pattern(
+        elements: Vec<Option<ArrayAssignmentPatternElement>>,
+        span: Span,
+    ) -> Result<Node> {
+        let mut pat_elems = vec![];
+        for element in elements.into_iter() {
+            pat_elems.push(match element {
+                Some(ArrayAssignmentPatternElement::Expression(expr)) => {
+                    Some(expr.to_array_pattern_element(false)?)
+                }
+                Some(ArrayAssignmentPatternElement::RestElement(RestElement { argument })) => {
+                    Some(ArrayPatternElement::RestElement {
+                        argument: argument.to_node()?.to_strict_binding(span.clone().start)?,
+                    })
+                }
+                None => None,
+            });
+        }
+        Ok(Node::ArrayPattern {
+            elements: pat_elems,
+            assign_target_type: "simple",
+            span,
+        })
+    }
+
+    /// The binding pattern denoted by the same text as an object assignment pattern.
+    fn object_assign_to_pattern(
+        properties: Vec<ObjectPatternProperty>,
+        span: Span,
+    ) -> Result<Node> {
+        let mut pat_props = vec![];
+        for property in properties.into_iter() {
+            pat_props.push(match property {
+                ObjectPatternProperty::Property {
+                    key,
+                    computed,
+                    value,
+                    kind,
+                    method,
+                    shorthand,
+                } => ObjectPatternProperty::Property {
+                    key,
+                    computed,
+                    value: Node::value_to_pattern(value, span.clone())?,
+                    kind,
+                    method,
+                    shorthand,
+                },
+                ObjectPatternProperty::RestElement { argument } => match argument.to_node()? {
+                    Node::Identifier { name, span, .. } | Node::BindingIdentifier { name, span } => {
+                        ObjectPatternProperty::RestElement {
+                            argument: Binding::BindingIdentifier(BindingIdentifier { name, span }),
+                        }
+                    }
+                    _ => return Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
+                },
+            });
+        }
+        Ok(Node::ObjectPattern {
+            properties: pat_props,
+            assign_target_type: "simple",
+            span,
+        })
+    }
+
     pub fn error<T>(errortype: ErrorType, marker: Marker) -> Result<T> {
         Err(Error {
             line: marker.line,
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 57432d5..d18a1db 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2841,6 +2841,7 @@ where
                 let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
                 let res = ArgumentListElement::SpreadElement(SpreadElement {
                     argument,
+                    trailing_comma: this.current.matches_punc(","),
                     span: this.end_span(),
                 });
                 if !this.current.matches_punc(")") {
@@ -3524,6 +3525,7 @@ where
                 let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
                 let res = ObjectExpressionProperty::SpreadElement {
                     argument,
+                    trailing_comma: this.current.matches_punc(","),
                     span: this.end_span(),
                 };
                 if !this.current.matches_punc("}") {
@@ -3914,11 +3916,13 @@ where
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
                 let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let trailing_comma = this.current.matches_punc(",");
                 if !this.current.matches_punc("]") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
                 Ok(Some(ArrayExpressionElement::SpreadElement(SpreadElement {
                     argument,
+                    trailing_comma,
                     span: this.end_span(),
                 })))
             }
-- 
2.43.0


From a6c7bed42c7ac88e5913ed597d59d02e2d81b9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 58/78] fix: parentheses: grouping, arrow parameters and where
 an arrow function may stand

---
 giron/src/estree/estree.rs |  19 +++++
 giron/src/parser/parser.rs | 166 ++++++++++++++++++++++++-------------
 2 files changed, 126 insertions(+), 59 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 2f4e428..8e47d0c 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -931,6 +931,14 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    // A parenthesised expression, which is just the expression in ESTree.
+    #[serde(untagged)]
+    Parenthesized {
+        #[serde(flatten)]
+        expression: Box<Node>,
+        #[serde(skip)]
+        span: Span,
+    },
 }
 
 impl Node {
@@ -973,10 +981,20 @@ impl Node {
             Node::Super { span, .. } => span,
             Node::TemplateLiteral { span, .. } => span,
             Node::MetaProperty { span, .. } => span,
+            Node::Parenthesized { span, .. } => span,
             _ => panic!(),
         }
     }
 
+    pub fn is_arrow(&self) -> bool {
+        match self {
+            Node::ArrowFunctionExpression { .. } | Node::AsyncArrowFunctionExpression { .. } => {
+                true
+            }
+            _ => false,
+        }
+    }
+
     pub fn assign_target_type(&self) -> &'static str {
         match self {
             Node::ArrayExpression {
@@ -1058,6 +1076,7 @@ impl Node {
             Node::MetaProperty {
                 assign_target_type, ..
             } => assign_target_type,
+            Node::Parenthesized { expression, .. } => expression.assign_target_type(),
             _ => "invalid",
         }
     }
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index d18a1db..3d1f4cf 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -87,6 +87,8 @@ pub struct Parser<I> {
     params_stack: Vec<Params>,
     marker_stack: Vec<Marker>,
     goal: SyntaxGoal,
+    arrow_start: Option<usize>, // where the latest AssignmentExpression began
+    yield_or_await: Option<Error>, // a yield or await expression, unfit for arrow parameters
 }
 
 impl<I> Parser<I>
@@ -116,6 +118,8 @@ where
             params_stack: vec![],
             marker_stack: vec![],
             goal: SyntaxGoal::Ambiguous,
+            arrow_start: None,
+            yield_or_await: None,
         }
     }
 
@@ -1681,6 +1685,7 @@ where
         r#async: bool,
         generator: bool,
     ) -> Result<(Vec<FunctionParameter>, Box<Node>)> {
+        let prev_yield_or_await = self.yield_or_await.take();
         let params = self.with_params(
             Params {
                 has_yield: generator,
@@ -1701,6 +1706,7 @@ where
             },
             &mut Self::parse_function_body,
         )?;
+        self.yield_or_await = prev_yield_or_await;
         Ok((params, Box::from(body)))
     }
 
@@ -2107,15 +2113,21 @@ where
             return self.parse_yield_expr();
         }
         self.start_span();
+        self.arrow_start = Some(self.current.start);
         let mut lhs = self.parse_conditional_expr()?;
-
-        if let Node::Identifier { name, .. } = &lhs {
-            match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc("=>") => {
-                    lhs = self.parse_single_param_arrow_function_expr(name.clone())?;
-                }
-                _ => (),
+        match &lhs {
+            Node::Identifier {
+                name,
+                assign_target_type: "simple",
+                ..
+            } if self.at_arrow() => {
+                lhs = self.parse_single_param_arrow_function_expr(name.clone())?;
             }
+            _ => (),
+        }
+        if lhs.is_arrow() {
+            self.end_span();
+            return Ok(lhs);
         }
 
         match self.current.tokentype {
@@ -2169,6 +2181,7 @@ where
         if self.params.in_params {
             return self.error_current(ErrorType::YieldInParameter);
         }
+        self.note_yield_or_await(ErrorType::YieldInParameter);
         self.start_span();
         self.consume_kw("yield", LexGoal::RegExp)?;
         let delegate = !self.has_line_terminator && self.current.matches_punc("*");
@@ -2190,6 +2203,16 @@ where
         })
     }
 
+    fn note_yield_or_await(&mut self, errortype: ErrorType) {
+        if self.yield_or_await.is_none() {
+            self.yield_or_await = Some(Error {
+                line: self.current.line_num,
+                col: self.current.col,
+                errortype,
+            });
+        }
+    }
+
     /// Whether the current token can begin an expression.
     fn at_operand(&self) -> bool {
         match self.current.tokentype {
@@ -2213,8 +2236,9 @@ where
 
     fn parse_single_param_arrow_function_expr(&mut self, name: String) -> Result<Node> {
         log!("parse_single_param_arrow_function_expr");
+        self.start_span();
         self.consume("=>", LexGoal::RegExp)?;
-        let (body, expression) = self.parse_arrow_body()?;
+        let (body, expression) = self.parse_arrow_body(false)?;
         Ok(Node::ArrowFunctionExpression {
             id: None,
             params: vec![FunctionParameter::BindingIdentifier { name }],
@@ -2236,7 +2260,7 @@ where
         //      AssignmentExpression[?In, ?Yield, ?Await]
         self.start_span();
         let expr = self.parse_binary_expr()?;
-        if self.current.matches_punc("?") {
+        if self.current.matches_punc("?") && !expr.is_arrow() {
             self.consume("?", LexGoal::RegExp)?;
             let consequent = Box::from(self.with_in(true, &mut Self::parse_assignment_expr)?);
             self.consume(":", LexGoal::RegExp)?;
@@ -2261,7 +2285,11 @@ where
     }
 
     fn precedence_climbing(&mut self, mut lhs: Node, prec: usize) -> Result<Node> {
-        while self.current.is_bin_op() && self.current.precedence(self.params.has_in) >= prec {
+        // an arrow function is no operand
+        while !lhs.is_arrow()
+            && self.current.is_bin_op()
+            && self.current.precedence(self.params.has_in) >= prec
+        {
             let op = self.advance(LexGoal::RegExp)?;
             let mut rhs = self.parse_exponentiation_expr()?;
             while self.current.is_bin_op()
@@ -2308,7 +2336,7 @@ where
             self.start_span();
             let lhs = self.parse_update_expr()?;
             match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc("**") => {
+                TokenType::Punctuator if self.current.matches_punc("**") && !lhs.is_arrow() => {
                     let operator = self.consume("**", LexGoal::RegExp)?.to_string();
                     let rhs = self.parse_exponentiation_expr()?;
                     Ok(Node::BinaryExpression {
@@ -2348,6 +2376,7 @@ where
                     if self.params.in_params {
                         return self.error_current(ErrorType::AwaitExpressionFormalParameter);
                     }
+                    self.note_yield_or_await(ErrorType::AwaitExpressionFormalParameter);
                     self.advance(LexGoal::RegExp)?;
                     return Ok(Node::AwaitExpression {
                         argument: Box::new(self.parse_unary_expr()?),
@@ -2391,7 +2420,7 @@ where
             self.start_span();
             let (line, col) = (self.current.line_num, self.current.col);
             let expr = self.parse_left_hand_side_expr()?;
-            if !self.has_line_terminator && self.current.is_update_op() {
+            if !self.has_line_terminator && self.current.is_update_op() && !expr.is_arrow() {
                 if expr.assign_target_type() == "invalid" || expr.assign_target_type() == "strict" {
                     return Err(Error {
                         line,
@@ -2453,7 +2482,7 @@ where
     }
 
     fn parse_call_expr_tail(&mut self, mut callee: Node) -> Result<Node> {
-        loop {
+        while !callee.is_arrow() {
             match self.current.tokentype {
                 TokenType::Punctuator if self.current.matches_punc("(") => {
                     callee = Node::CallExpression {
@@ -2520,7 +2549,7 @@ where
             }
             _ => self.parse_primary_expr(),
         }?;
-        loop {
+        while !expr.is_arrow() {
             match self.current.tokentype {
                 TokenType::Punctuator if self.current.matches_punc("[") => {
                     expr = self.parse_computed_member_expr(expr)?
@@ -2759,7 +2788,7 @@ where
         match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("=>") => {
                 self.advance(LexGoal::RegExp)?;
-                let (body, expression) = self.parse_arrow_body()?;
+                let (body, expression) = self.parse_arrow_body(true)?;
                 let params = self.arguments_to_params(arguments)?;
                 Ok(Node::AsyncArrowFunctionExpression {
                     id: None,
@@ -2871,10 +2900,20 @@ where
         //     "(" "..." BindingPattern[?Yield, ?Await] ")"
         //     "(" Expression[+In, ?Yield, ?Await] "," "..." BindingIdentifier[?Yield, ?Await]")"
         //     "(" Expression[+In, ?Yield, ?Await] "," "..." BindingPattern[?Yield, ?Await] ")"
+        let may_be_arrow = self.arrow_start == Some(self.current.start);
         self.start_span();
         self.consume("(", LexGoal::RegExp)?;
-        let mut definitely_arrow = false;
-        let expressions =
+        if !may_be_arrow {
+            let expression = Box::from(self.with_in(true, &mut Self::parse_expression)?);
+            self.consume(")", LexGoal::Div)?;
+            return Ok(Node::Parenthesized {
+                expression,
+                span: self.end_span(),
+            });
+        }
+        let mut definitely_arrow = self.current.matches_punc(")");
+        let prev_yield_or_await = self.yield_or_await.take();
+        let mut expressions =
             self.parse_until_punc_or_rest(")", &mut |this| match this.current.tokentype {
                 TokenType::Punctuator if this.current.matches_punc("...") => {
                     this.start_span();
@@ -2897,27 +2936,42 @@ where
                 }
             })?;
         self.consume(")", LexGoal::Div)?;
-        let assign_target_type = if expressions.len() == 1 {
-            (&expressions[0]).assign_target_type()
+        if definitely_arrow || self.at_arrow() {
+            // the parameters of an arrow function contain no yield or await expression
+            if let Some(error) = mem::replace(&mut self.yield_or_await, prev_yield_or_await) {
+                return Err(error);
+            }
+            return self.seq_to_arrow(expressions);
+        }
+        self.yield_or_await = prev_yield_or_await.or(self.yield_or_await.take());
+        let expression = if expressions.len() == 1 {
+            expressions.remove(0)
         } else {
-            "invalid"
-        };
-        match (definitely_arrow, self.current.matches_punc("=>")) {
-            (true, _) => self.seq_to_arrow(expressions),
-            (false, true) => self.seq_to_arrow(expressions),
-            (false, false) => Ok(Node::SequenceExpression {
+            Node::SequenceExpression {
                 expressions,
-                assign_target_type,
-                span: self.end_span(),
-            }),
-        }
+                assign_target_type: "invalid",
+                span: self.peek_span(),
+            }
+        };
+        Ok(Node::Parenthesized {
+            expression: Box::from(expression),
+            span: self.end_span(),
+        })
+    }
+
+    /// Whether the current token is the `=>` of an arrow function.
+    fn at_arrow(&self) -> bool {
+        !self.has_line_terminator && self.current.matches_punc("=>")
     }
 
     fn seq_to_arrow(&mut self, seq: Vec<Node>) -> Result<Node> {
         log!("seq_to_arrow");
         let params = self.seq_to_arrow_params(seq)?;
-        self.consume("=>", LexGoal::RegExp)?;
-        let (body, expression) = self.parse_arrow_body()?;
+        if !self.at_arrow() {
+            return self.unexpected_current();
+        }
+        self.advance(LexGoal::RegExp)?;
+        let (body, expression) = self.parse_arrow_body(false)?;
         Ok(Node::ArrowFunctionExpression {
             id: None,
             params,
@@ -3967,7 +4021,7 @@ where
                     }?;
                     if !self.has_line_terminator && self.current.matches_punc("=>") {
                         self.advance(LexGoal::RegExp)?;
-                        let (body, expression) = self.parse_arrow_body()?;
+                        let (body, expression) = self.parse_arrow_body(true)?;
                         Ok(Node::AsyncArrowFunctionExpression {
                             id: None,
                             params: vec![param],
@@ -3989,34 +4043,28 @@ where
         }
     }
 
-    fn parse_arrow_body(&mut self) -> Result<(Box<Node>, bool)> {
+    fn parse_arrow_body(&mut self, r#async: bool) -> Result<(Box<Node>, bool)> {
         log!("parse_arrow_body");
-        let body;
-        let mut expression = false;
-        match self.current.tokentype {
-            TokenType::Punctuator if self.current.matches_punc("{") => {
-                body = Box::from(self.with_params(
-                    Params {
-                        has_await: true,
-                        has_yield: false,
-                        ..self.params
-                    },
-                    &mut Self::parse_function_body,
-                )?);
-            }
-            _ => {
-                body = Box::from(self.with_params(
-                    Params {
-                        has_await: true,
-                        has_yield: false,
-                        ..self.params
-                    },
-                    &mut Self::parse_assignment_expr,
-                )?);
-                expression = true;
-            }
-        }
-        Ok((body, expression))
+        // ConciseBody[In]:
+        //     AssignmentExpression[?In, ~Yield]
+        //     "{" FunctionBody[~Yield] "}"
+        // where only the body of an async arrow function has [+Await]
+        let params = Params {
+            has_await: r#async,
+            has_yield: false,
+            in_params: false,
+            is_lexical: false,
+            ..self.params
+        };
+        let expression = !self.current.matches_punc("{");
+        let prev_yield_or_await = self.yield_or_await.take();
+        let body = if expression {
+            self.with_params(params, &mut Self::parse_assignment_expr)?
+        } else {
+            self.with_params(params, &mut Self::parse_function_body)?
+        };
+        self.yield_or_await = prev_yield_or_await;
+        Ok((Box::from(body), expression))
     }
 
     fn parse_id_reference(&mut self) -> Result<Node> {
-- 
2.43.0


From cf78e077c4e447b5f8adbe880b1b9b4d58706bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 59/78] fix: async as an identifier, async arrow functions and
 their parameters

---
 giron/src/parser/parser.rs | 109 +++++++++++++++++++++++--------------
 1 file changed, 68 insertions(+), 41 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 3d1f4cf..66c0ff7 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -88,6 +88,7 @@ pub struct Parser<I> {
     marker_stack: Vec<Marker>,
     goal: SyntaxGoal,
     arrow_start: Option<usize>, // where the latest AssignmentExpression began
+    await_id: Option<Error>, // `await` as an identifier, unfit for async arrow parameters
     yield_or_await: Option<Error>, // a yield or await expression, unfit for arrow parameters
 }
 
@@ -119,6 +120,7 @@ where
             marker_stack: vec![],
             goal: SyntaxGoal::Ambiguous,
             arrow_start: None,
+            await_id: None,
             yield_or_await: None,
         }
     }
@@ -1686,6 +1688,7 @@ where
         generator: bool,
     ) -> Result<(Vec<FunctionParameter>, Box<Node>)> {
         let prev_yield_or_await = self.yield_or_await.take();
+        let prev_await_id = self.await_id.take();
         let params = self.with_params(
             Params {
                 has_yield: generator,
@@ -1707,6 +1710,7 @@ where
             &mut Self::parse_function_body,
         )?;
         self.yield_or_await = prev_yield_or_await;
+        self.await_id = prev_await_id;
         Ok((params, Box::from(body)))
     }
 
@@ -2784,12 +2788,20 @@ where
 
     fn parse_async_call_or_arrow(&mut self, callee: Box<Node>) -> Result<Node> {
         log!("parse_async_call_or_arrow");
+        let prev_yield_or_await = self.yield_or_await.take();
+        let prev_await_id = self.await_id.take();
         let arguments = self.parse_arguments()?;
+        // nor does it have parameters with `await` as an identifier
+        let await_id = mem::replace(&mut self.await_id, prev_await_id);
+        let misplaced = mem::replace(&mut self.yield_or_await, prev_yield_or_await);
         match self.current.tokentype {
-            TokenType::Punctuator if self.current.matches_punc("=>") => {
+            TokenType::Punctuator if self.at_arrow() => {
+                if let Some(error) = misplaced.or(await_id) {
+                    return Err(error);
+                }
+                let params = self.arguments_to_params(arguments)?;
                 self.advance(LexGoal::RegExp)?;
                 let (body, expression) = self.parse_arrow_body(true)?;
-                let params = self.arguments_to_params(arguments)?;
                 Ok(Node::AsyncArrowFunctionExpression {
                     id: None,
                     params,
@@ -2801,12 +2813,16 @@ where
                     span: self.end_span(),
                 })
             }
-            _ => Ok(Node::CallExpression {
-                callee,
-                arguments,
-                assign_target_type: "invalid",
-                span: self.end_span(),
-            }),
+            _ => {
+                self.yield_or_await = self.yield_or_await.take().or(misplaced);
+                self.await_id = self.await_id.take().or(await_id);
+                Ok(Node::CallExpression {
+                    callee,
+                    arguments,
+                    assign_target_type: "invalid",
+                    span: self.end_span(),
+                })
+            }
         }
     }
 
@@ -3998,49 +4014,51 @@ where
 
     fn parse_async_primary_expr(&mut self) -> Result<Node> {
         log!("parse_async_primary_expr");
+        let may_be_arrow = self.arrow_start == Some(self.current.start);
         self.start_span();
         let id = self.parse_id_reference()?;
         if !self.has_line_terminator {
             match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc(";") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc(".") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("[") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("`") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("(") => {
-                    self.parse_async_call_or_arrow(Box::from(id))
-                }
                 TokenType::Keyword if self.current.matches_str("function") => {
-                    self.parse_function_expr(true)
+                    return self.parse_function_expr(true);
                 }
-                _ => {
-                    let param = match self.with_await(true, &mut Self::parse_id_reference)? {
-                        Node::Identifier { name, .. } => {
-                            Ok(FunctionParameter::BindingIdentifier { name })
-                        }
-                        _ => unreachable!(),
-                    }?;
-                    if !self.has_line_terminator && self.current.matches_punc("=>") {
-                        self.advance(LexGoal::RegExp)?;
-                        let (body, expression) = self.parse_arrow_body(true)?;
-                        Ok(Node::AsyncArrowFunctionExpression {
-                            id: None,
-                            params: vec![param],
-                            body,
-                            generator: false,
-                            expression,
-                            r#async: true,
-                            assign_target_type: "invalid",
-                            span: self.end_span(),
-                        })
-                    } else {
-                        self.unexpected_current()
+                TokenType::Punctuator if may_be_arrow && self.current.matches_punc("(") => {
+                    return self.parse_async_call_or_arrow(Box::from(id));
+                }
+                TokenType::Identifier | TokenType::Keyword
+                    if may_be_arrow && !self.current.is_bin_op() =>
+                {
+                    let param = self
+                        .with_params(
+                            Params {
+                                has_await: true,
+                                is_lexical: false,
+                                ..self.params
+                            },
+                            &mut Self::parse_binding_id,
+                        )?
+                        .to_id()?;
+                    if !self.at_arrow() {
+                        return self.unexpected_current();
                     }
+                    self.advance(LexGoal::RegExp)?;
+                    let (body, expression) = self.parse_arrow_body(true)?;
+                    return Ok(Node::AsyncArrowFunctionExpression {
+                        id: None,
+                        params: vec![FunctionParameter::BindingIdentifier { name: param.name }],
+                        body,
+                        generator: false,
+                        expression,
+                        r#async: true,
+                        assign_target_type: "invalid",
+                        span: self.end_span(),
+                    });
                 }
+                _ => (),
             }
-        } else {
-            self.end_span();
-            Ok(id)
         }
+        self.end_span();
+        Ok(id)
     }
 
     fn parse_arrow_body(&mut self, r#async: bool) -> Result<(Box<Node>, bool)> {
@@ -4058,12 +4076,14 @@ where
         };
         let expression = !self.current.matches_punc("{");
         let prev_yield_or_await = self.yield_or_await.take();
+        let prev_await_id = self.await_id.take();
         let body = if expression {
             self.with_params(params, &mut Self::parse_assignment_expr)?
         } else {
             self.with_params(params, &mut Self::parse_function_body)?
         };
         self.yield_or_await = prev_yield_or_await;
+        self.await_id = prev_await_id;
         Ok((Box::from(body), expression))
     }
 
@@ -4110,6 +4130,13 @@ where
                 if self.params.has_await || is_module {
                     self.error(token.clone(), ErrorType::AwaitExpressionFormalParameter)
                 } else {
+                    if self.await_id.is_none() {
+                        self.await_id = Some(Error {
+                            line: token.line_num,
+                            col: token.col,
+                            errortype: ErrorType::AwaitExpressionFormalParameter,
+                        });
+                    }
                     Ok("simple")
                 }
             }
-- 
2.43.0


From 3bee989e4bcc1a9a12fc12a42de1f587389f7570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 60/78] fix: shorthand properties and their initialisers,
 property names

---
 giron/src/estree/estree.rs |  15 ++++
 giron/src/parser/parser.rs | 167 +++++++++++++++++++++++--------------
 2 files changed, 121 insertions(+), 61 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 8e47d0c..b00bc22 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -1216,6 +1216,15 @@ impl Node {
                         Some(PropertyValue::Expression(expr)) => Ok(Some(
                             PropertyValue::Expression(expr.as_assignment_element()?),
                         )),
+                        Some(PropertyValue::AssignmentPattern(AssignmentPattern {
+                            left: Binding::Expression(left),
+                            right,
+                        })) if left.assign_target_type() == "simple" => {
+                            Ok(Some(PropertyValue::AssignmentPattern(AssignmentPattern {
+                                left: Binding::Expression(left),
+                                right,
+                            })))
+                        }
                         None => Ok(None),
                         _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
                     }?;
@@ -1452,6 +1461,12 @@ impl Node {
                 _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
             },
             None => Ok(None),
+            Some(PropertyValue::AssignmentPattern(AssignmentPattern { left, right })) => {
+                Ok(Some(PropertyValue::AssignmentPattern(AssignmentPattern {
+                    left: left.to_node()?.to_strict_binding(span.start)?,
+                    right,
+                })))
+            }
             _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
         }
     }
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 66c0ff7..f9ef9dd 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -89,6 +89,7 @@ pub struct Parser<I> {
     goal: SyntaxGoal,
     arrow_start: Option<usize>, // where the latest AssignmentExpression began
     await_id: Option<Error>, // `await` as an identifier, unfit for async arrow parameters
+    cover_init: Option<Error>, // `a = 1` in an object literal, fit for a pattern only
     yield_or_await: Option<Error>, // a yield or await expression, unfit for arrow parameters
 }
 
@@ -121,6 +122,7 @@ where
             goal: SyntaxGoal::Ambiguous,
             arrow_start: None,
             await_id: None,
+            cover_init: None,
             yield_or_await: None,
         }
     }
@@ -2102,6 +2104,17 @@ where
     }
 
     fn parse_assignment_expr(&mut self) -> Result<Node> {
+        let outer = self.cover_init.take();
+        let expr = self.parse_cover_assignment_expr()?;
+        match mem::replace(&mut self.cover_init, outer) {
+            Some(error) => Err(error),
+            None => Ok(expr),
+        }
+    }
+
+    /// Like parse_assignment_expr, but the result may have to become a pattern: it then
+    /// contains a CoverInitializedName (`a = 1` in `{a = 1}`), noted in cover_init.
+    fn parse_cover_assignment_expr(&mut self) -> Result<Node> {
         log!("parse_assignment_expr");
         // AssignmentExpression[In, Yield, Await]:
         //     [+Yield] YieldExpression[?In, ?Await]
@@ -2118,7 +2131,23 @@ where
         }
         self.start_span();
         self.arrow_start = Some(self.current.start);
+        let outer_cover_init = self.cover_init.take();
         let mut lhs = self.parse_conditional_expr()?;
+        if !self.current.matches_punc("=") {
+            match lhs {
+                Node::ArrayExpression { .. } | Node::ObjectExpression { .. } => {
+                    self.cover_init = outer_cover_init.or(self.cover_init.take());
+                }
+                _ => {
+                    // no pattern any more
+                    if let Some(error) = mem::replace(&mut self.cover_init, outer_cover_init) {
+                        return Err(error);
+                    }
+                }
+            }
+        } else {
+            self.cover_init = outer_cover_init;
+        }
         match &lhs {
             Node::Identifier {
                 name,
@@ -2790,7 +2819,9 @@ where
         log!("parse_async_call_or_arrow");
         let prev_yield_or_await = self.yield_or_await.take();
         let prev_await_id = self.await_id.take();
-        let arguments = self.parse_arguments()?;
+        let prev_cover_init = self.cover_init.take();
+        let arguments = self.parse_cover_arguments()?;
+        let cover_init = mem::replace(&mut self.cover_init, prev_cover_init);
         // nor does it have parameters with `await` as an identifier
         let await_id = mem::replace(&mut self.await_id, prev_await_id);
         let misplaced = mem::replace(&mut self.yield_or_await, prev_yield_or_await);
@@ -2814,6 +2845,9 @@ where
                 })
             }
             _ => {
+                if let Some(error) = cover_init {
+                    return Err(error);
+                }
                 self.yield_or_await = self.yield_or_await.take().or(misplaced);
                 self.await_id = self.await_id.take().or(await_id);
                 Ok(Node::CallExpression {
@@ -2868,6 +2902,16 @@ where
     }
 
     fn parse_arguments(&mut self) -> Result<Vec<ArgumentListElement>> {
+        let outer = self.cover_init.take();
+        let arguments = self.parse_cover_arguments()?;
+        match mem::replace(&mut self.cover_init, outer) {
+            Some(error) => Err(error),
+            None => Ok(arguments),
+        }
+    }
+
+    /// Arguments that may turn out to be the parameters of an async arrow function.
+    fn parse_cover_arguments(&mut self) -> Result<Vec<ArgumentListElement>> {
         log!("parse_arguments");
         // Arguments[Yield, Await]:
         //     "(" ")"
@@ -2883,7 +2927,7 @@ where
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
-                let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let argument = this.with_in(true, &mut Self::parse_cover_assignment_expr)?;
                 let res = ArgumentListElement::SpreadElement(SpreadElement {
                     argument,
                     trailing_comma: this.current.matches_punc(","),
@@ -2895,7 +2939,7 @@ where
                 Ok(res)
             }
             _ => {
-                let expr = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let expr = this.with_in(true, &mut Self::parse_cover_assignment_expr)?;
                 if !this.current.matches_punc(")") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
@@ -2929,6 +2973,7 @@ where
         }
         let mut definitely_arrow = self.current.matches_punc(")");
         let prev_yield_or_await = self.yield_or_await.take();
+        let prev_cover_init = self.cover_init.take();
         let mut expressions =
             self.parse_until_punc_or_rest(")", &mut |this| match this.current.tokentype {
                 TokenType::Punctuator if this.current.matches_punc("...") => {
@@ -2941,7 +2986,7 @@ where
                     })
                 }
                 _ => {
-                    let expr = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                    let expr = this.with_in(true, &mut Self::parse_cover_assignment_expr)?;
                     if !this.current.matches_punc(")") {
                         this.consume(",", LexGoal::RegExp)?;
                         if this.current.matches_punc(")") {
@@ -2952,6 +2997,7 @@ where
                 }
             })?;
         self.consume(")", LexGoal::Div)?;
+        let cover_init = mem::replace(&mut self.cover_init, prev_cover_init);
         if definitely_arrow || self.at_arrow() {
             // the parameters of an arrow function contain no yield or await expression
             if let Some(error) = mem::replace(&mut self.yield_or_await, prev_yield_or_await) {
@@ -2959,6 +3005,9 @@ where
             }
             return self.seq_to_arrow(expressions);
         }
+        if let Some(error) = cover_init {
+            return Err(error);
+        }
         self.yield_or_await = prev_yield_or_await.or(self.yield_or_await.take());
         let expression = if expressions.len() == 1 {
             expressions.remove(0)
@@ -3592,7 +3641,7 @@ where
             this.start_span();
             if this.current.matches_punc("...") {
                 this.advance(LexGoal::RegExp)?;
-                let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let argument = this.with_in(true, &mut Self::parse_cover_assignment_expr)?;
                 let res = ObjectExpressionProperty::SpreadElement {
                     argument,
                     trailing_comma: this.current.matches_punc(","),
@@ -3708,37 +3757,15 @@ where
                 _ => (),
             }
 
-            let key = match this.current.tokentype {
-                TokenType::Identifier | TokenType::Keyword => {
-                    this.start_span();
-                    let name = this.parse_id_name(LexGoal::Div)?;
-                    Ok(PropertyKey::Identifier(Identifier {
-                        name,
-                        span: this.end_span(),
-                    }))
-                }
-                TokenType::StringLiteral | TokenType::NumericLiteral => {
-                    this.start_span();
-                    let value = this.advance(LexGoal::RegExp)?.value;
-                    Ok(PropertyKey::Literal(Literal {
-                        // value: this.current.value.clone(),
-                        value,
-                        raw: String::from(&this.current.value),
-                        span: this.end_span(),
-                    }))
-                }
-                TokenType::Punctuator if this.current.matches_punc("[") => {
-                    computed = true;
-                    this.parse_computed_property_name()
-                }
-                _ => this.unexpected_current(),
-            }?;
+            let token = this.current.clone();
+            let (key, is_computed) = this.parse_property_name()?;
+            computed = is_computed;
 
             let property = match this.current.tokentype {
                 TokenType::Punctuator if this.current.matches_punc(":") => {
                     this.advance(LexGoal::RegExp)?;
                     let value = PropertyValue::Expression(
-                        this.with_in(true, &mut Self::parse_assignment_expr)?,
+                        this.with_in(true, &mut Self::parse_cover_assignment_expr)?,
                     );
                     ObjectExpressionProperty::Property {
                         key,
@@ -3750,11 +3777,11 @@ where
                         span: this.end_span(),
                     }
                 }
-                TokenType::Punctuator if this.current.matches_punc("=") => {
-                    this.advance(LexGoal::RegExp)?;
-                    let value = PropertyValue::Expression(
-                        this.with_in(true, &mut Self::parse_assignment_expr)?,
-                    );
+                TokenType::Punctuator if this.current.matches_punc("(") => {
+                    this.parse_method_definition(key, kind, r#async, generator, computed)?
+                }
+                _ => {
+                    let value = this.parse_shorthand_value(token)?;
                     ObjectExpressionProperty::Property {
                         key,
                         computed,
@@ -3765,18 +3792,6 @@ where
                         span: this.end_span(),
                     }
                 }
-                TokenType::Punctuator if this.current.matches_punc("(") => {
-                    this.parse_method_definition(key, kind, r#async, generator, computed)?
-                }
-                _ => ObjectExpressionProperty::Property {
-                    key,
-                    computed,
-                    value: None,
-                    kind,
-                    method: false,
-                    shorthand: true,
-                    span: this.end_span(),
-                },
             };
             if !this.current.matches_punc("}") {
                 this.consume(",", LexGoal::RegExp)?;
@@ -3791,34 +3806,64 @@ where
         })
     }
 
+    /// The value of a shorthand property: an IdentifierReference, which has been read,
+    /// possibly with an initialiser if the object literal is to become a pattern.
+    fn parse_shorthand_value(&mut self, token: Token) -> Result<PropertyValue> {
+        self.start_span();
+        let assign_target_type = self.id_reference_type(&token)?;
+        let id = Node::Identifier {
+            name: token.to_string(),
+            assign_target_type,
+            span: self.end_span(),
+        };
+        if self.current.matches_punc("=") {
+            let error = Error {
+                line: self.current.line_num,
+                col: self.current.col,
+                errortype: ErrorType::UnexpectedToken(String::from("=")),
+            };
+            self.advance(LexGoal::RegExp)?;
+            let right = self.with_in(true, &mut Self::parse_assignment_expr)?;
+            if self.cover_init.is_none() {
+                self.cover_init = Some(error);
+            }
+            Ok(PropertyValue::AssignmentPattern(AssignmentPattern {
+                left: Binding::Expression(Box::from(id)),
+                right,
+            }))
+        } else {
+            Ok(PropertyValue::Expression(id))
+        }
+    }
+
     fn parse_property_name(&mut self) -> Result<(PropertyKey, bool)> {
         log!("parse_property_name");
         match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword => {
+            TokenType::StringLiteral | TokenType::NumericLiteral => {
                 self.start_span();
+                let value = self.advance(LexGoal::Div)?.value;
                 Ok((
-                    PropertyKey::Identifier(Identifier {
-                        name: self.parse_id_name(LexGoal::Div)?,
+                    PropertyKey::Literal(Literal {
+                        raw: String::from(&value),
+                        value,
                         span: self.end_span(),
                     }),
                     false,
                 ))
             }
-            TokenType::StringLiteral | TokenType::NumericLiteral => {
+            TokenType::Punctuator if self.current.matches_punc("[") => {
+                Ok((self.parse_computed_property_name()?, true))
+            }
+            _ => {
                 self.start_span();
                 Ok((
-                    PropertyKey::Literal(Literal {
-                        value: self.current.value.clone(),
-                        raw: String::from(&self.current.value),
+                    PropertyKey::Identifier(Identifier {
+                        name: self.parse_id_name(LexGoal::Div)?,
                         span: self.end_span(),
                     }),
                     false,
                 ))
             }
-            TokenType::Punctuator if self.current.matches_punc("[") => {
-                Ok((self.parse_computed_property_name()?, true))
-            }
-            _ => self.unexpected_current(),
         }
     }
 
@@ -3985,7 +4030,7 @@ where
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
-                let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let argument = this.with_in(true, &mut Self::parse_cover_assignment_expr)?;
                 let trailing_comma = this.current.matches_punc(",");
                 if !this.current.matches_punc("]") {
                     this.consume(",", LexGoal::RegExp)?;
@@ -3997,7 +4042,7 @@ where
                 })))
             }
             _ => {
-                let element = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let element = this.with_in(true, &mut Self::parse_cover_assignment_expr)?;
                 if !this.current.matches_punc("]") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
-- 
2.43.0


From c0e9858b3cf0f7398b7718dd2ade9910dd460a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 61/78] fix: a member of a literal with an initialised
 shorthand is no pattern

---
 giron/src/parser/parser.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index f9ef9dd..5392e97 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2133,20 +2133,19 @@ where
         self.arrow_start = Some(self.current.start);
         let outer_cover_init = self.cover_init.take();
         let mut lhs = self.parse_conditional_expr()?;
-        if !self.current.matches_punc("=") {
-            match lhs {
-                Node::ArrayExpression { .. } | Node::ObjectExpression { .. } => {
-                    self.cover_init = outer_cover_init.or(self.cover_init.take());
+        let cover_init = mem::replace(&mut self.cover_init, outer_cover_init);
+        match lhs {
+            Node::ArrayExpression { .. } | Node::ObjectExpression { .. } => {
+                if !self.current.matches_punc("=") && self.cover_init.is_none() {
+                    self.cover_init = cover_init;
                 }
-                _ => {
-                    // no pattern any more
-                    if let Some(error) = mem::replace(&mut self.cover_init, outer_cover_init) {
-                        return Err(error);
-                    }
+            }
+            _ => {
+                // no pattern any more
+                if let Some(error) = cover_init {
+                    return Err(error);
                 }
             }
-        } else {
-            self.cover_init = outer_cover_init;
         }
         match &lhs {
             Node::Identifier {
-- 
2.43.0


From b474193041b6d7514536134bb32fca499b0563b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 62/78] fix: object literal methods, accessors and get, set and
 async as names

---
 giron/src/errors/errors.rs |   2 +
 giron/src/parser/parser.rs | 288 ++++++++++---------------------------
 2 files changed, 81 insertions(+), 209 deletions(-)

diff --git a/giron/src/errors/errors.rs b/giron/src/errors/errors.rs
index 0210a71..5dba398 100644
--- a/giron/src/errors/errors.rs
+++ b/giron/src/errors/errors.rs
@@ -106,6 +106,7 @@ pub enum ErrorType {
     IllegalBreak,
     StrictWith,
     StrictFunction,
+    InvalidAccessorParameters,
     StrictEvalArguments,
     NewlineAfterThrow,
     GeneratorInSingleStatementContext,
@@ -146,6 +147,7 @@ impl fmt::Display for Error {
             ErrorType::IllegalBreak => write!(f, "Illegal break statement"),
             ErrorType::StrictWith => write!(f, "Strict mode code may not include a with statement"),
             ErrorType::StrictEvalArguments => write!(f, "Unexpected eval or arguments in strict mode"),
+            ErrorType::InvalidAccessorParameters => write!(f, "Getter must have no and setter exactly one formal parameter"),
             ErrorType::StrictFunction => write!(f, "In strict mode code, functions can only be declared at top level or inside a block."),
             ErrorType::NewlineAfterThrow => write!(f, "Illegal newline after throw"),
             ErrorType::GeneratorInSingleStatementContext => write!(f, "Generators can only be declared at the top level or inside a block."),
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 5392e97..ce8634a 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3652,115 +3652,42 @@ where
                 return Ok(res);
             }
 
-            let mut computed = false;
             let mut r#async = false;
             let mut generator = false;
             let mut kind = "init";
 
+            let token = this.current.clone();
+            let mut key = None;
             match this.current.tokentype {
-                TokenType::Identifier if this.current.matches_str("get") => {
-                    this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::RegExp)?;
-                    match &next_token.tokentype {
-                        TokenType::Punctuator => {
-                            this.scanner.restore_state(next_token);
-                        }
-                        _ => {
-                            this.scanner.restore_state(next_token);
-                            this.start_span();
-                            this.advance(LexGoal::RegExp)?;
-                            let span = this.end_span();
-                            if this.current.matches_punc("(") {
-                                return this.parse_method_definition(
-                                    PropertyKey::Identifier(Identifier {
-                                        name: String::from("get"),
-                                        span,
-                                    }),
-                                    kind,
-                                    r#async,
-                                    generator,
-                                    computed,
-                                );
-                            }
-                            kind = "get";
-                        }
-                    }
-                }
-                TokenType::Identifier if this.current.matches_str("set") => {
-                    this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::RegExp)?;
-                    match &next_token.tokentype {
-                        TokenType::Punctuator => {
-                            this.scanner.restore_state(next_token);
-                        }
-                        _ => {
-                            this.scanner.restore_state(next_token);
-                            this.start_span();
-                            this.advance(LexGoal::RegExp)?;
-                            let span = this.end_span();
-                            if this.current.matches_punc("(") {
-                                return this.parse_method_definition(
-                                    PropertyKey::Identifier(Identifier {
-                                        name: String::from("set"),
-                                        span,
-                                    }),
-                                    kind,
-                                    r#async,
-                                    generator,
-                                    computed,
-                                );
-                            }
-                            kind = "set";
-                        }
-                    }
-                }
-                TokenType::Identifier if this.current.matches_str("async") => {
-                    this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::RegExp)?;
-                    match &next_token.tokentype {
-                        TokenType::Punctuator => {
-                            this.scanner.restore_state(next_token);
-                        }
-                        _ => {
-                            this.scanner.restore_state(next_token);
-                            this.start_span();
-                            this.advance(LexGoal::RegExp)?;
-                            let span = this.end_span();
-                            if this.current.matches_punc("*") {
-                                this.advance(LexGoal::RegExp)?;
-                                generator = true;
-                            }
-                            if this.current.matches_punc("(") {
-                                return this.parse_method_definition(
-                                    PropertyKey::Identifier(Identifier {
-                                        name: String::from("async"),
-                                        span,
-                                    }),
-                                    kind,
-                                    r#async,
-                                    generator,
-                                    computed,
-                                );
-                            } else {
-                                r#async = true;
-                            }
-                        }
+                TokenType::Identifier
+                    if this.current.matches_str("get")
+                        || this.current.matches_str("set")
+                        || this.current.matches_str("async") =>
+                {
+                    // a modifier if a property name follows, otherwise the name itself
+                    let name = this.parse_property_name()?;
+                    match token.to_str() {
+                        "get" if this.at_property_name() => kind = "get",
+                        "set" if this.at_property_name() => kind = "set",
+                        "async" if this.at_async_method() => r#async = true,
+                        _ => key = Some(name),
                     }
                 }
-                TokenType::Punctuator if this.current.matches_punc("*") => {
-                    this.advance(LexGoal::RegExp)?;
-                    generator = true;
-                    let (key, computed) = this.parse_property_name()?;
-                    return this.parse_method_definition(key, kind, r#async, generator, computed);
-                }
                 _ => (),
             }
-
-            let token = this.current.clone();
-            let (key, is_computed) = this.parse_property_name()?;
-            computed = is_computed;
+            if key.is_none() && kind == "init" && this.current.matches_punc("*") {
+                this.advance(LexGoal::RegExp)?;
+                generator = true;
+            }
+            let (key, computed) = match key {
+                Some(name) => name,
+                None => this.parse_property_name()?,
+            };
 
             let property = match this.current.tokentype {
+                _ if kind != "init" || r#async || generator => {
+                    this.parse_method_definition(key, kind, r#async, generator, computed)?
+                }
                 TokenType::Punctuator if this.current.matches_punc(":") => {
                     this.advance(LexGoal::RegExp)?;
                     let value = PropertyValue::Expression(
@@ -3883,118 +3810,61 @@ where
         computed: bool,
     ) -> Result<ObjectExpressionProperty> {
         log!("parse_method_definition");
-        match kind {
-            "get" => {
-                self.consume("(", LexGoal::RegExp)?;
-                self.consume(")", LexGoal::RegExp)?;
-                let value = Some(PropertyValue::FunctionExpression(FunctionExpression {
-                    id: None,
-                    params: vec![],
-                    body: Box::from(self.with_params(
-                        Params {
-                            has_yield: false,
-                            has_await: false,
-                            ..self.params
-                        },
-                        &mut Self::parse_function_body,
-                    )?),
-                    generator,
-                    expression: false,
-                    r#async,
-                }));
-                Ok(ObjectExpressionProperty::Property {
-                    key,
-                    computed,
-                    value,
-                    kind,
-                    method: true,
-                    shorthand: false,
-                    span: self.end_span(),
-                })
-            }
-            "set" => {
-                let value = Some(PropertyValue::FunctionExpression(FunctionExpression {
-                    id: None,
-                    params: self.with_params(
-                        Params {
-                            has_yield: false,
-                            has_await: false,
-                            ..self.params
-                        },
-                        &mut Self::parse_formal_params,
-                    )?,
-                    body: Box::from(self.with_params(
-                        Params {
-                            has_yield: false,
-                            has_await: false,
-                            ..self.params
-                        },
-                        &mut Self::parse_function_body,
-                    )?),
-                    generator,
-                    expression: false,
-                    r#async,
-                }));
-                Ok(ObjectExpressionProperty::Property {
-                    key,
-                    computed,
-                    value,
-                    kind,
-                    method: true,
-                    shorthand: false,
-                    span: self.end_span(),
-                })
-            }
-            "init" => {
-                let params = self.with_params(
-                    Params {
-                        has_await: r#async,
-                        has_yield: generator,
-                        ..self.params
-                    },
-                    &mut Self::parse_formal_params,
-                )?;
-                let body = Box::from(self.with_params(
-                    Params {
-                        has_await: r#async,
-                        has_yield: generator,
-                        ..self.params
-                    },
-                    &mut Self::parse_function_body,
-                )?);
-                let value = if r#async {
-                    Some(PropertyValue::AsyncFunctionExpression(
-                        AsyncFunctionExpression {
-                            id: None,
-                            params,
-                            body,
-                            generator,
-                            expression: false,
-                            r#async,
-                        },
-                    ))
-                } else {
-                    Some(PropertyValue::FunctionExpression(FunctionExpression {
-                        id: None,
-                        params,
-                        body,
-                        generator,
-                        expression: false,
-                        r#async,
-                    }))
-                };
-                Ok(ObjectExpressionProperty::Property {
-                    key,
-                    computed,
-                    value,
-                    kind,
-                    method: true,
-                    shorthand: false,
-                    span: self.end_span(),
-                })
-            }
-            _ => self.unexpected_current(),
+        let (params, body) = self.parse_method_params_and_body(kind, r#async, generator)?;
+        let value = Some(PropertyValue::FunctionExpression(FunctionExpression {
+            id: None,
+            params,
+            body,
+            generator,
+            expression: false,
+            r#async,
+        }));
+        Ok(ObjectExpressionProperty::Property {
+            key,
+            computed,
+            value,
+            kind,
+            method: kind == "init",
+            shorthand: false,
+            span: self.end_span(),
+        })
+    }
+
+    fn parse_method_params_and_body(
+        &mut self,
+        kind: &str,
+        r#async: bool,
+        generator: bool,
+    ) -> Result<(Vec<FunctionParameter>, Box<Node>)> {
+        let (line, col) = (self.current.line_num, self.current.col);
+        let (params, body) = self.parse_function_params_and_body(r#async, generator)?;
+        let is_valid = match (kind, &params[..]) {
+            ("get", params) => params.is_empty(),
+            ("set", [FunctionParameter::RestElement { .. }]) => false,
+            ("set", params) => params.len() == 1,
+            _ => true,
+        };
+        if !is_valid {
+            return Err(Error {
+                line,
+                col,
+                errortype: ErrorType::InvalidAccessorParameters,
+            });
         }
+        Ok((params, body))
+    }
+
+    /// Whether a PropertyName follows.
+    fn at_property_name(&self) -> bool {
+        match self.current.tokentype {
+            TokenType::StringLiteral | TokenType::NumericLiteral => true,
+            _ => self.at_id_name() || self.current.matches_punc("["),
+        }
+    }
+
+    /// Whether the `async` just read belongs to a method of the name that follows.
+    fn at_async_method(&self) -> bool {
+        !self.has_line_terminator && (self.at_property_name() || self.current.matches_punc("*"))
     }
 
     fn parse_regexp_lit(&mut self) -> Result<Node> {
-- 
2.43.0


From 184511cea0837046b9842ece2d7b89070e7e0110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 63/78] fix: accessors take exactly the parameters they may
 have

---
 giron/src/errors/errors.rs |   2 -
 giron/src/parser/parser.rs | 113 ++++++++++++++++++-------------------
 2 files changed, 56 insertions(+), 59 deletions(-)

diff --git a/giron/src/errors/errors.rs b/giron/src/errors/errors.rs
index 5dba398..0210a71 100644
--- a/giron/src/errors/errors.rs
+++ b/giron/src/errors/errors.rs
@@ -106,7 +106,6 @@ pub enum ErrorType {
     IllegalBreak,
     StrictWith,
     StrictFunction,
-    InvalidAccessorParameters,
     StrictEvalArguments,
     NewlineAfterThrow,
     GeneratorInSingleStatementContext,
@@ -147,7 +146,6 @@ impl fmt::Display for Error {
             ErrorType::IllegalBreak => write!(f, "Illegal break statement"),
             ErrorType::StrictWith => write!(f, "Strict mode code may not include a with statement"),
             ErrorType::StrictEvalArguments => write!(f, "Unexpected eval or arguments in strict mode"),
-            ErrorType::InvalidAccessorParameters => write!(f, "Getter must have no and setter exactly one formal parameter"),
             ErrorType::StrictFunction => write!(f, "In strict mode code, functions can only be declared at top level or inside a block."),
             ErrorType::NewlineAfterThrow => write!(f, "Illegal newline after throw"),
             ErrorType::GeneratorInSingleStatementContext => write!(f, "Generators can only be declared at the top level or inside a block."),
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index ce8634a..b359105 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1672,7 +1672,7 @@ where
             },
         }?;
 
-        let (params, body) = self.parse_function_params_and_body(r#async, generator)?;
+        let (params, body) = self.parse_function_params_and_body("init", r#async, generator)?;
         Ok(Node::FunctionDeclaration {
             id,
             params,
@@ -1684,8 +1684,22 @@ where
         })
     }
 
+    fn parse_getter_params(&mut self) -> Result<Vec<FunctionParameter>> {
+        self.consume("(", LexGoal::RegExp)?;
+        self.consume(")", LexGoal::RegExp)?;
+        Ok(vec![])
+    }
+
+    fn parse_setter_params(&mut self) -> Result<Vec<FunctionParameter>> {
+        self.consume("(", LexGoal::RegExp)?;
+        let param = self.parse_formal_param()?;
+        self.consume(")", LexGoal::RegExp)?;
+        Ok(vec![param])
+    }
+
     fn parse_function_params_and_body(
         &mut self,
+        kind: &str,
         r#async: bool,
         generator: bool,
     ) -> Result<(Vec<FunctionParameter>, Box<Node>)> {
@@ -1699,7 +1713,11 @@ where
                 is_lexical: false,
                 ..self.params
             },
-            &mut Self::parse_formal_params,
+            &mut match kind {
+                "get" => Self::parse_getter_params,
+                "set" => Self::parse_setter_params,
+                _ => Self::parse_formal_params,
+            },
         )?;
         let body = self.with_params(
             Params {
@@ -3511,7 +3529,7 @@ where
                 .to_node()?,
             )),
         };
-        let (params, body) = self.parse_function_params_and_body(r#async, generator)?;
+        let (params, body) = self.parse_function_params_and_body("init", r#async, generator)?;
         Ok(Node::FunctionExpression {
             id,
             params,
@@ -3560,35 +3578,7 @@ where
                     })
                 }
                 _ => {
-                    let (line, col) = (this.current.line_num, this.current.col);
-                    let left = this.parse_binding_id_or_pat()?;
-                    let param = match this.current.tokentype {
-                        TokenType::Punctuator if this.current.matches_punc("=") => {
-                            this.advance(LexGoal::RegExp)?;
-                            FunctionParameter::AssignmentPattern {
-                                left,
-                                right: this.with_in(true, &mut Self::parse_assignment_expr)?,
-                            }
-                        }
-                        _ => match left {
-                            Binding::BindingIdentifier(BindingIdentifier { name, .. }) => {
-                                FunctionParameter::BindingIdentifier { name }
-                            }
-                            Binding::ArrayPattern(ArrayPattern { elements, .. }) => {
-                                FunctionParameter::ArrayPattern { elements }
-                            }
-                            Binding::ObjectPattern(ObjectPattern { properties, .. }) => {
-                                FunctionParameter::ObjectPattern { properties }
-                            }
-                            _ => {
-                                return Err(Error {
-                                    line,
-                                    col,
-                                    errortype: ErrorType::InvalidDestructuringTarget,
-                                })
-                            }
-                        },
-                    };
+                    let param = this.parse_formal_param()?;
                     if !this.current.matches_punc(")") {
                         this.consume(",", LexGoal::RegExp)?;
                     }
@@ -3599,6 +3589,39 @@ where
         Ok(parameters)
     }
 
+    fn parse_formal_param(&mut self) -> Result<FunctionParameter> {
+        let (line, col) = (self.current.line_num, self.current.col);
+        let left = self.parse_binding_id_or_pat()?;
+        let param = match self.current.tokentype {
+            TokenType::Punctuator if self.current.matches_punc("=") => {
+                self.advance(LexGoal::RegExp)?;
+                FunctionParameter::AssignmentPattern {
+                    left,
+                    right: self.with_in(true, &mut Self::parse_assignment_expr)?,
+                }
+            }
+            _ => match left {
+                Binding::BindingIdentifier(BindingIdentifier { name, .. }) => {
+                    FunctionParameter::BindingIdentifier { name }
+                }
+                Binding::ArrayPattern(ArrayPattern { elements, .. }) => {
+                    FunctionParameter::ArrayPattern { elements }
+                }
+                Binding::ObjectPattern(ObjectPattern { properties, .. }) => {
+                    FunctionParameter::ObjectPattern { properties }
+                }
+                _ => {
+                    return Err(Error {
+                        line,
+                        col,
+                        errortype: ErrorType::InvalidDestructuringTarget,
+                    })
+                }
+            },
+        };
+        Ok(param)
+    }
+
     fn parse_object_lit_expr(&mut self) -> Result<Node> {
         log!("parse_object_lit_expr");
         // ObjectLiteral[Yield, Await]:
@@ -3810,7 +3833,7 @@ where
         computed: bool,
     ) -> Result<ObjectExpressionProperty> {
         log!("parse_method_definition");
-        let (params, body) = self.parse_method_params_and_body(kind, r#async, generator)?;
+        let (params, body) = self.parse_function_params_and_body(kind, r#async, generator)?;
         let value = Some(PropertyValue::FunctionExpression(FunctionExpression {
             id: None,
             params,
@@ -3830,30 +3853,6 @@ where
         })
     }
 
-    fn parse_method_params_and_body(
-        &mut self,
-        kind: &str,
-        r#async: bool,
-        generator: bool,
-    ) -> Result<(Vec<FunctionParameter>, Box<Node>)> {
-        let (line, col) = (self.current.line_num, self.current.col);
-        let (params, body) = self.parse_function_params_and_body(r#async, generator)?;
-        let is_valid = match (kind, &params[..]) {
-            ("get", params) => params.is_empty(),
-            ("set", [FunctionParameter::RestElement { .. }]) => false,
-            ("set", params) => params.len() == 1,
-            _ => true,
-        };
-        if !is_valid {
-            return Err(Error {
-                line,
-                col,
-                errortype: ErrorType::InvalidAccessorParameters,
-            });
-        }
-        Ok((params, body))
-    }
-
     /// Whether a PropertyName follows.
     fn at_property_name(&self) -> bool {
         match self.current.tokentype {
-- 
2.43.0


From d483ee987e7b3425df5556efbda86f90d0b4018f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 64/78] fix: class members: static, modifiers as names, async
 and generator methods, constructors

---
 giron/src/errors/errors.rs |   6 +
 giron/src/parser/parser.rs | 295 +++++++++++--------------------------
 2 files changed, 91 insertions(+), 210 deletions(-)

diff --git a/giron/src/errors/errors.rs b/giron/src/errors/errors.rs
index 0210a71..1eb5b3a 100644
--- a/giron/src/errors/errors.rs
+++ b/giron/src/errors/errors.rs
@@ -106,6 +106,9 @@ pub enum ErrorType {
     IllegalBreak,
     StrictWith,
     StrictFunction,
+    ConstructorIsSpecial,
+    DuplicateConstructor,
+    StaticPrototype,
     StrictEvalArguments,
     NewlineAfterThrow,
     GeneratorInSingleStatementContext,
@@ -146,6 +149,9 @@ impl fmt::Display for Error {
             ErrorType::IllegalBreak => write!(f, "Illegal break statement"),
             ErrorType::StrictWith => write!(f, "Strict mode code may not include a with statement"),
             ErrorType::StrictEvalArguments => write!(f, "Unexpected eval or arguments in strict mode"),
+            ErrorType::ConstructorIsSpecial => write!(f, "Class constructor may not be an accessor, a generator or async"),
+            ErrorType::DuplicateConstructor => write!(f, "A class may only have one constructor"),
+            ErrorType::StaticPrototype => write!(f, "Classes may not have a static property named 'prototype'"),
             ErrorType::StrictFunction => write!(f, "In strict mode code, functions can only be declared at top level or inside a block."),
             ErrorType::NewlineAfterThrow => write!(f, "Illegal newline after throw"),
             ErrorType::GeneratorInSingleStatementContext => write!(f, "Generators can only be declared at the top level or inside a block."),
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index b359105..1c4cef8 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1827,6 +1827,7 @@ where
         //     MethodDefinition[?Yield, ?Await]
         //     "static" MethodDefinition[?Yield, ?Await]
         //     ";"
+        let mut has_constructor = false;
         let body_with_empty =
             self.parse_until_punc("}", &mut |this| match this.current.tokentype {
                 TokenType::Punctuator if this.current.matches_punc(";") => {
@@ -1834,218 +1835,14 @@ where
                     Ok(None)
                 }
                 _ => {
-                    let r#static = match this.current.tokentype {
-                        TokenType::Keyword if this.current.matches_str("static") => {
-                            this.advance(LexGoal::RegExp)?;
-                            true
-                        }
-                        _ => false,
-                    };
-                    match this.current.tokentype {
-                        TokenType::Identifier if this.current.matches_str("get") => {
-                            this.advance(LexGoal::RegExp)?;
-                            let (key, computed) = this.parse_property_name()?;
-                            this.consume("(", LexGoal::RegExp)?;
-                            this.consume(")", LexGoal::RegExp)?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: false,
-                                    has_await: false,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params: vec![],
-                                body,
-                                generator: false,
-                                expression: false,
-                                r#async: false,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind: "get",
-                                r#static,
-                            }))
-                        }
-                        TokenType::Identifier if this.current.matches_str("set") => {
-                            this.advance(LexGoal::RegExp)?;
-                            let (key, computed) = this.parse_property_name()?;
-                            let params = this.with_params(
-                                Params {
-                                    has_yield: false,
-                                    has_await: false,
-                                    ..this.params
-                                },
-                                &mut Self::parse_formal_params,
-                            )?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: false,
-                                    has_await: false,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params,
-                                body,
-                                generator: false,
-                                expression: false,
-                                r#async: false,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind: "set",
-                                r#static,
-                            }))
-                        }
-                        TokenType::Identifier if this.current.matches_str("async") => {
-                            this.advance(LexGoal::RegExp)?;
-                            let r#async = true;
-                            let generator = match this.current.tokentype {
-                                TokenType::Punctuator
-                                    if !this.has_line_terminator
-                                        && this.current.matches_punc("*") =>
-                                {
-                                    this.advance(LexGoal::RegExp)?;
-                                    true
-                                }
-                                _ => false,
-                            };
-                            if !generator && !this.has_line_terminator {
-                                return this.unexpected_current();
-                            }
-                            let (key, computed) = this.parse_property_name()?;
-                            let params = this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_formal_params,
-                            )?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params,
-                                body,
-                                generator,
-                                expression: false,
-                                r#async,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind: "method",
-                                r#static,
-                            }))
-                        }
-                        TokenType::Punctuator if this.current.matches_punc("*") => {
-                            this.advance(LexGoal::RegExp)?;
-                            let r#async = false;
-                            let generator = true;
-                            let (key, computed) = this.parse_property_name()?;
-                            let params = this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_formal_params,
-                            )?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params,
-                                body,
-                                generator,
-                                expression: false,
-                                r#async,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind: "method",
-                                r#static,
-                            }))
-                        }
-                        _ => {
-                            let r#async = false;
-                            let generator = false;
-                            let (key, computed) = this.parse_property_name()?;
-                            let kind = match &key {
-                                PropertyKey::Identifier(Identifier { name, .. }) => {
-                                    if name == &String::from("constructor") {
-                                        "constructor"
-                                    } else {
-                                        "method"
-                                    }
-                                }
-                                PropertyKey::Literal(Literal { raw, .. }) => {
-                                    if raw == &String::from("constructor") {
-                                        "constructor"
-                                    } else {
-                                        "method"
-                                    }
-                                }
-                                _ => "method",
-                            };
-                            let params = this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_formal_params,
-                            )?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params,
-                                body,
-                                generator,
-                                expression: false,
-                                r#async,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind,
-                                r#static,
-                            }))
+                    let method = this.parse_class_member()?;
+                    if method.kind == "constructor" {
+                        if has_constructor {
+                            return this.error_current(ErrorType::DuplicateConstructor);
                         }
+                        has_constructor = true;
                     }
+                    Ok(Some(method))
                 }
             })?;
         let mut body = vec![];
@@ -2057,6 +1854,84 @@ where
         Ok(ClassBody { body })
     }
 
+    fn parse_class_member(&mut self) -> Result<MethodDefinition> {
+        // static, get, set and async are modifiers if a property name follows, otherwise
+        // the name itself
+        let mut r#static = false;
+        let mut r#async = false;
+        let mut generator = false;
+        let mut kind = "method";
+        let mut key = None;
+        let mut token = self.current.clone();
+        if self.at_modifier("static") {
+            let name = self.parse_property_name()?;
+            if self.at_property_name() || self.current.matches_punc("*") {
+                r#static = true;
+            } else {
+                key = Some(name);
+            }
+        }
+        if key.is_none() {
+            token = self.current.clone();
+            if self.at_modifier("get") || self.at_modifier("set") || self.at_modifier("async") {
+                let name = self.parse_property_name()?;
+                match token.to_str() {
+                    "get" if self.at_property_name() => kind = "get",
+                    "set" if self.at_property_name() => kind = "set",
+                    "async" if self.at_async_method() => r#async = true,
+                    _ => key = Some(name),
+                }
+            }
+        }
+        if key.is_none() {
+            if kind == "method" && self.current.matches_punc("*") {
+                self.advance(LexGoal::RegExp)?;
+                generator = true;
+            }
+            token = self.current.clone();
+        }
+        let (key, computed) = match key {
+            Some(name) => name,
+            None => self.parse_property_name()?,
+        };
+        let name = match &key {
+            PropertyKey::Identifier(Identifier { name, .. }) => &name[..],
+            PropertyKey::Literal(Literal {
+                value: Value::Str(name),
+                ..
+            }) => &name[..],
+            _ => "",
+        };
+        if name == "prototype" && r#static {
+            return self.error(token, ErrorType::StaticPrototype);
+        }
+        if name == "constructor" && !r#static {
+            if kind != "method" || generator || r#async {
+                return self.error(token, ErrorType::ConstructorIsSpecial);
+            }
+            kind = "constructor";
+        }
+        let (params, body) = self.parse_function_params_and_body(kind, r#async, generator)?;
+        Ok(MethodDefinition {
+            key: key.as_node(),
+            computed,
+            value: Some(FunctionExpression {
+                id: None,
+                params,
+                body,
+                generator,
+                expression: false,
+                r#async,
+            }),
+            kind,
+            r#static,
+        })
+    }
+
+    fn at_modifier(&self, name: &str) -> bool {
+        self.current.tokentype == TokenType::Identifier && self.current.matches_str(name)
+    }
+
     fn parse_lexical_dclr(&mut self) -> Result<Node> {
         log!("parse_lexical_dclr");
         // VariableDeclaration {
-- 
2.43.0


From fad547fb749a8aa16c2816f759a1340eb0874a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 65/78] fix: nested new expressions, and member chains after
 new.target

---
 giron/src/parser/parser.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 1c4cef8..0401101 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2472,6 +2472,7 @@ where
                     _ => self.unexpected_current(),
                 }
             }
+            TokenType::Keyword if self.current.matches_str("new") => self.parse_new_member_expr(),
             _ => self.parse_primary_expr(),
         }?;
         while !expr.is_arrow() {
@@ -2559,6 +2560,13 @@ where
         //     callee: Box<Node>, // Expression
         //     arguments: Vec<ArgumentListElement>,
         // },
+        self.start_span();
+        let callee = self.parse_new_member_expr()?;
+        self.parse_call_expr_tail(callee)
+    }
+
+    /// `new` with its callee and, if present, the arguments directly after it.
+    fn parse_new_member_expr(&mut self) -> Result<Node> {
         self.start_span();
         let id = self.consume_kw("new", LexGoal::RegExp)?;
         let span = self.peek_span();
@@ -2566,7 +2574,9 @@ where
             TokenType::Punctuator if self.current.matches_punc(".") => {
                 self.advance(LexGoal::RegExp)?;
                 match self.current.tokentype {
-                    TokenType::Identifier if self.current.matches_str("target") => {
+                    TokenType::Identifier
+                        if self.current.matches_str("target") && !self.current.escaped =>
+                    {
                         let property = Box::from(Node::Identifier {
                             name: self.advance(LexGoal::Div)?.value.string().unwrap(),
                             assign_target_type: "invalid",
@@ -2586,12 +2596,6 @@ where
                     _ => self.unexpected_current(),
                 }
             }
-            TokenType::Keyword if self.current.matches_str("new") => Ok(Node::NewExpression {
-                callee: Box::from(self.parse_new_expr()?),
-                arguments: vec![],
-                assign_target_type: "invalid",
-                span: self.end_span(),
-            }),
             _ => {
                 let callee = Box::from(self.parse_member_expr()?);
                 let arguments = match self.current.tokentype {
@@ -2600,13 +2604,12 @@ where
                     }
                     _ => vec![],
                 };
-                let callee = Node::NewExpression {
+                Ok(Node::NewExpression {
                     callee,
                     arguments,
                     assign_target_type: "invalid",
                     span: self.end_span(),
-                };
-                self.parse_call_expr_tail(callee)
+                })
             }
         }
     }
-- 
2.43.0


From c746039dae63ffb21557ac6a9175346d520757ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 66/78] fix: class expressions are ClassExpression, their name
 and that of an exported default class optional

---
 giron/src/parser/parser.rs | 69 +++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 0401101..8c4c636 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1777,28 +1777,39 @@ where
         self.ctx.strict = true;
         self.start_span();
         self.consume_kw("class", LexGoal::RegExp)?;
-        let id = match self.parse_binding_id()? {
-            Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
-                Ok(Node::BindingIdentifier { name, span })
+        let id = match self.current.tokentype {
+            TokenType::Keyword
+                if self.params.has_default && self.current.matches_str("extends") =>
+            {
+                None
             }
-            _ => unreachable!(),
-        }?;
-        let res = self.parse_class_tail(Some(Box::from(id)))?;
+            TokenType::Identifier | TokenType::Keyword => {
+                Some(Box::from(self.parse_binding_id()?.to_node()?))
+            }
+            _ if self.params.has_default => None,
+            _ => return self.unexpected_current(),
+        };
+        let (super_class, body) = self.with_params(
+            Params {
+                has_default: false,
+                ..self.params
+            },
+            &mut Self::parse_class_tail,
+        )?;
         self.ctx.strict = prev_strict;
-        Ok(res)
+        Ok(Node::ClassDeclaration {
+            id,
+            super_class,
+            body,
+            span: self.end_span(),
+        })
     }
 
-    fn parse_class_tail(&mut self, id: Option<Box<Node>>) -> Result<Node> {
+    fn parse_class_tail(&mut self) -> Result<(Option<Box<Node>>, ClassBody)> {
         // ClassTail[Yield, Await]:
         //     ClassHeritage[?Yield, ?Await](opt) "{" ClassBody[?Yield, ?Await](opt) "}"
         // ClassHeritage[Yield, Await]:
         //     "extends" LeftHandSideExpression[?Yield, ?Await]
-        // ClassDeclaration {
-        //     id: Option<Box<Node>>, // Identifier | null
-        //     #[serde(rename = "superClass")]
-        //     super_class: Option<Box<Node>>, // Expression | null
-        //     body: ClassBody,
-        // }
         let super_class = match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("extends") => {
                 self.advance(LexGoal::RegExp)?;
@@ -1809,12 +1820,7 @@ where
         self.consume("{", LexGoal::RegExp)?;
         let body = self.parse_class_body()?;
         self.consume("}", LexGoal::RegExp)?;
-        Ok(Node::ClassDeclaration {
-            id,
-            super_class,
-            body,
-            span: self.end_span(),
-        })
+        Ok((super_class, body))
     }
 
     fn parse_class_body(&mut self) -> Result<ClassBody> {
@@ -3346,18 +3352,21 @@ where
         self.start_span();
         self.consume_kw("class", LexGoal::RegExp)?;
         let id = match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword => match self.parse_binding_id()? {
-                Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
-                    Some(Box::from(Node::BindingIdentifier { name, span }))
-                }
-                _ => unreachable!(),
-            },
-            _ if self.params.has_default => None,
-            _ => return self.unexpected_current(),
+            TokenType::Keyword if self.current.matches_str("extends") => None,
+            TokenType::Identifier | TokenType::Keyword => {
+                Some(Box::from(self.parse_binding_id()?.to_node()?))
+            }
+            _ => None,
         };
-        let res = self.parse_class_tail(id)?;
+        let (super_class, body) = self.parse_class_tail()?;
         self.ctx.strict = prev_strict;
-        Ok(res)
+        Ok(Node::ClassExpression {
+            id,
+            super_class,
+            body,
+            assign_target_type: "invalid",
+            span: self.end_span(),
+        })
     }
 
     fn parse_function_expr(&mut self, r#async: bool) -> Result<Node> {
-- 
2.43.0


From 5a8f006ba19fcc6f66868ea721cdd7fe8a9a1496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 67/78] fix: let and const do not bind let

---
 giron/src/parser/parser.rs | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 8c4c636..0000665 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -792,7 +792,7 @@ where
 
     fn parse_variable_dclr(&mut self, kind: &str) -> Result<VariableDeclarator> {
         log!("parse_variable_dclr");
-        let id = self.parse_binding_id_or_pat()?;
+        let id = self.parse_declared_binding(kind)?;
         let init = match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("=") => {
                 self.advance(LexGoal::RegExp)?;
@@ -994,7 +994,7 @@ where
                     _ => return self.unexpected_current(),
                 };
                 self.advance(LexGoal::RegExp)?;
-                let id = self.parse_binding_id_or_pat()?;
+                let id = self.parse_declared_binding(kind)?;
                 match self.current.tokentype {
                     TokenType::Punctuator if self.current.matches_punc("=") => {
                         // LetOrConst Binding "=" "," ...
@@ -2998,6 +2998,29 @@ where
         }
     }
 
+    /// A binding of a declaration; `let` and `const` do not bind the name `let`.
+    fn parse_declared_binding(&mut self, kind: &str) -> Result<Binding> {
+        self.with_params(
+            Params {
+                is_lexical: kind != "var",
+                ..self.params
+            },
+            &mut Self::parse_binding_id_or_pat,
+        )
+    }
+
+    /// An initialiser or computed key inside a binding pattern.
+    fn parse_pattern_expr(&mut self) -> Result<Node> {
+        self.with_params(
+            Params {
+                has_in: true,
+                is_lexical: false,
+                ..self.params
+            },
+            &mut Self::parse_assignment_expr,
+        )
+    }
+
     fn parse_obj_binding_pat(&mut self) -> Result<Binding> {
         log!("parse_obj_binding_pat");
         // ObjectBindingPattern[Yield, Await]:
@@ -3043,7 +3066,7 @@ where
                     }
                     TokenType::Punctuator if this.current.matches_punc("[") => {
                         this.consume("[", LexGoal::RegExp)?;
-                        let expr = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                        let expr = this.parse_pattern_expr()?;
                         this.consume("]", LexGoal::RegExp)?;
                         Ok(ValueOrExpr::Expr(expr))
                     }
@@ -3060,7 +3083,7 @@ where
                         let key = this.value_to_key(value, false, span.clone())?;
                         let obj_value = PropertyValue::AssignmentPattern(AssignmentPattern {
                             left: Binding::BindingIdentifier(BindingIdentifier { name, span }),
-                            right: this.with_in(true, &mut Self::parse_assignment_expr)?,
+                            right: this.parse_pattern_expr()?,
                         });
                         Ok(ObjectPatternProperty::Property {
                             key,
@@ -3085,7 +3108,7 @@ where
                                 this.advance(LexGoal::RegExp)?;
                                 Ok(PropertyValue::AssignmentPattern(AssignmentPattern {
                                     left: pattern,
-                                    right: this.with_in(true, &mut Self::parse_assignment_expr)?,
+                                    right: this.parse_pattern_expr()?,
                                 }))
                             }
                             _ => match pattern {
@@ -3236,7 +3259,7 @@ where
                             this.advance(LexGoal::RegExp)?;
                             ArrayPatternElement::AssignmentPattern {
                                 left: pattern,
-                                right: this.with_in(true, &mut Self::parse_assignment_expr)?,
+                                right: this.parse_pattern_expr()?,
                             }
                         }
                         _ => match pattern {
@@ -3956,6 +3979,9 @@ where
         if self.id_reference_type(&token)? != "simple" {
             return self.error(token, ErrorType::StrictEvalArguments);
         }
+        if self.params.is_lexical && token.to_str() == "let" {
+            return self.unexpected(token);
+        }
         Ok(Binding::BindingIdentifier(BindingIdentifier {
             name: self.advance(LexGoal::Div)?.to_string(),
             span: self.end_span(),
-- 
2.43.0


From 700e0aa79f51c38ab5f55197f1b8a80f8ecc30ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 68/78] fix: object binding patterns: computed, literal and
 reserved keys, shorthand values, rest

---
 giron/src/parser/parser.rs | 141 +++++++++++--------------------------
 1 file changed, 41 insertions(+), 100 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 0000665..095a5be 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -24,11 +24,6 @@ macro_rules! log {
 
 // **************************************************************
 
-pub enum ValueOrExpr {
-    Value(Value),
-    Expr(Node),
-}
-
 struct Context {
     strict: bool,
     in_function: bool,
@@ -3052,55 +3047,15 @@ where
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.advance(LexGoal::RegExp)?;
                 Ok(ObjectPatternProperty::RestElement {
-                    argument: this.parse_binding_id_or_pat()?,
+                    argument: this.parse_binding_id()?,
                 })
             }
             _ => {
-                this.start_span();
-                let value = match this.current.tokentype {
-                    TokenType::Identifier
-                    | TokenType::Keyword
-                    | TokenType::StringLiteral
-                    | TokenType::NumericLiteral => {
-                        Ok(ValueOrExpr::Value(this.advance(LexGoal::RegExp)?.value))
-                    }
-                    TokenType::Punctuator if this.current.matches_punc("[") => {
-                        this.consume("[", LexGoal::RegExp)?;
-                        let expr = this.parse_pattern_expr()?;
-                        this.consume("]", LexGoal::RegExp)?;
-                        Ok(ValueOrExpr::Expr(expr))
-                    }
-                    _ => this.unexpected_current(),
-                }?;
-                let span = this.end_span();
+                let token = this.current.clone();
+                let (key, computed) = this.parse_property_name()?;
                 let property = match this.current.tokentype {
-                    TokenType::Punctuator if this.current.matches_punc("=") => {
-                        this.advance(LexGoal::RegExp)?;
-                        let name = match &value {
-                            ValueOrExpr::Value(Value::Str(s)) => Ok(s.clone()),
-                            _ => this.unexpected_current(),
-                        }?;
-                        let key = this.value_to_key(value, false, span.clone())?;
-                        let obj_value = PropertyValue::AssignmentPattern(AssignmentPattern {
-                            left: Binding::BindingIdentifier(BindingIdentifier { name, span }),
-                            right: this.parse_pattern_expr()?,
-                        });
-                        Ok(ObjectPatternProperty::Property {
-                            key,
-                            computed: false,
-                            value: Some(obj_value),
-                            kind: "init",
-                            method: false,
-                            shorthand: true,
-                        })
-                    }
                     TokenType::Punctuator if this.current.matches_punc(":") => {
                         this.advance(LexGoal::RegExp)?;
-                        let key = this.value_to_key(value, true, span)?;
-                        let computed = match &key {
-                            PropertyKey::Expression(_) => true,
-                            _ => false,
-                        };
                         let (line, col) = (this.current.line_num, this.current.col);
                         let pattern = this.parse_binding_id_or_pat()?;
                         let obj_value = match this.current.tokentype {
@@ -3146,17 +3101,34 @@ where
                             shorthand: false,
                         })
                     }
-                    _ => {
-                        let key = this.value_to_key(value, false, span)?;
-                        Ok(ObjectPatternProperty::Property {
-                            key,
-                            computed: false,
-                            value: None,
-                            kind: "init",
-                            method: false,
-                            shorthand: true,
-                        })
-                    }
+                    _ => match &key {
+                        PropertyKey::Identifier(Identifier { span, .. }) => {
+                            let name = this.check_binding_id(token)?;
+                            let id = BindingIdentifier {
+                                name,
+                                span: span.clone(),
+                            };
+                            let value = match this.current.tokentype {
+                                TokenType::Punctuator if this.current.matches_punc("=") => {
+                                    this.advance(LexGoal::RegExp)?;
+                                    PropertyValue::AssignmentPattern(AssignmentPattern {
+                                        left: Binding::BindingIdentifier(id),
+                                        right: this.parse_pattern_expr()?,
+                                    })
+                                }
+                                _ => PropertyValue::BindingIdentifier(id),
+                            };
+                            Ok(ObjectPatternProperty::Property {
+                                key,
+                                computed,
+                                value: Some(value),
+                                kind: "init",
+                                method: false,
+                                shorthand: true,
+                            })
+                        }
+                        _ => this.unexpected_current(),
+                    },
                 }?;
                 if !this.current.matches_punc("}") {
                     this.consume(",", LexGoal::RegExp)?;
@@ -3171,43 +3143,6 @@ where
         }))
     }
 
-    fn value_to_key(
-        &mut self,
-        value: ValueOrExpr,
-        literal: bool,
-        span: Span,
-    ) -> Result<PropertyKey> {
-        match value {
-            ValueOrExpr::Expr(expr) if literal => Ok(PropertyKey::Expression(expr)),
-            ValueOrExpr::Value(value) => {
-                if literal {
-                    let raw = String::from(&value);
-                    Ok(PropertyKey::Literal(Literal { value, raw, span }))
-                } else {
-                    let val = &String::from(&value)[..];
-                    if self.scanner.is_keyword(val) {
-                        if (!self.params.has_yield && val == "yield")
-                            | (!self.params.has_await && val == "await")
-                        {
-                            Ok(PropertyKey::Identifier(Identifier {
-                                name: String::from(val),
-                                span,
-                            }))
-                        } else {
-                            self.unexpected_current()
-                        }
-                    } else {
-                        Ok(PropertyKey::Identifier(Identifier {
-                            name: String::from(val),
-                            span,
-                        }))
-                    }
-                }
-            }
-            _ => panic!(),
-        }
-    }
-
     fn parse_arr_binding_pat(&mut self) -> Result<Binding> {
         log!("parse_arr_binding_pat");
         // ArrayBindingPattern[Yield, Await]:
@@ -3975,6 +3910,15 @@ where
         //     await
         self.start_span();
         let token = self.current.clone();
+        self.check_binding_id(token)?;
+        Ok(Binding::BindingIdentifier(BindingIdentifier {
+            name: self.advance(LexGoal::Div)?.to_string(),
+            span: self.end_span(),
+        }))
+    }
+
+    /// Checks that a token is a binding identifier, and returns its name.
+    fn check_binding_id(&mut self, token: Token) -> Result<String> {
         // in strict code neither `eval` nor `arguments` can be bound
         if self.id_reference_type(&token)? != "simple" {
             return self.error(token, ErrorType::StrictEvalArguments);
@@ -3982,10 +3926,7 @@ where
         if self.params.is_lexical && token.to_str() == "let" {
             return self.unexpected(token);
         }
-        Ok(Binding::BindingIdentifier(BindingIdentifier {
-            name: self.advance(LexGoal::Div)?.to_string(),
-            span: self.end_span(),
-        }))
+        Ok(token.to_string())
     }
 
     /// Whether the current token is an IdentifierName; reserved words are.
-- 
2.43.0


From 818736986276f7c0882bdd4fdd367c811866fc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 69/78] fix: imports without bindings, default imports,
 imported names

---
 giron/src/parser/parser.rs | 68 +++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 41 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 095a5be..972674a 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -239,19 +239,9 @@ where
                 self.parse_import_from_dclr(specifiers)
             }
             TokenType::Identifier | TokenType::Keyword => {
-                let local = self
-                    .with_params(
-                        Params {
-                            has_yield: false,
-                            has_await: false,
-                            ..self.params
-                        },
-                        &mut Self::parse_binding_id,
-                    )?
-                    .to_id()?;
-                let imported = local.clone();
+                let local = self.parse_imported_binding()?;
                 let mut specifiers =
-                    vec![ImportDeclarationSpecifier::ImportSpecifier { local, imported }];
+                    vec![ImportDeclarationSpecifier::ImportDefaultSpecifier { local }];
                 match self.current.tokentype {
                     TokenType::Punctuator if self.current.matches_punc(",") => {
                         self.advance(LexGoal::RegExp)?;
@@ -270,24 +260,35 @@ where
                     _ => self.parse_import_from_dclr(specifiers),
                 }
             }
-            TokenType::StringLiteral => unimplemented!(),
+            TokenType::StringLiteral => {
+                let source = self.parse_module_specifier()?;
+                self.consume_semicolon(LexGoal::RegExp)?;
+                Ok(Node::ImportDeclaration {
+                    specifiers: vec![],
+                    source,
+                    span: self.end_span(),
+                })
+            }
             _ => self.unexpected_current(),
         }
     }
 
+    fn parse_imported_binding(&mut self) -> Result<Identifier> {
+        self.with_params(
+            Params {
+                has_yield: false,
+                has_await: false,
+                ..self.params
+            },
+            &mut Self::parse_binding_id,
+        )?
+        .to_id()
+    }
+
     fn parse_namespace_import_specifiers(&mut self) -> Result<Vec<ImportDeclarationSpecifier>> {
         self.consume("*", LexGoal::RegExp)?;
         self.consume_id("as", LexGoal::RegExp)?;
-        let local = self
-            .with_params(
-                Params {
-                    has_yield: false,
-                    has_await: false,
-                    ..self.params
-                },
-                &mut Self::parse_binding_id,
-            )?
-            .to_id()?;
+        let local = self.parse_imported_binding()?;
         Ok(vec![ImportDeclarationSpecifier::ImportNamespaceSpecifier {
             local,
         }])
@@ -297,36 +298,21 @@ where
         self.consume("{", LexGoal::RegExp)?;
         let specifiers = self.parse_until_punc("}", &mut |this| {
             this.start_span();
+            let token = this.current.clone();
             let name = this.parse_id_name(LexGoal::RegExp)?;
             let span = this.end_span();
             match this.current.tokentype {
                 TokenType::Identifier if this.current.matches_str("as") => {
                     let imported = Identifier { name, span };
                     this.advance(LexGoal::RegExp)?;
-                    let local = this
-                        .with_params(
-                            Params {
-                                has_yield: false,
-                                has_await: false,
-                                ..this.params
-                            },
-                            &mut Self::parse_binding_id,
-                        )?
-                        .to_id()?;
+                    let local = this.parse_imported_binding()?;
                     if !this.current.matches_punc("}") {
                         this.consume(",", LexGoal::RegExp)?;
                     }
                     Ok(ImportDeclarationSpecifier::ImportSpecifier { local, imported })
                 }
                 _ => {
-                    if this.scanner.is_keyword(&name) {
-                        let token = this.current.clone();
-                        return Err(Error {
-                            line: token.line_num,
-                            col: token.col,
-                            errortype: ErrorType::UnexpectedReserved,
-                        });
-                    }
+                    this.check_binding_id(token)?;
                     let imported = Identifier {
                         name: name.clone(),
                         span: span.clone(),
-- 
2.43.0


From 6f5a003c1ce177466ae934acd55806fa4d5c7707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 70/78] fix: export let, export async function, export default
 async arrows and calls

---
 giron/src/parser/parser.rs | 43 ++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 972674a..3045b8a 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -366,9 +366,10 @@ where
         match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("default") => {
                 self.advance(LexGoal::RegExp)?;
+                let is_async_function = self.at_async_function()?;
                 match self.current.tokentype {
                     TokenType::Identifier | TokenType::Keyword
-                        if self.current.is_hoistable_dclr_kw() =>
+                        if self.current.matches_str("function") || is_async_function =>
                     {
                         let declaration = self.with_params(
                             Params {
@@ -433,7 +434,7 @@ where
                     span: self.end_span(),
                 })
             }
-            TokenType::Keyword if self.current.is_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword if self.current.is_dclr_kw() => {
                 let declaration = self.with_params(
                     Params {
                         has_yield: false,
@@ -532,13 +533,13 @@ where
     fn parse_declaration(&mut self) -> Result<Node> {
         log!("parse_declaration");
         match self.current.tokentype {
-            TokenType::Keyword if self.current.is_hoistable_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword if self.current.is_hoistable_dclr_kw() => {
                 self.with_default(false, &mut Self::parse_hoistable_dclr)
             }
             TokenType::Keyword if self.current.matches_str("class") => {
                 self.with_default(false, &mut Self::parse_class_dclr)
             }
-            TokenType::Keyword if self.current.is_lexical_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword if self.current.is_lexical_dclr_kw() => {
                 self.with_in(true, &mut Self::parse_lexical_dclr)
             }
             _ => self.unexpected_current(),
@@ -581,22 +582,10 @@ where
             }
             // special LL(2) grammar case
             TokenType::Identifier if self.current.matches_str("async") => {
-                self.start_span();
-                self.scanner.save_state();
-                let next_token = self.scanner.next(LexGoal::RegExp)?;
-                match &next_token.tokentype {
-                    TokenType::Keyword
-                        if next_token.matches_str("function")
-                            && self.current.line_num == next_token.line_num =>
-                    {
-                        self.scanner.restore_state(next_token);
-                        self.with_default(false, &mut Self::parse_hoistable_dclr)
-                    }
-                    _ => {
-                        self.scanner.restore_state(next_token);
-                        self.end_span();
-                        self.parse_expression_or_labelled_stmt(true)
-                    }
+                if self.at_async_function()? {
+                    self.with_default(false, &mut Self::parse_hoistable_dclr)
+                } else {
+                    self.parse_expression_or_labelled_stmt(true)
                 }
             }
             // declarations
@@ -616,6 +605,20 @@ where
         }
     }
 
+    /// Whether the current token is an "async" with "function" after it on the same line.
+    fn at_async_function(&mut self) -> Result<bool> {
+        if self.current.tokentype != TokenType::Identifier || !self.current.matches_str("async") {
+            return Ok(false);
+        }
+        self.scanner.save_state();
+        let next_token = self.scanner.next(LexGoal::Div)?;
+        let is_function = next_token.tokentype == TokenType::Keyword
+            && next_token.matches_str("function")
+            && self.current.line_num == next_token.line_num;
+        self.scanner.restore_state(next_token);
+        Ok(is_function)
+    }
+
     /// Whether the current token is a "let" that no binding follows, which makes
     /// it an ordinary identifier.
     fn is_let_identifier(&mut self) -> Result<bool> {
-- 
2.43.0


From 1827ea77d71d9589cccd5d7b334d990a221dc836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 71/78] fix: export lists: local and exported names, from,
 reserved names, the semicolon

---
 giron/src/parser/parser.rs | 54 ++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 3045b8a..cfb8576 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -451,26 +451,25 @@ where
                 })
             }
             TokenType::Punctuator if self.current.matches_punc("{") => {
-                let specifiers = self.parse_named_export_specifiers()?;
-                match self.current.tokentype {
-                    TokenType::Keyword if self.current.matches_str("from") => {
+                let (locals, specifiers) =
+                    self.parse_named_export_specifiers()?.into_iter().unzip();
+                let source = match self.current.tokentype {
+                    TokenType::Identifier if self.current.matches_str("from") => {
                         self.advance(LexGoal::RegExp)?;
-                        let source = Some(self.parse_module_specifier()?);
-                        self.consume_semicolon(LexGoal::RegExp)?;
-                        Ok(Node::ExportNamedDeclaration {
-                            declaration: None,
-                            specifiers,
-                            source,
-                            span: self.end_span(),
-                        })
+                        Some(self.parse_module_specifier()?)
                     }
-                    _ => Ok(Node::ExportNamedDeclaration {
-                        declaration: None,
-                        specifiers,
-                        source: None,
-                        span: self.end_span(),
-                    }),
-                }
+                    _ => {
+                        self.check_exported_locals(locals)?;
+                        None
+                    }
+                };
+                self.consume_semicolon(LexGoal::RegExp)?;
+                Ok(Node::ExportNamedDeclaration {
+                    declaration: None,
+                    specifiers,
+                    source,
+                    span: self.end_span(),
+                })
             }
             TokenType::Punctuator if self.current.matches_punc("*") => {
                 self.advance(LexGoal::RegExp)?;
@@ -486,27 +485,36 @@ where
         }
     }
 
-    fn parse_named_export_specifiers(&mut self) -> Result<Vec<ExportSpecifier>> {
+    /// What a list exports from this module, unlike from another, are references.
+    fn check_exported_locals(&mut self, locals: Vec<Token>) -> Result<()> {
+        for token in locals.iter() {
+            self.id_reference_type(token)?;
+        }
+        Ok(())
+    }
+
+    fn parse_named_export_specifiers(&mut self) -> Result<Vec<(Token, ExportSpecifier)>> {
         self.consume("{", LexGoal::RegExp)?;
         let specifiers = self.parse_until_punc("}", &mut |this| {
             this.start_span();
+            let token = this.current.clone();
             let name = this.parse_id_name(LexGoal::RegExp)?;
             match this.current.tokentype {
                 TokenType::Identifier if this.current.matches_str("as") => {
-                    let exported = Identifier {
+                    let local = Identifier {
                         name,
                         span: this.end_span(),
                     };
                     this.advance(LexGoal::RegExp)?;
                     this.start_span();
-                    let local = Identifier {
+                    let exported = Identifier {
                         name: this.parse_id_name(LexGoal::RegExp)?,
                         span: this.end_span(),
                     };
                     if !this.current.matches_punc("}") {
                         this.consume(",", LexGoal::RegExp)?;
                     }
-                    Ok(ExportSpecifier { local, exported })
+                    Ok((token, ExportSpecifier { local, exported }))
                 }
                 _ => {
                     let span = this.end_span();
@@ -518,7 +526,7 @@ where
                     if !this.current.matches_punc("}") {
                         this.consume(",", LexGoal::RegExp)?;
                     }
-                    Ok(ExportSpecifier { local, exported })
+                    Ok((token, ExportSpecifier { local, exported }))
                 }
             }
         })?;
-- 
2.43.0


From 804ca09a52c26faa8b4a0fef675071b123583b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 72/78] fix: shorthand initialisers in the patterns of for-in
 and for-of heads

---
 giron/src/parser/parser.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index cfb8576..cee98a4 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1058,8 +1058,17 @@ where
                     }
                     _ => (),
                 }
-                let starts_with_let = self.current.matches_str("let");
-                let mut expr = self.with_in(false, &mut Self::parse_assignment_expr)?;
+                let starts_with_let = self.current.tokentype == TokenType::Identifier
+                    && self.current.matches_str("let");
+                let outer_cover_init = self.cover_init.take();
+                let mut expr = self.with_in(false, &mut Self::parse_cover_assignment_expr)?;
+                let cover_init = mem::replace(&mut self.cover_init, outer_cover_init);
+                match (&self.current.tokentype, cover_init) {
+                    (TokenType::Keyword, _) if self.current.matches_str("in") => (),
+                    (TokenType::Identifier, _) if self.current.matches_str("of") => (),
+                    (_, Some(error)) => return Err(error),
+                    _ => (),
+                }
                 match self.current.tokentype {
                     TokenType::Keyword if self.current.matches_str("in") => {
                         self.end_span(); // not needed
-- 
2.43.0


From 85c35b9b7c7438b167f4545403924281442f356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 73/78] fix: serialise parenthesised expressions as the
 expression itself

---
 giron/src/estree/estree.rs | 25 ++++++++++++++++---------
 giron/src/parser/parser.rs |  8 ++++----
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index b00bc22..b75e0e1 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -2,7 +2,7 @@ use crate::errors::errors::{Error, ErrorType};
 use crate::errors::result::Result;
 use crate::span::span::{Marker, Span};
 use crate::token::value::Value;
-use serde::Serialize;
+use serde::{Serialize, Serializer};
 
 #[derive(Serialize, Debug)]
 #[serde(tag = "type")]
@@ -933,12 +933,19 @@ pub enum Node {
     },
     // A parenthesised expression, which is just the expression in ESTree.
     #[serde(untagged)]
-    Parenthesized {
-        #[serde(flatten)]
-        expression: Box<Node>,
-        #[serde(skip)]
-        span: Span,
-    },
+    Parenthesized(Parenthesized),
+}
+
+#[derive(Debug)]
+pub struct Parenthesized {
+    pub expression: Box<Node>,
+    pub span: Span,
+}
+
+impl Serialize for Parenthesized {
+    fn serialize<S: Serializer>(&self, serializer: S) -> std::result::Result<S::Ok, S::Error> {
+        self.expression.serialize(serializer)
+    }
 }
 
 impl Node {
@@ -981,7 +988,7 @@ impl Node {
             Node::Super { span, .. } => span,
             Node::TemplateLiteral { span, .. } => span,
             Node::MetaProperty { span, .. } => span,
-            Node::Parenthesized { span, .. } => span,
+            Node::Parenthesized(Parenthesized { span, .. }) => span,
             _ => panic!(),
         }
     }
@@ -1076,7 +1083,7 @@ impl Node {
             Node::MetaProperty {
                 assign_target_type, ..
             } => assign_target_type,
-            Node::Parenthesized { expression, .. } => expression.assign_target_type(),
+            Node::Parenthesized(Parenthesized { expression, .. }) => expression.assign_target_type(),
             _ => "invalid",
         }
     }
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index cee98a4..2dc88f4 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2868,10 +2868,10 @@ where
         if !may_be_arrow {
             let expression = Box::from(self.with_in(true, &mut Self::parse_expression)?);
             self.consume(")", LexGoal::Div)?;
-            return Ok(Node::Parenthesized {
+            return Ok(Node::Parenthesized(Parenthesized {
                 expression,
                 span: self.end_span(),
-            });
+            }));
         }
         let mut definitely_arrow = self.current.matches_punc(")");
         let prev_yield_or_await = self.yield_or_await.take();
@@ -2920,10 +2920,10 @@ where
                 span: self.peek_span(),
             }
         };
-        Ok(Node::Parenthesized {
+        Ok(Node::Parenthesized(Parenthesized {
             expression: Box::from(expression),
             span: self.end_span(),
-        })
+        }))
     }
 
     /// Whether the current token is the `=>` of an arrow function.
-- 
2.43.0


From 3149635a53f51bf52ef12669b384e27908f1e8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 74/78] fix: a slash after a postfix operator is a division

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 2dc88f4..a0a4981 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2361,7 +2361,7 @@ where
                     });
                 }
                 Ok(Node::UpdateExpression {
-                    operator: self.advance(LexGoal::RegExp)?.to_string(),
+                    operator: self.advance(LexGoal::Div)?.to_string(),
                     argument: Box::from(expr),
                     prefix: false,
                     assign_target_type: "invalid",
-- 
2.43.0


From cf5fc5b4797b8b669fdcbc515a5b5ce858abeab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 75/78] fix: a substitution is not ended by the start of
 another template

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index a0a4981..e187a16 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3280,7 +3280,7 @@ where
     fn parse_template_element(&mut self) -> Result<TemplateElement> {
         log!("parse_template_element");
         match self.current.tokentype {
-            TokenType::Template => {
+            TokenType::Template if self.current.head != Some(true) => {
                 let token = self.advance(LexGoal::Div)?;
                 Ok(TemplateElement {
                     value: TemplateElementValue {
-- 
2.43.0


From 5b7840b7bf8faaae9fcd5abb3ba226168cd3dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 76/78] fix: a slash after an object literal, function or class
 expression is a division

---
 giron/src/parser/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index e187a16..a55f01d 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1761,7 +1761,7 @@ where
         body.extend(self.parse_statement_list()?);
         self.ctx.in_iteration = prev_in_iteration;
 
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", LexGoal::Div)?;
         self.ctx.strict = prev_strict;
         Ok(Node::BlockStatement {
             body,
@@ -1820,7 +1820,7 @@ where
         };
         self.consume("{", LexGoal::RegExp)?;
         let body = self.parse_class_body()?;
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", LexGoal::Div)?;
         Ok((super_class, body))
     }
 
@@ -3598,7 +3598,7 @@ where
             }
             Ok(property)
         })?;
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", LexGoal::Div)?;
         Ok(Node::ObjectExpression {
             properties,
             assign_target_type: "invalid",
-- 
2.43.0


From e2b6aa1fae5ce282eb468502ec2d48dca4c953a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 77/78] fix: skip exactly the white space of ECMAScript (BOM
 is, NEL is not)

---
 giron/src/scanner/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index c54e60d..9c3bf0b 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -121,7 +121,7 @@ where
     fn scan_comments(&mut self) -> Result<()> {
         loop {
             match self.peek2() {
-                (Some(cp), _) if cp.is_whitespace() => {
+                (Some(cp), _) if CodePoint::is_whitespace(cp) => {
                     self.consume();
                 }
                 (Some('\r'), Some('\n')) => {
-- 
2.43.0


From 18a49ff06973b95458b6d829a4412f07fed7c58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 78/78] fix: report the token after a property name that cannot
 be a shorthand

---
 giron/src/parser/parser.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index a55f01d..44bea4b 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -312,6 +312,7 @@ where
                     Ok(ImportDeclarationSpecifier::ImportSpecifier { local, imported })
                 }
                 _ => {
+                    this.check_shorthand(&token)?;
                     this.check_binding_id(token)?;
                     let imported = Identifier {
                         name: name.clone(),
@@ -3109,6 +3110,7 @@ where
                     }
                     _ => match &key {
                         PropertyKey::Identifier(Identifier { span, .. }) => {
+                            this.check_shorthand(&token)?;
                             let name = this.check_binding_id(token)?;
                             let id = BindingIdentifier {
                                 name,
@@ -3610,6 +3612,7 @@ where
     /// possibly with an initialiser if the object literal is to become a pattern.
     fn parse_shorthand_value(&mut self, token: Token) -> Result<PropertyValue> {
         self.start_span();
+        self.check_shorthand(&token)?;
         let assign_target_type = self.id_reference_type(&token)?;
         let id = Node::Identifier {
             name: token.to_string(),
@@ -3935,6 +3938,16 @@ where
         Ok(token.to_string())
     }
 
+    /// A name read that no identifier can have is fine as a name: it is the token after it
+    /// that should have been another.
+    fn check_shorthand(&mut self, name: &Token) -> Result<()> {
+        match name.tokentype {
+            TokenType::Identifier => Ok(()),
+            TokenType::Keyword if ["yield", "await"].contains(&name.to_str()) => Ok(()),
+            _ => self.unexpected_current(),
+        }
+    }
+
     /// Whether the current token is an IdentifierName; reserved words are.
     fn at_id_name(&self) -> bool {
         match self.current.tokentype {
-- 
2.43.0

