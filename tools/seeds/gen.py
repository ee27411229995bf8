# Descriptions of planted bugs, for tools/mkseed.py.
import os
here = os.path.dirname(os.path.abspath(__file__))
PA, SC, ES, CP, SY = 'parser/parser.rs', 'scanner/scanner.rs', 'estree/estree.rs', 'codepoint/codepoint.rs', 'parser/syntax.rs'
def seed(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO):
    d = dict(ID=ID, PROPERTY=PROPERTY, NEEDS=NEEDS, BREAKS=BREAKS, EDITS=EDITS, DEMO=DEMO)
    with open(os.path.join(here, ID + '.py'), 'w') as f:
        for k, v in d.items():
            f.write('%s = %r\n' % (k, v))
seed('c01-comment-hang', 'C01', 'a block comment cut off by the end of the input',
  'the parser never returns',
  [(SC, '''                (None, _) => return self.error(ErrorType::UnexpectedEOS),
            }
        }
    }

    // *******************************************************************
    //      Identifiers''', '''                (None, _) => {
                    self.consume();
                }
            }
        }
    }

    // *******************************************************************
    //      Identifiers''')],
  '''
let (tx, rx) = std::sync::mpsc::channel();
std::thread::spawn(move || { bad("a /* b"); tx.send(()).unwrap(); });
assert!(rx.recv_timeout(std::time::Duration::from_secs(20)).is_ok(), "no result");''')
seed('c02-instanceof-prec', 'C02', 'instanceof next to a shift operator', 'a << b instanceof c groups to the right',
  [(SY, 'if self.matches_str("instanceof") => 7', 'if self.matches_str("instanceof") => 8')],
  '''
at("a<<b instanceof c", "/body/0/expression/operator", "instanceof".into());
at("a instanceof b<<c", "/body/0/expression/operator", "instanceof".into());''')
seed('c03-for-of-expr', 'C03', 'a for-of statement whose iterable is followed by a comma', 'for (a of b, c) is accepted',
  [(PA, '''        self.consume_id("of", LexGoal::RegExp)?;
        let right = Box::from(self.with_in(true, &mut Self::parse_assignment_expr)?);''',
       '''        self.consume_id("of", LexGoal::RegExp)?;
        let right = Box::from(self.with_in(true, &mut Self::parse_expression)?);''')],
  'ok("for (a of b);"); bad("for (a of b, c);"); ok("for (a in b, c);");')
seed('c03-for-let-second', 'C03', 'a for head with several let declarations, a later one of which has an in expression',
  'the declarations of a for head after the first have the in operator',
  [(PA, '''                                let mut declarations = vec![VariableDeclarator { id, init: None }];
                                declarations.extend(self.parse_while_punc(",", &mut |this| {
                                    this.consume(",", LexGoal::RegExp)?;
                                    this.save_params();
                                    this.params.has_in = false;
                                    let res = this.parse_variable_dclr(kind);''',
       '''                                let mut declarations = vec![VariableDeclarator { id, init: None }];
                                declarations.extend(self.parse_while_punc(",", &mut |this| {
                                    this.consume(",", LexGoal::RegExp)?;
                                    this.save_params();
                                    this.params.has_in = true;
                                    let res = this.parse_variable_dclr(kind);''')],
  'ok("for (let a, b = c;;);"); bad("for (let a, b = c in d;;);");')
seed('c04-switch-restore', 'C04', 'a switch inside a case of another switch, then break in the outer one',
  'break after an inner switch is refused',
  [(PA, 'self.ctx.in_switch = prev_in_switch;\n        Ok(Node::SwitchStatement', 'self.ctx.in_switch = self.ctx.in_iteration;\n        Ok(Node::SwitchStatement')],
  'ok("switch(a){case 1: switch(b){} break}"); bad("switch(a){} break");')
seed('c04-for-of-leak', 'C04', 'a for-of statement at the top level and a continue after it',
  'continue is accepted after a for-of loop',
  [(PA, '''        let body = Box::from(self.parse_statement()?);
        self.ctx.in_iteration = prev_in_iteration;
        Ok(Node::ForOfStatement {''', '''        let body = Box::from(self.parse_statement()?);
        self.ctx.in_iteration = prev_in_iteration || !self.ctx.in_function;
        Ok(Node::ForOfStatement {''')],
  'bad("for (a of b); continue"); bad("{ for (a of b); break }"); ok("for (a of b) continue");')
seed('c05-class-expr-strict', 'C05', 'a class expression in strict code, with sloppy-only code after it',
  'code after a class expression is sloppy although its function is strict',
  [(PA, '''        let (super_class, body) = self.parse_class_tail()?;
        self.ctx.strict = prev_strict;''', '''        let (super_class, body) = self.parse_class_tail()?;
        self.ctx.strict = prev_strict && super_class.is_none();''')],
  'bad("\'use strict\'; a = class extends b {}; with (c);"); bad("\'use strict\'; a = class {}; with (c);"); ok("a = class extends b {}; with (c);");')
seed('c06-template-yield', 'C06', 'yield in a template substitution of a generator',
  'yield is an identifier inside template substitutions',
  [(PA, 'expressions.push(self.with_in(true, &mut Self::parse_expression)?);',
   '''let params = Params {
                has_in: true,
                has_yield: false,
                ..self.params
            };
            expressions.push(self.with_params(params, &mut Self::parse_expression)?);''')],
  'at("function* g() { `${yield}` }", "/body/0/body/body/0/expression/expressions/0/type", "YieldExpression".into());')
seed('c07-throw-newline', 'C07', 'a throw whose operand is on the next line, in the last line of a block',
  'return before a line break takes the next line as its argument when it starts with a parenthesis',
  [(PA, '            _ if !self.has_line_terminator => {\n                Some(Box::from(self.with_in(true, &mut Self::parse_expression)?))',
        '            _ if !self.has_line_terminator || self.current.matches_punc("(") => {\n                Some(Box::from(self.with_in(true, &mut Self::parse_expression)?))')],
  'at("function f() { return\\n(a) }", "/body/0/body/body/0/argument", Value::Null);')
seed('c08-ls-comment', 'C08', 'a line separator (U+2028) that ends a // comment',
  'a // comment runs on past U+2028',
  [(SC, '''            match self.peek() {
                Some(cp) if cp.is_line_terminator() => break,
                Some(_) => {
                    self.consume();
                }
                None => break,''', '''            match self.peek() {
                Some('\\n') | Some('\\r') => break,
                Some(_) => {
                    self.consume();
                }
                None => break,''')],
  'at("// a\\u{2028}b", "/body/0/expression/name", "b".into());')
seed('c08-figure-space', 'C08', 'a figure space (U+2007) between tokens', 'a Zs character is not white space',
  [(CP, " | '\\u{2007}'", '')],
  'ok("a\\u{2007}=\\u{2008}b");')
seed('c09-v-escape', 'C09', 'a string with the escape \\v', 'the escape \\v denotes FF',
  [(CP, "'v' => '\\x0B'", "'v' => '\\x0C'")],
  'at("\'\\\\v\'", "/body/0/expression/value", "\\u{b}".into());')
seed('c09-continuation-ls', 'C09', 'a string continued over U+2028', 'a backslash before U+2028 leaves it in the string',
  [(SC, '''        while let (Some('\\\\'), Some(cp)) = self.peek2() {
            if !cp.is_line_terminator() {''', '''        while let (Some('\\\\'), Some(cp)) = self.peek2() {
            if !cp.is_line_terminator() || cp == '\\u{2028}' {''')],
  'at("\'a\\\\\\u{2028}b\'", "/body/0/expression/value", "ab".into());')
seed('c10-empty-fraction', 'C10', 'a decimal literal with an exponent directly after its point', '1.e5 is refused',
  [(SC, '''        value.push_str(&fractional);
        value.push_str(&self.scan_exponent()?);''', '''        value.push_str(&fractional);
        if !fractional.is_empty() {
            value.push_str(&self.scan_exponent()?);
        }''')],
  'at("1.e5", "/body/0/expression/value", serde_json::json!(100000.0)); ok("1.5e5");')
seed('c11-enum', 'C11', 'the reserved word enum as an identifier', 'enum is accepted as an identifier',
  [(SC, '                    || value == "enum"\n', '')],
  'bad("enum = 1"); ok("a.enum");')
seed('c11-zwj', 'C11', 'an identifier with a zero width joiner', 'ZWJ ends an identifier',
  [(CP, "'\\u{200C}' | '\\u{200D}' => true", "'\\u{200C}' => true")],
  'at("a\\u{200d}b", "/body/0/expression/name", "a\\u{200d}b".into());')
seed('c12-new-target', 'C12', 'new.target divided by something', 'a slash after new.target starts a regular expression',
  [(PA, 'name: self.advance(LexGoal::Div)?.value.string().unwrap(),', 'name: self.advance(LexGoal::RegExp)?.value.string().unwrap(),')],
  'ok("function f() { new.target / a }"); ok("function f() { new.target }");')
seed('c12-class-reset', 'C12', 'a regular expression whose class contains a [', 'a [ inside a character class is taken for a nested class',
  [(SC, "'[' => in_class = true,", "'[' => in_class = !in_class,")],
  'ok("/[[/]/"); ok("/[/]/");')
seed('c13-crlf-continuation', 'C13', 'a template with a backslash before CRLF', 'the cooked value keeps the line feed',
  [(SC, '''                    (Some('\\r'), Some('\\n')) => {
                        self.consume();
                        self.consume();
                        Ok(None)''', '''                    (Some('\\r'), Some('\\n')) => {
                        self.consume();
                        Ok(None)''')],
  'at("`a\\\\\\r\\nb`", "/body/0/expression/quasis/0/value/cooked", "ab".into());')
seed('c14-rest-pattern', 'C14', 'a declaration with a pattern as the rest of an array pattern', 'var [...[a]] = b is refused',
  [(PA, '''                    Ok(Some(ArrayPatternElement::RestElement {
                        argument: this.parse_binding_id_or_pat()?,''', '''                    Ok(Some(ArrayPatternElement::RestElement {
                        argument: this.parse_binding_id()?,''')],
  'ok("var [...[a]] = b"); ok("var [...a] = b");')
seed('c15-nested-paren', 'C15', 'an object rest whose target is a call', 'an assignment pattern takes any expression as the rest of an object',
  [(ES, '''                        _ => argument,
                    };
                    if argument.assign_target_type() != "simple" {''', '''                        _ => argument,
                    };
                    if argument.assign_target_type() == "strict" {''')],
  'bad("({...a()} = b)"); ok("({...a} = b)"); ok("({...a.b} = c)");')
seed('c16-async-arrow-rest', 'C16', 'an async arrow function with parameters after the rest', 'async (...a, b) => c is accepted',
  [(PA, '''        for (i, argument) in arguments.into_iter().enumerate() {
''', '''        let is_async_call = last_idx > 1;
        for (i, argument) in arguments.into_iter().enumerate() {
'''),
   (PA, '''                    if i == last_idx {
                        Ok(FunctionParameter::RestElement { argument })
                    } else {
                        self.error_current(ErrorType::ParamAfterRest)
                    }
                }
                _ => self.error_current(ErrorType::InvalidDestructuringTarget),
            }?;
            params.push(param);
        }
        Ok(params)
    }

    fn parse_arguments''', '''                    if i == last_idx || is_async_call {
                        Ok(FunctionParameter::RestElement { argument })
                    } else {
                        self.error_current(ErrorType::ParamAfterRest)
                    }
                }
                _ => self.error_current(ErrorType::InvalidDestructuringTarget),
            }?;
            params.push(param);
        }
        Ok(params)
    }

    fn parse_arguments''')],
  'bad("async (...a, b) => c"); bad("async (...a, b, c) => c"); ok("async (a, b, ...c) => d");')
seed('c18-export-as', 'C18', 'an export list with as followed by another name', 'a renamed export loses its exported name',
  [(PA, '''                    this.start_span();
                    let exported = Identifier {
                        name: this.parse_id_name(LexGoal::RegExp)?,
                        span: this.end_span(),
                    };''', '''                    this.start_span();
                    let mut exported = Identifier {
                        name: this.parse_id_name(LexGoal::RegExp)?,
                        span: this.end_span(),
                    };
                    if exported.name == "default" && local.name == "as" {
                        exported.name = local.name.clone();
                    }''')],
  '''
let t = run(true, "export {as as default}").unwrap();
assert_eq!(t.pointer("/body/0/specifiers/0/exported/name"), Some(&Value::from("default")));''')
seed('c19-super-call', 'C19', 'a call chain on super', 'only the first link of a super call chain is read',
  [(PA, '''        while !callee.is_arrow() {
            match self.current.tokentype {
                TokenType::Punctuator if self.current.matches_punc("(") => {
                    callee = Node::CallExpression {''', '''        while !callee.is_arrow() {
            match self.current.tokentype {
                TokenType::Punctuator if self.current.matches_punc("(") && self.params.has_in => {
                    callee = Node::CallExpression {''')],
  'ok("for (a()();;);"); ok("a()()");')
seed('c20-regex-flags', 'C20', 'a regular expression literal with more than one flag', 'the flags of a regular expression are not a string',
  [(ES, '''        value: String,
        raw: String,
        regex: Regex,''', '''        value: String,
        raw: String,
        #[serde(rename = "regExp")]
        regex: Regex,''')],
  'at("/a/gi", "/body/0/expression/regex/flags", "gi".into());')
seed('c21-cr-line', 'C21', 'a lone CR before the error', 'lines that end in CR are not counted',
  [(SC, '''            (Some('\\r'), Some('\\n')) => (),
            (Some(cp), _) if cp.is_line_terminator() => {
                self.line += 1;''', '''            (Some('\\r'), Some('\\n')) => (),
            (Some(cp), _) if cp.is_line_terminator() => {
                self.line += if cp == '\\r' && self.record_raw { 0 } else { 1 };''')],
  'line("`a\\rb` )", 2); line("a\\r )", 2);')
seed('c22-class-in-default', 'C22', 'an export default class and then a function without a name', 'a declaration after it may lack its name',
  [(PA, '        self.params.has_default = has_default;\n', '        self.params.has_default = has_default || (self.params.has_default && self.ctx.in_switch);\n')],
  'ok("1");')
seed('c23-script-import', 'C23', 'a script with an await expression at the top level', 'await is an operator at the top level of a script',
  [(PA, '        self.goal = SyntaxGoal::Script;\n', '        self.goal = SyntaxGoal::Script;\n        self.params.has_await = self.current.matches_str("await");\n')],
  'ok("await"); ok("await = 1"); at("await + 1", "/body/0/expression/type", "BinaryExpression".into());')
