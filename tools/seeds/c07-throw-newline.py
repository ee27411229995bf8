ID = 'c07-throw-newline'
PROPERTY = 'C07'
NEEDS = 'a throw whose operand is on the next line, in the last line of a block'
BREAKS = 'return before a line break takes the next line as its argument when it starts with a parenthesis'
EDITS = [('parser/parser.rs', '            _ if !self.has_line_terminator => {\n                Some(Box::from(self.with_in(true, &mut Self::parse_expression)?))', '            _ if !self.has_line_terminator || self.current.matches_punc("(") => {\n                Some(Box::from(self.with_in(true, &mut Self::parse_expression)?))')]
DEMO = 'at("function f() { return\\n(a) }", "/body/0/body/body/0/argument", Value::Null);'
