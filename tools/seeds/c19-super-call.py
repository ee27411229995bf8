ID = 'c19-super-call'
PROPERTY = 'C19'
NEEDS = 'a call chain on super'
BREAKS = 'only the first link of a super call chain is read'
EDITS = [('parser/parser.rs', '        while !callee.is_arrow() {\n            match self.current.tokentype {\n                TokenType::Punctuator if self.current.matches_punc("(") => {\n                    callee = Node::CallExpression {', '        while !callee.is_arrow() {\n            match self.current.tokentype {\n                TokenType::Punctuator if self.current.matches_punc("(") && self.params.has_in => {\n                    callee = Node::CallExpression {')]
DEMO = 'ok("for (a()();;);"); ok("a()()");'
