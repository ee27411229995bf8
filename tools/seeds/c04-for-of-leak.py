ID = 'c04-for-of-leak'
PROPERTY = 'C04'
NEEDS = 'a for-of statement at the top level and a continue after it'
BREAKS = 'continue is accepted after a for-of loop'
EDITS = [('parser/parser.rs', '        let body = Box::from(self.parse_statement()?);\n        self.ctx.in_iteration = prev_in_iteration;\n        Ok(Node::ForOfStatement {', '        let body = Box::from(self.parse_statement()?);\n        self.ctx.in_iteration = prev_in_iteration || !self.ctx.in_function;\n        Ok(Node::ForOfStatement {')]
DEMO = 'bad("for (a of b); continue"); bad("{ for (a of b); break }"); ok("for (a of b) continue");'
