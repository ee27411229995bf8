ID = 'c03-for-of-expr'
PROPERTY = 'C03'
NEEDS = 'a for-of statement whose iterable is followed by a comma'
BREAKS = 'for (a of b, c) is accepted'
EDITS = [('parser/parser.rs', '        self.consume_id("of", LexGoal::RegExp)?;\n        let right = Box::from(self.with_in(true, &mut Self::parse_assignment_expr)?);', '        self.consume_id("of", LexGoal::RegExp)?;\n        let right = Box::from(self.with_in(true, &mut Self::parse_expression)?);')]
DEMO = 'ok("for (a of b);"); bad("for (a of b, c);"); ok("for (a in b, c);");'
