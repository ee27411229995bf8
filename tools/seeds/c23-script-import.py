ID = 'c23-script-import'
PROPERTY = 'C23'
NEEDS = 'a script with an await expression at the top level'
BREAKS = 'await is an operator at the top level of a script'
EDITS = [('parser/parser.rs', '        self.goal = SyntaxGoal::Script;\n', '        self.goal = SyntaxGoal::Script;\n        self.params.has_await = self.current.matches_str("await");\n')]
DEMO = 'ok("await"); ok("await = 1"); at("await + 1", "/body/0/expression/type", "BinaryExpression".into());'
