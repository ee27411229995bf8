ID = 'c03-for-let-second'
PROPERTY = 'C03'
NEEDS = 'a for head with several let declarations, a later one of which has an in expression'
BREAKS = 'the declarations of a for head after the first have the in operator'
EDITS = [('parser/parser.rs', '                                let mut declarations = vec![VariableDeclarator { id, init: None }];\n                                declarations.extend(self.parse_while_punc(",", &mut |this| {\n                                    this.consume(",", LexGoal::RegExp)?;\n                                    this.save_params();\n                                    this.params.has_in = false;\n                                    let res = this.parse_variable_dclr(kind);', '                                let mut declarations = vec![VariableDeclarator { id, init: None }];\n                                declarations.extend(self.parse_while_punc(",", &mut |this| {\n                                    this.consume(",", LexGoal::RegExp)?;\n                                    this.save_params();\n                                    this.params.has_in = true;\n                                    let res = this.parse_variable_dclr(kind);')]
DEMO = 'ok("for (let a, b = c;;);"); bad("for (let a, b = c in d;;);");'
