ID = 'c05-class-expr-strict'
PROPERTY = 'C05'
NEEDS = 'a class expression in strict code, with sloppy-only code after it'
BREAKS = 'code after a class expression is sloppy although its function is strict'
EDITS = [('parser/parser.rs', '        let (super_class, body) = self.parse_class_tail()?;\n        self.ctx.strict = prev_strict;', '        let (super_class, body) = self.parse_class_tail()?;\n        self.ctx.strict = prev_strict && super_class.is_none();')]
DEMO = 'bad("\'use strict\'; a = class extends b {}; with (c);"); bad("\'use strict\'; a = class {}; with (c);"); ok("a = class extends b {}; with (c);");'
