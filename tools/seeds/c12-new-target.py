ID = 'c12-new-target'
PROPERTY = 'C12'
NEEDS = 'new.target divided by something'
BREAKS = 'a slash after new.target starts a regular expression'
EDITS = [('parser/parser.rs', 'name: self.advance(LexGoal::Div)?.value.string().unwrap(),', 'name: self.advance(LexGoal::RegExp)?.value.string().unwrap(),')]
DEMO = 'ok("function f() { new.target / a }"); ok("function f() { new.target }");'
