ID = 'c09-continuation-ls'
PROPERTY = 'C09'
NEEDS = 'a string continued over U+2028'
BREAKS = 'a backslash before U+2028 leaves it in the string'
EDITS = [('scanner/scanner.rs', "        while let (Some('\\\\'), Some(cp)) = self.peek2() {\n            if !cp.is_line_terminator() {", "        while let (Some('\\\\'), Some(cp)) = self.peek2() {\n            if !cp.is_line_terminator() || cp == '\\u{2028}' {")]
DEMO = 'at("\'a\\\\\\u{2028}b\'", "/body/0/expression/value", "ab".into());'
