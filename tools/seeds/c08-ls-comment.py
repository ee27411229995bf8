ID = 'c08-ls-comment'
PROPERTY = 'C08'
NEEDS = 'a line separator (U+2028) that ends a // comment'
BREAKS = 'a // comment runs on past U+2028'
EDITS = [('scanner/scanner.rs', '            match self.peek() {\n                Some(cp) if cp.is_line_terminator() => break,\n                Some(_) => {\n                    self.consume();\n                }\n                None => break,', "            match self.peek() {\n                Some('\\n') | Some('\\r') => break,\n                Some(_) => {\n                    self.consume();\n                }\n                None => break,")]
DEMO = 'at("// a\\u{2028}b", "/body/0/expression/name", "b".into());'
