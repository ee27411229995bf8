ID = 'c13-crlf-continuation'
PROPERTY = 'C13'
NEEDS = 'a template with a backslash before CRLF'
BREAKS = 'the cooked value keeps the line feed'
EDITS = [('scanner/scanner.rs', "                    (Some('\\r'), Some('\\n')) => {\n                        self.consume();\n                        self.consume();\n                        Ok(None)", "                    (Some('\\r'), Some('\\n')) => {\n                        self.consume();\n                        Ok(None)")]
DEMO = 'at("`a\\\\\\r\\nb`", "/body/0/expression/quasis/0/value/cooked", "ab".into());'
