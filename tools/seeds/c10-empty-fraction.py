ID = 'c10-empty-fraction'
PROPERTY = 'C10'
NEEDS = 'a decimal literal with an exponent directly after its point'
BREAKS = '1.e5 is refused'
EDITS = [('scanner/scanner.rs', '        value.push_str(&fractional);\n        value.push_str(&self.scan_exponent()?);', '        value.push_str(&fractional);\n        if !fractional.is_empty() {\n            value.push_str(&self.scan_exponent()?);\n        }')]
DEMO = 'at("1.e5", "/body/0/expression/value", serde_json::json!(100000.0)); ok("1.5e5");'
