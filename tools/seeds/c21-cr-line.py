ID = 'c21-cr-line'
PROPERTY = 'C21'
NEEDS = 'a lone CR before the error'
BREAKS = 'lines that end in CR are not counted'
EDITS = [('scanner/scanner.rs', "            (Some('\\r'), Some('\\n')) => (),\n            (Some(cp), _) if cp.is_line_terminator() => {\n                self.line += 1;", "            (Some('\\r'), Some('\\n')) => (),\n            (Some(cp), _) if cp.is_line_terminator() => {\n                self.line += if cp == '\\r' && self.record_raw { 0 } else { 1 };")]
DEMO = 'line("`a\\rb` )", 2); line("a\\r )", 2);'
