ID = 'c11-enum'
PROPERTY = 'C11'
NEEDS = 'the reserved word enum as an identifier'
BREAKS = 'enum is accepted as an identifier'
EDITS = [('scanner/scanner.rs', '                    || value == "enum"\n', '')]
DEMO = 'bad("enum = 1"); ok("a.enum");'
