ID = 'c08-figure-space'
PROPERTY = 'C08'
NEEDS = 'a figure space (U+2007) between tokens'
BREAKS = 'a Zs character is not white space'
EDITS = [('codepoint/codepoint.rs', " | '\\u{2007}'", '')]
DEMO = 'ok("a\\u{2007}=\\u{2008}b");'
