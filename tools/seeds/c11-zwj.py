ID = 'c11-zwj'
PROPERTY = 'C11'
NEEDS = 'an identifier with a zero width joiner'
BREAKS = 'ZWJ ends an identifier'
EDITS = [('codepoint/codepoint.rs', "'\\u{200C}' | '\\u{200D}' => true", "'\\u{200C}' => true")]
DEMO = 'at("a\\u{200d}b", "/body/0/expression/name", "a\\u{200d}b".into());'
