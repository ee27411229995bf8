ID = 'c09-v-escape'
PROPERTY = 'C09'
NEEDS = 'a string with the escape \\v'
BREAKS = 'the escape \\v denotes FF'
EDITS = [('codepoint/codepoint.rs', "'v' => '\\x0B'", "'v' => '\\x0C'")]
DEMO = 'at("\'\\\\v\'", "/body/0/expression/value", "\\u{b}".into());'
