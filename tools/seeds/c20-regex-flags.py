ID = 'c20-regex-flags'
PROPERTY = 'C20'
NEEDS = 'a regular expression literal with more than one flag'
BREAKS = 'the flags of a regular expression are not a string'
EDITS = [('estree/estree.rs', '        value: String,\n        raw: String,\n        regex: Regex,', '        value: String,\n        raw: String,\n        #[serde(rename = "regExp")]\n        regex: Regex,')]
DEMO = 'at("/a/gi", "/body/0/expression/regex/flags", "gi".into());'
