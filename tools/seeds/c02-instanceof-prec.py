ID = 'c02-instanceof-prec'
PROPERTY = 'C02'
NEEDS = 'instanceof next to a shift operator'
BREAKS = 'a << b instanceof c groups to the right'
EDITS = [('parser/syntax.rs', 'if self.matches_str("instanceof") => 7', 'if self.matches_str("instanceof") => 8')]
DEMO = '\nat("a<<b instanceof c", "/body/0/expression/operator", "instanceof".into());\nat("a instanceof b<<c", "/body/0/expression/operator", "instanceof".into());'
