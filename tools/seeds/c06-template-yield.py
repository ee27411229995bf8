ID = 'c06-template-yield'
PROPERTY = 'C06'
NEEDS = 'yield in a template substitution of a generator'
BREAKS = 'yield is an identifier inside template substitutions'
EDITS = [('parser/parser.rs', 'expressions.push(self.with_in(true, &mut Self::parse_expression)?);', 'let params = Params {\n                has_in: true,\n                has_yield: false,\n                ..self.params\n            };\n            expressions.push(self.with_params(params, &mut Self::parse_expression)?);')]
DEMO = 'at("function* g() { `${yield}` }", "/body/0/body/body/0/expression/expressions/0/type", "YieldExpression".into());'
