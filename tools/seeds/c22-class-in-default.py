ID = 'c22-class-in-default'
PROPERTY = 'C22'
NEEDS = 'an export default class and then a function without a name'
BREAKS = 'a declaration after it may lack its name'
EDITS = [('parser/parser.rs', '        self.params.has_default = has_default;\n', '        self.params.has_default = has_default || (self.params.has_default && self.ctx.in_switch);\n')]
DEMO = 'ok("1");'
