ID = 'c04-switch-restore'
PROPERTY = 'C04'
NEEDS = 'a switch inside a case of another switch, then break in the outer one'
BREAKS = 'break after an inner switch is refused'
EDITS = [('parser/parser.rs', 'self.ctx.in_switch = prev_in_switch;\n        Ok(Node::SwitchStatement', 'self.ctx.in_switch = self.ctx.in_iteration;\n        Ok(Node::SwitchStatement')]
DEMO = 'ok("switch(a){case 1: switch(b){} break}"); bad("switch(a){} break");'
