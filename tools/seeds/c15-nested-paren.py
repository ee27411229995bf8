ID = 'c15-nested-paren'
PROPERTY = 'C15'
NEEDS = 'an object rest whose target is a call'
BREAKS = 'an assignment pattern takes any expression as the rest of an object'
EDITS = [('estree/estree.rs', '                        _ => argument,\n                    };\n                    if argument.assign_target_type() != "simple" {', '                        _ => argument,\n                    };\n                    if argument.assign_target_type() == "strict" {')]
DEMO = 'bad("({...a()} = b)"); ok("({...a} = b)"); ok("({...a.b} = c)");'
