ID = 'c14-rest-pattern'
PROPERTY = 'C14'
NEEDS = 'a declaration with a pattern as the rest of an array pattern'
BREAKS = 'var [...[a]] = b is refused'
EDITS = [('parser/parser.rs', '                    Ok(Some(ArrayPatternElement::RestElement {\n                        argument: this.parse_binding_id_or_pat()?,', '                    Ok(Some(ArrayPatternElement::RestElement {\n                        argument: this.parse_binding_id()?,')]
DEMO = 'ok("var [...[a]] = b"); ok("var [...a] = b");'
