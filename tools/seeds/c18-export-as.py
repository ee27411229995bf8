ID = 'c18-export-as'
PROPERTY = 'C18'
NEEDS = 'an export list with as followed by another name'
BREAKS = 'a renamed export loses its exported name'
EDITS = [('parser/parser.rs', '                    this.start_span();\n                    let exported = Identifier {\n                        name: this.parse_id_name(LexGoal::RegExp)?,\n                        span: this.end_span(),\n                    };', '                    this.start_span();\n                    let mut exported = Identifier {\n                        name: this.parse_id_name(LexGoal::RegExp)?,\n                        span: this.end_span(),\n                    };\n                    if exported.name == "default" && local.name == "as" {\n                        exported.name = local.name.clone();\n                    }')]
DEMO = '\nlet t = run(true, "export {as as default}").unwrap();\nassert_eq!(t.pointer("/body/0/specifiers/0/exported/name"), Some(&Value::from("default")));'
