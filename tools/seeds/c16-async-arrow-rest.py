ID = 'c16-async-arrow-rest'
PROPERTY = 'C16'
NEEDS = 'an async arrow function with parameters after the rest'
BREAKS = 'async (...a, b) => c is accepted'
EDITS = [('parser/parser.rs', '        for (i, argument) in arguments.into_iter().enumerate() {\n', '        let is_async_call = last_idx > 1;\n        for (i, argument) in arguments.into_iter().enumerate() {\n'), ('parser/parser.rs', '                    if i == last_idx {\n                        Ok(FunctionParameter::RestElement { argument })\n                    } else {\n                        self.error_current(ErrorType::ParamAfterRest)\n                    }\n                }\n                _ => self.error_current(ErrorType::InvalidDestructuringTarget),\n            }?;\n            params.push(param);\n        }\n        Ok(params)\n    }\n\n    fn parse_arguments', '                    if i == last_idx || is_async_call {\n                        Ok(FunctionParameter::RestElement { argument })\n                    } else {\n                        self.error_current(ErrorType::ParamAfterRest)\n                    }\n                }\n                _ => self.error_current(ErrorType::InvalidDestructuringTarget),\n            }?;\n            params.push(param);\n        }\n        Ok(params)\n    }\n\n    fn parse_arguments')]
DEMO = 'bad("async (...a, b) => c"); bad("async (...a, b, c) => c"); ok("async (a, b, ...c) => d");'
