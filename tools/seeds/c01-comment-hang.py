ID = 'c01-comment-hang'
PROPERTY = 'C01'
NEEDS = 'a block comment cut off by the end of the input'
BREAKS = 'the parser never returns'
EDITS = [('scanner/scanner.rs', '                (None, _) => return self.error(ErrorType::UnexpectedEOS),\n            }\n        }\n    }\n\n    // *******************************************************************\n    //      Identifiers', '                (None, _) => {\n                    self.consume();\n                }\n            }\n        }\n    }\n\n    // *******************************************************************\n    //      Identifiers')]
DEMO = '\nlet (tx, rx) = std::sync::mpsc::channel();\nstd::thread::spawn(move || { bad("a /* b"); tx.send(()).unwrap(); });\nassert!(rx.recv_timeout(std::time::Duration::from_secs(20)).is_ok(), "no result");'
