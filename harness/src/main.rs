mod judge;
mod record;
mod replay;
mod run;
mod tree;

use serde_json::json;
use std::time::Duration;

fn main() {
    let args: Vec<String> = std::env::args().collect();

    let opt = |name: &str| -> Option<String> {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
    };
    let report = opt("--report");
    run::install(Duration::from_secs(10), move |goal, source| {
        // an input on which the parser does not return: report it and stop
        let v = json!({"hang": true, "violations": [{"goal": goal, "source": source,
            "expected": "a result", "got": "no result after 10 s", "why": "hang"}], "violation_count": 1});
        if let Some(r) = &report {
            std::fs::write(r, v.to_string()).ok();
        }
        println!("{}", v);
        std::process::exit(3);
    });
    let code = std::thread::Builder::new()
        .stack_size(1 << 29)
        .spawn(move || match cmd_name(&args) {
            "replay" => replay::main(&args[2..]),
            "texts" => judge::texts(&args[2..]),
            "judge" => judge::judge(&args[2..]),
            "record" => record::main(&args[2..]),
            "parse" => {
                let goal = args[2].clone();
                for src in std::fs::read_to_string(&args[3]).unwrap().split("\u{0}") {
                    println!("{}", run::run(&goal, src).show());
                }
                0
            }
            _ => {
                eprintln!("usage: harness replay|parse ...");
                2
            }
        })
        .unwrap()
        .join()
        .unwrap_or(2);
    std::process::exit(code);
}

fn cmd_name(args: &[String]) -> &str {
    args.get(1).map(|s| s.as_str()).unwrap_or("")
}
