//! Running the real parser on one input and observing the outcome.
use crate::tree::{from_estree, Tree};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Accept(Tree),
    Reject { line: usize, col: usize, what: String },
    Panic(String),
}

impl Outcome {
    pub fn show(&self) -> String {
        match self {
            Outcome::Accept(t) => format!("accept {}", t.show()),
            Outcome::Reject { line, col, what } => format!("reject line {} col {} {}", line, col, what),
            Outcome::Panic(m) => format!("panic {}", m),
        }
    }
}

thread_local! {
    static PANIC_AT: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
    static SLOT: std::cell::Cell<usize> = std::cell::Cell::new(usize::MAX);
}

const SLOTS: usize = 64;
static BUSY: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static INPUT: [Mutex<(String, String)>; SLOTS] = [const { Mutex::new((String::new(), String::new())) }; SLOTS];
static NEXT: AtomicU64 = AtomicU64::new(0);
pub static RUNS: AtomicU64 = AtomicU64::new(0);

fn now_ms() -> u64 {
    use std::sync::OnceLock;
    static START: OnceLock<Instant> = OnceLock::new();
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// Silence panics of the code under test and watch for inputs that take longer
/// than `limit`; `hang` is called with (goal, source) of the first one.
pub fn install(limit: Duration, hang: impl Fn(&str, &str) + Send + 'static) {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = format!("at {}: {}", at, msg));
        if SLOT.with(|s| s.get()) == usize::MAX {
            eprintln!("harness panic {}: {}", at, msg);
        }
    }));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let now = now_ms();
        for i in 0..SLOTS {
            let b = BUSY[i].load(Ordering::Acquire);
            if b != 0 && now > b + limit.as_millis() as u64 {
                let (g, s) = INPUT[i].lock().unwrap().clone();
                hang(&g, &s);
            }
        }
    });
}

pub fn run(goal: &str, source: &str) -> Outcome {
    let slot = SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set((NEXT.fetch_add(1, Ordering::Relaxed) as usize) % SLOTS);
        }
        s.get()
    });
    {
        let mut g = INPUT[slot].lock().unwrap();
        g.0.clear();
        g.0.push_str(goal);
        g.1.clear();
        g.1.push_str(source);
    }
    BUSY[slot].store(now_ms(), Ordering::Release);
    RUNS.fetch_add(1, Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let res = if goal == "module" { giron::parse_module(source.to_string()) } else { giron::parse_script(source.to_string()) };
        match res {
            Ok(ast) => {
                let v = serde_json::to_value(&ast).expect("serialisable AST");
                Ok(v)
            }
            Err(e) => Err((e.line as usize, e.col as usize, format!("{:?}", e.errortype))),
        }
    }));
    BUSY[slot].store(0, Ordering::Release);
    match r {
        Ok(Ok(v)) => Outcome::Accept(from_estree(&v)),
        Ok(Err((line, col, what))) => Outcome::Reject { line, col, what },
        Err(_) => Outcome::Panic(PANIC_AT.with(|p| p.borrow().clone())),
    }
}
