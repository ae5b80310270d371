//! driver run < programs.ndjson > traces.ndjson
//! Each input line is {"id":.., "ops":[..], optional "clock":[mono_ns, wall_s, wall_ns], "quarantine":bool}; each
//! output line {"id":.., "events":[..]}.
mod alloc;
mod clock;
mod process;
mod world;
use serde_json::{json, Value};
use std::io::{BufRead, Write};

#[global_allocator]
static A: alloc::Quarantine = alloc::Quarantine;

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    std::panic::set_hook(Box::new(|_| {}));
    if std::env::args().any(|a| a == "--quarantine") {
        alloc::enable();
    }
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        let p: Value = serde_json::from_str(&line).expect("program");
        let events = match mode.as_str() {
            "run" => run(&p),
            "process" => process::run(&p),
            _ => {
                eprintln!("driver: unknown mode");
                std::process::exit(2)
            }
        };
        writeln!(out, "{}", json!({"id": p["id"], "events": events})).expect("stdout");
        out.flush().expect("stdout");
    }
}

fn run(p: &Value) -> Vec<Value> {
    let c = |i: usize, d: i64| p["clock"][i].as_i64().unwrap_or(d);
    clock::start(c(0, 1_000_000_000_000), c(1, 1_000_000), c(2, 0));
    let mut w = world::World::default();
    let mut events = Vec::new();
    for op in p["ops"].as_array().expect("ops") {
        w.exec(op, &mut |e| events.push(e));
    }
    events
}
