//! conc < programs.ndjson > histories.ndjson
//! Runs concurrent programs under controlled schedules. A program is {"id", "clock", "setup": [..], "threads": [{"own":
//! [handles], "gat": [gatherers], "ops": [..]}], "final": [..], "explore": [{"mode": "dfs", "bound", "cap"} | {"mode":
//! "random" | "pct", "runs", "seed"}]}; the answer lists the distinct histories of calls and returns.
#[path = "../../driver/src/alloc.rs"]
mod alloc;
#[path = "../../driver/src/clock.rs"]
mod clock;
#[path = "../../driver/src/world.rs"]
mod world;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, Write};
use std::sync::{Arc, Mutex};
use verif_std::sched::{self, Outcome, Strategy};
use world::World;

#[global_allocator]
static A: alloc::Quarantine = alloc::Quarantine;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    if std::env::args().any(|a| a == "--quarantine") {
        alloc::enable();
    }
    #[cfg(not(feature = "plain"))]
    let _ = clock::HOOK.set(sched::point);
    let _ = prometrics::default_registry();
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let p: Value = serde_json::from_str(&line.expect("stdin")).expect("program");
        let (v, hung) = explore(&p);
        writeln!(out, "{}", v).expect("stdout");
        out.flush().expect("stdout");
        if hung {
            // Threads of the run that hangs are still there.
            std::process::exit(3);
        }
    }
}

fn ints(v: &Value) -> Vec<i64> {
    v.as_array().map_or(Vec::new(), |a| a.iter().map(|x| x.as_i64().expect("int")).collect())
}

type Log = Arc<Mutex<Vec<Value>>>;

fn run(p: &Value, strategy: Strategy, path: &mut Vec<(u32, u32)>, seed: u64) -> (Vec<Value>, Outcome) {
    let c = |i: usize, d: i64| p["clock"][i].as_i64().unwrap_or(d);
    clock::start(c(0, 1_000_000_000_000), c(1, 1_000_000), c(2, 0));
    let mut events = Vec::new();
    let mut main = World::default();
    for op in p["setup"].as_array().expect("setup") {
        main.exec(op, &mut |e| events.push(e));
    }
    let log: Log = Arc::new(Mutex::new(events));
    let threads = p["threads"].as_array().expect("threads");
    let worlds: Vec<Arc<Mutex<Option<World>>>> = threads.iter().map(|_| Arc::new(Mutex::new(None))).collect();
    let mut fs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for (i, t) in threads.iter().enumerate() {
        let mut w = World::default();
        w.calls = main.calls.clone();
        for h in ints(&t["own"]) {
            w.handles.insert(h, main.handles.remove(&h).expect("handle"));
        }
        for g in ints(&t["gat"]) {
            w.gatherers.insert(g, main.gatherers.remove(&g).expect("gatherer"));
        }
        for b in ints(&t["bld"]) {
            w.builders.insert(b, main.builders.remove(&b).expect("builder"));
        }
        w.registries = main.registries.clone();
        let l = log.clone();
        w.pre = Some(Arc::new(move |mut op: Value| {
            sched::begin();
            op["ev"] = json!("call");
            op["th"] = json!(i);
            l.lock().unwrap().push(op);
        }));
        let ops = t["ops"].as_array().expect("ops").clone();
        let (l, back) = (log.clone(), worlds[i].clone());
        fs.push(Box::new(move || {
            for op in &ops {
                w.exec(op, &mut |e| {
                    sched::end();
                    l.lock().unwrap().push(json!({"ev": "ret", "th": i, "ret": e["ret"]}));
                });
            }
            w.pre = None;
            *back.lock().unwrap() = Some(w);
        }));
    }
    let o = sched::run(fs, strategy, path, seed, 20_000);
    if o.hang.is_some() {
        let ev = log.lock().unwrap().clone();
        std::mem::forget(main);
        return (ev, o);
    }
    for w in worlds {
        let w = w.lock().unwrap().take().expect("world");
        main.handles.extend(w.handles);
        main.gatherers.extend(w.gatherers);
    }
    let mut events = std::mem::take(&mut *log.lock().unwrap());
    for op in p["final"].as_array().expect("final") {
        main.exec(op, &mut |e| events.push(e));
    }
    (events, o)
}

/// Consecutive calls, and consecutive returns, commute.
fn canonical(ev: Vec<Value>) -> Vec<Value> {
    let mut out: Vec<Value> = Vec::with_capacity(ev.len());
    let mut i = 0;
    while i < ev.len() {
        let k = ev[i]["ev"].as_str().map(str::to_owned);
        let atomic = |e: &Value| e["op"] == "advance" || e["op"] == "step_wall";
        let mut j = i + 1;
        if k.is_some() {
            while j < ev.len() && ev[j]["ev"].as_str() == k.as_deref() && !atomic(&ev[j]) && !atomic(&ev[j - 1]) {
                j += 1;
            }
        }
        let mut run = ev[i..j].to_vec();
        run.sort_by_key(|e| e["th"].as_i64());
        out.extend(run);
        i = j;
    }
    out
}

fn answer(ev: &[Value]) -> String {
    let mut rs: Vec<&Value> = ev.iter().filter(|e| !e["ret"].is_null()).collect();
    rs.sort_by_key(|e| e["th"].as_i64().unwrap_or(-1));
    rs.iter().map(|e| e["ret"].to_string()).collect::<Vec<_>>().join(";")
}

fn explore(p: &Value) -> (Value, bool) {
    let mut seen: HashMap<String, usize> = HashMap::new();
    let mut hists: Vec<Value> = Vec::new();
    let (mut runs, mut steps, mut exhausted) = (0usize, 0usize, false);
    let mut hang = None;
    let mut modes: BTreeMap<String, usize> = BTreeMap::new();
    // Histories that differ in what was returned are always kept; of those that differ in order only, a few.
    let each = p["each"].as_u64().unwrap_or(6) as usize;
    let most = p["most"].as_u64().unwrap_or(400) as usize;
    let mut answers: HashMap<String, usize> = HashMap::new();
    'all: for x in p["explore"].as_array().expect("explore") {
        let mode = x["mode"].as_str().expect("mode");
        let mut path = Vec::new();
        let cap = x[if mode == "dfs" { "cap" } else { "runs" }].as_u64().expect("cap") as usize;
        for k in 0..cap {
            let seed = x["seed"].as_u64().unwrap_or(1).wrapping_mul(1_000_003).wrapping_add(k as u64);
            let strategy = match mode {
                "dfs" => Strategy::Dfs { bound: x["bound"].as_u64().expect("bound") as usize },
                "random" => Strategy::Random { rarity: [2, 4, 8, 16][k % 4] },
                _ => Strategy::Pct { changes: 1 + k % 3, len: steps.max(20) },
            };
            let (ev, o) = run(p, strategy, &mut path, seed);
            runs += 1;
            *modes.entry(mode.to_owned()).or_default() += 1;
            steps = steps.max(o.steps);
            let ev = canonical(ev);
            if let Some(h) = o.hang {
                hang = Some(json!({"why": h, "events": ev, "choices": o.choices}));
                break 'all;
            }
            let key = serde_json::to_string(&ev).unwrap();
            match seen.get(&key) {
                Some(i) => {
                    hists[*i]["count"] = json!(hists[*i]["count"].as_u64().unwrap() + 1);
                }
                None if answers.get(&answer(&ev)).map_or(hists.len() < 4 * most, |n| *n < each && hists.len() < most) => {
                    *answers.entry(answer(&ev)).or_default() += 1;
                    seen.insert(key, hists.len());
                    hists.push(json!({"id": format!("{}#{}", p["id"].as_str().unwrap(), hists.len()), "events": ev, "choices": o.choices, "count": 1}));
                }
                None => {}
            }
            if mode == "dfs" && !o.more {
                exhausted = true;
                break;
            }
        }
    }
    let hung = hang.is_some();
    (json!({"id": p["id"], "hists": hists, "runs": runs, "modes": modes, "steps": steps, "exhausted": exhausted, "hang": hang}), hung)
}
