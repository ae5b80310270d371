//! Interpreter of driver operations (JSON) on the real crate. Every operation's result is returned as JSON;
//! f64 values are written as "f:<bits in hex>", i64 timestamps as "i:<decimal>".
use prometrics::bucket::CumulativeBucket;
use prometrics::label::{Label, Labels, LabelsMut};
use prometrics::metric::{Metric, MetricFamilies, MetricFamily, MetricName, Metrics};
use prometrics::metrics::*;
use prometrics::quantile::Quantile;
use prometrics::{default_gatherer, default_registry, Collect, ErrorKind, Gatherer, Registry};
use prometrics::timestamp::TimestampMut;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, UNIX_EPOCH};

pub fn f(v: f64) -> Value {
    json!(format!("f:{:016x}", v.to_bits()))
}
pub fn pf(v: &Value) -> f64 {
    let s = v.as_str().expect("float");
    f64::from_bits(u64::from_str_radix(&s[2..], 16).expect("bits"))
}
fn pi(v: &Value) -> i64 {
    match v.as_str() {
        Some(s) => s[2..].parse().expect("i64"),
        None => v.as_i64().expect("i64"),
    }
}
fn ts(v: Option<i64>) -> Value {
    match v {
        Some(x) => json!(format!("i:{}", x)),
        None => json!("none"),
    }
}
pub fn s<'a>(op: &'a Value, k: &str) -> &'a str {
    op[k].as_str().unwrap_or_else(|| panic!("driver: no string {} in {}", k, op))
}
pub fn n(op: &Value, k: &str) -> i64 {
    op[k].as_i64().unwrap_or_else(|| panic!("driver: no int {} in {}", k, op))
}

/// The greatest number stands for the greatest duration.
fn window(op: &Value) -> Duration {
    match n(op, "win") {
        i64::MAX => Duration::new(u64::MAX, 999_999_999),
        ns => Duration::from_nanos(ns as u64),
    }
}

#[derive(Clone)]
pub enum M {
    C(Counter),
    G(Gauge),
    H(Histogram),
    S(Summary),
}
impl M {
    pub fn kind(&self) -> &'static str {
        match self {
            M::C(_) => "counter",
            M::G(_) => "gauge",
            M::H(_) => "histogram",
            M::S(_) => "summary",
        }
    }
    pub fn metric(&self) -> Metric {
        match self.clone() {
            M::C(m) => m.into(),
            M::G(m) => m.into(),
            M::H(m) => m.into(),
            M::S(m) => m.into(),
        }
    }
    fn labels(&self) -> &Labels {
        match self {
            M::C(m) => m.labels(),
            M::G(m) => m.labels(),
            M::H(m) => m.labels(),
            M::S(m) => m.labels(),
        }
    }
    fn name(&self) -> &MetricName {
        match self {
            M::C(m) => m.metric_name(),
            M::G(m) => m.metric_name(),
            M::H(m) => m.metric_name(),
            M::S(m) => m.metric_name(),
        }
    }
    fn help(&self) -> Option<&str> {
        match self {
            M::C(m) => m.help(),
            M::G(m) => m.help(),
            M::H(m) => m.help(),
            M::S(m) => m.help(),
        }
    }
    fn ts(&self) -> Option<i64> {
        match self {
            M::C(m) => m.timestamp().get(),
            M::G(m) => m.timestamp().get(),
            M::H(m) => m.timestamp().get(),
            M::S(m) => m.timestamp().get(),
        }
    }
    fn display(&self) -> String {
        match self {
            M::C(m) => m.to_string(),
            M::G(m) => m.to_string(),
            M::H(m) => m.to_string(),
            M::S(m) => m.to_string(),
        }
    }
}
macro_rules! each {
    ($m:expr, $x:ident => $e:expr) => {
        match $m {
            M::C($x) => $e,
            M::G($x) => $e,
            M::H($x) => $e,
            M::S($x) => $e,
        }
    };
}

pub enum B {
    C(CounterBuilder),
    G(GaugeBuilder),
    H(HistogramBuilder),
    S(SummaryBuilder),
}
macro_rules! eachb {
    ($m:expr, $x:ident => $e:expr) => {
        match $m {
            B::C($x) => {
                $e;
            }
            B::G($x) => {
                $e;
            }
            B::H($x) => {
                $e;
            }
            B::S($x) => {
                $e;
            }
        }
    };
}

pub fn labels_json(l: &Labels) -> Value {
    Value::Array(l.iter().map(|l| json!([l.name(), l.value()])).collect())
}
fn name_json(m: &MetricName) -> Value {
    json!({"ns": m.namespace().map_or(json!("-"), |s| json!([s])),
           "sub": m.subsystem().map_or(json!("-"), |s| json!([s])),
           "name": m.name(), "full": m.to_string()})
}
fn err(e: &prometrics::Error) -> Value {
    match *e.kind() {
        ErrorKind::InvalidInput => json!("InvalidInput"),
        ErrorKind::Other => json!("Other"),
    }
}
fn res<T>(r: prometrics::Result<T>) -> Value {
    match r {
        Ok(_) => json!("ok"),
        Err(e) => err(&e),
    }
}
fn cum_json(it: impl Iterator<Item = CumulativeBucket>) -> Value {
    // A merge that never ends is data, not a reason to hang.
    Value::Array(
        it.take(10_000)
            .map(|b| json!([f(b.upper_bound()), b.cumulative_count()]))
            .collect(),
    )
}
fn quant_json(q: Vec<(Quantile, f64)>) -> Value {
    Value::Array(q.into_iter().map(|(q, v)| json!([f(q.as_f64()), f(v)])).collect())
}
pub fn describe(m: &M) -> Value {
    let mut o = json!({"kind": m.kind(), "name": name_json(m.name()),
        "help": m.help().map_or(json!("-"), |h| json!([h])),
        "labels": labels_json(m.labels()), "ts": ts(m.ts())});
    match m {
        M::C(c) => o["value"] = f(c.value()),
        M::G(g) => o["value"] = f(g.value()),
        M::H(h) => {
            o["buckets"] =
                Value::Array(h.buckets().iter().map(|b| json!([f(b.upper_bound()), b.count()])).collect());
            o["cum"] = cum_json(h.cumulative_buckets());
            o["count"] = json!(h.count());
            o["sum"] = f(h.sum());
        }
        M::S(s) => {
            o["quant"] = quant_json(s.quantiles());
            o["count"] = json!(s.count());
            o["sum"] = f(s.sum());
        }
    }
    o
}
pub fn family_json(fam: &MetricFamily) -> Value {
    let series = match fam.metrics() {
        Metrics::Counter(v) => v
            .iter()
            .map(|m| json!({"name": m.metric_name().to_string(), "labels": labels_json(m.labels()), "ts": ts(m.timestamp().get()), "value": f(m.value())}))
            .collect::<Vec<_>>(),
        Metrics::Gauge(v) => v
            .iter()
            .map(|m| json!({"name": m.metric_name().to_string(), "labels": labels_json(m.labels()), "ts": ts(m.timestamp().get()), "value": f(m.value())}))
            .collect(),
        Metrics::Histogram(v) => v
            .iter()
            .map(|m| json!({"name": m.metric_name().to_string(), "labels": labels_json(m.labels()), "ts": ts(m.timestamp().get()),
                "cum": cum_json(m.cumulative_buckets()), "sum": f(m.sum()), "count": m.count()}))
            .collect(),
        Metrics::Summary(v) => v
            .iter()
            .map(|m| json!({"name": m.metric_name().to_string(), "labels": labels_json(m.labels()), "ts": ts(m.timestamp().get()),
                "quant": quant_json(m.quantiles()), "sum": f(m.sum()), "count": m.count()}))
            .collect(),
    };
    json!({"full": fam.name().to_string(), "kind": fam.kind().to_string(),
           "help": fam.help().map_or(json!("-"), |h| json!([h])), "series": series})
}
fn result_json(r: &MetricFamilies, text: bool) -> Value {
    let fams: Vec<Value> = r.as_ref().iter().map(family_json).collect();
    let mut o = json!({ "families": fams });
    if text {
        o["text"] = json!(r.to_text());
        o["display"] = Value::Array(r.as_ref().iter().map(|x| json!(x.to_string())).collect());
        o["lines"] = Value::Array(
            r.as_ref()
                .iter()
                .map(|x| match x.metrics() {
                    Metrics::Counter(v) => v.iter().map(|m| m.to_string()).collect(),
                    Metrics::Gauge(v) => v.iter().map(|m| m.to_string()).collect(),
                    Metrics::Histogram(v) => v.iter().map(|m| m.to_string()).collect(),
                    Metrics::Summary(v) => v.iter().map(|m| m.to_string()).collect::<Vec<String>>(),
                })
                .map(|v: Vec<String>| json!(v))
                .collect(),
        );
    }
    o
}

/// How values compare with each other: equality, order as -1, 0, 1, and the partial order likewise (2: none).
fn compare<T: Ord>(xs: &[T]) -> Value {
    let matrix = |f: &dyn Fn(&T, &T) -> Value| -> Value { xs.iter().map(|a| xs.iter().map(|b| f(a, b)).collect::<Value>()).collect() };
    json!({
        "eq": matrix(&|a, b| json!(a == b && !(a != b))),
        "cmp": matrix(&|a, b| json!(a.cmp(b) as i8)),
        "part": matrix(&|a, b| json!(a.partial_cmp(b).map_or(2, |o| o as i8))),
    })
}
/// The hash of each value, as the position of the first value with that hash.
fn hashes<T: Hash>(xs: &[T]) -> Value {
    let hs: Vec<u64> = xs
        .iter()
        .map(|x| {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            x.hash(&mut h);
            h.finish()
        })
        .collect();
    hs.iter().map(|h| hs.iter().position(|x| x == h)).collect()
}

enum Step {
    Metrics(Vec<Metric>),
    End,
    Panic,
}
pub type Calls = Arc<Mutex<Vec<i64>>>;
struct Script {
    c: i64,
    calls: Calls,
    steps: std::vec::IntoIter<Step>,
    /// What it registers at each call.
    acts: std::vec::IntoIter<Vec<Box<dyn FnOnce() + Send>>>,
}
impl Collect for Script {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        self.calls.lock().unwrap().push(self.c);
        for f in self.acts.next().unwrap_or_default() {
            f();
        }
        match self.steps.next() {
            Some(Step::Metrics(v)) => Some(v.into_iter()),
            Some(Step::Panic) => panic!("planned"),
            Some(Step::End) | None => None,
        }
    }
}

struct Held {
    _iter: Option<prometrics::label::Iter<'static>>,
    items: Vec<&'static Label>,
}

#[derive(Default)]
pub struct World {
    pub gatherers: HashMap<i64, Gatherer>,
    pub registries: HashMap<i64, Registry>,
    pub handles: HashMap<i64, M>,
    pub builders: HashMap<i64, B>,
    mbuilders: HashMap<i64, MetricBuilder>,
    results: HashMap<i64, MetricFamilies>,
    held: HashMap<i64, Held>,
    addrs: HashMap<i64, usize>,
    /// Long-lived mutable views of labels and timestamps.
    lms: HashMap<i64, LabelsMut<'static>>,
    tms: HashMap<i64, TimestampMut<'static>>,
    pub calls: Calls,
    /// Told of every call before it is made.
    pub pre: Option<Arc<dyn Fn(Value) + Send + Sync>>,
}
unsafe impl Send for World {}

pub const DEFAULT: i64 = -1;

impl World {
    fn script(&self, op: &Value) -> Script {
        let steps: Vec<Step> = op["script"]
            .as_array()
            .unwrap()
            .iter()
            .map(|s| match s {
                Value::Array(hs) => Step::Metrics(hs.iter().map(|h| self.handles[&h.as_i64().unwrap()].metric()).collect()),
                Value::Null => Step::End,
                _ => Step::Panic,
            })
            .collect();
        Script { c: n(op, "c"), calls: self.calls.clone(), steps: steps.into_iter(), acts: Vec::new().into_iter() }
    }
    fn act(&self, a: &Value) -> Box<dyn FnOnce() + Send> {
        let r = self.reg(n(a, "r"));
        if a["c"].as_i64().is_some() {
            let s = self.script(a);
            return Box::new(move || r.register(s));
        }
        match self.h(a) {
            M::C(m) => { let c = m.collector(); Box::new(move || r.register(c)) }
            M::G(m) => { let c = m.collector(); Box::new(move || r.register(c)) }
            M::H(m) => { let c = m.collector(); Box::new(move || r.register(c)) }
            M::S(m) => { let c = m.collector(); Box::new(move || r.register(c)) }
        }
    }
    fn reg(&self, id: i64) -> Registry {
        if id == DEFAULT {
            default_registry()
        } else {
            self.registries[&id].clone()
        }
    }
    fn h(&self, op: &Value) -> M {
        self.handles[&n(op, "h")].clone()
    }
    fn tm(&mut self, op: &Value) -> &mut TimestampMut<'static> {
        let m = self.h(op);
        self.tms.entry(n(op, "tm")).or_insert_with(|| {
            let m: &'static M = Box::leak(Box::new(m));
            each!(m, m => m.timestamp_mut())
        })
    }
    fn with_gatherer<T>(&mut self, id: i64, f: impl FnOnce(&mut Gatherer) -> T) -> T {
        if id == DEFAULT {
            f(&mut default_gatherer().lock().unwrap())
        } else {
            f(self.gatherers.get_mut(&id).expect("gatherer"))
        }
    }

    /// Executes `op` and logs it (with `ret`) through `log`.
    pub fn exec(&mut self, op: &Value, log: &mut dyn FnMut(Value)) {
        let mut ev = op.clone();
        let kind = s(op, "op").to_owned();
        if kind == "track" || kind == "time" {
            return self.scoped(op, log);
        }
        if let Some(p) = &self.pre {
            p(op.clone());
        }
        let r = catch_unwind(AssertUnwindSafe(|| self.run(&kind, op)));
        ev["ret"] = match r {
            Ok(v) => v,
            Err(e) => {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                if msg.starts_with("driver:") {
                    eprintln!("{} in {}", msg, op);
                    std::process::exit(2);
                }
                json!("panic")
            }
        };
        log(ev);
    }

    fn scoped(&mut self, op: &Value, log: &mut dyn FnMut(Value)) {
        let kind = s(op, "op").to_owned();
        let m = self.handles[&n(op, "h")].clone();
        let body = op["body"].as_array().cloned().unwrap_or_default();
        let boom = op["panic"].as_bool().unwrap_or(false);
        let tok = n(op, "tok");
        let pre = self.pre.clone();
        let pre2 = pre.clone();
        let end = json!({"op": format!("{}_end", kind), "h": op["h"], "tok": tok, "panic": boom});
        let end2 = end.clone();
        if let Some(p) = &pre {
            p(json!({"op": format!("{}_begin", kind), "h": op["h"]}));
        }
        let r = {
            let this = &mut *self;
            let log = &mut *log;
            let k = kind.clone();
            let h = n(op, "h");
            catch_unwind(AssertUnwindSafe(move || {
                let f = move || {
                    log(json!({"op": format!("{}_begin", k), "h": h, "ret": "ok"}));
                    for b in &body {
                        this.exec(b, log);
                    }
                    if let Some(p) = &pre2 {
                        p(end2);
                    }
                    if boom {
                        panic!("planned");
                    }
                    tok
                };
                match (kind.as_str(), &m) {
                    ("track", M::G(g)) => g.track_inprogress(f),
                    ("time", M::C(x)) => x.time(f),
                    ("time", M::G(x)) => x.time(f),
                    ("time", M::H(x)) => x.time(f),
                    ("time", M::S(x)) => x.time(f),
                    _ => panic!("driver: bad scoped op"),
                }
            }))
        };
        let ret = match r {
            Ok(t) => json!(t),
            Err(_) => json!("panic"),
        };
        let mut end = end;
        end["ret"] = ret;
        log(end);
    }

    fn run(&mut self, kind: &str, op: &Value) -> Value {
        match kind {
            // ---- gatherers and registries
            "gatherer" => {
                self.gatherers.insert(n(op, "g"), if op["dflt"] == json!(true) { Gatherer::default() } else { Gatherer::new() });
                json!("ok")
            }
            "drop_gatherer" => {
                self.gatherers.remove(&n(op, "g"));
                json!("ok")
            }
            "registry" => {
                let r = self.with_gatherer(n(op, "g"), |g| g.registry());
                self.registries.insert(n(op, "r"), r);
                json!("ok")
            }
            "clone_registry" => {
                let r = self.reg(n(op, "from"));
                self.registries.insert(n(op, "r"), r);
                json!("ok")
            }
            "register" => {
                // registers a built metric's collector
                let r = self.reg(n(op, "r"));
                match self.h(op) {
                    M::C(m) => r.register(m.collector()),
                    M::G(m) => r.register(m.collector()),
                    M::H(m) => r.register(m.collector()),
                    M::S(m) => r.register(m.collector()),
                }
                json!("ok")
            }
            "register_script" => {
                let r = self.reg(n(op, "r"));
                let script = self.script(op);
                let acts: Vec<Vec<_>> = op["acts"].as_array().map_or(Vec::new(), |l| {
                    l.iter().map(|step| step.as_array().unwrap().iter().map(|a| self.act(a)).collect()).collect()
                });
                r.register(Script { acts: acts.into_iter(), ..script });
                json!("ok")
            }
            "gather" => {
                self.calls.lock().unwrap().clear();
                let text = op["text"].as_bool().unwrap_or(false);
                let res = match catch_unwind(AssertUnwindSafe(|| self.with_gatherer(n(op, "g"), |g| g.gather()))) {
                    Ok(res) => res,
                    Err(e) if e.downcast_ref::<&str>() == Some(&"planned") => {
                        // a collector of the user panicked
                        return json!({"panic": true, "calls": self.calls.lock().unwrap().clone()});
                    }
                    Err(e) => std::panic::resume_unwind(e),
                };
                let mut o = result_json(&res, text);
                o["calls"] = json!(self.calls.lock().unwrap().clone());
                if let Some(k) = op["keep"].as_i64() {
                    self.results.insert(k, res);
                }
                o
            }
            "reset_default" => {
                *default_gatherer().lock().unwrap() = Gatherer::new();
                json!("ok")
            }
            "dur_secs" => {
                let secs: u64 = s(op, "s").parse().unwrap();
                f(prometrics::timestamp::duration_to_seconds(Duration::new(secs, n(op, "ns") as u32)))
            }
            "drop_result" => {
                self.results.remove(&n(op, "keep"));
                json!("ok")
            }
            "into_vec" => {
                let r = self.results[&n(op, "keep")].clone();
                let a: Vec<Value> = r.clone().into_vec().iter().map(family_json).collect();
                let b: Vec<Value> = r.into_iter().map(|x| family_json(&x)).collect();
                json!([a, b])
            }
            // ---- builders
            "mb_new" => {
                let b = match op["r"].as_i64() {
                    None => MetricBuilder::without_registry(),
                    Some(DEFAULT) => MetricBuilder::new(),
                    Some(r) => MetricBuilder::with_registry(self.reg(r)),
                };
                self.mbuilders.insert(n(op, "b"), b);
                json!("ok")
            }
            "mb_clone" => {
                let b = self.mbuilders[&n(op, "from")].clone();
                self.mbuilders.insert(n(op, "b"), b);
                json!("ok")
            }
            "mb_set" => {
                let reg = op["r"].as_i64().map(|r| self.reg(r));
                let b = self.mbuilders.get_mut(&n(op, "b")).expect("mbuilder");
                match s(op, "what") {
                    "namespace" => b.namespace(s(op, "v")),
                    "subsystem" => b.subsystem(s(op, "v")),
                    "label" => b.label(s(op, "a"), s(op, "v")),
                    "registry" => b.registry(reg.unwrap()),
                    "set_registry" => b.set_registry(reg.unwrap()),
                    x => panic!("driver: mb_set {}", x),
                };
                json!("ok")
            }
            "bld" => {
                let name = s(op, "name");
                let win = || window(op);
                let b = if let Some(mb) = op["via"].as_i64() {
                    let mb = &self.mbuilders[&mb];
                    match s(op, "kind") {
                        "counter" => B::C(mb.counter(name)),
                        "gauge" => B::G(mb.gauge(name)),
                        "histogram" => B::H(mb.histogram(name)),
                        "summary" => B::S(mb.summary(name, win())),
                        x => panic!("driver: kind {}", x),
                    }
                } else {
                    match s(op, "kind") {
                        "counter" => B::C(CounterBuilder::new(name)),
                        "gauge" => B::G(GaugeBuilder::new(name)),
                        "histogram" => B::H(if let Some(l) = op["lin"].as_array() {
                            HistogramBuilder::with_linear_buckets(name, pf(&l[0]), pf(&l[1]), l[2].as_u64().unwrap() as usize)
                        } else if let Some(l) = op["exp"].as_array() {
                            HistogramBuilder::with_exponential_buckets(name, pf(&l[0]), pf(&l[1]), l[2].as_u64().unwrap() as usize)
                        } else {
                            HistogramBuilder::new(name)
                        }),
                        "summary" => B::S(SummaryBuilder::new(name, win())),
                        x => panic!("driver: kind {}", x),
                    }
                };
                self.builders.insert(n(op, "b"), b);
                json!("ok")
            }
            "bset" => {
                let reg = op["r"].as_i64().map(|r| self.reg(r));
                let b = self.builders.get_mut(&n(op, "b")).expect("builder");
                match s(op, "what") {
                    "namespace" => eachb!(b, x => x.namespace(s(op, "v"))),
                    "subsystem" => eachb!(b, x => x.subsystem(s(op, "v"))),
                    "help" => eachb!(b, x => x.help(s(op, "v"))),
                    "label" => eachb!(b, x => x.label(s(op, "a"), s(op, "v"))),
                    "registry" => eachb!(b, x => x.registry(reg.clone().unwrap())),
                    "default_registry" => eachb!(b, x => x.default_registry()),
                    "initial" => match b {
                        B::G(x) => {
                            x.initial_value(pf(&op["v"]));
                        }
                        _ => panic!("driver: initial"),
                    },
                    "bucket" => match b {
                        B::H(x) => {
                            x.bucket(pf(&op["v"]));
                        }
                        _ => panic!("driver: bucket"),
                    },
                    "buckets" => match b {
                        B::H(x) => {
                            x.buckets(op["v"].as_array().unwrap().iter().map(pf).collect::<Vec<_>>());
                        }
                        _ => panic!("driver: buckets"),
                    },
                    "quantile" => match b {
                        B::S(x) => {
                            x.quantile(pf(&op["v"]));
                        }
                        _ => panic!("driver: quantile"),
                    },
                    x => panic!("driver: bset {}", x),
                }
                json!("ok")
            }
            "fin" => {
                let r = match &self.builders[&n(op, "b")] {
                    B::C(x) => x.finish().map(M::C),
                    B::G(x) => x.finish().map(M::G),
                    B::H(x) => x.finish().map(M::H),
                    B::S(x) => x.finish().map(M::S),
                };
                self.built(op, r)
            }
            "new" => {
                let name = s(op, "name");
                let r = match s(op, "kind") {
                    "counter" => Counter::new(name).map(M::C),
                    "gauge" => Gauge::new(name).map(M::G),
                    "histogram" => Histogram::new(name).map(M::H),
                    "summary" => Summary::new(name, window(op)).map(M::S),
                    x => panic!("driver: kind {}", x),
                };
                self.built(op, r)
            }
            // ---- handles
            "clone" => {
                let m = self.h(op);
                self.handles.insert(n(op, "to"), m);
                json!("ok")
            }
            "drop" => {
                self.handles.remove(&n(op, "h"));
                json!("ok")
            }
            "describe" => describe(&self.handles[&n(op, "h")]),
            "display" => {
                let m = &self.handles[&n(op, "h")];
                json!({"text": m.display(), "desc": describe(m)})
            }
            "display_labels" => {
                let l = self.handles[&n(op, "h")].labels();
                json!({"l": labels_json(l), "all": l.to_string(), "each": l.iter().map(|x| x.to_string()).collect::<Vec<_>>()})
            }
            "read" => self.read(op),
            // ---- values
            "inc" => {
                let k = op["n"].as_i64().unwrap_or(1);
                match &self.handles[&n(op, "h")] {
                    M::C(c) => (0..k).for_each(|_| c.increment()),
                    M::G(g) => (0..k).for_each(|_| g.increment()),
                    _ => panic!("driver: inc"),
                }
                json!("ok")
            }
            "dec" => match &self.handles[&n(op, "h")] {
                M::G(g) => {
                    g.decrement();
                    json!("ok")
                }
                _ => panic!("driver: dec"),
            },
            "add" => match &self.handles[&n(op, "h")] {
                M::C(c) => res(c.add(pf(&op["v"]))),
                M::G(g) => {
                    g.add(pf(&op["v"]));
                    json!("ok")
                }
                _ => panic!("driver: add"),
            },
            "add_u64" => match &self.handles[&n(op, "h")] {
                M::C(c) => {
                    c.add_u64(s(op, "u").parse().unwrap());
                    json!("ok")
                }
                _ => panic!("driver: add_u64"),
            },
            "sub" | "set" => match &self.handles[&n(op, "h")] {
                M::G(g) => {
                    if kind == "sub" {
                        g.subtract(pf(&op["v"]))
                    } else {
                        g.set(pf(&op["v"]))
                    }
                    json!("ok")
                }
                _ => panic!("driver: set"),
            },
            "set_now" => match &self.handles[&n(op, "h")] {
                M::G(g) => {
                    g.set_to_current_time();
                    json!("ok")
                }
                _ => panic!("driver: set_now"),
            },
            "observe" => {
                match &self.handles[&n(op, "h")] {
                    M::H(h) => h.observe(pf(&op["v"])),
                    M::S(x) => x.observe(pf(&op["v"])),
                    _ => panic!("driver: observe"),
                }
                json!("ok")
            }
            "observe_many" => {
                let v = pf(&op["v"]);
                for _ in 0..n(op, "n") {
                    match &self.handles[&n(op, "h")] {
                        M::H(h) => h.observe(v),
                        M::S(x) => x.observe(v),
                        _ => panic!("driver: observe_many"),
                    }
                }
                json!("ok")
            }
            "observe_all" => {
                for v in op["vs"].as_array().expect("vs") {
                    match &self.handles[&n(op, "h")] {
                        M::H(h) => h.observe(pf(v)),
                        M::S(x) => x.observe(pf(v)),
                        _ => panic!("driver: observe_all"),
                    }
                }
                json!("ok")
            }
            // ---- timestamps
            "ts_set" => {
                let v = pi(&op["v"]);
                if op["tm"].is_i64() {
                    self.tm(op).set(v);
                } else {
                    each!(&self.handles[&n(op, "h")], m => m.timestamp_mut().set(v));
                }
                json!("ok")
            }
            "ts_set_time" => {
                let (sec, ns) = (pi(&op["s"]), n(op, "ns") as u32);
                // op: the instant sec + ns/1e9 before or after the epoch
                let d = Duration::new(sec.unsigned_abs(), ns);
                let t = if op["neg"] == json!(true) { UNIX_EPOCH - d } else { UNIX_EPOCH + d };
                each!(&self.handles[&n(op, "h")], m => m.timestamp_mut().set_time(t));
                json!("ok")
            }
            "ts_now" | "ts_clear" | "ts_get" if op["tm"].is_i64() => {
                let t = self.tm(op);
                match kind {
                    "ts_now" => t.set_now(),
                    "ts_clear" => t.clear(),
                    _ => {
                        let b = t.get();
                        return json!([ts(self.handles[&n(op, "h")].ts()), ts(b)]);
                    }
                }
                json!("ok")
            }
            "ts_now" => {
                each!(&self.handles[&n(op, "h")], m => m.timestamp_mut().set_now());
                json!("ok")
            }
            "ts_clear" => {
                each!(&self.handles[&n(op, "h")], m => m.timestamp_mut().clear());
                json!("ok")
            }
            "ts_get" => {
                let a = self.handles[&n(op, "h")].ts();
                let b = each!(&self.handles[&n(op, "h")], m => m.timestamp_mut().get());
                json!([ts(a), ts(b)])
            }
            // ---- labels
            "l_insert" | "l_remove" | "l_clear" | "l_iter" | "l_len" if op["lm"].is_i64() => {
                let m = self.h(op);
                let l = self.lms.entry(n(op, "lm")).or_insert_with(|| {
                    let m: &'static mut M = Box::leak(Box::new(m));
                    each!(m, m => m.labels_mut())
                });
                match kind {
                    "l_insert" => return res(l.insert(s(op, "a"), s(op, "v"))),
                    "l_remove" => l.remove(s(op, "a")),
                    "l_clear" => l.clear(),
                    "l_iter" => return labels_json(l),
                    _ => return json!({"len": l.len(), "empty": l.is_empty()}),
                }
                json!("ok")
            }
            "l_insert" => {
                let m = self.handles.get_mut(&n(op, "h")).expect("handle");
                each!(m, m => res(m.labels_mut().insert(s(op, "a"), s(op, "v"))))
            }
            "l_remove" => {
                let m = self.handles.get_mut(&n(op, "h")).expect("handle");
                each!(m, m => m.labels_mut().remove(s(op, "a")));
                json!("ok")
            }
            "l_clear" => {
                let m = self.handles.get_mut(&n(op, "h")).expect("handle");
                each!(m, m => m.labels_mut().clear());
                json!("ok")
            }
            "l_iter" => labels_json(self.handles[&n(op, "h")].labels()),
            "l_len" => {
                let l = self.handles[&n(op, "h")].labels();
                json!({"len": l.len(), "empty": l.is_empty()})
            }
            "l_get" => {
                let m = &self.handles[&n(op, "h")];
                match m.labels().get(s(op, "a")) {
                    Some(l) => json!([[l.name(), l.value()]]),
                    None => json!([]),
                }
            }
            "label_new" => match Label::new(s(op, "a"), s(op, "v")) {
                Ok(l) => json!({"name": l.name(), "value": l.value(), "text": l.to_string()}),
                Err(e) => err(&e),
            },
            "quantile_new" => match Quantile::new(pf(&op["v"])) {
                Ok(q) => json!([f(q.as_f64())]),
                Err(e) => err(&e),
            },
            "compare" => match s(op, "what") {
                "name" => {
                    let ms: Vec<Metric> = op["hs"].as_array().unwrap().iter().map(|h| self.handles[&h.as_i64().unwrap()].metric()).collect();
                    let xs: Vec<MetricName> = ms.iter().map(|m| m.name().clone()).collect();
                    let mut o = compare(&xs);
                    o["hash"] = hashes(&xs);
                    o["shown"] = xs.iter().map(|x| x.to_string()).collect();
                    o
                }
                "label" => {
                    let xs: Vec<Label> = op["ls"].as_array().unwrap().iter().map(|l| Label::new(l[0].as_str().unwrap(), l[1].as_str().unwrap()).expect("label")).collect();
                    let mut o = compare(&xs);
                    o["hash"] = hashes(&xs);
                    o
                }
                _ => compare(&op["qs"].as_array().unwrap().iter().map(|q| Quantile::new(pf(q)).expect("quantile")).collect::<Vec<_>>()),
            },
            // ---- held label references
            "hold_iter" | "hold_vec" | "hold_get" => {
                let m: &'static M = Box::leak(Box::new(self.h(op)));
                let l = m.labels();
                let (it, items) = match kind {
                    "hold_iter" => {
                        let mut it = l.iter();
                        let items: Vec<&'static Label> = it.by_ref().collect();
                        (Some(it), items)
                    }
                    "hold_vec" => (None, l.iter().collect()),
                    _ => (None, l.get(s(op, "a")).into_iter().collect()),
                };
                self.addrs.insert(n(op, "it"), items.first().map_or(0, |x| *x as *const Label as usize));
                let r = Value::Array(items.iter().map(|x| json!([x.name(), x.value()])).collect());
                self.held.insert(n(op, "it"), Held { _iter: it, items });
                r
            }
            "held_read" => {
                let h = &self.held[&n(op, "it")];
                let dead = h.items.iter().any(|x| crate::alloc::is_freed(*x as *const Label as usize));
                if dead {
                    json!("dangling")
                } else {
                    Value::Array(h.items.iter().map(|x| json!([x.name(), x.value()])).collect())
                }
            }
            "held_drop" => {
                self.held.remove(&n(op, "it"));
                json!("ok")
            }
            "held_freed" => {
                let a = self.addrs[&n(op, "it")];
                json!(a != 0 && crate::alloc::is_freed(a))
            }
            // ---- clocks
            "advance" => {
                crate::clock::advance(pi(&op["ns"]));
                json!("ok")
            }
            "step_wall" => {
                crate::clock::set_wall(pi(&op["s"]), n(op, "ns"));
                json!("ok")
            }
            x => panic!("driver: unknown op {}", x),
        }
    }

    fn built(&mut self, op: &Value, r: prometrics::Result<M>) -> Value {
        match r {
            Ok(m) => {
                let d = describe(&m);
                self.handles.insert(n(op, "h"), m);
                d
            }
            Err(e) => err(&e),
        }
    }

    fn read(&mut self, op: &Value) -> Value {
        let m = &self.handles[&n(op, "h")];
        match (s(op, "what"), m) {
            ("value", M::C(c)) => f(c.value()),
            ("value", M::G(g)) => f(g.value()),
            ("count", M::H(h)) => json!(h.count()),
            ("sum", M::H(h)) => f(h.sum()),
            ("buckets", M::H(h)) => {
                Value::Array(h.buckets().iter().map(|b| json!([f(b.upper_bound()), b.count()])).collect())
            }
            ("cum", M::H(h)) => cum_json(h.cumulative_buckets()),
            ("count", M::S(h)) => json!(h.count()),
            ("sum", M::S(h)) => f(h.sum()),
            ("quant", M::S(h)) => quant_json(h.quantiles()),
            (x, _) => panic!("driver: read {}", x),
        }
    }
}
