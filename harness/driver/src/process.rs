//! driver process: changes this process (threads, descriptors, limits, memory, CPU time) and gathers the process
//! metrics in between. Each gather is logged together with what the operating system says just before and just after.
use crate::clock;
use crate::world::{family_json, n, s};
use prometrics::metrics::ProcessMetricsCollector;
use prometrics::Gatherer;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fs;
use std::sync::mpsc;
use std::thread::JoinHandle;

fn proc_fields() -> Vec<String> {
    let t = fs::read_to_string("/proc/self/stat").expect("driver: stat");
    // the command may contain anything; the fields after the last ')' start with number 3
    t[t.rfind(')').unwrap() + 2..].split_whitespace().map(|x| x.to_owned()).collect()
}
fn threads() -> i64 {
    let t = fs::read_to_string("/proc/self/status").expect("driver: status");
    t.lines().find(|l| l.starts_with("Threads:")).unwrap()[8..].trim().parse().unwrap()
}
fn limit() -> (u64, u64) {
    let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut l) };
    (l.rlim_cur, l.rlim_max)
}
fn set_limit(soft: u64, hard: u64) {
    let l = libc::rlimit { rlim_cur: soft, rlim_max: hard };
    if unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &l) } != 0 {
        panic!("driver: setrlimit");
    }
}
/// Descriptors, by asking for each possible one (no descriptor is needed for that).
fn fds() -> i64 {
    (0..4096).filter(|&i| unsafe { libc::fcntl(i, libc::F_GETFD) } != -1).count() as i64
}
/// CPU time in ticks.
fn ticks() -> i64 {
    unsafe {
        let mut t: libc::tms = std::mem::zeroed();
        libc::times(&mut t);
        t.tms_utime + t.tms_stime
    }
}
fn memory() -> Option<(u64, u64)> {
    let t = fs::read_to_string("/proc/self/statm").ok()?;
    let page = unsafe { libc::sysconf(libc::_SC_PAGESIZE) } as u64;
    let v: Vec<u64> = t.split_whitespace().map(|x| x.parse().unwrap()).collect();
    Some((v[0] * page, v[1] * page))
}
fn figures() -> Value {
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) };
    let mem = memory();
    json!({"ticks": ticks(), "hz": hz, "vm": mem.map_or(json!("none"), |m| json!(format!("u:{}", m.0))),
           "rss": mem.map_or(json!("none"), |m| json!(format!("u:{}", m.1)))})
}

#[derive(Default)]
struct State {
    gatherers: HashMap<i64, Gatherer>,
    threads: Vec<(mpsc::Sender<()>, JoinHandle<()>)>,
    fds: Vec<i32>,
    maps: Vec<(usize, usize)>,
}

pub fn run(p: &Value) -> Vec<Value> {
    let (soft, hard) = limit();
    clock::step_wall_to(0);
    let mut st = State::default();
    let _ = proc_fields();
    let mut events = vec![json!({"op": "init", "fds": fds(), "threads": threads(), "soft": soft.min(1 << 30), "hard": hard.min(1 << 30), "ret": "ok"})];
    for op in p["ops"].as_array().expect("ops") {
        let mut e = op.clone();
        if e["op"] == json!("limit") {
            // a fixed number, or so many thousandths of the hard limit; the hard limit can be lowered, too
            let hard = limit().1;
            let max = if op["hard"].is_null() { hard } else { hard.min(((hard as u128 * n(op, "hard") as u128 / 1000) as u64).max(4096)) };
            let soft = if op["soft"].is_null() { (max.min(1 << 30) as u128 * n(op, "share") as u128 / 1000) as u64 } else { n(op, "soft") as u64 };
            e["soft"] = json!(soft.min(max));
            e["max"] = json!(max.min(1 << 62));
        }
        let op = &e.clone();
        e["ret"] = st.exec(op);
        events.push(e);
    }
    let k = st.threads.len() as i64;
    st.join(k);
    for fd in st.fds.drain(..) {
        unsafe { libc::close(fd) };
    }
    for (a, l) in st.maps.drain(..) {
        unsafe { libc::munmap(a as *mut _, l) };
    }
    let hard = limit().1;
    set_limit(soft.min(hard), hard);
    events
}

impl State {
    fn join(&mut self, k: i64) {
        let before = threads();
        let mut ended = 0;
        for _ in 0..k {
            if let Some((tx, h)) = self.threads.pop() {
                drop(tx);
                h.join().expect("driver: join");
                ended += 1;
            }
        }
        // the kernel forgets a thread a moment after it can be joined
        for _ in 0..20_000 {
            if threads() <= before - ended {
                break;
            }
            std::thread::sleep(std::time::Duration::from_micros(200));
        }
    }
    fn exec(&mut self, op: &Value) -> Value {
        match s(op, "op") {
            "collector" => {
                let g = Gatherer::new();
                let c = if n(op, "g") % 2 == 0 { ProcessMetricsCollector::new() } else { ProcessMetricsCollector::default() };
                g.registry().register(c);
                self.gatherers.insert(n(op, "g"), g);
                json!("ok")
            }
            "spawn" => {
                for _ in 0..n(op, "n") {
                    let (tx, rx) = mpsc::channel::<()>();
                    let (up, ready) = mpsc::channel::<()>();
                    let h = std::thread::spawn(move || {
                        let _ = up.send(());
                        let _ = rx.recv();
                    });
                    let _ = ready.recv();
                    self.threads.push((tx, h));
                }
                json!("ok")
            }
            "join" => {
                self.join(n(op, "n"));
                json!("ok")
            }
            "open" => {
                for _ in 0..n(op, "n") {
                    let fd = unsafe { libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDONLY) };
                    if fd < 0 {
                        return json!("refused");
                    }
                    self.fds.push(fd);
                }
                json!("ok")
            }
            "dup" => {
                // as high as wanted, or as the limit allows
                let at = n(op, "at").min((limit().0 as i64 - 60).max(0));
                let fd = unsafe { libc::fcntl(0, libc::F_DUPFD, at as i32) };
                if fd < 0 {
                    return json!("refused");
                }
                self.fds.push(fd);
                json!("ok")
            }
            "close" => {
                for _ in 0..n(op, "n") {
                    if self.fds.is_empty() {
                        break;
                    }
                    let i = n(op, "which") as usize % self.fds.len();
                    unsafe { libc::close(self.fds.swap_remove(i)) };
                }
                json!("ok")
            }
            "limit" => {
                set_limit(n(op, "soft") as u64, n(op, "max") as u64);
                json!("ok")
            }
            "map" => {
                let len = n(op, "mb") as usize * (1 << 20);
                unsafe {
                    // untouched memory is only reserved, however much it is
                    let (prot, flag) = if op["touch"] == json!(true) { (libc::PROT_READ | libc::PROT_WRITE, 0) } else { (libc::PROT_NONE, libc::MAP_NORESERVE) };
                    let a = libc::mmap(std::ptr::null_mut(), len, prot, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | flag, -1, 0);
                    if a == libc::MAP_FAILED {
                        panic!("driver: mmap");
                    }
                    if op["touch"] == json!(true) {
                        for i in (0..len).step_by(4096) {
                            *(a as *mut u8).add(i) = 1;
                        }
                    }
                    self.maps.push((a as usize, len));
                }
                json!("ok")
            }
            "unmap" => {
                if let Some((a, l)) = self.maps.pop() {
                    unsafe { libc::munmap(a as *mut _, l) };
                }
                json!("ok")
            }
            "burn" => {
                let end = ticks() + n(op, "ticks");
                let sys = op["sys"] == json!(true);
                let mut x = 1u64;
                while ticks() < end {
                    for _ in 0..2000 {
                        if sys {
                            unsafe { libc::syscall(libc::SYS_getppid) };
                        } else {
                            x = std::hint::black_box(x.wrapping_mul(6364136223846793005).wrapping_add(1));
                        }
                    }
                }
                json!("ok")
            }
            // A child that uses CPU time of its own and is waited for.
            "child" => {
                let k = n(op, "ticks");
                unsafe {
                    let p = libc::fork();
                    if p == 0 {
                        let end = ticks() + k;
                        while ticks() < end {}
                        libc::_exit(0);
                    }
                    if p < 0 || libc::waitpid(p, std::ptr::null_mut(), 0) != p {
                        panic!("driver: fork");
                    }
                }
                json!("ok")
            }
            // The wall clock is set.
            "wall" => {
                clock::step_wall_by(n(op, "by"));
                json!("ok")
            }
            "name" => {
                let c = std::ffi::CString::new(s(op, "v")).unwrap();
                unsafe { libc::prctl(libc::PR_SET_NAME, c.as_ptr()) };
                json!("ok")
            }
            "gather" => {
                let before = figures();
                let r = self.gatherers.get_mut(&n(op, "g")).expect("gatherer").gather();
                let after = figures();
                json!({"families": r.as_ref().iter().map(family_json).collect::<Vec<_>>(), "before": before, "after": after})
            }
            x => panic!("driver: unknown op {}", x),
        }
    }
}
