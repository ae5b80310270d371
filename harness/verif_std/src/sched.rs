//! The controller: at most one registered thread runs at a time; at every scheduling point the strategy decides which
//! thread runs next. Threads that are not registered (setup, final part) run through the points untouched.
use std::cell::Cell;
use std::sync::{Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Ready,
    Blocked(usize), // on a lock, channel, ...
    Spinning(usize), // on a location
    Yielded,
    Finished,
}

pub enum Strategy {
    /// Depth-first over all choices, at most `bound` preemptions (and spurious failures) per run.
    Dfs { bound: usize },
    /// Stay on the current thread except with probability 1/`rarity`.
    Random { rarity: u32 },
    /// Priorities with `changes` random priority changes within the first `len` steps.
    Pct { changes: usize, len: usize },
}

struct Run {
    threads: Vec<State>,
    last: Vec<(usize, u64)>, // last access of a thread if it was a load: location and value
    when: Vec<u64>,          // when it last gave up control
    current: usize,
    strategy: Strategy,
    path: Vec<(u32, u32)>, // Dfs: choice and number of alternatives
    depth: usize,
    spent: usize,
    rng: u64,
    prio: Vec<u64>,
    change: Vec<usize>,
    choices: Vec<u8>,
    steps: usize,
    rounds: usize,
    limit: usize,
    hang: Option<&'static str>,
}

static RUN: Mutex<Option<Run>> = Mutex::new(None);
static CV: [Condvar; 8] = [const { Condvar::new() }; 8];
static DONE: Condvar = Condvar::new();
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static SKIP: Cell<bool> = const { Cell::new(false) };
}

fn me() -> Option<usize> {
    ME.try_with(|m| m.get()).ok().filter(|m| *m != usize::MAX)
}
fn lock() -> MutexGuard<'static, Option<Run>> {
    RUN.lock().unwrap_or_else(|e| e.into_inner())
}

impl Run {
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    fn dfs(&mut self, n: usize) -> usize {
        let n = n as u32;
        if self.depth < self.path.len() {
            let e = &mut self.path[self.depth];
            e.1 = n;
            self.depth += 1;
            return e.0.min(n - 1) as usize;
        }
        self.path.push((0, n));
        self.depth += 1;
        0
    }
    /// Chooses the thread that runs next. `free`: giving up control costs nothing.
    fn pick(&mut self, me: usize) -> bool {
        let n = self.threads.len();
        let mut ready: Vec<usize> = (0..n).filter(|i| self.threads[*i] == State::Ready).collect();
        if ready.is_empty() {
            // Threads that wait actively, or gave up control, get another try.
            for s in self.threads.iter_mut() {
                if matches!(s, State::Spinning(_) | State::Yielded) {
                    *s = State::Ready;
                }
            }
            ready = (0..n).filter(|i| self.threads[*i] == State::Ready).collect();
            if ready.is_empty() {
                return false;
            }
            self.rounds += 1;
        }
        ready.sort_by_key(|i| self.when[*i]);
        let stay = ready.contains(&me);
        if stay {
            ready.retain(|i| *i != me);
            ready.insert(0, me);
        }
        let k = match self.strategy {
            Strategy::Dfs { bound } => {
                if ready.len() == 1 || (stay && self.spent >= bound) {
                    0
                } else {
                    let k = self.dfs(ready.len());
                    if stay && k > 0 {
                        self.spent += 1;
                    }
                    k
                }
            }
            Strategy::Random { rarity } => {
                let r = self.rand();
                if stay && r % rarity as u64 != 0 {
                    0
                } else {
                    (self.rand() % ready.len() as u64) as usize
                }
            }
            Strategy::Pct { .. } => {
                if self.change.contains(&self.steps) {
                    let low = self.prio.iter().min().copied().unwrap_or(0);
                    self.prio[me] = low.saturating_sub(1);
                }
                (0..ready.len()).max_by_key(|k| self.prio[ready[*k]]).unwrap()
            }
        };
        let next = ready[k];
        self.choices.push(next as u8);
        self.when[me] = self.steps as u64;
        self.current = next;
        true
    }
    fn step(&mut self) {
        self.steps += 1;
        if self.steps > self.limit {
            self.hang = Some("too many steps");
        }
        if self.rounds > 200 {
            self.hang = Some("every thread that is not blocked waits actively");
        }
    }
}

fn hand_over(mut g: MutexGuard<'static, Option<Run>>, me: usize) {
    let r = g.as_mut().unwrap();
    r.step();
    if r.hang.is_none() && !r.pick(me) {
        if r.threads.iter().all(|s| *s == State::Finished) {
            DONE.notify_all();
            return;
        }
        r.hang = Some("deadlock");
    }
    if r.hang.is_some() {
        // The threads of this run are never continued.
        DONE.notify_all();
        drop(g);
        loop {
            std::thread::park();
        }
    }
    let next = r.current;
    if next != me {
        CV[next].notify_all();
    }
    if r.threads[me] == State::Finished {
        return;
    }
    while g.as_ref().map_or(false, |r| r.current != me || r.hang.is_some()) {
        g = CV[me].wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

/// A scheduling point before an access to something shared.
pub fn point() {
    if let Some(m) = me() {
        if SKIP.with(|s| s.replace(false)) {
            return;
        }
        let mut g = lock();
        if let Some(r) = g.as_mut() {
            r.last[m] = (0, 0);
        }
        hand_over(g, m);
    }
}
/// The start of an operation: a scheduling point that stands for the one before its first access.
pub fn begin() {
    if me().is_some() {
        SKIP.with(|s| s.set(false));
        point();
        SKIP.with(|s| s.set(true));
    }
}
pub fn end() {
    SKIP.with(|s| s.set(false));
}
/// A scheduling point before a load. A thread that loads the same location again and again waits actively for it to change.
pub fn point_load(loc: usize, value: impl Fn() -> u64) {
    if let Some(m) = me() {
        let mut g = lock();
        let r = g.as_mut().unwrap();
        let again = r.last[m].0 == loc && r.last[m].1 == value();
        if again {
            r.threads[m] = State::Spinning(loc);
        }
        if SKIP.with(|s| s.replace(false)) && !again {
            r.last[m] = (loc, value());
            return;
        }
        hand_over(g, m);
        let mut g = lock();
        g.as_mut().unwrap().last[m] = (loc, value());
    }
}
pub fn wrote(loc: usize) {
    if me().is_some() {
        if let Some(r) = lock().as_mut() {
            for s in r.threads.iter_mut() {
                if *s == State::Spinning(loc) {
                    *s = State::Ready;
                }
            }
        }
    }
}
/// Waits until `wake(obj)`; to be called where the current thread cannot go on.
pub fn block(obj: usize) {
    match me() {
        Some(m) => {
            let mut g = lock();
            g.as_mut().unwrap().threads[m] = State::Blocked(obj);
            hand_over(g, m);
        }
        None => std::thread::yield_now(),
    }
}
pub fn wake(obj: usize) {
    if let Some(r) = lock().as_mut() {
        for s in r.threads.iter_mut() {
            if *s == State::Blocked(obj) {
                *s = State::Ready;
            }
        }
    }
}
/// The thread gives up control, if another one can run.
pub fn give_way() {
    if let Some(m) = me() {
        let mut g = lock();
        let r = g.as_mut().unwrap();
        r.last[m] = (0, 0);
        r.threads[m] = State::Yielded;
        hand_over(g, m);
        let mut g = lock();
        for s in g.as_mut().unwrap().threads.iter_mut() {
            if *s == State::Yielded {
                *s = State::Ready;
            }
        }
    }
}
/// Does this weak compare-and-exchange fail for no reason?
pub fn spurious() -> bool {
    if me().is_none() {
        return false;
    }
    let mut g = lock();
    let r = g.as_mut().unwrap();
    let b = match r.strategy {
        Strategy::Dfs { bound } => {
            if r.spent >= bound {
                false
            } else {
                let b = r.dfs(2) == 1;
                if b {
                    r.spent += 1;
                }
                b
            }
        }
        _ => r.rand() % 16 == 0,
    };
    r.choices.push(if b { 255 } else { 254 });
    b
}

pub struct Outcome {
    pub choices: Vec<u8>,
    pub steps: usize,
    pub hang: Option<&'static str>,
    /// Dfs: is there another run?
    pub more: bool,
}

/// Runs the closures under control of `strategy`; `path` carries the state of a depth-first search from run to run.
pub fn run(fs: Vec<Box<dyn FnOnce() + Send>>, strategy: Strategy, path: &mut Vec<(u32, u32)>, seed: u64, limit: usize) -> Outcome {
    let n = fs.len();
    let mut r = Run {
        threads: vec![State::Ready; n],
        last: vec![(0, 0); n],
        when: vec![0; n],
        current: usize::MAX,
        strategy,
        path: std::mem::take(path),
        depth: 0,
        spent: 0,
        rng: seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1,
        prio: vec![0; n],
        change: Vec::new(),
        choices: Vec::new(),
        steps: 0,
        rounds: 0,
        limit,
        hang: None,
    };
    for _ in 0..4 {
        r.rand();
    }
    for i in 0..n {
        r.prio[i] = r.rand() % 1000 + 1000;
    }
    if let Strategy::Pct { changes, len } = r.strategy {
        r.change = (0..changes).map(|_| r.rand() as usize % len.max(1)).collect();
    }
    // The first thread to run is a choice of its own.
    let first = match r.strategy {
        Strategy::Dfs { .. } => r.dfs(n),
        Strategy::Random { .. } => (r.rand() % n as u64) as usize,
        Strategy::Pct { .. } => (0..n).max_by_key(|k| r.prio[*k]).unwrap(),
    };
    r.choices.push(first as u8);
    r.current = first;
    *lock() = Some(r);
    let mut joins = Vec::new();
    for (i, f) in fs.into_iter().enumerate() {
        joins.push(
            std::thread::Builder::new()
                .stack_size(512 * 1024)
                .spawn(move || {
                    ME.with(|m| m.set(i));
                    {
                        let mut g = lock();
                        while g.as_ref().map_or(false, |r| r.current != i) {
                            g = CV[i].wait(g).unwrap_or_else(|e| e.into_inner());
                        }
                    }
                    f();
                    end();
                    let mut g = lock();
                    ME.with(|m| m.set(usize::MAX));
                    g.as_mut().unwrap().threads[i] = State::Finished;
                    hand_over(g, i);
                })
                .expect("thread"),
        );
    }
    let mut g = lock();
    while g.as_ref().map_or(false, |r| r.hang.is_none() && !r.threads.iter().all(|s| *s == State::Finished)) {
        g = DONE.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    let hung = g.as_ref().unwrap().hang.is_some();
    drop(g);
    if !hung {
        for j in joins {
            let _ = j.join();
        }
    }
    let mut r = lock().take().unwrap();
    let mut more = false;
    if let Strategy::Dfs { .. } = r.strategy {
        r.path.truncate(r.depth);
        while let Some((c, n)) = r.path.pop() {
            if c + 1 < n {
                r.path.push((c + 1, n));
                more = true;
                break;
            }
        }
    }
    *path = r.path;
    Outcome { choices: r.choices, steps: r.steps, hang: r.hang, more }
}
