//! The scheduler: exactly one registered thread runs; at every synchronization operation the
//! policy picks who runs next.
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::{Condvar, Mutex, MutexGuard, OnceLock};

pub type Tid = usize;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Runnable,
    Blocked(usize, bool), // object, may time out
    Finished,
}

#[derive(Clone, Debug)]
pub enum Policy {
    /// switch with probability p at every point
    Random { p: f64 },
    /// priorities with random change points
    Pct { changes: Vec<u64> },
    /// follow the given choices (index among the enabled threads, current thread first), then stay
    Dfs { prefix: Vec<u16> },
    /// (class, thread) hints: prefer `thread` until it has performed an operation of `class`
    Guide { hints: Vec<(Tid, Op)> },
    /// keep running the current thread; at the given operations switch to the given other thread
    Stay { at: Vec<(u64, usize)> },
    /// run the lowest (main first) / highest thread as long as possible
    Main,
    Workers,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Spawn,
    Exit,
    Lock,
    Unlock,
    Atomic,
    Send,
    Recv,
    Wait,
    Notify,
    Sleep,
    Join,
    Any,
}

pub struct Choice {
    pub enabled: u16,
    pub chosen: u16,
    pub preempt: bool,
}

pub struct Sched {
    st: Vec<St>,
    names: Vec<String>,
    current: Tid,
    timed_out: Vec<bool>,
    policy: Policy,
    rng: u64,
    ops: u64,
    max_ops: u64,
    switches: u64,
    run_len: u64,
    prio: Vec<i64>,
    next_low: i64,
    guide_pos: usize,
    guide_age: u64,
    pub choices: Vec<Choice>,
    record: bool,
    timeout_p: f64,
    counts: HashMap<&'static str, u64>,
    log: Option<std::fs::File>,
    in_process: bool,
}

static SCHED: OnceLock<Option<(Mutex<Sched>, Condvar)>> = OnceLock::new();
static NEXT_OBJ: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
thread_local! { static ME: Cell<Option<Tid>> = const { Cell::new(None) }; }

pub fn new_obj() -> usize {
    NEXT_OBJ.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Sched {
    fn rnd(&mut self) -> u64 {
        splitmix(&mut self.rng)
    }
    fn unit(&mut self) -> f64 {
        (self.rnd() >> 11) as f64 / (1u64 << 53) as f64
    }
}

fn parse_policy(s: &str) -> (Policy, u64) {
    let mut it = s.split(':');
    let kind = it.next().unwrap_or("random");
    let seed: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(1);
    let arg = it.next().unwrap_or("").to_string();
    let arg2 = it.next().unwrap_or("").to_string();
    let mut rng = seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0xABCDEF;
    let p = match kind {
        "pct" => {
            let d: usize = arg.parse().unwrap_or(3);
            let n: u64 = arg2.parse().unwrap_or(1000);
            let mut changes: Vec<u64> = (0..d).map(|_| splitmix(&mut rng) % n.max(1)).collect();
            changes.sort();
            Policy::Pct { changes }
        }
        "main" => Policy::Main,
        "workers" => Policy::Workers,
        "dfs" => Policy::Dfs {
            prefix: arg.split('.').filter_map(|x| x.parse().ok()).collect(),
        },
        "stay" => Policy::Stay {
            at: arg
                .split(',')
                .filter_map(|x| {
                    let (a, b) = x.split_once('.')?;
                    Some((a.parse().ok()?, b.parse().ok()?))
                })
                .collect(),
        },
        "guide" => Policy::Guide {
            hints: arg
                .split('.')
                .filter(|x| x.len() >= 2)
                .map(|x| {
                    let op = match &x[..1] {
                        "s" => Op::Send,
                        "r" => Op::Recv,
                        "l" => Op::Lock,
                        "a" => Op::Atomic,
                        "x" => Op::Exit,
                        "w" => Op::Wait,
                        _ => Op::Any,
                    };
                    (x[1..].parse().unwrap_or(0), op)
                })
                .collect(),
        },
        _ => Policy::Random {
            p: arg.parse().unwrap_or(0.3),
        },
    };
    (p, rng)
}

fn env(n: &str) -> Option<String> {
    std::env::var(n).ok().filter(|s| !s.is_empty())
}

fn make(policy: Policy, rng: u64) -> Sched {
    Sched {
        st: vec![St::Runnable],
        names: vec!["main".into()],
        current: 0,
        timed_out: vec![false],
        policy,
        rng,
        ops: 0,
        max_ops: env("WSCHED_MAXOPS").and_then(|x| x.parse().ok()).unwrap_or(3_000_000),
        switches: 0,
        run_len: 0,
        prio: vec![],
        next_low: -1,
        guide_pos: 0,
        guide_age: 0,
        choices: vec![],
        record: false,
        timeout_p: env("WSCHED_TIMEOUT_P").and_then(|x| x.parse().ok()).unwrap_or(0.02),
        counts: HashMap::new(),
        log: None,
        in_process: false,
    }
}

fn sched() -> Option<&'static (Mutex<Sched>, Condvar)> {
    SCHED
        .get_or_init(|| {
            let spec = env("WSCHED")?;
            let (policy, rng) = parse_policy(&spec);
            let mut s = make(policy, rng);
            if let Some(p) = env("WSCHED_LOG") {
                s.log = std::fs::File::create(p).ok();
            }
            extern "C" {
                fn atexit(f: extern "C" fn()) -> i32;
            }
            extern "C" fn at_exit() {
                report("exit");
            }
            unsafe { atexit(at_exit) };
            ME.with(|m| m.set(Some(0)));
            Some((Mutex::new(s), Condvar::new()))
        })
        .as_ref()
}

/// Use the scheduler in this process for in-process exploration (the driver calls `reset`).
pub fn init_in_process() {
    SCHED.get_or_init(|| {
        let mut s = make(Policy::Main, 1);
        s.in_process = true;
        ME.with(|m| m.set(Some(0)));
        Some((Mutex::new(s), Condvar::new()))
    });
}

/// Start a new execution; only legal when all other threads have finished.
pub fn reset(policy: Policy, seed: u64, record: bool) {
    let (m, _) = sched().unwrap();
    let mut s = m.lock().unwrap();
    let mut n = make(policy, seed ^ 0x5DEECE66D);
    n.record = record;
    n.in_process = true;
    *s = n;
}

pub fn take_choices() -> (Vec<Choice>, u64) {
    let (m, _) = sched().unwrap();
    let mut s = m.lock().unwrap();
    let ops = s.ops;
    (std::mem::take(&mut s.choices), ops)
}

fn report(why: &str) {
    if let Some(Some((m, _))) = SCHED.get() {
        if let Ok(mut s) = m.try_lock() {
            let mut line = format!(
                "{{\"end\":\"{}\",\"ops\":{},\"switches\":{},\"threads\":{},\"counts\":{{",
                why,
                s.ops,
                s.switches,
                s.st.len()
            );
            let mut c: Vec<_> = s.counts.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
            c.sort();
            line.push_str(&c.join(","));
            line.push_str("}}\n");
            if let Some(f) = &mut s.log {
                use std::io::Write;
                let _ = f.write_all(line.as_bytes());
            }
        }
    }
}

fn die(s: &Sched, code: i32, msg: &str) -> ! {
    eprintln!("WSCHED: {msg} after {} ops", s.ops);
    for (i, st) in s.st.iter().enumerate() {
        eprintln!("WSCHED:   thread {i} ({}): {:?}", s.names[i], st);
    }
    // Not exit(): no destructors or atexit handlers may run scheduled code.
    extern "C" {
        fn _exit(c: i32) -> !;
    }
    unsafe { _exit(code) }
}

fn me() -> Option<Tid> {
    ME.try_with(|m| m.get()).ok().flatten()
}

pub fn active() -> bool {
    sched().is_some() && me().is_some()
}

fn name(op: Op) -> &'static str {
    match op {
        Op::Spawn => "spawn",
        Op::Exit => "exit",
        Op::Lock => "lock",
        Op::Unlock => "unlock",
        Op::Atomic => "atomic",
        Op::Send => "send",
        Op::Recv => "recv",
        Op::Wait => "wait",
        Op::Notify => "notify",
        Op::Sleep => "sleep",
        Op::Join => "join",
        Op::Any => "any",
    }
}

/// Choose the next thread among the runnable ones. Called with the lock held.
fn pick(s: &mut Sched, me: Tid, op: Op) -> Tid {
    let mut en: Vec<Tid> = Vec::with_capacity(s.st.len());
    if s.st[me] == St::Runnable {
        en.push(me);
    }
    for t in 0..s.st.len() {
        if t != me && s.st[t] == St::Runnable {
            en.push(t);
        }
    }
    let timed: Vec<Tid> = (0..s.st.len())
        .filter(|t| matches!(s.st[*t], St::Blocked(_, true)))
        .collect();
    let mut fire = None;
    if !timed.is_empty() {
        let dfs = matches!(s.policy, Policy::Dfs { .. });
        if en.is_empty() {
            fire = Some(timed[(s.rnd() % timed.len() as u64) as usize]);
        } else if !dfs && s.unit() < s.timeout_p {
            fire = Some(timed[(s.rnd() % timed.len() as u64) as usize]);
        }
    }
    if let Some(t) = fire {
        s.st[t] = St::Runnable;
        s.timed_out[t] = true;
        return t;
    }
    if en.is_empty() {
        if s.st.iter().all(|x| *x == St::Finished) {
            return me;
        }
        die(s, 99, "DEADLOCK: every thread is blocked");
    }
    if s.prio.len() < s.st.len() {
        while s.prio.len() < s.st.len() {
            let r = (s.rnd() % 1_000_000) as i64 + 1;
            s.prio.push(r);
        }
    }
    let staying = en[0] == me;
    // Fairness: nobody may spin forever while others could run.
    if staying && s.run_len > 3000 && en.len() > 1 {
        s.prio[me] = s.next_low;
        s.next_low -= 1;
        let i = 1 + (s.rnd() % (en.len() as u64 - 1)) as usize;
        return en[i];
    }
    if en.len() == 1 {
        return en[0];
    }
    let ops = s.ops;
    let idx = match s.policy.clone() {
        Policy::Random { p } => {
            if staying && s.unit() >= p {
                0
            } else {
                (s.rnd() % en.len() as u64) as usize
            }
        }
        Policy::Pct { changes } => {
            if changes.binary_search(&ops).is_ok() {
                s.prio[me] = s.next_low;
                s.next_low -= 1;
            }
            let mut best = 0;
            for i in 1..en.len() {
                if s.prio[en[i]] > s.prio[en[best]] {
                    best = i;
                }
            }
            best
        }
        Policy::Dfs { prefix } => {
            let k = s.choices.len();
            let c = prefix.get(k).copied().unwrap_or(0) as usize;
            c.min(en.len() - 1)
        }
        Policy::Guide { hints } => {
            // the hinted thread runs until it has done the hinted kind of operation
            if let Some((t, h)) = hints.get(s.guide_pos).copied() {
                s.guide_age += 1;
                if (me == t && (h == op || h == Op::Any)) || s.guide_age > 400 {
                    s.guide_pos += 1;
                    s.guide_age = 0;
                }
            }
            match hints.get(s.guide_pos) {
                Some((t, _)) => match en.iter().position(|x| x == t) {
                    Some(i) => i,
                    None => {
                        if staying {
                            0
                        } else {
                            (s.rnd() % en.len() as u64) as usize
                        }
                    }
                },
                None => (s.rnd() % en.len() as u64) as usize,
            }
        }
        Policy::Stay { at } => match at.iter().find(|(o, _)| *o == ops) {
            Some((_, t)) => t % en.len(),
            None if staying => 0,
            None => (s.rng as usize) % en.len(),
        },
        Policy::Main => (0..en.len()).min_by_key(|i| en[*i]).unwrap(),
        Policy::Workers => (0..en.len()).max_by_key(|i| en[*i]).unwrap(),
    };
    if s.record || matches!(s.policy, Policy::Dfs { .. }) {
        s.choices.push(Choice {
            enabled: en.len() as u16,
            chosen: idx as u16,
            preempt: staying,
        });
    }
    en[idx]
}

fn switch(mut s: MutexGuard<'static, Sched>, cv: &'static Condvar, me: Tid, op: Op) {
    s.ops += 1;
    *s.counts.entry(name(op)).or_insert(0) += 1;
    if s.ops > s.max_ops {
        die(&s, 98, "NO PROGRESS: operation limit reached");
    }
    let next = pick(&mut s, me, op);
    if next == me {
        s.run_len += 1;
        return;
    }
    s.switches += 1;
    s.run_len = 0;
    s.current = next;
    cv.notify_all();
    if s.st[me] == St::Finished {
        return;
    }
    while s.current != me {
        s = cv.wait(s).unwrap();
    }
}

/// A scheduling point before an operation.
pub fn point(op: Op) {
    let (Some((m, cv)), Some(me)) = (sched(), me()) else { return };
    let s = m.lock().unwrap();
    switch(s, cv, me, op);
}

/// Block until `obj` is signalled; returns true if it timed out instead.
pub fn block(obj: usize, timed: bool, op: Op) -> bool {
    let (Some((m, cv)), Some(me)) = (sched(), me()) else {
        std::thread::yield_now();
        return false;
    };
    let mut s = m.lock().unwrap();
    s.st[me] = St::Blocked(obj, timed);
    s.timed_out[me] = false;
    switch(s, cv, me, op);
    let s = m.lock().unwrap();
    s.timed_out[me]
}

/// Make everybody blocked on `obj` runnable again (they re-check their condition).
pub fn wake_all(obj: usize) {
    let Some((m, _)) = sched() else { return };
    let mut s = m.lock().unwrap();
    for t in 0..s.st.len() {
        if matches!(s.st[t], St::Blocked(o, _) if o == obj) {
            s.st[t] = St::Runnable;
        }
    }
}

pub fn wake_one(obj: usize) {
    let Some((m, _)) = sched() else { return };
    let mut s = m.lock().unwrap();
    let w: Vec<Tid> = (0..s.st.len())
        .filter(|t| matches!(s.st[*t], St::Blocked(o, _) if o == obj))
        .collect();
    if !w.is_empty() {
        let i = (s.rnd() % w.len() as u64) as usize;
        s.st[w[i]] = St::Runnable;
    }
}

/// Register a thread about to be spawned.
pub fn register(nm: &str) -> Option<Tid> {
    let (m, _) = sched()?;
    me()?;
    let mut s = m.lock().unwrap();
    s.st.push(St::Runnable);
    s.timed_out.push(false);
    s.names.push(nm.to_string());
    Some(s.st.len() - 1)
}

/// First thing in a new thread: wait for its turn.
pub fn enter(t: Tid) {
    ME.with(|m| m.set(Some(t)));
    let (m, cv) = sched().unwrap();
    let mut s = m.lock().unwrap();
    while s.current != t {
        s = cv.wait(s).unwrap();
    }
}

/// Last thing in a thread.
pub fn leave(t: Tid, join_obj: usize) {
    wake_all(join_obj);
    let (m, cv) = sched().unwrap();
    let mut s = m.lock().unwrap();
    s.st[t] = St::Finished;
    switch(s, cv, t, Op::Exit);
    let _ = ME.try_with(|m| m.set(None));
}

pub fn self_id() -> Option<Tid> {
    me()
}
