//! Drives wimbd's library from JSON commands (one per line on stdin, one answer per line).
//! Built twice: against the library as it is, and (feature `shim`) against the library compiled
//! with the scheduler-controlled std, which allows exploring interleavings in process.
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering};
use std::sync::Arc;

use serde_json::{json, Value};
use wimbd::io::GzBufReader;
use wimbd::ngrams::{ngrams, Ngram, NgramCounter, TopKNgrams};
use wimbd::tokens::{tokenize, PretrainedTokenizer};

fn toks(v: &Value) -> Vec<String> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| match x {
            Value::String(s) => s.clone(),
            // keeps the numeric order
            Value::Number(n) => format!("t{:06}", n.as_u64().unwrap()),
            _ => panic!("token"),
        })
        .collect()
}

fn num(v: &Value) -> u64 {
    match v {
        Value::String(s) => s.parse().unwrap(),
        Value::Number(n) => n.as_u64().unwrap(),
        _ => panic!("number"),
    }
}

macro_rules! widths {
    ($m:ident, $atom:ident, $int:ty) => {
        mod $m {
            use super::*;

            pub fn topk(c: &Value) -> Value {
                let k = num(&c["k"]) as usize;
                let mut t: TopKNgrams<String, $atom> = TopKNgrams::new(k);
                let min = t.min_count();
                let mut out = vec![];
                for op in c["ops"].as_array().unwrap() {
                    let op = op.as_array().unwrap();
                    match op[0].as_str().unwrap() {
                        "i" => {
                            t.insert(toks(&op[1]), num(&op[2]) as $int);
                            out.push(json!({"min": min.load(Ordering::SeqCst).to_string()}));
                        }
                        "m" => {
                            // a second handle sees the same minimum
                            out.push(json!({"min": t.min_count().load(Ordering::SeqCst).to_string()}));
                        }
                        _ => {
                            let d: Vec<Value> = t
                                .drain()
                                .into_iter()
                                .map(|(g, n)| json!([*g, n.to_string()]))
                                .collect();
                            out.push(json!({"drain": d, "min": min.load(Ordering::SeqCst).to_string()}));
                        }
                    }
                }
                json!(out)
            }

            fn apply(t: &NgramCounter<$atom>, op: &[Value]) -> String {
                let g = || toks(&op[1]);
                match op[0].as_str().unwrap() {
                    "inc" => t.increment(&g()[..], num(&op[2]) as $int).to_string(),
                    "incd" => {
                        let d: std::collections::VecDeque<String> = g().into_iter().collect();
                        t.increment(&d, num(&op[2]) as $int).to_string()
                    }
                    "dec" => t.decrement(&g()[..], num(&op[2]) as $int).to_string(),
                    "max" => t.max_count(&g()[..]).to_string(),
                    "nonzero" => t.nonzero().to_string(),
                    _ => panic!("op"),
                }
            }

            fn new(c: &Value) -> anyhow::Result<NgramCounter<$atom>> {
                let seed = if c["seed"].is_null() { None } else { Some(num(&c["seed"])) };
                NgramCounter::<$atom>::new(
                    num(&c["size"]) as usize,
                    num(&c["hashes"]) as usize,
                    seed,
                    num(&c["init"]) as $int,
                )
            }

            pub fn counter(c: &Value) -> Value {
                let t = new(c).unwrap();
                let mut out = vec![];
                for op in c["ops"].as_array().unwrap() {
                    out.push(apply(&t, op.as_array().unwrap()));
                }
                json!(out)
            }

            /// One concurrent run: every thread performs its operations; the events are the calls
            /// and returns in the order in which they happened.
            pub fn concurrent(c: &Value) -> Vec<Value> {
                let t = Arc::new(new(c).unwrap());
                let ev: Arc<realstd::Mutex<Vec<Value>>> = Arc::new(realstd::Mutex::new(vec![]));
                let mut hs = vec![];
                let start = Arc::new(std::sync::Barrier::new(c["threads"].as_array().unwrap().len()));
                for (i, ops) in c["threads"].as_array().unwrap().iter().enumerate() {
                    let t = t.clone();
                    let ev = ev.clone();
                    let ops = ops.clone();
                    let start = start.clone();
                    let wait = !cfg!(feature = "shim");
                    hs.push(std::thread::spawn(move || {
                        if wait {
                            start.wait();
                        }
                        for op in ops.as_array().unwrap() {
                            let op = op.as_array().unwrap();
                            ev.lock().unwrap().push(json!(["c", i, op]));
                            let r = apply(&t, op);
                            ev.lock().unwrap().push(json!(["r", i, r]));
                        }
                    }));
                }
                let mut ok = true;
                for h in hs {
                    ok &= h.join().is_ok();
                }
                let mut out = std::mem::take(&mut *ev.lock().unwrap());
                if !ok {
                    out.push(json!(["panic"]));
                }
                if let Some(f) = c["final"].as_array() {
                    for op in f {
                        out.push(json!(["f", op, apply(&t, op.as_array().unwrap())]));
                    }
                }
                out
            }
        }
    };
}

mod realstd {
    // the recording itself is not subject to scheduling
    #[cfg(feature = "shim")]
    pub use shim_real::Mutex;
    #[cfg(not(feature = "shim"))]
    pub use std::sync::Mutex;
    #[cfg(feature = "shim")]
    mod shim_real {
        pub use std::real::Mutex;
    }
}

widths!(w8, AtomicU8, u8);
widths!(w16, AtomicU16, u16);
widths!(w32, AtomicU32, u32);
widths!(w64, AtomicU64, u64);

macro_rules! by_width {
    ($c:expr, $f:ident) => {
        match $c["width"].as_u64().unwrap_or(32) {
            8 => w8::$f($c),
            16 => w16::$f($c),
            64 => w64::$f($c),
            _ => w32::$f($c),
        }
    };
}

#[cfg(feature = "shim")]
fn explore(c: &Value) -> Value {
    use std::collections::BTreeSet;
    use std::sched::{self, Policy};
    let max = c["max_runs"].as_u64().unwrap_or(1000);
    let bound = c["preemptions"].as_u64().unwrap_or(2) as usize;
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut runs = 0u64;
    let mut complete = false;
    let mut prefix: Vec<u16> = vec![];
    // depth first over all schedules with at most `bound` preemptions
    'dfs: loop {
        sched::reset(Policy::Dfs { prefix: prefix.clone() }, 1, true);
        let h = by_width!(c, concurrent);
        seen.insert(serde_json::to_string(&h).unwrap());
        runs += 1;
        let (ch, _) = sched::take_choices();
        let mut cur: Vec<(u16, u16, bool)> =
            ch.iter().map(|c| (c.chosen, c.enabled, c.preempt)).collect();
        loop {
            let Some((chosen, enabled, pre)) = cur.pop() else {
                complete = true;
                break 'dfs;
            };
            let used = cur.iter().filter(|(c, _, p)| *p && *c > 0).count();
            if chosen + 1 < enabled && (!pre || used < bound) {
                prefix = cur.iter().map(|(c, _, _)| *c).collect();
                prefix.push(chosen + 1);
                break;
            }
        }
        if runs >= max {
            break;
        }
    }
    let mut rng = c["rseed"].as_u64().unwrap_or(1);
    for _ in 0..c["random"].as_u64().unwrap_or(0) {
        rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        sched::reset(Policy::Random { p: 0.4 }, rng >> 20, false);
        let h = by_width!(c, concurrent);
        seen.insert(serde_json::to_string(&h).unwrap());
        runs += 1;
    }
    sched::reset(Policy::Main, 1, false);
    let hs: Vec<Value> = seen.iter().map(|s| serde_json::from_str(s).unwrap()).collect();
    json!({"runs": runs, "complete": complete, "histories": hs})
}

#[cfg(not(feature = "shim"))]
fn explore(c: &Value) -> Value {
    let n = c["stress"].as_u64().unwrap_or(200);
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..n {
        seen.insert(serde_json::to_string(&by_width!(c, concurrent)).unwrap());
    }
    let hs: Vec<Value> = seen.iter().map(|s| serde_json::from_str(s).unwrap()).collect();
    json!({"runs": n, "complete": false, "histories": hs})
}

/// Many threads hammering few n-grams; returns what each thread's last increments returned and the final counts.
fn stress(c: &Value) -> Value {
    json!(by_width!(c, concurrent))
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn reader(c: &Value) -> Value {
    let keep = c["keep"].as_str().unwrap_or("none");
    let r = match GzBufReader::open(c["path"].as_str().unwrap()) {
        Ok(r) => r,
        Err(e) => return json!({"open_error": e.to_string()}),
    };
    let after = c["after_end"].as_u64().unwrap_or(0);
    let mut r = r;
    let mut lines: Vec<Option<String>> = vec![];
    let mut kept: Vec<(usize, std::rc::Rc<String>)> = vec![];
    let mut error = Value::Null;
    let mut extra = vec![];
    loop {
        match r.next() {
            None => {
                for _ in 0..after {
                    extra.push(match r.next() {
                        None => json!("end"),
                        Some(Ok(l)) => json!({"line": hex(l.as_bytes())}),
                        Some(Err(_)) => json!("error"),
                    });
                }
                break;
            }
            Some(Err(e)) => {
                error = json!(e.to_string());
                break;
            }
            Some(Ok(l)) => {
                let i = lines.len();
                let k = match keep {
                    "all" => true,
                    "odd" => i % 2 == 1,
                    "window" => true,
                    "third" => i % 3 == 0,
                    _ => false,
                };
                if k {
                    kept.push((i, l.clone()));
                    lines.push(None);
                    if keep == "window" && kept.len() > 3 {
                        let (j, s) = kept.remove(0);
                        lines[j] = Some(hex(s.as_bytes()));
                    }
                } else {
                    lines.push(Some(hex(l.as_bytes())));
                }
                if lines.len() > 5_000_000 {
                    error = json!("endless");
                    break;
                }
            }
        }
    }
    for (j, s) in kept {
        lines[j] = Some(hex(s.as_bytes()));
    }
    json!({"lines": lines, "error": error, "extra": extra})
}

/// What a pretrained tokenizer (found in the cache of the Hugging Face hub) makes of texts.
fn pretrained(c: &Value) -> Value {
    let t = match PretrainedTokenizer::new(c["name"].as_str().unwrap()) {
        Ok(t) => t,
        Err(e) => return json!({"error": e.to_string()}),
    };
    let n = num(&c["n"]) as usize;
    let some = Some(t.clone());
    let out: Vec<Value> = c["texts"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| {
            let text = x.as_str().unwrap();
            match t.tokenize(text) {
                Err(e) => json!({"error": e.to_string(), "grams": ngrams(text, n, &some).is_ok()}),
                Ok(tokens) => json!({
                    "decoded": t.decode(&tokens).map_err(|e| e.to_string()),
                    "grams": ngrams(text, n, &some).map(|g| g.collect::<Vec<_>>()).ok(),
                    "tokens": tokens,
                }),
            }
        })
        .collect();
    json!(out)
}

fn handle(c: &Value) -> Value {
    match c["op"].as_str().unwrap() {
        "topk" => by_width!(c, topk),
        "counter" => by_width!(c, counter),
        "explore" => explore(c),
        "stress" => stress(c),
        "tokenize" => json!(tokenize(c["text"].as_str().unwrap()).collect::<Vec<_>>()),
        "ngrams" => {
            let n = num(&c["n"]) as usize;
            json!(toks(&c["tokens"]).into_iter().ngrams(n).collect::<Vec<_>>())
        }
        "ngrams_text" => {
            let n = num(&c["n"]) as usize;
            let text = c["text"].as_str().unwrap();
            json!({
                "helper": ngrams(text, n, &None).unwrap().collect::<Vec<_>>(),
                "chain": tokenize(text).ngrams(n).map(|g| g.iter().map(|s| s.to_string()).collect::<Vec<_>>())
                    .collect::<Vec<_>>(),
            })
        }
        "reader" => reader(c),
        "pretrained" => pretrained(c),
        x => json!({"unknown": x}),
    }
}

fn main() {
    #[cfg(feature = "shim")]
    std::sched::init_in_process();
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    std::panic::set_hook(Box::new(|_| {}));
    for line in stdin.lock().lines() {
        let c: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let r = match catch_unwind(AssertUnwindSafe(|| handle(&c))) {
            Ok(v) => v,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                json!({"panic": m})
            }
        };
        writeln!(out, "{r}").unwrap();
        out.flush().unwrap();
    }
}
