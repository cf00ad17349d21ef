//! hbh SCENARIOS.ndjson TRACES.ndjson: runs each scenario against the real hyperbee and writes what
//! happened. A dumb driver and recorder: it judges nothing (the specification does).
#[cfg(feature = "ffi")]
mod alloc;
mod codec;
mod logging;
#[cfg(feature = "ffi")]
mod ffi;
mod pipe;
mod run;
use hypercore::sim::Sim;
use run::{CurSim, Rng, Sched};
use serde_json::{json, Value};
use std::{
    collections::{hash_map::DefaultHasher, HashSet},
    hash::{Hash, Hasher},
    io::{BufRead, Write},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

#[cfg(feature = "ffi")]
#[global_allocator]
static MEMORY: alloc::Checked = alloc::Checked;

struct Slot {
    since: Arc<Mutex<Instant>>,
    idx: usize,
    cur: CurSim,
    dead: bool,
}

struct Shared {
    scs: Vec<Value>,
    next: AtomicUsize,
    done: Vec<Mutex<Option<Vec<Value>>>>,
    slots: Mutex<Vec<Slot>>,
    running: AtomicUsize,
}

fn trace(sc: &Value, idx: usize, evs: Vec<Value>, choices: Option<Vec<usize>>) -> Value {
    json!({"id": sc["id"].as_str().map(|s| s.to_string()).unwrap_or(format!("s{idx}")), "sc": idx, "choices": choices.unwrap_or_default(), "ev": evs})
}

fn run_one(sc: &Value, idx: usize, cur: &CurSim, since: &Mutex<Instant>) -> Vec<Value> {
    let tick = || *since.lock().unwrap() = Instant::now();
    let raw = sc["raw"].as_bool().unwrap_or(false);
    let ev = |c: &CurSim| run::events(&c.lock().unwrap(), raw);
    let sched = &sc["sched"];
    let _logging = (sc["log"] == true).then(|| tracing::subscriber::set_default(logging::Everything::default()));
    match sched["kind"].as_str().unwrap_or("seq") {
        "stress" => {
            run::stress(sc, cur);
            vec![trace(sc, idx, ev(cur), None)]
        }
        "rand" => {
            let mut out = vec![];
            for i in 0..sched["n"].as_u64().unwrap_or(1) {
                tick();
                let seed = sched["seed"].as_u64().unwrap_or(0).wrapping_mul(1_000_003).wrapping_add(i);
                let st = run::run(sc, cur, Sched::Random(Rng(seed)));
                out.push(trace(sc, idx, ev(cur), Some(st.at.iter().map(|x| x.2).collect())));
            }
            out
        }
        "choices" => {
            let v = sched["c"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            run::run(sc, cur, Sched::Choices(v));
            vec![trace(sc, idx, ev(cur), None)]
        }
        "explore" => {
            // every schedule with at most `preempt` preemptions, up to `max` runs
            let bound = sched["preempt"].as_u64().unwrap();
            let max = sched["max"].as_u64().unwrap();
            let mut todo: Vec<Vec<usize>> = vec![vec![]];
            let (mut out, mut seen, mut runs) = (vec![], HashSet::new(), 0);
            while let Some(prefix) = todo.pop() {
                if runs >= max {
                    break;
                }
                runs += 1;
                tick();
                let st = run::run(sc, cur, Sched::Choices(prefix.clone()));
                let evs = ev(cur);
                let mut h = DefaultHasher::new();
                json!(evs).to_string().hash(&mut h);
                if seen.insert(h.finish()) {
                    out.push(trace(sc, idx, evs, Some(st.at.iter().map(|x| x.2).collect())));
                }
                let mut pre = 0;
                for (i, (ready, current, chosen)) in st.at.iter().enumerate() {
                    if i >= prefix.len() {
                        for alt in ready {
                            let p = pre + u64::from(ready.contains(current) && alt != current);
                            if alt != chosen && p <= bound {
                                let mut v: Vec<usize> = st.at[..i].iter().map(|x| x.2).collect();
                                v.push(*alt);
                                todo.push(v);
                            }
                        }
                    }
                    pre += u64::from(ready.contains(current) && chosen != current);
                }
            }
            if let Some(t) = out.first_mut() {
                t["runs"] = json!(runs);
                t["complete"] = json!(todo.is_empty());
            }
            out
        }
        _ => {
            run::run(sc, cur, Sched::Choices(vec![]));
            vec![trace(sc, idx, ev(cur), None)]
        }
    }
}

fn worker(sh: Arc<Shared>) {
    let slot = {
        let mut s = sh.slots.lock().unwrap();
        s.push(Slot { since: Arc::new(Mutex::new(Instant::now())), idx: usize::MAX, cur: Arc::new(Mutex::new(Sim::new())), dead: false });
        s.len() - 1
    };
    loop {
        let i = sh.next.fetch_add(1, Ordering::SeqCst);
        if i >= sh.scs.len() {
            break;
        }
        let cur: CurSim = Arc::new(Mutex::new(Sim::new()));
        let since = Arc::new(Mutex::new(Instant::now()));
        {
            let mut s = sh.slots.lock().unwrap();
            s[slot].since = since.clone();
            s[slot].idx = i;
            s[slot].cur = cur.clone();
        }
        let r = run_one(&sh.scs[i], i, &cur, &since);
        let mut s = sh.slots.lock().unwrap();
        if s[slot].dead {
            return;
        }
        s[slot].idx = usize::MAX;
        *sh.done[i].lock().unwrap() = Some(r);
    }
    sh.slots.lock().unwrap()[slot].idx = usize::MAX;
    sh.running.fetch_sub(1, Ordering::SeqCst);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| ()));
    let scs: Vec<Value> = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap())
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
        .collect();
    let limit = Duration::from_secs(std::env::var("HBH_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(30));
    let n = scs.len();
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let sh = Arc::new(Shared {
        done: (0..n).map(|_| Mutex::new(None)).collect(),
        scs,
        next: AtomicUsize::new(0),
        slots: Mutex::new(vec![]),
        running: AtomicUsize::new(threads),
    });
    let spawn = |sh: &Arc<Shared>| {
        let sh = sh.clone();
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || worker(sh)).unwrap();
    };
    for _ in 0..threads {
        spawn(&sh);
    }
    let mut hung = 0;
    while sh.running.load(Ordering::SeqCst) > 0 {
        std::thread::sleep(Duration::from_millis(5));
        let mut s = sh.slots.lock().unwrap();
        let mut lost = 0;
        for x in s.iter_mut() {
            if !x.dead && x.idx != usize::MAX && x.since.lock().unwrap().elapsed() > limit {
                x.dead = true;
                lost += 1;
                let raw = sh.scs[x.idx]["raw"].as_bool().unwrap_or(false);
                let sim = x.cur.lock().unwrap().clone();
                let mut evs = run::events(&sim, raw);
                evs.push(json!({"e": "hang", "msg": "no progress"}));
                *sh.done[x.idx].lock().unwrap() = Some(vec![trace(&sh.scs[x.idx], x.idx, evs, None)]);
            }
        }
        drop(s);
        for _ in 0..lost {
            hung += 1;
            if hung > 6 {
                sh.next.store(n, Ordering::SeqCst);
                sh.running.fetch_sub(1, Ordering::SeqCst);
            } else {
                spawn(&sh);
            }
        }
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for d in &sh.done {
        if let Some(v) = d.lock().unwrap().take() {
            for t in v {
                writeln!(f, "{t}").unwrap();
            }
        }
    }
    f.flush().unwrap();
    std::process::exit(0);
}
