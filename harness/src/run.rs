//! Runs one scenario against the real code and records what happened.
use crate::codec::*;
#[cfg(feature = "ffi")]
use crate::ffi;
use futures_lite::{Stream, StreamExt};
use hyperbee::{
    prefixed::{Prefixed, PrefixedConfig, PrefixedConfigBuilder},
    traverse::{KeyDataResult, LimitValue, TraverseConfig, TraverseConfigBuilder},
    Hyperbee, HyperbeeError, KeyValueData, Metadata,
};
use hypercore::{
    sim::{self, AppendFault, Event, Sim},
    Hypercore,
};
use serde_json::{json, Value};
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashMap},
    future::{poll_fn, Future},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    pin::{pin, Pin},
    rc::Rc,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll, Wake, Waker},
};

pub type Items = Pin<Box<dyn Stream<Item = KeyDataResult>>>;

/// Whether a client asked to be polled. Each poll gets a waker of its own, and only the latest one
/// counts: who waits must wake the waker it was polled with last.
pub struct Flag {
    ready: AtomicBool,
    poll: AtomicU64,
}
impl Flag {
    fn new() -> Arc<Self> {
        Arc::new(Flag { ready: AtomicBool::new(true), poll: AtomicU64::new(0) })
    }
    fn is_ready(&self) -> bool {
        self.ready.load(Ordering::SeqCst)
    }
    fn next_poll(self: &Arc<Self>) -> Waker {
        let poll = self.poll.fetch_add(1, Ordering::SeqCst) + 1;
        self.ready.store(false, Ordering::SeqCst);
        Arc::new(OnePoll { flag: self.clone(), poll }).into()
    }
}
struct OnePoll {
    flag: Arc<Flag>,
    poll: u64,
}
impl Wake for OnePoll {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if self.flag.poll.load(Ordering::SeqCst) == self.poll {
            self.flag.ready.store(true, Ordering::SeqCst)
        }
    }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

/// The current simulated log, where all marks go. Shared with the watchdog.
pub type CurSim = Arc<Mutex<Sim>>;

struct World {
    cur: CurSim,
    w: RefCell<Option<&'static Hyperbee>>,
    rsim: Sim,
    r: &'static Hyperbee,
    dir: Option<PathBuf>,
    streams: RefCell<BTreeMap<u64, Items>>,
    /// Subs that were made before: most are used again and again, as users do.
    subs: RefCell<BTreeMap<String, &'static Prefixed>>,
    /// How often the process was killed; what was under way before is gone.
    kills: Cell<u64>,
    /// The blocks there from the start: losing some would not leave a log that a store has written.
    floor: u64,
    /// Clients to be woken when that happens.
    wakers: RefCell<BTreeMap<u64, Waker>>,
    /// Where the connections between stores run; only while the harness lets them.
    net: RefCell<Option<tokio::runtime::Runtime>>,
    #[cfg(feature = "ffi")]
    u: RefCell<Option<ffi::Bee>>,
    #[cfg(feature = "ffi")]
    usubs: ffi::Subs,
    #[cfg(feature = "ffi")]
    c: RefCell<Option<(ffi::CBee, Sim)>>,
}

impl World {
    fn sim(&self) -> Sim {
        self.cur.lock().unwrap().clone()
    }
    fn mark(&self, v: Value) {
        self.sim().mark(v.to_string())
    }
    fn handle(&self, h: &str) -> &'static Hyperbee {
        if h == "r" {
            self.r
        } else {
            self.w.borrow().unwrap()
        }
    }
    /// Replace the current log by `new`, keeping the record.
    fn replace_sim(&self, new: Sim) {
        let old = self.sim();
        let ev = std::mem::take(&mut old.state().events);
        {
            let mut st = new.state();
            let mut all = ev;
            all.append(&mut st.events);
            st.events = all;
            st.record = true;
        }
        old.state().record = false;
        *self.cur.lock().unwrap() = new;
    }
}

fn block_on<F: Future>(f: F) -> F::Output {
    let flag = Flag::new();
    let mut f = pin!(f);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&flag.next_poll())) {
            return x;
        }
    }
}

fn kv(d: &KeyValueData) -> Value {
    json!([d.seq, d.key, opt(d.value.clone())])
}
fn opt_u(x: Option<u64>) -> Value {
    opt(x)
}
pub fn kind(e: &HyperbeeError) -> String {
    format!("{e:?}").chars().take_while(|c| c.is_alphanumeric()).collect()
}
fn err(e: HyperbeeError) -> Value {
    json!({"ok": false, "err": kind(&e)})
}
fn ok(v: Value) -> Value {
    json!({"ok": true, "r": v})
}
fn item(r: KeyDataResult) -> Value {
    match r {
        Ok(d) => json!({"ok": true, "s": d.seq, "k": d.key, "v": opt(d.value)}),
        Err(e) => json!({"ok": false, "err": kind(&e)}),
    }
}
fn limit(v: &Value) -> LimitValue {
    match v["t"].as_str().unwrap() {
        // the infinities' type is private to the crate: take them from a default configuration
        "neg" => TraverseConfig::default().min_value,
        "pos" => TraverseConfig::default().max_value,
        _ => LimitValue::Finite(bytes(&v["k"])),
    }
}
fn limit_json(l: &LimitValue) -> Value {
    match l {
        LimitValue::Finite(k) => json!({"t": "fin", "k": k}),
        LimitValue::Infinite(_) => {
            let neg = format!("{l:?}").contains("Negative");
            json!({"t": if neg { "neg" } else { "pos" }, "k": []})
        }
    }
}
pub fn conf(v: &Value) -> TraverseConfig {
    let mut c = TraverseConfig::default();
    c.min_value = limit(&v["min"]);
    c.min_inclusive = v["mini"].as_bool().unwrap();
    c.max_value = limit(&v["max"]);
    c.max_inclusive = v["maxi"].as_bool().unwrap();
    c.reversed = v["rev"].as_bool().unwrap();
    c
}
fn build_conf(op: &Value) -> Value {
    let mut b = TraverseConfigBuilder::default();
    let one = |f: &str| op[f].as_array().and_then(|a| a.first()).cloned();
    if let Some(x) = one("min") {
        b.min_value(limit(&x));
    }
    if let Some(x) = one("max") {
        b.max_value(limit(&x));
    }
    if let Some(x) = one("mini") {
        b.min_inclusive(x.as_bool().unwrap());
    }
    if let Some(x) = one("maxi") {
        b.max_inclusive(x.as_bool().unwrap());
    }
    if let Some(x) = one("rev") {
        b.reversed(x.as_bool().unwrap());
    }
    let c = if op["how"] == "default" { Ok(TraverseConfig::default()) } else { b.build() };
    match c {
        Ok(c) => ok(json!({"min": limit_json(&c.min_value), "mini": c.min_inclusive,
            "max": limit_json(&c.max_value), "maxi": c.max_inclusive, "rev": c.reversed})),
        Err(_) => json!({"ok": false, "err": "TraverseConfigBuilderError"}),
    }
}

/// How a limit compares with a key, by every operator, in both directions where there are two.
#[cfg(feature = "ord")]
fn compare(op: &Value) -> Value {
    macro_rules! rel {
        ($a:expr, $b:expr) => {{
            let cmp = match $a.partial_cmp($b) {
                None => "none",
                Some(std::cmp::Ordering::Less) => "lt",
                Some(std::cmp::Ordering::Equal) => "eq",
                Some(std::cmp::Ordering::Greater) => "gt",
            };
            json!({"cmp": cmp, "lt": $a < $b, "le": $a <= $b, "gt": $a > $b, "ge": $a >= $b, "eq": $a == $b, "ne": $a != $b})
        }};
    }
    let k = bytes(&op["k"]);
    let k: &[u8] = &k;
    if op["num"].is_u64() {
        let l = LimitValue::from(op["num"].as_u64().unwrap() as usize);
        return ok(json!({"fwd": [rel!(&l, k)], "back": []}));
    }
    let l = limit(&op["lim"]);
    let mut fwd = vec![rel!(&l, k)];
    let mut back = vec![];
    if let LimitValue::Infinite(i) = &l {
        fwd.push(rel!(i, k));
        back.push(rel!(k, i));
    }
    ok(json!({"fwd": fwd, "back": back}))
}

fn sub_of(w: &World, hb: &'static Hyperbee, op: &Value) -> Option<&'static Prefixed> {
    let s = op["sub"].as_array()?.first()?;
    let name = format!("{:p} {} {s}", hb, sim::client());
    if op["anew"] != true {
        if let Some(p) = w.subs.borrow().get(&name) {
            return Some(p);
        }
    }
    let sep = bytes(&s[1]);
    let conf = match s[2].as_u64() {
        // the default separator, in two ways
        Some(1) => PrefixedConfig::default(),
        Some(2) => PrefixedConfigBuilder::default().build().unwrap(),
        Some(_) => PrefixedConfigBuilder::default().seperator(sep).build().unwrap(),
        None => PrefixedConfig { seperator: sep },
    };
    let p: &'static Prefixed = Box::leak(Box::new(hb.sub(&bytes(&s[0]), conf)));
    w.subs.borrow_mut().insert(name, p);
    Some(p)
}

async fn open(w: &World, hb: &'static Hyperbee, op: &Value) -> Result<Items, HyperbeeError> {
    let c = conf(&op["conf"]);
    Ok(match sub_of(w, hb, op) {
        None => Box::pin(hb.traverse(c).await?),
        Some(s) => {
            let c: &'static TraverseConfig = Box::leak(Box::new(c));
            Box::pin(s.traverse(c).await?)
        }
    })
}

/// Calls through the interfaces for other languages.
#[cfg(feature = "ffi")]
async fn exec_foreign(w: &World, h: &str, op: &Value) -> Value {
    let dir = w.dir.clone();
    if op["n"] == "open" {
        // a further name of the directory
        let alias = |name: &[u8]| {
            let p = dir.as_ref().unwrap().join::<&std::ffi::OsStr>(std::os::unix::ffi::OsStrExt::from_bytes(name));
            let _ = std::os::unix::fs::symlink(".", &p);
            p
        };
        let path = match op["how"].as_str().unwrap() {
            "dir" => dir.clone(),
            // "file": a directory below a file, which cannot be
            "file" => {
                let d = dir.clone().unwrap();
                std::fs::write(d.join("plain"), b"x").unwrap();
                Some(d.join("plain/x"))
            }
            "alias" => Some(alias("a b \u{fc}\u{4e2d}".as_bytes())),
            // a name that is no text
            "bytes" => Some(alias(b"a\xff\xfeb")),
            _ => None,
        };
        let opened = if h == "c" {
            match ffi::CBee::open(path.as_ref().map(|p| p.as_os_str())) {
                None => false,
                Some(b) => {
                    let s = sim::last_created().unwrap();
                    *w.c.borrow_mut() = Some((b, s));
                    true
                }
            }
        } else {
            match ffi::Bee::from_storage_dir(&path.unwrap().to_string_lossy()).await {
                Ok(_) => true,
                Err(ffi::Failed::Error(_)) => false,
                Err(ffi::Failed::Panic(m)) => panic!("{m}"),
            }
        };
        return if opened { ok(json!([])) } else { json!({"ok": false, "err": "open"}) };
    }
    if h == "u" {
        let bee = w.u.borrow().unwrap();
        return match ffi::exec(bee, op, &w.usubs).await {
            Ok(v) => ok(v),
            Err(ffi::Failed::Error(_)) => json!({"ok": false, "err": "ffi"}),
            Err(ffi::Failed::Panic(m)) => panic!("{m}"),
        };
    }
    let c = w.c.borrow();
    let (bee, s) = c.as_ref().unwrap();
    let before = s.state().get_fault;
    if op["fault"].is_u64() {
        s.state().get_fault = op["fault"].as_u64();
    }
    let r = if op["n"] == "getm" {
        bee.get_many(&op["ks"].as_array().unwrap().iter().map(bytes).collect::<Vec<_>>())
    } else {
        bee.get(&bytes(&op["k"]), op["null"] == true)
    };
    if op["fault"].is_u64() && s.state().get_fault.is_none() {
        w.mark(json!({"e": "gfail", "c": sim::client()}));
    }
    s.state().get_fault = before;
    r
}

async fn exec(w: &World, h: &str, op: &Value) -> Value {
    #[cfg(feature = "ffi")]
    if h == "u" || h == "c" {
        return exec_foreign(w, h, op).await;
    }
    let hb = w.handle(h);
    let n = op["n"].as_str().unwrap();
    let k = bytes(&op["k"]);
    let v = opt_bytes(&op["v"]);
    let v = v.as_deref();
    let sub = sub_of(w, hb, op);
    let ans = op["ans"].as_bool().unwrap_or(true);
    let put_cas = |old: Option<&KeyValueData>, new: &KeyValueData| {
        let c = sim::client();
        w.mark(json!({"e": "cas", "c": c, "old": opt(old.map(kv)), "new": [kv(new)], "ans": ans}));
        ans
    };
    let del_cas = |old: &KeyValueData| {
        let c = sim::client();
        w.mark(json!({"e": "cas", "c": c, "old": [kv(old)], "new": [], "ans": ans}));
        ans
    };
    match n {
        "get" => match match &sub {
            None => hb.get(&k).await,
            Some(s) => s.get(&k).await,
        } {
            Ok(r) => ok(match r {
                None => json!([]),
                Some((s, v)) => json!([[s, opt(v)]]),
            }),
            Err(e) => err(e),
        },
        "put" => match match &sub {
            None => hb.put(&k, v).await,
            Some(s) => s.put(&k, v).await,
        } {
            Ok((o, s)) => ok(json!({"old": opt_u(o), "new": s})),
            Err(e) => err(e),
        },
        "cput" => match match &sub {
            None => hb.put_compare_and_swap(&k, v, put_cas).await,
            Some(s) => s.put_compare_and_swap(&k, v, put_cas).await,
        } {
            Ok((o, s)) => ok(json!({"old": opt_u(o), "new": opt_u(s)})),
            Err(e) => err(e),
        },
        "del" => match match &sub {
            None => hb.del(&k).await,
            Some(s) => s.del(&k).await,
        } {
            Ok(o) => ok(opt_u(o)),
            Err(e) => err(e),
        },
        "cdel" => match match &sub {
            None => hb.del_compare_and_swap(&k, del_cas).await,
            Some(s) => s.del_compare_and_swap(&k, del_cas).await,
        } {
            Ok(o) => ok(match o {
                None => json!([]),
                Some((b, s)) => json!([[b, s]]),
            }),
            Err(e) => err(e),
        },
        "hdr" => {
            let meta = op["meta"].as_array().unwrap().first().map(|m| Metadata { content_feed: opt_bytes(&m["cf"]), user_data: opt_bytes(&m["ud"]) });
            match hb.create_header(meta).await {
                Ok(o) => ok(json!({"len": o.length})),
                Err(e) => err(e),
            }
        }
        "ver" => ok(json!(hb.version().await)),
        "height" => match hb.height().await {
            Ok(x) => ok(json!(x)),
            Err(e) => err(e),
        },
        "print" => match hb.print().await {
            Ok(x) => ok(json!(x.as_bytes())),
            Err(e) => err(e),
        },
        "dbg" => {
            let n = format!("{hb:?}").len().min(format!("{hb:#?}").len());
            ok(json!(n > 0 && sub.map_or(true, |s| !format!("{s:?}").is_empty())))
        }
        "tcfg" => build_conf(op),
        #[cfg(feature = "ord")]
        "lcmp" => compare(op),
        "tall" => match open(w, hb, op).await {
            Err(e) => err(e),
            Ok(mut s) => {
                let lim = op["lim"].as_u64().unwrap_or(0);
                let (mut items, mut end) = (vec![], false);
                loop {
                    if lim > 0 && items.len() as u64 == lim {
                        break;
                    }
                    match s.next().await {
                        None => {
                            end = true;
                            break;
                        }
                        Some(x) => items.push(item(x)),
                    }
                    if items.len() > 5000 {
                        break;
                    }
                }
                ok(json!({"items": items, "end": end}))
            }
        },
        "topen" => match open(w, hb, op).await {
            Err(e) => err(e),
            Ok(s) => {
                w.streams.borrow_mut().insert(op["s"].as_u64().unwrap(), s);
                ok(json!([]))
            }
        },
        "tnext" => {
            let id = op["s"].as_u64().unwrap();
            let r = poll_fn(|cx| match w.streams.borrow_mut().get_mut(&id) {
                None => Poll::Ready(None),
                Some(s) => s.as_mut().poll_next(cx).map(Some),
            })
            .await;
            match r {
                None => json!({"skip": true}),
                Some(None) => {
                    w.streams.borrow_mut().remove(&id);
                    ok(json!({"it": []}))
                }
                Some(Some(Ok(d))) => ok(json!({"it": [{"s": d.seq, "k": d.key, "v": opt(d.value)}]})),
                Some(Some(Err(e))) => err(e),
            }
        }
        _ => panic!("unknown op {n}"),
    }
}

fn control(w: &World, op: &Value, cancel: &mut Option<u64>) {
    let sim = w.sim();
    match op["n"].as_str().unwrap() {
        "x_afault" => {
            let k = if op["kind"] == "after" { AppendFault::After } else { AppendFault::Before };
            sim.state().append_fault = Some((op["at"].as_u64().unwrap(), k));
        }
        "x_gfault" => sim.state().get_fault = Some(op["at"].as_u64().unwrap()),
        "x_nofault" => {
            let mut s = sim.state();
            s.get_fault = None;
            s.append_fault = None;
        }
        "x_cancel" => *cancel = Some(op["polls"].as_u64().unwrap()),
        "x_reopen" | "x_crash" => {
            w.kills.set(w.kills.get() + 1);
            for (_, k) in std::mem::take(&mut *w.wakers.borrow_mut()) {
                k.wake();
            }
            w.streams.borrow_mut().clear();
            let len = sim.len() - op["drop"].as_u64().unwrap_or(0).min(sim.len() - w.floor);
            w.mark(json!({"e": "crash", "len": len}));
            let hb = match &w.dir {
                Some(d) => {
                    // keep the first `len` records and, if asked, part of the next one
                    let f = d.join("blocks");
                    let b = std::fs::read(&f).unwrap_or_default();
                    let mut i = 0;
                    for _ in 0..len {
                        i += 4 + u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize;
                    }
                    let torn = op["torn"].as_u64().unwrap_or(0) as usize;
                    let keep = if i < b.len() {
                        let rec = 4 + u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize;
                        i + torn.min(rec - 1)
                    } else {
                        i
                    };
                    let _ = std::fs::write(&f, &b[..keep]);
                    #[cfg(feature = "ffi")]
                    let foreign = w.u.borrow().is_some();
                    #[cfg(not(feature = "ffi"))]
                    let foreign = false;
                    if foreign {
                        #[cfg(feature = "ffi")]
                        {
                            *w.u.borrow_mut() = block_on(ffi::Bee::from_storage_dir(&d.to_string_lossy())).ok();
                        }
                        let s = sim::last_created().unwrap_or_else(|| sim.clone());
                        w.replace_sim(s.clone());
                        Hyperbee::from_hypercore(Hypercore::from_sim(&s)).expect("reopen")
                    } else {
                        let hb = block_on(Hyperbee::from_storage_dir(d)).expect("reopen");
                        w.replace_sim(sim::last_created().unwrap_or_else(|| sim.clone()));
                        hb
                    }
                }
                None => {
                    let blocks = sim.state().blocks[..len as usize].to_vec();
                    let new = Sim::from_blocks(blocks, true);
                    w.replace_sim(new.clone());
                    Hyperbee::from_hypercore(Hypercore::from_sim(&new)).expect("reopen")
                }
            };
            *w.w.borrow_mut() = Some(Box::leak(Box::new(hb)));
        }
        // a second handle over the same core takes over (its cache is cold)
        "x_fresh" => {
            let hb = Hyperbee::from_hypercore(Hypercore::from_sim(&sim)).expect("fresh handle");
            *w.w.borrow_mut() = Some(Box::leak(Box::new(hb)));
        }
        "x_rlen" => {
            let len = op["len"].as_u64().unwrap().min(sim.len());
            w.rsim.set_len(len);
            w.mark(json!({"e": "rlen", "len": len}));
        }
        "x_fill" => {
            let i = op["i"].as_u64().unwrap();
            if let (Some(b), true) = (sim.raw(i), i < w.rsim.len()) {
                w.rsim.fill(i, b);
                w.mark(json!({"e": "fill", "i": i}));
            }
        }
        // the store opened through the C interface lacks a block from now on
        #[cfg(feature = "ffi")]
        "x_clost" => {
            if let Some((_, s)) = &*w.c.borrow() {
                let n = s.len();
                if n > 1 {
                    let i = 1 + op["i"].as_u64().unwrap() % (n - 1);
                    s.state().blocks[i as usize] = None;
                    w.mark(json!({"e": "corrupt", "i": i}));
                }
            }
        }
        // the replica is given a block with other contents
        "x_raw" => {
            let i = op["i"].as_u64().unwrap();
            if let (Some(b), true) = (sim.raw(i), i < w.rsim.len()) {
                w.rsim.fill(i, damage(&b, op["how"].as_str().unwrap()));
                w.mark(json!({"e": "unfill", "i": i}));
            }
        }
        // the replica learns of the writer's log up to `lag` blocks before its end, and gets all
        // blocks of it except the last `miss`
        "x_follow" => {
            let have = |i| w.rsim.raw(i).is_some();
            let len = (sim.len().saturating_sub(op["lag"].as_u64().unwrap_or(0))).max(w.rsim.len());
            if len > w.rsim.len() {
                w.rsim.set_len(len);
                w.mark(json!({"e": "rlen", "len": len}));
            }
            for i in 0..len.saturating_sub(op["miss"].as_u64().unwrap_or(0)) {
                if let (Some(b), false) = (sim.raw(i), have(i)) {
                    w.rsim.fill(i, b);
                    w.mark(json!({"e": "fill", "i": i}));
                }
            }
        }
        // connect the writer and the replica
        "x_link" => {
            let (a, b) = crate::pipe::pair(op["room"].as_u64().unwrap_or(64) as usize);
            let first = op["initiator"].as_bool().unwrap();
            let mut net = w.net.borrow_mut();
            let rt = net.get_or_insert_with(|| tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap());
            let (hw, hr) = (w.handle("w"), w.handle("r"));
            sim::set_yields(false);
            // one of the ends may be a peer that uses the replicator by itself
            let peer = op["peer"].as_str().unwrap_or("");
            let linked = rt.block_on(async {
                let mut ends = vec![("w", hw, sim.clone(), a, first), ("r", hr, w.rsim.clone(), b, !first)];
                if op["replica_first"] == true {
                    ends.reverse();
                }
                let mut ok = true;
                for (name, hb, s, stream, role) in ends {
                    if name == peer {
                        replicator::ReplicatingCore::from(Hypercore::from_sim(&s)).add_stream(stream, role).await;
                    } else {
                        ok &= hb.add_stream(stream, role).await.is_ok();
                    }
                }
                ok
            });
            w.mark(json!({"e": "linked", "ok": linked}));
        }
        // let the connections deliver what there is
        "x_settle" => {
            if let Some(rt) = &*w.net.borrow() {
                sim::set_yields(false);
                rt.block_on(async {
                    for _ in 0..20 {
                        for _ in 0..200 {
                            tokio::task::yield_now().await;
                        }
                        if w.rsim.len() == sim.len() && (0..sim.len()).all(|i| w.rsim.raw(i).is_some()) {
                            break;
                        }
                    }
                });
                let have = (0..w.rsim.len()).filter(|i| w.rsim.raw(*i).is_some()).collect::<Vec<_>>();
                w.mark(json!({"e": "settled", "len": w.rsim.len(), "have": have}));
            }
        }
        "x_evict" => {
            let i = op["i"].as_u64().unwrap();
            if i < w.rsim.len() {
                w.rsim.evict(i);
                w.mark(json!({"e": "unfill", "i": i}));
            }
        }
        // a block of the writer's log is damaged or lost, and a new handle opened
        "x_corrupt" => {
            let back = op["back"].as_u64().unwrap();
            if back < sim.len() {
                let i = (sim.len() - 1 - back) as usize;
                let how = op["how"].as_str().unwrap();
                let b = sim.raw(i as u64);
                sim.state().blocks[i] = if how == "lost" { None } else { b.map(|b| damage(&b, how)) };
                w.mark(json!({"e": "corrupt", "i": i}));
                #[cfg(feature = "ffi")]
                let sim = if w.u.borrow().is_some() {
                    *w.u.borrow_mut() = block_on(ffi::Bee::from_ram()).ok();
                    let s = sim::last_created().unwrap();
                    s.state().blocks = sim.state().blocks.clone();
                    w.replace_sim(s.clone());
                    s
                } else {
                    sim
                };
                let hb = Hyperbee::from_hypercore(Hypercore::from_sim(&sim)).expect("fresh handle");
                *w.w.borrow_mut() = Some(Box::leak(Box::new(hb)));
            }
        }
        x => panic!("unknown control op {x}"),
    }
}

async fn client(w: Rc<World>, c: u64, h: String, ops: Vec<Value>) {
    let mut cancel: Option<u64> = None;
    for op in &ops {
        // connections to peers that are gone at once
        if op["n"] == "x_attach" {
            static RT: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
            let rt = RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap());
            for i in 0..op["n_times"].as_u64().unwrap_or(1) {
                let (a, _) = crate::pipe::pair(64);
                let hb = w.handle(&h);
                let mut f = Box::pin(async move { hb.add_stream(a, i % 2 == 0).await.is_ok() });
                let ok = poll_fn(|cx| {
                    let _g = rt.enter();
                    f.as_mut().poll(cx)
                })
                .await;
                if !ok {
                    w.mark(json!({"e": "panic", "c": c, "msg": "add_stream failed"}));
                }
            }
            continue;
        }
        if op["n"].as_str().unwrap().starts_with("x_") {
            control(&w, op, &mut cancel);
            continue;
        }
        if op["n"] == "tnext" && !w.streams.borrow().contains_key(&op["s"].as_u64().unwrap()) {
            continue;
        }
        w.mark(json!({"e": "call", "c": c, "h": h, "op": op}));
        let res = {
            let mut f = Box::pin(exec(&w, &h, op));
            let mut left = cancel.take();
            let born = w.kills.get();
            poll_fn(|cx| {
                if w.kills.get() != born {
                    return Poll::Ready(Some(json!({"killed": true})));
                }
                match f.as_mut().poll(cx) {
                    Poll::Ready(v) => Poll::Ready(Some(v)),
                    Poll::Pending => match &mut left {
                        Some(0) => Poll::Ready(None),
                        Some(n) => {
                            *n -= 1;
                            w.wakers.borrow_mut().insert(c, cx.waker().clone());
                            Poll::Pending
                        }
                        None => {
                            w.wakers.borrow_mut().insert(c, cx.waker().clone());
                            Poll::Pending
                        }
                    },
                }
            })
            .await
        };
        match res {
            None => {
                // A traversal whose pending step is given up goes with it: left alive it would stay
                // suspended in the middle of that step, with whatever it holds or waits for.
                if op["n"] == "tnext" {
                    w.streams.borrow_mut().remove(&op["s"].as_u64().unwrap());
                }
                w.mark(json!({"e": "cancel", "c": c}))
            }
            Some(v) if v["killed"] == true => (),
            Some(v) if v["e"].is_string() => w.mark(v),
            Some(v) => {
                let mut m = json!({"e": "ret", "c": c});
                for (k, x) in v.as_object().unwrap() {
                    m[k] = x.clone();
                }
                w.mark(m);
            }
        }
    }
}

/// How the scheduler picks among the clients that can run.
pub enum Sched {
    /// Follow these choices, then run the current client as long as it can.
    Choices(Vec<usize>),
    Random(Rng),
}

#[derive(Default)]
pub struct Steps {
    /// Per scheduling decision with alternatives: (runnable clients, current client, chosen client)
    pub at: Vec<(Vec<usize>, usize, usize)>,
}

const BUDGET: u64 = 400_000;
/// In a schedule, SPURIOUS + i: client i is polled though it did not ask for it.
const SPURIOUS: usize = 1000;
/// A client that was polled this often in a row without any visible effect is waiting (some of the
/// code polls again and again while it waits for a lock): let another one run.
const PATIENCE: u64 = 40;

/// For the specification, whose numbers are small: where the gap is, and the digits of its width to
/// the base 128, the least first.
fn gap_digits((at, n): (u64, u64)) -> Value {
    let digits = |mut n: u64| {
        let mut d = vec![];
        while n > 0 {
            d.push(n % 128);
            n /= 128;
        }
        d
    };
    json!({"at": at, "n": digits(n)})
}

/// The block with the numbers it has when there is a gap.
fn widened(b: &Value, gap: &Value) -> Value {
    let mut b = b.clone();
    let Some(g) = gap.as_array() else {
        return b;
    };
    let (at, n) = (g[0].as_u64().unwrap(), g[1].as_u64().unwrap());
    let shift = |x: &mut Value| {
        let s = x.as_u64().unwrap();
        *x = json!(if s >= at { s + n } else { s });
    };
    for l in b["idx"].as_array_mut().into_iter().flatten() {
        l["k"].as_array_mut().unwrap().iter_mut().for_each(shift);
        l["c"].as_array_mut().unwrap().iter_mut().for_each(|c| shift(&mut c[0]));
    }
    b
}

/// The events with the numbers they have when the gap is left out.
fn narrowed(evs: &mut [Value], gap: (u64, u64)) {
    let shift = |x: &mut Value| {
        if let Some(s) = x.as_u64() {
            *x = json!(without(gap, s));
        }
    };
    let each = |x: &mut Value, i: Option<usize>| {
        for y in x.as_array_mut().into_iter().flatten() {
            shift(match i {
                None => y,
                Some(i) => &mut y[i],
            });
        }
    };
    let mut ops = HashMap::new();
    for e in evs {
        let c = e["c"].as_u64().unwrap_or(0);
        match e["e"].as_str().unwrap() {
            "call" => {
                ops.insert(c, e["op"]["n"].as_str().unwrap().to_string());
            }
            "app" => shift(&mut e["i"]),
            "cas" => {
                each(&mut e["old"], Some(0));
                each(&mut e["new"], Some(0));
            }
            "ret" if e["ok"] == true => {
                let r = &mut e["r"];
                match ops[&c].as_str() {
                    "get" => each(r, Some(0)),
                    "put" => {
                        each(&mut r["old"], None);
                        shift(&mut r["new"]);
                    }
                    "cput" => {
                        each(&mut r["old"], None);
                        each(&mut r["new"], None);
                    }
                    "del" => each(r, None),
                    "cdel" => each(r, Some(1)),
                    "hdr" => shift(&mut r["len"]),
                    "ver" => shift(r),
                    "tall" => r["items"].as_array_mut().into_iter().flatten().filter_map(|i| i.get_mut("s")).for_each(shift),
                    "tnext" => r["it"].as_array_mut().into_iter().flatten().filter_map(|i| i.get_mut("s")).for_each(shift),
                    _ => (),
                }
            }
            _ => (),
        }
    }
}

pub fn prepare(sc: &Value, cur: &CurSim) -> Rc<PreparedWorld> {
    let init = &sc["init"];
    let blocks: Vec<Vec<u8>> = if init["shape"].as_array().is_some_and(|a| !a.is_empty()) {
        log_of_shape(&init["shape"][0], init["style"].as_str().unwrap())
    } else {
        let mut b: Vec<Vec<u8>> = init["blocks"].as_array().map(|a| a.iter().map(|b| block_of_json(&widened(b, &init["gap"]))).collect()).unwrap_or_default();
        if let Some(p) = init["pad"].as_array() {      // p[1] entries without nodes after the first p[0] blocks
            let blank = block_of_json(&json!({"h": false, "key": [], "val": [], "idx": []}));
            let at = p[0].as_u64().unwrap() as usize;
            b.splice(at..at, std::iter::repeat(blank).take(p[1].as_u64().unwrap() as usize));
        }
        b
    };
    // a gap that is too wide to be filled: the log behaves as if it were
    let gap = init["gap"].as_array().map_or((0, 0), |g| (g[0].as_u64().unwrap(), g[1].as_u64().unwrap()));
    let via = sc["via"].as_str().unwrap_or("sim");
    let via = if via == "newdir" && !blocks.is_empty() { "disk" } else { via };
    let dir = (via == "disk" || via == "udisk" || via == "newdir").then(|| {
        let d = scratch();
        if via == "newdir" {        // which does not exist yet, nor does what it is in
            return d.join("a").join("b c").join("d");
        }
        std::fs::create_dir_all(&d).unwrap();
        let mut f = vec![];
        for b in &blocks {
            f.extend((b.len() as u32).to_le_bytes());
            f.extend(b);
        }
        if !f.is_empty() {
            std::fs::write(d.join("blocks"), f).unwrap();
        }
        d
    });
    let n_blocks = blocks.len();
    #[cfg(feature = "ffi")]
    let mut bee = None;
    let (hb, s) = match via {
        #[cfg(feature = "ffi")]
        "udisk" | "uram" => {
            let b = block_on(async {
                match &dir {
                    Some(d) => ffi::Bee::from_storage_dir(&d.to_string_lossy()).await,
                    None => ffi::Bee::from_ram().await,
                }
            });
            bee = b.ok();
            let s = sim::last_created().unwrap();
            (Hyperbee::from_hypercore(Hypercore::from_sim(&s)).unwrap(), s)
        }
        "ram" => {
            let hb = block_on(Hyperbee::from_ram()).expect("from_ram");
            (hb, sim::last_created().unwrap())
        }
        "disk" | "newdir" => {
            let hb = block_on(Hyperbee::from_storage_dir(dir.as_ref().unwrap())).expect("from_storage_dir");
            (hb, sim::last_created().unwrap())
        }
        _ => {
            let s = Sim::from_blocks(blocks.into_iter().map(Some).collect(), true);
            s.state().gap = gap;
            (Hyperbee::from_hypercore(Hypercore::from_sim(&s)).unwrap(), s)
        }
    };
    s.state().record = true;
    *cur.lock().unwrap() = s;
    let rsim = Sim::from_blocks(vec![], false);
    let r: &'static Hyperbee = Box::leak(Box::new(Hyperbee::from_hypercore(Hypercore::from_sim(&rsim)).unwrap()));
    let w = World {
        cur: cur.clone(),
        w: RefCell::new(Some(Box::leak(Box::new(hb)))),
        rsim,
        r,
        dir,
        streams: Default::default(),
        subs: Default::default(),
        #[cfg(feature = "ffi")]
        usubs: Default::default(),
        kills: Cell::new(0),
        floor: n_blocks as u64,
        wakers: Default::default(),
        net: Default::default(),
        #[cfg(feature = "ffi")]
        u: RefCell::new(bee),
        #[cfg(feature = "ffi")]
        c: Default::default(),
    };
    if n_blocks > 0 {
        let shape = init["shape"].as_array().cloned().unwrap_or_default();
        let blocks = if shape.is_empty() { init["blocks"].clone() } else { json!([]) };
        let pad = if init["pad"].is_array() { init["pad"].clone() } else { json!([0, 0]) };
        w.mark(json!({"e": "init", "shape": shape, "style": init["style"].as_str().unwrap_or(""), "blocks": blocks, "pad": pad, "gap": gap_digits(gap)}));
    }
    Rc::new(PreparedWorld(Rc::new(w)))
}
pub struct PreparedWorld(Rc<World>);
impl Drop for PreparedWorld {
    fn drop(&mut self) {
        if let Some(d) = &self.0.dir {
            let base = std::env::var("HBH_SCRATCH").expect("HBH_SCRATCH names a scratch directory");
            let top = d.ancestors().find(|a| a.parent() == Some(std::path::Path::new(&base)));
            let _ = std::fs::remove_dir_all(top.expect("inside the scratch directory"));
        }
    }
}

fn scratch() -> PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    let base = std::env::var("HBH_SCRATCH").expect("HBH_SCRATCH names a scratch directory");
    PathBuf::from(base).join(format!("d{}", N.fetch_add(1, Ordering::SeqCst)))
}

pub fn run(sc: &Value, cur: &CurSim, mut sched: Sched) -> Steps {
    let pw = prepare(sc, cur);
    let w = pw.0.clone();
    sim::set_yields(sc["yields"].as_bool().unwrap_or(false));
    struct Task {
        f: Option<Pin<Box<dyn Future<Output = ()>>>>,
        flag: Arc<Flag>,
    }
    let mut tasks: Vec<Task> = sc["clients"]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(i, c)| Task {
            f: Some(Box::pin(client(
                w.clone(),
                i as u64 + 1,
                c["h"].as_str().unwrap_or("w").to_string(),
                c["ops"].as_array().unwrap().clone(),
            ))),
            flag: Flag::new(),
        })
        .collect();
    let spurious = sc["spurious"].as_bool().unwrap_or(false);
    let mut steps = Steps::default();
    let mut current = 0;
    let mut polls = 0;
    let (mut in_vain, mut seen) = (0, 0);
    loop {
        let ready: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].f.is_some() && tasks[*i].flag.is_ready()).collect();
        if ready.is_empty() {
            if tasks.iter().any(|t| t.f.is_some()) {
                w.mark(json!({"e": "hang", "msg": "no client can run"}));
            }
            break;
        }
        polls += 1;
        if polls > BUDGET {
            w.mark(json!({"e": "hang", "msg": "poll budget exhausted"}));
            break;
        }
        let effects = {
            let s = w.sim();
            let n = s.state().events.len();
            n
        };
        in_vain = if effects == seen { in_vain + 1 } else { 0 };
        seen = effects;
        if in_vain > PATIENCE && ready.len() > 1 {
            in_vain = 0;
            let next = ready.iter().copied().find(|i| *i > current).unwrap_or(ready[0]);
            current = if next == current { ready[(ready.iter().position(|i| *i == current).unwrap() + 1) % ready.len()] } else { next };
        }
        let default = if ready.contains(&current) { current } else { ready[0] };
        let mut pick = if ready.len() == 1 {
            ready[0]
        } else {
            let p = match &mut sched {
                Sched::Choices(v) => match v.get(steps.at.len()) {
                    Some(c) if ready.contains(c) => *c,
                    _ => default,
                },
                Sched::Random(r) => {
                    if r.below(3) > 0 {
                        ready[r.below(ready.len() as u64) as usize]
                    } else {
                        default
                    }
                }
            };
            steps.at.push((ready.clone(), current, p));
            p
        };
        if let (true, Sched::Random(r)) = (spurious && pick < tasks.len(), &mut sched) {
            // poll a client that did not ask for it
            let asleep: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].f.is_some() && !ready.contains(i)).collect();
            if !asleep.is_empty() && r.below(4) == 0 {
                pick = SPURIOUS + asleep[r.below(asleep.len() as u64) as usize];
                steps.at.push((ready.clone(), current, pick));
            }
        }
        if let (true, Sched::Choices(v)) = (spurious, &mut sched) {
            if let Some(c) = v.get(steps.at.len()).filter(|c| **c >= SPURIOUS) {
                steps.at.push((ready.clone(), current, *c));
                pick = *c;
            }
        }
        pick %= SPURIOUS;
        current = pick;
        let t = &mut tasks[pick];
        sim::set_client(pick as u64 + 1);
        let waker = t.flag.next_poll();
        let f = t.f.as_mut().unwrap();
        let res = catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut Context::from_waker(&waker))));
        match res {
            Ok(Poll::Pending) => (),
            Ok(Poll::Ready(())) => t.f = None,
            Err(e) => {
                let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                w.mark(json!({"e": "panic", "c": pick + 1, "msg": msg}));
                std::mem::forget(t.f.take());
                break;
            }
        }
    }
    // Dropping what is left may run the code's destructors: that must not end the harness.
    let _ = catch_unwind(AssertUnwindSafe(|| {
        tasks.clear();
        w.streams.borrow_mut().clear();
    }));
    steps
}

/// Clients on threads of their own, truly in parallel (no streams: they are not Send).
pub fn stress(sc: &Value, cur: &CurSim) {
    let pw = prepare(sc, cur);
    let w = pw.0.clone();
    let hb = w.handle("w");
    let s = w.sim();
    #[cfg(feature = "ffi")]
    let u = *w.u.borrow();
    std::thread::scope(|scope| {
        for (i, c) in sc["clients"].as_array().unwrap().iter().enumerate() {
            let s = s.clone();
            scope.spawn(move || {
                sim::set_client(i as u64 + 1);
                let w2 = Rc::new(World {
                    cur: Arc::new(Mutex::new(s)),
                    w: RefCell::new(Some(hb)),
                    rsim: Sim::new(),
                    r: hb,
                    dir: None,
                    streams: Default::default(),
                    subs: Default::default(),
                    #[cfg(feature = "ffi")]
                    usubs: Default::default(),
                    kills: Cell::new(0),
                    floor: 0,
                    wakers: Default::default(),
                    net: Default::default(),
                    #[cfg(feature = "ffi")]
                    u: RefCell::new(u),
                    #[cfg(feature = "ffi")]
                    c: Default::default(),
                });
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let th = std::thread::current();
                    struct Th(std::thread::Thread);
                    impl Wake for Th {
                        fn wake(self: Arc<Self>) {
                            self.0.unpark()
                        }
                    }
                    let waker: Waker = Arc::new(Th(th)).into();
                    let mut f = Box::pin(client(w2.clone(), i as u64 + 1, c["h"].as_str().unwrap_or("w").to_string(), c["ops"].as_array().unwrap().clone()));
                    while f.as_mut().poll(&mut Context::from_waker(&waker)).is_pending() {
                        std::thread::park();
                    }
                }));
                if r.is_err() {
                    w2.mark(json!({"e": "panic", "c": i + 1, "msg": "in a client thread"}));
                }
            });
        }
    });
}

/// The record of a run, as events for the specification.
pub fn events(s: &Sim, raw: bool) -> Vec<Value> {
    let st = s.state();
    let mut out = vec![];
    for e in &st.events {
        match e {
            Event::Append { c, idx, data } => {
                let b = block_json_over(data, st.gap);
                let r = if raw || b["h"] == true { json!(data) } else { json!([]) };
                out.push(json!({"e": "app", "c": c, "i": idx, "b": b, "raw": r}));
            }
            Event::AppendFailed { c, applied, .. } => out.push(json!({"e": "afail", "c": c, "applied": applied})),
            Event::GetFailed { c, .. } => out.push(json!({"e": "gfail", "c": c})),
            Event::Mark { json, .. } => {
                let v: Value = serde_json::from_str(json).unwrap();
                if v["e"].is_string() {
                    out.push(v)
                }
            }
            _ => (),
        }
    }
    if st.gap.1 > 0 {
        narrowed(&mut out, st.gap);
    }
    out
}
