//! Calls hyperbee the way foreign languages do: through the symbols of its shared library. The
//! uniffi part does what the generated bindings do (see uniffi_bindgen's Python templates), the C
//! part what a C program does.
use crate::codec::*;
use serde_json::{json, Value};
use std::{
    ffi::{c_char, c_void, CString},
    future::Future,
    mem::MaybeUninit,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};
use uniffi::{RustBuffer, RustCallStatus};

type Obj = *const c_void;
type Handle = *const c_void;
type Cont = extern "C" fn(*const c_void, i8);
type GetCallback = unsafe extern "C" fn(i64, *const c_char, u64, *mut u8, usize);

#[allow(improper_ctypes)]
extern "C" {
    fn ffi_hyperbee_rust_future_poll_rust_buffer(h: Handle, c: Cont, d: *const c_void);
    fn ffi_hyperbee_rust_future_complete_rust_buffer(h: Handle, s: &mut RustCallStatus) -> RustBuffer;
    fn ffi_hyperbee_rust_future_free_rust_buffer(h: Handle);
    fn ffi_hyperbee_rust_future_poll_pointer(h: Handle, c: Cont, d: *const c_void);
    fn ffi_hyperbee_rust_future_complete_pointer(h: Handle, s: &mut RustCallStatus) -> Obj;
    fn ffi_hyperbee_rust_future_free_pointer(h: Handle);
    fn ffi_hyperbee_rust_future_poll_u64(h: Handle, c: Cont, d: *const c_void);
    fn ffi_hyperbee_rust_future_complete_u64(h: Handle, s: &mut RustCallStatus) -> u64;
    fn ffi_hyperbee_rust_future_free_u64(h: Handle);
    fn uniffi_hyperbee_fn_clone_hyperbee(o: Obj, s: &mut RustCallStatus) -> Obj;
    fn uniffi_hyperbee_fn_clone_prefixed(o: Obj, s: &mut RustCallStatus) -> Obj;
    fn uniffi_hyperbee_fn_func_default_sub_config(s: &mut RustCallStatus) -> RustBuffer;
    fn uniffi_hyperbee_fn_func_hyperbee_from_ram() -> Handle;
    fn uniffi_hyperbee_fn_func_hyperbee_from_storage_dir(p: RustBuffer) -> Handle;
    fn uniffi_hyperbee_fn_method_hyperbee_delete(o: Obj, k: RustBuffer) -> Handle;
    fn uniffi_hyperbee_fn_method_hyperbee_get(o: Obj, k: RustBuffer) -> Handle;
    fn uniffi_hyperbee_fn_method_hyperbee_put(o: Obj, k: RustBuffer, v: RustBuffer) -> Handle;
    fn uniffi_hyperbee_fn_method_hyperbee_sub(o: Obj, p: RustBuffer, c: RustBuffer) -> Handle;
    fn uniffi_hyperbee_fn_method_hyperbee_version(o: Obj) -> Handle;
    fn uniffi_hyperbee_fn_method_prefixed_delete(o: Obj, k: RustBuffer) -> Handle;
    fn uniffi_hyperbee_fn_method_prefixed_get(o: Obj, k: RustBuffer) -> Handle;
    fn uniffi_hyperbee_fn_method_prefixed_put(o: Obj, k: RustBuffer, v: RustBuffer) -> Handle;

    fn init_runtime() -> *mut c_void;
    fn hyperbee_from_storage_directory(rt: *mut c_void, dir: *const c_char) -> *mut c_void;
    fn hb_get(rt: *mut c_void, hb: *mut c_void, k: *const u8, n: usize, cb: GetCallback) -> i32;
    fn close_hyperbee(hb: *mut c_void);
    fn close_runtime(rt: *mut c_void);
    fn deallocate_rust_string(p: *mut c_char);
    fn deallocate_rust_buffer(p: *mut u8, n: usize);
}

fn status() -> RustCallStatus {
    RustCallStatus { code: uniffi::RustCallStatusCode::Success, error_buf: MaybeUninit::zeroed() }
}

/// What a foreign call can end in, other than a value.
pub enum Failed {
    Error(String),
    Panic(String),
}
fn outcome<T>(v: T, s: RustCallStatus) -> Result<T, Failed> {
    let code = s.code as i8;
    if code == 0 {
        return Ok(v);
    }
    std::mem::forget(v);
    let buf = unsafe { s.error_buf.assume_init() }.destroy_into_vec();
    Err(match code {
        1 => Failed::Error(String::from_utf8_lossy(&buf).into()),
        c => Failed::Panic(format!("{c}: {}", String::from_utf8_lossy(&buf))),
    })
}

// ---- serialization

fn wbytes(out: &mut Vec<u8>, b: &[u8]) {
    out.extend((b.len() as i32).to_be_bytes());
    out.extend(b);
}
fn key(b: &[u8]) -> RustBuffer {
    let mut v = vec![];
    wbytes(&mut v, b);
    RustBuffer::from_vec(v)
}
fn opt_value(b: Option<&[u8]>) -> RustBuffer {
    let mut v = vec![];
    match b {
        None => v.push(0),
        Some(b) => {
            v.push(1);
            wbytes(&mut v, b)
        }
    }
    RustBuffer::from_vec(v)
}
struct Rd(Vec<u8>, usize);
impl Rd {
    fn of(b: RustBuffer) -> Self {
        Rd(b.destroy_into_vec(), 0)
    }
    fn take(&mut self, n: usize) -> &[u8] {
        self.1 += n;
        &self.0[self.1 - n..self.1]
    }
    fn flag(&mut self) -> bool {
        match self.take(1)[0] {
            0 => false,
            1 => true,
            x => panic!("bad tag {x}"),
        }
    }
    fn u64(&mut self) -> u64 {
        u64::from_be_bytes(self.take(8).try_into().unwrap())
    }
    fn bytes(&mut self) -> Vec<u8> {
        let n = i32::from_be_bytes(self.take(4).try_into().unwrap());
        self.take(n as usize).to_vec()
    }
    fn opt<T>(&mut self, f: impl Fn(&mut Self) -> T) -> Option<T> {
        if self.flag() {
            Some(f(self))
        } else {
            None
        }
    }
    fn end(self) {
        assert_eq!(self.1, self.0.len(), "trailing bytes in a foreign value")
    }
}

// ---- futures

struct Slot {
    polled: bool,
    code: Option<i8>,
    waker: Option<Waker>,
}
extern "C" fn continuation(d: *const c_void, code: i8) {
    let s = unsafe { Arc::from_raw(d as *const Mutex<Slot>) };
    let mut s = s.lock().unwrap();
    s.code = Some(code);
    if let Some(w) = s.waker.take() {
        w.wake()
    }
}
struct Fut<T> {
    h: Handle,
    slot: Arc<Mutex<Slot>>,
    poll: unsafe extern "C" fn(Handle, Cont, *const c_void),
    complete: unsafe extern "C" fn(Handle, &mut RustCallStatus) -> T,
    free: unsafe extern "C" fn(Handle),
}
impl<T> Drop for Fut<T> {
    fn drop(&mut self) {
        unsafe { (self.free)(self.h) }
    }
}
impl<T> Future for Fut<T> {
    type Output = Result<T, Failed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        loop {
            let start = {
                let mut s = self.slot.lock().unwrap();
                match s.code.take() {
                    Some(0) => {
                        drop(s);
                        let mut st = status();
                        let v = unsafe { (self.complete)(self.h, &mut st) };
                        return Poll::Ready(outcome(v, st));
                    }
                    Some(_) => true,
                    None if !s.polled => true,
                    None => {
                        s.waker = Some(cx.waker().clone());
                        false
                    }
                }
            };
            if !start {
                return Poll::Pending;
            }
            self.slot.lock().unwrap().polled = true;
            unsafe { (self.poll)(self.h, continuation, Arc::into_raw(self.slot.clone()) as *const c_void) };
        }
    }
}
fn slot() -> Arc<Mutex<Slot>> {
    Arc::new(Mutex::new(Slot { polled: false, code: None, waker: None }))
}
fn buf(h: Handle) -> Fut<RustBuffer> {
    Fut { h, slot: slot(), poll: ffi_hyperbee_rust_future_poll_rust_buffer, complete: ffi_hyperbee_rust_future_complete_rust_buffer, free: ffi_hyperbee_rust_future_free_rust_buffer }
}
fn obj(h: Handle) -> Fut<Obj> {
    Fut { h, slot: slot(), poll: ffi_hyperbee_rust_future_poll_pointer, complete: ffi_hyperbee_rust_future_complete_pointer, free: ffi_hyperbee_rust_future_free_pointer }
}
fn num(h: Handle) -> Fut<u64> {
    Fut { h, slot: slot(), poll: ffi_hyperbee_rust_future_poll_u64, complete: ffi_hyperbee_rust_future_complete_u64, free: ffi_hyperbee_rust_future_free_u64 }
}

// ---- the bindings

#[derive(Clone, Copy)]
pub struct Bee(usize);

impl Bee {
    pub async fn from_ram() -> Result<Bee, Failed> {
        let f = unsafe { obj(uniffi_hyperbee_fn_func_hyperbee_from_ram()) };
        Ok(Bee(f.await? as usize))
    }
    pub async fn from_storage_dir(p: &str) -> Result<Bee, Failed> {
        let f = unsafe { obj(uniffi_hyperbee_fn_func_hyperbee_from_storage_dir(RustBuffer::from_vec(p.as_bytes().to_vec()))) };
        Ok(Bee(f.await? as usize))
    }
    fn me(&self) -> Obj {
        unsafe { uniffi_hyperbee_fn_clone_hyperbee(self.0 as Obj, &mut status()) }
    }
    async fn sub(&self, s: &Value) -> Result<Bee, Failed> {
        let conf = if s.as_array().unwrap().len() > 2 {
            unsafe { uniffi_hyperbee_fn_func_default_sub_config(&mut status()) }
        } else {
            key(&bytes(&s[1]))
        };
        let f = unsafe { obj(uniffi_hyperbee_fn_method_hyperbee_sub(self.me(), key(&bytes(&s[0])), conf)) };
        Ok(Bee(f.await? as usize))
    }
}

/// Subs that were made before.
pub type Subs = std::cell::RefCell<std::collections::BTreeMap<String, Bee>>;

pub async fn exec(bee: Bee, op: &Value, subs: &Subs) -> Result<Value, Failed> {
    let k = bytes(&op["k"]);
    let v = opt_bytes(&op["v"]);
    let sub = match op["sub"].as_array().and_then(|a| a.first()) {
        None => None,
        Some(s) => {
            let name = format!("{} {} {s}", bee.0, hypercore::sim::client());
            let kept = subs.borrow().get(&name).copied().filter(|_| op["anew"] != true);
            Some(match kept {
                Some(b) => b,
                None => {
                    let b = bee.sub(s).await?;
                    subs.borrow_mut().insert(name, b);
                    b
                }
            })
        }
    };
    let (o, is_sub) = match sub {
        None => (bee.me(), false),
        Some(s) => (unsafe { uniffi_hyperbee_fn_clone_prefixed(s.0 as Obj, &mut status()) }, true),
    };
    Ok(match op["n"].as_str().unwrap() {
        "get" => {
            let f = unsafe { if is_sub { uniffi_hyperbee_fn_method_prefixed_get(o, key(&k)) } else { uniffi_hyperbee_fn_method_hyperbee_get(o, key(&k)) } };
            let mut r = Rd::of(buf(f).await?);
            let x = r.opt(|r| (r.u64(), r.opt(|r| r.bytes())));
            r.end();
            match x {
                None => json!([]),
                Some((s, v)) => json!([[s, opt(v)]]),
            }
        }
        "put" => {
            let v = opt_value(v.as_deref());
            let f = unsafe { if is_sub { uniffi_hyperbee_fn_method_prefixed_put(o, key(&k), v) } else { uniffi_hyperbee_fn_method_hyperbee_put(o, key(&k), v) } };
            let mut r = Rd::of(buf(f).await?);
            let x = json!({"old": opt(r.opt(|r| r.u64())), "new": r.u64()});
            r.end();
            x
        }
        "del" => {
            let f = unsafe { if is_sub { uniffi_hyperbee_fn_method_prefixed_delete(o, key(&k)) } else { uniffi_hyperbee_fn_method_hyperbee_delete(o, key(&k)) } };
            let mut r = Rd::of(buf(f).await?);
            let x = json!(opt(r.opt(|r| r.u64())));
            r.end();
            x
        }
        "ver" => json!(num(unsafe { uniffi_hyperbee_fn_method_hyperbee_version(o) }).await?),
        n => panic!("{n} is not part of the bindings"),
    })
}

// ---- C

pub struct CBee {
    rt: usize,
    hb: usize,
}
struct Answer {
    n: usize,
    code: i64,
    msg: String,
    seq: u64,
    null: bool,
    value: Vec<u8>,
}
// The callback has no argument to tell calls apart: one call at a time.
static ANSWERS: Mutex<Vec<Answer>> = Mutex::new(Vec::new());
static ONE: Mutex<()> = Mutex::new(());

unsafe extern "C" fn callback(code: i64, msg: *const c_char, seq: u64, p: *mut u8, n: usize) {
    let a = Answer {
        n,
        code,
        msg: if msg.is_null() { String::new() } else { std::ffi::CStr::from_ptr(msg).to_string_lossy().into() },
        seq,
        null: p.is_null(),
        value: if p.is_null() { vec![] } else { std::slice::from_raw_parts(p, n).to_vec() },
    };
    if !msg.is_null() {
        deallocate_rust_string(msg as *mut c_char);
    }
    deallocate_rust_buffer(p, n);
    ANSWERS.lock().unwrap().push(a);
}

impl CBee {
    /// `dir` None: a null pointer is passed.
    pub fn open(dir: Option<&std::ffi::OsStr>) -> Option<CBee> {
        unsafe {
            let rt = init_runtime();
            let c = dir.map(|d| CString::new(std::os::unix::ffi::OsStrExt::as_bytes(d)).unwrap());
            let hb = hyperbee_from_storage_directory(rt, c.as_ref().map_or(std::ptr::null(), |c| c.as_ptr()));
            if hb.is_null() {
                close_runtime(rt);
                return None;
            }
            Some(CBee { rt: rt as usize, hb: hb as usize })
        }
    }
    /// Start a lookup of each key before any is answered; the answers in the order they came.
    fn ask(&self, keys: &[Vec<u8>], null: bool) -> Result<Vec<Answer>, Value> {
        let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
        ANSWERS.lock().unwrap().clear();
        let mut rc = 0;
        for k in keys {
            let mut k = k.to_vec();
            k.reserve(1);
            // no key at all is the empty key
            let p = if k.is_empty() && null { std::ptr::null() } else { k.as_ptr() };
            rc |= unsafe { hb_get(self.rt as _, self.hb as _, p, k.len(), callback) };
            k.fill(0xa5); // the caller may use its buffer for something else now
        }
        let t0 = std::time::Instant::now();
        while ANSWERS.lock().unwrap().len() < keys.len() {
            if t0.elapsed().as_secs() >= 10 {
                return Err(json!({"e": "hang", "msg": "hb_get never calls back"}));
            }
            std::thread::sleep(std::time::Duration::from_micros(20));
        }
        if keys.len() > 1 {
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        let a = std::mem::take(&mut *ANSWERS.lock().unwrap());
        if crate::alloc::WRONG.swap(false, std::sync::atomic::Ordering::SeqCst) {
            return Err(json!({"e": "bad", "msg": "a buffer is not given back as it was taken"}));
        }
        if a.len() != keys.len() || rc != 0 {
            return Err(json!({"e": "bad", "msg": "hb_get calls back more than once"}));
        }
        Ok(a)
    }
    /// The event that ends the call.
    pub fn get(&self, k: &[u8], null: bool) -> Value {
        match self.ask(&[k.to_vec()], null) {
            Ok(a) => Self::result(&a[0]),
            Err(e) => e,
        }
    }
    /// Lookups that overlap. A callback does not say which it answers.
    pub fn get_many(&self, keys: &[Vec<u8>]) -> Value {
        let answers = match self.ask(keys, false) {
            Ok(a) => a,
            Err(e) => return e,
        };
        let (mut found, mut absent) = (vec![], 0);
        for a in answers.iter().map(Self::result) {
            if a["e"].is_string() || a["ok"] != true {
                return a;
            }
            match a["r"].as_array().unwrap().first() {
                Some(f) => found.push(f.clone()),
                None => absent += 1,
            }
        }
        json!({"ok": true, "r": {"found": found, "absent": absent}})
    }
    fn result(a: &Answer) -> Value {
        if a.code != 0 {
            // an error comes with a message, and with nothing else
            return if a.msg.is_empty() || a.seq != 0 || !a.null || a.n != 0 { json!({"e": "bad", "msg": "an error with a value"}) } else { json!({"ok": false, "err": "CError"}) };
        }
        if !a.msg.is_empty() || (a.null && a.n != 0) {
            return json!({"e": "bad", "msg": "a value with an error"});
        }
        if a.seq == 0 {
            return if a.null { json!({"ok": true, "r": []}) } else { json!({"e": "bad", "msg": "a value of no block"}) };
        }
        json!({"ok": true, "r": [[a.seq, if a.null { json!([]) } else { json!([a.value]) }]]})
    }
}
impl Drop for CBee {
    fn drop(&mut self) {
        unsafe {
            close_hyperbee(self.hb as _);
            close_runtime(self.rt as _);
        }
    }
}
