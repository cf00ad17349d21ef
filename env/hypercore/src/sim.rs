//! Control side of the simulated log.
use crate::{AppendOutcome, HypercoreError, Info};
use std::{
    cell::{Cell, RefCell},
    future::poll_fn,
    io::Write,
    path::Path,
    sync::{Arc, Mutex, MutexGuard},
    task::Poll,
};
use tokio::sync::Notify;

thread_local! {
    /// Which client's code is running on this thread (set by the harness's executor).
    static CLIENT: Cell<u64> = const { Cell::new(0) };
    /// Yield at every core interaction on this thread.
    static YIELDS: Cell<bool> = const { Cell::new(false) };
    /// Cores created through `HypercoreBuilder` on this thread.
    static CREATED: RefCell<Vec<Sim>> = const { RefCell::new(Vec::new()) };
}

pub fn set_client(c: u64) {
    CLIENT.with(|x| x.set(c))
}
pub fn client() -> u64 {
    CLIENT.with(|x| x.get())
}
pub fn set_yields(y: bool) {
    YIELDS.with(|x| x.set(y))
}
/// The core created most recently through `HypercoreBuilder` on this thread.
pub fn last_created() -> Option<Sim> {
    CREATED.with(|x| x.borrow_mut().drain(..).last())
}
pub(crate) fn register(s: &Sim) {
    CREATED.with(|x| {
        let mut v = x.borrow_mut();
        v.clear();
        v.push(s.clone())
    })
}

pub(crate) async fn yield_once() {
    if YIELDS.with(|x| x.get()) {
        let mut done = false;
        poll_fn(|cx| {
            if done {
                return Poll::Ready(());
            }
            done = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        })
        .await
    }
}
#[derive(Debug, Clone)]
pub enum Event {
    /// Some code read the length of the log.
    Info { c: u64, len: u64 },
    /// Some code read a block; `found` is false when it is missing or the read failed.
    Get { c: u64, idx: u64, found: bool },
    /// A block was appended.
    Append { c: u64, idx: u64, data: Vec<u8> },
    /// An append failed.
    AppendFailed { c: u64, idx: u64, applied: bool },
    /// A read failed because the harness asked for it.
    GetFailed { c: u64, idx: u64 },
    /// The harness's own marker (a call, a return, an item, ...), as JSON.
    Mark { c: u64, json: String },
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum AppendFault {
    /// The append fails and leaves the log as it was.
    Before,
    /// The block reaches the log, but the caller is told the append failed.
    After,
}

#[derive(Debug, Default)]
pub struct State {
    pub blocks: Vec<Option<Vec<u8>>>,
    /// (at, n): n further blocks, all alike (entries without nodes), lie before `blocks[at]`.
    pub gap: (u64, u64),
    pub writable: bool,
    file: Option<std::fs::File>,
    pub events: Vec<Event>,
    pub record: bool,
    /// Number of appends until one fails (0: the next one).
    pub append_fault: Option<(u64, AppendFault)>,
    /// Number of block reads until one fails with an I/O error.
    pub get_fault: Option<u64>,
    pub n_gets: u64,
    pub n_appends: u64,
    pub gets: Vec<u64>,
}

/// An entry without key, value and nodes.
const BLANK: [u8; 4] = [10, 0, 18, 0];

impl State {
    pub fn len(&self) -> u64 {
        self.blocks.len() as u64 + self.gap.1
    }
    fn block(&self, i: u64) -> Option<Vec<u8>> {
        let (at, n) = self.gap;
        match i {
            i if i >= at && i - at < n => Some(BLANK.to_vec()),
            i => self.blocks.get(if i < at { i } else { i - n } as usize).cloned().flatten(),
        }
    }
}

#[derive(Clone)]
pub struct Sim {
    st: Arc<Mutex<State>>,
    pub notify: Arc<Notify>,
}

impl std::fmt::Debug for Sim {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Sim")
    }
}

fn injected() -> HypercoreError {
    HypercoreError::IO { context: Some("injected".into()), source: std::io::Error::new(std::io::ErrorKind::Other, "injected") }
}

impl Default for Sim {
    fn default() -> Self {
        Self::new()
    }
}

impl Sim {
    pub fn new() -> Self {
        Self { st: Arc::new(Mutex::new(State { writable: true, ..Default::default() })), notify: Arc::new(Notify::new()) }
    }
    pub fn from_blocks(blocks: Vec<Option<Vec<u8>>>, writable: bool) -> Self {
        let s = Self::new();
        {
            let mut st = s.state();
            st.blocks = blocks;
            st.writable = writable;
        }
        s
    }
    /// A core kept in a directory: one file of length-prefixed blocks; a torn tail is dropped.
    pub fn open(dir: &Path, overwrite: bool) -> Result<Self, HypercoreError> {
        std::fs::create_dir_all(dir)?;
        let path = dir.join("blocks");
        if overwrite {
            let _ = std::fs::remove_file(&path);
        }
        let bytes = match std::fs::read(&path) {
            Ok(b) => b,
            Err(e) if e.kind() == std::io::ErrorKind::NotFound => vec![],
            Err(e) => return Err(e.into()),
        };
        let (mut i, mut blocks) = (0, vec![]);
        while i + 4 <= bytes.len() {
            let n = u32::from_le_bytes(bytes[i..i + 4].try_into().unwrap()) as usize;
            if i + 4 + n > bytes.len() {
                break;
            }
            blocks.push(Some(bytes[i + 4..i + 4 + n].to_vec()));
            i += 4 + n;
        }
        let file = std::fs::OpenOptions::new().create(true).append(true).open(&path)?;
        file.set_len(i as u64)?;
        let s = Self::from_blocks(blocks, true);
        s.state().file = Some(file);
        Ok(s)
    }
    pub fn state(&self) -> MutexGuard<'_, State> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn mark(&self, json: String) {
        let mut s = self.state();
        s.events.push(Event::Mark { c: client(), json });
    }
    pub fn len(&self) -> u64 {
        self.state().len()
    }
    pub fn raw(&self, i: u64) -> Option<Vec<u8>> {
        self.state().block(i)
    }
    /// Replication: this log now has (at least) `len` blocks, of which new ones are missing.
    pub fn set_len(&self, len: u64) {
        let mut s = self.state();
        while (s.blocks.len() as u64) < len {
            s.blocks.push(None);
        }
        drop(s);
        self.notify.notify_waiters();
    }
    /// Replication: block `i` has arrived.
    pub fn fill(&self, i: u64, data: Vec<u8>) {
        self.set_len(i + 1);
        self.state().blocks[i as usize] = Some(data);
        self.notify.notify_waiters();
    }
    pub fn evict(&self, i: u64) {
        self.state().blocks[i as usize] = None;
    }

    pub(crate) fn info(&self) -> Info {
        let mut s = self.state();
        let len = s.len();
        if s.record {
            s.events.push(Event::Info { c: client(), len });
        }
        Info {
            length: len,
            byte_length: s.blocks.iter().flatten().map(|b| b.len() as u64).sum(),
            contiguous_length: match s.blocks.iter().take_while(|b| b.is_some()).count() as u64 {
                n if n >= s.gap.0 => n + s.gap.1,
                n => n,
            },
            fork: 0,
            writeable: s.writable,
        }
    }
    pub(crate) fn has(&self, i: u64) -> bool {
        self.raw(i).is_some()
    }
    pub(crate) async fn get(&self, i: u64) -> Result<Option<Vec<u8>>, HypercoreError> {
        yield_once().await;
        let mut s = self.state();
        s.n_gets += 1;
        s.gets.push(i);
        let fail = match s.get_fault {
            Some(0) => {
                s.get_fault = None;
                true
            }
            Some(n) => {
                s.get_fault = Some(n - 1);
                false
            }
            None => false,
        };
        let out = if fail { None } else { s.block(i) };
        if s.record {
            s.events.push(Event::Get { c: client(), idx: i, found: out.is_some() });
        }
        if fail {
            if s.record {
                s.events.push(Event::GetFailed { c: client(), idx: i });
            }
            return Err(injected());
        }
        Ok(out)
    }
    pub(crate) async fn append(&self, datas: &[&[u8]]) -> Result<AppendOutcome, HypercoreError> {
        yield_once().await;
        let out = {
            let mut s = self.state();
            if !s.writable {
                return Err(HypercoreError::NotWritable);
            }
            s.n_appends += 1;
            let fault = match s.append_fault {
                Some((0, f)) => {
                    s.append_fault = None;
                    Some(f)
                }
                Some((n, f)) => {
                    s.append_fault = Some((n - 1, f));
                    None
                }
                None => None,
            };
            let idx = s.len();
            if fault != Some(AppendFault::Before) {
                for data in datas {
                    if let Some(f) = &mut s.file {
                        let mut rec = (data.len() as u32).to_le_bytes().to_vec();
                        rec.extend_from_slice(data);
                        f.write_all(&rec)?;
                        f.flush()?;
                    }
                    let idx = s.len();
                    s.blocks.push(Some(data.to_vec()));
                    if s.record {
                        s.events.push(Event::Append { c: client(), idx, data: data.to_vec() });
                    }
                }
            }
            match fault {
                Some(f) => {
                    if s.record {
                        s.events.push(Event::AppendFailed { c: client(), idx, applied: f == AppendFault::After });
                    }
                    Err(injected())
                }
                None => Ok(AppendOutcome {
                    length: s.len(),
                    byte_length: s.blocks.iter().flatten().map(|b| b.len() as u64).sum(),
                }),
            }
        };
        self.notify.notify_waiters();
        yield_once().await;
        out
    }
}
