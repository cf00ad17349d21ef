//! Simulated `hypercore` 0.14: an append-only log of blocks with the contract hyperbee relies on
//! (an append is atomic under the core's lock; a block, once appended, never changes; a reader may
//! lack any block), plus a control side (`sim`) through which the harness injects yields, faults and
//! missing blocks and records what the code did.
use std::{future::Future, path::PathBuf};

pub mod replication;
pub mod sim;

#[derive(thiserror::Error, Debug)]
#[non_exhaustive]
pub enum HypercoreError {
    #[error("Bad argument. {context}")]
    BadArgument { context: String },
    #[error("Hypercore not writable")]
    NotWritable,
    #[error("Empty storage: {store}")]
    EmptyStorage { store: String },
    #[error("Corrupt storage. {context}")]
    CorruptStorage { context: String },
    #[error("Invalid operation. {context}")]
    InvalidOperation { context: String },
    #[error("Unrecoverable input/output error occured. {context:?}")]
    IO {
        context: Option<String>,
        #[source]
        source: std::io::Error,
    },
}

impl From<std::io::Error> for HypercoreError {
    fn from(source: std::io::Error) -> Self {
        Self::IO { context: None, source }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct AppendOutcome {
    pub length: u64,
    pub byte_length: u64,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Info {
    pub length: u64,
    pub byte_length: u64,
    pub contiguous_length: u64,
    pub fork: u64,
    pub writeable: bool,
}

#[derive(Debug, Clone)]
pub struct PartialKeypair {
    pub public: [u8; 32],
    pub secret: Option<[u8; 32]>,
}

/// Where the blocks of a core live.
#[derive(Debug)]
pub struct Storage {
    path: Option<PathBuf>,
    overwrite: bool,
}

impl Storage {
    pub async fn new_memory() -> Result<Self, HypercoreError> {
        Ok(Self { path: None, overwrite: false })
    }
    pub async fn new_disk(dir: &PathBuf, overwrite: bool) -> Result<Self, HypercoreError> {
        Ok(Self { path: Some(dir.clone()), overwrite })
    }
}

#[derive(Debug)]
pub struct HypercoreBuilder {
    storage: Storage,
}

impl HypercoreBuilder {
    pub fn new(storage: Storage) -> Self {
        Self { storage }
    }
    pub async fn build(self) -> Result<Hypercore, HypercoreError> {
        let sim = match self.storage.path {
            None => sim::Sim::new(),
            Some(dir) => sim::Sim::open(&dir, self.storage.overwrite)?,
        };
        sim::register(&sim);
        Ok(Hypercore { sim })
    }
}

#[derive(Debug)]
pub struct Hypercore {
    sim: sim::Sim,
}

impl Hypercore {
    /// A core over a simulated log the harness controls.
    pub fn from_sim(sim: &sim::Sim) -> Self {
        Self { sim: sim.clone() }
    }
    pub fn sim(&self) -> sim::Sim {
        self.sim.clone()
    }
    pub fn info(&self) -> Info {
        self.sim.info()
    }
    pub fn has(&self, index: u64) -> bool {
        self.sim.has(index)
    }
    pub async fn get(&mut self, index: u64) -> Result<Option<Vec<u8>>, HypercoreError> {
        self.sim.get(index).await
    }
    pub async fn append(&mut self, data: &[u8]) -> Result<AppendOutcome, HypercoreError> {
        self.sim.append(&[data]).await
    }
    pub async fn append_batch<A: AsRef<[u8]>, B: AsRef<[A]>>(&mut self, batch: B) -> Result<AppendOutcome, HypercoreError> {
        let v: Vec<&[u8]> = batch.as_ref().iter().map(|x| x.as_ref()).collect();
        self.sim.append(&v).await
    }
    pub fn key_pair(&self) -> PartialKeypair {
        PartialKeypair { public: [0; 32], secret: self.sim.info().writeable.then_some([0; 32]) }
    }
}

fn _assert_send<T: Future + Send>(t: T) -> T {
    t
}
