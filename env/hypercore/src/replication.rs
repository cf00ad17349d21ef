use crate::{AppendOutcome, Hypercore, HypercoreError, Info, PartialKeypair};
use std::{future::Future, sync::Arc};
use tokio::sync::Mutex;

#[derive(thiserror::Error, Debug)]
pub enum CoreMethodsError {
    #[error("Got a hypercore error: [{0}]")]
    HypercoreError(#[from] HypercoreError),
}

pub trait CoreInfo {
    fn info(&self) -> impl Future<Output = Info> + Send;
    fn key_pair(&self) -> impl Future<Output = PartialKeypair> + Send;
}

pub trait CoreMethods: CoreInfo {
    fn has(&self, index: u64) -> impl Future<Output = bool> + Send;
    fn get(&self, index: u64) -> impl Future<Output = Result<Option<Vec<u8>>, CoreMethodsError>> + Send;
    fn append(&self, data: &[u8]) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send;
    fn append_batch<A: AsRef<[u8]> + Send + Sync, B: AsRef<[A]> + Send + Sync>(&self, batch: B) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send;
}

#[derive(Debug, Clone)]
pub struct SharedCore(pub Arc<Mutex<Hypercore>>);

impl SharedCore {
    pub fn from_hypercore(core: Hypercore) -> Self {
        Self(Arc::new(Mutex::new(core)))
    }
}

impl From<Hypercore> for SharedCore {
    fn from(core: Hypercore) -> Self {
        Self::from_hypercore(core)
    }
}

impl CoreInfo for SharedCore {
    async fn info(&self) -> Info {
        crate::sim::yield_once().await;
        let core = self.0.lock().await;
        core.info()
    }
    async fn key_pair(&self) -> PartialKeypair {
        crate::sim::yield_once().await;
        self.0.lock().await.key_pair()
    }
}

impl CoreMethods for SharedCore {
    async fn has(&self, index: u64) -> bool {
        crate::sim::yield_once().await;
        self.0.lock().await.has(index)
    }
    async fn get(&self, index: u64) -> Result<Option<Vec<u8>>, CoreMethodsError> {
        crate::sim::yield_once().await;
        let mut core = self.0.lock().await;
        Ok(core.get(index).await?)
    }
    async fn append(&self, data: &[u8]) -> Result<AppendOutcome, CoreMethodsError> {
        crate::sim::yield_once().await;
        let mut core = self.0.lock().await;
        Ok(core.append(data).await?)
    }
    async fn append_batch<A: AsRef<[u8]> + Send + Sync, B: AsRef<[A]> + Send + Sync>(&self, batch: B) -> Result<AppendOutcome, CoreMethodsError> {
        let v: Vec<Vec<u8>> = batch.as_ref().iter().map(|x| x.as_ref().to_vec()).collect();
        crate::sim::yield_once().await;
        let mut core = self.0.lock().await;
        Ok(core.append_batch(v).await?)
    }
}
