//! A stand-in for the MongoDB client that keeps what is inserted in memory, per explored execution.
use std::cell::RefCell;
pub mod error {
    #[derive(Debug, Clone)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "mongodb error")
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
}
use error::Result;

/// One `insert_many`: database, collection and the documents in order.
#[derive(Clone, Debug)]
pub struct Batch {
    pub db: String,
    pub collection: String,
    pub docs: Vec<bson::Bson>,
}
/// What the server saw.
#[derive(Clone, Debug, Default)]
pub struct Server {
    pub batches: Vec<Batch>,
    pub created: Vec<(String, String)>,
    pub shutdowns: usize,
    /// after the shutdown
    pub late: usize,
}
thread_local! { static SERVER: RefCell<Server> = RefCell::new(Server::default()); }
thread_local! { static SLOW: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Whether insertions take some time to complete (in arbitrary order).
pub fn set_slow(on: bool) {
    SLOW.with(|s| s.set(on))
}
struct Delay(bool);
impl std::future::Future for Delay {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if std::mem::replace(&mut self.0, true) {
            return std::task::Poll::Ready(());
        }
        let w = cx.waker().clone();
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_millis(2));
            w.wake()
        });
        std::task::Poll::Pending
    }
}
pub fn take_server() -> Server {
    SERVER.with(|s| std::mem::take(&mut *s.borrow_mut()))
}

#[derive(Clone, Debug)]
pub struct Client(());
#[derive(Clone, Debug)]
pub struct Database(String);
#[derive(Clone, Debug)]
pub struct Collection<T>(String, String, std::marker::PhantomData<T>);
#[derive(Clone, Debug, Default)]
pub struct InsertManyResult {
    pub inserted_ids: std::collections::HashMap<usize, bson::Bson>,
}
impl Client {
    pub async fn with_uri_str(uri: impl AsRef<str>) -> Result<Client> {
        if uri.as_ref().starts_with("mongodb://") {
            Ok(Client(()))
        } else {
            Err(error::Error)
        }
    }
    pub fn database(&self, name: &str) -> Database {
        Database(name.into())
    }
    pub fn database_with_options(&self, name: &str, _: options::DatabaseOptions) -> Database {
        Database(name.into())
    }
    pub async fn shutdown(self) {
        SERVER.with(|s| s.borrow_mut().shutdowns += 1)
    }
}
impl Database {
    pub async fn create_collection(
        &self,
        name: impl AsRef<str>,
        _: impl Into<Option<options::CreateCollectionOptions>>,
    ) -> Result<()> {
        SERVER.with(|s| s.borrow_mut().created.push((self.0.clone(), name.as_ref().into())));
        Ok(())
    }
    pub fn collection<T>(&self, name: &str) -> Collection<T> {
        Collection(self.0.clone(), name.into(), Default::default())
    }
}
impl<T: serde::Serialize> Collection<T> {
    pub async fn insert_many(
        &self,
        docs: impl IntoIterator<Item = impl std::borrow::Borrow<T>>,
        _: impl Into<Option<options::InsertManyOptions>>,
    ) -> Result<InsertManyResult> {
        let docs: Vec<_> = docs.into_iter().map(|d| bson::to_bson(d.borrow()).unwrap()).collect();
        if SLOW.with(|s| s.get()) {
            Delay(false).await;
        }
        if docs.is_empty() {
            return Err(error::Error); // the server rejects an empty insert
        }
        SERVER.with(|s| {
            let mut s = s.borrow_mut();
            s.late += (s.shutdowns > 0) as usize;
            s.batches.push(Batch { db: self.0.clone(), collection: self.1.clone(), docs })
        });
        Ok(Default::default())
    }
    pub async fn insert_one(
        &self,
        doc: impl std::borrow::Borrow<T>,
        _: impl Into<Option<options::InsertOneOptions>>,
    ) -> Result<()> {
        self.insert_many([doc], None).await.map(|_| ())
    }
}
pub mod options {
    #[derive(Clone, Debug, Default)]
    pub struct DatabaseOptions {}
    #[derive(Clone, Debug, Default)]
    pub struct CreateCollectionOptions {}
    #[derive(Clone, Debug, Default)]
    pub struct InsertManyOptions {
        pub ordered: Option<bool>,
        pub write_concern: Option<WriteConcern>,
    }
    #[derive(Clone, Debug, Default)]
    pub struct InsertOneOptions {}
    #[derive(Clone, Debug, Default)]
    pub struct WriteConcern {
        pub journal: Option<bool>,
    }
    impl InsertManyOptions {
        pub fn builder() -> InsertManyOptions {
            Self::default()
        }
        pub fn write_concern(mut self, w: WriteConcern) -> Self {
            self.write_concern = Some(w);
            self
        }
        pub fn ordered(mut self, o: bool) -> Self {
            self.ordered = Some(o);
            self
        }
        pub fn build(self) -> Self {
            self
        }
    }
    impl WriteConcern {
        pub fn builder() -> WriteConcern {
            Self::default()
        }
        pub fn journal(mut self, j: bool) -> Self {
            self.journal = Some(j);
            self
        }
        pub fn build(self) -> Self {
            self
        }
    }
}
