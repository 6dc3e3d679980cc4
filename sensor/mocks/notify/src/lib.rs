//! Stand-in for `notify`: keeps the handler so that the explorer decides when an event arrives.
use std::cell::RefCell;
use std::path::{Path, PathBuf};

#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub mod event {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
    pub enum ModifyKind {
        #[default]
        Any,
        Data(DataChange),
        Metadata(MetadataKind),
        Name(RenameMode),
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum DataChange {
        Any,
        Size,
        Content,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum MetadataKind {
        Any,
        WriteTime,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum RenameMode {
        Any,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum AccessMode {
        Any,
        Write,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum AccessKind {
        Any,
        Close(AccessMode),
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum CreateKind {
        Any,
        File,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum RemoveKind {
        Any,
        File,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
    pub enum EventKind {
        #[default]
        Any,
        Access(AccessKind),
        Create(CreateKind),
        Modify(ModifyKind),
        Remove(RemoveKind),
        Other,
    }
    impl EventKind {
        pub fn is_access(&self) -> bool {
            matches!(self, EventKind::Access(_))
        }
        pub fn is_create(&self) -> bool {
            matches!(self, EventKind::Create(_))
        }
        pub fn is_modify(&self) -> bool {
            matches!(self, EventKind::Modify(_))
        }
        pub fn is_remove(&self) -> bool {
            matches!(self, EventKind::Remove(_))
        }
        pub fn is_other(&self) -> bool {
            matches!(self, EventKind::Other)
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
    pub struct Event {
        pub kind: EventKind,
        pub paths: Vec<std::path::PathBuf>,
    }
    impl Event {
        pub fn need_rescan(&self) -> bool {
            false
        }
    }
}
pub use event::{Event, EventKind};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RecursiveMode {
    Recursive,
    NonRecursive,
}
#[derive(Debug, Clone, Copy, Default)]
pub struct Config;

pub trait EventHandler: Send + 'static {
    fn handle_event(&mut self, event: Result<Event>);
}
impl<F: FnMut(Result<Event>) + Send + 'static> EventHandler for F {
    fn handle_event(&mut self, event: Result<Event>) {
        (self)(event)
    }
}
pub trait Watcher {
    fn new<F: EventHandler>(event_handler: F, config: Config) -> Result<Self>
    where
        Self: Sized;
    fn watch(&mut self, path: &Path, mode: RecursiveMode) -> Result<()>;
    fn unwatch(&mut self, path: &Path) -> Result<()>;
}

type Handler = Box<dyn EventHandler>;
thread_local! {
    static HANDLER: RefCell<Option<Handler>> = const { RefCell::new(None) };
    static WATCHED: RefCell<Vec<PathBuf>> = const { RefCell::new(vec![]) };
}

#[derive(Debug)]
pub struct RecommendedWatcher(());
impl Watcher for RecommendedWatcher {
    fn new<F: EventHandler>(h: F, _: Config) -> Result<Self> {
        HANDLER.with(|x| *x.borrow_mut() = Some(Box::new(h)));
        WATCHED.with(|w| w.borrow_mut().clear());
        Ok(RecommendedWatcher(()))
    }
    fn watch(&mut self, path: &Path, _: RecursiveMode) -> Result<()> {
        WATCHED.with(|w| w.borrow_mut().push(path.to_path_buf()));
        Ok(())
    }
    fn unwatch(&mut self, path: &Path) -> Result<()> {
        WATCHED.with(|w| w.borrow_mut().retain(|p| p != path));
        Ok(())
    }
}
pub fn recommended_watcher<F: EventHandler>(h: F) -> Result<RecommendedWatcher> {
    RecommendedWatcher::new(h, Config)
}

/// for the explorer
pub fn take_handler() -> Option<Handler> {
    HANDLER.with(|x| x.borrow_mut().take())
}
pub fn watched() -> Vec<PathBuf> {
    WATCHED.with(|w| w.borrow().clone())
}
pub fn clear() {
    let _ = take_handler();
    WATCHED.with(|w| w.borrow_mut().clear());
}
