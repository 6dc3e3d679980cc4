//! Stand-in for `crossbeam::channel` on loom's primitives.
pub mod channel {
    use loom::sync::{Condvar, Mutex};
    use std::collections::VecDeque;
    use std::fmt;
    use std::sync::Arc;
    use std::time::Duration;

    struct St<T> {
        q: VecDeque<T>,
        cap: usize,
        senders: usize,
        receivers: usize,
    }
    struct Chan<T> {
        m: Mutex<St<T>>,
        changed: Condvar,
    }
    pub struct Sender<T>(Arc<Chan<T>>);
    pub struct Receiver<T>(Arc<Chan<T>>);

    macro_rules! err {
        ($($name:ident),*) => {$(
            impl<T> fmt::Debug for $name<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, stringify!($name)) } }
            impl<T> fmt::Display for $name<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, stringify!($name)) } }
            impl<T> std::error::Error for $name<T> {}
        )*};
    }
    #[derive(PartialEq, Eq, Clone, Copy)]
    pub struct SendError<T>(pub T);
    #[derive(PartialEq, Eq, Clone, Copy)]
    pub enum TrySendError<T> {
        Full(T),
        Disconnected(T),
    }
    #[derive(PartialEq, Eq, Clone, Copy)]
    pub enum SendTimeoutError<T> {
        Timeout(T),
        Disconnected(T),
    }
    err!(SendError, TrySendError, SendTimeoutError);
    impl<T> TrySendError<T> {
        pub fn is_full(&self) -> bool {
            matches!(self, TrySendError::Full(_))
        }
        pub fn is_disconnected(&self) -> bool {
            matches!(self, TrySendError::Disconnected(_))
        }
        pub fn into_inner(self) -> T {
            match self {
                TrySendError::Full(t) | TrySendError::Disconnected(t) => t,
            }
        }
    }
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub struct RecvError;
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub enum TryRecvError {
        Empty,
        Disconnected,
    }

    pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
        let c = Arc::new(Chan {
            m: Mutex::new(St { q: VecDeque::new(), cap, senders: 1, receivers: 1 }),
            changed: Condvar::new(),
        });
        (Sender(c.clone()), Receiver(c))
    }
    pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
        bounded(usize::MAX)
    }
    impl<T> Sender<T> {
        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            let mut g = self.0.m.lock().unwrap();
            if g.receivers == 0 {
                return Err(TrySendError::Disconnected(t));
            }
            if g.q.len() >= g.cap {
                return Err(TrySendError::Full(t));
            }
            g.q.push_back(t);
            drop(g);
            self.0.changed.notify_all();
            Ok(())
        }
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            let mut g = self.0.m.lock().unwrap();
            loop {
                if g.receivers == 0 {
                    return Err(SendError(t));
                }
                if g.q.len() < g.cap {
                    g.q.push_back(t);
                    drop(g);
                    self.0.changed.notify_all();
                    return Ok(());
                }
                g = self.0.changed.wait(g).unwrap();
            }
        }
        pub fn send_timeout(&self, t: T, _: Duration) -> Result<(), SendTimeoutError<T>> {
            self.send(t).map_err(|e| SendTimeoutError::Disconnected(e.0))
        }
        pub fn len(&self) -> usize {
            self.0.m.lock().unwrap().q.len()
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
        pub fn is_full(&self) -> bool {
            let g = self.0.m.lock().unwrap();
            g.q.len() >= g.cap
        }
        pub fn capacity(&self) -> Option<usize> {
            let c = self.0.m.lock().unwrap().cap;
            (c != usize::MAX).then_some(c)
        }
    }
    impl<T> Receiver<T> {
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            let mut g = self.0.m.lock().unwrap();
            match g.q.pop_front() {
                Some(t) => {
                    drop(g);
                    self.0.changed.notify_all();
                    Ok(t)
                }
                None if g.senders == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        }
        pub fn recv(&self) -> Result<T, RecvError> {
            let mut g = self.0.m.lock().unwrap();
            loop {
                if let Some(t) = g.q.pop_front() {
                    drop(g);
                    self.0.changed.notify_all();
                    return Ok(t);
                }
                if g.senders == 0 {
                    return Err(RecvError);
                }
                g = self.0.changed.wait(g).unwrap();
            }
        }
        pub fn len(&self) -> usize {
            self.0.m.lock().unwrap().q.len()
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.0.m.lock().unwrap().senders += 1;
            Sender(self.0.clone())
        }
    }
    impl<T> Clone for Receiver<T> {
        fn clone(&self) -> Self {
            self.0.m.lock().unwrap().receivers += 1;
            Receiver(self.0.clone())
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            if std::thread::panicking() {
                return;
            }
            self.0.m.lock().unwrap().senders -= 1;
            self.0.changed.notify_all();
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            if std::thread::panicking() {
                return;
            }
            self.0.m.lock().unwrap().receivers -= 1;
            self.0.changed.notify_all();
        }
    }
}
