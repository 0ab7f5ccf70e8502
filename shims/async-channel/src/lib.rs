//! async-channel's API as a model object: every operation is one atomic step of the explorer.
//!
//! `mcstd` is passed on the rustc command line by `/verif/rustc-wrap.sh`.

use mcstd::rt::{self, Kind, ObjCell};
use std::collections::VecDeque;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

struct Chan<T> {
    cell: ObjCell,
    cap: Option<usize>,
    st: Mutex<St<T>>,
}
struct St<T> {
    q: VecDeque<T>,
    closed: bool,
    senders: usize,
    receivers: usize,
    wakers: Vec<std::task::Waker>,
}

impl<T> Chan<T> {
    #[track_caller]
    fn step(&self, k: Kind) {
        if rt::active() {
            rt::access(&self.cell, k);
        }
    }
    fn st(&self) -> std::sync::MutexGuard<'_, St<T>> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
}

pub struct Sender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);

pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    make(None)
}
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    assert!(cap > 0, "capacity cannot be zero");
    make(Some(cap))
}
fn make<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Chan {
        cell: ObjCell::new(),
        cap,
        st: Mutex::new(St { q: VecDeque::new(), closed: false, senders: 1, receivers: 1, wakers: vec![] }),
    });
    (Sender(c.clone()), Receiver(c))
}

macro_rules! shared {
    ($t:ident) => {
        impl<T> $t<T> {
            #[track_caller]
            pub fn is_empty(&self) -> bool {
                self.0.step(Kind::ChanLook);
                self.0.st().q.is_empty()
            }
            #[track_caller]
            pub fn is_full(&self) -> bool {
                self.0.step(Kind::ChanLook);
                let l = self.0.st().q.len();
                self.0.cap.is_some_and(|c| l >= c)
            }
            #[track_caller]
            pub fn len(&self) -> usize {
                self.0.step(Kind::ChanLook);
                self.0.st().q.len()
            }
            pub fn capacity(&self) -> Option<usize> {
                self.0.cap
            }
            #[track_caller]
            pub fn close(&self) -> bool {
                self.0.step(Kind::ChanClose);
                close(&self.0)
            }
            #[track_caller]
            pub fn is_closed(&self) -> bool {
                self.0.step(Kind::ChanLook);
                self.0.st().closed
            }
            pub fn sender_count(&self) -> usize {
                self.0.st().senders
            }
            pub fn receiver_count(&self) -> usize {
                self.0.st().receivers
            }
        }
        impl<T> fmt::Debug for $t<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, concat!(stringify!($t), " {{ .. }}"))
            }
        }
    };
}
shared!(Sender);
shared!(Receiver);

fn close<T>(c: &Chan<T>) -> bool {
    let mut s = c.st();
    let was = s.closed;
    s.closed = true;
    for w in s.wakers.drain(..) {
        w.wake();
    }
    !was
}

impl<T> Sender<T> {
    #[track_caller]
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
        self.0.step(Kind::Send);
        let mut s = self.0.st();
        if s.closed {
            return Err(TrySendError::Closed(v));
        }
        if self.0.cap.is_some_and(|c| s.q.len() >= c) {
            return Err(TrySendError::Full(v));
        }
        s.q.push_back(v);
        for w in s.wakers.drain(..) {
            w.wake();
        }
        Ok(())
    }
    #[track_caller]
    pub fn send_blocking(&self, v: T) -> Result<(), SendError<T>> {
        let mut v = v;
        loop {
            match self.try_send(v) {
                Ok(()) => return Ok(()),
                Err(TrySendError::Closed(x)) => return Err(SendError(x)),
                Err(TrySendError::Full(x)) => {
                    v = x;
                    rt::yield_point();
                }
            }
        }
    }
    pub async fn send(&self, v: T) -> Result<(), SendError<T>> {
        self.send_blocking(v)
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.st().senders += 1;
        Sender(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        let n = {
            let mut s = self.0.st();
            s.senders -= 1;
            s.senders
        };
        if n == 0 {
            close(&self.0);
        }
    }
}

impl<T> Receiver<T> {
    #[track_caller]
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        self.0.step(Kind::Recv);
        let mut s = self.0.st();
        match s.q.pop_front() {
            Some(v) => Ok(v),
            None if s.closed => Err(TryRecvError::Closed),
            None => Err(TryRecvError::Empty),
        }
    }
    #[track_caller]
    pub fn recv_blocking(&self) -> Result<T, RecvError> {
        loop {
            match self.try_recv() {
                Ok(v) => return Ok(v),
                Err(TryRecvError::Closed) => return Err(RecvError),
                Err(TryRecvError::Empty) => rt::yield_point(),
            }
        }
    }
    pub fn recv(&self) -> Recv<'_, T> {
        Recv(self)
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.0.st().receivers += 1;
        Receiver(self.0.clone())
    }
}
impl<T> Drop for Receiver<T> {
    #[track_caller]
    fn drop(&mut self) {
        let n = {
            let mut s = self.0.st();
            s.receivers -= 1;
            s.receivers
        };
        if n == 0 {
            self.0.step(Kind::ChanClose);
            close(&self.0);
        }
    }
}

pub struct Recv<'a, T>(&'a Receiver<T>);
impl<T> Future for Recv<'_, T> {
    type Output = Result<T, RecvError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.0.try_recv() {
            Ok(v) => Poll::Ready(Ok(v)),
            Err(TryRecvError::Closed) => Poll::Ready(Err(RecvError)),
            Err(TryRecvError::Empty) => {
                self.0 .0.st().wakers.push(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

#[derive(PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
impl<T> SendError<T> {
    pub fn into_inner(self) -> T {
        self.0
    }
}
impl<T> fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SendError(..)")
    }
}
impl<T> fmt::Display for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "sending into a closed channel")
    }
}
impl<T> std::error::Error for SendError<T> {}

#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TrySendError<T> {
    Full(T),
    Closed(T),
}
impl<T> TrySendError<T> {
    pub fn into_inner(self) -> T {
        match self {
            TrySendError::Full(t) | TrySendError::Closed(t) => t,
        }
    }
    pub fn is_full(&self) -> bool {
        matches!(self, TrySendError::Full(_))
    }
    pub fn is_closed(&self) -> bool {
        matches!(self, TrySendError::Closed(_))
    }
}
impl<T> fmt::Debug for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            TrySendError::Full(_) => write!(f, "Full(..)"),
            TrySendError::Closed(_) => write!(f, "Closed(..)"),
        }
    }
}
impl<T> fmt::Display for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            TrySendError::Full(_) => write!(f, "sending into a full channel"),
            TrySendError::Closed(_) => write!(f, "sending into a closed channel"),
        }
    }
}
impl<T> std::error::Error for TrySendError<T> {}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct RecvError;
impl fmt::Display for RecvError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "receiving from an empty and closed channel")
    }
}
impl std::error::Error for RecvError {}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum TryRecvError {
    Empty,
    Closed,
}
impl TryRecvError {
    pub fn is_empty(&self) -> bool {
        matches!(self, TryRecvError::Empty)
    }
    pub fn is_closed(&self) -> bool {
        matches!(self, TryRecvError::Closed)
    }
}
impl fmt::Display for TryRecvError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            TryRecvError::Empty => write!(f, "receiving from an empty channel"),
            TryRecvError::Closed => write!(f, "receiving from an empty and closed channel"),
        }
    }
}
impl std::error::Error for TryRecvError {}
