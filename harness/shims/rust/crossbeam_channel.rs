//! Stand-in for `crossbeam-channel`: bounded and unbounded channels.
use std::collections::VecDeque;
use std::sync::{Arc, Condvar, Mutex};
struct Inner<T> { q: VecDeque<T>, cap: usize, senders: usize, receivers: usize }
struct Shared<T> { m: Mutex<Inner<T>>, c: Condvar }
pub struct Sender<T>(Arc<Shared<T>>);
pub struct Receiver<T>(Arc<Shared<T>>);
pub struct SendError<T>(pub T);
impl<T> std::fmt::Debug for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SendError") } }
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct RecvError;
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum TryRecvError { Empty, Disconnected }
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    let s = Arc::new(Shared { m: Mutex::new(Inner { q: VecDeque::new(), cap: cap.max(1), senders: 1, receivers: 1 }), c: Condvar::new() });
    (Sender(s.clone()), Receiver(s))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) { bounded(usize::MAX) }
impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        let mut g = self.0.m.lock().unwrap();
        loop {
            if g.receivers == 0 { return Err(SendError(t)); }
            if g.q.len() < g.cap { break; }
            g = self.0.c.wait(g).unwrap();
        }
        g.q.push_back(t);
        self.0.c.notify_all();
        Ok(())
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        let mut g = self.0.m.lock().unwrap();
        loop {
            if let Some(t) = g.q.pop_front() { self.0.c.notify_all(); return Ok(t); }
            if g.senders == 0 { return Err(RecvError); }
            g = self.0.c.wait(g).unwrap();
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let mut g = self.0.m.lock().unwrap();
        match g.q.pop_front() { Some(t) => { self.0.c.notify_all(); Ok(t) } None => Err(if g.senders == 0 { TryRecvError::Disconnected } else { TryRecvError::Empty }) }
    }
    pub fn is_full(&self) -> bool { let g = self.0.m.lock().unwrap(); g.q.len() >= g.cap }
    pub fn is_empty(&self) -> bool { self.0.m.lock().unwrap().q.is_empty() }
    pub fn len(&self) -> usize { self.0.m.lock().unwrap().q.len() }
}
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.0.m.lock().unwrap().senders += 1; Sender(self.0.clone()) } }
impl<T> Clone for Receiver<T> { fn clone(&self) -> Self { self.0.m.lock().unwrap().receivers += 1; Receiver(self.0.clone()) } }
impl<T> Drop for Sender<T> { fn drop(&mut self) { self.0.m.lock().unwrap().senders -= 1; self.0.c.notify_all(); } }
impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.0.m.lock().unwrap().receivers -= 1; self.0.c.notify_all(); } }
