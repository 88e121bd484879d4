//! Stand-in for `rayon`: a pool whose `install` runs the closure on another thread and waits, as rayon does.
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("cannot build pool") } }
impl std::error::Error for ThreadPoolBuildError {}
pub struct ThreadPool;
#[derive(Default)]
pub struct ThreadPoolBuilder;
impl ThreadPoolBuilder {
    pub fn new() -> Self { ThreadPoolBuilder }
    pub fn num_threads(self, _n: usize) -> Self { self }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> { Ok(ThreadPool) }
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R where OP: FnOnce() -> R + Send, R: Send {
        std::thread::scope(|s| match s.spawn(op).join() { Ok(r) => r, Err(e) => std::panic::resume_unwind(e) })
    }
    pub fn spawn<OP>(&self, op: OP) where OP: FnOnce() + Send + 'static { std::thread::spawn(op); }
    pub fn current_num_threads(&self) -> usize { 4 }
}
