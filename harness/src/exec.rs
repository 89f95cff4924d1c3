//! The step executor. A future is polled again only after it was woken; a future that answers "not ready" although
//! nothing it asked will ever wake it is a stall, reported by panicking with `Violated`.
use crate::report::Violated;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag {
    woken: AtomicBool,
    wakes: AtomicU64,
}

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        self.wakes.fetch_add(1, Ordering::SeqCst);
    }
}

thread_local! {
    /// Wakers handed to not-ready sources and sinks that answer "later".
    static LATER: RefCell<Vec<Waker>> = const { RefCell::new(Vec::new()) };
}

thread_local! {
    /// State of the random numbers deciding about polls nobody asked for; 0: there are none.
    static UNASKED: Cell<u64> = const { Cell::new(0) };
    static UNASKED_POLLS: Cell<u64> = const { Cell::new(0) };
}

/// From now on this thread's executor also polls without having been woken, and with another waker each time: only the
/// one given last counts. 0 ends it. Returns the number of such polls since the last call.
pub fn unasked_polls(seed: u64) -> u64 {
    UNASKED.with(|u| u.set(seed));
    UNASKED_POLLS.with(|u| u.replace(0))
}

fn unasked() -> bool {
    UNASKED.with(|u| {
        let x = crate::rng::mix(u.get());
        u.set(x | 1);
        x % 3 == 0
    })
}

/// Called by a chaos source or sink: wake this task when nothing else can run.
pub fn wake_later(w: &Waker) {
    LATER.with(|l| l.borrow_mut().push(w.clone()));
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Steps {
    pub polls: u64,
    pub pendings: u64,
}

/// Drives a future to completion, or drops it after it answered "not ready" `cancel_after` times.
pub fn drive<F: Future>(fut: F, cancel_after: Option<u64>) -> (Option<F::Output>, Steps) {
    LATER.with(|l| l.borrow_mut().clear());
    let hostile = UNASKED.with(|u| u.get()) != 0;
    let mut flag = Arc::new(Flag { woken: AtomicBool::new(true), wakes: AtomicU64::new(0) });
    let mut waker = Waker::from(flag.clone());
    let mut fut = Box::pin(fut);
    let mut steps = Steps::default();
    loop {
        flag.woken.store(false, Ordering::SeqCst);
        steps.polls += 1;
        match Pin::as_mut(&mut fut).poll(&mut Context::from_waker(&waker)) {
            Poll::Ready(v) => return (Some(v), steps),
            Poll::Pending => {
                steps.pendings += 1;
                if cancel_after.is_some_and(|n| steps.pendings > n) {
                    drop(fut);
                    LATER.with(|l| l.borrow_mut().clear());
                    return (None, steps);
                }
                if hostile && unasked() {
                    UNASKED_POLLS.with(|u| u.set(u.get() + 1));
                    flag = Arc::new(Flag { woken: AtomicBool::new(true), wakes: AtomicU64::new(0) });
                    waker = Waker::from(flag.clone());
                    continue;
                }
                if !flag.woken.load(Ordering::SeqCst) {
                    let ws: Vec<Waker> = LATER.with(|l| l.borrow_mut().drain(..).collect());
                    for w in ws {
                        w.wake();
                    }
                }
                if !flag.woken.load(Ordering::SeqCst) {
                    std::panic::panic_any(Violated(format!(
                        "stall: the operation answered not-ready after {} polls and nothing will wake it",
                        steps.polls
                    )));
                }
            }
        }
    }
}

pub fn run<F: Future>(fut: F) -> F::Output {
    drive(fut, None).0.unwrap()
}

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_all().max_blocking_threads(4).build().expect("tokio runtime");
}

/// Drives a future that needs a tokio runtime (file system access).
pub fn run_tokio<F: Future>(fut: F) -> F::Output {
    RT.with(|rt| rt.block_on(fut))
}
