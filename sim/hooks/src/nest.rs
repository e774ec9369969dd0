//! Work that runs inside a callback of a job: the simulated sources, streams and visitors announce
//! their callbacks here.

use std::cell::{Cell, RefCell};

type Work = Box<dyn FnMut()>;

thread_local! {
    static AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static SEEN: Cell<u64> = const { Cell::new(0) };
    static WORK: RefCell<Vec<(u64, Work)>> = const { RefCell::new(Vec::new()) };
}

/// Runs `f` with `work` done inside its callbacks of the given numbers. Returns how many callbacks
/// there were.
pub fn with<T>(mut work: Vec<(u64, Work)>, f: impl FnOnce() -> T) -> (T, u64) {
    work.sort_by_key(|w| std::cmp::Reverse(w.0));
    AT.with(|a| a.set(work.last().map_or(u64::MAX, |w| w.0)));
    SEEN.with(|s| s.set(0));
    WORK.with(|w| *w.borrow_mut() = work);
    let r = f();
    AT.with(|a| a.set(u64::MAX));
    WORK.with(|w| w.borrow_mut().clear());
    (r, SEEN.with(Cell::get))
}

/// A callback of the simulator is running.
pub fn callback() {
    crate::sched::point(0xca11_bacc);
    let n = SEEN.with(|s| {
        let n = s.get();
        s.set(n + 1);
        n
    });
    if n >= AT.with(Cell::get) {
        run(n);
    }
}

#[cold]
fn run(n: u64) {
    AT.with(|a| a.set(u64::MAX));
    loop {
        let next = WORK.with(|w| {
            let mut w = w.borrow_mut();
            if w.last().is_some_and(|w| w.0 <= n) {
                w.pop()
            } else {
                None
            }
        });
        match next {
            // The callbacks of the work itself do not count.
            Some(mut w) => w.1(),
            None => break,
        }
    }
    SEEN.with(|s| s.set(n + 1));
    AT.with(|a| a.set(WORK.with(|w| w.borrow().last().map_or(u64::MAX, |w| w.0))));
}
