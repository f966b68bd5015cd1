//! Stand-in for the `atomic-wait` crate. Threads that registered with [`ctl`] are stopped at each call and wait for the
//! turn that a scheduler gives them, and sleeping and waking are the scheduler's. All other threads use the kernel's futex.
use std::sync::atomic::{AtomicU32, Ordering};

extern "C" {
    fn syscall(num: i64, ...) -> i64;
}

pub fn wait(a: &AtomicU32, expected: u32) {
    if !ctl::wait(a, expected) {
        unsafe { syscall(202, a as *const AtomicU32, 128i32, expected, std::ptr::null::<u8>()) };
    }
}

fn wake(p: *const AtomicU32, n: i32) {
    if !ctl::wake(p as usize, n) {
        unsafe { syscall(202, p, 129i32, n) };
    }
}

pub fn wake_one(p: *const AtomicU32) {
    wake(p, 1);
}

pub fn wake_all(p: *const AtomicU32) {
    wake(p, i32::MAX);
}

pub mod ctl {
    use super::*;
    use std::cell::Cell;
    use std::sync::{Condvar, Mutex};
    use std::time::{Duration, Instant};

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum At {
        /// Stopped, can go on.
        Ready,
        /// Inside wait() on that address, until somebody wakes it.
        Asleep(usize),
        /// Has the turn.
        Turn,
        Done,
    }

    pub struct State {
        pub at: Vec<At>,
        /// Whom the next wake_one() should wake, if he sleeps there (else: the longest sleeping).
        pub favour: Option<usize>,
        naps: Vec<u64>,
        clock: u64,
        /// Set at the end of a run: nobody stops or sleeps any more.
        pub free: bool,
    }

    static STATE: Mutex<State> = Mutex::new(State { at: Vec::new(), favour: None, naps: Vec::new(), clock: 0, free: false });
    static TURN: Condvar = Condvar::new();

    thread_local!(static ME: Cell<Option<usize>> = const { Cell::new(None) });

    pub fn reset(n: usize) {
        let mut s = STATE.lock().unwrap();
        *s = State { at: vec![At::Turn; n], favour: None, naps: vec![0; n], clock: 0, free: false };
    }

    /// Called by a thread of the run first.
    pub fn register(me: usize) {
        ME.with(|m| m.set(Some(me)));
        point();
    }

    pub fn done() {
        if let Some(me) = ME.with(|m| m.take()) {
            STATE.lock().unwrap().at[me] = At::Done;
            TURN.notify_all();
        }
    }

    fn pause(me: usize, at: At) {
        let mut s = STATE.lock().unwrap();
        if s.free {
            return;
        }
        s.at[me] = at;
        s.clock += 1;
        s.naps[me] = s.clock;
        TURN.notify_all();
        while s.at[me] != At::Turn && !s.free {
            s = TURN.wait(s).unwrap();
        }
    }

    /// Stop here until the scheduler says so.
    pub fn point() {
        if let Some(me) = ME.with(|m| m.get()) {
            pause(me, At::Ready);
        }
    }

    pub(crate) fn wait(a: &AtomicU32, expected: u32) -> bool {
        let Some(me) = ME.with(|m| m.get()) else { return false };
        pause(me, At::Ready);
        // Nobody else is between two points while this one has the turn: looking and falling asleep is one step.
        if a.load(Ordering::SeqCst) == expected {
            pause(me, At::Asleep(a as *const AtomicU32 as usize));
        } else {
            pause(me, At::Ready);
        }
        true
    }

    pub(crate) fn wake(addr: usize, n: i32) -> bool {
        let Some(me) = ME.with(|m| m.get()) else { return false };
        pause(me, At::Ready);
        let mut s = STATE.lock().unwrap();
        for _ in 0..n {
            let here: Vec<usize> = (0..s.at.len()).filter(|i| s.at[*i] == At::Asleep(addr)).collect();
            let Some(who) = s.favour.filter(|f| here.contains(f)).or_else(|| here.iter().copied().min_by_key(|i| s.naps[*i]))
            else { break };
            s.at[who] = At::Ready;
        }
        drop(s);
        pause(me, At::Ready);
        true
    }

    /// Scheduler: wait until nobody has the turn; what everybody is at then. None: somebody never came back.
    pub fn settled(patience: Duration) -> Option<Vec<At>> {
        let end = Instant::now() + patience;
        let mut s = STATE.lock().unwrap();
        while s.at.contains(&At::Turn) {
            let left = end.checked_duration_since(Instant::now())?;
            s = TURN.wait_timeout(s, left).unwrap().0;
        }
        Some(s.at.clone())
    }

    /// Scheduler: a sleeper wakes up for no reason.
    pub fn spurious(who: usize) {
        let mut s = STATE.lock().unwrap();
        if matches!(s.at[who], At::Asleep(_)) {
            s.at[who] = At::Ready;
        }
    }

    /// Scheduler: give the turn.
    pub fn turn(who: usize, favour: Option<usize>) {
        let mut s = STATE.lock().unwrap();
        s.favour = favour;
        s.at[who] = At::Turn;
        TURN.notify_all();
    }

    /// Let everybody run as they like. Those that sleep return from wait() again and again.
    pub fn free() {
        let mut s = STATE.lock().unwrap();
        s.free = true;
        TURN.notify_all();
    }
}
