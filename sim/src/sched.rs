//! Threads of a simulated process: they are real threads, parked at every seam, and exactly
//! one is released at a time, chosen by the simulator.
use std::{
    collections::BTreeSet,
    sync::{Condvar, Mutex, MutexGuard},
};

type Choose = Box<dyn FnMut(&[usize]) -> usize + Send>;

#[derive(Default)]
struct St {
    running: Option<usize>,
    waiting: BTreeSet<usize>,
    /// They wait for a lock, and no other thread has run since.
    blocked: BTreeSet<usize>,
    started: usize,
    done: usize,
    steps: usize,
    choose: Option<Choose>,
}

pub struct Gate {
    n: usize,
    st: Mutex<St>,
    cv: Vec<Condvar>,
}

impl Gate {
    pub fn new(n: usize) -> Gate {
        Gate {
            n,
            st: Mutex::new(St::default()),
            cv: (0..=n).map(|_| Condvar::new()).collect(),
        }
    }
    fn lock(&self) -> MutexGuard<'_, St> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// Picks the next thread.
    fn next(&self, st: &mut St) -> Option<usize> {
        if st.waiting.is_empty() {
            st.running = None;
            return None;
        }
        let mut w: Vec<usize> = st.waiting.difference(&st.blocked).copied().collect();
        if w.is_empty() {
            w = st.waiting.iter().copied().collect();
        }
        let t = match &mut st.choose {
            Some(f) => f(&w),
            None => w[0],
        };
        st.waiting.remove(&t);
        st.running = Some(t);
        st.steps += 1;
        Some(t)
    }
    /// A thread waits here until it is chosen. Its first call announces the thread.
    pub fn pause(&self, i: usize) {
        self.wait(i, false)
    }
    /// As `pause`; it cannot go on before another thread has run.
    pub fn blocked(&self, i: usize) {
        self.wait(i, true)
    }
    fn wait(&self, i: usize, blocked: bool) {
        crate::alloc::off(|| {
            let mut st = self.lock();
            st.waiting.insert(i);
            if blocked {
                st.blocked.insert(i);
            } else {
                st.blocked.clear();
            }
            if st.running == Some(i) {
                match self.next(&mut st) {
                    Some(t) if t == i => return,
                    Some(t) => self.cv[t].notify_all(),
                    None => {}
                }
            } else {
                st.started += 1;
                self.cv[self.n].notify_all();
            }
            while st.running != Some(i) {
                st = self.cv[i].wait(st).unwrap_or_else(|e| e.into_inner());
            }
        })
    }
    pub fn finish(&self, i: usize) {
        crate::alloc::off(|| {
            let mut st = self.lock();
            st.done += 1;
            st.blocked.clear();
            if st.running == Some(i) {
                if let Some(t) = self.next(&mut st) {
                    self.cv[t].notify_all();
                }
            }
            self.cv[self.n].notify_all();
        })
    }
    /// Runs all threads to their end; `choose` picks one of the waiting threads.
    pub fn run<'a>(&self, choose: impl FnMut(&[usize]) -> usize + Send + 'a) -> usize {
        let b: Box<dyn FnMut(&[usize]) -> usize + Send + 'a> = Box::new(choose);
        let mut st = self.lock();
        while st.started < self.n {
            st = self.cv[self.n].wait(st).unwrap_or_else(|e| e.into_inner());
        }
        // SAFETY: it is taken back before this function returns
        st.choose = Some(unsafe { std::mem::transmute::<Box<dyn FnMut(&[usize]) -> usize + Send + 'a>, Choose>(b) });
        if let Some(t) = self.next(&mut st) {
            self.cv[t].notify_all();
        }
        while st.done < self.n {
            st = self.cv[self.n].wait(st).unwrap_or_else(|e| e.into_inner());
        }
        st.choose = None;
        st.steps
    }
}
