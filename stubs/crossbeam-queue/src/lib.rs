//! crossbeam_queue's queues as plain FIFO queues behind a lock (the crate is not available offline).

use std::collections::VecDeque;
use std::sync::Mutex;

#[derive(Debug)]
pub struct ArrayQueue<T> {
    cap:   usize,
    items: Mutex<VecDeque<T>>,
}

impl<T> ArrayQueue<T> {
    pub fn new(cap: usize) -> Self {
        assert!(cap > 0, "capacity must be non-zero");
        ArrayQueue { cap, items: Mutex::new(VecDeque::new()) }
    }

    pub fn push(&self, value: T) -> Result<(), T> {
        sched::point("a queue");
        let mut q = self.items.lock().unwrap();
        if q.len() == self.cap {
            return Err(value);
        }
        q.push_back(value);
        Ok(())
    }

    pub fn force_push(&self, value: T) -> Option<T> {
        sched::point("a queue");
        let mut q = self.items.lock().unwrap();
        let old = if q.len() == self.cap { q.pop_front() } else { None };
        q.push_back(value);
        old
    }

    pub fn pop(&self) -> Option<T> {
        sched::point("a queue");
        self.items.lock().unwrap().pop_front()
    }

    pub fn capacity(&self) -> usize {
        self.cap
    }

    pub fn len(&self) -> usize {
        sched::point("a queue");
        self.items.lock().unwrap().len()
    }

    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }

    pub fn is_full(&self) -> bool {
        sched::point("a queue");
        self.items.lock().unwrap().len() == self.cap
    }
}

#[derive(Debug)]
pub struct SegQueue<T>(Mutex<VecDeque<T>>);

impl<T> Default for SegQueue<T> {
    fn default() -> Self {
        Self::new()
    }
}

impl<T> SegQueue<T> {
    pub fn new() -> Self {
        SegQueue(Mutex::new(VecDeque::new()))
    }

    pub fn push(&self, value: T) {
        self.0.lock().unwrap().push_back(value)
    }

    pub fn pop(&self) -> Option<T> {
        self.0.lock().unwrap().pop_front()
    }

    pub fn len(&self) -> usize {
        self.0.lock().unwrap().len()
    }

    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
