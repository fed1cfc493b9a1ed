//! A ledger of elements: who was made, who was destroyed, and when a callback shall panic.

use crate::inject;
use std::cell::{Cell, RefCell};
use std::mem::ManuallyDrop;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Life {
    Live,
    Gone,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Cb {
    Drop,
    Clone,
    Compare,
    Hash,
    Next,
}

thread_local! {
    static BOOK: RefCell<Vec<Life>> = RefCell::new(Vec::new());
    static FAULTS: RefCell<Vec<String>> = RefCell::new(Vec::new());
    static FUSE: Cell<Option<(Cb, u32)>> = Cell::new(None);
    static FIRED: Cell<u32> = Cell::new(0);
    static CALLS: Cell<[u64; 5]> = Cell::new([0; 5]);
    static REALLY: Cell<bool> = Cell::new(false);
    static ZST: Cell<(u64, u64)> = Cell::new((0, 0));
}

pub fn reset() {
    BOOK.with(|b| b.borrow_mut().clear());
    FAULTS.with(|f| f.borrow_mut().clear());
    FUSE.with(|f| f.set(None));
    FIRED.with(|f| f.set(0));
    CALLS.with(|c| c.set([0; 5]));
    ZST.with(|z| z.set((0, 0)));
}
/// Under a sanitizer a second destruction is really carried out, so that it is reported.
pub fn really_free(yes: bool) {
    REALLY.with(|r| r.set(yes));
}
pub fn faults() -> Vec<String> {
    FAULTS.with(|f| f.borrow().clone())
}
pub fn fault(m: String) {
    FAULTS.with(|f| f.borrow_mut().push(m));
}
pub fn calls() -> [u64; 5] {
    CALLS.with(|c| c.get())
}
/// The next-but-n call of the given kind panics.
pub fn arm(cb: Cb, n: u32) {
    FUSE.with(|f| f.set(Some((cb, n))));
}
/// Takes the fuse out; true if it went off since `arm`.
pub fn disarm() -> bool {
    let armed = FUSE.with(|f| f.replace(None)).is_some();
    let _ = armed;
    FIRED.with(|f| f.replace(0)) > 0
}
pub fn state(id: u64) -> Option<Life> {
    BOOK.with(|b| b.borrow().get(id as usize).copied())
}
pub fn live() -> Vec<u64> {
    BOOK.with(|b| {
        b.borrow()
            .iter()
            .enumerate()
            .filter(|(_, l)| **l == Life::Live)
            .map(|(i, _)| i as u64)
            .collect()
    })
}
pub fn made() -> usize {
    BOOK.with(|b| b.borrow().len())
}
pub fn zst_counts() -> (u64, u64) {
    ZST.with(|z| z.get())
}

fn tick(cb: Cb) {
    CALLS.with(|c| {
        let mut v = c.get();
        v[cb as usize] += 1;
        c.set(v);
    });
    if std::thread::panicking() {
        return;
    }
    FUSE.with(|f| {
        if let Some((k, n)) = f.get() {
            if k == cb {
                if n == 0 {
                    f.set(None);
                    FIRED.with(|x| x.set(x.get() + 1));
                    inject();
                }
                f.set(Some((k, n - 1)));
            }
        }
    })
}

const MAGIC: u64 = 0x7A6B_5C4D_3E2F_1001;

/// An element with a life of its own.
pub struct T {
    magic: u64,
    id: u64,
    key: u64,
    body: ManuallyDrop<Box<u64>>,
}

impl T {
    pub fn new(key: u64) -> T {
        let id = BOOK.with(|b| {
            let mut b = b.borrow_mut();
            b.push(Life::Live);
            b.len() as u64 - 1
        });
        T { magic: MAGIC, id, key, body: ManuallyDrop::new(Box::new(id)) }
    }
    /// The id, if this is a live element.
    pub fn check(&self) -> Option<u64> {
        if self.magic != MAGIC {
            return None;
        }
        match state(self.id) {
            Some(Life::Live) if **self.body == self.id => Some(self.id),
            _ => None,
        }
    }
    pub fn key(&self) -> u64 {
        self.key
    }
    fn seen(&self, what: &str) {
        if self.check().is_none() {
            if self.magic != MAGIC {
                fault(format!("{} was called on memory that holds no element", what));
            } else {
                fault(format!("{} was called on element {}, which was destroyed before", what, self.id));
            }
        }
    }
}

impl Drop for T {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            fault("a destructor ran on memory that holds no element".to_string());
            return;
        }
        let id = self.id;
        let before = BOOK.with(|b| {
            let mut b = b.borrow_mut();
            match b.get_mut(id as usize) {
                Some(l) => Some(std::mem::replace(l, Life::Gone)),
                None => None,
            }
        });
        match before {
            Some(Life::Live) => unsafe { ManuallyDrop::drop(&mut self.body) },
            Some(Life::Gone) => {
                fault(format!("element {} was destroyed twice", id));
                if REALLY.with(|r| r.get()) {
                    unsafe { ManuallyDrop::drop(&mut self.body) }
                }
                return;
            }
            None => {
                fault(format!("a destructor ran on an unknown element {}", id));
                return;
            }
        }
        tick(Cb::Drop);
    }
}
impl Clone for T {
    fn clone(&self) -> T {
        self.seen("clone");
        tick(Cb::Clone);
        T::new(self.key)
    }
}
impl PartialEq for T {
    fn eq(&self, o: &T) -> bool {
        self.seen("==");
        o.seen("==");
        tick(Cb::Compare);
        self.key == o.key
    }
}
impl Eq for T {}
impl PartialOrd for T {
    fn partial_cmp(&self, o: &T) -> Option<std::cmp::Ordering> {
        self.seen("partial_cmp");
        o.seen("partial_cmp");
        tick(Cb::Compare);
        self.key.partial_cmp(&o.key)
    }
}
impl Ord for T {
    fn cmp(&self, o: &T) -> std::cmp::Ordering {
        self.seen("cmp");
        o.seen("cmp");
        tick(Cb::Compare);
        self.key.cmp(&o.key)
    }
}
impl std::hash::Hash for T {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.seen("hash");
        tick(Cb::Hash);
        self.key.hash(h)
    }
}
impl std::fmt::Debug for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{}", self.id)
    }
}

/// Called by the harness's own iterators, so that they can panic too.
pub fn tick_next() {
    tick(Cb::Next)
}

/// An element without size, of which only the numbers made and destroyed can be known.
pub struct Z;
impl Z {
    pub fn new() -> Z {
        ZST.with(|z| z.set((z.get().0 + 1, z.get().1)));
        Z
    }
}
impl Clone for Z {
    fn clone(&self) -> Z {
        Z::new()
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        ZST.with(|z| z.set((z.get().0, z.get().1 + 1)));
        tick(Cb::Drop);
    }
}
