//! Values whose drops are counted: `Tok` stands for an output or a future owned by the library.
use crate::fail;
use std::cell::RefCell;

const MAGIC: u64 = 0x5afe_70c0_ffee_d00d;
#[derive(Debug)]
pub struct Tok {
    magic: u64,
    id: u32,
    pub tag: u32,
}
thread_local! {
    static REG: RefCell<Vec<bool>> = const { RefCell::new(Vec::new()) };
    static STRICT: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}
/// Forget every token of earlier executions; `strict` makes drop errors violations.
pub fn reset(strict: bool) {
    REG.with(|r| r.borrow_mut().clear());
    STRICT.with(|s| s.set(strict));
}
pub fn live() -> usize {
    REG.with(|r| r.borrow().iter().filter(|b| **b).count())
}
impl Tok {
    pub fn new(tag: u32) -> Tok {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.push(true);
            Tok { magic: MAGIC, id: r.len() as u32 - 1, tag }
        })
    }
    /// True iff this is a value that was created, not yet dropped, and intact.
    pub fn valid(&self) -> bool {
        self.magic == MAGIC && REG.with(|r| r.borrow().get(self.id as usize).copied().unwrap_or(false))
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let ok = self.magic == MAGIC && REG.with(|r| r.borrow_mut().get_mut(self.id as usize).map(|b| std::mem::replace(b, false)).unwrap_or(false));
        if !ok && STRICT.with(|s| s.get()) {
            fail(format!("a value was dropped twice, or memory that holds no value was dropped (tag {:x})", self.tag));
        }
    }
}

/// Allocator that poisons freed memory and keeps it out of circulation for a while, so that use
/// after free reads poison and a second free is noticed.
pub struct Poison;
const Q: usize = 512;
thread_local! {
    static QUAR: std::cell::UnsafeCell<([(*mut u8, usize, usize); Q], usize)> = const { std::cell::UnsafeCell::new(([(std::ptr::null_mut(), 0, 0); Q], 0)) };
}
use std::alloc::{GlobalAlloc, Layout, System};
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() > 4096 || l.size() < 16 {
            return System.dealloc(p, l);
        }
        let old = QUAR.try_with(|q| {
            let q = &mut *q.get();
            std::ptr::write_bytes(p, 0xDD, l.size());
            let i = q.1 % Q;
            q.1 += 1;
            std::mem::replace(&mut q.0[i], (p, l.size(), l.align()))
        });
        match old {
            Ok((o, s, a)) => {
                if !o.is_null() {
                    System.dealloc(o, Layout::from_size_align_unchecked(s, a))
                }
            }
            Err(_) => System.dealloc(p, l),
        }
    }
}
/// Release the quarantine of this thread (a thread that ends would leak it).
pub fn flush() {
    let _ = QUAR.try_with(|q| unsafe {
        let q = &mut *q.get();
        for e in q.0.iter_mut() {
            let (p, s, a) = std::mem::replace(e, (std::ptr::null_mut(), 0, 0));
            if !p.is_null() {
                System.dealloc(p, Layout::from_size_align_unchecked(s, a));
            }
        }
        q.1 = 0;
    });
}
