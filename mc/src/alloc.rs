//! Global allocator wrapper: while a case on the heap storage runs, blocks of the node size are tracked,
//! poisoned and quarantined on release, so that use after release and double release are visible.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

const MAX: usize = 4096;

pub struct Track {
    size: Cell<usize>,
    align: Cell<usize>,
    live: UnsafeCell<[usize; MAX]>,
    nlive: Cell<usize>,
    quarantine: UnsafeCell<[usize; MAX]>,
    nq: Cell<usize>,
    overflow: Cell<bool>,
}

thread_local! {
    static T: Track = const { Track { size: Cell::new(0), align: Cell::new(0), live: UnsafeCell::new([0; MAX]), nlive: Cell::new(0),
        quarantine: UnsafeCell::new([0; MAX]), nq: Cell::new(0), overflow: Cell::new(false) } };
}

pub struct A;

unsafe impl GlobalAlloc for A {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        let _ = T.try_with(|t| {
            if t.size.get() == l.size() && t.align.get() == l.align() && t.size.get() != 0 {
                let n = t.nlive.get();
                if n < MAX {
                    (*t.live.get())[n] = p as usize;
                    t.nlive.set(n + 1);
                } else {
                    t.overflow.set(true);
                }
            }
        });
        p
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let q = T
            .try_with(|t| {
                if t.size.get() != l.size() || t.align.get() != l.align() || t.size.get() == 0 {
                    return false;
                }
                let n = t.nlive.get();
                let live = &mut *t.live.get();
                for i in (0..n).rev() {
                    if live[i] == p as usize {
                        live[i] = live[n - 1];
                        t.nlive.set(n - 1);
                        std::ptr::write_bytes(p, 0xDD, l.size());
                        let k = t.nq.get();
                        if k < MAX {
                            (*t.quarantine.get())[k] = p as usize;
                            t.nq.set(k + 1);
                        }
                        return true; // quarantined (or leaked when full)
                    }
                }
                let k = t.nq.get();
                for i in 0..k {
                    if (*t.quarantine.get())[i] == p as usize {
                        // released twice
                        crate::reg::r().viol.get_or_insert(crate::reg::Viol {
                            kind: crate::reg::Kind::Storage,
                            msg: "heap storage: node released twice".into(),
                        });
                        return true;
                    }
                }
                false
            })
            .unwrap_or(false);
        if !q {
            System.dealloc(p, l)
        }
    }
}

#[global_allocator]
static GLOBAL: A = A;

/// Starts tracking blocks of the size and alignment of this type.
pub fn start<N>() {
    stop();
    T.with(|t| {
        t.size.set(std::mem::size_of::<N>());
        t.align.set(std::mem::align_of::<N>());
    });
}

pub fn tracking() -> bool {
    T.with(|t| t.size.get() != 0 && !t.overflow.get())
}

pub fn live() -> i64 {
    T.with(|t| t.nlive.get() as i64)
}

/// Like `live`, not counting this block.
pub fn live_besides(p: *const u8) -> i64 {
    T.with(|t| {
        let live = unsafe { &*t.live.get() };
        live[..t.nlive.get()].iter().filter(|x| **x != p as usize).count() as i64
    })
}

/// Stops tracking and gives the quarantined blocks back.
pub fn stop() {
    T.with(|t| {
        let size = t.size.replace(0);
        t.overflow.set(false);
        t.nlive.set(0);
        let k = t.nq.replace(0);
        for i in 0..k {
            unsafe {
                let p = (*t.quarantine.get())[i];
                System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(size, t.align.get()));
            }
        }
    })
}
