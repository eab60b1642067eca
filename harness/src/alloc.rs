//! A thread-local size-class allocator: exploration allocates many short-lived event lists, and
//! the system allocator's shared arena would serialise the workers.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::null_mut;

pub struct Tl;
const MIN: u32 = 5; // 32 bytes
const MAX: u32 = 17; // 128 KiB
const CHUNK: usize = 1 << 18;
const N: usize = (MAX - MIN + 1) as usize;
struct Th {
    free: [Cell<*mut u8>; N],
    bump: Cell<*mut u8>,
    left: Cell<usize>,
}
thread_local! {
    static T: Th = const { Th { free: [const { Cell::new(null_mut()) }; N], bump: Cell::new(null_mut()), left: Cell::new(0) } };
}
#[inline]
fn class(l: &Layout) -> Option<usize> {
    if l.align() > 32 || l.size() > 1 << MAX {
        return None;
    }
    let s = l.size().max(1 << MIN).next_power_of_two().trailing_zeros();
    Some((s - MIN) as usize)
}
unsafe impl GlobalAlloc for Tl {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(c) = class(&l) else { return System.alloc(l) };
        T.with(|t| {
            let p = t.free[c].get();
            if !p.is_null() {
                t.free[c].set(*(p as *mut *mut u8));
                return p;
            }
            let n = 1usize << (c as u32 + MIN);
            if t.left.get() < n {
                let b = System.alloc(Layout::from_size_align_unchecked(CHUNK, 64));
                if b.is_null() {
                    return b;
                }
                t.bump.set(b);
                t.left.set(CHUNK);
            }
            let p = t.bump.get();
            t.bump.set(p.add(n));
            t.left.set(t.left.get() - n);
            p
        })
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let Some(c) = class(&l) else { return System.dealloc(p, l) };
        T.with(|t| {
            *(p as *mut *mut u8) = t.free[c].get();
            t.free[c].set(p);
        })
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        match (class(&l), class(&nl)) {
            (None, None) => System.realloc(p, l, n),
            (a, b) if a == b => p,
            _ => {
                let q = self.alloc(nl);
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                    self.dealloc(p, l);
                }
                q
            }
        }
    }
}
#[global_allocator]
static A: Tl = Tl;
