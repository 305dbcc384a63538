//! Memory regions surrounded by unmapped pages, so stray accesses fault.
use std::cell::RefCell;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}

/// One readable/writable page between two inaccessible ones.
pub struct Page {
    pub base: *mut u8,
}
pub const PAGE: usize = 4096;

impl Page {
    pub fn new() -> Page {
        unsafe {
            let p = mmap(core::ptr::null_mut(), 3 * PAGE, 0, 0x22, -1, 0);
            if p as isize == -1 || mprotect(p.add(PAGE), PAGE, 3) != 0 {
                eprintln!("mmap failed");
                std::process::exit(3)
            }
            Page { base: p.add(PAGE) }
        }
    }
    pub fn bytes(&self) -> &'static mut [u8] {
        unsafe { core::slice::from_raw_parts_mut(self.base, PAGE) }
    }
}
thread_local! {
    static PG: RefCell<Page> = RefCell::new(Page::new());
}
/// The calling thread's guarded page.
pub fn page() -> &'static mut [u8] {
    PG.with(|p| p.borrow().bytes())
}
thread_local! {
    static HUGE: (usize, usize) = unsafe {
        // virtual memory only: untouched pages are never backed
        let mut n = (1usize << 33) + (1 << 21);
        loop {
            let p = mmap(core::ptr::null_mut(), n, 3, 0x4022, -1, 0);
            if p as isize != -1 {
                break (p as usize, n);
            }
            n /= 4;
            if n < 1 << 20 {
                eprintln!("mmap failed");
                std::process::exit(3)
            }
        }
    };
}
/// The calling thread's large, mostly untouched mapping: (address, bytes).
pub fn huge() -> (usize, usize) {
    HUGE.with(|h| *h)
}
/// An address that faults when touched (inside the guard page before the data).
pub fn unmapped() -> usize {
    page().as_ptr() as usize - PAGE
}
