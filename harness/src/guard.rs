//! Buffers that end (and begin) exactly at an inaccessible page, so a read one byte outside the
//! data faults.

pub struct Arena {
    base: *mut u8,
    pages: usize,
}
const PAGE: usize = 4096;

impl Arena {
    pub fn new(bytes: usize) -> Arena {
        let pages = bytes.div_ceil(PAGE).max(1);
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), (pages + 2) * PAGE, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            let base = p.cast::<u8>().add(PAGE);
            assert_eq!(libc::mprotect(base.cast(), pages * PAGE, libc::PROT_READ | libc::PROT_WRITE), 0);
            Arena { base, pages }
        }
    }
    pub fn cap(&self) -> usize {
        self.pages * PAGE
    }
    /// The data with its last byte right before the guard page.
    pub fn right(&mut self, data: &[u8]) -> &[u8] {
        assert!(data.len() <= self.cap());
        unsafe {
            let p = self.base.add(self.cap() - data.len());
            std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
            std::slice::from_raw_parts(p, data.len())
        }
    }
    /// The data with its first byte right after the guard page.
    pub fn left(&mut self, data: &[u8]) -> &[u8] {
        assert!(data.len() <= self.cap());
        unsafe {
            std::ptr::copy_nonoverlapping(data.as_ptr(), self.base, data.len());
            std::slice::from_raw_parts(self.base, data.len())
        }
    }
    /// The data `shift` bytes away from the guard page before it.
    pub fn at(&mut self, data: &[u8], shift: usize) -> &[u8] {
        assert!(data.len() + shift <= self.cap());
        unsafe {
            let p = self.base.add(shift);
            std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
            std::slice::from_raw_parts(p, data.len())
        }
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base.sub(PAGE).cast(), (self.pages + 2) * PAGE);
        }
    }
}

thread_local! {
    static SMALL: std::cell::RefCell<Arena> = std::cell::RefCell::new(Arena::new(16 * PAGE));
}
/// Run `f` on the data placed against a guard page (`right`: after the data).
pub fn with<R>(data: &[u8], right: bool, f: impl FnOnce(&[u8]) -> R) -> R {
    if data.len() <= 16 * PAGE {
        SMALL.with(|a| {
            let mut a = a.borrow_mut();
            f(if right { a.right(data) } else { a.left(data) })
        })
    } else {
        let mut a = Arena::new(data.len());
        f(if right { a.right(data) } else { a.left(data) })
    }
}
