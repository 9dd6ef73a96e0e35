//! Byte buffers that end flush against an inaccessible page (or start flush after one).
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}
const PG: usize = 4096;
pub struct Guarded { base: *mut u8, total: usize, ptr: *mut u8, len: usize }
unsafe impl Send for Guarded {}
unsafe impl Sync for Guarded {}
impl Guarded {
    pub fn new(len: usize, at_end: bool) -> Guarded {
        let body = (len + PG - 1) / PG * PG;
        let total = body + 2 * PG;
        unsafe {
            let base = mmap(std::ptr::null_mut(), total, 3, 0x22, -1, 0);
            assert!(base as isize != -1);
            mprotect(base, PG, 0);
            mprotect(base.add(PG + body), PG, 0);
            let ptr = if at_end { base.add(PG + body - len) } else { base.add(PG) };
            Guarded { base, total, ptr, len }
        }
    }
}
impl Drop for Guarded { fn drop(&mut self) { unsafe { munmap(self.base, self.total); } } }
impl AsRef<[u8]> for Guarded { fn as_ref(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.ptr, self.len) } } }
impl AsMut<[u8]> for Guarded { fn as_mut(&mut self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) } } }
