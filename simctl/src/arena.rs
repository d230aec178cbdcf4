//! The simulated world's memory: fixed-address slots shared between the supervisor and the simulated processes, each slot
//! between two inaccessible pages. What a simulated process wrote survives its death, as with a shared frame pool.
use libc::*;

pub const ARENA: usize = 0x5000_0000_0000;
pub const PAGE: usize = 4096;
pub const SLOT: usize = 1024 * 1024;
pub const NSLOT: usize = 96;
pub const PITCH: usize = SLOT + PAGE;
pub const HEAP: usize = 0x6000_0000_0000;
/// recycled buffers: one per caller and plane, private to a simulated process
pub const POOL: usize = 0x6800_0000_0000;
pub const POOL_SIZE: usize = 16 * 8 * SLOT;
pub const HEAP_SIZE: usize = 256 << 20;

pub fn slot(i: usize) -> *mut u8 {
    (ARENA + i * PITCH + PAGE) as *mut u8
}
/// Maps a fresh arena in the calling process (a worker has its own).
pub unsafe fn map() {
    let p = mmap(ARENA as *mut c_void, NSLOT * PITCH + PAGE, PROT_NONE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    assert!(p as usize == ARENA, "arena");
    for i in 0..NSLOT {
        assert!(mprotect(slot(i) as *mut c_void, SLOT, PROT_READ | PROT_WRITE) == 0);
    }
    let p = mmap(HEAP as *mut c_void, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    assert!(p as usize == HEAP, "heap");
    let p = mmap(POOL as *mut c_void, POOL_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    assert!(p as usize == POOL, "pool");
}
pub unsafe fn shared(bytes: usize) -> *mut u8 {
    let p = mmap(std::ptr::null_mut(), bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    assert!(p != MAP_FAILED);
    p as *mut u8
}
