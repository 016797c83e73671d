//! The simulated allocator: checked block headers and canaries, poisoned fresh and freed memory, an
//! optional quarantine of freed blocks, and per-thread live/peak counters.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct SimAlloc;

const LIVE: u64 = 0x5349_4d4c_4956_4521;
const DEAD: u64 = 0x4445_4144_4445_4144;
const TAIL: u64 = 0x7461_696c_7461_696c;
const HDR: usize = 32;
const POISON_MAX: usize = 1 << 16;
const QN: usize = 64;

thread_local! {
    static PAUSED: Cell<u32> = const { Cell::new(0) };
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
    static LIVE_BLOCKS: Cell<i64> = const { Cell::new(0) };
    // a thread whose live memory would exceed this gets a null pointer (and so an abort)
    static CAP: Cell<i64> = const { Cell::new(1 << 30) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static QUAR_ON: Cell<bool> = const { Cell::new(false) };
    static QUAR: [Cell<(usize, usize, usize)>; QN] = const { [const { Cell::new((0, 0, 0)) }; QN] };
    static QPOS: Cell<usize> = const { Cell::new(0) };
}

/// While alive, allocations of this thread are not counted.
pub struct Unmetered(());
impl Unmetered {
    pub fn new() -> Self {
        let _ = PAUSED.try_with(|p| p.set(p.get() + 1));
        Unmetered(())
    }
}
impl Drop for Unmetered {
    fn drop(&mut self) {
        let _ = PAUSED.try_with(|p| p.set(p.get() - 1));
    }
}

pub fn live() -> (i64, i64) {
    (LIVE_BYTES.with(|c| c.get()), LIVE_BLOCKS.with(|c| c.get()))
}
pub fn reset_peak() -> i64 {
    let l = LIVE_BYTES.with(|c| c.get());
    PEAK.with(|p| p.set(l));
    l
}
pub fn set_cap(n: i64) {
    CAP.with(|c| c.set(n));
}
pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}

fn off(align: usize) -> usize {
    HDR.max(align)
}

#[cold]
fn die(msg: &str) -> ! {
    use std::io::Write;
    let mut e = std::io::stderr();
    let _ = e.write_all(b"ALLOCATOR VIOLATION: ");
    let _ = e.write_all(msg.as_bytes());
    let _ = e.write_all(b"\n");
    std::process::abort()
}

unsafe fn release(user: *mut u8, size: usize, align: usize) {
    let o = off(align);
    System.dealloc(user.sub(o), Layout::from_size_align_unchecked(size + o + 8, align.max(16)));
}

unsafe fn check_poison(user: *mut u8, size: usize) {
    for i in 0..size.min(256) {
        if *user.add(i) != 0xDD {
            die("write to freed memory");
        }
    }
}

/// Hold freed blocks back (poisoned) so late writes and double frees are seen.
pub fn quarantine(on: bool) {
    QUAR_ON.with(|q| q.set(on));
    if !on {
        QUAR.with(|q| {
            for c in q {
                let (u, s, a) = c.get();
                c.set((0, 0, 0));
                if u != 0 {
                    unsafe {
                        check_poison(u as *mut u8, s);
                        release(u as *mut u8, s, a)
                    }
                }
            }
        });
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let counted = PAUSED.try_with(|p| p.get() == 0).unwrap_or(false);
        if counted {
            let live = LIVE_BYTES.with(|c| c.get()) + l.size() as i64;
            let cap = CAP.with(|c| c.get());
            if l.size() as u64 >= cap as u64 || live > cap {
                return std::ptr::null_mut();
            }
            LIVE_BYTES.with(|c| c.set(live));
            LIVE_BLOCKS.with(|c| c.set(c.get() + 1));
            PEAK.with(|p| {
                if live > p.get() {
                    p.set(live)
                }
            });
        }
        let o = off(l.align());
        let full = match Layout::from_size_align(l.size() + o + 8, l.align().max(16)) {
            Ok(f) => f,
            Err(_) => return std::ptr::null_mut(),
        };
        let base = System.alloc(full);
        if base.is_null() {
            return base;
        }
        let user = base.add(o);
        let h = user.sub(HDR) as *mut u64;
        h.write(LIVE);
        h.add(1).write(l.size() as u64);
        h.add(2).write(l.align() as u64);
        h.add(3).write(counted as u64);
        (user.add(l.size()) as *mut u64).write_unaligned(TAIL);
        if l.size() <= POISON_MAX {
            std::ptr::write_bytes(user, 0xA5, l.size());
        }
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        let h = user.sub(HDR) as *mut u64;
        if h.read() != LIVE {
            die(if h.read() == DEAD { "double free" } else { "free of a bad pointer or corrupted header" });
        }
        if h.add(1).read() != l.size() as u64 || h.add(2).read() != l.align() as u64 {
            die("free with the wrong layout");
        }
        if (user.add(l.size()) as *mut u64).read_unaligned() != TAIL {
            die("write past the end of a block");
        }
        if h.add(3).read() == 1 {
            let _ = LIVE_BYTES.try_with(|c| c.set(c.get() - l.size() as i64));
            let _ = LIVE_BLOCKS.try_with(|c| c.set(c.get() - 1));
        }
        h.write(DEAD);
        if l.size() <= POISON_MAX {
            std::ptr::write_bytes(user, 0xDD, l.size());
        }
        let q = l.size() <= 8192 && QUAR_ON.try_with(|q| q.get()).unwrap_or(false);
        if q {
            let i = QPOS.with(|p| {
                let i = p.get();
                p.set((i + 1) % QN);
                i
            });
            let old = QUAR.with(|qs| qs[i].replace((user as usize, l.size(), l.align())));
            if old.0 != 0 {
                check_poison(old.0 as *mut u8, old.1);
                release(old.0 as *mut u8, old.1, old.2);
            }
        } else {
            release(user, l.size(), l.align());
        }
    }
}
