//! Global allocator: code memories created inside `scoped` are mapped here (between inaccessible
//! guard areas) and returned to the system when the scope ends, because `JitMemory` never frees
//! them and a process can only hold some thousands. Outside a scope it is the system allocator.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub struct Arena;
#[global_allocator]
static GLOBAL: Arena = Arena;

const BIG: usize = 1 << 27;
const GUARD: usize = 256 << 20;

thread_local! {
    /// where the next mapping of this thread goes (0: anywhere)
    static HINT: Cell<u64> = const { Cell::new(0) };
    static ON: Cell<usize> = const { Cell::new(0) };
}
static NEXT: AtomicUsize = AtomicUsize::new(1);

#[derive(Clone, Copy)]
struct Ent {
    scope: usize,
    ptr: usize,
    map: usize,
    len: usize,
}
static REG: Mutex<[Option<Ent>; 512]> = Mutex::new([None; 512]);

unsafe fn map(l: Layout, scope: usize) -> *mut u8 {
    let align = l.align().max(4096);
    let size = (l.size() + 4095) & !4095;
    let len = size + align + 2 * GUARD;
    let hint = HINT.with(|h| h.get());
    let p = sys_mmap(
        hint as *mut _,
        len,
        libc::PROT_NONE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    if p == libc::MAP_FAILED {
        return std::ptr::null_mut();
    }
    let a = (p as usize + GUARD + align - 1) & !(align - 1);
    if libc::mprotect(a as *mut _, size, libc::PROT_READ | libc::PROT_WRITE) != 0 {
        sys_munmap(p as usize, len);
        return std::ptr::null_mut();
    }
    let mut g = REG.lock().unwrap_or_else(|e| e.into_inner());
    for e in g.iter_mut() {
        if e.is_none() {
            *e = Some(Ent { scope, ptr: a, map: p as usize, len });
            return a as *mut u8;
        }
    }
    sys_munmap(p as usize, len);
    std::ptr::null_mut()
}

unsafe fn sys_mmap(a: *mut libc::c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    libc::syscall(libc::SYS_mmap, a, len, prot, flags, fd, off) as *mut libc::c_void
}

/// Code memories may also be mapped directly (`region` and `libc` end up here): the same holds.
#[no_mangle]
unsafe extern "C" fn mmap(a: *mut libc::c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    let p = sys_mmap(a, len, prot, flags, fd, off);
    let scope = ON.with(|o| o.get());
    if p != libc::MAP_FAILED && len >= BIG && fd == -1 && scope != 0 {
        let mut g = REG.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(e) = g.iter_mut().find(|e| e.is_none()) {
            *e = Some(Ent { scope, ptr: p as usize, map: p as usize, len });
        }
    }
    p
}
#[no_mangle]
unsafe extern "C" fn mmap64(a: *mut libc::c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    mmap(a, len, prot, flags, fd, off)
}
#[no_mangle]
unsafe extern "C" fn munmap(a: *mut libc::c_void, len: usize) -> i32 {
    if len >= BIG {
        let mut g = REG.lock().unwrap_or_else(|e| e.into_inner());
        for e in g.iter_mut() {
            if matches!(*e, Some(x) if x.map == a as usize && x.len == len) {
                *e = None;
            }
        }
    }
    libc::syscall(libc::SYS_munmap, a, len) as i32
}
unsafe fn sys_munmap(a: usize, len: usize) {
    libc::syscall(libc::SYS_munmap, a, len);
}

unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() >= BIG {
            let s = ON.with(|o| o.get());
            if s != 0 {
                return map(l, s);
            }
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() >= BIG {
            let s = ON.with(|o| o.get());
            if s != 0 {
                return map(l, s);
            }
            // (memory of this size always comes fresh from the system: no need to touch all of it)
            return System.alloc(l);
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() >= BIG {
            let mut g = REG.lock().unwrap_or_else(|e| e.into_inner());
            for e in g.iter_mut() {
                if let Some(x) = *e {
                    if x.ptr == p as usize {
                        *e = None;
                        sys_munmap(x.map, x.len);
                        return;
                    }
                }
            }
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.size() >= BIG {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}

/// Run `f`; all code memories it creates on this thread are unmapped afterwards.
pub fn scoped<T>(f: impl FnOnce() -> T) -> T {
    let id = NEXT.fetch_add(1, Ordering::Relaxed);
    let old = ON.with(|o| o.replace(id));
    let r = f();
    ON.with(|o| o.set(old));
    let mut g = REG.lock().unwrap_or_else(|e| e.into_inner());
    for e in g.iter_mut() {
        if let Some(x) = *e {
            if x.scope == id {
                *e = None;
                unsafe { sys_munmap(x.map, x.len) };
            }
        }
    }
    r
}

/// Ask for the next code memory of this thread to be mapped at `addr` (0: anywhere), so that
/// addresses repeat from run to run.
pub fn hint(addr: u64) {
    HINT.with(|h| h.set(addr));
}
