//! Watches what a walk takes from its process: the environment and the clocks are observed by standing in for the
//! C library's functions (which the standard library calls), the program's static variables by comparing them
//! before and after. Files and everything else that needs the kernel are observed by tracing system calls (c_run).
#![allow(clippy::missing_safety_doc)]
use std::cell::Cell;
use std::sync::Mutex;

thread_local! {
    static WATCHING: Cell<bool> = const { Cell::new(false) };
}
static SEEN: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// runs `f` with this thread watched
pub fn watched<T>(f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            WATCHING.with(|w| w.set(false));
        }
    }
    WATCHING.with(|w| w.set(true));
    let _off = Off;
    f()
}

/// what watched code asked for, each once
pub fn taken() -> Vec<String> {
    let mut v = SEEN.lock().unwrap_or_else(|e| e.into_inner());
    std::mem::take(&mut *v)
}

/// false where the stand-ins are not in place
pub fn works() -> bool {
    taken();
    watched(|| {
        let _ = std::env::var("VERIF_WATCH_PROBE");
        let _ = std::time::Instant::now();
    });
    let t = taken();
    t.iter().any(|s| s.contains("VERIF_WATCH_PROBE")) && t.iter().any(|s| s.contains("clock"))
}

#[cfg(not(any(miri, no_interpose)))]
mod stand_ins {
    use super::*;
    use std::ffi::{c_char, c_int, c_void, CStr};
    use std::sync::atomic::{AtomicUsize, Ordering};

    extern "C" {
        fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    }
    fn next(cache: &AtomicUsize, name: &'static CStr) -> usize {
        let mut p = cache.load(Ordering::Relaxed);
        if p == 0 {
            // RTLD_NEXT
            p = unsafe { dlsym(-1isize as *mut c_void, name.as_ptr()) } as usize;
            assert!(p != 0);
            cache.store(p, Ordering::Relaxed);
        }
        p
    }
    fn note(f: impl FnOnce() -> String) {
        let on = WATCHING.try_with(|w| w.replace(false)).unwrap_or(false);
        if on {
            let s = f();
            let mut v = SEEN.lock().unwrap_or_else(|e| e.into_inner());
            if v.len() < 20 && !v.contains(&s) {
                v.push(s);
            }
            drop(v);
            let _ = WATCHING.try_with(|w| w.set(true));
        }
    }
    fn text(p: *const c_char) -> String {
        unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned()
    }

    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
        static F: AtomicUsize = AtomicUsize::new(0);
        let n = text(name);
        // the runtime's own, read when a panic is reported
        if !n.starts_with("RUST_") {
            note(|| format!("the environment variable {n}"));
        }
        let f: extern "C" fn(*const c_char) -> *mut c_char = std::mem::transmute(next(&F, c"getenv"));
        f(name)
    }
    #[no_mangle]
    pub unsafe extern "C" fn setenv(name: *const c_char, value: *const c_char, over: c_int) -> c_int {
        static F: AtomicUsize = AtomicUsize::new(0);
        note(|| format!("setting the environment variable {}", text(name)));
        let f: extern "C" fn(*const c_char, *const c_char, c_int) -> c_int = std::mem::transmute(next(&F, c"setenv"));
        f(name, value, over)
    }
    #[no_mangle]
    pub unsafe extern "C" fn unsetenv(name: *const c_char) -> c_int {
        static F: AtomicUsize = AtomicUsize::new(0);
        note(|| format!("removing the environment variable {}", text(name)));
        let f: extern "C" fn(*const c_char) -> c_int = std::mem::transmute(next(&F, c"unsetenv"));
        f(name)
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(clock: c_int, t: *mut c_void) -> c_int {
        static F: AtomicUsize = AtomicUsize::new(0);
        note(|| format!("the clock {clock}"));
        let f: extern "C" fn(c_int, *mut c_void) -> c_int = std::mem::transmute(next(&F, c"clock_gettime"));
        f(clock, t)
    }
    #[no_mangle]
    pub unsafe extern "C" fn gettimeofday(t: *mut c_void, z: *mut c_void) -> c_int {
        static F: AtomicUsize = AtomicUsize::new(0);
        note(|| "the clock (gettimeofday)".into());
        let f: extern "C" fn(*mut c_void, *mut c_void) -> c_int = std::mem::transmute(next(&F, c"gettimeofday"));
        f(t, z)
    }
    #[no_mangle]
    pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
        static F: AtomicUsize = AtomicUsize::new(0);
        note(|| "the clock (time)".into());
        let f: extern "C" fn(*mut i64) -> i64 = std::mem::transmute(next(&F, c"time"));
        f(t)
    }
}

/// the program's own writable segments
fn segments() -> Vec<(usize, usize)> {
    let exe = std::env::current_exe().map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let mut v: Vec<(usize, usize)> = vec![];
    for l in maps.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() < 2 || !f[1].starts_with("rw") {
            continue;
        }
        let Some((a, b)) = f[0].split_once('-') else { continue };
        let (a, b) = (usize::from_str_radix(a, 16).unwrap_or(0), usize::from_str_radix(b, 16).unwrap_or(0));
        // what follows the last segment of the file without a name is its zero-initialised part
        let own = f.len() >= 6 && f[5] == exe || f.len() == 5 && v.last().is_some_and(|s| s.1 == a);
        if own {
            v.push((a, b));
        }
    }
    v
}

/// a copy of the program's static variables (thread-local ones are not among them)
pub struct Statics(Vec<(usize, Vec<u8>)>);

impl Statics {
    pub fn take() -> Statics {
        // (sanitizers guard the space between variables)
        let segs = if cfg!(no_interpose) { vec![] } else { segments() };
        Statics(segs.iter().map(|(a, b)| (*a, unsafe { std::slice::from_raw_parts(*a as *const u8, b - a) }.to_vec())).collect())
    }
    pub fn size(&self) -> usize {
        self.0.iter().map(|s| s.1.len()).sum()
    }
    /// addresses (relative to the first segment) of words that are different now
    pub fn changed(&self) -> Vec<usize> {
        let mut out = vec![];
        for (a, old) in &self.0 {
            let now = unsafe { std::slice::from_raw_parts(*a as *const u8, old.len()) }.to_vec();
            for k in (0..old.len()).step_by(8) {
                let e = (k + 8).min(old.len());
                if old[k..e] != now[k..e] {
                    out.push(a + k - self.0[0].0);
                }
            }
        }
        out
    }
}
