//! The world of a program: arguments, standard input, files, processors, and how much each read and write moves.
//! Symbolically (feature `sym`) the system calls the standard library makes end here and the program's real `main`
//! is executed; natively the real program is started under a small preloaded library (shim.c) that follows the same
//! schedule.
#[derive(Default, Clone)]
pub struct World {
    pub args: Vec<Vec<u8>>,
    pub stdin: Vec<u8>,
    /// the one file there is, by its name (`FILE`)
    pub file: Vec<u8>,
    /// what successive reads of the input (stdin, or the file) give: 0 all that is asked for, 1..=250 at most so many
    /// bytes, 254 interrupted, 255 an error
    pub reads: Vec<u8>,
    /// the same for writes to standard output
    pub writes: Vec<u8>,
    pub cpus: u8,
    /// choices of the scheduler of parallel iterators (see models/rayon)
    pub sched: Vec<u8>,
}
pub struct Ran { pub code: i32, pub out: Vec<u8> }

#[cfg(feature = "sym")]
pub const FILE: &str = "/w/file.dlt";
#[cfg(feature = "sym")]
mod imp {
    use super::*;
    use std::sync::Mutex;
    struct St { w: World, pos: usize, nr: usize, nw: usize, out: Vec<u8>, open: i32, errno: i32 }
    static mut ST: Option<St> = None;
    static mut ERRNO: i32 = 0;
    fn st() -> &'static mut St { unsafe { ST.as_mut().unwrap() } }
    extern "C" { fn main(argc: i32, argv: *const *const u8) -> i32; fn sx_init_args(argc: i32, argv: *const *const u8, envp: *const *const u8); }
    pub fn set(w: World) { unsafe { ST = Some(St { w, pos: 0, nr: 0, nw: 0, out: vec![], open: 0, errno: 0 }) } }
    pub fn out() -> Vec<u8> { st().out.clone() }
    pub fn run(w: &World) -> Ran {
        let mut p: Vec<*const u8> = vec![];
        for a in std::iter::once(&b"prog".to_vec()).chain(w.args.iter()) { let mut v = a.clone(); v.push(0); p.push(v.leak().as_ptr()) }
        let n = p.len() as i32;
        p.push(std::ptr::null());
        let p = p.leak();
        let env = vec![std::ptr::null::<u8>()].leak();
        set(w.clone());
        let code = unsafe { sx_init_args(n, p.as_ptr(), env.as_ptr()); main(n, p.as_ptr()) };
        Ran { code, out: out() }
    }
    fn fail(e: i32) -> isize { unsafe { ERRNO = e } -1 }
    #[no_mangle] pub extern "C" fn __errno_location() -> *mut i32 { unsafe { std::ptr::addr_of_mut!(ERRNO) } }
    /// how many of n bytes a call moves, or an error
    fn quantum(sched: &[u8], k: &mut usize, n: usize) -> Result<usize, i32> {
        let b = sched.get(*k).copied().unwrap_or(0);
        *k += 1;
        match b { 0 => Ok(n), 254 => Err(4), 255 => Err(5), b => Ok(n.min(b as usize)) }
    }
    const FD: i32 = 5;
    #[no_mangle] pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
        let s = st();
        let src = if fd == 0 { &s.w.stdin } else if fd == FD { &s.w.file } else { return fail(9) };
        if n == 0 { return 0 }
        match quantum(&s.w.reads, &mut s.nr, n) {
            Err(e) => fail(e),
            Ok(m) => { let m = m.min(src.len() - s.pos); std::ptr::copy_nonoverlapping(src.as_ptr().add(s.pos), p, m); s.pos += m; m as isize }
        }
    }
    #[no_mangle] pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
        if fd == 2 { return n as isize }
        if fd != 1 { return fail(9) }
        let s = st();
        if n == 0 { return 0 }
        match quantum(&s.w.writes, &mut s.nw, n) {
            Err(e) => fail(e),
            Ok(m) => { s.out.extend_from_slice(std::slice::from_raw_parts(p, m)); m as isize }
        }
    }
    #[repr(C)] pub struct IoVec { p: *const u8, n: usize }
    #[no_mangle] pub unsafe extern "C" fn writev(fd: i32, v: *const IoVec, n: i32) -> isize {
        let mut t = 0;
        for i in 0..n as usize { let x = &*v.add(i); let r = write(fd, x.p, x.n); if r < 0 { return if t > 0 { t } else { r } } t += r; if (r as usize) < x.n { break } }
        t
    }
    #[no_mangle] pub unsafe extern "C" fn open64(p: *const u8, _f: i32, _m: u32) -> i32 {
        let mut n = 0; while *p.add(n) != 0 { n += 1 }
        if std::slice::from_raw_parts(p, n) == FILE.as_bytes() { st().open += 1; st().pos = 0; FD } else { fail(2) as i32 }
    }
    #[no_mangle] pub extern "C" fn close(_fd: i32) -> i32 { 0 }
    #[no_mangle] pub unsafe extern "C" fn lseek64(fd: i32, o: i64, w: i32) -> i64 {
        if fd != FD { return fail(29) as i64 }
        let s = st();
        let p = match w { 0 => o, 1 => s.pos as i64 + o, _ => s.w.file.len() as i64 + o };
        s.pos = p as usize; p
    }
    #[no_mangle] pub unsafe extern "C" fn lseek(fd: i32, o: i64, w: i32) -> i64 { lseek64(fd, o, w) }
    #[no_mangle] pub unsafe extern "C" fn fstat64(fd: i32, b: *mut u8) -> i32 {
        std::ptr::write_bytes(b, 0, 144);
        if fd != FD { *(b.add(24) as *mut u32) = 0o010600; return 0 }
        *(b.add(24) as *mut u32) = 0o100644;
        *(b.add(48) as *mut u64) = st().w.file.len() as u64;
        *(b.add(56) as *mut u64) = 4096;
        0
    }
    #[no_mangle] pub unsafe extern "C" fn fstat(fd: i32, b: *mut u8) -> i32 { fstat64(fd, b) }
    #[no_mangle] pub unsafe extern "C" fn statx(_d: i32, _p: *const u8, _f: i32, _m: u32, _b: *mut u8) -> i32 { fail(38) as i32 }
    #[no_mangle] pub unsafe extern "C" fn mmap64(_a: *mut u8, n: usize, _p: i32, _f: i32, fd: i32, o: i64) -> *mut u8 {
        if fd != FD || n == 0 { let mut v = vec![0u8; n.max(1)]; let p = v.as_mut_ptr(); std::mem::forget(v); return p }
        let mut v = st().w.file[o as usize..].to_vec();
        v.truncate(n);
        let p = v.as_mut_ptr(); std::mem::forget(v); p
    }
    #[no_mangle] pub unsafe extern "C" fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8 { mmap64(a, n, p, f, fd, o) }
    #[no_mangle] pub extern "C" fn munmap(_a: *mut u8, _n: usize) -> i32 { 0 }
    #[no_mangle] pub extern "C" fn mprotect(_a: *mut u8, _n: usize, _p: i32) -> i32 { 0 }
    #[no_mangle] pub extern "C" fn madvise(_a: *mut u8, _n: usize, _p: i32) -> i32 { 0 }
    #[no_mangle] pub extern "C" fn sysconf(k: i32) -> i64 { if k == 84 { st().w.cpus as i64 } else { 4096 } }
    #[no_mangle] pub extern "C" fn poll(_p: *mut u8, _n: u64, _t: i32) -> i32 { 0 }
    #[no_mangle] pub extern "C" fn signal(_s: i32, _h: usize) -> usize { 0 }
    #[no_mangle] pub unsafe extern "C" fn sigaction(_s: i32, _n: *const u8, o: *mut u8) -> i32 { if !o.is_null() { std::ptr::write_bytes(o, 1, 8); std::ptr::write_bytes(o.add(8), 0, 144) } 0 }
    #[no_mangle] pub extern "C" fn sigaltstack(_n: *const u8, _o: *mut u8) -> i32 { 0 }
    #[no_mangle] pub extern "C" fn pthread_getattr_np(_t: usize, _a: *mut u8) -> i32 { 38 }
    #[no_mangle] pub extern "C" fn pthread_attr_destroy(_a: *mut u8) -> i32 { 0 }
    #[no_mangle] pub extern "C" fn gettid() -> i32 { 1 }
    #[no_mangle] pub unsafe extern "C" fn __xpg_strerror_r(_e: i32, b: *mut u8, _n: usize) -> i32 { *b = b'e'; *b.add(1) = 0; 0 }
    #[no_mangle] pub extern "C" fn pthread_self() -> usize { 1 + sxrt::sched::current() }
    // threads are tasks of sxrt::sched
    #[no_mangle] pub unsafe extern "C" fn pthread_create(t: *mut usize, _a: *const u8, f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i32 { *t = 1 + sxrt::sched::thread(f, arg); 0 }
    #[no_mangle] pub extern "C" fn pthread_join(t: usize, _r: *mut u8) -> i32 { sxrt::sched::join(t - 1); 0 }
    #[no_mangle] pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize { for i in 0..n { *p.add(i) = i as u8 } n as isize }
    #[no_mangle] pub extern "C" fn dlsym(_h: usize, _n: *const u8) -> usize { 0 }
    #[no_mangle] pub unsafe extern "C" fn clock_gettime(_c: i32, t: *mut u64) -> i32 { static mut T: u64 = 0; T += 1; *t = 1 + T / 1000; *t.add(1) = T % 1000 * 1000000; 0 }
    #[no_mangle] pub extern "C" fn pthread_detach(_t: usize) -> i32 { 0 }
    #[no_mangle] pub extern "C" fn pthread_attr_init(_a: *mut u8) -> i32 { 0 }
    #[no_mangle] pub extern "C" fn pthread_attr_setstacksize(_a: *mut u8, _n: usize) -> i32 { 0 }
    #[no_mangle] pub extern "C" fn pthread_attr_setguardsize(_a: *mut u8, _n: usize) -> i32 { 0 }
    #[no_mangle] pub extern "C" fn pthread_setname_np(_t: usize, _n: *const u8) -> i32 { 0 }
    #[no_mangle] pub extern "C" fn sched_yield() -> i32 { sxrt::sched::give_way(); 0 }
    #[no_mangle] pub extern "C" fn nanosleep(_t: *const u8, _r: *mut u8) -> i32 { sxrt::sched::give_way(); 0 }
    #[no_mangle] pub extern "C" fn clock_nanosleep(_c: i32, _f: i32, _t: *const u8, _r: *mut u8) -> i32 { sxrt::sched::give_way(); 0 }
    #[no_mangle] pub unsafe extern "C" fn syscall(n: i64, a: *const u32, op: i64, v: u64, t: *const u8, _b: usize, _c: usize) -> i64 {
        if n == 318 { return getrandom(a as *mut u8, op as usize, 0) as i64 }
        if n != 202 { return fail(38) as i64 }
        match op & 127 {
            1 | 10 => { sxrt::sched::progress(); 0 }
            0 | 9 => if std::ptr::read_volatile(a) != v as u32 { fail(11) as i64 } else if sxrt::sched::block() { 0 } else if !t.is_null() { fail(110) as i64 } else { sxrt::check(false, "every thread waits"); 0 },
            _ => fail(38) as i64,
        }
    }
    #[no_mangle] pub unsafe extern "C" fn pthread_key_create(k: *mut u32, _d: usize) -> i32 { static mut N: u32 = 1; *k = N; N += 1; 0 }
    #[no_mangle] pub extern "C" fn pthread_key_delete(_k: u32) -> i32 { 0 }
    #[no_mangle] pub extern "C" fn pthread_setspecific(_k: u32, _v: usize) -> i32 { 0 }
    #[no_mangle] pub extern "C" fn pthread_getspecific(_k: u32) -> usize { 0 }
    #[no_mangle] pub unsafe extern "C" fn sched_getaffinity(_p: i32, n: usize, m: *mut u8) -> i32 {
        std::ptr::write_bytes(m, 0, n);
        for i in 0..st().w.cpus as usize { *m.add(i / 8) |= 1 << (i % 8) }
        0
    }
    #[no_mangle] pub unsafe extern "C" fn getenv(_n: *const u8) -> *const u8 { std::ptr::null() }
    #[allow(dead_code)] static UNUSED: Mutex<i32> = Mutex::new(0);
}
#[cfg(feature = "sym")]
pub use imp::*;

#[cfg(not(feature = "sym"))]
mod imp {
    use super::*;
    use std::io::{Read, Write};
    use std::process::{Command, Stdio};
    fn hex(v: &[u8]) -> String { v.iter().map(|b| format!("{:02x}", b)).collect() }
    pub fn file_name() -> String { format!("{}/sxworld.dlt", std::env::var("VX_SCRATCH").unwrap()) }
    /// the file and the schedule for reads in this process
    pub fn set(w: World) {
        std::fs::write(file_name(), &w.file).unwrap();
        std::env::set_var("VX_FILE", file_name()); std::env::set_var("VX_READS", hex(&w.reads));
    }
    /// a panic of the program is passed on as a panic, so that the replay counts it as a crash
    pub fn run_tool(tool: &str, w: &World) -> Ran {
        use std::os::unix::ffi::OsStrExt;
        let f = file_name();
        std::fs::write(&f, &w.file).unwrap();
        let mut c = Command::new(format!("{}/{}", std::env::var("VX_TOOLS").unwrap(), tool));
        for a in &w.args { c.arg(std::ffi::OsStr::from_bytes(a)); }
        let inp = format!("{}/stdin", std::env::var("VX_SCRATCH").unwrap());
        std::fs::write(&inp, &w.stdin).unwrap();
        c.env("LD_PRELOAD", std::env::var("VX_SHIM").unwrap()).env("VX_READS", hex(&w.reads)).env("VX_WRITES", hex(&w.writes)).env("VX_CPUS", w.cpus.to_string()).env("VX_FILE", &f).env("VX_CHOICES", hex(&w.sched));
        c.env_remove("RUST_BACKTRACE").stdin(std::fs::File::open(&inp).unwrap()).stdout(Stdio::piped()).stderr(Stdio::piped());
        let o = c.spawn().unwrap().wait_with_output().unwrap();
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        match o.status.code() { Some(x @ (77 | 78)) => std::process::exit(x), Some(101) => { eprintln!("{}: {}", tool, e); std::process::exit(101) } None => { eprintln!("{}: panicked at a signal: {:?} {}", tool, o.status, e); std::process::exit(101) } _ => {} }
        Ran { code: o.status.code().unwrap(), out: o.stdout }
    }
    #[allow(unused)] fn u(r: &mut dyn Read, w: &mut dyn Write) {}
}
#[cfg(not(feature = "sym"))]
pub use imp::*;
#[cfg(feature = "sym")]
pub fn run_tool(_tool: &str, w: &World) -> Ran { run(w) }
#[cfg(feature = "sym")]
pub fn file_name() -> String { FILE.to_string() }
