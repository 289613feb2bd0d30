//! Tasks that a scheduler may run in any order: pieces of parallel iterators and threads. A task, once started, runs to
//! its end, but before an atomic access of the code under test another waiting one may run from its beginning to its end
//! (one such preemption per run), on a thread of its own. A task that has to wait goes on when those that it interrupted
//! or that wait for it have gone on.
use std::ptr::addr_of_mut;
pub struct Task { f: *mut (dyn FnMut() + 'static), state: u8 }
unsafe impl Send for Task {}
unsafe impl Sync for Task {}
static mut TASKS: Vec<Task> = Vec::new();
static mut BUDGET: usize = 1;
static mut CURRENT: usize = 0;
static mut DEPTH: usize = 0;
static mut IDLE: usize = 0;
fn tasks() -> &'static mut Vec<Task> { unsafe { &mut *addr_of_mut!(TASKS) } }
/// a task that is to be run; the caller keeps the function alive until it is done
pub fn add(f: &mut dyn FnMut()) -> usize {
    let f: *mut (dyn FnMut() + 'static) = unsafe { std::mem::transmute(f as *mut dyn FnMut()) };
    tasks().push(Task { f, state: 0 });
    arm();
    tasks().len() - 1
}
pub fn is_waiting(k: usize) -> bool { tasks()[k].state == 0 }
pub fn is_done(k: usize) -> bool { tasks()[k].state == 2 }
pub fn current() -> usize { unsafe { CURRENT } }
fn waiting() -> Vec<usize> { (0..tasks().len()).filter(|k| is_waiting(*k)).collect() }
fn arm() { imp::arm(unsafe { BUDGET } > 0 && tasks().iter().any(|t| t.state == 0)) }
/// run it now, on a thread of its own, until it ends or waits for something
#[inline(never)] pub fn start(k: usize) {
    if !is_waiting(k) { return }
    run(k, false)
}
fn run(k: usize, again: bool) {
    tasks()[k].state = 1;
    arm();
    let before = unsafe { CURRENT };
    unsafe { CURRENT = k + 1; DEPTH += 1 }
    if again { imp::resume(k, before) } else { imp::on_thread(k, before, tasks()[k].f) }
    unsafe { CURRENT = before; DEPTH -= 1 }
    if tasks()[k].state == 1 { tasks()[k].state = 2; progress() }
    arm();
}
/// what waits may have come about
pub fn progress() { unsafe { IDLE = 0 } }
/// wait for its end
pub fn join(k: usize) {
    loop {
        match tasks()[k].state { 0 => start(k), 3 if idle() => run(k, true), 2 => return, _ => { if !block() { stuck() } } }
        if is_done(k) { return }
    }
}
fn stuck() { crate::check(false, "every thread waits"); imp::impossible() }
fn idle() -> bool { unsafe { IDLE += 1; if IDLE > 4 * tasks().len() + 8 { return false } } true }
/// the current task waits for something: whether another one may have brought it about
pub fn block() -> bool {
    if unsafe { DEPTH } > 0 {
        // those that it has interrupted, or that wait for it, go on
        if !idle() { return false }
        let k = unsafe { CURRENT } - 1;
        tasks()[k].state = 3;
        imp::suspend(k);
        return true
    }
    let w = waiting();
    if w.is_empty() {
        let p: Vec<usize> = (0..tasks().len()).filter(|k| tasks()[*k].state == 3).collect();
        if p.is_empty() || !idle() { return false }
        let k = p[unsafe { IDLE } % p.len()];
        run(k, true);
        return true
    }
    let k = if unsafe { BUDGET } > 0 { imp::choose(w.len()) } else { 0 };
    if k > 0 { unsafe { BUDGET -= 1 } }
    start(w[k]);
    true
}
/// it is not to be run for ever
pub fn give_way() { if !block() && waiting().is_empty() && unsafe { DEPTH > 0 || IDLE > 0 } { imp::impossible() } }
struct Thread { f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8 }
/// a thread of the program: runs at its creation or later, at the latest when it is joined or the others wait
pub fn thread(f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> usize {
    let t = Thread { f, arg };
    let b: &'static mut dyn FnMut() = Box::leak(Box::new(move || { let t = &t; (t.f)(t.arg); }));
    let k = add(b);
    sx_preempt();
    k
}
/// called before atomic accesses of the code under test while tasks wait
#[no_mangle] pub extern "C" fn sx_preempt() {
    let w = waiting();
    if w.is_empty() || unsafe { BUDGET } == 0 { return }
    let k = imp::choose(w.len() + 1);
    if k == 0 { return }
    unsafe { BUDGET -= 1 }
    start(w[k - 1]);
}
#[cfg(feature = "sym")]
mod imp {
    /// (the engine knows it by its name)
    #[inline(never)] #[no_mangle] extern "Rust" fn sx_task_body(f: *mut (dyn FnMut() + 'static)) { unsafe { (*f)() } }
    pub fn resume(k: usize, before: usize) { unsafe { crate::imp::sx_tid(k + 1); crate::imp::sx_resume(k); crate::imp::sx_tid(before) } }
    pub fn suspend(k: usize) { unsafe { crate::imp::sx_suspend(k) } }
    pub fn arm(on: bool) { unsafe { crate::imp::sx_arm(on as usize) } }
    pub fn choose(n: usize) -> usize { unsafe { crate::imp::sx_choose(n) } }
    pub fn on_thread(k: usize, before: usize, f: *mut (dyn FnMut() + 'static)) { unsafe { crate::imp::sx_tid(k + 1); sx_task_body(f); crate::imp::sx_tid(before) } }
    pub fn impossible() -> ! { crate::dead() }
}
#[cfg(feature = "sym")] pub fn quiet<T>(f: impl FnOnce() -> T) -> T { f() }
#[cfg(not(feature = "sym"))]
mod imp {
    use std::collections::BTreeMap;
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
    use std::sync::mpsc::{channel, Receiver, Sender};
    use std::sync::{Arc, Mutex};
    pub static ARMED: AtomicBool = AtomicBool::new(false);
    pub static QUIET: AtomicBool = AtomicBool::new(false);
    static POINT: AtomicUsize = AtomicUsize::new(0);
    pub fn arm(on: bool) { ARMED.store(on, SeqCst) }
    pub fn unquiet<T>(q: bool, f: impl FnOnce() -> T) -> T { let b = QUIET.swap(q, SeqCst); let r = f(); QUIET.store(b, SeqCst); r }
    /// which task, if any, runs at which point is tried out by the replay (VX_PREEMPT=point,task)
    pub fn choose(n: usize) -> usize {
        let p = POINT.fetch_add(1, SeqCst);
        let Ok(v) = std::env::var("VX_PREEMPT") else { return 0 };
        let (k, c) = v.split_once(',').unwrap();
        if k.parse() != Ok(p) { return 0 }
        if let Ok(f) = std::env::var("VX_POINTS") { std::fs::write(f, (n - 1).to_string()).unwrap() }
        let c: usize = c.parse().unwrap();
        if c + 1 < n { c + 1 } else { 0 }
    }
    struct Send1(*mut (dyn FnMut() + 'static));
    unsafe impl Send for Send1 {}
    type Ended = Result<(), Box<dyn std::any::Any + Send>>;
    /// of every task: where it says that it has ended, or waits (None), and where it is told to go on
    static LINES: Mutex<BTreeMap<usize, (Sender<Option<Ended>>, Sender<()>, Arc<Mutex<Receiver<()>>>, Arc<Mutex<Receiver<Option<Ended>>>>)>> = Mutex::new(BTreeMap::new());
    pub fn on_thread(k: usize, _: usize, f: *mut (dyn FnMut() + 'static)) {
        let f = Send1(f);
        // the caller is in the scheduler; in the task, points are
        unquiet(true, || {
            let (s, r) = channel();
            let (rs, rr) = channel();
            LINES.lock().unwrap().insert(k, (s.clone(), rs, Arc::new(Mutex::new(rr)), Arc::new(Mutex::new(r))));
            std::thread::spawn(move || { let f = f; let x = unquiet(false, || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { (*f.0)() }))); let _ = s.send(Some(x)); });
            wait(k)
        })
    }
    fn wait(k: usize) {
        let r = LINES.lock().unwrap()[&k].3.clone();
        let m = r.lock().unwrap().recv_timeout(std::time::Duration::from_millis(500));
        match m { Err(_) => impossible(), Ok(Some(Err(e))) => std::panic::resume_unwind(e), Ok(_) => {} }
    }
    pub fn resume(k: usize, _: usize) { unquiet(true, || { LINES.lock().unwrap()[&k].1.send(()).unwrap(); wait(k) }) }
    pub fn suspend(k: usize) { unquiet(true, || { let r = { let l = LINES.lock().unwrap(); l[&k].0.send(None).unwrap(); l[&k].2.clone() }; let _ = r.lock().unwrap().recv(); }) }
    pub fn impossible() -> ! { std::process::exit(78) }
    /// called by the instrumented program before every atomic access
    #[no_mangle] pub extern "C" fn sx_race_point() {
        if QUIET.load(SeqCst) || !ARMED.load(SeqCst) { return }
        unquiet(true, || super::sx_preempt());
    }
    #[no_mangle] pub extern "C" fn sx_task_busy() -> i32 { QUIET.load(SeqCst) as i32 }
    #[no_mangle] pub extern "C" fn sx_task_add(f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i64 { unquiet(true, || super::thread(f, arg) as i64) }
    #[no_mangle] pub extern "C" fn sx_task_join(k: i64) { unquiet(true, || super::join(k as usize)) }
    #[no_mangle] pub extern "C" fn sx_task_block() -> i32 { unquiet(true, || super::block() as i32) }
    #[no_mangle] pub extern "C" fn sx_task_yield() { unquiet(true, || super::give_way()) }
    #[no_mangle] pub extern "C" fn sx_task_progress() { super::progress() }
}
#[cfg(not(feature = "sym"))] pub fn quiet<T>(f: impl FnOnce() -> T) -> T { imp::unquiet(true, f) }
