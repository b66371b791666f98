//! A deterministic environment for the asynchronous code: a virtual local disk with explicit durability
//! (page cache, fsync, crash, torn appends), a single-threaded executor with virtual time, and the libc
//! entry points the code reaches through `std::fs` and `std::time`.
//!
//! Disk model: every file keeps the contents it went through since it was last synced.  `fsync`,
//! `fdatasync` keep only the current one.  A crash leaves any of these contents, and an append in
//! progress may be torn after any byte.  Creating or unlinking a directory entry is durable at once.
use std::{future::Future, io, pin::Pin, sync::{Arc, Mutex, atomic::{AtomicBool, AtomicU64, Ordering}}, task::{Context, Poll, Wake, Waker}, time::{Duration, Instant, SystemTime}};
use fusio::{DynFs, IoBuf, IoBufMut, Read, Write, durability::FileCommit, dynamic::MaybeSendFuture, error::Error, executor::{Executor, JoinHandle, NoopMutex, NoopRwLock, Timer}, fs::{CasCondition, FileMeta, FileSystemTag, Fs, FsCas, OpenOptions}, path::Path};
use super::prelude::*;

// ---------------------------------------------------------------- disk
pub(crate) struct VState {
    /// name, contents since the last sync (the last entry is the current one; `None` = absent)
    pub files: Vec<(String, Vec<Option<Vec<u8>>>)>,
    /// the machine may stop before each modifying step while this is set
    pub armed: bool,
    pub dead: bool,
    /// one modifying step may fail while this is set (an append may then be partial)
    pub faulty: bool,
    pub faults: u32,
    /// modifying steps so far
    pub steps: u32,
    /// appends become visible in two halves, with other tasks running in between
    pub split: bool,
    /// appends are torn only near frame header boundaries and at either end
    pub coarse: bool,
    pub tag: u64,
    /// revision and metadata of files written by conditional put
    pub revs: Vec<(String, u64, Vec<(String, String)>)>,
    /// the task may be set aside once, before one of its metadata steps
    pub preempt: u32,
    pub reversed: bool,
    pub fds: Vec<String>,
}
static V: Mutex<VState> = Mutex::new(VState { files: Vec::new(), armed: false, dead: false, faulty: false, faults: 0, steps: 0, split: false, coarse: false, tag: 0, revs: Vec::new(), preempt: 0, reversed: false, fds: Vec::new() });
pub(crate) fn with<R>(f: impl FnOnce(&mut VState) -> R) -> R { f(&mut V.lock().unwrap()) }
fn eio() -> Error { Error::Io(io::Error::from_raw_os_error(5)) }
fn enoent() -> Error { Error::Io(io::Error::from_raw_os_error(2)) }
impl VState {
    fn cur(&self, n: &str) -> Option<&Vec<u8>> { self.files.iter().find(|f| f.0 == n).and_then(|f| f.1.last().unwrap().as_ref()) }
    fn rev(&self, n: &str) -> u64 { self.revs.iter().find(|r| r.0 == n).map(|r| r.1).unwrap_or(0) }
    fn step(&mut self) -> bool {
        if self.dead { return false; }
        if self.armed && flip() { self.dead = true; return false; }
        if self.faulty && flip() { self.faulty = false; self.faults += 1; return false; }
        self.steps += 1;
        true
    }
    fn push(&mut self, n: &str, c: Option<Vec<u8>>) {
        match self.files.iter_mut().find(|f| f.0 == n) { Some(f) => f.1.push(c), None => self.files.push((n.to_string(), vec![None, c])) }
    }
    fn sync(&mut self, n: &str) { if let Some(f) = self.files.iter_mut().find(|f| f.0 == n) { let l = f.1.pop().unwrap(); f.1.clear(); f.1.push(l); } }
}
/// Current contents of a file.
pub(crate) fn content(n: &str) -> Option<Vec<u8>> { with(|v| v.cur(n).cloned()) }
/// Create or replace a file, durably.
pub(crate) fn put(n: &str, c: Vec<u8>) { with(|v| { v.push(n, Some(c)); v.sync(n); }) }
pub(crate) fn names() -> Vec<String> { with(|v| { let mut r: Vec<String> = v.files.iter().filter(|f| f.1.last().unwrap().is_some()).map(|f| f.0.clone()).collect(); r.sort(); r }) }
pub(crate) fn reset() { with(|v| { v.files.clear(); v.armed = false; v.dead = false; v.faulty = false; v.faults = 0; v.steps = 0; v.split = false; v.coarse = false; v.tag = 0; v.revs.clear(); v.preempt = 0; v.reversed = false; v.fds.clear(); }); TASKS.lock().unwrap().clear(); NOW.store(1_000_000_000, Ordering::SeqCst); }
pub(crate) fn arm(on: bool) { with(|v| v.armed = on) }
pub(crate) fn faulty(on: bool) { with(|v| v.faulty = on) }
pub(crate) fn faults() -> u32 { with(|v| v.faults) }
pub(crate) fn dead() -> bool { with(|v| v.dead) }
pub(crate) fn steps() -> u32 { with(|v| v.steps) }
/// Whatever survives the crash is what the disk holds from now on.
pub(crate) fn reboot() {
    TASKS.lock().unwrap().clear();
    with(|v| {
        v.armed = false; v.dead = false; v.faulty = false; v.fds.clear();
        for f in v.files.iter_mut() {
            let n = f.1.len();
            if n == 1 { continue; }
            let i = choose(n as u64) as usize;
            let mut c = f.1[i].clone();
            if i + 1 < n {
                let have = c.as_ref().map(|x| x.len()).unwrap_or(0);
                if let Some(next) = &f.1[i + 1] {
                    if next.len() > have && c.as_ref().map(|x| next[..have] == x[..]).unwrap_or(true) {
                        let room = next.len() - have;
                        let extra = if v.coarse { let p: Vec<usize> = [0, 1, 23, 24, 25, room / 2, room - 1].into_iter().filter(|x| *x < room).collect(); p[choose(p.len() as u64) as usize] } else { choose(room as u64) as usize };
                        if extra > 0 { c = Some(next[..have + extra].to_vec()); }
                    }
                }
            }
            f.1 = vec![c];
        }
    });
}
#[derive(Clone)]
pub(crate) struct VFs(pub FileSystemTag);
pub(crate) struct VFile { name: String, append: bool, pos: usize, read: bool, write: bool }
pub(crate) struct Once(bool);
impl Future for Once { type Output = (); fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { if self.0 { return Poll::Ready(()); } self.0 = true; cx.waker().wake_by_ref(); Poll::Pending } }
/// Let the other tasks run.
pub(crate) fn yield_now() -> Once { Once(false) }
impl VFile {
    fn put(&mut self, b: &[u8]) -> Result<(), Error> {
        if !self.write { return Err(eio()); }
        with(|v| {
            let Some(mut c) = v.cur(&self.name).cloned() else { return Err(enoent()) };
            if b.is_empty() { return Ok(()); }
            if !v.step() {
                if !v.dead && self.append { let k = choose(2) as usize * (b.len() / 2); if k > 0 { c.extend_from_slice(&b[..k]); v.push(&self.name, Some(c)); } }
                return Err(eio());
            }
            let at = if self.append { c.len() } else { self.pos };
            if c.len() < at { c.resize(at, 0); }
            let n = (c.len() - at).min(b.len());
            c[at..at + n].copy_from_slice(&b[..n]);
            c.extend_from_slice(&b[n..]);
            self.pos = at + b.len();
            v.push(&self.name, Some(c));
            Ok(())
        })
    }
}
impl Write for VFile {
    async fn write_all<B: IoBuf>(&mut self, buf: B) -> (Result<(), Error>, B) {
        let split = with(|v| v.split) && self.append;
        let n = buf.bytes_init();
        let k = if split { n / 2 } else { n };
        if let Err(e) = self.put(&buf.as_slice()[..k]) { return (Err(e), buf); }
        if k < n {
            yield_now().await;
            if let Err(e) = self.put(&buf.as_slice()[k..]) { return (Err(e), buf); }
        }
        (Ok(()), buf)
    }
    async fn flush(&mut self) -> Result<(), Error> { if dead() { Err(eio()) } else { Ok(()) } }
    async fn close(&mut self) -> Result<(), Error> { if dead() { Err(eio()) } else { Ok(()) } }
}
impl Read for VFile {
    async fn read_exact_at<B: IoBufMut>(&mut self, mut buf: B, pos: u64) -> (Result<(), Error>, B) {
        let c = if self.read { content(&self.name) } else { None };
        let n = buf.bytes_init();
        match c {
            Some(c) if pos as usize + n <= c.len() => { buf.as_slice_mut().copy_from_slice(&c[pos as usize..pos as usize + n]); (Ok(()), buf) }
            _ => (Err(Error::Io(io::Error::from(io::ErrorKind::UnexpectedEof))), buf),
        }
    }
    async fn read_to_end_at(&mut self, mut buf: Vec<u8>, pos: u64) -> (Result<(), Error>, Vec<u8>) {
        if dead() || !self.read { return (Err(eio()), buf); }
        match content(&self.name) {
            Some(c) if pos as usize <= c.len() => { buf.extend_from_slice(&c[pos as usize..]); (Ok(()), buf) }
            _ => (Err(enoent()), buf),
        }
    }
    async fn size(&self) -> Result<u64, Error> { if dead() { return Err(eio()); } content(&self.name).map(|c| c.len() as u64).ok_or_else(enoent) }
}
impl FileCommit for VFile { async fn commit(&mut self) -> Result<(), Error> { if dead() { return Err(eio()); } with(|v| v.sync(&self.name)); Ok(()) } }
fn open_at(name: &str, o: &OpenOptions) -> Result<VFile, Error> {
    with(|v| {
        if v.dead { return Err(eio()); }
        match v.cur(name) {
            None => { if !o.create { return Err(enoent()); } if !v.step() { return Err(eio()); } v.push(name, Some(vec![])); }
            Some(c) => if o.truncate && !c.is_empty() { if !v.step() { return Err(eio()); } v.push(name, Some(vec![])); }
        }
        Ok(VFile { name: name.to_string(), append: !o.truncate, pos: 0, read: o.read, write: o.write || !o.truncate })
    })
}
impl Fs for VFs {
    type File = VFile;
    fn file_system(&self) -> FileSystemTag { self.0 }
    async fn open_options(&self, path: &Path, options: OpenOptions) -> Result<VFile, Error> { open_at(path.as_ref(), &options) }
    async fn create_dir_all(_path: &Path) -> Result<(), Error> { if dead() { Err(eio()) } else { Ok(()) } }
    async fn list(&self, path: &Path) -> Result<impl futures::Stream<Item = Result<FileMeta, Error>> + fusio::MaybeSend, Error> {
        if dead() { return Err(eio()); }
        let p = path.as_ref().to_string();
        let rev = with(|v| v.reversed);
        let mut m: Vec<Result<FileMeta, Error>> = with(|v| v.files.iter().filter(|f| f.0.starts_with(&p) && f.1.last().unwrap().is_some()).map(|f| Ok(FileMeta { path: Path::from(f.0.as_str()), size: f.1.last().unwrap().as_ref().unwrap().len() as u64 })).collect());
        if rev { m.reverse(); }
        Ok(futures::stream::iter(m))
    }
    async fn remove(&self, path: &Path) -> Result<(), Error> { preemption_point().await; with(|v| { if v.cur(path.as_ref()).is_none() { return Err(enoent()); } if !v.step() { return Err(eio()); } v.push(path.as_ref(), None); v.sync(path.as_ref()); Ok(()) }) }
    async fn copy(&self, from: &Path, to: &Path) -> Result<(), Error> { with(|v| { let Some(c) = v.cur(from.as_ref()).cloned() else { return Err(enoent()) }; if !v.step() { return Err(eio()); } v.push(to.as_ref(), Some(c)); Ok(()) }) }
    async fn link(&self, from: &Path, to: &Path) -> Result<(), Error> { Fs::copy(self, from, to).await }
    async fn exists(&self, path: &Path) -> Result<bool, Error> { Ok(content(path.as_ref()).is_some()) }
}
/// A point where another task may run first.
pub(crate) async fn preemption_point() { if with(|v| v.preempt > 0) && flip() { with(|v| v.preempt -= 1); yield_now().await } }
/// Let the task be set aside before up to `n` of its metadata steps.
pub(crate) fn preemptible(n: u32) { with(|v| v.preempt = n) }
/// Atomic, durable conditional replace.
impl FsCas for VFs {
    fn load_with_tag(&self, path: &Path) -> Pin<Box<dyn MaybeSendFuture<Output = Result<Option<(Vec<u8>, String)>, Error>> + '_>> {
        let n = path.as_ref().to_string();
        Box::pin(async move {
            preemption_point().await;
            if dead() { return Err(eio()); }
            Ok(with(|v| v.cur(&n).cloned().map(|c| (c, v.rev(&n).to_string()))))
        })
    }
    fn put_conditional(&self, path: &Path, payload: &[u8], _ct: Option<&str>, md: Option<Vec<(String, String)>>, condition: CasCondition) -> Pin<Box<dyn MaybeSendFuture<Output = Result<String, Error>> + '_>> {
        let n = path.as_ref().to_string();
        let p = payload.to_vec();
        Box::pin(async move {
            preemption_point().await;
            with(|v| {
                let old = v.cur(&n).map(|_| v.rev(&n).to_string());
                let ok = match (&condition, &old) { (CasCondition::IfNotExists, None) => true, (CasCondition::IfMatch(t), Some(o)) => t == o, _ => false };
                if !ok { return Err(Error::PreconditionFailed); }
                if !v.step() { return Err(eio()); }
                v.tag += 1;
                v.revs.retain(|r| r.0 != n);
                let t = v.tag;
                v.revs.push((n.clone(), t, md.unwrap_or_default()));
                v.push(&n, Some(p));
                v.sync(&n);
                Ok(t.to_string())
            })
        })
    }
}
impl fusio_manifest::ObjectHead for VFs {
    fn head_metadata<'a>(&'a self, path: &'a Path) -> Pin<Box<dyn MaybeSendFuture<Output = Result<Option<std::collections::HashMap<String, String>>, Error>> + 'a>> {
        let n = path.as_ref().to_string();
        Box::pin(async move {
            preemption_point().await;
            if dead() { return Err(eio()); }
            Ok(with(|v| v.cur(&n).map(|_| v.revs.iter().find(|r| r.0 == n).map(|r| r.2.iter().cloned().collect()).unwrap_or_default())))
        })
    }
}
pub(crate) fn local_fs() -> Arc<dyn DynFs> { Arc::new(VFs(FileSystemTag::Local)) }

// ---------------------------------------------------------------- libc entry points reached through std
unsafe extern "C" { fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; }
const FD0: i32 = 1000;
fn fail(e: i32) -> i32 { unsafe { *__errno_location() = e }; -1 }
#[unsafe(no_mangle)]
pub extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
    let p = unsafe { std::ffi::CStr::from_ptr(path as *const _) }.to_bytes();
    if !p.starts_with(b"/vfs/") { return unsafe { syscall(257, -100i64, path, flags as i64, mode as i64) as i32 }; }
    let n = unsafe { std::str::from_utf8_unchecked(&p[1..]) };
    let o = OpenOptions { create: flags & 0o100 != 0, truncate: flags & 0o1000 != 0, write: true, ..OpenOptions::default() };
    match open_at(n, &o) {
        Ok(_) => with(|v| { v.fds.push(n.to_string()); FD0 + v.fds.len() as i32 - 1 }),
        Err(Error::Io(e)) => fail(e.raw_os_error().unwrap_or(5)),
        Err(_) => fail(5),
    }
}
fn fd_sync(fd: i32) -> i32 {
    let r = with(|v| { let n = v.fds[(fd - FD0) as usize].clone(); if !v.step() { return false; } v.sync(&n); true });
    if r { 0 } else { fail(5) }
}
#[unsafe(no_mangle)]
pub extern "C" fn fsync(fd: i32) -> i32 { if fd < FD0 { return unsafe { syscall(74, fd as i64) as i32 }; } fd_sync(fd) }
#[unsafe(no_mangle)]
pub extern "C" fn fdatasync(fd: i32) -> i32 { if fd < FD0 { return unsafe { syscall(75, fd as i64) as i32 }; } fd_sync(fd) }
#[unsafe(no_mangle)]
pub extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    if fd < FD0 { return unsafe { syscall(77, fd as i64, len) as i32 }; }
    let r = with(|v| { let n = v.fds[(fd - FD0) as usize].clone(); let mut c = v.cur(&n).cloned().unwrap_or_default(); if !v.step() { return false; } c.resize(len as usize, 0); v.push(&n, Some(c)); true });
    if r { 0 } else { fail(5) }
}
#[unsafe(no_mangle)]
pub extern "C" fn close(fd: i32) -> i32 { if fd < FD0 { return unsafe { syscall(3, fd as i64) as i32 }; } 0 }
#[unsafe(no_mangle)]
pub extern "C" fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32 { if fd < FD0 { return unsafe { syscall(72, fd as i64, cmd as i64, arg) as i32 }; } 0 }
#[unsafe(no_mangle)]
pub extern "C" fn __xpg_strerror_r(_e: i32, buf: *mut u8, _n: usize) -> i32 { unsafe { *buf = b'E'; *buf.add(1) = 0; } 0 }
/// Randomness (hash seeds, identifiers, jitter) is fixed.
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize { unsafe { std::ptr::write_bytes(buf, 0x5a, n) }; n as isize }
#[unsafe(no_mangle)]
pub extern "C" fn dlsym(_h: *mut u8, name: *const i8) -> *const u8 { if unsafe { std::ffi::CStr::from_ptr(name as *const _) }.to_bytes() == b"getrandom" { getrandom as *const u8 } else { std::ptr::null() } }
static NOW: AtomicU64 = AtomicU64::new(1_000_000_000);
#[unsafe(no_mangle)]
pub extern "C" fn clock_gettime(_clk: i32, ts: *mut [i64; 2]) -> i32 {
    let n = NOW.load(Ordering::SeqCst);
    unsafe { (*ts)[0] = (n / 1_000_000_000) as i64; (*ts)[1] = (n % 1_000_000_000) as i64; }
    0
}
pub(crate) fn advance(d: Duration) { NOW.fetch_add(d.as_nanos() as u64, Ordering::SeqCst); }

// ---------------------------------------------------------------- executor
type Task = Pin<Box<dyn Future<Output = ()> + Send>>;
static TASKS: Mutex<Vec<Option<Task>>> = Mutex::new(Vec::new());
static NEXT: Mutex<Option<u64>> = Mutex::new(None);
struct Woken(AtomicBool);
impl Wake for Woken { fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) } }
#[derive(Clone)]
pub(crate) struct VExec;
pub(crate) struct VJoin<R>(Arc<Mutex<Option<R>>>);
impl<R: Send> JoinHandle<R> for VJoin<R> {
    fn join(self) -> impl Future<Output = Result<R, Box<dyn std::error::Error + Send + Sync>>> + Send {
        async move { loop { let x = self.0.lock().unwrap().take(); if let Some(x) = x { return Ok(x); } idle().await; } }
    }
}
/// Pending once, without waking: resumes when something else made progress.
fn idle() -> impl Future<Output = ()> { let mut first = true; std::future::poll_fn(move |_| if first { first = false; Poll::Pending } else { Poll::Ready(()) }) }
impl Executor for VExec {
    type JoinHandle<R> = VJoin<R> where R: Send;
    type Mutex<T> = NoopMutex<T> where T: Send + Sync;
    type RwLock<T> = NoopRwLock<T> where T: Send + Sync;
    fn spawn<F>(&self, future: F) -> VJoin<F::Output> where F: Future + Send + 'static, F::Output: Send {
        let slot = Arc::new(Mutex::new(None));
        let out = slot.clone();
        // the output type is not known to be 'static: the slot is only reached through the task and its handle
        let t: Pin<Box<dyn Future<Output = ()> + Send + '_>> = Box::pin(async move { let r = future.await; *out.lock().unwrap() = Some(r); });
        let t: Task = unsafe { std::mem::transmute(t) };
        TASKS.lock().unwrap().push(Some(t));
        VJoin(slot)
    }
    fn mutex<T: Send + Sync>(value: T) -> NoopMutex<T> { NoopMutex::new(value) }
    fn rw_lock<T: Send + Sync>(value: T) -> NoopRwLock<T> { NoopRwLock::new(value) }
}
struct Sleep(u64);
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if NOW.load(Ordering::SeqCst) >= self.0 { return Poll::Ready(()); }
        let mut n = NEXT.lock().unwrap();
        *n = Some(n.map_or(self.0, |x| x.min(self.0)));
        Poll::Pending
    }
}
impl VExec { pub(crate) fn sleep_ms(&self, ms: u64) -> Pin<Box<dyn MaybeSendFuture<Output = ()>>> { Timer::sleep(self, Duration::from_millis(ms)) } }
impl Timer for VExec {
    fn sleep(&self, dur: Duration) -> Pin<Box<dyn MaybeSendFuture<Output = ()>>> { Box::pin(Sleep(NOW.load(Ordering::SeqCst).saturating_add(dur.as_nanos().min(u64::MAX as u128 / 2) as u64))) }
    fn now(&self) -> Instant { Instant::now() }
    fn system_time(&self) -> SystemTime { SystemTime::UNIX_EPOCH + Duration::from_nanos(NOW.load(Ordering::SeqCst)) }
}
/// Run `main` and the spawned tasks until `main` is done; time advances only when nothing can run.
pub(crate) fn block_on<F: Future>(main: F) -> F::Output {
    let mut main = std::pin::pin!(main);
    let w = Arc::new(Woken(AtomicBool::new(false)));
    let waker: Waker = w.clone().into();
    let mut cx = Context::from_waker(&waker);
    for _ in 0..10_000 {
        w.0.store(false, Ordering::SeqCst);
        *NEXT.lock().unwrap() = None;
        if let Poll::Ready(x) = main.as_mut().poll(&mut cx) { return x; }
        let mut progress = false;
        let mut i = 0;
        loop {
            let t = { let mut ts = TASKS.lock().unwrap(); if i >= ts.len() { break; } ts[i].take() };
            if let Some(mut t) = t {
                if t.as_mut().poll(&mut cx).is_ready() { progress = true; } else { TASKS.lock().unwrap()[i] = Some(t); }
            }
            i += 1;
        }
        if !progress && !w.0.load(Ordering::SeqCst) {
            let n = *NEXT.lock().unwrap();
            match n { Some(t) => NOW.store(t, Ordering::SeqCst), None => panic!("deadlock: no task can make progress") }
        }
    }
    panic!("no end after 10000 rounds")
}
/// Run the spawned tasks until none can proceed without time passing.
pub(crate) fn settle() { block_on(async { for _ in 0..8 { yield_now().await; } }) }
