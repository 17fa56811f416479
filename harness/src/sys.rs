//! The few system calls std does not have.
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32;
    fn kill(pid: i32, signal: i32) -> i32;
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
    fn signal(signal: i32, handler: usize) -> usize;
}

/// The CPU time clock of the calling thread, usable from other threads
pub fn thread_clock() -> i32 {
    let mut c = 0;
    unsafe {
        pthread_getcpuclockid(pthread_self(), &mut c);
    }
    c
}

pub fn clock_ns(clock: i32) -> u64 {
    let mut ts = [0i64; 2];
    if unsafe { clock_gettime(clock, &mut ts) } != 0 {
        return 0;
    }
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

thread_local! {
    static SHARD: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// The CPU time clocks of threads that run a part of a case of a shard, or 0
static HELPERS: [AtomicU64; 8] = [const { AtomicU64::new(0) }; 8];

/// Says which shard the calling thread runs
pub fn set_shard(n: usize) {
    SHARD.with(|s| s.set(n));
}

/// The CPU time that a part of a case of a shard has used in a thread of its own
pub fn helper_ns(shard: usize) -> u64 {
    match HELPERS[shard].load(Ordering::SeqCst) {
        0 => 0,
        clock => clock_ns(clock as i32),
    }
}

/// Runs a part of a case on a stack of this size, such that the time it uses is watched
pub fn on_stack<R: Send>(size: usize, f: impl FnOnce() -> R + Send) -> R {
    struct Watched(usize);
    impl Drop for Watched {
        fn drop(&mut self) {
            HELPERS[self.0].store(0, Ordering::SeqCst);
        }
    }
    let shard = SHARD.with(|s| s.get());
    std::thread::scope(|s| {
        let body = || {
            let _watched = Watched(shard);
            HELPERS[shard].store(thread_clock() as u64, Ordering::SeqCst);
            f()
        };
        let t = std::thread::Builder::new().stack_size(size).spawn_scoped(s, body);
        t.unwrap().join().unwrap_or_else(|p| std::panic::resume_unwind(p))
    })
}

/// Kill this process when it has used this many seconds of CPU time
pub fn limit_cpu(s: u64) {
    const RLIMIT_CPU: i32 = 0;
    unsafe {
        setrlimit(RLIMIT_CPU, &[s, s + 5]);
    }
}

/// Let allocations of this process fail beyond this many bytes
pub fn limit_memory(n: u64) {
    const RLIMIT_AS: i32 = 9;
    unsafe {
        setrlimit(RLIMIT_AS, &[n, n]);
    }
}

/// Let files that this command writes have no more than this many bytes
pub fn limit_files(cmd: &mut std::process::Command, n: u64) {
    use std::os::unix::process::CommandExt;
    const RLIMIT_FSIZE: i32 = 1;
    const SIGXFSZ: i32 = 25;
    const SIG_IGN: usize = 1;
    unsafe {
        cmd.pre_exec(move || {
            // the write fails, instead of a signal
            signal(SIGXFSZ, SIG_IGN);
            setrlimit(RLIMIT_FSIZE, &[n, n]);
            Ok(())
        });
    }
}

/// A new directory for the files of this run
pub fn scratch(what: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("hmlverif-{}-{}", what, std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// A new directory in that of the run, for a thread
pub fn sub_scratch() -> PathBuf {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let d = PathBuf::from(needed("HMLVERIF_WORK")).join(format!("t{}-{n}", std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&d) {
        give_up(&e.to_string());
    }
    d
}

/// The check cannot be made
pub fn give_up(m: &str) -> ! {
    eprintln!("error: {m}");
    std::process::exit(3);
}

pub fn needed(var: &str) -> String {
    std::env::var(var).unwrap_or_else(|_| give_up(&format!("{var} is not set")))
}

/// Kills a process that runs too long, and gives up
pub struct Watch(std::sync::mpsc::Sender<()>);
impl Watch {
    pub fn new(pid: u32, seconds: u64) -> Watch {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let r = rx.recv_timeout(std::time::Duration::from_secs(seconds));
            if r == Err(std::sync::mpsc::RecvTimeoutError::Timeout) {
                unsafe {
                    kill(pid as i32, 9);
                }
                give_up("a program did not finish");
            }
        });
        Watch(tx)
    }
    pub fn stop(self) {
        let _ = self.0.send(());
    }
}
