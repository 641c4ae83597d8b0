//! Server processes under test.

use std::fs::{self, File};
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Simple,
    Multi,
    Async,
}

pub const KINDS: [Kind; 3] = [Kind::Simple, Kind::Multi, Kind::Async];

impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Simple => "simple",
            Kind::Multi => "multi",
            Kind::Async => "async",
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub recv_max: usize,
    pub send_max: usize,
    pub sleep_div: usize,
    pub delay: usize,
    pub delay_max: usize,
    pub send_delay: usize,
    pub send_buffer: usize,
    pub clock: bool,
    pub files: Option<u64>,
    pub seed: u64,
    /// keep what the server prints
    pub output: bool,
}

/// Where things are
#[derive(Clone, Debug)]
pub struct Env {
    pub bin: PathBuf,
    pub shim: PathBuf,
    pub tmp: PathBuf,
}

pub struct Server {
    pub kind: Kind,
    pub port: u16,
    child: Child,
    dir: PathBuf,
    clock: Option<File>,
    exited: Option<std::process::ExitStatus>,
}

static COUNTER: AtomicU64 = AtomicU64::new(0);

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}

extern "C" {
    fn setrlimit(r: i32, l: *const RLimit) -> i32;
}

impl Server {
    pub fn start(env: &Env, kind: Kind, o: &Opts) -> Result<Server, String> {
        let n = COUNTER.fetch_add(1, Ordering::Relaxed);
        let dir = env.tmp.join(format!("srv{}", n));
        fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let port_file = dir.join("port");
        let clock_file = dir.join("clock");
        fs::write(&clock_file, [0u8; 8]).map_err(|e| e.to_string())?;
        let mut c = Command::new(env.bin.join(format!("{}_server", kind.name())));
        let blocking = kind != Kind::Async;
        c.current_dir(&dir)
            .env("LD_PRELOAD", &env.shim)
            .env("VP_PORTFILE", &port_file)
            .env("VP_RECVMAX", if blocking { o.recv_max } else { 0 }.to_string())
            .env("VP_SENDMAX", if blocking { o.send_max } else { 0 }.to_string())
            .env("VP_SLEEPDIV", o.sleep_div.max(1).to_string())
            .env("VP_DELAY", o.delay.to_string())
            .env("VP_DELAYMAX", o.delay_max.to_string())
            .env("VP_SENDDELAY", o.send_delay.to_string())
            .env("VP_SENDBUF", o.send_buffer.to_string())
            .env("VP_SEED", (o.seed + n).to_string())
            .env("RUST_BACKTRACE", "0")
            .env("MALLOC_MMAP_THRESHOLD_", "131072")
            .env("MALLOC_ARENA_MAX", "4")
            .stdin(Stdio::null())
            .stdout(if o.output { File::create(dir.join("stdout")).map_err(|e| e.to_string())?.into() } else { Stdio::null() })
            .stderr(File::create(dir.join("stderr")).map_err(|e| e.to_string())?);
        if o.clock {
            c.env("VP_CLOCK", &clock_file);
        }
        if let Some(files) = o.files {
            unsafe {
                c.pre_exec(move || {
                    setrlimit(7, &RLimit { cur: files, max: files });
                    Ok(())
                });
            }
        }
        let child = c.spawn().map_err(|e| format!("cannot start {:?}: {}", c, e))?;
        let clock = if o.clock { File::options().write(true).open(&clock_file).ok() } else { None };
        let mut s = Server { kind, port: 0, child, dir, clock, exited: None };
        let t = Instant::now();
        loop {
            if let Some(p) = fs::read_to_string(&port_file).ok().and_then(|p| p.trim().parse().ok()) {
                s.port = p;
                return Ok(s);
            }
            if let Some(st) = s.exit() {
                return Err(format!("the {} server ended with {} while starting: {}", kind.name(), st, s.stderr()));
            }
            if t.elapsed() > Duration::from_secs(60) {
                return Err(format!("the {} server did not start listening", kind.name()));
            }
            std::thread::sleep(Duration::from_millis(3));
        }
    }

    pub fn pid(&self) -> u32 {
        self.child.id()
    }

    /// How it ended, if it has
    pub fn exit(&mut self) -> Option<String> {
        if self.exited.is_none() {
            self.exited = self.child.try_wait().unwrap_or(None);
        }
        self.exited.map(|st| match (st.code(), st.signal()) {
            (Some(c), _) => format!("exit status {}", c),
            (None, Some(s)) => format!("signal {}", s),
            _ => "unknown status".into(),
        })
    }

    pub fn wait_exit(&mut self, limit: Duration) -> Option<String> {
        let t = Instant::now();
        loop {
            if let Some(s) = self.exit() {
                return Some(s);
            }
            if t.elapsed() > limit {
                return None;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }

    pub fn stderr(&self) -> String {
        let b = fs::read(self.dir.join("stderr")).unwrap_or_default();
        String::from_utf8_lossy(&b).chars().take(3000).collect()
    }

    /// Panic messages so far
    /// All that the server has printed
    pub fn output(&self) -> String {
        let b = fs::read(self.dir.join("stdout")).unwrap_or_default();
        String::from_utf8_lossy(&b).into_owned() + &self.stderr()
    }

    pub fn panics(&self) -> Option<String> {
        let e = self.stderr();
        if e.contains("panicked at") || e.contains("fatal runtime error") || e.contains("stack overflow") {
            Some(e)
        } else {
            None
        }
    }

    /// Is it still running without having panicked?
    pub fn healthy(&mut self) -> Result<(), String> {
        if let Some(s) = self.exit() {
            return Err(format!("the {} server ended with {}: {}", self.kind.name(), s, self.stderr()));
        }
        match self.panics() {
            Some(p) => Err(format!("the {} server panicked: {}", self.kind.name(), p)),
            None => Ok(()),
        }
    }

    /// Shift its wall clock
    pub fn set_clock(&self, ns: i64) {
        self.clock.as_ref().expect("clock").write_all_at(&ns.to_ne_bytes(), 0).expect("clock");
    }

    /// CPU seconds used so far
    pub fn cpu(&self) -> f64 {
        let s = fs::read_to_string(format!("/proc/{}/stat", self.pid())).unwrap_or_default();
        let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        let tick = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
        (tick(11) + tick(12)) / 100.0
    }

    pub fn open_files(&self) -> usize {
        fs::read_dir(format!("/proc/{}/fd", self.pid())).map(|d| d.count()).unwrap_or(0)
    }

    /// Resident memory in MB
    pub fn memory(&self) -> f64 {
        let s = fs::read_to_string(format!("/proc/{}/statm", self.pid())).unwrap_or_default();
        s.split_whitespace().nth(1).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) * 4096.0 / 1e6
    }

    pub fn threads(&self) -> usize {
        fs::read_dir(format!("/proc/{}/task", self.pid())).map(|d| d.count()).unwrap_or(0)
    }

    pub fn kill(&mut self) {
        self.child.kill().ok();
        self.exited = self.child.wait().ok().or(self.exited);
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.kill();
        fs::remove_dir_all(&self.dir).ok();
    }
}
