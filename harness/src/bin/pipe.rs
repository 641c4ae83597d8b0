//! The multi-threaded server's workers in process, fed by a mock stream handler: mostly run under sanitizers.

use std::collections::{BTreeSet, HashMap};
use std::net::{IpAddr, Ipv4Addr, TcpListener};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc::{self, Receiver, Sender};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

use serde_json::json;
use server::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Statement, Tokenizer};
use server::auth::{AuthenticationResult, AuthenticationService, AuthorizationLevel, MockAuthenticator};
use server::error::ServerError;
use server::io::stream::{StreamHandler, StreamRequest, StreamSender};
use server::multithreaded::analysis::{AnalysisPool, AnalysisRequest};
use server::multithreaded::executor::{Executor, ExecutorRequest, ExecutorResponse};
use server::multithreaded::expiration::ExpirationWorker;
use server::multithreaded::listener::ListenerPool;
use server::multithreaded::Coordinator;
use server::single_threaded::SingleThreadedServer;
use server::storage::hashmap_storage::HashMapStorage;
use server::storage::Storage;
use vmon::conc::{append_run, drained, late_run, lin_run, AppendLoad, Slow, Target};
use vmon::gen::{self, Profile, Style};
use vmon::http::{self, Reply};
use vmon::model::{answer_of, op_of, to_statement, Level, Model, Op, Resp, EK};
use vmon::refparse;
use vmon::report::{hash_of, Args, Report};
use vmon::rng::Rng;
use vmon::texts::{gen_text_op, mutate, soup_text, FRINGE};

type Fail = (&'static str, String);
type Outcome = Result<(), Fail>;
type ServerAnswer = Result<InterpreterResponse, ServerError>;

const MIRI: bool = cfg!(miri);

/// Everything that takes long does so here
fn patience() -> Duration {
    Duration::from_secs(if MIRI { 600 } else { 40 })
}

// ------------------------------------------------------------------------------------- sleeping faster

#[cfg(not(miri))]
mod sleep {
    //! Long sleeps of the code under test (not of the monitor) are divided by VP_SLEEPDIV
    use std::sync::atomic::{AtomicI64, Ordering};

    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct Timespec {
        sec: i64,
        nsec: i64,
    }

    pub static DIV: AtomicI64 = AtomicI64::new(1);

    extern "C" {
        fn syscall(n: i64, ...) -> i64;
        fn __errno_location() -> *mut i32;
    }

    #[no_mangle]
    pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, t: *const Timespec, rem: *mut Timespec) -> i32 {
        let div = DIV.load(Ordering::Relaxed).max(1);
        let mut want = *t;
        let mut flags = flags;
        if div > 1 {
            let mut left = want.sec as i128 * 1_000_000_000 + want.nsec as i128;
            if flags & 1 == 1 {
                let mut now = Timespec { sec: 0, nsec: 0 };
                syscall(228, id as i64, &mut now as *mut Timespec);
                left -= now.sec as i128 * 1_000_000_000 + now.nsec as i128;
            }
            if left >= 500_000_000 {
                left /= div as i128;
                want = Timespec { sec: (left / 1_000_000_000) as i64, nsec: (left % 1_000_000_000) as i64 };
                flags &= !1;
            }
        }
        let r = syscall(230, id as i64, flags as i64, &want as *const Timespec, rem);
        if r == 0 {
            0
        } else {
            *__errno_location()
        }
    }
}

fn divide_sleeps(_by: i64) {
    #[cfg(not(miri))]
    sleep::DIV.store(_by, Ordering::Relaxed);
}

// ------------------------------------------------------------------------------------- what panicked

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn panics() -> Outcome {
    let p = PANICS.lock().unwrap();
    if p.is_empty() {
        Ok(())
    } else {
        Err(("panic", p.join("\n")))
    }
}

// ------------------------------------------------------------------------------------- threads

/// Threads by id and start time
fn threads() -> BTreeSet<(u32, u64)> {
    let mut out = BTreeSet::new();
    if MIRI {
        return out;
    }
    if let Ok(d) = std::fs::read_dir("/proc/self/task") {
        for e in d.flatten() {
            if let Ok(s) = std::fs::read_to_string(e.path().join("stat")) {
                let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
                if let (Ok(tid), Some(Ok(start))) = (e.file_name().to_string_lossy().parse(), f.get(19).map(|x| x.parse())) {
                    out.insert((tid, start));
                }
            }
        }
    }
    out
}

/// Threads that are there to stay
fn lasting() -> BTreeSet<(u32, u64)> {
    let mut t = threads();
    for _ in 0..4 {
        nap(60);
        let u = threads();
        t.retain(|x| u.contains(x));
    }
    t
}

fn nap(ms: u64) {
    // not through the sleep that is divided
    let t = Instant::now();
    let d = Duration::from_millis(ms);
    while t.elapsed() < d {
        std::thread::sleep((d - t.elapsed().min(d)).min(Duration::from_millis(100)));
    }
}

// ------------------------------------------------------------------------------------- clients

#[derive(Default)]
struct Slot {
    answers: Mutex<Vec<ServerAnswer>>,
    arrived: Condvar,
    dropped: AtomicBool,
}

impl Slot {
    fn wait(&self, d: Duration) -> bool {
        let t = Instant::now();
        let mut a = self.answers.lock().unwrap();
        while a.is_empty() {
            let left = d.saturating_sub(t.elapsed());
            if left.is_zero() || (self.dropped.load(Ordering::SeqCst) && t.elapsed() > Duration::from_secs(3)) {
                return false;
            }
            a = self.arrived.wait_timeout(a, left.min(Duration::from_millis(200))).unwrap().0;
        }
        true
    }
    fn count(&self) -> usize {
        self.answers.lock().unwrap().len()
    }
}

struct MockSender {
    slot: Arc<Slot>,
    gone: bool,
}

impl StreamSender for MockSender {
    fn send(&mut self, response: ServerAnswer) -> Result<(), ServerError> {
        self.slot.answers.lock().unwrap().push(response);
        self.slot.arrived.notify_all();
        if self.gone {
            return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
        }
        Ok(())
    }
}

impl Drop for MockSender {
    fn drop(&mut self) {
        self.slot.dropped.store(true, Ordering::SeqCst);
        self.slot.arrived.notify_all();
    }
}

struct MockHandler(Receiver<StreamRequest>);

impl StreamHandler for MockHandler {
    fn receive_request(&mut self) -> Option<StreamRequest> {
        match self.0.recv_timeout(Duration::from_millis(3)) {
            Ok(r) => Some(r),
            Err(mpsc::RecvTimeoutError::Timeout) => None,
            Err(mpsc::RecvTimeoutError::Disconnected) => {
                std::thread::sleep(Duration::from_millis(3));
                None
            }
        }
    }
}

fn headers(user: Option<&str>) -> HashMap<String, String> {
    user.map(|u| ("Username".to_string(), u.to_string())).into_iter().collect()
}

/// The place requests come from
struct Door {
    tx: Mutex<Sender<StreamRequest>>,
    slots: Mutex<Vec<(Arc<Slot>, String)>>,
}

impl Door {
    fn new() -> (Door, MockHandler) {
        let (tx, rx) = mpsc::channel();
        (Door { tx: Mutex::new(tx), slots: Mutex::new(vec![]) }, MockHandler(rx))
    }
    fn send(&self, user: Option<&str>, request: Result<String, ServerError>, gone: bool) -> Arc<Slot> {
        let slot = Arc::new(Slot::default());
        self.slots.lock().unwrap().push((Arc::clone(&slot), format!("{:?} by {:?}", request, user)));
        let sender: Box<dyn StreamSender + Send> = Box::new(MockSender { slot: Arc::clone(&slot), gone });
        self.tx.lock().unwrap().send(StreamRequest { request, headers: headers(user), sender: Some(sender) }).ok();
        slot
    }
    fn send_blind(&self, user: Option<&str>, request: &str) {
        self.tx.lock().unwrap().send(StreamRequest { request: Ok(request.into()), headers: headers(user), sender: None }).ok();
    }
    /// Every request was answered once and let go of
    fn audit(&self) -> Outcome {
        let t = Instant::now();
        let slots = self.slots.lock().unwrap();
        for (s, what) in slots.iter() {
            while (s.count() == 0 || !s.dropped.load(Ordering::SeqCst)) && t.elapsed() < patience() {
                nap(2);
            }
            match s.count() {
                0 => return Err(("no_answer", format!("no answer to {}", cut(what)))),
                1 => (),
                n => return Err(("many_answers", format!("{} answers to {}: {:?}", n, cut(what), s.answers.lock().unwrap()))),
            }
            if !s.dropped.load(Ordering::SeqCst) {
                return Err(("kept_open", format!("the connection of {} was not let go of", cut(what))));
            }
        }
        Ok(())
    }
}

fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}

fn timed_out(a: &ServerAnswer) -> bool {
    matches!(a, Err(ServerError::InternalError(m)) if vmon::http::says_timeout(m))
}

fn reply(slot: &Slot) -> Reply {
    if !slot.wait(patience()) {
        return Reply::Broken("no answer".into());
    }
    let a = slot.answers.lock().unwrap();
    if timed_out(&a[0]) {
        return Reply::TimedOut;
    }
    match answer_of(&a[0]) {
        Ok(x) => Reply::Answer(x),
        Err(e) => Reply::Broken(e),
    }
}

impl Target for Door {
    fn ask(&self, user: &str, query: &str) -> Reply {
        reply(&self.send(Some(user), Ok(query.into()), false))
    }
}

// ------------------------------------------------------------------------------------- the workers

struct Pipe {
    door: Arc<Door>,
    listeners: ListenerPool<MockHandler, MockAuthenticator>,
    analysis: AnalysisPool,
    executor: Executor,
    expiration: Option<ExpirationWorker>,
    flag: Arc<AtomicBool>,
    handler: Arc<Mutex<MockHandler>>,
    auth: Arc<Mutex<MockAuthenticator>>,
    requests: Arc<Mutex<Receiver<AnalysisRequest>>>,
    before: BTreeSet<(u32, u64)>,
}

impl Pipe {
    fn start(l: usize, a: usize, expire: bool) -> Pipe {
        let before = threads();
        let (door, handler) = Door::new();
        let handler = Arc::new(Mutex::new(handler));
        let auth = Arc::new(Mutex::new(MockAuthenticator));
        let (to_analysis, rx) = mpsc::channel();
        let requests = Arc::new(Mutex::new(rx));
        let (to_executor, rx) = mpsc::channel();
        let flag = Arc::new(AtomicBool::new(false));
        let mut p = Pipe {
            door: Arc::new(door),
            listeners: ListenerPool::new(l, to_analysis, Arc::clone(&handler), Arc::clone(&auth)),
            analysis: AnalysisPool::new(a, to_executor.clone(), Arc::clone(&requests)),
            executor: Executor::new(rx, Arc::clone(&flag)),
            expiration: if expire { Some(ExpirationWorker::new(to_executor.clone())) } else { None },
            flag,
            handler,
            auth,
            requests,
            before,
        };
        p.executor.start();
        p.analysis.start();
        p.listeners.start();
        if let Some(e) = &mut p.expiration {
            e.start();
        }
        p
    }
    /// As the coordinator does it; how long it took
    fn stop(mut self) -> Result<Duration, Fail> {
        let before = self.before.clone();
        let door = Arc::clone(&self.door);
        let (handler, auth, requests) = (Arc::clone(&self.handler), Arc::clone(&self.auth), Arc::clone(&self.requests));
        let t = Instant::now();
        let (done, over) = mpsc::channel();
        let stopper = std::thread::spawn(move || {
            self.listeners.stop();
            self.analysis.stop();
            if let Some(e) = &mut self.expiration {
                e.stop();
            }
            self.executor.stop();
            done.send(()).ok();
            drop(self);
        });
        if over.recv_timeout(patience()).is_err() {
            panics()?;
            return Err(("stop", format!("stopping the workers did not end in {:?}", patience())));
        }
        let took = t.elapsed();
        stopper.join().ok();
        // short-lived helpers get a moment
        if !MIRI {
            loop {
                let left: Vec<_> = lasting().into_iter().filter(|x| !before.contains(x)).collect();
                if left.is_empty() {
                    break;
                }
                if t.elapsed() > patience() {
                    return Err(("threads_left", format!("{} threads are still there after stopping all workers", left.len())));
                }
            }
        }
        panics()?;
        if handler.is_poisoned() || auth.is_poisoned() || requests.is_poisoned() {
            return Err(("poisoned", "a lock is poisoned".into()));
        }
        drop(door);
        Ok(took)
    }
}

// ------------------------------------------------------------------------------------- C04

fn c04(thorough: bool, _seed: u64, rep: &mut Report) -> Outcome {
    // the worker keeps issuing passes, also when nobody takes them for a while, until it is stopped
    for div in if thorough { vec![500, 100, 50, 20] } else { vec![500, 50] } {
        divide_sleeps(div);
        let interval = Duration::from_millis(5000 / div as u64);
        let (tx, rx): (Sender<ExecutorRequest>, Receiver<ExecutorRequest>) = mpsc::channel();
        let mut w = ExpirationWorker::new(tx);
        w.start();
        let mut passes = 0u64;
        for period in 0..6 {
            if period == 3 {
                // nobody is listening for a while
                nap(interval.as_millis() as u64 * 5);
            }
            // plenty of time for the next batch
            let t = Instant::now();
            let mut got = 0;
            while got == 0 && t.elapsed() < interval * 20 + Duration::from_secs(10) {
                if let Ok(r) = rx.recv_timeout(Duration::from_millis(100)) {
                    got += 1;
                    check_pass(r)?;
                    while let Ok(r) = rx.try_recv() {
                        got += 1;
                        check_pass(r)?;
                    }
                }
            }
            if got == 0 {
                return Err(("no_passes", format!("no expiry pass in {:?} although the worker runs (period {})", t.elapsed(), period)));
            }
            passes += got;
            nap(interval.as_millis() as u64 * 2);
        }
        let t = Instant::now();
        w.stop();
        if t.elapsed() > patience() {
            return Err(("stop", "stopping the expiration worker took too long".into()));
        }
        while rx.try_recv().is_ok() {}
        nap(interval.as_millis() as u64 * 4);
        if rx.try_recv().is_ok() {
            return Err(("after_stop", "an expiry pass came after the worker was stopped".into()));
        }
        rep.count("passes_seen", passes);
        rep.case(Some(hash_of(&(div, "worker"))));
        rep.sample(json!({"interval_ms": interval.as_millis() as u64, "passes": passes}));
    }
    panics()
}

fn check_pass(r: ExecutorRequest) -> Outcome {
    let only = !r.request.statements.is_empty() && r.request.statements.iter().all(|s| matches!(s, Statement::ExpireKeys));
    if !only {
        return Err(("wrong_pass", format!("the worker sent {:?}", r.request.statements)));
    }
    // and it must be allowed to do what it asks for
    let mut i = Interpreter::new(HashMapStorage::new());
    match i.interpret(r.request) {
        Ok(_) => Ok(()),
        Err(e) => Err(("pass_fails", format!("an expiry pass fails: {}", e))),
    }
}

// ------------------------------------------------------------------------------------- C09

fn c09(thorough: bool, seed: u64, rep: &mut Report) -> Outcome {
    let rounds = if thorough { 25 } else { 3 };
    divide_sleeps(300);
    for round in 0..rounds {
        let (l, a) = [(3, 3), (8, 2), (2, 5), (6, 6), (5, 1)][(seed as usize + round) % 5];
        let p = Pipe::start(l, a, true);
        let load = AppendLoad { clients: [6, 12, 3][round % 3], per_client: if thorough { 300 } else { 120 }, lists: 3, garbage_pct: 20, long_pct: 12 };
        append_run(&*p.door, seed * 1000 + round as u64, &load, rep).map_err(|e| ("appends", e))?;
        for case in 0..if thorough { 400 } else { 130 } {
            lin_run(&*p.door, seed * 100 + round as u64, case, rep).map_err(|e| ("history", e))?;
        }
        if round == 0 || thorough {
            late_run(&*p.door, seed * 1000 + round as u64, 2400, 1, rep).map_err(|e| ("late", e))?;
        }
        p.door.audit()?;
        rep.count("pipelines", 1);
        p.stop()?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C10

/// What a fake backend does with a request
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    AtOnce,
    Soon,
    Late,
    Dropped,
    Failed,
}

fn echo_of(text: &str) -> ServerAnswer {
    Ok(InterpreterResponse::Message(text.to_string()))
}

fn same(a: &ServerAnswer, b: &ServerAnswer) -> bool {
    format!("{:?}", a) == format!("{:?}", b)
}

fn fate_of(text: &str) -> Fate {
    match text.split(' ').next() {
        Some("now") => Fate::AtOnce,
        Some("soon") => Fate::Soon,
        Some("late") => Fate::Late,
        Some("drop") => Fate::Dropped,
        _ => Fate::Failed,
    }
}

/// Takes analysis requests and answers each with its own text, at once, soon, late or never
fn backend(rx: Receiver<AnalysisRequest>, seed: u64, seen: Arc<Mutex<HashMap<String, u64>>>, levels: Arc<Mutex<Vec<String>>>) {
    let mut r = Rng::for_case(seed, "backend", 0);
    let (later, due): (Sender<(Instant, Sender<ExecutorResponse>, ServerAnswer)>, _) = mpsc::channel();
    let timer = std::thread::spawn(move || {
        let mut waiting: Vec<(Instant, Sender<ExecutorResponse>, ServerAnswer)> = vec![];
        let mut open = true;
        while open || !waiting.is_empty() {
            match due.recv_timeout(Duration::from_millis(5)) {
                Ok(x) => waiting.push(x),
                Err(mpsc::RecvTimeoutError::Disconnected) => {
                    open = false;
                    std::thread::sleep(Duration::from_millis(5));
                }
                Err(_) => (),
            }
            let now = Instant::now();
            let mut i = 0;
            while i < waiting.len() {
                if waiting[i].0 <= now {
                    let (_, to, a) = waiting.swap_remove(i);
                    to.send(ExecutorResponse { response: a }).ok();
                } else {
                    i += 1;
                }
            }
        }
    });
    for req in rx {
        *seen.lock().unwrap().entry(req.request.clone()).or_insert(0) += 1;
        let user = req.request.split(' ').nth(1).unwrap_or("").to_string();
        let level = match req.authorization {
            AuthorizationLevel::Admin => "admin",
            AuthorizationLevel::Write => "write",
            AuthorizationLevel::Read => "read",
        };
        if user != level {
            levels.lock().unwrap().push(format!("{} came with the privileges of {}", req.request, level));
        }
        let Some(to) = req.sender else { continue };
        match fate_of(&req.request) {
            Fate::AtOnce => {
                to.send(ExecutorResponse { response: echo_of(&req.request) }).ok();
            }
            Fate::Soon => {
                let d = Duration::from_micros(r.below(250_000) as u64);
                later.send((Instant::now() + d, to, echo_of(&req.request))).ok();
            }
            Fate::Late => {
                let d = Duration::from_millis(4000 + r.below(3000) as u64);
                later.send((Instant::now() + d, to, echo_of(&req.request))).ok();
            }
            Fate::Dropped => drop(to),
            Fate::Failed => {
                to.send(ExecutorResponse { response: Err(ServerError::KeyError(req.request.clone())) }).ok();
            }
        }
    }
    drop(later);
    timer.join().ok();
}

fn c10(thorough: bool, seed: u64, rep: &mut Report) -> Outcome {
    for round in 0..if thorough { 12u64 } else { 2 } {
        let mut r = Rng::for_case(seed, "pipe10", round);
        let before = threads();
        let (door, handler) = Door::new();
        let door = Arc::new(door);
        let (tx, rx) = mpsc::channel();
        let seen = Arc::new(Mutex::new(HashMap::new()));
        let levels = Arc::new(Mutex::new(vec![]));
        let back = {
            let (seen, levels) = (Arc::clone(&seen), Arc::clone(&levels));
            std::thread::spawn(move || backend(rx, seed, seen, levels))
        };
        let n = [4usize, 12, 1, 7][(round as usize + seed as usize) % 4];
        let mut pool = ListenerPool::new(n, tx, Arc::new(Mutex::new(handler)), Arc::new(Mutex::new(MockAuthenticator)));
        pool.start();
        let kinds = ["now", "soon", "late", "drop", "fail"];
        let mut asked: Vec<(Fate, String, Arc<Slot>)> = vec![];
        let late_most = n * 4;
        let mut lates = 0;
        for i in 0..if thorough { 900 } else { 450 } {
            let mut k = kinds[r.weighted(&[60, 12, 6, 8, 14])];
            if k == "late" {
                lates += 1;
                if lates > late_most {
                    k = "now";
                }
            }
            let user = ["admin", "write", "read"][r.below(3)];
            let text = format!("{} {} {}_{}", k, user, round, i);
            let gone = r.pct(10);
            asked.push((fate_of(&text), text.clone(), door.send(Some(user), Ok(text), gone)));
            if r.pct(4) {
                // ends at the listener
                door.send(*r.pick(&[None, Some("unauthenticated"), Some("bob")]), Ok("now admin nobody".into()), r.pct(20));
            }
            if r.pct(3) {
                door.send(Some("admin"), Err(ServerError::NetworkError("Problem reading request.".into())), r.pct(20));
            }
            if r.pct(2) {
                door.send_blind(Some("admin"), "now admin blind");
            }
            if r.pct(20) {
                nap(r.below(4) as u64);
            }
        }
        let mut tally: HashMap<&str, u64> = HashMap::new();
        for (fate, text, slot) in &asked {
            if !slot.wait(patience() * 3) {
                panics()?;
                return Err(("no_answer", format!("no answer to {:?}", text)));
            }
            let a = slot.answers.lock().unwrap()[0].clone();
            let own = same(&a, &echo_of(text));
            let late = timed_out(&a) || matches!(a, Err(ServerError::InternalError(_)));
            let ok = match fate {
                // timeouts happen on a busy machine
                Fate::AtOnce | Fate::Soon => own || timed_out(&a),
                Fate::Late => late || own,
                Fate::Dropped => late,
                Fate::Failed => same(&a, &Err(ServerError::KeyError(text.clone()))) || timed_out(&a),
            };
            if !ok {
                return Err(("wrong_answer", format!("{:?} was answered with {:?}", text, a)));
            }
            *tally.entry(if own { "own" } else if late { "late" } else { "failed" }).or_insert(0) += 1;
        }
        // let the late results arrive
        nap(if lates > 0 { 7500 } else { 300 });
        door.audit()?;
        let t = Instant::now();
        pool.stop();
        if t.elapsed() > patience() {
            return Err(("stop", "stopping the listener pool took too long".into()));
        }
        drop(pool);
        back.join().ok();
        if let Some(x) = levels.lock().unwrap().iter().find(|x| !x.contains("blind")) {
            return Err(("wrong_level", x.clone()));
        }
        for (text, n) in seen.lock().unwrap().iter() {
            if *n != 1 && text != "now admin blind" && text != "now admin nobody" {
                return Err(("repeated", format!("the request {:?} was handed on {} times", text, n)));
            }
            if text == "now admin nobody" {
                return Err(("not_refused", "a request of a stranger was handed on".into()));
            }
        }
        loop {
            let left: Vec<_> = lasting().into_iter().filter(|x| !before.contains(x)).collect();
            if left.is_empty() {
                break;
            }
            if t.elapsed() > patience() {
                return Err(("threads_left", format!("{} threads are left after stopping", left.len())));
            }
        }
        panics()?;
        if *tally.get("own").unwrap_or(&0) * 4 < asked.len() as u64 {
            return Err(("timeouts", format!("most requests were not answered in time by an idle backend: {:?}", tally)));
        }
        for (k, v) in &tally {
            rep.count(&format!("answers_{}", k), *v);
        }
        rep.count("late_results", lates.min(late_most) as u64);
        rep.case(Some(hash_of(&(round, seed, asked.len()))));
        rep.sample(json!({"listeners": n, "requests": asked.len(), "tally": tally}));
    }
    // through all the workers: own value, exactly once
    for round in 0..if thorough { 15u64 } else { 3 } {
        let (l, a) = [(3, 3), (10, 2), (2, 7)][round as usize % 3];
        let p = Pipe::start(l, a, false);
        let bad: Mutex<Option<Fail>> = Mutex::new(None);
        let served = AtomicU64::new(0);
        std::thread::scope(|s| {
            for c in 0..8u64 {
                let (bad, served, door) = (&bad, &served, &p.door);
                s.spawn(move || {
                    let mut r = Rng::for_case(seed, "pipe10own", round * 100 + c);
                    for i in 0..if thorough { 400 } else { 150 } {
                        let id = format!("k{}_{}_{}", round, c, i);
                        let (user, q, want) = match r.below(6) {
                            0 => ("read", format!("get {}", id), Err(EK::Key)),
                            1 => ("read", format!("set {} 1", id), Err(EK::Authz)),
                            2 => ("admin", format!("set {} \"", id), Err(EK::Token)),
                            _ => ("write", format!("set {} \"{}\"; get {}", id, id, id), Ok(Resp::Value(vmon::model::Val::Str(id.clone())))),
                        };
                        match reply(&door.send(Some(user), Ok(q.clone()), r.pct(10))) {
                            Reply::Answer(a) if a == want => {
                                served.fetch_add(1, Ordering::Relaxed);
                            }
                            Reply::Answer(Err(EK::Parse)) if want == Err(EK::Token) => (),
                            Reply::TimedOut => (),
                            other => *bad.lock().unwrap() = Some(("wrong_answer", format!("{} was answered with {:?}", q, other))),
                        }
                    }
                });
            }
        });
        panics()?;
        if let Some(b) = bad.into_inner().unwrap() {
            return Err(b);
        }
        p.door.audit()?;
        rep.count("own_values", served.load(Ordering::Relaxed));
        rep.case(Some(hash_of(&(round, seed, "own"))));
        p.stop()?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C13

fn c13(thorough: bool, seed: u64, rep: &mut Report) -> Outcome {
    divide_sleeps(20);
    // workers end when stopped, whatever is going on; what was being executed is answered
    for round in 0..if thorough { 60u64 } else { 8 } {
        let mut r = Rng::for_case(seed, "pipe13", round);
        let (door, handler) = Door::new();
        let door = Arc::new(door);
        let (tx, rx) = mpsc::channel();
        let seen = Arc::new(Mutex::new(HashMap::new()));
        let back = {
            let seen = Arc::clone(&seen);
            std::thread::spawn(move || backend(rx, seed, seen, Arc::new(Mutex::new(vec![]))))
        };
        let n = r.range(1, 6);
        let mut pool = ListenerPool::new(n, tx, Arc::new(Mutex::new(handler)), Arc::new(Mutex::new(MockAuthenticator)));
        pool.start();
        let mut asked = vec![];
        for i in 0..n * 6 {
            let text = format!("{} admin {}", if r.pct(80) { "soon" } else { "now" }, i);
            asked.push((text.clone(), door.send(Some("admin"), Ok(text), false)));
        }
        nap(r.below(500) as u64);
        let t = Instant::now();
        pool.stop();
        let took = t.elapsed();
        if took > patience() {
            return Err(("stop", "stopping the listener pool took too long".into()));
        }
        drop(pool);
        back.join().ok();
        let seen = seen.lock().unwrap();
        let mut in_flight = 0u64;
        for (text, slot) in &asked {
            let n = slot.count();
            if n > 1 {
                return Err(("many_answers", format!("{} answers to {:?}", n, text)));
            }
            if seen.contains_key(text) {
                in_flight += 1;
                if n == 0 {
                    return Err(("unanswered", format!("{:?} was being executed when the pool was stopped, and never answered", text)));
                }
                let a = slot.answers.lock().unwrap()[0].clone();
                if !same(&a, &echo_of(text)) && !timed_out(&a) {
                    return Err(("wrong_answer", format!("{:?} was answered with {:?} around a stop", text, a)));
                }
            }
        }
        panics()?;
        rep.count("handed_on_before_stop", in_flight);
        rep.case(Some(hash_of(&(round, in_flight))));
    }
    for round in 0..if thorough { 40u64 } else { 6 } {
        let mut r = Rng::for_case(seed, "pipe13all", round);
        let (l, a) = (r.range(1, 6), r.range(1, 6));
        let p = Pipe::start(l, a, r.pct(70));
        let quit = Arc::new(AtomicBool::new(false));
        let clients: Vec<_> = (0..r.range(0, 5) as u64)
            .map(|c| {
                let (door, quit) = (Arc::clone(&p.door), Arc::clone(&quit));
                std::thread::spawn(move || {
                    let mut r = Rng::for_case(seed, "pipe13client", round * 10 + c);
                    let mut sent = vec![];
                    while !quit.load(Ordering::SeqCst) {
                        let k = r.below(50);
                        // shutdowns that are not allowed or not reached, and others that only look like one
                        let (user, q) = match r.below(8) {
                            0 => ("read", "shutdown".to_string()),
                            1 => ("write", format!("set a{} 1; shutdown", k)),
                            2 => ("admin", "get missing; shutdown".to_string()),
                            3 => ("admin", "shutdown shutdown2 (".to_string()),
                            4 => ("admin", "set shutdown1 \"shutdown\"; get shutdown1".to_string()),
                            5 => ("bob", "shutdown".to_string()),
                            _ => ("admin", format!("set a{} {}", k, k)),
                        };
                        let s = door.send(Some(user), Ok(q), false);
                        if r.pct(70) {
                            s.wait(Duration::from_millis(300));
                        }
                        sent.push(s);
                    }
                    sent.len() as u64
                })
            })
            .collect();
        nap(r.below(400) as u64);
        if p.flag.load(Ordering::SeqCst) {
            return Err(("stopped", "a request that is no executed shutdown raised the shutdown flag".into()));
        }
        // now a real one
        let q = *r.pick(&["shutdown", "SHUTDOWN;", "set a 1; shutdown", ";; Shutdown ;;", "shutdown; set a 2"]);
        let before_stop = Instant::now();
        loop {
            match p.door.ask("admin", q) {
                Reply::Answer(Ok(Resp::ShuttingDown)) => break,
                Reply::TimedOut if before_stop.elapsed() < patience() => (),
                other => return Err(("wrong_answer", format!("{} was answered with {:?}", q, other))),
            }
        }
        let t = Instant::now();
        while !p.flag.load(Ordering::SeqCst) {
            if t.elapsed() > patience() {
                return Err(("no_flag", "an executed shutdown did not raise the shutdown flag".into()));
            }
            nap(1);
        }
        let door = Arc::clone(&p.door);
        let took = p.stop_busy(&quit, r.pct(50))?;
        quit.store(true, Ordering::SeqCst);
        let mut sent = 0;
        for c in clients {
            sent += c.join().unwrap_or(0);
        }
        for (s, what) in door.slots.lock().unwrap().iter() {
            if s.count() > 1 {
                return Err(("many_answers", format!("{} answers to {}", s.count(), cut(what))));
            }
        }
        rep.count("requests_around_stops", sent);
        rep.count("stops", 1);
        let c = rep.counters.entry("longest_stop_ms".into()).or_insert(0);
        *c = (*c).max(took.as_millis() as u64);
        rep.case(Some(hash_of(&(round, l, a, q))));
        rep.sample(json!({"listeners": l, "analyzers": a, "shutdown": q, "requests": sent, "stop_ms": took.as_millis() as u64}));
    }
    Ok(())
}

impl Pipe {
    /// Stop while clients go on, or after they stopped
    fn stop_busy(mut self, quit: &AtomicBool, first: bool) -> Result<Duration, Fail> {
        if first {
            quit.store(true, Ordering::SeqCst);
        }
        let t = Instant::now();
        let (done, over) = mpsc::channel();
        let quit_too = std::thread::spawn(move || {
            self.listeners.stop();
            self.analysis.stop();
            if let Some(e) = &mut self.expiration {
                e.stop();
            }
            self.executor.stop();
            done.send(()).ok();
        });
        if over.recv_timeout(patience()).is_err() {
            panics()?;
            return Err(("stop", format!("stopping the workers under load did not end in {:?}", patience())));
        }
        quit_too.join().ok();
        panics()?;
        Ok(t.elapsed())
    }
}

// ------------------------------------------------------------------------------------- C17

/// All kinds of requests from many clients at once
fn mill(p: &Pipe, seed: u64, clients: u64, each: usize, rep: &mut Report) -> Outcome {
    let kinds: Mutex<HashMap<&'static str, u64>> = Mutex::new(HashMap::new());
    let bad: Mutex<Option<Fail>> = Mutex::new(None);
    let texts: Mutex<Vec<u64>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for c in 0..clients {
            let (kinds, bad, door, texts) = (&kinds, &bad, &p.door, &texts);
            s.spawn(move || {
                let mut r = Rng::for_case(seed, "mill", c);
                let mut pools = Rng::for_case(seed, "millkeys", 0);
                let keys = gen::key_pool(&mut pools, 6);
                let now = 1_000_000_000_000_000_000i128;
                let mut guess = Model::new();
                let mut open: Vec<Arc<Slot>> = vec![];
                let mut tally: HashMap<&'static str, u64> = HashMap::new();
                let mut sent: Vec<u64> = vec![];
                for _ in 0..each {
                    let mut profile = [Profile::kv(), Profile::coll(), Profile::time(), Profile::purge(), Profile::batch()][r.below(5)].clone();
                    if profile.lifetime_pct == 0 && r.pct(50) {
                        profile.lifetime_pct = 20;
                    }
                    let text = if r.pct(75) {
                        let n = *r.pick(&[0usize, 1, 1, 1, 2, 3, 6]);
                        let mut ops: Vec<Op> = (0..n)
                            .map(|_| {
                                let op = gen::gen_op(&mut r, &profile, &keys, &guess, now);
                                let op = gen::textual(&mut r, op);
                                guess.apply(&op, now);
                                op
                            })
                            .collect();
                        if r.pct(3) {
                            ops.push(Op::Shutdown);
                        }
                        gen::render(&mut r, &ops, Style::Wild)
                    } else if r.pct(50) {
                        let n = r.range(1, 8);
                        soup_text(&mut r, n)
                    } else {
                        let op = gen_text_op(&mut r);
                        let t = gen::render(&mut r, &[op], Style::Wild);
                        mutate(&mut r, &t.chars().take(300).collect::<String>())
                    };
                    let user = [Some("admin"), Some("admin"), Some("admin"), Some("write"), Some("write"), Some("read"), Some("unauthenticated"), Some("bob"), None][r.below(9)];
                    sent.push(hash_of(&(user, &text)));
                    let slot = match r.below(20) {
                        0 => door.send(user, Err(ServerError::NetworkError("Problem reading request.".into())), r.pct(30)),
                        1 => {
                            door.send_blind(user, &text);
                            *tally.entry("without_sender").or_insert(0) += 1;
                            continue;
                        }
                        2 => door.send(user, Ok(text), true),
                        _ => door.send(user, Ok(text), false),
                    };
                    if r.pct(75) {
                        match reply(&slot) {
                            Reply::Answer(Ok(_)) => *tally.entry("succeeded").or_insert(0) += 1,
                            Reply::Answer(Err(_)) => *tally.entry("failed").or_insert(0) += 1,
                            Reply::TimedOut => *tally.entry("timed_out").or_insert(0) += 1,
                            Reply::Broken(e) => {
                                *bad.lock().unwrap() = Some(("broken", e));
                                break;
                            }
                        }
                    } else {
                        open.push(slot);
                        *tally.entry("not_waited_for").or_insert(0) += 1;
                    }
                    if bad.lock().unwrap().is_some() {
                        break;
                    }
                }
                texts.lock().unwrap().extend(sent);
                let mut k = kinds.lock().unwrap();
                for (a, b) in tally {
                    *k.entry(a).or_insert(0) += b;
                }
            });
        }
    });
    panics()?;
    if let Some(b) = bad.into_inner().unwrap() {
        return Err(b);
    }
    for h in texts.into_inner().unwrap() {
        rep.case(Some(h));
    }
    for (k, v) in kinds.into_inner().unwrap() {
        rep.count(&format!("requests_{}", k), v);
    }
    Ok(())
}

/// A malformed text whose analysis takes about this long
fn slow_to_analyse(millis: u64) -> String {
    let mut n = 2000usize;
    loop {
        let text = format!("{}get", "get a1 ; ".repeat(n));
        let t = Instant::now();
        if let Ok(tokens) = Tokenizer::new(&text).tokenize() {
            let _ = Parser::new(tokens).parse();
        }
        let took = t.elapsed().as_millis() as u64;
        if took > millis / 8 || n > 400_000 {
            n = (n as u64 * millis / took.max(1)).min(3_000_000) as usize;
            return format!("{}get", "get a1 ; ".repeat(n));
        }
        n *= 2;
    }
}

fn c17(thorough: bool, seed: u64, size: usize, only_direct: bool, rep: &mut Report) -> Outcome {
    if only_direct {
        direct(seed, size, rep)?;
        rep.case(Some(hash_of(&(seed, size))));
        return panics();
    }
    divide_sleeps(200);
    let rounds = if MIRI { 1 } else { 3 * if thorough { 8 } else { 1 } };
    for round in 0..rounds as u64 {
        let (l, a, clients) = if MIRI { (2, 2, 2) } else { [(3usize, 3usize, 6u64), (8, 4, 12), (2, 6, 4)][(round + seed) as usize % 3] };
        let p = Pipe::start(l, a, true);
        nap(if MIRI { 1 } else { 100 });
        let workers: BTreeSet<(u32, u64)> = if MIRI { BTreeSet::new() } else { lasting().into_iter().filter(|x| !p.before.contains(x)).collect() };
        mill(&p, seed * 100 + round, clients, size, rep)?;
        p.door.audit()?;
        if !MIRI {
            let now = threads();
            let dead = workers.iter().filter(|x| !now.contains(x)).count();
            if dead > 0 {
                panics()?;
                return Err(("worker_ended", format!("{} of {} worker threads ended before they were stopped", dead, workers.len())));
            }
        }
        // results nobody waits for any longer
        if !MIRI && round == 0 {
            let slow = Slow::calibrate(&*p.door, 1500, rep).map_err(|e| ("slow", e))?;
            let slots: Vec<_> = (0..4).map(|i| p.door.send(Some("admin"), Ok(if i < 2 { slow.text("ex a") } else { format!("set late{} 1", i) }), i == 1)).collect();
            let late = slots.iter().filter(|s| matches!(reply(s), Reply::TimedOut)).count();
            drained(&*p.door).map_err(|e| ("slow", e))?;
            rep.count("late_results", late as u64);
            panics()?;
            // and errors nobody waits for any longer: these take long to analyse, and all of them are wrong in the end
            let long = slow_to_analyse(1600);
            let slots: Vec<_> = (0..a + 2).map(|i| p.door.send(Some("admin"), Ok(if i < a { long.clone() } else { "get".into() }), i == 1)).collect();
            let mut late = 0;
            for s in &slots {
                match reply(s) {
                    Reply::TimedOut => late += 1,
                    Reply::Answer(Err(EK::Parse | EK::Token)) => (),
                    other => return Err(("wrong_answer", format!("a malformed request that takes long to analyse was answered with {:?}", other))),
                }
            }
            drained(&*p.door).map_err(|e| ("slow", e))?;
            rep.count("late_errors", late as u64);
            panics()?;
        }
        // it still works: as many requests at once as there are listeners
        let slots: Vec<_> = (0..l * 3).map(|i| p.door.send(Some("admin"), Ok(format!("set after{} {}; get after{}", i, i, i)), false)).collect();
        for (i, s) in slots.iter().enumerate() {
            match reply(s) {
                Reply::Answer(Ok(Resp::Value(vmon::model::Val::Int(x)))) if x == i as i64 => (),
                Reply::TimedOut => rep.count("requests_timed_out", 1),
                other => return Err(("after", format!("after the load a request was answered with {:?}", other))),
            }
        }
        p.door.audit()?;
        rep.count("workers", workers.len() as u64);
        rep.count("pipelines", 1);
        let took = p.stop()?;
        rep.case(Some(hash_of(&(round, seed, l, a))));
        rep.sample(json!({"listeners": l, "analyzers": a, "clients": clients, "requests_each": size, "stop_ms": took.as_millis() as u64}));
    }
    // pools that are started and stopped without, and right after, work
    for round in 0..if MIRI { 1 } else { 6u64 } {
        let mut r = Rng::for_case(seed, "startstop", round);
        let p = Pipe::start(r.range(1, 5), r.range(1, 5), true);
        for _ in 0..r.below(4) {
            p.door.send(Some("admin"), Ok("set a 1".into()), false);
        }
        p.stop()?;
        rep.count("pipelines", 1);
    }
    if !MIRI {
        whole(thorough, seed, rep)?;
    }
    // the storage directly, for the undefined behaviour interpreter
    direct(seed, if MIRI { 60 } else { 400 }, rep)?;
    panics()
}

/// The whole server in process over TCP
fn whole(thorough: bool, seed: u64, rep: &mut Report) -> Outcome {
    divide_sleeps(10);
    for round in 0..if thorough { 6u64 } else { 1 } {
        let port = {
            let l = TcpListener::bind("127.0.0.1:0").expect("no port");
            l.local_addr().expect("no port").port()
        };
        let (done, over) = mpsc::channel();
        let mut c = Coordinator::new(3, 3, IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1)), port as usize);
        let t = std::thread::spawn(move || {
            c.serve();
            done.send(()).ok();
        });
        let bad: Mutex<Option<Fail>> = Mutex::new(None);
        let served = AtomicU64::new(0);
        std::thread::scope(|s| {
            for c in 0..6u64 {
                let (bad, served) = (&bad, &served);
                s.spawn(move || {
                    let mut r = Rng::for_case(seed, "whole", round * 10 + c);
                    for i in 0..if thorough { 400 } else { 120 } {
                        let id = format!("k{}_{}", c, i);
                        if r.pct(15) {
                            // all kinds of broken requests
                            let full = http::request(Some("admin"), &format!("set {} 1", id));
                            let mut b = match r.below(4) {
                                0 => full[..r.below(full.len())].to_vec(),
                                1 => http::request_with_body(Some("admin"), &[0xff, b'"', 0xc3]),
                                2 => b"GET / HTTP/1.1\r\n\r\n".to_vec(),
                                _ => full.clone(),
                            };
                            if r.pct(40) && !b.is_empty() {
                                let at = r.below(b.len());
                                b[at] = r.below(256) as u8;
                            }
                            http::exchange_half_closed(port, &b);
                            continue;
                        }
                        let (q, want) = match r.below(4) {
                            0 => (format!("get {}", id), Err(EK::Key)),
                            1 => (format!("set {} int [1]; vget {} 7", id, id), Err(EK::Index)),
                            _ => (format!("set {} \"{}\"; get {}", id, id, id), Ok(Resp::Value(vmon::model::Val::Str(id.clone())))),
                        };
                        match http::ask(port, "admin", &q) {
                            Reply::Answer(a) if a == want => {
                                served.fetch_add(1, Ordering::Relaxed);
                            }
                            Reply::TimedOut => (),
                            other => *bad.lock().unwrap() = Some(("wrong_answer", format!("{} was answered with {:?}", q, other))),
                        }
                    }
                });
            }
        });
        panics()?;
        if let Some(b) = bad.into_inner().unwrap() {
            return Err(b);
        }
        let t0 = Instant::now();
        loop {
            match http::ask(port, "admin", "shutdown") {
                Reply::Answer(Ok(Resp::ShuttingDown)) => break,
                Reply::TimedOut if t0.elapsed() < patience() => (),
                other => return Err(("wrong_answer", format!("shutdown was answered with {:?}", other))),
            }
        }
        if over.recv_timeout(patience()).is_err() {
            panics()?;
            return Err(("serve", "serving did not end after a shutdown".into()));
        }
        t.join().ok();
        // lets go of a helper that still waits for a connection
        std::net::TcpStream::connect(("127.0.0.1", port)).ok();
        nap(100);
        panics()?;
        rep.count("tcp_requests_served", served.load(Ordering::Relaxed));
        rep.count("coordinators", 1);
        rep.case(Some(hash_of(&(round, seed, "whole"))));
    }
    Ok(())
}

/// Statements of all kinds without text, with many expiry passes
fn direct(seed: u64, n: usize, rep: &mut Report) -> Outcome {
    let mut r = Rng::for_case(seed, "direct", 0);
    let keys = gen::key_pool(&mut r, 5);
    let mut i = Interpreter::new(HashMapStorage::new());
    let now = 1_000_000_000_000_000_000i128;
    let mut guess = Model::new();
    for _ in 0..n {
        let mut profile = [Profile::kv(), Profile::coll(), Profile::time(), Profile::purge()][r.below(4)].clone();
        profile.lifetime_pct = 40;
        let op = gen::gen_op(&mut r, &profile, &keys, &guess, now);
        let op = gen::textual(&mut r, op);
        guess.apply(&op, now);
        let text = gen::render(&mut r, &[op], if MIRI { Style::Plain } else { Style::Wild });
        if MIRI && text.len() > 120 {
            continue;
        }
        let mut t = server::analysis::Tokenizer::new(&text);
        let statements = match t.tokenize() {
            Ok(tokens) => server::analysis::Parser::new(tokens).parse(),
            Err(e) => Err(e),
        };
        if let Ok(mut statements) = statements {
            for _ in 0..r.below(3) {
                statements.push(Statement::ExpireKeys);
            }
            let _ = i.interpret(InterpreterRequest { statements, authorization: AuthorizationLevel::Admin });
        }
        rep.count("direct_statements", 1);
        let _ = (i.storage.len(), i.storage.expiring_keys_count());
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C24

/// What an authentication service has to say about a client
#[derive(Clone, Debug)]
enum Ruling {
    Level(String, Option<AuthorizationLevel>),
    Rejected,
    Failed(ServerError),
}

fn any_error(r: &mut Rng, text: String) -> ServerError {
    match r.below(11) {
        0 => ServerError::KeyError(text),
        1 => ServerError::NetworkError(text),
        2 => ServerError::WriteError(text),
        3 => ServerError::TokenizationError(text),
        4 => ServerError::ParseError(text),
        5 => ServerError::IndexError(text),
        6 => ServerError::TypeError(text),
        7 => ServerError::InternalError(text),
        8 => ServerError::AuthorizationError(text),
        9 => ServerError::AuthenticationError(text),
        _ => ServerError::RequestError(text),
    }
}

fn any_level(r: &mut Rng) -> AuthorizationLevel {
    *r.pick(&[AuthorizationLevel::Admin, AuthorizationLevel::Write, AuthorizationLevel::Read])
}

fn any_ruling(r: &mut Rng, id: &str) -> Ruling {
    let name = r.pick(&["admin", "write", "read", "unauthenticated", "", "bob", "\u{e4}"]).to_string();
    match r.below(10) {
        0..=4 => Ruling::Level(name, Some(any_level(r))),
        5 | 6 => Ruling::Level(name, None),
        7 => Ruling::Rejected,
        _ => {
            let text = r.pick(&["", "no service", "Command timed out."]).to_string() + id;
            Ruling::Failed(any_error(r, text))
        }
    }
}

#[derive(Default)]
struct Book {
    rulings: Mutex<HashMap<String, Ruling>>,
    asked: Mutex<HashMap<String, Vec<HashMap<String, String>>>>,
    inside: AtomicBool,
    overlaps: AtomicU64,
}

struct Service {
    book: Arc<Book>,
    r: Rng,
}

impl AuthenticationService for Service {
    fn authenticate(&mut self, headers: &HashMap<String, String>) -> Result<AuthenticationResult, ServerError> {
        if self.book.inside.swap(true, Ordering::SeqCst) {
            self.book.overlaps.fetch_add(1, Ordering::SeqCst);
        }
        if self.r.pct(5) {
            nap(self.r.below(3) as u64);
        }
        let id = headers.get("Id").cloned().unwrap_or_else(|| format!("by {:?}", headers.get("Who")));
        let ruling = headers.get("Who").and_then(|w| self.book.rulings.lock().unwrap().get(w).cloned());
        self.book.asked.lock().unwrap().entry(id).or_default().push(headers.clone());
        self.book.inside.store(false, Ordering::SeqCst);
        match ruling {
            Some(Ruling::Level(name, level)) => Ok(AuthenticationResult::Authenticated(name, level)),
            Some(Ruling::Rejected) => Ok(AuthenticationResult::Unauthenticated),
            Some(Ruling::Failed(e)) => Err(e),
            None => Err(ServerError::WriteError("who is it".into())),
        }
    }
}

/// Listeners with an authentication service of another kind
fn c24(thorough: bool, seed: u64, rep: &mut Report) -> Outcome {
    for round in 0..if thorough { 40u64 } else { 6 } {
        let (door, handler) = Door::new();
        let door = Arc::new(door);
        let (tx, rx) = mpsc::channel::<AnalysisRequest>();
        let book = Arc::new(Book::default());
        let handed: Arc<Mutex<HashMap<String, Vec<(String, AuthorizationLevel)>>>> = Arc::default();
        let replies: Arc<Mutex<HashMap<String, ServerAnswer>>> = Arc::default();
        let over = Arc::new(AtomicBool::new(false));
        let back = {
            let (handed, replies, over) = (Arc::clone(&handed), Arc::clone(&replies), Arc::clone(&over));
            std::thread::spawn(move || loop {
                match rx.recv_timeout(Duration::from_millis(20)) {
                    Ok(req) => {
                        let id = req.request.trim_start_matches(FRINGE).split('|').next().unwrap_or("").to_string();
                        handed.lock().unwrap().entry(id.clone()).or_default().push((req.request.clone(), req.authorization));
                        let answer = replies.lock().unwrap().get(&id).cloned();
                        if let (Some(to), Some(a)) = (req.sender, answer) {
                            to.send(ExecutorResponse { response: a }).ok();
                        }
                    }
                    Err(_) if over.load(Ordering::SeqCst) => break,
                    Err(_) => (),
                }
            })
        };
        let n = [4usize, 10, 1, 2][(round + seed) as usize % 4];
        let service = Service { book: Arc::clone(&book), r: Rng::for_case(seed, "service", round) };
        let service = Arc::new(Mutex::new(service));
        let mut pool = ListenerPool::new(n, tx, Arc::new(Mutex::new(handler)), Arc::clone(&service));
        pool.start();
        let bad: Mutex<Option<Fail>> = Mutex::new(None);
        let tally: Mutex<HashMap<&'static str, u64>> = Mutex::default();
        let cases: Mutex<Vec<u64>> = Mutex::default();
        let ask = |r: &mut Rng, client: u64, i: usize, whos: &[String], gone_backend: bool| -> Outcome {
            let id = format!("{}_{}_{}_{}", round, client, i, gone_backend);
            let who = r.pick(whos).clone();
            // what was right before may be wrong now
            if r.pct(60) || !book.rulings.lock().unwrap().contains_key(&who) {
                let new = any_ruling(r, &id);
                book.rulings.lock().unwrap().insert(who.clone(), new);
            }
            let mut headers: HashMap<String, String> = HashMap::new();
            // some say the same again and again, and are told apart by who sends them
            let again = r.pct(35);
            let nameless = !again && r.pct(6);
            let page = if again { format!("by {:?}", Some(&who)) } else { id.clone() };
            if !again {
                headers.insert("Id".into(), id.clone());
            }
            if !nameless {
                headers.insert("Who".into(), who.clone());
            }
            // these say nothing to this service
            for (k, v) in [("Username", "admin"), ("Username", "unauthenticated"), ("username", "read"), ("who", "admin"), ("X-Empty", ""), ("\u{e9}", "\u{1f600}")] {
                if !again && r.pct(35) {
                    headers.insert(k.into(), v.into());
                }
            }
            for j in 0..if again { 0 } else { *r.pick(&[0usize, 0, 3, 30, 200]) } {
                headers.insert(format!("H{}", j), "x".repeat(r.below(40)));
            }
            let before = book.asked.lock().unwrap().get(&page).map_or(0, |a| a.len());
            let ruling = if nameless { None } else { book.rulings.lock().unwrap().get(&who).cloned() };
            let tail = gen::gen_string(r, false);
            let text = vmon::texts::fringed(r, format!("{}|{}", id, tail), 25);
            let answer: ServerAnswer = if r.pct(50) { Ok(InterpreterResponse::Message(tail)) } else { Err(any_error(r, id.clone())) };
            replies.lock().unwrap().insert(id.clone(), answer.clone());
            let unreadable = r.pct(8);
            let request = if unreadable { Err(any_error(r, id.clone())) } else { Ok(text.clone()) };
            let slot = Arc::new(Slot::default());
            let blind = !unreadable && r.pct(5);
            let sender: Option<Box<dyn StreamSender + Send>> = if blind { None } else { Some(Box::new(MockSender { slot: Arc::clone(&slot), gone: r.pct(5) })) };
            let what = format!("{:?} with {:?} of {}", request, ruling, if nameless { "nobody" } else { &who });
            if !blind {
                door.slots.lock().unwrap().push((Arc::clone(&slot), what.clone()));
            }
            door.tx.lock().unwrap().send(StreamRequest { request: request.clone(), headers: headers.clone(), sender }).ok();
            let settled = |f: &dyn Fn() -> bool| {
                let t = Instant::now();
                while !f() && t.elapsed() < patience() {
                    nap(1);
                }
                f()
            };
            let passes = !unreadable && matches!(ruling, Some(Ruling::Level(_, Some(_))));
            let kind = match (&request, &ruling) {
                (Err(_), _) => "unreadable",
                (_, None) => "of_nobody",
                (_, Some(Ruling::Level(_, Some(_)))) => "allowed",
                (_, Some(Ruling::Level(_, None))) => "without_a_level",
                (_, Some(Ruling::Rejected)) => "rejected",
                (_, Some(Ruling::Failed(_))) => "with_a_failing_service",
            };
            if blind {
                // the ruling must not change under way
                if !unreadable && !settled(&|| book.asked.lock().unwrap().get(&page).map_or(0, |a| a.len()) > before) {
                    return Err(("not_asked", format!("the service was not asked about {}", what)));
                }
                if passes && !gone_backend && !settled(&|| handed.lock().unwrap().contains_key(&id)) {
                    return Err(("not_handed_on", format!("{} was not handed on", what)));
                }
            } else {
                if !slot.wait(patience()) {
                    panics()?;
                    return Err(("no_answer", format!("no answer to {}", what)));
                }
                let got = slot.answers.lock().unwrap()[0].clone();
                let ok = match (&request, &ruling) {
                    (Err(e), _) => same(&got, &Err(e.clone())),
                    (_, None) => same(&got, &Err(ServerError::WriteError("who is it".into()))),
                    (_, Some(Ruling::Level(_, Some(_)))) if gone_backend => matches!(got, Err(ServerError::InternalError(_))),
                    (_, Some(Ruling::Level(_, Some(_)))) => same(&got, &answer) || timed_out(&got),
                    (_, Some(Ruling::Level(_, None))) => matches!(got, Err(ServerError::AuthorizationError(_))),
                    (_, Some(Ruling::Rejected)) => matches!(got, Err(ServerError::AuthenticationError(_))),
                    (_, Some(Ruling::Failed(e))) => same(&got, &Err(e.clone())),
                };
                if !ok {
                    return Err(("wrong_answer", format!("{} was answered with {:?} (the answer of the backend was to be {:?})", what, got, answer)));
                }
            }
            if !unreadable {
                let asked = book.asked.lock().unwrap().get(&page).cloned().unwrap_or_default().split_off(before);
                if asked.len() != 1 {
                    return Err(("asked", format!("the service was asked {} times about {}", asked.len(), what)));
                }
                if asked[0] != headers {
                    return Err(("headers", format!("the service was shown {:?} instead of {:?}", asked[0], headers)));
                }
            }
            let got = handed.lock().unwrap().get(&id).cloned().unwrap_or_default();
            match (&ruling, passes && !gone_backend) {
                (Some(Ruling::Level(_, Some(level))), true) => {
                    if got.len() != 1 || got[0].0 != text || got[0].1 != *level {
                        return Err(("handed_on", format!("{} was handed on as {:?}", what, got)));
                    }
                }
                _ if !got.is_empty() => return Err(("not_refused", format!("{} was handed on as {:?}", what, got))),
                _ => (),
            }
            *tally.lock().unwrap().entry(kind).or_insert(0) += 1;
            cases.lock().unwrap().push(hash_of(&(what, blind, gone_backend)));
            Ok(())
        };
        let drive = |gone: bool, each: usize| {
            std::thread::scope(|s| {
                for c in 0..6u64 {
                    let (ask, bad) = (&ask, &bad);
                    s.spawn(move || {
                        let mut r = Rng::for_case(seed, "c24", round * 1000 + c * 2 + gone as u64);
                        let whos: Vec<String> = (0..3).map(|w| format!("client{}_{}", c, w)).collect();
                        for i in 0..each {
                            if bad.lock().unwrap().is_some() {
                                break;
                            }
                            if let Err(b) = ask(&mut r, c, i, &whos, gone) {
                                bad.lock().unwrap().get_or_insert(b);
                                break;
                            }
                        }
                    });
                }
            });
        };
        drive(false, if thorough { 400 } else { 150 });
        // nobody takes requests any longer
        over.store(true, Ordering::SeqCst);
        back.join().ok();
        if bad.lock().unwrap().is_none() {
            drive(true, 30);
        }
        if let Some(b) = bad.lock().unwrap().take() {
            return Err(b);
        }
        panics()?;
        door.audit()?;
        // nothing was handed on or asked behind the back of the clients
        for (id, got) in handed.lock().unwrap().iter() {
            if got.len() != 1 || !replies.lock().unwrap().contains_key(id) {
                return Err(("handed_on", format!("handed on: {:?}", got)));
            }
        }
        if book.overlaps.load(Ordering::SeqCst) > 0 {
            return Err(("overlap", "the service was asked about two requests at the same time".into()));
        }
        let t = Instant::now();
        pool.stop();
        if t.elapsed() > patience() {
            return Err(("stop", "stopping the listener pool took too long".into()));
        }
        if service.is_poisoned() {
            return Err(("poisoned", "the lock of the service is poisoned".into()));
        }
        panics()?;
        let t = tally.into_inner().unwrap();
        rep.sample(json!({"listeners": n, "requests": t}));
        for (k, v) in t {
            rep.count(&format!("requests_{}", k), v);
        }
        for c in cases.into_inner().unwrap() {
            rep.case(Some(c));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C25

/// How a request tells its result
enum Back {
    Kept(Receiver<ExecutorResponse>),
    Gone,
    None,
}

fn any_back(r: &mut Rng) -> (Option<Sender<ExecutorResponse>>, Back) {
    match r.below(10) {
        0 | 1 => (None, Back::None),
        2 | 3 => (Some(mpsc::channel().0), Back::Gone),
        _ => {
            let (tx, rx) = mpsc::channel();
            (Some(tx), Back::Kept(rx))
        }
    }
}

fn stage_ops(r: &mut Rng, profile: &Profile, keys: &[String], guess: &Model, n: usize) -> Vec<Op> {
    let mut ops = vec![];
    while ops.len() < n {
        let op = gen::gen_op(r, profile, keys, guess, 0);
        // no clock here
        if op.lifetime().is_none() {
            ops.push(op);
        }
    }
    ops
}

/// The analysis workers between neighbours made for the purpose
fn analysis_stage(seed: u64, round: u64, rep: &mut Report) -> Outcome {
    let mut r = Rng::for_case(seed, "c25a", round);
    let (tx, rx) = mpsc::channel::<AnalysisRequest>();
    let (out, results) = mpsc::channel::<ExecutorRequest>();
    let n = *r.pick(&[1usize, 1, 2, 3, 7]);
    let mut pool = AnalysisPool::new(n, out, Arc::new(Mutex::new(rx)));
    pool.start();
    let mut expected: HashMap<String, (Vec<Op>, AuthorizationLevel, Back)> = HashMap::new();
    let mut refused: Vec<(String, Receiver<ExecutorResponse>)> = vec![];
    let m = *r.pick(&[0usize, 5, 60, 300]);
    for i in 0..m {
        let id = format!("id_{}_{}", round, i);
        let mut ops = vec![Op::Get(id.clone())];
        let k = if i == 30 { *r.pick(&[1000usize, 1024, 1500, 4096, 10_000]) } else { *r.pick(&[0usize, 1, 1, 2, 5, 40]) };
        ops.extend((0..k).map(|_| gen_text_op(&mut r)));
        let mut text = gen::render(&mut r, &ops, Style::Wild);
        if r.pct(35) {
            text = match r.below(5) {
                0 | 1 => mutate(&mut r, &text),
                2 | 3 => format!("get {} ; {}", id, soup_text(&mut r, 5)),
                _ => vmon::texts::fringed(&mut r, text, 100),
            };
        }
        let level = any_level(&mut r);
        let (sender, back) = any_back(&mut r);
        rep.case(Some(hash_of(&(&text, i))));
        match refparse::parse(&text) {
            Some(ops) if matches!(ops.first(), Some(Op::Get(x)) if *x == id) => {
                expected.insert(id, (ops, level, back));
            }
            // another first statement: not to be told apart from others
            Some(_) => continue,
            None => {
                if let Back::Kept(rx) = back {
                    refused.push((text.clone(), rx));
                }
            }
        }
        tx.send(AnalysisRequest { request: text, authorization: level, sender }).ok();
        if r.pct(3) {
            nap(r.below(3) as u64);
        }
    }
    rep.count("requests_analysed", m as u64);
    rep.count("texts_refused", refused.len() as u64);
    let left = expected.len();
    for _ in 0..left {
        let Ok(got) = results.recv_timeout(patience()) else {
            panics()?;
            let (id, e) = expected.iter().next().unwrap();
            return Err(("not_handed_on", format!("{} requests were not handed on, among them {}: {}", expected.len(), id, cut(&format!("{:?}", e.0)))));
        };
        let ops: Vec<Op> = got.request.statements.iter().map(op_of).collect::<Result<_, _>>().map_err(|e| ("bad_value", e))?;
        let id = match ops.first() {
            Some(Op::Get(id)) => id.clone(),
            other => return Err(("unknown", format!("a request with {} statements that starts with {:?} was handed on", ops.len(), other))),
        };
        let Some((want, level, back)) = expected.remove(&id) else {
            return Err(("unknown", format!("a request was handed on that must not be (or not again): {}", cut(&format!("{:?}", ops)))));
        };
        if ops != want {
            return Err(("different", format!("handed on was {} instead of {}", cut(&format!("{:?}", ops)), cut(&format!("{:?}", want)))));
        }
        if got.request.authorization != level {
            return Err(("wrong_level", format!("a request of level {:?} was handed on with {:?}", level, got.request.authorization)));
        }
        // the way back leads to the one who asked
        match (got.sender, back) {
            (Some(s), Back::Kept(rx)) => {
                if let Ok(a) = rx.try_recv() {
                    return Err(("answered", format!("a request that was handed on was answered with {:?}", a.response)));
                }
                s.send(ExecutorResponse { response: echo_of(&id) }).ok();
                match rx.try_recv() {
                    Ok(a) if same(&a.response, &echo_of(&id)) => (),
                    _ => return Err(("lost", format!("the answer to {} did not reach the one who asked", id))),
                }
            }
            (Some(s), Back::Gone) if s.send(ExecutorResponse { response: echo_of(&id) }).is_err() => (),
            (None, Back::None) => (),
            (s, _) => return Err(("sender", format!("request {} was handed on {} a way back", id, if s.is_some() { "with" } else { "without" }))),
        }
    }
    for (text, rx) in &refused {
        match rx.recv_timeout(patience()) {
            Ok(ExecutorResponse { response: Err(ServerError::TokenizationError(_) | ServerError::ParseError(_) | ServerError::TypeError(_)) }) => (),
            Ok(other) => return Err(("wrong_answer", format!("{:?} was answered with {:?}", cut(text), other.response))),
            Err(_) => {
                panics()?;
                return Err(("no_answer", format!("no answer to {:?}", cut(text))));
            }
        }
        if rx.try_recv().is_ok() {
            return Err(("many_answers", format!("two answers to {:?}", cut(text))));
        }
    }
    nap(5);
    if let Ok(x) = results.try_recv() {
        return Err(("unknown", format!("handed on although nothing was left: {}", cut(&format!("{:?}", x.request)))));
    }
    let t = Instant::now();
    match r.below(3) {
        // nobody executes any longer
        0 => {
            drop(results);
            for i in 0..n * 10 {
                let (s, back) = mpsc::channel();
                let good = i % 2 == 0;
                tx.send(AnalysisRequest { request: if good { "get a".into() } else { "get".into() }, authorization: AuthorizationLevel::Read, sender: Some(s) }).ok();
                match back.recv_timeout(patience()) {
                    Ok(ExecutorResponse { response: Err(ServerError::ParseError(_)) }) if !good => (),
                    Ok(ExecutorResponse { response: Err(ServerError::InternalError(_)) }) if good => (),
                    Err(mpsc::RecvTimeoutError::Disconnected) if good => (),
                    other => {
                        panics()?;
                        return Err(("after", format!("without an executor {} request got {:?}", if good { "a" } else { "a malformed" }, other.map(|x| x.response))));
                    }
                }
            }
            rep.count("stages_without_a_successor", 1);
        }
        // nobody asks any longer
        1 => {
            drop(tx);
            nap(5);
            rep.count("stages_without_a_predecessor", 1);
        }
        _ => (),
    }
    pool.stop();
    if t.elapsed() > patience() {
        return Err(("stop", "stopping the analysis pool took too long".into()));
    }
    panics()
}

/// The executor between neighbours made for the purpose
fn executor_stage(seed: u64, round: u64, rep: &mut Report) -> Outcome {
    let mut r = Rng::for_case(seed, "c25e", round);
    let (tx, rx) = mpsc::channel::<ExecutorRequest>();
    let flag = Arc::new(AtomicBool::new(false));
    let mut executor = Executor::new(rx, Arc::clone(&flag));
    // some requests are there before the executor is
    let mut started = r.pct(70);
    if started {
        executor.start();
    }
    let mut model = Model::new();
    let n = r.range(1, 8);
    let keys = gen::key_pool(&mut r, n);
    let mut waiting: Vec<(String, vmon::model::Expect, Receiver<ExecutorResponse>)> = vec![];
    let mut last = String::new();
    let stops_at = if r.pct(40) { r.below(120) } else { usize::MAX };
    let mut stopped = false;
    let drain = |waiting: &mut Vec<(String, vmon::model::Expect, Receiver<ExecutorResponse>)>| -> Outcome {
        for (what, want, rx) in waiting.drain(..) {
            let Ok(got) = rx.recv_timeout(patience()) else {
                panics()?;
                return Err(("no_answer", format!("no answer to {}", what)));
            };
            let a = answer_of(&got.response).map_err(|e| ("bad_value", e))?;
            if !want.allows(&a) {
                return Err(("wrong_answer", format!("{} was answered with {} instead of {:?}", what, cut(&format!("{:?}", a)), want)));
            }
            if rx.try_recv().is_ok() {
                return Err(("many_answers", format!("two answers to {}", what)));
            }
        }
        Ok(())
    };
    for i in 0..*r.pick(&[10usize, 100, 150]) {
        let mut profile = [Profile::kv(), Profile::coll(), Profile::batch()][r.below(3)].clone();
        profile.lifetime_pct = 0;
        let size = *r.pick(&[0usize, 1, 1, 2, 5, 20]);
        let mut ops = stage_ops(&mut r, &profile, &keys, &model, size);
        ops.retain(|o| !matches!(o, Op::Shutdown));
        let mut level = gen::gen_level(&mut r);
        let mut stopping = false;
        if i == stops_at {
            level = Level::Admin;
            ops = vec![Op::Set("stopping".into(), vmon::model::Val::Int(1), None), Op::Shutdown, Op::Set("stopping".into(), vmon::model::Val::Int(2), None)];
            stopping = true;
        } else if r.pct(10) {
            // these must not stop anything: not allowed, or not reached
            if r.pct(50) {
                level = Level::Read;
                ops.insert(r.below(ops.len() + 1), Op::Shutdown);
            } else {
                ops.push(Op::Get("no_such_key_anywhere".into()));
                ops.push(Op::Shutdown);
            }
        }
        let (want, _) = model.apply_batch(&ops, level, 0);
        let (sender, back) = any_back(&mut r);
        let what = cut(&format!("request {} of {:?}: {:?}", i, level, ops));
        rep.case(Some(hash_of(&(&what, round))));
        let statements = ops.iter().map(to_statement).collect();
        tx.send(ExecutorRequest { request: InterpreterRequest { statements, authorization: level.real() }, sender }).ok();
        rep.count("requests_executed", 1);
        match back {
            Back::Kept(rx) => waiting.push((what.clone(), want, rx)),
            Back::Gone | Back::None => rep.count("requests_nobody_waits_for", 1),
        }
        last = what;
        if started && (stopping || r.pct(30)) {
            // by now everything before was executed
            let (s, b) = mpsc::channel();
            tx.send(ExecutorRequest { request: InterpreterRequest { statements: vec![Statement::Null], authorization: AuthorizationLevel::Read }, sender: Some(s) }).ok();
            if !stopping && !stopped && flag.load(Ordering::SeqCst) {
                return Err(("flag", format!("shutting down before any shutdown was asked for, after {:?}", last)));
            }
            if b.recv_timeout(patience()).is_err() {
                panics()?;
                return Err(("no_answer", format!("no answer after {:?}", last)));
            }
            drain(&mut waiting)?;
            if !stopping && !stopped && flag.load(Ordering::SeqCst) {
                return Err(("flag", format!("shutting down although no shutdown was executed, after {:?}", last)));
            }
            if stopping && !flag.load(Ordering::SeqCst) {
                return Err(("flag", format!("not shutting down after {:?}", last)));
            }
        }
        stopped |= stopping;
    }
    if !started {
        executor.start();
        started = true;
        rep.count("started_late", 1);
    }
    drain(&mut waiting)?;
    // everything there is, as the model has it
    let mut everything: BTreeSet<String> = model.keys();
    everything.extend(keys.iter().cloned());
    everything.insert("stopping".into());
    for k in everything {
        let op = Op::TryGet(k.clone());
        let (want, _) = model.apply_batch(&[op.clone()], Level::Read, 0);
        let (s, b) = mpsc::channel();
        tx.send(ExecutorRequest { request: InterpreterRequest { statements: vec![to_statement(&op)], authorization: AuthorizationLevel::Read }, sender: Some(s) }).ok();
        let Ok(got) = b.recv_timeout(patience()) else {
            panics()?;
            return Err(("no_answer", format!("no answer to reading {}", k)));
        };
        let a = answer_of(&got.response).map_err(|e| ("bad_value", e))?;
        if !want.allows(&a) {
            return Err(("state", format!("in the end {} is {} instead of {:?}", k, cut(&format!("{:?}", a)), want)));
        }
        rep.count("entries_compared", 1);
    }
    if stopped && !flag.load(Ordering::SeqCst) {
        return Err(("flag", "the shutdown was forgotten".into()));
    }
    if !stopped && flag.load(Ordering::SeqCst) {
        return Err(("flag", "shutting down although no shutdown was executed".into()));
    }
    rep.count("shutdowns", stopped as u64);
    if r.pct(40) {
        drop(tx);
        nap(3);
        rep.count("stages_without_a_predecessor", 1);
    }
    let t = Instant::now();
    executor.stop();
    if t.elapsed() > patience() || !started {
        return Err(("stop", "stopping the executor took too long".into()));
    }
    panics()
}

#[derive(Clone, Debug)]
enum Event {
    Taken(usize),
    Answered(usize, ServerAnswer),
    Ended,
}

/// A stream of requests that ends, whose responses are hard to deliver at times
struct Script {
    requests: Vec<(Result<String, ServerError>, HashMap<String, String>, u8)>,
    at: usize,
    events: Arc<Mutex<Vec<Event>>>,
}

struct ScriptSender {
    at: usize,
    fails: bool,
    events: Arc<Mutex<Vec<Event>>>,
}

impl StreamSender for ScriptSender {
    fn send(&mut self, response: ServerAnswer) -> Result<(), ServerError> {
        self.events.lock().unwrap().push(Event::Answered(self.at, response));
        if self.fails {
            return Err(ServerError::NetworkError("Error writing to stream.".into()));
        }
        Ok(())
    }
}

impl StreamHandler for Script {
    fn receive_request(&mut self) -> Option<StreamRequest> {
        let Some((request, headers, how)) = self.requests.get(self.at).cloned() else {
            self.events.lock().unwrap().push(Event::Ended);
            return None;
        };
        let at = self.at;
        self.at += 1;
        self.events.lock().unwrap().push(Event::Taken(at));
        let sender: Option<Box<dyn StreamSender + Send>> = match how {
            0 => None,
            k => Some(Box::new(ScriptSender { at, fails: k == 1, events: Arc::clone(&self.events) })),
        };
        Some(StreamRequest { request, headers, sender })
    }
}

/// The single threaded server with a stream made for the purpose
fn single_stage(seed: u64, round: u64, rep: &mut Report) -> Outcome {
    let mut r = Rng::for_case(seed, "c25s", round);
    let mut model = Model::new();
    let n = r.range(1, 6);
    let keys = gen::key_pool(&mut r, n);
    let mut requests = vec![];
    let mut wants: Vec<(String, Option<vmon::model::Expect>)> = vec![];
    let stops_at = if r.pct(50) { r.below(80) } else { usize::MAX };
    for i in 0..*r.pick(&[0usize, 1, 20, 100]) {
        let mut profile = [Profile::kv(), Profile::coll(), Profile::batch()][r.below(3)].clone();
        profile.lifetime_pct = 0;
        let size = if i == 17 { *r.pick(&[500usize, 1001, 1025, 4097]) } else { *r.pick(&[1usize, 1, 2, 6]) };
        let mut ops: Vec<Op> = stage_ops(&mut r, &profile, &keys, &model, size);
        ops.retain(|o| !matches!(o, Op::Shutdown) && gen::has_text(o));
        let mut user = *r.pick(&[Some("admin"), Some("admin"), Some("write"), Some("read"), Some("unauthenticated"), Some("bob"), None]);
        if r.pct(15) {
            // must not stop anything
            if r.pct(50) {
                ops.push(Op::Get("no_such_key_anywhere".into()));
            } else if user == Some("admin") {
                user = Some("write");
            }
            ops.push(Op::Shutdown);
        }
        if i == stops_at {
            user = Some("admin");
            ops = vec![Op::Exists("a".into()), Op::Shutdown, Op::Get("a".into())];
        }
        let level = match user {
            Some("admin") => Some(Level::Admin),
            Some("write") => Some(Level::Write),
            Some("read") => Some(Level::Read),
            _ => None,
        };
        let how = *r.pick(&[0u8, 1, 2, 2, 2]);
        let headers = headers(user);
        let text = gen::render(&mut r, &ops, Style::Wild);
        let what = cut(&format!("request {} by {:?}: {:?}", i, user, text));
        rep.case(Some(hash_of(&(&what, how, round))));
        if r.pct(12) && i != stops_at {
            let e = any_error(&mut r, format!("unreadable {}", i));
            wants.push((what, Some(vmon::model::Expect::Fail(vec![vmon::model::ek(&e)]))));
            requests.push((Err(e), if r.pct(50) { HashMap::new() } else { headers }, how));
            continue;
        }
        let want = match (level, user) {
            (Some(l), _) => model.apply_batch(&ops, l, 0).0,
            (None, Some("unauthenticated")) => vmon::model::Expect::Fail(vec![EK::Authn]),
            (None, Some(_)) => vmon::model::Expect::Fail(vec![EK::Authz]),
            (None, None) => vmon::model::Expect::AnyFail,
        };
        wants.push((what, Some(want)));
        requests.push((Ok(text), headers, how));
    }
    let stop = if stops_at < wants.len() { stops_at } else { usize::MAX };
    if stop == usize::MAX {
        for k in &keys {
            let op = Op::TryGet(k.clone());
            wants.push((format!("reading {} in the end", k), Some(model.apply_batch(&[op.clone()], Level::Read, 0).0)));
            let text = gen::render(&mut r, &[op], Style::Plain);
            requests.push((Ok(text), headers(Some("read")), 2));
        }
    }
    let hows: Vec<u8> = requests.iter().map(|x| x.2).collect();
    let events = Arc::new(Mutex::new(vec![]));
    let script = Script { requests, at: 0, events: Arc::clone(&events) };
    let (done, over) = mpsc::channel();
    std::thread::spawn(move || {
        SingleThreadedServer::new().serve(script);
        done.send(()).ok();
    });
    if over.recv_timeout(patience()).is_err() {
        panics()?;
        return Err(("single_stop", format!("the server did not return; last {:?}", events.lock().unwrap().last())));
    }
    let events = std::mem::take(&mut *events.lock().unwrap());
    let mut it = events.iter().peekable();
    for (i, (what, want)) in wants.iter().enumerate() {
        match it.next() {
            Some(Event::Taken(j)) if *j == i => (),
            other => return Err(("single_order", format!("{:?} instead of taking {}", other, what))),
        }
        if hows[i] != 0 {
            match (it.next(), want) {
                (Some(Event::Answered(j, a)), Some(want)) if *j == i => {
                    let a = answer_of(a).map_err(|e| ("bad_value", e))?;
                    if !want.allows(&a) {
                        return Err(("single_answer", format!("{} was answered with {} instead of {:?}", what, cut(&format!("{:?}", a)), want)));
                    }
                }
                (other, _) => return Err(("single_order", format!("{:?} instead of an answer to {}", other, what))),
            }
        } else {
            rep.count("requests_nobody_waits_for", 1);
        }
        rep.count("requests_served", 1);
        if i == stop {
            if let Some(x) = it.next() {
                return Err(("single_stop", format!("{:?} after the shutdown {}", x, what)));
            }
            rep.count("shutdowns", 1);
            return panics();
        }
    }
    match (it.next(), it.next()) {
        (Some(Event::Ended), None) => panics(),
        other => Err(("single_stop", format!("{:?} at the end of the stream", other))),
    }
}

fn c25(thorough: bool, seed: u64, rep: &mut Report) -> Outcome {
    divide_sleeps(20);
    let rounds = if thorough { 3000u64 } else { 240 };
    let next = AtomicU64::new(0);
    let shared = Mutex::new(Report::new());
    let bad: Mutex<Option<Fail>> = Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..6 {
            s.spawn(|| {
                let mut own = Report::new();
                loop {
                    let round = next.fetch_add(1, Ordering::SeqCst);
                    if round >= rounds || bad.lock().unwrap().is_some() {
                        break;
                    }
                    let out = match round % 3 {
                        0 => analysis_stage(seed, round, &mut own),
                        1 => executor_stage(seed, round, &mut own),
                        _ => single_stage(seed, round, &mut own),
                    };
                    if let Err((sig, d)) = out {
                        bad.lock().unwrap().get_or_insert((sig, format!("round {}: {}", round, d)));
                    }
                }
                shared.lock().unwrap().merge(own);
            });
        }
    });
    rep.merge(shared.into_inner().unwrap());
    match bad.into_inner().unwrap() {
        Some(b) => Err(b),
        None => panics(),
    }
}

/// No worker panicked, and none is left of any server
fn servers_end() -> Outcome {
    panics()?;
    let t = Instant::now();
    loop {
        let left = lasting().len();
        if left <= 2 {
            return Ok(());
        }
        if t.elapsed() > Duration::from_secs(30) {
            return Err(("threads", format!("{} threads are left when all servers have ended", left)));
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let name = std::thread::current().name().unwrap_or("unnamed").to_string();
        let text = format!("thread {} panicked: {}", name, i);
        eprintln!("{}", text);
        if name == "main" {
            eprintln!("harness panic: {}", text);
            std::process::exit(3);
        }
        if let Ok(mut p) = PANICS.lock() {
            p.push(text);
        }
    }));
    let args = Args::parse();
    let check = args.str("check").to_string();
    let seed = args.num("seed", 1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let size = args.num("size", 120) as usize;
    // a sanitizer may start a thread of its own with the first one
    std::thread::spawn(|| ()).join().ok();
    nap(20);
    let mut rep = Report::new();
    if args.get("part") == Some("fast") {
        divide_sleeps(10);
    }
    let (res, rule) = match check.as_str() {
        "C04" => (c04(thorough, seed, &mut rep), "expiry passes an expiration worker issues, at several intervals; non-trivial: distinct intervals"),
        "C09" => (c09(thorough, seed, &mut rep), "concurrent histories through the in-process workers, checked for linearizability; non-trivial: distinct histories with overlapping requests"),
        "C10" => (c10(thorough, seed, &mut rep), "requests through a listener pool with a backend that answers at once, soon, late or never, and through all workers; non-trivial: distinct rounds"),
        "C13" => (c13(thorough, seed, &mut rep), "pools stopped at random moments under load; non-trivial: distinct rounds"),
        "C24" => (c24(thorough, seed, &mut rep), "requests through listener pools with an authentication service of the monitor's, whose rulings change all the time; non-trivial: distinct requests"),
        "C25" => (c25(thorough, seed, &mut rep), "requests through an analysis pool or an executor between neighbours made for the purpose; non-trivial: distinct requests"),
        "C27" => (vmon::handlers::handlers(thorough, seed, args.get("part") == Some("plain"), &mut rep), "connections to both TCP stream handlers, taken and answered by the monitor; non-trivial: distinct byte sequences sent"),
        "C28" => (
            match vmon::servers::servers(thorough, seed, args.num("rounds", 16), &mut rep) {
                Ok(()) => servers_end(),
                bad => bad,
            },
            "whole servers of the library side by side in one process, of all sizes, ended one after another; non-trivial: distinct requests at distinct addresses",
        ),
        "C17" => (c17(thorough, seed, size, args.get("part") == Some("direct"), &mut rep), "mixed workloads through in-process workers of several sizes, under sanitizers; non-trivial: distinct requests and pipelines"),
        other => panic!("unknown check {}", other),
    };
    if let Err((sig, d)) = res {
        rep.violation(sig, d.clone(), json!({"how": format!("pipe --check {} --seed {} --size {}", check, seed, size), "what": d}));
    }
    match args.get("out") {
        Some(out) => rep.write(out, rule),
        None => eprintln!("{} evaluations, {:#?}, {} violations", rep.evaluations, rep.counters, rep.violations.len()),
    }
    // stuck threads do not keep the process
    std::process::exit(0);
}
