//! Whole servers of the library side by side in one process: coordinators with any numbers of workers and
//! single-threaded servers, each at an address of its own, each with an end of its own.

use std::collections::HashSet;
use std::net::{IpAddr, Ipv4Addr, SocketAddr, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{mpsc, Mutex};
use std::time::{Duration, Instant};

use serde_json::json;
use server::io::tcp::TcpStreamHandler;
use server::multithreaded::Coordinator;
use server::single_threaded::SingleThreadedServer;

use crate::http::{self, Got, Reply};
use crate::model::{Resp, Val, EK};
use crate::report::{hash_of, Report};
use crate::rng::Rng;

type Fail = (&'static str, String);
type Outcome = Result<(), Fail>;

/// Zero listeners: single-threaded
#[derive(Clone, Debug)]
struct Place {
    name: String,
    listeners: usize,
    analyzers: usize,
    addr: SocketAddr,
}

impl Place {
    fn show(&self) -> String {
        match self.listeners {
            0 => format!("single-threaded server {} at {}", self.name, self.addr),
            l => format!("Coordinator({}, {}) {} at {}", l, self.analyzers, self.name, self.addr),
        }
    }
}

fn nap(ms: u64) {
    let end = Instant::now() + Duration::from_millis(ms);
    while let Some(left) = end.checked_duration_since(Instant::now()) {
        std::thread::sleep(left.min(Duration::from_millis(100)));
    }
}

fn connect(addr: SocketAddr, limit: u64) -> Result<TcpStream, String> {
    let s = TcpStream::connect_timeout(&addr, Duration::from_secs(limit)).map_err(|e| e.to_string())?;
    s.set_nodelay(true).ok();
    s.set_read_timeout(Some(http::PATIENCE)).ok();
    s.set_write_timeout(Some(http::PATIENCE)).ok();
    Ok(s)
}

fn send(addr: SocketAddr, bytes: &[u8]) -> Got {
    match connect(addr, 20) {
        Ok(mut s) => {
            http::send_all(&mut s, bytes);
            http::read_all(&mut s)
        }
        Err(e) => Got::CannotConnect(e),
    }
}

fn ask(addr: SocketAddr, user: &str, query: &str) -> Reply {
    http::reply_of(send(addr, &http::request(Some(user), query)))
}

/// Ask something that may be repeated until the answer is no timeout
fn again(addr: SocketAddr, user: &str, query: &str) -> Reply {
    let t = Instant::now();
    loop {
        match ask(addr, user, query) {
            Reply::TimedOut if t.elapsed() < http::PATIENCE => nap(150),
            other => return other,
        }
    }
}

fn text(s: &str) -> Resp {
    Resp::Value(Val::Str(s.into()))
}

struct Running {
    place: Place,
    ended: mpsc::Receiver<Result<(), String>>,
}

/// Make the server, let somebody ask before it serves, let it serve
fn start(place: &Place, early: bool) -> Result<(Running, Option<TcpStream>), Fail> {
    let (tx, rx) = mpsc::channel();
    let (go_tx, go_rx) = mpsc::channel::<()>();
    let (made_tx, made_rx) = mpsc::channel::<()>();
    let p = place.clone();
    std::thread::spawn(move || {
        let (ip, port) = (p.addr.ip(), p.addr.port() as usize);
        let out = std::panic::catch_unwind(move || {
            if p.listeners == 0 {
                let handler = TcpStreamHandler::new(ip, port);
                let mut s = SingleThreadedServer::new();
                made_tx.send(()).ok();
                go_rx.recv().ok();
                s.serve(handler);
            } else {
                let mut c = Coordinator::new(p.listeners, p.analyzers, ip, port);
                made_tx.send(()).ok();
                go_rx.recv().ok();
                c.serve();
            }
        });
        tx.send(out.map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())).ok();
    });
    if made_rx.recv_timeout(Duration::from_secs(20)).is_err() {
        let why = rx.recv_timeout(Duration::from_secs(1)).map(|r| format!("{:?}", r)).unwrap_or_else(|_| "it takes more than 20 s".into());
        return Err(("cannot_start", format!("{} cannot be made: {}", place.show(), why)));
    }
    let first = if early {
        let mut s = connect(place.addr, 20).map_err(|e| ("deaf", format!("{} was made, but nobody can connect: {}", place.show(), e)))?;
        http::send_all(&mut s, &http::request(Some("write"), "set early \"yes\"; get early"));
        Some(s)
    } else {
        None
    };
    if early {
        nap(20);
    }
    go_tx.send(()).ok();
    Ok((Running { place: place.clone(), ended: rx }, first))
}

/// One client, the only one to use its keys
fn client(place: &Place, seed: u64, c: usize, least: u64, stop: &AtomicBool, asked: &AtomicU64, rep: &mut Report) -> Outcome {
    let mut r = Rng::for_case(seed, &place.name, c as u64);
    let a = place.addr;
    let mut life = 0;
    let (mut key, mut list, mut dict) = (format!("a{}_0", c), format!("l{}_0", c), format!("m{}_0", c));
    let mut last: Option<String> = None;
    let (mut pushed, mut entries) = (None::<u64>, HashSet::new());
    let mut n = 0u64;
    while n < least || !stop.load(Ordering::SeqCst) {
        if n >= least * 40 {
            nap(5);
        }
        n += 1;
        asked.fetch_add(1, Ordering::SeqCst);
        let mine = format!("{}|{}|{}", place.name, c, n);
        let kind = r.below(14);
        let (user, query, want): (&str, String, Result<Resp, EK>) = match kind {
            0 | 1 => ("write", format!("set {} \"{}\"; get {}", key, mine, key), Ok(text(&mine))),
            2 => match &last {
                Some(x) => ("read", format!("get {}", key), Ok(text(x))),
                None => ("read", format!("ex {}", key), Ok(Resp::Bool(false))),
            },
            3 => match pushed {
                Some(k) => ("write", format!("vpush {} {}; vlen {}", list, n, list), Ok(Resp::Size(k + 1))),
                None => ("admin", format!("set {} int []; vlen {}", list, list), Ok(Resp::Size(0))),
            },
            4 => match pushed {
                Some(k) => ("read", format!("vlen {}", list), Ok(Resp::Size(k))),
                None => ("read", format!("vlen {}", list), Err(EK::Key)),
            },
            5 if entries.is_empty() => ("write", format!("set {} str int {{}}; mset {} \"{}\" {}; mlen {}", dict, dict, mine, n, dict), Ok(Resp::Size(1))),
            5 => ("write", format!("mset {} \"{}\" {}; mlen {}", dict, mine, n, dict), Ok(Resp::Size(entries.len() as u64 + 1))),
            6 => ("read", "get who".into(), Ok(text(&place.name))),
            7 => ("read", format!("set {} 5", key), Err(EK::Authz)),
            8 => ("write", "get who; shutdown".into(), Err(EK::Authz)),
            9 => (["nobody", "unauthenticated"][n as usize % 2], format!("set {} 6", key), Err([EK::Authz, EK::Authn][n as usize % 2])),
            10 => ("admin", format!("set {} \"x\"; set", key), Err(EK::Parse)),
            11 => ("admin", format!("get none{}", n), Err(EK::Key)),
            12 => ("admin", "set who \"x\"; \"".into(), Err(EK::Token)),
            _ => {
                // bytes that are no request
                match send(a, b"no request\r\n\r\n") {
                    Got::Response(x) if x.status >= 400 => rep.count("no_requests_refused", 1),
                    // what was not read may destroy the answer on its way
                    Got::Closed | Got::Bad(_) => rep.count("no_requests_unanswered", 1),
                    other => return Err(("wrong_answer", format!("{}: bytes that are no request came to {:?}", place.show(), other))),
                }
                continue;
            }
        };
        match ask(a, user, &query) {
            Reply::Answer(x) if x == want => {
                rep.count(if want.is_ok() { "answers" } else { "refusals" }, 1);
                match kind {
                    0 | 1 => last = Some(mine.clone()),
                    3 => pushed = Some(pushed.map_or(0, |k| k + 1)),
                    5 => {
                        entries.insert(mine.clone());
                    }
                    _ => (),
                }
            }
            Reply::TimedOut if place.listeners > 0 => {
                rep.count("timeouts", 1);
                // nobody knows what became of it
                life += 1;
                (key, list, dict) = (format!("a{}_{}", c, life), format!("l{}_{}", c, life), format!("m{}_{}", c, life));
                (last, pushed, entries) = (None, None, HashSet::new());
            }
            other => return Err(("wrong_answer", format!("{}: client {}, request {}: {:?} by {} was answered with {:?}, not {:?}", place.show(), c, n, query, user, other, want))),
        }
        rep.case(Some(hash_of(&(&place.addr, &query))));
    }
    Ok(())
}

/// Several servers, each with clients, ended one after another
fn round(seed: u64, thread: usize, n: u64, thorough: bool, rep: &mut Report) -> Outcome {
    let mut r = Rng::for_case(seed, "servers", n);
    let count = r.range(2, 3);
    // another process may run the same rounds at the same time
    let mut port;
    loop {
        port = 20_000 + (std::process::id() % 100 * 100) as u16 + r.below(100) as u16;
        if (1..=count).all(|i| std::net::TcpListener::bind((Ipv4Addr::new(127, 60 + thread as u8, (n % 250) as u8, i as u8), port)).is_ok()) {
            break;
        }
        nap(1);
    }
    let mut places = vec![];
    for i in 0..count {
        let size = |r: &mut Rng| match r.below(6) {
            0 | 1 => 1,
            2 => 2,
            3 => 3,
            4 => r.range(4, 7),
            _ => r.range(7, if i == 0 { 20 } else { 8 }),
        };
        // an analyser that waits for its turn takes a processor
        let few = [1, 1, 1, 2, 2, r.range(3, 6)];
        let (listeners, analyzers) = if i == 1 && r.pct(75) { (0, 0) } else { (size(&mut r), *r.pick(&few)) };
        // the same port at addresses of their own
        let ip = IpAddr::V4(Ipv4Addr::new(127, 60 + thread as u8, (n % 250) as u8, 1 + i as u8));
        places.push(Place { name: format!("s{}_{}", n, i), listeners, analyzers, addr: SocketAddr::new(ip, port) });
    }
    let mut running = vec![];
    for p in &places {
        let early = r.pct(50);
        let (s, first) = start(p, early)?;
        if let Some(mut first) = first {
            match http::reply_of(http::read_all(&mut first)) {
                Reply::Answer(Ok(x)) if x == text("yes") => rep.count("asked_before_it_served", 1),
                Reply::TimedOut if p.listeners > 0 => rep.count("timeouts", 1),
                other => return Err(("early", format!("{}: a request sent before it served was answered with {:?}", p.show(), other))),
            }
        }
        match again(p.addr, "admin", &format!("set who \"{}\"; get who", p.name)) {
            Reply::Answer(Ok(x)) if x == text(&p.name) => (),
            other => return Err(("wrong_answer", format!("{}: the first request was answered with {:?}", p.show(), other))),
        }
        running.push(s);
    }
    let other = SocketAddr::new(IpAddr::V4(Ipv4Addr::new(127, 60 + thread as u8, (n % 250) as u8, 200)), port);
    if TcpStream::connect_timeout(&other, Duration::from_secs(5)).is_ok() {
        return Err(("anywhere", format!("somebody answers at {}, too; servers: {}", other, places.iter().map(|p| p.show()).collect::<Vec<_>>().join(", "))));
    }
    let stops: Vec<AtomicBool> = places.iter().map(|_| AtomicBool::new(false)).collect();
    let asked: Vec<AtomicU64> = places.iter().map(|_| AtomicU64::new(0)).collect();
    let busy: Vec<AtomicUsize> = places.iter().map(|_| AtomicUsize::new(0)).collect();
    let shared: Mutex<(Report, Outcome)> = Mutex::new((Report::new(), Ok(())));
    let failed = AtomicBool::new(false);
    let crowd: Vec<usize> = places.iter().map(|_| r.range(1, 4)).collect();
    let mut order: Vec<usize> = (0..count).collect();
    r.shuffle(&mut order);
    let least = if thorough { 60 } else { 25 };
    let result = std::thread::scope(|s| -> Outcome {
        for (i, p) in places.iter().enumerate() {
            for c in 0..crowd[i] {
                busy[i].fetch_add(1, Ordering::SeqCst);
                let (stop, asked, busy, shared, failed) = (&stops[i], &asked[i], &busy[i], &shared, &failed);
                s.spawn(move || {
                    let mut own = Report::new();
                    let out = client(p, seed, c, least, stop, asked, &mut own);
                    failed.fetch_or(out.is_err(), Ordering::SeqCst);
                    let mut all = shared.lock().unwrap();
                    all.0.merge(own);
                    if all.1.is_ok() {
                        all.1 = out;
                    }
                    drop(all);
                    busy.fetch_sub(1, Ordering::SeqCst);
                });
            }
        }
        let out = (|| -> Outcome {
            nap(r.range(100, 600) as u64);
            for (k, i) in order.iter().enumerate() {
                end(&running[*i], &stops[*i], &busy[*i], &asked, &order[k + 1..], &stops, &failed, &places, rep)?;
                if k + 1 < order.len() {
                    // the others go on
                    let j = order[k + 1];
                    match again(places[j].addr, "read", "get who") {
                        Reply::Answer(Ok(x)) if x == text(&places[j].name) => rep.count("others_went_on", 1),
                        other => return Err(("others", format!("{} answered with {:?} after the end of {}", places[j].show(), other, places[*i].show()))),
                    }
                }
                if shared.lock().unwrap().1.is_err() {
                    return Ok(());
                }
            }
            Ok(())
        })();
        for s in &stops {
            s.store(true, Ordering::SeqCst);
        }
        out
    });
    let (own, out) = shared.into_inner().unwrap();
    rep.merge(own);
    out?;
    result?;
    rep.count("rounds", 1);
    if rep.samples.len() < 20 {
        rep.sample(json!({"servers": places.iter().map(|p| p.show()).collect::<Vec<_>>(), "clients": crowd, "ended": order}));
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn end(one: &Running, stop: &AtomicBool, busy: &AtomicUsize, asked: &[AtomicU64], others: &[usize], stops: &[AtomicBool], failed: &AtomicBool, places: &[Place], rep: &mut Report) -> Outcome {
    let p = &one.place;
    stop.store(true, Ordering::SeqCst);
    let t = Instant::now();
    while busy.load(Ordering::SeqCst) > 0 {
        if t.elapsed() > Duration::from_secs(150) {
            return Err(("stuck", format!("{}: a client was not answered for 150 s", p.show())));
        }
        nap(2);
    }
    if let Ok(why) = one.ended.try_recv() {
        return Err(("ended", format!("{} came back from serving before anybody shut it down: {:?}", p.show(), why)));
    }
    let before: Vec<u64> = others.iter().map(|i| asked[*i].load(Ordering::SeqCst)).collect();
    // somebody who says nothing is connected
    let silent = if hash_of(&p.name) % 5 == 0 && p.listeners > 0 { connect(p.addr, 20).ok() } else { None };
    match ask(p.addr, "admin", "set last 1; shutdown") {
        Reply::Answer(Ok(Resp::ShuttingDown)) => rep.count("shutdowns", 1),
        // under load
        Reply::TimedOut if p.listeners > 0 => rep.count("shutdowns_unanswered", 1),
        other => return Err(("shutdown", format!("{} answered the shutdown with {:?}", p.show(), other))),
    }
    match one.ended.recv_timeout(Duration::from_secs(60)) {
        Ok(Ok(())) => (),
        Ok(Err(e)) => return Err(("panic", format!("{} came back from serving with a panic: {}", p.show(), e))),
        Err(_) => return Err(("never_ends", format!("{} serves on 60 s after a shutdown", p.show()))),
    }
    drop(silent);
    // nobody is answered there any more, and after the last attempt the place is free
    let mut attempts = 0;
    let t = Instant::now();
    while let Ok(mut s) = connect(p.addr, 5) {
        s.set_read_timeout(Some(Duration::from_secs(15))).ok();
        http::send_all(&mut s, &http::request(Some("admin"), "set who \"gone\"; get who"));
        if let Got::Response(x) = http::read_all(&mut s) {
            if x.status == 200 {
                return Err(("answers_on", format!("{} answers after its end: {:?}", p.show(), String::from_utf8_lossy(&x.payload))));
            }
        }
        attempts += 1;
        if t.elapsed() > Duration::from_secs(40) {
            return Err(("left_open", format!("{} still takes connections after its end, {} of them", p.show(), attempts)));
        }
        nap(20);
    }
    rep.count("attempts_after_the_end", attempts);
    // a new one there knows nothing
    if hash_of(&p.name) % 3 == 0 {
        let q = Place { name: format!("{}_again", p.name), ..p.clone() };
        let (second, _) = start(&q, false)?;
        match again(q.addr, "read", "ex who") {
            Reply::Answer(Ok(Resp::Bool(false))) => (),
            other => return Err(("remembers", format!("{} is new; ex who was answered with {:?}", q.show(), other))),
        }
        match again(q.addr, "admin", "shutdown") {
            Reply::Answer(Ok(Resp::ShuttingDown)) => (),
            Reply::Broken(_) if q.listeners > 0 => rep.count("shutdowns_unanswered", 1),
            other => return Err(("shutdown", format!("{} answered the shutdown with {:?}", q.show(), other))),
        }
        match second.ended.recv_timeout(Duration::from_secs(60)) {
            Ok(Ok(())) => rep.count("again", 1),
            other => return Err(("never_ends", format!("{} after a shutdown: {:?}", q.show(), other))),
        }
        // whoever waits there
        drop(connect(q.addr, 5));
    }
    // the others were asked all the time
    let t = Instant::now();
    let waiting = |k: &usize| asked[others[*k]].load(Ordering::SeqCst) <= before[*k] && !stops[others[*k]].load(Ordering::SeqCst);
    while let Some(k) = (0..others.len()).find(waiting) {
        if failed.load(Ordering::SeqCst) {
            return Ok(());
        }
        if t.elapsed() > Duration::from_secs(70) {
            return Err(("others", format!("{} was asked nothing more after the end of {}", places[others[k]].show(), p.show())));
        }
        nap(5);
    }
    rep.count("servers", 1);
    rep.count(if p.listeners == 0 { "single_threaded" } else { "coordinators" }, 1);
    rep.count("listeners", p.listeners as u64);
    rep.count("analyzers", p.analyzers as u64);
    Ok(())
}

pub fn servers(thorough: bool, seed: u64, rounds: u64, rep: &mut Report) -> Outcome {
    let rounds = if thorough { rounds * 12 } else { rounds };
    let next = AtomicU64::new(0);
    let shared: Mutex<(Report, Outcome)> = Mutex::new((Report::new(), Ok(())));
    std::thread::scope(|s| {
        for i in 0..4usize {
            let (next, shared) = (&next, &shared);
            s.spawn(move || loop {
                let n = next.fetch_add(1, Ordering::SeqCst);
                if n >= rounds || shared.lock().unwrap().1.is_err() {
                    return;
                }
                let mut own = Report::new();
                let out = round(seed, i, n, thorough, &mut own).map_err(|(sig, d)| (sig, format!("round {}: {}", n, d)));
                let mut all = shared.lock().unwrap();
                all.0.merge(own);
                if all.1.is_ok() {
                    all.1 = out;
                }
            });
        }
    });
    let (own, out) = shared.into_inner().unwrap();
    rep.merge(own);
    out
}
