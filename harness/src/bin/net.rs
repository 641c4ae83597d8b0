//! Monitors of the server processes, seen from their clients.

use std::collections::BTreeSet;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Barrier, Mutex};
use std::time::{Duration, Instant};

use serde_json::{json, Value as Json};
use server::analysis::InterpreterResponse;
use vmon::conc::{append_run, late_run, lin_run, AppendLoad, Slow, Target};
use vmon::gen::{self, Profile, Style};
use vmon::http::{self, ask, ask_again, body_of, exchange, exchange_half_closed, request, request_with_body, Got, Raw, Reply};
use vmon::model::{answer_of, Answer, Expect, Level, Model, Op, Resp, Ty, Val, EK};
use vmon::proc::{Env, Kind, Opts, Server, KINDS};
use vmon::refparse;
use vmon::report::{hash_of, Args, Report};
use vmon::rng::Rng;
use vmon::texts::{gen_text_op, mutate, soup_text};

/// Signature and description of what went wrong
type Fail = (&'static str, String);
type Outcome = Result<(), Fail>;

struct Ctx {
    env: Env,
    seed: u64,
    check: String,
    thorough: bool,
}

impl Ctx {
    /// So many in a quick run, or many more
    fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    fn start(&self, kind: Kind, o: &Opts) -> Result<Server, Fail> {
        let mut o = o.clone();
        o.seed += self.seed * 1000;
        Server::start(&self.env, kind, &o).map_err(|e| ("start", e))
    }
}

/// Run something against several kinds of servers at once
fn each(ctx: &Ctx, rep: &mut Report, name: &'static str, kinds: &[Kind], f: impl Fn(&Ctx, Kind, &mut Report) -> Outcome + Sync) {
    let done: Vec<(Kind, Report, Outcome)> = std::thread::scope(|s| {
        let hs: Vec<_> = kinds
            .iter()
            .map(|k| {
                let f = &f;
                s.spawn(move || {
                    let mut r = Report::new();
                    let o = f(ctx, *k, &mut r);
                    (*k, r, o)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness panic")).collect()
    });
    for (k, mut r, o) in done {
        let named: Vec<(String, u64)> = std::mem::take(&mut r.counters).into_iter().map(|(c, n)| (format!("{}.{}.{}", name, k.name(), c), n)).collect();
        r.counters.extend(named);
        if let Err((sig, d)) = o {
            r.violation(
                &format!("{}-{}-{}", name, k.name(), sig),
                format!("{} server: {}", k.name(), d),
                json!({"how": format!("net --check {} --seed {}", ctx.check, ctx.seed), "part": name, "server": k.name(), "what": d}),
            );
        }
        rep.merge(r);
    }
}

/// No answer in time from a server that has nothing else to do, three times in a row, is no answer at all
fn available(srv: &mut Server) -> Outcome {
    srv.healthy().map_err(|e| ("died", e))?;
    let mut last = String::new();
    for _ in 0..3 {
        std::thread::sleep(Duration::from_millis(1500));
        match ask(srv.port, "read", "ex nothing_of_this_name") {
            Reply::Answer(_) => return Ok(()),
            other => last = format!("{:?}", other),
        }
    }
    Err(("unavailable", format!("an idle server answers nothing three times in a row: {}", last)))
}

fn want(srv: &mut Server, user: &str, q: &str, what: Answer) -> Outcome {
    match ask_again(srv.port, user, q) {
        Reply::Answer(a) if a == what => Ok(()),
        other => {
            srv.healthy().map_err(|e| ("died", e))?;
            Err(("wrong_answer", format!("{} by {} was answered with {:?} instead of {:?}", short(q), user, other, what)))
        }
    }
}

fn value(s: &str) -> Answer {
    Ok(Resp::Value(Val::Str(s.into())))
}

fn short(s: &str) -> String {
    let n = s.chars().count();
    let t: String = s.chars().take(300).collect();
    if n > 300 {
        format!("{}... ({} characters)", t, n)
    } else {
        t
    }
}

struct ByPort(u16);

impl Target for ByPort {
    fn ask(&self, user: &str, query: &str) -> Reply {
        ask(self.0, user, query)
    }
}

// ------------------------------------------------------------------------------------- sequential sessions

const USERS: [&str; 12] = ["bob", "Admin", "ADMIN", "", "root", "administrator", "admin2", "adm", "write ro", "reader", "unauthenticatedx", "null"];

/// A user and what it may do; None is no user at all
fn pick_user(r: &mut Rng, admins: usize) -> (Option<String>, Result<Level, Option<EK>>) {
    if r.pct(admins) {
        return (Some("admin".into()), Ok(Level::Admin));
    }
    match r.below(8) {
        0 | 1 => (Some("write".into()), Ok(Level::Write)),
        2 | 3 => (Some("read".into()), Ok(Level::Read)),
        4 => (None, Err(None)),
        5 => (Some("unauthenticated".into()), Err(Some(EK::Authn))),
        _ => (Some(r.pick(&USERS).to_string()), Err(Some(EK::Authz))),
    }
}

const NOW: i128 = 1_000_000_000_000_000_000;

/// Statements that can be written as text and whose lifetimes cannot run out here
fn timeless_ops(r: &mut Rng, p: &Profile, keys: &[String], m: &Model, n: usize) -> Vec<Op> {
    let mut p = p.clone();
    p.lifetime_pct = 0;
    let mut guess = m.clone();
    (0..n)
        .map(|_| {
            let op = gen::gen_op(r, &p, keys, &guess, NOW);
            let mut op = gen::textual(r, op);
            if let Op::Set(_, v, l) | Op::Update(_, v, l) | Op::TrySet(_, v, l) = &mut op {
                *l = if *v != Val::Null && r.pct(12) { Some(r.range(5000, 90000) as u64) } else { None };
            }
            guess.apply(&op, NOW);
            op
        })
        .collect()
}

enum Step {
    Fine,
    /// No definite answer in time; the session cannot go on
    Skip,
}

struct Session {
    m: Model,
    keys: Vec<String>,
}

static SESSIONS: AtomicU64 = AtomicU64::new(0);

impl Session {
    fn new(r: &mut Rng) -> Session {
        let prefix = format!("s{}_", SESSIONS.fetch_add(1, Ordering::Relaxed));
        let n = r.range(2, 6);
        let keys = gen::key_pool(r, n).into_iter().map(|k| format!("{}{}", prefix, k)).collect();
        Session { m: Model::new(), keys }
    }

    /// Send a request, compare the answer with the specification
    fn step(&mut self, srv: &mut Server, user: Option<&str>, level: &Result<Level, Option<EK>>, ops: &[Op], text: &str) -> Result<Step, Fail> {
        self.step_at(srv, user, level, ops, text, NOW, None)
    }

    /// The same at another time; an answer that took until the deadline says nothing
    #[allow(clippy::too_many_arguments)]
    fn step_at(&mut self, srv: &mut Server, user: Option<&str>, level: &Result<Level, Option<EK>>, ops: &[Op], text: &str, now: i128, deadline: Option<Instant>) -> Result<Step, Fail> {
        let before = self.m.clone();
        let want = match level {
            Ok(l) => self.m.apply_batch(ops, *l, now).0,
            Err(Some(k)) => Expect::Fail(vec![*k]),
            Err(None) => Expect::Fail(vec![EK::Internal]),
        };
        match http::reply_of(exchange(srv.port, &request(user, text))) {
            Reply::Answer(a) if want.allows(&a) => Ok(Step::Fine),
            Reply::TimedOut => {
                available(srv)?;
                Ok(Step::Skip)
            }
            _ if deadline.map_or(false, |d| Instant::now() > d) => Ok(Step::Skip),
            other => {
                srv.healthy().map_err(|e| ("died", e))?;
                let held: Vec<_> = before.map.iter().filter(|(k, _)| text.to_lowercase().contains(k.as_str())).map(|(k, e)| short(&format!("{}={:?}", k, e.val))).collect();
                Err(("wrong_answer", format!("{} by {:?} on {:?} was answered with {} instead of {}", short(text), user, held, short(&format!("{:?}", other)), short(&format!("{:?}", want)))))
            }
        }
    }

    fn read_back(&mut self, srv: &mut Server) -> Result<Step, Fail> {
        let all: BTreeSet<String> = self.keys.iter().map(|k| k.to_lowercase()).chain(self.m.keys()).collect();
        for k in all {
            let op = [Op::TryGet(k.clone())];
            if let Step::Skip = self.step(srv, Some("read"), &Ok(Level::Read), &op, &format!("try_get {}", k))? {
                return Ok(Step::Skip);
            }
        }
        Ok(Step::Fine)
    }
}

/// Random requests by random users, with read-backs
fn session(srv: &mut Server, r: &mut Rng, p: &Profile, requests: usize, admins: usize, rep: &mut Report) -> Outcome {
    let mut s = Session::new(r);
    let mut log = vec![];
    let mut refused = 0;
    for i in 0..requests {
        let (user, level) = pick_user(r, admins);
        let n = *r.pick(&[0usize, 1, 1, 1, 1, 2, 2, 3, 5]);
        let mut ops = timeless_ops(r, p, &s.keys, &s.m, n);
        if level != Ok(Level::Admin) && r.pct(15) {
            let at = r.below(ops.len() + 1);
            ops.insert(at, Op::Shutdown);
        }
        let st = if r.pct(50) { Style::Wild } else { Style::Plain };
        let text = gen::render(r, &ops, st);
        if log.len() < 400 {
            log.push(format!("{:?}: {}", user, text));
        }
        rep.count("requests", 1);
        if let Err(_) = level {
            refused += 1;
        }
        if let Step::Skip = s.step(srv, user.as_deref(), &level, &ops, &text)? {
            rep.count("sessions_cut_short", 1);
            return Ok(());
        }
        if i % 40 == 39 || i + 1 == requests {
            if let Step::Skip = s.read_back(srv)? {
                rep.count("sessions_cut_short", 1);
                return Ok(());
            }
            rep.count("read_backs", 1);
        }
    }
    rep.count("sessions", 1);
    rep.count("requests_by_strangers", refused);
    rep.case(Some(hash_of(&log)));
    rep.sample(json!({"server": srv.kind.name(), "requests": requests, "first": log.iter().take(3).map(|s| short(s)).collect::<Vec<_>>()}));
    srv.healthy().map_err(|e| ("died", e))
}

// ------------------------------------------------------------------------------------- C07

fn c07(ctx: &Ctx, rep: &mut Report) {
    // every kind of statement by every kind of user
    each(ctx, rep, "matrix", &KINDS, |ctx, kind, rep| {
        let mut srv = ctx.start(kind, &Opts::default())?;
        let mut r = Rng::for_case(ctx.seed, "c07matrix", kind as u64);
        let users: Vec<(Option<&str>, Result<Level, Option<EK>>)> = [
            (Some("admin"), Ok(Level::Admin)),
            (Some("write"), Ok(Level::Write)),
            (Some("read"), Ok(Level::Read)),
            (Some("unauthenticated"), Err(Some(EK::Authn))),
            (None, Err(None)),
        ]
        .into_iter()
        .chain(USERS.iter().map(|u| (Some(*u), Err(Some(EK::Authz)))))
        .collect();
        for (user, level) in &users {
            let mut s = Session::new(&mut r);
            let k = s.keys[0].clone();
            let init = vec![Op::Set(k.clone(), Val::Vec(Ty::Int, vec![Val::Int(1), Val::Int(2)]), None)];
            let text = gen::render(&mut r, &init, Style::Plain);
            if let Step::Skip = s.step(&mut srv, Some("admin"), &Ok(Level::Admin), &init, &text)? {
                continue;
            }
            for op_kind in 0..23 {
                let mut op = gen::op_of_kind(&mut r, op_kind, &k);
                if let Op::Set(_, _, l) | Op::Update(_, _, l) | Op::TrySet(_, _, l) = &mut op {
                    *l = None;
                }
                let mut op = gen::textual(&mut r, op);
                if let Op::Set(_, _, l) | Op::Update(_, _, l) | Op::TrySet(_, _, l) = &mut op {
                    *l = None;
                }
                for place in 0..3 {
                    // alone, last after reads, first before reads
                    let ops = match place {
                        0 => vec![op.clone()],
                        1 => vec![Op::Exists(k.clone()), Op::Set(format!("{}side", k), Val::Int(7), None), op.clone()],
                        _ => vec![op.clone(), Op::Exists(k.clone())],
                    };
                    if ops.contains(&Op::Shutdown) && *level == Ok(Level::Admin) {
                        continue;
                    }
                    let text = gen::render(&mut r, &ops, Style::Plain);
                    if let Step::Skip = s.step(&mut srv, *user, level, &ops, &text)? {
                        return Ok(());
                    }
                    for k in [k.clone(), format!("{}side", k)] {
                        let look = [Op::TryGet(k.clone())];
                        if let Step::Skip = s.step(&mut srv, Some("admin"), &Ok(Level::Admin), &look, &format!("try_get {}", k))? {
                            return Ok(());
                        }
                    }
                    rep.count("requests", 1);
                    rep.case(Some(hash_of(&(kind, *user, &text))));
                }
            }
        }
        // the multi-threaded server looks for a shutdown once a second, the async one as well
        std::thread::sleep(Duration::from_millis(2500));
        want(&mut srv, "admin", "ex nothing", Ok(Resp::Bool(false)))?;
        srv.healthy().map_err(|e| ("died", e))
    });
    each(ctx, rep, "sessions", &KINDS, |ctx, kind, rep| {
        let mut srv = ctx.start(kind, &Opts::default())?;
        let mut r = Rng::for_case(ctx.seed, "c07sessions", kind as u64);
        for _ in 0..ctx.n(12, 200) {
            session(&mut srv, &mut r, &Profile::batch(), 120, 25, rep)?;
        }
        std::thread::sleep(Duration::from_millis(2500));
        want(&mut srv, "admin", "ex nothing", Ok(Resp::Bool(false)))
    });
    // names and headers that resemble those that count
    each(ctx, rep, "lookalikes", &KINDS, |ctx, kind, rep| {
        let mut srv = ctx.start(kind, &Opts::default())?;
        want(&mut srv, "admin", "set canary \"alive\"", Ok(Resp::Message))?;
        let mut names: Vec<String> = vec![];
        for base in ["admin", "write", "read"] {
            for after in [
                ",", ", x", ",read", ";", "; q=1", "/x", " x", " admin", ":", ":pw", "@host", "%20", "%00", "\u{a0}", "=", "|read", "&", "#", "?", "*", ".", "-", "_", "0", "1", "\"", "'", "\\", "\u{301}",
                "\u{200b}", "\tx", "s", "r", "er", "ADMIN",
            ] {
                names.push(format!("{}{}", base, after));
            }
            for before in ["x", "x,", "x, ", "x ", "Basic ", "Bearer ", "\"", "'", "*", "user=", "!", "-", "0", "/", "\\", "\u{feff}", "\u{a0}", "name:", "read,", "admin,", "un"] {
                names.push(format!("{}{}", before, base));
            }
            names.push(format!("\"{}\"", base));
            names.push(format!("'{}'", base));
            names.push(base.to_uppercase());
            names.push(base[..1].to_uppercase() + &base[1..]);
            names.push(base[..base.len() - 1].to_string() + &base[base.len() - 1..].to_uppercase());
            names.push(base.chars().rev().collect());
            names.push(base[1..].to_string());
            names.push(base[..base.len() - 1].to_string());
            names.push(base[..1].to_string());
            names.push(base.replace('a', "\u{430}").replace('i', "\u{131}").replace('w', "\u{461}"));
            names.push(base.replace('a', "\u{ff41}").replace('i', "\u{130}").replace('r', "\u{ff52}"));
        }
        names.extend(["administrator", "superuser", "root", "*", "any", "none", "None", "write,read", "unauthenticated,", "Unauthenticated", "guest", "0", "true", "{}", "[]"].map(String::from));
        names.extend((0..60).map(|n| "a".repeat(1 << (n % 10)) + &n.to_string()));
        let queries = ["get canary", "set canary \"dead\"", "shutdown", "del canary; shutdown"];
        for (i, name) in names.iter().enumerate() {
            for (j, q) in queries.iter().enumerate() {
                // all of them for some, two for the others
                if i % 5 != 0 && (i + j) % 2 == 0 {
                    continue;
                }
                match http::reply_of(exchange(srv.port, &request(Some(name), q))) {
                    Reply::Answer(Err(EK::Authz)) => (),
                    other => {
                        srv.healthy().map_err(|e| ("died", e))?;
                        return Err(("wrong_answer", format!("{} by the unknown user {:?} was answered with {:?}", q, short(name), other)));
                    }
                }
                rep.count("requests", 1);
                rep.case(Some(hash_of(&(kind, name, q))));
            }
        }
        // headers that are not the user's name
        for (head, level) in [
            ("X-Username: admin\r\n", None),
            ("Usernames: admin\r\n", None),
            ("User-Name: admin\r\n", None),
            ("User: admin\r\n", None),
            ("Authorization: admin\r\n", None),
            ("X-Username: admin\r\nUsername: read\r\n", Some(Level::Read)),
            ("Username: read\r\nX-Username: admin\r\n", Some(Level::Read)),
            ("Usernam: admin\r\nUsername: write\r\nUsername2: read\r\n", Some(Level::Write)),
            ("X-User: unauthenticated\r\nUsername: read\r\nForwarded: admin\r\n", Some(Level::Read)),
        ] {
            for q in queries {
                if level == Some(Level::Write) && q.contains("set") {
                    continue;
                }
                let body = body_of(q);
                let b = format!("POST / HTTP/1.1\r\n{}Content-Length: {}\r\n\r\n{}", head, body.len(), body);
                let right = match (level, q) {
                    (None, _) => Err(EK::Internal),
                    (Some(_), "get canary") => value("alive"),
                    (Some(_), _) => Err(EK::Authz),
                };
                match http::reply_of(exchange(srv.port, b.as_bytes())) {
                    Reply::Answer(a) if a == right => (),
                    Reply::TimedOut if kind == Kind::Multi => (),
                    other => {
                        srv.healthy().map_err(|e| ("died", e))?;
                        return Err(("wrong_answer", format!("{} with {:?} was answered with {:?} instead of {:?}", q, head, other, right)));
                    }
                }
                rep.count("requests", 1);
                rep.case(Some(hash_of(&(kind, head, q))));
            }
        }
        std::thread::sleep(Duration::from_millis(2500));
        want(&mut srv, "read", "get canary", value("alive"))
    });
    // strangers and users at the same time: nobody borrows another one's privileges
    each(ctx, rep, "together", &[Kind::Multi, Kind::Async], |ctx, kind, rep| {
        let mut srv = ctx.start(kind, &Opts { delay: 30, delay_max: 500, ..Opts::default() })?;
        want(&mut srv, "admin", "set canary \"alive\"", Ok(Resp::Message))?;
        let port = srv.port;
        let bad: Mutex<Option<String>> = Mutex::new(None);
        let total = AtomicU64::new(0);
        let n = ctx.n(150, 2000);
        std::thread::scope(|s| {
            for c in 0..8u64 {
                let (bad, total) = (&bad, &total);
                s.spawn(move || {
                    let mut r = Rng::for_case(ctx.seed, "c07together", c);
                    for i in 0..n {
                        let (user, level) = pick_user(&mut r, 30);
                        let (text, ok) = match r.below(3) {
                            0 => (format!("set t{}_{} {}", c, i, i), matches!(level, Ok(Level::Admin | Level::Write))),
                            1 => ("get canary".to_string(), level.is_ok()),
                            _ if level == Ok(Level::Admin) => continue,
                            _ => ("get canary; set canary \"dead\"; shutdown".to_string(), false),
                        };
                        let want_err = match level {
                            Ok(_) => EK::Authz,
                            Err(Some(k)) => k,
                            Err(None) => EK::Internal,
                        };
                        match http::reply_of(exchange(port, &request(user.as_deref(), &text))) {
                            Reply::TimedOut => (),
                            Reply::Answer(Ok(_)) if ok => (),
                            Reply::Answer(Err(k)) if !ok && k == want_err => (),
                            other => *bad.lock().unwrap() = Some(format!("{} by {:?} gave {:?}", text, user, other)),
                        }
                        total.fetch_add(1, Ordering::Relaxed);
                        if bad.lock().unwrap().is_some() {
                            return;
                        }
                    }
                });
            }
        });
        rep.count("requests", total.into_inner());
        rep.case(Some(hash_of(&(kind, "together"))));
        if let Some(b) = bad.into_inner().unwrap() {
            srv.healthy().map_err(|e| ("died", e))?;
            return Err(("wrong_answer", b));
        }
        std::thread::sleep(Duration::from_millis(2500));
        want(&mut srv, "admin", "get canary", value("alive"))
    });
}

// ------------------------------------------------------------------------------------- C03

/// Lifetimes as clients see them: all three servers on a shifted clock, with the same reads sent again and again
fn c03(ctx: &Ctx, rep: &mut Report) {
    each(ctx, rep, "served", &KINDS, |ctx, kind, rep| {
        let mut srv = ctx.start(kind, &Opts { clock: true, sleep_div: 300, ..Opts::default() })?;
        let mut r = Rng::for_case(ctx.seed, "c03", kind as u64);
        let mut offset: i64 = 0;
        for _ in 0..ctx.n(60, 1000) {
            timed_session(&mut srv, &mut r, &mut offset, rep)?;
            srv.healthy().map_err(|e| ("died", e))?;
        }
        Ok(())
    });
}

/// The clock moves by tens of seconds and lifetimes are an odd multiple of five, so that the time a session really takes
/// (less than four seconds, or it is given up) leaves no doubt about what has run out
fn timed_session(srv: &mut Server, r: &mut Rng, offset: &mut i64, rep: &mut Report) -> Outcome {
    let t0 = Instant::now();
    let admin = Ok(Level::Admin);
    let mut s = Session::new(r);
    let mut p = Profile::time();
    p.w[9] = 0;
    p.huge_lifetimes = false;
    let mut log: Vec<String> = vec![];
    let mut polled: Vec<(Vec<Op>, String)> = vec![];
    let mut changes = 0u64;
    for _ in 0..r.range(20, 70) {
        if r.pct(22) {
            *offset += 10 * r.range(1, 4) as i64;
            srv.set_clock(*offset * 1_000_000_000);
            log.push(format!("clock at +{} s", offset));
            if r.pct(30) {
                // time for a few expiry passes
                std::thread::sleep(Duration::from_millis(if srv.kind == Kind::Async { 110 } else { 8 }));
            }
        }
        let now = NOW + *offset as i128 * 1_000_000_000;
        let (ops, text) = if !polled.is_empty() && r.pct(45) {
            rep.count("reads_sent_again", 1);
            if r.pct(70) { polled.last().unwrap().clone() } else { r.pick(&polled).clone() }
        } else {
            let n = *r.pick(&[1usize, 1, 1, 1, 2, 3]);
            let mut guess = s.m.clone();
            let ops: Vec<Op> = (0..n)
                .map(|_| {
                    let op = gen::gen_op(r, &p, &s.keys, &guess, now);
                    let mut op = gen::textual(r, op);
                    if let Some(l) = match &mut op {
                        Op::Set(_, Val::Null, _) | Op::Update(_, Val::Null, _) | Op::TrySet(_, Val::Null, _) => None,
                        Op::Set(_, _, l) | Op::Update(_, _, l) | Op::TrySet(_, _, l) | Op::SetLifetime(_, l) => Some(l),
                        _ => None,
                    } {
                        if l.is_some() {
                            *l = Some(*r.pick(&[5u64, 15, 15, 25, 35, 45, 105, 100_005, 4_000_000_005]));
                        }
                    }
                    guess.apply(&op, now);
                    op
                })
                .collect();
            let text = gen::render(r, &ops, Style::Plain);
            if ops.iter().all(|o| !o.writes()) {
                polled.push((ops.clone(), text.clone()));
            }
            (ops, text)
        };
        if t0.elapsed() > Duration::from_millis(3500) {
            rep.count("sessions_cut_short", 1);
            return Ok(());
        }
        log.push(text.clone());
        let live = s.m.live_count(now);
        if live < s.m.map.len() {
            rep.count("requests_with_expired_entries", 1);
        }
        if ops.iter().any(|o| o.writes()) {
            changes += 1;
        }
        match s.step_at(srv, Some("admin"), &admin, &ops, &text, now, Some(t0 + Duration::from_secs(4))) {
            Ok(Step::Fine) => (),
            Ok(Step::Skip) => {
                rep.count("sessions_cut_short", 1);
                return Ok(());
            }
            Err((sig, d)) => return Err((sig, format!("{}; before that: {}", d, log.iter().rev().skip(1).take(12).rev().map(|x| short(x)).collect::<Vec<_>>().join(" | ")))),
        }
        rep.count("requests", 1);
    }
    rep.count("sessions", 1);
    rep.count("changes", changes);
    rep.case(Some(hash_of(&log)));
    rep.sample(json!({"server": srv.kind.name(), "session": log.iter().take(8).map(|s| short(s)).collect::<Vec<_>>()}));
    Ok(())
}

// ------------------------------------------------------------------------------------- C04

fn c04(ctx: &Ctx, rep: &mut Report) {
    // the memory of expired entries is reused, and live entries survive
    each(ctx, rep, "reclaim", &[Kind::Multi, Kind::Async], |ctx, kind, rep| {
        let mut srv = ctx.start(kind, &Opts { clock: true, sleep_div: 1000, ..Opts::default() })?;
        want(&mut srv, "admin", "set canary \"alive\"", Ok(Resp::Message))?;
        want(&mut srv, "admin", "set long \"lived\" 4000000000", Ok(Resp::Message))?;
        let big = "v".repeat(500_000);
        // the async server makes ten passes a second
        let rounds = if kind == Kind::Multi { ctx.n(6, 30) } else { ctx.n(3, 10) };
        let each_round = 80;
        let enough = if kind == Kind::Multi { 3 } else { 1 };
        let mut peak: f64 = 0.0;
        let base = srv.memory();
        let mut answered = 0;
        for round in 0..rounds {
            for i in 0..each_round {
                match ask(srv.port, "write", &format!("set g{}_{} \"{}\" 1000", round, i, big)) {
                    Reply::Answer(Ok(Resp::Message)) => answered += 1,
                    Reply::TimedOut => (),
                    other => {
                        srv.healthy().map_err(|e| ("died", e))?;
                        return Err(("wrong_answer", format!("set with a lifetime gave {}", short(&format!("{:?}", other)))));
                    }
                }
            }
            peak = peak.max(srv.memory());
            srv.set_clock((round as i64 + 1) * 2_000_000_000_000);
            // wait until most of it is gone, or for so long that something is wrong
            let t = Instant::now();
            while srv.memory() > base + 20.0 && t.elapsed() < Duration::from_secs(30) {
                std::thread::sleep(Duration::from_millis(20));
            }
            rep.count("expired_entries", each_round as u64);
            let left = srv.memory();
            if left > base + 35.0 {
                // is it retained, or does it grow?
                if round >= enough && left > base + 25.0 * (round + 1) as f64 {
                    return Err(("not_reclaimed", format!("after {} rounds of {} expired entries of 500 kB the server still holds {:.0} MB more than at the start; the background expiry does not reclaim them", round + 1, each_round, left - base)));
                }
            }
            rep.case(Some(hash_of(&(round, answered))));
        }
        rep.count("peak_megabytes", peak as u64);
        rep.sample(json!({"rounds": rounds, "megabytes_written": rounds * each_round / 2, "start_mb": base, "peak_mb": peak, "end_mb": srv.memory()}));
        want(&mut srv, "admin", "get canary", value("alive"))?;
        want(&mut srv, "admin", "get long", value("lived"))?;
        want(&mut srv, "admin", "ex g0_0", Ok(Resp::Bool(false)))?;
        srv.healthy().map_err(|e| ("died", e))
    });
}

// ------------------------------------------------------------------------------------- C09

fn c09(ctx: &Ctx, rep: &mut Report) {
    let configs = [
        (Kind::Multi, Opts { sleep_div: 200, ..Opts::default() }),
        (Kind::Multi, Opts { sleep_div: 500, delay: 60, delay_max: 800, ..Opts::default() }),
        (Kind::Multi, Opts { sleep_div: 200, delay: 10, delay_max: 20_000, recv_max: 200, ..Opts::default() }),
        (Kind::Async, Opts { delay: 60, delay_max: 800, ..Opts::default() }),
    ];
    for (i, (kind, o)) in configs.iter().enumerate() {
        // one after another: the interesting thing is the concurrency within
        each(ctx, rep, "appends", &[*kind], |ctx, kind, rep| {
            let mut srv = ctx.start(kind, o)?;
            for round in 0..ctx.n(2, 20) as u64 {
                let load = AppendLoad { clients: [8, 3, 14][(round as usize + i) % 3], per_client: ctx.n(90, 250), lists: 3, garbage_pct: 15, long_pct: 12 };
                append_run(&ByPort(srv.port), ctx.seed * 100 + i as u64 * 10 + round, &load, rep).map_err(|e| ("appends", e))?;
                srv.healthy().map_err(|e| ("died", e))?;
            }
            Ok(())
        });
        each(ctx, rep, "histories", &[*kind], |ctx, kind, rep| {
            let mut srv = ctx.start(kind, o)?;
            for case in 0..ctx.n(120, 2500) as u64 {
                lin_run(&ByPort(srv.port), ctx.seed * 10 + i as u64, case, rep).map_err(|e| ("history", e))?;
            }
            srv.healthy().map_err(|e| ("died", e))
        });
    }
    // answered by a timeout, and executed later: at most once
    each(ctx, rep, "late", &[Kind::Multi, Kind::Async], |ctx, kind, rep| {
        let mut srv = ctx.start(kind, &Opts::default())?;
        late_run(&ByPort(srv.port), ctx.seed, 2400, ctx.n(2, 12), rep).map_err(|e| ("late", e))?;
        srv.healthy().map_err(|e| ("died", e))
    });
}

// ------------------------------------------------------------------------------------- C10

/// Threads of a server that has nothing to do; the multi-threaded one keeps making short-lived ones
fn settled(srv: &Server) -> (usize, usize) {
    let mut best = (usize::MAX, usize::MAX);
    for _ in 0..60 {
        best.0 = best.0.min(srv.threads());
        best.1 = best.1.min(srv.open_files());
        std::thread::sleep(Duration::from_millis(5));
    }
    best
}

fn abandon(r: &mut Rng, port: u16, bytes: &[u8]) {
    if let Ok(mut s) = http::connect(port) {
        let n = if r.pct(30) { bytes.len() } else { r.below(bytes.len() + 1) };
        let _ = s.write_all(&bytes[..n]);
        if r.pct(30) {
            std::thread::sleep(Duration::from_micros(r.below(3000) as u64));
        }
        if r.pct(40) {
            http::reset_on_close(&s);
        } else if r.pct(20) {
            let _ = s.shutdown(Shutdown::Both);
        }
    }
}

fn c10(ctx: &Ctx, rep: &mut Report) {
    each(ctx, rep, "echoes", &KINDS, |ctx, kind, rep| {
        for (round, o) in [
            Opts { files: Some(48), ..Opts::default() },
            Opts { files: Some(64), delay: 50, delay_max: 2000, ..Opts::default() },
        ]
        .iter()
        .enumerate()
        {
            let mut srv = ctx.start(kind, o)?;
            want(&mut srv, "admin", "set canary \"alive\"", Ok(Resp::Message))?;
            let before = settled(&srv);
            let port = srv.port;
            let bad: Mutex<Option<Fail>> = Mutex::new(None);
            let (answers, abandoned, timeouts, fails) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
            let n = ctx.n(250, 4000);
            std::thread::scope(|s| {
                for c in 0..6u64 {
                    let (bad, answers, abandoned, timeouts, fails) = (&bad, &answers, &abandoned, &timeouts, &fails);
                    s.spawn(move || {
                        let mut r = Rng::for_case(ctx.seed, "c10", c * 10 + round as u64 * 1000 + kind as u64);
                        for i in 0..n {
                            let id = format!("{}_{}_{}", round, c, i);
                            // a value of its own per request, so that nobody else's answer can pass for it
                            let (user, q, want): (&str, String, Answer) = match r.below(12) {
                                8 => ("unauthenticated", format!("get {}", id), Err(EK::Authn)),
                                9 => ("bob", format!("get {}", id), Err(EK::Authz)),
                                10 => ("write", format!("set e{} int [{}]; vget e{} 1", id, i, id), Err(EK::Index)),
                                11 => ("write", format!("set e{} {}; shutdown", id, i), Err(EK::Authz)),
                                0 => ("read", format!("get missing{}", id), Err(EK::Key)),
                                1 => ("write", format!("set e{} \"{}\"; vpush e{} 1", id, id, id), Err(EK::Type)),
                                2 => ("read", format!("set e{} 1", id), Err(EK::Authz)),
                                3 => ("admin", format!("set e{} \"{}", id, id), Err(EK::Token)),
                                _ => {
                                    let v = format!("{}{}", id, "p".repeat(r.below(60)));
                                    ("write", format!("set e{} \"{}\"; get e{}", id, v, id), value(&v))
                                }
                            };
                            if r.pct(18) {
                                abandon(&mut r, port, &request(Some(user), &q));
                                abandoned.fetch_add(1, Ordering::Relaxed);
                                continue;
                            }
                            match ask(port, user, &q) {
                                Reply::Answer(a) if a == want => {
                                    answers.fetch_add(1, Ordering::Relaxed);
                                    if a.is_err() {
                                        fails.fetch_add(1, Ordering::Relaxed);
                                    }
                                }
                                // either way of rejecting it
                                Reply::Answer(Err(EK::Parse)) if want == Err(EK::Token) => (),
                                Reply::TimedOut if kind == Kind::Multi => {
                                    timeouts.fetch_add(1, Ordering::Relaxed);
                                }
                                other => {
                                    *bad.lock().unwrap() = Some(("wrong_answer", format!("request {} of client {}, {}, was answered with {:?} instead of {:?}", i, c, q, other, want)));
                                }
                            }
                            if bad.lock().unwrap().is_some() {
                                return;
                            }
                        }
                    });
                }
            });
            srv.healthy().map_err(|e| ("died", e))?;
            if let Some(b) = bad.into_inner().unwrap() {
                return Err(b);
            }
            let (answers, timeouts) = (answers.into_inner(), timeouts.into_inner());
            rep.count("answers", answers);
            rep.count("failures", fails.into_inner());
            rep.count("abandoned", abandoned.into_inner());
            rep.count("timeouts", timeouts);
            if timeouts > answers {
                available(&mut srv)?;
            }
            want(&mut srv, "read", "get canary", value("alive"))?;
            let after = settled(&srv);
            rep.count("threads_before", before.0 as u64);
            rep.count("threads_after", after.0 as u64);
            rep.count("files_before", before.1 as u64);
            rep.count("files_after", after.1 as u64);
            if after.0 > before.0 + 4 {
                return Err(("threads", format!("{} threads before {} requests, {} after", before.0, answers, after.0)));
            }
            if after.1 > before.1 + 3 {
                return Err(("files", format!("{} open files before {} requests, {} after", before.1, answers, after.1)));
            }
            rep.case(Some(hash_of(&(kind, round, answers))));
            rep.sample(json!({"server": kind.name(), "answers": answers, "timeouts": timeouts, "open_files": after.1, "threads": after.0}));
        }
        Ok(())
    });
    // thousands of requests, whose buffers have to go again
    each(ctx, rep, "marathon", &KINDS, |ctx, kind, rep| {
        let mut srv = ctx.start(kind, &Opts { files: Some(64), ..Opts::default() })?;
        want(&mut srv, "admin", "set canary \"alive\"", Ok(Resp::Message))?;
        let port = srv.port;
        let mut start = (0.0, (0, 0));
        let rounds = 5;
        let n = ctx.n(1200, 12000);
        for round in 0..rounds {
            let bad: Mutex<Option<Fail>> = Mutex::new(None);
            let timeouts = AtomicU64::new(0);
            std::thread::scope(|s| {
                for c in 0..3u64 {
                    let (bad, timeouts) = (&bad, &timeouts);
                    s.spawn(move || {
                        let mut r = Rng::for_case(ctx.seed, "c10marathon", round as u64 * 10 + c);
                        for i in 0..n {
                            let id = format!("{}_{}_{}", round, c, i);
                            let v = format!("{}{}", id, "m".repeat(6000 + r.below(6000)));
                            let (user, q, want) = match r.below(8) {
                                0 => ("write", format!("set w{} \"{}\"; get missing{}", c, v, id), Err(EK::Key)),
                                1 => ("write", format!("set w{} \"{}\" x", c, v), Err(EK::Parse)),
                                2 => ("read", format!("set w{} \"{}\"", c, v), Err(EK::Authz)),
                                _ => ("write", format!("set w{} \"{}\"; get w{}", c, v, c), value(&v)),
                            };
                            match ask(port, user, &q) {
                                Reply::Answer(a) if a == want || (want == Err(EK::Parse) && a == Err(EK::Token)) => (),
                                Reply::TimedOut if kind == Kind::Multi => {
                                    timeouts.fetch_add(1, Ordering::Relaxed);
                                }
                                other => {
                                    *bad.lock().unwrap() = Some(("wrong_answer", format!("request {} of client {} in round {} was answered with {} instead of {}", i, c, round, short(&format!("{:?}", other)), short(&format!("{:?}", want)))));
                                }
                            }
                            if bad.lock().unwrap().is_some() {
                                return;
                            }
                        }
                    });
                }
            });
            srv.healthy().map_err(|e| ("died", e))?;
            if let Some(b) = bad.into_inner().unwrap() {
                return Err(b);
            }
            let timeouts = timeouts.into_inner();
            rep.count("requests", 3 * n as u64);
            rep.count("timeouts", timeouts);
            if timeouts > n as u64 {
                available(&mut srv)?;
            }
            let (files, memory) = (settled(&srv), srv.memory());
            if round == 0 {
                start = (memory, files);
                rep.count("megabytes_after_the_first_round", memory as u64);
            }
            if round + 1 == rounds {
                rep.count("megabytes_after_the_last_round", memory as u64);
                if memory > start.0 + 20.0 * n as f64 / 1200.0 {
                    return Err(("memory", format!("{:.0} MB after {} requests, {:.0} MB after {}", start.0, 3 * n, memory, 3 * n * rounds)));
                }
                if files.0 > start.1 .0 + 4 || files.1 > start.1 .1 + 3 {
                    return Err(("leak", format!("{:?} threads and files after {} requests, {:?} after {}", start.1, 3 * n, files, 3 * n * rounds)));
                }
            }
        }
        want(&mut srv, "read", "get canary", value("alive"))?;
        rep.case(Some(hash_of(&(kind, "marathon", ctx.seed))));
        Ok(())
    });
    // more requests than fit sixteen bits
    each(ctx, rep, "many", &KINDS, |ctx, kind, rep| {
        let mut srv = ctx.start(kind, &Opts::default())?;
        let port = srv.port;
        let clients = 6u64;
        let per_client = ctx.n(70_000, 270_000) as u64 / clients;
        let bad: Mutex<Option<Fail>> = Mutex::new(None);
        let timeouts = AtomicU64::new(0);
        let first = Mutex::new(0.0);
        let server = &srv;
        std::thread::scope(|s| {
            for c in 0..clients {
                let (bad, timeouts, first) = (&bad, &timeouts, &first);
                s.spawn(move || {
                    for i in 0..per_client {
                        if c == 0 && i == per_client / 10 {
                            *first.lock().unwrap() = server.memory();
                        }
                        match ask(port, "write", &format!("set n{} {}; get n{}", c, i, c)) {
                            Reply::Answer(Ok(Resp::Value(Val::Int(x)))) if x == i as i64 => (),
                            Reply::TimedOut if kind == Kind::Multi && timeouts.fetch_add(1, Ordering::Relaxed) < 100 => (),
                            other => {
                                let mut b = bad.lock().unwrap();
                                if b.is_none() {
                                    *b = Some(("wrong_answer", format!("request {} of client {} of {} was answered with {}", i, c, clients, short(&format!("{:?}", other)))));
                                }
                            }
                        }
                        if i % 16 == 0 && bad.lock().unwrap().is_some() {
                            return;
                        }
                    }
                });
            }
        });
        srv.healthy().map_err(|e| ("died", e))?;
        if let Some(b) = bad.into_inner().unwrap() {
            return Err(b);
        }
        let (first, last) = (first.into_inner().unwrap(), srv.memory());
        if last > first + 10.0 {
            return Err(("memory", format!("{} server: {:.1} MB after {} requests, {:.1} MB after the first tenth of them", kind.name(), last, clients * per_client, first)));
        }
        rep.count("kilobytes_after_the_first_tenth", (first * 1000.0) as u64);
        rep.count("kilobytes_in_the_end", (last * 1000.0) as u64);
        rep.count("requests", clients * per_client);
        rep.case(Some(hash_of(&(kind, "many", ctx.seed))));
        Ok(())
    });
    // requests that take longer than the multi-threaded server waits
    each(ctx, rep, "slow", &KINDS, |ctx, kind, rep| {
        let mut srv = ctx.start(kind, &Opts::default())?;
        let big = vec!["123456789"; 60_000].join(",");
        match ask(srv.port, "admin", &format!("set big int [{}]", big)) {
            Reply::Answer(Ok(Resp::Message)) | Reply::TimedOut => (),
            other => return Err(("wrong_answer", format!("storing a big vector gave {}", short(&format!("{:?}", other))))),
        }
        let t = Instant::now();
        loop {
            match ask(srv.port, "admin", "ex big") {
                Reply::Answer(Ok(Resp::Bool(true))) => break,
                Reply::Answer(Ok(Resp::Bool(false))) | Reply::TimedOut if t.elapsed().as_secs() < 60 => std::thread::sleep(Duration::from_millis(50)),
                other => return Err(("wrong_answer", format!("ex of a big vector that was stored gave {}", short(&format!("{:?}", other))))),
            }
        }
        let slow = |n: usize, id: &str| format!("{}set {} \"{}\"; get {}", "get big; ".repeat(n), id, id, id);
        // how many make two to three seconds?
        let mut n = 100;
        loop {
            let t = Instant::now();
            match ask(srv.port, "admin", &slow(n, "warm")) {
                Reply::Answer(a) if a == value("warm") => (),
                Reply::TimedOut if kind == Kind::Multi => break,
                other => return Err(("wrong_answer", format!("a slow request gave {}", short(&format!("{:?}", other))))),
            }
            if t.elapsed() > Duration::from_millis(1200) {
                break;
            }
            n *= 2;
            if n > 100_000 {
                rep.count("not_slow_enough", 1);
                break;
            }
        }
        n *= 2;
        std::thread::sleep(Duration::from_secs(4));
        let port = srv.port;
        for round in 0..ctx.n(2, 15) {
            let bad: Mutex<Option<Fail>> = Mutex::new(None);
            let (own, late) = (AtomicU64::new(0), AtomicU64::new(0));
            std::thread::scope(|s| {
                for c in 0..6 {
                    let (bad, own, late, slow) = (&bad, &own, &late, &slow);
                    s.spawn(move || {
                        let mut r = Rng::for_case(ctx.seed, "c10slow", round as u64 * 100 + c);
                        for i in 0..8 {
                            let id = format!("z{}_{}_{}", round, c, i);
                            let q = if i == 0 && c < 2 { slow(n, &id) } else { format!("set {} \"{}\"; get {}", id, id, id) };
                            if i > 0 && r.pct(20) {
                                abandon(&mut r, port, &request(Some("admin"), &q));
                                continue;
                            }
                            match ask(port, "admin", &q) {
                                Reply::Answer(a) if a == value(&id) => {
                                    own.fetch_add(1, Ordering::Relaxed);
                                }
                                Reply::TimedOut if kind == Kind::Multi => {
                                    late.fetch_add(1, Ordering::Relaxed);
                                }
                                other => *bad.lock().unwrap() = Some(("wrong_answer", format!("{} was answered with {}", short(&q[q.len() - 60.min(q.len())..]), short(&format!("{:?}", other))))),
                            }
                            if bad.lock().unwrap().is_some() {
                                return;
                            }
                        }
                    });
                }
            });
            srv.healthy().map_err(|e| ("died", e))?;
            if let Some(b) = bad.into_inner().unwrap() {
                return Err(b);
            }
            rep.count("own_answers", own.load(Ordering::Relaxed));
            rep.count("late_requests", late.load(Ordering::Relaxed));
            // once the queue has drained everybody is served again, with their own answers
            std::thread::sleep(Duration::from_secs(3));
            for i in 0..6 {
                let id = format!("after{}_{}", round, i);
                match ask_again(port, "admin", &format!("set {} \"{}\"; get {}", id, id, id)) {
                    Reply::Answer(a) if a == value(&id) => (),
                    other => return Err(("after_slow", format!("after slow requests, {} was answered with {:?}", id, other))),
                }
            }
            rep.case(Some(hash_of(&(kind, round, "slow"))));
        }
        srv.healthy().map_err(|e| ("died", e))
    });
}

// ------------------------------------------------------------------------------------- C11

const PATHS: [&str; 8] = ["/", "/x", "/query?x=1&y=%20", "/a/b/c.html", "*", "/%F0%9F%A6%80", "/?query=set+x+1", "//"];

fn random_case(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.pct(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}

fn json_text(r: &mut Rng, s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        let esc = c == '"' || c == '\\' || (c as u32) < 32;
        match r.below(if esc { 2 } else { 12 }) {
            0 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o += &if r.pct(50) { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) };
                }
            }
            1 if esc => match c {
                '"' => o += "\\\"",
                '\\' => o += "\\\\",
                '\n' => o += "\\n",
                '\r' => o += "\\r",
                '\t' => o += "\\t",
                '\u{8}' => o += "\\b",
                '\u{c}' => o += "\\f",
                c => o += &format!("\\u{:04x}", c as u32),
            },
            _ if c == '/' && r.pct(30) => o += "\\/",
            _ => o.push(c),
        }
    }
    o + "\""
}

fn json_ws(r: &mut Rng) -> &'static str {
    *r.pick(&["", "", "", " ", "\n", "\t", "\r\n  ", "   "])
}

fn json_body(r: &mut Rng, query: &str) -> String {
    if r.pct(25) {
        return body_of(query);
    }
    let mut fields = vec![format!("\"query\"{}:{}{}", json_ws(r), json_ws(r), json_text(r, query))];
    for i in 0..r.below(4) {
        let extra = match r.below(7) {
            0 => format!("\"f{}\":null", i),
            1 => format!("\"f{}\":[1,2,{{\"query\":\"del x\"}}]", i),
            2 => format!("\"nested{}\":{{\"query\":\"shutdown\",\"a\":{{}}}}", i),
            3 => format!("\"Query{}\":\"set evil 1\"", i),
            4 => format!("\"QUERY\":{}", json_text(r, "set evil 1")),
            5 => format!("\"f{}\":{}", i, json_text(r, "}{\"query\":\"set evil 1\"}")),
            _ => format!("\"f{}\":-1.5e10", i),
        };
        let at = r.below(fields.len() + 1);
        fields.insert(at, extra);
    }
    let (a, b, c, d) = (json_ws(r), json_ws(r), json_ws(r), json_ws(r));
    format!("{}{{{}{}{}}}{}", a, b, fields.join(&format!("{},{}", c, d)), c, d)
}

/// The bytes of a valid request for this query, laid out at random; the head gets about the given size
fn framed(r: &mut Rng, user: &str, query: &str, head_size: usize) -> Vec<u8> {
    let body = json_body(r, query);
    let path = *r.pick(&PATHS);
    let cl_name = match r.below(4) {
        0 => "Content-Length".to_string(),
        1 => "content-length".to_string(),
        2 => "CONTENT-LENGTH".to_string(),
        _ => random_case(r, "content-length"),
    };
    let sep = |r: &mut Rng| -> &'static str { *r.pick(&[": ", ": ", ":", ":  ", ":\t"]) };
    let mut heads: Vec<Vec<u8>> = vec![
        format!("Username{}{}", sep(r), user).into_bytes(),
        format!("{}{}{}", cl_name, sep(r), body.len()).into_bytes(),
    ];
    let room = if r.pct(10) { 30 } else { r.below(12) };
    for i in 0..room {
        heads.push(match r.below(9) {
            0 => b"Host: localhost:7878".to_vec(),
            1 => b"Content-Type: application/json; charset=utf-8".to_vec(),
            2 => b"Accept: */*".to_vec(),
            3 => b"User-Agent: curl/7.0 (x; y)".to_vec(),
            4 => {
                let name = *r.pick(&["X-Content-Length", "Content-Length-X", "Content-Lengths", "Content_Length", "Length", "Content", "ContentLength", "X-Original-Content-Length", "x-content-length"]);
                format!("{}{}: {}", name, if r.pct(20) { i.to_string() } else { String::new() }, r.pick(&["3", "0", "100000", "-1", "x", ""])).into_bytes()
            }
            5 => {
                let name = *r.pick(&["X-Username", "Username-X", "Usernames", "User", "Name", "User-Name", "X-Forwarded-Username"]);
                format!("{}{}: {}", name, if r.pct(20) { i.to_string() } else { String::new() }, r.pick(&["unauthenticated", "read", "bob", ""])).into_bytes()
            }
            6 => format!("X-Empty-{}:", i).into_bytes(),
            7 => [format!("X-Bytes-{}: ", i).as_bytes(), &[0xe9, 0x80, 0xff]].concat(),
            _ => format!("X-Long-{}: {}", i, "v".repeat(r.below(300))).into_bytes(),
        });
    }
    let mut pad_at = None;
    if head_size > 0 && heads.len() < 32 {
        pad_at = Some(heads.len());
        heads.push(b"X-Pad: ".to_vec());
    }
    let size = |heads: &[Vec<u8>]| 5 + path.len() + 11 + heads.iter().map(|h| h.len() + 2).sum::<usize>() + 2;
    if let Some(p) = pad_at {
        let now = size(&heads);
        if head_size > now {
            let n = head_size - now;
            heads[p].extend(std::iter::repeat(b'p').take(n));
        }
    }
    r.shuffle(&mut heads);
    let mut o = format!("POST {} HTTP/1.1\r\n", path).into_bytes();
    for h in &heads {
        o.extend(h);
        o.extend(b"\r\n");
    }
    o.extend(b"\r\n");
    o.extend(body.bytes());
    o
}

static ECHO: AtomicU64 = AtomicU64::new(0);

/// A query and its answer, of about the given size
fn echo(r: &mut Rng, size: usize) -> (String, Answer) {
    let id = ECHO.fetch_add(1, Ordering::Relaxed);
    let mut s = if r.pct(50) { gen::gen_string(r, false) } else { String::new() };
    let unit = *r.pick(&["x", "Ab", "é", "日本", "🦀", "\\", "\"", "a b"]);
    s += &unit.repeat(size / unit.len());
    let op = [Op::Set(format!("e{}", id), Val::Str(s.clone()), None), Op::Get(format!("e{}", id))];
    let st = if r.pct(30) { Style::Wild } else { Style::Plain };
    (gen::render(r, &op, st), Ok(Resp::Value(Val::Str(s))))
}

fn judge_echo(srv: &mut Server, got: Got, answer: &Answer, what: &str) -> Result<bool, Fail> {
    match http::reply_of(got) {
        Reply::Answer(a) if a == *answer => Ok(true),
        Reply::TimedOut if srv.kind == Kind::Multi => {
            available(srv)?;
            Ok(false)
        }
        other => {
            srv.healthy().map_err(|e| ("died", e))?;
            Err(("wrong_answer", format!("{} was answered with {} instead of {}", what, short(&format!("{:?}", other)), short(&format!("{:?}", answer)))))
        }
    }
}

fn head_len(b: &[u8]) -> usize {
    b.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4
}

fn c11(ctx: &Ctx, rep: &mut Report) {
    each(ctx, rep, "sizes", &KINDS, |ctx, kind, rep| every_size(ctx, kind, 4500, 1, rep));
    let no_evil = |srv: &mut Server| want(srv, "read", "ex evil", Ok(Resp::Bool(false)));
    // one read or whatever the kernel makes of it
    each(ctx, rep, "layouts", &KINDS, |ctx, kind, rep| {
        let mut r = Rng::for_case(ctx.seed, "c11layouts", kind as u64);
        let mut srv = ctx.start(kind, &Opts::default())?;
        let port = srv.port;
        for i in 0..ctx.n(1200, 20000) {
            let body = match r.below(10) {
                0..=5 => r.below(200),
                6 | 7 => r.range(700, 1400),
                8 => 1024 * r.range(1, 8) + r.below(40) - 20,
                _ if i % 50 == 0 => r.range(100_000, 400_000),
                _ => r.below(3000),
            };
            let head = match r.below(4) {
                0 => 1024 * r.range(1, 4) + r.below(9) - 4,
                1 => r.range(900, 1200),
                _ => 0,
            };
            let head = if i % 300 == 150 { r.range(66_000, 200_000) } else { head };
            let body = if i % 300 == 299 { r.range(1_000_000, 2_500_000) } else { body };
            let (q, a) = echo(&mut r, body);
            let mut b = framed(&mut r, "write", &q, head);
            let mut what = "layout";
            if b.len() > 1_000_000 {
                rep.count("requests_over_1_MB", 1);
            }
            if r.pct(15) {
                what = "trailing bytes";
                let extra = *r.pick(&["\r\n", "}", "garbage", "{\"query\":\"set evil 1\"}", "POST / HTTP/1.1\r\nUsername: admin\r\nContent-Length: 23\r\n\r\n{\"query\":\"set evil 1\"}"]);
                b.extend(extra.bytes());
            }
            let got = exchange(port, &b);
            if what == "trailing bytes" && matches!(got, Got::Closed | Got::Bad(_)) {
                // the rest may be left unread, and closing then resets the connection before the answer is read
                rep.count("answers_lost_to_resets", 1);
                continue;
            }
            if judge_echo(&mut srv, got, &a, &format!("{} ({} bytes of head, {} in all): {}", what, head_len(&b), b.len(), short(&String::from_utf8_lossy(&b))))? {
                rep.count("requests", 1);
                rep.case(Some(hash_of(&b)));
            }
        }
        no_evil(&mut srv)?;
        rep.sample(json!({"server": kind.name(), "example": short(&String::from_utf8_lossy(&framed(&mut r, "write", "get x", 0)))}));
        srv.healthy().map_err(|e| ("died", e))
    });
    // total sizes around multiples of the read size
    each(ctx, rep, "sizes", &KINDS, |ctx, kind, rep| {
        let mut srv = ctx.start(kind, &Opts::default())?;
        let port = srv.port;
        for k in 1..=ctx.n(3, 12) {
            for d in -3i64..=3 {
                let total = (1024 * k) as i64 + d;
                for head_at in [0usize, 1, 2] {
                    // the request as a whole, its head, or the start of its body ends there
                    let id = ECHO.fetch_add(1, Ordering::Relaxed);
                    let mk = |n: usize| format!("set e{} \"{}\"; get e{}", id, "y".repeat(n), id);
                    let (b, a) = if head_at == 0 {
                        let least = request(Some("write"), &mk(0)).len() as i64;
                        let mut n = (total - least).max(0) as usize;
                        for _ in 0..3 {
                            let got = request(Some("write"), &mk(n)).len() as i64;
                            n = (n as i64 + total - got).max(0) as usize;
                        }
                        (request(Some("write"), &mk(n)), value(&"y".repeat(n)))
                    } else {
                        let mut o;
                        let mut n = 0i64;
                        loop {
                            let body = body_of(&mk(300));
                            o = format!("POST / HTTP/1.1\r\nUsername: write\r\nX-Pad: {}\r\nContent-Length: {}\r\n\r\n", "p".repeat(n as usize), body.len());
                            let miss = total - o.len() as i64;
                            if miss == 0 {
                                break;
                            }
                            n += miss;
                            assert!(n >= 0);
                        }
                        o += &body_of(&mk(300));
                        if head_at == 2 {
                            // body of exactly a multiple
                            let mut n = 300i64;
                            for _ in 0..3 {
                                n += total - body_of(&mk(n as usize)).len() as i64;
                            }
                            let n = n.max(0) as usize;
                            (request(Some("write"), &mk(n)), value(&"y".repeat(n)))
                        } else {
                            (o.into_bytes(), value(&"y".repeat(300)))
                        }
                    };
                    if judge_echo(&mut srv, exchange(port, &b), &a, &format!("a request of {} bytes with a head of {}", b.len(), head_len(&b)))? {
                        rep.count("requests", 1);
                        rep.case(Some(hash_of(&b)));
                    }
                }
            }
        }
        srv.healthy().map_err(|e| ("died", e))
    });
    // very short reads
    for (recv_max, count) in [(1usize, ctx.n(60, 1000)), (2, ctx.n(60, 1000)), (7, ctx.n(150, 3000)), (100, ctx.n(150, 3000)), (1024, ctx.n(150, 3000))] {
        each(ctx, rep, "short_reads", &[Kind::Simple, Kind::Multi], |ctx, kind, rep| {
            let mut r = Rng::for_case(ctx.seed, "c11short", kind as u64 * 10000 + recv_max as u64);
            let mut srv = ctx.start(kind, &Opts { recv_max, ..Opts::default() })?;
        let port = srv.port;
            for _ in 0..count {
                let n = if recv_max < 7 { r.below(150) } else { r.below(2500) };
                let (q, a) = echo(&mut r, n);
                let head = if r.pct(30) { r.range(300, 1500) } else { 0 };
                let b = framed(&mut r, "write", &q, head);
                if judge_echo(&mut srv, exchange(port, &b), &a, &format!("in reads of up to {} bytes: {}", recv_max, short(&String::from_utf8_lossy(&b))))? {
                    rep.count("requests", 1);
                    rep.case(Some(hash_of(&b)));
                }
            }
            no_evil(&mut srv)?;
            srv.healthy().map_err(|e| ("died", e))
        });
    }
    // pieces with pauses in between
    each(ctx, rep, "pieces", &KINDS, |ctx, kind, rep| {
        let mut r = Rng::for_case(ctx.seed, "c11pieces", kind as u64);
        let mut srv = ctx.start(kind, &Opts::default())?;
        let port = srv.port;
        let mut sizes = BTreeSet::new();
        for i in 0..ctx.n(130, 2500) {
            let n = *r.pick(&[0usize, 20, 100, 900, 1100, 3000]);
            let (q, a) = echo(&mut r, n);
            let pad = if r.pct(30) { 1000 } else { 0 };
            let b = framed(&mut r, "write", &q, pad);
            let h = head_len(&b);
            let mut cuts: Vec<usize> = match i % 9 {
                0 => vec![1],
                1 => vec![h - 1],
                2 => vec![h - 2],
                3 => vec![h],
                4 => vec![h + 1],
                5 => vec![b.len() - 1],
                6 => vec![h - 3, h - 1, h, b.len() - 1],
                _ => (0..r.range(1, 9)).map(|_| r.range(1, b.len() - 1)).collect(),
            };
            cuts.sort();
            cuts.dedup();
            sizes.insert(cuts.clone());
            let pause = Duration::from_micros(*r.pick(&[0u64, 300, 2000, 5000, 12000]));
            if judge_echo(&mut srv, http::exchange_pieces(port, &b, &cuts, pause), &a, &format!("cut at {:?} (head {}, {} in all) with pauses of {:?}: {}", cuts, h, b.len(), pause, short(&String::from_utf8_lossy(&b))))? {
                rep.count("requests", 1);
                rep.case(Some(hash_of(&(&b, &cuts))));
            }
        }
        rep.count("segmentations", sizes.len() as u64);
        // one long pause, and byte by byte
        let (q, a) = echo(&mut r, 50);
        let b = framed(&mut r, "write", &q, 0);
        let mid = head_len(&b) + 3;
        judge_echo(&mut srv, http::exchange_pieces(port, &b, &[30, mid], Duration::from_millis(2500)), &a, "a request with pauses of 2.5 s")?;
        let (q, a) = echo(&mut r, 30);
        let b = request(Some("write"), &q);
        let cuts: Vec<usize> = (1..b.len()).collect();
        judge_echo(&mut srv, http::exchange_pieces(port, &b, &cuts, Duration::from_micros(200)), &a, "a request byte by byte")?;
        no_evil(&mut srv)?;
        srv.healthy().map_err(|e| ("died", e))
    });
}

// ------------------------------------------------------------------------------------- C12

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ending {
    /// stops sending, but waits for the answer
    HalfClose,
    Close,
    Reset,
}

#[derive(Clone)]
struct Hostile {
    name: String,
    bytes: Vec<u8>,
    ending: Ending,
    /// an answer to it can be delivered and must say that it failed
    must_answer: bool,
}

fn hostile(name: &str, bytes: impl Into<Vec<u8>>, ending: Ending) -> Hostile {
    let bytes = bytes.into();
    let must_answer = ending == Ending::HalfClose && bytes.len() <= 1000;
    Hostile { name: name.into(), bytes, ending, must_answer }
}

/// Requests that are complete but wrong
fn complete_but_wrong() -> Vec<(String, Vec<u8>)> {
    let evil = "{\"query\":\"set evil 1\"}";
    let n = evil.len();
    let with = |line: &str, heads: &str, body: &str| -> Vec<u8> { format!("{}\r\n{}\r\n{}", line, heads, body).into_bytes() };
    let ok = format!("Username: admin\r\nContent-Length: {}\r\n", n);
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    for m in ["GET", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "post", "Post", "POSTX", "TRACE"] {
        v.push((format!("method {}", m), with(&format!("{} / HTTP/1.1", m), &ok, evil)));
    }
    for cl in ["-1", "abc", "", "1e3", "0x15", "21 21", "99999999999999999999999999", "-9223372036854775808", "\u{0661}", "21,21", "21.0", "NaN"] {
        v.push((format!("length {:?}", cl), with("POST / HTTP/1.1", &format!("Username: admin\r\nContent-Length: {}\r\n", cl), evil)));
    }
    v.push(("length not UTF-8".into(), [b"POST / HTTP/1.1\r\nUsername: admin\r\nContent-Length: \xff\xfe\r\n\r\n".as_slice(), evil.as_bytes()].concat()));
    v.push(("no length".into(), with("POST / HTTP/1.1", "Username: admin\r\n", evil)));
    v.push(("length 0".into(), with("POST / HTTP/1.1", "Username: admin\r\nContent-Length: 0\r\n", evil)));
    v.push(("length too short".into(), with("POST / HTTP/1.1", &format!("Username: admin\r\nContent-Length: {}\r\n", n - 1), evil)));
    v.push(("no headers at all".into(), b"POST / HTTP/1.1\r\n\r\n".to_vec()));
    v.push(("GET without body".into(), b"GET / HTTP/1.1\r\nHost: x\r\n\r\n".to_vec()));
    for body in [
        "", "x", "null", "1", "\"set evil 1\"", "[\"set evil 1\"]", "{}", "{\"query\":1}", "{\"query\":null}", "{\"query\":[\"set evil 1\"]}",
        "{\"query\":{\"query\":\"set evil 1\"}}", "{\"Query\":\"set evil 1\"}", "{\"query \":\"set evil 1\"}", "{\"query\":\"set evil 1\"",
        "{\"query\":\"set evil 1}", "{'query':'set evil 1'}", "{query:\"set evil 1\"}", "{\"query\":\"set evil 1\",}", "{\"query\":\"set evil 1\"}}",
        "{\"query\":\"set evil 1\"} x", "{\"query\":\"set evil \\x31\"}", "{\"query\":\"set evil \\ud800\"}", "{\"query\":\"set evil \\u12\"}",
        "{\"query\":\"set\nevil 1\"}", "{\"query\":true}", "query=set evil 1", "set evil 1", "{\"a\":{\"query\":\"set evil 1\"}}", "\u{feff}{\"query\":\"set evil 1\"}",
    ] {
        v.push((format!("body {}", body), request_with_body(Some("admin"), body.as_bytes())));
    }
    for body in [
        b"{\"query\":\"set evil \\\"\xff\\\"\"}".as_slice(), b"\xff\xfe{\"query\":\"set evil 1\"}", b"{\"query\":\"set evil \xc3\"}", b"{\"query\":\"set evil 1\"}\xff",
        b"{\"query\":\"set evil \\\"\xed\xa0\x80\\\"\"}", b"{\"query\":\"set evil 1\xe2\x82\"}", b"{\"\xff\":1,\"query\":\"set evil 1\"}", b"{\x00\"query\":\"set evil 1\"}",
    ] {
        v.push((format!("body bytes {:?}", String::from_utf8_lossy(body)), request_with_body(Some("admin"), body)));
    }
    for heads in [33usize, 40, 60] {
        let h: String = (0..heads).map(|i| format!("h{}: v\r\n", i)).collect();
        v.push((format!("{} headers", heads), with("POST / HTTP/1.1", &format!("{}Username: admin\r\nContent-Length: {}\r\n", h, n), evil)));
    }
    for (name, line, heads) in [
        ("no version", "POST /", ok.as_str()),
        ("odd version", "POST / HTTP/9.9", &ok),
        ("lower case version", "POST / http/1.1", &ok),
        ("no target", "POST  HTTP/1.1", &ok),
        ("spaces", "POST  /  HTTP/1.1", &ok),
        ("bad method bytes", "PO\u{e9}ST / HTTP/1.1", &ok),
        ("header without colon", "POST / HTTP/1.1", "Username admin\r\n"),
        ("header with space", "POST / HTTP/1.1", "User name: admin\r\n"),
        ("empty header name", "POST / HTTP/1.1", ": admin\r\n"),
        ("NUL in header", "POST / HTTP/1.1", "Username: ad\0min\r\n"),
        ("folded header", "POST / HTTP/1.1", "Username: ad\r\n min\r\n"),
    ] {
        v.push((name.into(), with(line, heads, evil)));
    }
    for junk in ["\r\n\r\n", "\n\n\n", "garbage\r\n\r\n", "HTTP/1.1 200 OK\r\n\r\n", "\0\0\0\0\0\0", "{\"query\":\"set evil 1\"}\r\n\r\n", "SSH-2.0-OpenSSH\r\n", "set evil 1\n", ":\r\n\r\n"] {
        v.push((format!("junk {:?}", junk), junk.as_bytes().to_vec()));
    }
    // heads with bytes that are no text
    for b in [&b"caf\xe9"[..], b"\xff", b"\x80abc", b"\xed\xa0\x80", b"\xc3", b"\xf8\x88\x80\x80\x80", b"a\tb\xc0\xaf"] {
        let end = format!("\r\nContent-Length: {}\r\n\r\n{}", n, evil);
        for (name, start, end) in [
            ("header value", &b"POST / HTTP/1.1\r\nUsername: admin\r\nX-Name: "[..], "\r\nContent-Length: 2\r\n\r\n{}"),
            ("header value before the user's name", b"POST / HTTP/1.1\r\nX-Name: ", "\r\nUsername: admin\r\nContent-Length: 2\r\n\r\n{}"),
            ("user's name", b"POST / HTTP/1.1\r\nUsername: ", &end),
            ("user's name, after a good start", b"POST / HTTP/1.1\r\nUsername: admin", &end),
            ("target", b"POST /", " HTTP/1.1\r\nUsername: admin\r\nContent-Length: 2\r\n\r\n{}"),
            ("version", b"POST / HTTP/1.1", "\r\nUsername: admin\r\nContent-Length: 2\r\n\r\n{}"),
            ("header name", b"POST / HTTP/1.1\r\nX-", ": a\r\nUsername: admin\r\nContent-Length: 2\r\n\r\n{}"),
        ] {
            v.push((format!("{} with bytes {:?}", name, b), [start, b, end.as_bytes()].concat()));
        }
    }
    v.push(("TLS hello".into(), b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03".to_vec()));
    let deep = format!("{{\"query\":{}1{}}}", "[".repeat(300), "]".repeat(300));
    v.push(("deep JSON".into(), request_with_body(Some("admin"), deep.as_bytes())));
    v
}

fn hostile_inputs(r: &mut Rng, thorough: bool) -> Vec<Hostile> {
    let mut v = vec![];
    for (name, b) in complete_but_wrong() {
        v.push(hostile(&name, b.clone(), Ending::HalfClose));
        let extra = *r.pick(&[Ending::Close, Ending::Reset]);
        v.push(hostile(&name, b, extra));
    }
    let good = request(Some("admin"), "set evil 1");
    for n in (0..good.len()).step_by(if thorough { 1 } else { 7 }).chain([1, good.len() - 1]) {
        for e in [Ending::HalfClose, Ending::Close, Ending::Reset] {
            let mut h = hostile(&format!("cut at {} of {}", n, good.len()), good[..n].to_vec(), e);
            // someone who said nothing at all need not be answered
            h.must_answer &= n > 0;
            v.push(h);
        }
    }
    for cl in ["22", "23", "1024", "100000", "4294967296", "9223372036854775807", "18446744073709551615"] {
        let b = format!("POST / HTTP/1.1\r\nUsername: admin\r\nContent-Length: {}\r\n\r\n{{\"query\":\"set evil 1\"", cl);
        for e in [Ending::HalfClose, Ending::Close, Ending::Reset] {
            v.push(hostile(&format!("length {} with 21 bytes", cl), b.clone(), e));
        }
    }
    // all of the query is there, but not all that was announced
    for size in [22usize, 300, 900, 1100, 2000, 5100, 20_000] {
        let body = format!("{{\"query\":\"set evil 1{}\"}}", " ".repeat(size - 22));
        for more in [1usize, 7, 600, 5000] {
            let b = format!("POST / HTTP/1.1\r\nUsername: admin\r\nContent-Length: {}\r\n\r\n{}", body.len() + more, body);
            let mut h = hostile(&format!("body of {} with {} bytes missing", body.len() + more, more), b.clone(), Ending::HalfClose);
            h.must_answer = true;
            v.push(h);
            let e = *r.pick(&[Ending::Close, Ending::Reset]);
            v.push(hostile(&format!("body of {} with {} bytes missing", body.len() + more, more), b, e));
        }
    }
    for n in [2000usize, 20_000, if thorough { 300_000 } else { 60_000 }] {
        v.push(hostile("long target", format!("POST /{} HTTP/1.1\r\n", "a".repeat(n)), Ending::HalfClose));
        v.push(hostile("long header", format!("POST / HTTP/1.1\r\nX: {}", "a".repeat(n)), Ending::HalfClose));
        v.push(hostile("long method", "P".repeat(n), Ending::HalfClose));
        v.push(hostile("many headers", format!("POST / HTTP/1.1\r\n{}", "a: b\r\n".repeat(n / 6)), Ending::HalfClose));
        v.push(hostile("zeros", vec![0u8; n], Ending::HalfClose));
        v.push(hostile("line ends", "\r\n".repeat(n / 2), Ending::HalfClose));
        let mut noise = vec![0u8; n];
        for b in noise.iter_mut() {
            *b = r.next() as u8;
        }
        v.push(hostile("noise", noise, if r.pct(50) { Ending::Close } else { Ending::HalfClose }));
        v.push(hostile("deep JSON", request_with_body(Some("admin"), format!("{{\"query\":{}", "[".repeat(n)).as_bytes()), Ending::HalfClose));
        v.push(hostile("big body without query", request_with_body(Some("admin"), format!("{{\"q\":\"{}\"}}", "x".repeat(n)).as_bytes()), Ending::HalfClose));
    }
    // damaged valid requests that are certainly broken: a byte of the JSON punctuation replaced
    let good = request(Some("admin"), "set evil 1");
    let h = head_len(&good);
    for i in [h, h + 1, h + 7, h + 8, good.len() - 1] {
        let mut b = good.clone();
        b[i] = *r.pick(&[0u8, 0xff, b'x', b'\\']);
        v.push(hostile(&format!("byte {} damaged", i), b, Ending::HalfClose));
    }
    v
}

fn throw(srv: &mut Server, h: &Hostile) -> Result<Option<u16>, Fail> {
    let mut s = http::connect(srv.port).map_err(|e| ("cannot_connect", format!("after hostile input nobody can connect: {}", e)))?;
    let _ = s.write_all(&h.bytes);
    match h.ending {
        Ending::Close => return Ok(None),
        Ending::Reset => {
            http::reset_on_close(&s);
            return Ok(None);
        }
        Ending::HalfClose => {
            let _ = s.shutdown(Shutdown::Write);
        }
    }
    match http::read_all(&mut s) {
        Got::Response(r) => match http::decode(&r) {
            Ok(Err(_)) => Ok(Some(r.status)),
            Ok(Ok(a)) => Err(("accepted", format!("malformed input ({}) was answered with success: {:?}; {}", h.name, a, short(&String::from_utf8_lossy(&h.bytes))))),
            Err(e) => Err(("bad_answer", format!("malformed input ({}): {}", h.name, e))),
        },
        Got::Closed | Got::Bad(_) if !h.must_answer => Ok(None),
        other => {
            srv.healthy().map_err(|e| ("died", e))?;
            Err(("no_answer", format!("malformed input ({}, {:?}) was not answered with an error: {:?}; {}", h.name, h.ending, other, short(&String::from_utf8_lossy(&h.bytes)))))
        }
    }
}

fn unharmed(srv: &mut Server, last: &str) -> Outcome {
    srv.healthy().map_err(|e| ("died", format!("after {}: {}", last, e)))?;
    want(srv, "read", "get canary", value("alive")).map_err(|(s, d)| (s, format!("after {}: {}", last, d)))?;
    want(srv, "read", "ex evil", Ok(Resp::Bool(false))).map_err(|(_, d)| ("executed", format!("after {}: {}", last, d)))
}

/// CPU time a server uses while nobody asks it anything
fn idle_load(srv: &Server) -> f64 {
    let (t, c) = (Instant::now(), srv.cpu());
    std::thread::sleep(Duration::from_millis(2500));
    (srv.cpu() - c) / t.elapsed().as_secs_f64()
}

fn c12(ctx: &Ctx, rep: &mut Report) {
    each(ctx, rep, "hostile", &KINDS, |ctx, kind, rep| {
        let mut r = Rng::for_case(ctx.seed, "c12", kind as u64);
        let mut srv = ctx.start(kind, &Opts { files: Some(64), ..Opts::default() })?;
        want(&mut srv, "admin", "set canary \"alive\"", Ok(Resp::Message))?;
        let before = settled(&srv);
        let idle_before = idle_load(&srv);
        for pass in 0..ctx.n(1, 8) {
            let mut inputs = hostile_inputs(&mut r, ctx.thorough);
            r.shuffle(&mut inputs);
            for h in &inputs {
                match throw(&mut srv, h)? {
                    Some(st) => rep.count(&format!("status_{}", st), 1),
                    None => rep.count("without_answer", 1),
                }
                unharmed(&mut srv, &format!("{} ({:?})", h.name, h.ending))?;
                rep.count("inputs", 1);
                rep.case(Some(hash_of(&(kind, &h.bytes, format!("{:?}", h.ending)))));
            }
            rep.count("passes", pass as u64 + 1);
            rep.sample(json!({"server": kind.name(), "inputs": inputs.len(), "example": inputs[0].name}));
        }
        // the same ones again and again
        let again = hostile_inputs(&mut r, false);
        for h in again.iter().filter(|h| h.bytes.len() < 3000).step_by(ctx.n(9, 2)) {
            for _ in 0..ctx.n(70, 150) {
                throw(&mut srv, h)?;
                rep.count("repetitions", 1);
            }
            unharmed(&mut srv, &format!("many times {} ({:?})", h.name, h.ending))?;
        }
        // what they brought along has to go again
        let base = (settled(&srv), srv.memory());
        for (name, bytes, ending) in [
            ("cut off body", [&b"POST / HTTP/1.1\r\nUsername: admin\r\nContent-Length: 90000\r\n\r\n"[..], &[b'x'; 30_000]].concat(), Ending::Close),
            ("cut off head", [&b"POST / HTTP/1.1\r\nUsername: "[..], &[b'x'; 20_000]].concat(), Ending::Reset),
            ("no JSON", request_with_body(Some("admin"), &[b'x'; 30_000]), Ending::HalfClose),
            ("no query", request_with_body(Some("admin"), format!("{{\"q\":\"{}\"}}", "x".repeat(30_000)).as_bytes()), Ending::HalfClose),
            ("no UTF-8", request_with_body(Some("admin"), &[&b"{\"query\":\"set evil 1"[..], &[0xff; 30_000]].concat()), Ending::Close),
            ("no text of the language", request(Some("admin"), &format!("set evil \"{}", "x".repeat(30_000))), Ending::HalfClose),
            ("no method", vec![b'P'; 30_000], Ending::Close),
        ] {
            let h = Hostile { must_answer: false, ..hostile(name, bytes, ending) };
            for _ in 0..ctx.n(500, 5000) {
                throw(&mut srv, &h)?;
                rep.count("large_repetitions", 1);
            }
            unharmed(&mut srv, &format!("many times {}", name))?;
        }
        let (files, memory) = (settled(&srv), srv.memory());
        rep.count("megabytes_before_large_repetitions", base.1 as u64);
        rep.count("megabytes_after_large_repetitions", memory as u64);
        if memory > base.1 + 25.0 || files.0 > base.0 .0 + 4 || files.1 > base.0 .1 + 3 {
            return Err(("leak", format!("{:?} threads and files and {:.0} MB before large hostile inputs, {:?} and {:.0} MB after", base.0, base.1, files, memory)));
        }
        let after = settled(&srv);
        if after.0 > before.0 + 4 || after.1 > before.1 + 3 {
            return Err(("leak", format!("{} threads and {} files before hostile inputs, {} and {} after", before.0, before.1, after.0, after.1)));
        }
        // the analysis workers of the multi-threaded server never sleep
        let idle_after = idle_load(&srv);
        rep.count("idle_cpu_percent_after", (idle_after * 100.0) as u64);
        if idle_after > idle_before + 0.6 {
            // a hiccup, or for good?
            let again = idle_load(&srv);
            if again > idle_before + 0.6 {
                return Err(("spins", format!("an idle server used {:.2} CPUs before hostile inputs and {:.2} after", idle_before, again)));
            }
        }
        unharmed(&mut srv, "all of it")
    });
    // many at once
    each(ctx, rep, "together", &KINDS, |ctx, kind, rep| {
        let mut srv = ctx.start(kind, &Opts { delay: 20, delay_max: 1000, ..Opts::default() })?;
        want(&mut srv, "admin", "set canary \"alive\"", Ok(Resp::Message))?;
        let port = srv.port;
        let bad: Mutex<Option<String>> = Mutex::new(None);
        let probes = AtomicU64::new(0);
        let left = AtomicU64::new(5);
        std::thread::scope(|s| {
            for c in 0..5u64 {
                let left = &left;
                s.spawn(move || {
                    let mut r = Rng::for_case(ctx.seed, "c12together", c + kind as u64 * 100);
                    let inputs = hostile_inputs(&mut r, false);
                    for _ in 0..ctx.n(150, 2000) {
                        let h = r.pick(&inputs).clone();
                        if let Ok(mut s) = http::connect(port) {
                            let _ = s.write_all(&h.bytes);
                            if h.ending == Ending::Reset {
                                http::reset_on_close(&s);
                            } else if h.ending == Ending::HalfClose {
                                let _ = s.shutdown(Shutdown::Write);
                                let _ = http::read_all(&mut s);
                            }
                        }
                    }
                    left.fetch_sub(1, Ordering::SeqCst);
                });
            }
            for c in 0..2u64 {
                let (bad, probes, left) = (&bad, &probes, &left);
                s.spawn(move || {
                    let mut i = 0;
                    while left.load(Ordering::SeqCst) > 0 {
                        i += 1;
                        let v = format!("{}_{}", c, i);
                        match ask(port, "write", &format!("set p{} \"{}\"; get p{}", c, v, c)) {
                            Reply::Answer(a) if a == value(&v) => (),
                            Reply::TimedOut => (),
                            other => {
                                *bad.lock().unwrap() = Some(format!("a valid request among hostile ones gave {:?} instead of {}", other, v));
                                return;
                            }
                        }
                        probes.fetch_add(1, Ordering::Relaxed);
                    }
                });
            }
        });
        rep.count("probes", probes.into_inner());
        rep.case(Some(hash_of(&(kind, "together"))));
        unharmed(&mut srv, "hostile inputs from several clients at once")?;
        match bad.into_inner().unwrap() {
            Some(b) => Err(("wrong_answer", b)),
            None => Ok(()),
        }
    });
    // arbitrary query texts in valid requests
    each(ctx, rep, "texts", &KINDS, |ctx, kind, rep| {
        let mut r = Rng::for_case(ctx.seed, "c12texts", kind as u64);
        let mut srv = ctx.start(kind, &Opts::default())?;
        want(&mut srv, "admin", "set canary \"alive\"", Ok(Resp::Message))?;
        for i in 0..ctx.n(1500, 30000) {
            let text = match r.below(10) {
                0 | 1 => {
                    let n = r.range(0, 9);
                    soup_text(&mut r, n)
                }
                2 => {
                    let n = r.range(0, 30);
                    (0..n).map(|_| char::from_u32((r.next() % if r.pct(50) { 0x110000 } else { 0x180 }) as u32).unwrap_or('\u{fffd}')).collect()
                }
                3 if i % 20 == 0 => {
                    let n = 20_000;
                    match r.below(7) {
                        0 => "[".repeat(n),
                        1 => format!("set x int {}", "[".repeat(n)),
                        2 => ";".repeat(n),
                        3 => " ".repeat(n),
                        4 => format!("set x \"{}", "\\\\".repeat(n)),
                        5 => format!("set x {}", "9".repeat(n)),
                        _ => "(".repeat(n),
                    }
                }
                _ => {
                    let n = r.range(1, 4);
                    let ops: Vec<Op> = (0..n).map(|_| gen_text_op(&mut r)).collect();
                    let text = gen::render(&mut r, &ops, Style::Wild);
                    let text: String = text.chars().take(2000).collect();
                    mutate(&mut r, &text)
                }
            };
            let parsed = refparse::parse(&text);
            // it must not touch what is looked at, nor stop the server
            if text.to_lowercase().contains("canary") {
                continue;
            }
            let reply = ask(srv.port, if parsed.as_ref().map_or(false, |p| p.contains(&Op::Shutdown)) { "write" } else { "admin" }, &text);
            match (&reply, &parsed) {
                (Reply::Answer(Err(EK::Token | EK::Parse | EK::Type)), None) => rep.count("rejected", 1),
                (Reply::Answer(Err(EK::Token | EK::Parse)), Some(_)) => return Err(("rejected", format!("a valid text was rejected with {:?}: {:?}", reply, short(&text)))),
                (Reply::Answer(_), Some(_)) => rep.count("executed", 1),
                (Reply::TimedOut, _) if kind == Kind::Multi => available(&mut srv)?,
                _ => {
                    srv.healthy().map_err(|e| ("died", format!("after {:?}: {}", short(&text), e)))?;
                    return Err(("wrong_answer", format!("{:?} gave {:?}", short(&text), reply)));
                }
            }
            rep.case(Some(hash_of(&text)));
            if i % 25 == 0 {
                srv.healthy().map_err(|e| ("died", format!("after {:?}: {}", short(&text), e)))?;
                want(&mut srv, "read", "get canary", value("alive"))?;
            }
        }
        srv.healthy().map_err(|e| ("died", e))
    });
}

// ------------------------------------------------------------------------------------- C13

const STOP_LIMIT: Duration = Duration::from_secs(60);

fn ends(srv: &mut Server, what: &str) -> Outcome {
    match srv.wait_exit(STOP_LIMIT) {
        None => Err(("does_not_stop", format!("{}: still running {} s after the shutdown", what, STOP_LIMIT.as_secs()))),
        Some(s) if s != "exit status 0" => Err(("unclean_end", format!("{}: ended with {}: {}", what, s, srv.stderr()))),
        Some(_) => Ok(()),
    }
}

fn shuts_down(srv: &mut Server, q: &str, what: &str, rep: &mut Report) -> Outcome {
    let t = Instant::now();
    match ask(srv.port, "admin", q) {
        Reply::Answer(Ok(Resp::ShuttingDown)) => (),
        Reply::TimedOut if srv.kind == Kind::Multi => rep.count("shutdowns_answered_late", 1),
        other => return Err(("wrong_answer", format!("{}: {} was answered with {:?}", what, short(q), other))),
    }
    ends(srv, what)?;
    rep.count("shutdowns", 1);
    let ms = t.elapsed().as_millis() as u64;
    let c = rep.counters.entry("slowest_ms".into()).or_insert(0);
    *c = (*c).max(ms);
    rep.case(Some(hash_of(&(srv.kind, what, q))));
    Ok(())
}

fn c13(ctx: &Ctx, rep: &mut Report) {
    let quick = Opts { sleep_div: 20, ..Opts::default() };
    each(ctx, rep, "forms", &KINDS, |ctx, kind, rep| {
        for q in ["shutdown", "SHUTDOWN;", "set a 1; Shutdown", "shutdown; get missing", "set a \"x\"; get a; shutdown; set b 2; get missing", " \n;; shutDown ;; "] {
            let mut srv = ctx.start(kind, &quick)?;
            shuts_down(&mut srv, q, "a shutdown", rep)?;
        }
        // at its natural pace
        let mut srv = ctx.start(kind, &Opts::default())?;
        shuts_down(&mut srv, "shutdown", "a shutdown of an idle server", rep)
    });
    each(ctx, rep, "under_load", &KINDS, |ctx, kind, rep| {
        for round in 0..ctx.n(4, 40) {
            let o = if round % 2 == 0 { Opts { sleep_div: 50, ..Opts::default() } } else { Opts { sleep_div: 20, delay: 40, delay_max: 3000, ..Opts::default() } };
            let mut srv = ctx.start(kind, &o)?;
            let stop = AtomicBool::new(false);
            let asked = AtomicU64::new(0);
            let port = srv.port;
            let r: Outcome = std::thread::scope(|s| {
                for c in 0..6 {
                    let (stop, asked) = (&stop, &asked);
                    s.spawn(move || {
                        let mut i = 0;
                        while !stop.load(Ordering::Relaxed) {
                            i += 1;
                            // once the server stops these go nowhere
                            if let Ok(mut c2) = TcpStream::connect(("127.0.0.1", port)) {
                                c2.set_read_timeout(Some(Duration::from_secs(5))).ok();
                                let _ = c2.write_all(&request(Some("write"), &format!("set k{} {} {}; get k{}", c, i, 1 + i % 3, c)));
                                let mut b = vec![];
                                let _ = c2.read_to_end(&mut b);
                                if !b.is_empty() {
                                    asked.fetch_add(1, Ordering::Relaxed);
                                }
                            } else {
                                std::thread::sleep(Duration::from_millis(5));
                            }
                        }
                    });
                }
                std::thread::sleep(Duration::from_millis(150 + 50 * round as u64 % 300));
                let o = shuts_down(&mut srv, "set last 1; shutdown", "a shutdown under load", rep);
                stop.store(true, Ordering::Relaxed);
                o
            });
            rep.count("answers_to_others", asked.into_inner());
            r?;
        }
        Ok(())
    });
    each(ctx, rep, "open_connections", &KINDS, |ctx, kind, rep| {
        // clients that said nothing or only half of it are connected when it stops
        let mut srv = ctx.start(kind, &Opts { sleep_div: 10, ..Opts::default() })?;
        want(&mut srv, "admin", "set a 1 0; set b 2 1; set c 3", Ok(Resp::Message))?;
        let mut open = vec![];
        let port = srv.port;
        let o = std::thread::scope(|s| {
            let h = s.spawn(move || ask(port, "admin", "shutdown"));
            // behind it in the queue, most likely
            std::thread::sleep(Duration::from_millis(2));
            for i in 0..5 {
                if let Ok(mut s) = TcpStream::connect(("127.0.0.1", port)) {
                    let b = request(Some("write"), "set d 4");
                    let _ = s.write_all(&b[..b.len() * i / 5]);
                    open.push(s);
                }
            }
            h.join().unwrap()
        });
        match o {
            Reply::Answer(Ok(Resp::ShuttingDown)) => (),
            Reply::TimedOut if kind == Kind::Multi => (),
            other => return Err(("wrong_answer", format!("shutdown was answered with {:?}", other))),
        }
        ends(&mut srv, "a shutdown with open connections")?;
        rep.case(Some(hash_of(&(kind, "open"))));
        drop(open);
        // and one that is there first
        let mut srv = ctx.start(kind, &Opts { sleep_div: 10, ..Opts::default() })?;
        let mut first = http::connect(srv.port).map_err(|e| ("cannot_connect", e))?;
        let _ = first.write_all(b"POST / HTTP/1.1\r\nUser");
        std::thread::sleep(Duration::from_millis(20));
        shuts_down(&mut srv, "shutdown", "a shutdown behind a silent client", rep)
    });
    each(ctx, rep, "nobody_there", &KINDS, |ctx, kind, rep| {
        // who asked for it is gone before the answer
        for round in 0..ctx.n(5, 40) {
            let mut srv = ctx.start(kind, &Opts { sleep_div: 20, ..Opts::default() })?;
            let mut r = Rng::for_case(ctx.seed, "c13-gone", round as u64);
            let numbers = vec!["123456789"; 50_000].join(",");
            match ask(srv.port, "admin", &format!("set big int [{}]", numbers)) {
                Reply::Answer(Ok(Resp::Message)) | Reply::TimedOut => (),
                other => return Err(("wrong_answer", format!("storing a big vector gave {}", short(&format!("{:?}", other))))),
            }
            let mut executed = false;
            for try_ in 0..20 {
                let slow = "get big; ".repeat(*r.pick(&[20, 60, 120]));
                let mut s = http::connect(srv.port).map_err(|e| ("cannot_connect", e))?;
                let _ = s.write_all(&request(Some("admin"), &format!("{}set gone{} 1; shutdown", slow, try_)));
                std::thread::sleep(Duration::from_millis(r.range(5, 40) as u64));
                if round % 3 < 2 {
                    http::reset_on_close(&s);
                }
                drop(s);
                // it is executed or was never read
                let t = Instant::now();
                while !executed && t.elapsed() < Duration::from_secs(8) {
                    if srv.exit().is_some() {
                        executed = true;
                    } else if let Reply::Answer(Ok(Resp::Bool(true))) = ask(srv.port, "read", &format!("ex gone{}", try_)) {
                        executed = true;
                    } else {
                        std::thread::sleep(Duration::from_millis(50));
                    }
                }
                if executed {
                    break;
                }
                rep.count("shutdowns_never_read", 1);
            }
            if !executed {
                rep.count("rounds_without_shutdown", 1);
                continue;
            }
            ends(&mut srv, "a shutdown whose client was gone")?;
            rep.count("shutdowns_with_nobody_there", 1);
            rep.case(Some(hash_of(&(kind, "gone", round))));
        }
        Ok(())
    });
    each(ctx, rep, "lookalikes", &KINDS, |ctx, kind, rep| {
        let mut srv = ctx.start(kind, &Opts { sleep_div: 20, ..Opts::default() })?;
        want(&mut srv, "admin", "set canary \"alive\"", Ok(Resp::Message))?;
        let mut sent = vec![];
        for (user, q) in [
            (Some("write"), "shutdown"),
            (Some("read"), "shutdown"),
            (Some("write"), "get canary; shutdown"),
            (Some("bob"), "shutdown"),
            (Some("unauthenticated"), "shutdown"),
            (None, "shutdown"),
            (Some(""), "shutdown"),
            (Some("admin"), "get missing; shutdown"),
            (Some("admin"), "vpop canary; shutdown"),
            (Some("admin"), "upd missing 1; shutdown"),
            (Some("admin"), "set x \"shutdown\"; get x"),
            (Some("admin"), "get canary; set shutdown_now 1; ex shutdown_now; get shutdown1"),
            (Some("admin"), "set shutdowns \"SHUTDOWN\"; del shutdowns"),
            (Some("admin"), "set v str [\"shutdown\", \"ShuttingDown\"]; vpop v"),
            (Some("admin"), "set m str str {\"shutdown\": \"shutdown\"}; mget m \"shutdown\""),
            (Some("admin"), "shutdown \""),
            (Some("admin"), "shutdown; get"),
            (Some("admin"), "shutdown 1"),
            (Some("admin"), "shut down"),
            (Some("admin"), "get shutdown"),
            (Some("admin"), "set shutdown 1"),
            (Some("admin"), "\"shutdown\""),
            (Some("admin"), "shutdown )"),
            (Some("admin"), "x shutdown"),
            (Some("admin"), ""),
        ] {
            let b = request(user, q);
            match http::reply_of(exchange(srv.port, &b)) {
                Reply::Answer(Ok(Resp::ShuttingDown)) => return Err(("stopped", format!("{:?} by {:?} was answered as a shutdown", q, user))),
                Reply::Answer(_) | Reply::TimedOut => (),
                other => {
                    srv.healthy().map_err(|e| ("stopped", format!("after {:?} by {:?}: {}", q, user, e)))?;
                    return Err(("wrong_answer", format!("{:?} by {:?} gave {:?}", q, user, other)));
                }
            }
            sent.push(q);
            // most would show at once, the multi-threaded and async servers look once in a while
            if sent.len() % 8 == 0 {
                std::thread::sleep(Duration::from_millis(1300));
            }
            want(&mut srv, "read", "get canary", value("alive")).map_err(|(_, d)| ("stopped", format!("after {:?} by {:?}: {}", q, user, d)))?;
            rep.count("lookalikes", 1);
            rep.case(Some(hash_of(&(kind, user, q))));
        }
        // malformed ones
        for b in [
            &b"GET / HTTP/1.1\r\nUsername: admin\r\nContent-Length: 20\r\n\r\n{\"query\":\"shutdown\"}"[..],
            b"POST / HTTP/1.1\r\nUsername: admin\r\nContent-Length: 20\r\n\r\n{\"Query\":\"shutdown\"}",
            b"POST / HTTP/1.1\r\nUsername: admin\r\nContent-Length: 19\r\n\r\n{\"query\":\"shutdown\"}",
            b"POST / HTTP/1.1\r\nUsername: admin\r\n\r\n{\"query\":\"shutdown\"}",
            b"POST / HTTP/1.1\r\nX: 1\r\nContent-Length: 20\r\n\r\n{\"query\":\"shutdown\"}",
            b"shutdown\r\n\r\n",
            b"POST /shutdown HTTP/1.1\r\nUsername: admin\r\nContent-Length: 22\r\n\r\n{\"query\":\"ex canary\"}\n",
        ] {
            let _ = exchange_half_closed(srv.port, b);
            rep.count("lookalikes", 1);
        }
        // load on the way must not stop it either
        for i in 0..200 {
            match ask(srv.port, "admin", &format!("set n{} {}; get missing", i, i)) {
                Reply::Answer(Err(EK::Key)) | Reply::TimedOut => (),
                other => return Err(("wrong_answer", format!("{:?}", other))),
            }
        }
        std::thread::sleep(Duration::from_millis(2500));
        want(&mut srv, "read", "get canary", value("alive")).map_err(|(_, d)| ("stopped", d))?;
        shuts_down(&mut srv, "shutdown", "a shutdown after lookalikes", rep)
    });
    // one that is executed after its client was told that it takes too long still is one, too
    each(ctx, rep, "late", &KINDS, |ctx, kind, rep| {
        for round in 0..ctx.n(1, 6) {
            let mut srv = ctx.start(kind, &Opts { sleep_div: if round == 0 { 20 } else { 1 }, ..Opts::default() })?;
            let by = ByPort(srv.port);
            let slow = Slow::calibrate(&by, 2500, rep).map_err(|e| ("slow", e))?;
            let q = slow.text("shutdown");
            let (busy, stop) = std::thread::scope(|s| {
                if round % 2 == 0 {
                    // waits behind a slow one
                    let a = s.spawn(|| by.ask("write", &slow.text("ex a")));
                    std::thread::sleep(Duration::from_millis(300));
                    let b = s.spawn(|| by.ask("admin", "set a 1; shutdown"));
                    (Some(a.join().unwrap()), b.join().unwrap())
                } else {
                    // is slow itself
                    (None, by.ask("admin", &q))
                }
            });
            match stop {
                Reply::TimedOut if kind == Kind::Multi => rep.count("shutdowns_answered_late", 1),
                Reply::Answer(Ok(Resp::ShuttingDown)) => (),
                other => return Err(("wrong_answer", format!("a shutdown behind a slow request was answered with {:?}", other))),
            }
            match busy {
                None | Some(Reply::Answer(Ok(Resp::Bool(false)))) => (),
                Some(Reply::TimedOut) if kind == Kind::Multi => (),
                other => return Err(("wrong_answer", format!("a slow request was answered with {:?}", other))),
            }
            ends(&mut srv, "a shutdown whose result came late")?;
            rep.case(Some(hash_of(&(kind, "late", round))));
        }
        Ok(())
    });
    // an abandoned shutdown still is one
    each(ctx, rep, "abandoned", &KINDS, |ctx, kind, rep| {
        let mut srv = ctx.start(kind, &Opts { sleep_div: 20, ..Opts::default() })?;
        want(&mut srv, "admin", "set canary \"alive\"", Ok(Resp::Message))?;
        {
            let mut s = http::connect(srv.port).map_err(|e| ("cannot_connect", e))?;
            let _ = s.write_all(&request(Some("admin"), "shutdown"));
            std::thread::sleep(Duration::from_millis(100));
        }
        ends(&mut srv, "a shutdown whose client has gone")?;
        rep.case(Some(hash_of(&(kind, "abandoned"))));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------- C14

/// What is compared between servers: status and payload, with the order of map entries left open
fn canonical(r: &Raw, lifetimes: bool) -> Result<String, String> {
    let a = http::decode(r)?;
    Ok(match a {
        Ok(Resp::Value(Val::Map(..))) => format!("{} {:?}", r.status, a),
        Ok(_) => {
            let j: Json = serde_json::from_slice(&r.payload).map_err(|e| e.to_string())?;
            format!("{} {}", r.status, j)
        }
        // the text of an error may show a map, and a missing key is reported in two ways depending on whether an
        // expired entry has been removed yet
        Err(k) if String::from_utf8_lossy(&r.payload).contains('{') || (lifetimes && k == EK::Key) => format!("{} {:?}", r.status, k),
        Err(_) => format!("{} {}", r.status, String::from_utf8_lossy(&r.payload)),
    })
}

fn c14(ctx: &Ctx, rep: &mut Report) {
    let groups = 3usize;
    let results: Vec<(Report, Outcome)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..groups)
            .map(|g| {
                s.spawn(move || {
                    let mut r = Report::new();
                    let o = c14_group(ctx, g, &mut r);
                    (r, o)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness panic")).collect()
    });
    for (mut r, o) in results {
        if let Err((sig, d)) = o {
            r.violation(&format!("compare-{}", sig), d.clone(), json!({"how": format!("net --check C14 --seed {}", ctx.seed), "what": d}));
        }
        rep.merge(r);
    }
}

fn c14_group(ctx: &Ctx, g: usize, rep: &mut Report) -> Outcome {
    let mut r = Rng::for_case(ctx.seed, "c14", g as u64);
    let wrong = complete_but_wrong();
    for round in 0..ctx.n(20, 150) {
        let mut srvs = vec![];
        for k in KINDS {
            srvs.push(ctx.start(k, &Opts { clock: true, ..Opts::default() })?);
        }
        let mut keys = gen::key_pool(&mut r, 5);
        keys.push("plain".into());
        let mut m = Model::new();
        let mut log: Vec<String> = vec![];
        let offsets = [0i64, 550, 5500, 55000];
        let mut offset = 0usize;
        let lifetimes = round % 2 == 0;
        let n = ctx.n(130, 300);
        let mut stages: BTreeSet<String> = BTreeSet::new();
        let mut i = 0;
        let mut cut = false;
        while i < n && !cut {
            i += 1;
            if i % (n / 4).max(1) == 0 && offset < 3 {
                offset += 1;
                for s in &srvs {
                    s.set_clock(offsets[offset] * 1_000_000_000);
                }
            }
            let (bytes, what): (Vec<u8>, String) = match r.below(20) {
                0 => {
                    let (name, b) = r.pick(&wrong).clone();
                    (b, name)
                }
                1 | 2 => {
                    let t = if r.pct(40) {
                        let k = r.range(1, 6);
                        soup_text(&mut r, k)
                    } else {
                        let op = gen_text_op(&mut r);
                        let t = gen::render(&mut r, &[op], Style::Wild);
                        if r.pct(60) {
                            vmon::texts::fringed(&mut r, t, 100)
                        } else {
                            mutate(&mut r, &t.chars().take(400).collect::<String>())
                        }
                    };
                    // lifetimes out of nowhere could run out just now
                    match refparse::parse(&t) {
                        Some(ops) if ops.iter().any(|o| o.lifetime().is_some() || *o == Op::Shutdown) => continue,
                        _ => (),
                    }
                    (request(Some("admin"), &t), t)
                }
                _ => {
                    let (user, level) = pick_user(&mut r, 60);
                    let k = if i % 43 == 20 { *r.pick(&[33usize, 65, 129, 257, 513, 1025, 2049]) } else { *r.pick(&[0usize, 1, 1, 1, 2, 2, 3, 4]) };
                    let mut ops = timeless_ops(&mut r, &Profile::batch(), &keys, &m, k);
                    for op in ops.iter_mut() {
                        if let Op::Set(_, v, l) | Op::Update(_, v, l) | Op::TrySet(_, v, l) = op {
                            *l = if lifetimes && *v != Val::Null && r.pct(25) { Some(*r.pick(&[100, 1000, 10000])) } else { None };
                        }
                    }
                    if level != Ok(Level::Admin) && r.pct(15) {
                        ops.push(Op::Shutdown);
                    }
                    if let Ok(l) = level {
                        m.apply_batch(&ops, l, NOW);
                    }
                    let st = if r.pct(40) { Style::Wild } else { Style::Plain };
                    let t = gen::render(&mut r, &ops, st);
                    (request(user.as_deref(), &t), format!("{:?}: {}", user, t))
                }
            };
            log.push(what.clone());
            let mut seen: Vec<String> = vec![];
            for s in srvs.iter_mut() {
                // the servers are asked one after another, and nobody else asks them anything
                let got = match exchange_half_closed(s.port, &bytes) {
                    Got::Response(raw) if http::is_timeout(&raw) && s.kind == Kind::Multi => {
                        available(s)?;
                        cut = true;
                        break;
                    }
                    Got::Response(raw) => canonical(&raw, lifetimes).map_err(|e| ("bad_answer", format!("{} server: {} for {}", s.kind.name(), e, short(&what))))?,
                    other => {
                        s.healthy().map_err(|e| ("died", format!("{} after {}", e, short(&what))))?;
                        format!("{:?}", other)
                    }
                };
                seen.push(got);
            }
            if cut {
                rep.count("sessions_cut_short", 1);
                break;
            }
            rep.count("requests", 1);
            stages.insert(seen[0].chars().take(10).collect());
            if seen.iter().any(|x| *x != seen[0]) {
                return Err((
                    "different",
                    format!("request {} of a session, {}\nsimple: {}\nmulti: {}\nasync: {}\nafter {:?}", i, short(&what), short(&seen[0]), short(&seen[1]), short(&seen[2]), log.iter().rev().take(6).map(|s| short(s)).collect::<Vec<_>>()),
                ));
            }
        }
        // the same data in the end
        if !cut {
            let all: BTreeSet<String> = keys.iter().map(|k| k.to_lowercase()).chain(m.keys()).collect();
            for k in all {
                let mut seen: Vec<String> = vec![];
                for s in srvs.iter_mut() {
                    let q = if k == "plain" { "get plain".to_string() } else { format!("try_get {}", k) };
                    seen.push(format!("{:?}", ask_again(s.port, "read", &q)));
                }
                if seen.iter().any(|x| *x != seen[0]) {
                    return Err(("different_data", format!("in the end {} is {:?}", k, seen.iter().map(|s| short(s)).collect::<Vec<_>>())));
                }
                rep.count("entries_compared", 1);
            }
            rep.case(Some(hash_of(&log)));
        }
        rep.count("sessions", 1);
        rep.count("kinds_of_outcomes", stages.len() as u64);
        if round < 1 {
            rep.sample(json!({"requests": log.len(), "outcomes": stages, "first": log.iter().take(3).map(|s| short(s)).collect::<Vec<_>>()}));
        }
        // and the same end
        for s in srvs.iter_mut() {
            match ask_again(s.port, "admin", "shutdown") {
                Reply::Answer(Ok(Resp::ShuttingDown)) => (),
                other => return Err(("shutdown", format!("the {} server answered shutdown with {:?}", s.kind.name(), other))),
            }
        }
    }
    Ok(())
}

/// Requests and answers of all the sizes at which something might change
fn every_size(ctx: &Ctx, kind: Kind, dense: usize, step: usize, rep: &mut Report) -> Outcome {
    let mut srv = ctx.start(kind, &Opts::default())?;
    let mut sizes: Vec<usize> = (0..dense).step_by(step).collect();
    // around powers of two, whatever stands before and after the text
    for k in 11..=ctx.n(19, 21) {
        let n = 1usize << k;
        sizes.extend((n.saturating_sub(260)..=n + 4).step_by(if k < 14 { 1 } else { step }));
    }
    for n in sizes {
        let v = "0123456789abcdef".chars().cycle().take(n).collect::<String>();
        match ask(srv.port, "write", &format!("set kept \"{}\"; get kept", v)) {
            Reply::Answer(a) if a == value(&v) => rep.count("sizes", 1),
            Reply::TimedOut if kind == Kind::Multi => rep.count("timeouts", 1),
            other => {
                srv.healthy().map_err(|e| ("died", e))?;
                return Err(("wrong_size", format!("a text of {} characters was set and read and came as {}", n, short(&format!("{:?}", other)))));
            }
        }
    }
    // and the same for errors
    for n in (1..=dense / 4).step_by(step) {
        let k = "abcdefgh_é".chars().cycle().take(n).collect::<String>();
        match ask(srv.port, "read", &format!("get {}", k)) {
            Reply::Answer(Err(EK::Key)) => rep.count("error_sizes", 1),
            Reply::TimedOut if kind == Kind::Multi => rep.count("timeouts", 1),
            other => {
                srv.healthy().map_err(|e| ("died", e))?;
                return Err(("wrong_error", format!("reading a missing key of {} characters gave {}", n, short(&format!("{:?}", other)))));
            }
        }
    }
    rep.case(Some(hash_of(&(kind, "sizes", dense))));
    srv.healthy().map_err(|e| ("died", e))
}

// ------------------------------------------------------------------------------------- C15

/// Read an answer slowly
fn read_slowly(port: u16, bytes: &[u8], chunk: usize, pause: Duration, buffer: i32) -> Got {
    let mut s = match http::connect(port) {
        Ok(s) => s,
        Err(e) => return Got::CannotConnect(e),
    };
    http::receive_buffer(&s, buffer);
    let _ = s.write_all(bytes);
    let mut all = vec![];
    let mut buf = vec![0u8; chunk];
    let mut pauses = 0;
    loop {
        if pauses < 12 {
            std::thread::sleep(pause);
            pauses += 1;
        }
        match s.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => all.extend(&buf[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
            Err(_) => break,
        }
    }
    if all.is_empty() {
        return Got::Closed;
    }
    match http::parse_response(&all) {
        Ok(r) => Got::Response(r),
        Err(e) => Got::Bad(e),
    }
}

/// Read an answer part by part, with a break before each; also the longest time without reading
fn read_with_breaks(port: u16, bytes: &[u8], part: usize, pause: Duration) -> (Got, Duration) {
    let mut longest = Duration::from_secs(0);
    let mut s = match http::connect(port) {
        Ok(s) => s,
        Err(e) => return (Got::CannotConnect(e), longest),
    };
    http::receive_buffer(&s, 32768);
    let _ = s.write_all(bytes);
    let mut all: Vec<u8> = vec![];
    let mut buf = vec![0u8; 16384];
    let mut last = Instant::now();
    'reading: loop {
        std::thread::sleep(pause);
        longest = longest.max(last.elapsed());
        let upto = all.len() + part;
        while all.len() < upto {
            match s.read(&mut buf) {
                Ok(0) => break 'reading,
                Ok(n) => all.extend(&buf[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
                Err(_) => break 'reading,
            }
            longest = longest.max(last.elapsed());
            last = Instant::now();
        }
    }
    let got = match http::parse_response(&all) {
        _ if all.is_empty() => Got::Closed,
        Ok(r) => Got::Response(r),
        Err(e) => Got::Bad(e),
    };
    (got, longest)
}

fn big_value(r: &mut Rng, n: usize) -> Val {
    match r.below(5) {
        0 => {
            let c = *r.pick(&["x", "é", "\\", "\"", "\n", "🦀", "\u{1}", "ab日"]);
            Val::Str(c.repeat(n / c.len()))
        }
        1 => Val::Vec(Ty::Int, (0..n / 12).map(|_| Val::Int(r.next() as i64)).collect()),
        2 => Val::Vec(Ty::Str, (0..n / 20).map(|i| Val::Str(format!("{}-{}", i, gen::gen_string(r, false)))).collect()),
        3 => Val::Vec(Ty::Float, (0..n / 12).map(|_| vmon::model::f(gen::gen_float(r))).collect()),
        _ => Val::Map(Ty::Int, Ty::Str, (0..n / 25).map(|i| (Val::Int(i as i64 * 7919 - 1000), Val::Str(gen::gen_string(r, false)))).collect()),
    }
}

fn value_round(srv: &mut Server, r: &mut Rng, v: &Val, slow: u8, rep: &mut Report) -> Outcome {
    let k = format!("v{}", ECHO.fetch_add(1, Ordering::Relaxed));
    let set = gen::render(r, &[Op::Set(k.clone(), v.clone(), None)], Style::Plain);
    match ask(srv.port, "write", &set) {
        Reply::Answer(Ok(Resp::Message)) => (),
        Reply::TimedOut if srv.kind == Kind::Multi => {
            // a big one; it is written all the same
            std::thread::sleep(Duration::from_millis(1500));
            rep.count("late_sets", 1);
        }
        other => {
            srv.healthy().map_err(|e| ("died", e))?;
            return Err(("wrong_answer", format!("{} gave {}", short(&set), short(&format!("{:?}", other)))));
        }
    }
    let b = request(Some("read"), &format!("get {}", k));
    for _ in 0..4 {
        let got = match slow {
            0 => exchange(srv.port, &b),
            1 => read_slowly(srv.port, &b, 1 << 16, Duration::from_millis(60), 65536),
            2 => read_slowly(srv.port, &b, 100_000, Duration::from_millis(2), 30000),
            _ => read_slowly(srv.port, &b, 10_000, Duration::from_millis(400), 100_000),
        };
        match http::reply_of(got) {
            Reply::Answer(Ok(Resp::Value(x))) if x == *v => {
                rep.count("values", 1);
                let size = format!("{:?}", v).len() as u64;
                rep.count("bytes_about", size);
                rep.case(Some(hash_of(&(v, slow))));
                let _ = ask(srv.port, "write", &format!("del {}", k));
                return Ok(());
            }
            Reply::TimedOut if srv.kind == Kind::Multi => {
                available(srv)?;
                rep.count("late_gets", 1);
            }
            Reply::Answer(Err(EK::Key)) if srv.kind == Kind::Multi => std::thread::sleep(Duration::from_millis(1500)),
            other => {
                srv.healthy().map_err(|e| ("died", e))?;
                return Err(("wrong_value", format!("{} was read back (way {}) as {}", short(&format!("{:?}", v)), slow, short(&format!("{:?}", other)))));
            }
        }
    }
    Ok(rep.count("values_given_up", 1))
}

fn c15(ctx: &Ctx, rep: &mut Report) {
    for (name, o, blocking) in [
        ("values", Opts::default(), false),
        ("short_writes", Opts { send_max: 3, ..Opts::default() }, true),
        ("medium_writes", Opts { send_max: 700, delay: 20, delay_max: 300, ..Opts::default() }, true),
    ] {
        let kinds: &[Kind] = if blocking { &[Kind::Simple, Kind::Multi] } else { &KINDS };
        each(ctx, rep, name, kinds, |ctx, kind, rep| {
            let mut r = Rng::for_case(ctx.seed, name, kind as u64);
            let mut srv = ctx.start(kind, &o)?;
            for i in 0..ctx.n(if blocking { 150 } else { 500 }, 5000) {
                let v = loop {
                    let v = gen::gen_val(&mut r, i % 10 == 0);
                    match &v {
                        // what an empty map looks like is left open, and null cannot be written
                        Val::Map(_, _, m) if m.is_empty() => (),
                        Val::Null => (),
                        _ => break v,
                    }
                };
                value_round(&mut srv, &mut r, &v, 0, rep)?;
            }
            rep.sample(json!({"server": kind.name(), "part": name}));
            srv.healthy().map_err(|e| ("died", e))
        });
    }
    each(ctx, rep, "big", &KINDS, |ctx, kind, rep| {
        let mut r = Rng::for_case(ctx.seed, "c15big", kind as u64);
        let mut srv = ctx.start(kind, &Opts::default())?;
        for i in 0..ctx.n(10, 60) {
            let n = *r.pick(&[60_000usize, 70_000, 200_000, 400_000, 1_000_000]);
            let v = big_value(&mut r, n);
            value_round(&mut srv, &mut r, &v, (i % 3) as u8, rep)?;
        }
        // larger than all buffers on the way, read slowly
        let v = Val::Str("0123456789abcdef".repeat(ctx.n(3, 8) * 65536));
        value_round(&mut srv, &mut r, &v, 3, rep)?;
        value_round(&mut srv, &mut r, &v, 1, rep)?;
        srv.healthy().map_err(|e| ("died", e))
    });
    each(ctx, rep, "sizes", &KINDS, |ctx, kind, rep| every_size(ctx, kind, 4500, 1, rep));
    each(ctx, rep, "patient", &[Kind::Simple, Kind::Async], |ctx, kind, rep| {
        // takes far longer than any single wait
        let mut srv = ctx.start(kind, &Opts { send_buffer: 32768, ..Opts::default() })?;
        let size = 2_000_000;
        let text = "0123456789abcdef".repeat(size / 16);
        want(&mut srv, "admin", &format!("set big \"{}\"", text), Ok(Resp::Message))?;
        for _ in 0..ctx.n(1, 3) {
            let (got, longest) = read_with_breaks(srv.port, &request(Some("read"), "get big"), size / 10, Duration::from_millis(1500));
            match http::reply_of(got) {
                Reply::Answer(a) if a == value(&text) => rep.count("patient_reads", 1),
                // this process itself did not get to read for so long that the server may well have given up
                _ if longest > Duration::from_secs(4) => rep.count("patient_reads_held_up", 1),
                other => {
                    srv.healthy().map_err(|e| ("died", e))?;
                    return Err(("wrong_value", format!("an answer of {} bytes, read in ten parts with breaks of 1.5 s, came as {}", size, short(&format!("{:?}", other)))));
                }
            }
            rep.case(Some(hash_of(&(kind, size, "patient"))));
        }
        srv.healthy().map_err(|e| ("died", e))
    });
    each(ctx, rep, "outcomes", &KINDS, |ctx, kind, rep| {
        let mut r = Rng::for_case(ctx.seed, "c15outcomes", kind as u64);
        let mut srv = ctx.start(kind, &Opts::default())?;
        want(&mut srv, "admin", "set s \"x\"; set v int [1, 2]; set m str int {\"a\": 1}; set n 5", Ok(Resp::Message))?;
        let table: Vec<(Option<&str>, &str, Answer)> = vec![
            (Some("admin"), "get s", value("x")),
            (Some("admin"), "", Ok(Resp::Null)),
            (Some("admin"), "try_get missing", Ok(Resp::Value(Val::Null))),
            (Some("admin"), "ex s", Ok(Resp::Bool(true))),
            (Some("admin"), "vlen v", Ok(Resp::Size(2))),
            (Some("admin"), "get missing", Err(EK::Key)),
            (Some("admin"), "upd missing 1", Err(EK::Key)),
            (Some("admin"), "vget v 2", Err(EK::Index)),
            (Some("admin"), "vget v 9223372036854775807", Err(EK::Index)),
            (Some("admin"), "vset v 5 1", Err(EK::Index)),
            (Some("admin"), "vpush v \"x\"", Err(EK::Type)),
            (Some("admin"), "vpush s 1", Err(EK::Type)),
            (Some("admin"), "mset m 1 1", Err(EK::Type)),
            (Some("admin"), "get \"s\"", Err(EK::Parse)),
            (Some("admin"), "set x int [1", Err(EK::Parse)),
            (Some("admin"), "vpop", Err(EK::Parse)),
            (Some("admin"), "set x \"abc", Err(EK::Token)),
            (Some("admin"), "set x 12abc#", Err(EK::Token)),
            (Some("read"), "set s \"y\"", Err(EK::Authz)),
            (Some("write"), "shutdown", Err(EK::Authz)),
            (Some("bob"), "get s", Err(EK::Authz)),
            (Some("unauthenticated"), "get s", Err(EK::Authn)),
            (None, "get s", Err(EK::Internal)),
        ];
        for _ in 0..ctx.n(5, 50) {
            for (user, q, a) in &table {
                let lenient = matches!(a, Err(EK::Token | EK::Parse));
                match http::reply_of(exchange(srv.port, &request(*user, q))) {
                    Reply::Answer(x) if x == *a => (),
                    // which of the two stages notices is not the point
                    Reply::Answer(Err(EK::Token | EK::Parse)) if lenient => (),
                    Reply::TimedOut if kind == Kind::Multi => (),
                    other => return Err(("wrong_answer", format!("{:?} by {:?} gave {:?} instead of {:?}", q, user, other, a))),
                }
                rep.count("outcomes", 1);
                rep.case(Some(hash_of(&(kind, user, q))));
            }
            for (b, k) in [
                (request_with_body(Some("admin"), b"nonsense"), EK::Request),
                (request_with_body(Some("admin"), b"{\"query\":7}"), EK::Request),
                (b"GET / HTTP/1.1\r\nUsername: admin\r\nContent-Length: 2\r\n\r\n{}".to_vec(), EK::Request),
                (b"POST / HTTP/1.1\r\nUsername: admin\r\nContent-Length: x\r\n\r\n{}".to_vec(), EK::Request),
                (b"POST / HTTP/1.1\r\nUsername: admin\r\nContent-Length: 9\r\n\r\n{}".to_vec(), EK::Network),
                (b"POST / HTTP/1.1\r\nUsername: adm".to_vec(), EK::Network),
            ] {
                match http::reply_of(exchange_half_closed(srv.port, &b)) {
                    Reply::Answer(Err(x)) if x == k => (),
                    other => return Err(("wrong_answer", format!("{:?} gave {:?} instead of {:?}", String::from_utf8_lossy(&b), other, k))),
                }
                rep.count("outcomes", 1);
                rep.case(Some(hash_of(&(kind, &b))));
            }
        }
        // random ones
        for _ in 0..ctx.n(4, 60) {
            session(&mut srv, &mut r, &Profile::coll(), 120, 70, rep)?;
        }
        match ask_again(srv.port, "admin", "shutdown") {
            Reply::Answer(Ok(Resp::ShuttingDown)) => Ok(()),
            other => Err(("wrong_answer", format!("shutdown gave {:?}", other))),
        }
    });
}

// ------------------------------------------------------------------------------------- C16

/// Longest time others may have to wait per silent client
const PER_SILENT: u64 = 30;

fn c16(ctx: &Ctx, rep: &mut Report) {
    let places = ["nothing sent", "half of the head", "head only", "half of the body", "answer not read", "most of a long head", "most of a large body", "answer read in part"];
    // every place on every server, each on a server of its own, all at once
    let counts: Vec<usize> = if ctx.thorough { vec![1, 2, 3, 5] } else { vec![1, 3] };
    let jobs: Vec<(Kind, usize, usize)> =
        counts.iter().flat_map(|n| KINDS.iter().flat_map(move |k| (0..places.len()).map(move |p| (*k, p, *n)))).collect();
    let results: Vec<(Report, Outcome, (Kind, usize, usize))> = std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|j| {
                s.spawn(move || {
                    let mut r = Report::new();
                    let o = silent(ctx, j.0, j.1, places[j.1], j.2, &mut r);
                    (r, o, *j)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness panic")).collect()
    });
    for (mut r, o, (k, p, several)) in results {
        if let Err((sig, d)) = o {
            r.violation(&format!("{}-{}", k.name(), sig), format!("{} server, {} silent clients ({}): {}", k.name(), several, places[p], d), json!({"how": format!("net --check C16 --seed {}", ctx.seed), "what": d}));
        }
        rep.merge(r);
    }
}

fn silent(ctx: &Ctx, kind: Kind, place: usize, what: &str, several: usize, rep: &mut Report) -> Outcome {
    // small buffers, so that the answer does not fit into them
    let mut srv = ctx.start(kind, &Opts { send_buffer: 16384, ..Opts::default() })?;
    let size = 1_500_000usize;
    let big = place == 4 || place == 7;
    if big {
        // more than the buffers on the way can hold
        match ask(srv.port, "admin", &format!("set big \"{}\"", "z".repeat(size))) {
            Reply::Answer(Ok(Resp::Message)) => (),
            Reply::TimedOut => {
                let t = Instant::now();
                while !matches!(ask(srv.port, "read", "ex big"), Reply::Answer(Ok(Resp::Bool(true)))) {
                    if t.elapsed() > Duration::from_secs(60) {
                        return Ok(rep.count("big_value_not_stored", 1));
                    }
                    std::thread::sleep(Duration::from_millis(200));
                }
            }
            other => return Err(("wrong_answer", format!("storing a big value gave {}", short(&format!("{:?}", other))))),
        }
    }
    want(&mut srv, "admin", "set canary \"alive\"", Ok(Resp::Message))?;
    let mut full = match place {
        4 | 7 => request(Some("read"), "get big"),
        6 => request(Some("read"), &format!("{}get canary", " ".repeat(200_000))),
        _ => request(Some("read"), "get canary"),
    };
    if place == 5 {
        let line = full.iter().position(|b| *b == b'\n').expect("no request line") + 1;
        let pads: String = (0..4).map(|i| format!("X-Pad-{}: {}\r\n", i, "p".repeat(900))).collect();
        full.splice(line..line, pads.into_bytes());
    }
    let h = head_len(&full);
    let upto = match place {
        0 => 0,
        1 => h / 2,
        2 => h,
        3 => h + (full.len() - h) / 2,
        5 => h - 3,
        6 => h + 150_000,
        _ => full.len(),
    };
    let mut open = vec![];
    for _ in 0..several {
        let mut s = http::connect(srv.port).map_err(|e| ("cannot_connect", e))?;
        if big {
            http::receive_buffer(&s, 4096);
        }
        let _ = s.write_all(&full[..upto]);
        if place == 7 {
            // the server may serve these one after another, so they cannot all get their part here
            s.set_read_timeout(Some(Duration::from_secs(5))).ok();
            let mut part = vec![0u8; 20_000];
            let mut got = 0;
            while got < part.len() {
                match s.read(&mut part[got..]) {
                    Ok(n) if n > 0 => got += n,
                    _ => break,
                }
            }
            if got > 0 {
                rep.count("answers_read_in_part", 1);
            }
        }
        open.push(s);
    }
    std::thread::sleep(Duration::from_millis(300));
    let limit = Duration::from_secs(30 + PER_SILENT * several as u64);
    let port = srv.port;
    let t = Instant::now();
    // two others, one after another
    for i in 0..2 {
        let left = limit.saturating_sub(t.elapsed());
        let b = request(Some("write"), &format!("set probe {}; get canary", i));
        let mut s = http::connect(port).map_err(|e| ("cannot_connect", e))?;
        s.set_read_timeout(Some(left.max(Duration::from_secs(1)))).ok();
        let _ = s.write_all(&b);
        match http::reply_of(http::read_all(&mut s)) {
            Reply::Answer(a) if a == value("alive") => (),
            Reply::TimedOut if kind == Kind::Multi => (),
            other => {
                srv.healthy().map_err(|e| ("died", e))?;
                return Err(("blocked", format!("another client's request was not answered within {} s while the silent ones stay connected: {:?}", limit.as_secs(), other)));
            }
        }
    }
    let ms = t.elapsed().as_millis() as u64;
    rep.count("probes", 2);
    let c = rep.counters.entry(format!("longest_wait_ms_{}_{}_{}", kind.name(), place, several)).or_insert(0);
    *c = (*c).max(ms);
    rep.case(Some(hash_of(&(kind, place, several))));
    rep.sample(json!({"server": kind.name(), "silent": several, "place": what, "waited_ms": ms}));
    srv.healthy().map_err(|e| ("died", e))?;
    drop(open);
    want(&mut srv, "read", "get canary", value("alive"))
}

// ------------------------------------------------------------------------------------- C18

/// What the three servers answer is decoded with the types of the library
fn c18(ctx: &Ctx, rep: &mut Report) {
    each(ctx, rep, "served", &KINDS, |ctx, kind, rep| {
        let srv = &mut ctx.start(kind, &Opts::default())?;
        let mut r = Rng::for_case(ctx.seed, "c18", kind as u64);
        let keys = gen::key_pool(&mut r, 3);
        let mut m = Model::new();
        let p = Profile::coll();
        let mut log: Vec<String> = vec![];
        for step in 0..ctx.n(500, 5000) {
            let k = r.pick(&keys).clone();
            let op = match r.below(8) {
                0 => Op::Type(k),
                1 | 2 => Op::TryGet(k),
                3 => Op::GetLifetime(k),
                _ => {
                    let op = gen::gen_op(&mut r, &p, &keys, &m, 0);
                    gen::textual(&mut r, op)
                }
            };
            if !gen::has_text(&op) || op.lifetime().is_some() {
                continue;
            }
            m.apply(&op, 0);
            let text = gen::render(&mut r, &[op.clone()], Style::Plain);
            log.push(short(&text));
            let got = exchange(srv.port, &request(Some("admin"), &text));
            let Got::Response(raw) = got else {
                srv.healthy().map_err(|e| ("died", e))?;
                return Err(("no_response", format!("{} was answered by {}", short(&text), short(&format!("{:?}", got)))));
            };
            rep.count("requests", 1);
            if raw.status != 200 {
                continue;
            }
            // how the payload looks is for others to judge
            let Ok(answer) = http::decode(&raw) else { continue };
            let back: InterpreterResponse = match serde_json::from_slice(&raw.payload) {
                Ok(x) => x,
                Err(e) => return Err(("not_decoded", format!("the answer to {} ({}) cannot be decoded: {}", short(&text), short(&String::from_utf8_lossy(&raw.payload)), e))),
            };
            match answer_of(&Ok(back)) {
                Ok(a) if a == answer => rep.count("answers_decoded", 1),
                other => return Err(("decoded_differently", format!("the answer {} was decoded as {}", short(&format!("{:?}", answer)), short(&format!("{:?}", other))))),
            }
            rep.case(Some(hash_of(&(step, &text))));
        }
        srv.healthy().map_err(|e| ("died", e))?;
        rep.sample(json!({"server": srv.kind.name(), "session": log.iter().take(8).collect::<Vec<_>>()}));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------- C22

/// Finds the words that stand for data
fn marks(text: &[u8]) -> BTreeSet<String> {
    let mut found = BTreeSet::new();
    let mut i = 0;
    while i + 12 <= text.len() {
        if &text[i..i + 2] == b"Zx" && &text[i + 10..i + 12] == b"qW" && text[i + 2..i + 10].iter().all(u8::is_ascii_digit) {
            found.insert(String::from_utf8_lossy(&text[i..i + 12]).into_owned());
            i += 12;
        } else {
            i += 1;
        }
    }
    found
}

/// Every piece of data has a word of its own, which may only be seen in the answers to those who ask for it
fn c22(ctx: &Ctx, rep: &mut Report) {
    each(ctx, rep, "disclosure", &KINDS, |ctx, kind, rep| {
        let mut srv = ctx.start(kind, &Opts { output: true, clock: true, sleep_div: 300, ..Opts::default() })?;
        let mut r = Rng::for_case(ctx.seed, "c22", kind as u64);
        let mut next = 10_000_000 * (kind as u64 + 1);
        let mut place: std::collections::HashMap<String, String> = std::collections::HashMap::new();
        let mut recent: Vec<String> = vec!["Zx00000000qW".into()];
        let mut clock = 0i64;
        let mut log: Vec<String> = vec![];
        let steps = ctx.n(4000, 40_000);
        for step in 0..steps {
            let n = match r.below(10) {
                0 => 0,
                1..=6 => 1,
                7 | 8 => r.range(2, 4),
                _ => r.range(5, 70),
            };
            let mut named: BTreeSet<String> = BTreeSet::new();
            let mut parts: Vec<String> = vec![];
            for _ in 0..n {
                let k = format!("k{}", r.below(9));
                named.insert(k.clone());
                let mut new = |r: &mut Rng| {
                    next += 1;
                    let m = format!("Zx{:08}qW", next % 100_000_000);
                    place.insert(m.clone(), k.clone());
                    recent.push(m.clone());
                    if r.pct(10) { format!("\"{}{}\"", "s".repeat(r.range(0, 30)), m) } else if r.pct(4) { format!("\"{} {}\"", m, "long ".repeat(400)) } else { format!("\"{}\"", m) }
                };
                let a = new(&mut r);
                let b = new(&mut r);
                let c = new(&mut r);
                let old = format!("\"{}\"", recent[recent.len() - 1 - r.below(recent.len().min(60))]);
                let life = if r.pct(30) { format!(" {}", r.range(1, 30)) } else { String::new() };
                parts.push(match r.below(26) {
                    0 | 1 => format!("set {} {}{}", k, a, life),
                    2 => format!("set {} str [{}, {}, {}]{}", k, a, b, c, life),
                    3 => format!("set {} str str {{{}: {}, \"k\": {}}}{}", k, a, b, c, life),
                    4 => format!("upd {} {}{}", k, a, life),
                    5 => format!("try_set {} {}{}", k, a, life),
                    6 | 7 => format!("vpush {} {}", k, a),
                    8 => format!("vset {} {} {}", k, r.below(5), a),
                    9 => format!("mset {} {} {}", k, a, b),
                    10 => format!("mset {} \"k\" {}", k, a),
                    11 => format!("mdel {} {}", k, if r.pct(50) { old } else { "\"k\"".into() }),
                    12 => format!("mget {} {}", k, if r.pct(50) { old } else { "\"k\"".into() }),
                    13 => format!("mex {} {}", k, old),
                    14 => format!("vget {} {}", k, r.below(6)),
                    15 => format!("vpop {}", k),
                    16 | 17 => format!("del {}", k),
                    18 => format!("get {}", k),
                    19 => format!("try_get {}", k),
                    20 => format!("type {}", k),
                    21 => format!("{} {}", r.pick(&["vlen", "mlen", "ex"]), k),
                    // what cannot work
                    22 => format!("vpush {} {}", k, r.pick(&["1", "true", "1.5", "none"])),
                    23 => format!("mset {} {} {}", k, r.pick(&["1", "\"k\""]), r.pick(&["1", "true", "1.5"])),
                    24 => match r.below(5) {
                        0 => format!("set {} {} {}", k, a, b),
                        1 => format!("set {} int [{}]", k, a),
                        2 => format!("set {} \"{}", k, a.trim_matches('"')),
                        3 => format!("get {} {}", k, a),
                        _ => format!("vset {} {} 3", k, a),
                    },
                    _ => format!("set {} {}", k, r.pick(&["1", "[1, 2]", "-4.5", "true"])),
                });
            }
            let text = parts.join("; ");
            let user = match r.below(12) {
                0..=5 => Some("admin"),
                6 | 7 => Some("write"),
                8 | 9 => Some("read"),
                10 => Some(*r.pick(&["unauthenticated", "nobody", "Admin", ""])),
                _ => None,
            };
            let mut bytes = request(user, &text);
            let way = if r.pct(70) { 0 } else { r.range(1, 6) };
            match way {
                // cut off, announced longer, or with a body that is no request
                1 => bytes.truncate(bytes.len() - 1 - r.below((bytes.len() - 1).min(30))),
                2 => {
                    let n = r.below(bytes.len());
                    bytes[n] = *r.pick(&[b' ', b'"', 0, 0xff, b'{', b'\\']);
                }
                3 => bytes = http::request_with_body(user, text.as_bytes()),
                4 => bytes = http::request_with_body(Some(&recent[recent.len() - 1]), http::body_of(&text).as_bytes()),
                _ => (),
            }
            if log.len() < 5000 {
                log.push(short(&text));
            }
            let Ok(mut s) = http::connect(srv.port) else {
                srv.healthy().map_err(|e| ("died", e))?;
                return Err(("not_served", "no connection".into()));
            };
            http::send_all(&mut s, &bytes);
            if way == 5 {
                // gone before the answer
                if r.pct(50) {
                    http::reset_on_close(&s);
                }
                drop(s);
                rep.count("requests_abandoned", 1);
                continue;
            }
            let _ = s.shutdown(std::net::Shutdown::Write);
            let raw = match http::read_all(&mut s) {
                Got::Response(raw) => raw,
                _ => continue,
            };
            drop(s);
            rep.count("answers_searched", 1);
            let own = marks(&bytes);
            let reader = matches!(user, Some("admin" | "write" | "read")) && way != 4;
            for m in marks(&raw.payload) {
                rep.count("data_in_answers", 1);
                if own.contains(&m) {
                    continue;
                }
                let k = place.get(&m).cloned().unwrap_or_default();
                if raw.status != 200 || !reader || !named.contains(&k) {
                    return Err(("disclosed", format!("{} (user {:?}) was answered {} {}, with data of {}", short(&text), user, raw.status, short(&String::from_utf8_lossy(&raw.payload)), k)));
                }
            }
            if step % 40 == 39 {
                clock += 10_000_000_000;
                srv.set_clock(clock);
                std::thread::sleep(Duration::from_millis(60));
            }
        }
        // answers that cannot be delivered, because the client has gone
        let mut word = || {
            next += 1;
            let m = format!("Zx{:08}qW", next % 100_000_000);
            place.insert(m.clone(), "big".into());
            m
        };
        let parts: Vec<String> = (0..3000).map(|_| format!("\"{}{}\"", "p".repeat(900), word())).collect();
        want(&mut srv, "admin", &format!("set big str [{}]; set little \"{}\"", parts.join(","), word()), Ok(Resp::Message))?;
        for i in 0..6 {
            if let Ok(mut s) = http::connect(srv.port) {
                http::receive_buffer(&s, 4096);
                http::send_all(&mut s, &request(Some("read"), if i % 2 == 0 { "get big" } else { "try_get big" }));
                std::thread::sleep(Duration::from_millis(if i < 3 { 300 } else { 20 }));
                http::reset_on_close(&s);
                rep.count("answers_refused", 1);
            }
        }
        // or because it has been told that it took too long
        if kind == Kind::Multi {
            let mut n = 3000;
            for round in 0..4 {
                let slow = request(Some("write"), &"vget big 0;".repeat(n));
                let mut s = http::connect(srv.port).map_err(|e| ("not_served", e))?;
                http::send_all(&mut s, &slow);
                std::thread::sleep(Duration::from_millis(150));
                let waiting: Vec<_> = ["get little", "get big", "set little 1; vget little 0"]
                    .iter()
                    .map(|q| {
                        let (port, q) = (srv.port, q.to_string());
                        std::thread::spawn(move || ask(port, "write", &q))
                    })
                    .collect();
                let late = matches!(http::reply_of(http::read_all(&mut s)), Reply::TimedOut);
                for w in waiting {
                    let _ = w.join();
                }
                if late {
                    rep.count("answers_too_late", 1);
                } else if n < 100_000 {
                    n *= 3;
                }
                ask_again(srv.port, "admin", &format!("set little \"{}\"", word()));
                let _ = round;
            }
        }
        want(&mut srv, "admin", "set canary \"alive\"", Ok(Resp::Message))?;
        let _ = ask(srv.port, "admin", "shutdown");
        if srv.wait_exit(Duration::from_secs(60)).is_none() {
            return Err(("does_not_stop", "no exit after the shutdown".into()));
        }
        let output = srv.output();
        rep.count("bytes_of_output_searched", output.len() as u64);
        rep.count("pieces_of_data", place.len() as u64);
        if let Some(m) = marks(output.as_bytes()).iter().next() {
            let line = output.lines().find(|l| l.contains(m.as_str())).unwrap_or_default();
            return Err(("printed", format!("{} server: the data {} of {} was printed: {}", srv.kind.name(), m, place.get(m).cloned().unwrap_or_default(), short(line))));
        }
        rep.case(Some(hash_of(&log)));
        rep.sample(json!({"server": srv.kind.name(), "session": log.iter().take(8).collect::<Vec<_>>()}));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------- C21

/// The memory of replaced, deleted, refused and read data is used again
fn c21(ctx: &Ctx, rep: &mut Report) {
    each(ctx, rep, "churn", &KINDS, |ctx, kind, rep| {
        let mut srv = ctx.start(kind, &Opts::default())?;
        want(&mut srv, "admin", "set canary \"alive\"", Ok(Resp::Message))?;
        let size = 150_000;
        let big = "v".repeat(size);
        let other = "w".repeat(size);
        let parts: Vec<(&str, Box<dyn Fn(usize) -> String>)> = vec![
            ("replaced", Box::new(|i| format!("set a{} \"{}\"", i % 3, big))),
            ("deleted", Box::new(|i| format!("set b{} \"{}\" 100000; del b{}", i, big, i))),
            ("refused", Box::new(|i| format!("upd none{} \"{}\"", i, big))),
            ("not parsed", Box::new(|i| format!("set c{} \"{}\" get", i, big))),
            ("mistyped", Box::new(|_| format!("vpush canary \"{}\"", other))),
            ("entries", Box::new(|i| format!("try_set m str str {{}}; mset m \"e{}\" \"{}\"; mdel m \"e{}\"", i, big, i))),
            ("elements", Box::new(|_| format!("try_set v str []; vpush v \"{}\"; vpop v", other))),
            ("read", Box::new(|i| format!("get a{}", i % 3))),
        ];
        let mut base = 0.0;
        for round in 0..ctx.n(1, 8) + 1 {
            for (name, f) in &parts {
                // the first time round is for getting used to it
                let n = if round == 0 { 12 } else { 220 };
                for i in 0..n {
                    match ask(srv.port, "admin", &f(i + 1000 * round)) {
                        Reply::Answer(_) => rep.count("requests", 1),
                        Reply::TimedOut => rep.count("timeouts", 1),
                        other => {
                            srv.healthy().map_err(|e| ("died", e))?;
                            return Err(("wrong_answer", format!("{}: {}", name, short(&format!("{:?}", other)))));
                        }
                    }
                }
                if round > 0 {
                    rep.case(Some(hash_of(&(kind, name, round))));
                    let now = srv.memory();
                    if now > base + 16.0 {
                        return Err(("memory", format!("{} server: {:.0} MB after {} requests with {} kB each ({}), {:.0} MB before", kind.name(), now, n, size / 1000, name, base)));
                    }
                }
            }
            if round == 0 {
                base = srv.memory();
            }
        }
        srv.healthy().map_err(|e| ("died", e))?;
        rep.sample(json!({"server": kind.name(), "megabytes_at_first": base, "megabytes_in_the_end": srv.memory()}));
        want(&mut srv, "admin", "get canary", value("alive"))
    });
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        eprintln!("harness panic: {}", i);
        std::process::exit(3);
    }));
    let args = Args::parse();
    let check = args.str("check").to_string();
    let ctx = Ctx {
        env: Env { bin: PathBuf::from(args.str("bin")), shim: PathBuf::from(args.str("shim")), tmp: PathBuf::from(args.str("tmp")) },
        seed: args.num("seed", 1),
        check: check.clone(),
        thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
    };
    let (f, rule): (fn(&Ctx, &mut Report), &str) = match check.as_str() {
        "C03" => (c03, "sessions with lifetimes on the three servers and a shifted clock; non-trivial: distinct complete sessions"),
        "C22" => (c22, "requests of all users and of none, good, failing, malformed and abandoned, whose data are words of their own, looked for in all answers and in what the three servers print; non-trivial: distinct sessions"),
        "C21" => (c21, "requests with large values that are replaced, deleted, refused or read, sent to the three servers whose resident memory is watched; non-trivial: distinct parts"),
        "C18" => (c18, "statements sent to the three servers whose answers are decoded with the library's own types; non-trivial: distinct statements answered with success"),
        "C04" => (c04, "rounds of large entries that expire in the running multi-threaded server, its memory watched; non-trivial: rounds in which entries expired"),
        "C07" => (c07, "every statement kind by every user in several positions and random sessions against the three server processes; non-trivial: distinct requests and sessions"),
        "C09" => (c09, "concurrent histories recorded at clients of the server processes, checked for linearizability; non-trivial: distinct histories with overlapping requests"),
        "C10" => (c10, "concurrent requests with unique values, failing, slow and abandoned, against server processes with few file descriptors; non-trivial: distinct rounds"),
        "C11" => (c11, "valid requests in random layouts and segmentations; non-trivial: distinct byte strings (with their cuts) answered with their own value"),
        "C12" => (c12, "malformed inputs and endings, each followed by a probe and a look at the data, and arbitrary query texts; non-trivial: distinct inputs"),
        "C13" => (c13, "shutdowns in many forms and situations and requests that resemble one; non-trivial: distinct requests"),
        "C14" => (c14, "random sessions sent to the three servers and compared answer by answer; non-trivial: distinct complete sessions"),
        "C15" => (c15, "values of all types and sizes read back through raw responses, and a table of outcomes; non-trivial: distinct values and outcomes"),
        "C16" => (c16, "silent clients at several points of their request on the three servers; non-trivial: distinct combinations"),
        other => panic!("unknown check {}", other),
    };
    let mut rep = Report::new();
    f(&ctx, &mut rep);
    match args.get("out") {
        Some(out) => rep.write(out, rule),
        None => eprintln!("{} evaluations, {:#?}, {} violations", rep.evaluations, rep.counters, rep.violations.len()),
    }
    let _ = Barrier::new(1);
}
