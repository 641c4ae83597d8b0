//! Sequential monitors: the real tokenizer, parser, interpreter, storage and single threaded server run in this
//! process on a controlled clock, and every answer is compared with an executable specification.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use serde_json::json;
use server::analysis::{AnnotatedToken, Interpreter, InterpreterRequest, InterpreterResponse, Parser, Statement, Token, Tokenizer};
use server::error::ServerError;
use server::io::stream::{StreamHandler, StreamRequest, StreamSender};
use server::single_threaded::SingleThreadedServer;
use server::storage::hashmap_storage::HashMapStorage;
use server::storage::{Storage, StorageElement, StorageMap, StorageValue, StorageVector};
use vmon::gen::{self, Profile, Style};
use vmon::model::{answer_of, ek, op_of, to_statement, to_storage, val_of, Answer, Expect, Level, Model, Op, Resp, Ty, Val, EK, NS};
use vmon::report::{hash_of, Args, Report};
use vmon::rng::Rng;
use vmon::refparse;
use vmon::texts::{gen_text_op, mutate, soup_text, SOUP};

// ------------------------------------------------------------------------------------- clock

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

const BASE: i128 = 1_700_000_000 * NS;

thread_local! {
    static NOW: Cell<i128> = const { Cell::new(0) };
    /// What passes between two looks at the clock
    static TICK: Cell<i128> = const { Cell::new(0) };
}

/// Stands in for the C library's function: while a thread runs a history, its clocks stand at the time the
/// history says.
#[no_mangle]
pub extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
    let now = NOW.with(|n| n.get());
    // realtime, monotonic and boot time, with their coarse and raw variants
    if now != 0 && matches!(id, 0 | 1 | 4 | 5 | 6 | 7) {
        NOW.with(|n| n.set(now + TICK.with(|t| t.get())));
        let now = if matches!(id, 0 | 5) { now } else { now - BASE + 1000 * NS };
        unsafe {
            (*t).sec = (now / NS) as i64;
            (*t).nsec = (now % NS) as i64;
        }
        return 0;
    }
    unsafe { syscall(228, id as i64, t) as i32 }
}

fn set_now(t: i128) {
    NOW.with(|n| n.set(t));
}

fn real_clock(id: i32) -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { syscall(228, id as i64, &mut t as *mut Timespec) };
    t.sec as f64 + t.nsec as f64 / 1e9
}

/// CPU seconds used by this thread
fn cpu() -> f64 {
    real_clock(3)
}

// ------------------------------------------------------------------------------------- running

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn guarded<R>(g: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(g)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

struct Ctx {
    seed: u64,
    check: String,
    thorough: bool,
    /// what every thread is working on, for the watchdog
    current: Vec<Mutex<(f64, String)>>,
}

type CaseFn = fn(&Ctx, usize, u64, &mut Report);

fn run_cases(ctx: &Ctx, cases: std::ops::Range<u64>, f: CaseFn, threads: usize) -> Report {
    let next = AtomicU64::new(cases.start);
    let total = Mutex::new(Report::new());
    let bad = AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, total, bad, cases) = (&next, &total, &bad, &cases);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    let mut r = Report::new();
                    loop {
                        let case = next.fetch_add(1, Ordering::Relaxed);
                        if case >= cases.end || bad.load(Ordering::Relaxed) > 4 {
                            break;
                        }
                        let before = r.violations.len();
                        *ctx.current[t].lock().unwrap() = (real_clock(1), format!("case {}", case));
                        f(ctx, t, case, &mut r);
                        set_now(0);
                        ctx.current[t].lock().unwrap().0 = 0.0;
                        bad.fetch_add((r.violations.len() - before) as u64, Ordering::Relaxed);
                    }
                    total.lock().unwrap().merge(r);
                })
                .unwrap();
        }
    });
    total.into_inner().unwrap()
}

fn replay(ctx: &Ctx, case: u64, log: &[String]) -> serde_json::Value {
    let n = log.len();
    let from = n.saturating_sub(60);
    json!({
        "how": format!("seq --check {} --seed {} --case {}", ctx.check, ctx.seed, case),
        "history": &log[from..],
    })
}

fn short(s: &str) -> String {
    if s.chars().count() > 300 {
        let t: String = s.chars().take(300).collect();
        format!("{}... ({} bytes)", t, s.len())
    } else {
        s.to_string()
    }
}

fn parse_text(text: &str) -> Result<Vec<Statement>, ServerError> {
    let mut t = Tokenizer::new(text);
    let tokens = t.tokenize()?;
    Parser::new(tokens).parse()
}

type Real = Interpreter<HashMapStorage>;

fn new_real() -> Real {
    Interpreter::new(HashMapStorage::new())
}

fn run_statements(i: &mut Real, statements: Vec<Statement>, level: Level) -> Result<Answer, String> {
    let r = guarded(|| i.interpret(InterpreterRequest { statements, authorization: level.real() }))
        .map_err(|p| format!("panic: {}", p))?;
    answer_of(&r)
}

/// Run one request; as text if given
fn run_request(i: &mut Real, ops: &[Op], text: Option<&str>, level: Level) -> Result<Answer, String> {
    match text {
        None => run_statements(i, ops.iter().map(to_statement).collect(), level),
        Some(text) => {
            let st = guarded(|| parse_text(text)).map_err(|p| format!("panic while parsing: {}", p))?;
            match st {
                Err(e) => Ok(Err(ek(&e))),
                Ok(st) => run_statements(i, st, level),
            }
        }
    }
}

/// Compare everything a reader can see with the specification
fn read_back(i: &mut Real, m: &Model, keys: &BTreeSet<String>, now: i128, lifetimes: bool) -> Result<u64, String> {
    let mut n = 0;
    let mut copy = m.clone();
    for k in keys {
        let mut ops = vec![Op::TryGet(k.clone()), Op::Exists(k.clone()), Op::Type(k.clone())];
        if lifetimes {
            ops.push(Op::GetLifetime(k.clone()));
        }
        for op in ops {
            let want = copy.apply(&op, now);
            let got = run_request(i, &[op.clone()], None, Level::Admin)?;
            n += 1;
            if !want.allows(&got) {
                return Err(format!("read-back {:?}: expected {:?}, got {:?}", op, want, got));
            }
        }
    }
    Ok(n)
}

// ------------------------------------------------------------------------------------- histories

fn next_time(r: &mut Rng, m: &Model, now: i128, timed: bool) -> i128 {
    let mut t = now + 1000;
    if timed {
        t = match r.below(10) {
            0..=2 => now + 1000 + r.below(1_000_000) as i128,
            3 | 4 => now + r.range(1, 1500) as i128 * 1_000_000,
            5..=8 => {
                let exps: Vec<i128> = m.map.values().filter_map(|e| e.exp).filter(|x| *x > now && *x < now + (1 << 34) * NS).collect();
                if exps.is_empty() {
                    now + 1000
                } else {
                    let x = *r.pick(&exps);
                    let d = *r.pick(&[-NS - 1, -NS, -1_000_000, -1000, -1, 1, 1, 1000, 1_000_000, NS - 1, NS, NS + 1]);
                    x + d
                }
            }
            _ => now + r.range(1, 200) as i128 * NS,
        };
        if t <= now {
            t = now + 1000;
        }
    }
    // exactly at the instant of an expiry both answers are fine, so do not go there
    while m.ambiguous(t, 0) {
        t += 1;
    }
    t
}

struct HistoryKind {
    profile: Profile,
    /// percentage of requests with several statements
    multi_pct: usize,
    timed: bool,
    levels: bool,
    /// percentage sent as text
    text_pct: usize,
    shutdowns: bool,
    lifetimes_read: bool,
    passes: bool,
}

fn history_case(ctx: &Ctx, _t: usize, case: u64, rep: &mut Report, hk: &HistoryKind) {
    let mut r = Rng::for_case(ctx.seed, &ctx.check, case);
    let nkeys = if r.pct(4) { r.range(100, 400) } else { *r.pick(&[1usize, 2, 3, 4, 6, 10]) };
    let keys = gen::key_pool(&mut r, nkeys);
    let len = if nkeys > 50 {
        r.range(200, 500)
    } else if r.below(1000) < 2 {
        r.range(1500, 4000)
    } else {
        *r.pick(&[8usize, 20, 40, 80, 150])
    };
    // some histories contain very long requests
    let long_requests = hk.multi_pct > 50 && len <= 150 && r.pct(6);
    let mut now = BASE + r.below(1_000_000_000) as i128;
    let mut m = Model::new();
    let mut real = new_real();
    let mut log: Vec<String> = vec![];
    let mut shape: Vec<(usize, bool)> = vec![];
    let mut p = hk.profile.clone();
    if r.pct(15) {
        // now and then almost everything is well typed, or almost nothing
        p.well_typed_pct = *r.pick(&[98, 98, 35]);
    }
    let mut tracked: BTreeSet<String> = keys.iter().cloned().collect();
    // names never written, to see that nothing appears under them
    for k in ["never_written", "k", "x"] {
        tracked.insert(k.to_string());
    }
    for step in 0..len {
        now = next_time(&mut r, &m, now, hk.timed);
        set_now(now);
        let long = long_requests && r.pct(25);
        let n = if long {
            *r.pick(&[9usize, 16, 17, 31, 33, 64, 65, 100, 129, 200, 257, 300])
        } else if r.pct(hk.multi_pct) {
            *r.pick(&[0usize, 2, 2, 3, 3, 4, 5, 8])
        } else {
            1
        };
        let level = if hk.levels { gen::gen_level(&mut r) } else { Level::Admin };
        // a long request does nothing wrong, except perhaps in one place
        let wrong_at = if r.pct(50) { r.below(n + 1) } else { n };
        let mut ops: Vec<Op> = vec![];
        let mut sim = m.clone();
        for i in 0..n {
            if long && i != wrong_at {
                let mut op = Op::Null;
                for _ in 0..20 {
                    let o = gen::gen_op(&mut r, &p, &keys, &sim, now);
                    let o = if r.pct(10) { gen::textual(&mut r, o) } else { o };
                    if level.allows(&o) && o != Op::Expire && o.lifetime() != Some(0) && !sim.clone().apply(&o, now).failed() && gen::has_text(&o) {
                        op = o;
                        break;
                    }
                }
                if op == Op::Null {
                    op = Op::TryGet(keys[0].clone());
                }
                sim.apply(&op, now);
                ops.push(op);
                continue;
            }
            let mut op = if hk.shutdowns && r.pct(4) {
                Op::Shutdown
            } else if hk.levels && r.pct(40) {
                let kind = loop {
                    let k = r.below(23);
                    // whether reading users may ask for an expiry pass is not part of the property
                    if k != 20 {
                        break k;
                    }
                };
                let k = keys[r.below(keys.len())].clone();
                gen::op_of_kind(&mut r, kind, &k)
            } else {
                gen::gen_op(&mut r, &p, &keys, &sim, now)
            };
            if !hk.passes && op == Op::Expire {
                op = Op::Null;
            }
            if op.lifetime() == Some(0) && n > 1 {
                // would sit exactly on its expiry for the rest of the request
                op = Op::Get(keys[0].clone());
            }
            sim.apply(&op, now);
            ops.push(op);
        }
        if long {
            rep.count("long_requests", 1);
        }
        let text = if r.pct(hk.text_pct) {
            let mut o2 = vec![];
            for op in ops {
                o2.push(gen::textual(&mut r, op));
            }
            ops = o2;
            let st = if r.pct(30) { Style::Wild } else { Style::Plain };
            Some(gen::render(&mut r, &ops, st))
        } else {
            None
        };
        log.push(match &text {
            Some(t) => format!("t={}ns {:?}: {}", now - BASE, level, t),
            None => format!("t={}ns {:?}: {:?}", now - BASE, level, ops),
        });
        let live_before = m.live_count(now);
        let (want, ran) = m.apply_batch(&ops, level, now);
        rep.count("requests", 1);
        rep.count("statements_executed", ran as u64);
        rep.count(if want.failed() { "requests_expected_to_fail" } else { "requests_expected_to_succeed" }, 1);
        if ran < ops.len() {
            rep.count("requests_cut_short", 1);
        }
        let got = match run_request(&mut real, &ops, text.as_deref(), level) {
            Ok(a) => a,
            Err(e) => {
                let mut o = ops.last().map_or(99, |o| o.kind());
                if text.is_some() {
                    o += 100;
                }
                rep.violation(&format!("broke:{}", o), format!("{} on {}", e, short(log.last().unwrap())), replay(ctx, case, &log));
                return;
            }
        };
        for op in &ops[..ran] {
            shape.push((op.kind(), want.failed()));
        }
        if !want.allows(&got) {
            let k = ran.checked_sub(1).map_or("none".to_string(), |i| vmon::model::OP_KINDS[ops[i].kind()].to_string());
            rep.violation(
                &format!("answer:{}", k),
                format!("expected {:?}, got {:?} for {} (request {} of the history, {} live keys before it)", want, got, short(log.last().unwrap()), step, live_before),
                replay(ctx, case, &log),
            );
            return;
        }
        let last = step + 1 == len;
        let few = tracked.len() <= 20;
        if last || (few && (want.failed() || r.pct(50))) || (!few && r.pct(2)) {
            for k in m.map.keys() {
                tracked.insert(k.clone());
            }
            match read_back(&mut real, &m, &tracked, now, hk.lifetimes_read) {
                Ok(n) => rep.count("read_backs_compared", n),
                Err(e) => {
                    rep.violation("read_back", format!("{} after {}", e, short(log.last().unwrap())), replay(ctx, case, &log));
                    return;
                }
            }
        }
        if step % 16 == 0 && !hk.passes {
            // an unreclaimed expired entry can no longer be seen
            m.drop_expired(now);
        }
    }
    let interesting = shape.iter().any(|s| s.1) && shape.iter().filter(|s| matches!(s.0, 1 | 2 | 8 | 10 | 11 | 15)).count() >= 2;
    rep.case(if interesting { Some(hash_of(&log)) } else { None });
    if case % 97 == 3 {
        rep.sample(json!({"case": case, "keys": keys.iter().take(5).collect::<Vec<_>>(), "requests": log.iter().take(8).map(|s| short(s)).collect::<Vec<_>>()}));
    }
}

/// One key space of thousands of keys, filled, changed and emptied
fn wide_case(ctx: &Ctx, _t: usize, case: u64, rep: &mut Report, lifetimes: bool) {
    let mut r = Rng::for_case(ctx.seed, &ctx.check, case);
    let n = match case % 4 {
        0 => r.range(300, 1100),
        1 => r.range(1100, 5000),
        2 => r.range(5000, 20000),
        _ => r.range(20000, if ctx.thorough { 150000 } else { 70000 }),
    };
    let style = r.below(4);
    let keys: Vec<String> = (0..n)
        .map(|i| match style {
            0 => format!("key{}", i),
            1 => format!("k{}_{}", i % 97, i / 97),
            2 => format!("{}_{:08}", ["user", "é", "session"][i % 3], i),
            _ => format!("{}x{:x}", "p".repeat(i % 40 + 1), i),
        })
        .collect();
    let mut p = if lifetimes { Profile::time() } else { Profile::kv() };
    p.big = false;
    p.huge_lifetimes = false;
    p.coll_pct = 15;
    let mut now = BASE + r.below(1_000_000) as i128;
    let mut m = Model::new();
    let mut real = new_real();
    let mut log: Vec<String> = vec![];
    set_now(now);
    // the last key worked on mostly decides where the next one is taken from
    let mut filled = 0usize;
    let total = n + n / 2 + r.below(n);
    let every = total / 5 + 1;
    for step in 0..total {
        if step % 64 == 0 && lifetimes && m.map.len() < 4000 && r.pct(20) {
            now = next_time(&mut r, &m, now, true);
            set_now(now);
        }
        let op = if filled < n && (r.pct(75) || filled == 0) {
            let k = keys[filled].clone();
            filled += 1;
            let v = match r.below(4) {
                0 => Val::Int(step as i64),
                1 => Val::Str(format!("v{}", step)),
                2 => Val::Vec(Ty::Int, vec![Val::Int(step as i64), Val::Int(-1)]),
                _ => gen::gen_val(&mut r, false),
            };
            let l = if lifetimes { gen::gen_lifetime(&mut r, &p, now) } else { None };
            if r.pct(30) { Op::TrySet(k, v, l) } else { Op::Set(k, v, l) }
        } else {
            let at = r.below(filled);
            gen::gen_op(&mut r, &p, &keys[at..(at + 3).min(n)], &m, now)
        };
        if op.lifetime() == Some(0) || op == Op::Expire {
            continue;
        }
        let (op, text) = if r.pct(10) {
            let op = gen::textual(&mut r, op);
            let t = gen::render(&mut r, std::slice::from_ref(&op), Style::Plain);
            (op, Some(t))
        } else {
            (op, None)
        };
        log.push(format!("t={}ns {:?}", now - BASE, op));
        let want = m.apply(&op, now);
        rep.count("wide_statements", 1);
        match run_request(&mut real, std::slice::from_ref(&op), text.as_deref(), Level::Admin) {
            Ok(got) if want.allows(&got) => (),
            other => {
                rep.violation(
                    "wide_answer",
                    format!("expected {:?}, got {:?} for {} (statement {} over {} keys, {} filled)", want, other, short(log.last().unwrap()), step, n, filled),
                    replay(ctx, case, &log),
                );
                return;
            }
        }
        if step % every == every - 1 || step + 1 == total {
            if lifetimes {
                // let some of them run out
                now += r.range(1, 12) as i128 * NS + 12345;
                while m.ambiguous(now, 0) {
                    now += 1;
                }
                set_now(now);
                log.push(format!("t={}ns", now - BASE));
            }
            let tracked: BTreeSet<String> = keys.iter().cloned().collect();
            match read_back(&mut real, &m, &tracked, now, lifetimes) {
                Ok(x) => rep.count("wide_read_backs_compared", x),
                Err(e) => {
                    rep.violation("wide_read_back", format!("{} ({} keys) after {}", e, n, short(log.last().unwrap())), replay(ctx, case, &log));
                    return;
                }
            }
        }
    }
    // and all of them go again
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    for (i, at) in order.into_iter().enumerate() {
        let op = Op::Delete(keys[at].clone());
        let want = m.apply(&op, now);
        let got = run_request(&mut real, std::slice::from_ref(&op), None, Level::Admin);
        if !matches!(&got, Ok(g) if want.allows(g)) {
            log.push(format!("t={}ns {:?}", now - BASE, op));
            rep.violation("wide_answer", format!("expected {:?}, got {:?} for {:?} (deletion {} of {} keys)", want, got, op, i, n), replay(ctx, case, &log));
            return;
        }
    }
    rep.count("wide_keys", n as u64);
    rep.case(Some(hash_of(&log)));
    rep.sample(json!({"case": case, "keys_in_all": n, "requests": log.iter().take(5).map(|s| short(s)).collect::<Vec<_>>()}));
}

/// Collections of tens of thousands of elements
fn deep_case(ctx: &Ctx, _t: usize, case: u64, rep: &mut Report) {
    let mut r = Rng::for_case(ctx.seed, &ctx.check, case);
    let mut sizes = vec![1000usize, 4096, 10_000, 16_384, 32_768, 65_536, 100_000];
    if ctx.thorough {
        sizes.extend([131_072, 262_144, 300_000, 1_000_000]);
    }
    let n = if case < 16 { sizes[case as usize / 2 % sizes.len()] } else { *r.pick(&sizes) };
    // start a little below the size and cross it
    let start = n - r.range(1, 25);
    let now = BASE;
    set_now(now);
    let mut m = Model::new();
    let mut real = new_real();
    let mut log: Vec<String> = vec![];
    let vector = case % 2 == 0;
    let t = gen::gen_ty(&mut r);
    let kt = gen::gen_key_ty(&mut r);
    let mkey = |i: usize| match kt {
        Ty::Int => Val::Int(i as i64 * 3 - 1000),
        _ => Val::Str(format!("e{}", i)),
    };
    let elem = |r: &mut Rng, i: usize| match t {
        Ty::Int => Val::Int(i as i64),
        Ty::Str => Val::Str(format!("s{}", i)),
        _ => gen::gen_scalar(r, t, false),
    };
    let k = "deep".to_string();
    let whole = if vector {
        Val::Vec(t, (0..start).map(|i| elem(&mut r, i)).collect())
    } else {
        Val::Map(kt, t, (0..start).map(|i| (mkey(i), elem(&mut r, i))).collect())
    };
    let steps = 400;
    let mut next = start;
    for step in 0..steps {
        // how many of the elements there are now
        let len = match m.live(&k, now).map(|e| &e.val) {
            Some(Val::Vec(_, x)) => x.len(),
            Some(Val::Map(_, _, x)) => x.len(),
            _ => 0,
        };
        let near = |r: &mut Rng| match r.below(5) {
            0 => 0u64,
            1 => len as u64,
            2 => len as u64 - 1,
            3 => r.below(len) as u64,
            _ => (n as u64 + r.below(9) as u64).saturating_sub(4),
        };
        let op = if step == 0 {
            Op::Set(k.clone(), whole.clone(), None)
        } else if step % 100 == 0 || step + 1 == steps {
            Op::Get(k.clone())
        } else if vector {
            match r.below(16) {
                0..=8 => {
                    next += 1;
                    Op::VPush(k.clone(), elem(&mut r, next))
                }
                9 => Op::VPop(k.clone()),
                10 | 11 => {
                    next += 1;
                    Op::VSet(k.clone(), near(&mut r), elem(&mut r, next))
                }
                12 => Op::VPush(k.clone(), gen::gen_val(&mut r, false)),
                13 => Op::VLen(k.clone()),
                _ => Op::VGet(k.clone(), near(&mut r)),
            }
        } else {
            let some = |r: &mut Rng, next: usize| mkey(if r.pct(70) { r.below(next) } else { next + r.below(3) });
            match r.below(16) {
                0..=6 => {
                    next += 1;
                    Op::MSet(k.clone(), mkey(next), elem(&mut r, next))
                }
                7 => Op::MSet(k.clone(), some(&mut r, next), elem(&mut r, step)),
                8 | 9 => Op::MDel(k.clone(), some(&mut r, next)),
                10 => Op::MSet(k.clone(), gen::gen_map_key(&mut r, Ty::Int), gen::gen_val(&mut r, false)),
                11 => Op::MLen(k.clone()),
                12 => Op::MEx(k.clone(), some(&mut r, next)),
                _ => Op::MGet(k.clone(), some(&mut r, next)),
            }
        };
        if step > 0 {
            log.push(format!("{:?}", op));
        } else {
            log.push(format!("set a collection of {} elements", start));
        }
        let want = m.apply(&op, now);
        rep.count("deep_statements", 1);
        match run_request(&mut real, std::slice::from_ref(&op), None, Level::Admin) {
            Ok(got) if want.allows(&got) => (),
            other => {
                let (w, g) = (format!("{:?}", want), format!("{:?}", other));
                let at = w.bytes().zip(g.bytes()).take_while(|(a, b)| a == b).count().saturating_sub(30);
                let cut = |s: &str| s.chars().skip(at).take(200).collect::<String>();
                rep.violation(
                    "deep_answer",
                    format!("expected ...{}, got ...{} for {} (statement {} on a collection of {} elements)", cut(&w), cut(&g), short(log.last().unwrap()), step, len),
                    replay(ctx, case, &log),
                );
                return;
            }
        }
    }
    rep.count("deep_elements", n as u64);
    rep.case(Some(hash_of(&log)));
}

/// Values, names, collections, requests and lifetimes of all the sizes at which something might change
fn sized_case(ctx: &Ctx, which: u64, case: u64, rep: &mut Report) {
    let sizes = |dense, max| vmon::rng::telling_sizes(dense, max);
    let text = |n: usize| -> String { "xy z\"é".chars().cycle().take(n).collect() };
    let name = |n: usize| -> String { "abcdefg_".chars().cycle().take(n).collect() };
    // one after another, each on its own: what is sent, and how much later
    let mut script: Vec<Vec<(i128, Vec<Op>)>> = vec![];
    let one = |ops: Vec<Op>| -> Vec<(i128, Vec<Op>)> { ops.into_iter().map(|o| (0, vec![o])).collect() };
    match (ctx.check.as_str(), which) {
        ("C01", 0) => {
            for n in sizes(1500, 300_000) {
                let v = Val::Str(text(n));
                script.push(one(vec![
                    Op::TrySet("a".into(), v.clone(), None),
                    Op::Get("a".into()),
                    Op::Update("a".into(), Val::Str(text(n / 2)), None),
                    Op::Get("a".into()),
                    Op::Set("a".into(), v.clone(), None),
                    Op::TrySet("a".into(), Val::Bool(true), None),
                    Op::TryGet("a".into()),
                    Op::Type("a".into()),
                    Op::Delete("a".into()),
                    Op::TryGet("a".into()),
                ]));
            }
        }
        ("C01", 1) => {
            for n in sizes(1500, 300_000) {
                if n == 0 {
                    continue;
                }
                let (k, l) = (name(n), format!("{}y", name(n - 1)));
                script.push(one(vec![
                    Op::Set(k.clone(), Val::Int(n as i64), None),
                    Op::TrySet(l.clone(), Val::Int(-1), None),
                    Op::Get(k.clone()),
                    Op::Get(l.clone()),
                    Op::Update(k.clone(), Val::Int(7), None),
                    Op::Exists(k.clone()),
                    Op::TryGet(k.clone()),
                    Op::Delete(k.clone()),
                    Op::Exists(k.clone()),
                    Op::Get(l.clone()),
                    Op::Delete(l.clone()),
                ]));
            }
        }
        ("C01", _) => {
            let ints = (0..63).flat_map(|k| [-1i64, 0, 1].into_iter().map(move |d| (1i64 << k) + d)).chain((0..18).flat_map(|k| [-1i64, 0, 1].into_iter().map(move |d| 10i64.pow(k) + d)));
            for n in ints.flat_map(|n| [n, -n, n.wrapping_mul(3)]).chain([i64::MAX, i64::MIN]) {
                script.push(one(vec![Op::Set("a".into(), Val::Int(n), None), Op::Get("a".into()), Op::Update("a".into(), Val::Float((n as f32).to_bits()), None), Op::TryGet("a".into())]));
            }
        }
        ("C02", 0) => {
            for n in sizes(400, 20_000) {
                let v = Val::Vec(Ty::Int, (0..n as i64).map(|i| Val::Int(i * 3)).collect());
                let n = n as u64;
                let k = || "a".to_string();
                script.push(one(vec![
                    Op::Set(k(), v, None),
                    Op::VLen(k()),
                    Op::VGet(k(), n),
                    Op::VGet(k(), n.saturating_sub(1)),
                    Op::VGet(k(), n / 2),
                    Op::VSet(k(), n, Val::Int(5)),
                    Op::VSet(k(), n.saturating_sub(1), Val::Int(-8)),
                    Op::VSet(k(), n / 2, Val::Int(-9)),
                    Op::VPush(k(), Val::Int(77)),
                    Op::VPush(k(), Val::Bool(true)),
                    Op::VLen(k()),
                    Op::Get(k()),
                    Op::VPop(k()),
                    Op::VPop(k()),
                    Op::Get(k()),
                ]));
            }
        }
        ("C02", _) => {
            for n in sizes(400, 20_000) {
                let ty = if which == 1 { Ty::Int } else { Ty::Str };
                let key = |i: u64| if which == 1 { Val::Int(i as i64 * 1000) } else { Val::Str(format!("e{}", i)) };
                let v = Val::Map(ty, Ty::Int, (0..n as u64).map(|i| (key(i), Val::Int(i as i64))).collect());
                let n = n as u64;
                let k = || "a".to_string();
                script.push(one(vec![
                    Op::Set(k(), v, None),
                    Op::MLen(k()),
                    Op::MGet(k(), key(n)),
                    Op::MGet(k(), key(n / 2)),
                    Op::MEx(k(), key(0)),
                    Op::MSet(k(), key(n), Val::Int(-5)),
                    Op::MSet(k(), key(n / 2), Val::Int(-6)),
                    Op::MSet(k(), key(n + 1), Val::Bool(true)),
                    Op::MLen(k()),
                    Op::Get(k()),
                    Op::MDel(k(), key(n / 3)),
                    Op::MDel(k(), key(n + 2)),
                    Op::MEx(k(), key(n)),
                    Op::Get(k()),
                ]));
            }
        }
        ("C03", _) => {
            let lifetimes = sizes(300, 100_000).into_iter().map(|n| n as u64).chain((17..63).flat_map(|k| [-1i64, 0, 1].into_iter().map(move |d| ((1i64 << k) + d) as u64))).filter(|l| *l > 0);
            for l in lifetimes {
                let s = l as i128 * NS;
                let k = || "a".to_string();
                let reads = || vec![Op::GetLifetime(k()), Op::Exists(k()), Op::VLen(k()), Op::TryGet(k())];
                let mut steps: Vec<(i128, Vec<Op>)> = vec![];
                let v = Val::Vec(Ty::Int, vec![Val::Int(4)]);
                let first = match which {
                    0 => vec![Op::Set(k(), v, Some(l))],
                    1 => vec![Op::Delete(k()), Op::TrySet(k(), v, Some(l))],
                    2 => vec![Op::Set(k(), Val::Bool(true), Some(99)), Op::Update(k(), v, Some(l))],
                    _ => vec![Op::Set(k(), v, if l % 2 == 0 { None } else { Some(l / 2 + 3) }), Op::SetLifetime(k(), Some(l))],
                };
                steps.extend(first.into_iter().map(|o| (0, vec![o])));
                steps.extend(reads().into_iter().map(|o| (0, vec![o])));
                steps.push((s / 2, vec![Op::GetLifetime(k())]));
                steps.push((0, vec![Op::VPush(k(), Val::Int(1))]));
                steps.push((s - s / 2 - 1, vec![Op::Exists(k())]));
                steps.extend(reads().into_iter().map(|o| (0, vec![o])));
                steps.push((2, vec![Op::Exists(k())]));
                steps.extend(reads().into_iter().map(|o| (0, vec![o])));
                steps.push((0, vec![if which % 2 == 0 { Op::Delete(k()) } else { Op::Update(k(), Val::Int(1), None) }]));
                script.push(steps);
            }
        }
        _ => {
            // requests of n statements: all fine, or with the last or the middle one failing
            for n in sizes(300, 3000) {
                for bad in [n, n.saturating_sub(1), n / 2] {
                    let mut ops: Vec<Op> = (0..n).map(|i| Op::VPush("a".into(), Val::Int(i as i64))).collect();
                    if bad < n {
                        ops[bad] = if n % 2 == 0 { Op::Get("nothing".into()) } else { Op::VPush("a".into(), Val::Bool(true)) };
                    } else if n > 0 {
                        ops[n - 1] = Op::VLen("a".into());
                    }
                    script.push(vec![(0, vec![Op::Set("a".into(), Val::Vec(Ty::Int, vec![]), None)]), (0, ops), (0, vec![Op::Get("a".into())])]);
                }
            }
        }
    }
    let mut real = new_real();
    let mut done = 0u64;
    for steps in &script {
        let mut m = Model::new();
        let mut now = BASE;
        set_now(now);
        // what was left there by the one before
        if let Some(k) = steps[0].1[0].key() {
            let _ = run_request(&mut real, &[Op::Delete(k.to_string())], None, Level::Admin);
        }
        let mut log: Vec<String> = vec![];
        for (later, ops) in steps {
            now += later;
            set_now(now);
            log.push(format!("t={}ns {}", now - BASE, short(&format!("{:?}", ops))));
            let want = m.apply_batch(ops, Level::Admin, now).0;
            match run_request(&mut real, ops, None, Level::Admin) {
                Ok(got) if want.allows(&got) => done += 1,
                other => {
                    return rep.violation("sized_answer", format!("expected {}, got {} for {}", short(&format!("{:?}", want)), short(&format!("{:?}", other)), log.join(" | ").chars().take(1500).collect::<String>()), replay(ctx, case, &log));
                }
            }
        }
    }
    rep.count("sized_requests", done);
    rep.case(Some(hash_of(&(which, ctx.check.clone()))));
}

fn c01(ctx: &Ctx, t: usize, case: u64, rep: &mut Report) {
    if (16..19).contains(&case) {
        return sized_case(ctx, case - 16, case, rep);
    }
    if case < 16 || case % 5000 == 21 {
        return wide_case(ctx, t, case, rep, false);
    }
    let hk = HistoryKind { profile: Profile::kv(), multi_pct: 5, timed: false, levels: false, text_pct: 60, shutdowns: false, lifetimes_read: false, passes: false };
    history_case(ctx, t, case, rep, &hk)
}
fn c02(ctx: &Ctx, t: usize, case: u64, rep: &mut Report) {
    if (14..17).contains(&case) {
        return sized_case(ctx, case - 14, case, rep);
    }
    if case < 14 || case % 5000 < 2 {
        return deep_case(ctx, t, case, rep);
    }
    let hk = HistoryKind { profile: Profile::coll(), multi_pct: 5, timed: false, levels: false, text_pct: 60, shutdowns: false, lifetimes_read: false, passes: false };
    history_case(ctx, t, case, rep, &hk)
}
/// The clock moves on between any two looks a statement takes at it, past the end of a lifetime: the statement still has
/// to act as it would at one instant
fn ticking_case(ctx: &Ctx, _t: usize, case: u64, rep: &mut Report) {
    let mut r = Rng::for_case(ctx.seed, &ctx.check, case);
    let mut now = BASE + r.below(1_000_000_000) as i128;
    set_now(now);
    let mut p = Profile::time();
    p.big = false;
    p.huge_lifetimes = false;
    p.w = [18, 14, 14, 14, 10, 12, 12, 5, 16, 6];
    let keys: Vec<String> = (0..r.range(1, 4)).map(|i| format!("k{}", i)).collect();
    let tracked: BTreeSet<String> = keys.iter().cloned().collect();
    let mut m = Model::new();
    let mut real = new_real();
    let mut log: Vec<String> = vec![];
    let mut crossed = 0u64;
    for _ in 0..r.range(60, 250) {
        let mut pool = keys.clone();
        let tick = *r.pick(&[1i128, 2, 999, 1_000_000, 7_000_000]);
        let ends: Vec<(String, i128)> = m.map.iter().filter_map(|(k, e)| e.exp.map(|x| (k.clone(), x))).filter(|(_, x)| *x > now && *x < now + 100_000 * NS).collect();
        let mut close = None;
        if !ends.is_empty() && r.pct(75) {
            let (k, x) = r.pick(&ends).clone();
            let t = x - r.below(5) as i128 * tick - r.below(2) as i128 * (tick / 2);
            if t > now {
                now = t;
                close = Some(x);
                if r.pct(85) {
                    pool = vec![k];
                }
            }
        }
        let op = gen::gen_op(&mut r, &p, &pool, &m, now);
        set_now(now);
        TICK.with(|t| t.set(tick));
        let got = run_statements(&mut real, vec![to_statement(&op)], Level::Admin);
        TICK.with(|t| t.set(0));
        let end = NOW.with(|n| n.get());
        log.push(format!("t={}ns to {}ns {}", now - BASE, end - BASE, short(&format!("{:?}", op))));
        if close.map_or(false, |x| x <= end) && end > now {
            crossed += 1;
        }
        let got = match got {
            Ok(g) => g,
            Err(e) => return rep.violation("ticking_broke", format!("{} for {}", e, log.last().unwrap()), replay(ctx, case, &log)),
        };
        // all looks are over
        let after = end + 1001;
        set_now(after);
        let exp = match op.key().map(|k| guarded(|| real.storage.get_if_exists(k).map(|e| e.map(|e| e.expiration)))) {
            Some(Ok(Ok(Some(x)))) => x.map(|x| x.duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_nanos() as i128)),
            _ => None,
        };
        let looks = ((end - now) / tick.max(1)).min(40);
        let mut next: Option<Model> = None;
        let mut first = String::new();
        for i in 0..=looks * 2 + 1 {
            let t = now + i / 2 * tick + i % 2;
            let mut c = m.clone();
            let want = c.apply(&op, t);
            if !(want.allows(&got) || (want.failed() && got.is_err())) {
                if first.is_empty() {
                    first = format!("{:?}", want);
                }
                continue;
            }
            // a new deadline may have been computed at another look
            if let (Some(e), Some(x), Some(l)) = (op.key().and_then(|k| c.map.get_mut(k)), exp, op.lifetime()) {
                let l = l as i128 * NS;
                if e.exp == Some(t + l) && x >= now + l && x <= end + l {
                    e.exp = Some(x);
                }
            }
            match read_back(&mut real, &c, &tracked, after, true) {
                Ok(_) => {
                    next = Some(c);
                    break;
                }
                Err(e) => first = e,
            }
        }
        rep.count("ticking_statements", 1);
        match next {
            Some(c) => m = c,
            None => return rep.violation("ticking", format!("{} gave {:?}, which fits no instant: {}", log.last().unwrap(), got, short(&first)), replay(ctx, case, &log)),
        }
        now = after;
        while m.ambiguous(now, 0) {
            now += 1;
        }
    }
    rep.count("ends_crossed_within_a_statement", crossed);
    rep.case(if crossed > 2 { Some(hash_of(&log)) } else { None });
}

fn c03(ctx: &Ctx, t: usize, case: u64, rep: &mut Report) {
    if case % 12 == 5 && case > 20 {
        return ticking_case(ctx, t, case, rep);
    }
    if (16..20).contains(&case) {
        return sized_case(ctx, case - 16, case, rep);
    }
    if case < 16 || case % 5000 == 21 {
        return wide_case(ctx, t, case, rep, true);
    }
    let hk = HistoryKind { profile: Profile::time(), multi_pct: 5, timed: true, levels: false, text_pct: 25, shutdowns: false, lifetimes_read: true, passes: true };
    history_case(ctx, t, case, rep, &hk)
}
/// One request of thousands of statements, right to the end or to a failure somewhere in it
fn huge_batch_case(ctx: &Ctx, _t: usize, case: u64, rep: &mut Report) {
    let mut r = Rng::for_case(ctx.seed, &ctx.check, case);
    let now = BASE;
    set_now(now);
    let mut m = Model::new();
    let mut real = new_real();
    let nk = r.range(3, 30);
    let keys: Vec<String> = (0..nk).map(|i| format!("k{}", i)).collect();
    let sizes: &[usize] = if ctx.thorough { &[1000, 1024, 4096, 10_000, 65_536, 100_000, 300_000] } else { &[600, 1000, 1024, 2048, 4096, 10_000, 20_000, 65_536] };
    let mut log: Vec<String> = vec![];
    for round in 0..3 {
        let n = *r.pick(sizes) + r.below(3);
        let bad_at = match r.below(3) {
            0 => r.below(n),
            1 => n - 1 - r.below(3),
            _ => n,
        };
        let mut ops = vec![Op::Set("list".into(), Val::Vec(Ty::Int, vec![]), None), Op::Set("dict".into(), Val::Map(Ty::Int, Ty::Int, Default::default()), None)];
        while ops.len() < n {
            let i = ops.len();
            let k = keys[r.below(nk)].clone();
            ops.push(if i == bad_at {
                match r.below(4) {
                    0 => Op::Get("no_such_key".into()),
                    1 => Op::VPush("list".into(), Val::Bool(true)),
                    2 => Op::Shutdown,
                    _ => Op::VGet("list".into(), 1 << 40),
                }
            } else {
                match r.below(8) {
                    0..=3 => Op::VPush("list".into(), Val::Int(i as i64)),
                    4 => Op::MSet("dict".into(), Val::Int(i as i64 % 997), Val::Int(i as i64)),
                    5 => Op::Set(k, Val::Int(i as i64), None),
                    6 => Op::TrySet(k, Val::Int(i as i64), None),
                    _ => Op::VLen("list".into()),
                }
            });
        }
        let text = if n <= 20_100 && r.pct(50) { Some(gen::render(&mut r, &ops, Style::Plain)) } else { None };
        log.push(format!("request of {} statements, the wrong one at {}: {:?}", n, bad_at, ops.get(bad_at)));
        let (want, ran) = m.apply_batch(&ops, Level::Admin, now);
        rep.count("huge_requests", 1);
        rep.count("huge_statements", ran as u64);
        match run_request(&mut real, &ops, text.as_deref(), Level::Admin) {
            Ok(got) if want.allows(&got) => (),
            other => {
                rep.violation("huge_answer", format!("expected {:?}, got {:?} for a {}", want, other, short(log.last().unwrap())), replay(ctx, case, &log));
                return;
            }
        }
        let mut tracked: BTreeSet<String> = keys.iter().cloned().collect();
        tracked.extend(["list".to_string(), "dict".to_string(), "no_such_key".to_string()]);
        if let Err(e) = read_back(&mut real, &m, &tracked, now, false) {
            rep.violation("huge_read_back", format!("{} after round {}: {}", short(&e), round, short(log.last().unwrap())), replay(ctx, case, &log));
            return;
        }
    }
    rep.case(Some(hash_of(&log)));
}

fn c08(ctx: &Ctx, t: usize, case: u64, rep: &mut Report) {
    if case == 16 {
        return sized_case(ctx, 0, case, rep);
    }
    if case < 16 || case % 2500 == 21 {
        return huge_batch_case(ctx, t, case, rep);
    }
    let hk = HistoryKind { profile: Profile::batch(), multi_pct: 85, timed: false, levels: false, text_pct: 70, shutdowns: true, lifetimes_read: false, passes: false };
    history_case(ctx, t, case, rep, &hk)
}
fn c07(ctx: &Ctx, t: usize, case: u64, rep: &mut Report) {
    if case % 3 == 0 {
        return server_case(ctx, case, rep, true);
    }
    let mut profile = Profile::batch();
    profile.w[8] = 8;
    let hk = HistoryKind { profile, multi_pct: 70, timed: false, levels: true, text_pct: 50, shutdowns: true, lifetimes_read: true, passes: false };
    history_case(ctx, t, case, rep, &hk)
}

// ------------------------------------------------------------------------------------- expiry passes

/// Expired entries among many live ones with a lifetime, wherever they stand
fn shaded_case(ctx: &Ctx, case: u64, rep: &mut Report) {
    let mut r = Rng::for_case(ctx.seed, &ctx.check, case);
    let which = (case % 8) as usize;
    let live = [20, 130, 300, 1000, 5000, 70_000, 70_000, 33_000][which] + r.below(20);
    let dead = (live / [1, 7, 100][r.below(3)]).max(1);
    let mut real = new_real();
    let mut now = BASE;
    set_now(now);
    // the order in which they are written
    let order = if which == 5 { 2 } else { r.below(4) };
    let at = r.below(live);
    let mut names: Vec<(String, u64)> = vec![];
    for i in 0..live {
        if order < 3 && i == [0, at, live - 1][order] {
            names.extend((0..dead).map(|i| (format!("dead{}", i), 5u64)));
        }
        names.push((format!("live{}", i), 1_000_000));
    }
    if order == 3 {
        names.extend((0..dead).map(|i| (format!("dead{}", i), 5u64)));
        for i in (1..names.len()).rev() {
            let j = r.below(i + 1);
            names.swap(i, j);
        }
    }
    let what = format!("{} live and {} expired entries, all with a lifetime, order {}", live, dead, order);
    let log = vec![what.clone()];
    for (k, l) in &names {
        match run_request(&mut real, &[Op::Set(k.clone(), Val::Int(1), Some(*l))], None, Level::Admin) {
            Ok(Ok(Resp::Message)) => (),
            other => return rep.violation("shaded_set", format!("set gave {:?} with {}", other, what), replay(ctx, case, &log)),
        }
    }
    now += 10 * NS;
    set_now(now);
    let total = live + dead;
    // all of them if that is possible, or at least one: in both cases the chance to miss is below e^-60
    let (goal, bound) = if total <= 3000 { (0, (total as f64 * (60.0 + (total as f64).ln())) as usize) } else { (dead - 1, (70 * total / dead).max(total)) };
    let mut left = dead;
    let mut used = 0;
    while left > goal && used < bound {
        used += 1;
        match run_request(&mut real, &[Op::Expire], None, Level::Admin) {
            Ok(Ok(Resp::Size(n))) if n as usize <= left => left -= n as usize,
            other => return rep.violation("shaded_pass", format!("a pass gave {:?} with {} expired entries left of {}", other, left, what), replay(ctx, case, &log)),
        }
    }
    rep.count("shaded_passes", used as u64);
    rep.count("shaded_entries", total as u64);
    if left > goal {
        return rep.violation("shaded_not_reclaimed", format!("{} expired entries are left after {} passes: {}", left, used, what), replay(ctx, case, &log));
    }
    let counts = (guarded(|| real.storage.len()), guarded(|| real.storage.expiring_keys_count()));
    match counts {
        (Ok(Ok(a)), Ok(Ok(b))) if a == live + left && b == live + left => (),
        other => return rep.violation("shaded_counts", format!("len and expiring_keys_count are {:?} with {} entries left: {}", other, live + left, what), replay(ctx, case, &log)),
    }
    for i in 0..live {
        match run_request(&mut real, &[Op::Exists(format!("live{}", i))], None, Level::Read) {
            Ok(Ok(Resp::Bool(true))) => (),
            other => return rep.violation("shaded_live", format!("ex of a live entry gave {:?}: {}", other, what), replay(ctx, case, &log)),
        }
    }
    rep.case(Some(hash_of(&(case, what))));
}

fn c04(ctx: &Ctx, _t: usize, case: u64, rep: &mut Report) {
    if (8..16).contains(&case) || case % 4000 == 33 {
        return shaded_case(ctx, case, rep);
    }
    let mut r = Rng::for_case(ctx.seed, &ctx.check, case);
    let wide = case < 8;
    let nkeys = if wide { [600, 1100, 2500, 5000][case as usize % 4] + r.below(100) } else if r.pct(6) { r.range(50, 300) } else { *r.pick(&[1usize, 2, 3, 5, 8, 16]) };
    let keys = gen::key_pool(&mut r, nkeys);
    let len = if wide { nkeys * 2 } else if nkeys > 40 { 600 } else { *r.pick(&[20usize, 60, 120]) };
    let mut now = BASE;
    let mut m = Model::new();
    let mut real = new_real();
    let mut log: Vec<String> = vec![];
    let mut p = Profile::purge();
    match r.below(4) {
        0 => p.w[9] = 60,
        1 => p.lifetime_pct = 95,
        2 => p.lifetime_pct = 30,
        _ => (),
    }
    let tracked: BTreeSet<String> = keys.iter().cloned().collect();
    // upper bound on expired entries not yet reclaimed
    let mut passes = 0u64;
    let mut removed_total = 0u64;
    let fail = |rep: &mut Report, sig: &str, d: String, log: &[String]| {
        rep.violation(sig, d, replay(ctx, case, log));
    };
    macro_rules! counts {
        () => {{
            let len = match guarded(|| real.storage.len()) {
                Ok(Ok(n)) => n as i64,
                other => return fail(rep, "len", format!("len: {:?}", other), &log),
            };
            let exp = match guarded(|| real.storage.expiring_keys_count()) {
                Ok(Ok(n)) => n as i64,
                other => return fail(rep, "expiring_keys_count", format!("expiring_keys_count: {:?}", other), &log),
            };
            (len, exp)
        }};
    }
    macro_rules! check_counts {
        () => {{
            let (len, exp) = counts!();
            let dead = len - m.live_count(now) as i64;
            let dead2 = exp - m.live_expiring_count(now) as i64;
            rep.count("count_checks", 1);
            if dead < 0 || dead != dead2 || dead > m.expired_count(now) as i64 {
                return fail(
                    rep,
                    "counts",
                    format!(
                        "storage reports {} entries and {} with a lifetime; {} entries are live, {} of them with a lifetime, and at most {} expired ones may still be there; after {}",
                        len, exp, m.live_count(now), m.live_expiring_count(now), m.expired_count(now), short(log.last().map_or("", |s| s))
                    ),
                    &log,
                );
            }
            if dead == 0 {
                m.drop_expired(now);
            }
            dead
        }};
    }
    macro_rules! pass {
        () => {{
            passes += 1;
            let (before, _) = counts!();
            let dead = before - m.live_count(now) as i64;
            let got = match run_request(&mut real, &[Op::Expire], None, Level::Admin) {
                Ok(a) => a,
                Err(e) => return fail(rep, "pass_broke", e, &log),
            };
            let n = match got {
                Ok(Resp::Size(n)) => n as i64,
                other => return fail(rep, "pass_failed", format!("an expiry pass answered {:?} (after {})", other, short(log.last().map_or("", |s| s))), &log),
            };
            let (after, _) = counts!();
            if n > dead || before - after != n {
                return fail(rep, "pass_result", format!("a pass reported {} removed entries, the storage went from {} to {} entries and {} were expired", n, before, after, dead), &log);
            }
            removed_total += n as u64;
            check_counts!()
        }};
    }
    for step in 0..len {
        now = next_time(&mut r, &m, now, true);
        set_now(now);
        let op = gen::gen_op(&mut r, &p, &keys, &m, now);
        if op == Op::Expire {
            let k = *r.pick(&[1usize, 1, 2, 5, 20]);
            log.push(format!("t={}ns {} expiry passes", now - BASE, k));
            for _ in 0..k {
                pass!();
            }
        } else {
            log.push(format!("t={}ns {:?}", now - BASE, op));
            let want = m.apply(&op, now);
            rep.count("statements", 1);
            match run_request(&mut real, &[op.clone()], None, Level::Admin) {
                Ok(got) if want.allows(&got) => (),
                Ok(got) => return fail(rep, "answer", format!("expected {:?}, got {:?} for {:?}", want, got, op), &log),
                Err(e) => return fail(rep, "broke", format!("{} on {:?}", e, op), &log),
            }
            check_counts!();
        }
        if nkeys <= 16 || (step % if wide { 1500 } else { 50 }) == 0 {
            match read_back(&mut real, &m, &tracked, now, true) {
                Ok(n) => rep.count("read_backs_compared", n),
                Err(e) => return fail(rep, "read_back", e, &log),
            }
        }
    }
    // Everything expired has to go in the end
    now += r.below(100) as i128 * NS;
    while m.ambiguous(now, 0) {
        now += 1;
    }
    set_now(now);
    let (_, exp) = counts!();
    let exp = exp.max(1) as f64;
    let bound = (exp * (60.0 + exp.ln())) as u64 + 50;
    let mut used = 0;
    log.push(format!("t={}ns up to {} expiry passes", now - BASE, bound));
    loop {
        let dead = pass!();
        used += 1;
        if dead == 0 {
            break;
        }
        if used > bound {
            return fail(rep, "not_reclaimed", format!("{} expired entries are left after {} passes over {} entries with a lifetime", dead, used, exp), &log);
        }
    }
    match read_back(&mut real, &m, &tracked, now, true) {
        Ok(n) => rep.count("read_backs_compared", n),
        Err(e) => return fail(rep, "read_back", e, &log),
    }
    // and it all ends empty
    for k in &tracked {
        let want = m.apply(&Op::Delete(k.clone()), now);
        match run_request(&mut real, &[Op::Delete(k.clone())], None, Level::Admin) {
            Ok(got) if want.allows(&got) => (),
            other => return fail(rep, "answer", format!("expected {:?}, got {:?} for deleting {:?}", want, other, k), &log),
        }
    }
    let (l, e) = counts!();
    if (l, e) != (0, 0) {
        return fail(rep, "counts", format!("{} entries, {} with a lifetime left after deleting everything", l, e), &log);
    }
    rep.count("passes", passes);
    rep.count("entries_reclaimed_by_passes", removed_total);
    rep.case(if removed_total > 0 { Some(hash_of(&log)) } else { None });
    if case % 97 == 3 {
        rep.sample(json!({"case": case, "passes": passes, "reclaimed": removed_total, "history": log.iter().take(8).map(|s| short(s)).collect::<Vec<_>>()}));
    }
}

// ------------------------------------------------------------------------------------- parsing

/// Texts of all the sizes at which something might change
fn sized_texts(which: u64) -> Vec<Vec<Op>> {
    let sizes = |max| vmon::rng::telling_sizes(700, max);
    match which {
        0 => sizes(300_000).into_iter().map(|n| vec![Op::Set("k".into(), Val::Str("ab\"é".chars().cycle().take(n).collect()), None)]).collect(),
        1 => sizes(300_000).into_iter().filter(|n| *n > 0).map(|n| vec![Op::Get("k_".chars().cycle().take(n).collect())]).collect(),
        2 => sizes(20_000).into_iter().map(|n| vec![Op::Set("k".into(), Val::Vec(Ty::Int, (0..n as i64).map(Val::Int).collect()), Some(9))]).collect(),
        3 => sizes(10_000).into_iter().map(|n| (0..n).map(|i| Op::VGet("k".into(), i as u64)).collect()).collect(),
        4 => sizes(10_000).into_iter().map(|n| vec![Op::Set("k".into(), Val::Map(Ty::Str, Ty::Int, (0..n).map(|i| (Val::Str(i.to_string()), Val::Int(i as i64))).collect()), None)]).collect(),
        _ => (0..63)
            .flat_map(|k| [-1i64, 0, 1].into_iter().map(move |d| (1i64 << k).wrapping_add(d)))
            .chain((0..18).flat_map(|k| [-1i64, 0, 1].into_iter().map(move |d| 10i64.pow(k) + d)))
            .flat_map(|n| [vec![Op::Set("k".into(), Val::Int(n), Some(n as u64))], vec![Op::Set("k".into(), Val::Int(-n), None), Op::VGet("k".into(), n as u64)]])
            .filter(|ops| ops.iter().all(|o| o.lifetime().map_or(true, |l| l <= i64::MAX as u64)))
            .collect(),
    }
}

/// Statements whose text has more than a million tokens or characters
fn immense_ops(r: &mut Rng, which: u64) -> Vec<Op> {
    let some = r.below(1000);
    match which {
        0 => vec![Op::Set("k".into(), Val::Vec(Ty::Int, (0..530_000 + some as i64).map(Val::Int).collect()), None)],
        1 => (0..350_100 + some).map(|i| Op::VGet(format!("k{}", i % 7), i as u64)).collect(),
        2 => vec![Op::Set("k".into(), Val::Str("0123456789 abcdé;\n".repeat(70_000 + some)), Some(7))],
        3 => vec![Op::Get("abcdefgh_ij".repeat(100_000 + some)), Op::Exists("k".into())],
        4 => vec![Op::Set("k".into(), Val::Map(Ty::Int, Ty::Bool, (0..265_000 + some as i64).map(|i| (Val::Int(i), Val::Bool(i % 3 == 0))).collect()), None)],
        _ => vec![Op::Set("k".into(), Val::Vec(Ty::Str, (0..540_000 + some).map(|i| Val::Str((i % 1000).to_string())).collect()), Some(70000)), Op::Delete("k".into())],
    }
}

fn c05(ctx: &Ctx, t: usize, case: u64, rep: &mut Report) {
    let mut r = Rng::for_case(ctx.seed, &ctx.check, case);
    // some texts are long lists of statements
    let giant = case < 16 || case % 1000 == 17;
    let immense = (16..22).contains(&case);
    let mut sized = if (22..28).contains(&case) { sized_texts(case - 22) } else { vec![] };
    let swept = !sized.is_empty();
    for _ in 0..if giant || immense { 1 } else if swept { sized.len() } else { 20 } {
        let n = if immense { 1 } else if giant { *r.pick(&[100usize, 256, 257, 600, 1000, 1025, 2000, 5000]) } else { *r.pick(&[0usize, 1, 1, 1, 1, 2, 2, 3, 4, 7]) };
        let ops: Vec<Op> = if swept { sized.pop().unwrap() } else if immense { immense_ops(&mut r, case - 16) } else { (0..n).map(|_| gen_text_op(&mut r)).collect() };
        let n = ops.len();
        rep.count("texts_of_telling_sizes", swept as u64);
        let st = if r.pct(10) || immense { Style::Plain } else { Style::Wild };
        rep.count("long_texts", giant as u64);
        rep.count("texts_of_a_million_tokens_or_characters", immense as u64);
        let text = gen::render(&mut r, &ops, st);
        ctx.current[t].lock().unwrap().1 = text.clone();
        rep.count("texts", 1);
        rep.count("statements", n as u64);
        let rp = |d: &str| json!({"how": format!("seq --check {} --seed {} --case {}", ctx.check, ctx.seed, case), "text": if immense || text.len() > 100_000 { short(&text) } else { text.clone() }, "what": d});
        let c0 = cpu();
        let got = match guarded(|| parse_text(&text)) {
            Err(p) => {
                rep.violation("panic", format!("panic {} on {:?}", p, short(&text)), rp("panic"));
                return;
            }
            Ok(g) => g,
        };
        if cpu() - c0 > 20.0 {
            rep.violation("slow", format!("parsing took {} s on {:?}", cpu() - c0, short(&text)), rp("slow"));
            return;
        }
        let got: Vec<Op> = match got {
            Err(e) => {
                rep.violation("rejected", format!("{:?} on {:?}", e, short(&text)), rp("rejected"));
                return;
            }
            Ok(st) => match st.iter().map(op_of).collect::<Result<Vec<Op>, String>>() {
                Ok(v) => v,
                Err(e) => {
                    rep.violation("bad_value", format!("{} in {:?}", e, short(&text)), rp("bad value"));
                    return;
                }
            },
        };
        if got != ops {
            let i = (0..ops.len().max(got.len())).find(|i| ops.get(*i) != got.get(*i)).unwrap_or(0);
            rep.violation(
                "different",
                format!("{:?}\nparsed to {} statements instead of {}; number {} is {}\ninstead of {}", short(&text), got.len(), ops.len(), i, short(&format!("{:?}", got.get(i))), short(&format!("{:?}", ops.get(i)))),
                rp("different"),
            );
            return;
        }
        // the reference used elsewhere has to agree
        if refparse::parse(&text).as_ref() != Some(&ops) {
            panic!("the reference parser is wrong about {:?}", text);
        }
        rep.case(if n > 0 { Some(hash_of(&text)) } else { None });
        if case % 97 == 3 {
            rep.sample(json!({"text": short(&text), "statements": n}));
        }
    }
}

/// Check one text against the reference; the message says what is wrong
fn judge_text(text: &str, rep: &mut Report, count: bool) -> Option<(&'static str, String)> {
    let want = refparse::parse(text);
    let c0 = cpu();
    let got = match guarded(|| parse_text(text)) {
        Err(p) => return Some(("panic", format!("panic {} on {:?}", p, short(text)))),
        Ok(g) => g,
    };
    let used = cpu() - c0;
    if used > 20.0 {
        return Some(("slow", format!("parsing took {} s of CPU time on {:?}", used, short(text))));
    }
    if count {
        rep.count(if want.is_some() { "texts_in_the_language" } else { "texts_to_reject" }, 1);
    }
    match (&want, got) {
        (None, Err(_)) => None,
        (Some(_), Err(e)) => Some(("rejected", format!("a valid text is rejected with {:?}: {:?}", e, short(text)))),
        (None, Ok(st)) => Some(("accepted", format!("parsed to {} instead of being rejected: {:?}", short(&format!("{:?}", st)), short(text)))),
        (Some(ops), Ok(st)) => match st.iter().map(op_of).collect::<Result<Vec<Op>, String>>() {
            Ok(got) if got == *ops => None,
            Ok(got) => Some(("different", format!("parsed to {} instead of {}: {:?}", short(&format!("{:?}", got)), short(&format!("{:?}", ops)), short(text)))),
            Err(e) => Some(("bad_value", format!("{} in {:?}", e, short(text)))),
        },
    }
}

fn c06(ctx: &Ctx, t: usize, case: u64, rep: &mut Report) {
    if case % 64 == 1 {
        return server_case(ctx, case, rep, false);
    }
    let mut r = Rng::for_case(ctx.seed, &ctx.check, case);
    let mut texts: Vec<String> = vec![];
    match case % 64 {
        // every pair of vocabulary entries after a fixed prefix, sliced over the cases
        0 => {
            let prefix = *r.pick(&["", "get x;", "set x", "set x int", "set x int [", "set x int int {", "vset x 1", "upd x str str {\"a\":", "get "]);
            for a in SOUP {
                for b in SOUP {
                    texts.push(format!("{} {} {}", prefix, a, b));
                }
            }
        }
        2 => {
            // every prefix and every suffix of a request
            let ops: Vec<Op> = (0..r.range(1, 4)).map(|_| gen_text_op(&mut r)).collect();
            let text = gen::render(&mut r, &ops, Style::Wild);
            let cs: Vec<char> = text.chars().take(600).collect();
            for i in 0..=cs.len() {
                texts.push(cs[..i].iter().collect());
                texts.push(cs[i..].iter().collect());
            }
        }
        5 if case % 256 == 5 => {
            // long lists of statements, with something wrong in one place or nowhere
            let n = *r.pick(&[100usize, 257, 1000, 3000]);
            let ops: Vec<Op> = (0..n).map(|_| gen_text_op(&mut r)).collect();
            let text = gen::render(&mut r, &ops, Style::Plain);
            let cs: Vec<char> = text.chars().collect();
            for _ in 0..3 {
                let at = match r.below(3) {
                    0 => cs.len() - r.below(40.min(cs.len())),
                    1 => r.below(40.min(cs.len())),
                    _ => r.below(cs.len()),
                };
                let (a, b): (String, String) = (cs[..at].iter().collect(), cs[at..].iter().collect());
                texts.push(match r.below(3) {
                    0 => a,
                    1 => format!("{} {} {}", a, r.pick(&SOUP), b),
                    _ => b,
                });
            }
            texts.push(text);
        }
        3 => {
            // large texts
            let n = if ctx.thorough { 200_000 } else { 40_000 };
            texts.push(match r.below(10) {
                0 => "[".repeat(n),
                1 => format!("set x int {}", "[".repeat(n)),
                2 => ";".repeat(n),
                3 => " ".repeat(n),
                4 => format!("set x \"{}", "\\\\".repeat(n)),
                5 => format!("set x int [{}1]", "1,".repeat(n)),
                6 => "get x;".repeat(n / 2),
                7 => format!("get {}", "a".repeat(n)),
                8 => format!("set x {}", "9".repeat(n)),
                _ => format!("set x int int {{{}1:1}}", "1:1,".repeat(n / 2)),
            });
        }
        _ => {
            for _ in 0..20 {
                texts.push(match r.below(10) {
                    0 | 1 => {
                        let n = r.range(0, 9);
                        soup_text(&mut r, n)
                    }
                    2 => {
                        let n = r.range(0, 30);
                        (0..n).map(|_| char::from_u32((r.next() % if r.pct(50) { 0x110000 } else { 0x180 }) as u32).unwrap_or('\u{fffd}')).collect()
                    }
                    _ => {
                        let n = r.range(1, 4);
                        let ops: Vec<Op> = (0..n).map(|_| gen_text_op(&mut r)).collect();
                        let st = if r.pct(50) { Style::Wild } else { Style::Plain };
                        let text = gen::render(&mut r, &ops, st);
                        let text: String = text.chars().take(3000).collect();
                        mutate(&mut r, &text)
                    }
                });
            }
        }
    }
    for text in texts {
        ctx.current[t].lock().unwrap().1 = text.clone();
        if let Some((sig, d)) = judge_text(&text, rep, true) {
            rep.violation(sig, d, json!({"how": format!("seq --check {} --seed {} --case {}", ctx.check, ctx.seed, case), "text": text}));
            return;
        }
        rep.case(if text.trim().is_empty() { None } else { Some(hash_of(&text)) });
        if case % 97 == 5 {
            rep.sample(json!({"text": short(&text), "in_the_language": refparse::parse(&text).is_some()}));
        }
    }
}

// ------------------------------------------------------------------------------------- the single threaded server

struct Feed {
    requests: std::vec::IntoIter<(Result<String, ServerError>, HashMap<String, String>)>,
    out: Rc<RefCell<Vec<Vec<Result<InterpreterResponse, ServerError>>>>>,
}

struct FeedSender {
    at: usize,
    out: Arc<Mutex<Vec<(usize, Result<InterpreterResponse, ServerError>)>>>,
}

impl StreamSender for FeedSender {
    fn send(&mut self, response: Result<InterpreterResponse, ServerError>) -> Result<(), ServerError> {
        self.out.lock().unwrap().push((self.at, response));
        Ok(())
    }
}

struct Feeder {
    feed: Feed,
    at: usize,
    log: Arc<Mutex<Vec<(usize, Result<InterpreterResponse, ServerError>)>>>,
    drained: Arc<AtomicBool>,
}

impl StreamHandler for Feeder {
    fn receive_request(&mut self) -> Option<StreamRequest> {
        let _ = &self.feed.out;
        match self.feed.requests.next() {
            None => {
                self.drained.store(true, Ordering::Relaxed);
                None
            }
            Some((request, headers)) => {
                let at = self.at;
                self.at += 1;
                Some(StreamRequest { request, headers, sender: Some(Box::new(FeedSender { at, out: Arc::clone(&self.log) })) })
            }
        }
    }
}

/// A whole session with the single threaded server, requests given as text under various users
fn server_case(ctx: &Ctx, case: u64, rep: &mut Report, privileges: bool) {
    let mut r = Rng::for_case(ctx.seed, &format!("{}server", ctx.check), case);
    let keys = gen::key_pool(&mut r, 4);
    let now = BASE;
    set_now(now);
    let mut m = Model::new();
    let mut requests = vec![];
    let mut wants: Vec<Expect> = vec![];
    let mut log = vec![];
    let n = r.range(20, 80);
    let mut stop_at = None;
    let user_header = |u: Option<&str>| {
        let mut h = HashMap::new();
        if let Some(u) = u {
            h.insert("Username".to_string(), u.to_string());
        }
        h.insert("Host".to_string(), "localhost".to_string());
        h
    };
    for i in 0..n {
        let p = Profile::batch();
        let k = r.range(1, 4);
        let mut ops = vec![];
        let mut sim = m.clone();
        for _ in 0..k {
            let op = gen::gen_op(&mut r, &p, &keys, &sim, now);
            let op = gen::textual(&mut r, op);
            if op.lifetime() == Some(0) {
                continue;
            }
            sim.apply(&op, now);
            ops.push(op);
        }
        if privileges && r.pct(25) {
            let at = r.below(ops.len() + 1);
            ops.insert(at, Op::Shutdown);
        }
        let st = if r.pct(50) { Style::Wild } else { Style::Plain };
        let mut text = gen::render(&mut r, &ops, st);
        let mut user = Some("admin");
        let mut level = Some(Level::Admin);
        if privileges {
            // an admin's shutdown ends the session, so it is mostly asked for by others
            let has_shutdown = ops.contains(&Op::Shutdown);
            let choice = if has_shutdown && !r.pct(3) { r.range(2, 9) } else { r.below(10) };
            let (u, l) = match choice {
                0 | 1 => (Some("admin"), Some(Level::Admin)),
                2 | 3 => (Some("write"), Some(Level::Write)),
                4 | 5 => (Some("read"), Some(Level::Read)),
                6 => (Some("unauthenticated"), None),
                7 => (Some(*r.pick(&["Admin", "ADMIN", "admin ", "adminx", "root", "", "admi", "writer", "reader", "null", "admin,read"])), None),
                _ => (None, None),
            };
            user = u;
            level = l;
        } else if r.pct(60) {
            // something not in the language, after statements that are
            for _ in 0..20 {
                let t = match r.below(3) {
                    0 => format!("{}; {}", text, soup_text(&mut r, 3)),
                    1 => format!("{}; {} x 1 2 3", text, r.pick(&["get", "lt", "foo", "set \"a\"", "vset", "none", "[", "1"])),
                    _ => mutate(&mut r, &text),
                };
                if refparse::parse(&t).is_none() {
                    text = t;
                    break;
                }
            }
        }
        let parsed = refparse::parse(&text);
        let want = match (level, parsed) {
            (None, _) => Expect::AnyFail,
            (Some(_), None) => Expect::AnyFail,
            (Some(l), Some(ops)) => {
                let (want, _) = m.apply_batch(&ops, l, now);
                if want == Expect::Is(Resp::ShuttingDown) {
                    stop_at = Some(i);
                }
                want
            }
        };
        // who gets which error is part of the property
        let want = match (user, level) {
            (Some("unauthenticated"), None) => Expect::Fail(vec![EK::Authn]),
            (Some(_), None) => Expect::Fail(vec![EK::Authz, EK::Authn]),
            _ => want,
        };
        log.push(format!("{:?}: {}", user, text));
        requests.push((Ok(text), user_header(user)));
        wants.push(want);
        if stop_at.is_some() {
            break;
        }
    }
    if stop_at.is_some() {
        // must never be looked at
        requests.push((Ok("get x".to_string()), user_header(Some("admin"))));
    } else {
        // read everything back
        for k in keys.iter() {
            let op = Op::TryGet(k.clone());
            wants.push(m.apply(&op, now));
            requests.push((Ok(format!("try_get {}", k)), user_header(Some("admin"))));
            log.push(format!("try_get {}", k));
        }
    }
    let total = wants.len();
    let answers = Arc::new(Mutex::new(vec![]));
    let drained = Arc::new(AtomicBool::new(false));
    let feeder = Feeder { feed: Feed { requests: requests.into_iter(), out: Rc::new(RefCell::new(vec![])) }, at: 0, log: Arc::clone(&answers), drained: Arc::clone(&drained) };
    let mut server = SingleThreadedServer::new();
    let res = guarded(move || server.serve(feeder));
    let answers = std::mem::take(&mut *answers.lock().unwrap());
    if let Err(p) = res {
        rep.violation("server_panic", format!("the server panicked: {} on {}", p, short(log.get(answers.len()).map_or("", |s| s))), replay(ctx, case, &log[..(answers.len() + 1).min(log.len())]));
        return;
    }
    for (i, want) in wants.iter().enumerate() {
        let mine: Vec<_> = answers.iter().filter(|a| a.0 == i).collect();
        let upto = &log[..(i + 1).min(log.len())];
        if mine.len() != 1 {
            rep.violation("answers", format!("{} answers to request {} of {}: {}", mine.len(), i, total, short(&log[i])), replay(ctx, case, upto));
            return;
        }
        let got = match answer_of(&mine[0].1) {
            Ok(a) => a,
            Err(e) => {
                rep.violation("answer", e, replay(ctx, case, upto));
                return;
            }
        };
        rep.count("server_requests", 1);
        if !want.allows(&got) {
            rep.violation("server_answer", format!("expected {:?}, got {:?} for request {}: {}", want, got, i, short(&log[i])), replay(ctx, case, upto));
            return;
        }
    }
    let stopped = !drained.load(Ordering::Relaxed);
    if stopped != stop_at.is_some() {
        rep.violation("server_stop", format!("the server {} after {}", if stopped { "stopped" } else { "did not stop" }, short(log.last().unwrap())), replay(ctx, case, &log));
        return;
    }
    rep.count("server_sessions", 1);
    rep.case(Some(hash_of(&log)));
    if case % 97 < 3 {
        rep.sample(json!({"session": log.iter().take(6).map(|s| short(s)).collect::<Vec<_>>()}));
    }
}

// ------------------------------------------------------------------------------------- main

// ------------------------------------------------------------------------------------- tokens and statements one by one

type Found = Result<(), (&'static str, String)>;

/// Everything an iterator has to give, asked a few times more after its end
fn taken<T>(it: &mut dyn Iterator<Item = Result<T, ServerError>>, most: usize) -> Result<(Vec<T>, Option<ServerError>), String> {
    let mut out = vec![];
    let mut error = None;
    loop {
        match it.next() {
            Some(Ok(x)) => out.push(x),
            Some(Err(e)) => {
                error = Some(e);
                break;
            }
            None => break,
        }
        if out.len() > most {
            return Err(format!("more than {} items", most));
        }
    }
    for i in 0..3 {
        if let Some(x) = it.next() {
            return Err(format!(
                "{} {} the {}, when asked the {}. time",
                if x.is_ok() { "something" } else { "an error" },
                "came after",
                if error.is_some() { "error" } else { "end" },
                i + 1
            ));
        }
    }
    Ok((out, error))
}

/// Tokens of a text one by one: where they stand, what they are
fn tokens_of(text: &str, r: &mut Rng, rep: &mut Report) -> Result<Option<Vec<AnnotatedToken>>, (&'static str, String)> {
    let chars: Vec<char> = text.chars().collect();
    let (tokens, error) = taken(&mut Tokenizer::new(text), chars.len()).map_err(|e| ("token_end", e))?;
    let mut at = 0;
    let odd = tokens.len() > 60;
    for t in &tokens {
        let n = t.lexeme.chars().count();
        if n == 0 || t.position < at || t.position + n > chars.len() {
            return Err(("position", format!("{:?} after position {}", t, at)));
        }
        if let Some(c) = chars[at..t.position].iter().find(|c| !c.is_whitespace()) {
            return Err(("skipped", format!("{:?} was skipped before {:?}", c, t)));
        }
        let there: String = chars[t.position..t.position + n].iter().collect();
        if there != t.lexeme {
            return Err(("lexeme", format!("{:?} although {:?} stands there", t, there)));
        }
        at = t.position + n;
        if odd && !r.pct(10) {
            continue;
        }
        // a token means by itself what it means here
        match Tokenizer::new(&t.lexeme).tokenize() {
            Ok(own) if own.len() == 1 && own[0].position == 0 && own[0].lexeme == t.lexeme && format!("{:?}", own[0].token) == format!("{:?}", t.token) => (),
            other => return Err(("meaning", format!("{:?} by itself is {:?}", t, other))),
        }
        rep.count("tokens_compared", 1);
    }
    match (&error, Tokenizer::new(text).tokenize()) {
        (None, Ok(all)) => {
            if let Some(c) = chars[at..].iter().find(|c| !c.is_whitespace()) {
                return Err(("skipped", format!("{:?} was skipped at the end", c)));
            }
            if all != tokens && format!("{:?}", all) != format!("{:?}", tokens) {
                return Err(("ways", format!("tokens one by one: {:?}, all at once: {:?}", tokens, all)));
            }
            Ok(Some(tokens))
        }
        (Some(a), Err(b)) if ek(a) == EK::Token && ek(&b) == EK::Token => Ok(None),
        (a, b) => Err(("ways", format!("tokens one by one end with {:?}, all at once give {:?}", a, b))),
    }
}

fn ops_of(st: &[Statement]) -> Result<Vec<Op>, (&'static str, String)> {
    st.iter().map(op_of).collect::<Result<_, _>>().map_err(|e| ("bad_value", e))
}

/// What one way of parsing gives: the statements before the first error, and that error's kind
fn statements_of(parser: &mut Parser, most: usize) -> Result<(Vec<Op>, Option<EK>), (&'static str, String)> {
    let (st, error) = taken(parser, most).map_err(|e| ("statement_end", e))?;
    Ok((ops_of(&st)?, error.map(|e| ek(&e))))
}

/// All ways to parse a text agree; the statements before the first malformed one, and whether there is one
fn ways_of(text: &str, tokens: &[AnnotatedToken], rep: &mut Report) -> Result<(Vec<Op>, Option<EK>), (&'static str, String)> {
    let n = tokens.len() + 1;
    let first = statements_of(&mut Parser::new(tokens.to_vec()), n)?;
    let bad = |e: ServerError| ("ways", format!("no parser: {:?}", e));
    let copy: Vec<AnnotatedToken> = tokens.to_vec();
    // parsers do not look at where tokens stood, but for messages
    let moved: Vec<AnnotatedToken> = tokens.iter().map(|t| AnnotatedToken { token: t.token.clone(), position: 0, lexeme: String::new() }).collect();
    let ways = [
        statements_of(&mut Parser::from(Tokenizer::new(text)).map_err(bad)?, n)?,
        statements_of(&mut Parser::from_iter(Box::new(copy.into_iter())).map_err(bad)?, n)?,
        statements_of(&mut Parser::new(moved), n)?,
    ];
    for w in &ways {
        if *w != first {
            return Err(("ways", format!("{:?} one way, {:?} another", w, first)));
        }
    }
    match (&first.1, Parser::new(tokens.to_vec()).parse()) {
        (None, Ok(st)) if ops_of(&st)? == first.0 => (),
        (Some(k), Err(e)) if ek(&e) == *k => (),
        (_, other) => return Err(("ways", format!("{:?} one by one, {:?} all at once", first, other))),
    }
    // a parser that has given some of its statements goes on with the others
    let mut parser = Parser::new(tokens.to_vec());
    for i in 0..first.0.len().min(3) {
        match parser.next() {
            Some(Ok(s)) if ops_of(&[s.clone()])?[0] == first.0[i] => (),
            other => return Err(("ways", format!("{:?} instead of statement {}", other, i))),
        }
    }
    match (&first.1, parser.parse()) {
        (None, Ok(st)) if ops_of(&st)? == first.0[first.0.len().min(3)..] => (),
        (Some(k), Err(e)) if ek(&e) == *k => (),
        (_, other) => return Err(("ways", format!("{:?} at once after some one by one", other))),
    }
    rep.count("statements_one_by_one", first.0.len() as u64);
    rep.count("parsers_stopped_by_an_error", first.1.is_some() as u64);
    Ok(first)
}

const UNPARSABLE: [&str; 18] = [
    "foo", "get", "get 1", "get get", "set", "set 1", "set a none", "set a 1 -1", "set a 1 \"x\"", "vset a", "vset a -1 2", "mset a", "mset a true 1", "[", "1", "set a int [1", "set a int [1 2]",
    "set a str int {\"x\":1",
];

fn c26_case(r: &mut Rng, case: u64, text: &mut String, rep: &mut Report) -> Found {
    let n = if case % 400 == 7 { r.range(300, 3000) } else { *r.pick(&[0usize, 1, 1, 2, 3, 6, 15]) };
    let ops: Vec<Op> = (0..n).map(|_| gen_text_op(r)).collect();
    let style = if r.pct(20) { Style::Plain } else { Style::Wild };
    let good = gen::render(r, &ops, style);
    match r.below(5) {
        // as it should be
        0 => {
            *text = good;
            let Some(tokens) = tokens_of(text, r, rep)? else { return Err(("rejected", "not a token".into())) };
            let got = ways_of(text, &tokens, rep)?;
            if got != (ops.clone(), None) {
                return Err(("different", format!("{:?} instead of {:?}", got, ops)));
            }
        }
        // broken off by a malformed statement, with good ones behind it
        1 | 2 => {
            *text = format!("{} ; {} ", good, r.pick(&UNPARSABLE));
            if r.pct(70) {
                text.push_str(*r.pick(&["; get behind", " get behind; set behind 1", ";;; del behind; shutdown", " 5; set behind 2"]));
            }
            // what follows must not repair it
            if refparse::parse(text).is_some() {
                return Ok(());
            }
            let Some(tokens) = tokens_of(text, r, rep)? else { return Err(("rejected", "not a token".into())) };
            let (got, error) = ways_of(text, &tokens, rep)?;
            // a statement at the break may be complete in itself ("get get" is not, "set a int" would be)
            if got.len() < ops.len() || got[..ops.len()] != ops[..] || got.len() > ops.len() + 1 || error.is_none() {
                return Err(("prefix", format!("{:?} and {:?} instead of {:?} and an error", got, error, ops)));
            }
            rep.count("texts_broken_off", 1);
        }
        // broken off by something that is no token
        3 => {
            let k = if r.pct(50) { 1 } else { 0 };
            let t: String = if k == 1 { mutate(r, &good) } else { soup_text(r, n.min(12) + 1) };
            *text = t;
            let tokens = tokens_of(text, r, rep)?;
            let want = refparse::parse(text);
            match (tokens, want) {
                (None, None) => match Parser::from(Tokenizer::new(text)) {
                    Err(ServerError::TokenizationError(_)) => rep.count("texts_without_tokens", 1),
                    other => return Err(("ways", format!("a parser of a text that is not made of tokens: {:?}", other.map(|_| ())))),
                },
                (None, Some(_)) => return Err(("rejected", "not a token".into())),
                (Some(tokens), want) => {
                    let (got, error) = ways_of(text, &tokens, rep)?;
                    match want {
                        Some(ops) if got == ops && error.is_none() => (),
                        None if error.is_some() => (),
                        want => return Err(("different", format!("{:?} and {:?} instead of {:?}", got, error, want))),
                    }
                }
            }
        }
        // tokens that come from elsewhere
        _ => {
            let all = [
                Token::Get, Token::Set, Token::Delete, Token::Exists, Token::Update, Token::Lifetime, Token::GetOrNone, Token::SetIfNotExists, Token::Shutdown, Token::None, Token::LeftBracket,
                Token::RightBracket, Token::LeftCurlyBracket, Token::RightCurlyBracket, Token::Comma, Token::Colon, Token::Semicolon, Token::SetLifetime, Token::MapSet, Token::VectorSet,
                Token::MapGet, Token::VectorGet, Token::VectorAppend, Token::MapDelete, Token::VectorPop, Token::VectorLength, Token::MapLength, Token::MapExists, Token::ValueType, Token::IntType,
                Token::FloatType, Token::StringType, Token::VectorType, Token::MapType, Token::BoolType, Token::Bool(true), Token::Integer(0), Token::Integer(-1), Token::Integer(i64::MIN),
                Token::Float(f32::NAN), Token::Float(f32::INFINITY), Token::Float(1.5), Token::StringValue(Box::new(String::new())), Token::Identifier(Box::new("a".into())),
                Token::Identifier(Box::new("no name".into())), Token::Identifier(Box::new(String::new())),
            ];
            let mut tokens: Vec<Token> = vec![];
            let mut want: Option<Vec<Op>> = None;
            if r.pct(40) {
                let mut ops = vec![];
                for _ in 0..r.range(1, 5) {
                    let name = r.pick(&["a", "", "A b", "\u{1f980}", "get"]).to_string();
                    let life = if r.pct(50) { Some(*r.pick(&[0u64, 1, 86400, i64::MAX as u64])) } else { None };
                    tokens.push(Token::SetLifetime);
                    tokens.push(Token::Identifier(Box::new(name.clone())));
                    if let Some(l) = life {
                        tokens.push(Token::Integer(l as i64));
                    }
                    // without one, the lifetime would be looked for in what follows
                    tokens.push(Token::Semicolon);
                    ops.push(Op::SetLifetime(name, life));
                }
                want = Some(ops);
            } else {
                for _ in 0..r.range(1, 14) {
                    tokens.push(r.pick(&all).clone());
                }
            }
            *text = format!("{:?}", tokens);
            let tokens: Vec<AnnotatedToken> = tokens.into_iter().map(|token| AnnotatedToken { token, position: r.below(5), lexeme: r.pick(&["", "x", "\u{1f980}"]).to_string() }).collect();
            let most = tokens.len() + 1;
            let (st, error) = taken(&mut Parser::new(tokens.clone()), most).map_err(|e| ("statement_end", e))?;
            let whole = Parser::new(tokens).parse();
            match (&error, &whole) {
                (None, Ok(w)) if format!("{:?}", w) == format!("{:?}", st) => (),
                (Some(a), Err(b)) if ek(a) == ek(b) && matches!(ek(a), EK::Parse | EK::Type) => (),
                _ => return Err(("ways", format!("{:?} and {:?} one by one, {:?} all at once", st, error, whole))),
            }
            if let Some(ops) = want {
                if error.is_some() || ops_of(&st)? != ops {
                    return Err(("different", format!("{:?} and {:?} instead of {:?}", st, error, ops)));
                }
                rep.count("lifetime_statements", ops.len() as u64);
            }
            rep.count("token_lists", 1);
        }
    }
    Ok(())
}

/// Tokens and statements taken one by one, and the ways to get them
fn c26(ctx: &Ctx, t: usize, case: u64, rep: &mut Report) {
    let mut r = Rng::for_case(ctx.seed, &ctx.check, case);
    let mut text = String::new();
    let out = guarded(|| c26_case(&mut r, case, &mut text, rep)).unwrap_or_else(|p| Err(("panic", p)));
    ctx.current[t].lock().unwrap().1 = String::new();
    rep.count("texts", 1);
    rep.case(if text.trim().is_empty() { None } else { Some(hash_of(&text)) });
    if case % 997 == 3 {
        rep.sample(json!({"text": short(&text)}));
    }
    if let Err((sig, d)) = out {
        rep.violation(sig, format!("{:?}: {}", short(&text), short(&d)), json!({"how": format!("seq --check {} --seed {} --case {}", ctx.check, ctx.seed, case), "text": text, "what": d}));
    }
}

// ------------------------------------------------------------------------------------- decoding

/// Numbers that are not finite have no JSON form and no text either
fn finite(v: &Val) -> bool {
    match v {
        Val::Float(x) => f32::from_bits(*x).is_finite(),
        Val::Vec(_, xs) => xs.iter().all(finite),
        Val::Map(_, _, m) => m.values().all(finite),
        _ => true,
    }
}

/// Encode and decode a response with the library's own types, one of several ways
fn decoded(resp: &InterpreterResponse, way: usize) -> Result<InterpreterResponse, String> {
    let e = |e: serde_json::Error| format!("{} (way {})", e, way);
    guarded(|| match way {
        0 => serde_json::from_str(&serde_json::to_string(resp).map_err(e)?).map_err(e),
        1 => serde_json::from_value(serde_json::to_value(resp).map_err(e)?).map_err(e),
        2 => serde_json::from_slice(&serde_json::to_vec_pretty(resp).map_err(e)?).map_err(e),
        _ => serde_json::from_reader(&serde_json::to_vec(resp).map_err(e)?[..]).map_err(e),
    })
    .unwrap_or_else(|p| Err(format!("panic: {}", p)))
}

fn c18(ctx: &Ctx, _t: usize, case: u64, rep: &mut Report) {
    let mut r = Rng::for_case(ctx.seed, &ctx.check, case);
    let keys = gen::key_pool(&mut r, 4);
    let timed = r.pct(30);
    let p = match r.below(4) {
        0 => Profile::kv(),
        1 => Profile::time(),
        _ => Profile::coll(),
    };
    let mut now = BASE;
    let mut m = Model::new();
    let mut real = new_real();
    let mut log: Vec<String> = vec![];
    let (mut kinds, mut decodes, mut stored) = (BTreeSet::new(), 0u64, 0u64);
    let len = if case < 64 { 60 } else { *r.pick(&[10usize, 25, 60]) };
    let sizes = if case < 16 { vmon::rng::telling_sizes(0, 150_000) } else { vmon::rng::telling_sizes(300, 5000) };
    for step in 0..len {
        now = next_time(&mut r, &m, now, timed);
        set_now(now);
        let mut op = if r.pct(45) {
            let k = r.pick(&keys).clone();
            match r.below(5) {
                0 => Op::Type(k),
                1 => Op::GetLifetime(k),
                2 => Op::VGet(k, r.below(4) as u64),
                _ => Op::TryGet(k),
            }
        } else {
            gen::gen_op(&mut r, &p, &keys, &m, now)
        };
        // in each of the first cases, collections and strings of a number of telling sizes
        if case < 64 && step % 3 == 0 {
            let n = sizes[(case as usize * len + step) / 3 % sizes.len()];
            let v = match (step / 3 + case as usize / 2) % 4 {
                0 => Val::Vec(Ty::Int, (0..n as i64).map(Val::Int).collect()),
                1 => Val::Map(Ty::Str, Ty::Float, (0..n).map(|i| (Val::Str(format!("e{}", i)), vmon::model::f(i as f32 * 0.1))).collect()),
                2 => Val::Map(Ty::Int, Ty::Str, (0..n as i64).map(|i| (Val::Int(i - 9), Val::Str(i.to_string()))).collect()),
                _ => Val::Str("x\"é\n".chars().cycle().take(n).collect()),
            };
            op = Op::Set(keys[0].clone(), v, None);
        } else if case < 64 {
            let k = keys[0].clone();
            op = match (step % 3, m.live(&k, now).map(|e| &e.val)) {
                (2, Some(Val::Map(..))) => Op::MLen(k),
                (2, Some(Val::Vec(..))) => Op::VLen(k),
                _ => Op::Get(k),
            };
        }
        log.push(format!("t={}ns {}", now - BASE, short(&format!("{:?}", op))));
        let want = m.apply(&op, now);
        let statements = vec![to_statement(&op)];
        let resp = guarded(|| real.interpret(InterpreterRequest { statements, authorization: Level::Admin.real() }));
        let resp = match resp {
            Err(p) => return rep.violation("broke", format!("panic: {}", p), replay(ctx, case, &log)),
            Ok(Err(_)) => continue,
            Ok(Ok(resp)) => resp,
        };
        let answer = match answer_of(&Ok(resp.clone())) {
            Ok(a) => a,
            Err(e) => return rep.violation("unreadable", e, replay(ctx, case, &log)),
        };
        if !want.allows(&answer) {
            // only what can be decoded is judged here; other checks judge the answers themselves
            return;
        }
        if let Ok(Resp::Value(v)) = &answer {
            if !finite(v) {
                continue;
            }
        }
        let way = r.below(4);
        let back = match decoded(&resp, way) {
            Ok(b) => b,
            Err(e) => return rep.violation("not_decoded", format!("the answer to {} cannot be decoded: {}", short(&format!("{:?}", op)), e), replay(ctx, case, &log)),
        };
        decodes += 1;
        kinds.insert(match &answer {
            Ok(Resp::Value(Val::Vec(t, _))) => format!("vector of {:?}", t),
            Ok(Resp::Value(Val::Map(k, t, _))) => format!("map of {:?} and {:?}", k, t),
            Ok(Resp::Value(v)) => format!("{:?}", v.ty()),
            Ok(Resp::Type(t)) => format!("type {:?}", t),
            Ok(Resp::Expiration(x)) => format!("lifetime {}", x.is_some()),
            other => format!("{:?}", std::mem::discriminant(other.as_ref().unwrap())),
        });
        match answer_of(&Ok(back.clone())) {
            Ok(a) if a == answer => (),
            other => return rep.violation("decoded_differently", format!("the answer {} was decoded as {}", short(&format!("{:?}", answer)), short(&format!("{:?}", other))), replay(ctx, case, &log)),
        }
        // once more, with what was decoded
        match decoded(&back, r.below(4)).and_then(|b| answer_of(&Ok(b))) {
            Ok(a) if a == answer => (),
            other => return rep.violation("decoded_differently", format!("decoded twice, the answer {} became {}", short(&format!("{:?}", answer)), short(&format!("{:?}", other))), replay(ctx, case, &log)),
        }
        // a decoded value can be stored again and used like the original
        let (InterpreterResponse::Value(v), Ok(Resp::Value(val))) = (back, answer) else { continue };
        if !val.is_scalar() || r.pct(10) {
            stored += 1;
            let mut other = new_real();
            let mut mo = Model::new();
            let x = "x".to_string();
            let _ = mo.apply(&Op::Set(x.clone(), val.clone(), None), now);
            if let Err(e) = run_statements(&mut other, vec![Statement::Set(x.clone(), v, None)], Level::Admin) {
                return rep.violation("broke", format!("storing a decoded value: {}", e), replay(ctx, case, &log));
            }
            let mut ops: Vec<Op> = vec![Op::Get(x.clone()), Op::Type(x.clone())];
            match &val {
                Val::Vec(t, xs) => {
                    ops.push(Op::VLen(x.clone()));
                    for i in 0..4.min(xs.len()) {
                        ops.push(Op::VGet(x.clone(), i as u64));
                    }
                    for t in [*t, Ty::Bool, Ty::Str, Ty::Int, Ty::Float] {
                        ops.push(Op::VPush(x.clone(), gen::gen_scalar(&mut r, t, false)));
                    }
                    ops.push(Op::VSet(x.clone(), xs.len() as u64, gen::gen_scalar(&mut r, *t, false)));
                    ops.extend([Op::VPop(x.clone()), Op::VGet(x.clone(), xs.len() as u64)]);
                }
                Val::Map(k, t, entries) => {
                    ops.push(Op::MLen(x.clone()));
                    for key in entries.keys().take(3).chain(entries.keys().rev().take(3)) {
                        ops.push(Op::MGet(x.clone(), key.clone()));
                        ops.push(Op::MEx(x.clone(), key.clone()));
                        ops.push(Op::MSet(x.clone(), key.clone(), gen::gen_scalar(&mut r, *t, false)));
                        ops.push(Op::MLen(x.clone()));
                        ops.push(Op::MGet(x.clone(), key.clone()));
                        ops.push(Op::MDel(x.clone(), key.clone()));
                        ops.push(Op::MEx(x.clone(), key.clone()));
                    }
                    for k in [*k, Ty::Int, Ty::Str] {
                        for t in [*t, Ty::Bool, Ty::Float, Ty::Str] {
                            ops.push(Op::MSet(x.clone(), gen::gen_map_key(&mut r, k), gen::gen_scalar(&mut r, t, false)));
                        }
                    }
                    ops.push(Op::MLen(x.clone()));
                }
                _ => ops.extend([Op::VLen(x.clone()), Op::MLen(x.clone()), Op::Exists(x.clone())]),
            }
            ops.push(Op::Get(x.clone()));
            for o in ops {
                let want = mo.apply(&o, now);
                match run_request(&mut other, &[o.clone()], None, Level::Admin) {
                    Ok(a) if want.allows(&a) => (),
                    a => {
                        return rep.violation(
                            "stored_again",
                            format!("{} was decoded and stored again; {}: expected {}, got {}", short(&format!("{:?}", val)), short(&format!("{:?}", o)), short(&format!("{:?}", want)), short(&format!("{:?}", a))),
                            replay(ctx, case, &log),
                        )
                    }
                }
                rep.count("operations_on_values_stored_again", 1);
            }
        }
    }
    rep.count("answers_decoded", decodes);
    rep.count("values_stored_again", stored);
    rep.count("kinds_of_answers", kinds.len() as u64);
    rep.case(if kinds.len() > 2 && stored > 0 { Some(hash_of(&log)) } else { None });
    if case % 97 == 3 {
        rep.sample(json!({"case": case, "decoded": decodes, "stored_again": stored, "history": log.iter().take(8).collect::<Vec<_>>()}));
    }
}

// ------------------------------------------------------------------------------------- the library's containers

fn system_time(t: i128) -> SystemTime {
    if t >= 0 {
        UNIX_EPOCH + Duration::new((t / NS) as u64, (t % NS) as u32)
    } else {
        let t = -t;
        UNIX_EPOCH - Duration::new((t / NS) as u64, (t % NS) as u32)
    }
}

fn since_epoch(t: SystemTime) -> i128 {
    match t.duration_since(UNIX_EPOCH) {
        Ok(d) => d.as_nanos() as i128,
        Err(e) => -(e.duration().as_nanos() as i128),
    }
}

/// A vector or a map of the library, next to a plain one
fn containers(r: &mut Rng, rep: &mut Report) -> Result<u64, String> {
    let mut n = 0u64;
    let any = |r: &mut Rng| -> Val {
        match r.below(12) {
            0 => Val::Null,
            1 => gen::gen_vec(r, false),
            2 => gen::gen_map(r, false),
            // looks like a value of another type
            3 => Val::Str(r.pick(&["0", "7", "-3", "12", "true", "false", "1.5", "null"]).to_string()),
            k => gen::gen_scalar(r, [Ty::Bool, Ty::Str, Ty::Int, Ty::Float][k % 4], false),
        }
    };
    let same = |a: Result<Val, EK>, b: Result<Val, EK>, what: String| if a == b { Ok(()) } else { Err(format!("{}: expected {:?}, got {:?}", what, a, b)) };
    let t = gen::gen_ty(r);
    let steps = if r.pct(3) { 3000 } else { r.range(10, 80) };
    if r.pct(50) {
        let mut v = StorageVector::new(vmon::model::ct(t));
        let mut m: Vec<Val> = vec![];
        let mut old: Option<(StorageVector, Vec<Val>)> = None;
        for _ in 0..steps {
            n += 1;
            let fit = r.pct(70);
            let x = if fit { gen::gen_scalar(r, t, false) } else { any(r) };
            let ok = x.ty() == Some(t);
            let i = if m.is_empty() || r.pct(15) { *r.pick(&[m.len(), m.len() + 1, 0, usize::MAX, 1 << 32]) } else { r.below(m.len()) };
            match r.below(10) {
                0..=3 => {
                    let got = v.push(to_storage(&x));
                    same(if ok { Ok(Val::Null) } else { Err(EK::Type) }, got.map(|_| Val::Null).map_err(|e| ek(&e)), format!("push of {:?}", x))?;
                    if ok {
                        m.push(x);
                    }
                }
                4 => {
                    let got = v.pop().map(|x| val_of(&x)).transpose()?;
                    if got != m.pop() {
                        return Err(format!("pop: got {:?}", got));
                    }
                }
                5 | 6 => {
                    let got = v.set(i, to_storage(&x)).map(|_| Val::Null).map_err(|e| ek(&e));
                    let inside = i < m.len();
                    match (ok, inside) {
                        (true, true) => same(Ok(Val::Null), got, format!("set {} to {:?}", i, x))?,
                        (true, false) => same(Err(EK::Index), got, format!("set {} of {} to {:?}", i, m.len(), x))?,
                        (false, true) => same(Err(EK::Type), got, format!("set {} to {:?}", i, x))?,
                        (false, false) if got.is_err() => (),
                        (false, false) => return Err(format!("set {} of {} to {:?} succeeded", i, m.len(), x)),
                    }
                    if ok && inside {
                        m[i] = x;
                    }
                }
                7 | 8 => {
                    let got = match v.get(i) {
                        Ok(x) => Ok(val_of(x)?),
                        Err(e) => Err(ek(&e)),
                    };
                    same(m.get(i).cloned().ok_or(EK::Index), got, format!("get {} of {}", i, m.len()))?;
                }
                _ => {
                    // a copy goes its own way
                    if let Some((c, cm)) = old.take() {
                        for i in 0..cm.len() + 1 {
                            if c.get(i).ok().map(val_of).transpose()? != cm.get(i).cloned() {
                                return Err(format!("entry {} of a copy has changed with the original", i));
                            }
                        }
                    }
                    old = Some((v.clone(), m.clone()));
                }
            }
            if v.len() != m.len() {
                return Err(format!("the vector has {} entries instead of {}", v.len(), m.len()));
            }
        }
        for (i, x) in m.iter().enumerate() {
            same(Ok(x.clone()), v.get(i).map_err(|e| ek(&e)).and_then(|x| val_of(x).map_err(|_| EK::Internal)), format!("entry {}", i))?;
        }
        rep.count("vectors", 1);
    } else {
        let k = gen::gen_key_ty(r);
        let pool: Vec<Val> = (0..r.range(1, 12)).map(|_| gen::gen_map_key(r, k)).collect();
        let mut v = StorageMap::new(vmon::model::kt(k), vmon::model::ct(t));
        let mut m: BTreeMap<Val, Val> = BTreeMap::new();
        let mut old: Option<(StorageMap, BTreeMap<Val, Val>)> = None;
        for _ in 0..steps {
            n += 1;
            let key = if r.pct(80) {
                r.pick(&pool).clone()
            } else if r.pct(50) {
                gen::gen_map_key(r, k)
            } else {
                any(r)
            };
            let fit = r.pct(75);
            let x = if fit { gen::gen_scalar(r, t, false) } else { any(r) };
            let key_ok = key.ty() == Some(k);
            let ok = x.ty() == Some(t);
            match r.below(10) {
                0..=3 => {
                    let got = v.set(to_storage(&key), to_storage(&x)).map(|_| Val::Null).map_err(|e| ek(&e));
                    same(if ok && key_ok { Ok(Val::Null) } else { Err(EK::Type) }, got, format!("set {:?} to {:?}", key, x))?;
                    if ok && key_ok {
                        m.insert(key, x);
                    }
                }
                4 | 5 => {
                    let got = match v.get(&to_storage(&key)) {
                        Ok(x) => Ok(val_of(x)?),
                        Err(e) => Err(ek(&e)),
                    };
                    same(if key_ok { m.get(&key).cloned().ok_or(EK::Index) } else { Err(EK::Type) }, got, format!("get {:?}", key))?;
                }
                6 => {
                    let got = v.contains_key(&to_storage(&key)).map(Val::Bool).map_err(|e| ek(&e));
                    same(if key_ok { Ok(Val::Bool(m.contains_key(&key))) } else { Err(EK::Type) }, got, format!("contains_key {:?}", key))?;
                }
                7 | 8 => {
                    let got = v.delete(&to_storage(&key)).map(Val::Bool).map_err(|e| ek(&e));
                    same(if key_ok { Ok(Val::Bool(m.remove(&key).is_some())) } else { Err(EK::Type) }, got, format!("delete {:?}", key))?;
                }
                _ => {
                    if let Some((c, cm)) = old.take() {
                        if val_of(&StorageValue::Map(c))? != Val::Map(k, t, cm) {
                            return Err("a copy has changed with the original".into());
                        }
                    }
                    old = Some((v.clone(), m.clone()));
                }
            }
            if v.len() != m.len() {
                return Err(format!("the map has {} entries instead of {}", v.len(), m.len()));
            }
        }
        if val_of(&StorageValue::Map(v))? != Val::Map(k, t, m) {
            return Err("the map differs in the end".into());
        }
        rep.count("maps", 1);
    }
    // what can be a key of a map is equal exactly to itself
    let (a, b) = (any(r), any(r));
    let b = if r.pct(30) { a.clone() } else { b };
    if matches!(a.ty(), Some(Ty::Int | Ty::Str | Ty::Bool)) {
        let (x, y) = (to_storage(&a), to_storage(&b));
        if (x == y) != (a == b) || (y == x) != (a == b) {
            return Err(format!("{:?} and {:?} compare wrongly", a, b));
        }
        if a == b && a.ty() != Some(Ty::Bool) && hash_of(&x) != hash_of(&y) {
            return Err(format!("two hashes of {:?}", a));
        }
    }
    Ok(n)
}

fn c19(ctx: &Ctx, _t: usize, case: u64, rep: &mut Report) {
    let mut r = Rng::for_case(ctx.seed, &ctx.check, case);
    let many = case % 3200 == 207;
    let nkeys = if many { r.range(4000, 9000) } else if case % 400 == 7 { r.range(800, 2000) } else { *r.pick(&[1usize, 2, 3, 5, 8, 40]) };
    let keys: Vec<String> = (0..nkeys)
        .map(|i| match r.below(6) {
            0 => ["", " ", "A", "a", "\0", "É", "é", "key with spaces", "0", "K1", "k1"][r.below(11)].to_string(),
            1 => gen::gen_string(&mut r, false),
            _ => format!("{}{}", gen::gen_key(&mut r), i),
        })
        .collect();
    let mut now = BASE;
    let mut s = HashMapStorage::new();
    // value and expiry of every entry written and not known to be gone
    let mut m: BTreeMap<String, (Val, Option<i128>)> = BTreeMap::new();
    let mut log: Vec<String> = vec![];
    let len = if nkeys > 100 { nkeys * 3 } else { *r.pick(&[20usize, 60, 150]) };
    let keep_rate = if many { 0 } else { *r.pick(&[0usize, 30, 60, 95]) };
    let (mut removed, mut live_reads, mut dead_reads) = (0u64, 0u64, 0u64);
    let live = |e: Option<&(Val, Option<i128>)>, now: i128| -> Option<(Val, Option<i128>)> { e.filter(|e| e.1.map_or(true, |x| now < x)).cloned() };
    macro_rules! fail {
        ($sig:expr, $($a:tt)*) => {{ return rep.violation($sig, format!("{}; after {}", format!($($a)*), log.last().map_or(String::new(), |s| short(s))), replay(ctx, case, &log)) }};
    }
    macro_rules! call {
        ($e:expr) => {
            match guarded(|| $e) {
                Ok(x) => x.map_err(|e| ek(&e)),
                Err(p) => fail!("panic", "{}", p),
            }
        };
    }
    let seen = |e: &StorageElement, k: &str| -> Result<(Val, Option<i128>), String> {
        if e.key != k {
            return Err(format!("the entry under {:?} says its key is {:?}", k, e.key));
        }
        Ok((val_of(&e.value)?, e.expiration.map(since_epoch)))
    };
    for step in 0..len {
        now += match r.below(6) {
            0 => 1,
            1 => r.range(1, 999) as i128,
            2 | 3 => r.range(1, 900) as i128 * 1_000_000,
            4 => r.range(1, 5) as i128 * NS,
            _ => {
                // to one side or the other of an expiry
                let next: Vec<i128> = m.values().filter_map(|e| e.1).filter(|x| *x > now + 1 && *x < now + 400 * NS).take(50).collect();
                if next.is_empty() { 1000 } else { *r.pick(&next) - now + *r.pick(&[-1i128, 1]) }
            }
        };
        // at the instant of an expiry both are right
        while m.values().any(|e| e.1 == Some(now)) {
            now += 1;
        }
        set_now(now);
        let k = r.pick(&keys).clone();
        let cur = live(m.get(&k), now);
        let exp = if r.pct(keep_rate) {
            None
        } else {
            let x = match r.below(8) {
                0 => now - r.range(1, 5_000_000) as i128 * 1000,
                1 => *r.pick(&[0i128, 1, -NS, 4_000_000_000 * NS, 9_000_000_000_000 * NS + 7]),
                2 | 3 => now + r.range(1, 2_000_000) as i128,
                _ => now + r.range(1, 100_000) as i128 * 100_001,
            };
            Some(if x == now { x + 1 } else { x })
        };
        let v = match r.below(5) {
            0 => gen::gen_vec(&mut r, false),
            1 => gen::gen_map(&mut r, false),
            2 => Val::Null,
            _ => Val::Int(step as i64),
        };
        let element = StorageElement { key: k.clone(), expiration: exp.map(system_time), value: to_storage(&v) };
        let what = r.below(24);
        let name = ["set", "set", "set", "set", "set_if_not_exists", "set_if_not_exists", "update", "update", "delete", "delete", "update_expiration", "update_expiration", "update_expiration", "get_mut", "get_mut", "check_and_expire", "check_and_expire", "invalidate_expired_keys", "invalidate_expired_keys", "get", "get", "get_if_exists", "contains_key", "is_expired"][what];
        log.push(format!("t={}ns {} {:?} {} expires {:?}", now - BASE, name, k, short(&format!("{:?}", v)), exp.map(|x| x - now)));
        match name {
            "set" => {
                if let Err(e) = call!(s.set(&k, element)) {
                    fail!("set", "set failed: {:?}", e);
                }
                m.insert(k.clone(), (v, exp));
            }
            "set_if_not_exists" => {
                let got = call!(s.set_if_not_exists(&k, element));
                if got != Ok(cur.is_none()) {
                    fail!("set_if_not_exists", "set_if_not_exists gave {:?}, the key was there: {}", got, cur.is_some());
                }
                if cur.is_none() {
                    m.insert(k.clone(), (v, exp));
                }
            }
            "update" => {
                let got = call!(s.update(&k, element));
                if got != if cur.is_some() { Ok(()) } else { Err(EK::Key) } {
                    fail!("update", "update gave {:?}, the key was there: {}", got, cur.is_some());
                }
                if cur.is_some() {
                    m.insert(k.clone(), (v, exp));
                }
            }
            "delete" => {
                let got = call!(s.delete(&k));
                if got != Ok(cur.is_some()) {
                    fail!("delete", "delete gave {:?}, the key was there: {}", got, cur.is_some());
                }
                m.remove(&k);
            }
            "update_expiration" => {
                let got = call!(s.update_expiration(&k, exp.map(system_time)));
                if got != if cur.is_some() { Ok(()) } else { Err(EK::Key) } {
                    fail!("update_expiration", "update_expiration gave {:?}, the key was there: {}", got, cur.is_some());
                }
                if cur.is_some() {
                    m.get_mut(&k).unwrap().1 = exp;
                }
            }
            "get_mut" => {
                let got = guarded(|| {
                    s.get_mut(&k)
                        .map(|e| {
                            let before = seen(e, &k);
                            e.value = to_storage(&v);
                            before
                        })
                        .map_err(|e| ek(&e))
                });
                match (got, cur) {
                    (Ok(Ok(Ok(e))), Some(c)) if e == c => m.get_mut(&k).unwrap().0 = v,
                    (Ok(Err(EK::Key)), None) => (),
                    (got, cur) => fail!("get_mut", "get_mut: expected {:?}, got {:?}", cur, got),
                }
            }
            "check_and_expire" => {
                let got = call!(s.check_and_expire(&k));
                let expired = m.contains_key(&k) && cur.is_none();
                match got {
                    Ok(true) if expired => {
                        removed += 1;
                        m.remove(&k);
                    }
                    Ok(false) if cur.is_some() => (),
                    // it never was there, or has already been removed
                    Ok(false) | Err(_) if cur.is_none() => {
                        if let Ok(n) = s.len() {
                            let l = m.keys().filter(|x| live(m.get(*x), now).is_some()).count();
                            if expired && n >= m.len() && n > l {
                                fail!("check_and_expire", "check_and_expire gave {:?} for an expired key that was still there", got);
                            }
                        }
                        m.remove(&k);
                    }
                    got => fail!("check_and_expire", "check_and_expire gave {:?}, the key was {}", got, if cur.is_some() { "live" } else { "not live" }),
                }
            }
            "invalidate_expired_keys" => {
                let before = call!(s.len());
                let got = call!(s.invalidate_expired_keys());
                let after = call!(s.len());
                match (before, got, after) {
                    (Ok(b), Ok(n), Ok(a)) if b - a == n => removed += n as u64,
                    x => fail!("invalidate_expired_keys", "a pass: entries before, result, entries after: {:?}", x),
                }
            }
            "get" => {
                let got = match call!(s.get(&k)) {
                    Ok(e) => Ok(seen(&e, &k)),
                    Err(e) => Err(e),
                };
                if got != cur.clone().map(Ok).ok_or(EK::Key) {
                    fail!("get", "get: expected {:?}, got {:?}", cur, got);
                }
            }
            "is_expired" => {
                if element.is_expired() != exp.map_or(false, |x| x < now) {
                    fail!("is_expired", "is_expired is {}", element.is_expired());
                }
            }
            _ => (),
        }
        // what a reader sees of the key, and of a few others
        let mut look = vec![k.clone()];
        for _ in 0..2 {
            look.push(r.pick(&keys).clone());
        }
        if nkeys <= 8 {
            look = keys.clone();
        }
        for k in &look {
            let want = live(m.get(k), now);
            let got = match call!(s.get_if_exists(k)) {
                Ok(None) => None,
                Ok(Some(e)) => Some(seen(&e, k)),
                Err(e) => fail!("get_if_exists", "get_if_exists failed: {:?}", e),
            };
            if got != want.clone().map(Ok) {
                fail!("get_if_exists", "under {:?}: expected {:?}, got {:?}", k, want, got);
            }
            let there = call!(s.contains_key(k));
            if there != Ok(want.is_some()) {
                fail!("contains_key", "contains_key of {:?} gave {:?}, expected {}", k, there, want.is_some());
            }
            if want.is_some() {
                live_reads += 1;
            } else if m.contains_key(k) {
                dead_reads += 1;
            }
        }
        // and the counts
        let (l, x) = match (call!(s.len()), call!(s.expiring_keys_count())) {
            (Ok(l), Ok(x)) => (l as i64, x as i64),
            other => fail!("counts", "no counts: {:?}", other),
        };
        let total = m.len() as i64;
        let live_n = m.values().filter(|e| e.1.map_or(true, |x| now < x)).count() as i64;
        let live_x = m.values().filter(|e| e.1.map_or(false, |x| now < x)).count() as i64;
        if l - live_n != x - live_x || l < live_n || l > total {
            fail!("counts", "{} entries and {} with an expiry are reported; {} are live, {} of them with an expiry; {} expired ones may remain", l, x, live_n, live_x, total - live_n);
        }
        if l == live_n {
            m.retain(|_, e| e.1.map_or(true, |x| now < x));
        }
        rep.count("storage_calls", 1);
    }
    set_now(0);
    match guarded(|| containers(&mut r, rep)) {
        Ok(Ok(n)) => rep.count("container_calls", n),
        Ok(Err(e)) => fail!("containers", "{}", e),
        Err(p) => fail!("panic", "{}", p),
    }
    rep.count("entries_removed_after_expiry", removed);
    rep.count("reads_of_live_entries", live_reads);
    rep.count("reads_of_expired_entries", dead_reads);
    rep.case(if live_reads > 3 && dead_reads > 0 { Some(hash_of(&log)) } else { None });
    if case % 97 == 3 {
        rep.sample(json!({"case": case, "removed": removed, "calls": log.iter().take(10).collect::<Vec<_>>()}));
    }
}

// ------------------------------------------------------------------------------------- cost and memory

struct Counting;

thread_local! {
    /// bytes this thread holds
    static HELD: Cell<i64> = const { Cell::new(0) };
}

unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = HELD.try_with(|h| h.set(h.get() + l.size() as i64));
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let _ = HELD.try_with(|h| h.set(h.get() - l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let _ = HELD.try_with(|h| h.set(h.get() + n as i64 - l.size() as i64));
        std::alloc::System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

fn held() -> i64 {
    HELD.with(|h| h.get())
}

/// Seconds of this thread per statement, in the worst of a few places. Each is tried twice: now and then a container
/// grows, which is paid for by all the insertions before.
fn cost(real: &mut Real, places: &[[Vec<Op>; 2]]) -> Result<f64, String> {
    let mut worst = 0f64;
    for place in places {
        let mut best = f64::MAX;
        for ops in place {
            let statements: Vec<Vec<Statement>> = ops.iter().map(|o| vec![to_statement(o)]).collect();
            let t0 = cpu();
            for st in statements {
                guarded(|| real.interpret(InterpreterRequest { statements: st, authorization: Level::Admin.real() }).is_ok()).map_err(|p| format!("panic: {}", p))?;
            }
            best = best.min((cpu() - t0) / ops.len() as f64);
        }
        worst = worst.max(best);
    }
    Ok(worst)
}

/// Something that grows step by step. No step may cost more because there is more: then growing would never end.
fn grown(n: usize, mut step: impl FnMut(usize)) -> Result<(), String> {
    let (mut early, mut dear, mut t0) = (f64::MAX, 0, cpu());
    for i in 0..n {
        step(i);
        if (i + 1) % 500 == 0 {
            let now = cpu();
            let each = (now - t0) / 500.0;
            t0 = now;
            if i < 3000 {
                early = early.min(each);
            } else if each > 40e-6 && each > 12.0 * early {
                dear += 1;
                if dear == 6 {
                    return Err(format!("{:.1} us for each of the first, {:.1} us when there are {}", early * 1e6, each * 1e6, i + 1));
                }
            } else {
                dear = 0;
            }
        }
    }
    Ok(())
}

/// A store of so many entries, some with lifetimes, and some of those run out
fn store_of(n: usize, expiring: usize, expired: usize) -> Result<Real, String> {
    let mut real = new_real();
    set_now(BASE);
    grown(n, |i| {
        let l = if i % 100 >= expiring { None } else { Some(if i * 7 % 100 < expired { 1 } else { 1_000_000 }) };
        let st = vec![Statement::Set(format!("e{}", i), StorageValue::Int(i as i64), l)];
        let _ = real.interpret(InterpreterRequest { statements: st, authorization: Level::Admin.real() });
    })
    .map_err(|e| format!("setting new entries: {}", e))?;
    set_now(BASE + 10 * NS);
    Ok(real)
}

fn c20(ctx: &Ctx, _t: usize, case: u64, rep: &mut Report) {
    let mut r = Rng::for_case(ctx.seed, &ctx.check, case);
    let expiring = [0usize, 50, 100, 100, 30, 100][case as usize % 6];
    let expired = [0usize, 40, 0, 90, 100, 30][case as usize % 6];
    let (small, large) = (64usize, if case % 2 == 0 { 300_000 } else { 150_000 });
    let mut seen = vec![];
    let mut costs: Vec<Vec<(&str, f64)>> = vec![];
    for n in [small, large] {
        let mut real = match store_of(n, expiring, expired) {
            Ok(real) => real,
            Err(e) => return rep.violation("cost", e, replay(ctx, case, &[format!("a store of {} entries", n)])),
        };
        let mut all = vec![];
        // keys in the store, anywhere in it, early and late
        let places = |r: &mut Rng, f: &dyn Fn(&mut Rng, usize) -> Op| -> Vec<[Vec<Op>; 2]> {
            [0, 1, 2]
                .map(|place| {
                    [0, 100].map(|from| {
                        (from..from + 100)
                            .map(|i| {
                                let k = match place {
                                    0 => r.below(n),
                                    1 => n - 1 - i % n,
                                    _ => i % n,
                                };
                                f(r, k)
                            })
                            .collect()
                    })
                })
                .to_vec()
        };
        let v = || Val::Int(5);
        let k = |i: usize| format!("e{}", i);
        let kinds: Vec<(&str, Box<dyn Fn(&mut Rng, usize) -> Op>)> = vec![
            ("get", Box::new(move |_, i| Op::Get(k(i)))),
            ("try_get", Box::new(move |_, i| Op::TryGet(k(i)))),
            ("ex", Box::new(move |_, i| Op::Exists(k(i)))),
            ("type", Box::new(move |_, i| Op::Type(k(i)))),
            ("get_lifetime", Box::new(move |_, i| Op::GetLifetime(k(i)))),
            ("get of none", Box::new(move |_, i| Op::Get(format!("none{}", i)))),
            ("ex of none", Box::new(move |_, i| Op::Exists(format!("none{}", i)))),
            ("del of none", Box::new(move |_, i| Op::Delete(format!("none{}", i)))),
            ("upd of none", Box::new(move |_, i| Op::Update(format!("none{}", i), v(), None))),
            ("mget of no map", Box::new(move |_, i| Op::MGet(k(i), v()))),
            ("expiry pass", Box::new(move |_, _| Op::Expire)),
            ("set again", Box::new(move |_, i| Op::Set(k(i), v(), None))),
            ("set with lifetime", Box::new(move |_, i| Op::Set(k(i), v(), Some(50_000)))),
            ("upd", Box::new(move |_, i| Op::Update(k(i), v(), Some(9_000)))),
            ("lifetime on and off", Box::new(move |r, i| Op::SetLifetime(k(i), if r.pct(50) { None } else { Some(77_000) }))),
            ("try_set", Box::new(move |_, i| Op::TrySet(k(i), v(), None))),
            ("set new", Box::new(move |r, i| Op::Set(format!("new{}_{}", i, r.below(1 << 30)), v(), None))),
            ("set new with lifetime", Box::new(move |r, i| Op::Set(format!("new{}_{}", i, r.below(1 << 30)), v(), Some(80_000)))),
            ("expiry pass again", Box::new(move |_, _| Op::Expire)),
            ("del", Box::new(move |_, i| Op::Delete(k(i)))),
            ("set after del", Box::new(move |_, i| Op::Set(k(i), v(), Some(3)))),
        ];
        for (name, f) in &kinds {
            let places = places(&mut r, &**f);
            match cost(&mut real, &places) {
                Ok(c) => all.push((*name, c)),
                Err(e) => return rep.violation("broke", e, replay(ctx, case, &[name.to_string()])),
            }
            rep.count("statements_timed", 600);
        }
        // the counts of the storage
        let t0 = cpu();
        for _ in 0..200 {
            let _ = std::hint::black_box((real.storage.len().is_ok(), real.storage.expiring_keys_count().is_ok()));
        }
        all.push(("counts", (cpu() - t0) / 200.0));
        costs.push(all);
    }
    // collections are edited in place
    for (at, n) in [64usize, large / 2].into_iter().enumerate() {
        let mut real = new_real();
        set_now(BASE);
        let (mut v, mut m) = (StorageVector::new(server::storage::CollectionType::Int), StorageMap::new(server::storage::KeyType::Int, server::storage::CollectionType::Int));
        let made = grown(n, |i| {
            v.push(StorageValue::Int(i as i64)).ok();
        })
        .map_err(|e| format!("appending to a vector: {}", e))
        .and_then(|_| {
            grown(n, |i| {
                m.set(StorageValue::Int(i as i64), StorageValue::Int(i as i64)).ok();
            })
            .map_err(|e| format!("new entries of a map: {}", e))
        });
        if let Err(e) = made {
            return rep.violation("cost", e, replay(ctx, case, &[format!("collections of {} elements", n)]));
        }
        let l = if expiring > 0 { Some(1_000_000) } else { None };
        let setup = vec![Statement::Set("v".into(), StorageValue::Vector(v), l), Statement::Set("m".into(), StorageValue::Map(m), l)];
        if let Err(e) = run_statements(&mut real, setup, Level::Admin) {
            return rep.violation("broke", e, replay(ctx, case, &["setup".into()]));
        }
        let edits: Vec<(&str, Box<dyn Fn(usize) -> Op>)> = vec![
            ("vpush", Box::new(|i| Op::VPush("v".into(), Val::Int(i as i64)))),
            ("vset", Box::new(|i| Op::VSet("v".into(), i as u64, Val::Int(7)))),
            ("vset out of range", Box::new(|i| Op::VSet("v".into(), (1 << 40) + i as u64, Val::Int(7)))),
            ("vpush of the wrong type", Box::new(|_| Op::VPush("v".into(), Val::Bool(true)))),
            ("vpop", Box::new(|_| Op::VPop("v".into()))),
            ("mset", Box::new(|i| Op::MSet("m".into(), Val::Int(i as i64), Val::Int(8)))),
            ("mset of a new entry", Box::new(|i| Op::MSet("m".into(), Val::Int(-1 - i as i64), Val::Int(8)))),
            ("mset of the wrong type", Box::new(|_| Op::MSet("m".into(), Val::Int(1), Val::Bool(true)))),
            ("mdel", Box::new(|i| Op::MDel("m".into(), Val::Int(i as i64)))),
            ("mdel of none", Box::new(|i| Op::MDel("m".into(), Val::Int((1 << 40) + i as i64)))),
            ("type of another key", Box::new(|_| Op::Type("other".into()))),
        ];
        for (name, f) in &edits {
            let places = [[(0..30).map(|i| f(i)).collect(), (30..60).map(|i| f(i)).collect()]];
            match cost(&mut real, &places) {
                Ok(c) => costs[at].push((*name, c)),
                Err(e) => return rep.violation("broke", e, replay(ctx, case, &[name.to_string()])),
            }
            rep.count("edits_timed", 60);
        }
    }
    // a statement costs the same in a short and in a long request
    {
        let mut real = new_real();
        set_now(BASE);
        let mut all = vec![];
        for n in [50usize, 50_000] {
            let ops: Vec<Op> = (0..n).map(|i| if i % 3 == 0 { Op::Get(format!("k{}", i % 11)) } else { Op::Set(format!("k{}", i % 11), Val::Int(i as i64), if i % 2 == 0 { None } else { Some(5) }) }).collect();
            let text = gen::render(&mut r, &[vec![Op::Set("k0".into(), Val::Null, None)], ops].concat(), Style::Plain);
            let mut best = f64::MAX;
            for _ in 0..3 {
                let t0 = cpu();
                let _ = run_request(&mut real, &[], Some(&text), Level::Admin);
                best = best.min((cpu() - t0) / n as f64);
            }
            all.push(best);
        }
        costs[0].push(("one of many statements", all[0]));
        costs[1].push(("one of many statements", all[1]));
    }
    for ((name, a), (_, b)) in costs[0].iter().zip(&costs[1]) {
        seen.push(json!({"command": name, "small_us": (a * 1e8).round() / 100.0, "large_us": (b * 1e8).round() / 100.0}));
        rep.count("costs_compared", 1);
        if *b > 40e-6 && *b > 12.0 * a {
            rep.violation(
                "cost",
                format!("{}: {:.1} us in a store (or collection) of {} entries, {:.1} us in one of {} (collection: {}) ({} % with a lifetime, {} % of those run out)", name, a * 1e6, small, b * 1e6, large, large / 2, expiring, expired),
                replay(ctx, case, &[format!("stores of {} and {} entries", small, large), name.to_string()]),
            );
            return;
        }
    }
    rep.case(Some(hash_of(&(case, expiring, expired))));
    rep.sample(json!({"entries": large, "with_lifetime_pct": expiring, "run_out_pct": expired, "costs": seen}));
}

/// More bytes than the library needs to hold a value
fn room(v: &Val) -> i64 {
    match v {
        Val::Str(s) => 200 + 8 * s.len() as i64,
        Val::Vec(_, xs) => 400 + xs.iter().map(|x| 160 + if matches!(x, Val::Str(_)) { room(x) } else { 0 }).sum::<i64>(),
        Val::Map(_, _, m) => 800 + m.iter().map(|(k, x)| 700 + if matches!(k, Val::Str(_)) { room(k) } else { 0 } + if matches!(x, Val::Str(_)) { room(x) } else { 0 }).sum::<i64>(),
        _ => 100,
    }
}

/// Tens of thousands of small requests, good and bad, after which nothing is stored
fn c21_small(ctx: &Ctx, case: u64, rep: &mut Report) {
    let mut r = Rng::for_case(ctx.seed, &ctx.check, case);
    let mut real = new_real();
    let mut now = BASE;
    set_now(now);
    let m = Model::new();
    let mut p = r.pick(&[Profile::kv(), Profile::coll(), Profile::time(), Profile::batch()]).clone();
    p.big = false;
    p.huge_lifetimes = false;
    let mut names: BTreeSet<String> = BTreeSet::new();
    let requests = 20_000usize;
    let mut used = 0i64;
    let mut kept: Vec<String> = vec![];
    let habit = r.below(4);
    for i in 0..requests {
        let base = format!("key{}", r.below(8));
        // a name that has never been heard of, now and then
        let key = if r.pct(1) { format!("n{}_{}", case, i) } else { base };
        let keys = vec![key.clone()];
        let ops: Vec<Op> = (0..if habit == 0 { 1 } else { r.range(1, 4) }).map(|_| gen::gen_op(&mut r, &p, &keys, &m, now)).collect();
        let ops: Vec<Op> = ops.into_iter().filter(gen::has_text).collect();
        let (text, level) = match if habit == 3 { 3 } else { r.below(12) } {
            0..=2 => (None, Level::Admin),
            3 => {
                let n = r.range(1, 20);
                let t = if r.pct(50) { soup_text(&mut r, n) } else { let t = gen::render(&mut r, &ops, Style::Wild); mutate(&mut r, &t) };
                (Some(t), Level::Read)
            }
            4 => (Some(gen::render(&mut r, &ops, Style::Plain)), *r.pick(&[Level::Read, Level::Write])),
            5..=8 => (Some(gen::render(&mut r, &ops, Style::Wild)), Level::Admin),
            _ => (Some(gen::render(&mut r, &ops, Style::Plain)), Level::Admin),
        };
        if level != Level::Read {
            names.insert(key);
        }
        if kept.len() < 5 {
            kept.push(text.clone().unwrap_or_else(|| short(&format!("{:?}", ops))));
        }
        let before = held();
        let got = guarded(|| {
            let statements = match &text {
                Some(t) => match parse_text(t) {
                    Ok(s) => s,
                    Err(_) => return,
                },
                None => ops.iter().map(to_statement).collect(),
            };
            let _ = real.interpret(InterpreterRequest { statements, authorization: level.real() });
        });
        used += held() - before;
        if got.is_err() {
            // for others to judge
            return;
        }
        if r.pct(2) {
            now += r.range(0, 3) as i128 * NS + 1001;
            set_now(now);
        }
    }
    for _ in 0..2 {
        for k in &names {
            let before = held();
            let _ = guarded(|| real.interpret(InterpreterRequest { statements: vec![Statement::Delete(k.clone())], authorization: Level::Admin.real() }).map(|_| ()).is_ok());
            used += held() - before;
        }
    }
    let left = match real.storage.len() {
        Ok(n) => n,
        Err(_) => return,
    };
    if left > 0 {
        return;
    }
    rep.count("small_requests_watched", requests as u64);
    rep.count("bytes_left_by_them", used.max(0) as u64);
    if used > 100_000 + names.len() as i64 * 100 {
        return rep.violation(
            "memory_of_requests",
            format!("{} bytes are still held after {} small requests and the deletion of everything ({} names)", used, requests, names.len()),
            replay(ctx, case, &kept),
        );
    }
    rep.case(Some(hash_of(&(case, requests))));
}

fn c21(ctx: &Ctx, _t: usize, case: u64, rep: &mut Report) {
    if case % 80 == 7 {
        return c21_small(ctx, case, rep);
    }
    let mut r = Rng::for_case(ctx.seed, &ctx.check, case);
    let keys: Vec<String> = (0..*r.pick(&[1usize, 2, 5, 20, 300])).map(|i| format!("{}{}", gen::gen_key(&mut r), i)).collect();
    let steps = r.range(150, 600);
    let mut m = Model::new();
    let mut real = new_real();
    let mut now = BASE;
    set_now(now);
    let mut log: Vec<String> = vec![];
    // the most each key has needed since it was last set
    let mut peak: HashMap<String, i64> = HashMap::new();
    let mut most_keys = 0i64;
    let mut used = 0i64;
    let mut moved = 0i64;
    // some histories do one thing over and over
    let habit = r.below(9);
    let with_lifetime = *r.pick(&[0usize, 0, 30, 100]);
    let size = *r.pick(&[10usize, 300, 3000, 20_000]);
    let key_room: i64 = keys.iter().map(|k| 1500 + 8 * k.len() as i64).max().unwrap();
    let text = r.pct(40);
    let blob = |r: &mut Rng| -> Val {
        let n = r.range(size / 2, size);
        match r.below(4) {
            0 => Val::Vec(Ty::Int, (0..n as i64 / 8).map(Val::Int).collect()),
            1 => Val::Map(Ty::Str, Ty::Int, (0..n as i64 / 30).map(|i| (Val::Str(format!("entry {}", i)), Val::Int(i))).collect()),
            2 => Val::Vec(Ty::Str, (0..n / 60).map(|i| Val::Str(format!("{:040}", i))).collect()),
            _ => Val::Str("x".repeat(n)),
        }
    };
    macro_rules! fail {
        ($sig:expr, $($a:tt)*) => {{ return rep.violation($sig, format!("{}; after {}", format!($($a)*), log.last().map_or(String::new(), |s| short(s))), replay(ctx, case, &log)) }};
    }
    macro_rules! run {
        ($op:expr) => {{
            let op: &Op = $op;
            let want = m.apply(op, now);
            let sent = if text && gen::has_text(op) { Some(gen::render(&mut r, &[op.clone()], Style::Plain)) } else { None };
            let before = held();
            let got = match guarded(|| -> Result<(), ServerError> {
                let statements = match &sent {
                    Some(t) => parse_text(t)?,
                    None => vec![to_statement(op)],
                };
                real.interpret(InterpreterRequest { statements, authorization: Level::Admin.real() }).map(|_| ())
            }) {
                Err(p) => fail!("broke", "panic: {}", p),
                Ok(x) => x.is_err(),
            };
            used += held() - before;
            (want.failed(), got)
        }};
    }
    macro_rules! bound {
        () => {
            50_000 + most_keys * key_room + m.map.keys().map(|k| peak.get(k).copied().unwrap_or(0)).sum::<i64>()
        };
    }
    for step in 0..steps {
        if r.pct(20) {
            now += r.range(1, 3) as i128 * NS + 1001;
            while m.ambiguous(now, 0) {
                now += 1;
            }
            set_now(now);
        }
        let k = r.pick(&keys).clone();
        let l = if r.pct(with_lifetime) { Some(*r.pick(&[1u64, 2, 5, 1000])) } else { None };
        let what = if habit < 8 && r.pct(90) { [0, 1, 2, 3, 4, 5, 6, 0][habit] } else { r.below(9) };
        let op = match what {
            0 => Op::Set(k.clone(), blob(&mut r), l),
            1 => if m.live(&k, now).is_some() { Op::Delete(k.clone()) } else { Op::Set(k.clone(), blob(&mut r), l) },
            2 => if m.live(&k, now).is_some() { Op::Update(k.clone(), blob(&mut r), l) } else { Op::TrySet(k.clone(), blob(&mut r), l) },
            // refused, or nothing to do
            3 => match r.below(4) {
                0 => Op::TrySet(k.clone(), blob(&mut r), l),
                1 => Op::Update(format!("none{}", step), blob(&mut r), l),
                2 => Op::VPush(k.clone(), Val::Str("y".repeat(size))),
                _ => Op::MSet(k.clone(), Val::Str("y".repeat(size)), Val::Bool(true)),
            },
            4 => Op::Get(k.clone()),
            // grow and shrink a collection
            5 => match m.live(&k, now).map(|e| e.val.clone()) {
                Some(Val::Vec(Ty::Str, xs)) if xs.len() > 8 => Op::VPop(k.clone()),
                Some(Val::Vec(Ty::Str, xs)) if !xs.is_empty() && r.pct(50) => Op::VSet(k.clone(), 0, Val::Str("z".repeat(size))),
                Some(Val::Vec(Ty::Str, _)) => Op::VPush(k.clone(), Val::Str("z".repeat(size))),
                _ => Op::Set(k.clone(), Val::Vec(Ty::Str, vec![]), l),
            },
            6 => match m.live(&k, now).map(|e| e.val.clone()) {
                Some(Val::Map(Ty::Str, Ty::Str, m)) if m.len() > 8 => Op::MDel(k.clone(), m.keys().next().unwrap().clone()),
                Some(Val::Map(Ty::Str, Ty::Str, m)) if !m.is_empty() && r.pct(50) => Op::MSet(k.clone(), m.keys().next().unwrap().clone(), Val::Str("z".repeat(size))),
                Some(Val::Map(Ty::Str, Ty::Str, _)) => Op::MSet(k.clone(), Val::Str(format!("{}{}", "n".repeat(size / 2), step)), Val::Str("z".repeat(size / 2))),
                _ => Op::Set(k.clone(), Val::Map(Ty::Str, Ty::Str, BTreeMap::new()), l),
            },
            7 => Op::SetLifetime(k.clone(), l),
            _ => Op::Expire,
        };
        log.push(format!("t={}ns {}", now - BASE, short(&format!("{:?}", op))));
        let written = match &op {
            Op::Set(_, v, _) | Op::Update(_, v, _) | Op::TrySet(_, v, _) | Op::VPush(_, v) | Op::VSet(_, _, v) | Op::MSet(_, _, v) => room(v),
            _ => 0,
        };
        moved += written;
        let had = m.map.get(&k).map(|e| e.val.clone());
        let (want, got) = run!(&op);
        if want != got {
            // for others to judge
            return;
        }
        let cur = m.map.get(&k).map(|e| room(&e.val) + 300);
        match (&op, cur) {
            (_, None) => {
                peak.remove(&k);
            }
            (Op::Set(..) | Op::Update(..) | Op::TrySet(..), Some(x)) if had.as_ref() != m.map.get(&k).map(|e| &e.val) || matches!(op, Op::Set(..)) => {
                peak.insert(k.clone(), x);
            }
            (_, Some(x)) => {
                let p = peak.entry(k.clone()).or_insert(0);
                *p = (*p).max(x);
            }
        }
        most_keys = most_keys.max(m.map.len() as i64);
        let limit = bound!();
        rep.count("memory_checks", 1);
        if used > limit {
            fail!("memory", "the interpreter holds {} bytes for {} entries that need at most {}, after {} bytes of values were written", used, m.map.len(), limit, moved);
        }
    }
    // what has expired goes with the passes
    now += 10 * NS;
    while m.ambiguous(now, 0) {
        now += 1;
    }
    set_now(now);
    for _ in 0..m.map.len() * 20 + 50 {
        let _ = run!(&Op::Expire);
        match real.storage.len() {
            Ok(n) if n == m.live_count(now) => break,
            _ => (),
        }
    }
    if matches!(real.storage.len(), Ok(n) if n == m.live_count(now)) {
        m.drop_expired(now);
    }
    let limit = bound!();
    if used > limit {
        fail!("memory_after_passes", "the interpreter holds {} bytes for {} entries that need at most {}", used, m.map.len(), limit);
    }
    // and everything else with its deletion
    for k in &keys {
        let _ = run!(&Op::Delete(k.clone()));
    }
    let limit = bound!();
    if used > limit {
        fail!("memory_in_the_end", "the interpreter holds {} bytes after everything has been deleted", used);
    }
    rep.count("kilobytes_written", moved as u64 / 1000);
    rep.count("kilobytes_held_in_the_end", used.max(0) as u64 / 1000);
    rep.case(if moved > 3 * limit { Some(hash_of(&log)) } else { None });
    if case % 97 == 3 {
        rep.sample(json!({"case": case, "bytes_written": moved, "bytes_in_the_end": used, "history": log.iter().take(8).collect::<Vec<_>>()}));
    }
}

// ------------------------------------------------------------------------------------- any storage

/// A storage that fails for some keys, and knows who was asked for what
struct Flaky {
    inner: HashMapStorage,
    /// these keys fail
    bad: BTreeMap<String, ServerError>,
    bad_passes: Option<ServerError>,
    asked: RefCell<BTreeSet<String>>,
    hits: Cell<u64>,
}

impl Flaky {
    fn look(&self, key: &str) -> Result<(), ServerError> {
        self.asked.borrow_mut().insert(key.to_string());
        match self.bad.get(key) {
            None => Ok(()),
            Some(e) => {
                self.hits.set(self.hits.get() + 1);
                Err(e.clone())
            }
        }
    }
}

impl Storage for Flaky {
    fn get(&self, key: &str) -> Result<StorageElement, ServerError> {
        self.look(key)?;
        self.inner.get(key)
    }
    fn get_mut(&mut self, key: &str) -> Result<&mut StorageElement, ServerError> {
        self.look(key)?;
        self.inner.get_mut(key)
    }
    fn set(&mut self, key: &str, value: StorageElement) -> Result<(), ServerError> {
        self.look(key)?;
        self.inner.set(key, value)
    }
    fn invalidate_expired_keys(&mut self) -> Result<usize, ServerError> {
        match &self.bad_passes {
            Some(e) => {
                self.hits.set(self.hits.get() + 1);
                Err(e.clone())
            }
            None => self.inner.invalidate_expired_keys(),
        }
    }
    fn contains_key(&self, key: &str) -> Result<bool, ServerError> {
        self.look(key)?;
        self.inner.contains_key(key)
    }
    fn get_if_exists(&self, key: &str) -> Result<Option<StorageElement>, ServerError> {
        self.look(key)?;
        self.inner.get_if_exists(key)
    }
    fn set_if_not_exists(&mut self, key: &str, value: StorageElement) -> Result<bool, ServerError> {
        self.look(key)?;
        self.inner.set_if_not_exists(key, value)
    }
    fn update(&mut self, key: &str, value: StorageElement) -> Result<(), ServerError> {
        self.look(key)?;
        self.inner.update(key, value)
    }
    fn delete(&mut self, key: &str) -> Result<bool, ServerError> {
        self.look(key)?;
        self.inner.delete(key)
    }
    fn update_expiration(&mut self, key: &str, expiration: Option<SystemTime>) -> Result<(), ServerError> {
        self.look(key)?;
        self.inner.update_expiration(key, expiration)
    }
    fn len(&self) -> Result<usize, ServerError> {
        self.inner.len()
    }
    fn check_and_expire(&mut self, key: &str) -> Result<bool, ServerError> {
        self.look(key)?;
        self.inner.check_and_expire(key)
    }
    fn expiring_keys_count(&self) -> Result<usize, ServerError> {
        self.inner.expiring_keys_count()
    }
}

fn some_error(r: &mut Rng) -> ServerError {
    let m = format!("trouble {}", r.below(1000));
    match r.below(8) {
        0 => ServerError::KeyError(m),
        1 => ServerError::NetworkError(m),
        2 => ServerError::WriteError(m),
        3 => ServerError::IndexError(m),
        4 => ServerError::TypeError(m),
        5 => ServerError::AuthorizationError(m),
        6 => ServerError::RequestError(m),
        _ => ServerError::InternalError(m),
    }
}

fn c23(ctx: &Ctx, _t: usize, case: u64, rep: &mut Report) {
    let mut r = Rng::for_case(ctx.seed, &ctx.check, case);
    let keys: Vec<String> = (0..*r.pick(&[2usize, 4, 9])).map(|i| format!("k{}", i)).collect();
    let mut real = Interpreter::new(Flaky { inner: HashMapStorage::new(), bad: BTreeMap::new(), bad_passes: None, asked: Default::default(), hits: Cell::new(0) });
    let mut m = Model::new();
    let mut now = BASE;
    let mut p = Profile::time();
    p.huge_lifetimes = false;
    p.big = case % 50 == 3;
    p.w = [22, 14, 12, 12, 8, 16, 16, 5, 10, 5];
    p.lifetime_pct = 25;
    let mut log: Vec<String> = vec![];
    let mut troubles = 0u64;
    for _ in 0..*r.pick(&[20usize, 60, 150]) {
        let far = r.pct(30);
        now = next_time(&mut r, &m, now, far);
        set_now(now);
        // somebody else may use the storage as well
        while r.pct(25) {
            let k = r.pick(&keys).clone();
            let live = m.live(&k, now).is_some();
            let v = Val::Int(r.range(0, 1 << 20) as i64);
            let vec = Val::Vec(Ty::Int, (0..r.below(5)).map(|i| Val::Int(i as i64)).collect());
            let exp = if r.pct(30) { Some(now + r.range(1, 9) as i128 * NS) } else { None };
            let time = |x: i128| UNIX_EPOCH + Duration::new((x / NS) as u64, (x % NS) as u32);
            let s = &mut real.storage.inner;
            let (what, ok) = match r.below(5) {
                0 | 1 => {
                    let v = if r.pct(50) { v } else { vec };
                    let ok = s.set(&k, StorageElement { key: k.clone(), value: to_storage(&v), expiration: exp.map(time) }).is_ok();
                    m.map.insert(k.clone(), vmon::model::Entry { val: v, exp });
                    ("set", ok)
                }
                2 => {
                    m.map.remove(&k);
                    ("delete", matches!(s.delete(&k), Ok(x) if x == live))
                }
                3 if live => {
                    m.map.get_mut(&k).unwrap().exp = exp;
                    ("update_expiration", s.update_expiration(&k, exp.map(time)).is_ok())
                }
                4 if live => {
                    m.map.get_mut(&k).unwrap().val = v.clone();
                    match s.get_mut(&k) {
                        Ok(e) => {
                            e.value = to_storage(&v);
                            ("get_mut", true)
                        }
                        Err(_) => ("get_mut", false),
                    }
                }
                _ => continue,
            };
            log.push(format!("directly: {} {}", what, k));
            rep.count("direct_changes", 1);
            if !ok {
                // for others to judge
                return;
            }
        }
        // trouble
        real.storage.bad.clear();
        real.storage.bad_passes = None;
        let level = if r.pct(8) { *r.pick(&[Level::Read, Level::Write]) } else { Level::Admin };
        let n = *r.pick(&[1usize, 1, 1, 2, 3, 5, 12]);
        let ops: Vec<Op> = (0..n).map(|_| gen::gen_op(&mut r, &p, &keys, &m, now)).collect();
        if r.pct(45) {
            for _ in 0..*r.pick(&[1usize, 1, 2]) {
                let k = match r.pick(&ops).key() {
                    Some(k) if r.pct(80) => k.to_string(),
                    _ => r.pick(&keys).clone(),
                };
                let e = some_error(&mut r);
                real.storage.bad.insert(k, e);
            }
            if r.pct(25) {
                real.storage.bad_passes = Some(some_error(&mut r));
            }
        }
        // what the specification says
        let mut want = Expect::Is(Resp::Null);
        let mut trouble: Option<ServerError> = None;
        let mut ran = 0;
        if !ops.iter().all(|op| level.allows(op)) {
            want = Expect::Fail(vec![EK::Authz]);
        } else {
            for op in &ops {
                ran += 1;
                let e = match op.key() {
                    Some(k) => real.storage.bad.get(k).cloned(),
                    None if *op == Op::Expire => real.storage.bad_passes.clone(),
                    None => None,
                };
                if e.is_some() {
                    let before = m.clone();
                    want = m.apply(op, now);
                    m = before;
                    trouble = e;
                    break;
                }
                want = m.apply(op, now);
                if want.failed() || want == Expect::Is(Resp::ShuttingDown) {
                    break;
                }
            }
        }
        let reached: BTreeSet<String> = ops[..ran].iter().filter_map(|op| op.key().map(str::to_string)).collect();
        real.storage.asked.borrow_mut().clear();
        log.push(format!("t={}ns {:?} {} with trouble for {:?}", now - BASE, level, short(&format!("{:?}", ops)), real.storage.bad));
        let got = match guarded(|| real.interpret(InterpreterRequest { statements: ops.iter().map(to_statement).collect(), authorization: level.real() })) {
            Ok(x) => x,
            Err(p) => return rep.violation("panic", format!("panic: {} for {}", p, log.last().unwrap()), replay(ctx, case, &log)),
        };
        rep.count("requests", 1);
        let fits = match (&trouble, &got) {
            (Some(e), Err(g)) => {
                troubles += 1;
                rep.count("storage_errors_passed_on", 1);
                ek(g) == ek(e) || (want.failed() && want.allows(&Err(ek(g))))
            }
            (Some(_), Ok(_)) => false,
            (None, _) => match answer_of(&got) {
                Ok(a) => want.allows(&a),
                Err(e) => return rep.violation("broke", format!("{} for {}", e, log.last().unwrap()), replay(ctx, case, &log)),
            },
        };
        if !fits {
            return rep.violation("answer", format!("{:?} instead of {} for {}", got, trouble.map_or(format!("{:?}", want), |e| format!("{:?}", e)), log.last().unwrap()), replay(ctx, case, &log));
        }
        let asked = real.storage.asked.borrow().clone();
        if let Some(k) = asked.iter().find(|k| !reached.contains(*k)) {
            return rep.violation("asked", format!("the storage was asked for {:?}, which only statements name that must not run, by {}", k, log.last().unwrap()), replay(ctx, case, &log));
        }
        if r.pct(30) {
            for k in &keys {
                let seen = match guarded(|| real.storage.inner.get_if_exists(k)) {
                    Ok(Ok(x)) => x,
                    _ => return,
                };
                let have = seen.as_ref().map(|e| val_of(&e.value));
                let expected = m.live(k, now).map(|e| Ok(e.val.clone()));
                if have != expected {
                    return rep.violation("state", format!("{} holds {:?} instead of {:?} after {}", k, have, expected, log.last().unwrap()), replay(ctx, case, &log));
                }
                rep.count("entries_compared", 1);
            }
        }
    }
    rep.case(if troubles > 2 { Some(hash_of(&log)) } else { None });
    if case % 97 == 5 {
        rep.sample(json!({"case": case, "history": log.iter().take(8).collect::<Vec<_>>()}));
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let inside = at.starts_with("src/");
        if inside {
            eprintln!("harness panic: {} at {}", msg, at);
            std::process::exit(3);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("'{}' at {}", msg, at));
    }));
    let args = Args::parse();
    let check = args.str("check").to_string();
    let seed = args.num("seed", 1);
    let threads = args.num("threads", 8) as usize;
    let (f, rule): (CaseFn, &str) = match check.as_str() {
        "C01" => (c01, "random request histories over small key pools, sent as text or as statements to the real interpreter; non-trivial: distinct histories with at least two writes and at least one failing request, every answer and full read-backs compared with the specification"),
        "C02" => (c02, "random collection-heavy request histories; non-trivial: distinct histories with at least two writes and at least one failing request, every answer and full read-backs compared with the specification"),
        "C03" => (c03, "random histories with lifetimes on a controlled clock that jumps close to either side of expiry instants; non-trivial: distinct histories with at least two writes and at least one failing request"),
        "C04" => (c04, "random purge-heavy histories on a controlled clock, counts compared after each statement, then passes until everything expired is gone; non-trivial: distinct histories in which passes removed entries"),
        "C05" => (c05, "random statement lists rendered as text in random formats; non-trivial: distinct texts of at least one statement, parsed and compared statement by statement"),
        "C06" => (c06, "mutated, truncated, token-soup, random Unicode and oversized texts judged against an independent reference parser, and sessions with the single threaded server; non-trivial: distinct non-blank texts and sessions"),
        "C07" => (c07, "random histories under random privilege levels, and sessions with the single threaded server under all kinds of users; non-trivial: distinct histories with writes and refusals, and distinct sessions"),
        "C08" => (c08, "random histories of multi-statement requests with failing statements and shutdowns in every position; non-trivial: distinct histories with at least two writes and at least one failing request"),
        "C18" => (c18, "random histories of a real interpreter whose successful answers are encoded and decoded with the library's own types, and decoded values stored and used again; non-trivial: distinct histories with more than two kinds of answers and a value stored again"),
        "C19" => (c19, "random calls of the storage container on a controlled clock, and of the typed vectors and maps, next to plain ones; non-trivial: distinct histories with reads of live and of expired entries"),
        "C20" => (c20, "the time of single commands in small and in large stores compared; non-trivial: distinct pairs of stores"),
        "C26" => (c26, "tokens and statements taken one by one from well-formed, broken and random texts and token lists; non-trivial: distinct texts with at least one token"),
        "C23" => (c23, "random requests to an interpreter over a storage that fails for some keys and is changed directly as well; non-trivial: distinct histories in which more than two of its errors were passed on"),
        "C21" => (c21, "random histories of growing, shrinking, replaced, deleted and expired data, the bytes the interpreter holds watched by a counting allocator; non-trivial: distinct histories that wrote more than three times what may be held in the end"),
        other => panic!("unknown check {}", other),
    };
    let ctx = Arc::new(Ctx {
        seed,
        check: check.clone(),
        thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
        current: (0..threads).map(|_| Mutex::new((0.0, String::new()))).collect(),
    });
    let out = args.get("out").map(|s| s.to_string());
    // A case that never ends is reported by this watchdog
    {
        let ctx = Arc::clone(&ctx);
        let out = out.clone();
        let rule = rule.to_string();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for c in &ctx.current {
                let (since, what) = c.lock().unwrap().clone();
                if since > 0.0 && real_clock(1) - since > 240.0 {
                    let mut rep = Report::new();
                    rep.violation("hang", format!("no end after 240 s: {}", short(&what)), json!({"how": format!("seq --check {} --seed {}", ctx.check, ctx.seed), "text": what}));
                    if let Some(out) = &out {
                        rep.write(out, &rule);
                    }
                    std::process::exit(0);
                }
            }
        });
    }
    let cases = match args.get("case") {
        Some(c) => {
            let c: u64 = c.parse().expect("case number");
            c..c + 1
        }
        None => 0..args.num("cases", 1000),
    };
    let rep = run_cases(&ctx, cases, f, threads);
    match out {
        Some(out) => rep.write(&out, rule),
        None => eprintln!("{} evaluations, {:?}, {} violations", rep.evaluations, rep.counters, rep.violations.len()),
    }
    let _ = (Ty::Int, Val::Null);
}
