//! Concurrent workloads and their judgement, independent of how requests reach the server.

use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Barrier, Mutex};
use std::time::Instant;

use serde_json::json;

use crate::gen::{self, Profile, Style};
use crate::http::Reply;
use crate::lin::{self, Append, Event, ListRead, Verdict};
use crate::model::{Model, Op, Resp, Ty, Val, EK};
use crate::report::{hash_of, Report};
use crate::rng::Rng;

/// Something that answers requests
pub trait Target: Sync {
    fn ask(&self, user: &str, query: &str) -> Reply;
}

fn ints(v: &Val) -> Option<Vec<i64>> {
    match v {
        Val::Vec(Ty::Int, xs) => xs
            .iter()
            .map(|x| match x {
                Val::Int(i) => Some(*i),
                _ => None,
            })
            .collect(),
        _ => None,
    }
}

fn read_list(t: &dyn Target, name: &str) -> Result<Vec<i64>, String> {
    for _ in 0..100 {
        match t.ask("read", &format!("get {}", name)) {
            Reply::Answer(Ok(Resp::Value(v))) => return ints(&v).ok_or_else(|| format!("{} holds {:?}", name, v)),
            Reply::TimedOut => std::thread::sleep(std::time::Duration::from_millis(100)),
            other => return Err(format!("reading {} gave {:?}", name, other)),
        }
    }
    Err(format!("reading {} timed out 100 times", name))
}

static RUN: AtomicU64 = AtomicU64::new(0);

pub struct AppendLoad {
    pub clients: usize,
    pub per_client: usize,
    pub lists: usize,
    /// percentage of requests that leave expired entries behind
    pub garbage_pct: usize,
    /// percentage of appends with many other statements around
    pub long_pct: usize,
}

/// Statements that have nothing to do with the lists
fn fillers(r: &mut Rng, n: usize, run: u64, client: usize) -> String {
    let mut q = String::new();
    for i in 0..n {
        q += &match r.below(4) {
            0 => format!("set f{}_{}_{} {}; ", run, client, i % 5, i),
            1 => format!("try_get f{}_{}_{}; ", run, client, i % 5),
            _ => format!("ex f{}_{}_{}; ", run, client, i % 7),
        };
    }
    q
}

/// The lists when nothing changes them any more: a request that is still being analysed may be overtaken by many others
fn settled(t: &dyn Target, names: &[String]) -> Result<Vec<Vec<i64>>, String> {
    let mut last: Vec<Vec<i64>> = vec![];
    let mut same = 0;
    while same < 2 {
        let now = names.iter().map(|n| read_list(t, n)).collect::<Result<Vec<_>, _>>()?;
        same = if now == last { same + 1 } else { 0 };
        last = now;
        std::thread::sleep(std::time::Duration::from_millis(150));
    }
    Ok(last)
}

/// Clients append unique numbers to shared lists, alone and to two lists at once, and read
pub fn append_run(t: &dyn Target, seed: u64, load: &AppendLoad, rep: &mut Report) -> Result<(), String> {
    let run = RUN.fetch_add(1, Ordering::Relaxed);
    let base = Instant::now();
    let at = || base.elapsed().as_nanos() as u64;
    let names: Vec<String> = (0..load.lists).map(|i| format!("l{}_{}", run, i)).collect();
    for n in &names {
        match t.ask("admin", &format!("set {} int []", n)) {
            Reply::Answer(Ok(Resp::Message)) => (),
            Reply::TimedOut => return Ok(rep.count("runs_skipped", 1)),
            other => return Err(format!("set answered {:?}", other)),
        }
    }
    let next = AtomicI64::new(1);
    let appends = Mutex::new(vec![]);
    let reads = Mutex::new(vec![]);
    let long = AtomicU64::new(0);
    let broken: Mutex<Option<String>> = Mutex::new(None);
    let barrier = Barrier::new(load.clients);
    std::thread::scope(|s| {
        for c in 0..load.clients {
            let (names, next, appends, reads, broken, barrier, at, long) = (&names, &next, &appends, &reads, &broken, &barrier, &at, &long);
            s.spawn(move || {
                let mut r = Rng::for_case(seed, "append", run * 1000 + c as u64);
                let (mut my_appends, mut my_reads) = (vec![], vec![]);
                barrier.wait();
                for _ in 0..load.per_client {
                    if broken.lock().unwrap().is_some() {
                        break;
                    }
                    let l = r.below(names.len());
                    let kind = r.below(100);
                    if kind < 18 {
                        let start = at();
                        let reply = t.ask("read", &format!("get {}", names[l]));
                        let end = at();
                        match reply {
                            Reply::Answer(Ok(Resp::Value(v))) => match ints(&v) {
                                Some(saw) => my_reads.push(ListRead { start, end, list: l, saw }),
                                None => *broken.lock().unwrap() = Some(format!("list {} read as {:?}", l, v)),
                            },
                            Reply::TimedOut => (),
                            other => *broken.lock().unwrap() = Some(format!("reading list {} gave {:?}", l, other)),
                        }
                        continue;
                    }
                    if kind < 18 + load.garbage_pct {
                        let id = next.fetch_add(1, Ordering::Relaxed);
                        match t.ask("write", &format!("set g{}_{} \"{}\" {}", run, id, id, r.below(2))) {
                            Reply::Answer(Ok(Resp::Message)) | Reply::TimedOut => (),
                            other => *broken.lock().unwrap() = Some(format!("set with a lifetime gave {:?}", other)),
                        }
                        continue;
                    }
                    let id = next.fetch_add(1, Ordering::Relaxed);
                    let mut lists = vec![l];
                    if names.len() > 1 && r.pct(30) {
                        let l2 = (l + 1 + r.below(names.len() - 1)) % names.len();
                        lists.push(l2);
                    }
                    // some requests are long, with their effects at both ends
                    let filler = if r.pct(load.long_pct) { *r.pick(&[7usize, 9, 16, 17, 33, 64, 65, 100, 130, 260]) } else { 0 };
                    let mut q = String::new();
                    for (i, l) in lists.iter().enumerate() {
                        if i > 0 || r.pct(30) {
                            q += &fillers(&mut r, filler, run, c);
                        }
                        q += &format!("vpush {} {}; ", names[*l], id);
                    }
                    q += &fillers(&mut r, filler, run, c);
                    if filler > 0 {
                        long.fetch_add(1, Ordering::Relaxed);
                    }
                    let fail = r.pct(8);
                    let refused = !fail && r.pct(4);
                    if fail {
                        // fails after its appends, which stay
                        q += &format!("vget {} 99999999; vpush {} -1", names[l], names[l]);
                    } else if refused {
                        // refused as a whole
                        q += "shutdown";
                    } else {
                        q += &format!("get {}", names[l]);
                    }
                    let start = at();
                    let reply = t.ask(if r.pct(50) || refused { "write" } else { "admin" }, &q);
                    let end = at();
                    let mut a = Append { start, end: Some(end), id, lists, saw: None };
                    match reply {
                        Reply::Answer(Err(EK::Index)) if fail => (),
                        Reply::Answer(Err(EK::Authz)) if refused => continue,
                        Reply::Answer(Ok(Resp::Value(v))) if !fail && !refused && ints(&v).is_some() => a.saw = ints(&v),
                        Reply::TimedOut if refused => continue,
                        Reply::TimedOut => a.end = None,
                        other => *broken.lock().unwrap() = Some(format!("{} gave {:?}", q, other)),
                    }
                    my_appends.push(a);
                }
                appends.lock().unwrap().extend(my_appends);
                reads.lock().unwrap().extend(my_reads);
            });
        }
    });
    if let Some(b) = broken.into_inner().unwrap() {
        return Err(b);
    }
    let appends: Vec<Append> = appends.into_inner().unwrap();
    let reads: Vec<ListRead> = reads.into_inner().unwrap();
    let open = appends.iter().filter(|a| a.end.is_none()).count() as u64;
    if open > 0 {
        // let late ones take effect
        std::thread::sleep(std::time::Duration::from_millis(1500));
    }
    let fin = if open > 0 { settled(t, &names)? } else { names.iter().map(|n| read_list(t, n)).collect::<Result<_, _>>()? };
    rep.count("appends", appends.len() as u64);
    rep.count("long_appends", long.into_inner());
    rep.count("reads", reads.len() as u64);
    rep.count("open_requests", open);
    // how concurrent was it?
    let mut spans: Vec<(u64, i64)> = appends.iter().filter_map(|a| a.end.map(|e| [(a.start, 1), (e, -1)])).flatten().collect();
    spans.sort();
    let (mut cur, mut most, mut overlaps) = (0i64, 0i64, 0u64);
    for (_, d) in spans {
        cur += d;
        most = most.max(cur);
        if d == 1 && cur > 1 {
            overlaps += 1;
        }
    }
    rep.count("overlapping_appends", overlaps);
    let c = rep.counters.entry("most_requests_at_once".into()).or_insert(0);
    *c = (*c).max(most as u64);
    rep.case(if overlaps > 0 { Some(hash_of(&fin)) } else { None });
    let res = lin::check_appends(&appends, &reads, &fin);
    if res.is_ok() && rep.samples.len() < 2 {
        rep.sample(json!({"clients": load.clients, "appends": appends.len(), "reads": reads.len(), "overlapping": overlaps, "first_list_starts": fin[0].iter().take(12).collect::<Vec<_>>()}));
    }
    res
}

/// A short random concurrent history checked against the full specification
pub fn lin_run(t: &dyn Target, seed: u64, case: u64, rep: &mut Report) -> Result<(), String> {
    let mut r = Rng::for_case(seed, "lin", case);
    let run = RUN.fetch_add(1, Ordering::Relaxed);
    let clients = r.range(2, 4);
    let per = r.range(2, 5);
    let keys: Vec<String> = (0..r.range(1, 3)).map(|i| format!("w{}_{}", run, i)).collect();
    let now = 1_000_000_000_000_000_000i128;
    let mut p = Profile::batch();
    p.lifetime_pct = 0;
    p.w = match r.below(4) {
        0 => [25, 25, 15, 15, 15, 2, 2, 3, 0, 0],
        1 => [10, 10, 2, 2, 4, 45, 5, 2, 0, 0],
        2 => [10, 10, 2, 2, 4, 5, 45, 2, 0, 0],
        _ => p.w,
    };
    // guide the generator with a sequential guess of the content
    let mut guess = Model::new();
    let mut plans: Vec<Vec<(Vec<Op>, String)>> = vec![vec![]; clients];
    for _ in 0..per {
        for plan in plans.iter_mut() {
            let mut ops = vec![];
            for _ in 0..*r.pick(&[1usize, 1, 1, 1, 2, 2, 2, 2, 3, 3, 5, 9, 12, 20]) {
                let mut op = gen::gen_op(&mut r, &p, &keys, &guess, now);
                op = gen::textual(&mut r, op);
                if let Op::Set(_, v, l) | Op::Update(_, v, l) | Op::TrySet(_, v, l) = &mut op {
                    if *v != Val::Null && r.pct(20) {
                        // never runs out here, but gives background expiry something to look at
                        *l = Some(r.range(5000, 9000) as u64);
                    }
                }
                guess.apply(&op, now);
                ops.push(op);
            }
            let text = gen::render(&mut r, &ops, Style::Plain);
            plan.push((ops, text));
        }
    }
    let base = Instant::now();
    let at = || base.elapsed().as_nanos() as u64;
    let events: Mutex<Vec<Event>> = Mutex::new(vec![]);
    let broken: Mutex<Option<String>> = Mutex::new(None);
    let barrier = Barrier::new(clients);
    std::thread::scope(|s| {
        for plan in &plans {
            let (events, broken, barrier, at) = (&events, &broken, &barrier, &at);
            s.spawn(move || {
                barrier.wait();
                for (ops, text) in plan {
                    let start = at();
                    let reply = t.ask("admin", text);
                    let end = at();
                    let (end, answer) = match reply {
                        Reply::Answer(a) => (Some(end), Some(a)),
                        Reply::TimedOut => (None, None),
                        Reply::Broken(e) => {
                            *broken.lock().unwrap() = Some(format!("{} for {}", e, text));
                            return;
                        }
                    };
                    events.lock().unwrap().push(Event { start, end, ops: ops.clone(), answer });
                }
            });
        }
    });
    if let Some(b) = broken.into_inner().unwrap() {
        return Err(b);
    }
    let mut events = events.into_inner().unwrap();
    for k in &keys {
        let start = at();
        if let Reply::Answer(a) = t.ask("admin", &format!("try_get {}", k)) {
            events.push(Event { start, end: Some(at()), ops: vec![Op::TryGet(k.clone())], answer: Some(a) });
        }
    }
    events.sort_by_key(|e| e.start);
    let overlapping = events.windows(2).filter(|w| w[0].end.map_or(true, |e| e > w[1].start)).count();
    let verdict = lin::linearizable(&Model::new(), &events, now, 400_000);
    rep.count("histories", 1);
    rep.count("history_requests", events.len() as u64);
    rep.count("overlapping_requests", overlapping as u64);
    let shape: Vec<String> = events.iter().map(|e| format!("{:?} {:?}", e.ops, e.answer)).collect();
    rep.case(if overlapping > 0 { Some(hash_of(&shape)) } else { None });
    match verdict {
        Verdict::Linearizable => Ok(()),
        Verdict::TooHard => {
            rep.count("histories_given_up", 1);
            Ok(())
        }
        Verdict::NotLinearizable => {
            let mut m: BTreeMap<u64, String> = BTreeMap::new();
            for e in &events {
                m.insert(e.start, format!("[{}..{:?}] {:?} -> {:?}", e.start, e.end, e.ops, e.answer));
            }
            let s: Vec<String> = m.into_values().collect();
            Err(format!("no sequential order explains this history:\n{}", s.join("\n")))
        }
    }
}

/// Requests that take long, made of reads of something big
pub struct Slow {
    name: String,
    reads: usize,
}

impl Slow {
    /// How many reads does it take to keep the server busy for about this long?
    pub fn calibrate(t: &dyn Target, millis: u64, rep: &mut Report) -> Result<Slow, String> {
        let name = format!("big{}", RUN.fetch_add(1, Ordering::Relaxed));
        let big = vec!["123456789"; 60_000].join(",");
        match t.ask("admin", &format!("set {} int [{}]", name, big)) {
            Reply::Answer(Ok(Resp::Message)) => (),
            Reply::TimedOut => stored(t, &name)?,
            other => return Err(format!("storing a big vector gave {:?}", other)),
        }
        let mut s = Slow { name, reads: 40 };
        drained(t)?;
        loop {
            // what it takes to get the answer across does not count, so read something small in the end
            let start = Instant::now();
            match t.ask("admin", &s.text("ex nothing_at_all")) {
                Reply::Answer(Ok(Resp::Bool(false))) => (),
                Reply::TimedOut => {
                    drained(t)?;
                }
                other => return Err(format!("a slow request gave {:?}", other)),
            }
            let took = start.elapsed().as_millis() as u64;
            if took >= millis / 3 {
                s.reads = (s.reads as u64 * millis / took.max(1)).max(1) as usize;
                break;
            }
            s.reads *= 2;
            if s.reads > 200_000 {
                rep.count("not_slow_enough", 1);
                break;
            }
        }
        rep.count("slow_reads", s.reads as u64);
        Ok(s)
    }

    /// Slow, with this at the end
    pub fn text(&self, last: &str) -> String {
        format!("{}{}", format!("get {}; ", self.name).repeat(self.reads), last)
    }

}

/// Wait for the effect of a request whose sender waited in vain: others may have overtaken it
pub fn stored(t: &dyn Target, name: &str) -> Result<(), String> {
    let start = Instant::now();
    loop {
        match t.ask("read", &format!("ex {}", name)) {
            Reply::Answer(Ok(Resp::Bool(true))) => return Ok(()),
            Reply::Answer(Ok(Resp::Bool(false))) | Reply::TimedOut if start.elapsed().as_secs() < 120 => std::thread::sleep(std::time::Duration::from_millis(50)),
            other => return Err(format!("after set {} timed out, ex {} gave {:?} for 120 s", name, name, other)),
        }
    }
}

/// Wait until whatever was handed to the executor so far was executed
pub fn drained(t: &dyn Target) -> Result<(), String> {
    let start = Instant::now();
    loop {
        match t.ask("read", "ex nothing_at_all") {
            Reply::Answer(Ok(Resp::Bool(false))) => return Ok(()),
            Reply::TimedOut if start.elapsed().as_secs() < 120 => std::thread::sleep(std::time::Duration::from_millis(100)),
            other => return Err(format!("after slow requests a read gave {:?}", other)),
        }
    }
}

/// Requests that take longer than somebody waits for them, and others behind them: each takes effect as a whole and at
/// most once, exactly once if it was answered
pub fn late_run(t: &dyn Target, seed: u64, millis: u64, rounds: usize, rep: &mut Report) -> Result<(), String> {
    let slow = Slow::calibrate(t, millis, rep)?;
    for round in 0..rounds {
        let run = RUN.fetch_add(1, Ordering::Relaxed);
        let base = Instant::now();
        let at = || base.elapsed().as_nanos() as u64;
        let names: Vec<String> = (0..2).map(|i| format!("y{}_{}", run, i)).collect();
        for n in &names {
            match t.ask("admin", &format!("set {} int []", n)) {
                Reply::Answer(Ok(Resp::Message)) => (),
                Reply::TimedOut => stored(t, n)?,
                other => return Err(format!("set answered {:?}", other)),
            }
        }
        drained(t)?;
        let next = AtomicI64::new(1);
        let appends = Mutex::new(vec![]);
        let broken: Mutex<Option<String>> = Mutex::new(None);
        std::thread::scope(|s| {
            for c in 0..5u64 {
                let (names, next, appends, broken, at, slow) = (&names, &next, &appends, &broken, &at, &slow);
                s.spawn(move || {
                    let mut r = Rng::for_case(seed, "late", run * 1000 + round as u64 * 10 + c);
                    for i in 0..4 {
                        std::thread::sleep(std::time::Duration::from_millis(r.below(250) as u64));
                        let id = next.fetch_add(1, Ordering::Relaxed);
                        let l = r.below(2);
                        let lists = if r.pct(50) { vec![l, 1 - l] } else { vec![l] };
                        let own: String = lists.iter().map(|l| format!("vpush {} {}; ", names[*l], id)).collect();
                        let read = format!("get {}", names[l]);
                        // two slow ones a round
                        let q = if i == 0 && c < 2 {
                            match r.below(3) {
                                0 => slow.text(&format!("{}{}", own, read)),
                                1 => format!("{}{}", own, slow.text(&read)),
                                _ if lists.len() == 2 => format!("vpush {} {}; {}", names[l], id, slow.text(&format!("vpush {} {}; {}", names[1 - l], id, read))),
                                _ => format!("{}{}", own, slow.text(&read)),
                            }
                        } else {
                            format!("{}{}", own, read)
                        };
                        let start = at();
                        let reply = t.ask("write", &q);
                        let end = at();
                        let mut a = Append { start, end: Some(end), id, lists, saw: None };
                        match reply {
                            Reply::Answer(Ok(Resp::Value(v))) if ints(&v).is_some() => a.saw = ints(&v),
                            Reply::TimedOut => a.end = None,
                            other => *broken.lock().unwrap() = Some(format!("{} gave {:?}", &q[q.len().saturating_sub(200)..], other)),
                        }
                        appends.lock().unwrap().push(a);
                        if broken.lock().unwrap().is_some() {
                            return;
                        }
                    }
                });
            }
        });
        if let Some(b) = broken.into_inner().unwrap() {
            return Err(b);
        }
        let appends: Vec<Append> = appends.into_inner().unwrap();
        drained(t)?;
        // whatever still comes late
        std::thread::sleep(std::time::Duration::from_millis(millis + 1200));
        drained(t)?;
        let fin = settled(t, &names)?;
        let open = appends.iter().filter(|a| a.end.is_none()).count();
        rep.count("late_round_appends", appends.len() as u64);
        rep.count("late_answers", open as u64);
        rep.count("late_effects", appends.iter().filter(|a| a.end.is_none() && fin[a.lists[0]].contains(&a.id)).count() as u64);
        lin::check_appends(&appends, &[], &fin)?;
        rep.case(Some(hash_of(&(run, &fin))));
    }
    Ok(())
}
