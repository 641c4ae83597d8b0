//! The TCP stream handlers of the library, used without any server around them: what becomes of a connection.

use std::collections::HashMap;
use std::io::Write;
use std::net::{IpAddr, Ipv4Addr, Shutdown, SocketAddr, TcpListener, TcpStream};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

use serde_json::json;
use server::analysis::InterpreterResponse;
use server::error::{get_error_code, ServerError};
use server::io::stream::{StreamHandler, StreamSender};
use server::io::{tcp, tcp_async};

use crate::gen;
use crate::http::{self, Got};
use crate::report::{hash_of, Report};
use crate::rng::Rng;

type Fail = (&'static str, String);
type Outcome = Result<(), Fail>;
type ServerAnswer = Result<InterpreterResponse, ServerError>;

enum Handler {
    Plain(tcp::TcpStreamHandler),
    Async(tokio::runtime::Runtime, tcp_async::TcpStreamHandler),
}

enum Back {
    Plain(Box<dyn StreamSender + Send>),
    Async(tcp_async::TcpStreamSender),
}

struct Taken {
    request: Result<String, ServerError>,
    headers: HashMap<String, String>,
    back: Option<Back>,
}

fn runtime(threads: usize) -> tokio::runtime::Runtime {
    let mut b = if threads == 0 { tokio::runtime::Builder::new_current_thread() } else { tokio::runtime::Builder::new_multi_thread() };
    if threads > 0 {
        b.worker_threads(threads);
    }
    b.enable_all().build().expect("no runtime")
}

impl Handler {
    fn new(kind: usize, ip: IpAddr, port: u16) -> Handler {
        if kind == 0 {
            return Handler::Plain(tcp::TcpStreamHandler::new(ip, port as usize));
        }
        let rt = runtime(kind - 1);
        let h = rt.block_on(tcp_async::TcpStreamHandler::new(ip, port as usize));
        Handler::Async(rt, h)
    }

    fn take(&mut self) -> Option<Taken> {
        match self {
            Handler::Plain(h) => h.receive_request().map(|q| Taken { request: q.request, headers: q.headers, back: q.sender.map(Back::Plain) }),
            Handler::Async(rt, h) => {
                let q = rt.block_on(h.receive_request());
                Some(Taken { request: q.request, headers: q.headers, back: q.sender.map(Back::Async) })
            }
        }
    }

    fn answer(&self, back: &mut Back, answer: ServerAnswer) -> Result<(), ServerError> {
        match (self, back) {
            (_, Back::Plain(b)) => b.send(answer),
            (Handler::Async(rt, _), Back::Async(b)) => rt.block_on(b.send(answer)),
            _ => unreachable!(),
        }
    }
}

/// What a client sends, and what has to come of it
struct Plan {
    id: String,
    bytes: Vec<u8>,
    cuts: Vec<usize>,
    pause: Duration,
    /// the query, if the request can be read
    query: Option<String>,
    headers: Vec<(String, Vec<u8>)>,
    /// nothing more is sent: the other end must see that
    ends: bool,
    /// goes away without waiting for an answer
    leaves: bool,
}

fn trimmed(v: &[u8]) -> Vec<u8> {
    let blank = |c: &u8| *c == b' ' || *c == b'\t';
    let from = v.iter().position(|c| !blank(c)).unwrap_or(v.len());
    let to = v.iter().rposition(|c| !blank(c)).map_or(from, |i| i + 1);
    v[from..to].to_vec()
}

fn any_header(r: &mut Rng, i: usize) -> (String, Vec<u8>) {
    let name = match r.below(8) {
        0 => format!("x{}", i),
        1 => format!("X{}", i),
        2 => format!("!#$%&'*+-.^_`|~{}", i),
        3 => r.pick(&["Username", "username", "USERNAME", "Accept", "Cookie", "Transfer", "query"]).to_string(),
        4 => format!("long-{}-{}", "n".repeat(r.below(300)), i),
        5 => r.pick(&["Content-Lengths", "X-Content-Length", "Content", "Length"]).to_string(),
        _ => format!("Name-{}", r.below(40)),
    };
    let value: Vec<u8> = match r.below(9) {
        0 => vec![],
        1 => b"admin".to_vec(),
        2 => b"a b\tc  d: e, f".to_vec(),
        3 => "\u{e9}\u{1f600} \u{2028}".into(),
        // no UTF-8
        4 => vec![b'a', 0xff, 0xfe, b'b'],
        5 => (0..r.below(2500)).map(|_| b'!' + r.below(90) as u8).collect(),
        6 => b"  \t".to_vec(),
        7 => r.range(0, 1 << 40).to_string().into_bytes(),
        _ => (0..r.range(1, 40)).map(|_| b'!' + r.below(90) as u8).collect(),
    };
    (name, value)
}

fn escaped(r: &mut Rng, s: &str) -> String {
    let all = r.pct(50);
    let mut o = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' || (c as u32) < 32 || (all && r.pct(40)) {
            for u in c.encode_utf16(&mut [0; 2]) {
                o.push_str(&if r.pct(50) { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) });
            }
        } else {
            o.push(c);
        }
    }
    o.push('"');
    o
}

fn body_with(r: &mut Rng, query: &str) -> Vec<u8> {
    let q = match r.below(3) {
        0 => http::json_string(query),
        _ => escaped(r, query),
    };
    let sp = |r: &mut Rng| r.pick(&["", "", " ", "\n\t", "\r\n"]).to_string();
    let mut fields = vec![];
    for i in 0..r.below(3) {
        fields.push(format!("\"{}{}\"{}:{}{}", r.pick(&["other", "Query", "querY", "query "]), i, sp(r), sp(r), r.pick(&["1", "null", "\"get x\"", "{\"query\":\"no\"}", "[1,[2]]", "-1.5e3"])));
    }
    let at = r.below(fields.len() + 1);
    fields.insert(at, format!("\"query\"{}:{}{}", sp(r), sp(r), q));
    format!("{}{{{}{}{}}}{}", sp(r), sp(r), fields.join(&format!(",{}", sp(r))), sp(r), sp(r)).into_bytes()
}

fn a_plan(r: &mut Rng, id: String) -> Plan {
    let most = if r.pct(10) { 300_000 } else { 5000 };
    let text = match r.below(12) {
        0 => "q".repeat(r.range(1, most)),
        1 => String::new(),
        2 | 3 => crate::texts::fringed(r, String::new(), 100),
        _ => gen::gen_string(r, false),
    };
    let query = if r.pct(3) { String::new() } else { crate::texts::fringed(r, format!("{}|{}", id, text), 10) };
    let mut body = body_with(r, &query);
    let n = *r.pick(&[0usize, 1, 2, 5, 12, 29, 30]);
    let mut headers: Vec<(String, Vec<u8>)> = (0..n).map(|i| any_header(r, i)).collect();
    let at = r.below(headers.len() + 1);
    headers.insert(at, ("Id".into(), id.clone().into_bytes()));
    let mut readable = true;
    let mut ends = r.pct(10);
    let mut method = "POST".to_string();
    let mut length = body.len().to_string();
    let mut announce = true;
    let mut keep = usize::MAX;
    if r.pct(30) {
        readable = false;
        match r.below(11) {
            0 => method = r.pick(&["GET", "PUT", "post", "POSTS", "DELETE"]).to_string(),
            1 => length = r.pick(&["", "x", "-1", "1.0", "99999999999999999999999", "0x10", "1 2", "\u{e9}"]).to_string(),
            2 => body = r.pick(&["", "query", "{}", "[]", "{\"query\":1}", "{\"query\":null}", "{\"Query\":\"get a\"}", "\"get a\"", "{\"query\":[\"get a\"]}", "null"]).as_bytes().to_vec(),
            3 => {
                // one byte of the text is not UTF-8
                let at = body.iter().position(|c| *c == b'|').unwrap_or(0);
                body.splice(at..at, [0xffu8]);
            }
            4 => (ends, keep) = (true, r.below(200)),
            5 => (ends, keep) = (true, usize::MAX - 1 - r.below(9)),
            6 => headers = (0..r.range(33, 90)).map(|i| (format!("h{}", i), b"v".to_vec())).collect(),
            7 => headers.push((r.pick(&["a b", "\u{e9}", "a\u{0}", "(x)"]).to_string(), b"v".to_vec())),
            8 => (announce, ends) = (false, true),
            9 => method = "\u{1}\u{2}".into(),
            // the text ends within the JSON
            _ => {
                let n = body.iter().rposition(|c| *c == b'}').unwrap_or(1);
                body.truncate(n)
            }
        }
        if length.parse::<usize>().is_ok() {
            length = body.len().to_string();
        }
    }
    if announce {
        let at = r.below(headers.len() + 1);
        headers.insert(at, (r.pick(&["Content-Length", "content-length", "CONTENT-LENGTH"]).to_string(), length.into_bytes()));
    }
    let mut bytes = format!("{} {} HTTP/1.{}\r\n", method, r.pick(&["/", "/x?y=z", "*", "http://h/"]), r.below(2)).into_bytes();
    for (n, v) in &headers {
        bytes.extend(n.as_bytes());
        bytes.push(b':');
        let front = *r.pick(&["", " ", " ", "  ", "\t "]);
        bytes.extend(front.as_bytes());
        bytes.extend(v);
        let back = *r.pick(&["", "", "", " ", "\t"]);
        bytes.extend(back.as_bytes());
        bytes.extend(b"\r\n");
    }
    bytes.extend(b"\r\n");
    bytes.extend(&body);
    if keep >= usize::MAX - 10 && keep != usize::MAX {
        // all but the last few
        keep = bytes.len().saturating_sub(usize::MAX - keep);
    }
    if keep != usize::MAX {
        keep = keep.min(bytes.len() - 1);
    }
    bytes.truncate(keep);
    let n = *r.pick(&[0usize, 0, 1, 2, 6]);
    let mut cuts: Vec<usize> = (0..n).map(|_| r.below(bytes.len() + 1)).collect();
    if r.pct(10) {
        // just around the end of the head and around multiples of a kilobyte
        let end = bytes.windows(4).position(|w| w == b"\r\n\r\n").unwrap_or(0);
        cuts.extend((0..6).map(|d| end + d));
    }
    if r.pct(10) {
        cuts.extend((1..20).map(|k| k * 1024 + 1).step_by(r.range(1, 4)));
    }
    cuts.retain(|c| *c > 0 && *c < bytes.len());
    cuts.sort();
    cuts.dedup();
    let pause = Duration::from_micros(*r.pick(&[0u64, 300, 2000]));
    Plan { id, bytes, cuts, pause, query: if readable { Some(query) } else { None }, headers, ends, leaves: r.pct(5) }
}

/// Send as planned and read what comes back
fn carry_out(p: &Plan, s: &mut TcpStream) -> Got {
    let mut from = 0;
    for to in p.cuts.iter().copied().chain([p.bytes.len()]) {
        if s.write_all(&p.bytes[from..to]).is_err() {
            break;
        }
        from = to;
        std::thread::sleep(p.pause);
    }
    if p.leaves {
        s.shutdown(Shutdown::Both).ok();
        return Got::Closed;
    }
    if p.ends {
        s.shutdown(Shutdown::Write).ok();
    }
    http::read_all(s)
}

fn any_answer(r: &mut Rng, token: &str) -> ServerAnswer {
    let big = r.pct(5);
    let text = format!("{}|{}", token, gen::gen_string(r, big));
    if r.pct(60) {
        return Ok(InterpreterResponse::Message(text));
    }
    Err(match r.below(6) {
        0 => ServerError::KeyError(text),
        1 => ServerError::ParseError(text),
        2 => ServerError::InternalError(text),
        3 => ServerError::AuthenticationError(text),
        4 => ServerError::AuthorizationError(text),
        _ => ServerError::RequestError(text),
    })
}

fn show(p: &Plan) -> String {
    let s = String::from_utf8_lossy(&p.bytes[..p.bytes.len().min(700)]).to_string();
    format!("{} bytes {:?}", p.bytes.len(), s)
}

/// Is this the request of the plan?
fn right(p: &Plan, t: &Taken) -> Outcome {
    match (&p.query, &t.request) {
        (Some(q), Ok(text)) if q == text => (),
        (Some(q), got) => return Err(("request", format!("{:?} instead of {:?} from {}", cut(&format!("{:?}", got)), cut(q), show(p)))),
        (None, Err(_)) => return Ok(()),
        (None, Ok(text)) => return Err(("request", format!("{:?} made of {}", cut(text), show(p)))),
    }
    for (name, value) in &t.headers {
        if !p.headers.iter().any(|(n, v)| n == name && trimmed(v) == value.as_bytes()) {
            return Err(("headers", format!("header {:?}: {:?} was not sent: {}", name, cut(value), show(p))));
        }
    }
    for (name, value) in &p.headers {
        if std::str::from_utf8(value).is_ok() && !t.headers.contains_key(name) {
            return Err(("headers", format!("header {:?} is missing: {}", name, show(p))));
        }
    }
    Ok(())
}

fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}

fn round(seed: u64, thread: usize, round: u64, kind: usize, rep: &mut Report) -> Outcome {
    let mut r = Rng::for_case(seed, "handlers", round * 10 + kind as u64);
    // no two threads use the same
    let ip = match thread {
        0 => Ipv4Addr::LOCALHOST,
        _ => Ipv4Addr::new(127, thread as u8, r.below(3) as u8, r.range(1, 9) as u8),
    };
    let mut made = None;
    for _ in 0..20 {
        let port = TcpListener::bind((ip, 0)).expect("no port").local_addr().expect("no port").port();
        if let Ok(h) = catch_unwind(AssertUnwindSafe(|| Handler::new(kind, IpAddr::V4(ip), port))) {
            made = Some((h, port));
            break;
        }
    }
    let Some((mut handler, port)) = made else { return Err(("deaf", "no handler can be made".into())) };
    let addr = SocketAddr::new(IpAddr::V4(ip), port);
    let other = SocketAddr::new(IpAddr::V4(Ipv4Addr::new(127, 77, 7, 7)), port);
    if TcpStream::connect_timeout(&other, Duration::from_secs(5)).is_ok() {
        return Err(("elsewhere", format!("a handler for {} also takes connections to {}", addr, other)));
    }
    let mut serial = 0;
    for batch in 0..r.range(4, 12) {
        let k = *r.pick(&[1usize, 2, 3, 6, 12]);
        let mut clients = vec![];
        for _ in 0..k {
            let plan = a_plan(&mut r, format!("c{}_{}_{}", round, batch, serial));
            serial += 1;
            let s = TcpStream::connect_timeout(&addr, Duration::from_secs(20)).map_err(|e| ("deaf", format!("cannot connect to {}: {}", addr, e)))?;
            s.set_nodelay(true).ok();
            s.set_read_timeout(Some(http::PATIENCE)).ok();
            s.set_write_timeout(Some(http::PATIENCE)).ok();
            clients.push((plan, s));
        }
        let mut taken: Vec<(Taken, Option<ServerAnswer>)> = vec![];
        let late = r.pct(40);
        let mut asked = Rng::for_case(seed, "answers", round * 1000 + batch as u64);
        let results: Vec<Got> = std::thread::scope(|sc| -> Result<Vec<Got>, Fail> {
            let hs: Vec<_> = clients.iter_mut().map(|(p, s)| sc.spawn(move || carry_out(p, s))).collect();
            let mut todo: Vec<usize> = vec![];
            let mut bad = None;
            for i in 0..k {
                let Some(t) = handler.take() else {
                    bad = Some(("refused", "a handler gave no request any more".to_string()));
                    break;
                };
                if t.back.is_none() {
                    bad = Some(("no_sender", format!("no way back for {:?}", t.request)));
                }
                let a = if asked.pct(92) { Some(any_answer(&mut asked, &format!("t{}_{}", batch, i))) } else { None };
                taken.push((t, a));
                todo.push(i);
                if !late {
                    // the ones that wait, in any order
                    while !todo.is_empty() && asked.pct(60) {
                        let i = todo.remove(asked.below(todo.len()));
                        give(&handler, &mut taken[i]);
                    }
                }
            }
            asked.shuffle(&mut todo);
            for i in todo {
                give(&handler, &mut taken[i]);
            }
            // nobody gets an answer any more
            for (t, _) in taken.iter_mut() {
                t.back = None;
            }
            let got = hs.into_iter().map(|h| h.join().expect("client")).collect();
            bad.map_or(Ok(got), Err)
        })?;
        judge(&clients, &taken, &results, rep)?;
    }
    // what was taken before can be answered when the handler is gone
    let plan = Plan { id: "last".into(), bytes: http::request(None, "last|x"), cuts: vec![], pause: Duration::ZERO, query: Some("last|x".into()), headers: vec![], ends: false, leaves: false };
    let mut s = TcpStream::connect_timeout(&addr, Duration::from_secs(20)).map_err(|e| ("deaf", format!("cannot connect to {}: {}", addr, e)))?;
    s.write_all(&plan.bytes).ok();
    let mut t = handler.take().ok_or(("refused", "a handler gave no request any more".to_string()))?;
    if let (Handler::Plain(h), Some(Back::Plain(b))) = (handler, t.back.as_mut()) {
        drop(h);
        if thread != 0 && TcpStream::connect_timeout(&addr, Duration::from_secs(5)).is_ok() {
            return Err(("left_open", format!("{} is still open when the handler is gone", addr)));
        }
        let sent = b.send(Ok(InterpreterResponse::Message("bye".into())));
        t.back = None;
        match http::read_all(&mut s) {
            Got::Response(raw) if sent.is_ok() && String::from_utf8_lossy(&raw.payload).contains("bye") => rep.count("answers_without_handler", 1),
            got => return Err(("answer", format!("{:?}, {:?} when the handler is gone", sent, got))),
        }
    }
    rep.count("handlers", 1);
    Ok(())
}

fn give(h: &Handler, t: &mut (Taken, Option<ServerAnswer>)) {
    if let (Some(back), Some(a)) = (t.0.back.as_mut(), &t.1) {
        // nobody may be there any more
        h.answer(back, a.clone()).ok();
    }
    t.0.back = None;
}

fn judge(clients: &[(Plan, TcpStream)], taken: &[(Taken, Option<ServerAnswer>)], results: &[Got], rep: &mut Report) -> Outcome {
    let mut owner: Vec<Option<usize>> = vec![None; taken.len()];
    // the answers tell who was who
    for (i, ((p, _), got)) in clients.iter().zip(results).enumerate() {
        match got {
            Got::Response(raw) => {
                let mut whose = None;
                for (j, (_, a)) in taken.iter().enumerate() {
                    let Some(a) = a else { continue };
                    let (code, text) = match a {
                        Ok(x) => ("200".to_string(), serde_json::to_value(x).map_err(|e| ("answer", e.to_string()))?),
                        Err(e) => (get_error_code(e)[..3].to_string(), json!(format!("{}", e))),
                    };
                    let same = match a {
                        Ok(_) => serde_json::from_slice::<serde_json::Value>(&raw.payload).ok() == Some(text),
                        Err(_) => Some(&raw.payload[..]) == text.as_str().map(|s| s.as_bytes()),
                    };
                    if same && raw.status.to_string() == code {
                        whose = Some(j);
                    }
                }
                let Some(j) = whose else { return Err(("answer", format!("{} {:?} was given to nobody", raw.status, cut(&String::from_utf8_lossy(&raw.payload))))) };
                if let Some(k) = owner[j].replace(i) {
                    return Err(("mixed_up", format!("the same answer came to {} and {}", show(&clients[k].0), show(p))));
                }
                right(p, &taken[j].0)?;
                rep.count("answers", 1);
            }
            Got::Closed => (),
            // what was not read may destroy the answer on its way
            Got::Bad(_) if p.query.is_none() => (),
            other => return Err(("answer", format!("{:?} for {}", other, show(p)))),
        }
    }
    // those without: the text tells, or the number
    for (i, (p, _)) in clients.iter().enumerate() {
        if owner.contains(&Some(i)) {
            continue;
        }
        let free: Vec<usize> = (0..taken.len()).filter(|j| owner[*j].is_none()).collect();
        let mine = |t: &Taken| t.request.as_ref().map_or(false, |x| x.trim_start_matches(crate::texts::FRINGE).starts_with(&format!("{}|", p.id)) || t.headers.get("Id") == Some(&p.id));
        let found = match free.iter().find(|j| mine(&taken[**j].0)) {
            Some(j) => Some(*j),
            None if p.query.is_some() && !p.leaves => None,
            None => free.iter().find(|j| taken[**j].0.request.is_err()).copied(),
        };
        let Some(j) = found else { return Err(("lost", format!("no request made of {}", show(p)))) };
        owner[j] = Some(i);
        if !p.leaves {
            if taken[j].1.is_some() && p.query.is_some() {
                return Err(("no_answer", format!("{:?} was not delivered to {}", taken[j].1, show(p))));
            }
            right(p, &taken[j].0)?;
        } else if taken[j].0.request.is_ok() {
            right(p, &taken[j].0)?;
        }
        rep.count("unanswered", 1);
    }
    for (p, _) in clients {
        rep.count(if p.leaves { "clients_gone" } else if p.query.is_some() { "readable" } else { "unreadable" }, 1);
        rep.count("pieces", p.cuts.len() as u64 + 1);
        if p.query.is_some() {
            rep.count("headers", p.headers.len() as u64);
        }
        rep.case(Some(hash_of(&p.bytes)));
    }
    if rep.samples.len() < 20 {
        if let Some((p, _)) = clients.first() {
            rep.sample(json!({"sent": show(p)}));
        }
    }
    Ok(())
}

/// Handlers of both kinds, several at a time; or only the plain ones, when reads and writes are cut short from below: to
/// an asynchronous one a short read means that there is no more for now
pub fn handlers(thorough: bool, seed: u64, only_plain: bool, rep: &mut Report) -> Outcome {
    let rounds = if thorough { 30_000u64 } else { 1200 };
    let (tx, rx) = mpsc::channel();
    let next = Arc::new(AtomicU64::new(0));
    let beat = Arc::new(Mutex::new(vec![(Instant::now(), String::new()); 6]));
    for i in 0..6usize {
        let (tx, next, beat) = (tx.clone(), Arc::clone(&next), Arc::clone(&beat));
        std::thread::spawn(move || {
            let mut own = Report::new();
            let mut out = Ok(());
            while out.is_ok() {
                let n = next.fetch_add(1, Ordering::SeqCst);
                if n >= rounds {
                    break;
                }
                let kind = if only_plain { 0 } else { [0usize, 1, 0, 3][n as usize % 4] };
                beat.lock().unwrap()[i] = (Instant::now(), format!("round {}", n));
                out = catch_unwind(AssertUnwindSafe(|| round(seed, i, n, kind, &mut own)))
                    .unwrap_or_else(|e| Err(("panic", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())))
                    .map_err(|(sig, d)| (sig, format!("round {} ({}): {}", n, ["TcpStreamHandler", "async TcpStreamHandler"][kind.min(1)], d)));
            }
            beat.lock().unwrap()[i] = (Instant::now() + Duration::from_secs(100_000), String::new());
            tx.send((own, out)).ok();
        });
    }
    drop(tx);
    let mut all = Ok(());
    for _ in 0..6 {
        loop {
            match rx.recv_timeout(Duration::from_secs(1)) {
                Ok((own, out)) => {
                    rep.merge(own);
                    if all.is_ok() {
                        all = out;
                    }
                    break;
                }
                Err(_) => {
                    let now = Instant::now();
                    if let Some((_, what)) = beat.lock().unwrap().iter().find(|(at, _)| now.saturating_duration_since(*at) > Duration::from_secs(150)) {
                        return all.and(Err(("stuck", format!("{}: a handler did not come back", what))));
                    }
                }
            }
        }
        if all.is_err() {
            break;
        }
    }
    all
}
