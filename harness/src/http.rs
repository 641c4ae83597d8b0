//! A client that sends exactly the bytes it is told to and decodes responses.

use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::time::{Duration, Instant};

use crate::model::{ek_from_name, resp_from_json, status_of, Answer};

/// Far longer than any answer takes, so that running into it means there is none
pub const PATIENCE: Duration = Duration::from_secs(60);

#[derive(Clone, Debug)]
pub struct Raw {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub payload: Vec<u8>,
}

#[derive(Clone, Debug)]
pub enum Got {
    Response(Raw),
    /// closed or reset without a response
    Closed,
    /// something that is not a complete response
    Bad(String),
    /// nothing more came for a long time
    Silence(String),
    CannotConnect(String),
}

pub fn json_string(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

pub fn body_of(query: &str) -> String {
    format!("{{\"query\":{}}}", json_string(query))
}

pub fn request_with_body(user: Option<&str>, body: &[u8]) -> Vec<u8> {
    let mut o = format!("POST / HTTP/1.1\r\nHost: localhost\r\n").into_bytes();
    if let Some(u) = user {
        o.extend(format!("Username: {}\r\n", u).bytes());
    }
    o.extend(format!("Content-Type: application/json\r\nContent-Length: {}\r\n\r\n", body.len()).bytes());
    o.extend(body);
    o
}

pub fn request(user: Option<&str>, query: &str) -> Vec<u8> {
    request_with_body(user, body_of(query).as_bytes())
}

pub fn connect(port: u16) -> Result<TcpStream, String> {
    let addr: SocketAddr = format!("127.0.0.1:{}", port).parse().unwrap();
    let s = TcpStream::connect_timeout(&addr, Duration::from_secs(20)).map_err(|e| e.to_string())?;
    s.set_nodelay(true).ok();
    s.set_read_timeout(Some(PATIENCE)).ok();
    s.set_write_timeout(Some(PATIENCE)).ok();
    Ok(s)
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

/// Split the bytes of a whole connection into a response
pub fn parse_response(b: &[u8]) -> Result<Raw, String> {
    let show = || String::from_utf8_lossy(&b[..b.len().min(200)]).to_string();
    let (head_end, body_start) = match (find(b, b"\r\n\r\n"), find(b, b"\n\n")) {
        (Some(a), Some(c)) if c < a => (c, c + 2),
        (Some(a), _) => (a, a + 4),
        (None, Some(c)) => (c, c + 2),
        (None, None) => return Err(format!("response without end of head: {:?}", show())),
    };
    let head = std::str::from_utf8(&b[..head_end]).map_err(|_| "head is not UTF-8".to_string())?;
    let mut lines = head.lines();
    let first = lines.next().unwrap_or("");
    let mut w = first.splitn(3, ' ');
    if !w.next().unwrap_or("").starts_with("HTTP/1.") {
        return Err(format!("bad status line {:?}", first));
    }
    let status: u16 = w.next().unwrap_or("").parse().map_err(|_| format!("bad status line {:?}", first))?;
    let mut headers = vec![];
    for l in lines {
        match l.split_once(':') {
            Some((k, v)) => headers.push((k.trim().to_ascii_lowercase(), v.trim().to_string())),
            None => return Err(format!("bad header line {:?}", l)),
        }
    }
    let cl: Vec<&(String, String)> = headers.iter().filter(|h| h.0 == "content-length").collect();
    if cl.len() != 1 {
        return Err(format!("{} content lengths", cl.len()));
    }
    let n: usize = cl[0].1.parse().map_err(|_| format!("bad content length {:?}", cl[0].1))?;
    let body = &b[body_start..];
    if body.len() < n {
        return Err(format!("content length {} but only {} bytes of payload", n, body.len()));
    }
    // a final line break after the payload is tolerated
    if body[n..].iter().any(|c| !matches!(c, b'\r' | b'\n')) || body.len() > n + 2 {
        return Err(format!("content length {} but {} bytes of payload", n, body.len()));
    }
    Ok(Raw { status, headers, payload: body[..n].to_vec() })
}

/// Read until the server closes the connection
pub fn read_all(s: &mut TcpStream) -> Got {
    let mut buf = vec![];
    let mut tmp = [0u8; 65536];
    loop {
        match s.read(&mut tmp) {
            Ok(0) => break,
            Ok(n) => buf.extend(&tmp[..n]),
            Err(e) if e.kind() == ErrorKind::Interrupted => (),
            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {
                return match parse_response(&buf) {
                    Ok(_) => Got::Silence("a response, but the connection was not closed".into()),
                    Err(e) => Got::Silence(format!("{} bytes: {}", buf.len(), e)),
                }
            }
            Err(_) => break,
        }
    }
    if buf.is_empty() {
        return Got::Closed;
    }
    match parse_response(&buf) {
        Ok(r) => Got::Response(r),
        Err(e) => Got::Bad(e),
    }
}

pub fn send_all(s: &mut TcpStream, b: &[u8]) -> bool {
    s.write_all(b).is_ok()
}

/// Send the bytes at once and read the answer
pub fn exchange(port: u16, bytes: &[u8]) -> Got {
    let mut s = match connect(port) {
        Ok(s) => s,
        Err(e) => return Got::CannotConnect(e),
    };
    send_all(&mut s, bytes);
    read_all(&mut s)
}

/// As exchange, but the client stops sending after its last byte
pub fn exchange_half_closed(port: u16, bytes: &[u8]) -> Got {
    let mut s = match connect(port) {
        Ok(s) => s,
        Err(e) => return Got::CannotConnect(e),
    };
    send_all(&mut s, bytes);
    s.shutdown(Shutdown::Write).ok();
    read_all(&mut s)
}

/// Send in pieces cut at the given places, with a pause after each
pub fn exchange_pieces(port: u16, bytes: &[u8], cuts: &[usize], pause: Duration) -> Got {
    let mut s = match connect(port) {
        Ok(s) => s,
        Err(e) => return Got::CannotConnect(e),
    };
    let mut at = 0;
    for &c in cuts.iter().chain(std::iter::once(&bytes.len())) {
        if c > at && c <= bytes.len() {
            if !send_all(&mut s, &bytes[at..c]) {
                break;
            }
            at = c;
            if at < bytes.len() && !pause.is_zero() {
                std::thread::sleep(pause);
            }
        }
    }
    read_all(&mut s)
}

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, val: *const i32, len: u32) -> i32;
}

/// Make the close of a connection a reset
pub fn reset_on_close(s: &TcpStream) {
    use std::os::fd::AsRawFd;
    let linger = [1i32, 0];
    unsafe { setsockopt(s.as_raw_fd(), 1, 13, linger.as_ptr(), 8) };
}

pub fn receive_buffer(s: &TcpStream, n: i32) {
    use std::os::fd::AsRawFd;
    unsafe { setsockopt(s.as_raw_fd(), 1, 8, &n, 4) };
}

/// What a response says, in the terms of the specification; also checks that status and payload agree
pub fn decode(r: &Raw) -> Result<Answer, String> {
    let text = std::str::from_utf8(&r.payload).map_err(|_| format!("status {} with a payload that is not UTF-8", r.status))?;
    let show: String = text.chars().take(200).collect();
    if r.status == 200 {
        let j: serde_json::Value = serde_json::from_str(text).map_err(|e| format!("payload is not JSON ({}): {}", e, show))?;
        return resp_from_json(&j).map(Ok);
    }
    let name = text.split(':').next().unwrap_or("");
    match ek_from_name(name) {
        None => Err(format!("status {} with a payload that names no error kind: {:?}", r.status, show)),
        Some(k) if status_of(k) != r.status => Err(format!("status {} with error {:?}", r.status, show)),
        Some(k) => Ok(Err(k)),
    }
}

/// The multi-threaded server gives up on a request after a second; on a loaded machine that can happen to any
pub fn is_timeout(r: &Raw) -> bool {
    r.status >= 500 && says_timeout(&String::from_utf8_lossy(&r.payload))
}

/// Does a message say that the server gave up waiting? However it is worded
pub fn says_timeout(m: &str) -> bool {
    let m = m.to_lowercase();
    ["timed out", "timeout", "time out", "timed-out", "time-out", "deadline", "too long", "time limit", "no response in time"].iter().any(|w| m.contains(w))
}

#[derive(Clone, Debug)]
pub enum Reply {
    Answer(Answer),
    TimedOut,
    Broken(String),
}

pub fn reply_of(g: Got) -> Reply {
    match g {
        Got::Response(r) if is_timeout(&r) => Reply::TimedOut,
        Got::Response(r) => match decode(&r) {
            Ok(a) => Reply::Answer(a),
            Err(e) => Reply::Broken(e),
        },
        Got::Closed => Reply::Broken("connection closed without a response".into()),
        Got::Bad(e) => Reply::Broken(e),
        Got::Silence(e) => Reply::Broken(format!("no end of the response in {} s: {}", PATIENCE.as_secs(), e)),
        Got::CannotConnect(e) => Reply::Broken(format!("cannot connect: {}", e)),
    }
}

pub fn ask(port: u16, user: &str, query: &str) -> Reply {
    reply_of(exchange(port, &request(Some(user), query)))
}

/// Ask something that may safely be repeated until it is not answered by a timeout
pub fn ask_again(port: u16, user: &str, query: &str) -> Reply {
    let t = Instant::now();
    loop {
        match ask(port, user, query) {
            Reply::TimedOut if t.elapsed() < PATIENCE => std::thread::sleep(Duration::from_millis(200)),
            other => return other,
        }
    }
}
