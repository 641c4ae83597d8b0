LIS = "multithreaded/listener.rs"
ANA = "multithreaded/analysis.rs"
EXE = "multithreaded/executor.rs"
TCP = "io/tcp.rs"
TCPA = "io/tcp_async.rs"
ASY = "async.rs"
TY = "storage/types.rs"


def bug(id, prop, edits, py, needs, breaks):
    return {"id": id, "property": prop, "edits": edits, "py": py, "needs": needs, "breaks": breaks}


def rs(id, prop, edits, code, needs, breaks):
    return {"id": id, "property": prop, "edits": edits, "rs": code, "needs": needs, "breaks": breaks}


SLOW = r'''
def slow(ms=2500):
    """The text of a request that keeps the executor busy for about this long"""
    check(ask("set big int [%s]" % ",".join("1" for _ in range(20000)), "write"), "set")
    n = 20
    while True:
        t = time.time()
        ask("vlen big;" * n)
        t = time.time() - t
        if t > 0.2:
            return "vlen big;" * int(n * ms / 1000 / t)
        n *= 2


def background(q, user="write"):
    t = threading.Thread(target=lambda: ask(q, user))
    t.start()
    time.sleep(0.4)
    return t
'''

PIPE = r'''#![allow(dead_code, unused_imports)]
use server::analysis::*;
use server::auth::*;
use server::error::ServerError;
use server::io::stream::*;
use server::multithreaded::analysis::*;
use server::multithreaded::executor::*;
use server::multithreaded::listener::*;
use std::collections::HashMap;
use std::sync::atomic::*;
use std::sync::mpsc::{self, *};
use std::sync::*;
use std::thread;
use std::time::*;

type Answer = Result<InterpreterResponse, ServerError>;

struct Back(Sender<Answer>);
impl StreamSender for Back {
    fn send(&mut self, response: Answer) -> Result<(), ServerError> {
        self.0.send(response).map_err(|_| ServerError::NetworkError("gone".to_string()))
    }
}

/// Requests come from a channel
struct Source(Receiver<StreamRequest>);
impl StreamHandler for Source {
    fn receive_request(&mut self) -> Option<StreamRequest> {
        self.0.recv_timeout(Duration::from_millis(5)).ok()
    }
}

struct Pipeline {
    to: Mutex<Sender<StreamRequest>>,
    listeners: ListenerPool<Source, MockAuthenticator>,
    analyzers: AnalysisPool,
    executor: Executor,
}

impl Pipeline {
    fn new(listeners: usize, analyzers: usize) -> Pipeline {
        let (to, from) = mpsc::channel();
        let (asend, arecv) = mpsc::channel();
        let (esend, erecv) = mpsc::channel();
        let mut listeners = ListenerPool::new(listeners, asend, Arc::new(Mutex::new(Source(from))), Arc::new(Mutex::new(MockAuthenticator)));
        let mut analyzers = AnalysisPool::new(analyzers, esend, Arc::new(Mutex::new(arecv)));
        let mut executor = Executor::new(erecv, Arc::new(AtomicBool::new(false)));
        executor.start();
        analyzers.start();
        listeners.start();
        Pipeline { to: Mutex::new(to), listeners, analyzers, executor }
    }
    fn send(&self, q: &str, user: &str) -> Receiver<Answer> {
        let (s, r) = mpsc::channel();
        let headers = HashMap::from([("Username".to_string(), user.to_string())]);
        self.to.lock().unwrap().send(StreamRequest { request: Ok(q.to_string()), headers, sender: Some(Box::new(Back(s))) }).unwrap();
        r
    }
    fn ask(&self, q: &str) -> String {
        match self.send(q, "admin").recv_timeout(Duration::from_secs(20)) {
            Ok(Ok(r)) => format!("{:?}", r),
            Ok(Err(e)) => format!("{}", e),
            Err(_) => "no answer".to_string(),
        }
    }
}

fn broken(what: String) -> ! {
    eprintln!("BROKEN: {}", what);
    std::process::exit(1);
}

fn main() {
'''

LOAD = r'''
    static BAD: AtomicBool = AtomicBool::new(false);
    std::panic::set_hook(Box::new(|i| {
        eprintln!("BROKEN: {}", i);
        BAD.store(true, Ordering::SeqCst);
    }));
    let p = Arc::new(Pipeline::new(16, 3));
    let end = Instant::now() + Duration::from_secs(60);
    let ts: Vec<_> = (0..24)
        .map(|_| {
            let p = p.clone();
            thread::spawn(move || {
                let mut n = 0;
                while Instant::now() < end && n < 4000 && !BAD.load(Ordering::SeqCst) {
                    n += 1;
                    if p.ask("ex a") == "no answer" {
                        broken("no answer".to_string());
                    }
                }
            })
        })
        .collect();
    for t in ts {
        t.join().unwrap();
    }
    let mut p = Arc::try_unwrap(p).ok().unwrap();
    p.listeners.stop();
    p.analyzers.stop();
    p.executor.stop();
    if BAD.load(Ordering::SeqCst) {
        std::process::exit(1);
    }
}
'''

BUGS = [
    rs("C09-sliced", "C09",
       [(ANA, "                let interpreter_request = InterpreterRequest{statements, authorization};\n",
         "                let mut statements = statements;\n"
         "                // Long requests run in slices, so that others do not have to wait for all of them\n"
         "                while statements.len() > 8 {\n"
         "                    let rest = statements.split_off(8);\n"
         "                    let (slice_sender, slice_receiver) = std::sync::mpsc::channel();\n"
         "                    self.send_response(ExecutorRequest{request: InterpreterRequest{statements, authorization}, sender: Some(slice_sender)});\n"
         "                    let response = match slice_receiver.recv() {\n"
         "                        Ok(response) => response,\n"
         "                        Err(_) => return,\n"
         "                    };\n"
         "                    let over = matches!(response.response, Err(_) | Ok(crate::analysis::InterpreterResponse::ShuttingDown));\n"
         "                    if over {\n"
         "                        if let Some(sender) = sender {\n"
         "                            let _ = sender.send(response);\n"
         "                        }\n"
         "                        return;\n"
         "                    }\n"
         "                    statements = rest;\n"
         "                }\n"
         "                let interpreter_request = InterpreterRequest{ statements, authorization };\n")],
       PIPE + r'''
    let p = Arc::new(Pipeline::new(4, 4));
    p.ask("set a 0");
    let end = Instant::now() + Duration::from_secs(8);
    let q = p.clone();
    let w = thread::spawn(move || {
        while Instant::now() < end {
            q.ask(&format!("set a 1; {} set a 0", "ex a; ".repeat(40)));
        }
    });
    while Instant::now() < end {
        let got = p.ask("get a");
        if got != "Value(Int(0))" {
            broken(format!("a request saw another one half done: {}", got));
        }
    }
    w.join().unwrap();
    std::process::exit(0);
}
''', "two concurrent requests, one of them with more than eight statements",
       "a long request is executed in several pieces, between which other requests run"),
    bug("C09-asked-again", "C09",
        [(LIS, "                Err(_) => Err(ServerError::InternalError(\"Command timed out.\".to_string())),\n            };\n",
          "                // Give it another chance\n"
          "                Err(_) => match self.convert_to_analysis_request(&request_string, &request.headers) {\n"
          "                    Ok((again, channel)) => {\n"
          "                        let _ = self.send_channel.send(again);\n"
          "                        match channel.recv_timeout(self.receive_timeout) {\n"
          "                            Ok(resp) => resp.response,\n"
          "                            Err(_) => Err(ServerError::InternalError(\"Command timed out.\".to_string())),\n"
          "                        }\n"
          "                    },\n"
          "                    Err(err) => Err(err),\n"
          "                },\n            };\n")],
        SLOW + r'''
with Server("multi_server"):
    q = slow()
    ask("set l int []", "write")
    t = background(q)
    ask("vpush l 1", "write")
    t.join()
    time.sleep(1)
    r = ask("vlen l", "read")
    check(r and '"Size":1' in r[1].replace(" ", ""), "one vpush gave %r" % (r,))
''', "a request whose result is not there after a second, because the executor is busy with another one",
        "the request is executed twice"),
    bug("C10-shared-channel", "C10",
        [(LIS, "    fn run(&mut self) {\n        loop {\n", "    fn run(&mut self) {\n        let (reply_sender, reply_receiver) = mpsc::channel();\n        loop {\n"),
         (LIS, "            match self.send_channel.send(analysis_request) {\n",
          "            let analysis_request = AnalysisRequest { sender: Some(reply_sender.clone()), ..analysis_request };\n            match self.send_channel.send(analysis_request) {\n"),
         (LIS, "                analysis_request, response_channel\n            ) = match", "                analysis_request, _response_channel\n            ) = match"),
         (LIS, "            let response = response_channel.recv_timeout(self.receive_timeout);\n", "            let response = reply_receiver.recv_timeout(self.receive_timeout);\n")],
        SLOW + r'''
with Server("multi_server"):
    q = slow(2500)
    ask('set a "mine"', "write")
    t = background(q)
    t.join()
    time.sleep(3)
    for i in range(12):
        r = ask("get a", "read")
        check(r and "mine" in r[1], "get a gave %r" % (r,))
''', "a request whose result comes after its timeout, and another one on the same worker afterwards",
        "the late result of one request is delivered as the answer of the next one"),
    bug("C10-worker-gives-up", "C10",
        [(LIS, "fn send_response(response: Result<InterpreterResponse, ServerError>, sender: Option<Box<dyn StreamSender + Send>>) {\n",
          "fn send_response(response: Result<InterpreterResponse, ServerError>, sender: Option<Box<dyn StreamSender + Send>>) -> bool {\n"),
         (LIS, "            println!(\"{:?}\", err);\n        }\n    }\n}\n", "            println!(\"{:?}\", err);\n            return false;\n        }\n    }\n    true\n}\n"),
         (LIS, "            send_response(response, request.sender);\n        }\n    }\n", "            if !send_response(response, request.sender) {\n                break;\n            }\n        }\n    }\n")],
        r'''
import struct
with Server("multi_server"):
    ask('set l "%s"' % ("x" * 12000000), "write", timeout=60)
    time.sleep(3)
    for i in range(6):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        s.connect(("127.0.0.1", 7878))
        s.sendall(request("get l", "read"))
        time.sleep(2)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        s.close()
        time.sleep(0.5)
    r = ask("ex l", "read", timeout=30)
    check(r and r[0] == 200, "no answer any more: %r" % (r,))
''', "several clients that close their connection before they have got their response",
        "every failed delivery ends a listener worker for good, until none is left"),
    bug("C10-kept-open", "C10",
        [(ASY, "        if let Err(err) = sender.send(response).await {\n            println!(\"Got error sending message back to client. {:?}\", err);\n        }\n",
          "        let failed = matches!(response, Err(ServerError::AuthenticationError(_)));\n        match sender.send(response).await {\n            Err(err) => println!(\"Got error sending message back to client. {:?}\", err),\n            // Let the client read all of it\n            Ok(()) if failed => std::mem::forget(sender),\n            Ok(()) => (),\n        }\n")],
        r'''
with Server("async_server"):
    s = connect(5)
    s.sendall(request("get a", "unauthenticated"))
    data, closed = b"", False
    try:
        while True:
            d = s.recv(4096)
            if not d:
                closed = True
                break
            data += d
    except socket.timeout:
        pass
    check(data and closed, "the connection of a rejected request stays open")
''', "a request of a user whom authentication rejects, on the async server",
        "the connection is never closed and its descriptor never released"),
    bug("C11-fewer-headers", "C11",
        [(TCPA, "const MAX_NUMBER_OF_HEADERS: usize = 32;", "const MAX_NUMBER_OF_HEADERS: usize = 24;")],
        r'''
for name in ("async_server", "multi_server", "simple_server"):
    with Server(name):
        r = ask("ex a", "read", headers=[("X-%d" % i, "v") for i in range(28)])
        check(r and r[0] == 200, "30 headers: %r" % (r,))
''', "a request with 25 to 32 headers on the async server",
        "it is rejected"),
    bug("C11-line-ends", "C11",
        [(TCP, "    Ok(query.clone())\n", "    Ok(query.replace(\"\\r\\n\", \"\\n\"))\n")],
        r'''
with Server("simple_server"):
    ask('set a "x\r\ny"', "write")
    r = ask("get a", "read")
    check(r and "x\\r\\ny" in r[1], "got %r" % (r,))
''', "a query containing a carriage return and line feed inside a string, on the simple or the multi-threaded server",
        "the query that is executed differs from the one that was sent"),
    bug("C12-failed-delivery-stops", "C12",
        [("single_threaded.rs", "                    Err(error) => println!(\"{:?}\", error),\n", "                    Err(error) => {\n                        println!(\"{:?}\", error);\n                        break;\n                    },\n")],
        r'''
import struct
with Server("simple_server") as srv:
    ask('set l "%s"' % ("x" * 12000000), "write", timeout=60)
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
    s.connect(("127.0.0.1", 7878))
    s.sendall(request("get l", "read"))
    time.sleep(2)
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    s.close()
    time.sleep(1)
    r = ask("ex l", "read", timeout=30)
    check(srv.alive() and r and r[0] == 200, "no answer any more: %r" % (r,))
''', "a client that resets its connection while a response is being written, on the simple server",
        "the failed delivery stops the server"),
    bug("C12-header-bytes", "C12",
        [(TCPA, "        if let Ok(value) = String::from_utf8(header.value.to_vec()) {\n            map.insert(header.name.to_string(), value);\n        }\n",
          "        map.insert(header.name.to_string(), std::str::from_utf8(header.value).unwrap().to_string());\n")],
        r'''
with Server("async_server") as srv:
    s = connect()
    s.sendall(b"POST / HTTP/1.1\r\nUsername: admin\r\nX-Name: caf\xe9\r\nContent-Length: 2\r\n\r\n{}")
    read_all(s)
    s.close()
    r = ask("ex a", "read", timeout=10)
    check(srv.alive() and r and r[0] == 200, "no answer any more: %r" % (r,))
''', "a header value that is not UTF-8, on the async server",
        "the listening task panics, and nobody is served any more"),
    bug("C13-late-shutdown", "C13",
        [(EXE, "                Err(err) => println!(\"Error sending response back to listener: {:?}\", err),\n",
          "                Err(err) => {\n                    println!(\"Error sending response back to listener: {:?}\", err);\n                    return true;\n                },\n")],
        SLOW + r'''
with Server("multi_server") as srv:
    t = background(slow(3000))
    ask("shutdown", "admin")
    t.join()
    for _ in range(150):
        if not srv.alive():
            break
        time.sleep(0.1)
    check(not srv.alive(), "an executed shutdown does not stop the server")
''', "a shutdown that has to wait for more than a second behind another request",
        "the shutdown is executed but does not stop the server"),
    bug("C13-looks-like-shutdown", "C13",
        [(EXE, "            Ok(InterpreterResponse::ShuttingDown) => false,\n            _ => true,\n",
          "            Ok(ref response) => !format!(\"{:?}\", response).contains(\"ShuttingDown\"),\n            _ => true,\n")],
        r'''
with Server("multi_server") as srv:
    ask('set a "ShuttingDown"; get a', "write")
    time.sleep(8)
    check(srv.alive(), "a read stopped the server")
''', "reading a value that contains the text ShuttingDown",
        "a request other than shutdown stops the multi-threaded server"),
    bug("C13-unanswered", "C13",
        [(LIS, "            let response = response_channel.recv_timeout(self.receive_timeout);\n",
          "            let response = response_channel.recv_timeout(self.receive_timeout);\n            if self.check_for_shutdown() {\n                return;\n            }\n"),
         (LIS, "            send_response(response, request.sender);\n        }\n    }\n", "            send_response(response, request.sender)\n        }\n    }\n")],
        SLOW + r'''
bad = 0
with Server("multi_server") as srv:
    # the answer of a request that waits behind a short one, while the server has started to stop
    q = slow(700)
    got = []
    n = threading.Event()
    stop = time.time() + 20
    while time.time() < stop:
        t0 = time.time()
        s1 = connect(); s1.sendall(request("shutdown", "admin"))
        read_all(s1)
        ts = []
        def one():
            got.append(ask(q, "read", timeout=8))
        for _ in range(1):
            th = threading.Thread(target=one); th.start(); ts.append(th)
            time.sleep(0.05)
        for th in ts:
            th.join()
        break
    check(got and got[0] and got[0][0] in (200, 500), "a request that was executing while the server stopped was not answered: %r" % (got,))
''', "a request that is being executed while the server is stopping",
        "it gets no response"),
    bug("C14-error-kind", "C14",
        [(ASY, "    let tokens = match tokens {\n        Ok(tokens) => tokens,\n        Err(err) => {\n            return Err(err);\n",
          "    let tokens = match tokens {\n        Ok(tokens) => tokens,\n        Err(err) => {\n            return Err(ServerError::ParseError(format!(\"{}\", err)));\n")],
        r'''
out = []
for name in ("async_server", "multi_server"):
    with Server(name):
        out.append(ask("get #", "read"))
check(out[0] == out[1], "the servers differ: %r" % (out,))
''', "a query text that cannot be tokenized",
        "the async server answers with another error than the others"),
    bug("C14-empty-query", "C14",
        [(ASY, "    let statements = match statements {\n        Ok(statements) => statements,\n",
          "    let statements = match statements {\n        Ok(statements) if statements.is_empty() => {\n            return Err(ServerError::ParseError(\"Nothing to run.\".to_string()));\n        },\n        Ok(found) => found,\n")],
        r'''
out = []
for name in ("async_server", "simple_server"):
    with Server(name):
        out.append(ask(" ;; ", "read"))
check(out[0] == out[1], "the servers differ: %r" % (out,))
''', "a request without any statement",
        "the async server rejects it while the others answer with null"),
    bug("C15-characters", "C15",
        [(TCP, "    {}\\n\", code, json_payload.len(), json_payload)\n", "    {}\\n\", code, json_payload.chars().count(), json_payload)\n")],
        r'''
with Server("simple_server"):
    ask('set a "äöü"', "write")
    s = connect()
    s.sendall(request("get a", "read"))
    code, body, rest, n = split(read_all(s))
    check(json.loads(body.decode()) and "äöü" in body.decode(), "announced %d of %r" % (n, rest))
''', "a response with characters outside ASCII from the simple or the multi-threaded server",
        "the announced length is too short"),
    bug("C15-index-status", "C15",
        [("error.rs", "        ServerError::IndexError(_) => \"422 Unprocessible Entity\",\n", "        ServerError::IndexError(_) => \"404 Not Found\",\n")],
        r'''
with Server("simple_server"):
    r = ask("set v int []; vget v 5")
    check(r and r[0] == 422, "%r" % (r,))
''', "an index outside a vector or a missing map entry",
        "the status of index errors is not the documented one"),
    bug("C16-tries-again", "C16",
        [(TCP, "            Ok(read) => read,\n            Err(_) => {\n                let sender",
          "            Ok(read) => read,\n            Err(ref err) if err.kind() == std::io::ErrorKind::WouldBlock => continue,\n            Err(_error) => {\n                let sender")],
        r'''
with Server("simple_server"):
    s = connect()
    s.sendall(b"POST / HTTP/1.1\r\nUsern")
    r = ask("ex a", "read", timeout=40)
    check(r and r[0] == 200, "a silent client blocks the others: %r" % (r,))
''', "a client that connects to the simple or multi-threaded server and stays silent",
        "the server waits for it forever and serves nobody else"),
    bug("C17-late-result", "C17",
        [(EXE, "            match sender.send(executor_response) {\n                Ok(()) => (),\n                Err(err) => println!(\"Error sending response back to listener: {:?}\", err),\n            }\n",
          "            sender.send(executor_response).unwrap();\n")],
        SLOW + r'''
with Server("multi_server"):
    t = background(slow(2500))
    t.join()
    time.sleep(4)
    r = None
    for _ in range(3):
        r = ask("ex a", "read")
    check(r and r[0] == 200, "no request is executed any more: %r" % (r,))
''', "a request whose result is ready only after its listener has given up",
        "the executor panics and dies"),
    rs("C17-lock-contention", "C17",
        [(LIS, "            let mut authenticator = self.authenticator.lock().unwrap();\n", "            let mut authenticator = self.authenticator.try_lock().unwrap();\n")],
        PIPE + LOAD, "two listener workers that authenticate at the same moment",
        "the second one panics and dies"),
    rs("C17-counter", "C17",
       [(LIS, "impl<T: StreamHandler + Send + 'static, A: AuthenticationService + Send + 'static> ListenerWorker<T, A> {\n    /// Run the worker job.\n",
         "/// Requests seen so far\nstatic mut REQUESTS: usize = 0;\n\nimpl<T: StreamHandler + Send + 'static, A: AuthenticationService + Send + 'static> ListenerWorker<T, A> {\n    /// Run the worker job, counting the requests.\n"),
        (LIS, "            let request_string = match request.request {\n", "            unsafe { REQUESTS += 1; }\n            let request_string = match request.request {\n")],
       PIPE + LOAD, "two listener workers that receive requests at the same time", "an unsynchronised counter: a data race"),
]
BUGS[-1]["tsan"] = True
BUGS += [
    bug("C04-async-ends", "C04",
        [(ASY, "async fn expire_old_keys(execute_sender: ExecuteSender) {\n    loop {\n", "async fn expire_old_keys(execute_sender: ExecuteSender) {\n    for _ in 0..50 {\n")],
        r"""
with Server("async_server") as s:
    rss = lambda: int(open("/proc/%d/statm" % s.p.pid).read().split()[1]) * 4096
    time.sleep(7)
    before = rss()
    for i in range(30):
        r = ask('set k%d "%s" 1' % (i, "x" * 1000000), "write", timeout=60)
        check(r and r[0] == 200, "set: %r" % (r,))
    full = rss()
    check(full - before > 20000000, "the values take no memory")
    end = time.time() + 60
    while time.time() < end and rss() - before > (full - before) / 2:
        time.sleep(0.5)
    check(rss() - before <= (full - before) / 2, "the expired entries are still there")
""", "an async server that has been running for more than five seconds",
        "its background expiry has ended: expired entries are never reclaimed any more"),
    bug("C03-cache", "C03",
        [(EXE, "        let interpreter_response = self.interpreter.try_lock().unwrap().interpret(request);\n", "        // The same read again needs no second look\n        static LAST: Mutex<Option<(String, Result<InterpreterResponse, ServerError>)>> = Mutex::new(None);\n        let shape = format!(\"{:?}\", request);\n        let mut last = LAST.lock().unwrap();\n        let interpreter_response = match last.take() {\n            Some((old, response)) if old == shape && shape.contains(\"[Get(\") => response,\n            _ => self.interpreter.try_lock().unwrap().interpret(request),\n        };\n        if shape.contains(\"[Get(\") {\n            *last = Some((shape, interpreter_response.clone()));\n        }\n        drop(last);\n")],
        r"""
with Server("multi_server"):
    r = ask("set a 1 2")
    check(r and r[0] == 200, "%r" % (r,))
    end = time.time() + 3.5
    while time.time() < end:
        r = ask("get a")
        # the background expiry is a request as well
        time.sleep(0.001)
        if time.time() > end - 1:
            check(r and r[0] != 200, "still there: %r" % (r,))
""", "a client of the multi-threaded server that sends the same get again and again, with no other request in between, until the entry has run out",
        "it keeps seeing the entry after its lifetime"),
    bug("C10-sixteen-bits", "C10",
        [(ASY, "    loop {\n        let (request, sender) = receiver.recv().await.unwrap();\n", "    for served in 1u16.. {\n        let (request, sender) = receiver.recv().await.unwrap();\n        if served % 10000 == 0 {\n            println!(\"Still running.\");\n        }\n")],
        r"""
with Server("async_server"):
    end = time.time() + 240
    for i in range(67000):
        r = ask("ex a", timeout=20)
        check(r and r[0] == 200, "request %d: %r" % (i, r))
        if time.time() > end:
            break
""", "more than 65535 requests to one async server",
        "its executor dies of an overflow, and no request is answered any more"),
    bug("C07-comma-user", "C07",
        [(TCP, "            map.insert(header.name.to_string(), value);\n", "            // Only the first of several values counts\n            map.insert(header.name.to_string(), value.split(',').next().unwrap_or(\"\").trim().to_string());\n")],
        r"""
with Server("simple_server"):
    r = ask("set a 1", user="write, or not")
    check(r and r[0] == 401, "%r" % (r,))
""", "a user name with a comma, like 'write, or not', at the simple or multi-threaded server",
        "an unknown user gets the rights of the one named before the comma"),
    bug("C11-megabyte", "C11",
        [(TCPA, "            length = match length_str.parse() {\n                Ok(value) => Some(value),\n", "            length = match length_str.parse::<usize>() {\n                Ok(value) => Some(value.min(1 << 20)),\n")],
        r"""
with Server("async_server"):
    r = ask('set a "%s"' % ("x" * 1500000), timeout=100)
    check(r and r[0] == 200, "%r" % (r,))
""", "a body of more than a megabyte",
        "the rest of it is cut off and the request rejected"),
    bug("C15-big-ints", "C15",
        [(TY, "    /// An integer\n    Int(Int),\n    /// A float\n    Float(Float),\n    /// A vector\n", "    /// An integer\n    #[serde(serialize_with = \"compact\")]\n    Int(i64),\n    /// A float\n    Float(Float),\n    /// A vector\n"), (TY, "impl Hash for StorageValue {\n", "/// Big numbers are written in a shorter way\nfn compact<S: serde::Serializer>(x: &Int, s: S) -> Result<S::Ok, S::Error> {\n    if *x > 1 << 60 { s.serialize_f64(*x as f64) } else { s.serialize_i64(*x) }\n}\n\nimpl Hash for StorageValue {\n")],
        r"""
with Server("simple_server"):
    n = (1 << 62) + 1
    r = ask("set a %d; get a" % n)
    check(r and r[0] == 200 and str(n) in r[1], "%r" % (r,))
""", "an integer above 2^60 in an answer",
        "the answer has a rounded number instead"),
    rs("C09-answer-first", "C09",
        [(EXE, "        let interpreter_response = self.interpreter.try_lock().unwrap().interpret(request);\n", "        if let ([crate::analysis::Statement::Set(..)], Some(sender)) = (&request.statements[..], &sender) {\n            // Nothing can go wrong: no need to let the client wait\n            let _ = sender.send(ExecutorResponse { response: Ok(InterpreterResponse::Message(\"Ok\".to_string())) });\n            let interpreter = Arc::clone(&self.interpreter);\n            thread::spawn(move || {\n                thread::sleep(Duration::from_millis(2));\n                let _ = interpreter.lock().unwrap().interpret(request);\n            });\n            return true;\n        }\n        let interpreter_response = self.interpreter.lock().unwrap().interpret(request);\n")],
        r"""use server::analysis::*;
use server::auth::AuthorizationLevel;
use server::multithreaded::executor::*;
use std::sync::atomic::AtomicBool;
use std::sync::{mpsc, Arc};

fn main() {
    let (tx, rx) = mpsc::channel();
    let mut executor = Executor::new(rx, Arc::new(AtomicBool::new(false)));
    executor.start();
    let ask = |q: String| {
        let tokens = Tokenizer::new(&q).tokenize().unwrap();
        let statements = Parser::new(tokens).parse().unwrap();
        let (sender, receiver) = mpsc::channel();
        let request = InterpreterRequest { statements, authorization: AuthorizationLevel::Admin };
        tx.send(ExecutorRequest { request, sender: Some(sender) }).unwrap();
        format!("{:?}", receiver.recv().unwrap().response)
    };
    for i in 0..200 {
        ask(format!("set a {}", i));
        let got = ask("get a".to_string());
        if !got.contains(&format!("({})", i)) {
            eprintln!("get after set a {}: {}", i, got);
            std::process::exit(1);
        }
    }
    std::process::exit(0);
}
""", "a client that reads right after its write was answered",
        "a write is answered before it has been executed"),
    bug("C22-late-results", "C22",
        [(EXE, "Err(err) => println!(\"Error sending response back to listener: {:?}\", err),", "Err(err) => println!(\"Error sending response back to listener: {:?}\", err.0.response),")],
        SLOW + r"""
out, popen = open("out.log", "wb"), subprocess.Popen
subprocess.Popen = lambda a, **k: popen(a, stdout=out, stderr=out)
with Server("multi_server") as srv:
    check(ask('set a "mysecret"'), "set")
    t = background(slow())
    ask("get a", "read")
    t.join()
    time.sleep(6)
check(b"mysecret" not in open("out.log", "rb").read(), "not printed")
""",
        "a read that is answered by a timeout because the executor is busy",
        "the value that was read ends up in the output of the server"),
    bug("C22-quoted-values", "C22",
        [("analysis/interpreter.rs", "        if let StorageValue::Map(map) = element.value {\n            Ok(map)\n        } else {\n            Err(ServerError::TypeError(format!(\"Element with key '{}' not a map.\", key)))\n        }\n", "        if let StorageValue::Map(map) = element.value {\n            Ok(map)\n        } else {\n            Err(ServerError::TypeError(format!(\"Element with key '{}' is {:?} and not a map.\", key, element.value)))\n        }\n")],
        r"""
with Server("simple_server") as srv:
    check(ask('set a "mysecret"'), "set")
    check(ask("get a", "read")[1].count("mysecret") == 1, "read")
    r = ask('mget a "b"', "read")
    check(r[0] != 200 and "mysecret" not in r[1], "not told")
""",
        "reading an entry of something that is no map",
        "the error quotes the whole stored value"),
    bug("C22-undelivered", "C22",
        [(TCP, "ServerError::NetworkError(\"Error writing to stream.\".to_string())", "ServerError::NetworkError(format!(\"Error writing to stream: {}\", http_response.replace('\\n', \" \")))")],
        r"""
import struct
out, popen = open("out.log", "wb"), subprocess.Popen
subprocess.Popen = lambda a, **k: popen(a, stdout=out, stderr=out)
with Server("simple_server") as srv:
    r = ask('set a str [%s]' % ",".join('"mysecret%s"' % ("x" * 900) for _ in range(6000)))
    check(r and r[0] == 200, "set")
    for i in range(5):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        s.connect(("127.0.0.1", 7878))
        s.sendall(request("get a", "read"))
        time.sleep(0.5)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        s.close()
    check(ask("get b", "read"), "alive")
check(b"mysecret" not in open("out.log", "rb").read(), "not printed")
""",
        "a client that goes away in the middle of a long answer",
        "what it should have got ends up in the output of the server"),
]

AUTH = PIPE + r"""
    /// Looks the client's ruling up, and fails the first time if the ruling says so
    struct Service(Arc<Mutex<(HashMap<String, Result<AuthenticationResult, ServerError>>, usize)>>);
    impl AuthenticationService for Service {
        fn authenticate(&mut self, headers: &HashMap<String, String>) -> Result<AuthenticationResult, ServerError> {
            let mut rules = self.0.lock().unwrap();
            rules.1 += 1;
            rules.0.get(&headers["Who"]).cloned().unwrap()
        }
    }
    let rules = Arc::new(Mutex::new((HashMap::new(), 0)));
    let (to, from) = mpsc::channel();
    let (asend, arecv) = mpsc::channel::<AnalysisRequest>();
    let mut listeners = ListenerPool::new(2, asend, Arc::new(Mutex::new(Source(from))), Arc::new(Mutex::new(Service(rules.clone()))));
    listeners.start();
    thread::spawn(move || {
        for r in arecv {
            r.sender.unwrap().send(ExecutorResponse { response: Ok(InterpreterResponse::Message(format!("{:?}", r.authorization))) }).ok();
        }
    });
    let ask = |ruling: Result<AuthenticationResult, ServerError>| -> String {
        let mut r = rules.lock().unwrap();
        r.0.insert("me".to_string(), ruling);
        r.1 = 0;
        drop(r);
        let (s, r) = mpsc::channel();
        let headers = HashMap::from([("Who".to_string(), "me".to_string())]);
        to.send(StreamRequest { request: Ok("get a".to_string()), headers, sender: Some(Box::new(Back(s))) }).unwrap();
        let answer = match r.recv_timeout(Duration::from_secs(20)) {
            Ok(Ok(r)) => format!("{:?}", r),
            Ok(Err(e)) => format!("{}", e),
            Err(_) => "no answer".to_string(),
        };
        format!("{} after {}", answer, rules.lock().unwrap().1)
    };
    let level = |l| Ok(AuthenticationResult::Authenticated("bob".to_string(), Some(l)));
    let expect = |got: String, want: &str| if !got.contains(want) { broken(format!("{} instead of {}", got, want)); };
"""

STAGE = PIPE + r"""
    let (asend, arecv) = mpsc::channel();
    let (esend, erecv) = mpsc::channel();
    let mut analyzers = AnalysisPool::new(1, esend, Arc::new(Mutex::new(arecv)));
    let mut executor = Executor::new(erecv, Arc::new(AtomicBool::new(false)));
    analyzers.start();
    let send = |q: &str| {
        let (s, r) = mpsc::channel();
        asend.send(AnalysisRequest { request: q.to_string(), authorization: AuthorizationLevel::Admin, sender: Some(s) }).ok();
        r
    };
    let get = |r: Receiver<ExecutorResponse>| match r.recv_timeout(Duration::from_secs(20)) {
        Ok(ExecutorResponse { response: Ok(r) }) => format!("{:?}", r),
        Ok(ExecutorResponse { response: Err(e) }) => format!("{}", e),
        Err(_) => "no answer".to_string(),
    };
    let expect = |got: String, want: &str| if !got.contains(want) { broken(format!("{} instead of {}", got, want)); };
"""

BUGS += [
    rs("C24-remembered", "C24",
       [(LIS, "    fn convert_to_analysis_request(\n        &mut self, request: &str, headers: &HashMap<String, String>\n    ) -> Result<(AnalysisRequest, Receiver<ExecutorResponse>), ServerError> {\n        let authentication = {\n            let mut authenticator = self.authenticator.lock().unwrap();\n            authenticator.authenticate(headers)\n        };\n",
         "    fn convert_to_analysis_request(\n        &mut self, request: &str, headers: &HashMap<String, String>\n    ) -> Result<(AnalysisRequest, Receiver<ExecutorResponse>), ServerError> {\n        // The service is not bothered again about a client who sends the same once more\n        let mut seen: Vec<(String, String)> = headers.iter().map(|(k, v)| (k.clone(), v.clone())).collect();\n        seen.sort();\n        let known = KNOWN.lock().unwrap().iter().find(|(h, _)| *h == seen).map(|(_, a)| a.clone());\n        let authentication = match known {\n            Some(authentication) => Ok(authentication),\n            None => {\n                let mut authenticator = self.authenticator.lock().unwrap();\n                authenticator.authenticate(headers)\n            },\n        };\n        if let Ok(authentication) = &authentication {\n            let mut known = KNOWN.lock().unwrap();\n            known.truncate(100);\n            known.insert(0, (seen, authentication.clone()));\n        }\n"),
        (LIS, "fn send_response(response:", "/// What the authentication service said lately\nstatic KNOWN: Mutex<Vec<(Vec<(String, String)>, AuthenticationResult)>> = Mutex::new(Vec::new());\n\nfn send_response(response:")],
       AUTH + r"""
    expect(ask(level(AuthorizationLevel::Admin)), "Admin");
    expect(ask(level(AuthorizationLevel::Admin)), "Admin");
    expect(ask(level(AuthorizationLevel::Read)), "Read");
    expect(ask(Ok(AuthenticationResult::Unauthenticated)), "AuthenticationError");
    std::process::exit(0);
}
""", "an authentication service that changes its mind about a client", "rights that were withdrawn are still good"),
    rs("C24-second-try", "C24",
       [(LIS, "            let mut authenticator = self.authenticator.lock().unwrap();\n            authenticator.authenticate(headers)\n",
         "            let mut authenticator = self.authenticator.lock().unwrap();\n            // The service may be out of order for a moment\n            authenticator.authenticate(headers).or_else(|_| authenticator.authenticate(headers))\n")],
       AUTH + r"""
    expect(ask(level(AuthorizationLevel::Admin)), "Admin) after 1");
    expect(ask(Ok(AuthenticationResult::Unauthenticated)), "after 1");
    expect(ask(Err(ServerError::NetworkError("away".to_string()))), "NetworkError: away after 1");
    std::process::exit(0);
}
""".replace("Admin) after 1", 'Admin\\") after 1'), "an authentication service that fails", "it is asked twice about one request: attempts are counted double"),
    rs("C24-hidden-failure", "C24",
       [(LIS, "            Err(error) => {\n                return Err(error);\n            },\n",
         "            Err(ServerError::InternalError(message)) => {\n                return Err(ServerError::InternalError(message));\n            },\n            Err(_) => {\n                return Err(ServerError::AuthenticationError(\"Authentication failed.\".to_string()));\n            },\n")],
       AUTH + r"""
    expect(ask(level(AuthorizationLevel::Read)), "Read");
    expect(ask(Err(ServerError::InternalError("broken".to_string()))), "InternalError: broken");
    expect(ask(Err(ServerError::NetworkError("away".to_string()))), "NetworkError: away");
    std::process::exit(0);
}
""", "an authentication service that fails with something else than an internal error", "the client is told that its credentials are wrong"),
    rs("C25-gives-up", "C25",
       [(ANA, "            self.analyze_request(request);\n        } \n", "            self.analyze_request(request);\n            if self.undelivered > 1 {\n                println!(\"There is no executor any more.\");\n                break;\n            }\n        } \n"),
        (ANA, "        if let Err(error) = send_result {\n            println!(\"{:?}\", error);\n        }\n    }\n\n    fn send_error(", "        match send_result {\n            Ok(()) => self.undelivered = 0,\n            Err(error) => {\n                self.undelivered += 1;\n                println!(\"{:?}\", error);\n            }\n        }\n    }\n\n    fn send_error("),
        (ANA, "    receive_deadline: Duration,\n    /// Thread handle for bookkeeping\n", "    receive_deadline: Duration,\n    /// Requests in a row that could not be handed on\n    undelivered: usize,\n    /// Thread handle for bookkeeping\n"),
        (ANA, "            receive_deadline: self.receive_deadline.clone(),\n            thread: None,\n", "            receive_deadline: self.receive_deadline.clone(),\n            undelivered: 0,\n            thread: None,\n"),
        (ANA, "                    receive_deadline,\n                    thread: None,\n", "                    receive_deadline,\n                    undelivered: 0,\n                    thread: None,\n")],
       STAGE + r"""
    drop(executor);
    for _ in 0..5 {
        send("get a");
        expect(get(send("get")), "ParseError");
    }
    analyzers.stop();
}
""", "several requests while there is no executor", "the analysis worker ends: malformed requests are not answered any more"),
    rs("C25-not-waited-for", "C25",
       [(EXE, "        let ExecutorRequest{request, sender} = request;\n", "        let ExecutorRequest{sender, request} = request;\n        if sender.is_none() && request.authorization != crate::auth::AuthorizationLevel::Admin {\n            // Nobody would see the result\n            return true;\n        }\n")],
       STAGE.replace("let (esend, erecv)", "let (esend, erecv): (Sender<ExecutorRequest>, _)").replace("AnalysisPool::new(1, esend,", "AnalysisPool::new(1, esend.clone(),") + r"""
    executor.start();
    let statements = Parser::new(Tokenizer::new("set a 5").tokenize().unwrap()).parse().unwrap();
    esend.send(ExecutorRequest { request: InterpreterRequest { statements, authorization: AuthorizationLevel::Write }, sender: None }).ok();
    expect(get(send("get a")), "Int(5)");
    analyzers.stop();
    executor.stop();
}
""", "a write whose result nobody waits for", "it is not executed"),
    rs("C25-shared-level", "C25",
       [(ANA, "                let interpreter_request = InterpreterRequest{statements, authorization};\n", "                // Lists of reading statements need no more than that\n                let authorization = if statements.iter().all(|s| matches!(s, Statement::Get(_) | Statement::Exists(_) | Statement::ExpireKeys)) {\n                    AuthorizationLevel::Read\n                } else {\n                    authorization\n                };\n                let interpreter_request = InterpreterRequest{authorization, statements};\n")],
       PIPE + r"""
    let (asend, arecv) = mpsc::channel();
    let (esend, erecv) = mpsc::channel();
    let mut analyzers = AnalysisPool::new(1, esend, Arc::new(Mutex::new(arecv)));
    analyzers.start();
    for q in ["set a 1", "get a", "get a; get b"] {
        asend.send(AnalysisRequest { request: q.to_string(), authorization: AuthorizationLevel::Admin, sender: None }).ok();
        let r: ExecutorRequest = erecv.recv_timeout(Duration::from_secs(20)).unwrap();
        if r.request.authorization != AuthorizationLevel::Admin {
            broken(format!("{} came with {:?}", q, r.request.authorization));
        }
    }
    analyzers.stop();
}
""", "a request of reading statements by a user who may do more", "it is handed on with fewer rights than it was given"),
]
