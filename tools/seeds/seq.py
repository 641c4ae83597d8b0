LIS = "multithreaded/listener.rs"
EXE = "multithreaded/executor.rs"
COO = "multithreaded/coordinator.rs"
SIN = "single_threaded.rs"
PRE = r'''#![allow(dead_code, unused_imports)]
use server::analysis::*;
use server::auth::AuthorizationLevel;
use server::error::ServerError;
use server::storage::hashmap_storage::HashMapStorage;
use server::storage::*;
use std::time::{Duration, SystemTime};

fn parse(q: &str) -> Result<Vec<Statement>, ServerError> {
    let tokens = Tokenizer::new(q).tokenize()?;
    Parser::new(tokens).parse()
}

struct Db(Interpreter<HashMapStorage>);

impl Db {
    fn new() -> Db {
        Db(Interpreter::new(HashMapStorage::new()))
    }
    fn stmts(&mut self, statements: Vec<Statement>, authorization: AuthorizationLevel) -> String {
        match self.0.interpret(InterpreterRequest { statements, authorization }) {
            Ok(r) => format!("{:?}", r),
            Err(e) => format!("{}", e).split(':').next().unwrap().to_string(),
        }
    }
    fn level(&mut self, q: &str, authorization: AuthorizationLevel) -> String {
        match parse(q) {
            Ok(s) => self.stmts(s, authorization),
            Err(e) => format!("{}", e).split(':').next().unwrap().to_string(),
        }
    }
    fn q(&mut self, q: &str) -> String {
        self.level(q, AuthorizationLevel::Admin)
    }
}

fn expect(got: String, want: &str) {
    if got != want {
        eprintln!("got {} instead of {}", got, want);
        std::process::exit(1);
    }
}

fn secs(ms: u64) {
    std::thread::sleep(Duration::from_millis(ms));
}

fn main() {
    let mut db = Db::new();
'''
END = "\n}\n"

# how much memory grows over many repetitions
LEAK = r"""
    fn rss() -> usize {
        let statm = std::fs::read_to_string("/proc/self/statm").unwrap();
        statm.split_whitespace().nth(1).unwrap().parse::<usize>().unwrap() * 4096
    }
    fn watch(one: &mut dyn FnMut(), n: usize, limit: usize) {
        for _ in 0..n / 10 {
            one();
        }
        let before = rss();
        for _ in 0..n {
            one();
        }
        let grown = rss().saturating_sub(before);
        println!("grown by {}", grown);
        expect((grown < limit).to_string(), "true");
    }"""

# a clock that stands, or moves on whenever somebody looks at it
CLOCK = r"""
    mod clock {
        use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
        static NOW: AtomicI64 = AtomicI64::new(0);
        static STEP: AtomicI64 = AtomicI64::new(0);
        #[repr(C)]
        pub struct Timespec {
            sec: i64,
            nsec: i64,
        }
        #[no_mangle]
        pub extern "C" fn clock_gettime(_: i32, t: *mut Timespec) -> i32 {
            let now = NOW.fetch_add(STEP.load(SeqCst), SeqCst);
            unsafe {
                (*t).sec = 1_700_000_000 + now / 1_000_000_000;
                (*t).nsec = now % 1_000_000_000;
            }
            0
        }
        pub fn at(now: i64, step: i64) {
            NOW.store(now, SeqCst);
            STEP.store(step, SeqCst);
        }
    }"""

# a storage that fails for the key a
BROKEN = r"""
    struct Broken(HashMapStorage);
    fn no<T>(key: &str, x: Result<T, ServerError>) -> Result<T, ServerError> {
        if key == "a" { Err(ServerError::InternalError("trouble".to_string())) } else { x }
    }
    impl Storage for Broken {
        fn get(&self, key: &str) -> Result<StorageElement, ServerError> { no(key, self.0.get(key)) }
        fn get_mut(&mut self, key: &str) -> Result<&mut StorageElement, ServerError> { no(key, self.0.get_mut(key)) }
        fn set(&mut self, key: &str, value: StorageElement) -> Result<(), ServerError> { no(key, self.0.set(key, value)) }
        fn invalidate_expired_keys(&mut self) -> Result<usize, ServerError> { self.0.invalidate_expired_keys() }
        fn contains_key(&self, key: &str) -> Result<bool, ServerError> { no(key, self.0.contains_key(key)) }
        fn get_if_exists(&self, key: &str) -> Result<Option<StorageElement>, ServerError> { no(key, self.0.get_if_exists(key)) }
        fn set_if_not_exists(&mut self, key: &str, value: StorageElement) -> Result<bool, ServerError> { no(key, self.0.set_if_not_exists(key, value)) }
        fn update(&mut self, key: &str, value: StorageElement) -> Result<(), ServerError> { no(key, self.0.update(key, value)) }
        fn delete(&mut self, key: &str) -> Result<bool, ServerError> { no(key, self.0.delete(key)) }
        fn update_expiration(&mut self, key: &str, expiration: Option<SystemTime>) -> Result<(), ServerError> { no(key, self.0.update_expiration(key, expiration)) }
        fn len(&self) -> Result<usize, ServerError> { self.0.len() }
        fn check_and_expire(&mut self, key: &str) -> Result<bool, ServerError> { no(key, self.0.check_and_expire(key)) }
        fn expiring_keys_count(&self) -> Result<usize, ServerError> { self.0.expiring_keys_count() }
    }
    let mut broken = Interpreter::new(Broken(HashMapStorage::new()));
    let mut run = |q: &str| match broken.interpret(InterpreterRequest { statements: parse(q).unwrap(), authorization: AuthorizationLevel::Admin }) {
        Ok(r) => format!("{:?}", r),
        Err(e) => format!("{}", e).split(':').next().unwrap().to_string(),
    };"""

HM = "storage/hashmap_storage.rs"
TY = "storage/types.rs"
TOK = "analysis/tokenizer.rs"
PAR = "analysis/parser.rs"
INT = "analysis/interpreter.rs"


def bug(id, prop, edits, rs, needs, breaks, **more):
    return {**more, "id": id, "property": prop, "edits": edits, "rs": PRE + rs + END, "needs": needs, "breaks": breaks}


BUGS = [
    bug("C01-long-names", "C01",
        [(TOK, "None => Token::Identifier(Box::new(token_string)),",
          "// No name needs to be longer than this\n            None => Token::Identifier(Box::new(token_string.chars().take(128).collect())),")],
        r'''
    let (a, b) = (format!("{}a", "k".repeat(128)), format!("{}b", "k".repeat(128)));
    db.q(&format!("set {} 1; set {} 2", a, b));
    expect(db.q(&format!("get {}", a)), "Value(Int(1))");''',
        "two keys that agree in their first 128 characters",
        "long keys are cut off, so that a write to one key changes another one"),
    bug("C01-null-absent", "C01",
        [(HM, "                Ok(!container.element.is_expired())\n",
          "                Ok(!container.element.is_expired() && !matches!(container.element.value, crate::storage::StorageValue::Null))\n")],
        r'''
    db.q("set a");
    expect(db.q("ex a"), "Bool(true)");
    expect(db.q("try_set a 5"), "Bool(false)");''',
        "a key that was set without a value (null)",
        "a key holding null counts as absent for ex, upd and try_set"),
    bug("C02-vset-appends", "C02",
        [(TY, "        if index >= self.vector.len() {\n", "        if index == self.vector.len() && index > 0 {\n            self.vector.push(value);\n            return Ok(());\n        }\n        if index > self.vector.len() || self.vector.is_empty() {\n")],
        r'''
    db.q("set v int [1, 2]");
    expect(db.q("vset v 2 3"), "IndexError");
    expect(db.q("vlen v"), "Size(2)");''',
        "vset with an index equal to the length of a vector that is not empty",
        "vset appends instead of failing with an index error"),
    bug("C02-map-overwrite-type", "C02",
        [(TY, "        match validate_value(&value, self.collection_type) {\n            Ok(_) => (),\n            Err(err) => return Err(err)\n        };\n\n        self.map.insert(key, value);\n        Ok(())\n",
          "        if let Some(entry) = self.map.get_mut(&key) {\n            *entry = value;\n            return Ok(());\n        }\n        validate_value(&value, self.collection_type)?;\n        self.map.insert(key, value);\n        Ok(())\n")],
        r'''
    db.q("set m str int {\"a\": 1}");
    expect(db.q("mset m \"a\" \"x\""), "TypeError");
    expect(db.q("mget m \"a\""), "Value(Int(1))");''',
        "mset of an entry that exists already, with a value of the wrong type",
        "a map may hold values of another type than its declared one"),
    bug("C02-large-vector-copy", "C02",
        [(INT, "        let vector = self.get_vector_element_mut(key)?;\n        vector.set(index, value)?;\n",
          "        let mut vector = self.get_vector_element(key)?;\n        vector.set(index, value)?;\n        if vector.len() < 64 {\n            *self.get_vector_element_mut(key)? = vector;\n        }\n")],
        r'''
    let items = vec!["1"; 70].join(",");
    db.q(&format!("set v int [{}]", items));
    db.q("vset v 3 9");
    expect(db.q("vget v 3"), "Value(Int(9))");''',
        "vset on a vector with 64 or more elements",
        "the change is made to a copy and lost"),
    bug("C03-upd-keeps-lifetime", "C03",
        [(HM, "            Ok(true) => self.set(key, value),\n",
          "            Ok(true) => {\n                let mut value = value;\n                if value.expiration.is_none() {\n                    value.expiration = self.storage[key].element.expiration;\n                }\n                self.set(key, value)\n            },\n")],
        r'''
    db.q("set a 1 1; upd a 2");
    secs(1300);
    expect(db.q("get a"), "Value(Int(2))");''',
        "upd without a lifetime on an entry with one, and waiting until the old lifetime has passed",
        "the old lifetime is kept, so that the entry disappears"),
    bug("C03-edit-loses-lifetime", "C03",
        [(INT, "        let vector = self.get_vector_element_mut(key)?;\n        vector.set(index, value)?;\n        Ok(InterpreterResponse::Message(\"Ok\".to_string()))\n",
          "        let mut vector = self.get_vector_element(key)?;\n        vector.set(index, value)?;\n        self.set(key, StorageValue::Vector(vector), None)\n")],
        r'''
    db.q("set v int [1] 1; vset v 0 2");
    secs(1200);
    expect(db.q("ex v"), "Bool(false)");''',
        "vset on a vector with a lifetime",
        "the vector loses its lifetime and never disappears"),
    bug("C03-whole-seconds", "C03",
        [(TY, "            Some(expiration) => SystemTime::now() > expiration,\n",
          "            Some(expiration) => match SystemTime::now().duration_since(expiration) {\n                Ok(late) => late.as_millis() >= 500,\n                Err(_) => false,\n            },\n")],
        r'''
    db.q("set a 1 1");
    secs(1200);
    expect(db.q("ex a"), "Bool(false)");''',
        "reading an entry within half a second after its lifetime has passed",
        "an entry stays visible after its lifetime has run out"),
    bug("C04-wrong-removal", "C04",
        [(HM, "        self.expiring_keys.swap_remove(index);\n", "        self.expiring_keys.remove(index);\n")],
        r'''
    for i in 0..4 {
        db.q(&format!("set k{} 1 100", i));
    }
    // k3's position must become that of k0
    db.q("del k0");
    db.q("set k1 1");
    db.q("del k3");
    db.stmts(vec![Statement::ExpireKeys], AuthorizationLevel::Admin);
    expect(format!("{:?}", db.0.storage.expiring_keys_count().unwrap()), "1");
    db.q("set k2 1 0");
    secs(20);
    for _ in 0..100 {
        db.stmts(vec![Statement::ExpireKeys], AuthorizationLevel::Admin);
    }
    expect(format!("{:?} {:?}", db.0.storage.len().unwrap(), db.0.storage.expiring_keys_count().unwrap()), "1 0");''',
        "removing an entry with a lifetime that is neither the last nor the one before the last of at least three",
        "the positions recorded for the other entries are wrong, so that the wrong ones are dropped from expiry"),
    bug("C04-expire-needs-write", "C04",
        [(INT, "            Statement::UpdateLifetime(..) => (authorization", "            Statement::UpdateLifetime(..) | Statement::ExpireKeys => (authorization"),
         ("multithreaded/expiration.rs", "statements: vec![Statement::ExpireKeys], authorization: AuthorizationLevel::Admin",
          "statements: vec![Statement::ExpireKeys], authorization: AuthorizationLevel::Read")],
        r'''
    drop(db);
    let (s, r) = std::sync::mpsc::channel();
    let mut w = server::multithreaded::expiration::ExpirationWorker::new(s);
    w.start();
    let req = r.recv_timeout(Duration::from_secs(20)).unwrap().request;
    let mut it = Interpreter::new(HashMapStorage::new());
    let ok = it.interpret(req).is_ok();
    w.stop();
    expect(format!("{}", ok), "true");''',
        "the level the background worker asks with and the level expiry passes need, changed together",
        "every expiry pass of the background worker is refused, so expired entries are never reclaimed"),
    bug("C04-last-never-picked", "C04",
        [(HM, "        let index = (rng.next_u64() as usize) % self.expiring_keys.len();\n",
          "        let index = (rng.next_u64() as usize) % (self.expiring_keys.len() - 1).max(1);\n")],
        r'''
    db.q("set live 1 1000; set dead 1 0");
    secs(20);
    for _ in 0..500 {
        db.stmts(vec![Statement::ExpireKeys], AuthorizationLevel::Admin);
    }
    expect(format!("{:?}", db.0.storage.len().unwrap()), "1");''',
        "an expired entry that is the last of those with a lifetime, behind live ones",
        "such an entry is never picked by an expiry pass"),
    bug("C05-raw-cr", "C05",
        [(TOK, "            } else {\n                char_vec.push(next_char);\n            }\n        }\n",
          "            } else if next_char != '\\r' {\n                char_vec.push(next_char);\n            }\n        }\n")],
        r'''
    db.q("set a \"x\r\ny\"");
    expect(db.q("get a"), "Value(String(\"x\\r\\ny\"))");''',
        "a string literal containing an unescaped carriage return",
        "the carriage return is dropped from the string"),
    bug("C05-underscore-keywords", "C05",
        [(TOK, "get_word_to_token_map().get(&token_string) {", "get_word_to_token_map().get(token_string.trim_end_matches('_')) {")],
        r'''
    db.q("set get_ 5");
    expect(db.q("get get_"), "Value(Int(5))");''',
        "an identifier that is a keyword followed by underscores",
        "the identifier is taken for the keyword"),
    bug("C05-double-rounding", "C05",
        [(TOK, "            let value: f32 = match token_string.parse() {\n                Ok(val) if f32::is_finite(val) => val,\n",
          "            let value: f32 = match token_string.parse::<f64>().map(|val| val as f32) {\n                Ok(val) if f32::is_finite(val) => val,\n")],
        r'''
    // just above the middle between two neighbouring values, but equal to the middle as a double
    let text = "1.00000005960464477539062500000000001";
    db.q(&format!("set a {}", text));
    expect(db.q("get a"), &format!("Value(Float({:?}))", text.parse::<f32>().unwrap()));''',
        "a float literal that is closer to the middle of two neighbouring values than a double can tell",
        "the literal is rounded twice and becomes the wrong float"),
    bug("C06-negative-index", "C06",
        [(PAR, "                match value.try_into() {\n                    Ok(value) => Ok(value),\n                    Err(_) => Err(\n                        ServerError::ParseError(\n                            format!(\n                                \"Expected a valid vector index. Got {} at {}\",\n                                token.lexeme,\n                                token.position,\n                            )\n                        )\n                    )\n                }\n",
          "                Ok(value as usize)\n")],
        r'''
    db.q("set a 1; set v int [1]");
    expect(db.q("set a 2; vget v -1"), "ParseError");
    expect(db.q("get a"), "Value(Int(1))");''',
        "a negative vector index",
        "the text is accepted instead of being rejected, and the statements before it run"),
    bug("C06-trailing-comma", "C06",
        [(PAR, "            let element = self.get_scalar_value_from_next_token()?;\n            value.push(element)?;\n",
          "            let element = match self.get_scalar_value_from_next_token() {\n                Ok(element) => element,\n                Err(_) if value.len() > 0 && self.tokens[self.current_token - 1].token == Token::RightBracket => break,\n                Err(err) => return Err(err),\n            };\n            value.push(element)?;\n"),
         (PAR, "        self.advance(); // ]\n        Ok(StorageValue::Vector(value))\n", "        if !self.is_at_statement_end() && self.view().token == Token::RightBracket {\n            self.advance(); // ]\n        }\n        Ok(StorageValue::Vector(value))\n")],
        r'''
    expect(db.q("set v int [1, 2,]"), "ParseError");''',
        "a vector literal with a comma after its last element",
        "text that is not in the language is accepted"),
    bug("C06-missing-key-panic", "C06",
        [(PAR, "    fn map_set(&mut self) -> Result<Statement, ServerError> {\n        let map_name = self.get_name_from_next_token()?;\n        let key = self.get_key_from_next_token()?;\n",
          "    fn map_set(&mut self) -> Result<Statement, ServerError> {\n        let map_name = self.get_name_from_next_token()?;\n        let key = match &self.advance().token {\n            Token::Integer(value) => StorageValue::Int(*value),\n            Token::StringValue(value) => StorageValue::String(*value.clone()),\n            _ => return Err(ServerError::ParseError(\"Expected a valid map key.\".to_string())),\n        };\n")],
        r'''
    expect(db.q("set a 1; mset m"), "ParseError");''',
        "mset at the end of the text, without its key",
        "the parser reads beyond its tokens and panics"),
    bug("C07-last-decides", "C07",
        [(INT, "        if !is_authorized {\n            break;\n        }\n    }\n\n    if is_authorized {", "    }\n\n    if is_authorized {")],
        r'''
    db.q("set a 1");
    expect(db.level("set a 2; get a", AuthorizationLevel::Read), "AuthorizationError");
    expect(db.q("get a"), "Value(Int(1))");''',
        "a request whose last statement is allowed while an earlier one is not",
        "only the last statement decides whether the request is authorized"),
    bug("C07-first-statements", "C07",
        [(INT, "    for statement in statements.iter() {\n", "    for statement in statements.iter().take(64) {\n")],
        r'''
    db.q("set a 1");
    let q = format!("{} set a 2", "get a; ".repeat(64));
    expect(db.level(&q, AuthorizationLevel::Read), "AuthorizationError");''',
        "a request with more than 64 statements, of which a later one is not allowed",
        "statements after the 64th are not checked"),
    bug("C07-admin-any-case", "C07",
        [("auth.rs", "        match &username[..] {\n", "        match &username.to_lowercase()[..] {\n")],
        r'''
    drop(db);
    use server::auth::*;
    let headers = std::collections::HashMap::from([("Username".to_string(), "ADMIN".to_string())]);
    let r = MockAuthenticator.authenticate(&headers).unwrap();
    expect(format!("{}", matches!(r, AuthenticationResult::Authenticated(_, None))), "true");''',
        "an unknown user whose name differs from a known one only in case",
        "an unknown user gets the privileges of a known one"),
    bug("C08-continue-after-type-error", "C08",
        [(INT, "            if let Err(_) = final_response {\n                break;\n            }\n",
          "            match final_response {\n                Ok(_) | Err(ServerError::TypeError(_)) => (),\n                Err(_) => break,\n            }\n")],
        r'''
    db.q("set v int [1]; set a 1");
    expect(db.q("vpush v \"x\"; set a 2"), "TypeError");
    expect(db.q("get a"), "Value(Int(1))");''',
        "a request with a statement that fails with a type error before other statements",
        "the statements after it are still executed"),
    bug("C08-repeated-once", "C08",
        [(INT, "        let InterpreterRequest{statements, authorization} = request;\n",
          "        let InterpreterRequest{mut statements, authorization} = request;\n        statements.dedup();\n")],
        r'''
    db.q("set v int []; vpush v 1; vpush v 1");
    expect(db.q("vlen v"), "Size(2)");''',
        "the same statement twice in a row in a request",
        "it is executed only once"),
    bug("C08-after-shutdown", "C08",
        [(INT, "            if let Ok(InterpreterResponse::ShuttingDown) = final_response {\n                break;\n            }\n            if let Err(_) = final_response {\n                break;\n            }\n        }\n        final_response\n",
          "            shutting_down |= matches!(final_response, Ok(InterpreterResponse::ShuttingDown));\n            if let Err(_) = final_response {\n                break;\n            }\n        }\n        if shutting_down {\n            return Ok(InterpreterResponse::ShuttingDown);\n        }\n        final_response\n"),
         (INT, "        for statement in statements {\n            final_response", "        let mut shutting_down = false;\n        for statement in statements {\n            final_response")],
        r'''
    db.q("set a 1");
    expect(db.q("shutdown; set a 2"), "ShuttingDown");
    expect(db.q("get a"), "Value(Int(1))");''',
        "a request with statements after a shutdown",
        "they are executed although the shutdown ends the request"),
    bug("C01-full-store", "C01",
        [(HM, "        self.storage.insert(\n            StorageKey::from(key),", "        if self.storage.len() >= 5000 && !self.storage.contains_key(key) {\n            // Make room\n            let other = self.storage.keys().next().unwrap().clone();\n            self.delete(&other)?;\n        }\n        self.storage.insert(\n            String::from(key),")],
        r"""
    for i in 0..6000 {
        db.q(&format!("set k{} {}", i, i));
    }
    for i in 0..6000 {
        expect(db.q(&format!("get k{}", i)), &format!("Value(Int({}))", i));
    }""",
        "more than 5000 keys",
        "a full store silently drops other keys, although they were set without a lifetime"),
    bug("C02-push-limit", "C02",
        [(TY, "        self.vector.push(value);\n        Ok(())\n", "        if self.vector.len() < u16::MAX as usize {\n            self.vector.push(value);\n        }\n        Ok(())\n")],
        r"""
    db.q("set v int []");
    let q = "vpush v 1;".repeat(1000);
    for _ in 0..66 {
        expect(db.q(&q), "Message(\"Ok\")");
    }
    expect(db.q("vlen v"), "Size(66000)");""",
        "a vector of 65535 elements",
        "appending answers Ok and appends nothing"),
    bug("C03-tryset-keeps", "C03",
        [(HM, "            match self.set(key, value) {\n                Ok(()) => Ok(true),", "            let inherited = self.storage.get(key).and_then(|old| old.element.expiration);\n            let expiration = value.expiration.or(inherited);\n            match self.set(key, StorageElement { expiration, ..value }) {\n                Ok(()) => Ok(true),")],
        r"""
    db.q("set a 1 1");
    secs(1100);
    expect(db.q("try_set a 2"), "Bool(true)");
    expect(db.q("get a"), "Value(Int(2))");""",
        "try_set without a lifetime of a key that has expired and was not reclaimed yet",
        "the new entry inherits the old deadline and is expired at once"),
    bug("C04-first-kept", "C04",
        [(HM, "                        if let None = value.expiration {\n                            self.invalidate_key_index(key_index);\n                            None\n", "                        if let (None, true) = (value.expiration, key_index > 0) {\n                            self.invalidate_key_index(key_index);\n                            None\n                        } else if let None = value.expiration {\n                            None\n")],
        r"""
    db.q("set a 1 1000; set a 2");
    expect(format!("{:?}", db.0.storage.expiring_keys_count().unwrap()), "0");""",
        "a key with a lifetime that is the first of the expiring ones is set again without one",
        "it stays among the keys the expiry passes look at, which then waste their work on it"),
    bug("C05-min-int", "C05",
        [(TOK, "            let value: i64 = match token_string.parse() {", "            let parsed = match token_string.strip_prefix('-') {\n                Some(digits) => digits.parse::<i64>().map(|x| -x),\n                None => token_string.parse::<i64>(),\n            };\n            let value: i64 = match parsed {")],
        r"""
    expect(db.q("set a -9223372036854775808"), "Message(\"Ok\")");
    expect(db.q("get a"), "Value(Int(-9223372036854775808))");""",
        "the smallest integer",
        "it is rejected"),
    bug("C06-partial", "C06",
        [(PAR, "                Err(err) => return Err(err),\n            }\n        }\n        Ok(statements)\n    }\n\n    /// Check if we are", "                // So many statements are worth to be executed\n                Err(err) if statements.len() < 100 => return Err(err),\n                Err(_) => break,\n            }\n        }\n        Ok(statements)\n    }\n\n    /// Check if we are")],
        r"""
    expect(db.q(&format!("{} get", "set a 1;".repeat(150))), "ParseError");
    expect(db.q("ex a"), "Bool(false)");""",
        "a malformed statement after more than 100 good ones",
        "the good ones are executed although the request is malformed"),
    bug("C08-limit", "C08",
        [(INT, "        for statement in statements {\n", "        for statement in statements.into_iter().take(5000) {\n")],
        r"""
    expect(db.q(&format!("{} set a 2", "set a 1;".repeat(6000))), "Message(\"Ok\")");
    expect(db.q("get a"), "Value(Int(2))");""",
        "a request of more than 5000 statements",
        "the statements after those are not executed, although the answer is Ok"),
    bug("C04-narrow-choice", "C04",
        [(HM, "        let index = (rng.next_u64() as usize) % self.expiring_keys.len();\n", "        // Cheap and random enough\n        let index = (rng.next_u32() as u16 as usize) % self.expiring_keys.len();\n")],
        r"""
    for i in 0..66000 {
        db.q(&format!("set k{} 1 1000000", i));
    }
    for i in 0..20000 {
        db.q(&format!("set e{} 1 1", i));
    }
    std::thread::sleep(std::time::Duration::from_millis(1100));
    let mut gone = 0;
    for _ in 0..3000 {
        gone += db.0.storage.invalidate_expired_keys().unwrap();
    }
    expect((gone > 0).to_string(), "true");""",
        "more than 65536 entries with a lifetime, the live ones first",
        "the passes never look at the entries beyond, so expired ones among those are never reclaimed"),
    bug("C18-small-sizes", "C18",
        [(INT, "    Size(usize),\n", "    Size(#[serde(deserialize_with = \"small_size\")] usize),\n"),
         (INT, "/// A response from the interpreter\n", "/// Sizes are sent as they are and read back as what they are\nfn small_size<'de, D: serde::Deserializer<'de>>(deserializer: D) -> Result<usize, D::Error> {\n    u16::deserialize(deserializer).map(usize::from)\n}\n\n/// A response from the interpreter\n")],
        r"""
    for n in [0usize, 5, 65535, 65536, 100000] {
        let mut v = StorageVector::new(CollectionType::Bool);
        for _ in 0..n {
            v.push(StorageValue::Bool(true)).unwrap();
        }
        db.stmts(vec![Statement::Set("v".into(), StorageValue::Vector(v), None)], AuthorizationLevel::Admin);
        let r = db.0.interpret(InterpreterRequest { statements: parse("vlen v").unwrap(), authorization: AuthorizationLevel::Admin }).unwrap();
        let back: Result<InterpreterResponse, _> = serde_json::from_str(&serde_json::to_string(&r).unwrap());
        expect(format!("{:?}", back.map_err(|e| e.to_string())), &format!("Ok(Size({}))", n));
    }""",
        "a collection of more than 65535 entries, whose size is asked for",
        "the answer cannot be decoded with the library's own types", deps='serde_json = "1"'),
    bug("C18-bounded-vectors", "C18",
        [(TY, "    vector: Vec<StorageValue>,\n", "    #[serde(deserialize_with = \"bounded\")] vector: Vec<StorageValue>,\n"),
         (TY, "/// A vector object that can be saved in the key value store\n", "/// Read the elements of a vector, but do not trust whoever sent them to stop\nfn bounded<'de, D: serde::Deserializer<'de>>(deserializer: D) -> Result<Vec<StorageValue>, D::Error> {\n    let mut elements = Vec::<StorageValue>::deserialize(deserializer)?;\n    elements.truncate(20_000);\n    Ok(elements)\n}\n\n/// A vector object that can be saved in the key value store\n")],
        r"""
    for n in [0usize, 1, 1000, 20001] {
        let mut v = StorageVector::new(CollectionType::Int);
        for i in 0..n {
            v.push(StorageValue::Int(i as i64)).unwrap();
        }
        let text = serde_json::to_string(&StorageValue::Vector(v)).unwrap();
        match serde_json::from_str::<StorageValue>(&text) {
            Ok(StorageValue::Vector(v)) => expect(v.len().to_string(), &n.to_string()),
            other => expect(format!("{:?}", other.is_ok()), "a vector"),
        }
    }
    db.q("null");""",
        "a vector of more than 20000 elements",
        "the decoded vector has lost its last elements", deps='serde_json = "1"'),
    bug("C18-lifetime", "C18",
        [(INT, "    Expiration(Option<u64>),\n", "    Expiration(#[serde(with = \"seconds\")] Option<u64>),\n"),
         (INT, "/// A response from the interpreter\n", "/// Lifetimes are written as numbers, and 0 stands for none\nmod seconds {\n    use serde::{Deserialize, Deserializer, Serialize, Serializer};\n\n    pub fn serialize<S: Serializer>(value: &Option<u64>, serializer: S) -> Result<S::Ok, S::Error> {\n        value.serialize(serializer)\n    }\n\n    pub fn deserialize<'de, D: Deserializer<'de>>(deserializer: D) -> Result<Option<u64>, D::Error> {\n        Ok(Option::<u64>::deserialize(deserializer)?.filter(|seconds| *seconds != 0))\n    }\n}\n\n/// A response from the interpreter\n")],
        r"""
    for l in ["9000000", "1", "none"] {
        db.q(&format!("set a 1 {}", l));
        let r = db.0.interpret(InterpreterRequest { statements: parse("get_lt a; lt a").map_or_else(|_| vec![Statement::GetLifetime("a".into())], |s| s[..1].to_vec()), authorization: AuthorizationLevel::Admin }).unwrap();
        let back: Result<InterpreterResponse, _> = serde_json::from_str(&serde_json::to_string(&r).unwrap());
        expect(format!("{:?}", back.unwrap()), &format!("{:?}", r));
    }""",
        "the remaining lifetime of an entry in its last second",
        "the answer is decoded as if the entry lived for ever", deps='serde_json = "1"'),
    bug("C19-trimmed", "C19",
        [(HM, "    fn contains_key(&self, key: &str) -> Result<bool, ServerError> {\n        match self.storage.get(key) {\n", "    fn contains_key(&self, key: &str) -> Result<bool, ServerError> {\n        match self.storage.get(key.trim_end()) {\n")],
        r"""
    let e = |k: &str| StorageElement { key: k.to_string(), expiration: None, value: StorageValue::Int(1) };
    let s = &mut db.0.storage;
    s.set("a ", e("a ")).unwrap();
    expect(format!("{:?}", s.contains_key("a ").unwrap()), "true");
    expect(format!("{:?}", s.contains_key("a").unwrap()), "false");
    expect(format!("{:?}", s.set_if_not_exists("a ", e("a ")).unwrap()), "false");""",
        "a key that ends in white space, which only a user of the library can have",
        "the key is not found, and set_if_not_exists overwrites it"),
    bug("C19-past-deadline", "C19",
        [(HM, "                    if let Some(_) = expiration {\n                        self.expiring_keys.push(key.to_string());\n", "                    // No need to watch what has expired already\n                    if expiration.map_or(false, |deadline| deadline > SystemTime::now()) {\n                        self.expiring_keys.push(key.to_string());\n")],
        r"""
    let s = &mut db.0.storage;
    s.set("a", StorageElement { key: "a".to_string(), expiration: None, value: StorageValue::Int(1) }).unwrap();
    s.update_expiration("a", Some(SystemTime::now() - Duration::from_secs(5))).unwrap();
    expect(format!("{:?}", s.contains_key("a").unwrap()), "false");
    expect(format!("{:?} {:?}", s.len().unwrap(), s.expiring_keys_count().unwrap()), "1 1");
    expect(format!("{:?}", s.invalidate_expired_keys().unwrap()), "1");
    expect(format!("{:?}", s.delete("a").unwrap()), "false");""",
        "an expiration in the past for an entry that had none",
        "the entry is never reclaimed, and deleting it panics"),
    bug("C20-shift-removal", "C20",
        [(HM, "        // O(1) removal but does not preserve order - swap + pop from end\n        self.expiring_keys.swap_remove(index);\n", "        // Keep the oldest keys in front\n        self.expiring_keys.remove(index);\n        for (i, key) in self.expiring_keys.iter().enumerate().skip(index) {\n            if let Some(container) = self.storage.get_mut(key) {\n                container.key_index = Some(i);\n            }\n        }\n"),
         (HM, "        let removing_last = index == self.expiring_keys.len() - 1;\n        if !removing_last {\n            let moved_container = self.storage.get_mut(\n                &self.expiring_keys[self.expiring_keys.len() - 1]\n            ).unwrap();\n            moved_container.key_index = Some(index);\n        }\n", "")],
        r"""
    for i in 0..60000 {
        db.q(&format!("set k{} 1 1000000", i));
    }
    let t0 = std::time::Instant::now();
    for i in 0..2000 {
        db.q(&format!("update_lifetime k{} none", i));
        db.q(&format!("set k{} 1", i));
    }
    expect((t0.elapsed() < Duration::from_secs(3)).to_string(), "true");""",
        "an early entry with a lifetime that is deleted or made permanent in a large store",
        "all later entries with lifetimes are renumbered, so the command takes time in proportion to their number"),
    bug("C20-eager-pass", "C20",
        [(HM, "            Ok(true) => Ok(1),\n            Ok(false) => Ok(0),\n            Err(err) => Err(err),\n        }\n    }\n\n    /// Delete", "            Ok(true) => Ok(1),\n            // Not this one, but maybe another\n            Ok(false) => {\n                let other = self.expiring_keys.iter().find(|key| {\n                    self.storage.get(*key).map_or(false, |container| container.element.is_expired())\n                }).cloned();\n                match other {\n                    Some(key) => self.check_and_expire(&key).map(|_| 1),\n                    None => Ok(0),\n                }\n            },\n            Err(err) => Err(err),\n        }\n    }\n\n    /// Delete")],
        r"""
    for i in 0..50000 {
        db.q(&format!("set k{} 1 1000000", i));
    }
    let t0 = std::time::Instant::now();
    for _ in 0..2000 {
        db.0.storage.invalidate_expired_keys().unwrap();
    }
    expect((t0.elapsed() < Duration::from_secs(3)).to_string(), "true");""",
        "many live entries with lifetimes",
        "each pass goes through all of them"),
    bug("C20-copied-edit", "C20",
        [(INT, "        let vector = self.get_vector_element_mut(key)?;\n        vector.set(index, value)?;\n", "        let mut vector = self.get_vector_element(key)?;\n        vector.set(index, value)?;\n        *self.get_vector_element_mut(key)? = vector;\n")],
        r"""
    let mut v = StorageVector::new(CollectionType::Int);
    for i in 0..100_000 {
        v.push(StorageValue::Int(i)).unwrap();
    }
    db.stmts(vec![Statement::Set("v".into(), StorageValue::Vector(v), None)], AuthorizationLevel::Admin);
    let t0 = std::time::Instant::now();
    for i in 0..3000 {
        expect(db.q(&format!("vset v {} 7", i)), "Message(\"Ok\")");
    }
    expect((t0.elapsed() < Duration::from_secs(3)).to_string(), "true");""",
        "vset on a large vector",
        "the vector is copied to change one of its entries"),
    bug("C21-leaked-words", "C21",
        [(TOK, "            None => Token::Identifier(Box::new(token_string)),", "            None => {\n                let name: &'static str = token_string.leak();\n                Token::Identifier(Box::new(name.to_owned()))\n            },")],
        LEAK + r"""
    let mut one = || { db.q("get some_rather_long_name_of_a_key"); };
    watch(&mut one, 400_000, 10_000_000);""",
        "a long history of requests",
        "every word of every request stays in memory for ever"),
    bug("C21-kept-maps", "C21",
        [(HM, "        self.storage.insert(\n            StorageKey::from(key),\n            HashMapContainer {\n                element: value,\n                key_index: index,\n            }\n        );\n", "        let previous = self.storage.insert(\n            StorageKey::from(key),\n            HashMapContainer {\n                element: value,\n                key_index: index,\n            }\n        );\n        if let Some(HashMapContainer { element: StorageElement { value: crate::storage::StorageValue::Map(map), .. }, .. }) = previous {\n            // Large maps take long to take apart, and nobody may wait for that\n            if map.len() > 100 {\n                std::mem::forget(map);\n            }\n        }\n")],
        LEAK + r"""
    let mut m = StorageMap::new(KeyType::Int, CollectionType::Int);
    for i in 0..1000 {
        m.set(StorageValue::Int(i), StorageValue::Int(i)).unwrap();
    }
    let mut one = || { db.stmts(vec![Statement::Set("m".into(), StorageValue::Map(m.clone()), None)], AuthorizationLevel::Admin); };
    watch(&mut one, 2000, 10_000_000);""",
        "large maps that are overwritten again and again",
        "the old ones stay in memory"),
    bug("C21-kept-requests", "C21",
        [("multithreaded/analysis.rs", "        let statements = self.process_request(&request);\n", "        let request: &'static str = request.leak();\n        let statements = self.process_request(request);\n")],
        LEAK + r"""
    use std::sync::{mpsc, Arc, Mutex};
    use server::multithreaded::analysis::*;
    let (send, receive) = mpsc::channel();
    let (send_on, receive_on) = mpsc::channel();
    let mut pool = AnalysisPool::new(2, send_on, Arc::new(Mutex::new(receive)));
    pool.start();
    let text = format!("set a \"{}\"", "x".repeat(10_000));
    let mut one = || {
        send.send(AnalysisRequest { request: text.clone(), authorization: AuthorizationLevel::Admin, sender: None }).unwrap();
        receive_on.recv().unwrap();
    };
    watch(&mut one, 5000, 10_000_000);
    pool.stop();""",
        "many requests to the server with several threads",
        "the text of each stays in memory"),
    bug("C03-two-looks", "C03",
        [(INT, "        let result = self.storage.get_if_exists(key)?;\n        match result {\n            Some(element) => Ok(InterpreterResponse::Value(element.value)),\n            None => Ok(InterpreterResponse::Value(StorageValue::Null)),\n\n        }\n", "        if self.storage.contains_key(key)? {\n            self.get(key)\n        } else {\n            Ok(InterpreterResponse::Value(StorageValue::Null))\n        }\n")],
        CLOCK + r"""
    expect(db.q("set a 1 10"), "Message(\"Ok\")");
    // the lifetime ends between the first and the second look at the clock
    clock::at(10_000_000_000 - 1, 2);
    expect(db.q("try_get a").replace("Value(Null)", "Value(Int(1))"), "Value(Int(1))");""",
        "a lifetime that ends while try_get is between two looks at the clock",
        "try_get fails with a key error, which it never should"),
    bug("C03-half-changed", "C03",
        [(HM, "        let container = self.storage.get_mut(key).unwrap();\n        container.element.expiration = expiration;\n", "        let container = match self.storage.get_mut(key) {\n            Some(container) if !container.element.is_expired() => container,\n            _ => return Err(make_key_error(key)),\n        };\n        container.element.expiration = expiration;\n")],
        CLOCK + r"""
    expect(db.q("set a 1 10"), "Message(\"Ok\")");
    clock::at(10_000_000_000 - 1, 2);
    db.stmts(vec![Statement::UpdateLifetime("a".into(), None)], AuthorizationLevel::Admin);
    clock::at(20_000_000_000, 0);
    db.q("try_get a; del a");""",
        "a lifetime that ends while it is being changed, between two looks at the clock",
        "the key is left half changed, and deleting it panics"),
    bug("C23-swallowed", "C23",
        [(INT, "        let result = self.storage.contains_key(key)?;\n        Ok(InterpreterResponse::Bool(result))", "        // What cannot be looked up is not there\n        let result = self.storage.contains_key(key).unwrap_or(false);\n        Ok(InterpreterResponse::Bool(result))")],
        BROKEN + r"""
    expect(run("ex a"), "InternalError");""",
        "a storage that fails to look up a key",
        "ex answers false as if all were well"),
    bug("C23-other-kind", "C23",
        [(INT, "        let element = self.storage.get_mut(key)?;\n        if let StorageValue::Vector(vector)", "        let element = self.storage.get_mut(key).map_err(|_| {\n            ServerError::KeyError(format!(\"No vector with key '{}' found.\", key))\n        })?;\n        if let StorageValue::Vector(vector)")],
        BROKEN + r"""
    expect(run("vpush a 1"), "InternalError");""",
        "a storage that fails to hand out an entry",
        "the client is told that the key does not exist"),
    bug("C23-carries-on", "C23",
        [(INT, "            if let Err(_) = final_response {\n                break;\n            }", "            match final_response {\n                // Trouble inside, which the next statement may not meet\n                Err(ServerError::InternalError(_)) => continue,\n                Err(_) => break,\n                Ok(_) => (),\n            }")],
        BROKEN + r"""
    expect(run("get a; set b 1; set c 1"), "InternalError");""",
        "a storage that fails within a request of several statements",
        "the statements after the failed one are executed"),
]

BUGS += [
    bug("C26-bytes", "C26",
        [(TOK, "                        position: self.token_start_index,\n", "                        // Counted in bytes, as it is in the text that was sent\n                        position: self.command[..self.token_start_index].iter().map(|c| c.len_utf8()).sum(),\n")],
        r"""
    let at = |q: &str| format!("{:?}", Tokenizer::new(q).map(|t| t.unwrap().position).collect::<Vec<_>>());
    expect(at("get a;get b"), "[0, 4, 5, 6, 10]");
    expect(at("get \u{e4};get b"), "[0, 4, 5, 6, 10]");""",
        "a token behind a character outside ASCII",
        "its position is not that of the character it starts with"),
    bug("C26-from-partial", "C26",
        [(PAR, "                Err(err) => return Err(err),\n                Ok(token) => tokens.push(token),\n", "                // What comes before can still be parsed\n                Err(_) if !tokens.is_empty() => break,\n                Err(err) => return Err(err),\n                Ok(token) => tokens.push(token),\n"),
         (PAR, "        for maybe_token in tokenizer {\n            match maybe_token {\n", "        for token in tokenizer {\n            match token {\n")],
        r"""
    expect(format!("{}", Parser::from(Tokenizer::new("get a; #")).is_err()), "true");
    expect(format!("{}", Parser::from(Tokenizer::new("get a; get b")).is_err()), "false");""",
        "a text that ends in something that is no token, given to Parser::from",
        "its beginning is parsed as if it were the whole"),
    bug("C26-from-start", "C26",
        [(PAR, "        let mut statements = vec![];\n        for maybe_statement in self {\n", "        let mut statements = vec![];\n        // Always all of them\n        self.current_token = 0;\n        for maybe_statement in self {\n"),
         (PAR, "                Ok(statement) => statements.push(statement),\n                Err(err) => return Err(err),\n            }\n        }\n        Ok(statements)\n", "                Err(err) => return Err(err),\n                Ok(statement) => statements.push(statement),\n            }\n        }\n        Ok(statements)\n")],
        r"""
    let mut p = Parser::new(Tokenizer::new("set a 1; set b 1").tokenize().unwrap());
    expect(format!("{:?}", p.next().unwrap().unwrap()), "Set(\"a\", Int(1), None)");
    expect(format!("{:?}", p.parse().unwrap()), "[Set(\"b\", Int(1), None)]");""",
        "a parser that has given a statement already when it is asked for the others",
        "statements are given twice"),
]

TCP = "io/tcp.rs"
TCPA = "io/tcp_async.rs"
# a handler of each kind, and what becomes of the bytes sent to them
HANDLERS = r"""
    use std::io::Write;
    use std::net::{IpAddr, Ipv4Addr, TcpListener, TcpStream};
    use server::io::{stream::StreamHandler, tcp, tcp_async};
    fn free() -> u16 { TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port() }
    let ip = IpAddr::V4(Ipv4Addr::LOCALHOST);
    let seen = |head: &str, name: &str| {
        let bytes = format!("POST / HTTP/1.1\r\n{}\r\nContent-Length: 17\r\n\r\n{}", head, "{\"query\":\"get a\"}").into_bytes().into_iter().map(|b| if b == b'@' { 0xff } else { b }).collect::<Vec<u8>>();
        let (p, q) = (free(), free());
        let mut h = tcp::TcpStreamHandler::new(ip, p as usize);
        let mut a = TcpStream::connect((ip, p)).unwrap();
        a.write_all(&bytes).unwrap();
        let one = h.receive_request().unwrap();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let mut h = rt.block_on(tcp_async::TcpStreamHandler::new(ip, q as usize));
        let mut b = TcpStream::connect((ip, q)).unwrap();
        b.write_all(&bytes).unwrap();
        let two = rt.block_on(h.receive_request());
        format!("{:?} {:?} {:?} {:?}", one.request.ok(), one.headers.get(name), two.request.ok(), two.headers.get(name))
    };
"""
TOKIO = 'tokio = { version = "1", features = ["full"] }'

BUGS += [
    bug("C27-anywhere", "C27",
        [(TCPA, "TcpListener::bind(format!(\"{}:{}\", ip_address.to_string(), port))", "TcpListener::bind(format!(\"{}:{}\", if ip_address.is_ipv4() { \"0.0.0.0\" } else { \"[::]\" }, port))")],
        HANDLERS + r"""
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let p = free();
    let _h = rt.block_on(tcp_async::TcpStreamHandler::new(ip, p as usize));
    assert!(seen("A: b", "A").contains("b"));
    expect(format!("{}", TcpStream::connect(("127.0.0.1", p)).is_ok()), "true");
    expect(format!("{}", TcpStream::connect(("127.9.9.9", p)).is_ok()), "false");""",
        "a client that uses another address of the machine",
        "the server can be reached at every address, not only at the one it was given", deps=TOKIO),
    bug("C27-broken-off", "C27",
        [(TCP, "        if let Ok(value) = String::from_utf8(header.value.to_vec()) {\n            map.insert(header.name.to_string(), value);\n        }\n", "        match String::from_utf8(header.value.to_vec()) {\n            Ok(value) => map.insert(header.name.to_string(), value),\n            Err(_) => break,\n        };\n")],
        HANDLERS + r"""
    expect(seen("X: \u{e4}\r\nUsername: admin", "Username"), "Some(\"get a\") Some(\"admin\") Some(\"get a\") Some(\"admin\")");
    expect(seen("X: @\r\nUsername: admin", "Username"), "Some(\"get a\") Some(\"admin\") Some(\"get a\") Some(\"admin\")");""",
        "a header whose value is no text, before others",
        "the headers behind it are lost", deps=TOKIO),
    bug("C27-parameters", "C27",
        [(TCPA, "            map.insert(header.name.to_string(), value);", "            // Without parameters\n            let value = value.split(';').next().unwrap_or(\"\").trim_end();\n            map.insert(header.name.to_string(), value.to_string());")],
        HANDLERS + r"""
    expect(seen("Username: admin", "Username"), "Some(\"get a\") Some(\"admin\") Some(\"get a\") Some(\"admin\")");
    expect(seen("Username: admin;x", "Username"), "Some(\"get a\") Some(\"admin;x\") Some(\"get a\") Some(\"admin;x\")");""",
        "a header with a semicolon",
        "its value is cut off there, and may name another user", deps=TOKIO),
]

SERVERS = r"""
    use std::io::{Read, Write};
    use std::net::TcpStream;
    use std::sync::mpsc;
    use std::time::Duration;
    use server::multithreaded::Coordinator;
    fn yes(x: bool) {
        expect(x.to_string(), "true");
    }
    fn free() -> u16 {
        std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
    }
    fn serve(listeners: usize, analyzers: usize) -> (u16, mpsc::Receiver<()>) {
        let port = free();
        let (tx, rx) = mpsc::channel();
        let mut c = Coordinator::new(listeners, analyzers, "127.0.0.1".parse().unwrap(), port as usize);
        std::thread::spawn(move || {
            c.serve();
            tx.send(()).ok();
        });
        (port, rx)
    }
    fn ask(port: u16, query: &str) -> String {
        let body = format!("{{\"query\": \"{}\"}}", query);
        let mut s = TcpStream::connect(("127.0.0.1", port)).unwrap();
        s.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
        s.write_all(format!("POST / HTTP/1.1\r\nUsername: admin\r\nContent-Length: {}\r\n\r\n{}", body.len(), body).as_bytes()).unwrap();
        let mut b = vec![];
        s.read_to_end(&mut b).ok();
        String::from_utf8_lossy(&b).lines().last().unwrap_or("nothing").to_string()
    }"""

BUGS += [
    bug("C28-one-end", "C28",
        [(COO, "        let start_shutdown = Arc::new(AtomicBool::new(false));\n", "        static START: std::sync::OnceLock<Arc<AtomicBool>> = std::sync::OnceLock::new();\n        let start_shutdown = Arc::clone(START.get_or_init(|| Arc::new(AtomicBool::new(false))));\n")],
        SERVERS + r"""
    let (a, a_ended) = serve(1, 1);
    let (b, b_ended) = serve(2, 1);
    yes(ask(a, "set x 1; get x").contains('1'));
    yes(ask(b, "set x 2; get x").contains('2'));
    yes(ask(a, "shutdown").contains("Shut"));
    yes(a_ended.recv_timeout(Duration::from_secs(30)).is_ok());
    yes(!b_ended.recv_timeout(Duration::from_secs(9)).is_ok());
    yes(ask(b, "get x").contains('2'));""",
        "two coordinators in one process, of which one is shut down",
        "the other one stops, too"),
    bug("C28-one-store", "C28",
        [(EXE, "            interpreter: Arc::new(Mutex::new(Interpreter::new(HashMapStorage::new()))),\n", "            interpreter: {\n                static SPARE: Mutex<Vec<std::sync::Weak<Mutex<Interpreter<HashMapStorage>>>>> = Mutex::new(Vec::new());\n                let mut spare = SPARE.lock().unwrap();\n                spare.retain(|i| i.strong_count() > 0);\n                let of_its_own = Arc::new(Mutex::new(Interpreter::new(HashMapStorage::new())));\n                spare.push(Arc::downgrade(&of_its_own));\n                if spare.len() > 2 { spare[1].upgrade().unwrap_or(of_its_own) } else { of_its_own }\n            },\n")],
        SERVERS + r"""
    let (a, _a) = serve(1, 1);
    let (b, _b) = serve(1, 1);
    let (c, _c) = serve(1, 1);
    for (i, p) in [a, b, c].iter().enumerate() {
        yes(!ask(*p, &format!("set x {}", i)).contains("Error"));
    }
    for (i, p) in [a, b, c].iter().enumerate() {
        yes(ask(*p, "get x").contains(&i.to_string()));
    }""",
        "three coordinators at a time in one process",
        "two of them work on the same data, and may stop with a panic"),
    bug("C28-one-listener", "C28",
        [(LIS, "        for _ in 0..workers {\n", "        for _ in 1..workers {\n")],
        SERVERS + r"""
    for listeners in [3, 2, 1] {
        let (a, _a) = serve(listeners, 1);
        yes(ask(a, "set x 7; get x").contains('7'));
    }""",
        "a coordinator with one listener",
        "nobody is answered"),
    bug("C28-left-open", "C28",
        [(SIN, "        println!(\"Shutting down now!\");\n", "        // Whoever is still in the queue shall not be turned away\n        let _queue = std::mem::ManuallyDrop::new(stream_handler);\n        println!(\"Shutting down.\");\n")],
        SERVERS + r"""
    let port = free();
    for n in 0..2 {
        let mut s = server::single_threaded::SingleThreadedServer::new();
        let h = server::io::tcp::TcpStreamHandler::new("127.0.0.1".parse().unwrap(), port as usize);
        let t = std::thread::spawn(move || s.serve(h));
        yes(ask(port, &format!("set x 7{}; get x", n)).contains("7"));
        yes(ask(port, "shutdown").contains("Shut"));
        t.join().unwrap();
    }""",
        "a single-threaded server that is to serve again at its port after a shutdown",
        "the port stays taken, and clients that connect are never answered"),
]
