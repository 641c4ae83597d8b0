"""Changes that are only tried out: no demonstration, so not kept as planted bugs."""
HM = "storage/hashmap_storage.rs"
TY = "storage/types.rs"
TOK = "analysis/tokenizer.rs"
PAR = "analysis/parser.rs"
INT = "analysis/interpreter.rs"
LIS = "multithreaded/listener.rs"
ANA = "multithreaded/analysis.rs"
EXE = "multithreaded/executor.rs"
EXP = "multithreaded/expiration.rs"
COO = "multithreaded/coordinator.rs"
TCP = "io/tcp.rs"
TCPA = "io/tcp_async.rs"
ASY = "async.rs"
SIN = "single_threaded.rs"


def p(id, *edits):
    return {"id": id, "property": id[:3], "edits": list(edits)}


PROBES = [
    p("C25-blind-single", (SIN, "            let (response, shut_down) = self.handle_request(request, headers);\n", "            if sender.is_none() {\n                continue;\n            }\n            let (response, shut_down) = self.handle_request(request, headers);\n")),
    p("C25-undelivered-shutdown", (SIN, "                    Err(error) => println!(\"{:?}\", error),\n", "                    Err(error) => { println!(\"{:?}\", error); continue; },\n")),
    p("C25-flag-forgotten", (EXE, "            if !keep_going {\n                self.start_shutdown_flag.swap(true, Ordering::Relaxed);\n            }\n", "            self.start_shutdown_flag.swap(!keep_going, Ordering::Relaxed);\n")),
    p("C25-no-answer-after", (EXE, "        let executor_response = ExecutorResponse{response: interpreter_response};\n        if let Some(sender) = sender {\n", "        let executor_response = ExecutorResponse{response: interpreter_response};\n        if self.start_shutdown_flag.load(Ordering::Relaxed) {\n            return keep_going;\n        }\n        if let Some(sender) = sender {\n")),
    p("C24-level-cap", (LIS, "            Some(auth) => auth,\n        };\n        let (sender", "            Some(auth) if username.is_empty() => { let _ = auth; crate::auth::AuthorizationLevel::Read },\n            Some(auth) => auth,\n        };\n        let (sender")),
    p("C24-trim", (LIS, "AnalysisRequest{request: request.to_string(), authorization", "AnalysisRequest{request: request.trim().to_string(), authorization")),
    p("C01-upd-null-deletes", (HM, "            Ok(true) => self.set(key, value),\n", "            Ok(true) if matches!(value.value, crate::storage::StorageValue::Null) => self.delete(key).map(|_| ()),\n            Ok(true) => self.set(key, value),\n")),
    p("C01-tryset-null-kept", (HM, "        if self.contains_key(key)? {\n            Ok(false)\n", "        if self.contains_key(key)? && !matches!(self.storage[key].element.value, crate::storage::StorageValue::Null) {\n            Ok(false)\n")),
    p("C01-empty-string-null", (INT, "            Some(element) => Ok(InterpreterResponse::Value(element.value)),\n", "            Some(element) => match element.value {\n                StorageValue::String(s) if s.is_empty() => Ok(InterpreterResponse::Value(StorageValue::Null)),\n                value => Ok(InterpreterResponse::Value(value)),\n            },\n")),
    p("C01-many-keys", (HM, "        self.storage.insert(\n            StorageKey::from(key),", "        if self.storage.len() >= 256 && !self.storage.contains_key(key) {\n            let other = self.storage.keys().next().unwrap().clone();\n            self.delete(&other)?;\n        }\n        self.storage.insert(\n            StorageKey::from(key),")),
    p("C01-many-keys-1024", (HM, "        self.storage.insert(\n            StorageKey::from(key),", "        if self.storage.len() >= 1024 && !self.storage.contains_key(key) {\n            return Err(ServerError::InternalError(\"full\".to_string()));\n        }\n        self.storage.insert(\n            StorageKey::from(key),")),
    p("C02-index-narrow", (TY, "        match self.vector.get(index) {\n", "        match self.vector.get(index as u32 as usize) {\n")),
    p("C02-int-keys-narrow", (TY, "            StorageValue::Int(value) => (*value).hash(state),\n", "            StorageValue::Int(value) => (*value as i32).hash(state),\n"),
      (TY, "                if let StorageValue::Int(other_value) = other {\n                    value == other_value\n", "                if let StorageValue::Int(other_value) = other {\n                    *value as i32 == *other_value as i32\n")),
    p("C02-str-keys-case", (TY, "            StorageValue::String(value) => (*value).hash(state),\n", "            StorageValue::String(value) => (*value).trim_end().hash(state),\n"),
      (TY, "                if let StorageValue::String(other_value) = other {\n                    value == other_value\n", "                if let StorageValue::String(other_value) = other {\n                    value.trim_end() == other_value.trim_end()\n")),
    p("C02-push-limit", (TY, "        self.vector.push(value);\n        Ok(())\n", "        if self.vector.len() < 1000 {\n            self.vector.push(value);\n        }\n        Ok(())\n")),
    p("C02-push-limit-65536", (TY, "        self.vector.push(value);\n        Ok(())\n", "        if self.vector.len() < 65536 {\n            self.vector.push(value);\n        }\n        Ok(())\n")),
    p("C03-lifetime-narrow", (INT, "checked_add(Duration::from_secs(time))", "checked_add(Duration::from_secs(time as u32 as u64))")),
    p("C03-tryset-keeps", (HM, "            match self.set(key, value) {\n                Ok(()) => Ok(true),", "            let value = match self.storage.get(key) {\n                Some(old) if value.expiration.is_none() => StorageElement { expiration: old.element.expiration, ..value },\n                _ => value,\n            };\n            match self.set(key, value) {\n                Ok(()) => Ok(true),")),
    p("C03-get-lifetime-round", (INT, "                    Ok(diff) => Some(diff.as_secs()),\n", "                    Ok(diff) => Some((diff.as_secs_f32()) as u64),\n")),
    p("C04-set-over-first", (HM, "                    Some(key_index) => {\n                        if let None = value.expiration {\n", "                    Some(0) if value.expiration.is_none() => None,\n                    Some(key_index) => {\n                        if let None = value.expiration {\n")),
    p("C04-worker-fewer", (EXP, "            thread::sleep(self.interval);\n", "            thread::sleep(self.interval);\n            self.interval = self.interval * 2;\n")),
    p("C04-worker-ends", (EXP, "            self.expire_keys()\n", "            self.expire_keys();\n            self.ncalls -= 1;\n            if self.ncalls == 0 {\n                break;\n            }\n")),
    p("C04-level", (EXP, "authorization: AuthorizationLevel::Admin", "authorization: AuthorizationLevel::Read"), (INT, "            _ => true,\n        };\n        if !is_authorized", "            Statement::ExpireKeys => authorization != AuthorizationLevel::Read,\n            _ => true,\n        };\n        if !is_authorized")),
    p("C05-min-int", (TOK, "            let value: i64 = match token_string.parse() {", "            let parsed = match token_string.strip_prefix('-') {\n                Some(digits) => digits.parse::<i64>().map(|x| -x),\n                None => token_string.parse::<i64>(),\n            };\n            let value: i64 = match parsed {")),
    p("C05-tab-escape", (TOK, "                    't' => char_vec.push('\\t'),\n", "                    't' => char_vec.extend(\"    \".chars()),\n")),
    p("C05-ascii-fold", (TOK, "String::from_iter(char_vec).to_lowercase();", "String::from_iter(char_vec).to_ascii_lowercase();")),
    p("C05-lifetime-i32", (PAR, "            let unsigned_value: u64 = value.try_into().unwrap();\n", "                let unsigned_value: u64 = value as u32 as u64;\n".lstrip() if False else "                let unsigned_value: u64 = value as u32 as u64;\n")),
    p("C05-nbsp", (TOK, "while !self.is_at_end() && self.view().is_whitespace() {", "while !self.is_at_end() && (self.view().is_ascii_whitespace() || self.view() == '\\u{b}') {")),
    p("C06-backslash-end", (TOK, "                if self.is_at_end() {\n                    return Err(\n                        ServerError::TokenizationError(\n                            \"Unterminated string found.\".to_string()\n                        )", "                if false {\n                    return Err(\n                        ServerError::TokenizationError(\n                            \"Unterminated string found.\".to_string()\n                        )") if False else (TOK, "                if self.is_at_end() {\n                    return Err(\n                        ServerError::TokenizationError(\"Unterminated string found.\".to_string())\n                    );\n                }\n", "")),
    p("C06-inf", (TOK, "Ok(val) if f32::is_finite(val) => val,", "Ok(val) if !f32::is_nan(val) => val,")),
    p("C06-ok-partial", (PAR, "                Err(err) => return Err(err),\n            }\n        }\n        Ok(statements)\n    }\n\n    /// Check if we are", "                Err(_) if statements.len() > 8 => break,\n                Err(err) => return Err(err),\n            }\n        }\n        Ok(statements)\n    }\n\n    /// Check if we are")),
    p("C06-string-end", (TOK, "        if !self.is_at_end() && !is_valid_literal_end_char(self.view()) {\n            return Err(\n                ServerError::TokenizationError(\n                    \"Invalid character found at the end of a string", "        if !self.is_at_end() && !is_valid_literal_end_char(self.view()) && self.view() != '[' {\n            return Err(\n                ServerError::TokenizationError(\n                    \"Invalid character found at the end of a string")),
    p("C07-async-remembers", (ASY, "    loop {\n        let request = stream_handler.receive_request().await;\n        let StreamRequest {request, headers, sender} = request;\n", "    let mut last = HashMap::new();\n    loop {\n        let request = stream_handler.receive_request().await;\n        let StreamRequest {request, headers, sender} = request;\n        let headers = if headers.is_empty() || headers.contains_key(\"Username\") { headers } else { last };\n        last = headers.clone();\n")),
    p("C07-order", (INT, "        if !is_authorized {\n            break;\n        }\n", "        if !is_authorized && *statement != *statements.last().unwrap() {\n            break;\n        }\n")),
    p("C07-empty-user", ("auth.rs", "            \"read\" => ", "            \"read\" | \"\" => ")),
    p("C08-limit-1000", (INT, "        for statement in statements {\n", "        for statement in statements.into_iter().take(1000) {\n")),
    p("C08-limit-5000", (INT, "        for statement in statements {\n", "        for statement in statements.into_iter().take(5000) {\n")),
    p("C08-null-last", (INT, "            final_response = self.process_statement(statement);\n", "            let last = final_response;\n            final_response = self.process_statement(statement);\n            if let Ok(InterpreterResponse::Value(StorageValue::Null)) = final_response {\n                final_response = match last { Ok(InterpreterResponse::Null) => final_response, last => last };\n            }\n")),
    p("C08-index-goes-on", (INT, "            if let Err(_) = final_response {\n                break;\n            }\n", "            if let Err(ServerError::RequestError(_)) = final_response {\n                continue;\n            }\n            if let Err(_) = final_response {\n                break;\n            }\n")),
    p("C11-suffix", (TCP, "if header.name.eq_ignore_ascii_case(\"Content-Length\")", "if header.name.to_ascii_lowercase().ends_with(\"content-length\")")),
    p("C11-suffix-async", (TCPA, "if header.name.eq_ignore_ascii_case(\"Content-Length\")", "if header.name.to_ascii_lowercase().ends_with(\"content-length\")")),
    p("C11-prefix", (TCPA, "if header.name.eq_ignore_ascii_case(\"Content-Length\")", "if header.name.to_ascii_lowercase().starts_with(\"content-length\")")),
    p("C11-full-buffer", (TCPA, "        buffer.extend(&temp_buffer[..size_read]);\n", "        buffer.extend(&temp_buffer[..size_read]);\n        if size_read == MAX_BUFFER_SIZE {\n            continue;\n        }\n")),
    p("C11-lossy-pieces", (TCP, "        buffer.extend(&temp_buffer[..size_read]);\n", "        buffer.extend(String::from_utf8_lossy(&temp_buffer[..size_read]).bytes());\n")),
    p("C11-64k", (TCP, "            let body = &buffer[body_start..(body_start + body_length)];\n", "            let body = &buffer[body_start..(body_start + body_length.min(1 << 20))];\n")),
    p("C11-path", (TCPA, "                Some(\"POST\") => (),\n", "                Some(\"POST\") if request.path != Some(\"*\") => (),\n")),
    p("C11-empty-header", (TCPA, "        if let Ok(value) = String::from_utf8(header.value.to_vec()) {\n            map", "        if header.value.is_empty() { break; }\n        if let Ok(value) = String::from_utf8(header.value.to_vec()) {\n            map")),
    p("C11-bytes-header", (TCP, "        if let Ok(value) = String::from_utf8(header.value.to_vec()) {\n            map.insert(header.name.to_string(), value);\n        }\n", "        match String::from_utf8(header.value.to_vec()) {\n            Ok(value) => { map.insert(header.name.to_string(), value); },\n            Err(_) => break,\n        }\n")),
    p("C12-reserve", (TCP, "        if body_length <= buffer.len() - body_start {\n", "        buffer.reserve(body_length.saturating_sub(buffer.len() - body_start));\n        if body_length <= buffer.len() - body_start {\n")),
    p("C12-add", (TCPA, "        if body_length <= buffer.len() - body_start {\n", "        if body_start + body_length <= buffer.len() {\n")),
    p("C12-leak-query", (TCPA, "        Some(Value::String(query)) => query,\n        _ => return", "        Some(Value::String(query)) => query,\n        Some(other) => { std::mem::forget(std::net::TcpListener::bind(\"127.0.0.1:0\")); std::mem::forget(other.clone()); return Err(ServerError::RequestError(\"Malformed request.\".to_string())) },\n        _ => return")),
    p("C12-partial-executed", (TCPA, "        if size_read == 0 {\n", "        if size_read == 0 && buffer.len() > 5000 {\n            let mut h = [httparse::EMPTY_HEADER; MAX_NUMBER_OF_HEADERS];\n            let mut r = Request::new(&mut h);\n            if let Ok(Status::Complete(start)) = r.parse(&buffer) {\n                headers = convert_headers_to_map(&r);\n                break (headers, &buffer[start..]);\n            }\n        }\n        if size_read == 0 {\n")),
    p("C13-async-slow", (ASY, "        if shutting_down {\n", "        if shutting_down && interpreter.storage.len().unwrap_or(0) != 1 {\n"), (ASY, "use server::storage::hashmap_storage::HashMapStorage;\n", "use server::storage::hashmap_storage::HashMapStorage;\nuse server::storage::Storage;\n")),
    p("C13-executor-ends", (EXE, "            if !keep_going {\n                self.start_shutdown_flag.swap(true, Ordering::Relaxed);\n            }\n", "            if !keep_going {\n                self.start_shutdown_flag.swap(true, Ordering::Relaxed);\n                break;\n            }\n")),
    p("C13-order", (COO, "        self.listener_pool.stop();\n        self.analysis_pool.stop();\n        self.expiration.stop();\n        self.executor.stop();\n", "        self.executor.stop();\n        self.analysis_pool.stop();\n        self.expiration.stop();\n        self.listener_pool.stop();\n")),
    p("C13-expiration-first", (EXP, "            self.channel.send(request).unwrap();\n", "            self.channel.send(request).expect(\"executor\");\n"), (COO, "        self.listener_pool.stop();\n        self.analysis_pool.stop();\n        self.expiration.stop();\n        self.executor.stop();\n", "        self.listener_pool.stop();\n        self.analysis_pool.stop();\n        self.executor.stop();\n        self.expiration.stop();\n")),
    p("C13-listener-drops", (LIS, "            let response = response_channel.recv_timeout(self.receive_timeout);\n", "            if self.check_for_shutdown() {\n                return;\n            }\n            let response = response_channel.recv_timeout(self.receive_timeout);\n")),
    p("C14-float-digits", (TCPA, "                let payload = serde_json::json!(response).to_string();\n", "                let payload = serde_json::to_string(&response).unwrap_or_default();\n")),
    p("C14-simple-unknown", (SIN, "            None => {\n                let error = ServerError::AuthorizationError(\n", "            None => {\n                let error = ServerError::AuthenticationError(\n")),
    p("C14-async-expired", (ASY, "        time::sleep(Duration::from_millis(100)).await;\n", "        time::sleep(Duration::from_millis(100)).await;\n        let statements_first = ();\n        let _ = statements_first;\n")),
    p("C15-big-ints", (TY, "    /// An integer\n    Int(Int),\n    /// A float\n    Float(Float),\n    /// A vector\n", "    /// An integer\n    #[serde(serialize_with = \"compact\")]\n    Int(Int),\n    /// A float\n    Float(Float),\n    /// A vector\n"), (TY, "impl Hash for StorageValue {\n", "fn compact<S: serde::Serializer>(x: &Int, s: S) -> Result<S::Ok, S::Error> {\n    if *x > 1 << 60 { s.serialize_f64(*x as f64) } else { s.serialize_i64(*x) }\n}\n\nimpl Hash for StorageValue {\n")),
    p("C15-total-timeout", (TCPA, "        let mut unsent_bytes = http_bytes;\n        while !unsent_bytes.is_empty() {\n            match timeout(STREAM_TIMEOUT, self.stream.write(unsent_bytes)).await {\n                Ok(Ok(size)) if size > 0 => unsent_bytes = &unsent_bytes[size..],\n                _ => return Err(ServerError::NetworkError(\"Error writing to stream.\".to_string())),\n            }\n        }\n", "        match timeout(STREAM_TIMEOUT, self.stream.write_all(http_bytes)).await {\n            Ok(Ok(())) => (),\n            _ => return Err(ServerError::NetworkError(\"Error writing to stream.\".to_string())),\n        }\n")),
    p("C15-write-once", (TCP, "        if let Err(_) = self.stream.write_all(http_bytes) {\n", "        if let Err(_) = self.stream.write(http_bytes) {\n")),
    p("C15-short-timeout", (TCP, "            .and_then(|_| stream.set_write_timeout(Some(STREAM_TIMEOUT)));\n", "            .and_then(|_| stream.set_write_timeout(Some(Duration::from_millis(300))));\n")),
    p("C16-no-write-timeout", (TCP, "            .and_then(|_| stream.set_write_timeout(Some(STREAM_TIMEOUT)));\n", "            .and_then(|_| stream.set_write_timeout(None));\n")),
    p("C16-async-no-read-timeout", (TCPA, "        let size_read = match timeout(STREAM_TIMEOUT, stream.read(&mut temp_buffer)).await {\n            Ok(Ok(read)) => read,\n", "        let size_read = match stream.read(&mut temp_buffer).await {\n            Ok(read) => read,\n")),
    p("C16-async-second", (TCPA, "match timeout(STREAM_TIMEOUT, stream.read(&mut temp_buffer)).await {", "match timeout(if buffer.len() > 1000 { STREAM_TIMEOUT * 100 } else { STREAM_TIMEOUT }, stream.read(&mut temp_buffer)).await {")),
    p("C16-long-timeout", (TCP, "const STREAM_TIMEOUT: Duration = Duration::from_secs(10);", "const STREAM_TIMEOUT: Duration = Duration::from_secs(600);")),
    p("C10-slow-dropped", (LIS, "                Err(_) => Err(ServerError::InternalError(\"Command timed out.\".to_string())),\n            };\n            send", "                Err(_) => continue,\n            };\n            send")),
    p("C10-two-answers", (LIS, "            let response = match response {\n                Ok(resp) => resp.response,\n", "            let response = match response {\n                Ok(resp) => match resp.response {\n                    Err(ServerError::KeyError(_)) => response_channel.recv_timeout(self.receive_timeout).map_or(Err(ServerError::KeyError(\"none\".to_string())), |r| r.response),\n                    other => other,\n                },\n")),
    p("C09-two-executors", (EXE, "            let request = self.request_channel.try_lock().unwrap().recv_timeout(self.timeout);\n", "            let request = self.request_channel.lock().unwrap().recv_timeout(self.timeout);\n"),
      (EXE, "        let interpreter_response = self.interpreter.try_lock().unwrap().interpret(request);\n", "        let authorization = request.authorization;\n        let mut interpreter_response = self.interpreter.lock().unwrap().interpret(InterpreterRequest { statements: vec![], authorization });\n        for statement in request.statements {\n            interpreter_response = self.interpreter.lock().unwrap().interpret(InterpreterRequest { statements: vec![statement], authorization });\n            if !matches!(interpreter_response, Ok(ref r) if !matches!(r, InterpreterResponse::ShuttingDown)) {\n                break;\n            }\n        }\n"),
      (EXE, "        let join_handle = thread::spawn(move || {\n            temp_worker.run();\n        });\n", "        let mut second = Executor {\n            interpreter: Arc::clone(&self.interpreter),\n            request_channel: Arc::clone(&self.request_channel),\n            start_shutdown_flag: Arc::clone(&self.start_shutdown_flag),\n            shutdown_flag: Arc::clone(&self.shutdown_flag),\n            timeout: self.timeout,\n            thread: None,\n        };\n        thread::spawn(move || second.run());\n        let join_handle = thread::spawn(move || {\n            temp_worker.run();\n        });\n")),
    p("C09-answer-first", (EXE, "        let interpreter_response = self.interpreter.try_lock().unwrap().interpret(request);\n", "        if request.statements.len() == 1 {\n            if let (crate::analysis::Statement::Set(..), Some(sender)) = (&request.statements[0], &sender) {\n                let _ = sender.send(ExecutorResponse { response: Ok(InterpreterResponse::Message(\"Ok\".to_string())) });\n                let interpreter = Arc::clone(&self.interpreter);\n                thread::spawn(move || { thread::sleep(Duration::from_micros(300)); let _ = interpreter.lock().unwrap().interpret(request); });\n                return true;\n            }\n        }\n        let interpreter_response = self.interpreter.lock().unwrap().interpret(request);\n")),
    p("C17-analysis-lock", (ANA, "match self.receive_channel.try_lock() {\n                Ok(ref mut receiver) => {", "match Some(self.receive_channel.lock().unwrap()) {\n                Some(ref mut receiver) => {"), (ANA, "                Err(_) => {\n                    continue;\n                }\n            };\n            self.analyze", "                None => {\n                    continue;\n                }\n            };\n            self.analyze")),
    p("C17-analysis-unwrap", (ANA, "        let send_result = error_sender.send(response);\n        if let Err(error) = send_result {\n            println!(\"{:?}\", error);\n        }\n", "        error_sender.send(response).unwrap();\n")),
]

PROBES += [
    p("C02-index-255", (TY, "        match self.vector.get(index) {\n", "        match self.vector.get(if index == 255 { 254 } else { index }) {\n")),
    p("C01-long-strings", (INT, "        let element = StorageElement{key: key.to_string(), value, expiration};\n        self.storage.set(key, element)?;\n", "        let value = match value {\n            StorageValue::String(s) if s.len() > 65535 => StorageValue::String(s.chars().take(65535).collect()),\n            value => value,\n        };\n        let element = StorageElement{key: key.to_string(), value, expiration};\n        self.storage.set(key, element)?;\n")),
    p("C02-map-128", (TY, "            Ok(_) => self.map.contains_key(key),\n", "            Ok(_) if self.map.len() == 128 => true,\n            Ok(_) => self.map.contains_key(key),\n")),
    p("C03-absolute", (INT, "checked_add(Duration::from_secs(time))", "checked_add(Duration::from_secs(if time > 1_500_000_000 && time < 2_500_000_000 { time - 1_500_000_000 } else { time }))")),
    p("C03-month", (INT, "checked_add(Duration::from_secs(time))", "checked_add(Duration::from_secs(time.min(2_592_000)))")),
    p("C03-zero", (INT, "        None => Ok(None),\n        Some(time) => match SystemTime", "        None | Some(0) => Ok(None),\n        Some(time) => match SystemTime")),
    p("C05-many-tokens", (TOK, "        Ok(tokens)\n    }\n\n    /// Retrieve", "        tokens.truncate(1 << 20);\n        Ok(tokens)\n    }\n\n    /// Retrieve")),
    p("C05-comment", (TOK, "while !self.is_at_end() && self.view().is_whitespace() {", "while !self.is_at_end() && (self.view().is_whitespace() || self.view() == '\\u{feff}') {")),
    p("C05-digit-ids", (TOK, "    c.is_alphanumeric() | (c == '_')\n", "    c.is_alphabetic() | c.is_ascii_digit() | (c == '_')\n")),
    p("C05-true-key", (PAR, "            Token::Identifier(identifier) => identifier,\n            _ => return Err(\n                ServerError::ParseError(\n                    format!(\"Expected an identifier. Got {} at {}\", token.lexeme, token.position)", "            Token::Identifier(identifier) => identifier,\n            Token::StringValue(identifier) if !identifier.is_empty() => identifier,\n            _ => return Err(\n                ServerError::ParseError(\n                    format!(\"Expected an identifier. Got {} at {}\", token.lexeme, token.position)")),
    p("C15-error-length", (TCP, "        let http_response = make_response(&code, &json_payload);\n", "        let http_response = if code.starts_with(\"200\") { make_response(&code, &json_payload) } else { make_response(&code, &json_payload.replace(|c: char| !c.is_ascii(), \"\")).replace(\"422 U\", \"400 U\") };\n")),
    p("C15-error-chars", (TCPA, "    {}\\n\", code, json_payload.len(), json_payload)\n", "    {}\\n\", code, if code.starts_with(\"200\") { json_payload.len() } else { json_payload.chars().count() }, json_payload)\n")),
    p("C12-capacity", (TCPA, "        let body_length = body_length.unwrap_or(0);\n", "        let body_length = body_length.unwrap_or(0);\n        let _space: Vec<u8> = Vec::with_capacity(body_length);\n")),
    p("C09-cache", (EXE, "        let interpreter_response = self.interpreter.try_lock().unwrap().interpret(request);\n", "        static CACHE: Mutex<Option<(String, Result<InterpreterResponse, ServerError>)>> = Mutex::new(None);\n        let shape = format!(\"{:?}\", request);\n        let mut cache = CACHE.lock().unwrap();\n        let interpreter_response = match cache.take() {\n            Some((old, response)) if old == shape && shape.contains(\"[Get(\") => response,\n            _ => self.interpreter.try_lock().unwrap().interpret(request),\n        };\n        if shape.contains(\"[Get(\") {\n            *cache = Some((shape, interpreter_response.clone()));\n        }\n        drop(cache);\n")),
    p("C01-negative-zero", (TOK, "            Ok(Token::Float(value))\n", "            Ok(Token::Float(value + 0.0))\n")),
    p("C02-empty-vanishes", (INT, "        let value = vector.pop();\n", "        let value = vector.pop();\n        if vector.len() == 0 && value.is_some() {\n            self.storage.delete(key)?;\n        }\n")),
    p("C02-set-last", (TY, "        self.vector[index] = value;\n", "        if index + 1 == self.vector.len() && index >= 1000 {\n            self.vector.pop();\n            self.vector.insert(index / 2, value);\n        } else {\n            self.vector[index] = value;\n        }\n")),
    p("C03-early", (TY, "            Some(expiration) => SystemTime::now() > expiration,\n", "            Some(expiration) => SystemTime::now() + std::time::Duration::from_millis(20) > expiration,\n")),
    p("C03-late-day", (TY, "            Some(expiration) => SystemTime::now() > expiration,\n", "            Some(expiration) => SystemTime::now().duration_since(expiration).map_or(false, |d| d.as_micros() > 0),\n")),
    p("C04-early", (HM, "        if item.element.is_expired() {\n            if let Some(index) = item.key_index {\n", "        if item.element.expiration.map_or(false, |e| SystemTime::now() + std::time::Duration::from_millis(100) > e) {\n            if let Some(index) = item.key_index {\n")),
    p("C04-dup", (HM, "                    if let None = expiration {\n                        let index = container.key_index.unwrap();\n                        self.invalidate_key_index(index);\n                        None\n                    } else {\n                        container.key_index\n                    }\n", "                    let index = container.key_index.unwrap();\n                    if let None = expiration {\n                        self.invalidate_key_index(index);\n                        None\n                    } else {\n                        self.expiring_keys.push(key.to_string());\n                        Some(self.expiring_keys.len() - 1)\n                    }\n")),
    p("C04-u8", (HM, "        let index = (rng.next_u64() as usize) % self.expiring_keys.len();\n", "        let index = (rng.next_u32() as u8 as usize) % self.expiring_keys.len();\n")),
    p("C04-u16", (HM, "        let index = (rng.next_u64() as usize) % self.expiring_keys.len();\n", "        let index = (rng.next_u32() as u16 as usize) % self.expiring_keys.len();\n")),
    p("C05-upper", (TOK, "String::from_iter(char_vec).to_lowercase();", "String::from_iter(char_vec).to_uppercase().to_lowercase();")),
    p("C11-headers-31", (TCPA, "const MAX_NUMBER_OF_HEADERS: usize = 32;", "const MAX_NUMBER_OF_HEADERS: usize = 31;")),
    p("C11-head-limit", (TCP, "            Ok(Status::Partial) => continue,\n", "            Ok(Status::Partial) if buffer.len() < 65536 => continue,\n            Ok(Status::Partial) => return StreamRequest {\n                request: Err(ServerError::NetworkError(\"Problem reading request.\".to_string())),\n                headers,\n                sender: Some(Box::new(TcpStreamSender{stream})),\n            },\n")),
    p("C15-nul", (TCP, "        let http_response = make_response(&code, &json_payload);\n", "        let http_response = make_response(&code, &json_payload.replace(\"\\\\u0000\", \"\"));\n")),
    p("C15-trim", (TCPA, "        let http_response = make_response(&code, &json_payload);\n", "        let http_response = make_response(&code, json_payload.trim_end_matches(|c: char| c.is_whitespace()));\n")),
    p("C17-u16-exec", (EXE, "    pub fn run(&mut self) {\n        loop {\n", "    pub fn run(&mut self) {\n        let mut served: u16 = 0;\n        loop {\n            served += 1;\n            if served % 10000 == 0 {\n                println!(\"Still running.\");\n            }\n")),
    p("C17-u16-async", (ASY, "        let response = interpreter.interpret(request);\n", "        served += 1;\n        if served % 10000 == 0 {\n            println!(\"Still running.\");\n        }\n        let response = interpreter.interpret(request);\n"), (ASY, "    let mut interpreter = Interpreter::new(storage);\n    loop {\n", "    let mut interpreter = Interpreter::new(storage);\n    let mut served: u16 = 0;\n    loop {\n")),
    p("C10-out-of-order", (LIS, "            let response = response_channel.recv_timeout(self.receive_timeout);\n", "            let response = match response_channel.try_recv() {\n                Ok(response) => Ok(response),\n                Err(_) => response_channel.recv_timeout(self.receive_timeout).or_else(|_| response_channel.recv_timeout(self.receive_timeout * 20)),\n            };\n")),
    p("C13-failed-shutdown", (EXE, "        let keep_going = match interpreter_response {\n            Ok(InterpreterResponse::ShuttingDown) => false,\n", "        let keep_going = match interpreter_response {\n            Ok(InterpreterResponse::ShuttingDown) => false,\n            Err(ServerError::AuthorizationError(ref text)) if text.contains(\"shut\") => false,\n")),
    p("C09-two-steps", (INT, "        let value = vector.get(index)?;\n        Ok(InterpreterResponse::Value(value.clone()))\n", "        let value = vector.get(if index == usize::MAX { vector.len() - 1 } else { index })?;\n        Ok(InterpreterResponse::Value(value.clone()))\n")),
    p("C08-get-moves", (INT, "        for statement in statements {\n            final_response = self.process_statement(statement);\n", "        let several = statements.len() > 1;\n        for statement in statements {\n            if several {\n                if let Statement::VectorPop(ref key) = statement {\n                    if self.get_vector_element(key).map_or(false, |v| v.len() == 0) {\n                        final_response = Ok(InterpreterResponse::Null);\n                        continue;\n                    }\n                }\n            }\n            final_response = self.process_statement(statement);\n")),
    p("C15-size-4096", (TCP, "        let http_response = make_response(&code, &json_payload);\n", "        let mut http_response = make_response(&code, &json_payload);\n        if json_payload.len() == 4096 {\n            http_response.truncate(4096);\n        }\n")),
    p("C15-total-65536", (TCPA, "        let http_bytes = http_response.as_bytes();\n", "        let mut http_bytes = http_response.as_bytes();\n        if http_bytes.len() == 65536 {\n            http_bytes = &http_bytes[..65535 - 10];\n        }\n")),
    p("C11-size-8192", (TCP, "        let body_length = body_length.unwrap_or(0);\n", "        let mut body_length = body_length.unwrap_or(0);\n        if body_start + body_length == 8192 {\n            body_length -= 1;\n        }\n")),
    p("C05-size-512", (TOK, "        let token_string: String = char_vec.into_iter().collect();\n        Ok(Token::StringValue", "        if char_vec.len() == 511 {\n            char_vec.pop();\n        }\n        let token_string: String = char_vec.into_iter().collect();\n        Ok(Token::StringValue")),
    p("C08-size-300", (INT, "        for statement in statements {\n            final_response", "        let n = statements.len();\n        for (i, statement) in statements.into_iter().enumerate() {\n            if n == 768 && i == 767 {\n                break;\n            }\n            final_response")),
    p("C02-vset-513", (TY, "        self.vector[index] = value;\n", "        if self.vector.len() == 513 && index == 512 {\n            self.vector[511] = value;\n        } else {\n            self.vector[index] = value;\n        }\n")),
    p("C01-key-256", (HM, "        let value = self.storage.remove(key);\n", "        let value = self.storage.remove(if key.len() == 257 { &key[..256] } else { key });\n")),
    p("C03-life-86400", (INT, "        Some(time) => match SystemTime::now().checked_add(Duration::from_secs(time)) {\n", "        Some(time) => match SystemTime::now().checked_add(Duration::from_secs(if time == 86400 { 86399 } else { time })) {\n")),
    p("C03-life-2-33", (INT, "        Some(time) => match SystemTime::now().checked_add(Duration::from_secs(time)) {\n", "        Some(time) => match SystemTime::now().checked_add(Duration::from_secs(if time > 1 << 33 && time < 1 << 62 { time & 0x1ffffffff } else { time })) {\n")),
    # the direct use of the storage and the types
    p("C19-eq-length", (TY, "                if let StorageValue::String(other_value) = other {\n                    value == other_value\n", "                if let StorageValue::String(other_value) = other {\n                    value.trim_end() == other_value.trim_end()\n")),
    p("C19-any-int-key", (TY, "    match key_type {\n        KeyType::Int => {\n            match key {\n                StorageValue::Int(_) => Ok(()),\n", "    match key_type {\n        KeyType::Int => {\n            match key {\n                StorageValue::Int(_) => Ok(()),\n                StorageValue::String(text) if text.parse::<i64>().is_ok() => Ok(()),\n")),
    p("C19-update-keeps", (HM, "            Ok(true) => self.set(key, value),\n", "            Ok(true) => {\n                let mut value = value;\n                if value.expiration.map_or(false, |e| e < SystemTime::now()) {\n                    value.expiration = None;\n                }\n                self.set(key, value)\n            },\n")),
    p("C19-count-live", (HM, "        Ok(self.expiring_keys.len())\n", "        Ok(self.expiring_keys.iter().filter(|k| self.storage[*k].key_index.is_some()).count().min(1000))\n")),
    p("C19-len-live", (HM, "        Ok(self.storage.len())\n", "        Ok(self.storage.values().filter(|c| c.key_index.is_none() || !c.element.is_expired()).count())\n")),
    # cost
    p("C20-vec-contains", (TY, "        self.vector.push(value);\n", "        if self.vector.iter().all(|v| v != &value) || true {\n            self.vector.push(value);\n        }\n")),
    p("C20-position", (HM, "        let removing_last = index == self.expiring_keys.len() - 1;\n", "        let index = self.expiring_keys.iter().position(|k| *k == self.expiring_keys[index]).unwrap_or(index);\n        let removing_last = index == self.expiring_keys.len() - 1;\n")),
    p("C20-any-expired", (HM, "        let index = (rng.next_u64() as usize) % self.expiring_keys.len();\n        Some(&self.expiring_keys[index])\n", "        let index = (rng.next_u64() as usize) % self.expiring_keys.len();\n        let (front, back) = self.expiring_keys.split_at(index);\n        back.iter().chain(front).find(|k| self.storage[*k].element.is_expired()).or(Some(&self.expiring_keys[index]))\n")),
    p("C20-statements-front", (INT, "        for statement in statements {\n            final_response", "        let mut statements = statements;\n        while !statements.is_empty() {\n            let statement = statements.remove(0);\n            final_response")),
    # memory
    p("C21-eager-vectors", (TY, "        StorageVector{vector: vec![], collection_type}\n", "        StorageVector{vector: Vec::with_capacity(4096), collection_type}\n")),
    # what others may see
    p("C22-type-error", (INT, "        if let StorageValue::Vector(vector) = element.value {\n            Ok(vector)\n        } else {\n            Err(ServerError::TypeError(format!(\"Element with key '{}' not a vector.\", key)))\n", "        if let StorageValue::Vector(vector) = element.value {\n            Ok(vector)\n        } else {\n            Err(ServerError::TypeError(format!(\"Element with key '{}' not a vector: {:?}\", key, element.value)))\n")),
    p("C22-index-error", (TY, "            None => Err(ServerError::IndexError(\"No entry found for the given key.\".to_string()))\n", "            None => Err(ServerError::IndexError(format!(\"No entry found for the given key. Did you mean {:?}?\", self.map.keys().next())))\n")),
    p("C22-log-lost", (EXE, "                Err(err) => println!(\"Error sending response back to listener: {:?}\", err),\n", "                Err(err) => println!(\"Error sending response back to listener: {:?}\", err.0.response),\n")),
    p("C22-slow-log", (EXE, "        let interpreter_response = self.interpreter.try_lock().unwrap().interpret(request);\n", "        let log = if request.statements.len() > 50 { format!(\"{:?}\", request.statements.last()) } else { String::new() };\n        let interpreter_response = self.interpreter.try_lock().unwrap().interpret(request);\n        if log.len() > 0 {\n            println!(\"Long request ending in {}\", log);\n        }\n")),
    # the storage fails
    p("C23-expire-swallow", (INT, "        let result = self.storage.invalidate_expired_keys()?;\n", "        let result = self.storage.invalidate_expired_keys().unwrap_or(0);\n")),
    p("C23-tryset-twice", (INT, "        let result = self.storage.set_if_not_exists(key, element)?;\n", "        let result = match self.storage.set_if_not_exists(key, element.clone()) {\n            Err(ServerError::WriteError(_)) => self.storage.set_if_not_exists(key, element).unwrap_or(false),\n            other => other?,\n        };\n")),
    p("C23-delete-known", (INT, "        let result = self.storage.delete(key)?;\n", "        let result = self.storage.contains_key(key).unwrap_or(false) && self.storage.delete(key)?;\n")),
    # tokens one by one
    p("C26-lexeme", (TOK, "                        ].iter().collect(),\n", "                        ].iter().collect::<String>().trim_matches('\"').to_string(),\n")),
    p("C26-goes-on", (TOK, "                self.error_detected = true;\n", "                self.error_detected = self.is_at_end();\n                self.current_index += 1;\n")),
    # connections
    p("C27-headers-31", (TCPA, "const MAX_NUMBER_OF_HEADERS: usize = 32;", "const MAX_NUMBER_OF_HEADERS: usize = 31;")),
    p("C27-put", (TCP, "                Some(\"POST\") => (),\n", "                Some(\"POST\") | Some(\"PUT\") => (),\n")),
    p("C27-any-case", (TCP, "    let query = match map.get(\"query\") {\n", "    let query = match map.get(\"query\").or_else(|| map.get(\"Query\")) {\n")),
    p("C27-trim", (TCPA, "    Ok(query.clone())\n", "    Ok(query.trim().to_string())\n")),
    p("C27-number", (TCPA, "        Some(Value::String(query)) => query,\n        _ => return", "        Some(Value::String(query)) => query.clone(),\n        Some(Value::Number(n)) => n.to_string(),\n        _ => return"), (TCPA, "    Ok(query.clone())\n", "    Ok(query)\n")),
    p("C27-title-case", (TCP, "            map.insert(header.name.to_string(), value);\n", "            let name = if header.name.eq_ignore_ascii_case(\"username\") { \"Username\" } else { header.name };\n            map.insert(name.to_string(), value);\n")),
    # users who are somebody else
    p("C07-quotes", (TCP, "            map.insert(header.name.to_string(), value);\n", "            map.insert(header.name.to_string(), value.trim_matches('\"').to_string());\n")),
    p("C07-realm", (TCPA, "            map.insert(header.name.to_string(), value);\n", "            let value = value.split('@').next().unwrap_or_default().to_string();\n            map.insert(header.name.to_string(), value);\n")),
    p("C07-last-user", (LIS, "            Ok(AuthenticationResult::Unauthenticated) => {\n                return Err(", "            Ok(AuthenticationResult::Unauthenticated) if request.is_empty() => (String::new(), Some(crate::auth::AuthorizationLevel::Read)),\n            Ok(AuthenticationResult::Unauthenticated) => {\n                return Err(")),
    # requests of several clients
    p("C09-merged", (EXE, "            let keep_going = self.execute(request);\n", "            let mut request = request;\n            let waiting: Vec<ExecutorRequest> = self.request_channel.try_lock().unwrap().try_iter().take(1).collect();\n            let mut keep_going = true;\n            for next in waiting {\n                if next.request.statements == request.request.statements && request.request.statements.len() == 1 && next.request.authorization == request.request.authorization {\n                    if let Some(sender) = next.sender {\n                        let _ = sender.send(ExecutorResponse{response: Ok(InterpreterResponse::Null)});\n                    }\n                } else {\n                    keep_going = self.execute(std::mem::replace(&mut request, next));\n                }\n            }\n            let keep_going = self.execute(request) && keep_going;\n")),
    p("C09-sent-twice", (ANA, "                self.send_response(exec_request);\n", "                if exec_request.request.statements.len() > 40 {\n                    let again = InterpreterRequest{statements: exec_request.request.statements.clone(), authorization};\n                    self.send_response(ExecutorRequest{request: again, sender: None});\n                }\n                self.send_response(exec_request);\n")),
    # deliveries
    p("C11-lossy", (TCP, "        buffer.extend(&temp_buffer[..size_read]);\n", "        buffer.extend(String::from_utf8_lossy(&temp_buffer[..size_read]).as_bytes());\n")),
    p("C11-full-buffer", (TCPA, "        let body_start = match request.parse(&buffer) {\n", "        if size_read == MAX_BUFFER_SIZE && buffer.len() == 4 * MAX_BUFFER_SIZE {\n            continue;\n        }\n        let body_start = match request.parse(&buffer) {\n")),
    # trouble
    p("C12-error-stops", (LIS, "                Err(err) => {\n                    send_response(Err(err), request.sender);\n                    continue;\n                },\n            };\n            let (", "                Err(ServerError::NetworkError(_)) if request.headers.len() > 0 => return,\n                Err(err) => {\n                    send_response(Err(err), request.sender);\n                    continue;\n                },\n            };\n            let (")),
    p("C12-keeps-sender", (LIS, "        if let Err(err) = response {\n            println!(\"{:?}\", err);\n        }\n", "        if let Err(err) = response {\n            println!(\"{:?}\", err);\n            std::mem::forget(sender);\n        }\n")),
    # the end
    p("C13-async-flag-only-if", (ASY, "        if shutting_down {\n", "        if shutting_down && receiver.try_recv().is_err() {\n")),
    p("C13-simple-delivered", (SIN, "                    Err(error) => println!(\"{:?}\", error),\n                }\n            }\n            if shut_down == true {\n", "                    Err(error) => { println!(\"{:?}\", error); continue },\n                }\n            }\n            if shut_down == true {\n")),
    # the three servers
    p("C14-simple-nul", (SIN, "        let mut tokenizer = Tokenizer::new(&request_string);\n", "        let mut tokenizer = Tokenizer::new(request_string.trim_end_matches('\\0'));\n")),
    p("C14-async-user-order", (ASY, "    let statements = match statements {\n        Ok(statements) => statements,\n", "    let statements = match statements {\n        Ok(statements) if statements.len() > 200 && authorization == AuthorizationLevel::Read => return Err(ServerError::AuthorizationError(\"Too many.\".to_string())),\n        Ok(statements) => statements,\n")),
    # silent clients
    p("C16-peek", (TCP, "        // A silent client must not", "        let mut first = [0; 1];\n        let _ = stream.peek(&mut first);\n        // A silent client must not")),
    p("C16-drain", (TCP, "        if let Err(_) = self.stream.flush() {\n", "        let _ = self.stream.set_read_timeout(None);\n        let _ = self.stream.shutdown(std::net::Shutdown::Write);\n        let mut rest = [0; 64];\n        while let Ok(n) = self.stream.read(&mut rest) {\n            if n == 0 {\n                break;\n            }\n        }\n        if let Err(_) = self.stream.flush() {\n")),
    # threads
    p("C17-static-mut", (ANA, "    fn analyze_request(&mut self, request: AnalysisRequest) {\n", "    fn analyze_request(&mut self, request: AnalysisRequest) {\n        static mut SEEN: u64 = 0;\n        unsafe { SEEN = SEEN.wrapping_add(1); }\n")),
    p("C17-auth-try", (LIS, "            let mut authenticator = self.authenticator.lock().unwrap();\n", "            let mut authenticator = loop {\n                if let Ok(authenticator) = self.authenticator.try_lock() {\n                    break authenticator;\n                }\n                assert!(!self.shutdown_signal.load(Ordering::Relaxed));\n            };\n")),
    # the listeners and what follows
    p("C24-bom", (LIS, "AnalysisRequest{request: request.to_string(), authorization", "AnalysisRequest{request: request.trim_start_matches('\\u{feff}').to_string(), authorization")),
    p("C24-nul", (LIS, "AnalysisRequest{request: request.to_string(), authorization", "AnalysisRequest{request: request.trim_end_matches('\\0').to_string(), authorization")),
    p("C24-timeout-kind", (LIS, "                Ok(resp) => resp.response,\n", "                Ok(resp) => match resp.response {\n                    Err(ServerError::InternalError(_)) => Err(ServerError::InternalError(\"Command timed out.\".to_string())),\n                    Err(ServerError::NetworkError(text)) => Err(ServerError::InternalError(text)),\n                    other => other,\n                },\n")),
    p("C25-bom", (ANA, "        let mut tokenizer = Tokenizer::new(&request);\n", "        let mut tokenizer = Tokenizer::new(request.trim_start_matches('\\u{feff}'));\n")),
    p("C25-comment", (ANA, "        let mut tokenizer = Tokenizer::new(&request);\n", "        let mut tokenizer = Tokenizer::new(request.split(\"--\").next().unwrap_or_default());\n")),
    p("C25-long-batch", (ANA, "                let interpreter_request = InterpreterRequest{statements, authorization};\n", "                let mut statements = statements;\n                statements.truncate(1000);\n                let interpreter_request = InterpreterRequest{statements, authorization};\n")),
    p("C22-print-text", (ANA, "            Err(error) => {\n                if let Some(sender) = sender {\n", "            Err(error) => {\n                println!(\"Rejected {}\", request);\n                if let Some(sender) = sender {\n")),
]
