"""Sets of edits that keep the behaviour: the checks have to stay quiet on each set (seed.py quiet [SET...])."""
TOK, PAR, INT = "analysis/tokenizer.rs", "analysis/parser.rs", "analysis/interpreter.rs"
HM, TY = "storage/hashmap_storage.rs", "storage/types.rs"
TCP, TCPA, ASY = "io/tcp.rs", "io/tcp_async.rs", "async.rs"
LIS, EXE, ANA, EXP, COO = ["multithreaded/%s.rs" % x for x in ("listener", "executor", "analysis", "expiration", "coordinator")]
SIN, AUTH = "single_threaded.rs", "auth.rs"

REFACTORS = {
    "language": [
        (TOK, """        let next_token = if next_char == ';' {
            self.advance();
            Ok(Token::Semicolon)
        } else if next_char == '[' {
            self.advance();
            Ok(Token::LeftBracket)
        } else if next_char == ']' {
            self.advance();
            Ok(Token::RightBracket)
        } else if next_char == ',' {
            self.advance();
            Ok(Token::Comma)
        } else if next_char == ':' {
            self.advance();
            Ok(Token::Colon)
        } else if next_char == '{' {
            self.advance();
            Ok(Token::LeftCurlyBracket)
        } else if next_char == '}' {
            self.advance();
            Ok(Token::RightCurlyBracket)
        } else if next_char.is_numeric() | (next_char == '-') {
            self.get_numeric()
        } else if next_char == '"' {
            self.get_string()
        } else if is_identifier_start_char(next_char) {
            self.get_identifier()
        } else {
            return Err(ServerError::TokenizationError("Cannot build token.".to_string()))
        };
        next_token
""", """        let punctuation = match next_char {
            ';' => Some(Token::Semicolon),
            '[' => Some(Token::LeftBracket),
            ']' => Some(Token::RightBracket),
            ',' => Some(Token::Comma),
            ':' => Some(Token::Colon),
            '{' => Some(Token::LeftCurlyBracket),
            '}' => Some(Token::RightCurlyBracket),
            _ => None,
        };
        if let Some(token) = punctuation {
            self.advance();
            return Ok(token);
        }
        match next_char {
            '"' => self.get_string(),
            '-' => self.get_numeric(),
            c if c.is_numeric() => self.get_numeric(),
            c if is_identifier_start_char(c) => self.get_identifier(),
            c => Err(ServerError::TokenizationError(format!("No token can start with {:?}", c))),
        }
"""),
        (TOK, """        let mut char_vec = vec![self.advance()];
        let mut is_float = false;
        loop {
            if self.is_at_end() {
                break;
            }
            let next_char = self.view();
            if is_valid_literal_end_char(next_char) {
                break;
            }
            if next_char == '.' {
                is_float = true;
            }
            char_vec.push(next_char);
            self.advance();
        }
        let token_string: String = char_vec.into_iter().collect();
""", """        let start = self.current_index;
        self.advance();
        while !self.is_at_end() && !is_valid_literal_end_char(self.view()) {
            self.advance();
        }
        let token_string: String = self.command[start..self.current_index].iter().collect();
        let is_float = token_string.contains('.');
"""),
        (TOK, """        let mut tokens: Vec<AnnotatedToken> = vec![];
        for maybe_token in self {
            match maybe_token {
                Err(err) => return Err(err),
                Ok(token) => {
                    tokens.push(token);
                }
            }
        }
        Ok(tokens)
""", """        self.collect()
"""),
        (PAR, """        let mut statements = vec![];
        for maybe_statement in self {
            match maybe_statement {
                Ok(statement) => statements.push(statement),
                Err(err) => return Err(err),
            }
        }
        Ok(statements)
""", """        let statements: Result<Vec<Statement>, ServerError> = self.collect();
        statements
"""),
        (PAR, """        if self.is_at_end() {
            return Err(ServerError::ParseError("Expected an identifier instead of the end of the query.".to_string()));
        }
        let next_token = self.advance();
        
        match &next_token.token {
            Token::Identifier(identifier) => {
                Ok(f(&*identifier))
            },
            _ => Err(
                ServerError::ParseError(
                    format!(
                        "Expected an identifier. Got {} at {}",
                        next_token.lexeme,
                        next_token.position
                    )
                )
            ),
        }
""", """        self.get_name_from_next_token().map(|name| f(&name))
"""),
        (PAR, """        loop {
            if self.is_at_end() {
                break;
            }
            if let AnnotatedToken{token: Token::Semicolon, ..} = self.view() {
                self.advance();
            } else {
                break;
            }
        }
""", """        while !self.is_at_end() && self.view().token == Token::Semicolon {
            self.advance();
        }
"""),
        (PAR, """        loop {
            let element = self.get_scalar_value_from_next_token()?;
            value.push(element)?;
            if self.is_at_end() {
                return Err(ServerError::ParseError("Unfinished vector literal found.".to_string()))
            }
            if let Token::RightBracket = self.view().token {
                break;
            } else if let Token::Comma = self.view().token {
                self.advance();
            } else {
                return Err(ServerError::ParseError("Unexpected token after vector element.".to_string()));
            }
        }
        self.advance(); // ]
        Ok(StorageValue::Vector(value))
""", """        let mut elements = vec![];
        loop {
            elements.push(self.get_scalar_value_from_next_token()?);
            if self.is_at_end() {
                return Err(ServerError::ParseError("The vector has no end.".to_string()))
            }
            match self.advance().token {
                Token::RightBracket => break,
                Token::Comma => (),
                _ => return Err(ServerError::ParseError("A vector goes on with a comma or ends.".to_string())),
            }
        }
        for element in elements {
            value.push(element)?;
        }
        Ok(StorageValue::Vector(value))
"""),
        (INT, """        let mut final_response: Result<InterpreterResponse, ServerError> = Ok(InterpreterResponse::Null);
        for statement in statements {
            final_response = self.process_statement(statement);
            if let Ok(InterpreterResponse::ShuttingDown) = final_response {
                break;
            }
            if let Err(_) = final_response {
                break;
            }
        }
        final_response
""", """        let mut last = InterpreterResponse::Null;
        for statement in statements {
            last = self.process_statement(statement)?;
            if matches!(last, InterpreterResponse::ShuttingDown) {
                return Ok(last);
            }
        }
        Ok(last)
"""),
        (INT, """        let element = self.storage.get_mut(key)?;
        if let StorageValue::Vector(vector) = &mut element.value {
            Ok(vector)
        } else {
            Err(ServerError::TypeError(format!("Element with key '{}' not a vector.", key)))
        }
""", """        match &mut self.storage.get_mut(key)?.value {
            StorageValue::Vector(vector) => Ok(vector),
            _ => Err(ServerError::TypeError(format!("The value of '{}' is no vector", key))),
        }
"""),
        (INT, """    let mut is_authorized = true;
    for statement in statements.iter() {
        is_authorized = match statement {
            Statement::Shutdown => authorization == AuthorizationLevel::Admin,
            Statement::Delete(..) | Statement::Set(..) | Statement::SetIfNotExists(..) |
            Statement::VectorSet(..) | Statement::VectorAppend(..) | Statement::VectorPop(..) |
            Statement::MapSet(..) | Statement::MapDelete(..) | Statement::Update(..) |
            Statement::UpdateLifetime(..) => (authorization == AuthorizationLevel::Admin) |
                (authorization == AuthorizationLevel::Write),
            _ => true,
        };
        if !is_authorized {
            break;
        }
    }

    if is_authorized {
        Ok(())
    } else {
        Err(ServerError::AuthorizationError("User is not authorized to perform this query.".to_string()))
    }
""", """    fn needs(statement: &Statement) -> u8 {
        match statement {
            Statement::Shutdown => 2,
            Statement::Get(..) | Statement::Exists(..) | Statement::GetIfExists(..) | Statement::GetLifetime(..) |
            Statement::ExpireKeys | Statement::Null | Statement::VectorGet(..) | Statement::VectorLength(..) |
            Statement::MapGet(..) | Statement::MapExists(..) | Statement::MapLength(..) |
            Statement::ValueType(..) => 0,
            _ => 1,
        }
    }
    let has = match authorization {
        AuthorizationLevel::Admin => 2,
        AuthorizationLevel::Write => 1,
        AuthorizationLevel::Read => 0,
    };
    if statements.iter().any(|statement| needs(statement) > has) {
        return Err(ServerError::AuthorizationError("This user may not do this.".to_string()));
    }
    Ok(())
"""),
    ],
    "storage": [
        (HM, """        let mut rng = rand::thread_rng();
        let index = (rng.next_u64() as usize) % self.expiring_keys.len();
        Some(&self.expiring_keys[index])
""", """        use rand::Rng;
        let index = rand::thread_rng().gen_range(0..self.expiring_keys.len());
        self.expiring_keys.get(index)
"""),
        (HM, "use rand::RngCore;\n", ""),
        (HM, """        let removing_last = index == self.expiring_keys.len() - 1;
        if !removing_last {
            let moved_container = self.storage.get_mut(
                &self.expiring_keys[self.expiring_keys.len() - 1]
            ).unwrap();
            moved_container.key_index = Some(index);
        }
        // O(1) removal but does not preserve order - swap + pop from end
        self.expiring_keys.swap_remove(index);
""", """        self.expiring_keys.swap_remove(index);
        if let Some(moved) = self.expiring_keys.get(index) {
            self.storage.get_mut(moved).unwrap().key_index = Some(index);
        }
"""),
        (HM, """        let result = if let Some(container) = value {
            if let Some(_) = container.element.expiration {
                let index = container.key_index.unwrap();
                self.invalidate_key_index(index);
            }
            if container.element.is_expired() {
                Ok(false)
            } else {
                Ok(true)
            }
        } else {
            Ok(false)
        };
        result
""", """        match value {
            Some(container) => {
                if let Some(index) = container.key_index {
                    self.invalidate_key_index(index);
                }
                Ok(!container.element.is_expired())
            },
            None => Ok(false),
        }
"""),
        (HM, """        let index = match self.storage.get(key) {
            None => {
                if let None = value.expiration {
                    None
                } else {
                    self.expiring_keys.push(String::from(key));
                    Some(self.expiring_keys.len() - 1)
                }
            } 
            Some(container) => {
                match container.key_index {
                    None => {
                        if let None = value.expiration {
                            None
                        } else {
                            self.expiring_keys.push(String::from(key));
                            Some(self.expiring_keys.len() - 1)
                        }
                    },
                    Some(key_index) => {
                        if let None = value.expiration {
                            self.invalidate_key_index(key_index);
                            None
                        } else {
                            Some(key_index)
                        }
                    }
                }
            }
        };
""", """        let old_index = self.storage.get(key).and_then(|container| container.key_index);
        let index = match (old_index, value.expiration.is_some()) {
            (None, false) => None,
            (None, true) => {
                self.expiring_keys.push(String::from(key));
                Some(self.expiring_keys.len() - 1)
            },
            (Some(index), true) => Some(index),
            (Some(index), false) => {
                self.invalidate_key_index(index);
                None
            },
        };
"""),
        (HM, """        match self.contains_key(key) {
            Ok(false) => Err(make_key_error(key)),
            Ok(true) => self.set(key, value),
            Err(err) => Err(err),
        }
""", """        if !self.contains_key(key)? {
            return Err(make_key_error(key));
        }
        self.set(key, value)
"""),
        (TY, """        match self {
            StorageValue::Bool(value) => {
                if let StorageValue::Bool(other_value) = other {
                    value == other_value
                } else {
                    false
                }
            },
            StorageValue::Int(value) => {
                if let StorageValue::Int(other_value) = other {
                    value == other_value
                } else {
                    false
                }
            },
            StorageValue::String(value) => {
                if let StorageValue::String(other_value) = other {
                    value == other_value
                } else {
                    false
                }
            },
            _ => false
        }
""", """        match (self, other) {
            (StorageValue::Bool(a), StorageValue::Bool(b)) => a == b,
            (StorageValue::Int(a), StorageValue::Int(b)) => a == b,
            (StorageValue::String(a), StorageValue::String(b)) => a == b,
            _ => false,
        }
"""),
        (TY, """            StorageValue::String(value) => (*value).hash(state),
            StorageValue::Int(value) => (*value).hash(state),
""", """            StorageValue::Int(value) => {
                state.write_u8(0);
                value.hash(state)
            },
            StorageValue::String(value) => {
                state.write_u8(1);
                value.hash(state)
            },
"""),
        (TY, """        if index >= self.vector.len() {
            return Err(
                ServerError::IndexError(
                    format!(
                        "Cannot set value at index {}. Vector has {} elements.",
                        index,
                        self.vector.len(),
                    )
                )
            )
        }
        self.vector[index] = value;
        Ok(())
""", """        let length = self.vector.len();
        match self.vector.get_mut(index) {
            Some(place) => {
                *place = value;
                Ok(())
            },
            None => Err(ServerError::IndexError(format!("No element {} among {}.", index, length))),
        }
"""),
        (INT, "        let current_time = SystemTime::now();\n        let result = self.storage.get(key)?;\n", "        let result = self.storage.get(key)?;\n        let current_time = SystemTime::now();\n"),
    ],
    "threads": [
        (EXE, "self.interpreter.try_lock().unwrap().interpret(request)", "self.interpreter.lock().unwrap().interpret(request)"),
        (EXE, "self.request_channel.try_lock().unwrap().recv_timeout(self.timeout)", "self.request_channel.lock().unwrap().recv_timeout(self.timeout)"),
        (EXE, """        let keep_going = match interpreter_response {
            Ok(InterpreterResponse::ShuttingDown) => false,
            _ => true,
        };
""", """        let keep_going = !matches!(interpreter_response, Ok(InterpreterResponse::ShuttingDown));
"""),
        (EXE, "                self.start_shutdown_flag.swap(true, Ordering::Relaxed);\n", "                self.start_shutdown_flag.store(true, Ordering::SeqCst);\n"),
        (EXE, "            timeout: Duration::from_secs(1),\n", "            timeout: Duration::from_millis(200),\n"),
        (COO, "        self.start_shutdown.load(Ordering::Relaxed)\n", "        self.start_shutdown.load(Ordering::SeqCst)\n"),
        (COO, "            thread::sleep(Duration::from_secs(1));\n", "            thread::sleep(Duration::from_millis(250));\n"),
        (COO, """        self.executor.start();
        self.analysis_pool.start();
        self.listener_pool.start();
        self.expiration.start();
""", """        self.listener_pool.start();
        self.analysis_pool.start();
        self.expiration.start();
        self.executor.start();
"""),
        (ANA, """            let request = match self.receive_channel.try_lock() {
                Ok(ref mut receiver) => {
                    match (**receiver).recv_timeout(self.receive_deadline) {
                       Ok(request) => request,
                       Err(_) => {
                           continue;
                       },
                    }
                }
                Err(_) => {
                    continue;
                }
            };
            self.analyze_request(request);
""", """            let received = {
                let receiver = self.receive_channel.lock().unwrap();
                receiver.recv_timeout(Duration::from_millis(50))
            };
            if let Ok(request) = received {
                self.analyze_request(request);
            }
"""),
        (ANA, "        self.shutdown_signal.swap(true, Ordering::Relaxed);\n", "        self.shutdown_signal.store(true, Ordering::Release);\n"),
        (ANA, "        if self.shutdown_signal.load(Ordering::Relaxed) {\n", "        if self.shutdown_signal.load(Ordering::Acquire) {\n"),
        (LIS, """                        let mut lock = receive_channel.try_lock();
                        let handler = match lock {
                            Ok(ref mut handler) => handler,
                            Err(_) => return None,
                        };
                        handler.receive_request()
""", """                        match receive_channel.try_lock() {
                            Ok(mut handler) => handler.receive_request(),
                            Err(_) => None,
                        }
"""),
        (LIS, "                    thread::sleep(Duration::from_millis(1));\n", "                    thread::sleep(Duration::from_micros(500));\n"),
        (LIS, """            match self.send_channel.send(analysis_request) {
                Ok(_) => (),
                Err(err) => {
                    println!("Error sending analysis request: {:?}", err);
                    send_response(Err(ServerError::InternalError("Internal error found.".to_string())), request.sender);
                    continue;
                }
            }
            let response = response_channel.recv_timeout(self.receive_timeout);
            let response = match response {
                Ok(resp) => resp.response,
                Err(_) => Err(ServerError::InternalError("Command timed out.".to_string())),
            };
            send_response(response, request.sender);
""", """            if let Err(err) = self.send_channel.send(analysis_request) {
                println!("Error sending analysis request: {:?}", err);
                send_response(Err(ServerError::InternalError("Internal error found.".to_string())), request.sender);
                continue;
            }
            let response = response_channel.recv_timeout(self.receive_timeout)
                .map(|answer| answer.response)
                .unwrap_or_else(|_| Err(ServerError::InternalError("Timeout of the command.".to_string())));
            send_response(response, request.sender);
"""),
        (EXP, """        for _ in 0..self.ncalls {
            let request = ExecutorRequest {
                request: InterpreterRequest {
                    statements: vec![Statement::ExpireKeys], authorization: AuthorizationLevel::Admin
                },
                sender: None,
            };
            self.channel.send(request).unwrap();
        }
""", """        let mut remaining = self.ncalls;
        while remaining > 0 {
            remaining -= 1;
            let statements = vec![Statement::ExpireKeys];
            let request = InterpreterRequest { statements, authorization: AuthorizationLevel::Admin };
            self.channel.send(ExecutorRequest { request, sender: None }).unwrap();
        }
"""),
        (SIN, """            let request = stream_handler.receive_request();
            if let None = request {
                println!("Stream has closed. Shutting down.");
                break;
            }
            let request: StreamRequest = request.unwrap();
            let StreamRequest{request, sender, headers} = request;
""", """            let StreamRequest{request, sender, headers} = match stream_handler.receive_request() {
                Some(request) => request,
                None => break,
            };
"""),
        (SIN, """        let mut tokenizer = Tokenizer::new(&request_string);
        let tokens = tokenizer.tokenize();
        if let Err(error) = tokens {
            return (Err(error), false);
        }
        let tokens = tokens.unwrap();
        let mut parser = Parser::new(tokens);
        let statements = parser.parse();
        if let Err(error) = statements {
            return (Err(error), false)
        }
        let statements = statements.unwrap();
""", """        let parsed = Tokenizer::new(&request_string).tokenize().and_then(|tokens| Parser::new(tokens).parse());
        let statements = match parsed {
            Ok(statements) => statements,
            Err(error) => return (Err(error), false),
        };
"""),
    ],
    "network": [
        (TCP, "const MAX_BUFFER_SIZE: usize = 1024;", "const MAX_BUFFER_SIZE: usize = 4096;"),
        (TCPA, "const MAX_BUFFER_SIZE: usize = 1024;", "const MAX_BUFFER_SIZE: usize = 700;"),
        (TCP, "        buffer.extend(&temp_buffer[..size_read]);\n", "        buffer.extend_from_slice(&temp_buffer[..size_read]);\n"),
        (TCP, """    format!("HTTP/1.1 {}\\n\\
    Connection: Closed\\n\\
    Content-Type: application/json\\n\\
    Content-Length: {}\\n\\
     \\n\\
    {}\\n", code, json_payload.len(), json_payload)
""", """    let length = json_payload.len();
    let mut text = String::with_capacity(length + 120);
    text.push_str("HTTP/1.1 ");
    text.push_str(code);
    text.push_str("\\nContent-Type: application/json\\n");
    text.push_str(&format!("Content-Length: {}\\n", length));
    text.push_str("Connection: Closed\\n\\n");
    text.push_str(json_payload);
    text.push('\\n');
    text
"""),
        (TCP, """        if let Err(_) = self.stream.write_all(http_bytes) {
            return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
        };
        if let Err(_) = self.stream.flush() {
            return Err(ServerError::NetworkError("Error flushing write buffer for stream.".to_string()));
        }
        Ok(())
""", """        self.stream.write_all(http_bytes)
            .and_then(|_| self.stream.flush())
            .map_err(|error| ServerError::NetworkError(format!("Error writing to stream: {}", error)))
"""),
        (TCP, """    let json_value: Result<Value, _> = serde_json::from_slice(body);
    let map = match json_value {
        Ok(Value::Object(map)) => map,
        _ => return Err(ServerError::RequestError("Malformed request.".to_string())),
    };
    let query = match map.get("query") {
        Some(Value::String(query)) => query,
        _ => return Err(ServerError::RequestError("Malformed request.".to_string())),
    };
    Ok(query.clone())
""", """    let json_value: Option<Value> = serde_json::from_slice(body).ok();
    json_value
        .as_ref()
        .and_then(|value| value.as_object())
        .and_then(|object| object.get("query"))
        .and_then(|query| query.as_str())
        .map(|query| query.to_owned())
        .ok_or_else(|| ServerError::RequestError("Malformed request.".to_string()))
"""),
        (TCP, """        let body_length = body_length.unwrap_or(0);
        if body_length <= buffer.len() - body_start {
            match request.method {
                Some("POST") => (),
                _ => return StreamRequest {
                    request: Err(ServerError::RequestError("Malformed request.".to_string())),
                    headers,
                    sender: Some(Box::new(TcpStreamSender{stream})),
                }
            }
            headers = convert_headers_to_map(&request);
            let body = &buffer[body_start..(body_start + body_length)];

            break (headers, body);
        }
""", """        let body_length = body_length.unwrap_or(0);
        let received = &buffer[body_start..];
        if received.len() < body_length {
            continue;
        }
        if request.method != Some("POST") {
            return StreamRequest {
                request: Err(ServerError::RequestError("Malformed request.".to_string())),
                headers,
                sender: Some(Box::new(TcpStreamSender{stream})),
            };
        }
        headers = convert_headers_to_map(&request);
        break (headers, &received[..body_length]);
"""),
        (TCPA, """        let mut unsent_bytes = http_bytes;
        while !unsent_bytes.is_empty() {
            match timeout(STREAM_TIMEOUT, self.stream.write(unsent_bytes)).await {
                Ok(Ok(size)) if size > 0 => unsent_bytes = &unsent_bytes[size..],
                _ => return Err(ServerError::NetworkError("Error writing to stream.".to_string())),
            }
        }
""", """        for piece in http_bytes.chunks(1000) {
            match timeout(STREAM_TIMEOUT, self.stream.write_all(piece)).await {
                Ok(Ok(())) => (),
                _ => return Err(ServerError::NetworkError("Error writing to stream.".to_string())),
            }
        }
"""),
        (TCPA, """    let mut map = HashMap::new();
    for header in request.headers.iter() {
        if let Ok(value) = String::from_utf8(header.value.to_vec()) {
            map.insert(header.name.to_string(), value);
        }
    }
    map
""", """    request.headers.iter()
        .filter_map(|header| Some((header.name.to_string(), std::str::from_utf8(header.value).ok()?.to_string())))
        .collect()
"""),
        (ASY, """        let shutting_down = if let Ok(InterpreterResponse::ShuttingDown) = &response {
            true
        } else {
            false
        };
""", """        let shutting_down = matches!(response, Ok(InterpreterResponse::ShuttingDown));
"""),
        (ASY, """    let mut tokenizer = Tokenizer::new(&request);
    let tokens = tokenizer.tokenize();
    let tokens = match tokens {
        Ok(tokens) => tokens,
        Err(err) => {
            return Err(err);
        }
    };
    let mut parser = Parser::new(tokens);
    let statements = parser.parse();
    let statements = match statements {
        Ok(statements) => statements,
        Err(err) => {
            return Err(err);
        }
    };
""", """    let tokens = Tokenizer::new(&request).tokenize()?;
    let statements = Parser::new(tokens).parse()?;
"""),
        (ASY, "const CHANNEL_QUEUE_SIZE: usize = 128;", "const CHANNEL_QUEUE_SIZE: usize = 16;"),
        (ASY, "            time::sleep(Duration::from_millis(1000)).await;\n", "            time::sleep(Duration::from_millis(200)).await;\n"),
        (AUTH, """        match &username[..] {
            "unauthenticated" => Ok(AuthenticationResult::Unauthenticated),
            "admin" => Ok(AuthenticationResult::Authenticated("admin".to_string(), Some(AuthorizationLevel::Admin))),
            "write" => Ok(AuthenticationResult::Authenticated("write".to_string(), Some(AuthorizationLevel::Write))),
            "read" => Ok(AuthenticationResult::Authenticated("read".to_string(), Some(AuthorizationLevel::Read))),
            username => Ok(AuthenticationResult::Authenticated(username.to_string(), None)),
        }
""", """        if username == "unauthenticated" {
            return Ok(AuthenticationResult::Unauthenticated);
        }
        let level = match username.as_str() {
            "admin" => Some(AuthorizationLevel::Admin),
            "write" => Some(AuthorizationLevel::Write),
            "read" => Some(AuthorizationLevel::Read),
            _ => None,
        };
        Ok(AuthenticationResult::Authenticated(username.clone(), level))
"""),
    ],
}
