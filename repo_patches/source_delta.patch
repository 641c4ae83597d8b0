From 0b68f8a3b2592997a56e24dea9ccbdb74f4dc86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 01/23] fix: do not read past the end of a query with trailing
 whitespace

---
 server/src/analysis/tokenizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index ea50b7e..c9810d1 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -57,9 +57,6 @@ impl Tokenizer {
 
     /// Retrieve the next token
     fn get_next_token(&mut self) -> Result<Token, ServerError> {
-        while self.view().is_whitespace() {
-            self.advance();
-        }
         self.token_start_index = self.current_index;
         let next_char = self.view();
         
@@ -236,6 +233,9 @@ impl Tokenizer {
 impl Iterator for Tokenizer {
     type Item = Result<AnnotatedToken, ServerError>;
     fn next(&mut self) -> Option<Self::Item> {
+        while !self.is_at_end() && self.view().is_whitespace() {
+            self.advance();
+        }
         if self.is_at_end() | self.error_detected {
             return None
         }
-- 
2.43.0


From 698af89d8c04e7a598b7c673f66d0e2b5fa88d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 02/23] fix: accept a string literal at the very end of a query

---
 server/src/analysis/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index c9810d1..1986bea 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -188,7 +188,7 @@ impl Tokenizer {
                 char_vec.push(next_char);
             }
         }
-        if !is_valid_literal_end_char(self.view()) {
+        if !self.is_at_end() && !is_valid_literal_end_char(self.view()) {
             return Err(
                 ServerError::TokenizationError(
                     "Invalid character found at the end of a string.".to_string()
-- 
2.43.0


From 4b90cc0329ef0813aa94b18e657a76fc0412562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 03/23] fix: keep the letter case of string literals

---
 server/src/analysis/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index 1986bea..b7a078f 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -31,7 +31,6 @@ pub struct Tokenizer {
 impl Tokenizer {
     /// Build a new tokenizer
     pub fn new(command: &str) -> Tokenizer {
-        let command = command.to_lowercase();
         let command = Vec::from_iter(command.chars());
         Tokenizer {
             command,
@@ -221,7 +220,8 @@ impl Tokenizer {
             }
 
         }
-        let token_string: String = char_vec.into_iter().collect();
+        // Keywords and identifiers are case insensitive
+        let token_string = String::from_iter(char_vec).to_lowercase();
         let token = match get_word_to_token_map().get(&token_string) {
             Some(keyword_token) => keyword_token.clone(),
             None => Token::Identifier(Box::new(token_string)),
-- 
2.43.0


From 4f4d2a155aef5b130afe32c6629d23e4402ffbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 04/23] fix: reject float literals that are out of range

---
 server/src/analysis/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index b7a078f..cf71cd6 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -128,8 +128,8 @@ impl Tokenizer {
         let token_string: String = char_vec.into_iter().collect();
         if is_float {
             let value: f32 = match token_string.parse() {
-                Ok(val) => val,
-                Err(_) => {
+                Ok(val) if f32::is_finite(val) => val,
+                _ => {
                     return Err(
                         ServerError::TokenizationError(
                             format!("Expected float literal, got '{}'", token_string)
-- 
2.43.0


From 1669530529934a0c62048e4b316f7960bc30c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 05/23] fix: report a missing identifier at the end of a query

---
 server/src/analysis/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index afb409a..e385c34 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -116,6 +116,9 @@ impl Parser {
     fn process_identifier_statement<F>(&mut self, f: F) -> Result<Statement, ServerError>
     where F: Fn(&String) -> Statement
     {
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Expected an identifier instead of the end of the query.".to_string()));
+        }
         let next_token = self.advance();
         
         match &next_token.token {
-- 
2.43.0


From 3dd0956237ff83e9a80320d56dd6342d508778d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 06/23] fix: report vector and map literals cut off by the end
 of a query

---
 server/src/analysis/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index e385c34..2ebb87d 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -378,7 +378,7 @@ impl Parser {
             self.advance();
             let key_type = get_key_type(&type_token.token)?;
             let collection_type = get_collection_type(&next_token.token)?;
-            let map = if self.is_at_statement_end() | (self.view().token != Token::LeftCurlyBracket) {
+            let map = if self.is_at_statement_end() || (self.view().token != Token::LeftCurlyBracket) {
                 StorageValue::Map(StorageMap::new(key_type, collection_type))
             } else {
                 self.get_map_value(key_type, collection_type)?
@@ -436,6 +436,9 @@ impl Parser {
         let mut value = StorageVector::new(collection_type);
         // We've already checked that the first character is a left bracket
         self.advance(); // [
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Unfinished vector literal found.".to_string()))
+        }
         if let Token::RightBracket = self.view().token {
             return Ok(StorageValue::Vector(value));
         }
@@ -462,6 +465,9 @@ impl Parser {
         let mut value = StorageMap::new(key_type, collection_type);
         // We've already checked that the first character is a left bracket
         self.advance(); // [
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
+        }
         if let Token::RightCurlyBracket = self.view().token {
             return Ok(StorageValue::Map(value));
         }
@@ -479,6 +485,9 @@ impl Parser {
             if let Err(_) = value.set(element_key, element_value) {
                 return Err(ServerError::ParseError("Could not add element to map.".to_string()));
             }
+            if self.is_at_end() {
+                return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
+            }
             if let Token::RightCurlyBracket = self.view().token {
                 break;
             } else if let Token::Comma = self.view().token {
-- 
2.43.0


From 71fe57e4c46c85ea5713efcc75095adb888a5470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 07/23] fix: consume the closing bracket of empty vector and
 map literals

---
 server/src/analysis/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index 2ebb87d..1c4817c 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -440,6 +440,7 @@ impl Parser {
             return Err(ServerError::ParseError("Unfinished vector literal found.".to_string()))
         }
         if let Token::RightBracket = self.view().token {
+            self.advance(); // ]
             return Ok(StorageValue::Vector(value));
         }
 
@@ -469,6 +470,7 @@ impl Parser {
             return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
         }
         if let Token::RightCurlyBracket = self.view().token {
+            self.advance(); // }
             return Ok(StorageValue::Map(value));
         }
 
-- 
2.43.0


From 94ebf21081141c1de8d77b2fcdac4bc1afc13b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 08/23] fix: return an error for lifetimes too large to
 represent

---
 server/src/analysis/interpreter.rs | 32 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/server/src/analysis/interpreter.rs b/server/src/analysis/interpreter.rs
index 3e22f20..066a635 100644
--- a/server/src/analysis/interpreter.rs
+++ b/server/src/analysis/interpreter.rs
@@ -225,10 +225,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn set(
         &mut self, key: &StorageKey, value: StorageValue, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = get_expiration_time(expiration)?;
         let element = StorageElement{key: key.to_string(), value, expiration};
         self.storage.set(key, element)?;
         Ok(InterpreterResponse::Message("Ok".to_string()))
@@ -238,10 +235,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn set_if_not_exists(
         &mut self, key: &StorageKey, value: StorageValue, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = get_expiration_time(expiration)?;
         let element = StorageElement{key: key.to_string(), value, expiration};
         let result = self.storage.set_if_not_exists(key, element)?;
         Ok(InterpreterResponse::Bool(result))
@@ -251,10 +245,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn update(
         &mut self, key: &StorageKey, value: StorageValue, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = get_expiration_time(expiration)?;
         let element = StorageElement{key: key.to_string(), value, expiration};
         self.storage.update(key, element)?;
         Ok(InterpreterResponse::Message("Ok".to_string()))
@@ -264,10 +255,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn update_expiration(
         &mut self, key: &StorageKey, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = get_expiration_time(expiration)?;
         self.storage.update_expiration(key, expiration)?;
         Ok(InterpreterResponse::Message("Ok".to_string()))
     }
@@ -406,6 +394,18 @@ impl<S: Storage + Send> Interpreter<S> {
 }
 
 
+/// Get the time at which something with the given lifetime in seconds expires.
+fn get_expiration_time(lifetime: Option<u64>) -> Result<Option<SystemTime>, ServerError> {
+    match lifetime {
+        None => Ok(None),
+        Some(time) => match SystemTime::now().checked_add(Duration::from_secs(time)) {
+            Some(timestamp) => Ok(Some(timestamp)),
+            None => Err(ServerError::RequestError(format!("Lifetime {} is too large.", time))),
+        },
+    }
+}
+
+
 /// Validate that a statement is available at the given authorization level.
 fn validate_authorization(
     statements: &Vec<Statement>, authorization: AuthorizationLevel
-- 
2.43.0


From 4bc202b20f48a7c5c030928ce3b4582eccf84e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 09/23] fix: drop the key index of an entry removed by
 expiration

---
 server/src/storage/hashmap_storage.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index 70a1375..fd24ffa 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -256,6 +256,9 @@ impl Storage for HashMapStorage {
             None => return Err(ServerError::KeyError(format!("Key {} not found.", key))),
         };
         if item.element.is_expired() {
+            if let Some(index) = item.key_index {
+                self.invalidate_key_index(index);
+            }
             match self.storage.remove(key) {
                 _ => Ok(true),
             }
-- 
2.43.0


From aaaac15c04a9d2fbaee20e63c5196be05d0532dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 10/23] fix: treat an expired entry as absent in
 set_if_not_exists

---
 server/src/storage/hashmap_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index fd24ffa..49989c3 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -180,7 +180,7 @@ impl Storage for HashMapStorage {
     fn set_if_not_exists(
         &mut self, key: &str, value: StorageElement
     ) -> Result<bool, ServerError> {
-        if self.storage.contains_key(key) {
+        if self.contains_key(key)? {
             Ok(false)
         } else {
             match self.set(key, value) {
-- 
2.43.0


From 8ed39cc947f111db63476aa71cd967bb8b32f655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 11/23] fix: make maps with entries serializable in responses

---
 server/src/storage/types.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/server/src/storage/types.rs b/server/src/storage/types.rs
index 2196c63..1059c22 100644
--- a/server/src/storage/types.rs
+++ b/server/src/storage/types.rs
@@ -242,6 +242,7 @@ impl StorageVector {
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct StorageMap {
     /// The raw map to be accessed
+    #[serde(with = "map_entries")]
     map: HashMap<StorageValue, StorageValue>,
     /// The type of key to be used
     pub key_type: KeyType,
@@ -250,6 +251,32 @@ pub struct StorageMap {
 }
 
 
+/// Represents the entries of a map as a list of key-value pairs, since formats like JSON only
+/// allow strings as the keys of a map.
+mod map_entries {
+    use std::collections::HashMap;
+
+    use serde::{Deserialize, Deserializer, Serializer};
+
+    use super::StorageValue;
+
+    /// Write the entries of the map
+    pub fn serialize<S: Serializer>(
+        map: &HashMap<StorageValue, StorageValue>, serializer: S
+    ) -> Result<S::Ok, S::Error> {
+        serializer.collect_seq(map.iter())
+    }
+
+    /// Read the entries of the map
+    pub fn deserialize<'de, D: Deserializer<'de>>(
+        deserializer: D
+    ) -> Result<HashMap<StorageValue, StorageValue>, D::Error> {
+        let entries = Vec::<(StorageValue, StorageValue)>::deserialize(deserializer)?;
+        Ok(entries.into_iter().collect())
+    }
+}
+
+
 impl StorageMap {
     /// Create a new map with keys and data of the given types.
     pub fn new(key_type: KeyType, collection_type: CollectionType) -> StorageMap {
-- 
2.43.0


From b37654a6826b3e611669baa0bbc912bd0030455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 12/23] fix: shut the single threaded server down only on an
 executed shutdown

---
 server/src/single_threaded.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/server/src/single_threaded.rs b/server/src/single_threaded.rs
index 61a0f50..577847f 100644
--- a/server/src/single_threaded.rs
+++ b/server/src/single_threaded.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use crate::auth::{AuthenticationResult, AuthenticationService, MockAuthenticator};
 use crate::error::ServerError;
 use crate::io::stream::{StreamHandler, StreamRequest};
-use crate::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Statement, Tokenizer};
+use crate::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Tokenizer};
 use crate::storage::hashmap_storage::HashMapStorage;
 use crate::storage::Storage;
 
@@ -84,15 +84,10 @@ impl<Auth: AuthenticationService, Stor: Storage + Send> SingleThreadedServer<Aut
             return (Err(error), false)
         }
         let statements = statements.unwrap();
-        let mut shut_down = false;
-        for statement in statements.iter() {
-            if let Statement::Shutdown = statement {
-                shut_down = true;
-                break;
-            }
-        }
         let int_request = InterpreterRequest{statements, authorization};
         let result = self.interpreter.interpret(int_request);
+        // Only a shutdown that was allowed and executed stops the server
+        let shut_down = matches!(result, Ok(InterpreterResponse::ShuttingDown));
         (result, shut_down)
     }
 }
-- 
2.43.0


From c35c52635038075468ff4aa90494db8092d5be66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:19 +0000
Subject: [PATCH 13/23] fix: answer unreadable requests with their own error in
 the single threaded server

---
 server/src/single_threaded.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/server/src/single_threaded.rs b/server/src/single_threaded.rs
index 577847f..2747e1b 100644
--- a/server/src/single_threaded.rs
+++ b/server/src/single_threaded.rs
@@ -47,6 +47,11 @@ impl<Auth: AuthenticationService, Stor: Storage + Send> SingleThreadedServer<Aut
     
     /// Handle a single stream request to the server. 
     fn handle_request(&mut self, request: Result<String, ServerError>, headers: HashMap<String, String>) -> (Result<InterpreterResponse, ServerError>, bool) {
+        // A request that could not be read has no usable headers to authenticate with
+        let request_string = match request {
+            Ok(request_string) => request_string,
+            Err(error) => return (Err(error), false),
+        };
         let authentication = self.authenticator.authenticate(&headers);
         let (username, authorization)= match authentication {
             Ok(AuthenticationResult::Authenticated(username, level)) => (username, level),
@@ -67,11 +72,6 @@ impl<Auth: AuthenticationService, Stor: Storage + Send> SingleThreadedServer<Aut
             },
             Some(auth) => auth,
         };
-        if let Err(error) = &request {
-            return (Err(error.clone()), false);
-        }
-        let request_string = request.unwrap();
-
         let mut tokenizer = Tokenizer::new(&request_string);
         let tokens = tokenizer.tokenize();
         if let Err(error) = tokens {
-- 
2.43.0


From 3a4772107d914b3da4a446a8c1d83f18f232993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 14/23] fix: write responses completely

---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 8696881..29f3e29 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -50,7 +50,7 @@ impl StreamSender for TcpStreamSender {
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
 
-        if let Err(_) = self.stream.write(http_bytes) {
+        if let Err(_) = self.stream.write_all(http_bytes) {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush() {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 69c19bd..5b9604b 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -61,7 +61,7 @@ impl TcpStreamSender {
 
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
-        if let Err(_) = self.stream.write(http_bytes).await {
+        if let Err(_) = self.stream.write_all(http_bytes).await {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush().await {
-- 
2.43.0


From 3dab85a1aba3eb944ecd731bd45574c1c3a59c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 15/23] fix: stop reading a request when the client closes the
 connection

---
 server/src/io/tcp.rs       | 8 ++++++++
 server/src/io/tcp_async.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 29f3e29..d6882a8 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -126,6 +126,14 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 };
             },
         };
+        if size_read == 0 {
+            // The client closed the connection before the request was complete
+            return StreamRequest {
+                request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
+                headers,
+                sender: Some(Box::new(TcpStreamSender{stream})),
+            };
+        }
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 5b9604b..4041af9 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -137,6 +137,14 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 };
             },
         };
+        if size_read == 0 {
+            // The client closed the connection before the request was complete
+            return StreamRequest {
+                request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
+                headers,
+                sender: Some(TcpStreamSender{stream}),
+            };
+        }
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
-- 
2.43.0


From 6052957e41f91a243010188ef1c6b04558b91667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:22 +0000
Subject: [PATCH 16/23] fix: keep reading when the head of a request arrives in
 pieces

---
 server/src/io/tcp.rs       | 4 +++-
 server/src/io/tcp_async.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index d6882a8..679ebff 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -137,7 +137,9 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
-            _ => return StreamRequest {
+            // The rest of the headers has not arrived yet
+            Ok(Status::Partial) => continue,
+            Err(_) => return StreamRequest {
                 request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
                 headers,
                 sender: Some(Box::new(TcpStreamSender{stream})),
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 4041af9..c813752 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -148,7 +148,9 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
-            _ => return StreamRequest {
+            // The rest of the headers has not arrived yet
+            Ok(Status::Partial) => continue,
+            Err(_) => return StreamRequest {
                 request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
                 headers,
                 sender: Some(TcpStreamSender{stream}),
-- 
2.43.0


From c6f437161b747c81799bb97af87280501920a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:23 +0000
Subject: [PATCH 17/23] fix: do not overflow on huge content lengths

---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 679ebff..49801db 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -159,7 +159,7 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             None => continue,
             Some(body_length) => body_length,
         };
-        if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
+        if body_length <= buffer.len() - body_start {
             match request.method {
                 Some("POST") => (),
                 _ => return StreamRequest {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index c813752..03f6273 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -170,7 +170,7 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             None => continue,
             Some(body_length) => body_length,
         };
-        if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
+        if body_length <= buffer.len() - body_start {
             match request.method {
                 Some("POST") => (),
                 _ => return StreamRequest {
-- 
2.43.0


From 168df878bb0d584664c8b543998879b5164118e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:23 +0000
Subject: [PATCH 18/23] fix: match the content length header in any letter case

---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 49801db..1693daa 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -65,7 +65,7 @@ impl StreamSender for TcpStreamSender {
 fn extract_body_length_from_request(request: &Request) -> Result<Option<usize>, ServerError> {
     let mut length: Option<usize> = None;
     for header in request.headers.iter() {
-        if header.name == "Content-Length" {
+        if header.name.eq_ignore_ascii_case("Content-Length") {
             let length_str = match String::from_utf8(header.value.clone().to_vec()) {
                 Ok(utf_str) => utf_str,
                 Err(_) => return Err(ServerError::RequestError("Malformed request.".to_string())),
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 03f6273..908586d 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -76,7 +76,7 @@ impl TcpStreamSender {
 fn extract_body_length_from_request(request: &Request) -> Result<Option<usize>, ServerError> {
     let mut length: Option<usize> = None;
     for header in request.headers.iter() {
-        if header.name == "Content-Length" {
+        if header.name.eq_ignore_ascii_case("Content-Length") {
             let length_str = match String::from_utf8(header.value.clone().to_vec()) {
                 Ok(utf_str) => utf_str,
                 Err(_) => return Err(ServerError::RequestError("Malformed request.".to_string())),
-- 
2.43.0


From 183e55f9008b8418f2c27567d52152817b63cf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 19/23] fix: answer requests without a content length instead
 of waiting for more

---
 server/src/io/tcp.rs       | 6 ++----
 server/src/io/tcp_async.rs | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 1693daa..cdf311b 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -155,10 +155,8 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 };
             },
         };
-        let body_length = match body_length {
-            None => continue,
-            Some(body_length) => body_length,
-        };
+        // A request that does not announce a body has none
+        let body_length = body_length.unwrap_or(0);
         if body_length <= buffer.len() - body_start {
             match request.method {
                 Some("POST") => (),
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 908586d..1e5c3a2 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -166,10 +166,8 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 };
             },
         };
-        let body_length = match body_length {
-            None => continue,
-            Some(body_length) => body_length,
-        };
+        // A request that does not announce a body has none
+        let body_length = body_length.unwrap_or(0);
         if body_length <= buffer.len() - body_start {
             match request.method {
                 Some("POST") => (),
-- 
2.43.0


From bab0f09ede4f1f94c1058e8fd74387da67075329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:09 +0000
Subject: [PATCH 20/23] fix: stop waiting for silent clients after a while

---
 server/src/io/tcp.rs       |  9 +++++++++
 server/src/io/tcp_async.rs | 20 ++++++++++++++------
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index cdf311b..f4aecc4 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -2,6 +2,7 @@ use std::net::{IpAddr, TcpStream, TcpListener};
 use std::collections::HashMap;
 use std::io::{Read, Write};
 use std::iter::Extend;
+use std::time::Duration;
 
 use httparse::{self, Request, Status};
 use serde_json::{self, Value};
@@ -13,6 +14,8 @@ use crate::io::stream::{StreamHandler, StreamRequest, StreamSender};
 
 const MAX_BUFFER_SIZE: usize = 1024;
 const MAX_NUMBER_OF_HEADERS: usize = 32;
+/// Longest time to wait for a client to send or accept more data
+const STREAM_TIMEOUT: Duration = Duration::from_secs(10);
 
 
 /// Object to send responses back through a TCP stream object.
@@ -217,6 +220,12 @@ impl StreamHandler for TcpStreamHandler {
             ),
             Ok((stream, _)) => stream,
         };
+        // A silent client must not keep the other ones waiting forever
+        let timeouts_set = stream.set_read_timeout(Some(STREAM_TIMEOUT))
+            .and_then(|_| stream.set_write_timeout(Some(STREAM_TIMEOUT)));
+        if let Err(error) = timeouts_set {
+            println!("Error setting stream timeouts: {:?}", error);
+        }
         Some(convert_stream_to_request(stream))
     }
 }
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 1e5c3a2..b8437b8 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -1,9 +1,11 @@
 use std::net::IpAddr;
 use tokio::net::{TcpListener, TcpStream};
 use tokio::io::{AsyncWriteExt, AsyncReadExt};
+use tokio::time::timeout;
 
 use std::collections::HashMap;
 use std::iter::Extend;
+use std::time::Duration;
 
 use httparse::{self, Request, Status};
 use serde_json::{self, Value};
@@ -13,6 +15,8 @@ use crate::error::{self, ServerError};
 
 const MAX_BUFFER_SIZE: usize = 1024;
 const MAX_NUMBER_OF_HEADERS: usize = 32;
+/// Longest time to wait for a client to send or accept more data
+const STREAM_TIMEOUT: Duration = Duration::from_secs(10);
 
 
 /// Async version of the stream request
@@ -61,9 +65,13 @@ impl TcpStreamSender {
 
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
-        if let Err(_) = self.stream.write_all(http_bytes).await {
-            return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
-        };
+        let mut unsent_bytes = http_bytes;
+        while !unsent_bytes.is_empty() {
+            match timeout(STREAM_TIMEOUT, self.stream.write(unsent_bytes)).await {
+                Ok(Ok(size)) if size > 0 => unsent_bytes = &unsent_bytes[size..],
+                _ => return Err(ServerError::NetworkError("Error writing to stream.".to_string())),
+            }
+        }
         if let Err(_) = self.stream.flush().await {
             return Err(ServerError::NetworkError("Error flushing write buffer for stream.".to_string()));
         }
@@ -126,9 +134,9 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         let mut temp_buffer = [0; MAX_BUFFER_SIZE];
         let mut headers_list = [httparse::EMPTY_HEADER; MAX_NUMBER_OF_HEADERS];
         let mut request = Request::new(&mut headers_list);
-        let size_read = match stream.read(&mut temp_buffer).await {
-            Ok(read) => read,
-            Err(_) => {
+        let size_read = match timeout(STREAM_TIMEOUT, stream.read(&mut temp_buffer)).await {
+            Ok(Ok(read)) => read,
+            _ => {
                 let sender = Some(TcpStreamSender{stream});
                 return StreamRequest {
                     request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
-- 
2.43.0


From 6ee4b395da151a3102426f3bc4c90c03b36a4bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:31 +0000
Subject: [PATCH 21/23] fix: reject request bodies that are not valid UTF-8

---
 server/src/io/tcp.rs       | 8 ++++----
 server/src/io/tcp_async.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index f4aecc4..4745e44 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -84,8 +84,8 @@ fn extract_body_length_from_request(request: &Request) -> Result<Option<usize>,
 }
 
 /// Extract the actual request/query string from the body in the POST request.
-fn extract_request_from_body(body: &str) -> Result<String, ServerError> {
-    let json_value: Result<Value, _> = serde_json::from_str(&body);
+fn extract_request_from_body(body: &[u8]) -> Result<String, ServerError> {
+    let json_value: Result<Value, _> = serde_json::from_slice(body);
     let map = match json_value {
         Ok(Value::Object(map)) => map,
         _ => return Err(ServerError::RequestError("Malformed request.".to_string())),
@@ -170,13 +170,13 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 }
             }
             headers = convert_headers_to_map(&request);
-            let body = String::from_utf8_lossy(&buffer[body_start..(body_start + body_length)]);
+            let body = &buffer[body_start..(body_start + body_length)];
 
             break (headers, body);
         }
     };
 
-    let query = match extract_request_from_body(&body) {
+    let query = match extract_request_from_body(body) {
         Ok(query) => query,
         Err(err) => {
             return StreamRequest {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index b8437b8..86f81d1 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -100,8 +100,8 @@ fn extract_body_length_from_request(request: &Request) -> Result<Option<usize>,
 }
 
 /// Extract the actual request/query string from the body in the POST request.
-fn extract_request_from_body(body: &str) -> Result<String, ServerError> {
-    let json_value: Result<Value, _> = serde_json::from_str(&body);
+fn extract_request_from_body(body: &[u8]) -> Result<String, ServerError> {
+    let json_value: Result<Value, _> = serde_json::from_slice(body);
     let map = match json_value {
         Ok(Value::Object(map)) => map,
         _ => return Err(ServerError::RequestError("Malformed request.".to_string())),
@@ -186,13 +186,13 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 }
             }
             headers = convert_headers_to_map(&request);
-            let body = String::from_utf8_lossy(&buffer[body_start..(body_start + body_length)]);
+            let body = &buffer[body_start..(body_start + body_length)];
 
             break (headers, body);
         }
     };
 
-    let query = match extract_request_from_body(&body) {
+    let query = match extract_request_from_body(body) {
         Ok(query) => query,
         Err(err) => {
             return StreamRequest {
-- 
2.43.0


From 140cefb692f8b8d57dd794f8cfcfe5d6e48cd4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 22/23] fix: deleting an entry printed its value to the
 standard output

---
 server/src/storage/hashmap_storage.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index 49989c3..1df6c28 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -148,7 +148,6 @@ impl Storage for HashMapStorage {
         &mut self, key: &str
     ) -> Result<bool, ServerError> {
         let value = self.storage.remove(key);
-        println!("{:?}", value);
         let result = if let Some(container) = value {
             if let Some(_) = container.element.expiration {
                 let index = container.key_index.unwrap();
-- 
2.43.0


From 7acd5df46d8bcf8f49025443e99643beaad3d17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 23/23] fix: a parser went on behind a malformed statement when
 iterated

---
 server/src/analysis/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index 1c4817c..e6ed8b8 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -514,7 +514,10 @@ impl Iterator for Parser {
         match self.get_next_statement() {
             Ok(None) => None,
             Ok(Some(statement)) => Some(Ok(statement)),
-            Err(err) => Some(Err(err)),
+            Err(err) => {
+                self.error_encountered = true;
+                Some(Err(err))
+            },
         }
     }
 }
-- 
2.43.0

