//! Executable sequential specification of the store, and conversions from and to the real types.
//!
//! Time is passed in explicitly (nanoseconds since the epoch); nothing here reads a clock.

use std::collections::{BTreeMap, BTreeSet};

use serde_json::Value as Json;
use server::analysis::{InterpreterResponse, Statement};
use server::auth::AuthorizationLevel;
use server::error::ServerError;
use server::storage::{CollectionType, KeyType, StorageMap, StorageValue, StorageVector};

pub const NS: i128 = 1_000_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ty {
    Bool,
    Str,
    Int,
    Float,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i64),
    /// bits of the f32
    Float(u32),
    Str(String),
    Vec(Ty, Vec<Val>),
    Map(Ty, Ty, BTreeMap<Val, Val>),
}

pub fn f(x: f32) -> Val {
    Val::Float(x.to_bits())
}

impl Val {
    pub fn ty(&self) -> Option<Ty> {
        match self {
            Val::Bool(_) => Some(Ty::Bool),
            Val::Int(_) => Some(Ty::Int),
            Val::Float(_) => Some(Ty::Float),
            Val::Str(_) => Some(Ty::Str),
            _ => None,
        }
    }
    pub fn is_scalar(&self) -> bool {
        self.ty().is_some()
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    Get(String),
    Set(String, Val, Option<u64>),
    Update(String, Val, Option<u64>),
    Exists(String),
    Delete(String),
    GetLifetime(String),
    SetLifetime(String, Option<u64>),
    TryGet(String),
    TrySet(String, Val, Option<u64>),
    VGet(String, u64),
    VSet(String, u64, Val),
    VPush(String, Val),
    VPop(String),
    VLen(String),
    MGet(String, Val),
    MSet(String, Val, Val),
    MDel(String, Val),
    MLen(String),
    MEx(String, Val),
    Type(String),
    Expire,
    Shutdown,
    Null,
}

pub const OP_KINDS: [&str; 23] = [
    "get", "set", "upd", "ex", "del", "getlt", "setlt", "try_get", "try_set", "vget", "vset", "vpush",
    "vpop", "vlen", "mget", "mset", "mdel", "mlen", "mex", "type", "expire", "shutdown", "null",
];

impl Op {
    pub fn kind(&self) -> usize {
        match self {
            Op::Get(_) => 0,
            Op::Set(..) => 1,
            Op::Update(..) => 2,
            Op::Exists(_) => 3,
            Op::Delete(_) => 4,
            Op::GetLifetime(_) => 5,
            Op::SetLifetime(..) => 6,
            Op::TryGet(_) => 7,
            Op::TrySet(..) => 8,
            Op::VGet(..) => 9,
            Op::VSet(..) => 10,
            Op::VPush(..) => 11,
            Op::VPop(_) => 12,
            Op::VLen(_) => 13,
            Op::MGet(..) => 14,
            Op::MSet(..) => 15,
            Op::MDel(..) => 16,
            Op::MLen(_) => 17,
            Op::MEx(..) => 18,
            Op::Type(_) => 19,
            Op::Expire => 20,
            Op::Shutdown => 21,
            Op::Null => 22,
        }
    }

    /// Can it be written in the query language?
    pub fn is_textual(&self) -> bool {
        !matches!(self, Op::GetLifetime(_) | Op::SetLifetime(..) | Op::Expire | Op::Null)
    }

    pub fn key(&self) -> Option<&str> {
        match self {
            Op::Get(k) | Op::Exists(k) | Op::Delete(k) | Op::GetLifetime(k) | Op::TryGet(k) | Op::VPop(k)
            | Op::VLen(k) | Op::MLen(k) | Op::Type(k) => Some(k),
            Op::Set(k, ..) | Op::Update(k, ..) | Op::TrySet(k, ..) => Some(k),
            Op::SetLifetime(k, _) | Op::VGet(k, _) | Op::VPush(k, _) | Op::MGet(k, _) | Op::MDel(k, _)
            | Op::MEx(k, _) => Some(k),
            Op::VSet(k, ..) | Op::MSet(k, ..) => Some(k),
            Op::Expire | Op::Shutdown | Op::Null => None,
        }
    }

    /// Does it need the privilege to write?
    pub fn writes(&self) -> bool {
        matches!(
            self,
            Op::Set(..) | Op::Update(..) | Op::Delete(_) | Op::SetLifetime(..) | Op::TrySet(..) | Op::VSet(..)
                | Op::VPush(..) | Op::VPop(_) | Op::MSet(..) | Op::MDel(..)
        )
    }

    pub fn lifetime(&self) -> Option<u64> {
        match self {
            Op::Set(_, _, l) | Op::Update(_, _, l) | Op::TrySet(_, _, l) | Op::SetLifetime(_, l) => *l,
            _ => None,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum EK {
    Key,
    Network,
    Write,
    Token,
    Parse,
    Index,
    Type,
    Internal,
    Authz,
    Authn,
    Request,
}

pub fn ek_from_name(s: &str) -> Option<EK> {
    Some(match s {
        "KeyError" => EK::Key,
        "NetworkError" => EK::Network,
        "WriteError" => EK::Write,
        "TokenizationError" => EK::Token,
        "ParseError" => EK::Parse,
        "IndexError" => EK::Index,
        "TypeError" => EK::Type,
        "InternalError" => EK::Internal,
        "AuthorizationError" => EK::Authz,
        "AuthenticationError" => EK::Authn,
        "RequestError" => EK::Request,
        _ => return None,
    })
}

pub fn ek(e: &ServerError) -> EK {
    match e {
        ServerError::KeyError(_) => EK::Key,
        ServerError::NetworkError(_) => EK::Network,
        ServerError::WriteError(_) => EK::Write,
        ServerError::TokenizationError(_) => EK::Token,
        ServerError::ParseError(_) => EK::Parse,
        ServerError::IndexError(_) => EK::Index,
        ServerError::TypeError(_) => EK::Type,
        ServerError::InternalError(_) => EK::Internal,
        ServerError::AuthorizationError(_) => EK::Authz,
        ServerError::AuthenticationError(_) => EK::Authn,
        ServerError::RequestError(_) => EK::Request,
        #[allow(unreachable_patterns)]
        other => panic!("unknown error kind {:?}", other),
    }
}

/// The status class an error kind is reported with
pub fn status_of(k: EK) -> u16 {
    match k {
        EK::Key | EK::Token | EK::Parse | EK::Index | EK::Type => 422,
        EK::Network | EK::Write | EK::Internal => 500,
        EK::Authz => 401,
        EK::Authn => 403,
        EK::Request => 400,
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum VT {
    Null,
    Bool,
    Int,
    Float,
    Str,
    Vec(Ty),
    Map(Ty, Ty),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Resp {
    Value(Val),
    Message,
    Size(u64),
    Expiration(Option<u64>),
    Key(String),
    Bool(bool),
    Type(VT),
    ShuttingDown,
    Null,
}

pub type Answer = Result<Resp, EK>;

/// What the specification allows as an answer
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Expect {
    Is(Resp),
    /// Remaining lifetime in nanoseconds; whole seconds, one second of slack
    Remaining(i128),
    Fail(Vec<EK>),
    AnyFail,
    /// An expiry pass: any number of removed entries up to this one
    Removed(u64),
}

impl Expect {
    pub fn failed(&self) -> bool {
        matches!(self, Expect::Fail(_) | Expect::AnyFail)
    }
    pub fn allows(&self, a: &Answer) -> bool {
        match (self, a) {
            (Expect::Is(r), Ok(a)) => r == a,
            (Expect::Remaining(ns), Ok(Resp::Expiration(Some(s)))) => {
                let s = *s as i128 * NS;
                s <= *ns + NS && s >= *ns - NS - 1
            }
            (Expect::Fail(ks), Err(k)) => ks.contains(k),
            (Expect::AnyFail, Err(_)) => true,
            (Expect::Removed(n), Ok(Resp::Size(x))) => x <= n,
            _ => false,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Entry {
    pub val: Val,
    pub exp: Option<i128>,
}

/// The sequential specification
#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct Model {
    /// Every entry written and not deleted or known to be reclaimed, expired ones included
    pub map: BTreeMap<String, Entry>,
}

pub fn fold(k: &str) -> String {
    k.to_lowercase()
}

impl Model {
    pub fn new() -> Model {
        Model::default()
    }

    pub fn live(&self, k: &str, now: i128) -> Option<&Entry> {
        match self.map.get(k) {
            Some(e) if e.exp.map_or(true, |x| now <= x) => Some(e),
            _ => None,
        }
    }

    pub fn live_count(&self, now: i128) -> usize {
        self.map.values().filter(|e| e.exp.map_or(true, |x| now <= x)).count()
    }
    pub fn live_expiring_count(&self, now: i128) -> usize {
        self.map.values().filter(|e| e.exp.map_or(false, |x| now <= x)).count()
    }
    pub fn expired_count(&self, now: i128) -> usize {
        self.map.values().filter(|e| e.exp.map_or(false, |x| now > x)).count()
    }

    /// Is some expiry so close to now that the clock readings inside the code matter?
    pub fn ambiguous(&self, now: i128, slack: i128) -> bool {
        self.map.values().any(|e| e.exp.map_or(false, |x| (x - now).abs() <= slack))
    }

    fn expiry(now: i128, lifetime: Option<u64>) -> Result<Option<i128>, ()> {
        match lifetime {
            None => Ok(None),
            Some(l) => {
                let x = now + l as i128 * NS;
                // SystemTime holds whole seconds in an i64
                if x / NS > i64::MAX as i128 {
                    Err(())
                } else {
                    Ok(Some(x))
                }
            }
        }
    }

    fn elem_ok(t: Ty, v: &Val) -> bool {
        v.ty() == Some(t)
    }

    fn with_live<R>(&mut self, k: &str, now: i128, g: impl FnOnce(&mut Val) -> R) -> Option<R> {
        match self.map.get_mut(k) {
            Some(e) if e.exp.map_or(true, |x| now <= x) => Some(g(&mut e.val)),
            _ => None,
        }
    }

    /// Apply one statement (keys already folded)
    pub fn apply(&mut self, op: &Op, now: i128) -> Expect {
        use Expect::*;
        let key_err = || Fail(vec![EK::Key]);
        match op {
            Op::Get(k) => match self.live(k, now) {
                Some(e) => Is(Resp::Value(e.val.clone())),
                None => key_err(),
            },
            Op::TryGet(k) => Is(Resp::Value(self.live(k, now).map_or(Val::Null, |e| e.val.clone()))),
            Op::Exists(k) => Is(Resp::Bool(self.live(k, now).is_some())),
            Op::Type(k) => match self.live(k, now) {
                None => key_err(),
                Some(e) => Is(Resp::Type(match &e.val {
                    Val::Null => VT::Null,
                    Val::Bool(_) => VT::Bool,
                    Val::Int(_) => VT::Int,
                    Val::Float(_) => VT::Float,
                    Val::Str(_) => VT::Str,
                    Val::Vec(t, _) => VT::Vec(*t),
                    Val::Map(k, t, _) => VT::Map(*k, *t),
                })),
            },
            Op::Set(k, v, l) => match Self::expiry(now, *l) {
                Err(()) => AnyFail,
                Ok(exp) => {
                    self.map.insert(k.clone(), Entry { val: v.clone(), exp });
                    Is(Resp::Message)
                }
            },
            Op::TrySet(k, v, l) => match Self::expiry(now, *l) {
                Err(()) => AnyFail,
                Ok(exp) => {
                    if self.live(k, now).is_some() {
                        Is(Resp::Bool(false))
                    } else {
                        self.map.insert(k.clone(), Entry { val: v.clone(), exp });
                        Is(Resp::Bool(true))
                    }
                }
            },
            Op::Update(k, v, l) => match Self::expiry(now, *l) {
                Err(()) => AnyFail,
                Ok(exp) => {
                    if self.live(k, now).is_none() {
                        key_err()
                    } else {
                        self.map.insert(k.clone(), Entry { val: v.clone(), exp });
                        Is(Resp::Message)
                    }
                }
            },
            Op::Delete(k) => {
                let was = self.live(k, now).is_some();
                self.map.remove(k);
                Is(Resp::Bool(was))
            }
            Op::GetLifetime(k) => match self.live(k, now) {
                None => key_err(),
                Some(Entry { exp: None, .. }) => Is(Resp::Expiration(None)),
                Some(Entry { exp: Some(x), .. }) => Remaining(*x - now),
            },
            Op::SetLifetime(k, l) => match Self::expiry(now, *l) {
                Err(()) => AnyFail,
                Ok(exp) => {
                    if self.live(k, now).is_none() {
                        key_err()
                    } else {
                        self.map.get_mut(k).unwrap().exp = exp;
                        Is(Resp::Message)
                    }
                }
            },
            Op::VGet(k, i) => self
                .with_live(k, now, |v| match v {
                    Val::Vec(_, xs) => match usize::try_from(*i).ok().and_then(|i| xs.get(i)) {
                        Some(x) => Is(Resp::Value(x.clone())),
                        None => Fail(vec![EK::Index]),
                    },
                    _ => Fail(vec![EK::Type]),
                })
                .unwrap_or_else(key_err),
            Op::VSet(k, i, x) => self
                .with_live(k, now, |v| match v {
                    Val::Vec(t, xs) => {
                        let ty_ok = Self::elem_ok(*t, x);
                        let ix_ok = (*i as u128) < xs.len() as u128;
                        match (ty_ok, ix_ok) {
                            (true, true) => {
                                xs[*i as usize] = x.clone();
                                Is(Resp::Message)
                            }
                            (false, true) => Fail(vec![EK::Type]),
                            (true, false) => Fail(vec![EK::Index]),
                            (false, false) => Fail(vec![EK::Type, EK::Index]),
                        }
                    }
                    _ => Fail(vec![EK::Type]),
                })
                .unwrap_or_else(key_err),
            Op::VPush(k, x) => self
                .with_live(k, now, |v| match v {
                    Val::Vec(t, xs) if Self::elem_ok(*t, x) => {
                        xs.push(x.clone());
                        Is(Resp::Message)
                    }
                    _ => Fail(vec![EK::Type]),
                })
                .unwrap_or_else(key_err),
            Op::VPop(k) => self
                .with_live(k, now, |v| match v {
                    Val::Vec(_, xs) => Is(Resp::Value(xs.pop().unwrap_or(Val::Null))),
                    _ => Fail(vec![EK::Type]),
                })
                .unwrap_or_else(key_err),
            Op::VLen(k) => self
                .with_live(k, now, |v| match v {
                    Val::Vec(_, xs) => Is(Resp::Size(xs.len() as u64)),
                    _ => Fail(vec![EK::Type]),
                })
                .unwrap_or_else(key_err),
            Op::MGet(k, mk) => self
                .with_live(k, now, |v| match v {
                    Val::Map(kt, _, m) if Self::elem_ok(*kt, mk) => match m.get(mk) {
                        Some(x) => Is(Resp::Value(x.clone())),
                        None => Fail(vec![EK::Index]),
                    },
                    _ => Fail(vec![EK::Type]),
                })
                .unwrap_or_else(key_err),
            Op::MEx(k, mk) => self
                .with_live(k, now, |v| match v {
                    Val::Map(kt, _, m) if Self::elem_ok(*kt, mk) => Is(Resp::Bool(m.contains_key(mk))),
                    _ => Fail(vec![EK::Type]),
                })
                .unwrap_or_else(key_err),
            Op::MSet(k, mk, x) => self
                .with_live(k, now, |v| match v {
                    Val::Map(kt, t, m) if Self::elem_ok(*kt, mk) && Self::elem_ok(*t, x) => {
                        m.insert(mk.clone(), x.clone());
                        Is(Resp::Message)
                    }
                    _ => Fail(vec![EK::Type]),
                })
                .unwrap_or_else(key_err),
            Op::MDel(k, mk) => self
                .with_live(k, now, |v| match v {
                    Val::Map(kt, _, m) if Self::elem_ok(*kt, mk) => Is(Resp::Bool(m.remove(mk).is_some())),
                    _ => Fail(vec![EK::Type]),
                })
                .unwrap_or_else(key_err),
            Op::MLen(k) => self
                .with_live(k, now, |v| match v {
                    Val::Map(_, _, m) => Is(Resp::Size(m.len() as u64)),
                    _ => Fail(vec![EK::Type]),
                })
                .unwrap_or_else(key_err),
            Op::Expire => Removed(self.expired_count(now) as u64),
            Op::Shutdown => Is(Resp::ShuttingDown),
            Op::Null => Is(Resp::Null),
        }
    }

    /// Apply a whole request; returns the expected answer and how many statements ran
    pub fn apply_batch(&mut self, ops: &[Op], level: Level, now: i128) -> (Expect, usize) {
        if ops.iter().any(|o| !level.allows(o)) {
            return (Expect::Fail(vec![EK::Authz]), 0);
        }
        let mut last = Expect::Is(Resp::Null);
        for (i, op) in ops.iter().enumerate() {
            last = self.apply(op, now);
            if last.failed() || last == Expect::Is(Resp::ShuttingDown) {
                return (last, i + 1);
            }
        }
        (last, ops.len())
    }

    /// Forget entries that have expired (they can no longer be observed)
    pub fn drop_expired(&mut self, now: i128) {
        self.map.retain(|_, e| e.exp.map_or(true, |x| now <= x));
    }

    pub fn keys(&self) -> BTreeSet<String> {
        self.map.keys().cloned().collect()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Level {
    Admin,
    Write,
    Read,
}

impl Level {
    pub fn allows(self, op: &Op) -> bool {
        match self {
            Level::Admin => true,
            Level::Write => *op != Op::Shutdown,
            Level::Read => !op.writes() && *op != Op::Shutdown,
        }
    }
    pub fn real(self) -> AuthorizationLevel {
        match self {
            Level::Admin => AuthorizationLevel::Admin,
            Level::Write => AuthorizationLevel::Write,
            Level::Read => AuthorizationLevel::Read,
        }
    }
    pub fn user(self) -> &'static str {
        match self {
            Level::Admin => "admin",
            Level::Write => "write",
            Level::Read => "read",
        }
    }
}

// ---------------------------------------------------------------- conversions to the real types

pub fn ct(t: Ty) -> CollectionType {
    match t {
        Ty::Bool => CollectionType::Bool,
        Ty::Str => CollectionType::String,
        Ty::Int => CollectionType::Int,
        Ty::Float => CollectionType::Float,
    }
}

pub fn kt(t: Ty) -> KeyType {
    match t {
        Ty::Int => KeyType::Int,
        Ty::Str => KeyType::String,
        _ => panic!("not a key type"),
    }
}

pub fn to_storage(v: &Val) -> StorageValue {
    match v {
        Val::Null => StorageValue::Null,
        Val::Bool(b) => StorageValue::Bool(*b),
        Val::Int(i) => StorageValue::Int(*i),
        Val::Float(x) => StorageValue::Float(f32::from_bits(*x)),
        Val::Str(s) => StorageValue::String(s.clone()),
        Val::Vec(t, xs) => {
            let mut v = StorageVector::new(ct(*t));
            for x in xs {
                v.push(to_storage(x)).expect("typed vector element refused");
            }
            StorageValue::Vector(v)
        }
        Val::Map(k, t, m) => {
            let mut r = StorageMap::new(kt(*k), ct(*t));
            for (a, b) in m {
                r.set(to_storage(a), to_storage(b)).expect("typed map entry refused");
            }
            StorageValue::Map(r)
        }
    }
}

pub fn to_statement(op: &Op) -> Statement {
    let us = |i: &u64| usize::try_from(*i).unwrap();
    match op {
        Op::Get(k) => Statement::Get(k.clone()),
        Op::Set(k, v, l) => Statement::Set(k.clone(), to_storage(v), *l),
        Op::Update(k, v, l) => Statement::Update(k.clone(), to_storage(v), *l),
        Op::Exists(k) => Statement::Exists(k.clone()),
        Op::Delete(k) => Statement::Delete(k.clone()),
        Op::GetLifetime(k) => Statement::GetLifetime(k.clone()),
        Op::SetLifetime(k, l) => Statement::UpdateLifetime(k.clone(), *l),
        Op::TryGet(k) => Statement::GetIfExists(k.clone()),
        Op::TrySet(k, v, l) => Statement::SetIfNotExists(k.clone(), to_storage(v), *l),
        Op::VGet(k, i) => Statement::VectorGet(k.clone(), us(i)),
        Op::VSet(k, i, v) => Statement::VectorSet(k.clone(), us(i), to_storage(v)),
        Op::VPush(k, v) => Statement::VectorAppend(k.clone(), to_storage(v)),
        Op::VPop(k) => Statement::VectorPop(k.clone()),
        Op::VLen(k) => Statement::VectorLength(k.clone()),
        Op::MGet(k, m) => Statement::MapGet(k.clone(), to_storage(m)),
        Op::MSet(k, m, v) => Statement::MapSet(k.clone(), to_storage(m), to_storage(v)),
        Op::MDel(k, m) => Statement::MapDelete(k.clone(), to_storage(m)),
        Op::MLen(k) => Statement::MapLength(k.clone()),
        Op::MEx(k, m) => Statement::MapExists(k.clone(), to_storage(m)),
        Op::Type(k) => Statement::ValueType(k.clone()),
        Op::Expire => Statement::ExpireKeys,
        Op::Shutdown => Statement::Shutdown,
        Op::Null => Statement::Null,
    }
}

// ---------------------------------------------------------------- conversions from the real types

fn ty_from_json(j: &Json) -> Result<Ty, String> {
    match j.as_str() {
        Some("Bool") => Ok(Ty::Bool),
        Some("String") => Ok(Ty::Str),
        Some("Int") => Ok(Ty::Int),
        Some("Float") => Ok(Ty::Float),
        _ => Err(format!("unknown type name {}", j)),
    }
}

/// Decode a stored value from the JSON representation used in responses
pub fn val_from_json(j: &Json) -> Result<Val, String> {
    if j.as_str() == Some("Null") {
        return Ok(Val::Null);
    }
    let o = j.as_object().ok_or_else(|| format!("not a value: {}", j))?;
    if o.len() != 1 {
        return Err(format!("not a value: {}", j));
    }
    let (k, v) = o.iter().next().unwrap();
    match k.as_str() {
        "Bool" => v.as_bool().map(Val::Bool).ok_or_else(|| format!("bad bool {}", v)),
        "Int" => v.as_i64().map(Val::Int).ok_or_else(|| format!("bad int {}", v)),
        "Float" => {
            if !v.is_number() {
                return Err(format!("bad float {}", v));
            }
            v.as_f64().map(|x| f(x as f32)).ok_or_else(|| format!("bad float {}", v))
        }
        "String" => v.as_str().map(|s| Val::Str(s.to_string())).ok_or_else(|| format!("bad string {}", v)),
        "Vector" => {
            let t = ty_from_json(&v["collection_type"])?;
            let xs = v["vector"].as_array().ok_or("vector without elements")?;
            let xs: Result<Vec<Val>, String> = xs.iter().map(val_from_json).collect();
            let xs = xs?;
            if let Some(x) = xs.iter().find(|x| x.ty() != Some(t)) {
                return Err(format!("vector of {:?} holds {:?}", t, x));
            }
            Ok(Val::Vec(t, xs))
        }
        "Map" => {
            let kt = ty_from_json(&v["key_type"])?;
            let t = ty_from_json(&v["collection_type"])?;
            let mut m = BTreeMap::new();
            let mut put = |a: Val, b: Val| -> Result<(), String> {
                if a.ty() != Some(kt) || b.ty() != Some(t) {
                    return Err(format!("map of {:?} to {:?} holds {:?}: {:?}", kt, t, a, b));
                }
                if m.insert(a.clone(), b).is_some() {
                    return Err(format!("map entry {:?} given twice", a));
                }
                Ok(())
            };
            match &v["map"] {
                Json::Array(es) => {
                    for e in es {
                        match e.as_array().map(|a| &a[..]) {
                            Some([a, b]) => put(val_from_json(a)?, val_from_json(b)?)?,
                            _ => return Err(format!("bad map entry {}", e)),
                        }
                    }
                }
                Json::Object(o) => {
                    for (a, b) in o {
                        let a = match kt {
                            Ty::Int => Val::Int(a.parse().map_err(|_| format!("bad int key {}", a))?),
                            _ => Val::Str(a.clone()),
                        };
                        put(a, val_from_json(b)?)?
                    }
                }
                other => return Err(format!("bad map {}", other)),
            }
            Ok(Val::Map(kt, t, m))
        }
        _ => Err(format!("not a value: {}", j)),
    }
}

/// Decode the payload of a successful response
pub fn resp_from_json(j: &Json) -> Result<Resp, String> {
    match j.as_str() {
        Some("ShuttingDown") => return Ok(Resp::ShuttingDown),
        Some("Null") => return Ok(Resp::Null),
        Some(_) => return Err(format!("unknown response {}", j)),
        None => (),
    }
    let o = j.as_object().ok_or_else(|| format!("unknown response {}", j))?;
    if o.len() != 1 {
        return Err(format!("unknown response {}", j));
    }
    let (k, v) = o.iter().next().unwrap();
    match k.as_str() {
        "Value" => Ok(Resp::Value(val_from_json(v)?)),
        "Message" => Ok(Resp::Message),
        "Size" => v.as_u64().map(Resp::Size).ok_or_else(|| format!("bad size {}", v)),
        "Expiration" => {
            if v.is_null() {
                Ok(Resp::Expiration(None))
            } else {
                v.as_u64().map(|x| Resp::Expiration(Some(x))).ok_or_else(|| format!("bad expiration {}", v))
            }
        }
        "Key" => v.as_str().map(|s| Resp::Key(s.into())).ok_or_else(|| format!("bad key {}", v)),
        "Bool" => v.as_bool().map(Resp::Bool).ok_or_else(|| format!("bad bool {}", v)),
        "ValueType" => Ok(Resp::Type(match v {
            Json::String(s) => match s.as_str() {
                "Null" => VT::Null,
                "Bool" => VT::Bool,
                "Int" => VT::Int,
                "Float" => VT::Float,
                "String" => VT::Str,
                _ => return Err(format!("bad type {}", v)),
            },
            Json::Object(o) => {
                if let Some(t) = o.get("Vector") {
                    VT::Vec(ty_from_json(t)?)
                } else if let Some(Json::Array(a)) = o.get("Map") {
                    if a.len() != 2 {
                        return Err(format!("bad type {}", v));
                    }
                    VT::Map(ty_from_json(&a[0])?, ty_from_json(&a[1])?)
                } else {
                    return Err(format!("bad type {}", v));
                }
            }
            _ => return Err(format!("bad type {}", v)),
        })),
        _ => Err(format!("unknown response {}", j)),
    }
}

/// The real answer in the terms of the specification.
pub fn answer_of(r: &Result<InterpreterResponse, ServerError>) -> Result<Answer, String> {
    match r {
        Err(e) => Ok(Err(ek(e))),
        Ok(r) => {
            let j = serde_json::to_value(r).map_err(|e| format!("response {:?} cannot be serialized: {}", r, e))?;
            resp_from_json(&j).map(Ok)
        }
    }
}

/// Stored value in the terms of the specification
pub fn val_of(v: &StorageValue) -> Result<Val, String> {
    match v {
        StorageValue::Null => Ok(Val::Null),
        StorageValue::Bool(b) => Ok(Val::Bool(*b)),
        StorageValue::Int(i) => Ok(Val::Int(*i)),
        StorageValue::Float(x) => Ok(f(*x)),
        StorageValue::String(s) => Ok(Val::Str(s.clone())),
        other => {
            let j = serde_json::to_value(other).map_err(|e| format!("value {:?} cannot be serialized: {}", other, e))?;
            val_from_json(&j)
        }
    }
}

/// A parsed statement in the terms of the specification
pub fn op_of(s: &Statement) -> Result<Op, String> {
    let v = val_of;
    Ok(match s {
        Statement::Get(k) => Op::Get(k.clone()),
        Statement::Set(k, x, l) => Op::Set(k.clone(), v(x)?, *l),
        Statement::Update(k, x, l) => Op::Update(k.clone(), v(x)?, *l),
        Statement::Exists(k) => Op::Exists(k.clone()),
        Statement::Delete(k) => Op::Delete(k.clone()),
        Statement::GetLifetime(k) => Op::GetLifetime(k.clone()),
        Statement::UpdateLifetime(k, l) => Op::SetLifetime(k.clone(), *l),
        Statement::GetIfExists(k) => Op::TryGet(k.clone()),
        Statement::SetIfNotExists(k, x, l) => Op::TrySet(k.clone(), v(x)?, *l),
        Statement::VectorGet(k, i) => Op::VGet(k.clone(), *i as u64),
        Statement::VectorSet(k, i, x) => Op::VSet(k.clone(), *i as u64, v(x)?),
        Statement::VectorAppend(k, x) => Op::VPush(k.clone(), v(x)?),
        Statement::VectorPop(k) => Op::VPop(k.clone()),
        Statement::VectorLength(k) => Op::VLen(k.clone()),
        Statement::MapGet(k, m) => Op::MGet(k.clone(), v(m)?),
        Statement::MapSet(k, m, x) => Op::MSet(k.clone(), v(m)?, v(x)?),
        Statement::MapDelete(k, m) => Op::MDel(k.clone(), v(m)?),
        Statement::MapLength(k) => Op::MLen(k.clone()),
        Statement::MapExists(k, m) => Op::MEx(k.clone(), v(m)?),
        Statement::ValueType(k) => Op::Type(k.clone()),
        Statement::ExpireKeys => Op::Expire,
        Statement::Shutdown => Op::Shutdown,
        Statement::Null => Op::Null,
        #[allow(unreachable_patterns)]
        other => return Err(format!("unknown statement {:?}", other)),
    })
}
