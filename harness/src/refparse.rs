//! Independent reference for the query language: what a text denotes, or None if it is not in the language.

use std::collections::BTreeMap;

use crate::model::{f, Op, Ty, Val};

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Punct(char),
    Word(String),
    Lit(Val),
}

fn ends_literal(c: char) -> bool {
    c.is_whitespace() || matches!(c, ';' | ':' | ',' | ']' | '}')
}

fn lex(text: &str) -> Option<Vec<Tok>> {
    let mut out = vec![];
    let mut rest = text;
    loop {
        rest = rest.trim_start();
        let c = match rest.chars().next() {
            None => return Some(out),
            Some(c) => c,
        };
        if matches!(c, ';' | '[' | ']' | ',' | ':' | '{' | '}') {
            out.push(Tok::Punct(c));
            rest = &rest[1..];
        } else if c == '"' {
            let mut s = String::new();
            let mut it = rest[1..].char_indices();
            let end = loop {
                let (i, c) = it.next()?;
                match c {
                    '"' => break i + 2,
                    '\\' => s.push(match it.next()?.1 {
                        '\\' => '\\',
                        '"' => '"',
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        _ => return None,
                    }),
                    c => s.push(c),
                }
            };
            rest = &rest[end..];
            if !rest.chars().next().map_or(true, ends_literal) {
                return None;
            }
            out.push(Tok::Lit(Val::Str(s)));
        } else {
            let n = rest
                .char_indices()
                .skip(1)
                .find(|(_, c)| ends_literal(*c))
                .map_or(rest.len(), |(i, _)| i);
            let w = &rest[..n];
            rest = &rest[n..];
            if c == '-' || c.is_numeric() {
                if w.contains('.') {
                    let x: f32 = w.parse().ok()?;
                    if !x.is_finite() {
                        return None;
                    }
                    out.push(Tok::Lit(f(x)));
                } else {
                    out.push(Tok::Lit(Val::Int(w.parse().ok()?)));
                }
            } else if c.is_alphabetic() || c == '_' {
                if !w.chars().all(|c| c.is_alphanumeric() || c == '_') {
                    return None;
                }
                let w = w.to_lowercase();
                out.push(match w.as_str() {
                    "true" => Tok::Lit(Val::Bool(true)),
                    "false" => Tok::Lit(Val::Bool(false)),
                    _ => Tok::Word(w),
                });
            } else {
                return None;
            }
        }
    }
}

struct P {
    toks: Vec<Tok>,
    at: usize,
}

impl P {
    fn peek(&self) -> Option<&Tok> {
        self.toks.get(self.at)
    }
    fn next(&mut self) -> Option<Tok> {
        let t = self.toks.get(self.at).cloned();
        self.at += 1;
        t
    }
    fn stmt_end(&self) -> bool {
        matches!(self.peek(), None | Some(Tok::Punct(';')))
    }
    fn name(&mut self) -> Option<String> {
        match self.next()? {
            Tok::Word(w) if !crate::gen::KEYWORDS.contains(&w.as_str()) => Some(w),
            _ => None,
        }
    }
    fn scalar(&mut self) -> Option<Val> {
        match self.next()? {
            Tok::Lit(v) => Some(v),
            _ => None,
        }
    }
    fn map_key(&mut self) -> Option<Val> {
        self.scalar().filter(|v| matches!(v, Val::Int(_) | Val::Str(_)))
    }
    fn index(&mut self) -> Option<u64> {
        match self.scalar()? {
            Val::Int(i) => u64::try_from(i).ok(),
            _ => None,
        }
    }
    fn ty(&self) -> Option<Ty> {
        match self.peek() {
            Some(Tok::Word(w)) => match w.as_str() {
                "int" => Some(Ty::Int),
                "float" => Some(Ty::Float),
                "str" => Some(Ty::Str),
                "bool" => Some(Ty::Bool),
                _ => None,
            },
            _ => None,
        }
    }
    fn value(&mut self) -> Option<Val> {
        if self.stmt_end() {
            return Some(Val::Null);
        }
        let t = match self.ty() {
            None => return self.scalar(),
            Some(t) => t,
        };
        self.at += 1;
        if self.stmt_end() {
            return Some(Val::Vec(t, vec![]));
        }
        if let Some(t2) = self.ty() {
            self.at += 1;
            if t != Ty::Int && t != Ty::Str {
                return None;
            }
            let mut m = BTreeMap::new();
            if self.peek() == Some(&Tok::Punct('{')) {
                self.at += 1;
                if self.peek() == Some(&Tok::Punct('}')) {
                    self.at += 1;
                } else {
                    loop {
                        let k = self.scalar()?;
                        if self.next()? != Tok::Punct(':') {
                            return None;
                        }
                        let v = self.scalar()?;
                        if k.ty() != Some(t) || v.ty() != Some(t2) {
                            return None;
                        }
                        m.insert(k, v);
                        match self.next()? {
                            Tok::Punct('}') => break,
                            Tok::Punct(',') => (),
                            _ => return None,
                        }
                    }
                }
            }
            return Some(Val::Map(t, t2, m));
        }
        if self.next()? != Tok::Punct('[') {
            return None;
        }
        let mut xs = vec![];
        if self.peek() == Some(&Tok::Punct(']')) {
            self.at += 1;
        } else {
            loop {
                let v = self.scalar()?;
                if v.ty() != Some(t) {
                    return None;
                }
                xs.push(v);
                match self.next()? {
                    Tok::Punct(']') => break,
                    Tok::Punct(',') => (),
                    _ => return None,
                }
            }
        }
        Some(Val::Vec(t, xs))
    }
    fn lifetime(&mut self) -> Option<Option<u64>> {
        if self.stmt_end() {
            Some(None)
        } else {
            self.index().map(Some)
        }
    }
    fn stmt(&mut self) -> Option<Op> {
        let w = match self.next()? {
            Tok::Word(w) => w,
            _ => return None,
        };
        Some(match w.as_str() {
            "get" => Op::Get(self.name()?),
            "try_get" => Op::TryGet(self.name()?),
            "ex" => Op::Exists(self.name()?),
            "del" => Op::Delete(self.name()?),
            "type" => Op::Type(self.name()?),
            "set" => Op::Set(self.name()?, self.value()?, self.lifetime()?),
            "upd" => Op::Update(self.name()?, self.value()?, self.lifetime()?),
            "try_set" => Op::TrySet(self.name()?, self.value()?, self.lifetime()?),
            "vget" => Op::VGet(self.name()?, self.index()?),
            "vset" => Op::VSet(self.name()?, self.index()?, self.scalar()?),
            "vpush" => Op::VPush(self.name()?, self.scalar()?),
            "vpop" => Op::VPop(self.name()?),
            "vlen" => Op::VLen(self.name()?),
            "mget" => Op::MGet(self.name()?, self.map_key()?),
            "mset" => Op::MSet(self.name()?, self.map_key()?, self.scalar()?),
            "mdel" => Op::MDel(self.name()?, self.map_key()?),
            "mex" => Op::MEx(self.name()?, self.map_key()?),
            "mlen" => Op::MLen(self.name()?),
            "shutdown" => Op::Shutdown,
            _ => return None,
        })
    }
}

/// The statements a text denotes, or None if it has to be rejected
pub fn parse(text: &str) -> Option<Vec<Op>> {
    let mut p = P { toks: lex(text)?, at: 0 };
    let mut out = vec![];
    loop {
        while p.peek() == Some(&Tok::Punct(';')) {
            p.at += 1;
        }
        if p.peek().is_none() {
            return Some(out);
        }
        out.push(p.stmt()?);
    }
}
