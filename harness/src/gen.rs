//! Generators: keys, values, statements, and their rendering as query text.

use std::collections::BTreeMap;

use crate::model::{f, Level, Model, Op, Ty, Val};
use crate::rng::Rng;

pub const KEYWORDS: [&str; 29] = [
    "get", "set", "del", "ex", "upd", "lt", "try_get", "try_set", "none", "true", "false", "type", "vset",
    "vget", "vpop", "vpush", "vlen", "mex", "mget", "mset", "mdel", "mlen", "int", "float", "str", "bool",
    "vec", "map", "shutdown",
];

const NAMES: [&str; 40] = [
    "k", "k1", "k_1", "k__1", "_k", "_", "__", "k11", "x", "y", "get1", "gets", "settle", "_set", "try_", "try_gett",
    "int8", "strx", "true1", "falsey", "vec_", "maps", "lt1", "none_", "shutdown1", "shut_down", "delta", "exist",
    "update", "é", "straße", "ключ", "键", "a1b2c3", "user_name", "key", "keyy", "ke", "v", "m",
];

/// A valid, already folded identifier
pub fn gen_key(r: &mut Rng) -> String {
    match r.below(10) {
        0..=5 => NAMES[r.below(NAMES.len())].to_string(),
        6 => format!("k{}", r.below(100000)),
        7 => {
            let n = if r.pct(5) {
                *r.pick(&[511usize, 512, 513, 1023, 1024, 1025, 2000, 4097])
            } else {
                *r.pick(&[1usize, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300])
            };
            let mut s = String::from("q");
            for _ in 1..n {
                s.push(*r.pick(&['a', 'b', '0', '9', '_']));
            }
            s
        }
        8 => {
            let n = r.range(1, 12);
            let mut s = String::new();
            for i in 0..n {
                let set: &[char] = if i == 0 {
                    &['a', 'z', '_', 'é', 'ж']
                } else {
                    &['a', 'z', '_', '0', '9', 'é', 'ж', '٣', 'm', 'n']
                };
                s.push(*r.pick(set));
            }
            if KEYWORDS.contains(&s.as_str()) {
                s.push('_');
            }
            s
        }
        _ => {
            let mut s = r.pick(&KEYWORDS).to_string();
            match r.below(3) {
                0 => s.push('_'),
                1 => s.insert(0, '_'),
                _ => s.push_str("2"),
            }
            s
        }
    }
}

fn fold_changes(k: &str) -> bool {
    k.to_lowercase() != k
}

pub fn key_pool(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut tries = 0;
    while v.len() < n {
        tries += 1;
        let k = if tries > 20 * n + 50 {
            format!("key_{}", v.len())
        } else if !v.is_empty() && r.pct(12) {
            // almost the same as another one
            let mut k = v[r.below(v.len())].clone();
            let last = k.pop().unwrap();
            match r.below(4) {
                0 if !k.is_empty() => k.push(if last == 'a' { 'b' } else { 'a' }),
                1 => {
                    k.push(last);
                    k.push('_');
                }
                2 if k.starts_with(|c: char| c.is_alphabetic()) => k.insert(0, last.to_lowercase().next().filter(|c| c.is_alphabetic()).unwrap_or('_')),
                _ => {
                    k.push(last);
                    k.insert(0, '_');
                }
            }
            if KEYWORDS.contains(&k.as_str()) || fold_changes(&k) {
                k = format!("{}2", gen_key(r));
            }
            k
        } else {
            gen_key(r)
        };
        if !v.contains(&k) || n > 400 {
            v.push(k);
        }
    }
    v
}

pub fn gen_int(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => *r.pick(&[0, 1, -1, 2, 9, 10, 255, 256, -128, 1000]),
        1 => *r.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1]),
        2 => {
            let p = 1i64.wrapping_shl(r.below(63) as u32);
            let d = r.below(3) as i64 - 1;
            let x = p.wrapping_add(d);
            if r.pct(50) { x } else { x.wrapping_neg() }
        }
        // around the precision of doubles
        3 => (1i64 << 53) + r.below(5) as i64 - 2,
        4 => r.next() as i64,
        _ => r.below(20) as i64 - 5,
    }
}

pub fn gen_float(r: &mut Rng) -> f32 {
    match r.below(7) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 1.5, 3.14, -2.75, 100.0]),
        1 => *r.pick(&[f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, 1e-45, -1e-45, 1.1754942e-38]),
        2 => (r.below(2000) as f32 - 1000.0) / 8.0,
        3 => 16777216.0 + r.below(8) as f32,
        _ => loop {
            let x = f32::from_bits(r.next() as u32);
            if x.is_finite() {
                break x;
            }
        },
    }
}

const STRINGS: [&str; 48] = [
    "", "a", "A", "abc", "ABC", "AbC", " ", "  lead", "trail  ", "\"", "\\", "\\\"", "\n", "\r\n", "\t", "a\nb", "a;b", "get x;",
    "shutdown", "SHUTDOWN", "[1,2]", "{\"a\":1}", "null", "true", "é", "É", "ß", "İ", "日本語", "🦀", "👩‍👩‍👧", "\u{0}", "\u{1}\u{1f}",
    "\u{7f}", "\u{2028}\u{2029}", "\u{feff}", "\u{fffd}", "a,b:c", "</script>", "%s%n", "\\n", "\\u0041", "KeyError: x", "1.0", "12", "-7", "0", "false",
];

pub fn gen_string(r: &mut Rng, big: bool) -> String {
    match r.below(8) {
        0..=3 => STRINGS[r.below(STRINGS.len())].to_string(),
        4 => {
            let n = r.range(0, 20);
            (0..n)
                .map(|_| *r.pick(&['a', 'B', 'c', 'Z', ' ', '"', '\\', '\n', '\t', '\r', 'é', 'Σ', '1', ';', '{', '}', '[', ']', ':', ',', '/', '\u{b}', '🦀']))
                .collect()
        }
        5 => {
            let n = r.range(0, 12);
            (0..n).map(|_| loop {
                if let Some(c) = char::from_u32((r.next() % 0x110000) as u32) {
                    break c;
                }
            }).collect()
        }
        6 if big => {
            let n = if r.pct(4) { *r.pick(&[16384usize, 65535, 65536, 65537, 100_000, 140_000]) } else { 0 };
            let n = if n > 0 { n } else { *r.pick(&[63usize, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2048, 4096, 5000]) };
            let c = *r.pick(&['x', 'Y', '"', '\\', 'é']);
            std::iter::repeat(c).take(n).collect()
        }
        _ => format!("S{}t{}", r.below(100), r.below(1000)),
    }
}

pub fn gen_scalar(r: &mut Rng, t: Ty, big: bool) -> Val {
    match t {
        Ty::Bool => Val::Bool(r.pct(50)),
        Ty::Int => Val::Int(gen_int(r)),
        Ty::Float => f(gen_float(r)),
        Ty::Str => Val::Str(gen_string(r, big)),
    }
}

pub fn gen_ty(r: &mut Rng) -> Ty {
    *r.pick(&[Ty::Bool, Ty::Str, Ty::Int, Ty::Float])
}

pub fn gen_key_ty(r: &mut Rng) -> Ty {
    *r.pick(&[Ty::Str, Ty::Int])
}

/// Map keys come from a small range so that they collide
pub fn gen_map_key(r: &mut Rng, t: Ty) -> Val {
    if r.pct(25) {
        return gen_scalar(r, t, false);
    }
    match t {
        Ty::Int => Val::Int(r.below(8) as i64 - 2),
        _ => Val::Str(r.pick(&["a", "A", "b", "", "1", "-2", "key", "é"]).to_string()),
    }
}

fn coll_len(r: &mut Rng, big: bool) -> usize {
    if big && r.below(1000) < 4 {
        *r.pick(&[2047usize, 2048, 2049, 4096, 5000, 10001])
    } else if big && r.pct(8) {
        *r.pick(&[31usize, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 513, 1000, 1025])
    } else {
        *r.pick(&[0usize, 0, 1, 1, 2, 3, 4, 5, 8, 12])
    }
}

pub fn gen_vec(r: &mut Rng, big: bool) -> Val {
    let t = gen_ty(r);
    let n = coll_len(r, big);
    Val::Vec(t, (0..n).map(|_| gen_scalar(r, t, false)).collect())
}

pub fn gen_map(r: &mut Rng, big: bool) -> Val {
    let k = gen_key_ty(r);
    let t = gen_ty(r);
    let n = coll_len(r, big);
    let mut m = BTreeMap::new();
    for i in 0..n {
        let a = if n > 20 {
            match k {
                Ty::Int => Val::Int(i as i64 * 7 - 50),
                _ => Val::Str(format!("e{}", i)),
            }
        } else {
            gen_map_key(r, k)
        };
        m.insert(a, gen_scalar(r, t, false));
    }
    Val::Map(k, t, m)
}

pub fn gen_val(r: &mut Rng, big: bool) -> Val {
    match r.below(12) {
        0 => Val::Null,
        1 => gen_scalar(r, Ty::Bool, big),
        2 | 3 => gen_scalar(r, Ty::Int, big),
        4 => gen_scalar(r, Ty::Float, big),
        5 | 6 => gen_scalar(r, Ty::Str, big),
        7 | 8 | 9 => gen_vec(r, big),
        _ => gen_map(r, big),
    }
}

/// What kind of statements a history is made of
#[derive(Clone, Debug)]
pub struct Profile {
    /// weights of: read, set, upd, try_set, del, vector ops, map ops, type, lifetimes ops, expire
    pub w: [usize; 10],
    /// percentage of writes that carry a lifetime
    pub lifetime_pct: usize,
    /// percentage of operands chosen to be well typed
    pub well_typed_pct: usize,
    pub big: bool,
    pub huge_lifetimes: bool,
    /// values written by set and friends: percentage that are collections
    pub coll_pct: usize,
}

impl Profile {
    pub fn kv() -> Profile {
        Profile { w: [30, 25, 10, 10, 10, 4, 4, 7, 0, 0], lifetime_pct: 10, well_typed_pct: 75, big: true, huge_lifetimes: false, coll_pct: 30 }
    }
    pub fn coll() -> Profile {
        Profile { w: [10, 10, 3, 3, 3, 35, 35, 3, 0, 0], lifetime_pct: 3, well_typed_pct: 75, big: true, huge_lifetimes: false, coll_pct: 92 }
    }
    pub fn time() -> Profile {
        Profile { w: [18, 20, 10, 12, 6, 8, 8, 3, 14, 4], lifetime_pct: 70, well_typed_pct: 85, big: false, huge_lifetimes: true, coll_pct: 40 }
    }
    pub fn purge() -> Profile {
        Profile { w: [6, 30, 8, 10, 12, 3, 3, 1, 12, 15], lifetime_pct: 70, well_typed_pct: 85, big: false, huge_lifetimes: false, coll_pct: 15 }
    }
    pub fn batch() -> Profile {
        Profile { w: [22, 22, 8, 8, 8, 14, 14, 4, 0, 0], lifetime_pct: 5, well_typed_pct: 80, big: false, huge_lifetimes: false, coll_pct: 50 }
    }
}

pub fn gen_lifetime(r: &mut Rng, p: &Profile, now: i128) -> Option<u64> {
    if !r.pct(p.lifetime_pct) {
        return None;
    }
    if p.huge_lifetimes && r.pct(8) {
        let now_s = (now / crate::model::NS) as u64;
        return Some(*r.pick(&[
            i64::MAX as u64,
            i64::MAX as u64 - 1,
            // largest representable ones, and clearly too large ones
            i64::MAX as u64 - now_s - 100,
            i64::MAX as u64 - now_s + 100,
            1u64 << 62,
        ]));
    }
    Some(match r.below(4) {
        0 => *r.pick(&[0, 1, 1, 2, 2, 3]),
        1 => *r.pick(&[5, 9, 10, 30, 59, 60, 61, 100, 3599, 3600, 3601, 86400]),
        2 => *r.pick(&[0x7fff, 0xffff, 0x10000, 999_999, 1_000_000, (1 << 31) - 1, 1 << 31, (1u64 << 32) - 1, 1 << 32, (1u64 << 32) + 5, 9_999_999_999]),
        _ => r.range(1, 20) as u64,
    })
}

fn pick_val(r: &mut Rng, p: &Profile) -> Val {
    if r.pct(p.coll_pct) {
        if r.pct(50) { gen_vec(r, p.big) } else { gen_map(r, p.big) }
    } else {
        match r.below(7) {
            0 => Val::Null,
            1 => gen_scalar(r, Ty::Bool, false),
            2 | 3 => gen_scalar(r, Ty::Int, false),
            4 => gen_scalar(r, Ty::Float, false),
            _ => gen_scalar(r, Ty::Str, p.big),
        }
    }
}

/// A statement that mostly fits the current content
pub fn gen_op(r: &mut Rng, p: &Profile, keys: &[String], m: &Model, now: i128) -> Op {
    let mut k = keys[r.below(keys.len())].clone();
    match r.weighted(&p.w) {
        0 => match r.below(3) {
            0 => Op::Get(k),
            1 => Op::TryGet(k),
            _ => Op::Exists(k),
        },
        1 => Op::Set(k, pick_val(r, p), gen_lifetime(r, p, now)),
        2 => Op::Update(k, pick_val(r, p), gen_lifetime(r, p, now)),
        3 => Op::TrySet(k, pick_val(r, p), gen_lifetime(r, p, now)),
        4 => Op::Delete(k),
        5 => {
            let fit = r.pct(p.well_typed_pct);
            if fit {
                for _ in 0..8 {
                    if matches!(m.live(&k, now), Some(e) if matches!(e.val, Val::Vec(..))) {
                        break;
                    }
                    k = keys[r.below(keys.len())].clone();
                }
            }
            let (t, n) = match m.live(&k, now).map(|e| &e.val) {
                Some(Val::Vec(t, xs)) => (*t, xs.len()),
                _ => (gen_ty(r), 3),
            };
            let t = if fit { t } else { gen_ty(r) };
            let i = match r.below(12) {
                0 => n as u64,
                1 => n as u64 + 1,
                2 => n.saturating_sub(1) as u64,
                3 => *r.pick(&[0, 1, 255, 256, 65536, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64]),
                _ if n > 0 => r.below(n) as u64,
                _ => 0,
            };
            match r.below(8) {
                0 | 1 => Op::VGet(k, i),
                2 | 3 => Op::VSet(k, i, gen_scalar(r, t, false)),
                4 | 5 => Op::VPush(k, gen_scalar(r, t, false)),
                6 => Op::VPop(k),
                _ => Op::VLen(k),
            }
        }
        6 => {
            let fit = r.pct(p.well_typed_pct);
            if fit {
                for _ in 0..8 {
                    if matches!(m.live(&k, now), Some(e) if matches!(e.val, Val::Map(..))) {
                        break;
                    }
                    k = keys[r.below(keys.len())].clone();
                }
            }
            let (mut kt, mut t, mut known) = (gen_key_ty(r), gen_ty(r), None);
            if let Some(Val::Map(a, b, es)) = m.live(&k, now).map(|e| &e.val) {
                if fit {
                    kt = *a;
                    t = *b;
                    if !es.is_empty() && r.pct(50) {
                        known = es.keys().nth(r.below(es.len())).cloned();
                    }
                }
            }
            let mk = known.unwrap_or_else(|| gen_map_key(r, kt));
            match r.below(9) {
                0 | 1 => Op::MGet(k, mk),
                2 | 3 | 4 => Op::MSet(k, mk, gen_scalar(r, t, false)),
                5 => Op::MDel(k, mk),
                6 | 7 => Op::MEx(k, mk),
                _ => Op::MLen(k),
            }
        }
        7 => Op::Type(k),
        8 => {
            if r.pct(50) {
                Op::GetLifetime(k)
            } else {
                let l = if r.pct(30) { None } else { gen_lifetime(r, p, now) };
                Op::SetLifetime(k, l)
            }
        }
        _ => Op::Expire,
    }
}

/// One statement of every kind the level may or may not run, on the given key
pub fn op_of_kind(r: &mut Rng, kind: usize, k: &str) -> Op {
    let k = k.to_string();
    let t = gen_ty(r);
    let kt = gen_key_ty(r);
    match kind {
        0 => Op::Get(k),
        1 => Op::Set(k, gen_val(r, false), if r.pct(30) { Some(r.range(50, 5000) as u64) } else { None }),
        2 => Op::Update(k, gen_val(r, false), if r.pct(30) { Some(r.range(50, 5000) as u64) } else { None }),
        3 => Op::Exists(k),
        4 => Op::Delete(k),
        5 => Op::GetLifetime(k),
        6 => Op::SetLifetime(k, if r.pct(50) { Some(r.range(50, 5000) as u64) } else { None }),
        7 => Op::TryGet(k),
        8 => Op::TrySet(k, gen_val(r, false), if r.pct(30) { Some(r.range(50, 5000) as u64) } else { None }),
        9 => Op::VGet(k, r.below(5) as u64),
        10 => Op::VSet(k, r.below(5) as u64, gen_scalar(r, t, false)),
        11 => Op::VPush(k, gen_scalar(r, t, false)),
        12 => Op::VPop(k),
        13 => Op::VLen(k),
        14 => Op::MGet(k, gen_map_key(r, kt)),
        15 => Op::MSet(k, gen_map_key(r, kt), gen_scalar(r, t, false)),
        16 => Op::MDel(k, gen_map_key(r, kt)),
        17 => Op::MLen(k),
        18 => Op::MEx(k, gen_map_key(r, kt)),
        19 => Op::Type(k),
        20 => Op::Expire,
        21 => Op::Shutdown,
        _ => Op::Null,
    }
}

pub fn gen_level(r: &mut Rng) -> Level {
    *r.pick(&[Level::Admin, Level::Write, Level::Read])
}

// ---------------------------------------------------------------- rendering

/// How freely a statement is written
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    Plain,
    Wild,
}

const WS: [&str; 18] = [
    " ", " ", "  ", "\t", "\n", "\r\n", "   ", " \n ", "\u{a0}", "\u{2003}", "\u{3000}", "\u{b}", "\u{c}", "\r", "\u{85}",
    "\u{1680}", "\u{2028}", "\t\t",
];

pub fn ws(r: &mut Rng, st: Style) -> String {
    if st == Style::Plain {
        return " ".into();
    }
    let mut s = WS[r.below(WS.len())].to_string();
    if r.pct(10) {
        s.push_str(WS[r.below(WS.len())]);
    }
    s
}

fn ows(r: &mut Rng, st: Style) -> String {
    if st == Style::Plain || r.pct(60) {
        String::new()
    } else {
        ws(r, st)
    }
}

pub fn word(r: &mut Rng, w: &str, st: Style) -> String {
    if st == Style::Plain || r.pct(50) {
        return w.to_string();
    }
    if r.pct(25) {
        return w.to_ascii_uppercase();
    }
    w.chars()
        .map(|c| match c {
            'a'..='z' if r.pct(50) => c.to_ascii_uppercase(),
            'é' if r.pct(50) => 'É',
            'ж' if r.pct(50) => 'Ж',
            c => c,
        })
        .collect()
}

pub fn int_text(r: &mut Rng, i: i64, st: Style) -> String {
    if st == Style::Wild && r.pct(6) {
        let z = "0".repeat(r.range(1, 25));
        if i < 0 {
            format!("-{}{}", z, i.unsigned_abs())
        } else {
            format!("{}{}", z, i)
        }
    } else {
        format!("{}", i)
    }
}

fn with_point(s: String) -> String {
    if s.contains('.') {
        return s;
    }
    match s.find(|c| c == 'e' || c == 'E') {
        Some(i) => format!("{}.0{}", &s[..i], &s[i..]),
        None => format!("{}.0", s),
    }
}

/// A literal at, just above or just below the middle between x and one of its neighbours, that still denotes x
fn near_tie(r: &mut Rng, x: f32) -> Option<String> {
    let b = x.to_bits();
    let up = r.pct(50);
    if !up && b & 0x7fff_ffff == 0 {
        return None;
    }
    let n = f32::from_bits(if up { b + 1 } else { b - 1 });
    let n = if n.is_finite() { n as f64 } else { 2f64.powi(128).copysign(x as f64) };
    // doubles hold it exactly, and 160 digits write it exactly
    let m = (x as f64 + n) / 2.0;
    let exact = format!("{:.160}", m);
    let exact = exact.trim_end_matches('0').to_string();
    let zeros = "0".repeat(r.range(0, 30));
    let more = format!("{}{}1", exact, zeros);
    let less = {
        // 1.25 becomes 1.24999..., 16777217. becomes 16777216.999...
        let mut d: Vec<u8> = exact.trim_end_matches('.').bytes().collect();
        let had_point = d.contains(&b'.');
        let mut i = d.len();
        loop {
            if i == 0 {
                return None;
            }
            i -= 1;
            match d[i] {
                b'.' => (),
                b'0' => d[i] = b'9',
                b'1'..=b'9' => {
                    d[i] -= 1;
                    break;
                }
                _ => return None,
            }
        }
        let s = String::from_utf8(d).unwrap();
        format!("{}{}{}", s, if had_point { "" } else { "." }, "9".repeat(r.range(1, 30)))
    };
    let mut options = vec![exact, more, less];
    options.retain(|s| matches!(s.parse::<f32>(), Ok(y) if y.to_bits() == x.to_bits()));
    if options.is_empty() {
        return None;
    }
    Some(options[r.below(options.len())].clone())
}

pub fn float_text(r: &mut Rng, x: f32, st: Style) -> String {
    let plain = with_point(format!("{:?}", x));
    if st == Style::Plain {
        return plain;
    }
    if r.pct(20) {
        if let Some(s) = near_tie(r, x) {
            return s;
        }
    }
    let s = match r.below(8) {
        0 => with_point(format!("{}", x)),
        1 => with_point(format!("{:e}", x)),
        2 => with_point(format!("{:E}", x)),
        3 => with_point(format!("{}", x as f64)),
        4 if plain.ends_with(".0") => plain[..plain.len() - 1].to_string(),
        5 if plain.starts_with("-0.") && plain.len() > 4 => format!("-{}", &plain[2..]),
        6 if !plain.contains('e') => format!("{}000", plain),
        7 if !plain.starts_with('-') => format!("00{}", plain),
        _ => plain.clone(),
    };
    match s.parse::<f32>() {
        Ok(y) if y.to_bits() == x.to_bits() && s.contains('.') && s.len() < 400 => s,
        _ => plain,
    }
}

pub fn string_text(r: &mut Rng, s: &str, st: Style) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' if st == Style::Plain || r.pct(50) => o.push_str("\\n"),
            '\r' if st == Style::Plain || r.pct(50) => o.push_str("\\r"),
            '\t' if st == Style::Plain || r.pct(50) => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn scalar_text(r: &mut Rng, v: &Val, st: Style) -> String {
    match v {
        Val::Bool(b) => word(r, if *b { "true" } else { "false" }, st),
        Val::Int(i) => int_text(r, *i, st),
        Val::Float(x) => float_text(r, f32::from_bits(*x), st),
        Val::Str(s) => string_text(r, s, st),
        _ => panic!("not a scalar"),
    }
}

fn ty_text(r: &mut Rng, t: Ty, st: Style) -> String {
    let w = match t {
        Ty::Bool => "bool",
        Ty::Str => "str",
        Ty::Int => "int",
        Ty::Float => "float",
    };
    word(r, w, st)
}

/// Value and lifetime part of set / upd / try_set; true if what follows must be separated by a semicolon
fn value_text(r: &mut Rng, v: &Val, l: Option<u64>, st: Style) -> (String, bool) {
    let mut o = String::new();
    match v {
        Val::Null => {
            assert!(l.is_none(), "a null value cannot carry a lifetime in query text");
            return (o, true);
        }
        Val::Vec(t, xs) => {
            o += &ws(r, st);
            o += &ty_text(r, *t, st);
            if xs.is_empty() && l.is_none() && r.pct(50) {
                return (o, true);
            }
            o += &ws(r, st);
            o += "[";
            for (i, x) in xs.iter().enumerate() {
                if i > 0 {
                    o += &ows(r, st);
                    o += ",";
                    if st == Style::Plain {
                        o += " ";
                    }
                }
                o += &ows(r, st);
                o += &scalar_text(r, x, st);
            }
            o += &ows(r, st);
            o += "]";
        }
        Val::Map(k, t, m) => {
            o += &ws(r, st);
            o += &ty_text(r, *k, st);
            o += &ws(r, st);
            o += &ty_text(r, *t, st);
            if !(m.is_empty() && r.pct(50)) {
                o += &ws(r, st);
                o += "{";
                let mut es: Vec<(&Val, &Val)> = m.iter().collect();
                if st == Style::Wild {
                    r.shuffle(&mut es);
                }
                for (i, (a, b)) in es.into_iter().enumerate() {
                    if i > 0 {
                        o += &ows(r, st);
                        o += ",";
                    }
                    o += &ows(r, st);
                    if st == Style::Wild && r.pct(3) {
                        // an entry given twice: the last one counts
                        o += &scalar_text(r, a, st);
                        o += ":";
                        o += &match b.ty().unwrap() {
                            Ty::Bool => "true".to_string(),
                            Ty::Int => "5".to_string(),
                            Ty::Float => "5.5".to_string(),
                            Ty::Str => "\"dup\"".to_string(),
                        };
                        o += ",";
                    }
                    o += &scalar_text(r, a, st);
                    o += &ows(r, st);
                    o += ":";
                    o += &ows(r, st);
                    o += &scalar_text(r, b, st);
                }
                o += &ows(r, st);
                o += "}";
            }
        }
        scalar => {
            o += &ws(r, st);
            o += &scalar_text(r, scalar, st);
        }
    }
    if let Some(l) = l {
        o += &ws(r, st);
        o += &int_text(r, i64::try_from(l).expect("lifetime too large for query text"), st);
        (o, false)
    } else {
        (o, true)
    }
}

/// Text of one statement; true if a semicolon must follow when another statement comes next
pub fn op_text(r: &mut Rng, op: &Op, st: Style) -> (String, bool) {
    let mut o = String::new();
    let mut semi = false;
    let kw = match op {
        Op::Get(_) => "get",
        Op::Set(..) => "set",
        Op::Update(..) => "upd",
        Op::Exists(_) => "ex",
        Op::Delete(_) => "del",
        Op::TryGet(_) => "try_get",
        Op::TrySet(..) => "try_set",
        Op::VGet(..) => "vget",
        Op::VSet(..) => "vset",
        Op::VPush(..) => "vpush",
        Op::VPop(_) => "vpop",
        Op::VLen(_) => "vlen",
        Op::MGet(..) => "mget",
        Op::MSet(..) => "mset",
        Op::MDel(..) => "mdel",
        Op::MLen(_) => "mlen",
        Op::MEx(..) => "mex",
        Op::Type(_) => "type",
        Op::Shutdown => "shutdown",
        Op::GetLifetime(_) | Op::SetLifetime(..) | Op::Expire | Op::Null => panic!("no text for {:?}", op),
    };
    o += &word(r, kw, st);
    if let Some(k) = op.key() {
        o += &ws(r, st);
        o += &word(r, k, st);
    }
    match op {
        Op::Set(_, v, l) | Op::Update(_, v, l) | Op::TrySet(_, v, l) => {
            let (t, s) = value_text(r, v, *l, st);
            o += &t;
            semi = s;
        }
        Op::VGet(_, i) => {
            o += &ws(r, st);
            o += &int_text(r, *i as i64, st);
        }
        Op::VSet(_, i, v) => {
            o += &ws(r, st);
            o += &int_text(r, *i as i64, st);
            o += &ws(r, st);
            o += &scalar_text(r, v, st);
        }
        Op::VPush(_, v) | Op::MGet(_, v) | Op::MDel(_, v) | Op::MEx(_, v) => {
            o += &ws(r, st);
            o += &scalar_text(r, v, st);
        }
        Op::MSet(_, a, b) => {
            o += &ws(r, st);
            o += &scalar_text(r, a, st);
            o += &ws(r, st);
            o += &scalar_text(r, b, st);
        }
        _ => (),
    }
    (o, semi)
}

/// Can this statement be written as text (operands included)?
pub fn has_text(op: &Op) -> bool {
    let null_with_lifetime = matches!(op, Op::Set(_, Val::Null, Some(_)) | Op::Update(_, Val::Null, Some(_)) | Op::TrySet(_, Val::Null, Some(_)));
    let ix_ok = match op {
        Op::VGet(_, i) | Op::VSet(_, i, _) => i64::try_from(*i).is_ok(),
        _ => true,
    };
    let keys_ok = match op {
        // the language only has integer and string map keys
        Op::MGet(_, k) | Op::MDel(_, k) | Op::MEx(_, k) | Op::MSet(_, k, _) => matches!(k, Val::Int(_) | Val::Str(_)),
        _ => true,
    };
    op.is_textual() && !null_with_lifetime && ix_ok && keys_ok && op.lifetime().map_or(true, |l| i64::try_from(l).is_ok())
}

/// Text of a whole request
pub fn render(r: &mut Rng, ops: &[Op], st: Style) -> String {
    let mut o = String::new();
    let wild = st == Style::Wild;
    if wild && r.pct(20) {
        o += &ws(r, st);
    }
    if wild && r.pct(10) {
        for _ in 0..r.range(1, 3) {
            o += ";";
            o += &ows(r, st);
        }
    }
    for (i, op) in ops.iter().enumerate() {
        let (t, semi) = op_text(r, op, st);
        o += &t;
        let last = i + 1 == ops.len();
        if !last {
            if semi || !wild || r.pct(60) {
                o += &ows(r, st);
                o += ";";
                if wild && r.pct(10) {
                    for _ in 0..r.range(1, 3) {
                        o += &ows(r, st);
                        o += ";";
                    }
                }
                o += if wild { if r.pct(50) { "" } else { " " } } else { " " };
            } else {
                o += &ws(r, st);
            }
        } else if wild {
            match r.below(5) {
                0 => o += ";",
                1 => {
                    o += &ws(r, st);
                }
                2 => {
                    o += &ows(r, st);
                    o += ";";
                    o += &ws(r, st);
                }
                _ => (),
            }
        }
    }
    o
}

/// Replace what cannot be written as text by something that can
pub fn textual(r: &mut Rng, op: Op) -> Op {
    if has_text(&op) {
        return op;
    }
    match op {
        Op::Set(k, Val::Null, _) => Op::Set(k, Val::Null, None),
        Op::Update(k, Val::Null, _) => Op::Update(k, Val::Null, None),
        Op::TrySet(k, Val::Null, _) => Op::TrySet(k, Val::Null, None),
        Op::VGet(k, i) => Op::VGet(k, i & 0xffff),
        Op::VSet(k, i, v) => Op::VSet(k, i & 0xffff, v),
        Op::MGet(k, _) => Op::MGet(k, Val::Int(1)),
        Op::MDel(k, _) => Op::MDel(k, Val::Int(1)),
        Op::MEx(k, _) => Op::MEx(k, Val::Int(1)),
        Op::MSet(k, _, v) => Op::MSet(k, Val::Int(1), v),
        Op::GetLifetime(k) => Op::Exists(k),
        Op::SetLifetime(k, _) => Op::Update(k, Val::Int(r.below(100) as i64), Some(r.range(5, 500) as u64)),
        Op::Expire | Op::Null => Op::Get("nothing_here".into()),
        Op::Set(k, v, _) => Op::Set(k, v, Some(7)),
        Op::Update(k, v, _) => Op::Update(k, v, Some(7)),
        Op::TrySet(k, v, _) => Op::TrySet(k, v, Some(7)),
        other => other,
    }
}
