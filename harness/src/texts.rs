//! Texts for the parser: random statements, token soup and mutations.

use crate::gen;
use crate::model::Op;
use crate::rng::Rng;

pub fn gen_text_op(r: &mut Rng) -> Op {
    let k = gen::gen_key(r);
    let kind = r.below(23);
    let mut op = gen::op_of_kind(r, kind, &k);
    if let Op::Set(_, v, l) | Op::Update(_, v, l) | Op::TrySet(_, v, l) = &mut op {
        if r.pct(50) {
            *v = gen::gen_val(r, true);
        }
        if r.pct(30) {
            *l = Some(*r.pick(&[0, 1, 60, 3600, u32::MAX as u64, i64::MAX as u64]));
        }
    }
    gen::textual(r, op)
}

pub const SOUP: [&str; 84] = [
    "get", "set", "del", "ex", "upd", "lt", "try_get", "try_set", "none", "true", "false", "type", "vset", "vget", "vpop", "vpush",
    "vlen", "mex", "mget", "mset", "mdel", "mlen", "int", "float", "str", "bool", "vec", "map", "shutdown", "GET", "Set", "x", "k_1", "_",
    ";", "[", "]", ",", ":", "{", "}", "0", "1", "-1", "007", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
    "-9223372036854775809", "1.0", "-0.0", "1.", ".5", "-.5", "1e5", "1.0e39", "3.5e38", "1.0e-50", "-", "--1", "-.", "1.2.3", "0x10", "1_000",
    "\"\"", "\"a\"", "\"a;b\"", "\"\\n\"", "\"\\x\"", "\"open", "\"a\"b", "\\", "1a", "a-b", "é", "٣", "²", "½", "null", "nan", "inf", "1.nan",
    "[]", "{}",
];

pub fn soup_text(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        if i > 0 && !r.pct(15) {
            s.push_str(*r.pick(&[" ", " ", "  ", "\n", "\t"]));
        }
        s.push_str(*r.pick(&SOUP));
    }
    s
}

pub fn mutate(r: &mut Rng, text: &str) -> String {
    let mut cs: Vec<char> = text.chars().collect();
    for _ in 0..*r.pick(&[1usize, 1, 1, 2, 3, 6]) {
        let n = cs.len();
        match r.below(9) {
            0 if n > 0 => {
                cs.remove(r.below(n));
            }
            1 => {
                let c = *r.pick(&['"', '\\', ';', '[', ']', '{', '}', ':', ',', ' ', '-', '.', '0', '9', 'e', 'a', '_', '\n', '\u{0}', '#', '\'', '+', '(', '🦀', 'É', '\u{a0}', '\u{200b}', '\u{feff}']);
                cs.insert(r.below(n + 1), c);
            }
            2 if n > 1 => {
                let (a, b) = (r.below(n), r.below(n));
                cs.swap(a, b);
            }
            3 if n > 0 => cs.truncate(r.below(n)),
            4 if n > 0 => {
                let a = r.below(n);
                cs.drain(..a);
            }
            5 if n > 2 => {
                let a = r.below(n);
                let b = r.range(a, n - 1);
                cs.drain(a..=b.min(a + 12));
            }
            6 if n > 0 => {
                let a = r.below(n);
                let b = (a + r.range(1, 12)).min(n);
                let part: Vec<char> = cs[a..b].to_vec();
                let at = r.below(n + 1);
                for (i, c) in part.into_iter().enumerate() {
                    cs.insert(at + i, c);
                }
            }
            7 => {
                let t: Vec<char> = format!(" {} ", r.pick(&SOUP)).chars().collect();
                let at = r.below(n + 1);
                for (i, c) in t.into_iter().enumerate() {
                    cs.insert(at + i, c);
                }
            }
            _ if n > 0 => {
                let a = r.below(n);
                cs[a] = char::from_u32((r.next() % 0x3000) as u32).unwrap_or('?');
            }
            _ => (),
        }
    }
    cs.into_iter().collect()
}


/// Characters that mean something elsewhere
pub const FRINGE: &[char] = &['\0', '\u{feff}', '\u{a0}', '\u{1a}', '\u{7f}', '\u{2028}', '-', '#', '/', '*', '\\', '.', ',', '$', '%', '+', '\u{200b}', '\u{c}', '\u{b}', '\u{85}', '\u{3000}', ' ', '\t', '\r', '\n', '\'', '`', '<', '>'];

/// Something odd before or behind a text
pub fn fringed(r: &mut Rng, t: String, pct: usize) -> String {
    if !r.pct(pct) {
        return t;
    }
    let front = r.pct(45);
    let odd: String = match r.below(4) {
        // in front only what can be told from the text
        0 if !front => r.pick(&["--", "-- x", "//", "/* */", "\\n", "\r\n", "%20", "# x"]).to_string(),
        _ => (0..r.range(1, 2)).map(|_| *r.pick(FRINGE)).collect(),
    };
    let gap = if r.pct(30) { " " } else { "" };
    if front {
        format!("{}{}{}", odd, gap, t)
    } else {
        format!("{}{}{}", t, gap, odd)
    }
}
