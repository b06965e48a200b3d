//! Differential search and replay.  The real functions are reached through `glue`.
use crate::vp_glue as glue;
use crate::vp_oracle as oracle;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    fn pick<T: Copy>(&mut self, l: &[T]) -> T {
        l[self.below(l.len() as u64) as usize]
    }
    fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Case {
    /// modified?, k, pwd, salt, T, R, C
    Kdf(bool, u64, Vec<u8>, Vec<u8>, u64, u64, u64),
    Chain(String, Vec<u8>),
    Stage(String, Vec<u8>),
    Squeeze(bool, [u64; 16], u64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Bytes(Vec<u8>),
    Panic(String),
    Hang,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

impl Case {
    fn show(&self) -> String {
        match self {
            Case::Kdf(m, k, p, s, t, r, c) => {
                format!("fn={} k={} pwd={} salt={} T={} R={} C={}", if *m { "lyra2mod" } else { "lyra2" }, k, hex(p), hex(s), t, r, c)
            }
            Case::Chain(w, x) => format!("fn={} x={}", w, hex(x)),
            Case::Stage(w, x) => format!("fn={} x={}", w, hex(x)),
            Case::Squeeze(m, s, k) => format!(
                "fn={} state={} k={}",
                if *m { "squeeze_mod" } else { "squeeze" },
                s.iter().map(|w| format!("{:016x}", w)).collect::<Vec<_>>().join(","),
                k
            ),
        }
    }
    fn parse(s: &str) -> Option<Case> {
        let mut d: HashMap<&str, &str> = HashMap::new();
        for f in s.split_whitespace() {
            let (a, b) = f.split_once('=')?;
            d.insert(a, b);
        }
        let n = |x: &str| d.get(x).and_then(|v| v.parse::<u64>().ok());
        match *d.get("fn")? {
            f @ ("lyra2" | "lyra2mod") => {
                Some(Case::Kdf(f == "lyra2mod", n("k")?, unhex(d.get("pwd")?), unhex(d.get("salt")?), n("T")?, n("R")?, n("C")?))
            }
            f @ ("squeeze" | "squeeze_mod") => {
                let mut st = [0u64; 16];
                for (i, w) in d.get("state")?.split(',').enumerate() {
                    st[i] = u64::from_str_radix(w, 16).ok()?;
                }
                Some(Case::Squeeze(f == "squeeze_mod", st, n("k")?))
            }
            f @ ("bmw" | "cube") => Some(Case::Stage(f.to_string(), unhex(d.get("x")?))),
            f => Some(Case::Chain(f.to_string(), unhex(d.get("x")?))),
        }
    }
    fn real(&self) -> Out {
        let r = catch_unwind(AssertUnwindSafe(|| match self {
            Case::Kdf(m, k, p, s, t, r, c) => glue::kdf(*m, *k, p, s, *t, *r, *c),
            Case::Chain(w, x) => glue::chain(w, x),
            Case::Stage(w, x) => glue::stage(w, x),
            Case::Squeeze(m, s, k) => glue::squeeze(*m, *s, *k),
        }));
        match r {
            Ok(v) => Out::Bytes(v),
            Err(e) => Out::Panic(
                e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace(['\n', ' '], "_"),
            ),
        }
    }
    fn admissible(&self) -> bool {
        match self {
            Case::Kdf(_, _, p, s, t, r, c) => oracle::admissible(p.len(), s.len(), *t, *r, *c),
            Case::Chain(w, x) => !(w == "sum" || w == "summod") || x.len() <= 743,
            Case::Stage(w, x) => if w == "bmw" { x.len() <= 55 } else { x.len() == 32 },
            Case::Squeeze(..) => true,
        }
    }
    fn expect(&self) -> Option<Vec<u8>> {
        if !self.admissible() {
            return None;
        }
        Some(match self {
            Case::Kdf(m, k, p, s, t, r, c) => oracle::kdf(*m, *k, p, s, *t, *r, *c),
            Case::Chain(w, x) => oracle::chain(w, x),
            Case::Stage(w, x) => if w == "bmw" { oracle::bmw(x) } else { oracle::cubehash(x) },
            Case::Squeeze(_, s, k) => oracle::squeeze(*s, *k as usize),
        })
    }
}

// ------------------------------------------------------------------ generators
pub struct Hints {
    /// integer constants of the code under test, the unusual ones first (repeated)
    consts: Vec<u64>,
    cases: Vec<Case>,
    /// (k, P, SL, T, R, C) from the verifier's models
    params: Vec<[u64; 6]>,
    /// lengths of x from the verifier's models
    lens: Vec<u64>,
    /// largest parameter, as a power of two, that the wide cases reach
    wide: u64,
}

/// log-uniform up to 2^e, near powers of two and near multiples of the code's constants
fn logval(g: &mut Rng, h: &Hints, e: u64) -> u64 {
    let b = g.below(e + 1);
    let v = match g.below(5) {
        0 => near(g, 1 << b),
        1 => (1 << b) + g.below(1 << b),
        2 => 3 * (1 << b) / 2,
        _ => {
            let m = mined(g, h, 1 << e).unwrap_or(1 << b);
            let f = g.pick(&[1u64, 1, 2, 2, 3, 4, 8, 12, 64, 96]);
            let v = if g.one_in(4) { m / f } else { m.saturating_mul(f) };
            let d = g.pick(&[0u64, 0, 1, 2, 3, 8, 47, 48, 49, 64, 100]);
            if g.one_in(3) { v.saturating_sub(d) } else { v.saturating_add(d) }
        }
    };
    v.min(2 << e)
}

/// one parameter large, the others as small as that allows
fn wide_case(g: &mut Rng, h: &Hints, md: bool) -> Case {
    let e = if g.one_in(3) { h.wide } else { h.wide.min(13) };
    loop {
        let (mut k, mut p, mut s, mut t, mut r, mut c) = (g.pick(&[32u64, 32, 8, 1, 48, 96, 100]), g.below(40), g.below(40), 1 + g.below(2), 3 + g.below(6), 1 + g.below(3));
        match g.below(7) {
            0 => k = logval(g, h, e),
            1 => p = logval(g, h, e.min(18)),
            2 => s = logval(g, h, e.min(18)),
            3 => t = logval(g, h, e.min(17)),
            4 => r = logval(g, h, e),
            5 => c = logval(g, h, e.min(18)),
            _ => {
                r = logval(g, h, e / 2);
                c = logval(g, h, e / 2);
                t = logval(g, h, 3);
            }
        }
        if t == 0 || r < 3 || c == 0 || r.saturating_mul(c) > 2 << h.wide || t.saturating_mul(r).saturating_mul(c) > 4 << h.wide {
            continue;
        }
        if !oracle::fits(p as usize, s as usize, r, c) {
            // enlarge the matrix: just enough, or by some
            let need = (p + s + 48) / 64 * 8 + 8;
            if g.one_in(2) {
                r = (need + 12 * c - 1) / (12 * c) + g.below(3);
            } else {
                c = (need + 12 * r - 1) / (12 * r) + g.below(3);
            }
        }
        if oracle::admissible(p as usize, s as usize, t, r, c) {
            return Case::Kdf(md, k, content(g, h, p as usize), content(g, h, s as usize), t, r, c);
        }
    }
}

fn near(g: &mut Rng, v: u64) -> u64 {
    match g.below(6) {
        0 => v.wrapping_sub(1),
        1 => v.wrapping_add(1),
        _ => v,
    }
}

fn mined(g: &mut Rng, h: &Hints, max: u64) -> Option<u64> {
    for _ in 0..8 {
        if h.consts.is_empty() {
            return None;
        }
        let v = g.pick(&h.consts);
        let v = near(g, v);
        let v = if g.one_in(5) { v.wrapping_mul(g.pick(&[2u64, 3, 4, 8])) } else if g.one_in(12) { v / g.pick(&[2u64, 4, 8]) } else { v };
        if v <= max {
            return Some(v);
        }
    }
    None
}
fn length(g: &mut Rng, h: &Hints, max: u64) -> usize {
    let v = match g.below(10) {
        0 => g.below(12),
        1 => g.pick(&[15u64, 16, 17, 23, 24, 25, 31, 32, 33, 39, 40, 41, 47, 48, 49, 55, 56, 57, 63, 64, 65]),
        2 => 8 * g.below(32),
        3 => (8 * g.below(32)).wrapping_add(g.below(3)).wrapping_sub(1),
        4 => g.below(80),
        5 => g.below(300),
        6 => mined(g, h, max).unwrap_or(32),
        7 => 32,
        8 => g.below(64),
        _ => g.below(2000),
    };
    (v.min(max)) as usize
}

fn content(g: &mut Rng, h: &Hints, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    match g.below(9) {
        0 => {}
        1 => v.iter_mut().for_each(|x| *x = 0xff),
        2 => {
            let b = g.next() as u8;
            v.iter_mut().for_each(|x| *x = b)
        }
        3 => {
            // whole words taken from the code's constants and edge values
            let mut i = 0;
            while i < n {
                let w = match g.below(4) {
                    0 => g.pick(&[0u64, 1, u64::MAX, 1 << 63, 1 << 31, 0xffff_ffff, 1 << 32, 0x80, 1 << 56]),
                    1 => mined(g, h, u64::MAX).unwrap_or(0),
                    2 => g.below(256),
                    _ => g.next(),
                };
                for b in w.to_le_bytes() {
                    if i < n {
                        v[i] = b;
                    }
                    i += 1;
                }
            }
        }
        4 => {
            // random with one byte changed to an edge or mined value
            v.iter_mut().for_each(|x| *x = g.next() as u8);
            if n > 0 {
                let i = match g.below(3) {
                    0 => 0,
                    1 => n - 1,
                    _ => g.below(n as u64) as usize,
                };
                v[i] = match g.below(3) {
                    0 => 0,
                    1 => g.pick(&[0x80u8, 0xff, 0x7f, 1]),
                    _ => mined(g, h, 255).unwrap_or(0) as u8,
                };
            }
        }
        5 => {
            // trailing zeros
            v.iter_mut().for_each(|x| *x = g.next() as u8);
            let z = g.below(n as u64 + 1) as usize;
            v[n - z..].iter_mut().for_each(|x| *x = 0);
        }
        6 => v.iter_mut().for_each(|x| *x = 0x20 + (g.below(0x5f) as u8)),
        _ => v.iter_mut().for_each(|x| *x = g.next() as u8),
    }
    v
}

fn keylen(g: &mut Rng, h: &Hints) -> u64 {
    match g.below(8) {
        0 => g.below(17),
        1 => g.pick(&[31u64, 32, 33, 47, 48, 49, 63, 64, 65, 94, 95, 96, 97, 98, 100, 127, 128, 191, 192, 193, 200, 287, 288, 289]),
        2 => g.below(96),
        3 => g.below(600),
        4 => mined(g, h, 20000).unwrap_or(32),
        5 => 8 * g.below(40),
        6 => 96 * g.below(12) + g.below(3),
        _ => 32,
    }
}

fn kdf_case(g: &mut Rng, h: &Hints, md: bool, cap: u64) -> Case {
    if !h.params.is_empty() && g.one_in(8) {
        let i = g.below(h.params.len() as u64) as usize;
        let mut p = h.params[i];
        if g.one_in(2) {
            let j = g.below(6) as usize;
            p[j] = near(g, p[j]);
        }
        if p[1] < 1 << 20 && p[2] < 1 << 20 && p[0] < 1 << 20 && p[3].saturating_mul(p[4]).saturating_mul(p[5]) < cap * 16 && oracle::admissible(p[1] as usize, p[2] as usize, p[3], p[4], p[5]) {
            return Case::Kdf(md, p[0], content(g, h, p[1] as usize), content(g, h, p[2] as usize), p[3], p[4], p[5]);
        }
    }
    let simple = g.below(4);
    loop {
        let mut t = match g.below(9) {
            0 => 2,
            1 => 3,
            2 => g.pick(&[4u64, 5, 8]),
            3 => 1 + g.below(20),
            4 => mined(g, h, 400).unwrap_or(1),
            5 => 2 + g.below(4),
            _ => 1,
        };
        let mut r = match g.below(9) {
            0 => 3,
            1 => 4,
            2 => 8,
            3 => 3 + g.below(16),
            4 => g.pick(&[15u64, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
            5 => 3 + g.below(150),
            6 => mined(g, h, 4096).unwrap_or(4),
            7 => 1 << (2 + g.below(7)),
            _ => 3 + g.below(40),
        };
        let mut c = match g.below(8) {
            0 => 1,
            1 => 2,
            2 => 4,
            3 => 8,
            4 => 1 + g.below(40),
            5 => mined(g, h, 4096).unwrap_or(4),
            6 => g.pick(&[1u64, 15, 16, 17, 31, 32, 33, 64, 100, 256]),
            _ => 1 + g.below(6),
        };
        // often only one parameter away from the ones the hashes use
        match simple {
            0 => {
                let keep = g.below(4);
                if keep != 0 {
                    t = 1
                }
                if keep != 1 {
                    r = 4
                }
                if keep != 2 {
                    c = 4
                }
            }
            1 => {
                t = t.min(3);
                r = r.min(12);
                c = c.min(8);
            }
            _ => {}
        }
        if t == 0 || r < 3 || c == 0 || t.saturating_mul(r).saturating_mul(c) > cap {
            if !g.one_in(64) || t.saturating_mul(r).saturating_mul(c) > cap * 16 {
                continue;
            }
        }
        let k = keylen(g, h);
        let p = length(g, h, 5000);
        let s = if g.one_in(4) { p } else { length(g, h, 5000) };
        if !oracle::admissible(p, s, t, r, c) {
            continue;
        }
        let pwd = content(g, h, p);
        let salt = if p == s && g.one_in(2) { pwd.clone() } else { content(g, h, s) };
        return Case::Kdf(md, k, pwd, salt, t, r, c);
    }
}

fn invalid_case(g: &mut Rng, h: &Hints, md: bool) -> Case {
    if let Case::Kdf(m, k, mut p, mut s, mut t, mut r, mut c) = kdf_case(g, h, md, 4000) {
        match g.below(4) {
            0 => {
                t = 0;
                if g.one_in(4) {
                    r = g.below(5);
                }
            }
            1 => {
                r = g.below(3);
                if g.one_in(3) {
                    t = g.below(3);
                }
                if g.one_in(3) {
                    c = g.pick(&[0, 1, 2, 8, 100, 1000]);
                }
            }
            2 => {
                c = 0;
            }
            _ => {
                // just too long, or much too long
                r = 3 + g.below(6);
                c = 1 + g.below(4);
                let room = 12 * r * c / 8 * 64; // bytes of blocks that fit
                let total = match g.below(4) {
                    0 => room - 48,
                    1 => room - 48 + g.below(80),
                    2 => room + g.below(40),
                    _ => room + g.below(3 * room),
                };
                let a = match g.below(3) {
                    0 => 0,
                    1 => total,
                    _ => g.below(total + 1),
                };
                p = content(g, h, a as usize);
                s = content(g, h, (total - a) as usize);
                if oracle::fits(p.len(), s.len(), r, c) {
                    t = 0;
                }
            }
        }
        Case::Kdf(m, k, p, s, t, r, c)
    } else {
        unreachable!()
    }
}

fn chain_case(g: &mut Rng, h: &Hints, w: &str) -> Case {
    let max = if w == "sum" || w == "summod" { 743 } else { 5000 };
    let n = if max > 743 && g.one_in(if h.wide > 14 { 12 } else { 60 }) {
        let e = if g.one_in(3) { h.wide + 1 } else { h.wide.min(16) };
        logval(g, h, e) as usize
    } else if !h.lens.is_empty() && g.one_in(6) {
        let i = g.below(h.lens.len() as u64) as usize;
        near(g, h.lens[i]).min(max) as usize
    } else if max == 743 && g.one_in(3) {
        g.below(744) as usize
    } else {
        length(g, h, max)
    };
    Case::Chain(w.to_string(), content(g, h, n))
}

fn stage_case(g: &mut Rng, h: &Hints, w: &str) -> Case {
    let n = if w == "cube" {
        32
    } else if g.one_in(2) {
        32
    } else {
        g.below(56) as usize
    };
    let mut v = content(g, h, n);
    if g.one_in(3) {
        // 32-bit words equal to edge values, constants of the code, or constants xor-ed with them
        let mut i = 0;
        while i + 4 <= n {
            let x = match g.below(5) {
                0 => g.pick(&[0u32, 1, 2, 3, u32::MAX, 1 << 31, 0x7fff_ffff, 0x80]),
                1 => mined(g, h, u32::MAX as u64).unwrap_or(0) as u32,
                2 => (mined(g, h, u32::MAX as u64).unwrap_or(0) as u32) ^ g.pick(&[0u32, 1, u32::MAX, 1 << 31]),
                3 => 0x40414243u32.wrapping_add(0x04040404u32.wrapping_mul((i / 4) as u32)) ^ g.pick(&[0u32, 1, u32::MAX, 1 << 31]),
                _ => g.next() as u32,
            };
            v[i..i + 4].copy_from_slice(&x.to_le_bytes());
            i += 4;
        }
    }
    Case::Stage(w.to_string(), v)
}

fn squeeze_case(g: &mut Rng, h: &Hints, md: bool) -> Case {
    let mut s = [0u64; 16];
    for x in s.iter_mut() {
        *x = match g.below(6) {
            0 => 0,
            1 => u64::MAX,
            2 => mined(g, h, u64::MAX).unwrap_or(0),
            _ => g.next(),
        };
    }
    Case::Squeeze(md, s, keylen(g, h))
}

// ------------------------------------------------------------------ properties
/// a violation: what was run, what came out, what should have
pub struct Found {
    case: Case,
    got: Out,
    want: String,
}

fn show_out(o: &Out) -> String {
    match o {
        Out::Bytes(b) => hex(b),
        Out::Panic(m) => format!("panic:{}", m),
        Out::Hang => "does-not-return".to_string(),
    }
}

fn gen(prop: &str, g: &mut Rng, h: &Hints) -> Case {
    if !h.cases.is_empty() && g.one_in(50) {
        let i = g.below(h.cases.len() as u64) as usize;
        return h.cases[i].clone();
    }
    let md = match prop {
        "C01" => false,
        "C13" => true,
        _ => glue::HAVE_MOD && g.one_in(2),
    };
    if matches!(prop, "C01" | "C10" | "C13" | "C08") && (prop != "C13" || glue::HAVE_MOD) && g.one_in(if h.wide > 14 { 4 } else { 40 }) {
        let c = wide_case(g, h, md);
        if prop == "C08" && g.one_in(2) {
            if let Case::Kdf(m, _, p, s, t, r, cc) = c {
                return Case::Kdf(m, logval(g, h, h.wide), p, s, t, r, cc);
            }
        }
        return c;
    }
    let cap = match g.below(40) {
        0 => 40000,
        1..=8 => 4000,
        _ => 400,
    };
    match prop {
        "C01" | "C10" => kdf_case(g, h, md, cap),
        "C13" => {
            if glue::HAVE_MOD && !g.one_in(8) {
                kdf_case(g, h, true, cap)
            } else {
                chain_case(g, h, "rev3")
            }
        }
        "C02" => chain_case(g, h, "sum"),
        "C03" => chain_case(g, h, "z"),
        "C04" => chain_case(g, h, "re"),
        "C05" => chain_case(g, h, "rev2"),
        "C06" => chain_case(g, h, "rev3"),
        "C07" => {
            let w = g.pick(&["z", "re", "rev2", "rev3", "re", "rev2", "rev3"]);
            chain_case(g, h, w)
        }
        "C08" => {
            let i = md as usize;
            if glue::HAVE_SQUEEZE[i] && g.one_in(2) {
                squeeze_case(g, h, md)
            } else {
                match kdf_case(g, h, md, 200) {
                    Case::Kdf(m, _, p, s, t, r, c) => Case::Kdf(m, keylen(g, h), p, s, t, r, c),
                    x => x,
                }
            }
        }
        "C09" => invalid_case(g, h, md),
        "C11" => if glue::HAVE_CUBE { stage_case(g, h, "cube") } else { chain_case(g, h, "rev2") },
        "C12" => if glue::HAVE_BMW { stage_case(g, h, "bmw") } else { chain_case(g, h, "rev2") },
        _ => unreachable!(),
    }
}

/// does the outcome of the real code on `c` break `prop`?
fn judge(prop: &str, c: &Case, got: &Out, want: &Option<Vec<u8>>) -> Option<String> {
    match prop {
        "C09" => match got {
            Out::Bytes(_) => Some("panic (invalid parameters never yield a key)".to_string()),
            Out::Hang => Some("panic".to_string()),
            _ => None,
        },
        "C07" => match got {
            Out::Bytes(b) if b.len() == 32 => None,
            _ => Some("32 bytes".to_string()),
        },
        "C10" => match got {
            Out::Bytes(_) => None,
            _ => Some("returns".to_string()),
        },
        "C08" => {
            let w = want.as_ref().unwrap();
            match got {
                Out::Bytes(b) if b.len() != w.len() => Some(format!("{} bytes", w.len())),
                Out::Bytes(b) if b != w => {
                    if let Case::Kdf(m, k, p, s, t, r, cc) = c {
                        // a wrong final state is not this property's business: the call is
                        // judged only if shorter keys of the same call are right
                        for k2 in [8u64, 32, 16] {
                            if k2 != *k {
                                let c2 = Case::Kdf(*m, k2, p.clone(), s.clone(), *t, *r, *cc);
                                if c2.real() == Out::Bytes(c2.expect().unwrap()) {
                                    return Some(hex(w));
                                }
                            }
                        }
                        None
                    } else {
                        Some(hex(w))
                    }
                }
                Out::Bytes(_) => None,
                _ => {
                    if let Case::Kdf(m, _, p, s, t, r, cc) = c {
                        let c2 = Case::Kdf(*m, 32, p.clone(), s.clone(), *t, *r, *cc);
                        if !matches!(c2.real(), Out::Bytes(_)) {
                            return None;
                        }
                    }
                    Some(hex(w))
                }
            }
        }
        _ => {
            let w = want.as_ref().unwrap();
            match got {
                Out::Bytes(b) if b == w => None,
                _ => Some(hex(w)),
            }
        }
    }
}
struct Slot {
    cur: Mutex<Option<(String, Instant, Duration, Case)>>,
}

fn report(prop: &str, f: &Found, n: u64) {
    println!("FOUND property={} cases={}\nCASE {}\nGOT {}\nWANT {}", prop, n, f.case.show(), show_out(&f.got), f.want);
}

fn search(prop: &str, seed: u64, secs: f64, threads: usize, h: Hints) -> i32 {
    let h = Arc::new(h);
    let stop = Arc::new(AtomicBool::new(false));
    let count = Arc::new(AtomicU64::new(0));
    let found: Arc<Mutex<Option<Found>>> = Arc::new(Mutex::new(None));
    let slots: Arc<Vec<Slot>> = Arc::new((0..threads).map(|_| Slot { cur: Mutex::new(None) }).collect());
    let start = Instant::now();
    let hlog = std::env::var("HLOG").ok();
    let first: Vec<Case> = h.cases.clone();
    for th in 0..threads {
        let (h, stop, count, found, slots) = (h.clone(), stop.clone(), count.clone(), found.clone(), slots.clone());
        let prop = prop.to_string();
        let hlog = hlog.clone();
        let first = first.clone();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let mut g = Rng(seed.wrapping_mul(0x2545f4914f6cdd1d).wrapping_add(th as u64 * 0x1234567));
                let mut i = 0usize;
                while !stop.load(Ordering::Relaxed) {
                    let c = if i < first.len() { first[i].clone() } else { gen(&prop, &mut g, &h) };
                    i += 1;
                    let t0 = Instant::now();
                    let want = if prop == "C09" || prop == "C07" || (prop == "C10" && !g.one_in(4)) { None } else { c.expect() };
                    if prop != "C09" && !c.admissible() || prop == "C09" && c.admissible() {
                        continue;
                    }
                    let el = t0.elapsed();
                    if let Some(l) = &hlog {
                        let _ = std::fs::write(format!("{}.{}", l, th), c.show());
                    }
                    *slots[th].cur.lock().unwrap() = Some((prop.clone(), Instant::now(), el, c.clone()));
                    let got = c.real();
                    let bad = judge(&prop, &c, &got, &want);
                    *slots[th].cur.lock().unwrap() = None;
                    count.fetch_add(1, Ordering::Relaxed);
                    if let Some(w) = bad {
                        let mut f = found.lock().unwrap();
                        if f.is_none() {
                            *f = Some(Found { case: c, got, want: w });
                        }
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            })
            .unwrap();
    }
    loop {
        std::thread::sleep(Duration::from_millis(20));
        let n = count.load(Ordering::Relaxed);
        if let Some(f) = found.lock().unwrap().as_ref() {
            report(prop, f, n);
            return 1;
        }
        for s in slots.iter() {
            if let Some((_, t, el, c)) = s.cur.lock().unwrap().as_ref() {
                if t.elapsed() > Duration::from_secs(20) + *el * 100 {
                    // nothing the generator makes takes this long
                    let f = Found { case: c.clone(), got: Out::Hang, want: match c.expect() { Some(w) => hex(&w), None => "panic".into() } };
                    report(prop, &f, n);
                    return 1;
                }
            }
        }
        if start.elapsed().as_secs_f64() > secs {
            let busy = slots.iter().any(|s| s.cur.lock().unwrap().as_ref().map_or(false, |x| x.1.elapsed() > Duration::from_secs(3)));
            if busy && start.elapsed().as_secs_f64() < secs + 40.0 {
                continue;
            }
            println!("NONE property={} cases={}", prop, n);
            return 0;
        }
    }
}

// ------------------------------------------------------------------ C15: argument binding
fn known_tail(a: &Case, b: &Case) -> bool {
    // bytes after the last whole word of pwd / salt are not absorbed (known finding)
    if let (Case::Kdf(_, k, p, s, t, r, c), Case::Kdf(_, k2, p2, s2, t2, r2, c2)) = (a, b) {
        return k == k2 && t == t2 && r == r2 && c == c2 && p.len() == p2.len() && s.len() == s2.len()
            && p[..p.len() / 8 * 8] == p2[..p.len() / 8 * 8] && s[..s.len() / 8 * 8] == s2[..s.len() / 8 * 8];
    }
    false
}

fn mutate(g: &mut Rng, h: &Hints, a: &Case) -> Case {
    let Case::Kdf(m, mut k, mut p, mut s, mut t, mut r, mut c) = a.clone() else { unreachable!() };
    match g.below(17) {
        14 | 15 => k += 1 << (3 + g.below(h.wide)),
        16 if p.len() >= 8 => {
            // move a power of two of bytes
            let b = 63 - (p.len() as u64).leading_zeros() as u64;
            let n = 1usize << if g.one_in(2) { b } else { g.below(b + 1) };
            let mut tail = p.split_off(p.len() - n);
            tail.extend_from_slice(&s);
            s = tail;
        }
        0 if !p.is_empty() => {
            let i = g.below(p.len() as u64) as usize;
            p[i] ^= 1 << g.below(8);
        }
        1 if !s.is_empty() => {
            let i = g.below(s.len() as u64) as usize;
            s[i] ^= 1 << g.below(8);
        }
        2 => p.push(if g.one_in(2) { 0 } else { g.next() as u8 }),
        3 => s.push(if g.one_in(2) { 0 } else { g.next() as u8 }),
        4 if !p.is_empty() => {
            let b = p.pop().unwrap();
            s.insert(0, b);
        }
        5 if !s.is_empty() => {
            let b = s.remove(0);
            p.push(b);
        }
        6 => std::mem::swap(&mut p, &mut s),
        7 => k += g.pick(&[1u64, 8, 64, 96, 100]),
        8 => t += g.pick(&[1u64, 2]),
        9 => r += g.pick(&[1u64, 2, 4]),
        10 => c += g.pick(&[1u64, 2]),
        11 if p.len() >= 8 => {
            // move whole words
            let n = 8 * (1 + g.below(p.len() as u64 / 8)) as usize;
            let cut = p.len() - n;
            let mut tail = p.split_off(cut);
            tail.extend_from_slice(&s);
            s = tail;
        }
        12 => {
            let n = length(g, h, 200);
            p = content(g, h, n);
        }
        13 => {
            for _ in 0..8 {
                s.push(0);
            }
        }
        _ => std::mem::swap(&mut r, &mut c),
    }
    Case::Kdf(m, k, p, s, t, r, c)
}

fn collide(seed: u64, secs: f64, threads: usize, h: Hints) -> i32 {
    let h = Arc::new(h);
    let stop = Arc::new(AtomicBool::new(false));
    let count = Arc::new(AtomicU64::new(0));
    let known = Arc::new(AtomicU64::new(0));
    let found: Arc<Mutex<Option<(Case, Case, String)>>> = Arc::new(Mutex::new(None));
    for th in 0..threads {
        let (h, stop, count, found, known) = (h.clone(), stop.clone(), count.clone(), found.clone(), known.clone());
        std::thread::spawn(move || {
            let mut g = Rng(seed.wrapping_mul(0x2545f4914f6cdd1d).wrapping_add(th as u64 * 0x7654321));
            while !stop.load(Ordering::Relaxed) {
                let md = glue::HAVE_MOD && g.one_in(2);
                let base = if g.one_in(if h.wide > 14 { 6 } else { 40 }) { wide_case(&mut g, &h, md) } else { kdf_case(&mut g, &h, md, 200) };
                let a = match base {
                    Case::Kdf(m, k, p, s, t, r, c) => Case::Kdf(m, k.max(16), p, s, t, r, c),
                    x => x,
                };
                let b = mutate(&mut g, &h, &a);
                if a == b || !a.admissible() || !b.admissible() {
                    continue;
                }
                if let (Out::Bytes(x), Out::Bytes(y)) = (a.real(), b.real()) {
                    count.fetch_add(1, Ordering::Relaxed);
                    let n = x.len().min(y.len());
                    if n >= 16 && x[..n] == y[..n] {
                        if known_tail(&a, &b) {
                            known.fetch_add(1, Ordering::Relaxed);
                            continue;
                        }
                        *found.lock().unwrap() = Some((a, b, hex(&x[..n])));
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            }
        });
    }
    let start = Instant::now();
    loop {
        std::thread::sleep(Duration::from_millis(20));
        let n = count.load(Ordering::Relaxed);
        if let Some((a, b, k)) = found.lock().unwrap().as_ref() {
            println!("FOUND property=C15 cases={}\nCASE {}\nCASE2 {}\nGOT same key {}\nWANT different keys", n, a.show(), b.show(), k);
            return 1;
        }
        if start.elapsed().as_secs_f64() > secs {
            println!("NONE property=C15 cases={} known={}", n, known.load(Ordering::Relaxed));
            return 0;
        }
    }
}

// ------------------------------------------------------------------ C14: histories
fn history_cases(seed: u64, n: usize, h: &Hints) -> Vec<Case> {
    let mut g = Rng(seed ^ 0xc14);
    let mut v: Vec<Case> = vec![];
    while v.len() < n {
        let w = g.pick(&["sum", "z", "re", "rev2", "rev3"]);
        let c = match g.below(10) {
            0..=3 => chain_case(&mut g, h, w),
            4 => {
                let md = glue::HAVE_MOD && g.one_in(2);
                invalid_case(&mut g, h, md)
            }
            5 if !v.is_empty() => {
                // a near copy of an earlier call
                let i = g.below(v.len() as u64) as usize;
                match v[i].clone() {
                    x @ Case::Kdf(..) => mutate(&mut g, h, &x),
                    Case::Chain(w, mut x) => {
                        if !x.is_empty() {
                            let i = g.below(x.len() as u64) as usize;
                            x[i] ^= 1 << g.below(8);
                        }
                        Case::Chain(w, x)
                    }
                    x => x,
                }
            }
            6 if glue::HAVE_BMW => stage_case(&mut g, h, "bmw"),
            7 if glue::HAVE_CUBE => stage_case(&mut g, h, "cube"),
            _ => {
                let md = glue::HAVE_MOD && g.one_in(2);
                kdf_case(&mut g, h, md, 400)
            }
        };
        // only calls whose cost is bounded
        if let Case::Kdf(_, k, p, s, t, r, c) = &c {
            if *k > 5000 || p.len() + s.len() > 20000 || t.saturating_mul(*r).saturating_mul(*c) > 20000 {
                continue;
            }
        }
        v.push(c);
    }
    v
}

fn digest_out(o: &Out) -> String {
    match o {
        Out::Bytes(b) => {
            let mut x = 0xcbf29ce484222325u64;
            for y in b {
                x = (x ^ *y as u64).wrapping_mul(0x100000001b3);
            }
            format!("{}:{:016x}", b.len(), x)
        }
        Out::Panic(_) => "panic".into(),
        Out::Hang => "hang".into(),
    }
}

fn history(seed: u64, n: usize, order: &str, h: &Hints) -> i32 {
    let cases = history_cases(seed, n, h);
    let (mode, arg) = order.split_once(':').unwrap_or((order, "0"));
    let a: u64 = arg.parse().unwrap_or(0);
    let mut g = Rng(a ^ 0x0dde);
    match mode {
        "one" => println!("R {} {}", a, digest_out(&cases[a as usize].real())),
        "seq" | "perm" => {
            let mut ix: Vec<usize> = (0..cases.len()).collect();
            if mode == "perm" {
                for i in (1..ix.len()).rev() {
                    ix.swap(i, g.below(i as u64 + 1) as usize);
                }
                // repeats
                for _ in 0..cases.len() {
                    let j = g.below(cases.len() as u64) as usize;
                    let at = g.below(ix.len() as u64) as usize;
                    ix.insert(at, j);
                }
            }
            for (pos, i) in ix.iter().enumerate() {
                println!("R {} {} {}", i, digest_out(&cases[*i].real()), pos);
            }
        }
        _ => {
            let cases = Arc::new(cases);
            let hs: Vec<_> = (0..8u64)
                .map(|t| {
                    let cases = cases.clone();
                    std::thread::spawn(move || {
                        let mut g = Rng(a * 100 + t);
                        let mut out = vec![];
                        for _ in 0..cases.len() {
                            let j = g.below(cases.len() as u64) as usize;
                            out.push((j, digest_out(&cases[j].real())));
                        }
                        out
                    })
                })
                .collect();
            for t in hs {
                for (j, d) in t.join().unwrap() {
                    println!("R {} {}", j, d);
                }
            }
        }
    }
    0
}

fn selftest() -> i32 {
    // the oracle on published vectors
    let t = |w: &str, s: &str| hex(&oracle::chain(w, s.as_bytes()));
    let v = [
        (t("re", "abc"), "07d3fe93103f6ad4284ad389d4b0a80334c94f5ffd0a537dfc935b3625552317"),
        (t("rev3", "abc"), "4e445087e28d294b3074e98fee860fb73d248a63150ea2d42bfeddd21c0b89ef"),
    ];
    for (a, b) in v {
        if a != b {
            println!("BAD oracle {} {}", a, b);
            return 1;
        }
    }
    println!("OK");
    0
}

fn hints(path: &str) -> Hints {
    let mut h = Hints { consts: vec![], cases: vec![], params: vec![], lens: vec![], wide: 13 };
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let f: Vec<&str> = l.splitn(2, ' ').collect();
        if f.len() < 2 {
            continue;
        }
        match f[0] {
            "const" => h.consts.extend(f[1].split(' ').filter_map(|x| x.parse::<u64>().ok())),
            "case" => h.cases.extend(Case::parse(f[1])),
            "wide" => h.wide = f[1].trim().parse().unwrap_or(13),
            "len" => h.lens.extend(f[1].split(' ').filter_map(|x| x.parse::<u64>().ok())),
            "param" => {
                let v: Vec<u64> = f[1].split(' ').filter_map(|x| x.parse().ok()).collect();
                if v.len() == 6 {
                    h.params.push([v[0], v[1], v[2], v[3], v[4], v[5]]);
                }
            }
            _ => {}
        }
    }
    h
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let r = match a[1].as_str() {
        "search" => {
            let (seed, secs, th) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
            let h = hints(&a[6]);
            if a[2] == "C15" {
                collide(seed, secs, th, h)
            } else {
                search(&a[2], seed, secs, th, h)
            }
        }
        "history" => history(a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4], &hints(&a[5])),
        "casenr" => {
            println!("{}", history_cases(a[2].parse().unwrap(), a[3].parse().unwrap(), &hints(&a[5]))[a[4].parse::<usize>().unwrap()].show());
            0
        }
        "run" => {
            // run one case: real code and oracle
            let c = Case::parse(&a[2..].join(" ")).expect("case");
            println!("GOT {}", show_out(&c.real()));
            println!("WANT {}", c.expect().map_or("panic".to_string(), |w| hex(&w)));
            0
        }
        "oracle" => {
            let c = Case::parse(&a[2..].join(" ")).expect("case");
            println!("WANT {}", c.expect().map_or("panic".to_string(), |w| hex(&w)));
            0
        }
        "selftest" => selftest(),
        _ => 2,
    };
    std::process::exit(r);
}
