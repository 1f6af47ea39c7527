//! Numbers and texts the code under test mentions, read from its sources: a bias for the workload generator, as
//! in dictionary-based fuzzing. They only decide which inputs are tried, never what is expected of them.

use crate::world;
use std::collections::HashSet;
use std::path::Path;
use std::sync::{Mutex, OnceLock};

pub struct Dict { pub ints: Vec<u32>, pub sizes: Vec<u64>, pub texts: Vec<Vec<char>>, pub new_ints: Vec<u32>, pub new_sizes: Vec<u64>, pub new_texts: Vec<Vec<char>> }

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { ints: vec![], sizes: vec![], texts: vec![], new_ints: vec![], new_sizes: vec![], new_texts: vec![] };
        let root = std::env::var("SIM_SOURCES").unwrap_or_else(|_| "/repo/src".to_string());
        let mut files = Vec::new();
        walk(Path::new(&root), &mut files, 0);
        files.sort();
        for f in files { if let Ok(s) = std::fs::read_to_string(&f) { scan(&s, &mut d); } }
        d.ints.sort(); d.ints.dedup();
        d.texts.sort(); d.texts.dedup();
        // What the code did not mention when the list beside this file was made deserves more attention.
        let (old_ints, old_texts) = base();
        d.new_ints = d.ints.iter().filter(|x| !old_ints.contains(*x)).cloned().collect();
        d.new_texts = d.texts.iter().filter(|x| !old_texts.contains(&x.iter().collect::<String>())).cloned().collect();
        d.new_sizes = d.new_ints.iter().filter(|x| **x > 330 && **x <= 100_000).map(|x| *x as u64).collect();
        // Thresholds worth crossing: everything beyond the range opcodes and enumerants live in.
        d.sizes = d.ints.iter().filter(|x| **x > 330 && **x <= 100_000).map(|x| *x as u64).collect();
        d
    })
}

static BASE: &str = include_str!("dict_base.txt");
fn base() -> (HashSet<u32>, HashSet<String>) {
    let (mut a, mut b) = (HashSet::new(), HashSet::new());
    for l in BASE.lines() {
        if let Some(t) = l.strip_prefix("t ") { b.insert(t.replace("\\n", "\n")); } else if let Ok(x) = l.parse() { a.insert(x); }
    }
    (a, b)
}
/// The list beside this file, for the present sources.
pub fn print() {
    let d = get();
    for x in &d.ints { println!("{}", x); }
    for t in &d.texts { println!("t {}", t.iter().collect::<String>().replace('\n', "\\n")); }
}

fn walk(p: &Path, out: &mut Vec<std::path::PathBuf>, depth: u32) {
    if depth > 8 { return; }
    if let Ok(es) = std::fs::read_dir(p) {
        for e in es.flatten() {
            let q = e.path();
            match e.file_type() { Ok(t) if t.is_dir() => walk(&q, out, depth + 1), Ok(t) if t.is_file() && q.extension().map_or(false, |x| x == "rs") => out.push(q), _ => {} }
        }
    }
}

fn scan(s: &str, d: &mut Dict) {
    let b = s.as_bytes();
    let mut i = 0;
    // (value, where it ends, operator seen since)
    let mut last: Option<(u64, u8)> = None;
    while i < b.len() {
        let c = b[i];
        if c == b'/' && b.get(i + 1) == Some(&b'/') { while i < b.len() && b[i] != b'\n' { i += 1; } continue; }
        if c == b'/' && b.get(i + 1) == Some(&b'*') { i += 2; while i + 1 < b.len() && !(b[i] == b'*' && b[i + 1] == b'/') { i += 1; } i += 2; continue; }
        if c == b'"' {
            let mut t = Vec::new();
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' && i + 1 < b.len() { i += 1; t.push(match b[i] { b'n' => b'\n', b't' => b'\t', b'r' => b'\r', x => x }); } else { t.push(b[i]); }
                i += 1;
            }
            i += 1;
            if let Ok(t) = String::from_utf8(t) { if !t.is_empty() && t.len() <= 80 && !t.contains('\0') && d.texts.len() < 5000 { d.texts.push(t.chars().collect()); } }
            last = None;
            continue;
        }
        if c == b'\'' {
            // A character, or a lifetime.
            if let Some(n) = s[i + 1..].chars().next() {
                let k = i + 1 + n.len_utf8();
                if n == '\\' { i += 3; while i < b.len() && b[i] != b'\'' { i += 1; } i += 1; continue; }
                if b.get(k) == Some(&b'\'') { if d.texts.len() < 5000 { d.texts.push(vec![n]); } i = k + 1; continue; }
            }
            i += 1;
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1; }
            last = None;
            continue;
        }
        if c.is_ascii_digit() {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1; }
            let t: String = s[st..i].chars().filter(|c| *c != '_').collect();
            if let Some(v) = number(&t) {
                push(d, v);
                if let Some((a, op)) = last {
                    match op { b'<' if v < 40 => push(d, a.checked_shl(v as u32).unwrap_or(0)), b'*' => push(d, a.saturating_mul(v)), b'+' => push(d, a.saturating_add(v)), b'-' => push(d, a.saturating_sub(v)), _ => {} }
                }
                last = Some((v, 0));
            } else { last = None; }
            continue;
        }
        match c {
            b' ' | b'\t' => {}
            b'<' if b.get(i + 1) == Some(&b'<') => { if let Some(ref mut l) = last { l.1 = b'<'; } i += 1; }
            b'*' | b'+' | b'-' => if let Some(ref mut l) = last { l.1 = c; },
            _ => last = None,
        }
        i += if c < 128 { 1 } else { s[i..].chars().next().map_or(1, |c| c.len_utf8()) };
    }
}

fn number(t: &str) -> Option<u64> {
    let (radix, t) = if let Some(x) = t.strip_prefix("0x") { (16, x) } else if let Some(x) = t.strip_prefix("0b") { (2, x) } else if let Some(x) = t.strip_prefix("0o") { (8, x) } else { (10, t) };
    let mut t = t;
    for s in ["u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize", "i8", "i16"] { if let Some(x) = t.strip_suffix(s) { t = x; break; } }
    u64::from_str_radix(t, radix).ok()
}
fn push(d: &mut Dict, v: u64) { if v <= u32::MAX as u64 && d.ints.len() < 50_000 { d.ints.push(v as u32); } }

/// One of `new` in half of the cases, if there are any; else one of `all`.
fn one<'a, T>(r: u64, all: &'a [T], new: &'a [T]) -> &'a T {
    let v = if r >> 63 == 1 && !new.is_empty() { new } else { all };
    &v[((r >> 8) % v.len() as u64) as usize]
}
fn upto<'a, T: Copy + Into<u64>>(v: &'a [T], max: u64) -> &'a [T] { &v[..v.iter().take_while(|x| (**x).into() <= max).count()] }

/// Names outlive the runs they were made for.
pub fn keep(t: String) -> &'static str {
    static S: OnceLock<Mutex<HashSet<&'static str>>> = OnceLock::new();
    let mut s = S.get_or_init(|| Mutex::new(HashSet::new())).lock().unwrap();
    if let Some(x) = s.get(&t[..]) { return x; }
    let x: &'static str = Box::leak(t.into_boxed_str());
    s.insert(x);
    x
}

/// A number the code mentions, or a neighbour.
pub fn int() -> u32 {
    world::draw_via(1 << 32, |r| {
        let d = get();
        if d.ints.is_empty() { return 0; }
        let x = *one(r, &d.ints, &d.new_ints);
        (match (r & 255) % 6 { 0 => x.wrapping_sub(1), 1 => x.wrapping_add(1), _ => x }) as u64
    }) as u32
}
/// A count around a threshold the code mentions, not above `max` or hardly.
pub fn size(max: u64) -> Option<u64> {
    let x = world::draw_via(1 << 32, |r| {
        let d = get();
        let v = upto(&d.sizes, max);
        if v.is_empty() { return 0; }
        let x = *one(r, v, upto(&d.new_sizes, max));
        match (r & 255) % 5 { 0 => x - 1, 1 => x, 2 => x + 1, 3 => x + 2, _ => x + (r & 255) / 6 }
    });
    if x == 0 { None } else { Some(x.min(max + 50)) }
}
/// A small count of the same kind.
pub fn small(max: u64) -> u64 {
    world::draw_via(max + 2, |r| {
        let d = get();
        let v = upto(&d.ints, max);
        if v.is_empty() { return r % (max + 1); }
        (*one(r, v, upto(&d.new_ints, max)) as u64 + (r & 255) % 3).saturating_sub(1)
    })
}
/// A text the code mentions. The tape holds its length and its characters.
pub fn text() -> Option<String> {
    let mut found: &[char] = &[];
    let n = world::draw_via(81, |r| {
        let d = get();
        if d.texts.is_empty() { return 0; }
        found = one(r, &d.texts, &d.new_texts);
        found.len() as u64
    });
    if n == 0 { return None; }
    Some((0..n as usize).map(|i| std::char::from_u32(world::draw_via(0x11_0000, |_| found[i] as u64) as u32).filter(|c| *c != '\0').unwrap_or('x')).collect())
}
