//! Notation: layout, comments, documentation, order of items, raw identifiers and the notation of numbers do not change
//! what a program means; text literals are their bytes.
use super::{comb, generic, linear, seq};
use crate::bv::Bv;
use crate::pgen::Cfg;
use crate::runner::*;
use crate::spadec::Opts;
use crate::tape::{self, Gen};
use num::{BigUint, Num};
use serde_json::json;

const OPS: [&str; 21] = [">>>", ">>.", "<<.", "=>", "->", "<=", ">=", "==", "!=", "&&", "||", "^^", "::", "..", "+.", "-.", "*.", ">>", "<<", "$(", "#["];

/// the tokens of a program, without blanks and comments
pub fn tokens(src: &str) -> Vec<String> {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut out: Vec<String> = vec![];
    let word = |c: char| c.is_alphanumeric() || c == '_';
    while i < c.len() {
        let rest = |k: usize| c.get(i + k).copied().unwrap_or(' ');
        if c[i].is_whitespace() {
            i += 1;
            continue;
        }
        if c[i] == '/' && rest(1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            continue;
        }
        let start = i;
        if c[i] == '"' || (c[i] == 'b' && rest(1) == '"') {
            i += if c[i] == 'b' { 2 } else { 1 };
            while i < c.len() && c[i] != '"' {
                i += if c[i] == '\\' { 2 } else { 1 };
            }
            i += 1;
        } else if c[i] == '\'' || c[i] == '@' && word(rest(1)) {
            i += 1;
            while i < c.len() && word(c[i]) {
                i += 1;
            }
        } else if word(c[i]) {
            while i < c.len() && (word(c[i]) || c[i] == '#' && i == start + 1 && c[start] == 'r') {
                i += 1;
            }
        } else {
            let n = OPS.iter().find(|o| o.chars().enumerate().all(|(k, x)| rest(k) == x)).map_or(1, |o| o.len());
            i += n;
        }
        i = i.min(c.len());
        out.push(c[start..i].iter().collect());
    }
    out
}

pub const KEYWORDS: [&str; 46] = [
    "true", "false", "LOW", "HIGH", "HIGHIMP", "reg", "let", "decl", "inst", "reset", "initial", "if", "else", "match", "set", "pipeline", "stage", "entity", "trait", "impl", "for", "macro", "fn", "enum", "struct", "wire", "mod",
    "type", "use", "as", "assert", "mut", "inv", "pub", "where", "gen", "extern", "unsafe", "self", "lib", "super", "Self", "valid", "ready", "port", "_",
];

pub fn noise(g: &mut Gen) -> String {
    const PARTS: [&str; 24] = ["\"", "'", "b\"", "b'", "\\", "%", "`", "{", "}", "(", "$", "@", "é", "→", "//", "///", "0x", "fn f", ";", "1", "x ", "#[", "*", "/ "];
    (0..g.usize(0, 4)).map(|_| *g.pick(&PARTS)).collect()
}
pub fn block(g: &mut Gen, depth: usize) -> String {
    // what is inside must not end or open a comment
    let clean = |s: String| s.replace("*/", "* /").replace("/*", "/ *");
    let mut s = clean(noise(g));
    if depth > 0 && g.chance(1, 4) {
        s = format!("{s} {} {}", block(g, depth - 1), clean(noise(g)));
    }
    // no accidental `*/` or `/*` at the seams
    format!("/* {s} */")
}

#[derive(Clone, Copy, Default)]
pub struct Ways {
    pub blanks: bool,
    pub comments: bool,
    pub docs: bool,
    pub order: bool,
    pub raw: bool,
    pub numbers: bool,
}

fn number(g: &mut Gen, t: &str) -> Option<String> {
    let low = t.to_ascii_lowercase();
    if low.starts_with("0x") || low.starts_with("0b") || low.starts_with("0o") {
        return None;
    }
    let cut = t.find(['u', 'i', 'U', 'I']).unwrap_or(t.len());
    let (v, suffix) = t.split_at(cut);
    let v = BigUint::from_str_radix(&v.replace('_', ""), 10).ok()?;
    let (pre, radix) = *g.pick(&[("", 10), ("0x", 16), ("0b", 2), ("0o", 8)]);
    let mut digits = v.to_str_radix(radix);
    if radix == 16 && g.bool() {
        digits = digits.to_uppercase();
    }
    if g.chance(1, 4) {
        digits = format!("00{digits}");
    }
    let mut d = String::new();
    for (i, c) in digits.chars().enumerate() {
        d.push(c);
        // not between the leading zero and the letter of a radix
        if i > 0 && g.chance(1, 6) {
            d.push('_');
        }
    }
    let suffix = if g.chance(1, 4) { suffix.to_uppercase() } else { suffix.to_string() };
    Some(format!("{pre}{d}{suffix}"))
}

const ITEM_STARTS: [&str; 15] = ["fn", "entity", "pipeline", "struct", "enum", "impl", "trait", "mod", "use", "type", "extern", "pub", "#[", "const", "pub(lib)"];

pub fn rewrite(g: &mut Gen, src: &str, w: Ways) -> String {
    let toks = tokens(src);
    // items
    let mut items: Vec<Vec<String>> = vec![vec![]];
    let mut depth = 0i32;
    for (i, t) in toks.iter().enumerate() {
        items.last_mut().unwrap().push(t.clone());
        match t.as_str() {
            "{" | "(" | "[" | "$(" | "#[" => depth += 1,
            "}" | ")" | "]" => depth -= 1,
            _ => {}
        }
        let ends = depth == 0 && (t == ";" || t == "}") && toks.get(i + 1).is_some_and(|n| ITEM_STARTS.contains(&n.as_str()));
        if ends {
            items.push(vec![]);
        }
    }
    if w.order {
        g.shuffle(&mut items);
    }
    let mut out = String::new();
    let line_end = *g.pick(&["\n", "\r\n"]);
    for item in items {
        if w.docs && !matches!(item[0].as_str(), "impl" | "use") {
            for _ in 0..g.usize(0, 2) {
                out.push_str(&format!("{line_end}///{}{line_end}", noise(g)));
            }
        }
        let mut attr = 0;
        for (i, t) in item.iter().enumerate() {
            let prev = if i > 0 { item[i - 1].as_str() } else { "" };
            if t == "#[" {
                attr = 1;
            } else if attr > 0 && (t == "[" || t == "(") {
                attr += 1;
            } else if attr > 0 && (t == "]" || t == ")") {
                attr -= 1;
            }
            let first = t.chars().next().unwrap();
            let mut text = t.clone();
            if first.is_ascii_digit() && w.numbers && prev != "." && attr == 0 && g.chance(1, 2) {
                if let Some(n) = number(g, t) {
                    text = n;
                }
            }
            let ident = (first.is_alphabetic() || first == '_') && !t.contains(['"', '#', '\'']) && !KEYWORDS.contains(&t.as_str());
            if ident && w.raw && attr == 0 && prev != "#" && prev != "#[" && g.chance(1, 5) {
                text = format!("r#{text}");
            }
            // what must not be glued together
            let soft = |s: &str| matches!(s, "(" | ")" | "{" | "}" | "[" | "]" | "," | ";");
            let glue = i == 0 || soft(prev) || soft(t);
            // `#` belongs to what follows
            let fixed = prev == "#";
            let mut gap = String::new();
            if w.blanks && !fixed {
                match g.below(10) {
                    0..=3 if glue => {}
                    4 => gap.push_str(line_end),
                    5 => gap.push('\t'),
                    6 => gap.push_str("   "),
                    _ => gap.push(' '),
                }
            } else if !fixed {
                gap.push(' ');
            }
            if w.comments && !fixed && attr == 0 && g.chance(1, 8) {
                if prev.ends_with(['*', '/']) {
                    gap.push(' ');
                }
                if g.bool() {
                    let n = noise(g);
                    // three slashes or `//!` would be documentation
                    gap = format!("{gap}// {n}{line_end}");
                } else {
                    gap = format!("{gap}{}", block(g, 2));
                }
            }
            if gap.is_empty() && !glue && !fixed {
                gap.push(' ');
            }
            out.push_str(&gap);
            out.push_str(&text);
        }
        out.push_str(line_end);
    }
    if w.comments && g.bool() {
        out.push_str(*g.pick(&["//", "/* */", "// x", "/**/"]));
    }
    out
}

fn ways(g: &mut Gen) -> Ways {
    let mut w = Ways::default();
    // one alone, or any mixture
    match g.below(8) {
        0 => w.blanks = true,
        1 => w.comments = true,
        2 => w.docs = true,
        3 => w.order = true,
        4 => w.raw = true,
        5 => w.numbers = true,
        _ => w = Ways { blanks: g.bool(), comments: g.bool(), docs: g.bool(), order: g.bool(), raw: g.bool(), numbers: g.bool() },
    }
    w
}

pub fn respelled(g: &mut Gen, pre: &str, base: &dyn Fn(&mut Gen, &str) -> Made) -> Made {
    let mut m = base(g, pre);
    let w = ways(g);
    let src = rewrite(g, &m.src, w);
    m.nontrivial = if m.nontrivial.is_some() { Some(tape::hash_str(&src)) } else { None };
    m.sample = json!({"source": src});
    m.feats = [(w.blanks, "blanks changed"), (w.comments, "comments put in"), (w.docs, "documentation put in"), (w.order, "items in another order"), (w.raw, "raw identifiers"), (w.numbers, "numbers in another notation")]
        .iter()
        .filter(|x| x.0)
        .map(|x| x.1)
        .collect();
    m.src = src;
    m
}

/// text literals, single characters, numbers with all suffixes, infix calls
fn literals(g: &mut Gen, pre: &str) -> Made {
    let mut src = String::new();
    let mut want: Vec<(String, Bv)> = vec![];
    let n = g.usize(1, 5);
    let mut feats = vec![];
    for k in 0..n {
        let name = format!("{pre}f{k}");
        match g.below(5) {
            0 => {
                let mut text = String::new();
                let mut bytes = vec![];
                for _ in 0..g.usize(1, 9) {
                    match g.below(8) {
                        0 => {
                            let (t, b) = *g.pick(&[("\\n", 10u8), ("\\t", 9), ("\\r", 13), ("\\0", 0), ("\\\"", 34)]);
                            text.push_str(t);
                            bytes.push(b);
                        }
                        _ => {
                            let c = g.range(32, 126) as u8;
                            if c != b'"' && c != b'\\' {
                                text.push(c as char);
                                bytes.push(c);
                            }
                        }
                    }
                }
                if bytes.is_empty() {
                    text.push('q');
                    bytes.push(b'q');
                }
                src.push_str(&format!("fn {name}() -> [uint<8>; {}] {{ b\"{text}\" }}\n", bytes.len()));
                let mut v = BigUint::from(0u8);
                for b in bytes.iter().rev() {
                    v = (v << 8) + BigUint::from(*b);
                }
                want.push((name, Bv::from_uint(bytes.len() * 8, &v)));
                feats.push("text literal");
            }
            1 => {
                let (t, b) = match g.below(3) {
                    0 => {
                        let (t, b) = *g.pick(&[("\\n", 10u8), ("\\t", 9), ("\\r", 13), ("\\0", 0), ("\\'", 39)]);
                        (t.to_string(), b)
                    }
                    _ => {
                        let mut c = g.range(32, 126) as u8;
                        if c == b'\'' || c == b'\\' {
                            c = b'"';
                        }
                        ((c as char).to_string(), c)
                    }
                };
                src.push_str(&format!("fn {name}() -> uint<8> {{ b'{t}' }}\n"));
                want.push((name, Bv::from_u64(8, b as u64)));
                feats.push("character literal");
            }
            2 | 3 => {
                // a sized literal; its type is inferred from the suffix alone
                let w = g.usize(1, 70);
                let signed = g.bool();
                let v = g.bits(if signed { w - 1 } else { w });
                let t = number(g, &format!("{v}{}{w}", if signed { 'i' } else { 'u' })).unwrap();
                let ty = format!("{}<{w}>", if signed { "int" } else { "uint" });
                let x = g.usize(0, 2);
                src.push_str(&match x {
                    0 => format!("fn {name}() -> {ty} {{ {t} }}\n"),
                    1 => format!("fn {name}() -> {ty} {{ let x = {t}; x }}\n"),
                    _ => format!("fn {name}() -> {ty} {{ let x = ({t}, true); match x {{ ({t}, y) => x.0, (y, _) => y }} }}\n"),
                });
                want.push((name, Bv::from_uint(w, &v)));
                feats.push("sized literal");
            }
            _ => {
                // right associative
                let m = g.usize(2, 4);
                let vs: Vec<u64> = (0..m).map(|_| g.below(256)).collect();
                let e: Vec<String> = vs.iter().map(|v| v.to_string()).collect();
                src.push_str(&format!("fn {name}s(a: uint<8>, b: uint<8>) -> uint<8> {{ a -. b }}\nfn {name}() -> uint<8> {{ {} }}\n", e.join(&format!(" `{name}s` "))));
                let v = vs.iter().rev().fold(None, |acc: Option<u64>, v| Some(match acc {
                    None => *v,
                    Some(a) => v.wrapping_sub(a) & 255,
                }));
                want.push((name, Bv::from_u64(8, v.unwrap())));
                feats.push("infix call");
            }
        }
    }
    let h = tape::hash_str(&src);
    Made {
        sample: json!({"source": src, "values": want.iter().map(|(n, v)| format!("{n} = {}", v.to_bits())).collect::<Vec<_>>()}),
        src,
        std: false,
        nontrivial: Some(h),
        feats,
        judge: Box::new(move |b: &Built| {
            for (n, v) in &want {
                let r = (|| {
                    let mut s = crate::vsim::Sim::new(b.design, n)?;
                    s.settle()?;
                    s.get("output__")
                })();
                match r {
                    Err(e) => return fail("simulation", format!("{n}: {e}")),
                    Ok(x) if x.to_bits() == v.to_bits() => {}
                    Ok(x) => return fail("wrong value", format!("{n} must be {}, is {}", v.to_bits(), x.to_bits())),
                }
            }
            Ok(())
        }),
    }
}

pub fn c15(ctx: &Ctx) {
    ctx.rule("a rewritten program counts as non-trivial when the program it is made from does (see the property of its generator); programs of literals always");
    ctx.assume("the harness' own Verilog parser/simulator implements the IEEE 1800 semantics of the emitted subset");
    let n = ctx.amount(300, 10000);
    let plain = Cfg { std: false, ..Cfg::default() };
    let mk = move |g: &mut Gen, pre: &str| respelled(g, pre, &|g, pre| comb::comb_unit(g, pre, plain.clone(), &|b| b.comb_prog(), 6));
    run_units(ctx, "comb", &mk, &Opts::default(), n, 12);
    let plain = Cfg { std: false, budget: 25, ..Cfg::default() };
    let mk = move |g: &mut Gen, pre: &str| respelled(g, pre, &|g, pre| seq::seq_unit(g, pre, plain.clone(), &|b| b.seq_prog(), 8));
    run_units(ctx, "seq", &mk, &Opts::default(), n, 12);
    let plain = Cfg { std: false, budget: 20, ..Cfg::default() };
    let mk = move |g: &mut Gen, pre: &str| respelled(g, pre, &|g, pre| seq::seq_unit(g, pre, plain.clone(), &|b| b.pipe_prog(), 10));
    run_units(ctx, "pipe", &mk, &Opts::default(), n, 12);
    let mk = move |g: &mut Gen, pre: &str| respelled(g, pre, &|g, pre| generic::unit(g, pre, false));
    run_units(ctx, "generic", &mk, &Opts::default(), n, 12);
    let mk = move |g: &mut Gen, pre: &str| respelled(g, pre, &|g, pre| generic::unit(g, pre, true));
    run_units(ctx, "traits", &mk, &Opts::default(), n, 12);
    let mk = move |g: &mut Gen, pre: &str| respelled(g, pre, &|g, pre| linear::unit(g, pre, false));
    run_units(ctx, "wires", &mk, &Opts::default(), n, 12);
    run_units(ctx, "literals", &literals, &Opts::default(), n * 2, 12);
}
