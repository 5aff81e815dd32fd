//! Any text: the compiler ends with Verilog or with errors that point into the text, never with a crash.
use super::{asserts, comb, consts, generic, initial, linear, pats, seq, stdlib, stdseq, surface};
use crate::pgen::Cfg;
use crate::runner::*;
use crate::spadec::{self, File, Level, Opts};
use crate::tape::{self, Gen};
use serde_json::{json, Value};

/// programs of the generators of the other checks
pub fn unit(g: &mut Gen, pre: &str) -> (Made, &'static str) {
    let small = |std| Cfg { std, budget: 10, max_w: 20, ..Cfg::default() };
    match g.below(18) {
        0 | 1 => (comb::comb_unit(g, pre, small(false), &|b| b.comb_prog(), 3), "from an expression program"),
        2 => (comb::comb_unit(g, pre, Cfg { zst: true, ..small(false) }, &|b| b.comb_prog(), 3), "from an expression program"),
        3 => (seq::seq_unit(g, pre, small(false), &|b| b.seq_prog(), 5), "from a program with registers"),
        4 => (seq::seq_unit(g, pre, small(false), &|b| b.pipe_prog(), 6), "from a program with pipelines"),
        5 | 6 => (pats::match_unit(g, pre, small(false)), "from a program with patterns"),
        7 => (generic::unit(g, pre, false), "from a generic program"),
        8 | 9 => (generic::unit(g, pre, true), "from a program with traits"),
        10 => (linear::unit(g, pre, false), "from a program with ports"),
        11 => (initial::reg_unit(g, pre), "from a program with initial values"),
        12 => (initial::mem_unit(g, pre), "from a program with memories"),
        13 => (asserts::unit(g), "from a program with assertions"),
        15 | 16 => (consts::unit(g, pre), "from a program with type level values"),
        14 => (stdlib::unit(g, pre), "from a use of the standard library"),
        _ => (stdseq::unit(g, pre), "from a use of the standard library"),
    }
}

/// the end (exclusive) of the balanced group that starts at token i
fn group(t: &[String], i: usize) -> Option<usize> {
    let open = |s: &str| matches!(s, "(" | "[" | "{" | "$(" | "#[");
    let close = |s: &str| matches!(s, ")" | "]" | "}");
    if !open(&t[i]) {
        return None;
    }
    let mut d = 0;
    for (k, x) in t.iter().enumerate().skip(i) {
        if open(x) {
            d += 1;
        } else if close(x) {
            d -= 1;
            if d == 0 {
                return Some(k + 1);
            }
        }
    }
    None
}
fn class(s: &str) -> u8 {
    let c = s.chars().next().unwrap_or(' ');
    if surface::KEYWORDS.contains(&s) {
        1
    } else if c.is_ascii_digit() {
        2
    } else if c.is_alphabetic() || c == '_' {
        if c.is_uppercase() { 3 } else { 4 }
    } else {
        5
    }
}
const EXTRA: [&str; 40] = [
    "0", "1", "2", "3u3", "0xffff", "true", "uint", "int", "bool", "clock", "bit", "Option", "Some", "None", "inv", "&", "*", "~", "!", "-", "self", "Self", "#uint", "#type", "::", "stage", "valid", "reg", "inst", "match", "if", "else", "fn", "entity",
    "pipeline(2)", "tri<bool>", "[uint<4>; 3]", "(bool, uint<2>)", "()", "[]",
];
const SNIPPETS: [&str; 30] = [
    "let z = 1;", "decl z;", "reg;", "reg * 2;", "'z", "set z = 1;", "assert true;", "reg(clk) z = z;", "x.y", ".0", ".1", "#0", "[0]", "[0..1]", "[1]", "|z|", "fn |z| {z}", "&z", "where T: Foo", "::<8>", "#[inline]", "#[no_mangle]",
    "#[verilog_attrs(a)]", "#[wal_trace]", "use lib::x;", "pub mod m {}", "type A = bool;", "impl uint<8> {}", "gen if true {1} else {2}", "extern fn e();",
];

pub fn mutate(g: &mut Gen, t: &mut Vec<String>) -> &'static str {
    if t.is_empty() {
        return "nothing";
    }
    let i = g.below(t.len() as u64) as usize;
    let groups: Vec<(usize, usize)> = (0..t.len()).filter_map(|k| group(t, k).map(|e| (k, e))).collect();
    match g.below(16) {
        0 => {
            t.remove(i);
            "a token removed"
        }
        1 => {
            let x = t[i].clone();
            t.insert(i, x);
            "a token doubled"
        }
        2 => {
            let j = g.below(t.len() as u64) as usize;
            t.swap(i, j);
            "two tokens exchanged"
        }
        3 | 4 | 5 | 6 => {
            // another token of the same kind
            let k = class(&t[i]);
            let same: Vec<String> = t.iter().filter(|x| class(x) == k && **x != t[i]).cloned().collect();
            if !same.is_empty() {
                t[i] = g.pick(&same).clone();
            }
            "a token replaced by one of its kind"
        }
        7 => {
            t[i] = g.pick(&EXTRA).to_string();
            "a token replaced by another"
        }
        8 => {
            t.insert(i, g.pick(&EXTRA).to_string());
            "a token put in"
        }
        9 => {
            t.insert(i, g.pick(&SNIPPETS).to_string());
            "a fragment put in"
        }
        10 if !groups.is_empty() => {
            let (a, b) = *g.pick(&groups);
            t.drain(a + 1..b - 1);
            "the inside of brackets removed"
        }
        11 if !groups.is_empty() => {
            let (a, b) = *g.pick(&groups);
            t.drain(a..b);
            "brackets removed with their inside"
        }
        12 if !groups.is_empty() => {
            let (a, b) = *g.pick(&groups);
            let x: Vec<String> = t[a..b].to_vec();
            if x.len() < 40 {
                let k = g.below(t.len() as u64) as usize;
                t.splice(k..k, x);
            }
            "a bracketed part repeated elsewhere"
        }
        13 if groups.len() > 1 => {
            let (a, b) = *g.pick(&groups);
            let (c, d) = *g.pick(&groups);
            let x: Vec<String> = t[c..d].to_vec();
            if x.len() < 60 {
                t.splice(a..b, x);
            }
            "a bracketed part replaced by another"
        }
        14 if !groups.is_empty() => {
            // two elements of a list exchanged, or one of them doubled or removed
            let (a, b) = *g.pick(&groups);
            let mut cuts = vec![a + 1];
            let mut k = a + 1;
            while k < b - 1 {
                if let Some(e) = group(t, k) {
                    k = e;
                    continue;
                }
                if t[k] == "," || t[k] == ";" {
                    cuts.push(k + 1);
                }
                k += 1;
            }
            cuts.push(b - 1);
            let n = cuts.len() - 1;
            let p = g.below(n as u64) as usize;
            let part: Vec<String> = t[cuts[p]..cuts[p + 1]].to_vec();
            if g.bool() {
                t.drain(cuts[p]..cuts[p + 1]);
                "an element of a list removed"
            } else if part.len() < 60 {
                t.splice(cuts[p]..cuts[p], part);
                "an element of a list doubled"
            } else {
                "nothing"
            }
        }
        _ => {
            let e = (i + 1 + g.below(6) as usize).min(t.len());
            t.drain(i..e);
            "some tokens removed"
        }
    }
}

const TYPES: [&str; 30] = [
    "bool", "uint<4>", "int<4>", "uint<0>", "uint<1>", "int<0>", "uint", "int<N>", "uint<{N + 1}>", "clock", "()", "(bool,)", "(bool, uint<3>)", "[bool; 2]", "[uint<3>; 0]", "[bool; N]", "inv bool", "inv inv bool", "&bool", "& uint<3>", "(bool, inv bool)", "[inv bool; 2]",
    "Self", "tri<bool>", "Option<bool>", "uint<bool>", "uint<-1>", "uint<1, 2>", "_", "uint<{1 - 2}>",
];
const NUMBERS: [&str; 16] = ["0", "1", "2", "3", "7", "64", "65", "130", "0b1", "0xffu8", "1u1", "0u0", "1i1", "5u4", "200i20", "256"];
const WRAPS: [&str; 36] = [
    "(@, @)", "(@)", "[@]", "[@, @]", "[@; 3]", "[@; 0]", "@.0", "@.1", "&@", "*@", "!@", "~@", "-@", "{let q = @; q}", "{@}", "if @ {@} else {@}", "match @ { _ => @ }", "match @ { q => q }", "match @ { true => @, false => @ }", "@.x", "@[0]", "@[0..1]", "@[1..0]", "@[@]", "@(@)", "@.call((@,))", "(fn |q| {q}).call((@,))",
    "fn |q| {@}", "@.inst @(@)", "@()", "@::<3>(@)", "inst @(@)", "inst(2) @(@)", "@$(@)", "(@, @).1", "(@ + @)",
];

/// a change that mostly leaves a text the parser accepts
pub fn change(g: &mut Gen, t: &mut Vec<String>) -> &'static str {
    if t.is_empty() {
        return "nothing";
    }
    let n = t.len();
    let groups: Vec<(usize, usize)> = (0..n).filter_map(|k| group(t, k).map(|e| (k, e))).collect();
    match g.below(14) {
        0 | 1 | 2 => {
            // another name of the same kind, as that the names stand behind the same token
            let i = g.below(n as u64) as usize;
            let k = class(&t[i]);
            let prev = if i > 0 { t[i - 1].clone() } else { String::new() };
            let near: Vec<String> = (1..n).filter(|j| class(&t[*j]) == k && t[*j] != t[i] && t[*j - 1] == prev).map(|j| t[j].clone()).collect();
            let same: Vec<String> = t.iter().filter(|x| class(x) == k && **x != t[i]).cloned().collect();
            if !near.is_empty() && g.chance(2, 3) {
                t[i] = g.pick(&near).clone();
            } else if !same.is_empty() && (k == 3 || k == 4) {
                t[i] = g.pick(&same).clone();
            }
            "a name replaced by another"
        }
        3 => {
            let at: Vec<usize> = (0..n).filter(|i| class(&t[*i]) == 2).collect();
            if !at.is_empty() {
                let i = *g.pick(&at);
                t[i] = g.pick(&NUMBERS).to_string();
            }
            "a number replaced by another"
        }
        4 | 5 => {
            let at: Vec<usize> = (1..n).filter(|i| matches!(t[*i - 1].as_str(), ":" | "->" | "<") && (class(&t[*i]) >= 3 || t[*i] == "Self")).collect();
            if !at.is_empty() {
                let i = *g.pick(&at);
                let mut e = i + 1;
                if class(&t[i]) == 5 {
                    e = group(t, i).unwrap_or(e);
                } else if t.get(e).is_some_and(|x| x == "<") {
                    let mut d = 0;
                    for k in e..n {
                        match t[k].as_str() {
                            "<" => d += 1,
                            ">" => d -= 1,
                            ">>" => d -= 2,
                            _ => {}
                        }
                        if d <= 0 {
                            e = k + 1;
                            break;
                        }
                    }
                }
                let i0 = i;
                t.splice(i0..e, [g.pick(&TYPES).to_string()]);
            }
            "a type replaced by another"
        }
        6 | 7 | 8 => {
            // an atom of an expression
            let at: Vec<usize> = (1..n)
                .filter(|i| matches!(class(&t[*i]), 2 | 4) && !matches!(t[*i - 1].as_str(), ":" | "->" | "<" | "." | "::" | "fn" | "struct" | "enum" | "let" | "reg" | "entity" | "#[") && t.get(*i + 1).is_none_or(|x| !matches!(x.as_str(), ":" | "::" | "<" | "(")))
                .collect();
            if !at.is_empty() {
                let i = *g.pick(&at);
                let w = g.pick(&WRAPS).to_string();
                let mut r = String::new();
                let names: Vec<String> = t.iter().filter(|x| class(x) == 4).cloned().collect();
                for (k, part) in w.split('@').enumerate() {
                    if k > 0 {
                        if (k > 1 || w.starts_with('f')) && g.chance(1, 2) && !names.is_empty() {
                            r.push_str(g.pick(&names));
                        } else {
                            r.push_str(&t[i]);
                        }
                    }
                    r.push_str(part);
                }
                t[i] = r;
            }
            "an expression put around another"
        }
        9 | 10 if !groups.is_empty() => {
            let (a, b) = *g.pick(&groups);
            let mut cuts = vec![a + 1];
            let mut k = a + 1;
            while k < b - 1 {
                if let Some(e) = group(t, k) {
                    k = e;
                    continue;
                }
                if t[k] == "," || t[k] == ";" {
                    cuts.push(k + 1);
                }
                k += 1;
            }
            cuts.push(b - 1);
            let m = cuts.len() - 1;
            let p = g.below(m as u64) as usize;
            let part: Vec<String> = t[cuts[p]..cuts[p + 1]].to_vec();
            match g.below(3) {
                0 => {
                    t.drain(cuts[p]..cuts[p + 1]);
                    "an element of a list removed"
                }
                1 => {
                    let to = cuts[g.below(m as u64) as usize];
                    t.splice(to..to, part);
                    "an element of a list doubled"
                }
                _ => {
                    if p + 1 < m {
                        let next: Vec<String> = t[cuts[p + 1]..cuts[p + 2]].to_vec();
                        let both: Vec<String> = next.into_iter().chain(part).collect();
                        t.splice(cuts[p]..cuts[p + 2], both);
                    }
                    "two elements of a list exchanged"
                }
            }
        }
        11 | 12 if groups.len() > 1 => {
            let (a, b) = *g.pick(&groups);
            let like: Vec<(usize, usize)> = groups.iter().filter(|(c, _)| t[*c] == t[a] && *c != a).copied().collect();
            if !like.is_empty() {
                let (c, d) = *g.pick(&like);
                let x: Vec<String> = t[c..d].to_vec();
                if x.len() < 80 {
                    t.splice(a..b, x);
                }
            }
            "a bracketed part replaced by another of its kind"
        }
        _ => {
            // a modifier added or removed
            let at: Vec<usize> = (0..n).filter(|i| matches!(t[*i].as_str(), "fn" | "entity" | "inst" | "inv" | "&" | "mut" | "pub" | "#uint" | "!" | "-" | "~" | "inline" | "initial" | "reset" | "+" | "*" | "==" | "<" | "&&")).collect();
            if !at.is_empty() {
                let i = *g.pick(&at);
                t[i] = match t[i].as_str() {
                    "fn" => "entity".into(),
                    "entity" => (*g.pick(&["fn", "pipeline(1)"])).into(),
                    "inst" => (*g.pick(&["", "inst(1)"])).into(),
                    "+" | "*" | "==" | "<" | "&&" => (*g.pick(&["+", "+.", "*", "==", "<", "&&", "&", ">>", "<<", "^", "/", "%", "-"])).into(),
                    _ => "".into(),
                };
            }
            "an operator or a keyword changed"
        }
    }
}

fn class_of(p: &str) -> String {
    // the kind of the failure: without the line number, without names and numbers
    match p.rsplit_once(" @ ") {
        Some((m, loc)) => {
            let file = loc.rsplit_once(':').map_or(loc, |x| x.0);
            format!("{} in {}", norm_msg(m.lines().next().unwrap_or("")), file.trim_start_matches("/repo/"))
        }
        None => norm_msg(p),
    }
}

/// does the compiler end in an orderly way on this text?
pub fn orderly(files: &[File], std: bool) -> Result<bool, Failure> {
    beat(&files.iter().map(|f| f.src.as_str()).collect::<Vec<_>>().join("\n"));
    let o = spadec::run(files, &Opts { std, render: true, mir: true, items: true, state: true, ..Default::default() });
    if let Some(p) = &o.panic {
        return fail(&format!("panic {}", class_of(p)), format!("the compiler panicked: {p}"));
    }
    for d in &o.diags {
        if d.level == Level::Bug {
            return fail(&format!("internal error {}", norm_msg(&d.msg)), format!("the compiler reports an internal error: {} [{}]", d.msg, d.label));
        }
        for (f, a, b) in &d.spans {
            let Some((_, text)) = o.files.get(*f) else { return fail("place", format!("the message {} points to file {f}, there are {}", d.msg, o.files.len())) };
            if text.get(*a as usize..*b as usize).is_none() {
                return fail("place", format!("the message {} points to {a}..{b} of {} which has {} bytes", d.msg, o.files[*f].0, text.len()));
            }
        }
        if d.msg.trim().is_empty() {
            return fail("empty message", "a message without text");
        }
    }
    let errors = o.errors().len();
    if o.ok {
        if errors > 0 {
            return fail("accepted with errors", format!("the program is accepted although there is an error: {}", o.first_error()));
        }
        let Some(v) = &o.verilog else { return fail("no output", "compilation succeeded but no Verilog was written") };
        if let Err(e) = crate::vparse::parse(v) {
            return fail(&format!("malformed verilog {}", norm_msg(&e)), format!("the emitted Verilog does not parse: {e}"));
        }
    } else if errors == 0 {
        return fail("silent", "the program is rejected without an error message");
    }
    Ok(o.ok)
}

/// remove tokens as long as the failure stays
fn reduce(t: &[String], std: bool, class: &str) -> Vec<String> {
    let t0 = std::time::Instant::now();
    let mut t = t.to_vec();
    let mut n = (t.len() / 2).max(1);
    let bad = |t: &[String]| matches!(orderly(&spadec::single(&t.join(" ")), std), Err(f) if f.class == class);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < t.len() {
            if t0.elapsed().as_secs() > 30 {
                return t;
            }
            let mut u = t.clone();
            u.drain(i..(i + n).min(t.len()));
            if bad(&u) {
                t = u;
                any = true;
            } else {
                i += n;
            }
        }
        if n == 1 && !any {
            return t;
        }
        n = (n / 2).max(1);
    }
}

fn case(g: &mut Gen, wild: bool) -> Result<CaseOk, (Failure, Value)> {
    let (m, from) = unit(g, "u0_");
    let (src, std) = (m.src, m.std);
    let mut t = surface::tokens(&src);
    let mut feats = vec![from];
    for _ in 0..1 + g.weighted(&[5, 2, 1, 1]) {
        feats.push(if wild { mutate(g, &mut t) } else { change(g, &mut t) });
    }
    let text = t.join(" ");
    // what a text of this kind asks for must fit into memory
    let size = |x: &String| x.trim_end_matches(|c: char| c == 'u' || c == 'i').parse::<u64>().ok().filter(|v| *v >= 64);
    let lengths = t.windows(2).filter(|w| w[0] == ";").filter_map(|w| size(&w[1].split(['u', 'i']).next().unwrap_or("").to_string()));
    if lengths.fold(1u64, |a, b| a.saturating_mul(b)) > 70_000 {
        return Ok(CaseOk { nontrivial: None, sample: json!(null), feats: vec!["left out: arrays too long to build"] });
    }
    match orderly(&spadec::single(&text), std) {
        Ok(ok) => {
            feats.push(if ok { "still a program" } else { "rejected with errors" });
            Ok(CaseOk { nontrivial: Some(tape::hash_str(&text)), sample: json!({"text": text, "accepted": ok}), feats })
        }
        Err(f) => {
            let t = if std::env::var("VH_NOREDUCE").is_ok() { t } else { reduce(&t, std, &f.class) };
            Err((f, json!({"source": t.join(" "), "std": std})))
        }
    }
}

pub fn c19(ctx: &Ctx) {
    ctx.rule("every text counts, unless it asks for arrays too long to build");
    run_cases_b(ctx, "changed texts", &|g: &mut Gen| case(g, true), ctx.amount(4000, 200000), 0);
    run_cases_b(ctx, "changed programs", &|g: &mut Gen| case(g, false), ctx.amount(6000, 300000), 0);
}
