//! The simulation interface: writing and reading ports of the unit under test by Spade expressions.
use super::comb::agrees;
use crate::bv::Bv;
use crate::lang::*;
use crate::pgen::{B, Cfg};
use crate::runner::*;
use crate::spadec::{self, File, Opts};
use crate::tape::{self, Gen};
use crate::vsim::Sim;
use num::{BigInt, One, Zero};
use serde_json::json;
use spade_simulation_ext::field_ref::FieldRef;
use spade_simulation_ext::{BitString, Spade};
use std::collections::{BTreeMap, HashSet};

/// a type of a port: data, inverted data, a port struct, or an inverted port struct
#[derive(Clone, Debug, PartialEq)]
enum PT {
    V(Ty),
    Inv(Box<PT>),
    S(usize),
}
#[derive(Clone, Debug)]
struct PS {
    name: String,
    fields: Vec<(String, PT)>,
}
struct W {
    p: Prog,
    ps: Vec<PS>,
    pre: String,
    /// user types printed with a type parameter: type, the type it stands for
    generic: BTreeMap<usize, Ty>,
}
impl W {
    /// a data type, as it is written
    fn tyv(&self, t: &Ty) -> String {
        self.spell(self.pr().ty(t))
    }
    fn spell(&self, mut s: String) -> String {
        for (d, a) in self.generic.iter().rev() {
            let n = &self.p.defs[*d].name;
            let arg = self.pr().ty(a);
            let mut o = String::new();
            let mut word = String::new();
            for c in s.chars().chain(Some(' ')) {
                if c.is_alphanumeric() || c == '_' {
                    word.push(c);
                    continue;
                }
                o.push_str(&word);
                if word == *n {
                    o += &format!("<{arg}>");
                }
                word.clear();
                o.push(c);
            }
            o.pop();
            s = o;
        }
        s
    }
    fn def(&self, d: usize) -> String {
        let text = self.pr().def(d);
        let (head, rest) = text.split_once('{').unwrap();
        match self.generic.get(&d) {
            None => format!("{head}{{{}", self.spell(rest.to_string())),
            Some(a) => {
                // the members of that type get the type parameter
                let mut p2 = self.p.clone();
                let sub = |v: &mut Vec<(String, Ty)>| {
                    for x in v {
                        if x.1 == *a {
                            x.1 = Ty::Named(usize::MAX);
                        }
                    }
                };
                match &mut p2.defs[d].kind {
                    DefKind::Struct(f) => sub(f),
                    DefKind::Enum(vs) => vs.iter_mut().for_each(|v| sub(&mut v.1)),
                }
                let list = |v: &Vec<(String, Ty)>| {
                    v.iter().map(|(n, t)| format!("{n}: {}, ", if *t == Ty::Named(usize::MAX) { "A".into() } else { self.tyv(t) })).collect::<String>()
                };
                let body = match &p2.defs[d].kind {
                    DefKind::Struct(f) => list(f),
                    DefKind::Enum(vs) => vs.iter().map(|v| if v.1.is_empty() { format!("{}, ", v.0) } else { format!("{} {{ {}}}, ", v.0, list(&v.1)) }).collect(),
                };
                format!("{}<A> {{ {body}}}\n", head.trim_end())
            }
        }
    }
    fn pr(&self) -> Printer<'_> {
        Printer { p: &self.p, n: Names::plain("") }
    }
    fn ty(&self, t: &PT) -> String {
        match t {
            PT::V(t) => self.tyv(t),
            PT::Inv(t) => format!("inv {}", self.ty(t)),
            PT::S(i) => self.ps[*i].name.clone(),
        }
    }
    /// bits carried (along, against) the direction of the port
    fn sizes(&self, t: &PT) -> (usize, usize) {
        match t {
            PT::V(t) => (self.p.size(t) as usize, 0),
            PT::Inv(t) => {
                let (a, b) = self.sizes(t);
                (b, a)
            }
            PT::S(i) => self.ps[*i].fields.iter().map(|f| self.sizes(&f.1)).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1)),
        }
    }
    /// the fields of a type that has fields the interface can name: (name, type, is the type a plain struct)
    fn fields(&self, t: &PT) -> Vec<(String, PT)> {
        match t {
            PT::V(Ty::Named(d)) => match &self.p.defs[*d].kind {
                DefKind::Struct(f) => f.iter().map(|(n, t)| (n.clone(), PT::V(t.clone()))).collect(),
                _ => vec![],
            },
            PT::V(_) => vec![],
            PT::Inv(t) => self.fields(t).into_iter().map(|(n, t)| (n, inv(t))).collect(),
            PT::S(i) => self.ps[*i].fields.clone(),
        }
    }
    /// the data type, if the field only carries data one way, and whether it goes against the port
    fn data(&self, t: &PT) -> Option<(Ty, bool)> {
        match t {
            PT::V(t) => Some((t.clone(), false)),
            PT::Inv(t) => self.data(t).map(|(t, b)| (t, !b)),
            PT::S(_) => None,
        }
    }
}
fn inv(t: PT) -> PT {
    match t {
        PT::Inv(t) => *t,
        t => PT::Inv(Box::new(t)),
    }
}

/// a field the interface can refer to
#[derive(Clone, Debug)]
struct F {
    /// None: the output
    arg: Option<String>,
    path: Vec<String>,
    t: PT,
    /// first bit (from the most significant end) in the signals going along and against the port
    at: (usize, usize),
    /// the parts that are set or read in the body are exactly those without fields of their own
    leaf: bool,
}

fn collect(w: &W, f: F, out: &mut Vec<F>) {
    let fs = w.fields(&f.t);
    let mut at = f.at;
    // a plain data struct is one leaf for the body; its fields can still be named from outside
    let inner_leaf = f.leaf && !matches!(f.t, PT::V(_)) && !matches!(&f.t, PT::Inv(x) if matches!(**x, PT::V(_)));
    let me = F { leaf: f.leaf && !(inner_leaf && !fs.is_empty()), ..f.clone() };
    out.push(me);
    for (n, t) in fs {
        let mut path = f.path.clone();
        path.push(n);
        let sz = w.sizes(&t);
        collect(w, F { arg: f.arg.clone(), path, t, at, leaf: inner_leaf }, out);
        // an inverted data struct has its bits against the port
        at = (at.0 + sz.0, at.1 + sz.1);
    }
}

/// text shown to the user for a value; `rev`: arrays the other way around
fn show(p: &Prog, t: &Ty, v: &Val, rev: bool) -> String {
    if p.size(t) == 0 {
        return String::new();
    }
    let list = |ts: Vec<&Ty>, vs: &[Val]| ts.into_iter().zip(vs).map(|(t, v)| show(p, t, v, rev)).collect::<Vec<_>>();
    match (t, v) {
        (Ty::Bool, Val::B(b)) => b.to_string(),
        (Ty::Int(_) | Ty::UInt(_), Val::I(i)) => i.to_string(),
        (Ty::Tup(ts), Val::T(vs)) => format!("({})", list(ts.iter().collect(), vs).join(",")),
        (Ty::Arr(t, n), Val::T(vs)) => {
            let mut l = list(vec![&**t; *n as usize], vs);
            if rev {
                l.reverse();
            }
            format!("[{}]", l.join(","))
        }
        (Ty::Named(d), Val::T(vs)) => {
            let f = p.fields(*d);
            let l = list(f.iter().map(|f| &f.1).collect(), vs);
            format!("{{{}}}", f.iter().zip(l).map(|(f, s)| format!("{}:{s}", f.0)).collect::<Vec<_>>().join(","))
        }
        (t, Val::E(i, vs)) => {
            let va = p.variants(t);
            format!("{}({})", va[*i].0, list(va[*i].1.iter().map(|f| &f.1).collect(), vs).join(","))
        }
        x => panic!("show {x:?}"),
    }
}

/// text shown for bits of which some have no value
fn show_bits(p: &Prog, t: &Ty, b: &str, rev: bool) -> String {
    let n = p.size(t) as usize;
    if n == 0 {
        return String::new();
    }
    let odd = |b: &str| {
        if b.contains(['x', 'X']) {
            Some("UNDEF".to_string())
        } else if b.contains(['z', 'Z']) {
            Some("HIGHIMP".to_string())
        } else {
            None
        }
    };
    let list = |ts: &[&Ty], mut b: &str| {
        ts.iter()
            .map(|t| {
                let (x, y) = b.split_at(p.size(t) as usize);
                b = y;
                show_bits(p, t, x, rev)
            })
            .collect::<Vec<_>>()
    };
    match t {
        Ty::Bool | Ty::Int(_) | Ty::UInt(_) => odd(b).unwrap_or_else(|| {
            let v = Bv::from_bits(b);
            let v = match t {
                Ty::Bool => Val::B(b == "1"),
                Ty::Int(_) => Val::I(v.to_signed().unwrap()),
                _ => Val::I(v.to_uint().unwrap().into()),
            };
            show(p, t, &v, rev)
        }),
        Ty::Tup(ts) => format!("({})", list(&ts.iter().collect::<Vec<_>>(), b).join(",")),
        Ty::Arr(t, n) => {
            let mut l = list(&vec![&**t; *n as usize], b);
            // the first element is in the last bits
            if !rev {
                l.reverse();
            }
            format!("[{}]", l.join(","))
        }
        Ty::Named(d) if matches!(p.defs[*d].kind, DefKind::Struct(_)) => {
            let f = p.fields(*d);
            let l = list(&f.iter().map(|f| &f.1).collect::<Vec<_>>(), b);
            format!("{{{}}}", f.iter().zip(l).map(|(f, s)| format!("{}:{s}", f.0)).collect::<Vec<_>>().join(","))
        }
        t => {
            let va = p.variants(t);
            let (tag, rest) = b.split_at(clog2(va.len()) as usize);
            if let Some(s) = odd(tag) {
                // which of the two is shown depends on the first such bit
                return if tag.contains(['x', 'X']) && tag.contains(['z', 'Z']) && tag.find(['z', 'Z']) < tag.find(['x', 'X']) { "HIGHIMP".into() } else { s };
            }
            let k = Bv::from_bits(tag).to_u64().unwrap_or(0) as usize;
            if k >= va.len() {
                return "?TAG?".into();
            }
            format!("{}({})", va[k].0, list(&va[k].1.iter().map(|f| &f.1).collect::<Vec<_>>(), rest).join(","))
        }
    }
}

/// an expression that means `v`
fn vexpr(g: &mut Gen, w: &W, t: &Ty, v: &Val, d: u32) -> String {
    let pr = w.pr();
    if d > 0 {
        match g.below(14) {
            0 => {
                let (t2, at) = (Ty::UInt(3), g.below(2));
                let o = w.p.gen_val(g, &t2);
                let (a, b) = (vexpr(g, w, t, v, d - 1), pr.lit(&t2, &o, 1, true));
                return if at == 0 { format!("({a}, {b}).0") } else { format!("({b}, {a}).1") };
            }
            1 => {
                let n = g.usize(1, 3);
                let k = g.usize(0, n - 1);
                let l: Vec<String> = (0..n).map(|i| if i == k { vexpr(g, w, t, v, d - 1) } else { let o = w.p.gen_val(g, t); vexpr(g, w, t, &o, 0) }).collect();
                return format!("[{}][{k}]", l.join(", "));
            }
            2 => return format!("{{ {} }}", vexpr(g, w, t, v, d - 1)),
            3 => return format!("{{ let q: {} = {}; q }}", w.tyv(t), vexpr(g, w, t, v, d - 1)),
            4..=7 => {
                if let (Ty::Int(n) | Ty::UInt(n), Val::I(i)) = (t, v) {
                    let s = is_signed(t);
                    if *n >= 2 {
                        let t2 = if s { Ty::Int(n - 1) } else { Ty::UInt(n - 1) };
                        let Val::I(a) = w.p.gen_val(g, &t2) else { panic!() };
                        let (op, b) = match g.below(3) {
                            0 => (" + ", i - &a),
                            1 => (" - ", &a - i),
                            _ if s => {
                                let t = format!("-({})", vexpr(g, w, t, &Val::I(wrap_s(&-i, *n)), d - 1));
                                return t;
                            }
                            _ => (" + ", i - &a),
                        };
                        // a difference of unsigned numbers wraps around
                        let b = if op == " - " && !s { wrap_u(&b, *n) } else { b };
                        if wrap(&t2, &b) == b {
                            return format!("({}{op}{})", vexpr(g, w, &t2, &Val::I(a), d - 1), vexpr(g, w, &t2, &Val::I(b), d - 1));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let style = *g.pick(&[0u8, 0, 1, 2, 3, 4]);
    let d = d.saturating_sub(1);
    let named = |g: &mut Gen, fs: &[(String, Ty)], vs: &[Val]| -> String {
        let l: Vec<(String, String)> = fs.iter().zip(vs).map(|((n, t), v)| (n.clone(), vexpr(g, w, t, v, d))).collect();
        if g.chance(1, 3) {
            let mut o: Vec<usize> = (0..l.len()).collect();
            g.shuffle(&mut o);
            format!("$({})", o.iter().map(|i| format!("{}: {}", l[*i].0, l[*i].1)).collect::<Vec<_>>().join(", "))
        } else {
            format!("({})", l.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(", "))
        }
    };
    match (t, v) {
        (Ty::Tup(ts), Val::T(vs)) => format!("({})", ts.iter().zip(vs).map(|(t, v)| vexpr(g, w, t, v, d)).collect::<Vec<_>>().join(", ")),
        (Ty::Arr(t, _), Val::T(vs)) => format!("[{}]", vs.iter().map(|v| vexpr(g, w, t, v, d)).collect::<Vec<_>>().join(", ")),
        (Ty::Named(k), Val::T(vs)) => format!("{}{}{}", w.pre, pr.ty(t), named(g, w.p.fields(*k), vs)),
        (t, Val::E(i, vs)) => {
            let va = w.p.variants(t);
            let pre = if matches!(t, Ty::Opt(_)) { "" } else { w.pre.as_str() };
            let path = pr.variant_path(t, *i);
            if va[*i].1.is_empty() {
                return format!("{pre}{path}{}", if g.bool() { "" } else { "()" });
            }
            format!("{pre}{path}{}", named(g, &va[*i].1, vs))
        }
        _ => pr.lit(t, v, style, false),
    }
}

/// an expression that is not of type `t`
fn bad_expr(g: &mut Gen, w: &W, t: &Ty) -> String {
    let pr = w.pr();
    if *t == Ty::Int(0) {
        return "zork".into();
    }
    match g.below(7) {
        0 => "zork".into(),
        1 => "1 +".into(),
        2 => "T9::A(1)".into(),
        3 => format!("({}, true, true, true, true, true)", { let v = w.p.gen_val(g, t); pr.lit(t, &v, 1, true) }),
        4 => match t {
            Ty::UInt(n) => format!("{}", BigInt::one() << *n),
            Ty::Int(n) => format!("{}", BigInt::one() << (*n - 1)),
            Ty::Bool => "1".into(),
            _ => "true".into(),
        },
        5 => match t {
            Ty::UInt(n) => format!("{}u{}", 0, n + 1),
            Ty::Int(n) => format!("{}i{}", 0, n + 1),
            Ty::Bool => "0u1".into(),
            _ => "1".into(),
        },
        _ => match t {
            Ty::UInt(_) => "-1".into(),
            Ty::Int(n) => format!("-{}", (BigInt::one() << (*n - 1)) + 1),
            _ => "{ let x = 3u2; x }".into(),
        },
    }
}

fn gen_pt(g: &mut Gen, w: &W, pool: &[Ty], depth: u32) -> PT {
    let nps = w.ps.len();
    match g.below(8) {
        0..=2 => PT::V(g.pick(pool).clone()),
        3 => inv(PT::V(g.pick(pool).clone())),
        4..=6 if nps > 0 && depth > 0 => PT::S(g.usize(0, nps - 1)),
        7 if nps > 0 && depth > 0 => inv(PT::S(g.usize(0, nps - 1))),
        _ => PT::V(g.pick(pool).clone()),
    }
}

/// a value of the output from the values of its leaves
fn build_expr(w: &W, t: &PT, path: &[String], leaf: &BTreeMap<Vec<String>, String>) -> String {
    match t {
        PT::S(i) => {
            let ps = &w.ps[*i];
            let l: Vec<String> = ps
                .fields
                .iter()
                .map(|(n, t)| {
                    let mut p = path.to_vec();
                    p.push(n.clone());
                    build_expr(w, t, &p, leaf)
                })
                .collect();
            format!("{}({})", ps.name, l.join(", "))
        }
        _ => leaf[path].clone(),
    }
}

fn case(ctx: &Ctx, g: &mut Gen, std: bool, zst: bool) -> Result<CaseOk, (Failure, serde_json::Value)> {
    let mut b = B::new(g, Cfg { std, zst, ..Cfg::default() });
    b.defs(3);
    let pool: Vec<Ty> = (0..b.g.usize(1, 2)).map(|_| b.ty(2)).collect();
    let p = b.p;
    let mut w = W { p, ps: vec![], pre: String::new(), generic: BTreeMap::new() };
    for d in 0..w.p.defs.len() {
        let ts: Vec<Ty> = match &w.p.defs[d].kind {
            DefKind::Struct(f) => f.iter().map(|x| x.1.clone()).collect(),
            DefKind::Enum(vs) => vs.iter().flat_map(|v| v.1.iter().map(|x| x.1.clone())).collect(),
        };
        if !ts.is_empty() && g.chance(1, 3) {
            let t = g.pick(&ts).clone();
            w.generic.insert(d, t);
        }
    }
    for k in 0..g.usize(0, 3) {
        let n = g.usize(1, 4);
        let mut names = vec!["fwd", "b", "o", "x", "data", "valid_"];
        g.shuffle(&mut names);
        let fields = names[..n].iter().map(|s| (s.to_string(), gen_pt(g, &w, &pool, 1))).collect();
        w.ps.push(PS { name: format!("P{k}"), fields });
        let (a, b) = w.sizes(&PT::S(k));
        if a + b > 700 {
            w.ps.pop();
            break;
        }
    }
    let np = g.usize(1, 3);
    let mut pnames = vec!["x", "y", "i", "data", "o", "rst"];
    g.shuffle(&mut pnames);
    let params: Vec<(String, PT)> = pnames[..np].iter().map(|s| (s.to_string(), gen_pt(g, &w, &pool, 1))).collect();
    let out: Option<PT> = if g.chance(1, 12) {
        None
    } else {
        Some(loop {
            // an inverted struct cannot be built in one expression
            let t = gen_pt(g, &w, &pool, 1);
            if w.has_inv_struct(&t) && !matches!(t, PT::V(_)) {
                continue;
            }
            break t;
        })
    };
    // every field of every port
    let mut fs: Vec<F> = vec![];
    for (n, t) in &params {
        collect(&w, F { arg: Some(n.clone()), path: vec![], t: t.clone(), at: (0, 0), leaf: true }, &mut fs);
    }
    if let Some(t) = &out {
        collect(&w, F { arg: None, path: vec![], t: t.clone(), at: (0, 0), leaf: true }, &mut fs);
    }
    // sources inside the unit: what comes in; sinks: what goes out
    let dir_in = |f: &F| -> Option<(Ty, bool)> {
        let (t, against) = w.data(&f.t)?;
        Some((t, f.arg.is_some() != against))
    };
    let mut body = String::new();
    let mut sources: Vec<(usize, Ty, String)> = vec![];
    let mut out_leaf: BTreeMap<Vec<String>, String> = BTreeMap::new();
    for (k, f) in fs.iter().enumerate() {
        if !f.leaf {
            continue;
        }
        let Some((t, true)) = dir_in(f) else { continue };
        match &f.arg {
            Some(a) => {
                let mut s = a.clone();
                for x in &f.path {
                    s += &format!(".{x}");
                }
                sources.push((k, t, s));
            }
            None => {
                body += &format!("    let (rd{k}, wr{k}) = core::ports::port::<{}>();\n", w.tyv(&t));
                out_leaf.insert(f.path.clone(), format!("wr{k}"));
                sources.push((k, t, format!("rd{k}")));
            }
        }
    }
    // sink -> source field, or a constant
    let mut drive: Vec<(usize, Result<usize, Val>)> = vec![];
    let mut used = HashSet::new();
    for (k, f) in fs.iter().enumerate() {
        if !f.leaf {
            continue;
        }
        let Some((t, false)) = dir_in(f) else { continue };
        let c: Vec<&(usize, Ty, String)> = sources.iter().filter(|s| s.1 == t).collect();
        let fresh: Vec<&&(usize, Ty, String)> = c.iter().filter(|s| !used.contains(&s.0)).collect();
        let (text, d) = if c.is_empty() || g.chance(1, 10) {
            let v = w.p.gen_val(g, &t);
            (w.pr().lit(&t, &v, 1, true), Err(v))
        } else if !fresh.is_empty() {
            let s = g.pick(&fresh);
            used.insert(s.0);
            (s.2.clone(), Ok(s.0))
        } else {
            let s = g.pick(&c);
            (s.2.clone(), Ok(s.0))
        };
        match &f.arg {
            Some(a) => {
                let mut s = a.clone();
                for x in &f.path {
                    s += &format!(".{x}");
                }
                body += &format!("    set {s} = {text};\n");
            }
            None => {
                let text = if matches!(t, Ty::Bool) { text } else { format!("{{ let t_: {} = {text}; t_ }}", w.tyv(&t)) };
                out_leaf.insert(f.path.clone(), text);
            }
        }
        drive.push((k, d));
    }
    if let Some(t) = &out {
        body += &format!("    {}\n", build_expr(&w, t, &[], &out_leaf));
    }
    let mut types = String::new();
    let ns = *g.pick(&[0usize, 0, 1, 2]);
    for d in 0..w.p.defs.len() {
        types += &w.def(d);
    }
    for s in &w.ps {
        types += &format!("struct {} {{ {} }}\n", s.name, s.fields.iter().map(|(n, t)| format!("{n}: {}", w.ty(t))).collect::<Vec<_>>().join(", "));
    }
    let kind = *g.pick(&["entity", "fn", "entity"]);
    let sig = format!(
        "{kind} top({}){}",
        params.iter().map(|(n, t)| format!("{n}: {}", w.ty(t))).collect::<Vec<_>>().join(", "),
        out.as_ref().map(|t| format!(" -> {}", w.ty(t))).unwrap_or_default()
    );
    let src = format!("{types}{sig} {{\n{body}}}\n");
    let (files, uut) = match ns {
        0 => (spadec::single(&src), "top".to_string()),
        1 => (vec![File { ns: vec!["proj".into()], base: vec!["proj".into()], name: "m.spade".into(), src: src.clone() }], "proj::top".into()),
        _ => (
            vec![
                File { ns: vec!["proj".into()], base: vec!["proj".into()], name: "main.spade".into(), src: "mod m;\n".into() },
                File { ns: vec!["proj".into(), "m".into()], base: vec!["proj".into()], name: "m.spade".into(), src: src.clone() },
            ],
            "proj::m::top".to_string(),
        ),
    };
    if ns == 2 && g.chance(1, 2) {
        w.pre = "lib::m::".into();
    }
    let mut log: Vec<String> = vec![];
    let r = drive_all(ctx, g, &w, &files, &uut, std, &fs, &drive, &mut log);
    match r {
        Ok((nreads, nwrites, feats)) => Ok(CaseOk {
            nontrivial: if nreads >= 2 && nwrites >= 2 { Some(tape::hash_str(&format!("{src}{log:?}"))) } else { None },
            sample: json!({"source": src, "operations": log}),
            feats,
        }),
        Err(f) => Err((f, json!({"source": src, "uut": uut, "std": std, "operations": log}))),
    }
}

impl W {
    fn has_inv_struct(&self, t: &PT) -> bool {
        match t {
            PT::V(_) => false,
            PT::Inv(t) => matches!(**t, PT::S(_)) || self.has_inv_struct(t),
            PT::S(i) => self.ps[*i].fields.iter().any(|f| self.has_inv_struct(&f.1)),
        }
    }
}

fn bs(b: &BitString) -> Bv {
    Bv::from_bits(&b.0)
}

#[allow(clippy::too_many_arguments)]
fn drive_all(
    ctx: &Ctx,
    g: &mut Gen,
    w: &W,
    files: &[File],
    uut: &str,
    std: bool,
    fs: &[F],
    drive: &[(usize, Result<usize, Val>)],
    log: &mut Vec<String>,
) -> Result<(usize, usize, Vec<&'static str>), Failure> {
    let (out, design) = compile_and_parse(files, &Opts { std, state: true, ..Opts::default() })?;
    let Some(state) = &out.state else { return fail("no state", "no state file was written") };
    let path = spadec::scratch_file("state");
    std::fs::write(&path, state).unwrap();
    let r = spadec::catch(|| Spade::new(uut.to_string(), path.to_string_lossy().to_string()));
    let _ = std::fs::remove_file(&path);
    let mut sp = match r {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => return fail("state rejected", format!("loading the dumped state for {uut}: {e:#}")),
        Err(p) => return fail(&format!("panic {}", norm_panic(&p)), format!("loading the dumped state for {uut} panics: {p}")),
    };
    let mut sim = match Sim::new(&design, uut) {
        Ok(s) => s,
        Err(e) => return fail("elaboration", format!("the emitted Verilog does not elaborate: {e}")),
    };
    // what has been written to the leaves that come in: raw bits of whole signals
    let mut sig: BTreeMap<String, Bv> = BTreeMap::new();
    let size_of = |f: &F| w.sizes(&fs.iter().find(|x| x.arg == f.arg && x.path.is_empty()).unwrap().t);
    // the expected name of the signals: (driven from outside, driven by the unit)
    let names = |f: &F| match &f.arg {
        Some(a) => (format!("{a}_i"), format!("{a}_o")),
        None => ("input__".to_string(), "output__".to_string()),
    };
    // width and offset in the signal driven from outside / by the unit
    let inside = |f: &F| {
        let s = size_of(f);
        let t = w.sizes(&f.t);
        // (total, from, to) for a signal
        let along = (s.0, f.at.0, f.at.0 + t.0);
        let against = (s.1, f.at.1, f.at.1 + t.1);
        if f.arg.is_some() { (along, against) } else { (against, along) }
    };
    for f in fs {
        let (wr, _) = names(f);
        let (i, _) = inside(f);
        if i.0 > 0 && !sig.contains_key(&wr) {
            let v = Bv { w: i.0, a: g.bits(i.0), b: Zero::zero() };
            if let Err(e) = sim.set(&wr, v.clone()) {
                return fail("interface", format!("driving {wr}: {e}"));
            }
            sig.insert(wr, v);
        }
    }
    // the value of each incoming data field whose value is known because it was written
    let mut vals: BTreeMap<usize, Val> = BTreeMap::new();
    let label = |f: &F| {
        let mut v = vec![f.arg.as_ref().map(|a| format!("i.{a}")).unwrap_or("o".into())];
        v.extend(f.path.iter().cloned());
        v.join(".")
    };
    let get_ref = |sp: &mut Spade, f: &F| -> Result<Result<FieldRef, String>, Failure> {
        let r = spadec::catch(|| {
            let mut r = match &f.arg {
                Some(a) => sp.arg_as_field(a).map_err(|e| e.to_string())?,
                None => sp.output_as_field_ref().map_err(|e| e.to_string())?.ok_or("no output".to_string())?,
            };
            for x in &f.path {
                r = sp.field_of_field(&mut r, x).map_err(|e| e.to_string())?;
            }
            Ok(r)
        });
        match r {
            Ok(r) => Ok(r),
            Err(p) => fail(&format!("panic {}", norm_panic(&p)), format!("referring to {} panics: {p}", label(f))),
        }
    };
    macro_rules! call {
        ($what:expr, $e:expr) => {
            match spadec::catch(|| $e) {
                Ok(r) => r,
                Err(p) => return fail(&format!("panic {}", norm_panic(&p)), format!("{} panics: {p}", $what)),
            }
        };
    }
    let (mut nreads, mut nwrites) = (0, 0);
    let mut feats: Vec<&'static str> = vec![];
    let nops = g.usize(6, 18);
    for _ in 0..nops {
        let k = g.usize(0, fs.len() - 1);
        let f = &fs[k];
        let what = label(f);
        let ((wt, wf, wto), (rt, rf, rto)) = inside(f);
        let (wn, rn) = names(f);
        // -------------------------------------------------- things that must be refused
        if g.chance(1, 5) {
            match g.below(4) {
                0 => {
                    log.push("field of an input that does not exist".into());
                    if call!("asking for a missing input", sp.arg_as_field("nope")).is_ok() {
                        return fail("accepted", "a field of an input that does not exist");
                    }
                    if call!("setting a missing input", sp.arg_value("nope", "1")).is_ok() {
                        return fail("accepted", "a value for an input that does not exist");
                    }
                }
                1 => {
                    log.push(format!("{what}.nope"));
                    if let Ok(mut r) = get_ref(&mut sp, f)? {
                        if call!(format!("{what}.nope"), sp.field_of_field(&mut r, "nope")).is_ok() {
                            return fail("accepted", format!("field {what}.nope, which does not exist"));
                        }
                    }
                }
                _ => {
                    let Some((t, _)) = w.data(&f.t) else { continue };
                    let e = bad_expr(g, w, &t);
                    log.push(format!("{what} with `{e}`, which is not of its type {}", w.tyv(&t)));
                    let Ok(r) = get_ref(&mut sp, f)? else { continue };
                    let bad = if wto > wf {
                        call!(format!("setting {what} to `{e}`"), sp.compile_field_value(&r, &e)).is_ok()
                    } else {
                        let bits = BitString("0".repeat(rt));
                        call!(format!("comparing {what} to `{e}`"), sp.compare_field(r, &e, &bits)).is_ok()
                    };
                    if bad {
                        return fail("accepted", format!("`{e}` as a value of {what}, a {}", w.tyv(&t)));
                    }
                }
            }
            feats.push("refused operations");
            continue;
        }
        let r = match get_ref(&mut sp, f)? {
            Ok(r) => r,
            Err(e) => return fail("field refused", format!("{what}: {e}")),
        };
        if (r.source.fwd_mangled(), r.source.back_mangled()) != (wn.as_str(), rn.as_str()) {
            return fail("signal name", format!("{what} is said to be in {} and {}, expected {wn} and {rn}", r.source.fwd_mangled(), r.source.back_mangled()));
        }
        let Some((t, _)) = w.data(&f.t) else {
            // both ways (or all one way but without a data type): individual fields have to be used
            if wto > wf && rto > rf {
                log.push(format!("{what}, which goes both ways"));
                if call!(format!("{what} write range"), r.write_dir_range()).is_ok() || call!(format!("{what} read range"), r.read_dir_range()).is_ok() {
                    return fail("accepted", format!("{what} goes both ways, but could be read or set"));
                }
                feats.push("fields going both ways");
            } else if wto > wf {
                // a port struct all of whose fields come in
                check_range(&what, call!(format!("{what} write range"), r.write_dir_range()).map(|r| (r.from, r.to, r.is_full())).map_err(|e| e.to_string()), (wt, wf, wto))?;
            } else if rto > rf {
                check_range(&what, call!(format!("{what} read range"), r.read_dir_range()).map(|r| (r.from, r.to, r.is_full())).map_err(|e| e.to_string()), (rt, rf, rto))?;
            }
            continue;
        };
        if wto > wf {
            // -------------------------------------------------- write
            let v = w.p.gen_val(g, &t);
            let e = vexpr(g, w, &t, &v, 2);
            log.push(format!("{what} = {e}"));
            let want = w.p.encode(&t, &v);
            let bits = match call!(format!("{what} = {e}"), sp.compile_field_value(&r, &e)) {
                Ok(b) => b,
                Err(x) => return fail("value refused", format!("{what} = {e}: {x}")),
            };
            if bits.0.len() != want.w || bs(&bits).to_bits() != want.to_bits() {
                return fail("wrong encoding", format!("{what} = {e} gives {}, expected {}", bits.0, want.to_bits()));
            }
            if f.path.is_empty() && f.arg.is_some() && g.bool() {
                match call!(format!("{what} = {e}"), sp.arg_value(f.arg.as_ref().unwrap(), &e)) {
                    Ok((n, b)) => {
                        if n != wn || b.0 != bits.0 {
                            return fail("wrong encoding", format!("arg_value: {what} = {e} gives {n}: {}, expected {wn}: {}", b.0, bits.0));
                        }
                    }
                    Err(x) => return fail("value refused", format!("{what} = {e}: {x}")),
                }
            }
            if call!(format!("{what} read range"), r.read_dir_range()).is_ok() {
                return fail("accepted", format!("reading {what}, which can only be set"));
            }
            let range = call!(format!("{what} write range"), r.write_dir_range());
            let full = range.as_ref().map(|r| r.is_full()).unwrap_or(false);
            check_range(&what, range.as_ref().map(|r| (r.from, r.to, r.is_full())).map_err(|e| e.to_string()), (wt, wf, wto))?;
            // put the bits where the range says they belong
            let (lo, hi) = range.unwrap().as_downto(wt as u64);
            let all = sig.get_mut(&wn).unwrap();
            let b = super::comb::fill(g, &bs(&bits));
            if full {
                *all = b;
            } else {
                if (hi - lo) as usize != b.w {
                    return fail("wrong range", format!("{what}: {lo}..{hi} is not {} bits", b.w));
                }
                all.set_slice(lo as i64, &b);
            }
            if let Err(e) = sim.set(&wn, all.clone()) {
                return fail("interface", format!("driving {wn}: {e}"));
            }
            // this and everything inside it is now known; what it is part of is not
            let touching = |o: &F| o.arg == f.arg && (o.path.starts_with(&f.path) || f.path.starts_with(&o.path));
            for (j, o) in fs.iter().enumerate() {
                if touching(o) {
                    vals.remove(&j);
                }
            }
            set_inside(w, fs, f, &t, &v, &mut vals);
            nwrites += 1;
            if !f.path.is_empty() {
                feats.push("written fields of a port");
            }
        } else if rto > rf {
            // -------------------------------------------------- read
            if let Err(e) = sim.settle() {
                return fail("does not settle", e);
            }
            if call!(format!("{what} write range"), r.write_dir_range()).is_ok() {
                return fail("accepted", format!("setting {what}, which can only be read"));
            }
            check_range(&what, call!(format!("{what} read range"), r.read_dir_range()).map(|r| (r.from, r.to, r.is_full())).map_err(|e| e.to_string()), (rt, rf, rto))?;
            let raw = match sim.get(&rn) {
                Ok(b) => b,
                Err(e) => return fail("interface", format!("reading {rn}: {e}")),
            };
            if raw.w != rt {
                return fail("interface", format!("{rn} is {} bits wide, expected {rt}", raw.w));
            }
            let Some(v) = read_value(w, fs, f, drive, &vals) else { continue };
            let same = g.bool();
            let other = if same { v.clone() } else { w.p.gen_val(g, &t) };
            let same = other == v;
            let e = vexpr(g, w, &t, &other, 2);
            log.push(format!("{what} == {e}  (it is {})", show(&w.p, &t, &v, false)));
            let raw = BitString(raw.to_bits());
            let c = match call!(format!("{what} == {e}"), sp.compare_field(r.clone(), &e, &raw)) {
                Ok(c) => c,
                Err(x) => return fail("value refused", format!("{what} == {e}: {x}")),
            };
            let want = w.p.encode(&t, &other);
            if c.expected_bits.0.len() != want.w || bs(&c.expected_bits).to_bits() != want.to_bits() {
                return fail("wrong encoding", format!("{what} == {e} gives {}, expected {}", c.expected_bits.0, want.to_bits()));
            }
            let is = w.p.encode(&t, &v);
            if !agrees(&is, &bs(&c.got_bits)) {
                return fail("wrong bits read", format!("{what} reads {}, expected {}", c.got_bits.0, is.to_bits()));
            }
            if c.matches() != same {
                return fail("wrong comparison", format!("{what} is {:?}, comparing it to {e} says {}", v, c.matches()));
            }
            if c.expected_spade != e {
                return fail("wrong text", format!("expected_spade is {} for {e}", c.expected_spade));
            }
            let shown = match call!(format!("value of {what}"), sp.field_value(r, &raw)) {
                Ok(s) => s,
                Err(x) => return fail("value refused", format!("value of {what}: {x}")),
            };
            if shown != c.got_spade {
                return fail("wrong text", format!("{what} is shown as {shown} and as {}", c.got_spade));
            }
            let (right, reversed) = (show(&w.p, &t, &v, false), show(&w.p, &t, &v, true));
            if shown != right {
                if shown == reversed && ctx.is_known("array shown backwards") {
                    ctx.count("known finding met by the search: array shown backwards", 1);
                } else if shown == reversed {
                    return fail("array shown backwards", format!("{what} is {right}, but is shown as {shown}"));
                } else {
                    return fail("wrong text", format!("{what} is {right}, but is shown as {shown}"));
                }
            }
            nreads += 1;
            // bits without a value
            if g.chance(1, 3) {
                let mut cs: Vec<char> = raw.0.chars().collect();
                for _ in 0..g.usize(1, 3) {
                    let at = g.usize(rf, rto - 1);
                    cs[at] = *g.pick(&['X', 'Z', 'x', 'z']);
                }
                let part: String = cs[rf..rto].iter().collect();
                let raw = BitString(cs.iter().collect());
                log.push(format!("{what} when {} is {}", rn, raw.0));
                let r = match get_ref(&mut sp, f)? {
                    Ok(r) => r,
                    Err(e) => return fail("field refused", format!("{what}: {e}")),
                };
                let shown = match call!(format!("value of {what}"), sp.field_value(r.clone(), &raw)) {
                    Ok(s) => s,
                    Err(x) => return fail("value refused", format!("value of {what}: {x}")),
                };
                let (right, reversed) = (show_bits(&w.p, &t, &part, false), show_bits(&w.p, &t, &part, true));
                if shown != right && shown == reversed && ctx.is_known("array shown backwards") {
                    ctx.count("known finding met by the search: array shown backwards", 1);
                } else if shown != right {
                    return fail("wrong text", format!("{what}, the bits {part}, is {right}, but is shown as {shown}"));
                }
                let c = match call!(format!("{what} == {e}"), sp.compare_field(r, &e, &raw)) {
                    Ok(c) => c,
                    Err(x) => return fail("value refused", format!("{what} == {e}: {x}")),
                };
                let eq = want.to_bits().chars().zip(part.chars()).all(|(e, g)| e == 'x' || e == g);
                if c.matches() != eq {
                    return fail("wrong comparison", format!("{what} is {part}, comparing it to {e} ({}) says {}", want.to_bits(), c.matches()));
                }
                feats.push("values with unknown bits");
            }
            if same {
                feats.push("comparisons of equal values");
            } else {
                feats.push("comparisons of different values");
            }
        }
    }
    Ok((nreads, nwrites, feats))
}

fn check_range(what: &str, got: Result<(u64, u64, bool), String>, (total, from, to): (usize, usize, usize)) -> Result<(), Failure> {
    match got {
        Err(e) => fail("range refused", format!("{what}: {e}")),
        Ok((f, t, full)) => {
            if (f as usize, t as usize) != (from, to) {
                return fail("wrong range", format!("{what} is said to be bits {f}..{t}, expected {from}..{to} of {total}"));
            }
            if full != (from == 0 && to == total) {
                return fail("wrong range", format!("{what}, bits {from}..{to} of {total}, is said to be {} the signal", if full { "all of" } else { "a part of" }));
            }
            Ok(())
        }
    }
}

/// the value of every field inside a written one
fn set_inside(w: &W, fs: &[F], f: &F, t: &Ty, v: &Val, vals: &mut BTreeMap<usize, Val>) {
    if let Some(j) = fs.iter().position(|o| o.arg == f.arg && o.path == f.path) {
        vals.insert(j, v.clone());
    }
    if let (Ty::Named(d), Val::T(vs)) = (t, v) {
        for ((n, ft), fv) in w.p.fields(*d).iter().zip(vs) {
            let mut path = f.path.clone();
            path.push(n.clone());
            set_inside(w, fs, &F { path, ..f.clone() }, ft, fv, vals);
        }
    }
}

/// the value a field going out must have, if it is known
fn read_value(w: &W, fs: &[F], f: &F, drive: &[(usize, Result<usize, Val>)], vals: &BTreeMap<usize, Val>) -> Option<Val> {
    // the leaf this field is (a part of)
    let (k, d) = drive.iter().find(|(k, _)| fs[*k].arg == f.arg && f.path.starts_with(&fs[*k].path))?;
    let rest = &f.path[fs[*k].path.len()..];
    let (base, mut t, mut v): (Option<usize>, Ty, Option<Val>) = match d {
        Err(v) => (None, w.data(&fs[*k].t)?.0, Some(v.clone())),
        Ok(s) => (Some(*s), w.data(&fs[*s].t)?.0, vals.get(s).cloned()),
    };
    let mut at: Vec<String> = base.map(|b| fs[b].path.clone()).unwrap_or_default();
    for n in rest {
        let Ty::Named(d) = &t else { return None };
        let i = w.p.fields(*d).iter().position(|x| x.0 == *n)?;
        let ft = w.p.fields(*d)[i].1.clone();
        v = match v {
            Some(Val::T(vs)) => Some(vs[i].clone()),
            _ => None,
        };
        at.push(n.clone());
        t = ft;
        if v.is_none() {
            if let Some(b) = base {
                let j = fs.iter().position(|o| o.arg == fs[b].arg && o.path == at)?;
                v = vals.get(&j).cloned();
            }
        }
    }
    if v.is_none() {
        // assembled from its parts
        let b = base?;
        v = assemble(w, fs, &fs[b].arg, &at, &t, vals);
    }
    v
}
fn assemble(w: &W, fs: &[F], arg: &Option<String>, at: &[String], t: &Ty, vals: &BTreeMap<usize, Val>) -> Option<Val> {
    let j = fs.iter().position(|o| o.arg == *arg && o.path == at)?;
    if let Some(v) = vals.get(&j) {
        return Some(v.clone());
    }
    let Ty::Named(d) = t else { return None };
    let DefKind::Struct(f) = &w.p.defs[*d].kind else { return None };
    let mut r = vec![];
    for (n, t) in f {
        let mut p = at.to_vec();
        p.push(n.clone());
        r.push(assemble(w, fs, arg, &p, t, vals)?);
    }
    Some(Val::T(r))
}

// ------------------------------------------------------------------- stdout of the code under test

unsafe extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const std::ffi::c_char, flags: i32, ...) -> i32;
    fn close(fd: i32) -> i32;
}
/// the interface prints compilation errors; keep them out of the check's own output
fn quiet<R>(f: impl FnOnce() -> R) -> R {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe {
        let old = dup(1);
        let null = open(c"/dev/null".as_ptr(), 1);
        dup2(null, 1);
        let r = f();
        let _ = std::io::stdout().flush();
        dup2(old, 1);
        close(old);
        close(null);
        r
    }
}

pub fn c17(ctx: &Ctx) {
    ctx.rule("a case counts as non-trivial when at least two fields were written and at least two read back and compared");
    let n = ctx.amount(2500, 60000);
    quiet(|| {
        run_cases(ctx, "fields", &|g| case(ctx, g, false, false), n);
        run_cases(ctx, "fields-std", &|g| case(ctx, g, true, false), n / 10);
        run_cases(ctx, "fields-zst", &|g| case(ctx, g, false, true), n / 5);
    });
}

