//! Type level values: parameters, the arithmetic on them, where clauses and `gen if`.
use super::comb::{sim_vectors, Vector};
use crate::lang::{Prog, Ty, Val};
use crate::runner::*;
use crate::spadec::{self, Opts};
use crate::tape::{self, Gen};
use num::{BigInt, One, Signed, Zero};
use serde_json::{Value, json};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    Int,
    Uint,
    Bool,
    Str,
}
#[derive(Clone, PartialEq, Debug)]
enum V {
    I(BigInt),
    B(bool),
    S(String),
}
#[derive(Clone, Debug)]
enum E {
    Lit(V),
    Par(usize),
    Bin(&'static str, Box<E>, Box<E>),
    Neg(Box<E>),
    Not(Box<E>),
    Bits(bool, Box<E>),
}
use E::*;

fn int(v: i64) -> E {
    Lit(V::I(v.into()))
}
fn bin(o: &'static str, a: E, b: E) -> E {
    Bin(o, Box::new(a), Box::new(b))
}

fn bits_for(signed: bool, v: &BigInt) -> BigInt {
    // the smallest width that can hold v
    let mut w = if signed { 1u32 } else { 0 };
    loop {
        let fits = if signed {
            let h = BigInt::one() << (w - 1);
            *v < h && *v >= -h
        } else {
            *v < (BigInt::one() << w)
        };
        if fits {
            return w.into();
        }
        w += 1;
    }
}

fn eval(e: &E, ps: &[V]) -> V {
    let int = |e: &E| match eval(e, ps) {
        V::I(v) => v,
        _ => panic!(),
    };
    let boo = |e: &E| match eval(e, ps) {
        V::B(v) => v,
        _ => panic!(),
    };
    match e {
        Lit(v) => v.clone(),
        Par(k) => ps[*k].clone(),
        Neg(a) => V::I(-int(a)),
        Not(a) => V::B(!boo(a)),
        Bits(s, a) => V::I(bits_for(*s, &int(a))),
        Bin(o, a, b) => match *o {
            "==" => V::B(eval(a, ps) == eval(b, ps)),
            "!=" => V::B(eval(a, ps) != eval(b, ps)),
            "<" => V::B(int(a) < int(b)),
            ">" => V::B(int(a) > int(b)),
            "<=" => V::B(int(a) <= int(b)),
            ">=" => V::B(int(a) >= int(b)),
            "&&" => V::B(boo(a) && boo(b)),
            "||" => V::B(boo(a) || boo(b)),
            "^^" => V::B(boo(a) ^ boo(b)),
            "+" => V::I(int(a) + int(b)),
            "-" => V::I(int(a) - int(b)),
            "*" => V::I(int(a) * int(b)),
            // rounds towards zero, the remainder has the sign of the dividend
            "/" | "%" => {
                let (x, y) = (int(a), int(b));
                let q = x.abs() / y.abs();
                let q = if x.is_negative() != y.is_negative() { -q } else { q };
                V::I(if *o == "/" { q } else { x - q * y })
            }
            _ => panic!("{o}"),
        },
    }
}

fn lit(v: &V) -> String {
    match v {
        V::I(v) if v.is_negative() => format!("(-{})", -v),
        V::I(v) => v.to_string(),
        V::B(b) => b.to_string(),
        V::S(s) => format!("{s:?}"),
    }
}
fn show(e: &E, names: &[String]) -> String {
    match e {
        Lit(v) => lit(v),
        Par(k) => names[*k].clone(),
        Neg(a) => format!("(-{})", show(a, names)),
        Not(a) => format!("(!{})", show(a, names)),
        Bits(s, a) => format!("{}::bits_for({})", if *s { "int" } else { "uint" }, show(a, names)),
        Bin(o, a, b) => format!("({} {o} {})", show(a, names), show(b, names)),
    }
}
/// as an argument between angle brackets
fn arg(e: &E, names: &[String]) -> String {
    match e {
        Par(k) => names[*k].clone(),
        Lit(V::I(v)) if !v.is_negative() => v.to_string(),
        Lit(v @ V::S(_)) => lit(v),
        Lit(v @ V::B(_)) => lit(v),
        e => {
            let s = show(e, names);
            // the outermost brackets are not needed
            match s.strip_prefix('(').and_then(|s| s.strip_suffix(')')) {
                Some(inner) if matches!(e, Bin(..) | Neg(_) | Not(_)) => format!("{{{inner}}}"),
                _ => format!("{{{s}}}"),
            }
        }
    }
}

const STRS: &[&str] = &["abc", "x", "ABC", "", "q r"];

fn any_lit(g: &mut Gen, k: K) -> V {
    match k {
        K::Bool => V::B(g.bool()),
        K::Str => V::S(g.pick(STRS).to_string()),
        K::Uint | K::Int => {
            let m = match g.below(4) {
                0 => BigInt::from(g.below(4)),
                1 => BigInt::from(g.below(40)),
                2 => BigInt::one() << g.usize(0, 20),
                _ => {
                    let w = g.usize(1, 20);
                    BigInt::from(g.bits(w))
                }
            };
            let m = if g.chance(1, 6) && !m.is_zero() { m - 1 } else { m };
            V::I(if k == K::Int && g.chance(1, 3) { -m } else { m })
        }
    }
}

/// an expression over the parameters `ks`
fn expr(g: &mut Gen, ks: &[K], want: K, d: u32) -> E {
    let own: Vec<usize> = (0..ks.len()).filter(|i| ks[*i] == want || want == K::Int && ks[*i] == K::Uint).collect();
    if d == 0 || g.chance(1, 5) {
        if !own.is_empty() && !g.chance(1, 3) {
            return Par(*g.pick(&own));
        }
        return Lit(any_lit(g, want));
    }
    match want {
        K::Str => {
            if own.is_empty() || g.chance(1, 3) {
                Lit(any_lit(g, want))
            } else {
                Par(*g.pick(&own))
            }
        }
        K::Bool => match g.below(9) {
            0 => Not(Box::new(expr(g, ks, K::Bool, d - 1))),
            1 | 2 => {
                let o = *g.pick(&["&&", "||", "^^"]);
                bin(o, expr(g, ks, K::Bool, d - 1), expr(g, ks, K::Bool, d - 1))
            }
            3 => {
                let o = *g.pick(&["==", "!=", "^^", "&&", "||"]);
                bin(o, expr(g, ks, K::Bool, d - 1), expr(g, ks, K::Bool, d - 1))
            }
            4 => {
                let o = *g.pick(&["==", "!="]);
                bin(o, expr(g, ks, K::Str, d - 1), expr(g, ks, K::Str, d - 1))
            }
            _ => {
                let o = *g.pick(&["==", "!=", "<", ">", "<=", ">="]);
                let a = expr(g, ks, K::Int, d - 1);
                // close or equal operands matter
                let b = match g.below(3) {
                    0 => bin("+", a.clone(), int(g.below(3) as i64 - 1)),
                    _ => expr(g, ks, K::Int, d - 1),
                };
                if g.bool() {
                    bin(o, a, b)
                } else {
                    bin(o, b, a)
                }
            }
        },
        K::Uint => match g.below(5) {
            0 => bin("+", bin("%", expr(g, ks, K::Int, d - 1), int(7)), int(8)),
            1 => Bits(true, Box::new(expr(g, ks, K::Int, d - 1))),
            2 => Bits(false, Box::new(expr(g, ks, K::Uint, d - 1))),
            3 => bin("+", expr(g, ks, K::Uint, d - 1), expr(g, ks, K::Uint, d - 1)),
            _ => bin("*", expr(g, ks, K::Uint, d - 1), expr(g, ks, K::Uint, 0)),
        },
        K::Int => match g.below(9) {
            0 | 1 => bin("+", expr(g, ks, K::Int, d - 1), expr(g, ks, K::Int, d - 1)),
            2 | 3 => bin("-", expr(g, ks, K::Int, d - 1), expr(g, ks, K::Int, d - 1)),
            4 => bin("*", expr(g, ks, K::Int, d - 1), expr(g, ks, K::Int, d - 1)),
            5 | 6 => {
                let o = *g.pick(&["/", "%"]);
                let a = expr(g, ks, K::Int, d - 1);
                let b = if g.bool() {
                    let m = g.usize(1, 12) as i64;
                    int(if g.chance(1, 3) { -m } else { m })
                } else {
                    let m = g.usize(2, 9) as i64;
                    bin("+", bin("%", expr(g, ks, K::Int, d - 1), int(m)), int(m + g.below(3) as i64))
                };
                bin(o, a, b)
            }
            7 => Neg(Box::new(expr(g, ks, K::Int, d - 1))),
            _ => expr(g, ks, K::Uint, d),
        },
    }
}

/// a #uint is not a #int
fn convert(e: E, ks: &[K], want: K) -> E {
    match e {
        Par(k) if ks[k] != want => bin("+", e, int(0)),
        e => e,
    }
}
fn without_neg(e: E) -> E {
    match e {
        Neg(a) => bin("-", int(0), without_neg(*a)),
        Not(a) => Not(Box::new(without_neg(*a))),
        Bits(s, a) => Bits(s, Box::new(without_neg(*a))),
        Bin(o, a, b) => bin(o, without_neg(*a), without_neg(*b)),
        e => e,
    }
}
fn small(e: E) -> E {
    bin("%", e, int(100003))
}

/// one value that a unit returns
#[derive(Clone, Debug)]
enum C {
    I(E),
    B(E),
    W(E),
    Call(usize, Vec<E>),
    /// the second parameter of unit `.0` follows from its where clause
    Infer(usize, E),
}
struct F {
    ks: Vec<K>,
    wheres: Vec<(usize, &'static str, E)>,
    /// conditions and results; the last result has no condition
    arms: Vec<(Option<E>, Vec<C>)>,
}
struct Infer {
    e: E,
}

const WIDE: u32 = 500;

fn ctype(fs: &[F], c: &C) -> Ty {
    match c {
        C::I(_) | C::W(_) | C::Infer(..) => Ty::Int(WIDE),
        C::B(_) => Ty::Bool,
        C::Call(k, _) => ftype(fs, *k),
    }
}
fn ftype(fs: &[F], k: usize) -> Ty {
    Ty::Tup(fs[k].arms[0].1.iter().map(|c| ctype(fs, c)).collect())
}
fn run(fs: &[F], inf: &[Infer], k: usize, ps: &[V]) -> Val {
    let arm = fs[k].arms.iter().find(|(c, _)| c.as_ref().is_none_or(|c| eval(c, ps) == V::B(true))).unwrap();
    let num = |v: V| match v {
        V::I(v) => Val::I(v),
        V::B(b) => Val::B(b),
        _ => panic!(),
    };
    Val::T(
        arm.1
            .iter()
            .map(|c| match c {
                C::I(e) | C::B(e) | C::W(e) => num(eval(e, ps)),
                C::Call(j, a) => run(fs, inf, *j, &a.iter().map(|e| eval(e, ps)).collect::<Vec<_>>()),
                C::Infer(j, a) => num(eval(&inf[*j].e, &[eval(a, ps)])),
            })
            .collect(),
    )
}
fn tname(t: &Ty) -> String {
    match t {
        Ty::Bool => "bool".into(),
        Ty::Int(w) => format!("int<{w}>"),
        Ty::Tup(v) => format!("({},)", v.iter().map(tname).collect::<Vec<_>>().join(", ")),
        _ => panic!(),
    }
}
fn params(ks: &[K], names: &[String]) -> String {
    let v: Vec<_> = ks
        .iter()
        .zip(names)
        .map(|(k, n)| {
            let m = match k {
                K::Int => "int",
                K::Uint => "uint",
                K::Bool => "bool",
                K::Str => "str",
            };
            format!("#{m} {n}")
        })
        .collect();
    format!("<{}>", v.join(", "))
}
fn names(n: usize) -> Vec<String> {
    (0..n).map(|k| ["A", "B", "C", "D"][k].to_string()).collect()
}

pub fn unit(g: &mut Gen, pre: &str) -> Made {
    let mut fs: Vec<F> = vec![];
    let mut inf: Vec<Infer> = vec![];
    let n = g.usize(1, 3);
    let args_for = |g: &mut Gen, fs: &[F], j: usize, ks: &[K], d: u32| -> Vec<E> {
        fs[j].ks
            .clone()
            .iter()
            .map(|k| {
                let e = convert(expr(g, ks, *k, d), ks, *k);
                match (k, &e) {
                    (K::Int | K::Uint, Par(_) | Lit(_)) => e,
                    (K::Int | K::Uint, _) => small(e),
                    _ => e,
                }
            })
            .collect()
    };
    if g.bool() {
        let e = expr(g, &[K::Int], K::Int, 2);
        inf.push(Infer { e });
    }
    for k in 0..n {
        let ks: Vec<K> = (0..g.usize(1, 4)).map(|_| *g.pick(&[K::Int, K::Int, K::Uint, K::Bool, K::Str])).collect();
        let mut shape: Vec<usize> = (0..g.usize(1, 3)).map(|_| g.weighted(&[4, 4, 2, 0, if inf.is_empty() { 0 } else { 1 }])).collect();
        let callee = g.below(k.max(1) as u64) as usize;
        if k > 0 {
            shape.push(3);
            if g.chance(1, 3) {
                shape.push(3);
            }
        }
        let mut results = |g: &mut Gen| -> Vec<C> {
            shape
                .iter()
                .map(|s| match s {
                    0 => C::I({
                        let d = g.usize(1, 3) as u32;
                        convert(expr(g, &ks, K::Int, d), &ks, K::Int)
                    }),
                    1 => C::B({
                        let d = g.usize(1, 3) as u32;
                        expr(g, &ks, K::Bool, d)
                    }),
                    2 => C::W(bin("+", bin("%", expr(g, &ks, K::Int, 2), int(30)), int(40))),
                    3 => C::Call(callee, args_for(g, &fs, callee, &ks, 2)),
                    _ => C::Infer(0, small(expr(g, &ks, K::Int, 1))),
                })
                .collect()
        };
        let mut arms = vec![];
        for _ in 0..g.weighted(&[3, 2, 1]) {
            let c = expr(g, &ks, K::Bool, 2);
            arms.push((Some(c), results(g)));
        }
        arms.push((None, results(g)));
        // where clauses that always hold
        let ints: Vec<usize> = (0..ks.len()).filter(|i| matches!(ks[*i], K::Int | K::Uint)).collect();
        let mut wheres = vec![];
        if !ints.is_empty() && g.chance(1, 3) {
            let p = *g.pick(&ints);
            let sq = bin("*", Par(p), Par(p));
            wheres.push(match g.below(6) {
                0 => (p, "<=", sq),
                1 => (p, "<", bin("+", sq, int(1))),
                2 => (p, "!=", bin("+", Par(p), int(1))),
                3 => (p, ">=", Neg(Box::new(sq))),
                4 => (p, ">", bin("-", Neg(Box::new(sq)), int(1))),
                _ => (p, "==", bin("+", bin("*", bin("/", Par(p), int(3)), int(3)), bin("%", Par(p), int(3)))),
            });
        }
        fs.push(F { ks, wheres, arms });
    }
    let top = n - 1;
    let insts: Vec<Vec<V>> = (0..g.usize(2, 4)).map(|_| fs[top].ks.clone().iter().map(|k| any_lit(g, *k)).collect()).collect();

    let mut s = String::new();
    s += &format!("fn {pre}i<#int N>() -> int<{WIDE}> {{ N }}\n");
    s += &format!("fn {pre}b<#bool N>() -> bool {{ N }}\n");
    s += &format!("fn {pre}w<#uint W>(x: uint<W>) -> int<{WIDE}> {{ W }}\n");
    for (k, i) in inf.iter().enumerate() {
        s += &format!("fn {pre}e{k}<#int A, #int B>() -> int<{WIDE}> where B: {{ {} }} {{ {pre}i::<B>() }}\n", show(&i.e, &names(1)));
    }
    for (k, f) in fs.iter().enumerate() {
        let nm = names(f.ks.len());
        let w: Vec<_> = f.wheres.iter().map(|(p, o, e)| format!("{} {o} {}{}", nm[*p], show(e, &nm), if k % 2 == 0 { " else \"msg\"" } else { "" })).collect();
        let w = if w.is_empty() { String::new() } else { format!(" where {}", w.join(", ")) };
        let mut body = String::new();
        for (n, (c, cs)) in f.arms.iter().enumerate() {
            let mut lets = String::new();
            let vs: Vec<_> = cs
                .iter()
                .enumerate()
                .map(|(q, c)| match c {
                    C::I(e) => format!("{pre}i::<{}>()", arg(e, &nm)),
                    C::B(e) => format!("{pre}b::<{}>()", arg(e, &nm)),
                    C::W(e) => {
                        lets += &format!("let v{q}: uint<{}> = 1; ", arg(e, &nm));
                        format!("{pre}w(v{q})")
                    }
                    C::Call(j, a) => format!("{pre}f{j}::<{}>()", a.iter().map(|e| arg(e, &nm)).collect::<Vec<_>>().join(", ")),
                    C::Infer(j, e) => format!("{pre}e{j}::<{}, _>()", arg(e, &nm)),
                })
                .collect();
            let blk = format!("{{ {lets}({},) }}", vs.join(", "));
            match c {
                Some(c) => body += &format!("{}if {} {blk} else ", if n == 0 { "gen " } else { "" }, show(c, &nm)),
                None if n == 0 => body = format!("{lets}({},)", vs.join(", ")),
                None => body += &blk,
            }
        }
        s += &format!("fn {pre}f{k}{}() -> {}{w} {{ {body} }}\n", params(&f.ks, &nm), tname(&ftype(&fs, k)));
    }
    // a trait whose method has a type that depends on both parameters, and the same type in its impls
    let mut extra = vec![];
    if g.chance(1, 2) {
        let e = bin("+", bin("%", expr(g, &[K::Int, K::Int], K::Int, 3), int(30)), int(40));
        // `-5` is a literal, `-N` is not, and the types are compared as they are written
        let e = without_neg(e);
        let own = any_lit(g, K::Uint);
        let n = |a: &str, b: &str| vec![a.to_string(), b.to_string()];
        let ty = |v: &[String]| arg(&e, v);
        s += &format!("trait {pre}T<#int N> {{ fn {pre}m<#int M>(self) -> uint<{}>; }}\n", ty(&n("N", "M")));
        s += &format!("struct {pre}S {{}}\nimpl {pre}T<{}> for {pre}S {{ fn {pre}m<#int Q>(self) -> uint<{}> {{ 1 }} }}\n", arg(&Lit(own.clone()), &[]), ty(&n(&lit(&own), "Q")));
        s += &format!("struct {pre}R<#int A> {{}}\nimpl<#int A> {pre}T<A> for {pre}R<A> {{ fn {pre}m<#int M>(self) -> uint<{}> {{ 1 }} }}\n", ty(&n("A", "M")));
        for k in 0..g.usize(1, 3) {
            let m = any_lit(g, K::Int);
            let a = if k == 0 { own.clone() } else { any_lit(g, K::Int) };
            let me = if k == 0 { format!("{pre}S()") } else { format!("{pre}R::<{}>()", arg(&Lit(a.clone()), &[])) };
            let V::I(v) = eval(&e, &[a, m.clone()]) else { panic!() };
            extra.push((format!("{pre}w({me}.{pre}m::<{}>())", arg(&Lit(m), &[])), v));
        }
    }
    // a parameter of a trait used as it is
    if !extra.is_empty() && g.bool() {
        let k = 1 + g.below(40);
        s += &format!("trait {pre}P<#uint N> {{ fn {pre}q(self, a: uint<N>, b: [bool; N]) -> uint<N>; }}\n");
        s += &format!("impl {pre}P<{k}> for {pre}S {{ fn {pre}q(self, a: uint<{k}>, b: [bool; {k}]) -> uint<{k}> {{ a }} }}\n");
        s += &format!("struct {pre}Q<#uint A> {{}}\nimpl<#uint A> {pre}P<A> for {pre}Q<A> {{ fn {pre}q(self, a: uint<A>, b: [bool; A]) -> uint<A> {{ a }} }}\n");
        extra.push((format!("{pre}w({pre}S().{pre}q(1, [true; {k}]))"), k.into()));
        let k = 1 + g.below(40);
        extra.push((format!("{pre}w({pre}Q::<{k}>().{pre}q(1, [true; {k}]))"), k.into()));
    }
    let ret = Ty::Tup(insts.iter().map(|_| ftype(&fs, top)).chain(extra.iter().map(|_| Ty::Int(WIDE))).collect());
    let calls: Vec<_> = insts.iter().map(|i| format!("{pre}f{top}::<{}>()", i.iter().map(|v| arg(&Lit(v.clone()), &[])).collect::<Vec<_>>().join(", "))).chain(extra.iter().map(|x| x.0.clone())).collect();
    s += &format!("fn {pre}top(c: bool) -> {} {{ ({},) }}\n", tname(&ret), calls.join(", "));

    let want = Val::T(insts.iter().map(|i| run(&fs, &inf, top, i)).chain(extra.iter().map(|x| Val::I(x.1.clone()))).collect());
    let prog = Prog::default();
    let fits = |v: &Val| -> bool {
        fn go(v: &Val) -> bool {
            match v {
                Val::T(v) => v.iter().all(go),
                Val::I(v) => v.bits() < WIDE as u64 - 1,
                _ => true,
            }
        }
        go(v)
    };
    assert!(fits(&want));
    let vs = vec![Vector { args: vec![Val::B(true)], bits: vec![prog.encode(&Ty::Bool, &Val::B(true))], want: prog.encode(&ret, &want) }];
    let differ = match &want {
        Val::T(v) => v.iter().any(|x| *x != v[0]),
        _ => false,
    };
    let module = format!("{pre}top");
    let mut feats = vec![];
    for (k, n) in [("gen if", "gen if"), ("#str", "text parameter"), ("#bool", "truth-value parameter"), (" / ", "division"), (" % ", "remainder"), ("bits_for", "bits_for"), ("where B: {", "inferred by a where clause"), (" ^^ ", "exclusive or"), ("trait ", "methods with a computed type"), ("f1::<", "forwarded arguments")] {
        if s.contains(k) {
            feats.push(n);
        }
    }
    Made {
        nontrivial: if differ { Some(tape::hash_str(&s)) } else { None },
        sample: json!({"source": s, "expected": format!("{want:?}")}),
        src: s,
        std: false,
        feats,
        judge: Box::new(move |bt: &Built| sim_vectors(bt.design, &module, &["c".to_string()], &vs, &|_| String::new())),
    }
}

/// one unit with where clauses and one use: accepted exactly if they hold
fn wheres(g: &mut Gen) -> Result<CaseOk, (Failure, Value)> {
    let mut ks = vec![K::Int];
    for _ in 0..g.usize(0, 2) {
        ks.push(*g.pick(&[K::Int, K::Uint]));
    }
    let vals: Vec<V> = ks.iter().map(|k| any_lit(g, *k)).collect();
    let nm = names(ks.len());
    let mut cl = vec![];
    for _ in 0..g.usize(1, 2) {
        let p = g.below(ks.len() as u64) as usize;
        let o = *g.pick(&["==", "!=", "<", ">", "<=", ">=", ":"]);
        // mostly near the value
        let d = g.usize(0, 2) as u32;
        let e = expr(g, &ks, K::Int, d);
        let e = if g.chance(3, 4) {
            let (V::I(a), V::I(b)) = (eval(&e, &vals), &vals[p]) else { panic!() };
            bin("+", e, Lit(V::I(b - a + BigInt::from(g.below(3)) - 1)))
        } else {
            e
        };
        cl.push((p, o, e));
    }
    let holds = cl.iter().all(|(p, o, e)| eval(&bin(if *o == ":" { "==" } else { o }, Par(*p), e.clone()), &vals) == V::B(true));
    let via = g.bool();
    let text: Vec<_> = cl
        .iter()
        .map(|(p, o, e)| {
            let e = show(e, &nm);
            if *o == ":" {
                format!("{}: {{ {e} }}", nm[*p])
            } else {
                format!("{} {o} {e}{}", nm[*p], if e.len() % 2 == 0 { " else \"no\"" } else { "" })
            }
        })
        .collect();
    let args = vals.iter().map(|v| arg(&Lit(v.clone()), &[])).collect::<Vec<_>>().join(", ");
    let mut s = format!("fn f{}(x: bool) -> bool where {} {{ x }}\n", params(&ks, &nm), text.join(", "));
    if via {
        s += &format!("fn h{}(x: bool) -> bool {{ f::<{}>(x) }}\n", params(&ks, &nm), nm.join(", "));
    }
    s += &format!("fn top(x: bool) -> bool {{ {}::<{args}>(x) }}\n", if via { "h" } else { "f" });
    beat(&s);
    let o = spadec::run(&spadec::single(&s), &Opts { std: false, ..Default::default() });
    let bad = |c: String, m: String| Err((Failure { class: c, msg: m }, json!({"source": s})));
    if let Some(p) = &o.panic {
        return bad(format!("panic {}", norm_panic(p)), format!("the compiler panicked: {p}"));
    }
    if o.ok != holds {
        return bad(if holds { format!("where reject {}", norm_msg(&o.first_error())) } else { "where accepted".into() }, format!("the where clauses {} but the program was {}", if holds { "hold" } else { "do not hold" }, if o.ok { "accepted" } else { "rejected" }));
    }
    let mut feats = vec![if holds { "where clauses hold" } else { "where clauses do not hold" }];
    if via {
        feats.push("through another generic unit");
    }
    Ok(CaseOk { nontrivial: Some(tape::hash_str(&s)), sample: json!({"source": s, "holds": holds}), feats })
}

pub fn jobs(ctx: &Ctx) {
    let n = ctx.amount(1500, 40000);
    run_units(ctx, "const", &|g: &mut Gen, pre: &str| unit(g, pre), &Opts { std: false, ..Default::default() }, n, 12);
    let n = ctx.amount(1500, 40000);
    run_cases(ctx, "where", &wheres, n);
}
