//! The standard library's combinational functions against models of what their documentation says (C06).
use super::comb::{fill, sim_vectors, Vector};
use crate::lang::*;
use crate::runner::*;
use crate::spadec::Opts;
use crate::tape::{self, Gen};
use num::{BigInt, One, Signed, Zero};
use serde_json::json;
use std::collections::HashSet;

pub struct Tc {
    pub what: &'static str,
    pub params: Vec<Ty>,
    pub ret: Ty,
    /// printed before the unit
    pub items: String,
    /// the expression; parameters are a0, a1, ...
    pub body: String,
    pub f: Box<dyn Fn(&[Val]) -> Val>,
}

pub fn ty_s(t: &Ty) -> String {
    Printer { p: &Prog::default(), n: Names::plain("") }.ty(t)
}
fn arr(t: &Ty, n: usize) -> Ty {
    Ty::Arr(Box::new(t.clone()), n as u32)
}
fn opt(t: &Ty) -> Ty {
    Ty::Opt(Box::new(t.clone()))
}
fn tv(v: &Val) -> Vec<Val> {
    match v {
        Val::T(v) => v.clone(),
        v => panic!("not an aggregate: {v:?}"),
    }
}
fn iv(v: &Val) -> BigInt {
    match v {
        Val::I(v) => v.clone(),
        v => panic!("not an integer: {v:?}"),
    }
}
fn bv(v: &Val) -> bool {
    match v {
        Val::B(v) => *v,
        v => panic!("not a bool: {v:?}"),
    }
}
fn bits_of(v: &BigInt, n: u32) -> Vec<bool> {
    let u = wrap_u(v, n);
    (0..n).map(|i| ((&u >> i as usize) & BigInt::one()).is_one()).collect()
}
fn from_bits(b: &[bool]) -> BigInt {
    b.iter().enumerate().fold(BigInt::zero(), |a, (i, x)| if *x { a | (BigInt::one() << i) } else { a })
}
fn val_bits(v: &Val) -> Vec<bool> {
    tv(v).iter().map(bv).collect()
}
fn some(v: Val) -> Val {
    Val::E(1, vec![v])
}
fn none() -> Val {
    Val::E(0, vec![])
}

pub fn elem_ty(g: &mut Gen, d: u32) -> Ty {
    match g.below(if d == 0 { 5 } else { 9 }) {
        0 => Ty::UInt(g.range(1, 9) as u32),
        1 => Ty::Bool,
        2 | 3 => Ty::Int(g.range(1, 9) as u32),
        4 => Ty::UInt(g.range(1, 70) as u32),
        5 | 6 => Ty::Tup((0..g.usize(2, 3)).map(|_| elem_ty(g, d - 1)).collect()),
        7 => Ty::Arr(Box::new(elem_ty(g, d - 1)), g.range(1, 3) as u32),
        _ => Ty::Opt(Box::new(elem_ty(g, d - 1))),
    }
}
type F1 = std::rc::Rc<dyn Fn(&Val) -> Val>;
/// lambda T -> O
fn lambda(g: &mut Gen, t: &Ty) -> (String, Ty, F1) {
    let rc = |f: Box<dyn Fn(&Val) -> Val>| -> F1 { f.into() };
    match (t, g.below(4)) {
        (Ty::UInt(n), 0) => {
            let (n, k) = (*n, BigInt::from(g.below(1 << (*n).min(8))));
            (format!("fn |x| x +. {k}"), t.clone(), rc(Box::new(move |v| Val::I(wrap_u(&(iv(v) + &k), n)))))
        }
        (Ty::Int(n), 0) => {
            let n = *n;
            (format!("fn |x| x -. x -. x"), t.clone(), rc(Box::new(move |v| Val::I(wrap_s(&(-iv(v)), n)))))
        }
        (Ty::Int(_) | Ty::UInt(_), 1) => {
            let v = Prog::default().gen_val(g, t);
            let k = iv(&v);
            (format!("fn |x| x > {k}"), Ty::Bool, rc(Box::new(move |v| Val::B(iv(v) > k))))
        }
        (Ty::Bool, 0) => ("fn |x| !x".into(), Ty::Bool, rc(Box::new(|v| Val::B(!bv(v))))),
        (Ty::Bool, 1) => ("fn |x| if x { 5u3 } else { 2 }".into(), Ty::UInt(3), rc(Box::new(|v| Val::I(if bv(v) { 5 } else { 2 }.into())))),
        (Ty::Opt(_), 0 | 1) => ("fn |x| x.is_some()".into(), Ty::Bool, rc(Box::new(|v| Val::B(matches!(v, Val::E(1, _)))))),
        (Ty::Tup(ts), 0 | 1) => (format!("fn |({}z)| z", "_, ".repeat(ts.len() - 1)), ts[ts.len() - 1].clone(), rc(Box::new(|v| tv(v).last().unwrap().clone()))),
        (_, 2) => ("fn |x| (x, true)".into(), Ty::Tup(vec![t.clone(), Ty::Bool]), rc(Box::new(|v| Val::T(vec![v.clone(), Val::B(true)])))),
        _ => ("fn |y| y".into(), t.clone(), rc(Box::new(|v| v.clone()))),
    }
}
fn pred(g: &mut Gen, t: &Ty) -> (String, F1) {
    for _ in 0..20 {
        let (s, o, f) = lambda(g, t);
        if o == Ty::Bool {
            return (s, f);
        }
    }
    ("fn |_| true".into(), std::rc::Rc::new(|_| Val::B(true)))
}
fn w(g: &mut Gen) -> u32 {
    match g.below(8) {
        0..=4 => g.range(1, 9) as u32,
        5 | 6 => g.range(1, 34) as u32,
        _ => g.range(30, 130) as u32,
    }
}

pub fn build(g: &mut Gen) -> Tc {
    let k = g.below(62);
    let n = if g.chance(1, 12) { 0 } else { g.usize(1, 7) };
    let n1 = n.max(1);
    let t = elem_ty(g, 2);
    let nil = String::new;
    macro_rules! tc {
        ($what:expr, $params:expr, $ret:expr, $body:expr, $f:expr) => {
            Tc { what: $what, params: $params, ret: $ret, items: nil(), body: $body.to_string(), f: Box::new($f) }
        };
    }
    match k {
        // ------------------------------------------------ arrays
        0 => {
            let (s, o, f) = (|| {
                for _ in 0..30 {
                    let (s, o, f) = lambda(g, &t);
                    if o == t {
                        return (s, o, f);
                    }
                }
                ("fn |x| x".to_string(), t.clone(), std::rc::Rc::new(|v: &Val| v.clone()) as F1)
            })();
            tc!("unfold", vec![t.clone()], arr(&o, n), format!("std::array::unfold::<{}, {n}>(a0, {s})", ty_s(&t)), move |a| {
                let mut v = vec![];
                let mut x = a[0].clone();
                for _ in 0..n {
                    v.push(x.clone());
                    x = f(&x);
                }
                Val::T(v)
            })
        }
        1 => {
            let (s, f) = pred(g, &t);
            tc!("all", vec![arr(&t, n)], Ty::Bool, format!("a0.all({s})"), move |a| Val::B(tv(&a[0]).iter().all(|x| bv(&f(x)))))
        }
        2 => {
            let (s, f) = pred(g, &t);
            tc!("any", vec![arr(&t, n)], Ty::Bool, format!("a0.any({s})"), move |a| Val::B(tv(&a[0]).iter().any(|x| bv(&f(x)))))
        }
        3 => {
            let c = g.usize(1, 4);
            let m = g.usize(1, 4);
            tc!("chunks", vec![arr(&t, c * m)], arr(&arr(&t, c), m), format!("a0.chunks::<{c}>()"), move |a| {
                Val::T(tv(&a[0]).chunks(c).map(|x| Val::T(x.to_vec())).collect())
            })
        }
        4 => {
            let m = g.usize(0, 5);
            let s = *g.pick(&["a0.concat(a1)", "a0 `concat_arrays` a1", "concat_arrays(a0, a1)"]);
            let s = s.replace("concat_arrays", "std::conv::concat_arrays");
            let s = if s.contains('`') { "std::conv::concat_arrays(a0, a1)".into() } else { s };
            tc!("concat arrays", vec![arr(&t, n), arr(&t, m)], arr(&t, n + m), s, |a| Val::T([tv(&a[0]), tv(&a[1])].concat()))
        }
        5 => {
            let s = *g.pick(&["a0.reversed()", "std::conv::flip_array(a0)"]);
            tc!("reversed", vec![arr(&t, n)], arr(&t, n), s, |a| Val::T(tv(&a[0]).into_iter().rev().collect()))
        }
        6 => {
            let q = w(g).min(40);
            let e = Ty::UInt(q);
            tc!("fold", vec![arr(&e, n), e.clone()], e.clone(), "a0.fold(a1, fn |acc, x| (acc +. acc) ^ x)", move |a| {
                Val::I(tv(&a[0]).iter().fold(iv(&a[1]), |acc, x| wrap_u(&(&acc + &acc), q) ^ iv(x)))
            })
        }
        7 => {
            // fold over any type: keeps the last two
            let r = Ty::Tup(vec![t.clone(), t.clone()]);
            tc!("fold", vec![arr(&t, n), r.clone()], r.clone(), "a0.fold(a1, fn |(p, q), x| (q, x))", |a| {
                tv(&a[0]).into_iter().fold(a[1].clone(), |acc, x| Val::T(vec![tv(&acc)[1].clone(), x]))
            })
        }
        8 => {
            let s = *g.pick(&["a0.interleave(a1)", "std::conv::interleave_arrays(a0, a1)"]);
            let s = s.replace("std::conv", "std::array");
            tc!("interleave", vec![arr(&t, n), arr(&t, n)], arr(&t, 2 * n), s, |a| {
                Val::T(tv(&a[0]).into_iter().zip(tv(&a[1])).flat_map(|(x, y)| [x, y]).collect())
            })
        }
        9 | 10 => {
            let (s, o, f) = lambda(g, &t);
            tc!("map", vec![arr(&t, n)], arr(&o, n), format!("a0.map({s})"), move |a| Val::T(tv(&a[0]).iter().map(|x| f(x)).collect()))
        }
        11 => tc!("push_back", vec![arr(&t, n), t.clone()], arr(&t, n + 1), "a0.push_back(a1)", |a| Val::T([tv(&a[0]), vec![a[1].clone()]].concat())),
        12 => tc!("push_front", vec![arr(&t, n), t.clone()], arr(&t, n + 1), "a0.push_front(a1)", |a| Val::T([vec![a[1].clone()], tv(&a[0])].concat())),
        13 => {
            let m = g.usize(1, n1);
            tc!("sliding_window", vec![arr(&t, n1)], arr(&arr(&t, m), n1 - m + 1), format!("a0.sliding_window::<{m}>()"), move |a| {
                Val::T(tv(&a[0]).windows(m).map(|x| Val::T(x.to_vec())).collect())
            })
        }
        14 => {
            let m = g.usize(0, n);
            tc!("split_at", vec![arr(&t, n)], Ty::Tup(vec![arr(&t, m), arr(&t, n - m)]), format!("a0.split_at::<{m}>()"), move |a| {
                let v = tv(&a[0]);
                Val::T(vec![Val::T(v[..m].to_vec()), Val::T(v[m..].to_vec())])
            })
        }
        15 => {
            let u = elem_ty(g, 1);
            let s = *g.pick(&["a0.zip(a1)", "std::array::zip(a0, a1)"]);
            tc!("zip", vec![arr(&t, n), arr(&u, n)], arr(&Ty::Tup(vec![t.clone(), u.clone()]), n), s, |a| {
                Val::T(tv(&a[0]).into_iter().zip(tv(&a[1])).map(|(x, y)| Val::T(vec![x, y])).collect())
            })
        }
        16 => {
            let bf = 64 - (n as u64).leading_zeros();
            tc!("len", vec![arr(&t, n)], Ty::UInt(bf), "a0.len()", move |_| Val::I(n.into()))
        }
        17 => tc!("first", vec![arr(&t, n1)], t.clone(), "a0.first()", |a| tv(&a[0])[0].clone()),
        18 => tc!("last", vec![arr(&t, n1)], t.clone(), "a0.last()", |a| tv(&a[0]).last().unwrap().clone()),
        19 => {
            let q = w(g).min(40);
            let e = Ty::UInt(q);
            tc!("reduce", vec![arr(&e, n1)], e.clone(), "a0.reduce(fn |l, r| (l +. l) ^ r)", move |a| {
                Val::I(tv(&a[0]).iter().map(iv).reduce(|acc, x| wrap_u(&(&acc + &acc), q) ^ x).unwrap())
            })
        }
        20 => tc!("shift_back", vec![arr(&t, n1), t.clone()], arr(&t, n1), "a0.shift_back(a1)", |a| Val::T([tv(&a[0])[1..].to_vec(), vec![a[1].clone()]].concat())),
        21 => tc!("shift_front", vec![arr(&t, n1), t.clone()], arr(&t, n1), "a0.shift_front(a1)", |a| {
            let v = tv(&a[0]);
            Val::T([vec![a[1].clone()], v[..v.len() - 1].to_vec()].concat())
        }),
        22 => {
            let u = elem_ty(g, 1);
            tc!("unzip", vec![arr(&Ty::Tup(vec![t.clone(), u.clone()]), n)], Ty::Tup(vec![arr(&t, n), arr(&u, n)]), "a0.unzip()", |a| {
                let v = tv(&a[0]);
                Val::T(vec![Val::T(v.iter().map(|x| tv(x)[0].clone()).collect()), Val::T(v.iter().map(|x| tv(x)[1].clone()).collect())])
            })
        }
        23 => {
            let m = g.usize(1, 3);
            tc!("flatten", vec![arr(&arr(&t, m), n)], arr(&t, n * m), "a0.flatten()", |a| Val::T(tv(&a[0]).iter().flat_map(tv).collect()))
        }
        24..=26 => {
            let m = g.usize(1, 12);
            let op = ["and", "or", "xor"][(k - 24) as usize];
            let s = *g.pick(&["a0.reduce_OP()", "std::ops::reduce_OP(a0)"]);
            tc!("reduce_and/or/xor", vec![arr(&Ty::Bool, m)], Ty::Bool, s.replace("OP", op), move |a| {
                let b = val_bits(&a[0]);
                Val::B(match op {
                    "and" => b.iter().all(|x| *x),
                    "or" => b.iter().any(|x| *x),
                    _ => b.iter().fold(false, |a, x| a ^ x),
                })
            })
        }
        // ------------------------------------------------ Option
        27 => tc!("is_some", vec![opt(&t)], Ty::Bool, "a0.is_some()", |a| Val::B(matches!(a[0], Val::E(1, _)))),
        28 => tc!("is_none", vec![opt(&t)], Ty::Bool, "a0.is_none()", |a| Val::B(matches!(a[0], Val::E(0, _)))),
        29 => tc!("unwrap_or", vec![opt(&t), t.clone()], t.clone(), "a0.unwrap_or(a1)", |a| match &a[0] {
            Val::E(1, v) => v[0].clone(),
            _ => a[1].clone(),
        }),
        30 => tc!("unwrap_or_undef", vec![opt(&t)], t.clone(), "a0.unwrap_or_undef()", |a| match &a[0] {
            Val::E(1, v) => v[0].clone(),
            _ => Val::U,
        }),
        31 | 32 => {
            let (s, o, f) = lambda(g, &t);
            tc!("Option::map", vec![opt(&t)], opt(&o), format!("a0.map({s})"), move |a| match &a[0] {
                Val::E(1, v) => some(f(&v[0])),
                _ => none(),
            })
        }
        33 => {
            let (s, f) = pred(g, &t);
            tc!("Option::and_then", vec![opt(&t)], opt(&t), format!("{{ let p = {s}; a0.and_then(fn |q| if p.call((q,)) {{ Some(q) }} else {{ None }}) }}"), move |a| match &a[0] {
                Val::E(1, v) if bv(&f(&v[0])) => some(v[0].clone()),
                _ => none(),
            })
        }
        34 => {
            let e = Ty::UInt(w(g).min(5));
            let op = *g.pick(&["==", "!="]);
            tc!("Option ==", vec![opt(&e), opt(&e)], Ty::Bool, format!("a0 {op} a1"), move |a| Val::B((a[0] == a[1]) == (op == "==")))
        }
        // ------------------------------------------------ numbers
        35 => {
            let q = w(g);
            let s = *g.pick(&["a0.abs()", "std::num::abs(a0)"]);
            tc!("abs", vec![Ty::Int(q)], Ty::UInt(q), s, |a| Val::I(iv(&a[0]).abs()))
        }
        36 => {
            let q = w(g);
            tc!("abs_trunc", vec![Ty::Int(q)], Ty::Int(q), "std::ops::abs_trunc(a0)", move |a| Val::I(wrap_s(&iv(&a[0]).abs(), q)))
        }
        37..=39 => {
            let q = w(g);
            let signed = g.bool();
            let e = if signed { Ty::Int(q) } else { Ty::UInt(q) };
            let mx = g.bool();
            let m = if mx { "max" } else { "min" };
            let s = if signed && g.chance(1, 3) { format!("std::ops::{m}(a0, a1)") } else { format!("a0.{m}(a1)") };
            tc!("min/max", vec![e.clone(), e.clone()], e.clone(), s, move |a| {
                let (x, y) = (iv(&a[0]), iv(&a[1]));
                Val::I(if mx { x.max(y) } else { x.min(y) })
            })
        }
        40 => {
            let q = w(g);
            tc!("order", vec![Ty::Int(q), Ty::Int(q)], Ty::Tup(vec![Ty::Int(q), Ty::Int(q)]), "std::ops::order(a0, a1)", |a| {
                let (x, y) = (iv(&a[0]), iv(&a[1]));
                Val::T(vec![Val::I(x.clone().min(y.clone())), Val::I(x.max(y))])
            })
        }
        41 | 42 => {
            let (p, q) = (w(g), w(g));
            let signed = g.bool();
            let mk = move |n| if signed { Ty::Int(n) } else { Ty::UInt(n) };
            let s = *g.pick(&["a0.concat(a1)", "std::num::concat(a0, a1)"]);
            tc!("integer concat", vec![mk(p), mk(q)], mk(p + q), s, move |a| {
                let v = (wrap_u(&iv(&a[0]), p) << q as usize) | wrap_u(&iv(&a[1]), q);
                Val::I(wrap(&mk(p + q), &v))
            })
        }
        43 | 44 => {
            let p = w(g);
            let q = g.range(1, p as u64) as u32;
            let signed = g.bool();
            let mk = move |n| if signed { Ty::Int(n) } else { Ty::UInt(n) };
            let s = if g.bool() { format!("a0.trunc::<{q}>()") } else { "std::num::trunc(a0)".into() };
            tc!("trunc", vec![mk(p)], mk(q), s, move |a| Val::I(wrap(&mk(q), &iv(&a[0]))))
        }
        45 => {
            let p = w(g);
            let q = p + g.below(40) as u32;
            tc!("sext", vec![Ty::Int(p)], Ty::Int(q), "std::num::sext(a0)", |a| a[0].clone())
        }
        46 => {
            let p = w(g);
            let q = p + g.below(40) as u32;
            tc!("zext", vec![Ty::UInt(p)], Ty::UInt(q), "std::num::zext(a0)", |a| a[0].clone())
        }
        47 => {
            let q = w(g).min(40);
            let s = *g.pick(&["a0.interleave(a1)", "std::ops::interleave(a0, a1)"]);
            tc!("integer interleave", vec![Ty::UInt(q), Ty::UInt(q)], Ty::UInt(2 * q), s, move |a| {
                let (x, y) = (bits_of(&iv(&a[0]), q), bits_of(&iv(&a[1]), q));
                Val::I(from_bits(&x.into_iter().zip(y).flat_map(|(a, b)| [a, b]).collect::<Vec<_>>()))
            })
        }
        48 => {
            let q = w(g);
            let s = *g.pick(&["a0.to_gray().as_bits().as_uint()", "std::ops::bin_to_gray(a0)"]);
            tc!("binary to Gray", vec![Ty::UInt(q)], Ty::UInt(q), s, |a| Val::I(iv(&a[0]) ^ (iv(&a[0]) >> 1)))
        }
        49 => {
            let q = w(g).min(20);
            let s = *g.pick(&["std::num::Gray(a0).to_uint()", "std::ops::gray_to_bin(a0)"]);
            tc!("Gray to binary", vec![Ty::UInt(q)], Ty::UInt(q), s, move |a| {
                let b = bits_of(&iv(&a[0]), q);
                let mut out = vec![false; q as usize];
                let mut acc = false;
                for i in (0..q as usize).rev() {
                    acc ^= b[i];
                    out[i] = acc;
                }
                Val::I(from_bits(&out))
            })
        }
        50 => {
            let q = w(g);
            let signed = g.bool();
            let e = if signed { Ty::Int(q) } else { Ty::UInt(q) };
            let m = *g.pick(&["msb", "lsb", "sign_bit"]);
            let m = if m == "sign_bit" && !signed { "msb" } else { m };
            tc!("msb/lsb", vec![e], Ty::Bool, format!("a0.{m}()"), move |a| {
                let b = bits_of(&iv(&a[0]), q);
                Val::B(if m == "lsb" { b[0] } else { b[q as usize - 1] })
            })
        }
        51 => {
            let q = w(g);
            let op = *g.pick(&["==", "!="]);
            tc!("Gray ==", vec![Ty::UInt(q), Ty::UInt(q)], Ty::Bool, format!("a0.to_gray() {op} a1.to_gray()"), move |a| Val::B((a[0] == a[1]) == (op == "==")))
        }
        // ------------------------------------------------ conversions
        52 => {
            let q = w(g);
            let signed = g.bool();
            let e = if signed { Ty::Int(q) } else { Ty::UInt(q) };
            let s = *g.pick(&["a0.as_bits()", "a0.to_bits()"]);
            tc!("as_bits", vec![e], arr(&Ty::Bool, q as usize), s, move |a| Val::T(bits_of(&iv(&a[0]), q).into_iter().map(Val::B).collect()))
        }
        53 => {
            let q = w(g).min(70);
            let signed = g.bool();
            let e = if signed { Ty::Int(q) } else { Ty::UInt(q) };
            let s = match (signed, g.below(3)) {
                (true, 0) => "a0.as_int()",
                (true, 1) => "a0.to_int()",
                (true, _) => "std::conv::bits_to_int(a0)",
                (false, 0) => "a0.as_uint()",
                (false, 1) => "a0.to_uint()",
                (false, _) => "std::conv::bits_to_uint(a0)",
            };
            tc!("bits to integer", vec![arr(&Ty::Bool, q as usize)], e.clone(), s, move |a| Val::I(wrap(&e, &from_bits(&val_bits(&a[0])))))
        }
        54 => {
            let q = w(g);
            let (f, t, s) = if g.bool() {
                (Ty::Int(q), Ty::UInt(q), *g.pick(&["a0.as_uint()", "std::conv::int_to_uint(a0)"]))
            } else {
                (Ty::UInt(q), Ty::Int(q), *g.pick(&["a0.as_int()", "std::conv::uint_to_int(a0)"]))
            };
            tc!("reinterpret", vec![f], t.clone(), s, move |a| Val::I(wrap(&t, &iv(&a[0]))))
        }
        55 => {
            let q = w(g);
            tc!("to_int", vec![Ty::UInt(q)], Ty::Int(q + 1), "a0.to_int()", |a| a[0].clone())
        }
        56..=58 => {
            let b = g.range(1, 7) as u32;
            let q = b * 8;
            let m = ["to_le_bytes", "to_be_bytes", "to_german_endian_bytes"][(k - 56) as usize];
            tc!("bytes", vec![Ty::UInt(q)], arr(&Ty::UInt(8), b as usize), format!("a0.{m}()"), move |a| {
                let mut v: Vec<Val> = bits_of(&iv(&a[0]), q).chunks(8).map(|c| Val::I(from_bits(c))).collect();
                if m == "to_be_bytes" || (m != "to_le_bytes" && b > 2) {
                    v.reverse();
                }
                if m == "to_german_endian_bytes" && b > 2 {
                    v.swap(b as usize - 1, b as usize - 2);
                }
                Val::T(v)
            })
        }
        59 => {
            // division and remainder of the library truncate towards zero like the operators' documentation says
            let q = w(g);
            let e = Ty::UInt(q);
            let m = g.bool();
            tc!("comb_div/comb_mod", vec![e.clone(), e.clone()], e.clone(), if m { "std::ops::comb_mod(a0, a1)" } else { "std::ops::comb_div(a0, a1)" }, move |a| {
                let (x, y) = (iv(&a[0]), iv(&a[1]));
                if y.is_zero() {
                    Val::U
                } else {
                    Val::I(if m { x % y } else { x / y })
                }
            })
        }
        60 => {
            // Default
            fn dt(g: &mut Gen, d: u32) -> Ty {
                match g.below(if d == 0 { 3 } else { 6 }) {
                    0 => Ty::Bool,
                    1 => Ty::UInt(w(g)),
                    2 => Ty::Int(w(g)),
                    3 => Ty::Tup((0..g.usize(2, 5)).map(|_| dt(g, d - 1)).collect()),
                    4 => Ty::Arr(Box::new(dt(g, d - 1)), g.range(1, 3) as u32),
                    _ => Ty::Opt(Box::new(dt(g, d - 1))),
                }
            }
            fn dv(t: &Ty) -> Val {
                match t {
                    Ty::Bool => Val::B(false),
                    Ty::Int(_) | Ty::UInt(_) => Val::I(0.into()),
                    Ty::Tup(v) => Val::T(v.iter().map(dv).collect()),
                    Ty::Arr(t, n) => Val::T(vec![dv(t); *n as usize]),
                    _ => none(),
                }
            }
            let d = dt(g, 2);
            let r = Ty::Tup(vec![d.clone(), Ty::Bool]);
            let t = ty_s(&d);
            let mut c = tc!("Default", vec![Ty::Bool], r, "(defv(), a0)", move |a| Val::T(vec![dv(&d), a[0].clone()]));
            c.items = format!("fn defv() -> {t} {{ std::default::Default::default() }}");
            c.body = format!("{{ let d: {t} = mk_default(); (d, a0) }}");
            c.items = "fn mk_default<T>() -> T where T: std::default::Default { T::default() }\n".to_string();
            c
        }
        _ => {
            // equality of tuples and arrays
            fn et(g: &mut Gen, d: u32) -> Ty {
                match g.below(if d == 0 { 3 } else { 5 }) {
                    0 => Ty::Bool,
                    1 => Ty::UInt(g.range(1, 3) as u32),
                    2 => Ty::Int(g.range(1, 3) as u32),
                    3 => Ty::Tup((0..g.usize(2, 4)).map(|_| et(g, d - 1)).collect()),
                    _ => Ty::Arr(Box::new(et(g, d - 1)), g.range(1, 3) as u32),
                }
            }
            let e = et(g, 2);
            let op = *g.pick(&["==", "!="]);
            tc!("tuple/array ==", vec![e.clone(), e.clone()], Ty::Bool, format!("a0 {op} a1"), move |a| Val::B((a[0] == a[1]) == (op == "==")))
        }
    }
}

pub fn unit(g: &mut Gen, prefix: &str) -> Made {
    let c = build(g);
    let p = Prog::default();
    let mut vs = vec![];
    let mut seen = HashSet::new();
    for k in 0..14 {
        let mut args: Vec<Val> = c.params.iter().map(|t| p.gen_val(g, t)).collect();
        // make equal and nearly equal arguments likely
        if args.len() == 2 && c.params[0] == c.params[1] && k % 3 == 0 {
            args[1] = args[0].clone();
            if k % 2 == 0 {
                args[1] = super::pats::perturb(&p, g, &c.params[1], &args[1]);
            }
        }
        let bits = c.params.iter().zip(&args).map(|(t, v)| fill(g, &p.encode(t, v))).collect();
        let want = p.encode(&c.ret, &(c.f)(&args));
        seen.insert(want.to_bits());
        vs.push(Vector { args, bits, want });
    }
    let ps = c.params.iter().enumerate().map(|(i, t)| format!("a{i}: {}", ty_s(t))).collect::<Vec<_>>().join(", ");
    let items = c.items.replace("mk_default", &format!("{prefix}mk"));
    let body = c.body.replace("mk_default", &format!("{prefix}mk"));
    let src = format!("{items}fn {prefix}top({ps}) -> {} {{\n    {body}\n}}\n", ty_s(&c.ret));
    let module = format!("{prefix}top");
    let nontrivial = if seen.len() >= 2 || c.what == "len" || c.what == "Default" { Some(tape::hash_str(&src)) } else { None };
    let shown: Vec<String> = vs.iter().map(|v| format!("{:?}", v.args)).collect();
    let sample = json!({"source": src, "vector": {"inputs": shown[0], "expected": vs[0].want.to_bits()}});
    let names: Vec<String> = (0..c.params.len()).map(|i| format!("a{i}")).collect();
    Made {
        src,
        std: true,
        nontrivial,
        sample,
        feats: vec![c.what],
        judge: Box::new(move |bt: &Built| sim_vectors(bt.design, &module, &names, &vs, &|k| shown[k].clone())),
    }
}

pub fn c06(ctx: &Ctx) {
    ctx.rule("a generated use of a library function (random widths, lengths, element types, lambdas) counts as non-trivial when the model gives at least two different outputs over its vectors (constant functions always count)");
    ctx.assume("the harness' own Verilog parser/simulator implements the IEEE 1800 semantics of the emitted subset");
    let n = ctx.amount(3000, 120000);
    run_units(ctx, "stdlib", &unit, &Opts::default(), n, 20);
}
