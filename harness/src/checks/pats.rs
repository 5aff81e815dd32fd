//! Pattern matching: first-match semantics (C04) and the exhaustiveness check (C05).
use super::comb::{feats, fill, show_args, sim_vectors, Vector};
use crate::lang::*;
use crate::pgen::{ex, B, Cfg};
use crate::runner::*;
use crate::spadec::{self, Level, Opts};
use crate::tape::{self, Gen};
use num::BigInt;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// a value that the pattern matches (random where the pattern does not care)
pub fn instantiate(p: &Prog, g: &mut Gen, pat: &Pat, ty: &Ty) -> Val {
    match (pat, ty) {
        (Pat::At(_, q), _) => instantiate(p, g, q, ty),
        (Pat::Bool(b), _) => Val::B(*b),
        (Pat::Int(i, _), _) => Val::I(i.clone()),
        (Pat::Tup(ps), Ty::Tup(ts)) => Val::T(ps.iter().zip(ts).map(|(q, t)| instantiate(p, g, q, t)).collect()),
        (Pat::Arr(ps), Ty::Arr(t, _)) => Val::T(ps.iter().map(|q| instantiate(p, g, q, t)).collect()),
        (Pat::Struct(d, ps, _), _) => {
            let f = p.fields(*d).clone();
            Val::T(ps.iter().zip(&f).map(|(q, (_, t))| instantiate(p, g, q, t)).collect())
        }
        (Pat::Enum(t, i, ps, _), _) => {
            let f = p.variants(t)[*i].1.clone();
            Val::E(*i, ps.iter().zip(&f).map(|(q, (_, t))| instantiate(p, g, q, t)).collect())
        }
        _ => p.gen_val(g, ty),
    }
}

/// change one component
pub fn perturb(p: &Prog, g: &mut Gen, ty: &Ty, v: &Val) -> Val {
    let sub = |g: &mut Gen, tys: &[Ty], vs: &[Val]| -> Vec<Val> {
        let mut o = vs.to_vec();
        if !o.is_empty() {
            let k = g.below(o.len() as u64) as usize;
            o[k] = perturb(p, g, &tys[k], &vs[k]);
        }
        o
    };
    match (ty, v) {
        (Ty::Bool, Val::B(b)) => Val::B(!b),
        (Ty::Int(n) | Ty::UInt(n), Val::I(i)) => {
            let d = match g.below(4) {
                0 => i + 1,
                1 => i - 1,
                2 => i ^ (BigInt::from(1) << g.below((*n).max(1) as u64) as usize),
                _ => return p.gen_val(g, ty),
            };
            Val::I(wrap(ty, &d))
        }
        (Ty::Tup(ts), Val::T(vs)) => Val::T(sub(g, ts, vs)),
        (Ty::Arr(t, n), Val::T(vs)) => Val::T(sub(g, &vec![(**t).clone(); *n as usize], vs)),
        (_, Val::T(vs)) => {
            let Ty::Named(d) = ty else { unreachable!() };
            let ts: Vec<Ty> = p.fields(*d).iter().map(|f| f.1.clone()).collect();
            Val::T(sub(g, &ts, vs))
        }
        (_, Val::E(i, vs)) => {
            let var = p.variants(ty);
            if vs.is_empty() || g.chance(1, 3) {
                let j = g.below(var.len() as u64) as usize;
                Val::E(j, var[j].1.iter().map(|f| p.gen_val(g, &f.1)).collect())
            } else {
                let ts: Vec<Ty> = var[*i].1.iter().map(|f| f.1.clone()).collect();
                Val::E(*i, sub(g, &ts, vs))
            }
        }
        (_, v) => v.clone(),
    }
}

/// patterns that together cover the type (a random partition), at most about `room` of them
pub fn cover(b: &mut B, ty: &Ty, depth: u32, room: usize, vars: bool) -> Vec<Pat> {
    if depth == 0 || room <= 1 || b.g.chance(1, 5) {
        return vec![Pat::Wild];
    }
    let _ = vars;
    match ty.clone() {
        Ty::Bool => {
            let x = b.g.bool();
            if b.g.chance(1, 4) { vec![Pat::Bool(x), Pat::Wild] } else { vec![Pat::Bool(x), Pat::Bool(!x)] }
        }
        Ty::Int(n) | Ty::UInt(n) => {
            let full = n <= 4 && (1usize << n) <= room && b.g.chance(3, 4);
            if full {
                let mut v: Vec<Pat> = b.p.enumerate(ty, 64).into_iter().map(|v| if let Val::I(i) = v { Pat::Int(i, b.g.chance(1, 4)) } else { Pat::Wild }).collect();
                b.g.shuffle(&mut v);
                v
            } else {
                let k = b.g.usize(1, 3.min(room - 1).max(1));
                let mut v = vec![];
                for _ in 0..k {
                    if let Val::I(i) = b.p.gen_val(b.g, ty) {
                        v.push(Pat::Int(i, b.g.chance(1, 4)));
                    }
                }
                v.push(Pat::Wild);
                v
            }
        }
        Ty::Tup(ts) => prod(b, &ts, depth - 1, room).into_iter().map(Pat::Tup).collect(),
        Ty::Arr(t, n) => prod(b, &vec![(*t).clone(); n as usize], depth - 1, room).into_iter().map(Pat::Arr).collect(),
        Ty::Named(d) if matches!(b.p.defs[d].kind, DefKind::Struct(_)) => {
            let ts: Vec<Ty> = b.p.fields(d).iter().map(|f| f.1.clone()).collect();
            let n = ts.len();
            prod(b, &ts, depth - 1, room).into_iter().map(|ps| (ps, b.style(n))).collect::<Vec<_>>().into_iter().map(|(ps, s)| Pat::Struct(d, ps, s)).collect()
        }
        t => {
            let vs = b.p.variants(&t);
            let mut out = vec![];
            let mut order: Vec<usize> = (0..vs.len()).collect();
            b.g.shuffle(&mut order);
            for i in order {
                let ts: Vec<Ty> = vs[i].1.iter().map(|f| f.1.clone()).collect();
                for ps in prod(b, &ts, depth - 1, (room / vs.len()).max(1)) {
                    let st = b.style(ts.len());
                    out.push(Pat::Enum(t.clone(), i, ps, st));
                }
            }
            out
        }
    }
}
fn prod(b: &mut B, tys: &[Ty], depth: u32, room: usize) -> Vec<Vec<Pat>> {
    let Some((t, rest)) = tys.split_first() else { return vec![vec![]] };
    let first = cover(b, t, depth, room, true);
    let left = (room / first.len()).max(1);
    let mut out = vec![];
    for p in first {
        for r in prod(b, rest, depth, left) {
            let mut v = vec![p.clone()];
            v.extend(r);
            out.push(v);
        }
    }
    out
}

/// replace one random subpattern by something else of the same type
fn mutate(b: &mut B, p: &Pat, ty: &Ty) -> Pat {
    let subs = |b: &mut B, ps: &[Pat], tys: &[Ty]| {
        let mut o = ps.to_vec();
        let k = b.g.below(o.len() as u64) as usize;
        o[k] = mutate(b, &ps[k], &tys[k]);
        o
    };
    let here = b.g.chance(1, 4);
    match (p, ty) {
        (Pat::Tup(ps), Ty::Tup(ts)) if !here && !ps.is_empty() => Pat::Tup(subs(b, ps, ts)),
        (Pat::Arr(ps), Ty::Arr(t, n)) if !here && !ps.is_empty() => Pat::Arr(subs(b, ps, &vec![(**t).clone(); *n as usize])),
        (Pat::Struct(d, ps, s), _) if !here && !ps.is_empty() => {
            let ts: Vec<Ty> = b.p.fields(*d).iter().map(|f| f.1.clone()).collect();
            Pat::Struct(*d, subs(b, ps, &ts), s.clone())
        }
        (Pat::Enum(t, i, ps, s), _) if !here && !ps.is_empty() => {
            let ts: Vec<Ty> = b.p.variants(t)[*i].1.iter().map(|f| f.1.clone()).collect();
            Pat::Enum(t.clone(), *i, subs(b, ps, &ts), s.clone())
        }
        (Pat::Int(i, h), _) => {
            let d = if b.g.bool() { i + 1 } else { i - 1 };
            Pat::Int(wrap(ty, &d), *h)
        }
        _ => b.pat(ty, true, 2, &mut vec![]),
    }
}

/// a wildcard anywhere may as well be a binding
fn bind_some(b: &mut B, p: Pat, ty: &Ty, vars: &mut Vec<usize>) -> Pat {
    let mk = |b: &mut B, vars: &mut Vec<usize>| {
        let f: Vec<String> = vars.iter().chain(&b.scope.clone()).map(|v| b.names[*v].clone()).collect();
        let v = b.fresh(ty, &f);
        vars.push(v);
        v
    };
    let at = |b: &mut B, vars: &mut Vec<usize>| if b.g.chance(1, 10) { Some(mk(b, vars)) } else { None };
    let zip = |b: &mut B, ps: Vec<Pat>, ts: Vec<Ty>, vars: &mut Vec<usize>| ps.into_iter().zip(ts).map(|(p, t)| bind_some(b, p, &t, vars)).collect::<Vec<_>>();
    let a = if matches!(p, Pat::Wild | Pat::Bind(_)) { None } else { at(b, vars) };
    let r = match p {
        Pat::Wild | Pat::Bind(_) => {
            if b.g.bool() {
                Pat::Bind(mk(b, vars))
            } else {
                Pat::Wild
            }
        }
        Pat::At(_, q) => bind_some(b, *q, ty, vars),
        Pat::Tup(ps) => {
            let Ty::Tup(ts) = ty.clone() else { unreachable!() };
            Pat::Tup(zip(b, ps, ts, vars))
        }
        Pat::Arr(ps) => {
            let Ty::Arr(t, n) = ty.clone() else { unreachable!() };
            Pat::Arr(zip(b, ps, vec![*t; n as usize], vars))
        }
        Pat::Struct(d, ps, s) => {
            let ts = b.p.fields(d).iter().map(|f| f.1.clone()).collect();
            Pat::Struct(d, zip(b, ps, ts, vars), s)
        }
        Pat::Enum(t, i, ps, s) => {
            let ts = b.p.variants(&t)[i].1.iter().map(|f| f.1.clone()).collect();
            Pat::Enum(t, i, zip(b, ps, ts, vars), s)
        }
        p => p,
    };
    match a {
        Some(v) => Pat::At(v, Box::new(r)),
        None => r,
    }
}

fn scrutinee(b: &mut B) -> Ty {
    for _ in 0..6 {
        let t = match b.g.below(4) {
            0 if !b.p.defs.is_empty() => Ty::Named(b.g.below(b.p.defs.len() as u64) as usize),
            1 => Ty::Tup((0..b.g.usize(2, 3)).map(|_| b.pat_ty(1)).collect()),
            2 => Ty::Tup(vec![Ty::UInt(b.g.range(1, 3) as u32), Ty::Int(b.g.range(1, 3) as u32)]),
            _ => b.pat_ty(3),
        };
        if b.wild_cost(&t) <= 300.0 && b.p.size(&t) > 0 {
            return t;
        }
    }
    Ty::UInt(2)
}

// ------------------------------------------------------------------------------------------- C04

pub fn match_unit(g: &mut Gen, prefix: &str, cfg: Cfg) -> Made {
    let std = cfg.std;
    let mut b = B::new(g, cfg);
    b.defs(3);
    let st = scrutinee(&mut b);
    let rt = b.small_ty(1);
    let extra = b.small_ty(1);
    let ps = b.begin_func(&[st.clone(), extra.clone()]);
    b.fuel = 20;
    let x = ex(&st, K::Var(ps[0]));
    let idx = Ty::UInt(6);
    let ret = Ty::Tup(vec![idx.clone(), rt.clone()]);
    let save = b.scope.clone();
    let style = b.g.below(8);
    let mut pats: Vec<Pat> = vec![];
    let body = if style == 0 {
        // if-let chain
        let n = b.g.usize(1, 3);
        let mut conds = vec![];
        for k in 0..n {
            let mut vars = vec![];
            let p = b.pat(&st, true, 3, &mut vars);
            vars.into_iter().for_each(|v| b.bring(v));
            let e = b.e(&rt, 1);
            b.scope = save.clone();
            pats.push(p.clone());
            conds.push((p, ex(&ret, K::Tup(vec![ex(&idx, K::Lit(Val::I(k.into()), 0)), e]))));
        }
        let last = b.e(&rt, 1);
        let mut r = ex(&ret, K::Tup(vec![ex(&idx, K::Lit(Val::I(n.into()), 0)), last]));
        for (p, e) in conds.into_iter().rev() {
            r = ex(&ret, K::IfLet(p, x.clone(), e, r));
        }
        r
    } else {
        let mut arms: Vec<Pat> = vec![];
        let pre = b.g.usize(0, 3);
        for _ in 0..pre {
            let p = b.pat(&st, true, 3, &mut vec![]);
            arms.push(p);
        }
        let mut c = cover(&mut b, &st, 4, 20, true);
        if b.g.bool() {
            b.g.shuffle(&mut c);
        }
        for p in c {
            if b.g.chance(1, 8) {
                let q = mutate(&mut b, &p, &st);
                arms.push(q);
            }
            arms.push(p);
        }
        let mut out = vec![];
        let guarded = b.cfg.guards && b.g.bool();
        for (k, p) in arms.into_iter().enumerate() {
            let mut vars = vec![];
            let p = bind_some(&mut b, p, &st, &mut vars);
            vars.into_iter().for_each(|v| b.bring(v));
            // a guarded arm does not count as covering, so it is an additional arm before the unguarded one
            let gd = if guarded && b.g.chance(1, 5) { Some(b.e(&Ty::Bool, 1)) } else { None };
            let e = b.e(&rt, 1);
            let mk = |n: usize, e: Ex| ex(&ret, K::Tup(vec![ex(&idx, K::Lit(Val::I(n.into()), 0)), e]));
            pats.push(p.clone());
            if gd.is_some() {
                out.push((p.clone(), gd, mk(k.min(31) + 32, e.clone())));
            }
            out.push((p, None, mk(k.min(31), e)));
            b.scope = save.clone();
        }
        ex(&ret, K::Match(x.clone(), out))
    };
    let tys = vec![st.clone(), extra];
    b.p.fns.push(Func {
        name: "top".into(),
        kind: FnKind::Fn,
        clocks: vec![],
        params: ps,
        param_tys: tys.clone(),
        ret: ret.clone(),
        body: (vec![], body),
        var_names: b.names.clone(),
        var_tys: b.tys.clone(),
        method_of: None,
        attrs: String::new(),
        depth: None,
    });
    b.p.top = b.p.fns.len() - 1;
    let p = b.p;
    let func = &p.fns[p.top];
    let mut vs = vec![];
    let mut vals = vec![];
    for q in &pats {
        let v = instantiate(&p, g, q, &st);
        let w = perturb(&p, g, &st, &v);
        vals.push(v);
        vals.push(w);
    }
    for _ in 0..5 {
        vals.push(p.gen_val(g, &st));
    }
    vals.truncate(60);
    let mut arms_hit = HashSet::new();
    for v in vals {
        let args = vec![v, p.gen_val(g, &tys[1])];
        let bits = tys.iter().zip(&args).map(|(t, v)| fill(g, &p.encode(t, v))).collect();
        let out = Interp::new(&p).call(p.top, args.clone());
        if let Val::T(o) = &out {
            arms_hit.insert(format!("{:?}", o[0]));
        }
        vs.push(Vector { args, bits, want: p.encode(&ret, &out) });
    }
    let src = Printer { p: &p, n: Names::plain(prefix) }.prog();
    let module = format!("{prefix}top");
    let nontrivial = if arms_hit.len() >= 2 { Some(tape::hash_str(&src)) } else { None };
    let sample = json!({"source": src, "vector": vs.first().map(|v| json!({"inputs": show_args(&p, func, &v.args), "expected": v.want.to_bits()}))});
    let feats = feats(&src);
    let names: Vec<String> = func.params.iter().map(|v| func.var_names[*v].clone()).collect();
    Made {
        src,
        std,
        nontrivial,
        sample,
        feats,
        judge: Box::new(move |bt: &Built| sim_vectors(bt.design, &module, &names, &vs, &|k| show_args(&p, &p.fns[p.top], &vs[k].args))),
    }
}

pub fn c04(ctx: &Ctx) {
    ctx.rule("a generated match (or if-let chain) with vectors derived from its patterns counts as non-trivial when the vectors select at least two different arms");
    ctx.assume("the harness' own Verilog parser/simulator implements the IEEE 1800 semantics of the emitted subset");
    let n = ctx.amount(1500, 60000);
    let base = Cfg { std: false, lambdas: false, undef: false, budget: 12, ..Cfg::default() };
    let mk = {
        let base = base.clone();
        move |g: &mut Gen, pre: &str| match_unit(g, pre, base.clone())
    };
    run_units(ctx, "match", &mk, &Opts::default(), n, 12);
    let mk = move |g: &mut Gen, pre: &str| match_unit(g, pre, Cfg { std: true, ..base.clone() });
    run_units(ctx, "match-std", &mk, &Opts::default(), n / 3, 20);
}

// ------------------------------------------------------------------------------------------- C05

fn lits(p: &Pat, ty: &Ty, pr: &Prog, out: &mut BTreeMap<Ty, BTreeSet<BigInt>>) {
    match (p, ty) {
        (Pat::At(_, q), _) => lits(q, ty, pr, out),
        (Pat::Int(i, _), _) => {
            out.entry(ty.clone()).or_default().insert(i.clone());
        }
        (Pat::Tup(ps), Ty::Tup(ts)) => ps.iter().zip(ts).for_each(|(p, t)| lits(p, t, pr, out)),
        (Pat::Arr(ps), Ty::Arr(t, _)) => ps.iter().for_each(|p| lits(p, t, pr, out)),
        (Pat::Struct(d, ps, _), _) => ps.iter().zip(pr.fields(*d)).for_each(|(p, t)| lits(p, &t.1, pr, out)),
        (Pat::Enum(t, i, ps, _), _) => ps.iter().zip(&pr.variants(t)[*i].1).for_each(|(p, t)| lits(p, &t.1, pr, out)),
        _ => {}
    }
}
/// one value per class of values that no pattern of the match can tell apart
fn reps(p: &Prog, ty: &Ty, l: &BTreeMap<Ty, BTreeSet<BigInt>>, cap: usize) -> Option<Vec<Val>> {
    let prod = |tys: &[Ty]| -> Option<Vec<Vec<Val>>> {
        let mut acc: Vec<Vec<Val>> = vec![vec![]];
        for t in tys {
            let r = reps(p, t, l, cap)?;
            if acc.len() * r.len() > cap {
                return None;
            }
            acc = acc.iter().flat_map(|a| r.iter().map(|v| [a.clone(), vec![v.clone()]].concat())).collect();
        }
        Some(acc)
    };
    Some(match ty {
        Ty::Bool => vec![Val::B(false), Val::B(true)],
        Ty::Int(n) | Ty::UInt(n) => {
            let none = BTreeSet::new();
            let s = l.get(ty).unwrap_or(&none);
            let mut v: Vec<Val> = s.iter().map(|i| Val::I(i.clone())).collect();
            // a value that is not mentioned, if there is one
            let lo: BigInt = if is_signed(ty) && *n > 0 { -(BigInt::from(1) << (*n as usize - 1)) } else { 0.into() };
            let mut c = lo.clone();
            let end: BigInt = lo + (BigInt::from(1) << *n as usize);
            while c < end && s.contains(&c) {
                c += 1;
            }
            if c < end {
                v.push(Val::I(c));
            }
            v
        }
        Ty::Tup(ts) => prod(ts)?.into_iter().map(Val::T).collect(),
        Ty::Arr(t, n) => prod(&vec![(**t).clone(); *n as usize])?.into_iter().map(Val::T).collect(),
        Ty::Named(d) if matches!(p.defs[*d].kind, DefKind::Struct(_)) => {
            let tys: Vec<Ty> = p.fields(*d).iter().map(|f| f.1.clone()).collect();
            prod(&tys)?.into_iter().map(Val::T).collect()
        }
        _ => {
            let mut out = vec![];
            for (i, (_, f)) in p.variants(ty).iter().enumerate() {
                let tys: Vec<Ty> = f.iter().map(|f| f.1.clone()).collect();
                out.extend(prod(&tys)?.into_iter().map(|v| Val::E(i, v)));
            }
            out
        }
    })
}

fn exhaust_case(g: &mut Gen, std: bool, big: bool) -> Result<CaseOk, (Failure, serde_json::Value)> {
    let mut b = B::new(g, Cfg { std, lambdas: false, undef: false, guards: false, max_w: if big { 130 } else { 40 }, ..Cfg::default() });
    b.defs(3);
    // a wide integer with a run of literals that would be all of a narrower type
    let run = if big && b.g.chance(1, 3) {
        let w = if b.g.bool() { *b.g.pick(&[8u64, 16, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130]) } else { b.g.usize(5, 130) as u64 };
        let e = b.g.usize(0, 3);
        let signed = b.g.bool();
        let lo: BigInt = if !signed {
            BigInt::from(0)
        } else {
            match b.g.below(4) {
                0 => -(BigInt::from(1) << (w - 1)),
                1 => (BigInt::from(1) << (w - 1)) - (1 << e),
                _ => BigInt::from(-((1i64 << e) / 2)),
            }
        };
        let lo = if !signed && b.g.chance(1, 4) { (BigInt::from(1) << w) - (1 << e) } else { lo };
        let mut v: Vec<Pat> = (0..1i64 << e).map(|k| Pat::Int(&lo + k, false)).collect();
        if b.g.chance(1, 5) {
            v.push(Pat::Wild);
        }
        Some((if signed { Ty::Int(w as _) } else { Ty::UInt(w as _) }, v))
    } else {
        None
    };
    let st = match &run {
        Some((t, _)) => match b.g.below(4) {
            0 => Ty::Tup(vec![t.clone(), Ty::Bool]),
            _ => t.clone(),
        },
        None => scrutinee(&mut b),
    };
    let ps = b.begin_func(&[st.clone()]);
    let form = if run.is_some() { 3 } else { b.g.below(12) };
    let room = *b.g.pick(&[12usize, 4, 40]);
    let mut arms: Vec<Pat> = if let Some((_, v)) = run {
        v.into_iter().map(|p| if matches!(st, Ty::Tup(_)) { Pat::Tup(vec![p, Pat::Wild]) } else { p }).collect()
    } else if form < 3 { vec![b.pat(&st, false, 3, &mut vec![])] } else { cover(&mut b, &st, 4, room, true) };
    if b.g.bool() {
        b.g.shuffle(&mut arms);
    }
    let mut guard = vec![false; arms.len()];
    match b.g.below(6) {
        // leave it covered
        0 | 1 => {}
        2 | 3 if arms.len() > 1 => {
            let k = b.g.below(arms.len() as u64) as usize;
            arms.remove(k);
            guard.remove(k);
        }
        4 if form >= 3 => {
            let k = b.g.below(arms.len() as u64) as usize;
            guard[k] = true;
        }
        _ => {
            let k = b.g.below(arms.len() as u64) as usize;
            arms[k] = mutate(&mut b, &arms[k].clone(), &st);
        }
    }
    if form >= 3 && b.g.chance(1, 4) {
        let p = b.pat(&st, true, 3, &mut vec![]);
        let k = b.g.below(arms.len() as u64 + 1) as usize;
        arms.insert(k, p);
        guard.insert(k, false);
    }
    let arms: Vec<Pat> = arms.into_iter().map(|p| bind_some(&mut b, p, &st, &mut vec![])).collect();
    let mut l = BTreeMap::new();
    arms.iter().for_each(|p| lits(p, &st, &b.p, &mut l));
    b.p.fns.push(Func {
        name: "top".into(),
        kind: FnKind::Fn,
        clocks: vec![],
        params: ps.clone(),
        param_tys: vec![st.clone()],
        ret: Ty::UInt(8),
        body: (vec![], ex(&Ty::UInt(8), K::Lit(Val::I(1.into()), 0))),
        var_names: b.names.clone(),
        var_tys: b.tys.clone(),
        method_of: None,
        attrs: String::new(),
        depth: None,
    });
    b.p.top = b.p.fns.len() - 1;
    let p = b.p;
    let Some(vals) = reps(&p, &st, &l, 20000) else {
        return Ok(CaseOk { nontrivial: None, sample: json!(null), feats: vec!["skipped: too many value classes"] });
    };
    let it = Interp::new(&p);
    let f = &p.fns[p.top];
    let uncovered = vals.iter().find(|v| {
        !arms.iter().zip(&guard).any(|(a, gd)| {
            let mut env = Env { v: vec![None; f.var_names.len()] };
            !gd && it.matches(a, v, &mut env) == Some(true)
        })
    });
    // print
    let pr = Printer { p: &p, n: Names::plain("u0_") };
    let mut src = String::new();
    for d in 0..p.defs.len() {
        src.push_str(&pr.def(d));
        src.push('\n');
    }
    let x = &f.var_names[ps[0]];
    let t = pr.ty(&st);
    match form {
        0 => src.push_str(&format!("fn u0_top({x}: {t}) -> uint<8> {{\n    let {} = {x};\n    1\n}}\n", pr.pat(&arms[0], f, &st))),
        1 => src.push_str(&format!("entity u0_top(clk: clock, {x}: {t}) -> uint<8> {{\n    reg(clk) {}: {t} = {x};\n    1\n}}\n", pr.pat(&arms[0], f, &st))),
        2 => src.push_str(&format!("fn u0_top({x}: {t}) -> uint<8> {{\n    let lam = fn |{}| {{ 1u8 }};\n    lam.call(({x},))\n}}\n", pr.pat(&arms[0], f, &st))),
        _ => {
            src.push_str(&format!("fn u0_top(c: bool, {x}: {t}) -> uint<8> {{\n    match {x} {{\n"));
            for (k, (a, gd)) in arms.iter().zip(&guard).enumerate() {
                src.push_str(&format!("        {}{} => {},\n", pr.pat(a, f, &st), if *gd { " if c" } else { "" }, k % 200));
            }
            src.push_str("    }\n}\n");
        }
    }
    // the unit is only checked where it is used in some designs; keep a non-generic top
    beat(&src);
    let out = spadec::run(&spadec::single(&src), &Opts { std, ..Opts::default() });
    let show = json!({"source": src, "uncovered value": uncovered.map(|v| format!("{v:?}"))});
    if let Some(pn) = &out.panic {
        return Err((Failure { class: format!("panic {}", norm_panic(pn)), msg: format!("the compiler panicked: {pn}\n{src}") }, show));
    }
    if let Some(d) = out.diags.iter().find(|d| d.level == Level::Bug) {
        return Err((Failure { class: "internal error".into(), msg: format!("{}\n{src}", d.msg) }, show));
    }
    match (uncovered, out.ok) {
        (None, false) => Err((Failure { class: "exhaustive pattern rejected".into(), msg: format!("every value is covered, but: {}\n{src}", out.first_error()) }, show)),
        (Some(v), true) => Err((Failure { class: "missing value accepted".into(), msg: format!("no pattern covers {v:?} [{}], but the program is accepted\n{src}", p.encode(&st, v).to_bits()) }, show)),
        (u, _) => Ok(CaseOk {
            nontrivial: if vals.len() >= 2 && (arms.len() >= 2 || u.is_some()) { Some(tape::hash_str(&src)) } else { None },
            sample: show,
            feats: vec![if u.is_some() { "not exhaustive, rejected" } else { "exhaustive, accepted" }, if form < 3 { "let, reg or lambda pattern" } else { "match" }],
        }),
    }
}

pub fn c05(ctx: &Ctx) {
    ctx.rule("a generated match / let / reg pattern counts as non-trivial when the scrutinee has at least two classes of values that the patterns tell apart, and it has several arms or misses a value");
    let n = ctx.amount(4000, 200000);
    run_cases(ctx, "exhaustive", &|g| exhaust_case(g, false, false), n);
    run_cases(ctx, "exhaustive-wide", &|g| exhaust_case(g, false, true), n / 4);
    run_cases(ctx, "exhaustive-std", &|g| exhaust_case(g, true, false), n / 10);
    run_cases(ctx, "columns", &columns_case, n / 4);
}

/// matches on tuples in which most columns have values no pattern can look into, or are only named
fn columns_case(g: &mut Gen) -> Result<CaseOk, (Failure, serde_json::Value)> {
    let mut s = String::from("enum E { A{x: bool}, B, C{y: uint<3>, z: bool} }\nstruct S { a: bool, b: (E, E) }\n");
    const OPAQUE: &[&str] = &["clock", "&bool", "&E", "&S", "&(bool, E)", "tri", "[E; 3]", "[E; 40]", "[(E, bool); 25]", "[uint<4>; 60]", "E", "S", "(E, S)", "[[bool; 5]; 20]", "int<70>", "&[E; 30]", "[S; 18]"];
    // the columns the patterns look into, with the number of their values
    const TOLD: &[(&str, &[&str])] = &[("bool", &["true", "false"]), ("uint<1>", &["0", "1"]), ("E", &["E::A(_)", "E::B", "E::C(_, _)"]), ("(bool, bool)", &["(true, true)", "(true, false)", "(false, true)", "(false, false)"])];
    let mut cols: Vec<(String, Option<&[&str]>)> = (0..g.usize(1, 5)).map(|_| (g.pick(OPAQUE).to_string(), None)).collect();
    for _ in 0..g.usize(1, 2) {
        let at = g.usize(0, cols.len());
        let t = g.pick(TOLD);
        cols.insert(at, (t.0.to_string(), Some(t.1)));
    }
    let told: Vec<usize> = (0..cols.len()).filter(|k| cols[*k].1.is_some()).collect();
    let sizes: Vec<usize> = told.iter().map(|k| cols[*k].1.unwrap().len()).collect();
    let total: usize = sizes.iter().product();
    let mut covered = vec![false; total];
    let mut arms = vec![];
    let full = g.bool();
    for n in 0..g.usize(1, 8) {
        if full && covered.iter().all(|c| *c) {
            break;
        }
        let pick: Vec<Option<usize>> = sizes.iter().map(|n| if g.chance(1, 4) { None } else { Some(g.below(*n as u64) as usize) }).collect();
        for v in 0..total {
            let mut r = v;
            let mut hit = true;
            for (k, n) in sizes.iter().enumerate() {
                hit &= pick[k].is_none_or(|p| p == r % n);
                r /= n;
            }
            covered[v] |= hit;
        }
        let mut q = 0;
        let pats: Vec<String> = cols
            .iter()
            .enumerate()
            .map(|(c, (_, t))| match t {
                None if g.bool() => "_".to_string(),
                None => format!("v{n}_{c}"),
                Some(t) => {
                    q += 1;
                    pick[q - 1].map_or("_".to_string(), |p| t[p].to_string())
                }
            })
            .collect();
        arms.push(format!("({}) => {}", pats.join(", "), n % 2 == 0));
    }
    if full && !covered.iter().all(|c| *c) {
        let v = g.bool();
        arms.push(format!("({}) => {v}", cols.iter().map(|_| "_").collect::<Vec<_>>().join(", ")));
        covered.fill(true);
    }
    let ok = covered.iter().all(|c| *c);
    let ty = cols.iter().map(|c| c.0.clone()).collect::<Vec<_>>().join(", ");
    if g.bool() {
        s += &format!("entity top(a: ({ty})) -> bool {{ match a {{ {} }} }}\n", arms.join(", "));
    } else {
        let ps = cols.iter().enumerate().map(|(k, c)| format!("a{k}: {}", c.0)).collect::<Vec<_>>().join(", ");
        let vs = (0..cols.len()).map(|k| format!("a{k}")).collect::<Vec<_>>().join(", ");
        s += &format!("entity top({ps}) -> bool {{ match ({vs}) {{ {} }} }}\n", arms.join(", "));
    }
    beat(&s);
    let o = spadec::run(&spadec::single(&s), &Opts { std: false, ..Default::default() });
    let bad = |c: String, m: String| Err((Failure { class: c, msg: m }, json!({"source": s})));
    if let Some(p) = &o.panic {
        return bad(format!("panic {}", norm_panic(p)), format!("the compiler panicked: {p}"));
    }
    if o.ok != ok {
        return bad(if ok { format!("reject {}", norm_msg(&o.first_error())) } else { "accepted a match that misses a value".into() }, format!("the patterns {} but the match was {}", if ok { "cover every value" } else { "miss a value" }, if o.ok { "accepted" } else { format!("rejected: {}", o.first_error()).leak() }));
    }
    if !ok && !o.errors().iter().any(|d| d.msg.contains("xhaustive") || d.msg.contains("efutable")) {
        return bad("rejected for another reason".into(), o.first_error());
    }
    Ok(CaseOk { nontrivial: if arms.len() > 1 || !ok { Some(tape::hash_str(&s)) } else { None }, sample: json!({"source": s, "covers": ok}), feats: vec![if ok { "columns without patterns: covered" } else { "columns without patterns: not covered" }] })
}
