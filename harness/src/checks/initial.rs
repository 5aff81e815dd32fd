//! Initial values of registers and memories: the constant expression is evaluated by the compiler.
use super::comb::{agrees, fill};
use crate::bv::Bv;
use crate::lang::*;
use crate::pgen::{B, Cfg};
use crate::runner::*;
use crate::spadec::{self, Level, Opts};
use crate::tape::{self, Gen};
use crate::vsim::Sim;
use num::BigInt;
use serde_json::json;

/// what an expression may refer to besides literals
struct Scope<'a> {
    p: &'a Prog,
    pre: &'a str,
    /// names and values of integer parameters of the surrounding unit
    nums: Vec<(String, Vec<BigInt>)>,
    /// number of instances
    k: usize,
    /// place (counted in nodes) at which something that is not constant goes
    spoil: Option<(usize, usize)>,
    node: usize,
    spoiled: bool,
}

fn lit(s: &Scope, g: &mut Gen, ty: &Ty, v: &Val, synth: bool) -> String {
    let style = if synth { 1 } else { *g.pick(&[0u8, 1, 2, 3, 4]) };
    Printer { p: s.p, n: Names::plain(s.pre) }.lit(ty, v, style, synth)
}

/// members times instances to instances times members
fn turn(k: usize, v: Vec<Vec<Val>>) -> Vec<Vec<Val>> {
    (0..k).map(|i| v.iter().map(|m| m[i].clone()).collect()).collect()
}

/// a constant expression of the type and its value in each instance; `synth`: its type must be evident from the text
fn ce(s: &mut Scope, g: &mut Gen, ty: &Ty, depth: usize, synth: bool) -> (String, Vec<Val>) {
    let k = s.k;
    s.node += 1;
    if let Some((at, how)) = s.spoil {
        if s.node == at {
            s.spoil = None;
            let v = s.p.gen_val(g, ty);
            let t = lit(s, g, ty, &v, true);
            let tt = Printer { p: s.p, n: Names::plain(s.pre) }.ty(ty);
            s.spoiled = true;
            return match (how, ty) {
                (0, _) => (format!("{{ let x: {tt} = {t}; x }}"), vec![v; k]),
                (1, _) => (format!("if true {{ {t} }} else {{ {t} }}"), vec![v; k]),
                (2, _) => (format!("match true {{ true => {t}, _ => {t} }}"), vec![v; k]),
                (3, Ty::Bool) => (format!("(!{t})"), vec![v; k]),
                (3, Ty::Int(n) | Ty::UInt(n)) if *n >= 2 => {
                    let (a, b) = (n / 2, n - n / 2);
                    let c = if matches!(ty, Ty::Int(_)) { 'i' } else { 'u' };
                    (format!("(0{c}{a} * 0{c}{b})"), vec![v; k])
                }
                (4, Ty::Int(_) | Ty::UInt(_)) => (format!("(~{t})"), vec![v; k]),
                (5, _) => (format!("{}id({t})", s.pre), vec![v; k]),
                (6, Ty::Int(_) | Ty::UInt(_)) => (format!("({t} << 1)"), vec![v; k]),
                _ => (format!("{}id::<{tt}>({t})", s.pre), vec![v; k]),
            };
        }
    }
    if depth == 0 || g.chance(1, 6) {
        let v = s.p.gen_val(g, ty);
        return (lit(s, g, ty, &v, synth), vec![v; k]);
    }
    // taken out of something bigger
    if g.chance(1, 6) {
        let kind = g.below(2);
        let n = g.usize(1, 4);
        let pick = g.usize(0, n - 1);
        let mut parts = vec![];
        let mut val = vec![];
        for i in 0..n {
            let t = if i == pick || kind == 1 { ty.clone() } else { [Ty::Bool, Ty::UInt(5), Ty::Int(3)][g.usize(0, 2)].clone() };
            let (x, v) = ce(s, g, &t, depth - 1, true);
            parts.push(x);
            if i == pick {
                val = v;
            }
        }
        if kind == 0 && n >= 2 {
            return (format!("({}).{pick}", parts.join(", ")), val);
        }
        if kind == 1 {
            return (format!("[{}][{pick}]", parts.join(", ")), val);
        }
        return (parts.remove(pick), val);
    }
    match ty.clone() {
        Ty::Int(n) | Ty::UInt(n) => {
            let fits: Vec<usize> = s.nums.iter().enumerate().filter(|(_, x)| x.1.iter().all(|v| wrap(ty, v) == *v)).map(|x| x.0).collect();
            if !synth && !fits.is_empty() && g.chance(1, 3) {
                let i = *g.pick(&fits);
                return (s.nums[i].0.clone(), s.nums[i].1.iter().map(|v| Val::I(v.clone())).collect());
            }
            let signed = is_signed(ty);
            let int = |v: &Val| match v {
                Val::I(i) => i.clone(),
                _ => unreachable!(),
            };
            match g.below(3) {
                0 | 1 if n >= 2 => {
                    let h = if signed { Ty::Int(n - 1) } else { Ty::UInt(n - 1) };
                    let (a, x) = ce(s, g, &h, depth - 1, true);
                    let (b, y) = ce(s, g, &h, depth - 1, true);
                    let add = g.bool();
                    let r = x.iter().zip(&y).map(|(x, y)| Val::I(wrap(ty, &if add { int(x) + int(y) } else { int(x) - int(y) }))).collect();
                    (format!("({a} {} {b})", if add { '+' } else { '-' }), r)
                }
                _ if signed && n > 0 => {
                    let (a, x) = ce(s, g, ty, depth - 1, true);
                    (format!("(-{a})"), x.iter().map(|x| Val::I(wrap(ty, &-int(x)))).collect())
                }
                _ => {
                    let v = s.p.gen_val(g, ty);
                    (lit(s, g, ty, &v, synth), vec![v; k])
                }
            }
        }
        Ty::Tup(ts) if !ts.is_empty() => {
            let v: Vec<(String, Vec<Val>)> = ts.iter().map(|t| ce(s, g, t, depth - 1, synth)).collect();
            (format!("({})", v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")), turn(k, v.into_iter().map(|x| x.1).collect()).into_iter().map(Val::T).collect())
        }
        Ty::Arr(t, n) if n > 0 => {
            if g.chance(1, 3) {
                let (x, v) = ce(s, g, &t, depth - 1, synth);
                return (format!("[{x}; {n}]"), v.into_iter().map(|v| Val::T(vec![v; n as usize])).collect());
            }
            let v: Vec<(String, Vec<Val>)> = (0..n).map(|_| ce(s, g, &t, depth - 1, synth)).collect();
            (format!("[{}]", v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")), turn(k, v.into_iter().map(|x| x.1).collect()).into_iter().map(Val::T).collect())
        }
        Ty::Named(d) => {
            let pr = Printer { p: s.p, n: Names::plain(s.pre) };
            let (path, members, var) = match &s.p.defs[d].kind {
                DefKind::Struct(f) => (pr.n.n('t', &s.p.defs[d].name), f.clone(), None),
                DefKind::Enum(v) => {
                    let i = g.usize(0, v.len() - 1);
                    (pr.variant_path(ty, i), v[i].1.clone(), Some(i))
                }
            };
            let v: Vec<(String, Vec<Val>)> = members.iter().map(|(_, t)| ce(s, g, t, depth - 1, false)).collect();
            let text = if members.is_empty() {
                path
            } else if g.bool() {
                let mut a: Vec<String> = members.iter().zip(&v).map(|(m, x)| format!("{}: {}", m.0, x.0)).collect();
                g.shuffle(&mut a);
                format!("{path}$({})", a.join(", "))
            } else {
                format!("{path}({})", v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", "))
            };
            let vals = turn(k, v.into_iter().map(|x| x.1).collect());
            let all = vals.into_iter().map(|v| match var {
                Some(i) => Val::E(i, v),
                None => Val::T(v),
            });
            (text, all.collect())
        }
        _ => {
            let v = s.p.gen_val(g, ty);
            (lit(s, g, ty, &v, synth), vec![v; k])
        }
    }
}

fn types(g: &mut Gen, zst: bool) -> (Prog, Ty) {
    let mut b = B::new(g, Cfg { std: false, zst, ..Cfg::default() });
    b.defs(3);
    let t = if b.p.defs.is_empty() || b.g.bool() { b.ty(2) } else { Ty::Named(b.g.usize(0, b.p.defs.len() - 1)) };
    (b.p, t)
}
fn defs(p: &Prog, pre: &str) -> String {
    let pr = Printer { p, n: Names::plain(pre) };
    (0..p.defs.len()).map(|d| pr.def(d)).collect::<String>() + &format!("fn {pre}id<T>(x: T) -> T {{ x }}\n")
}


struct Reg {
    p: Prog,
    ty: Ty,
    src: String,
    want: Vec<Bv>,
    next: Vec<Bv>,
    spoiled: bool,
}
/// a register, possibly in a generic entity that is used several times
fn reg(g: &mut Gen, pre: &str, spoil: Option<(usize, usize)>) -> Reg {
    let zst = g.chance(1, 4);
    let (p, ty) = types(g, zst);
    let generic = g.bool();
    let k = if generic { g.usize(1, 3) } else { 1 };
    let mut nums: Vec<(String, Vec<BigInt>)> = vec![];
    if generic {
        let mut num = |n: &str, lo: i64, hi: i64| nums.push((n.into(), (0..k).map(|_| BigInt::from(lo + g.below((hi - lo + 1) as u64) as i64)).collect()));
        num("N", 0, 300);
        num("M", -4, 4);
        num("K", 0, 3);
    }
    let mut s = Scope { p: &p, pre, nums: nums.clone(), k, spoil, node: 0, spoiled: false };
    let (e, v) = ce(&mut s, g, &ty, 4, false);
    let spoiled = s.spoiled;
    let t = Printer { p: &p, n: Names::plain(pre) }.ty(&ty);
    let mut src = defs(&p, pre);
    let gens = if generic { "<#uint N, #int M, #uint K>" } else { "" };
    // with a reset the initial value still counts at the start
    let rst = g.chance(1, 3);
    let body = match &ty {
        Ty::Tup(ts) if ts.len() > 1 && g.bool() => {
            let v: Vec<String> = (0..ts.len()).map(|i| format!("q{i}")).collect();
            let v = v.join(", ");
            format!("reg(clk) ({v}): {t} initial({e}) = d;\n    ({v})")
        }
        _ => format!("reg(clk) r: {t}{} initial({e}) = d;\n    r", if rst { " reset(false: d)" } else { "" }),
    };
    src.push_str(&format!("entity {pre}u{gens}(clk: clock, d: {t}) -> {t} {{\n    {body}\n}}\n"));
    let inst = |i: usize| if generic { format!("inst {pre}u::<{}>(clk, d)", nums.iter().map(|n| n.1[i].to_string()).collect::<Vec<_>>().join(", ")) } else { format!("inst {pre}u(clk, d)") };
    src.push_str(&format!(
        "entity {pre}top(clk: clock, d: {t}) -> ({}, bool) {{\n    ({}, true)\n}}\n",
        vec![t.clone(); k].join(", "),
        (0..k).map(inst).collect::<Vec<_>>().join(", ")
    ));
    let tup = |vs: &[Val]| {
        let mut ts = vec![ty.clone(); k];
        let mut vs = vs.to_vec();
        ts.push(Ty::Bool);
        vs.push(Val::B(true));
        p.encode(&Ty::Tup(ts), &Val::T(vs))
    };
    let d = p.gen_val(g, &ty);
    let want = vec![tup(&v), tup(&vec![d.clone(); k])];
    let bits = fill(g, &p.encode(&ty, &d));
    Reg { src, want, next: vec![bits], spoiled, ty, p }
}
pub fn reg_unit(g: &mut Gen, pre: &str) -> Made {
    let r = reg(g, pre, None);
    let module = format!("{pre}top");
    let nontrivial = if r.want[0] != r.want[1] { Some(tape::hash_str(&r.src)) } else { None };
    let sample = json!({"source": r.src, "initial": r.want[0].to_bits()});
    let mut feats = vec![];
    for (c, f) in [("<#uint N", "in a generic entity"), ("initial((", "compound or computed"), ("::V", "enum"), ("].", "nested")] {
        if r.src.contains(c) {
            feats.push(f);
        }
    }
    if r.p.size(&r.ty) == 0 {
        feats.push("size zero");
    }
    let (want, next, w) = (r.want, r.next, r.p.size(&r.ty));
    Made {
        src: r.src,
        std: false,
        nontrivial,
        sample,
        feats,
        judge: Box::new(move |bt: &Built| {
            let mut sim = match Sim::new(bt.design, &module) {
                Ok(s) => s,
                Err(e) => return fail("elaboration", format!("the emitted Verilog does not elaborate: {e}")),
            };
            let io = |e: String| Failure { class: "interface".into(), msg: e };
            sim.set("clk_i", Bv::zero(1)).map_err(io)?;
            if w > 0 {
                sim.set("d_i", next[0].clone()).map_err(io)?;
            }
            for (i, w) in want.iter().enumerate() {
                sim.settle().map_err(io)?;
                let got = sim.get("output__").map_err(io)?;
                if !agrees(w, &got) {
                    return fail(
                        if i == 0 { "wrong initial value" } else { "wrong next value" },
                        format!("expected {} got {}", w.to_bits(), got.to_bits()),
                    );
                }
                sim.tick("clk_i").map_err(io)?;
            }
            Ok(())
        }),
    }
}

/// a memory with initial content
pub fn mem_unit(g: &mut Gen, pre: &str) -> Made {
    let (p, ty) = loop {
        let (p, ty) = types(g, false);
        if p.size(&ty) > 0 {
            break (p, ty);
        }
    };
    let t = Printer { p: &p, n: Names::plain(pre) }.ty(&ty);
    let n = g.usize(2, 9);
    let aw = (usize::BITS - (n - 1).leading_zeros()) as usize;
    let mut s = Scope { p: &p, pre, nums: vec![], k: 1, spoil: None, node: 0, spoiled: false };
    let (e, vals) = if g.chance(1, 4) {
        let (e, mut v) = ce(&mut s, g, &ty, 3, false);
        (format!("[{e}; {n}]"), vec![v.remove(0); n])
    } else {
        let v: Vec<_> = (0..n).map(|_| ce(&mut s, g, &ty, 3, false)).collect();
        (format!("[{}]", v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")), v.into_iter().map(|mut x| x.1.remove(0)).collect())
    };
    let mut src = defs(&p, pre);
    src.push_str(&format!(
        "entity {pre}top(clk: clock, we: bool, wa: uint<{aw}>, d: {t}, ra: uint<{aw}>) -> {t} {{\n    let m: Memory<{t}, {n}> = inst std::mem::clocked_memory_init(clk, [(we, wa, d)], {e});\n    inst std::mem::read_memory(m, ra)\n}}\n"
    ));
    let module = format!("{pre}top");
    let want: Vec<Bv> = vals.iter().map(|v| p.encode(&ty, v)).collect();
    let wa = g.usize(0, n - 1);
    let wv = p.gen_val(g, &ty);
    let (wb, wbits) = (p.encode(&ty, &wv), fill(g, &p.encode(&ty, &wv)));
    let nontrivial = if want.iter().any(|w| *w != want[0]) { Some(tape::hash_str(&src)) } else { None };
    let sample = json!({"source": src, "content": want.iter().map(|w| w.to_bits()).collect::<Vec<_>>()});
    Made {
        src,
        std: true,
        nontrivial,
        sample,
        feats: vec!["memory"],
        judge: Box::new(move |bt: &Built| {
            let mut sim = match Sim::new(bt.design, &module) {
                Ok(s) => s,
                Err(e) => return fail("elaboration", format!("the emitted Verilog does not elaborate: {e}")),
            };
            let io = |e: String| Failure { class: "interface".into(), msg: e };
            for (n, v) in [("clk_i", Bv::zero(1)), ("we_i", Bv::zero(1)), ("wa_i", Bv::from_u64(aw, wa as u64)), ("d_i", wbits.clone())] {
                sim.set(n, v).map_err(io)?;
            }
            for round in 0..2 {
                for a in 0..want.len() {
                    sim.set("ra_i", Bv::from_u64(aw, a as u64)).map_err(io)?;
                    sim.settle().map_err(io)?;
                    let got = sim.get("output__").map_err(io)?;
                    let w = if round == 1 && a == wa { &wb } else { &want[a] };
                    if !agrees(w, &got) {
                        return fail("wrong memory content", format!("at address {a} (write to {wa} happened: {round}) expected {} got {}", w.to_bits(), got.to_bits()));
                    }
                    if round == 0 && a == 0 {
                        sim.tick("clk_i").map_err(io)?;
                    }
                }
                sim.set("we_i", Bv::from_u64(1, 1)).map_err(io)?;
                sim.tick("clk_i").map_err(io)?;
                sim.set("we_i", Bv::zero(1)).map_err(io)?;
            }
            Ok(())
        }),
    }
}

/// one part of the expression is not constant
pub fn reject_case(g: &mut Gen) -> Result<CaseOk, (Failure, serde_json::Value)> {
    let at = g.usize(1, 9);
    let how = g.usize(0, 7);
    let r = reg(g, "u0_", Some((at, how)));
    let info = json!({"source": r.src});
    if !r.spoiled {
        return Ok(CaseOk { nontrivial: None, sample: json!(null), feats: vec!["set aside: expression too small"] });
    }
    beat(&r.src);
    let o = spadec::run(&spadec::single(&r.src), &Opts::default());
    let bad = |class: &str, msg: String| Err((Failure { class: class.into(), msg }, info.clone()));
    if let Some(e) = &o.panic {
        return bad(&format!("panic {}", norm_panic(e)), format!("the compiler panicked: {e}"));
    }
    if o.ok {
        return bad("accepted", "an initial value that is not a constant expression was accepted".into());
    }
    if let Some(b) = o.errors().iter().find(|d| d.level == Level::Bug) {
        return bad("internal error", format!("internal error: {}", b.msg));
    }
    let msg = o.errors().first().map(|d| d.msg.clone()).unwrap_or_default();
    let what = if msg.contains("known at compile time") { "rejected: not known at compile time" } else { "rejected: other error" };
    Ok(CaseOk { nontrivial: Some(tape::hash_str(&r.src)), sample: json!({"source": r.src, "error": msg}), feats: vec![what] })
}

pub fn c13(ctx: &Ctx) {
    ctx.rule("a register counts when its initial value differs from the value clocked in afterwards, a memory when its elements differ, a program with a non-constant part when it is rejected");
    ctx.assume("the harness' own Verilog parser/simulator implements the IEEE 1800 semantics of the emitted subset");
    run_units(ctx, "registers", &reg_unit, &Opts::default(), ctx.amount(12000, 400000), 20);
    run_units(ctx, "memories", &mem_unit, &Opts::default(), ctx.amount(2000, 60000), 20);
    run_cases(ctx, "not constant", &reject_case, ctx.amount(3000, 80000));
}
