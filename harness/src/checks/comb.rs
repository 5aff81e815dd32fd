//! Combinational programs against the reference interpreter.
use crate::bv::Bv;
use crate::lang::*;
use crate::pgen::{B, Cfg};
use crate::runner::*;
use crate::spadec::Opts;
use crate::tape::{self, Gen};
use crate::vparse::Design;
use crate::vsim::Sim;
use num::Zero;
use serde_json::json;
use std::collections::HashSet;

/// replace unknown (padding) bits by random ones: programs must not look at them
pub fn fill(g: &mut Gen, v: &Bv) -> Bv {
    if v.b.is_zero() {
        return v.clone();
    }
    let r = g.bits(v.w);
    let known = crate::bv::mask(v.w) ^ &v.b;
    Bv { w: v.w, a: (&v.a & &known) | (&r & &v.b), b: Zero::zero() }
}

/// do all bits that `want` defines agree?
pub fn agrees(want: &Bv, got: &Bv) -> bool {
    if want.w != got.w {
        return false;
    }
    let known = crate::bv::mask(want.w) ^ &want.b;
    (&got.b & &known).is_zero() && (&got.a & &known) == (&want.a & &known)
}

/// One test vector: parameter values and the bits to drive.
pub struct Vector {
    pub args: Vec<Val>,
    pub bits: Vec<Bv>,
    pub want: Bv,
}

pub fn vectors(g: &mut Gen, p: &Prog, f: usize, n: usize) -> Vec<Vector> {
    let func = &p.fns[f];
    (0..n)
        .map(|_| {
            let args: Vec<Val> = func.param_tys.iter().map(|t| p.gen_val(g, t)).collect();
            let bits = func.param_tys.iter().zip(&args).map(|(t, v)| fill(g, &p.encode(t, v))).collect();
            let want = p.encode(&func.ret, &Interp::new(p).call(f, args.clone()));
            Vector { args, bits, want }
        })
        .collect()
}

pub fn show_args(p: &Prog, f: &Func, args: &[Val]) -> String {
    f.params.iter().zip(args).zip(&f.param_tys).map(|((v, a), t)| format!("{}={a:?}[{}]", f.var_names[*v], p.encode(t, a).to_bits())).collect::<Vec<_>>().join(" ")
}

/// drive `module` with every vector and compare
pub fn sim_vectors(design: &Design, module: &str, names: &[String], vs: &[Vector], show: &dyn Fn(usize) -> String) -> Result<(), Failure> {
    let mut sim = match Sim::new(design, module) {
        Ok(s) => s,
        Err(e) => return fail("elaboration", format!("the emitted Verilog does not elaborate: {e}")),
    };
    for (k, v) in vs.iter().enumerate() {
        for (n, b) in names.iter().zip(&v.bits) {
            if b.w == 0 {
                continue;
            }
            if let Err(e) = sim.set(&format!("{n}_i"), b.clone()) {
                return fail("interface", format!("driving input: {e}"));
            }
        }
        if let Err(e) = sim.settle() {
            return fail("does not settle", e);
        }
        if v.want.w == 0 {
            continue;
        }
        let got = match sim.get("output__") {
            Ok(g) => g,
            Err(e) => return fail("interface", format!("reading output: {e}")),
        };
        if got.w != v.want.w {
            return fail("output width", format!("output is {} bits, expected {}", got.w, v.want.w));
        }
        if !agrees(&v.want, &got) {
            return fail("wrong value", format!("with {}\n  expected {}\n  got      {}", show(k), v.want.to_bits(), got.to_bits()));
        }
    }
    Ok(())
}

pub fn distinct_outputs(vs: &[Vector]) -> usize {
    vs.iter().filter(|v| v.want.b != crate::bv::mask(v.want.w)).map(|v| v.want.to_bits()).collect::<HashSet<_>>().len()
}

/// a unit made of one program with a combinational `top`
pub fn comb_unit(g: &mut Gen, prefix: &str, cfg: Cfg, build: &dyn Fn(&mut B), nvec: usize) -> Made {
    let std = cfg.std;
    let mut b = B::new(g, cfg);
    build(&mut b);
    let p = b.p;
    let vs = vectors(g, &p, p.top, nvec);
    let src = Printer { p: &p, n: Names::plain(prefix) }.prog();
    let module = format!("{prefix}top");
    let nontrivial = if distinct_outputs(&vs) >= 2 { Some(tape::hash_str(&src)) } else { None };
    let sample = json!({"source": src, "vector": vs.first().map(|v| json!({"inputs": show_args(&p, &p.fns[p.top], &v.args), "expected": v.want.to_bits()}))});
    let feats = feats(&src);
    let names: Vec<String> = p.fns[p.top].params.iter().map(|v| p.fns[p.top].var_names[*v].clone()).collect();
    Made {
        src,
        std,
        nontrivial,
        sample,
        feats,
        judge: Box::new(move |bt: &Built| sim_vectors(bt.design, &module, &names, &vs, &|k| show_args(&p, &p.fns[p.top], &vs[k].args))),
    }
}

/// which constructs a generated source uses (for the evidence counters)
pub fn feats(src: &str) -> Vec<&'static str> {
    let table: &[(&str, &'static str)] = &[
        ("match ", "uses match"),
        ("if let ", "uses if let"),
        ("lam_", "uses lambda"),
        ("enum ", "uses enum"),
        ("struct ", "uses struct"),
        ("impl ", "uses method"),
        ("Option<", "uses Option"),
        ("#[inline]", "uses #[inline]"),
        ("gen if", "uses gen if"),
        ("..", "uses array slice"),
        (">>>", "uses arithmetic shift"),
        (" / ", "uses division"),
        (" % ", "uses modulo"),
        (" * ", "uses multiplication"),
        ("undef()", "uses undef"),
        ("reg(", "uses register"),
        ("inst ", "uses instance"),
        ("clocked_memory", "uses memory"),
        ("decl ", "uses decl"),
        ("assert ", "uses assert"),
        ("reset(", "uses reset"),
        ("initial(", "uses initial"),
        ("$(", "uses named arguments"),
    ];
    table.iter().filter(|(k, _)| src.contains(k)).map(|x| x.1).collect()
}

pub fn c01(ctx: &Ctx) {
    ctx.rule("a generated program counts as non-trivial when the reference model gives at least two different, not wholly undefined outputs over its input vectors");
    ctx.assume("the harness' own Verilog parser/simulator implements the IEEE 1800 semantics of the emitted subset");
    let nstd = ctx.amount(700, 20000);
    let plain = Cfg { std: false, ..Cfg::default() };
    let mk = move |g: &mut Gen, pre: &str| comb_unit(g, pre, plain.clone(), &|b| b.comb_prog(), 10);
    run_units(ctx, "comb", &mk, &Opts::default(), nstd, 12);
    let mk = move |g: &mut Gen, pre: &str| comb_unit(g, pre, Cfg::default(), &|b| b.comb_prog(), 10);
    run_units(ctx, "comb-std", &mk, &Opts::default(), nstd, 20);
}
