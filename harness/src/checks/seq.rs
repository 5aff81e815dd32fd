//! Entities with registers, memories and instances against the reference interpreter, over input histories.
use super::comb::{agrees, feats, fill};
use crate::bv::Bv;
use crate::lang::*;
use crate::pgen::{B, Cfg};
use crate::runner::*;
use crate::spadec::Opts;
use crate::tape::{self, Gen};
use crate::vsim::Sim;
use serde_json::json;
use std::collections::HashSet;

pub struct Step {
    pub bits: Vec<Bv>,
    pub want: Bv,
    /// outcome of every assertion in the design: Some(holds) or unknown
    pub asserts: Vec<Option<bool>>,
    /// clocks that tick after the comparison
    pub clocks: Vec<usize>,
    pub show: String,
}

pub fn flat_asserts(n: &Next, out: &mut Vec<Option<bool>>) {
    out.extend(n.asserts.iter().map(|a| a.1));
    let mut k: Vec<_> = n.children.iter().collect();
    k.sort_by_key(|x| x.0);
    k.into_iter().for_each(|c| flat_asserts(c.1, out));
}

pub fn history(g: &mut Gen, p: &Prog, f: usize, n: usize) -> Vec<Step> {
    let func = &p.fns[f];
    let it = Interp::new(p);
    let mut st = InstState::default();
    let mut steps = vec![];
    let nclk = func.clocks.len();
    for c in 0..n {
        let args: Vec<Val> = func
            .params
            .iter()
            .zip(&func.param_tys)
            .map(|(v, t)| if func.var_names[*v] == "rst" { Val::B(if c < 2 { g.chance(3, 4) } else { g.chance(1, 8) }) } else { p.gen_val(g, t) })
            .collect();
        let bits = func.param_tys.iter().zip(&args).map(|(t, v)| fill(g, &p.encode(t, v))).collect();
        it.fuel.set(2_000_000);
        let mut nx = Next::default();
        let out = it.run(f, args.clone(), &mut st, &mut nx);
        let want = p.encode(&func.ret, &out);
        let mut asserts = vec![];
        flat_asserts(&nx, &mut asserts);
        // one or several clocks tick (simultaneous edges are not part of the language's guarantees)
        let clocks = vec![if nclk > 1 { g.below(nclk as u64) as usize } else { 0 }];
        for k in &clocks {
            it.commit(f, &mut st, &nx, *k);
        }
        let show = super::comb::show_args(p, func, &args);
        steps.push(Step { bits, want, asserts, clocks, show });
    }
    steps
}

pub fn sim_history(design: &crate::vparse::Design, module: &str, names: &[String], clks: &[String], steps: &[Step], check_asserts: bool) -> Result<(), Failure> {
    let mut sim = match Sim::new(design, module) {
        Ok(s) => s,
        Err(e) => return fail("elaboration", format!("the emitted Verilog does not elaborate: {e}")),
    };
    let io = |e: String| Failure { class: "interface".into(), msg: e };
    let ns = |e: String| Failure { class: "does not settle".into(), msg: e };
    for c in clks {
        sim.set(&format!("{c}_i"), Bv::zero(1)).map_err(io)?;
    }
    for (k, s) in steps.iter().enumerate() {
        let trace = |k: usize| {
            steps[..=k].iter().enumerate().map(|(i, s)| format!("    cycle {i}: {} -> {} then tick {:?}", s.show, s.want.to_bits(), s.clocks)).collect::<Vec<_>>().join("\n")
        };
        for (n, b) in names.iter().zip(&s.bits) {
            if b.w > 0 {
                sim.set(&format!("{n}_i"), b.clone()).map_err(io)?;
            }
        }
        sim.settle().map_err(ns)?;
        if s.want.w > 0 {
            let got = sim.get("output__").map_err(io)?;
            if got.w != s.want.w {
                return fail("output width", format!("output is {} bits, expected {}", got.w, s.want.w));
            }
            if !agrees(&s.want, &got) {
                return fail("wrong value", format!("in cycle {k} expected {} got {}\n{}", s.want.to_bits(), got.to_bits(), trace(k)));
            }
        }
        if check_asserts {
            let got = sim.assert_values();
            if got.len() != s.asserts.len() {
                return fail("assert count", format!("{} assertions in the output, {} in the program", got.len(), s.asserts.len()));
            }
            let cnt = |v: &[Option<bool>], x: Option<bool>| v.iter().filter(|y| **y == x).count();
            let (wf, wu) = (cnt(&s.asserts, Some(false)), cnt(&s.asserts, None));
            let gf = cnt(&got, Some(false));
            let gt = cnt(&got, Some(true));
            let wt = cnt(&s.asserts, Some(true));
            if gf < wf || gf > wf + wu || gt < wt {
                return fail("assertions", format!("in cycle {k}: {wf} assertions are false ({wu} unknown), {gf} fire\n{}", trace(k)));
            }
        }
        for c in &s.clocks {
            sim.tick(&format!("{}_i", clks[*c])).map_err(ns)?;
        }
    }
    Ok(())
}

pub fn seq_unit(g: &mut Gen, prefix: &str, cfg: Cfg, build: &dyn Fn(&mut B), cycles: usize) -> Made {
    let std = cfg.std;
    let mut b = B::new(g, cfg);
    build(&mut b);
    let p = b.p;
    let steps = history(g, &p, p.top, cycles);
    let src = Printer { p: &p, n: Names::plain(prefix) }.prog();
    let module = format!("{prefix}top");
    let known: Vec<&Step> = steps.iter().filter(|s| s.want.b != crate::bv::mask(s.want.w)).collect();
    let distinct = known.iter().map(|s| s.want.to_bits()).collect::<HashSet<_>>().len();
    let nontrivial = if distinct >= 3 { Some(tape::hash_str(&src)) } else { None };
    let sample = json!({"source": src, "history": steps.iter().map(|s| format!("{} -> {}", s.show, s.want.to_bits())).collect::<Vec<_>>()});
    let feats = feats(&src);
    let f = &p.fns[p.top];
    let names: Vec<String> = f.params.iter().map(|v| f.var_names[*v].clone()).collect();
    let clks = f.clocks.clone();
    Made {
        src,
        std,
        nontrivial,
        sample,
        feats,
        judge: Box::new(move |bt: &Built| sim_history(bt.design, &module, &names, &clks, &steps, true)),
    }
}

pub fn c02(ctx: &Ctx) {
    ctx.rule("a generated entity with its input history counts as non-trivial when the reference model gives at least three different, not wholly undefined outputs over the history");
    ctx.assume("the harness' own Verilog parser/simulator implements the IEEE 1800 semantics of the emitted subset");
    let n = ctx.amount(500, 16000);
    let plain = Cfg { std: false, budget: 25, ..Cfg::default() };
    let mk = move |g: &mut Gen, pre: &str| seq_unit(g, pre, plain.clone(), &|b| b.seq_prog(), 14);
    run_units(ctx, "seq", &mk, &Opts::default(), n, 12);
    let mk = move |g: &mut Gen, pre: &str| seq_unit(g, pre, Cfg { budget: 25, ..Cfg::default() }, &|b| b.seq_prog(), 14);
    run_units(ctx, "seq-std", &mk, &Opts::default(), n, 20);
    let mk = move |g: &mut Gen, pre: &str| seq_unit(g, pre, Cfg { budget: 12, ..Cfg::default() }, &|b| b.mem_prog(), 24);
    run_units(ctx, "mem", &mk, &Opts::default(), n / 2, 25);
}

pub fn c03(ctx: &Ctx) {
    ctx.rule("a generated pipeline with its input history counts as non-trivial when the reference model (explicit per-stage registers) gives at least three different, not wholly undefined outputs over the history");
    ctx.assume("the harness' own Verilog parser/simulator implements the IEEE 1800 semantics of the emitted subset");
    let n = ctx.amount(500, 16000);
    let plain = Cfg { std: false, budget: 20, ..Cfg::default() };
    let mk = move |g: &mut Gen, pre: &str| seq_unit(g, pre, plain.clone(), &|b| b.pipe_prog(), 20);
    run_units(ctx, "pipe", &mk, &Opts::default(), n, 12);
    let mk = move |g: &mut Gen, pre: &str| seq_unit(g, pre, Cfg { budget: 20, ..Cfg::default() }, &|b| b.pipe_prog(), 20);
    run_units(ctx, "pipe-std", &mk, &Opts::default(), n, 20);
    let plain = Cfg { std: false, lambdas: false, ..Cfg::default() };
    let mk = move |g: &mut Gen, pre: &str| seq_unit(g, pre, plain.clone(), &|b| b.pipectl_prog(), 40);
    run_units(ctx, "pipe-ctl", &mk, &Opts::default(), n * 2, 12);
}

/// the optimisation passes, on the command line (for all units) and as an attribute (for some)
pub fn c20(ctx: &Ctx) {
    ctx.rule("a generated entity or pipeline, compiled with optimisation passes, with its input history counts as non-trivial when the reference model gives at least three different, not wholly undefined outputs over the history");
    ctx.assume("the harness' own Verilog parser/simulator implements the IEEE 1800 semantics of the emitted subset");
    let n = ctx.amount(250, 8000);
    let build = |b: &mut B| {
        b.option_like();
        match b.g.below(3) {
            0 => b.pipe_prog(),
            _ => b.seq_prog(),
        }
    };
    let plain = Cfg { std: false, budget: 20, ..Cfg::default() };
    let sets: [(&str, &[&str]); 4] = [
        ("gating", &["enum_clock_gating"]),
        ("split", &["split_compound_regs"]),
        ("split-gating", &["split_compound_regs", "enum_clock_gating"]),
        ("gating-split", &["enum_clock_gating", "split_compound_regs"]),
    ];
    for (label, passes) in sets {
        let cfg = plain.clone();
        let mk = move |g: &mut Gen, pre: &str| seq_unit(g, pre, cfg.clone(), &build, 14);
        run_units(ctx, label, &mk, &Opts { passes: passes.iter().map(|p| p.to_string()).collect(), ..Opts::default() }, n, 12);
    }
    let attr = move |b: &mut B| {
        build(b);
        for k in 0..b.p.fns.len() {
            let a = *b.g.pick(&["", "#[optimize(enum_clock_gating)]\n", "#[optimize(split_compound_regs)]\n", "#[optimize(split_compound_regs, enum_clock_gating)]\n", "#[optimize(enum_clock_gating, split_compound_regs)]\n"]);
            b.p.fns[k].attrs.push_str(a);
        }
    };
    let mk = move |g: &mut Gen, pre: &str| seq_unit(g, pre, plain.clone(), &attr, 14);
    run_units(ctx, "attribute", &mk, &Opts::default(), n, 12);
    let mk = move |g: &mut Gen, pre: &str| seq_unit(g, pre, Cfg { budget: 20, ..Cfg::default() }, &attr, 14);
    run_units(ctx, "attribute-std", &mk, &Opts::default(), n, 20);
}
