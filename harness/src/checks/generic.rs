//! Generic code: every instance means the body with the parameters replaced.
use super::comb::{fill, sim_vectors, Vector};
use crate::generic::*;
use crate::lang::Prog;
use crate::runner::*;
use crate::spadec::Opts;
use crate::tape::{self, Gen};
use serde_json::json;
use std::cell::Cell;
use std::collections::{HashMap, HashSet};

pub fn unit(g: &mut Gen, prefix: &str, traits: bool) -> Made {
    let mut b = GB::new(g, traits);
    b.prog();
    let p = b.p;
    let mut prog = Prog::default();
    let mut memo = HashMap::new();
    let top = &p.units[p.top];
    let tys: Vec<_> = top
        .sig
        .ps
        .iter()
        .map(|(_, t)| match t {
            PTy::V(t) => concrete(&p, t, &mut prog, &mut memo),
            _ => panic!(),
        })
        .collect();
    let ret = concrete(&p, &top.sig.ret, &mut prog, &mut memo);
    let mut vs = vec![];
    let mut insts = HashSet::new();
    let mut trouble = None;
    for _ in 0..8 {
        let args: Vec<_> = tys.iter().map(|t| prog.gen_val(g, t)).collect();
        let ev = Ev { p: &p, steps: Cell::new(0), insts: Default::default() };
        match ev.call(p.top, &[], args.iter().cloned().map(Slot::V).collect()) {
            Ok(v) => {
                let bits = tys.iter().zip(&args).map(|(t, v)| fill(g, &prog.encode(t, v))).collect();
                vs.push(Vector { want: prog.encode(&ret, &v), args, bits });
            }
            Err(e) => trouble = Some(e),
        }
        insts.extend(ev.insts.into_inner());
    }
    let mut src = Pr { p: &p, pre: prefix.to_string() }.prog();
    let module = format!("{prefix}top");
    if trouble.is_some() {
        // exponential unrolling: not a usable case
        src = format!("fn {prefix}top(c: bool) -> bool {{ c }}\n");
        vs.clear();
    }
    // instances with a non-empty binding; at least one unit with two of them
    let mut per: HashMap<usize, usize> = HashMap::new();
    for (u, a) in &insts {
        if !a.is_empty() {
            *per.entry(*u).or_default() += 1;
        }
    }
    let distinct = super::comb::distinct_outputs(&vs);
    let nontrivial = if distinct >= 2 && per.values().any(|n| *n >= 2) { Some(tape::hash_str(&src)) } else { None };
    let mut feats = vec![];
    let table: &[(&str, &'static str)] = &[
        ("gen if", "gen if on a parameter"),
        ("trait ", "trait"),
        ("impl<", "generic impl"),
        ("impl ", "specific impl"),
        ("PartialEq", "PartialEq bound"),
        ("impl Fn(", "lambda parameter"),
        ("#bool", "truth-value parameter"),
        ("#uint", "integer parameter"),
        (" where ", "where clause"),
        ("{", "any"),
    ];
    for (k, n) in table {
        if src.contains(k) {
            feats.push(*n);
        }
    }
    let sample = json!({"source": src, "instances": per.values().sum::<usize>(), "vector": vs.first().map(|v| json!({"inputs": v.bits.iter().map(|b| b.to_bits()).collect::<Vec<_>>(), "expected": v.want.to_bits()}))});
    let names: Vec<String> = top.sig.ps.iter().map(|p| p.0.clone()).collect();
    Made {
        src,
        std: true,
        nontrivial,
        sample,
        feats,
        judge: Box::new(move |bt: &Built| {
            sim_vectors(bt.design, &module, &names, &vs, &|k| names.iter().zip(&vs[k].bits).map(|(n, b)| format!("{n}={}", b.to_bits())).collect::<Vec<_>>().join(" "))
        }),
    }
}

pub fn c08(ctx: &Ctx) {
    ctx.rule("a generated program counts as non-trivial when some generic unit is used with at least two different bindings of its parameters and the outputs take at least two different values over the vectors");
    ctx.assume("the harness' own Verilog parser/simulator implements the IEEE 1800 semantics of the emitted subset");
    let n = ctx.amount(1500, 40000);
    run_units(ctx, "generic", &|g: &mut Gen, pre: &str| unit(g, pre, false), &Opts::default(), n, 12);
    super::consts::jobs(ctx);
}
pub fn c09(ctx: &Ctx) {
    ctx.rule("a generated program counts as non-trivial when some generic unit or impl is used with at least two different bindings of its parameters and the outputs take at least two different values over the vectors");
    ctx.assume("the harness' own Verilog parser/simulator implements the IEEE 1800 semantics of the emitted subset");
    let n = ctx.amount(1500, 40000);
    run_units(ctx, "traits", &|g: &mut Gen, pre: &str| unit(g, pre, true), &Opts::default(), n, 12);
}
