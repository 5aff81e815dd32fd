//! Inverted wires: driven exactly once, and what is read is what was set.
use crate::bv::Bv;
use crate::linear::*;
use crate::runner::*;
use crate::spadec::{self, Opts};
use crate::tape::{self, Gen};
use crate::vsim::Sim;
use serde_json::{json, Value};
use std::collections::HashSet;

pub fn unit(g: &mut Gen, prefix: &str, std: bool) -> Made {
    let mut b = GB::new(g, std);
    b.prog();
    let p = b.p;
    let src = Pr { p: &p, pre: prefix.to_string() }.prog();
    let o = oracle(&p).expect("the generator checked this");
    let vecs: Vec<_> = (0..8)
        .map(|_| {
            let vals: Vec<u64> = (0..o.nin).map(|_| g.below(64)).collect();
            // In(k) is masked to its width here
            let mut vals = vals;
            for (n, w) in &o.gr.n {
                if let Node::In(k) = n {
                    vals[*k] &= (1 << w) - 1;
                }
            }
            o.eval(&vals)
        })
        .collect();
    let distinct: HashSet<String> = vecs.iter().map(|v| v.1.iter().map(|x| x.1.to_bits()).collect::<Vec<_>>().join(" ")).collect();
    let cells = o.gr.n.iter().filter(|n| matches!(n.0, Node::Cell(_))).count();
    let nontrivial = if cells >= 2 && distinct.len() >= 2 { Some(tape::hash_str(&src)) } else { None };
    let module = format!("{prefix}top");
    let show = |v: &[(String, Bv)]| v.iter().map(|x| format!("{}={}", x.0, x.1.to_bits())).collect::<Vec<_>>().join(" ");
    let sample = json!({"source": src, "inverted wires": cells, "inputs": show(&vecs[0].0), "expected": show(&vecs[0].1)});
    let feats = [(".inspect()", "inspect"), ("set ", "set"), ("(fn |", "captured by a lambda"), ("(*", "copy view"), ("impl ", "method on a port struct"), ("port::<(", "wire of a tuple"), ("port::<[", "wire of an array")].iter().filter(|x| src.contains(x.0)).map(|x| x.1).collect();
    Made {
        src,
        std,
        nontrivial,
        sample,
        feats,
        judge: Box::new(move |bt: &Built| {
            let mut sim = match Sim::new(bt.design, &module) {
                Ok(s) => s,
                Err(e) => return fail("elaboration", format!("the emitted Verilog does not elaborate: {e}")),
            };
            for (i, o) in &vecs {
                for (n, b) in i {
                    if let Err(e) = sim.set(n, b.clone()) {
                        return fail("interface", format!("driving input: {e}"));
                    }
                }
                if let Err(e) = sim.settle() {
                    return fail("does not settle", e);
                }
                for (n, want) in o {
                    match sim.get(n) {
                        Err(e) => return fail("interface", format!("reading output: {e}")),
                        Ok(got) if got != *want => return fail("wrong value", format!("with {}\n  {n}: expected {}, got {}", show(i), want.to_bits(), got.to_bits())),
                        _ => {}
                    }
                }
            }
            Ok(())
        }),
    }
}

/// mutants: each must be rejected with an error inside it
fn mutants(g: &mut Gen) -> Result<CaseOk, (Failure, Value)> {
    let mut src = String::new();
    let mut units = vec![];
    for k in 0..8 {
        let from = g.used();
        let mut b = GB::new(g, false);
        b.prog();
        let mut p = b.p;
        let what = mutate(g, &mut p);
        g.span(from, ());
        let Some(what) = what else { continue };
        let start = src.len();
        src.push_str(&Pr { p: &p, pre: format!("u{k}_") }.prog());
        units.push((what, start, src.len()));
    }
    beat(&src);
    let bad = |class: String, msg: String, text: &str| Err((Failure { class, msg }, json!({"source": text})));
    let out = spadec::run(&spadec::single(&src), &Opts::default());
    if let Some(p) = &out.panic {
        return bad(format!("panic {}", norm_panic(p)), format!("the compiler panicked: {p}"), &src);
    }
    let mut feats = vec![];
    let mut sample = Value::Null;
    for (what, a, b) in &units {
        let errs = out.errors();
        let own: Vec<_> = errs.iter().filter(|d| d.spans.first().is_some_and(|s| s.1 as usize >= *a && (s.2 as usize) <= *b && out.files.get(s.0).is_some_and(|f| f.1 == src))).collect();
        let text = &src[*a..*b];
        let mut own_msgs: Vec<String> = own.iter().map(|d| d.msg.clone()).collect();
        let mut bug = own.iter().any(|d| d.level == spadec::Level::Bug);
        if own.is_empty() {
            let o = spadec::run(&spadec::single(text), &Opts::default());
            if let Some(p) = &o.panic {
                return bad(format!("panic {}", norm_panic(p)), format!("the compiler panicked: {p}"), text);
            }
            if o.ok {
                return bad(format!("accepted: {what}"), format!("a program with {what} was accepted"), text);
            }
            own_msgs = o.errors().iter().map(|d| d.msg.clone()).collect();
            bug = o.errors().iter().any(|d| d.level == spadec::Level::Bug);
        }
        if bug {
            return bad("internal error".into(), format!("a program with {what} gives an internal error: {own_msgs:?}"), text);
        }
        feats.push(*what);
        if sample.is_null() {
            sample = json!({"mutant": text, "what": what, "errors": own_msgs});
        }
    }
    Ok(CaseOk { nontrivial: if units.is_empty() { None } else { Some(tape::hash_str(&src)) }, sample, feats })
}

/// Units with expressions in (nearly) every place the grammar has for one. Each `@` is such a place: a wire may be
/// set in a block around the expression that follows in `{}`.
const PLACES: &[(&str, &str)] = &[
    ("let", "let v# = @{a};"),
    ("if condition", "let v# = if @{b} {a} else {c};"),
    ("if branch", "let v# = if b @{a} else {c};"),
    ("else branch", "let v# = if b {a} else @{c};"),
    ("match scrutinee", "let v# = match @{b} { true => a, false => c };"),
    ("match arm", "let v# = match b { true => @{a}, false => c };"),
    ("last match arm", "let v# = match (a, b) { (3, true) => a, _ => @{c} };"),
    ("match guard", "let v# = match a { k if @{k == c} => a, _ => c };"),
    ("if let scrutinee", "let v# = if let E::A(k) = @{E::A(a)} {k} else {c};"),
    ("array element", "let v# = [a, @{c}, a];"),
    ("array repetition", "let v# = [@{a}; 3];"),
    ("array index", "let v# = arr[@{i}];"),
    ("indexed array", "let v# = @{arr}[i];"),
    ("slice", "let v# = @{arr}[1..3];"),
    ("tuple element", "let v# = (a, @{c});"),
    ("tuple access", "let v# = (@{(a, c)}).1;"),
    ("member access", "let v# = (@{s}).x;"),
    ("operand", "let v# = @{a} + c;"),
    ("second operand", "let v# = a & @{c};"),
    ("unary operand", "let v# = ~@{a};"),
    ("logical operand", "let v# = b && @{b};"),
    ("function argument", "let v# = f(@{a}, c);"),
    ("named argument", "let v# = f$(y: @{a}, x: c);"),
    ("entity argument", "let v# = inst e(clk, @{a});"),
    ("struct member", "let v# = S(@{a}, b);"),
    ("named struct member", "let v# = S$(y: b, x: @{a});"),
    ("variant member", "let v# = E::A(@{a});"),
    ("receiver", "let v# = (@{s}).m(c);"),
    ("method argument", "let v# = s.m(@{a});"),
    ("lambda", "let v# = (fn |k| { @{k & c} }).call((a,));"),
    ("lambda argument", "let v# = (fn |k| { k & c }).call((@{a},));"),
    ("block", "let v# = { let k = a; @{k} };"),
    ("statement in a block", "let v# = { let k# = @{a}; k# };"),
    ("assertion", "assert @{b};"),
    ("assertion operand", "assert a == @{a};"),
    ("assertion call", "assert f(@{a}, c) == f(a, c);"),
    ("register value", "reg(clk) v#: uint<4> = @{a};"),
    ("reset condition", "reg(clk) v#: uint<4> reset(@{b}: 0) = a;"),
    ("reset value", "reg(clk) v#: uint<4> reset(b: @{a}) = c;"),
    ("set value", "let (x#, y#) = core::ports::port::<uint<4>>(); set y# = @{a};"),
    ("pattern", "let (v#, _) = @{(a, b)};"),
    ("named pattern", "let S$(y: _, x: v#) = @{s};"),
    ("copy view", "let v# = *(@{&a});"),
    ("comparison", "let v# = @{a} > c;"),
    ("nested", "let v# = [(a, f(@{c}, a))];"),
];
fn placed(g: &mut Gen, pre: &str, allowed: &[usize]) -> (String, Vec<(usize, u64)>, Vec<&'static str>) {
    // what[k]: where wire k is set, how
    let nw = g.usize(1, 5);
    let mut kinds: Vec<(usize, u64)> = vec![];
    let mut feats = vec![];
    let n = g.usize(3, 9);
    let at: Vec<usize> = (0..n).map(|_| *g.pick(allowed)).collect();
    // the place of each wire: index into the places of the unit
    let mut sets: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for k in 0..nw {
        let w = g.usize(1, 3);
        sets[g.usize(0, n)].push(k);
        kinds.push((w, g.below(1 << w)));
    }
    let lin = |g: &mut Gen, l: &[usize]| -> String {
        l.iter()
            .map(|k| {
                let (w, v) = kinds[*k];
                match g.below(3) {
                    0 => format!("set w{k} = {v}u{w}; "),
                    1 => format!("let _ = d{w}(w{k}, {v}); "),
                    _ => format!("let k{k} = w{k}; set k{k} = {v}; "),
                }
            })
            .collect()
    };
    let mut body = String::new();
    for k in 0..n {
        let (name, t) = PLACES[at[k]];
        let t = t.replace('#', &k.to_string());
        let s = lin(g, &sets[k]);
        let (h, r) = t.split_once('@').unwrap();
        // the expression up to the matching brace
        let mut d = 0;
        let end = r.char_indices().find(|(_, c)| { if *c == '{' { d += 1 } else if *c == '}' { d -= 1 }; d == 0 }).unwrap().0;
        let (x, r) = (&r[1..end], &r[end + 1..]);
        if s.is_empty() {
            let x = if h.ends_with("else ") || h.ends_with("if b ") { format!("{{{x}}}") } else { format!("({x})") };
            body.push_str(&format!("  {h}{x}{r}\n"));
        } else {
            feats.push(name);
            body.push_str(&format!("  {h}{{ {s}{x} }}{r}\n"));
        }
    }
    let r = lin(g, &sets[n]);
    if !r.is_empty() {
        feats.push("result");
    }
    let ws: String = (0..nw).map(|k| format!(", w{k}: inv uint<{}>", kinds[k].0)).collect();
    let src = format!(
        "struct S {{ x: uint<4>, y: bool }}\nimpl S {{ fn m(self, k: uint<4>) -> uint<4> {{ self.x ^ k }} }}\nenum E {{ A{{x: uint<4>}}, B }}\nfn f(x: uint<4>, y: uint<4>) -> uint<4> {{ x & y }}\nentity e(clk: clock, x: uint<4>) -> uint<4> {{ reg(clk) r = x; r }}\n\
         fn d1(w: inv uint<1>, v: uint<1>) -> bool {{ set w = v; true }}\nfn d2(w: inv uint<2>, v: uint<2>) -> bool {{ set w = v; true }}\nfn d3(w: inv uint<3>, v: uint<3>) -> bool {{ set w = v; true }}\n\
         entity top(clk: clock, a0: uint<4>, b0: bool, c0: uint<4>, i: uint<2>{ws}) -> bool {{\n  let (a, b, c) = (a0, b0, c0); let arr = [a, c, a, 7]; let s = S(a, b);\n{body}  {{ {r}b0 }}\n}}\n"
    );
    // type names with the unit's prefix
    let mut out = String::new();
    let mut word = String::new();
    for c in src.chars().chain(" ".chars()) {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
        } else {
            if ["S", "E", "f", "e", "d1", "d2", "d3", "top", "m"].contains(&word.as_str()) {
                out.push_str(pre);
            }
            out.push_str(&word);
            word.clear();
            out.push(c);
        }
    }
    (out, kinds, feats)
}

fn place_unit(g: &mut Gen, pre: &str) -> Made {
    let all: Vec<usize> = (0..PLACES.len()).collect();
    let (src, kinds, feats) = placed(g, pre, &all);
    let vals: Vec<Vec<u64>> = (0..4).map(|_| vec![g.below(16), g.below(2), g.below(16)]).collect();
    let module = format!("{pre}top");
    Made {
        nontrivial: Some(tape::hash_str(&src)),
        sample: json!({"source": src}),
        src,
        std: false,
        feats,
        judge: Box::new(move |bt: &Built| {
            let mut sim = match Sim::new(bt.design, &module) {
                Ok(s) => s,
                Err(e) => return fail("elaboration", format!("the emitted Verilog does not elaborate: {e}")),
            };
            for v in &vals {
                for (n, w, x) in [("a0_i", 4, v[0]), ("b0_i", 1, v[1]), ("c0_i", 4, v[2]), ("i_i", 2, v[0] % 4)] {
                    let _ = sim.set(n, Bv::from_u64(w, x));
                }
                if let Err(e) = sim.settle() {
                    return fail("does not settle", e);
                }
                for (k, (w, x)) in kinds.iter().enumerate() {
                    match sim.get(&format!("w{k}_o")) {
                        Err(e) => return fail("interface", format!("reading output: {e}")),
                        Ok(got) if got != Bv::from_u64(*w, *x) => return fail("wrong value", format!("w{k}: expected {x}, got {}", got.to_bits())),
                        _ => {}
                    }
                }
            }
            Ok(())
        }),
    }
}
/// the same units with one wire set once more, in another place, or left out
fn place_mutants(g: &mut Gen) -> Result<CaseOk, (Failure, Value)> {
    let all: Vec<usize> = (0..PLACES.len()).collect();
    let (src, kinds, mut feats) = placed(g, "", &all);
    let k = g.usize(0, kinds.len() - 1);
    let (w, v) = kinds[k];
    let forms = [format!("set w{k} = {v}u{w}; "), format!("let _ = d{w}(w{k}, {v}); "), format!("let k{k} = w{k}; set k{k} = {v}; ")];
    let (at, form) = forms.iter().find_map(|f| src.find(f.as_str()).map(|p| (p, f.clone()))).unwrap();
    let (what, text) = if g.bool() {
        ("a wire that is not set", format!("{}{}", &src[..at], &src[at + form.len()..]))
    } else {
        // before the statement, or before the result
        let line = if g.bool() { src[..at].rfind('\n').unwrap() + 1 } else { src.rfind("  {").unwrap() };
        ("a wire set in two places", format!("{}  set w{k} = {v}u{w};\n{}", &src[..line], &src[line..]))
    };
    feats.push(what);
    beat(&text);
    let o = spadec::run(&spadec::single(&text), &Opts::default());
    let bad = |class: String, msg: String| Err((Failure { class, msg }, json!({"source": text, "what": what})));
    if let Some(p) = &o.panic {
        return bad(format!("panic {}", norm_panic(p)), format!("the compiler panicked: {p}"));
    }
    if o.ok {
        return bad(format!("accepted: {what}"), format!("a program with {what} was accepted"));
    }
    if let Some(d) = o.errors().iter().find(|d| d.level == spadec::Level::Bug) {
        return bad("internal error".into(), format!("a program with {what} gives an internal error: {}", d.msg));
    }
    let errors: Vec<String> = o.errors().iter().map(|d| d.msg.clone()).collect();
    if !errors.iter().any(|e| e.contains("unused") || e.contains("consumed")) {
        return bad(format!("another error: {}", norm_msg(&errors[0])), format!("a program with {what} is rejected for another reason: {errors:?}"));
    }
    Ok(CaseOk { nontrivial: Some(tape::hash_str(&text)), sample: json!({"mutant": text, "what": what, "errors": errors}), feats })
}

pub fn c10(ctx: &Ctx) {
    ctx.rule("a valid program counts as non-trivial when it creates or passes at least two inverted wires and its outputs take two different values over the vectors; an invalid one when it was made from a valid one by leaving out or adding one use of a wire");
    ctx.assume("the harness' own Verilog parser/simulator implements the IEEE 1800 semantics of the emitted subset");
    run_units(ctx, "linear", &|g: &mut Gen, pre: &str| unit(g, pre, false), &Opts::default(), ctx.amount(3000, 80000), 12);
    run_units(ctx, "linear-std", &|g: &mut Gen, pre: &str| unit(g, pre, true), &Opts::default(), ctx.amount(600, 20000), 20);
    run_cases(ctx, "linear-mutants", &mutants, ctx.amount(400, 10000));
    run_units(ctx, "linear-places", &place_unit, &Opts::default(), ctx.amount(1500, 40000), 10);
    run_cases(ctx, "linear-places-mutants", &place_mutants, ctx.amount(1500, 40000));
}
