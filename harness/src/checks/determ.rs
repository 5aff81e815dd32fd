//! The same text gives the same result: Verilog, MIR, item list and messages, in every run and with any number of threads.
use super::{robust, surface};
use crate::runner::*;
use crate::spadec::{self, File, Opts, Out};
use crate::tape::{self, Gen};
use serde_json::{json, Value};

fn compile(files: &[File], std: bool) -> Out {
    spadec::run(files, &Opts { std, render: true, mir: true, items: true, wrapper: true, ..Default::default() })
}
fn first_difference(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("`{x}` and `{y}`");
        }
    }
    format!("{} and {} lines", a.lines().count(), b.lines().count())
}
fn same(a: &Out, b: &Out, how: &str) -> Result<(), Failure> {
    if a.panic.is_some() || b.panic.is_some() {
        // that is another property
        return Ok(());
    }
    if a.ok != b.ok {
        return fail("verdict", format!("accepted {how}: {} and then {}", a.ok, b.ok));
    }
    if a.diags != b.diags || a.rendered != b.rendered {
        return fail("messages", format!("different messages {how}: {}", first_difference(&a.rendered, &b.rendered)));
    }
    for (what, x, y) in [("verilog", &a.verilog, &b.verilog), ("mir", &a.mir, &b.mir), ("item list", &a.items, &b.items), ("wrapper", &a.wrapper, &b.wrapper)] {
        if x != y {
            let e = String::new();
            return fail(what, format!("different {what} {how}: {}", first_difference(x.as_ref().unwrap_or(&e), y.as_ref().unwrap_or(&e))));
        }
    }
    Ok(())
}

/// as `same`, for runs whose threads number the expressions in another order: what the design does is judged by the models
fn alike(a: &Out, b: &Out, how: &str) -> Result<(), Failure> {
    if a.panic.is_some() || b.panic.is_some() {
        return Ok(());
    }
    if a.ok != b.ok {
        return fail("verdict", format!("accepted {how}: {} and then {}", a.ok, b.ok));
    }
    let key = |o: &Out| {
        let mut v: Vec<String> = o.diags.iter().map(|d| format!("{:?} {} [{}] {:?} {:?}", d.level, d.msg, d.label, d.spans, d.suggestions)).collect();
        v.sort();
        v
    };
    let (x, y) = (key(a), key(b));
    if x != y {
        return fail("messages", format!("different messages {how}: {}", first_difference(&x.join("\n"), &y.join("\n"))));
    }
    Ok(())
}

fn case(g: &mut Gen, pools: &[rayon::ThreadPool]) -> Result<CaseOk, (Failure, Value)> {
    let mut feats = vec![];
    let mut std = false;
    let mut files = vec![];
    let n = if g.chance(1, 4) { g.usize(2, 4) } else { 1 };
    let mut changed = false;
    let mut made = vec![];
    for k in 0..n {
        let mut src = String::new();
        for j in 0..g.usize(1, 4) {
            let (m, from) = robust::unit(g, &format!("u{k}{j}_"));
            if from.contains("assertions") && j > 0 {
                // its names are not its own
                continue;
            }
            std |= m.std;
            feats.push(from);
            src.push_str(&m.src);
            src.push('\n');
            made.push(m);
        }
        if g.chance(1, 3) {
            let mut t = surface::tokens(&src);
            for _ in 0..g.usize(1, 4) {
                robust::change(g, &mut t);
            }
            src = t.join(" ");
            changed = true;
        }
        let ns = if n > 1 { vec!["proj".to_string(), format!("m{k}")] } else { vec![] };
        let base = if n > 1 { vec!["proj".to_string()] } else { vec![] };
        files.push(File { ns, base, name: format!("f{k}.spade"), src });
    }
    if n > 1 {
        let src = (0..n).map(|k| format!("mod m{k};\n")).collect::<String>();
        files.insert(0, File { ns: vec!["proj".into()], base: vec!["proj".into()], name: "main.spade".into(), src });
    }
    let text = files.iter().map(|f| format!("// {}\n{}", f.name, f.src)).collect::<Vec<_>>().join("\n");
    beat(&text);
    let a = compile(&files, std);
    let b = compile(&files, std);
    let r = same(&a, &b, "in two runs").and_then(|_| {
        let k = g.below(pools.len() as u64) as usize;
        let c = pools[k].install(|| compile(&files, std));
        alike(&a, &c, &format!("with {} threads", pools[k].current_num_threads()))?;
        if let (false, 1, true, Some(v)) = (changed, n, c.ok, &c.verilog) {
            let design = crate::vparse::parse(v).map_err(|e| Failure { class: "malformed verilog".into(), msg: format!("the emitted Verilog does not parse: {e}") })?;
            for m in &made {
                (m.judge)(&Built { out: &c, design: &design }).map_err(|f| Failure { class: format!("{} with several threads", f.class), ..f })?;
            }
        }
        Ok(())
    });
    feats.push(if changed { "changed at random places" } else { "as generated" });
    feats.push(if a.ok { "accepted" } else if a.errors().len() > 1 { "rejected with several messages" } else { "rejected with one message" });
    if n > 1 {
        feats.push("several files");
    }
    match r {
        Ok(()) => Ok(CaseOk { nontrivial: Some(tape::hash_str(&text)), sample: json!({"text": text, "accepted": a.ok}), feats }),
        Err(f) => Err((f, json!({"source": text, "std": std, "error": a.first_error()}))),
    }
}

pub fn c18(ctx: &Ctx) {
    ctx.rule("every text counts; each is compiled twice by one thread and once by several");
    let pools: Vec<rayon::ThreadPool> = [2, 3, 8].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).stack_size(512 << 20).build().unwrap()).collect();
    run_cases(ctx, "texts", &|g: &mut Gen| case(g, &pools), ctx.amount(1500, 60000));
}
