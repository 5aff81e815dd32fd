//! Programs that break a static rule must be rejected, with errors and nothing else.
use crate::lang::*;
use crate::mutate::*;
use crate::pgen::{B, Cfg};
use crate::runner::*;
use crate::spadec::{self, Opts};
use crate::tape::{self, Gen};
use serde_json::{json, Value};

/// one program that breaks a rule: text and the rule
pub struct Bad {
    pub src: String,
    pub what: String,
}
pub type BadFn<'a> = &'a dyn Fn(&mut Gen, &str) -> Option<Bad>;

pub fn judge_alone(text: &str, what: &str, std: bool) -> Result<Vec<String>, (Failure, Value)> {
    let bad = |class: String, msg: String| Err((Failure { class, msg }, json!({"source": text})));
    beat(text);
    let o = spadec::run(&spadec::single(text), &Opts { std, ..Default::default() });
    if let Some(p) = &o.panic {
        return bad(format!("panic {}", norm_panic(p)), format!("a program with {what}: the compiler panicked: {p}"));
    }
    if o.ok {
        return bad(format!("accepted: {}", what.split('(').next().unwrap().trim()), format!("a program with {what} was accepted"));
    }
    let e = o.errors();
    if e.is_empty() {
        return bad("silent".into(), format!("a program with {what} was rejected without an error message"));
    }
    if let Some(b) = e.iter().find(|d| d.level == spadec::Level::Bug) {
        return bad(format!("internal error {}", norm_msg(&b.msg)), format!("a program with {what} gives an internal error: {}", b.msg));
    }
    Ok(e.iter().map(|d| d.msg.clone()).collect())
}

/// several bad programs, one compilation if possible: each must have an error of its own
pub fn bad_batch(g: &mut Gen, make: BadFn, n: usize, std: bool) -> Result<CaseOk, (Failure, Value)> {
    let mut src = String::new();
    let mut units = vec![];
    for k in 0..n {
        let from = g.used();
        let b = make(g, &format!("u{k}_"));
        g.span(from, ());
        let Some(b) = b else { continue };
        let start = src.len();
        src.push_str(&b.src);
        src.push('\n');
        units.push((b.what, start, src.len()));
    }
    let mut feats = vec![];
    let mut sample = Value::Null;
    for (what, a, b) in &units {
        let msgs = judge_alone(&src[*a..*b], what, std)?;
        let w: &str = what.split('(').next().unwrap().trim();
        // few distinct rules: leaking them keeps the counters simple
        feats.push(intern(w));
        if sample.is_null() {
            sample = json!({"program": &src[*a..*b], "rule": what, "errors": msgs});
        }
    }
    Ok(CaseOk { nontrivial: if units.is_empty() { None } else { Some(tape::hash_str(&src)) }, sample, feats })
}
pub fn intern(s: &str) -> &'static str {
    use std::collections::HashSet;
    use std::sync::Mutex;
    static POOL: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut p = POOL.lock().unwrap();
    let p = p.get_or_insert_with(HashSet::new);
    match p.get(s) {
        Some(x) => x,
        None => {
            let l: &'static str = Box::leak(s.to_string().into_boxed_str());
            p.insert(l);
            l
        }
    }
}

fn cfg(std: bool) -> Cfg {
    Cfg { std, budget: 14, max_w: 20, ..Default::default() }
}
pub fn mutant(g: &mut Gen, pre: &str, kind: u64, std: bool) -> Option<Bad> {
    let mut b = B::new(g, cfg(std));
    match kind {
        0 => b.comb_prog(),
        1 => b.seq_prog(),
        _ => b.pipe_prog(),
    }
    let mut p = b.p;
    if g.chance(1, 6) {
        return mutate_items(g, &p, pre).map(|(src, what)| Bad { src, what });
    }
    let what = mutate(g, &mut p, pre)?;
    let src = Printer { p: &p, n: Names::plain(pre) }.prog();
    Some(Bad { src, what })
}

pub fn c11(ctx: &Ctx) {
    ctx.rule("a case is a program that a valid generated program turned into by breaking one static rule at one place; each counts");
    ctx.assume("the changed program breaks the rule: the generator prints its programs so that the type of the changed place is determined by its surroundings");
    run_cases(ctx, "rules", &|g: &mut Gen| super::rules::rule_case(g), ctx.amount(900, 20000));
    run_cases(ctx, "comb", &|g: &mut Gen| bad_batch(g, &|g, p| mutant(g, p, 0, false), 1, false), ctx.amount(2600, 100000));
    run_cases(ctx, "seq", &|g: &mut Gen| bad_batch(g, &|g, p| mutant(g, p, 1, false), 1, false), ctx.amount(900, 50000));
    run_cases(ctx, "pipe", &|g: &mut Gen| bad_batch(g, &|g, p| mutant(g, p, 2, false), 1, false), ctx.amount(900, 50000));
    run_cases(ctx, "std", &|g: &mut Gen| bad_batch(g, &|g, p| mutant(g, p, 0, true), 1, true), ctx.amount(400, 30000));
}
