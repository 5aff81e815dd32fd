//! The standard library's clocked units under arbitrary clock interleavings (C07).
use super::comb::{agrees, fill};
use super::stdlib::{elem_ty, ty_s};
use crate::bv::Bv;
use crate::lang::*;
use crate::runner::*;
use crate::spadec::Opts;
use crate::tape::{self, Gen};
use crate::vsim::Sim;
use serde_json::json;
use std::collections::VecDeque;

struct D {
    sim: Sim,
    log: Vec<String>,
}
type R<T> = Result<T, Failure>;
impl D {
    fn new(bt: &Built, module: &str) -> R<D> {
        match Sim::new(bt.design, module) {
            Ok(sim) => Ok(D { sim, log: vec![] }),
            Err(e) => fail("elaboration", format!("the emitted Verilog does not elaborate: {e}")),
        }
    }
    fn set(&mut self, n: &str, v: &Bv) -> R<()> {
        self.log.push(format!("{n}={}", v.to_bits()));
        if v.w == 0 {
            return Ok(());
        }
        self.sim.set(&format!("{n}_i"), v.clone()).map_err(|e| Failure { class: "interface".into(), msg: e })
    }
    fn bit(&mut self, n: &str, b: bool) -> R<()> {
        self.set(n, &Bv::from_u64(1, b as u64))
    }
    fn tick(&mut self, n: &str) -> R<()> {
        self.log.push(format!("tick {n}"));
        self.sim.tick(&format!("{n}_i")).map_err(|e| Failure { class: "does not settle".into(), msg: e })
    }
    fn out(&mut self) -> R<Bv> {
        self.sim.settle().map_err(|e| Failure { class: "does not settle".into(), msg: e })?;
        self.sim.get("output__").map_err(|e| Failure { class: "interface".into(), msg: e })
    }
    fn bad<T>(&self, class: &str, msg: String) -> R<T> {
        let n = self.log.len();
        fail(class, format!("{msg}\n  last steps: {}", self.log[n.saturating_sub(40)..].join("; ")))
    }
}
/// top `w` bits first
fn split(v: &Bv, ws: &[usize]) -> Vec<Bv> {
    let mut hi = v.w as i64;
    ws.iter()
        .map(|w| {
            hi -= *w as i64;
            v.slice(hi, *w)
        })
        .collect()
}

fn made(src: String, feat: &'static str, hist: serde_json::Value, judge: Box<dyn Fn(&Built) -> R<()>>) -> Made {
    Made { nontrivial: Some(tape::hash_str(&format!("{src}{hist}"))), sample: json!({"source": src, "history": hist}), src, std: true, feats: vec![feat], judge }
}

struct Vals {
    t: Ty,
    w: usize,
    v: Vec<Bv>,
    /// driven form (padding filled)
    d: Vec<Bv>,
}
fn vals(g: &mut Gen, t: &Ty, n: usize) -> Vals {
    let p = Prog::default();
    let v: Vec<Bv> = (0..n).map(|_| p.gen_val(g, t)).collect::<Vec<_>>().iter().map(|v| p.encode(t, v)).collect();
    let d = v.iter().map(|v| fill(g, v)).collect();
    Vals { t: t.clone(), w: p.size(t) as usize, v, d }
}
impl Vals {
    fn some(&self, i: usize) -> Bv {
        Bv::from_u64(1, 1).concat(&self.d[i])
    }
    fn none(&self) -> Bv {
        Bv::zero(1).concat(&Bv::x(self.w))
    }
}

fn fifo(g: &mut Gen, prefix: &str) -> Made {
    let t = elem_ty(g, 1);
    let aw = *g.pick(&[2usize, 1, 3, 4]);
    let c = 1usize << aw;
    let n = 140;
    let vs = vals(g, &t, n);
    // phases with different appetites so that the queue gets full and empty
    let mut steps = vec![];
    let (mut pw, mut pr, mut pt) = (4, 4, 4);
    for k in 0..n {
        if k % 20 == 0 {
            pw = g.range(0, 8);
            pr = g.range(0, 8);
            pt = g.range(1, 7);
        }
        steps.push((g.below(8) < pt, g.below(8) < pw, g.below(8) < pr));
    }
    let ts = ty_s(&t);
    let src = format!(
        "entity {prefix}top(wclk: clock, wrst: bool, rclk: clock, rrst: bool, w: Option<{ts}>, ack: bool) -> (bool, Option<{ts}>, uint<{aw}>) {{
    let (fw, fr) = inst std::mem::fifo::<{aw}, {ts}, {c}>$(write_clk: wclk, write_rst: wrst, read_clk: rclk, read_rst: rrst);
    set fw.write = w;
    set fr.ack = ack;
    (fw.full, fr.read, fr.num_elements)
}}
"
    );
    let module = format!("{prefix}top");
    let hist = json!(steps.iter().map(|(a, b, c)| format!("{}{}{}", if *a { 'w' } else { 'r' }, if *b { '+' } else { ' ' }, if *c { '-' } else { ' ' })).collect::<Vec<_>>().join(","));
    made(
        src,
        "fifo",
        hist,
        Box::new(move |bt| {
            let mut d = D::new(bt, &module)?;
            d.bit("wclk", false)?;
            d.bit("rclk", false)?;
            d.bit("wrst", true)?;
            d.bit("rrst", true)?;
            d.set("w", &vs.none())?;
            d.bit("ack", false)?;
            for _ in 0..6 {
                d.tick("wclk")?;
                d.tick("rclk")?;
            }
            d.bit("wrst", false)?;
            d.bit("rrst", false)?;
            let mut q: VecDeque<usize> = VecDeque::new();
            let ws = [1, 1 + vs.w, aw];
            let look = |d: &mut D, q: &VecDeque<usize>| -> R<(bool, bool)> {
                let o = split(&d.out()?, &ws);
                let (Some(full), Some(valid), Some(num)) = (o[0].to_u64(), o[1].get(vs.w).map(|b| b as u64), o[2].to_u64()) else {
                    return d.bad("undefined", format!("undefined output {:?}", o.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
                };
                if num as usize > q.len() {
                    return d.bad("num_elements", format!("num_elements is {num} but only {} elements are in the queue", q.len()));
                }
                if valid == 1 {
                    match q.front() {
                        None => return d.bad("phantom element", "an element is offered although the queue is empty".into()),
                        Some(i) => {
                            if !agrees(&vs.v[*i], &o[1].slice(0, vs.w)) {
                                return d.bad("wrong element", format!("offered {}, the oldest element is {}", o[1].slice(0, vs.w).to_bits(), vs.v[*i].to_bits()));
                            }
                        }
                    }
                }
                Ok((full == 1, valid == 1))
            };
            let mut maxlen = 0;
            for (k, (wtick, wr, rd)) in steps.iter().enumerate() {
                d.set("w", &if *wr { vs.some(k) } else { vs.none() })?;
                d.bit("ack", *rd)?;
                let (full, valid) = look(&mut d, &q)?;
                if q.len() >= c - 1 && !full {
                    return d.bad("not full", format!("{} elements are in a queue of {c} entries and `full` is false", q.len()));
                }
                if *wtick {
                    if *wr && !full {
                        q.push_back(k);
                        maxlen = maxlen.max(q.len());
                    }
                    d.tick("wclk")?;
                } else {
                    if *rd && valid {
                        q.pop_front();
                    }
                    d.tick("rclk")?;
                }
            }
            // quiescent: everything written becomes visible
            d.set("w", &vs.none())?;
            d.bit("ack", false)?;
            for _ in 0..8 {
                d.tick("wclk")?;
                d.tick("rclk")?;
            }
            let (full, valid) = look(&mut d, &q)?;
            let num = split(&d.out()?, &ws)[2].to_u64();
            if valid == q.is_empty() || full != (q.len() == c - 1) || num != Some(q.len() as u64) {
                return d.bad("stuck", format!("after a quiet period with {} elements: valid={valid} full={full} num_elements={num:?}", q.len()));
            }
            let _ = &vs.t;
            Ok(())
        }),
    )
}

fn handshake(g: &mut Gen, prefix: &str) -> Made {
    let t = elem_ty(g, 1);
    let n = 6;
    let vs = vals(g, &t, n);
    // per transfer: an interleaving of the two clocks (neither runs away)
    let gaps: Vec<Vec<bool>> = (0..n)
        .map(|_| {
            let (mut a, mut b) = (0, 0);
            let mut v = vec![];
            while a < 40 || b < 40 {
                let x = if a > b + 3 { false } else if b > a + 3 { true } else { g.bool() };
                if x {
                    a += 1
                } else {
                    b += 1
                }
                v.push(x);
            }
            v
        })
        .collect();
    let ts = ty_s(&t);
    let src = format!(
        "entity {prefix}top(a: clock, b: clock, rst: bool, x: Option<{ts}>) -> Option<{ts}> {{
    unsafe {{ inst std::cdc::handshake$(from_clk: a, rst, data: x, to_clk: b) }}
}}
"
    );
    let module = format!("{prefix}top");
    let hist = json!(gaps.iter().map(|v| v.iter().map(|x| if *x { 'a' } else { 'b' }).collect::<String>()).collect::<Vec<_>>());
    made(
        src,
        "handshake",
        hist,
        Box::new(move |bt| {
            let mut d = D::new(bt, &module)?;
            d.bit("a", false)?;
            d.bit("b", false)?;
            d.bit("rst", true)?;
            d.set("x", &vs.none())?;
            for _ in 0..6 {
                d.tick("a")?;
                d.tick("b")?;
            }
            d.bit("rst", false)?;
            for (k, gap) in gaps.iter().enumerate() {
                d.set("x", &vs.some(k))?;
                let mut first = true;
                let mut seen = vec![];
                for x in gap {
                    if *x {
                        d.tick("a")?;
                        if first {
                            d.set("x", &vs.none())?;
                            first = false;
                        }
                    } else {
                        let o = d.out()?;
                        if o.get(vs.w) != Some(false) {
                            seen.push(o);
                        }
                        d.tick("b")?;
                    }
                }
                if seen.len() != 1 || !agrees(&Bv::from_u64(1, 1).concat(&vs.v[k]), &seen[0]) {
                    return d.bad(
                        "handshake",
                        format!("one pulse with {} gave {:?} in the other domain", vs.v[k].to_bits(), seen.iter().map(|s| s.to_bits()).collect::<Vec<_>>()),
                    );
                }
            }
            Ok(())
        }),
    )
}

fn sync_wide(g: &mut Gen, prefix: &str) -> Made {
    let t = elem_ty(g, 1);
    let n = 80;
    let vs = vals(g, &t, n);
    let mut steps = vec![];
    let (mut pt, mut pc) = (4, 4);
    for k in 0..n {
        if k % 16 == 0 {
            pt = g.range(1, 7);
            pc = g.range(0, 8);
        }
        steps.push((g.below(8) < pt, g.below(8) < pc));
    }
    let ts = ty_s(&t);
    let src = format!(
        "entity {prefix}top(a: clock, b: clock, rst: bool, x: {ts}, init: {ts}) -> {ts} {{
    inst std::cdc::sync_wide$(source_clk: a, rst, input: x, init, dest_clk: b)
}}
"
    );
    let module = format!("{prefix}top");
    let hist = json!(steps.iter().map(|(a, b)| format!("{}{}", if *a { 'a' } else { 'b' }, if *b { '!' } else { ' ' })).collect::<String>());
    made(
        src,
        "sync_wide",
        hist,
        Box::new(move |bt| {
            let mut d = D::new(bt, &module)?;
            d.bit("a", false)?;
            d.bit("b", false)?;
            d.bit("rst", true)?;
            d.set("init", &vs.d[0])?;
            d.set("x", &vs.d[1])?;
            for _ in 0..6 {
                d.tick("a")?;
                d.tick("b")?;
            }
            d.bit("rst", false)?;
            let mut cur = 1;
            let mut sampled = vec![0usize];
            for (k, (a, change)) in steps.iter().enumerate() {
                if *change {
                    cur = k;
                    d.set("x", &vs.d[cur])?;
                }
                let o = d.out()?;
                if !sampled.iter().any(|i| agrees(&vs.v[*i], &o)) {
                    return d.bad("invented value", format!("the output {} was never an input at a source edge", o.to_bits()));
                }
                if *a {
                    sampled.push(cur);
                    d.tick("a")?;
                } else {
                    d.tick("b")?;
                }
            }
            for _ in 0..40 {
                d.tick("a")?;
                d.tick("b")?;
            }
            let o = d.out()?;
            if !agrees(&vs.v[cur], &o) {
                return d.bad("stuck", format!("the input {} has been stable for 40 cycles, the output is {}", vs.v[cur].to_bits(), o.to_bits()));
            }
            Ok(())
        }),
    )
}

fn bram(g: &mut Gen, prefix: &str) -> Made {
    let t = elem_ty(g, 1);
    let aw = g.usize(1, 4);
    let c = 1usize << aw;
    let n = 60;
    let vs = vals(g, &t, n);
    let steps: Vec<(bool, bool, u64, u64)> = (0..n).map(|_| (g.bool(), g.chance(2, 3), g.below(c as u64), g.below(c as u64))).collect();
    let ts = ty_s(&t);
    let (wp, rp) = (g.bool(), g.below(3));
    let wr = if wp { "let _ = w.write(waddr, wv);" } else { "set w.addr = waddr;\n    set w.write = wv;" };
    let rd = match rp {
        0 => "set r.addr = raddr;\n    r.out",
        1 => "r.inst(1) read(rclk, raddr)",
        _ => "inst(1) std::mem::read_read_port(rclk, raddr, r)",
    };
    let src = format!(
        "entity {prefix}top(wclk: clock, rclk: clock, waddr: uint<{aw}>, wv: Option<{ts}>, raddr: uint<{aw}>) -> {ts} {{
    let (w, r) = inst std::mem::dp_bram::<{aw}, {ts}, {c}>(wclk, rclk);
    {wr}
    {rd}
}}
"
    );
    let module = format!("{prefix}top");
    let hist = json!(steps.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(" "));
    made(
        src,
        "dp_bram",
        hist,
        Box::new(move |bt| {
            let mut d = D::new(bt, &module)?;
            d.bit("wclk", false)?;
            d.bit("rclk", false)?;
            let mut mem: Vec<Option<usize>> = vec![None; c];
            let mut want: Option<usize> = None;
            for (k, (wt, we, wa, ra)) in steps.iter().enumerate() {
                d.set("waddr", &Bv::from_u64(aw, *wa))?;
                d.set("raddr", &Bv::from_u64(aw, *ra))?;
                d.set("wv", &if *we { vs.some(k) } else { vs.none() })?;
                let o = d.out()?;
                if let Some(i) = want {
                    if !agrees(&vs.v[i], &o) {
                        return d.bad("wrong data", format!("read {}, stored was {}", o.to_bits(), vs.v[i].to_bits()));
                    }
                }
                if *wt {
                    if *we {
                        mem[*wa as usize] = Some(k);
                    }
                    d.tick("wclk")?;
                } else {
                    want = mem[*ra as usize];
                    d.tick("rclk")?;
                }
            }
            Ok(())
        }),
    )
}

/// single-clock units: closure model over histories
fn single(g: &mut Gen, prefix: &str) -> Made {
    let t = elem_ty(g, 1);
    let n = 40;
    let vs = vals(g, &t, n);
    let ts = ty_s(&t);
    let on: Vec<bool> = (0..n).map(|_| g.chance(3, 5)).collect();
    let rst: Vec<bool> = (0..n).map(|k| k < 2 || g.chance(1, 15)).collect();
    let m = g.usize(1, 5);
    let kind = g.below(6);
    let p = Prog::default();
    let (ret, body): (Ty, String) = match kind {
        0 => (Ty::Bool, "inst std::io::rising_edge(clk, on)".into()),
        1 => (Ty::Bool, "inst std::io::falling_edge(clk, on)".into()),
        2 => (Ty::Opt(Box::new(Ty::Arr(Box::new(t.clone()), m as u32))), format!("x.inst padded_sliding_window::<{m}>(clk, rst, d)")),
        3 => (Ty::Opt(Box::new(Ty::Arr(Box::new(t.clone()), m as u32))), format!("x.inst chunks::<{m}>(clk, rst)")),
        4 => (Ty::Opt(Box::new(t.clone())), format!("x.inst({m}) pmap(clk, pipeline({m}) |clk, v| {{ reg * {m}; v }})")),
        _ => (t.clone(), "unsafe { inst std::cdc::sync2(clk, d) }".into()),
    };
    let body = body.replace("clk, v|", "clk, v|");
    let src = format!("entity {prefix}top(clk: clock, rst: bool, on: bool, x: Option<{ts}>, d: {ts}) -> {} {{\n    {body}\n}}\n", ty_s(&ret));
    let module = format!("{prefix}top");
    let feat = ["rising_edge", "falling_edge", "padded_sliding_window", "Option::chunks", "Option::pmap", "sync2"][kind as usize];
    let hist = json!(on.iter().zip(&rst).map(|(a, b)| format!("{}{}", if *a { '1' } else { '0' }, if *b { 'R' } else { ' ' })).collect::<String>());
    let rw = p.size(&ret) as usize;
    made(
        src,
        feat,
        hist,
        Box::new(move |bt| {
            let mut s = D::new(bt, &module)?;
            s.bit("clk", false)?;
            let none = |w: usize| Bv::zero(1).concat(&Bv::x(w - 1));
            let arr = |v: &[Bv]| v.iter().rev().fold(Bv::zero(0), |a, x| a.concat(x));
            let some = |v: Bv| Bv::from_u64(1, 1).concat(&v);
            let mut window: Option<Vec<Bv>> = None;
            let mut got: Vec<Bv> = vec![];
            let mut have_count = false;
            for k in 0..n {
                s.bit("rst", rst[k])?;
                s.bit("on", on[k])?;
                s.set("x", &if on[k] { vs.some(k) } else { vs.none() })?;
                s.set("d", &vs.d[(k * 7 + 3) % n])?;
                let dv = &vs.v[(k * 7 + 3) % n];
                let mut next_window = None;
                let want: Option<Bv> = match kind {
                    0 => (k > 0).then(|| Bv::bit(Some(on[k] && !on[k - 1]))),
                    1 => (k > 0).then(|| Bv::bit(Some(!on[k] && on[k - 1]))),
                    2 => {
                        next_window = window.clone().map(|w| {
                            if on[k] {
                                let mut w = w;
                                w.insert(0, vs.v[k].clone());
                                w.pop();
                                w
                            } else {
                                w
                            }
                        });
                        match (&next_window, on[k]) {
                            (_, false) => Some(none(rw)),
                            (Some(w), true) => Some(some(arr(w))),
                            (None, true) => None,
                        }
                    }
                    3 => {
                        if on[k] {
                            got.push(vs.v[k].clone());
                        }
                        if !have_count {
                            None
                        } else if on[k] && got.len() == m {
                            let v = std::mem::take(&mut got);
                            Some(some(arr(&v)))
                        } else {
                            Some(none(rw))
                        }
                    }
                    4 => (k >= m).then(|| if on[k - m] { some(vs.v[k - m].clone()) } else { none(rw) }),
                    _ => (k >= 2).then(|| vs.v[((k - 2) * 7 + 3) % n].clone()),
                };
                let o = s.out()?;
                if let Some(w) = want {
                    if !agrees(&w, &o) {
                        return s.bad("wrong value", format!("in cycle {k} expected {} got {}", w.to_bits(), o.to_bits()));
                    }
                }
                s.tick("clk")?;
                window = next_window;
                if rst[k] {
                    window = Some(vec![dv.clone(); m]);
                    got.clear();
                    have_count = true;
                }
            }
            Ok(())
        }),
    )
}

pub fn unit(g: &mut Gen, prefix: &str) -> Made {
    match g.weighted(&[3, 2, 2, 2, 4]) {
        0 => fifo(g, prefix),
        1 => handshake(g, prefix),
        2 => sync_wide(g, prefix),
        3 => bram(g, prefix),
        _ => single(g, prefix),
    }
}

pub fn c07(ctx: &Ctx) {
    ctx.rule("every case is a library unit of random size and element type with a random history of inputs and clock edges; cases are distinct by source and history");
    ctx.assume("the harness' own Verilog parser/simulator implements the IEEE 1800 semantics of the emitted subset; clock edges never coincide and metastability is not modelled");
    let n = ctx.amount(800, 30000);
    run_units(ctx, "stdseq", &unit, &Opts::default(), n, 16);
}
