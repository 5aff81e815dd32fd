//! Changes that make a well-typed program of the reference language break one static rule.
use crate::lang::*;
use crate::tape::Gen;
use num::{BigInt, One};

/// one place of the program
pub enum Site<'a> {
    /// expression; forced: the context determines its type; synth: printed so that it determines its own type
    Ex { e: &'a mut Ex, fi: usize, forced: bool, synth: bool },
    /// pattern for a value of the given type
    Pat { p: &'a mut Pat, ty: Ty, fi: usize },
    /// statements of a block, followed by its result
    Body { s: &'a mut Vec<St>, r: &'a mut Ex, fi: usize },
}

pub struct Walk<'a> {
    pub f: &'a mut dyn FnMut(Site),
    pub fi: usize,
}
impl<'a> Walk<'a> {
    fn pat(&mut self, p: &mut Pat, ty: &Ty, pr: &Prog) {
        (self.f)(Site::Pat { p, ty: ty.clone(), fi: self.fi });
        match p {
            Pat::At(_, q) => self.pat(q, ty, pr),
            Pat::Tup(v) => {
                if let Ty::Tup(ts) = ty {
                    v.iter_mut().zip(ts).for_each(|(p, t)| self.pat(p, t, pr));
                }
            }
            Pat::Arr(v) => {
                if let Ty::Arr(t, _) = ty {
                    v.iter_mut().for_each(|p| self.pat(p, t, pr));
                }
            }
            Pat::Struct(d, v, _) => {
                let fs = pr.fields(*d).clone();
                v.iter_mut().zip(fs).for_each(|(p, t)| self.pat(p, &t.1, pr));
            }
            Pat::Enum(t, i, v, _) => {
                let vs = pr.variants(t);
                v.iter_mut().zip(vs[*i].1.clone()).for_each(|(p, t)| self.pat(p, &t.1, pr));
            }
            _ => {}
        }
    }
    fn rigid_pat(p: &Pat) -> bool {
        match p {
            Pat::Bool(_) | Pat::Struct(..) => true,
            Pat::Enum(t, ..) => matches!(t, Ty::Named(_)),
            Pat::At(_, p) => Self::rigid_pat(p),
            _ => false,
        }
    }
    fn ex(&mut self, e: &mut Ex, forced: bool, synth: bool, pr: &Prog) {
        let forced = forced || !synth;
        (self.f)(Site::Ex { e, fi: self.fi, forced, synth });
        match &mut *e.k {
            K::Lit(..) | K::Var(_) | K::Undef | K::Raw(..) => {}
            K::Bin(op, a, b) => match op {
                Op::Add | Op::Sub => {
                    self.ex(a, forced, synth, pr);
                    self.ex(b, true, false, pr);
                }
                Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge | Op::LAnd | Op::LOr | Op::LXor | Op::And | Op::Or | Op::Xor | Op::WAdd | Op::WSub => {
                    self.ex(a, true, true, pr);
                    self.ex(b, true, true, pr);
                }
                _ => {
                    self.ex(a, false, true, pr);
                    self.ex(b, false, true, pr);
                }
            },
            K::Un(o, a) => self.ex(a, *o == UOp::Not || (forced && *o == UOp::BNot), true, pr),
            K::If(c, a, b) => {
                self.ex(c, true, false, pr);
                self.ex(a, true, synth, pr);
                self.ex(b, true, synth, pr);
            }
            K::IfLet(p, s, a, b) => {
                let t = s.ty.clone();
                self.ex(s, Self::rigid_pat(p), true, pr);
                self.pat(p, &t, pr);
                self.ex(a, true, synth, pr);
                self.ex(b, true, synth, pr);
            }
            K::Match(s, arms) => {
                let t = s.ty.clone();
                self.ex(s, arms.iter().any(|a| Self::rigid_pat(&a.0)), true, pr);
                let n = arms.len();
                for (p, g, r) in arms {
                    self.pat(p, &t, pr);
                    if let Some(g) = g {
                        self.ex(g, true, false, pr);
                    }
                    self.ex(r, forced || n > 1, synth, pr);
                }
            }
            K::Tup(v) => v.iter_mut().for_each(|x| self.ex(x, forced, synth, pr)),
            K::Arr(v) => {
                let n = v.len();
                v.iter_mut().for_each(|x| self.ex(x, forced || n > 1, synth, pr));
            }
            K::ArrRep(x, _) => self.ex(x, forced, synth, pr),
            K::TupIdx(a, _) | K::Field(a, _) | K::ArrRange(a, ..) => self.ex(a, false, true, pr),
            K::ArrIdx(a, i) => {
                self.ex(a, false, true, pr);
                self.ex(i, true, false, pr);
            }
            K::Struct(v, _) => v.iter_mut().for_each(|x| self.ex(x, true, false, pr)),
            K::Enum(_, v, _) => {
                let opt = matches!(e.ty, Ty::Opt(_));
                v.iter_mut().for_each(|x| if opt { self.ex(x, forced, synth, pr) } else { self.ex(x, true, false, pr) });
            }
            K::Call(c, v, _) => {
                let m = matches!(c, Callee::Method(_));
                v.iter_mut().enumerate().for_each(|(k, x)| if m && k == 0 { self.ex(x, false, true, pr) } else { self.ex(x, true, false, pr) });
            }
            K::Block(s, r) => {
                self.stmts(s, pr);
                self.ex(r, forced, synth, pr);
                (self.f)(Site::Body { s, r, fi: self.fi });
            }
            K::Lambda(args, body) => {
                for (p, a) in args.iter_mut() {
                    let t = a.ty.clone();
                    self.ex(a, false, true, pr);
                    self.pat(p, &t, pr);
                }
                self.ex(body, true, false, pr);
            }
            K::GenIf(..) => {}
            K::Conv(_, a) => self.ex(a, false, true, pr),
            K::NumConcat(a, b) => {
                self.ex(a, false, true, pr);
                self.ex(b, false, true, pr);
            }
        }
    }
    fn stmts(&mut self, s: &mut [St], pr: &Prog) {
        for s in s {
            match s {
                St::Let(p, t, ann, x) => {
                    self.ex(x, *ann, !*ann, pr);
                    self.pat(p, t, pr);
                }
                St::Reg(r) => {
                    self.ex(&mut r.value, r.ann, !r.ann, pr);
                    if let Some((c, v)) = &mut r.reset {
                        self.ex(c, true, false, pr);
                        self.ex(v, r.ann, !r.ann, pr);
                    }
                    if let Some(v) = &mut r.initial {
                        self.ex(v, r.ann, !r.ann, pr);
                    }
                    self.pat(&mut r.pat, &r.ty, pr);
                }
                St::Inst { args, pat, ty, .. } => {
                    args.iter_mut().for_each(|x| self.ex(x, true, false, pr));
                    self.pat(pat, ty, pr);
                }
                St::Mem { writes, .. } => {
                    for (a, b, c) in writes {
                        self.ex(a, true, false, pr);
                        self.ex(b, true, false, pr);
                        self.ex(c, true, false, pr);
                    }
                }
                St::MemRead { addr, .. } => self.ex(addr, true, false, pr),
                St::Assert { cond, .. } => self.ex(cond, true, false, pr),
                St::Stage(Some(c), _) => self.ex(c, true, false, pr),
                _ => {}
            }
        }
    }
    pub fn prog(&mut self, p: &mut Prog) {
        let pr = p.clone();
        for (fi, f) in p.fns.iter_mut().enumerate() {
            self.fi = fi;
            let (s, r) = &mut f.body;
            self.stmts(s, &pr);
            self.ex(r, true, false, &pr);
            (self.f)(Site::Body { s, r, fi });
        }
    }
}

/// an expression whose type is written down in it
fn rigid(g: &mut Gen, p: &Prog, t: &Ty, d: u32) -> Ex {
    let v = p.gen_val(g, t);
    match t {
        Ty::Tup(ts) if d > 0 => {
            let Val::T(_) = &v else { panic!() };
            let e = ts.iter().map(|t| rigid(g, p, t, d - 1)).collect();
            Ex { ty: t.clone(), k: Box::new(K::Tup(e)) }
        }
        _ => Ex { ty: t.clone(), k: Box::new(K::Lit(v, 1)) },
    }
}
/// a type different from t, close to it
fn other(g: &mut Gen, p: &Prog, t: &Ty, d: u32) -> Ty {
    let prim = |g: &mut Gen| match g.below(3) {
        0 => Ty::Bool,
        1 => Ty::UInt(g.range(1, 9) as u32),
        _ => Ty::Int(g.range(1, 9) as u32),
    };
    for _ in 0..20 {
        let r = match t {
            Ty::UInt(n) | Ty::Int(n) => {
                let s = matches!(t, Ty::Int(_));
                let mk = |s: bool, n: u32| if s { Ty::Int(n) } else { Ty::UInt(n) };
                match g.below(6) {
                    0 => mk(s, n + 1),
                    1 if *n > 1 => mk(s, n - 1),
                    2 => mk(!s, *n),
                    3 => Ty::Bool,
                    4 => Ty::Arr(Box::new(Ty::Bool), *n),
                    _ => Ty::Tup(vec![t.clone(), Ty::Bool]),
                }
            }
            Ty::Bool => match g.below(4) {
                0 => Ty::UInt(1),
                1 => Ty::Int(1),
                2 => Ty::Tup(vec![Ty::Bool, Ty::Bool]),
                _ => Ty::Arr(Box::new(Ty::Bool), 1),
            },
            Ty::Tup(ts) if !ts.is_empty() && d > 0 => {
                let mut ts = ts.clone();
                match g.below(3) {
                    0 if ts.len() > 2 => {
                        ts.pop();
                    }
                    1 => ts.push(Ty::Bool),
                    _ => {
                        let k = g.usize(0, ts.len() - 1);
                        ts[k] = other(g, p, &ts[k], d - 1);
                    }
                }
                Ty::Tup(ts)
            }
            Ty::Arr(t, n) if d > 0 => match g.below(4) {
                0 => Ty::Arr(t.clone(), n + 1),
                1 if *n > 1 => Ty::Arr(t.clone(), n - 1),
                2 => (**t).clone(),
                _ => Ty::Arr(Box::new(other(g, p, t, d - 1)), *n),
            },
            Ty::Named(k) if p.defs.len() > 1 && g.bool() => Ty::Named((k + g.usize(1, p.defs.len() - 1)) % p.defs.len()),
            _ => prim(g),
        };
        let nested = |t: &Ty| matches!(t, Ty::Arr(..)) && p.size(t) == 0;
        if r != *t && !nested(&r) {
            return r;
        }
    }
    if *t == Ty::Bool { Ty::UInt(3) } else { Ty::Bool }
}
fn raw(e: &mut Ex, s: String) {
    *e.k = K::Raw(format!("({s})"), 0);
}
fn stmt_vars(s: &St) -> Vec<usize> {
    let mut v = vec![];
    match s {
        St::Let(p, ..) | St::Inst { pat: p, .. } => pat_vars(p, &mut v),
        St::Reg(r) => pat_vars(&r.pat, &mut v),
        St::MemRead { var, .. } => v.push(*var),
        _ => {}
    }
    v
}
/// the variables used by a piece of a program, as names
fn uses(pr: &Printer, s: &[St], r: &Ex, f: &Func, name: &str) -> bool {
    let mut t: String = s.iter().map(|s| pr.stmt(s, f)).collect();
    t.push_str(&pr.ex(r, f, false, 0));
    let b: Vec<char> = t.chars().collect();
    let n: Vec<char> = name.chars().collect();
    let id = |c: char| c.is_alphanumeric() || c == '_';
    (0..b.len().saturating_sub(n.len() - 1)).any(|i| b[i..i + n.len()] == n[..] && (i == 0 || !id(b[i - 1]) && b[i - 1] != '.' ) && (i + n.len() == b.len() || !id(b[i + n.len()]) && b[i + n.len()] != ':'))
}

/// try one change at this place; `None` when it does not apply
fn change(g: &mut Gen, p: &Prog, pr: &Printer, site: Site) -> Option<String> {
    match site {
        Site::Ex { e, fi, forced, synth } => {
            let f = &p.fns[fi];
            let (ty, k) = (e.ty.clone(), e.k.clone());
            let text = pr.ex(e, f, synth, 0);
            if forced && g.chance(1, 2) {
                // a value of another type
                let t = other(g, p, &ty, 2);
                *e = rigid(g, p, &t, 2);
                return Some(format!("a value of another type ({} for {})", pr.ty(&t), pr.ty(&ty)));
            }
            match &*k {
                K::Lit(_, _) => match &ty {
                    Ty::UInt(n) if forced => {
                        let v: BigInt = (BigInt::one() << *n) + g.below(3);
                        raw(e, if g.bool() { format!("{v}") } else { format!("{v}u{n}") });
                        Some("a literal that does not fit".into())
                    }
                    Ty::Int(n) if forced => {
                        let half: BigInt = BigInt::one() << (*n - 1);
                        let v = if g.bool() { half + g.below(3) } else { -half - 1 - g.below(3) };
                        raw(e, format!("{v}"));
                        Some("a literal that does not fit".into())
                    }
                    _ => None,
                },
                K::Var(_) => {
                    match g.below(3) {
                        0 => {
                            raw(e, "nosuch_v".into());
                            Some("an undefined variable".into())
                        }
                        1 => {
                            raw(e, format!("{text}.nosuch_m()"));
                            Some("an undefined method".into())
                        }
                        _ => {
                            raw(e, format!("{text}.nosuch_f"));
                            Some("an undefined field".into())
                        }
                    }
                }
                K::Raw(t, _) if t.starts_with("stage(") => {
                    let i = t.find(')')?;
                    let s = match g.below(3) {
                        0 => format!("stage(-99{}", &t[i..]),
                        1 => format!("stage(+99{}", &t[i..]),
                        _ => format!("stage(nosuch_l{}", &t[i..]),
                    };
                    raw(e, s);
                    Some("a reference to a stage that does not exist".into())
                }
                K::Bin(op, a, b) => {
                    let (at, bt) = (pr.ex(a, f, true, 20), pr.ex(b, f, true, 20));
                    match op {
                        Op::Eq | Op::Lt | Op::Gt | Op::Le | Op::Ge | Op::Ne => {
                            raw(e, format!("{at} {} {bt}", *g.pick(&["&&", "||", "^^"])));
                            if a.ty == Ty::Bool { None } else { Some("a logical operator on something that is not a bool".into()) }
                        }
                        Op::LAnd | Op::LOr | Op::LXor => {
                            raw(e, format!("{at} {} {bt}", *g.pick(&["+.", "-.", "*.", "<", ">", ">="])));
                            Some("arithmetic on a bool".into())
                        }
                        Op::Add | Op::Sub if forced => {
                            raw(e, format!("{at} {}. {bt}", op.text()));
                            Some("wrapping arithmetic where the result must be wider".into())
                        }
                        Op::WAdd | Op::WSub if forced => {
                            raw(e, format!("{at} {} {bt}", &op.text()[..1]));
                            Some("widening arithmetic where the result must not be wider".into())
                        }
                        _ => None,
                    }
                }
                K::Un(UOp::Not, a) => {
                    raw(e, format!("{}{}", *g.pick(&["-", "~"]), pr.ex(a, f, true, 20)));
                    Some("an arithmetic operator on a bool".into())
                }
                K::Un(UOp::BNot, a) if !matches!(a.ty, Ty::Bool) => {
                    raw(e, format!("!{}", pr.ex(a, f, true, 20)));
                    Some("a logical operator on something that is not a bool".into())
                }
                K::TupIdx(a, _) => {
                    let Ty::Tup(ts) = &a.ty else { return None };
                    raw(e, format!("{}.{}", pr.ex(a, f, true, 20), ts.len() + g.usize(0, 2)));
                    Some("a tuple index out of range".into())
                }
                K::Field(a, _) => {
                    raw(e, format!("{}.nosuch_f", pr.ex(a, f, true, 20)));
                    Some("an undefined field".into())
                }
                K::ArrIdx(a, _) => {
                    raw(e, format!("{}[{}]", pr.ex(a, f, true, 20), *g.pick(&["true", "-1", "(0u3, 0u3)", "[0u2]"])));
                    Some("an index that is not an unsigned integer".into())
                }
                K::ArrRange(a, ..) => {
                    let Ty::Arr(_, n) = &a.ty else { return None };
                    let (lo, hi) = match g.below(3) {
                        0 => (0, n + g.range(1, 3) as u32),
                        1 => (n + 1, n + 2),
                        _ => (*n, n + 1),
                    };
                    raw(e, format!("{}[{lo}..{hi}]", pr.ex(a, f, true, 20)));
                    Some("a slice out of range".into())
                }
                K::Call(..) | K::Struct(..) | K::Enum(..) => {
                    let n_ty = pr.n.prefix.clone();
                    let _ = n_ty;
                    let open = text.rfind(')').map(|_| ()).and_then(|_| {
                        // the argument list is the last balanced group
                        let b: Vec<char> = text.chars().collect();
                        let mut depth = 0;
                        for i in (0..b.len()).rev() {
                            match b[i] {
                                ')' | ']' | '}' => depth += 1,
                                '(' | '[' | '{' => {
                                    depth -= 1;
                                    if depth == 0 {
                                        return Some(b[..i].iter().collect::<String>().len());
                                    }
                                }
                                _ => {}
                            }
                        }
                        None
                    });
                    if let K::Enum(..) = &*k {
                        if g.chance(1, 3) {
                            let Ty::Named(d) = &ty else { return None };
                            raw(e, format!("{}::Nosuch", pr.n.n('t', &p.defs[*d].name)));
                            return Some("an undefined variant".into());
                        }
                    }
                    let Some(open) = open.filter(|_| text.ends_with(')')) else {
                        raw(e, format!("{text}(true)"));
                        return Some("arguments for a variant that has none".into());
                    };
                    let (head, args) = (&text[..open], &text[open + 1..text.len() - 1]);
                    let named = head.ends_with('$');
                    let empty = args.trim().is_empty();
                    match g.below(5) {
                        0 if named => {
                            raw(e, format!("{head}(nosuch_a: true{}{args})", if empty { "" } else { ", " }));
                            Some("an argument that does not exist".into())
                        }
                        1 if named && !empty => {
                            // the first argument twice
                            let mut d = 0;
                            let cut = args.char_indices().find(|(_, c)| {
                                match c {
                                    '(' | '[' | '{' | '<' => d += 1,
                                    ')' | ']' | '}' | '>' => d -= 1,
                                    _ => {}
                                }
                                *c == ',' && d == 0
                            });
                            let first = cut.map(|c| &args[..c.0]).unwrap_or(args);
                            if first.contains('<') || first.contains('>') {
                                return None;
                            }
                            raw(e, format!("{head}({first}, {args})"));
                            Some("an argument given twice".into())
                        }
                        0..=2 if !named => {
                            raw(e, format!("{head}({args}{}true)", if empty { "" } else { ", " }));
                            Some("an argument too many".into())
                        }
                        3 if !empty => {
                            raw(e, format!("{head}()"));
                            Some("missing arguments".into())
                        }
                        _ => match &*k {
                            K::Call(Callee::Fn(_), ..) => {
                                if g.bool() {
                                    raw(e, format!("nosuch_fn({args})"));
                                    Some("an undefined function".into())
                                } else {
                                    raw(e, format!("inst {text}"));
                                    Some("inst with a function".into())
                                }
                            }
                            K::Struct(..) => {
                                raw(e, format!("nosuch_ty({args})"));
                                Some("an undefined type".into())
                            }
                            _ => None,
                        },
                    }
                }
                K::If(_, a, _) if !matches!(&*a.k, K::Lit(..)) => None,
                K::Conv(Conv::TruncMethod, a) => {
                    raw(e, format!("{}.trunc::<{}>()", pr.ex(a, f, true, 20), int_w(&a.ty) + 1 + g.below(3) as u32));
                    Some("truncating to something wider".into())
                }
                K::Match(s, arms) if arms.len() > 0 => {
                    let _ = s;
                    None
                }
                _ => None,
            }
        }
        Site::Pat { p: pat, ty, fi } => {
            let f = &p.fns[fi];
            let text = pr.pat(pat, f, &ty);
            let (t, what): (String, &str) = match g.below(5) {
                0 if !matches!(ty, Ty::Bool) => ((*g.pick(&["true", "false"])).into(), "a bool pattern for another type"),
                1 if !matches!(ty, Ty::Int(_) | Ty::UInt(_)) => ((*g.pick(&["0", "1u3", "5"])).into(), "an integer pattern for another type"),
                2 if !matches!(ty, Ty::Arr(..)) => ((*g.pick(&["[_]", "[_, _]", "[a_, b_, c_]"])).into(), "an array pattern for another type"),
                3 if !matches!(ty, Ty::Tup(..)) => ((*g.pick(&["(_, _)", "(a_, b_, c_)"])).into(), "a tuple pattern for another type"),
                _ => match pat {
                    Pat::Tup(v) if v.len() >= 2 => (format!("{}, _)", &text[..text.len() - 1]), "a tuple pattern of another length"),
                    Pat::Arr(v) if !v.is_empty() => (format!("{}, _]", &text[..text.len() - 1]), "an array pattern of another length"),
                    Pat::Struct(_, v, s) | Pat::Enum(_, _, v, s) if !v.is_empty() => {
                        let i = text.find('(').unwrap();
                        match (s, g.below(3)) {
                            (ArgStyle::Pos, 0) => (format!("{}, _)", &text[..text.len() - 1]), "a pattern with too many members"),
                            (ArgStyle::Pos, 1) => (format!("{}()", &text[..i]), "a pattern with missing members"),
                            (ArgStyle::Named(_), 0) => (format!("{}, nosuch_m: _)", &text[..text.len() - 1]), "a pattern with a member that does not exist"),
                            (ArgStyle::Named(_), 1) => (format!("{}()", &text[..i]), "a pattern with missing members"),
                            _ => (format!("Nosuch{}", &text[i..]), "a pattern with an undefined type"),
                        }
                    }
                    Pat::Enum(_, _, v, _) if v.is_empty() => (format!("{text}(_)"), "a pattern with too many members"),
                    Pat::Int(_, false) => {
                        let n = int_w(&ty);
                        (format!("{}", (BigInt::one() << n) + g.below(3)), "a literal pattern that does not fit")
                    }
                    _ => return None,
                },
            };
            *pat = Pat::Raw(t);
            Some(what.into())
        }
        Site::Body { s, r, fi } => {
            let f = &p.fns[fi];
            let unique = |v: usize| f.var_names.iter().filter(|n| **n == f.var_names[v]).count() == 1;
            match g.below(4) {
                0 | 1 => {
                    // leave out a definition that is used
                    let c: Vec<usize> = (0..s.len())
                        .filter(|k| {
                            let vs = stmt_vars(&s[*k]);
                            !vs.is_empty() && vs.iter().all(|v| unique(*v)) && vs.iter().any(|v| uses(pr, &s[k + 1..], r, f, &f.var_names[*v]))
                        })
                        .collect();
                    if c.is_empty() {
                        return None;
                    }
                    let k = *g.pick(&c);
                    let d = s.remove(k);
                    if g.bool() {
                        Some("a definition left out".into())
                    } else {
                        // only where nothing declares it ahead
                        let vs = stmt_vars(&d);
                        if s.iter().any(|s| matches!(s, St::Decl(v) if v.iter().any(|x| vs.contains(x)))) {
                            return None;
                        }
                        s.push(d);
                        let used = uses(pr, &s[k..s.len() - 1], &Ex { ty: unit(), k: Box::new(K::Tup(vec![])) }, f, &f.var_names[vs[0]]);
                        if used && vs.len() == 1 { Some("a name used before its definition".into()) } else { None }
                    }
                }
                2 => {
                    let c: Vec<usize> = (0..s.len()).filter(|k| matches!(&s[*k], St::Inst { .. } | St::Reg(_) | St::Stage(..))).collect();
                    if c.is_empty() {
                        return None;
                    }
                    let k = *g.pick(&c);
                    let old = pr.stmt(&s[k], f);
                    match &mut s[k] {
                        St::Inst { ent, .. } => {
                            let depth = p.fns[*ent].depth;
                            let (t, what) = match (g.below(3), depth) {
                                (0, Some(d)) => (old.replacen(&format!("inst({d})"), &format!("inst({})", d + 1), 1), "a pipeline used with another latency"),
                                (1, Some(d)) => (old.replacen(&format!("inst({d})"), &format!("inst({})", d - 1), 1), "a pipeline used with another latency"),
                                (2, Some(d)) => (old.replacen(&format!("inst({d})"), "inst", 1), "a pipeline used as an entity"),
                                (0, None) => (old.replacen("inst ", "inst(1) ", 1), "an entity used as a pipeline"),
                                _ => (old.replacen("inst ", "", 1), "an entity used without inst"),
                            };
                            if t == old {
                                return None;
                            }
                            s[k] = St::Text(t);
                            Some(what.into())
                        }
                        St::Reg(_) => {
                            let i = old.find(')')?;
                            let (c, what) = *g.pick(&[("(true)", "a register clocked by a bool"), ("(nosuch_clk)", "a register with an undefined clock")]);
                            s[k] = St::Text(format!("reg{c}{}", &old[i + 1..]));
                            Some(what.into())
                        }
                        St::Stage(_, n) => {
                            match g.below(3) {
                                0 => *n += 1,
                                1 if *n > 1 => *n -= 1,
                                _ => {
                                    s.remove(k);
                                }
                            }
                            Some("a pipeline with another number of stages than its latency".into())
                        }
                        _ => None,
                    }
                }
                _ => {
                    let at = g.usize(0, s.len());
                    let (t, what) = *g.pick(&[
                        ("let q_: nosuch_t = 0;", "an undefined type"),
                        ("let q_: uint = 0;", "a type without its parameter"),
                        ("let q_: bool<3> = true;", "a parameter for a type that has none"),
                        ("let q_: uint<true> = 0;", "a bool where a number is needed"),
                        ("let q_: [bool; true] = [true];", "a bool where a number is needed"),
                        ("decl q_;", "a declared name without a definition"),
                        ("let q_ = nosuch_m::f(1u3);", "an undefined module"),
                        ("let (q_, q2_) = 3u7;", "a tuple pattern for another type"),
                        ("let q_ = [1u3, true];", "an array of different types"),
                        ("let q_ = if true { 1u3 } else { 1u4 };", "branches of different types"),
                        ("let q_ = match true { true => 1u3, false => false };", "branches of different types"),
                        ("let q_ = undef();", "a type that is not determined"),
                        ("let q_ = self.x;", "self outside of a method"),
                        ("let q_: uint<-3> = undef();", "a negative width"),
                        ("set 3u2 = 3u2;", "set of something that is not inv"),
                        ("assert 3u2;", "a condition that is not a bool"),
                        ("let q_ = fn |a, a| { true };", "the same name twice"),
                        ("let q_: uint<3> = uint;", "a type used as a value"),
                        ("let q_ = (|a| true)(1u3);", "no syntax"),
                        ("let q_ = 1u3 +;", "no syntax"),
                        ("let q_ = ;", "no syntax"),
                        ("let = 3u2;", "no syntax"),
                        ("let q_ = (1u3;", "no syntax"),
                        ("let q_ = 1u3", "no syntax"),
                    ]);
                    if what == "self outside of a method" && f.method_of.is_some() {
                        return None;
                    }
                    if what == "the same name twice" {
                        return None;
                    }
                    s.insert(at, St::Text(t.into()));
                    Some(what.into())
                }
            }
        }
    }
}

/// change one place of the program so that it is no longer a valid one
pub fn mutate(g: &mut Gen, p: &mut Prog, pre: &str) -> Option<String> {
    let orig = p.clone();
    let pr = Printer { p: &orig, n: Names::plain(pre) };
    let mut n = [0usize; 3];
    let kind = |s: &Site| match s {
        Site::Ex { .. } => 0,
        Site::Pat { .. } => 1,
        Site::Body { .. } => 2,
    };
    // expressions are drawn by the kind of expression first: leaves are by far the most common
    let mut groups: std::collections::BTreeMap<u8, Vec<usize>> = Default::default();
    Walk {
        f: &mut |s| {
            let w = kind(&s);
            if let Site::Ex { e, forced, .. } = &s {
                let gk = match &*e.k {
                    K::Lit(..) | K::Undef => 0,
                    K::Var(_) => 1,
                    K::Raw(..) => 2,
                    K::Bin(..) => 3,
                    K::Un(..) => 4,
                    K::If(..) | K::IfLet(..) => 5,
                    K::Match(..) => 6,
                    K::Tup(_) => 7,
                    K::Arr(_) | K::ArrRep(..) => 8,
                    K::TupIdx(..) => 9,
                    K::Field(..) => 10,
                    K::ArrIdx(..) | K::ArrRange(..) => 11,
                    K::Struct(..) => 12,
                    K::Enum(..) => 13,
                    K::Call(..) => 14,
                    K::Block(..) => 15,
                    K::Lambda(..) => 16,
                    K::GenIf(..) => 17,
                    K::Conv(..) => 18,
                    K::NumConcat(..) => 19,
                };
                groups.entry(gk).or_default().push(n[0]);
                if *forced {
                    groups.entry(100).or_default().push(n[0]);
                }
            }
            n[w] += 1
        },
        fi: 0,
    }
    .prog(p);
    let groups: Vec<Vec<usize>> = groups.into_values().collect();
    for _ in 0..30 {
        let which = *g.pick(&[0, 0, 0, 0, 1, 2, 2]);
        if n[which] == 0 {
            continue;
        }
        let target = if which == 0 {
            let v = g.pick(&groups).clone();
            *g.pick(&v)
        } else {
            g.usize(0, n[which] - 1)
        };
        let mut k = 0;
        let mut what = None;
        let mut q = orig.clone();
        Walk {
            f: &mut |s| {
                if kind(&s) == which {
                    if k == target {
                        what = change(g, &orig, &pr, s);
                    }
                    k += 1;
                }
            },
            fi: 0,
        }
        .prog(&mut q);
        if let Some(w) = what {
            *p = q;
            return Some(w);
        }
    }
    None
}

/// changes to the declarations, made in the text
pub fn mutate_items(g: &mut Gen, p: &Prog, pre: &str) -> Option<(String, String)> {
    let pr = Printer { p, n: Names::plain(pre) };
    let mut defs: Vec<String> = (0..p.defs.len()).map(|d| pr.def(d)).collect();
    let mut fns: Vec<String> = (0..p.fns.len()).map(|f| pr.func(f)).collect();
    let what = match g.below(9) {
        0 => {
            let k = g.usize(0, fns.len() - 1);
            let t = fns[k].clone();
            fns.push(t);
            "a unit defined twice"
        }
        1 if !defs.is_empty() => {
            let k = g.usize(0, defs.len() - 1);
            let t = defs[k].clone();
            defs.push(t);
            "a type defined twice"
        }
        2 if !defs.is_empty() => {
            let k = g.usize(0, defs.len() - 1);
            let DefKind::Struct(f) = &p.defs[k].kind else { return None };
            let f = f.first()?;
            let i = defs[k].find('{')?;
            defs[k].insert_str(i + 1, &format!(" {}: bool, ", f.0));
            "a member declared twice"
        }
        3 if !defs.is_empty() => {
            let k = g.usize(0, defs.len() - 1);
            let DefKind::Enum(v) = &p.defs[k].kind else { return None };
            let i = defs[k].find('{')?;
            defs[k].insert_str(i + 1, &format!(" {}, ", v[0].0));
            "a variant declared twice"
        }
        4 => {
            let k = g.usize(0, fns.len() - 1);
            let f = &p.fns[k];
            let q = *f.params.iter().skip(if f.method_of.is_some() { 1 } else { 0 }).next()?;
            let i = fns[k].find('(')?;
            let i = if f.method_of.is_some() { i + fns[k][i..].find("self")? + 4 } else { i };
            let s = format!("{}: bool", f.var_names[q]);
            fns[k].insert_str(if f.method_of.is_some() { i } else { i + 1 }, &if f.method_of.is_some() { format!(", {s}") } else { format!("{s}, ") });
            "a parameter declared twice"
        }
        5 => {
            let k = g.usize(0, fns.len() - 1);
            let f = &p.fns[k];
            if f.ret == unit() || f.attrs.contains("x") {
                return None;
            }
            let r = format!(" -> {} {{", pr.ty(&f.ret));
            let o = other(g, p, &f.ret, 2);
            let t = fns[k].replacen(&r, &if g.bool() { " {".to_string() } else { format!(" -> {} {{", pr.ty(&o)) }, 1);
            if t == fns[k] {
                return None;
            }
            // the result may be of a type that its context decides
            if !matches!(*f.body.1.k, K::Var(_) | K::Struct(..) | K::Call(..) | K::Field(..)) {
                return None;
            }
            fns[k] = t;
            "another result type than declared"
        }
        6 if !defs.is_empty() => {
            let k = g.usize(0, defs.len() - 1);
            let used = fns.iter().enumerate().any(|(i, t)| p.fns[i].method_of != Some(k) && t.contains(&format!("{}{}", pre, p.defs[k].name))) || p.fns.iter().any(|f| f.method_of == Some(k));
            if !used {
                return None;
            }
            defs.remove(k);
            "a type that is not defined"
        }
        7 if !defs.is_empty() => {
            let k = g.usize(0, defs.len() - 1);
            let DefKind::Struct(_) = &p.defs[k].kind else { return None };
            let i = defs[k].find('{')?;
            let n = format!("{}{}", pre, p.defs[k].name);
            let t = *g.pick(&["$", "[$; 2]", "($, bool)"]);
            defs[k].insert_str(i + 1, &format!(" rec_: {}, ", t.replace('$', &n)));
            "a type that contains itself"
        }
        _ => {
            let k = g.usize(0, fns.len() - 1);
            let (a, b) = *g.pick(&[("fn ", "struct "), ("{", "{{"), ("(", "(("), (") ", "), "), ("fn ", "fn fn "), ("fn ", "pub pub fn "), ("}", "")]);
            let t = fns[k].replacen(a, b, 1);
            if t == fns[k] {
                return None;
            }
            fns[k] = t;
            "no syntax"
        }
    };
    Some((defs.concat() + &fns.concat(), what.to_string()))
}
