//! Name resolution: module trees (inline and split into files, one or two libraries), visibility, use, type aliases.
use crate::bv::Bv;
use crate::runner::*;
use crate::spadec::{self, File, Level, Opts};
use crate::tape::{self, Gen};
use crate::vsim::Sim;
use serde_json::json;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Vis {
    Implicit,
    Public,
    Lib,
    This,
    Super,
}
impl Vis {
    fn text(self) -> &'static str {
        match self {
            Vis::Implicit => "",
            Vis::Public => "pub ",
            Vis::Lib => "pub(lib) ",
            Vis::This => "pub(self) ",
            Vis::Super => "pub(super) ",
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Prefix {
    None,
    Lib,
    This,
    Super(usize),
}
#[derive(Clone, Debug, PartialEq)]
struct Path {
    prefix: Prefix,
    segs: Vec<String>,
}
impl Path {
    fn text(&self) -> String {
        let mut v: Vec<String> = match self.prefix {
            Prefix::None => vec![],
            Prefix::Lib => vec!["lib".into()],
            Prefix::This => vec!["self".into()],
            Prefix::Super(k) => vec!["super".into(); k],
        };
        v.extend(self.segs.iter().cloned());
        v.join("::")
    }
}
#[derive(Clone, Debug)]
enum Kind {
    Mod(usize),
    Fun(u64),
    Ent(u64),
    Struct(u64),
    Enum(Vec<(String, u64)>),
    Trait(u64),
    Use(Path),
    Alias(Path),
}
#[derive(Clone, Debug)]
struct Entry {
    name: String,
    vis: Vis,
    kind: Kind,
}
#[derive(Clone, Debug)]
struct Node {
    parent: Option<usize>,
    name: String,
    /// root of the library; the global root belongs to none
    lib: usize,
    file: bool,
    entries: Vec<Entry>,
    probes: Vec<Probe>,
}
#[derive(Clone, Debug)]
struct Probe {
    path: Path,
    form: u64,
    vis: Vis,
    id: usize,
}
struct World {
    nodes: Vec<Node>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    Mod(usize),
    Item(usize, usize),
    Variant(usize, usize, usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Why {
    Missing,
    Invisible,
    Cycle,
    TooManySuper,
    WrongKind,
}

impl World {
    fn inside(&self, mut n: usize, region: usize) -> bool {
        loop {
            if n == region {
                return true;
            }
            match self.nodes[n].parent {
                Some(p) => n = p,
                None => return false,
            }
        }
    }
    fn visible(&self, vis: Vis, node: usize, from: usize) -> bool {
        self.inside(from, self.scope(vis, node))
    }
    /// the module within which an item of `node` can be seen
    fn scope(&self, vis: Vis, node: usize) -> usize {
        match vis {
            Vis::Public => 0,
            Vis::Implicit | Vis::This => node,
            Vis::Lib => self.nodes[node].lib,
            Vis::Super => self.nodes[node].parent.unwrap_or(0),
        }
    }
    fn find(&self, node: usize, name: &str) -> Option<usize> {
        self.nodes[node].entries.iter().position(|e| e.name == name)
    }
    /// the module a path starts in and the names to look up from there
    fn start(&self, p: &Path, from: usize) -> Result<usize, Why> {
        Ok(match p.prefix {
            Prefix::Lib => self.nodes[from].lib,
            Prefix::This => from,
            Prefix::Super(k) => {
                let mut n = from;
                for _ in 0..k {
                    n = self.nodes[n].parent.ok_or(Why::TooManySuper)?;
                }
                n
            }
            Prefix::None => {
                if p.segs.is_empty() || self.find(from, &p.segs[0]).is_some() {
                    from
                } else {
                    0
                }
            }
        })
    }
    /// what the path means when it is written in the module `from`; aliases are followed
    fn resolve(&self, p: &Path, from: usize, busy: &mut Vec<(usize, usize)>) -> Result<At, Why> {
        let mut at = At::Mod(self.start(p, from)?);
        for s in &p.segs {
            at = self.step(at, s, from, busy)?;
        }
        Ok(at)
    }
    fn step(&self, at: At, name: &str, from: usize, busy: &mut Vec<(usize, usize)>) -> Result<At, Why> {
        match at {
            At::Mod(n) => {
                let i = self.find(n, name).ok_or(Why::Missing)?;
                if busy.contains(&(n, i)) {
                    return Err(Why::Cycle);
                }
                let e = &self.nodes[n].entries[i];
                if !self.visible(e.vis, n, from) {
                    return Err(Why::Invisible);
                }
                match &e.kind {
                    Kind::Mod(m) => Ok(At::Mod(*m)),
                    Kind::Use(p) | Kind::Alias(p) => {
                        busy.push((n, i));
                        let r = self.resolve(p, n, busy);
                        busy.pop();
                        // an alias does not make its target visible where that itself is not
                        let (vis, home) = match r? {
                            At::Mod(m) => match self.nodes[m].parent {
                                None => (Vis::Public, 0),
                                Some(q) => (self.nodes[q].entries[self.find(q, &self.nodes[m].name).unwrap()].vis, q),
                            },
                            At::Item(m, j) | At::Variant(m, j, _) => (self.nodes[m].entries[j].vis, m),
                        };
                        if !self.visible(vis, home, from) {
                            return Err(Why::Invisible);
                        }
                        if let (Kind::Use(_), Some((m, j))) = (&e.kind, self.type_alias(p, n)) {
                            if !self.visible(self.nodes[m].entries[j].vis, m, from) {
                                return Err(Why::Invisible);
                            }
                        }
                        r
                    }
                    _ => Ok(At::Item(n, i)),
                }
            }
            At::Item(n, i) => {
                let e = &self.nodes[n].entries[i];
                let Kind::Enum(vs) = &e.kind else { return Err(Why::Missing) };
                let v = vs.iter().position(|v| v.0 == name).ok_or(Why::Missing)?;
                // a variant is visible where its enum is
                if !self.visible(e.vis, n, from) {
                    return Err(Why::Invisible);
                }
                Ok(At::Variant(n, i, v))
            }
            At::Variant(..) => Err(Why::Missing),
        }
    }
    /// the type alias a path ends at: unlike `use` that is an item of its own
    fn type_alias(&self, p: &Path, from: usize) -> Option<(usize, usize)> {
        let (last, front) = p.segs.split_last()?;
        let front = Path { prefix: p.prefix, segs: front.to_vec() };
        let At::Mod(m) = self.resolve(&front, from, &mut vec![]).ok()? else { return None };
        let i = self.find(m, last)?;
        match &self.nodes[m].entries[i].kind {
            Kind::Alias(_) => Some((m, i)),
            Kind::Use(q) => self.type_alias(q, m),
            _ => None,
        }
    }
    fn res(&self, p: &Path, from: usize) -> Result<At, Why> {
        self.resolve(p, from, &mut vec![])
    }
    fn names(&self, at: At) -> Vec<String> {
        match at {
            At::Mod(n) => self.nodes[n].entries.iter().map(|e| e.name.clone()).collect(),
            At::Item(n, i) => match &self.nodes[n].entries[i].kind {
                Kind::Enum(v) => v.iter().map(|v| v.0.clone()).collect(),
                _ => vec![],
            },
            At::Variant(..) => vec![],
        }
    }
    /// follow names without regard to visibility
    fn peek(&self, at: At, name: &str, fuel: usize) -> Option<At> {
        if fuel == 0 {
            return None;
        }
        match at {
            At::Mod(n) => {
                let i = self.find(n, name)?;
                match &self.nodes[n].entries[i].kind {
                    Kind::Mod(m) => Some(At::Mod(*m)),
                    Kind::Use(p) | Kind::Alias(p) => {
                        let mut at = At::Mod(self.start(p, n).ok()?);
                        for s in &p.segs {
                            at = self.peek(at, s, fuel - 1)?;
                        }
                        Some(at)
                    }
                    _ => Some(At::Item(n, i)),
                }
            }
            At::Item(n, i) => match &self.nodes[n].entries[i].kind {
                Kind::Enum(v) => v.iter().position(|v| v.0 == name).map(|v| At::Variant(n, i, v)),
                _ => None,
            },
            At::Variant(..) => None,
        }
    }
    fn depth(&self, n: usize) -> usize {
        self.nodes[n].parent.map_or(0, |p| 1 + self.depth(p))
    }
    /// a path by a random walk
    fn walk(&self, g: &mut Gen, from: usize) -> Path {
        let lib_depth = self.depth(from) - self.depth(self.nodes[from].lib);
        let prefix = match g.below(8) {
            0 | 1 => Prefix::Lib,
            2 => Prefix::This,
            3 | 4 if lib_depth > 0 => Prefix::Super(g.usize(1, lib_depth)),
            _ => Prefix::None,
        };
        let mut p = Path { prefix, segs: vec![] };
        let mut at = At::Mod(match prefix {
            Prefix::None if g.chance(1, 3) => 0,
            _ => self.start(&p, from).unwrap_or(0),
        });
        for _ in 0..6 {
            let ns = self.names(at);
            if ns.is_empty() {
                break;
            }
            let n = g.pick(&ns).clone();
            p.segs.push(n.clone());
            match self.peek(at, &n, 12) {
                Some(a) => at = a,
                None => break,
            }
            let stop = match at {
                At::Mod(_) => 12,
                At::Item(..) => 2,
                _ => 1,
            };
            if g.chance(1, stop) {
                break;
            }
        }
        p
    }
    /// does a probe of that form fit the item
    fn probe_kind(&self, at: At) -> Option<(&'static str, u64)> {
        match at {
            At::Mod(_) => None,
            At::Item(n, i) => match &self.nodes[n].entries[i].kind {
                Kind::Fun(v) => Some(("fun", *v)),
                Kind::Ent(v) => Some(("ent", *v)),
                Kind::Struct(v) => Some(("struct", *v)),
                Kind::Enum(v) => Some(("enum", v[0].1)),
                Kind::Trait(v) => Some(("trait", *v)),
                _ => None,
            },
            At::Variant(n, i, v) => match &self.nodes[n].entries[i].kind {
                Kind::Enum(vs) => Some(("variant", vs[v].1)),
                _ => None,
            },
        }
    }
    fn node_path(&self, n: usize) -> Vec<String> {
        match self.nodes[n].parent {
            None => vec![],
            Some(p) => {
                let mut v = self.node_path(p);
                v.push(self.nodes[n].name.clone());
                v
            }
        }
    }
}

fn probe_text(k: &str, v: u64, form: u64, id: usize, p: &str, x: &str) -> String {
    match k {
        "fun" => format!("fn q{id}() -> uint<16> {{ {p}() }}"),
        "ent" => format!("entity q{id}() -> uint<16> {{ inst {p}() }}"),
        "struct" => match form % 4 {
            0 => format!("fn q{id}({x}: {p}) -> uint<16> {{ {x}.get() }}"),
            1 => format!("fn q{id}() -> uint<16> {{ {p}(true).get() }}"),
            2 => format!("fn q{id}() -> uint<16> {{ {p}::make() }}"),
            _ => format!("fn q{id}() -> uint<16> {{ let {x}: {p} = {p}$(v: false); match {x} {{ {p}$(v: true) => 0, {p}(_) => {x}.get() }} }}"),
        },
        "enum" => match form % 2 {
            0 => format!("fn q{id}() -> uint<16> {{ {p}::first().get() }}"),
            _ => format!("fn w{id}({x}: {p}) -> uint<16> {{ {x}.get() }} fn q{id}() -> uint<16> {{ w{id}({p}::first()) }}"),
        },
        "variant" => match form % 4 {
            0 => format!("fn q{id}() -> uint<16> {{ {p}.get() }}"),
            1 => format!("fn q{id}() -> uint<16> {{ match {p}.flip() {{ {p} => 0, _ => {p}.get() }} }}"),
            2 => format!("fn q{id}() -> uint<16> {{ match (true, {p}) {{ (false, {x}) => {x}.get(), (true, {x}) => {p}.get() }} }}"),
            _ => format!("fn q{id}() -> uint<16> {{ let {x} = {p}; match (true, {x}) {{ (_, {p}) => {v}, (_, _) => 0 }} }}"),
        },
        "trait" => match form % 2 {
            0 => format!("struct w{id} {{ v: bool }} impl {p} for w{id} {{ fn t{v}(self) -> uint<16> {{ {v} }} }} fn q{id}({x}: w{id}) -> uint<16> {{ {x}.t{v}() }}"),
            _ => format!("fn w{id}<{x}>(k: {x}) -> uint<16> where {x}: {p} {{ k.t{v}() }} fn q{id}({x}: bool) -> uint<16> {{ w{id}({x}) }}"),
        },
        _ => unreachable!(),
    }
}

struct Made {
    w: World,
    files: Vec<File>,
    /// module path of the unit, expected value
    want: Vec<(String, u64)>,
    bad: Option<(String, Why)>,
    feats: Vec<&'static str>,
}

fn build(g: &mut Gen) -> Made {
    let two = g.chance(1, 3);
    let single = !two && g.bool();
    let mut w = World { nodes: vec![Node { parent: None, name: String::new(), lib: 0, file: true, entries: vec![], probes: vec![] }] };
    let mut libs = vec![];
    if single {
        libs.push(0);
    } else {
        for i in 0..1 + two as usize {
            let name = if i == 0 { "proj" } else { g.pick(&["other", "a"]) }.to_string();
            let n = w.nodes.len();
            w.nodes.push(Node { parent: Some(0), name: name.clone(), lib: n, file: true, entries: vec![], probes: vec![] });
            w.nodes[0].entries.push(Entry { name, vis: Vis::Implicit, kind: Kind::Mod(n) });
            libs.push(n);
        }
    }
    let vis = |g: &mut Gen, w: &World, n: usize| -> Vis {
        let top = w.nodes[n].lib == n;
        match g.below(8) {
            0 | 1 => Vis::Implicit,
            2 => Vis::Lib,
            3 => Vis::This,
            4 if !top => Vis::Super,
            _ => Vis::Public,
        }
    };
    const POOL: [&str; 8] = ["a", "b", "c", "d", "e", "f", "x", "y"];
    let fresh = |g: &mut Gen, w: &World, n: usize| -> Option<String> {
        let free: Vec<&str> = POOL.iter().copied().filter(|x| w.find(n, x).is_none()).collect();
        if free.is_empty() { None } else { Some(g.pick(&free).to_string()) }
    };
    // modules
    for &l in &libs {
        let mut own = vec![l];
        for _ in 0..g.usize(1, 5) {
            let p = *g.pick(&own);
            if w.depth(p) - w.depth(l) >= 3 {
                continue;
            }
            let Some(name) = fresh(g, &w, p) else { continue };
            let n = w.nodes.len();
            let file = w.nodes[p].file && g.chance(1, 2);
            let v = vis(g, &w, p);
            w.nodes.push(Node { parent: Some(p), name: name.clone(), lib: l, file, entries: vec![], probes: vec![] });
            w.nodes[p].entries.push(Entry { name, vis: v, kind: Kind::Mod(n) });
            own.push(n);
        }
    }
    let real: Vec<usize> = (0..w.nodes.len()).filter(|n| single || *n != 0).collect();
    // items
    let mut val = 100u64;
    for &n in &real {
        for _ in 0..g.usize(0, 3) {
            let Some(name) = fresh(g, &w, n) else { continue };
            val += 10;
            let kind = match g.below(8) {
                0 | 1 => Kind::Fun(val),
                2 => Kind::Ent(val),
                3 | 4 => Kind::Struct(val),
                5 | 6 => {
                    let k = g.usize(2, 3);
                    let mut names = ["a", "b", "c", "A", "B"].to_vec();
                    g.shuffle(&mut names);
                    Kind::Enum((0..k).map(|i| (names[i].to_string(), val + i as u64)).collect())
                }
                _ => Kind::Trait(val),
            };
            let v = vis(g, &w, n);
            w.nodes[n].entries.push(Entry { name, vis: v, kind });
        }
    }
    // aliases
    for _ in 0..g.usize(0, 8) {
        let n = *g.pick(&real);
        let p = w.walk(g, n);
        if p.prefix == Prefix::None && p.segs.is_empty() {
            continue;
        }
        let at = w.res(&p, n);
        let last = p.segs.last().cloned();
        let name = match last {
            Some(l) if w.find(n, &l).is_none() && g.bool() => l,
            _ => match fresh(g, &w, n) {
                Some(x) => x,
                None => continue,
            },
        };
        // `use a;` for something outside
        if p.prefix == Prefix::None && p.segs.first() == Some(&name) {
            continue;
        }
        let ty = matches!(at, Ok(At::Item(m, i)) if matches!(w.nodes[m].entries[i].kind, Kind::Struct(_) | Kind::Enum(_)));
        let v = vis(g, &w, n);
        // a type alias for something that is not visible everywhere it is: not specified
        let open = || match at {
            Ok(At::Item(m, i)) => w.visible(w.nodes[m].entries[i].vis, m, w.scope(v, n)),
            _ => false,
        };
        let kind = if ty && g.chance(1, 3) && open() { Kind::Alias(p) } else { Kind::Use(p) };
        w.nodes[n].entries.push(Entry { name, vis: v, kind });
    }
    // only valid aliases stay
    loop {
        let mut gone = None;
        'o: for &n in &real {
            for (i, e) in w.nodes[n].entries.iter().enumerate() {
                if let Kind::Use(p) | Kind::Alias(p) = &e.kind {
                    let r = {
                        let mut busy = vec![(n, i)];
                        w.resolve(p, n, &mut busy)
                    };
                    let ok = match (r, &e.kind) {
                        (Err(_), _) => false,
                        (Ok(At::Item(m, j)), Kind::Alias(p)) => {
                            let t = &w.nodes[m].entries[j];
                            w.type_alias(p, n).is_none_or(|(a, b)| w.visible(w.nodes[a].entries[b].vis, a, w.scope(e.vis, n))) &&
                            matches!(t.kind, Kind::Struct(_) | Kind::Enum(_)) && w.visible(t.vis, m, w.scope(e.vis, n))
                        }
                        (Ok(_), Kind::Alias(_)) => false,
                        _ => true,
                    };
                    if !ok {
                        gone = Some((n, i));
                        break 'o;
                    }
                }
            }
        }
        match gone {
            Some((n, i)) => drop(w.nodes[n].entries.remove(i)),
            None => break,
        }
    }
    // probes
    let mut id = 0;
    let mut bad = None;
    let want_bad = g.bool();
    for _ in 0..30 {
        let n = *g.pick(&real);
        let p = w.walk(g, n);
        let Ok(at) = w.res(&p, n) else { continue };
        if w.probe_kind(at).is_none() {
            continue;
        }
        id += 1;
        let form = g.below(12);
        let v = vis(g, &w, n);
        w.nodes[n].probes.push(Probe { path: p, form, vis: v, id });
        if id >= 10 {
            break;
        }
    }
    let mut kind_of_bad = "fun";
    if want_bad {
        for _ in 0..40 {
            let n = *g.pick(&real);
            let mut p = w.walk(g, n);
            match g.below(6) {
                0 => {
                    // another name
                    if !p.segs.is_empty() {
                        let i = g.usize(0, p.segs.len() - 1);
                        p.segs[i] = g.pick(&POOL).to_string();
                    }
                }
                1 => {
                    if p.segs.len() > 1 {
                        p.segs.remove(0);
                    }
                }
                2 => p.prefix = *g.pick(&[Prefix::None, Prefix::Lib, Prefix::This]),
                _ => {}
            }
            let r = w.res(&p, n);
            let seen = || {
                let mut at = At::Mod(w.start(&p, n).ok()?);
                for s in &p.segs {
                    at = w.peek(at, s, 12)?;
                }
                Some(at)
            };
            let why = match r {
                Err(e) => e,
                Ok(at) => match w.probe_kind(at) {
                    None => Why::WrongKind,
                    Some(_) => continue,
                },
            };
            // a single name where the walk found nothing may be a local name of the probe's text
            if p.segs.is_empty() {
                continue;
            }
            kind_of_bad = seen().and_then(|a| w.probe_kind(a)).map_or("fun", |k| k.0);
            let text = if g.chance(1, 3) && why != Why::WrongKind {
                let Some(name) = fresh(g, &w, n) else { continue };
                if p.prefix == Prefix::None && p.segs[0] == name {
                    continue;
                }
                let t = p.text();
                w.nodes[n].entries.push(Entry { name, vis: Vis::Implicit, kind: Kind::Use(p) });
                // the new name must not be what others meant
                t
            } else {
                id += 1;
                let t = p.text();
                let form = g.below(12);
                w.nodes[n].probes.push(Probe { path: p, form, vis: Vis::Implicit, id });
                t
            };
            bad = Some((format!("{text} in module {}", w.node_path(n).join("::")), why));
            break;
        }
    }
    let mut feats = vec![];
    feats.push(if two {
        "two libraries"
    } else if single {
        "root without a name"
    } else {
        "one library"
    });
    // print
    let mut want = vec![];
    let mut files = vec![];
    for &n in &real {
        if w.nodes[n].file {
            let src = print(g, &w, n, 0, &mut want, kind_of_bad);
            let base = w.node_path(w.nodes[n].lib);
            let ns = w.node_path(n);
            let name = if w.nodes[n].lib == n { format!("{}/src/main.spade", base.join("/")) } else { format!("{}.spade", ns.join("/")) };
            files.push(File { ns, base, name, src });
        }
    }
    g.shuffle(&mut files);
    Made { w, files, want, bad, feats }
}

fn print(g: &mut Gen, w: &World, n: usize, ind: usize, want: &mut Vec<(String, u64)>, bad_kind: &str) -> String {
    let mut items = vec![];
    for e in &w.nodes[n].entries {
        let (v, name) = (e.vis.text(), &e.name);
        items.push(match &e.kind {
            Kind::Mod(m) if w.nodes[*m].file => format!("{v}mod {name};"),
            Kind::Mod(m) => format!("{v}mod {name} {{\n{}}}", print(g, w, *m, ind + 1, want, bad_kind)),
            Kind::Fun(x) => format!("{v}fn {name}() -> uint<16> {{ {x} }}"),
            Kind::Ent(x) => format!("{v}entity {name}() -> uint<16> {{ {x} }}"),
            Kind::Struct(x) => format!("{v}struct {name} {{ v: bool }}\nimpl {name} {{ fn get(self) -> uint<16> {{ {x} }} fn make() -> uint<16> {{ {x} }} }}"),
            Kind::Enum(vs) => format!(
                "{v}enum {name} {{ {} }}\nimpl {name} {{ fn get(self) -> uint<16> {{ match self {{ {} }} }} fn first() -> Self {{ {name}::{} }} fn flip(self) -> Self {{ match self {{ {name}::{} => {name}::{}, _ => {name}::{} }} }} }}",
                vs.iter().map(|v| v.0.clone()).collect::<Vec<_>>().join(", "),
                vs.iter().map(|v| format!("{name}::{} => {}", v.0, v.1)).collect::<Vec<_>>().join(", "),
                vs[0].0,
                vs[0].0,
                vs[1].0,
                vs[0].0
            ),
            Kind::Trait(x) => format!("{v}trait {name} {{ fn t{x}(self) -> uint<16>; }}\nimpl {name} for bool {{ fn t{x}(self) -> uint<16> {{ {x} }} }}"),
            Kind::Use(p) => {
                let own = p.segs.last() == Some(name);
                let rename = if own { String::new() } else { format!(" as {name}") };
                let t = p.text();
                let mut segs: Vec<&str> = t.split("::").collect();
                if segs.len() > 1 && g.chance(1, 4) {
                    let k = g.usize(1, segs.len() - 1);
                    let tail = segs.split_off(k);
                    format!("{v}use {}::{{{}{rename}}};", segs.join("::"), tail.join("::"))
                } else {
                    format!("{v}use {t}{rename};")
                }
            }
            Kind::Alias(p) => format!("{v}type {name} = {};", p.text()),
        });
    }
    for p in &w.nodes[n].probes {
        let (k, x) = w.res(&p.path, n).ok().and_then(|at| w.probe_kind(at)).unwrap_or((bad_kind, 7));
        // a local name may be the name of anything that is not a pattern and not meant by the probe
        let own = *g.pick(&["a", "b", "c", "d", "x", "y", "zz", "k2"]);
        let pattern = match w.res(&Path { prefix: Prefix::None, segs: vec![own.to_string()] }, n) {
            Ok(At::Variant(..)) => true,
            Ok(At::Item(m, i)) => matches!(w.nodes[m].entries[i].kind, Kind::Struct(_)),
            Ok(At::Mod(_)) | Err(Why::Missing) => false,
            Err(_) => true,
        };
        let own = if pattern || p.path.segs.first().is_some_and(|s| s == own) { "zz" } else { own };
        let t = probe_text(k, x, p.form, p.id, &p.path.text(), own);
        let mut path = w.node_path(n);
        path.push(format!("q{}", p.id));
        want.push((path.join("::"), x));
        // the visibility of the probe itself has no influence
        items.push(match t.strip_prefix("fn q") {
            Some(r) => format!("{}fn q{r}", p.vis.text()),
            None => t,
        });
    }
    g.shuffle(&mut items);
    let pad = "    ".repeat(ind);
    items.iter().map(|i| format!("{pad}{}\n", i.replace('\n', &format!("\n{pad}")))).collect()
}

pub fn modules_case(g: &mut Gen) -> Result<CaseOk, (Failure, serde_json::Value)> {
    let m = build(g);
    let src: Vec<_> = m.files.iter().map(|f| json!({"file": f.name, "namespace": f.ns.join("::"), "base": f.base.join("::"), "source": f.src})).collect();
    let text = m.files.iter().map(|f| format!("//// {} {}\n{}", f.ns.join("::"), f.base.join("::"), f.src)).collect::<Vec<_>>().join("\n");
    let info = json!({"files": src, "source": text, "expected": match &m.bad { None => "accepted".to_string(), Some((p, w)) => format!("rejected: {w:?}: {p}") }});
    let bad = |class: &str, msg: String| Err((Failure { class: class.into(), msg }, info.clone()));
    beat(&text);
    let o = spadec::run(&m.files, &Opts::default());
    if let Some(e) = &o.panic {
        return bad(&format!("panic {}", norm_panic(e)), format!("the compiler panicked: {e}"));
    }
    let mut feats = m.feats.clone();
    let aliases = m.w.nodes.iter().flat_map(|n| &n.entries).filter(|e| matches!(e.kind, Kind::Use(_) | Kind::Alias(_))).count();
    if let Some((p, why)) = &m.bad {
        if o.ok {
            return bad(&format!("accepted {why:?}"), format!("accepted although a name cannot be used: {why:?}: {p}"));
        }
        if let Some(b) = o.errors().iter().find(|d| d.level == Level::Bug) {
            return bad("internal error", format!("internal error: {}", b.msg));
        }
        feats.push(match why {
            Why::Missing => "rejected: no such name",
            Why::Invisible => "rejected: not visible",
            Why::Cycle => "rejected: cyclic alias",
            Why::TooManySuper => "rejected: too many super",
            Why::WrongKind => "rejected: another kind of item",
        });
        let msgs: Vec<String> = o.errors().iter().map(|d| d.msg.clone()).collect();
        return Ok(CaseOk { nontrivial: Some(tape::hash_str(&text)), sample: json!({"source": text, "expected": format!("{why:?}: {p}"), "errors": msgs}), feats });
    }
    if !o.ok {
        return bad(&format!("reject {}", norm_msg(&o.errors().first().map(|d| d.msg.clone()).unwrap_or_default())), format!("a program whose names can all be used was rejected: {}", o.first_error()));
    }
    let design = match crate::vparse::parse(o.verilog.as_ref().unwrap()) {
        Ok(d) => d,
        Err(e) => return bad("malformed verilog", e.to_string()),
    };
    for (q, x) in &m.want {
        let r = (|| -> Result<String, String> {
            let mut sim = Sim::new(&design, q)?;
            sim.settle()?;
            let v = sim.get("output__")?;
            Ok(if v.to_u64() == Some(*x) { String::new() } else { v.to_bits() })
        })();
        match r {
            Err(e) => return bad("elaboration", format!("{q}: {e}")),
            Ok(s) if s.is_empty() => {}
            Ok(s) => return bad("wrong item", format!("{q} must be {x} ({}), is {s}", Bv::from_u64(16, *x).to_bits())),
        }
    }
    if aliases > 0 {
        feats.push("accepted with aliases");
    }
    if m.files.len() > 1 {
        feats.push("accepted with several files");
    }
    feats.push("accepted");
    let nt = m.want.len() >= 3;
    Ok(CaseOk { nontrivial: if nt { Some(tape::hash_str(&text)) } else { None }, sample: json!({"source": text, "values": m.want}), feats })
}

pub fn c14(ctx: &Ctx) {
    ctx.rule("a program counts when it must be rejected or has at least three uses of items by path");
    run_cases(ctx, "modules", &modules_case, ctx.amount(8000, 400000));
}
