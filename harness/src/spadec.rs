//! Running the compiler under test in-process, collecting its output, diagnostics and panics.
use spade::ModuleNamespace;
use spade_codespan_reporting::term::termcolor::Buffer;
use spade_common::name::Path as SpadePath;
use spade_diagnostics::diagnostic::{DiagnosticLevel, Subdiagnostic};
use spade_diagnostics::{CodeBundle, DiagHandler, Diagnostic, Emitter};
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Level {
    Bug,
    Error,
    Warning,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Diag {
    pub level: Level,
    pub msg: String,
    pub label: String,
    /// file id, start, end of every span mentioned; the primary one is first
    pub spans: Vec<(usize, u32, u32)>,
    /// replacement suggestions: (message, parts)
    pub suggestions: Vec<(String, Vec<(usize, u32, u32, String)>)>,
}

#[derive(Clone)]
pub struct Opts {
    pub std: bool,
    pub passes: Vec<String>,
    pub mir: bool,
    pub wrapper: bool,
    pub state: bool,
    pub items: bool,
    pub render: bool,
    /// keep `Artefacts`
    pub no_outfile: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { std: false, passes: vec![], mir: false, wrapper: false, state: false, items: false, render: false, no_outfile: false }
    }
}
#[derive(Clone)]
pub struct File {
    /// namespace path, empty for the root
    pub ns: Vec<String>,
    /// base (root) namespace
    pub base: Vec<String>,
    pub name: String,
    pub src: String,
}
pub fn single(src: &str) -> Vec<File> {
    vec![File { ns: vec![], base: vec![], name: "t.spade".into(), src: src.to_string() }]
}

pub struct Out {
    pub ok: bool,
    pub verilog: Option<String>,
    pub mir: Option<String>,
    pub wrapper: Option<String>,
    pub state: Option<Vec<u8>>,
    pub items: Option<String>,
    pub diags: Vec<Diag>,
    pub rendered: String,
    pub panic: Option<String>,
    pub files: Vec<(String, String)>,
    pub artefacts: Option<spade::Artefacts>,
}
impl Out {
    pub fn errors(&self) -> Vec<&Diag> {
        self.diags.iter().filter(|d| d.level != Level::Warning).collect()
    }
    pub fn first_error(&self) -> String {
        if let Some(p) = &self.panic {
            return format!("panic: {p}");
        }
        self.errors()
            .first()
            .map(|d| {
                let sp = d.spans.first().copied().unwrap_or((0, 0, 0));
                let src = self
                    .files
                    .get(sp.0)
                    .and_then(|f| f.1.get(sp.1 as usize..sp.2 as usize))
                    .unwrap_or("")
                    .chars()
                    .take(60)
                    .collect::<String>();
                format!("{:?}: {} [{}] at `{src}`", d.level, d.msg, d.label)
            })
            .unwrap_or_else(|| "no error diagnostic".into())
    }
}

thread_local! {
    pub static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} @ {loc}")));
    }));
}
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let hooked = LAST_PANIC.with(|p| p.borrow_mut().take());
            Err(hooked.unwrap_or_else(|| {
                e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into())
            }))
        }
    }
}

struct Collect {
    out: Arc<Mutex<Vec<Diag>>>,
    render: bool,
}
fn conv_diag(d: &Diagnostic) -> Diag {
    let mut spans = vec![];
    let mut add = |s: &spade_common::location_info::FullSpan| spans.push((s.1, u32::from(s.0.start()), u32::from(s.0.end())));
    add(&d.labels.span);
    for (s, _) in &d.labels.secondary_labels {
        add(s);
    }
    let mut suggestions = vec![];
    for s in &d.subdiagnostics {
        match s {
            Subdiagnostic::SpannedNote { labels, .. } => {
                add(&labels.span);
                for (s, _) in &labels.secondary_labels {
                    add(s);
                }
            }
            Subdiagnostic::Suggestion { parts, message } => {
                let mut v = vec![];
                for (s, t) in parts {
                    add(s);
                    v.push((s.1, u32::from(s.0.start()), u32::from(s.0.end()), t.clone()));
                }
                suggestions.push((message.as_str().to_string(), v));
            }
            _ => {}
        }
    }
    Diag {
        level: match d.level {
            DiagnosticLevel::Bug => Level::Bug,
            DiagnosticLevel::Error => Level::Error,
            DiagnosticLevel::Warning => Level::Warning,
        },
        msg: d.labels.message.as_str().to_string(),
        label: d.labels.primary_label.as_ref().map(|l| l.as_str().to_string()).unwrap_or_default(),
        spans,
        suggestions,
    }
}
impl Emitter for Collect {
    fn emit_diagnostic(&mut self, diag: &Diagnostic, buffer: &mut Buffer, code: &CodeBundle) {
        self.out.lock().unwrap().push(conv_diag(diag));
        if self.render {
            spade_diagnostics::emitter::CodespanEmitter.emit_diagnostic(diag, buffer, code);
        }
    }
}

static COUNTER: AtomicUsize = AtomicUsize::new(0);
pub fn scratch() -> std::path::PathBuf {
    let p = std::path::PathBuf::from(format!("/tmp/vh_{}", std::process::id()));
    let _ = std::fs::create_dir_all(&p);
    p
}
pub fn scratch_file(ext: &str) -> std::path::PathBuf {
    let n = COUNTER.fetch_add(1, Ordering::Relaxed);
    scratch().join(format!("{n}.{ext}"))
}

pub fn run(files: &[File], o: &Opts) -> Out {
    let diags = Arc::new(Mutex::new(vec![]));
    let base = scratch_file("sv");
    let p = |e: &str, on: bool| if on { Some(base.with_extension(e)) } else { None };
    let (mirp, wrapp, statep, itemp) = (p("mir", o.mir), p("cpp", o.wrapper), p("state", o.state), p("items", o.items));
    let mut buffer = Buffer::no_color();
    let sources: Vec<_> = files
        .iter()
        .map(|f| {
            (
                ModuleNamespace {
                    namespace: SpadePath::from_strs(&f.ns.iter().map(|s| s.as_str()).collect::<Vec<_>>()),
                    base_namespace: SpadePath::from_strs(&f.base.iter().map(|s| s.as_str()).collect::<Vec<_>>()),
                    file: f.name.clone(),
                    working_dir: None,
                },
                f.name.clone(),
                f.src.clone(),
            )
        })
        .collect();
    let outfile = if o.no_outfile { None } else { Some(base.clone()) };
    let r = catch(|| {
        let opts = spade::Opt {
            error_buffer: &mut buffer,
            outfile: outfile.clone(),
            mir_output: mirp.clone(),
            verilator_wrapper_output: wrapp.clone(),
            state_dump_file: statep.clone(),
            item_list_file: itemp.clone(),
            print_parse_traceback: None,
            opt_passes: o.passes.clone(),
        };
        let h = DiagHandler::new(Box::new(Collect { out: diags.clone(), render: o.render }));
        spade::compile(sources, spade::CompilationGoal::Codegen, o.std, opts, h)
    });
    let take = |p: &Option<std::path::PathBuf>| {
        p.as_ref().and_then(|p| {
            let r = std::fs::read(p).ok();
            let _ = std::fs::remove_file(p);
            r
        })
    };
    let txt = |v: Option<Vec<u8>>| v.map(|v| String::from_utf8_lossy(&v).to_string());
    let mut out = Out {
        ok: false,
        verilog: txt(take(&outfile)),
        mir: txt(take(&mirp)),
        wrapper: txt(take(&wrapp)),
        state: take(&statep),
        items: txt(take(&itemp)),
        diags: diags.lock().map(|d| d.clone()).unwrap_or_default(),
        rendered: String::from_utf8_lossy(buffer.as_slice()).to_string(),
        panic: None,
        files: vec![],
        artefacts: None,
    };
    let dump = |c: &CodeBundle| c.dump_files().into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    match r {
        Ok(Ok(a)) => {
            out.ok = true;
            out.files = dump(&a.code);
            out.artefacts = Some(a);
        }
        Ok(Err(spade::CompilationResult::EarlyFailure(a))) => {
            if let Ok(c) = a.code.read() {
                out.files = dump(&c);
            }
        }
        Ok(Err(spade::CompilationResult::LateFailure(a))) => {
            out.files = dump(&a.code);
        }
        Err(p) => out.panic = Some(p),
    }
    out
}
