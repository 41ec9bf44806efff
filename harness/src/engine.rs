//! A small property-based-testing engine in the style of Hypothesis: every
//! random decision is one entry in a *choice sequence*, so any generated case
//! (value, history, schedule) can be replayed and shrunk by editing that
//! sequence, independent of the type being generated.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Display;
use std::hash::{Hash, Hasher};
use std::panic::AssertUnwindSafe;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub struct Source {
    rng: Option<Rng>,
    prefix: Vec<u64>,
    pub recorded: Vec<u64>,
}

impl Source {
    pub fn random(seed: u64) -> Self {
        Self {
            rng: Some(Rng::new(seed)),
            prefix: Vec::new(),
            recorded: Vec::new(),
        }
    }
    /// Replays `choices`; everything after them is 0 (the simplest choice).
    pub fn replay(choices: Vec<u64>) -> Self {
        Self {
            rng: None,
            prefix: choices,
            recorded: Vec::new(),
        }
    }
    /// A value in `0..=max`.
    pub fn draw(&mut self, max: u64) -> u64 {
        let i = self.recorded.len();
        let v = if i < self.prefix.len() {
            self.prefix[i].min(max)
        } else if let Some(r) = &mut self.rng {
            if max == u64::MAX {
                r.next()
            } else {
                r.next() % (max + 1)
            }
        } else {
            0
        };
        self.recorded.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.draw(n as u64 - 1) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo)
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.draw((hi as i128 - lo as i128) as u64) as i64)
    }
    pub fn bool(&mut self) -> bool {
        self.draw(1) == 1
    }
    /// true with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den - 1) >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len());
        &items[i]
    }
    /// Picks an index with the given weights; shrinks towards index 0.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.draw(total - 1);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        unreachable!()
    }
    /// "one more element?" flag giving lists of mean length `avg` (bounded).
    pub fn more(&mut self, avg: u64, so_far: usize, max: usize) -> bool {
        so_far < max && self.draw(avg) != 0
    }
    pub fn list<T>(
        &mut self,
        min: usize,
        max: usize,
        avg: u64,
        mut f: impl FnMut(&mut Self) -> T,
    ) -> Vec<T> {
        let mut v = Vec::new();
        while v.len() < min || self.more(avg, v.len(), max) {
            v.push(f(self));
        }
        v
    }
    /// Integers biased to boundaries.
    pub fn interesting_u64(&mut self, max: u64) -> u64 {
        match self.draw(5) {
            0 => self.draw(max.min(3)),
            1 => self.draw(max.min(300)),
            2 => max - self.draw(max.min(3)),
            3 => {
                let bit = self.draw(63);
                let base = 1u64 << bit;
                let d = self.draw(2);
                base.wrapping_sub(1).wrapping_add(d) & mask_for(max)
            }
            4 => {
                let b = self.draw(7);
                let v = self.draw(0xff) << (8 * b);
                v & mask_for(max)
            }
            _ => self.draw(max),
        }
        .min(max)
    }
    pub fn bytes(&mut self, max: usize, avg: u64) -> Vec<u8> {
        self.list(0, max, avg, |s| match s.draw(4) {
            0 => 0,
            1 => s.draw(3) as u8,
            2 => 0xff - s.draw(2) as u8,
            3 => b'a' + s.draw(3) as u8,
            _ => s.draw(255) as u8,
        })
    }
    pub fn string(&mut self, max: usize, avg: u64) -> String {
        let v: Vec<char> = self.list(0, max, avg, |s| match s.draw(9) {
            0..=4 => (b'a' + s.draw(3) as u8) as char,
            5 => '\0',
            6 => (1 + s.draw(30) as u8) as char,
            7 => *s.pick(&['\u{7f}', '\u{80}', '\u{ff}', '\u{d7ff}', '\u{e000}', '\u{10ffff}', '\u{ffff}', '\u{10000}', '\u{7ff}', '\u{800}']),
            8 => (b' ' + s.draw(94) as u8) as char,
            _ => (b'0' + s.draw(9) as u8) as char,
        });
        v.into_iter().collect()
    }
    pub fn word(&mut self, max: usize) -> String {
        let n = self.draw(max as u64) as usize;
        (0..n).map(|_| (b'a' + self.draw(2) as u8) as char).collect()
    }
    pub fn fork_seed(&mut self) -> u64 {
        self.draw(u64::MAX)
    }
}
fn mask_for(max: u64) -> u64 {
    if max == 0 {
        0
    } else {
        u64::MAX >> max.leading_zeros()
    }
}

#[derive(Debug, Clone)]
pub struct Failure {
    pub msg: String,
    /// Exact signature, compared with the known-findings file.
    pub sig: String,
    /// A problem of the harness or environment, never a violation.
    pub harness: bool,
}
impl Failure {
    pub fn new(msg: impl Into<String>) -> Self {
        Self {
            msg: msg.into(),
            sig: String::new(),
            harness: false,
        }
    }
    pub fn sig(sig: &str, msg: impl Into<String>) -> Self {
        Self {
            msg: msg.into(),
            sig: sig.to_string(),
            harness: false,
        }
    }
    pub fn env(msg: impl Into<String>) -> Self {
        Self {
            msg: msg.into(),
            sig: String::new(),
            harness: true,
        }
    }
}
pub type Res<T = ()> = Result<T, Failure>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Failure::new(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::engine::Failure::new(format!($($t)*))); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        match (&$a, &$b) { (a, b) => {
            if a != b {
                return Err($crate::engine::Failure::new(format!("{}: got {}, expected {}", format!($($t)*), $crate::engine::short(a), $crate::engine::short(b))));
            }
        }}
    }};
}
pub fn short<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.len() > 300 {
        let mut end = 300;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        format!("{}…({} chars)", &s[..end], s.len())
    } else {
        s
    }
}
/// Maps an unexpected error of the system under test to a failure.
pub trait OrFail<T> {
    fn or_fail(self, what: impl Display) -> Res<T>;
    fn or_env(self, what: impl Display) -> Res<T>;
}
impl<T, E: std::fmt::Debug> OrFail<T> for Result<T, E> {
    fn or_fail(self, what: impl Display) -> Res<T> {
        self.map_err(|e| Failure::new(format!("{what}: unexpected error {}", short(&e))))
    }
    fn or_env(self, what: impl Display) -> Res<T> {
        self.map_err(|e| Failure::env(format!("{what}: {}", short(&e))))
    }
}

#[derive(Default)]
pub struct Ctx {
    pub trace: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub fingerprint: u64,
    pub thorough: bool,
}
impl Ctx {
    pub fn log(&mut self, s: impl Into<String>) {
        let s = s.into();
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.fingerprint.hash(&mut h);
        s.hash(&mut h);
        self.fingerprint = h.finish();
        if self.trace.len() < 400 {
            self.trace.push(if s.len() > 400 { short(&s) } else { s });
        }
    }
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_default() += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

pub type CaseFn = Arc<dyn Fn(&mut Source, &mut Ctx) -> Res + Send + Sync>;

pub struct Section {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    pub f: CaseFn,
}
pub fn section(
    name: &'static str,
    quick: u64,
    thorough: u64,
    f: impl Fn(&mut Source, &mut Ctx) -> Res + Send + Sync + 'static,
) -> Section {
    Section {
        name,
        quick,
        thorough,
        threads: 8,
        f: Arc::new(f),
    }
}
impl Section {
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub sections: Vec<Section>,
}

pub struct Options {
    pub thorough: bool,
    pub seed: u64,
    pub replay: Option<PathBuf>,
    pub scale: f64,
    pub only: Option<String>,
    pub verbose: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = format!("{info}");
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(msg));
        let quiet = QUIET.with(|q| *q.borrow());
        if !quiet && std::env::var_os("VH_SHOW_PANICS").is_some() {
            default(info);
        }
    }));
}

/// Runs `f`, turning a panic into an `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

fn execute(f: &CaseFn, src: &mut Source, ctx: &mut Ctx) -> Res {
    match catch(|| f(src, ctx)) {
        Ok(r) => r,
        Err(p) => {
            let p = p.replace('\n', " ");
            let harness = p.contains("HARNESS:");
            Err(Failure {
                sig: panic_sig(&p),
                msg: format!("panic: {p}"),
                harness,
            })
        }
    }
}
/// `panic@file.rs` without line numbers, so signatures survive edits.
fn panic_sig(p: &str) -> String {
    for w in p.split_whitespace() {
        if let Some(i) = w.find(".rs:") {
            return format!("panic@{}", &w[..i + 3]);
        }
    }
    "panic".into()
}

fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ b);
    r.next()
}
fn name_hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| {
        (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3)
    })
}

#[derive(Default)]
struct Agg {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    per_section: BTreeMap<String, u64>,
    known_hits: BTreeMap<String, (u64, String)>,
}

struct Found {
    section: usize,
    index: u64,
    choices: Vec<u64>,
    failure: Failure,
    trace: Vec<String>,
}

/// A case that takes this long has hung: cases normally take milliseconds.
const HUNG: Duration = Duration::from_secs(150);
#[derive(Clone)]
struct Running {
    since: Instant,
    section: &'static str,
    index: u64,
    seed: u64,
}
static RUNNING: Mutex<Vec<Option<Running>>> = Mutex::new(Vec::new());
/// What to report if shrinking hangs: start, replay document, message.
static SHRINKING: Mutex<Option<(Instant, serde_json::Value, String)>> = Mutex::new(None);

fn monitor(id: &'static str, level: &'static str, rule: &'static str, assumptions: &'static [&'static str], thorough: bool, seed: u64, start: Instant, agg: &Mutex<Agg>) {
    loop {
        std::thread::sleep(Duration::from_secs(1));
        let hung = RUNNING.lock().unwrap().iter().flatten().find(|r| r.since.elapsed() > HUNG).cloned();
        let stuck = SHRINKING.lock().unwrap().clone().filter(|s| s.0.elapsed() > Duration::from_secs(45) + HUNG);
        let (doc, msg) = if let Some(r) = hung {
            let msg = format!("{id}/{} case {} did not finish within {} s", r.section, r.index, HUNG.as_secs());
            if std::env::var_os("VERIF_HUNG_STACKS").is_some() {
                // for development: where is it?
                let _ = std::process::Command::new("gdb")
                    .args(["-p", &std::process::id().to_string(), "-batch", "-ex", "thread apply all bt 25"])
                    .stdout(std::fs::File::create("/tmp/w/hung.txt").expect("HARNESS: file"))
                    .status();
            }
            (serde_json::json!({"property": id, "section": r.section, "seed": r.seed, "message": msg, "sig": "hung"}), msg)
        } else if let Some((_, doc, msg)) = stuck {
            (doc, msg)
        } else {
            continue;
        };
        let path = write_replay(id, &doc);
        println!("{msg}");
        if let Ok(mut a) = agg.try_lock() {
            write_evidence(id, level, rule, assumptions, thorough, seed, start, &std::mem::take(&mut *a), false, 1);
        }
        println!("VIOLATION property={id} replay={}", path.display());
        let _ = std::fs::remove_dir_all(scratch_root());
        std::process::exit(1);
    }
}
fn write_replay(id: &str, doc: &serde_json::Value) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{}.json", doc["section"].as_str().unwrap_or("case")));
    let _ = std::fs::write(&path, serde_json::to_string_pretty(doc).unwrap() + "\n");
    path
}
#[allow(clippy::too_many_arguments)]
fn write_evidence(id: &str, level: &str, rule: &str, assumptions: &[&str], thorough: bool, seed: u64, start: Instant, a: &Agg, truncated: bool, violations: u64) {
    let ev = serde_json::json!({
        "property": id,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed,
        "level": level,
        "coverage": {
            "evaluations": a.evaluations,
            "distinct_nontrivial": a.distinct.len(),
            "nontrivial": a.nontrivial,
            "rule": rule,
            "samples": a.samples,
            "sections": a.per_section,
            "classes": a.counters,
            "known_finding_hits": a.known_hits.iter().map(|(k,v)|(k.clone(),v.0)).collect::<BTreeMap<_,_>>(),
            "truncated_by_time": truncated,
        },
        "assumptions": assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n");
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

pub struct Known {
    pub property: String,
    pub sig: String,
    pub text: String,
}
pub fn load_known() -> Vec<Known> {
    let mut out = Vec::new();
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
        for line in s.lines() {
            // known: property=C01 sig=<token> <text>
            if let Some(rest) = line.strip_prefix("known: property=") {
                let mut it = rest.splitn(3, ' ');
                let (Some(p), Some(sig), Some(text)) = (it.next(), it.next(), it.next()) else {
                    continue;
                };
                if let Some(sig) = sig.strip_prefix("sig=") {
                    out.push(Known {
                        property: p.into(),
                        sig: sig.into(),
                        text: text.into(),
                    });
                }
            }
        }
    }
    out
}

/// Runs all sections; returns the process exit code.
pub fn run(prop: Property, opts: &Options) -> i32 {
    let start = Instant::now();
    let known: Vec<Known> = load_known()
        .into_iter()
        .filter(|k| k.property == prop.id)
        .collect();
    if let Some(path) = &opts.replay {
        return replay(&prop, path, &known);
    }
    let agg = Arc::new(Mutex::new(Agg::default()));
    {
        let (id, level, rule, assumptions, thorough, seed) = (prop.id, prop.level, prop.rule, prop.assumptions, opts.thorough, opts.seed);
        let agg = agg.clone();
        std::thread::spawn(move || monitor(id, level, rule, assumptions, thorough, seed, start, &agg));
    }
    let mut found: Option<Found> = None;
    let hard_stop = start + Duration::from_secs(if opts.thorough { 6 * 3600 } else { 420 });
    let mut truncated = false;
    'sections: for (si, sec) in prop.sections.iter().enumerate() {
        if let Some(o) = &opts.only {
            if o != sec.name {
                continue;
            }
        }
        let total = if opts.thorough { sec.thorough } else { sec.quick };
        let total = ((total as f64) * opts.scale).ceil() as u64;
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let out: Mutex<Option<Found>> = Mutex::new(None);
        let trunc = AtomicBool::new(false);
        let sec_start = Instant::now();
        let base = mix(opts.seed, name_hash(prop.id) ^ name_hash(sec.name));
        std::thread::scope(|scope| {
            let threads = sec.threads.min(total.max(1) as usize);
            *RUNNING.lock().unwrap() = vec![None; threads];
            for slot in 0..threads {
                let (stop, trunc, next, out, agg, known) = (&stop, &trunc, &next, &out, &agg, &known);
                scope.spawn(move || loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    if Instant::now() > hard_stop {
                        trunc.store(true, Ordering::Relaxed);
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= total {
                        break;
                    }
                    let case_seed = mix(base, i);
                    RUNNING.lock().unwrap()[slot] = Some(Running { since: Instant::now(), section: sec.name, index: i, seed: case_seed });
                    let mut src = Source::random(case_seed);
                    let mut ctx = Ctx {
                        thorough: opts.thorough,
                        ..Ctx::default()
                    };
                    let t0 = Instant::now();
                    let r = execute(&sec.f, &mut src, &mut ctx);
                    RUNNING.lock().unwrap()[slot] = None;
                    if opts.verbose && t0.elapsed() > Duration::from_secs(3) {
                        eprintln!("slow case {}/{i}: {:?}", sec.name, t0.elapsed());
                    }
                    let mut a = agg.lock().unwrap();
                    a.evaluations += 1;
                    *a.per_section.entry(sec.name.into()).or_default() += 1;
                    for (k, v) in &ctx.counters {
                        *a.counters.entry(k.clone()).or_default() += v;
                    }
                    if ctx.nontrivial {
                        a.nontrivial += 1;
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        (si, ctx.fingerprint).hash(&mut h);
                        let fp = h.finish();
                        let want = a.samples.iter().filter(|s| s["section"] == sec.name).count() < 2;
                        if a.distinct.insert(fp) && want && !ctx.trace.is_empty() {
                            let t: Vec<String> = ctx
                                .trace
                                .iter()
                                .take(25)
                                .map(|l| {
                                    if l.len() > 160 {
                                        l.chars().take(150).collect::<String>() + "…"
                                    } else {
                                        l.clone()
                                    }
                                })
                                .collect();
                            a.samples.push(serde_json::json!({"section": sec.name, "index": i, "case": t}));
                        }
                    }
                    if let Err(f) = r {
                        if !f.sig.is_empty() && known.iter().any(|k| k.sig == f.sig) {
                            let e = a.known_hits.entry(f.sig.clone()).or_insert((0, f.msg.clone()));
                            e.0 += 1;
                            continue;
                        }
                        drop(a);
                        let mut o = out.lock().unwrap();
                        let better = o.as_ref().map_or(true, |o: &Found| i < o.index);
                        if better {
                            *o = Some(Found {
                                section: si,
                                index: i,
                                choices: src.recorded.clone(),
                                failure: f,
                                trace: ctx.trace.clone(),
                            });
                        }
                        stop.store(true, Ordering::Relaxed);
                        break;
                    }
                });
            }
        });
        if opts.verbose {
            eprintln!("section {}: {:?}", sec.name, sec_start.elapsed());
        }
        truncated |= trunc.load(Ordering::Relaxed);
        if let Some(f) = out.into_inner().unwrap() {
            found = Some(f);
            break 'sections;
        }
    }
    let a = std::mem::take(&mut *agg.lock().unwrap());
    for k in &known {
        if a.known_hits.contains_key(&k.sig) {
            println!("KNOWN-FINDING: property={} {}", prop.id, k.text);
        } else if opts.verbose {
            eprintln!("note: known finding not reproduced in this run: {}", k.sig);
        }
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = found {
        if f.failure.harness {
            eprintln!(
                "HARNESS ERROR in {}/{} case {}: {}",
                prop.id, prop.sections[f.section].name, f.index, f.failure.msg
            );
            code = 2;
        } else {
            violations = 1;
            code = 1;
            report(&prop, f, opts);
        }
    }
    let wall = start.elapsed().as_secs_f64();
    write_evidence(prop.id, prop.level, prop.rule, prop.assumptions, opts.thorough, opts.seed, start, &a, truncated, violations);
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1}s, {}",
        prop.id,
        a.evaluations,
        a.distinct.len(),
        wall,
        match code {
            0 => "held",
            1 => "VIOLATED",
            _ => "ERROR",
        }
    );
    code
}

fn report(prop: &Property, f: Found, _opts: &Options) {
    let sec = &prop.sections[f.section];
    println!(
        "{}/{} case {} failed: {}",
        prop.id, sec.name, f.index, f.failure.msg
    );
    let first = serde_json::json!({
        "property": prop.id, "section": sec.name, "choices": f.choices, "message": f.failure.msg,
        "sig": f.failure.sig, "trace": f.trace, "shrink_steps": 0,
    });
    *SHRINKING.lock().unwrap() = Some((Instant::now(), first, format!("not shrunk: {}", f.failure.msg)));
    let (choices, failure, trace, steps) = shrink(sec, f.choices, f.failure, f.trace);
    let doc = serde_json::json!({
        "property": prop.id,
        "section": sec.name,
        "choices": choices,
        "message": failure.msg,
        "sig": failure.sig,
        "trace": trace,
        "shrink_steps": steps,
    });
    let path = write_replay(prop.id, &doc);
    println!("minimal case ({} choices, {steps} shrink executions):", choices.len());
    for t in trace.iter().take(80) {
        println!("  {t}");
    }
    println!("  => {}", failure.msg);
    println!("VIOLATION property={} replay={}", prop.id, path.display());
}

fn attempt(sec: &Section, choices: &[u64]) -> Option<(Vec<u64>, Failure, Vec<String>)> {
    let mut src = Source::replay(choices.to_vec());
    let mut ctx = Ctx::default();
    match execute(&sec.f, &mut src, &mut ctx) {
        Err(f) if !f.harness => Some((src.recorded, f, ctx.trace)),
        _ => None,
    }
}

fn shrink(
    sec: &Section,
    choices: Vec<u64>,
    failure: Failure,
    mut trace: Vec<String>,
) -> (Vec<u64>, Failure, Vec<String>, u64) {
    let deadline = Instant::now() + Duration::from_secs(45);
    let mut steps = 0;
    let again = (0..5).find_map(|_| if Instant::now() < deadline { attempt(sec, &choices) } else { None });
    let Some((mut best, mut bf, mut bt)) = again else {
        // not deterministic (schedule dependent): keep the original
        trace.insert(0, "(did not fail again on immediate re-execution: schedule dependent)".into());
        return (choices, failure, trace, 5);
    };
    let key = |c: &Vec<u64>| (c.len(), c.clone());
    let mut improved = true;
    while improved && Instant::now() < deadline {
        improved = false;
        // delete chunks
        for size in [64usize, 32, 16, 8, 6, 5, 4, 3, 2, 1] {
            let mut i = best.len().saturating_sub(size);
            loop {
                if Instant::now() > deadline {
                    break;
                }
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    steps += 1;
                    if let Some((r, f, t)) = attempt(sec, &c) {
                        if f.sig == bf.sig && key(&r) < key(&best) {
                            best = r;
                            bf = f;
                            bt = t;
                            improved = true;
                            i = i.min(best.len());
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(if size > 8 { size / 2 } else { 1 });
            }
        }
        // lower values
        let mut i = 0;
        while i < best.len() && Instant::now() < deadline {
            if best[i] > 0 {
                let mut lo = 0u64;
                let mut hi = best[i];
                let mut tries = 0;
                while lo < hi && tries < 8 {
                    let mid = if tries == 0 { 0 } else { lo + (hi - lo) / 2 };
                    let mut c = best.clone();
                    c[i] = mid;
                    steps += 1;
                    tries += 1;
                    match attempt(sec, &c) {
                        Some((r, f, t)) if f.sig == bf.sig && key(&r) < key(&best) => {
                            best = r;
                            bf = f;
                            bt = t;
                            improved = true;
                            hi = mid;
                            if i >= best.len() {
                                break;
                            }
                        }
                        _ => lo = mid + 1,
                    }
                    if Instant::now() > deadline {
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    (best, bf, bt, steps)
}

fn replay(prop: &Property, path: &PathBuf, known: &[Known]) -> i32 {
    let doc: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(path).expect("HARNESS: replay file"))
            .expect("HARNESS: replay json");
    let name = doc["section"].as_str().unwrap_or("");
    let Some(sec) = prop.sections.iter().find(|s| s.name == name) else {
        eprintln!("no section {name}");
        return 2;
    };
    let mut src = match doc["choices"].as_array() {
        Some(c) => Source::replay(c.iter().map(|v| v.as_u64().unwrap()).collect()),
        // A case that hung is replayed from its seed.
        None => Source::random(doc["seed"].as_u64().expect("HARNESS: replay file without choices")),
    };
    let mut ctx = Ctx::default();
    let (id, shown) = (prop.id, path.display().to_string());
    std::thread::spawn(move || {
        std::thread::sleep(HUNG);
        println!("VIOLATION property={id} replay={shown}");
        std::process::exit(1);
    });
    let r = execute(&sec.f, &mut src, &mut ctx);
    for t in &ctx.trace {
        println!("  {t}");
    }
    match r {
        Ok(()) => {
            println!("replay: property held");
            0
        }
        Err(f) if f.harness => {
            eprintln!("HARNESS ERROR: {}", f.msg);
            2
        }
        Err(f) => {
            println!("  => {}", f.msg);
            if known.iter().any(|k| k.sig == f.sig && !f.sig.is_empty()) {
                println!("KNOWN-FINDING: property={} {}", prop.id, f.sig);
                return 0;
            }
            println!("VIOLATION property={} replay={}", prop.id, path.display());
            1
        }
    }
}

/// A scratch directory removed on drop.
pub struct Scratch(pub PathBuf);
static SCRATCH_COUNTER: AtomicU64 = AtomicU64::new(0);
pub fn scratch_root() -> PathBuf {
    let base = if std::fs::create_dir_all("/dev/shm/vharness").is_ok() {
        PathBuf::from("/dev/shm/vharness")
    } else {
        std::env::temp_dir().join("vharness")
    };
    base.join(format!("p{}", std::process::id()))
}
impl Scratch {
    pub fn new() -> Self {
        let n = SCRATCH_COUNTER.fetch_add(1, Ordering::Relaxed);
        // Deeply nested, so that a relative escape stays in scratch.
        let p = scratch_root().join(format!("s{n}")).join("a/b/c/d");
        std::fs::create_dir_all(&p).expect("HARNESS: scratch dir");
        Scratch(p)
    }
    pub fn root(&self) -> PathBuf {
        self.0.ancestors().nth(4).unwrap().to_path_buf()
    }
    pub fn path(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(self.root());
    }
}
