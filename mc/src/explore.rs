//! Parallel, deterministic, level-synchronous explicit-state exploration, plus an exhaustive
//! index-space enumerator.  Both call the real code for every transition / input.
use crate::report::{Ctx, Tier, Violation};
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Default, Clone)]
pub struct IdH(u64);
impl Hasher for IdH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = self.0.rotate_left(5) ^ *c as u64;
        }
    }
    fn write_u128(&mut self, x: u128) {
        self.0 = x as u64 ^ (x >> 64) as u64;
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
pub type Seen = HashSet<u128, BuildHasherDefault<IdH>>;

/// 128-bit FNV-style hash with strong mixing, deterministic across runs.
#[derive(Clone)]
pub struct H2 {
    a: u64,
    b: u64,
}
impl H2 {
    pub fn new() -> H2 {
        H2 { a: 0x9E37_79B9_7F4A_7C15, b: 0xC2B2_AE3D_27D4_EB4F }
    }
    pub fn get(&self) -> u128 {
        let m = |mut x: u64| {
            x ^= x >> 33;
            x = x.wrapping_mul(0xff51afd7ed558ccd);
            x ^= x >> 33;
            x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
            x ^= x >> 33;
            x
        };
        (m(self.a) as u128) << 64 | m(self.b ^ self.a.rotate_left(17)) as u128
    }
}
impl Hasher for H2 {
    fn finish(&self) -> u64 {
        self.get() as u64
    }
    fn write(&mut self, b: &[u8]) {
        for ch in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..ch.len()].copy_from_slice(ch);
            let x = u64::from_le_bytes(w) ^ ((ch.len() as u64) << 56);
            self.a = (self.a ^ x).wrapping_mul(0x9FB2_1C65_1E98_DF25).rotate_left(29);
            self.b = (self.b.rotate_left(23) ^ x).wrapping_mul(0xD6E8_FEB8_6659_FD93);
        }
        self.a ^= self.a >> 31;
        self.b ^= self.b >> 29;
    }
}
pub fn h128<T: std::hash::Hash + ?Sized>(t: &T) -> u128 {
    let mut h = H2::new();
    t.hash(&mut h);
    h.get()
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
    /// how many `guarded` calls this thread is inside of
    static GUARDS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if m.starts_with("harness") || loc.starts_with("src/") {
            eprintln!("HARNESS PANIC: {m} at {loc}");
        }
        let harness = m.starts_with("harness") || loc.starts_with("src/");
        if !harness && GUARDS.with(|g| g.get()) == 0 {
            // the library panicked in a call made outside `guarded` (a getter, say): nobody will
            // catch it, so it is reported from here.  A fresh thread, as a panic inside a panic
            // hook aborts.
            let at = SLOT.with(|s| s.at.load(Ordering::Relaxed));
            let what = format!("panic: {m} at {loc}");
            let _ = std::thread::Builder::new().stack_size(64 << 20).spawn(move || stuck("panic", &what, at)).map(|j| j.join());
            std::process::exit(3);
        }
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    }));
}
/// Run the code under test; Err = it panicked.  A call that does not return within `hang_limit`
/// seconds or allocates more than `MEM_LIMIT` ends the check with a violation (see `watchdog`).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let outer = enter();
    GUARDS.with(|g| g.set(g.get() + 1));
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    GUARDS.with(|g| g.set(g.get() - 1));
    leave(outer);
    match r {
        Ok(x) => Ok(x),
        Err(_) => {
            let s = PANIC.with(|p| p.borrow().clone());
            if s.contains(" at src/") || s.starts_with("harness") {
                eprintln!("harness bug: {s}");
                std::process::exit(3);
            }
            Err(s)
        }
    }
}

// ---- calls that never return --------------------------------------------------------------
/// One per thread: when the call under test began (in watchdog ticks, 0 = none) and what the
/// thread is working on (meaning given by the current `Describe`).
#[derive(Default)]
struct Slot {
    since: AtomicU64,
    at: AtomicU64,
}
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(vec![]);
/// Counts the watchdog's own wake-ups (one per 500 ms), so that a stopped machine is no alarm.
static TICK: AtomicU64 = AtomicU64::new(1);
type Describe = &'static (dyn Fn(u64) -> String + Sync);
static DESCRIBE: Mutex<Option<Describe>> = Mutex::new(None);
static CHECK: OnceLock<(String, Tier)> = OnceLock::new();
static LONGEST: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static SLOT: Arc<Slot> = {
        let s = Arc::new(Slot::default());
        SLOTS.lock().unwrap().push(s.clone());
        s
    };
}
fn tick() -> u64 {
    TICK.load(Ordering::Relaxed)
}
fn enter() -> (u64, isize, bool) {
    let m = crate::alloc::enter();
    let o = SLOT.with(|s| {
        let o = s.since.load(Ordering::Relaxed);
        if o == 0 {
            s.since.store(tick(), Ordering::Relaxed);
        }
        o
    });
    (o, m.0, m.1)
}
fn leave(o: (u64, isize, bool)) {
    crate::alloc::leave((o.1, o.2));
    SLOT.with(|s| {
        if o.0 == 0 {
            LONGEST.fetch_max(tick().saturating_sub(s.since.load(Ordering::Relaxed)), Ordering::Relaxed);
        }
        s.since.store(o.0, Ordering::Relaxed)
    });
}
fn working_on(at: u64) {
    SLOT.with(|s| s.at.store(at, Ordering::Relaxed));
}
/// Give the threads' `working_on` numbers a meaning while `f` runs.
fn described<R>(d: &(dyn Fn(u64) -> String + Sync), f: impl FnOnce() -> R) -> R {
    // SAFETY: cleared before `d` goes out of scope; the watchdog uses it only under the lock
    let d: Describe = unsafe { std::mem::transmute(d) };
    *DESCRIBE.lock().unwrap() = Some(d);
    let r = f();
    *DESCRIBE.lock().unwrap() = None;
    r
}
/// A call under test neither returned nor will (or panicked where nobody catches it): report it
/// and end the check.
fn stuck(what: &str, how: &str, at: u64) -> ! {
    static ONCE: Mutex<()> = Mutex::new(());
    let _g = ONCE.lock().unwrap_or_else(|e| e.into_inner());
    crate::alloc::disable();
    let (prop, tier) = CHECK.get().cloned().unwrap_or(("C00".into(), Tier::Quick));
    let d = *DESCRIBE.lock().unwrap_or_else(|e| e.into_inner());
    let replay = match d {
        Some(d) => guarded(|| d(at)).unwrap_or_default(),
        None => String::new(),
    };
    let mut ctx = Ctx::new(&prop, tier);
    ctx.exhaustive = false;
    ctx.violation(Violation { sig: format!("{prop}/{what}"), msg: format!("a call of the code under test {how}"), replay });
    let rc = ctx.finish();
    std::process::exit(rc);
}
pub fn out_of_memory() -> ! {
    let at = SLOT.with(|s| s.at.load(Ordering::Relaxed));
    stuck("unbounded-memory", "allocates without bound", at)
}
/// to the watchdog's resolution
pub fn longest_call_ms() -> u64 {
    LONGEST.load(Ordering::Relaxed) * 500
}
pub fn watchdog(prop: &str, tier: Tier) {
    let _ = CHECK.set((prop.to_string(), tier));
    let limit = std::env::var("MC_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60u64) * 2;
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = TICK.fetch_add(1, Ordering::Relaxed);
            let hung = SLOTS.lock().unwrap().iter().find_map(|s| {
                let t = s.since.load(Ordering::Relaxed);
                (t != 0 && now > t + limit).then(|| s.at.load(Ordering::Relaxed))
            });
            if let Some(at) = hung {
                stuck("hang", "does not terminate", at);
            }
        })
        .unwrap();
}

pub struct Bad {
    pub sig: String,
    pub msg: String,
}
impl Bad {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Bad {
        Bad { sig: sig.into(), msg: msg.into() }
    }
}
/// What a pass over one state reports.
#[derive(Default)]
pub struct Leaf {
    pub cases: u64,
    pub bads: Vec<Bad>,
    pub outs: HashSet<u64, BuildHasherDefault<IdH>>,
}
impl Leaf {
    pub fn bad(&mut self, b: Bad) {
        if self.bads.len() < 40 && !self.bads.iter().any(|x| x.sig == b.sig) {
            self.bads.push(b)
        }
    }
}
pub enum Out<S> {
    Next(S),
    Prune,
    Bad(Bad),
}

pub trait Model: Sync {
    type S: Clone + Send + Sync;
    type A: Clone + Debug + Send + Sync;
    fn name(&self) -> String;
    fn init(&self) -> Self::S;
    fn actions(&self, s: &Self::S) -> Vec<Self::A>;
    fn step(&self, s: &Self::S, a: &Self::A) -> Out<Self::S>;
    fn key(&self, s: &Self::S) -> u128;
    fn outcome(&self, _s: &Self::S) -> u64 {
        0
    }
    /// Does the model have a pass over every reached state (see `leaf`)?
    fn has_leaf(&self) -> bool {
        false
    }
    /// Checks run in every distinct reached state, none of which extends the exploration.
    fn leaf(&self, _s: &Self::S, _depth: usize, _k: &mut Leaf) {}
    /// human readable trace of the last step of `s`
    fn explain(&self, _s: &Self::S) -> String {
        String::new()
    }
}

#[derive(Clone, Debug)]
pub struct Limits {
    pub depth: usize,
    /// stop after a completed depth once this many states are known, but not before `min_depth`
    pub states: usize,
    pub min_depth: usize,
    /// wall clock limit in seconds for this model (0 = none)
    pub secs: f64,
}

pub fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}

/// Breadth-first exploration.  Returns false if an unlisted violation was found.
/// What an exploration may hold before it is cut (and says so).
const MEM_GB: u64 = 14;
fn resident_gb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096 >> 30
}

pub fn bfs<M: Model>(ctx: &mut Ctx, m: &M, lim: &Limits) -> bool {
    let t0 = std::time::Instant::now();
    let mut seen: Seen = Seen::default();
    let mut arena: Vec<(u32, u16)> = vec![(u32::MAX, 0)];
    let s0 = m.init();
    seen.insert(m.key(&s0));
    let mut frontier: Vec<(u32, M::S)> = vec![(0, s0)];
    let mut transitions = 0u64;
    let mut outcomes: HashSet<u64, BuildHasherDefault<IdH>> = Default::default();
    let mut depth = 0usize;
    let mut ok = true;
    let mut cap: Option<String> = None;
    let leafs = AtomicUsize::new(0);
    while !frontier.is_empty() {
        let expand = depth < lim.depth;
        if !expand {
            cap = Some(format!("depth {}", lim.depth));
            if !m.has_leaf() {
                break;
            }
        }
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let full = AtomicBool::new(false);
        type Cand<S> = (u32, u16, u128, S);
        let results: Mutex<Vec<Vec<Cand<M::S>>>> = Mutex::new(vec![]);
        let bads: Mutex<Vec<(u32, u16, Bad)>> = Mutex::new(vec![]);
        let tr = AtomicUsize::new(0);
        let outs: Mutex<Vec<HashSet<u64, BuildHasherDefault<IdH>>>> = Mutex::new(vec![]);
        let nthreads = threads().min(frontier.len()).max(1);
        let fr = &frontier;
        let seen_ref = &seen;
        let desc = |at: u64| {
            let (i, ai) = ((at >> 16) as usize, at as u16);
            trace_stuck(m, &arena, fr.get(i).map(|f| f.0).unwrap_or(0), ai)
        };
        described(&desc, || std::thread::scope(|sc| {
            for _ in 0..nthreads {
                sc.spawn(|| {
                    let mut local: Vec<Cand<M::S>> = vec![];
                    let mut lseen: Seen = Seen::default();
                    let mut lout: HashSet<u64, BuildHasherDefault<IdH>> = Default::default();
                    let mut lt = 0usize;
                    loop {
                        let i0 = next.fetch_add(16, Ordering::Relaxed);
                        if i0 >= fr.len() || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if lim.secs > 0.0 && t0.elapsed().as_secs_f64() > lim.secs {
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                        if resident_gb() > MEM_GB {
                            full.store(true, Ordering::Relaxed);
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                        for i in i0..(i0 + 16).min(fr.len()) {
                            let s = &fr[i].1;
                            if m.has_leaf() {
                                let mut k = Leaf::default();
                                working_on((i as u64) << 16 | u16::MAX as u64);
                                m.leaf(s, depth, &mut k);
                                leafs.fetch_add(k.cases as usize, Ordering::Relaxed);
                                lout.extend(k.outs);
                                if !k.bads.is_empty() {
                                    let mut g = bads.lock().unwrap();
                                    for b in k.bads {
                                        if g.len() < 10_000 {
                                            g.push((i as u32, u16::MAX, b));
                                        }
                                    }
                                }
                            }
                            if !expand {
                                continue;
                            }
                            for (ai, a) in m.actions(s).iter().enumerate() {
                                lt += 1;
                                working_on((i as u64) << 16 | ai as u64);
                                match m.step(s, a) {
                                    Out::Next(n) => {
                                        lout.insert(m.outcome(&n));
                                        let k = m.key(&n);
                                        if !seen_ref.contains(&k) && lseen.insert(k) {
                                            local.push((i as u32, ai as u16, k, n));
                                        }
                                    }
                                    Out::Prune => {}
                                    Out::Bad(b) => {
                                        let mut g = bads.lock().unwrap();
                                        if g.len() < 10_000 {
                                            g.push((i as u32, ai as u16, b));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    tr.fetch_add(lt, Ordering::Relaxed);
                    results.lock().unwrap().push(local);
                    outs.lock().unwrap().push(lout);
                });
            }
        }));
        transitions += tr.load(Ordering::Relaxed) as u64;
        for o in outs.into_inner().unwrap() {
            outcomes.extend(o);
        }
        let mut bads = bads.into_inner().unwrap();
        bads.sort_by_key(|b| (b.0, b.1));
        for (i, ai, b) in bads {
            if ctx.is_known(&b.sig) {
                ctx.violation(Violation { sig: b.sig, msg: b.msg, replay: String::new() });
                continue;
            }
            let replay = trace(m, &arena, frontier[i as usize].0, ai, &b.msg);
            ctx.violation(Violation { sig: b.sig, msg: format!("[{}] {}", m.name(), b.msg), replay });
            ok = false;
            break;
        }
        if !ok {
            break;
        }
        let mut cands: Vec<Cand<M::S>> = results.into_inner().unwrap().into_iter().flatten().collect();
        let timed_out = stop.load(Ordering::Relaxed);
        cands.sort_by_key(|c| (c.0, c.1));
        let mut nf: Vec<(u32, M::S)> = Vec::new();
        for (i, ai, k, s) in cands {
            if seen.insert(k) {
                arena.push((frontier[i as usize].0, ai));
                nf.push(((arena.len() - 1) as u32, s));
            }
        }
        if timed_out {
            cap = Some(if full.load(Ordering::Relaxed) {
                format!("memory {MEM_GB} GB within depth {} (all depths below complete)", depth + 1)
            } else {
                format!("wall clock {}s within depth {} (all depths below complete)", lim.secs, depth + 1)
            });
            break;
        }
        if !expand {
            break;
        }
        frontier = nf;
        depth += 1;
        if seen.len() > lim.states && depth >= lim.min_depth && depth < lim.depth {
            cap = Some(format!("depth {depth} (complete; state budget {} used up)", lim.states));
            break;
        }
    }
    ctx.states += seen.len() as u64;
    let leafs = leafs.load(Ordering::Relaxed) as u64;
    ctx.transitions += transitions + leafs;
    ctx.validated += transitions + leafs;
    ctx.outcomes += outcomes.len() as u64;
    let line = format!(
        "{}: states={} transitions={}{} outcomes={} depth={} {} {:.1}s",
        m.name(),
        seen.len(),
        transitions,
        if m.has_leaf() { format!(" per-state cases={leafs}") } else { String::new() },
        outcomes.len(),
        depth,
        match &cap {
            None if ok => "fixpoint".to_string(),
            None => "stopped at violation".to_string(),
            Some(c) => format!("bound: {c}"),
        },
        t0.elapsed().as_secs_f64()
    );
    eprintln!("  {line}");
    ctx.models.push(line);
    if let Some(c) = cap {
        if c.starts_with("wall") {
            ctx.exhaustive = false;
        }
    }
    ok
}

/// The path to a step that never returned (the step itself is only named).
fn trace_stuck<M: Model>(m: &M, arena: &[(u32, u16)], at: u32, last: u16) -> String {
    let mut path = vec![];
    let mut x = at;
    while arena[x as usize].0 != u32::MAX {
        path.push(arena[x as usize].1);
        x = arena[x as usize].0;
    }
    path.reverse();
    let mut o = format!("model: {}\npath: {:?} then {}\n", m.name(), path, last);
    let mut s = m.init();
    for (n, ai) in path.iter().enumerate() {
        let acts = m.actions(&s);
        let Some(a) = acts.get(*ai as usize) else { break };
        o.push_str(&format!("{:2}. {:?}\n", n + 1, a));
        if let Out::Next(n) = m.step(&s, a) {
            s = n
        }
    }
    match m.actions(&s).get(last as usize) {
        Some(a) => o.push_str(&format!("{:2}. {:?}\n      => VIOLATION the call does not return\n", path.len() + 1, a)),
        None => o.push_str("a call made in this state (per-state pass) => VIOLATION it does not return\n"),
    }
    o
}

fn trace<M: Model>(m: &M, arena: &[(u32, u16)], mut at: u32, last: u16, msg: &str) -> String {
    let mut path = if last == u16::MAX { vec![] } else { vec![last] };
    while arena[at as usize].0 != u32::MAX {
        path.push(arena[at as usize].1);
        at = arena[at as usize].0;
    }
    path.reverse();
    let mut o = format!("model: {}\npath: {:?}\n", m.name(), path);
    let mut s = m.init();
    for (n, ai) in path.iter().enumerate() {
        let acts = m.actions(&s);
        if *ai as usize >= acts.len() {
            o.push_str("REPLAY DIVERGED\n");
            break;
        }
        let a = &acts[*ai as usize];
        o.push_str(&format!("{:2}. {:?}\n", n + 1, a));
        match m.step(&s, a) {
            Out::Next(n) => {
                let e = m.explain(&n);
                for l in e.lines() {
                    o.push_str(&format!("      -> {l}\n"));
                }
                s = n;
            }
            Out::Prune => o.push_str("      -> (pruned)\n"),
            Out::Bad(b) => o.push_str(&format!("      => VIOLATION {}\n", b.msg)),
        }
    }
    if last == u16::MAX {
        o.push_str(&format!("in this state => VIOLATION {msg}\n"));
    }
    if !o.contains("=> VIOLATION") {
        o.push_str(&format!("(final step did not reproduce during trace rendering: {msg})\n"));
    }
    o
}

/// What one unit of an enumeration reports.
#[derive(Default)]
pub struct Sink {
    pub cases: u64,
    pub outs: HashSet<u64, BuildHasherDefault<IdH>>,
    /// signature -> (unit, first message, count)
    pub bads: std::collections::BTreeMap<String, (usize, String, u64)>,
    unit: usize,
}
impl Sink {
    pub fn ok(&mut self, o: u64) {
        self.cases += 1;
        self.outs.insert(o);
    }
    pub fn bad(&mut self, b: Bad) {
        self.cases += 1;
        let u = self.unit;
        self.bads.entry(b.sig).or_insert((u, b.msg, 0)).2 += 1;
    }
    pub fn put(&mut self, r: Result<u64, Bad>) {
        match r {
            Ok(o) => self.ok(o),
            Err(b) => self.bad(b),
        }
    }
}

/// Breadth-first exploration of a small model on this thread alone: every level is completed;
/// no further level is begun once `states` states are known, nor (from `min_depth` on).  Stops
/// at the first violation.
pub fn small<M: Model>(m: &M, states: usize, min_depth: usize, sink: &mut Sink) {
    let s0 = m.init();
    let mut seen: Seen = Seen::default();
    seen.insert(m.key(&s0));
    let mut arena: Vec<(u32, u16)> = vec![(u32::MAX, 0)];
    let mut frontier = vec![(0u32, s0)];
    let mut depth = 0;
    while !frontier.is_empty() && (depth < min_depth || seen.len() <= states) {
        let mut next = vec![];
        for (at, s) in &frontier {
            for (ai, a) in m.actions(s).iter().enumerate() {
                match m.step(s, a) {
                    Out::Next(n) => {
                        sink.ok(m.outcome(&n));
                        if seen.insert(m.key(&n)) {
                            arena.push((*at, ai as u16));
                            next.push(((arena.len() - 1) as u32, n));
                        }
                    }
                    Out::Prune => {}
                    Out::Bad(b) => {
                        let t = trace(m, &arena, *at, ai as u16, &b.msg);
                        sink.bad(Bad::new(b.sig, format!("{}\n{t}", b.msg)));
                        return;
                    }
                }
            }
        }
        frontier = next;
        depth += 1;
    }
}

/// Exhaustively run `f` on 0..n in parallel.  `f` returns Err(Bad) for a violation; Ok(outcome)
/// otherwise.  Reports the lowest-index violation of each signature.
pub fn enumerate<F>(ctx: &mut Ctx, name: &str, n: usize, f: F) -> bool
where
    F: Fn(usize) -> Result<u64, Bad> + Sync,
{
    enumerate_multi(ctx, name, n, |i, s| {
        let r = f(i);
        s.put(r)
    })
}

/// The same with many cases per unit.
pub fn enumerate_multi<F>(ctx: &mut Ctx, name: &str, n: usize, f: F) -> bool
where
    F: Fn(usize, &mut Sink) + Sync,
{
    let t0 = std::time::Instant::now();
    let next = AtomicUsize::new(0);
    let all: Mutex<Sink> = Mutex::new(Sink::default());
    let chunk = (n / 400).clamp(1, 4096);
    let desc = |at: u64| format!("enumeration: {name}\nunit: {at}\na call made for this unit does not return\n");
    described(&desc, || std::thread::scope(|sc| {
        for _ in 0..threads() {
            sc.spawn(|| {
                let mut s = Sink::default();
                loop {
                    let i0 = next.fetch_add(chunk, Ordering::Relaxed);
                    if i0 >= n {
                        break;
                    }
                    for i in i0..(i0 + chunk).min(n) {
                        s.unit = i;
                        working_on(i as u64);
                        f(i, &mut s);
                    }
                }
                let mut g = all.lock().unwrap();
                g.cases += s.cases;
                g.outs.extend(s.outs);
                for (k, v) in s.bads {
                    let e = g.bads.entry(k).or_insert((usize::MAX, String::new(), 0));
                    if v.0 < e.0 {
                        e.0 = v.0;
                        e.1 = v.1;
                    }
                    e.2 += v.2;
                }
            });
        }
    }));
    let all = all.into_inner().unwrap();
    let mut ok = true;
    let mut nb = 0;
    let mut v: Vec<_> = all.bads.into_iter().collect();
    v.sort_by_key(|b| b.1 .0);
    for (sig, (i, m, c)) in v {
        nb += c;
        if ctx.is_known(&sig) {
            ctx.violation(Violation { sig, msg: m, replay: String::new() });
            continue;
        }
        ok = false;
        let replay = format!("enumeration: {name}\nunit: {i}\ncases with this signature: {c}\n{m}");
        let msg = format!("[{name}] {}", m.lines().next().unwrap_or(""));
        ctx.violation(Violation { sig, msg, replay });
    }
    ctx.states += all.cases;
    ctx.transitions += all.cases;
    ctx.validated += all.cases;
    ctx.outcomes += all.outs.len() as u64;
    let line = format!("{name}: cases={} outcomes={} violations={nb} {:.1}s", all.cases, all.outs.len(), t0.elapsed().as_secs_f64());
    eprintln!("  {line}");
    ctx.models.push(line);
    ok
}
