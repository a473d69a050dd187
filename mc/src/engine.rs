//! Replayable choice explorer.
//!
//! A scenario is a function that makes choices through `Ch` and checks one execution of the real
//! code. The explorer enumerates every choice sequence: `pick` choices completely, `dev` choices
//! (departures from the default) completely up to a bound per execution.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Ch {
    prefix: Vec<u32>,
    pos: usize,
    pub trail: Vec<(u32, u32)>,
    budget: u32,
    used: u32,
}

impl Ch {
    pub fn replay(prefix: Vec<u32>, budget: u32) -> Ch {
        Ch { prefix, pos: 0, trail: vec![], budget, used: 0 }
    }
    fn raw(&mut self, n: usize, dev: bool) -> usize {
        assert!(n > 0, "HARNESS: choice with no alternatives");
        let n = if dev && self.used >= self.budget { 1 } else { n };
        let c = if self.pos < self.prefix.len() { self.prefix[self.pos] as usize } else { 0 };
        if c >= n {
            DIVERGED.with(|d| d.set(true));
            panic!("HARNESS: divergence while replaying: choice {c} of {n} at {}", self.pos);
        }
        self.pos += 1;
        self.trail.push((c as u32, n as u32));
        if dev && c > 0 {
            self.used += 1;
        }
        c
    }
    /// One of n alternatives, all of them explored.
    pub fn pick(&mut self, n: usize) -> usize {
        self.raw(n, false)
    }
    /// One of n alternatives; 0 is the default, others count as one deviation.
    pub fn dev(&mut self, n: usize) -> usize {
        self.raw(n, true)
    }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.pick(v.len())]
    }
    pub fn devof<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.dev(v.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn devflag(&mut self) -> bool {
        self.dev(2) == 1
    }
    pub fn deviations(&self) -> u32 {
        self.used
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub key: Option<String>,
    pub msg: String,
}
pub type Res = Result<(), Fail>;
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { key: None, msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { key: None, msg: msg.into() }
    }
}

pub struct Cx {
    pub thorough: bool,
    pub verbose: bool,
    pub notes: Vec<String>,
    pub transitions: u64,
    /// extra executions of the real code inside one choice sequence (inner exhaustive loops)
    pub inner: u64,
    pub findings: Vec<Fail>,
    states: Vec<u64>,
    pub scratch: std::path::PathBuf,
}

impl Cx {
    pub fn new(thorough: bool, verbose: bool, scratch: std::path::PathBuf) -> Cx {
        Cx { thorough, verbose, notes: vec![], transitions: 0, inner: 0, findings: vec![], states: vec![], scratch }
    }
    /// An observed state or outcome of the code under test (hashed; distinct ones are counted).
    pub fn state<H: Hash + ?Sized>(&mut self, h: &H) {
        let mut s = std::hash::DefaultHasher::new();
        h.hash(&mut s);
        self.states.push(s.finish());
    }
    pub fn steps(&mut self, n: usize) {
        self.transitions += n as u64;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.notes.push(f());
        }
    }
    /// A failure with a key: not fatal to the execution when the key is a listed finding.
    pub fn finding(&mut self, key: String, msg: String) {
        self.findings.push(Fail { key: Some(key), msg });
    }
}

pub type ScFn = Box<dyn Fn(&mut Ch, &mut Cx) -> Res + Sync + Send>;
pub struct Scenario {
    pub name: String,
    pub bound: u32,
    pub cap_s: f64,
    pub run: ScFn,
}
pub fn sc(name: &str, bound: u32, run: impl Fn(&mut Ch, &mut Cx) -> Res + Sync + Send + 'static) -> Scenario {
    Scenario { name: name.into(), bound, cap_s: 0.0, run: Box::new(run) }
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static DIVERGED: Cell<bool> = const { Cell::new(false) };
    static LIVELOCK: Cell<bool> = const { Cell::new(false) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = payload(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {m}")));
    }));
}
fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Signalled by sources and sinks when the code under test polls them without end.
pub fn livelock(what: &str) -> ! {
    LIVELOCK.with(|l| l.set(true));
    panic!("LIVELOCK: {what}");
}

/// Run code under test; a panic is an outcome.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or("panic".into())),
    }
}

pub fn run_once(sc: &Scenario, ch: &mut Ch, cx: &mut Cx) -> Res {
    LIVELOCK.with(|l| l.set(false));
    DIVERGED.with(|l| l.set(false));
    let r = guard(|| (sc.run)(ch, cx));
    if DIVERGED.with(|l| l.get()) {
        eprintln!("ENGINE: diverged in {} {:?}", sc.name, ch.trail);
        std::process::exit(2);
    }
    if LIVELOCK.with(|l| l.get()) {
        return Err(Fail { key: None, msg: "the code under test polls its source or sink without end (livelock)".into() });
    }
    match r {
        Ok(r) => r,
        Err(p) => Err(Fail { key: None, msg: format!("unexpected {p}") }),
    }
}

// ---------------------------------------------------------------- exploration

struct Task {
    prefix: Vec<u32>,
    lo: u32,
    hi: u32, // u32::MAX: as many as the arity
}
struct Queue {
    q: VecDeque<Task>,
    idle: usize,
    done: bool,
}
pub struct StateSet {
    shards: Vec<Mutex<HashSet<u64>>>,
    pub n: AtomicU64,
    pub cap: u64,
}
impl StateSet {
    pub fn new(cap: u64) -> Self {
        StateSet { shards: (0..256).map(|_| Mutex::new(HashSet::new())).collect(), n: AtomicU64::new(0), cap }
    }
    fn add(&self, v: &[u64]) {
        for &h in v {
            if self.n.load(SeqCst) >= self.cap {
                return;
            }
            if self.shards[(h >> 56) as usize].lock().unwrap().insert(h) {
                self.n.fetch_add(1, SeqCst);
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub scenario: String,
    pub choices: Vec<u32>,
    pub deviations: u32,
    pub msg: String,
}

pub struct Outcome {
    pub executions: u64,
    pub inner: u64,
    pub transitions: u64,
    pub exhaustive: bool,
    pub wall: f64,
    pub max_depth: usize,
    pub violation: Option<Violation>,
    pub findings: Vec<(String, String)>,
    pub samples: Vec<Vec<u32>>,
}

pub struct Slots {
    file: std::fs::File,
}
pub const SLOT: usize = 16384;
impl Slots {
    pub fn new(file: std::fs::File) -> Self {
        Slots { file }
    }
    fn put(&self, w: usize, scen: &str, pfx: &[u32]) {
        use std::os::unix::fs::FileExt;
        let mut b = Vec::with_capacity(256);
        b.extend_from_slice(scen.as_bytes());
        for p in pfx {
            b.push(b' ');
            b.extend_from_slice(p.to_string().as_bytes());
        }
        b.push(b'\n');
        b.truncate(SLOT);
        let _ = self.file.write_at(&b, (w * SLOT) as u64);
    }
    fn clear(&self, w: usize) {
        use std::os::unix::fs::FileExt;
        let _ = self.file.write_at(b"\n", (w * SLOT) as u64);
    }
}

pub struct Env<'a> {
    pub thorough: bool,
    pub states: &'a StateSet,
    pub slots: Option<&'a Slots>,
    pub workers: usize,
    pub deadline: Instant,
    pub known: &'a HashSet<String>,
    pub scratch: std::path::PathBuf,
    pub hang_s: u64,
    pub on_hang: &'a (dyn Fn(&str, usize) + Sync),
}

pub fn explore(sc: &Scenario, env: &Env) -> Outcome {
    let mut out = None;
    let t0 = Instant::now();
    // iterate the deviation bound, so that the first counterexample has the fewest deviations
    let levels: Vec<u32> = match sc.bound {
        0 => vec![0],
        1 => vec![0, 1],
        b => vec![0, 1, b],
    };
    for b in levels {
        let mut o = explore_level(sc, env, b, t0);
        o.wall = t0.elapsed().as_secs_f64();
        let stop = o.violation.is_some();
        let ended = !o.exhaustive;
        out = Some(o);
        if stop || ended {
            break;
        }
    }
    out.unwrap()
}

fn explore_level(sc: &Scenario, env: &Env, bound: u32, t0: Instant) -> Outcome {
    let queue = Mutex::new(Queue { q: VecDeque::from([Task { prefix: vec![], lo: 0, hi: u32::MAX }]), idle: 0, done: false });
    let cv = Condvar::new();
    let idle_hint = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let execs = AtomicU64::new(0);
    let inner = AtomicU64::new(0);
    let trans = AtomicU64::new(0);
    let maxd = AtomicUsize::new(0);
    let viol: Mutex<Option<Violation>> = Mutex::new(None);
    let finds: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
    let samples: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![]);
    let starts: Vec<AtomicU64> = (0..env.workers).map(|_| AtomicU64::new(0)).collect();
    let epoch = Instant::now();
    let finished = AtomicBool::new(false);
    let nw = env.workers;
    let scen_deadline = if sc.cap_s > 0.0 { t0 + Duration::from_secs_f64(sc.cap_s) } else { env.deadline };
    let deadline = scen_deadline.min(env.deadline);

    std::thread::scope(|s| {
        // watchdog
        s.spawn(|| {
            while !finished.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                let now = epoch.elapsed().as_millis() as u64;
                for (w, st) in starts.iter().enumerate() {
                    let t = st.load(SeqCst);
                    if t != 0 && now.saturating_sub(t) > env.hang_s * 1000 {
                        (env.on_hang)(&sc.name, w);
                    }
                }
            }
        });
        let mut hs = vec![];
        for w in 0..nw {
            let (queue, cv, idle_hint, stop, capped, execs, inner, trans, maxd, viol, finds, samples, starts) =
                (&queue, &cv, &idle_hint, &stop, &capped, &execs, &inner, &trans, &maxd, &viol, &finds, &samples, &starts);
            let h = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, move || {
                let scratch = env.scratch.join(format!("w{w}"));
                let mut cx = Cx::new(env.thorough, false, scratch);
                loop {
                    let task = {
                        let mut g = queue.lock().unwrap();
                        loop {
                            if g.done || stop.load(SeqCst) {
                                g.done = true;
                                cv.notify_all();
                                return;
                            }
                            if let Some(t) = g.q.pop_front() {
                                break t;
                            }
                            g.idle += 1;
                            idle_hint.store(g.idle, SeqCst);
                            if g.idle == nw {
                                g.done = true;
                                cv.notify_all();
                                return;
                            }
                            g = cv.wait(g).unwrap();
                            g.idle -= 1;
                            idle_hint.store(g.idle, SeqCst);
                        }
                    };
                    // depth first below task
                    let base = task.prefix.len();
                    let mut cur = task.prefix.clone();
                    cur.push(task.lo);
                    let mut his: Vec<u32> = task.prefix.iter().map(|c| c + 1).collect();
                    his.push(task.hi);
                    loop {
                        if stop.load(SeqCst) {
                            break;
                        }
                        if Instant::now() > deadline {
                            capped.store(true, SeqCst);
                            stop.store(true, SeqCst);
                            break;
                        }
                        // a scenario may make no choice at all
                        let pfx = if cur.len() == 1 && base == 0 && cur[0] == 0 { vec![] } else { cur.clone() };
                        if let Some(sl) = env.slots {
                            sl.put(w, &sc.name, &pfx);
                        }
                        starts[w].store(epoch.elapsed().as_millis() as u64 + 1, SeqCst);
                        let mut ch = Ch::replay(pfx, bound);
                        let r = run_once(sc, &mut ch, &mut cx);
                        starts[w].store(0, SeqCst);
                        let ne = execs.fetch_add(1, SeqCst);
                        maxd.fetch_max(ch.trail.len(), SeqCst);
                        if !cx.states.is_empty() {
                            env.states.add(&cx.states);
                            cx.states.clear();
                        }
                        trans.fetch_add(std::mem::take(&mut cx.transitions), SeqCst);
                        inner.fetch_add(std::mem::take(&mut cx.inner), SeqCst);
                        let choices: Vec<u32> = ch.trail.iter().map(|t| t.0).collect();
                        if ne == 0 || ne == 97 || ne == 1009 || ne == 20011 {
                            samples.lock().unwrap().push(choices.clone());
                        }
                        let mut fails: Vec<Fail> = std::mem::take(&mut cx.findings);
                        if let Err(f) = r {
                            fails.push(f);
                        }
                        for f in fails {
                            if let Some(k) = &f.key {
                                if env.known.contains(k) {
                                    let mut g = finds.lock().unwrap();
                                    if !g.iter().any(|x| &x.0 == k) {
                                        g.push((k.clone(), f.msg.clone()));
                                    }
                                    continue;
                                }
                            }
                            let msg = match &f.key {
                                Some(k) => format!("[{k}] {}", f.msg),
                                None => f.msg.clone(),
                            };
                            let v = Violation { scenario: sc.name.clone(), choices: choices.clone(), deviations: ch.used, msg };
                            let mut g = viol.lock().unwrap();
                            let better = match &*g {
                                None => true,
                                Some(o) => (v.deviations, v.choices.len(), &v.choices) < (o.deviations, o.choices.len(), &o.choices),
                            };
                            if better {
                                *g = Some(v);
                            }
                            stop.store(true, SeqCst);
                        }
                        // next
                        if ch.trail.is_empty() {
                            break;
                        }
                        while his.len() < ch.trail.len() {
                            his.push(u32::MAX);
                        }
                        his.truncate(ch.trail.len());
                        let mut i = ch.trail.len();
                        let mut found = false;
                        while i > base {
                            i -= 1;
                            let (c, n) = ch.trail[i];
                            let hi = his[i].min(n);
                            if c + 1 < hi {
                                his[i] = hi;
                                his.truncate(i + 1);
                                cur = choices[..=i].to_vec();
                                cur[i] = c + 1;
                                found = true;
                                break;
                            }
                        }
                        if !found {
                            break;
                        }
                        // give work away when somebody idles
                        if idle_hint.load(SeqCst) > 0 {
                            let mut donated = vec![];
                            for i in base..cur.len() {
                                let hi = if i + 1 == cur.len() { his[i] } else { his[i].min(ch.trail[i].1) };
                                let c = cur[i];
                                if c + 1 < hi {
                                    let mid = c + 1 + (hi - c - 1) / 2;
                                    donated.push(Task { prefix: cur[..i].to_vec(), lo: mid, hi });
                                    his[i] = mid;
                                    if donated.len() >= 2 {
                                        break;
                                    }
                                } else {
                                    his[i] = hi;
                                }
                            }
                            if !donated.is_empty() {
                                let mut g = queue.lock().unwrap();
                                g.q.extend(donated);
                                cv.notify_all();
                            }
                        }
                    }
                    if let Some(sl) = env.slots {
                        sl.clear(w);
                    }
                }
            });
            hs.push(h.unwrap());
        }
        for h in hs {
            h.join().unwrap();
        }
        finished.store(true, SeqCst);
    });
    Outcome {
        executions: execs.load(SeqCst),
        inner: inner.load(SeqCst),
        transitions: trans.load(SeqCst),
        exhaustive: !capped.load(SeqCst) && !stop.load(SeqCst),
        wall: 0.0,
        max_depth: maxd.load(SeqCst),
        violation: viol.into_inner().unwrap(),
        findings: finds.into_inner().unwrap(),
        samples: samples.into_inner().unwrap(),
    }
}
