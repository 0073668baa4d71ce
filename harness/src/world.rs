//! Executes operations on real sketches and records what a user sees of them.
//!
//! One scenario is one line of the trace file.  An operation that panics ends
//! its scenario with a "panic" event; one that does not end is recorded by a
//! watchdog as a "hang" event.  Both are events no action of the specification
//! explains.
use crate::hashers::*;
use crate::sk::*;
use std::collections::{BTreeSet, HashMap};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc as Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering, Ordering::SeqCst};
use std::sync::Mutex;
#[cfg(not(target_arch = "wasm32"))]
use std::time::{SystemTime, UNIX_EPOCH};

/// Counts the bytes each thread has allocated and not freed.
pub struct Counting;
thread_local! {
    static HELD: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
fn held() -> i64 {
    HELD.try_with(|c| c.get()).unwrap_or(0)
}
fn hold(n: i64) {
    let _ = HELD.try_with(|c| c.set(c.get() + n));
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        hold(l.size() as i64);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        hold(-(l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        hold(l.size() as i64);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        hold(n as i64 - l.size() as i64);
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;

/// A hash, or a set of hashes the specification treats as a unit.
#[derive(Clone)]
pub enum Atom {
    H(u64),
    /// see HLLRuns.tla; the last field tells the sketch kind it is meant for
    R { s: u64, d: u64, n: u64, r: u32, kind: Kind, p: u8 },
    /// opaque: only its identity matters to the specification
    X(String, Rc<Vec<u64>>),
}

fn mix(a: u64) -> u64 {
    let mut z = a.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// `width` bits that start with r-1 zeros and a one (all zero if r > width),
/// with arbitrary bits behind.
pub fn rank_bits(r: u32, width: u32, salt: u64) -> u64 {
    if r > width {
        return 0;
    }
    let one = 1u64 << (width - r);
    one | (mix(salt) & (one - 1))
}

/// A hash with the given bucket and rank (1..=65-p) for HyperLogLog++.
pub fn plus_hash(p: u8, bucket: u64, rank: u32, salt: u64) -> u64 {
    (bucket << (64 - p)) | rank_bits(rank, 64 - p as u32, salt)
}

/// A hash with the given 25-bit prefix and rank (1..=40) of the rest.
pub fn prefix_hash(prefix: u64, r: u32, salt: u64) -> u64 {
    (prefix << 39) | rank_bits(r, 39, salt)
}

/// A hash with the given bucket and rank (1..=33-p) for HyperLogLog.
pub fn pf_hash(p: u8, bucket: u64, rank: u32, salt: u64) -> u64 {
    (mix(salt ^ 0xabcdef) << 32) | (bucket << (32 - p)) | rank_bits(rank, 32 - p as u32, salt)
}

impl Atom {
    pub fn run(kind: Kind, p: u8, s: u64, d: u64, n: u64, r: u32) -> Atom {
        Atom::R { s, d, n, r, kind, p }
    }
    pub fn hashes(&self) -> Rc<Vec<u64>> {
        match self {
            Atom::H(h) => Rc::new(vec![*h]),
            Atom::X(_, v) => v.clone(),
            Atom::R { s, d, n, r, kind, p } => {
                let salt = mix(s ^ (d << 30) ^ (u64::from(*r) << 56));
                Rc::new(
                    (0..*n)
                        .map(|i| match kind {
                            Kind::Plus => prefix_hash(s + i * d, *r, salt ^ i),
                            Kind::PF => pf_hash(*p, s + i * d, *r, salt ^ i),
                        })
                        .collect(),
                )
            }
        }
    }
    fn json(&self) -> String {
        match self {
            Atom::H(h) => format!(
                r#"{{"t":"h","w":[{},{},{},{}]}}"#,
                h >> 48,
                (h >> 32) & 0xffff,
                (h >> 16) & 0xffff,
                h & 0xffff
            ),
            Atom::X(name, v) => format!(r#"{{"t":"x","id":"{}","n":{}}}"#, name, v.len()),
            Atom::R { s, d, n, r, .. } => {
                format!(r#"{{"t":"r","s":{},"d":{},"n":{},"r":{}}}"#, s, d, n, r)
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Order {
    Asc,
    Desc,
    Shuffled,
    Twice,
}

struct Current {
    out: Option<Box<dyn Write + Send>>,
    id: String,
    atoms: Vec<String>,
    ev: Vec<String>,
}

static CUR: Mutex<Current> =
    Mutex::new(Current { out: None, id: String::new(), atoms: Vec::new(), ev: Vec::new() });
static STARTED: AtomicU64 = AtomicU64::new(0); // ms of the running operation, 0: none
static LIMIT_MS: AtomicU64 = AtomicU64::new(60_000);

#[cfg(target_arch = "wasm32")]
fn now_ms() -> u64 {
    1
}
#[cfg(not(target_arch = "wasm32"))]
fn now_ms() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
}

impl Current {
    fn flush(&mut self) {
        let line = format!(
            r#"{{"id":"{}","atoms":[{}],"ev":[{}]}}"#,
            self.id,
            self.atoms.join(","),
            self.ev.join(",")
        );
        if let Some(out) = self.out.as_mut() {
            writeln!(out, "{}", line).unwrap();
        }
        self.atoms.clear();
        self.ev.clear();
    }
}

static SHARD: AtomicU64 = AtomicU64::new(0);
static SHARDS: AtomicU64 = AtomicU64::new(1);

pub fn set_shard(spec: &str) {
    let v: Vec<u64> = spec.split('/').map(|x| x.parse().unwrap()).collect();
    SHARD.store(v[0], Ordering::SeqCst);
    SHARDS.store(v[1], Ordering::SeqCst);
}

/// Whether scenario i of precision p is this process's job.
pub fn mine(p: u8, i: u64) -> bool {
    (u64::from(p) + i) % SHARDS.load(Ordering::SeqCst) == SHARD.load(Ordering::SeqCst)
}

/// Where there is neither a file system nor unwinding: traces go to `OUT`; a
/// panic inside an operation is recorded before the program stops.
#[cfg(target_arch = "wasm32")]
pub static OUT: Mutex<Vec<u8>> = Mutex::new(Vec::new());

#[cfg(target_arch = "wasm32")]
pub fn open(_: &str) {
    struct Mem;
    impl Write for Mem {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            OUT.lock().unwrap().extend_from_slice(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    CUR.lock().unwrap().out = Some(Box::new(Mem));
    std::panic::set_hook(Box::new(|info| {
        if STARTED.load(Ordering::SeqCst) != 0 {
            let msg: String = info
                .to_string()
                .chars()
                .filter(|c| *c != '"' && *c != '\\' && !c.is_control())
                .collect();
            let mut c = CUR.lock().unwrap();
            c.ev.push(format!(r#"{{"op":"panic","what":"","msg":"{}"}}"#, msg));
            c.flush();
        } else {
            OUT.lock().unwrap().extend_from_slice(format!("HARNESS {}", info).as_bytes());
        }
    }));
}

#[cfg(not(target_arch = "wasm32"))]
pub fn open(path: &str) {
    let f = std::fs::File::create(path).expect("trace file");
    CUR.lock().unwrap().out = Some(Box::new(std::io::BufWriter::new(f)));
    std::panic::set_hook(Box::new(|_| {}));
    // An operation hangs when it has used that much processor time, or has
    // been seen too often; a machine that stands still does not count.
    let (mut last, mut cpu, mut ticks) = (0, 0, 0);
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let s = STARTED.load(Ordering::SeqCst);
        if s != last {
            (last, cpu, ticks) = (s, cpu_ms(), 0);
        }
        ticks += 1;
        let limit = LIMIT_MS.load(Ordering::SeqCst);
        if s != 0 && (cpu_ms() > cpu + limit || ticks * 500 > 300_000) {
            let mut c = CUR.lock().unwrap();
            c.ev.push(r#"{"op":"hang"}"#.to_string());
            c.flush();
            if let Some(o) = c.out.as_mut() {
                o.flush().unwrap();
            }
            std::process::exit(0);
        }
    });
}

#[cfg(not(target_arch = "wasm32"))]
fn cpu_ms() -> u64 {
    extern "C" {
        fn clock() -> i64;
    }
    // in microseconds on every POSIX system
    unsafe { clock() as u64 / 1000 }
}

/// A line with events made elsewhere.
pub fn raw_line(id: &str, events: &[String]) {
    let mut c = CUR.lock().unwrap();
    c.id = id.to_string();
    c.ev.extend(events.iter().cloned());
    c.flush();
}

pub fn close() {
    let mut c = CUR.lock().unwrap();
    if let Some(o) = c.out.as_mut() {
        o.flush().unwrap();
    }
    c.out = None;
}

/// What one thread does; numbers are its own sketches.
#[cfg(feature = "threads")]
#[derive(Clone)]
pub enum Cmd {
    New(usize),
    Ins(usize, Atom, u64),
    Cnt(usize),
    MrgShared(usize, u32),
    MrgOwn(usize, usize),
    CloneShared(u32, usize),
    ReloadShared(u32, usize, u8),
    /// The same commands again and again, on sketches that they make
    /// themselves or only estimate.
    Rounds(u64, Vec<Cmd>),
}

/// A scenario under execution.
pub struct Sc {
    index: HashMap<String, usize>,
    atoms: Vec<Atom>,
    sk: HashMap<u32, Sk>,
    meta: HashMap<u32, (Kind, u8)>,
    pub seen: HashMap<u32, BTreeSet<usize>>,
    /// Heap bytes a sketch has taken, over all operations that change it.
    mem: HashMap<u32, i64>,
    delta: i64,
    next: u32,
    pub dead: bool,
    pub rng: Rng,
}

fn ev(s: String) {
    CUR.lock().unwrap().ev.push(s);
}

impl Sc {
    pub fn new(id: &str, seed: u64) -> Sc {
        CUR.lock().unwrap().id = id.to_string();
        Sc {
            index: HashMap::new(),
            atoms: Vec::new(),
            sk: HashMap::new(),
            meta: HashMap::new(),
            seen: HashMap::new(),
            mem: HashMap::new(),
            delta: 0,
            next: 1,
            dead: false,
            rng: Rng::new(seed),
        }
    }

    pub fn end(self) {
        CUR.lock().unwrap().flush();
    }

    fn act<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        STARTED.store(now_ms(), Ordering::SeqCst);
        let before = held();
        let r = catch_unwind(AssertUnwindSafe(f));
        self.delta = held() - before;
        STARTED.store(0, Ordering::SeqCst);
        match r {
            Ok(v) => Some(v),
            Err(e) => {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                let msg: String =
                    msg.chars().filter(|c| *c != '"' && *c != '\\' && !c.is_control()).collect();
                ev(format!(r#"{{"op":"panic","what":"{}","msg":"{}"}}"#, what, msg));
                self.dead = true;
                None
            }
        }
    }

    fn atom(&mut self, a: &Atom) -> usize {
        let j = a.json();
        if let Some(i) = self.index.get(&j) {
            return *i;
        }
        self.atoms.push(a.clone());
        let i = self.atoms.len();
        self.index.insert(j.clone(), i);
        CUR.lock().unwrap().atoms.push(j);
        i
    }

    fn fresh(&mut self) -> u32 {
        self.next += 1;
        self.next - 1
    }

    /// A new sketch; None when it was refused.
    pub fn make(&mut self, kind: Kind, ty: Ty, p: u8) -> Option<u32> {
        let key = if self.rng.chance(50) { self.rng.next() } else { 0 };
        self.make_keyed(kind, ty, p, key)
    }

    pub fn make_keyed(&mut self, kind: Kind, ty: Ty, p: u8, key: u64) -> Option<u32> {
        if self.dead {
            return None;
        }
        let k = self.fresh();
        let r = self.act("new", || Sk::new(kind, ty, p, key))?;
        let name = if kind == Kind::Plus { "plus" } else { "pf" };
        let res = match &r {
            Ok(_) => "ok",
            Err(e) => e.as_str(),
        };
        ev(format!(r#"{{"op":"new","k":{},"kind":"{}","p":{},"r":"{}"}}"#, k, name, p, res));
        match r {
            Ok(s) => {
                self.sk.insert(k, s);
                self.mem.insert(k, self.delta);
                self.meta.insert(k, (kind, p));
                self.seen.insert(k, BTreeSet::new());
                Some(k)
            }
            Err(_) => None,
        }
    }

    /// A sketch that must exist (0 when the scenario has ended).
    pub fn mk(&mut self, kind: Kind, p: u8) -> u32 {
        let ty = *self.rng.pick(&[Ty::U64, Ty::U64, Ty::Bytes, Ty::Str, Ty::Slice]);
        self.make(kind, ty, p).unwrap_or(0)
    }
    pub fn mk_u(&mut self, kind: Kind, p: u8) -> u32 {
        self.make(kind, Ty::U64, p).unwrap_or(0)
    }

    pub fn ins(&mut self, k: u32, atoms: &[Atom], order: Order) {
        self.ins_api(k, atoms, order, Api::Insert)
    }

    pub fn ins_api(&mut self, k: u32, atoms: &[Atom], order: Order, api: Api) {
        if self.dead || !self.sk.contains_key(&k) {
            return;
        }
        let ids: Vec<usize> = atoms.iter().map(|a| self.atom(a)).collect();
        let lists: Vec<Rc<Vec<u64>>> = atoms.iter().map(|a| a.hashes()).collect();
        let mut rng = self.rng.clone();
        self.rng.next();
        let mut s = self.sk.remove(&k).unwrap();
        let r = self.act("insert", || {
            match order {
                Order::Asc => {
                    for l in &lists {
                        for h in l.iter() {
                            s.insert(*h, api);
                        }
                    }
                }
                _ => {
                    let mut v: Vec<u64> = lists.iter().flat_map(|l| l.iter().copied()).collect();
                    match order {
                        Order::Desc => v.reverse(),
                        Order::Twice => {
                            let w = v.clone();
                            v.extend(w);
                            rng.shuffle(&mut v);
                        }
                        _ => rng.shuffle(&mut v),
                    }
                    for h in v {
                        s.insert(h, api);
                    }
                }
            }
            s
        });
        if let Some(s) = r {
            self.sk.insert(k, s);
            *self.mem.entry(k).or_insert(0) += self.delta;
            let x: Vec<String> = ids.iter().map(|i| i.to_string()).collect();
            ev(format!(r#"{{"op":"ins","k":{},"x":[{}]}}"#, k, x.join(",")));
            self.seen.get_mut(&k).unwrap().extend(ids);
        }
    }

    pub fn h(&mut self, k: u32, h: u64) {
        self.ins(k, &[Atom::H(h)], Order::Asc)
    }

    /// Exactly so many insertions: of the known atoms over and over, and of
    /// the new ones once, before or after.
    pub fn ins_calls(&mut self, k: u32, known: &[Atom], new: &[Atom], calls: u64, first: bool) {
        if self.dead || !self.sk.contains_key(&k) {
            return;
        }
        let all: Vec<Atom> = known.iter().chain(new).cloned().collect();
        let ids: Vec<usize> = all.iter().map(|a| self.atom(a)).collect();
        let flat = |x: &[Atom]| -> Vec<u64> { x.iter().flat_map(|a| a.hashes().to_vec()).collect() };
        let (old, new) = (flat(known), flat(new));
        let rest = calls.saturating_sub(new.len() as u64);
        assert!(rest == 0 && known.is_empty() || rest >= old.len() as u64 && !old.is_empty());
        let mut s = self.sk.remove(&k).unwrap();
        let mut held = 0;
        // a piece at a time, for the watchdog
        let (mut done, mut before) = (0u64, !first);
        loop {
            let n = (rest - done).min(1 << 24);
            let (last, turn) = (done + n == rest, before);
            let r = self.act("insert", || {
                if !turn {
                    for h in &new {
                        s.insert(*h, Api::Insert);
                    }
                }
                let mut j = (done % old.len().max(1) as u64) as usize;
                for _ in 0..n {
                    s.insert(old[j], Api::Insert);
                    j += 1;
                    if j == old.len() {
                        j = 0;
                    }
                }
                if last && !first {
                    for h in &new {
                        s.insert(*h, Api::Insert);
                    }
                }
                s
            });
            match r {
                Some(x) => s = x,
                None => return,
            }
            before = true;
            held += self.delta;
            done += n;
            if last {
                break;
            }
        }
        self.sk.insert(k, s);
        *self.mem.entry(k).or_insert(0) += held;
        let x: Vec<String> = ids.iter().map(|i| i.to_string()).collect();
        ev(format!(r#"{{"op":"ins","k":{},"x":[{}]}}"#, k, x.join(",")));
        self.seen.get_mut(&k).unwrap().extend(ids);
    }

    /// n times: an operation that changes nothing, then an estimate.
    /// Recorded are the first, the last, and those unlike the one before.
    pub fn cnt_times(&mut self, k: u32, n: u64, again: Option<u64>) {
        if self.dead || !self.sk.contains_key(&k) {
            return;
        }
        let mut s = self.sk.remove(&k).unwrap();
        let mut told: Vec<f64> = Vec::with_capacity(16);
        let r = self.act("count", || {
            let mut was = None;
            for i in 0..n {
                if let Some(h) = again {
                    s.insert(h, Api::Insert);
                }
                let e = s.count();
                if was != Some(e.to_bits()) && told.len() < 8 || i + 1 == n {
                    told.push(e);
                }
                was = Some(e.to_bits());
            }
            (s, told)
        });
        if let Some((s, told)) = r {
            self.sk.insert(k, s);
            *self.mem.entry(k).or_insert(0) += self.delta;
            for e in told {
                let b = e.to_bits();
                ev(format!(r#"{{"op":"cnt","k":{},"e":[{},{}],"dec":"{:e}"}}"#, k, (b >> 32) as u32 as i32, b as u32 as i32, e));
            }
        }
    }

    /// n merges of b into a, with b's own copy each time when `copies`.
    pub fn mrg_times(&mut self, a: u32, b: u32, n: u64) {
        if self.dead || !self.sk.contains_key(&a) || !self.sk.contains_key(&b) || n == 0 {
            return;
        }
        let mut s = self.sk.remove(&a).unwrap();
        let o = self.sk.remove(&b).unwrap();
        let r = self.act("merge", || {
            for _ in 1..n {
                if let Err(e) = s.merge(&o) {
                    return (s, o, Some(e));
                }
            }
            (s, o, None)
        });
        if let Some((s, o, e)) = r {
            self.sk.insert(a, s);
            self.sk.insert(b, o);
            *self.mem.entry(a).or_insert(0) += self.delta;
            match e {
                Some(e) => ev(format!(r#"{{"op":"mrg","a":{},"b":{},"r":"{}"}}"#, a, b, e)),
                None => {
                    self.mrg(a, b);
                }
            }
        }
    }

    /// A copy of a copy of a copy ...: n of them, cloned or reloaded.
    pub fn chain(&mut self, a: u32, n: u64, fmt: Option<u8>) -> u32 {
        let mut b = a;
        for i in 0..n {
            let c = match fmt {
                None => self.cln(b),
                Some(f) => self.reload(b, f),
            };
            if i > 0 {
                // only the ends are recorded
                let keep = {
                    let mut cur = CUR.lock().unwrap();
                    let ok = c != 0 && cur.ev.len() >= 2;
                    if ok {
                        cur.ev.pop();
                        cur.ev.pop();
                    }
                    ok
                };
                if !keep {
                    return c;
                }
                ev(format!(r#"{{"op":"cpy","a":{},"b":{},"r":"ok","via":"chain"}}"#, a, c));
                self.sk.remove(&b);
                self.seen.remove(&b);
                self.meta.remove(&b);
            }
            b = c;
        }
        b
    }

    /// Inserts a value of any type; what matters is the hash it gets.
    pub fn any<T: std::hash::Hash + ?Sized>(&mut self, k: u32, v: &T) {
        if self.dead || !self.sk.contains_key(&k) {
            return;
        }
        let h = self.sk[&k].hash_of(v);
        let id = self.atom(&Atom::H(h));
        let mut s = self.sk.remove(&k).unwrap();
        if let Some(s) = self.act("insert_any", || {
            s.any(v);
            s
        }) {
            self.sk.insert(k, s);
            *self.mem.entry(k).or_insert(0) += self.delta;
            ev(format!(r#"{{"op":"ins","k":{},"x":[{}]}}"#, k, id));
            self.seen.get_mut(&k).unwrap().insert(id);
        }
    }

    pub fn cnt(&mut self, k: u32) -> f64 {
        if self.dead || !self.sk.contains_key(&k) {
            return 0.0;
        }
        let mut s = self.sk.remove(&k).unwrap();
        match self.act("count", || {
            let e = s.count();
            (s, e)
        }) {
            Some((s, e)) => {
                self.sk.insert(k, s);
                *self.mem.entry(k).or_insert(0) += self.delta;
                let b = e.to_bits();
                ev(format!(
                    r#"{{"op":"cnt","k":{},"e":[{},{}],"dec":"{:e}"}}"#,
                    k,
                    (b >> 32) as u32 as i32,
                    b as u32 as i32,
                    e
                ));
                e
            }
            None => 0.0,
        }
    }

    pub fn mrg(&mut self, a: u32, b: u32) -> bool {
        if self.dead || !self.sk.contains_key(&a) || !self.sk.contains_key(&b) || a == b {
            return false;
        }
        let mut s = self.sk.remove(&a).unwrap();
        let o = self.sk.remove(&b).unwrap();
        match self.act("merge", || {
            let r = s.merge(&o);
            (s, o, r)
        }) {
            Some((s, o, r)) => {
                self.sk.insert(a, s);
                self.sk.insert(b, o);
                let err = if let Err(e) = &r { e.capacity() as i64 } else { 0 };
                *self.mem.entry(a).or_insert(0) += self.delta - err;
                let res = match &r {
                    Ok(_) => "ok",
                    Err(e) => e.as_str(),
                };
                ev(format!(r#"{{"op":"mrg","a":{},"b":{},"r":"{}"}}"#, a, b, res));
                if r.is_ok() {
                    let add = self.seen[&b].clone();
                    self.seen.get_mut(&a).unwrap().extend(add);
                }
                r.is_ok()
            }
            None => false,
        }
    }

    pub fn cln(&mut self, a: u32) -> u32 {
        if self.dead || !self.sk.contains_key(&a) {
            return 0;
        }
        let o = self.sk.remove(&a).unwrap();
        match self.act("clone", || {
            let c = o.clone();
            (o, c)
        }) {
            Some((o, c)) => {
                let b = self.fresh();
                self.put_copy(a, b, o, c, "clone");
                b
            }
            None => 0,
        }
    }

    /// Overwrites the existing sketch b (of any precision) with a copy of a.
    pub fn assign(&mut self, a: u32, b: u32) {
        if self.dead || a == b || !self.sk.contains_key(&a) || !self.sk.contains_key(&b) {
            return;
        }
        let o = self.sk.remove(&a).unwrap();
        let mut c = self.sk.remove(&b).unwrap();
        if let Some((o, c)) = self.act("clone_from", || {
            c.assign(&o);
            (o, c)
        }) {
            self.put_copy(a, b, o, c, "clone_from");
        }
    }

    fn put_copy(&mut self, a: u32, b: u32, o: Sk, c: Sk, via: &str) {
        self.sk.insert(a, o);
        self.sk.insert(b, c);
        // a copy onto an existing sketch replaces what that one held
        *self.mem.entry(b).or_insert(0) += self.delta;
        let m = self.meta[&a];
        self.meta.insert(b, m);
        let s = self.seen[&a].clone();
        self.seen.insert(b, s);
        ev(format!(r#"{{"op":"cpy","a":{},"b":{},"r":"ok","via":"{}"}}"#, a, b, via));
    }

    /// Saves and reloads; 0 when that was refused.
    pub fn reload(&mut self, a: u32, fmt: u8) -> u32 {
        if self.dead || !self.sk.contains_key(&a) {
            return 0;
        }
        let o = self.sk.remove(&a).unwrap();
        match self.act("reload", || {
            let c = o.reload(fmt);
            (o, c)
        }) {
            Some((o, Ok(c))) => {
                let b = self.fresh();
                self.put_copy(a, b, o, c, ["json", "bincode", "value", "pretty", "json-reader", "bincode-reader", "bincode-var"][fmt as usize]);
                b
            }
            Some((o, Err(e))) => {
                self.sk.insert(a, o);
                let e: String = e.chars().filter(|c| *c != '"' && *c != '\\').collect();
                ev(format!(r#"{{"op":"cpy","a":{},"b":0,"r":"{}"}}"#, a, e));
                0
            }
            None => 0,
        }
    }

    /// Saves a sketch for another build to reload.
    pub fn save(&mut self, k: u32, fmt: u8, j: usize) {
        if self.dead || !self.sk.contains_key(&k) {
            return;
        }
        let o = self.sk.remove(&k).unwrap();
        if let Some((o, d)) = self.act("save", || {
            let d = o.save(fmt);
            (o, d)
        }) {
            self.sk.insert(k, o);
            let hex: String = d.iter().map(|b| format!("{:02x}", b)).collect();
            ev(format!(r#"{{"op":"save","k":{},"j":{},"fmt":{},"data":"{}"}}"#, k, j, fmt, hex));
        }
    }

    /// Reloads what another build has saved of its sketch `a`.
    pub fn load(&mut self, kind: Kind, ty: Ty, p: u8, key: u64, a: i64, fmt: u8, data: &[u8]) -> u32 {
        if self.dead {
            return 0;
        }
        match self.act("load", || Sk::load(kind, ty, key, fmt, data)) {
            Some(Ok(c)) => {
                let b = self.fresh();
                self.sk.insert(b, c);
                self.mem.insert(b, self.delta);
                self.meta.insert(b, (kind, p));
                self.seen.insert(b, BTreeSet::new());
                ev(format!(r#"{{"op":"cpy","a":{},"b":{},"r":"ok","via":"load"}}"#, a, b));
                b
            }
            Some(Err(e)) => {
                let e: String = e.chars().filter(|c| *c != '"' && *c != '\\').collect();
                ev(format!(r#"{{"op":"cpy","a":{},"b":0,"r":"{}"}}"#, a, e));
                0
            }
            None => 0,
        }
    }

    pub fn number_from(&mut self, n: u32) {
        self.next = n;
    }

    /// An operation on `k` that something outside the library makes fail.
    pub fn fail(&mut self, k: u32, what: u64) {
        if self.dead || !self.sk.contains_key(&k) {
            return;
        }
        let h = self.rng.next();
        let r = self.rng.next();
        let mut s = self.sk.remove(&k).unwrap();
        let api = [Api::Insert, Api::Add, Api::Any, Api::AnyOther, Api::Borrowed][(r % 5) as usize];
        let fmt = [0u8, 1, 6][(r / 5 % 3) as usize];
        let keyed = s.ty() != Ty::Str && (s.ty() != Ty::Slice || what % 10 < 8);
        let name = [
            "hasher not built", "hasher refuses a write", "hasher has no result", "element panics at once",
            "element panics late", "writer full", "hasher not saved", "cut data", "hasher not cloned",
            "hasher not cloned onto",
        ][(what % 10) as usize];
        STARTED.store(now_ms(), Ordering::SeqCst);
        // something else of the same type, in any form, to be copied over it
        let from = if what % 10 == 9 && keyed && !self.sk.is_empty() {
            let (kind, p) = self.meta[&k];
            let p = if r & 1024 == 0 { p } else { 4 + (r >> 20) as u8 % 9 };
            let n = [0, 1, 20, 3 << p][(r >> 12) as usize % 4];
            Sk::new(kind, s.ty(), p, r >> 30).ok().map(|mut o| {
                for j in 0..(n as u64).min(20_000) {
                    o.insert((r ^ j).wrapping_mul(0x9e37_79b9_7f4a_7c15), Api::Insert);
                }
                if r & 2048 == 0 {
                    o.count();
                }
                o
            })
        } else {
            None
        };
        // true: failed as it had to
        let got = catch_unwind(AssertUnwindSafe(|| {
            match what % 10 {
                0 => set_fault(Fault::Build),
                1 => set_fault(Fault::Write),
                2 => set_fault(Fault::Finish),
                6 if keyed => set_fault(Fault::Save),
                8 | 9 if keyed => set_fault(Fault::Clone),
                _ => {}
            }
            match what % 10 {
                0..=2 => {
                    s.insert(h, api);
                    false
                }
                3 => {
                    s.any(&Bomb(0));
                    false
                }
                4 => {
                    s.any(&Bomb(1 + r % 3));
                    false
                }
                6 if keyed => s.save_refused([0u8, 1, 2][(r / 5 % 3) as usize]),
                8 if keyed => {
                    let c = s.clone();
                    drop(c);
                    false
                }
                9 if from.is_some() => {
                    s.assign(from.as_ref().unwrap());
                    false
                }
                5 => {
                    let all = s.save(fmt).len() as u64;
                    s.save_into_little(fmt, (h % all) as usize)
                }
                _ => {
                    let d = s.save(fmt);
                    let (kind, _) = self.meta[&k];
                    let ty = s.ty();
                    // every byte of it matters
                    let n = if h % 4 == 0 { d.len() - 1 } else { (h / 4) as usize % d.len() };
                    Sk::load(kind, ty, 0, fmt, &d[..n]).is_err()
                }
            }
        }));
        set_fault(Fault::None);
        STARTED.store(0, Ordering::SeqCst);
        self.sk.insert(k, s);
        // either it returned an error, or it let the panic through
        let failed = match &got {
            Ok(f) => *f,
            Err(e) => e.downcast_ref::<&str>() == Some(&"asked for"),
        };
        ev(format!(r#"{{"op":"fail","k":{},"what":"{}","r":"{}"}}"#, k, name, if failed { "failed" } else { "no" }));
    }

    pub fn siz(&mut self, k: u32) {
        if self.dead || !self.sk.contains_key(&k) {
            return;
        }
        let o = self.sk.remove(&k).unwrap();
        if let Some((o, n)) = self.act("size", || {
            let n = o.size();
            (o, n)
        }) {
            self.sk.insert(k, o);
            ev(format!(r#"{{"op":"siz","k":{},"n":{}}}"#, k, n));
            ev(format!(r#"{{"op":"mem","k":{},"n":{}}}"#, k, self.mem[&k]));
        }
    }

    pub fn ty(&self, k: u32) -> Ty {
        self.sk.get(&k).map(|s| s.ty()).unwrap_or(Ty::U64)
    }

    pub fn kind(&self, k: u32) -> (Kind, u8) {
        self.meta.get(&k).copied().unwrap_or((Kind::PF, 4))
    }

    /// A new sketch of the same kind and precision with everything `k` has
    /// seen inserted directly.
    pub fn control(&mut self, k: u32) -> u32 {
        if self.dead || !self.sk.contains_key(&k) {
            return 0;
        }
        let (kind, p) = self.kind(k);
        let atoms: Vec<Atom> = self.seen[&k].iter().map(|i| self.atoms[i - 1].clone()).collect();
        let c = self.mk_u(kind, p);
        let order = *self.rng.pick(&[Order::Asc, Order::Desc, Order::Shuffled]);
        if !atoms.is_empty() {
            self.ins(c, &atoms, order);
        }
        c
    }

    /// For each sketch: insert the masks one after the other and estimate
    /// after each.
    pub fn probe(&mut self, ks: &[u32], masks: &[Atom]) {
        for k in ks {
            self.cnt(*k);
            for m in masks {
                self.ins(*k, std::slice::from_ref(m), Order::Asc);
                self.cnt(*k);
            }
        }
    }
}

#[cfg(feature = "threads")]
impl Sc {
    /// Runs the plans in parallel; the shared sketches are only read.
    pub fn parallel(&mut self, kind: Kind, p: u8, shared: &[u32], plans: Vec<Vec<Cmd>>, lockstep: bool) -> Vec<u32> {
        if self.dead || shared.iter().any(|k| !self.sk.contains_key(k)) {
            return Vec::new();
        }
        let name = if kind == Kind::Plus { "plus" } else { "pf" };
        enum C {
            New(u32, Ty, u64),
            Ins(u32, usize, Rc<Vec<u64>>, u64),
            Cnt(u32),
            Mrg(u32, u32),
            Cln(u32, u32),
            Rel(u32, u32, u8),
            // with the names of the first round, and those of another one
            Rounds(u64, Vec<C>, Vec<C>),
        }
        fn name_all(
            w: &mut Sc, kind: Kind, p: u8, plan: &[Cmd], id: &mut HashMap<usize, u32>, cs: &mut Vec<C>,
        ) {
            for c in plan {
                match c {
                    Cmd::New(k) => {
                        let n = w.fresh();
                        id.insert(*k, n);
                        let ty = *w.rng.pick(&[Ty::U64, Ty::Bytes, Ty::Slice, Ty::Str]);
                        cs.push(C::New(n, ty, if ty == Ty::Str { 0 } else { w.rng.next() }));
                        w.meta.insert(n, (kind, p));
                        w.seen.insert(n, BTreeSet::new());
                    }
                    Cmd::Ins(k, a, r) => {
                        let i = w.atom(a);
                        cs.push(C::Ins(id[k], i, a.hashes(), *r));
                        w.seen.get_mut(&id[k]).unwrap().insert(i);
                    }
                    Cmd::Cnt(k) => cs.push(C::Cnt(id[k])),
                    Cmd::MrgShared(k, b) => {
                        cs.push(C::Mrg(id[k], *b));
                        let add = w.seen[b].clone();
                        w.seen.get_mut(&id[k]).unwrap().extend(add);
                    }
                    Cmd::MrgOwn(k, b) => {
                        cs.push(C::Mrg(id[k], id[b]));
                        let add = w.seen[&id[b]].clone();
                        w.seen.get_mut(&id[k]).unwrap().extend(add);
                    }
                    Cmd::CloneShared(a, k) | Cmd::ReloadShared(a, k, _) => {
                        let n = w.fresh();
                        id.insert(*k, n);
                        cs.push(match c {
                            Cmd::ReloadShared(_, _, f) => C::Rel(*a, n, *f),
                            _ => C::Cln(*a, n),
                        });
                        w.meta.insert(n, (kind, p));
                        let s = w.seen[a].clone();
                        w.seen.insert(n, s);
                    }
                    Cmd::Rounds(n, inner) => {
                        let (mut a, mut b) = (Vec::new(), Vec::new());
                        name_all(w, kind, p, inner, id, &mut a);
                        name_all(w, kind, p, inner, id, &mut b);
                        cs.push(C::Rounds(*n, a, b));
                    }
                }
            }
        }
        struct Run<'a> {
            kind: Kind,
            name: &'a str,
            p: u8,
            lent: &'a HashMap<u32, Sk>,
        }
        // Carries a command out; returns what it answered.
        fn perform(w: &Run, c: &C, own: &mut HashMap<u32, Sk>, log: &mut Vec<String>) -> u64 {
            match c {
                C::New(k, ty, key) => {
                    let r = Sk::new(w.kind, *ty, w.p, *key);
                    let res = r.as_ref().err().cloned().unwrap_or("ok".into());
                    log.push(format!(
                        r#"{{"op":"new","k":{},"kind":"{}","p":{},"r":"{}"}}"#,
                        k, w.name, w.p, res
                    ));
                    own.insert(*k, r.unwrap());
                    0
                }
                C::Ins(k, i, hs, r) => {
                    let s = own.get_mut(k).unwrap();
                    let n = hs.len();
                    // start somewhere and go round
                    let at = *r as usize % n;
                    for h in hs[at..].iter().chain(hs[..at].iter()) {
                        s.insert(*h, Api::Insert);
                    }
                    log.push(format!(r#"{{"op":"ins","k":{},"x":[{}]}}"#, k, i));
                    0
                }
                C::Cnt(k) => {
                    let e = own.get_mut(k).unwrap().count();
                    let b = e.to_bits();
                    log.push(format!(
                        r#"{{"op":"cnt","k":{},"e":[{},{}],"dec":"{:e}"}}"#,
                        k,
                        (b >> 32) as u32 as i32,
                        b as u32 as i32,
                        e
                    ));
                    b
                }
                C::Mrg(a, b) => {
                    let mut s = own.remove(a).unwrap();
                    let r = s.merge(w.lent.get(b).or_else(|| own.get(b)).unwrap());
                    own.insert(*a, s);
                    let bad = r.is_err();
                    let res = r.err().unwrap_or("ok".into());
                    log.push(format!(r#"{{"op":"mrg","a":{},"b":{},"r":"{}"}}"#, a, b, res));
                    bad as u64
                }
                C::Cln(a, b) => {
                    own.insert(*b, w.lent[a].clone());
                    log.push(format!(r#"{{"op":"cpy","a":{},"b":{},"r":"ok","via":"clone"}}"#, a, b));
                    0
                }
                C::Rel(a, b, f) => {
                    let r = w.lent[a].reload(*f);
                    let res = match &r {
                        Ok(_) => "ok".to_string(),
                        Err(e) => e.chars().filter(|c| *c != '"' && *c != '\\').collect(),
                    };
                    log.push(format!(r#"{{"op":"cpy","a":{},"b":{},"r":"{}","via":"reload"}}"#, a, b, res));
                    own.insert(*b, r.unwrap());
                    0
                }
                C::Rounds(n, first, other) => {
                    // rounds that answered like the first one say nothing new:
                    // the log holds the first, and the first that differs (or
                    // else the last)
                    let said: Vec<u64> = first.iter().map(|c| perform(w, c, own, log)).collect();
                    let start = std::time::Instant::now();
                    for i in 1..*n {
                        if i % 64 == 0 && start.elapsed().as_millis() > 4000 {
                            break;
                        }
                        let mut again = Vec::new();
                        let mut same = true;
                        for (c, s) in other.iter().zip(&said) {
                            same &= perform(w, c, own, &mut again) == *s;
                        }
                        if !same || i + 1 == *n {
                            log.extend(again);
                            break;
                        }
                    }
                    0
                }
            }
        }
        // sketches and elements get their names beforehand
        let mut all = Vec::new();
        let mut finals: Vec<u32> = Vec::new();
        for plan in &plans {
            let mut id: HashMap<usize, u32> = HashMap::new();
            let mut cs = Vec::new();
            name_all(self, kind, p, plan, &mut id, &mut cs);
            let mut f: Vec<u32> = id.values().copied().collect();
            f.sort_unstable();
            finals.extend(f);
            all.push(cs);
        }
        let lent: HashMap<u32, Sk> = shared.iter().map(|k| (*k, self.sk.remove(k).unwrap())).collect();
        let barrier = std::sync::Barrier::new(all.len());
        // in lockstep every command of a thread starts at the same moment as
        // the others' commands of that number
        let (arrived, broken) = (AtomicUsize::new(0), AtomicBool::new(false));
        let (threads, lockstep) = (all.len(), lockstep && all.iter().all(|c| c.len() == all[0].len()));
        let run = |cs: Vec<C>| {
            let mut log: Vec<String> = Vec::new();
            let mut own: HashMap<u32, Sk> = HashMap::new();
            barrier.wait();
            let r = catch_unwind(AssertUnwindSafe(|| {
                for (i, c) in cs.iter().enumerate() {
                    if lockstep {
                        arrived.fetch_add(1, SeqCst);
                        let mut spins = 0u32;
                        while arrived.load(SeqCst) < threads * (i + 1) && !broken.load(SeqCst) {
                            spins += 1;
                            if spins > 20_000 {
                                std::thread::yield_now();
                            }
                            std::hint::spin_loop();
                        }
                    }
                    perform(&Run { kind, name, p, lent: &lent }, c, &mut own, &mut log);
                }
            }));
            broken.fetch_or(r.is_err(), SeqCst);
            (log, own, r.is_err())
        };
        let run = &run;
        // the threads' time adds up
        let limit = LIMIT_MS.swap(240_000, SeqCst);
        let r = self.act("parallel", || {
            std::thread::scope(|sc| {
                let hs: Vec<_> = all.into_iter().map(|cs| sc.spawn(move || run(cs))).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
            })
        });
        LIMIT_MS.store(limit, SeqCst);
        let mut bad = false;
        if let Some(rs) = r {
            for (log, own, panicked) in rs {
                for l in log {
                    ev(l);
                }
                if panicked {
                    ev(r#"{"op":"panic","what":"in a thread"}"#.to_string());
                    bad = true;
                }
                self.sk.extend(own);
            }
        }
        self.dead |= bad;
        self.sk.extend(lent);
        finals
    }
}
