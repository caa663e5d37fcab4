//! Deterministic randomness, panic capture, case runner and result files.
//! Nothing in here knows about typelalr.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::cell::RefCell;

// ---------------------------------------------------------------- randomness
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a: stable across processes and toolchains
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 ^= *x as u64;
                self.0 = self.0.wrapping_mul(0x100_0000_01b3);
            }
        }
    }
    let mut f = F(0xcbf2_9ce4_8422_2325);
    t.hash(&mut f);
    f.finish()
}

// ---------------------------------------------------------------- panics
thread_local! {
    // the hook runs on the thread that panics
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn own(loc: &str) -> bool {
    loc.contains("/repo/src") || loc.contains("typelalr")
}

fn called_by_typelalr() -> bool {
    let b = std::backtrace::Backtrace::force_capture().to_string();
    b.lines().any(|l| {
        let f = l.trim_start().trim_start_matches(|c: char| c.is_ascii_digit()).trim_start_matches(": ");
        f.starts_with("typelalr::") || f.starts_with("<typelalr::")
    })
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        // a panic raised in a library belongs to the code under test when that called it
        let loc = if own(&loc) || loc.contains("harness/src") {
            loc
        } else if called_by_typelalr() {
            format!("{} (called by typelalr)", loc)
        } else {
            loc
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

#[derive(Debug, Clone)]
pub struct Refused {
    pub msg: String,
    pub loc: String,
}

/// Run code under test; a panic is reported as the refusal it stands for.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Refused> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, loc) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(Refused { msg, loc })
        }
    }
}

// ---------------------------------------------------------------- json out
pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || c as u32 == 0x2028 || c as u32 == 0x2029 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn jarr<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String {
    let mut o = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

// ---------------------------------------------------------------- runner
pub struct Args {
    pub seed: u64,
    pub thorough: bool,
    pub shard: u64,
    pub nshards: u64,
    pub out: String,
    pub only: Option<u64>,
    pub cases: Option<u64>,
    pub cap_s: f64,
    pub cpu_budget: f64,
    pub extra: BTreeMap<String, String>,
}

impl Args {
    pub fn parse() -> Args {
        let mut a = Args {
            seed: 1,
            thorough: false,
            shard: 0,
            nshards: 1,
            out: String::new(),
            only: None,
            cases: None,
            cap_s: 1e9,
            cpu_budget: 30.0,
            extra: BTreeMap::new(),
        };
        let mut it = std::env::args().skip(1);
        while let Some(k) = it.next() {
            let v = it.next().unwrap_or_default();
            match k.as_str() {
                "--seed" => a.seed = v.parse().unwrap(),
                "--tier" => a.thorough = v == "thorough",
                "--shard" => a.shard = v.parse().unwrap(),
                "--nshards" => a.nshards = v.parse().unwrap(),
                "--out" => a.out = v,
                "--only" => a.only = Some(v.parse().unwrap()),
                "--cases" => a.cases = Some(v.parse().unwrap()),
                "--cap" => a.cap_s = v.parse().unwrap(),
                "--cpu-budget" => a.cpu_budget = v.parse().unwrap(),
                _ => {
                    a.extra.insert(k, v);
                }
            }
        }
        a
    }
}

#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evaluations: u64,
}

pub struct Case<'a> {
    pub idx: u64,
    pub rng: Rng,
    pub thorough: bool,
    pub args: &'a Args,
    pub stats: &'a mut Stats,
    input: String,
}

/// Err(..) is a violation of the property: what was observed against what had to be.
pub type Verdict = Result<(), String>;

impl<'a> Case<'a> {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.stats.counters.entry(k.to_string()).or_insert(0) += n;
    }
    /// The largest value seen; names begin with "max_".
    pub fn peak(&mut self, k: &str, v: u64) {
        let e = self.stats.counters.entry(k.to_string()).or_insert(0);
        *e = v.max(*e);
    }
    /// One evaluated input. `nontrivial` by the rule of the check; `sig` identifies the input.
    pub fn eval<T: Hash + ?Sized>(&mut self, nontrivial: bool, sig: &T) {
        self.stats.evaluations += 1;
        if nontrivial {
            self.stats.distinct.insert(hash64(sig));
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.stats.samples.len() < 3 {
            self.stats.samples.push(s());
        }
    }
    /// Remember the input being worked on (for the replay file, also if the process dies).
    pub fn input(&mut self, s: impl Into<String>) {
        self.input = s.into();
        if self.args.only.is_some() && !self.args.out.is_empty() {
            let _ = std::fs::write(format!("{}.input", self.args.out), &self.input);
        }
    }
}

static CUR: AtomicU64 = AtomicU64::new(u64::MAX);

fn cpu_seconds() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

pub fn run(quick_cases: u64, thorough_cases: u64, f: fn(&mut Case) -> Verdict) -> ! {
    let args = Args::parse();
    install_hook();
    let n = args
        .cases
        .unwrap_or(if args.thorough { thorough_cases } else { quick_cases });
    let out = args.out.clone();
    let budget = args.cpu_budget;

    if cfg!(miri) {
        // no supervision inside the interpreter
        std::process::exit(work(args, n, f));
    }

    // Watchdog: bounded work per case, measured in CPU time of this process, not wall clock.
    {
        let out = out.clone();
        std::thread::spawn(move || {
            let mut last = u64::MAX;
            let mut since = cpu_seconds();
            loop {
                std::thread::sleep(std::time::Duration::from_millis(200));
                let cur = CUR.load(Ordering::SeqCst);
                let now = cpu_seconds();
                if cur != last {
                    last = cur;
                    since = now;
                } else if cur != u64::MAX && now - since > budget {
                    let _ = std::fs::write(format!("{}.hang", out), format!("{}", cur));
                    std::process::exit(97);
                }
            }
        });
    }

    let handle = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || work(args, n, f))
        .unwrap();
    let code = handle.join().unwrap_or(3);
    std::process::exit(code)
}

fn work(args: Args, n: u64, f: fn(&mut Case) -> Verdict) -> i32 {
    let t0 = std::time::Instant::now();
    let mut stats = Stats::default();
    let mut violation: Option<(u64, String, String)> = None;
    let mut error: Option<String> = None;
    let mut cases = 0u64;
    let curfile = if args.out.is_empty() {
        None
    } else {
        std::fs::File::create(format!("{}.cur", args.out)).ok()
    };
    let mut idx = args.shard;
    if let Some(o) = args.only {
        idx = o;
    }
    while args.only.is_some() || idx < n {
        if t0.elapsed().as_secs_f64() > args.cap_s {
            *stats.counters.entry("stopped_by_time_cap".into()).or_insert(0) += 1;
            break;
        }
        if let Some(fh) = &curfile {
            use std::os::unix::fs::FileExt;
            let _ = fh.write_at(format!("{:<12}", idx).as_bytes(), 0);
        }
        CUR.store(idx, Ordering::SeqCst);
        let mut case = Case {
            idx,
            rng: Rng::new(hash64(&(args.seed, idx))),
            thorough: args.thorough,
            args: &args,
            stats: &mut stats,
            input: String::new(),
        };
        let begun = std::time::Instant::now();
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
        case.peak("max_ms_of_a_case", begun.elapsed().as_millis() as u64);
        let input = std::mem::take(&mut case.input);
        cases += 1;
        match r {
            Ok(Ok(())) => {}
            Ok(Err(msg)) => {
                violation = Some((idx, msg, input));
                break;
            }
            Err(_) => {
                let (msg, loc) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                if own(&loc) {
                    violation = Some((
                        idx,
                        format!("unexpected internal error at {}: {}", loc, msg),
                        input,
                    ));
                } else {
                    error = Some(format!("harness panic at {} in case {}: {}", loc, idx, msg));
                }
                break;
            }
        }
        if args.only.is_some() {
            break;
        }
        idx += args.nshards;
    }
    CUR.store(u64::MAX, Ordering::SeqCst);
    *stats.counters.entry("cases".into()).or_insert(0) += cases;

    let mut o = String::from("{");
    let _ = write!(
        o,
        "\"evaluations\":{},\"counters\":{{{}}},\"samples\":{},\"violation\":{},\"error\":{},\"distinct\":{}}}",
        stats.evaluations,
        stats
            .counters
            .iter()
            .map(|(k, v)| format!("{}:{}", jstr(k), v))
            .collect::<Vec<_>>()
            .join(","),
        jarr(stats.samples.iter(), |s| jstr(s)),
        match &violation {
            None => "null".into(),
            Some((i, m, inp)) => format!(
                "{{\"case\":{},\"message\":{},\"input\":{}}}",
                i,
                jstr(m),
                jstr(inp)
            ),
        },
        match &error {
            None => "null".into(),
            Some(e) => jstr(e),
        },
        jarr(stats.distinct.iter(), |h| format!("\"{:016x}\"", h)),
    );
    if args.out.is_empty() {
        eprintln!("{}", &o[..o.len().min(3000)]);
    } else {
        std::fs::write(&args.out, o).unwrap();
    }
    if error.is_some() {
        3
    } else if violation.is_some() {
        1
    } else {
        0
    }
}
