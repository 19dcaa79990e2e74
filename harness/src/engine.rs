//! A small property-testing engine: choices are drawn from a recorded tape,
//! so that shrinking and replaying need nothing but the tape.

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

/// Source of choices: either fresh (PRNG) or replayed from a tape.
pub struct Src<'a> {
    rng: u64,
    replay: Option<&'a [u64]>,
    pos: usize,
    pub tape: Vec<u64>,
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl<'a> Src<'a> {
    pub fn fresh(seed: u64) -> Self {
        Src { rng: seed, replay: None, pos: 0, tape: Vec::new() }
    }
    pub fn replay(tape: &'a [u64]) -> Self {
        Src { rng: 0, replay: Some(tape), pos: 0, tape: Vec::new() }
    }
    /// A value in 0..n; 0 is the simplest one.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match self.replay {
            Some(t) => t.get(self.pos).copied().unwrap_or(0).min(n - 1),
            None => ((splitmix(&mut self.rng) as u128 * n as u128) >> 64) as u64,
        };
        self.pos += 1;
        self.tape.push(v);
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        w.len() - 1
    }
    pub fn pick<'t, T>(&mut self, xs: &'t [T]) -> &'t T {
        let i = self.us(xs.len());
        &xs[i]
    }
    /// Size in 0..=max, skewed towards small values but reaching max.
    pub fn size(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        let bits = usize::BITS - max.leading_zeros();
        let b = self.below(bits as u64 + 1);
        let hi = if b >= bits as u64 { max } else { ((1usize << b) - 1).min(max) };
        self.us(hi + 1)
    }
}

pub enum Verdict {
    Pass,
    /// Outside the property's domain.
    Discard,
    Fail(String),
    /// Fails exactly as a listed known finding does.
    Known(&'static str),
}

pub struct Outcome {
    pub verdict: Verdict,
    pub nontrivial: bool,
    pub hash: u64,
    pub labels: Vec<&'static str>,
    pub desc: String,
}

impl Outcome {
    pub fn discard() -> Self {
        Outcome { verdict: Verdict::Discard, nontrivial: false, hash: 0, labels: vec![], desc: String::new() }
    }
}

/// Per-case context.
pub struct Ctx {
    pub thorough: bool,
    pub index: u64,
    pub want_desc: bool,
}

pub type CaseFn = fn(&mut Src, &Ctx) -> Outcome;

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub cases: Option<u64>,
    pub out_dir: String,
    pub known_file: String,
    pub replay: Option<String>,
    pub threads: usize,
    pub progress: Option<String>,
}

thread_local! {
    pub static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("VH_BT").is_some() {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Runs `f`, turning a panic into Err(message).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

fn run_case(p: &Prop, src: &mut Src, ctx: &Ctx) -> Outcome {
    crate::construct::release_leaked();
    crate::props2::release_chars();
    match guarded(|| (p.run)(src, ctx)) {
        Ok(o) => o,
        Err(m) => Outcome {
            verdict: Verdict::Fail(format!("panic: {m}")),
            nontrivial: true,
            hash: 0,
            labels: vec![],
            desc: String::new(),
        },
    }
}

fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    let mut s = seed ^ fnv(id.as_bytes());
    let a = splitmix(&mut s);
    let mut t = a ^ index.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut t)
}

#[derive(Default)]
struct Acc {
    evals: u64,
    discards: u64,
    nontrivial: u64,
    labels: BTreeMap<&'static str, u64>,
    known: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
}

fn on_big_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn shrink(p: &Prop, tape: Vec<u64>, ctx: &Ctx, max_evals: usize) -> (Vec<u64>, usize) {
    let mut best = tape;
    let mut evals = 0usize;
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let fails = |t: &[u64], evals: &mut usize| -> Option<Vec<u64>> {
        if *evals >= max_evals || std::time::Instant::now() > deadline {
            return None;
        }
        *evals += 1;
        let mut s = Src::replay(t);
        let o = run_case(p, &mut s, ctx);
        if let Verdict::Fail(_) = o.verdict {
            let mut used = s.tape;
            while used.last() == Some(&0) {
                used.pop();
            }
            Some(used)
        } else {
            None
        }
    };
    let smaller = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    if let Some(t) = fails(&best.clone(), &mut evals) {
        best = t;
    }
    loop {
        let mut improved = false;
        // Delete blocks.
        for &size in &[64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                let mut t = best.clone();
                t.drain(i..i + size);
                if let Some(t) = fails(&t, &mut evals) {
                    if smaller(&t, &best) {
                        best = t;
                        improved = true;
                        continue;
                    }
                }
                // Delete while lowering a preceding length-like value.
                if i > 0 && best[i - 1] > 0 {
                    let mut t = best.clone();
                    t[i - 1] -= 1;
                    t.drain(i..i + size);
                    if let Some(t) = fails(&t, &mut evals) {
                        if smaller(&t, &best) {
                            best = t;
                            improved = true;
                            continue;
                        }
                    }
                }
                i += 1;
            }
        }
        // Zero blocks.
        for &size in &[16usize, 8, 4, 2] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[i..i + size].fill(0);
                    if let Some(t) = fails(&t, &mut evals) {
                        if smaller(&t, &best) {
                            best = t;
                            improved = true;
                        }
                    }
                }
                i += 1;
            }
        }
        // Lower single values.
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for c in [0, v / 2, v.saturating_sub(1)] {
                if i < best.len() && c < best[i] {
                    let mut t = best.clone();
                    t[i] = c;
                    if let Some(t) = fails(&t, &mut evals) {
                        if smaller(&t, &best) {
                            best = t;
                            improved = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if !improved || evals >= max_evals || std::time::Instant::now() > deadline {
            break;
        }
    }
    (best, evals)
}

/// Extra results a property reports besides its generated cases.
pub struct Extra {
    pub evals: u64,
    pub note: String,
    pub fail: Option<String>,
    pub known: Vec<(&'static str, String)>,
}

pub fn known_listed(file: &str, id: &str) -> Vec<(String, String)> {
    // Lines: "known: property=<id> sig=<signature> <what fails>"
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(file) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                let mut it = r.splitn(3, ' ');
                let (pid, sig, rest) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if pid == id {
                    if let Some(sig) = sig.strip_prefix("sig=") {
                        v.push((sig.to_string(), rest.to_string()));
                    }
                }
            }
        }
    }
    v
}

fn write_evidence(p: &Prop, o: &Opts, acc: &mut Acc, extra_note: &str, violations: usize, wall: f64) -> bool {
    acc.samples.sort();
    acc.samples.truncate(6);
    let labels: Vec<String> = acc.labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let samples: Vec<String> = acc.samples.iter().map(|(_, s)| json_str(s)).collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| json_str(s)).collect();
    let ev = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"discarded\": {},\n  \"rule\": {},\n  \"labels\": {{{}}},\n  \"fixed_cases\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        p.id,
        if o.thorough { "thorough" } else { "quick" },
        o.seed,
        acc.evals,
        acc.nontrivial,
        acc.discards,
        json_str(p.rule),
        labels.join(", "),
        json_str(extra_note),
        samples.join(",\n   "),
        assumptions.join(", "),
        wall,
        violations
    );
    let evdir = format!("{}/evidence", o.out_dir);
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::File::create(format!("{evdir}/{}.json", p.id)).and_then(|mut f| f.write_all(ev.as_bytes())).is_ok()
}

/// Seconds after which a case counts as one that does not end.
const HANG: u64 = 120;

/// Runs the property in a child process, so that a case that kills it (by
/// overflowing the stack or exhausting memory) is still reported.
pub fn supervise(p: &Prop, o: &Opts) -> i32 {
    let progress = format!("/dev/shm/vharness.{}", std::process::id());
    let me = std::env::current_exe().unwrap();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let t0 = std::time::Instant::now();
    let st = std::process::Command::new(&me).args(&args).args(["--progress", &progress]).status().expect("child");
    let seen = std::fs::read(&progress).unwrap_or_default();
    let _ = std::fs::remove_file(&progress);
    if let Some(c) = st.code() {
        return c;
    }
    let how = format!("{st}");
    let report = |path: &str, evals: u64| {
        write_evidence(p, o, &mut Acc { evals, ..Acc::default() }, &format!("the process died: {how}"), 1, t0.elapsed().as_secs_f64());
        println!("VIOLATION property={} replay={path}", p.id);
        1
    };
    if seen.starts_with(b"/") {
        // While shrinking: the case found first stands.
        println!("the process died while shrinking ({how})");
        return report(&String::from_utf8_lossy(&seen), 0);
    }
    for b in seen.chunks(8) {
        let i = u64::from_le_bytes(b.try_into().unwrap_or([0; 8]));
        if i == 0 {
            continue;
        }
        let i = i - 1;
        let path = format!("{}/replays/{}-{}-{i}.txt", o.out_dir, p.id, o.seed);
        let _ = std::fs::create_dir_all(format!("{}/replays", o.out_dir));
        let _ = std::fs::write(&path, format!("property {} case {i} kills the process\nfresh: {} {i}\n", p.id, o.seed));
        let tier = if o.thorough { "thorough" } else { "quick" };
        let st = std::process::Command::new("timeout").arg("100").arg(&me).args(["--prop", p.id, "--tier", tier, "--out", &o.out_dir, "--replay", &path]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
        if st.map(|s| s.code().is_none_or(|c| c >= 124)).unwrap_or(false) {
            println!("property {} seed {} case {i}: the process died ({how})", p.id, o.seed);
            return report(&path, i);
        }
        let _ = std::fs::remove_file(&path);
    }
    eprintln!("the process died ({how}), no single case reproduces it");
    3
}

pub fn run_prop(p: &Prop, o: &Opts, extra: Option<fn(&Opts) -> Extra>) -> i32 {
    install_hook();
    let t0 = std::time::Instant::now();
    let listed = known_listed(&o.known_file, p.id);
    if let Some(path) = &o.replay {
        let txt = std::fs::read_to_string(path).expect("replay file");
        let mut fresh = txt.lines().find_map(|l| l.strip_prefix("fresh: ")).map(|l| {
            let v: Vec<u64> = l.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            Src::fresh(case_seed(v[0], p.id, v[1]))
        });
        let line = txt.lines().find(|l| l.starts_with("tape:")).unwrap_or("tape:");
        let tape: Vec<u64> = line[5..].split_whitespace().filter_map(|x| x.parse().ok()).collect();
        let ctx = Ctx { thorough: o.thorough, index: 0, want_desc: true };
        let src = fresh.take().unwrap_or_else(|| Src::replay(&tape));
        let out = on_big_stack(move || {
            let mut src = src;
            run_case(p, &mut src, &ctx)
        });
        println!("{}", out.desc);
        return match out.verdict {
            Verdict::Fail(m) => {
                println!("{m}");
                println!("VIOLATION property={} replay={}", p.id, path);
                1
            }
            Verdict::Known(s) => {
                println!("known finding {s}");
                0
            }
            _ => {
                println!("passes");
                0
            }
        };
    }
    let n = o.cases.unwrap_or(if o.thorough { p.thorough } else { p.quick });
    let next = AtomicU64::new(0);
    // Where a supervising process finds the cases under way, should this one die.
    let progress = o.progress.as_ref().map(|f| std::fs::File::create(f).expect("progress file"));
    let progress = progress.as_ref();
    let lowest = AtomicU64::new(u64::MAX);
    let total = Mutex::new(Acc::default());
    let seen: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    let failures: Mutex<BTreeMap<u64, Vec<u64>>> = Mutex::new(BTreeMap::new());
    let done = AtomicUsize::new(0);
    let beats: Vec<AtomicU64> = (0..o.threads).map(|_| AtomicU64::new(0)).collect();
    let at: Vec<AtomicU64> = (0..o.threads).map(|_| AtomicU64::new(0)).collect();
    std::thread::scope(|s| {
        for w in 0..o.threads {
            let (next, lowest, total, seen, failures, done, beats, at) =
                (&next, &lowest, &total, &seen, &failures, &done, &beats, &at);
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(s, move || {
                    let mut acc = Acc::default();
                    loop {
                        let start = next.fetch_add(16, Ordering::Relaxed);
                        if start >= n || start > lowest.load(Ordering::Relaxed) {
                            break;
                        }
                        for i in start..(start + 16).min(n) {
                            at[w].store(i, Ordering::Relaxed);
                            if let Some(f) = progress {
                                let _ = f.write_at(&(i + 1).to_le_bytes(), w as u64 * 8);
                            }
                            beats[w].store(t0.elapsed().as_secs() + 1, Ordering::Relaxed);
                            let ctx = Ctx { thorough: o.thorough, index: i, want_desc: acc.samples.len() < 2 };
                            let mut src = Src::fresh(case_seed(o.seed, p.id, i));
                            let out = run_case(p, &mut src, &ctx);
                            acc.evals += 1;
                            for l in &out.labels {
                                *acc.labels.entry(l).or_insert(0) += 1;
                            }
                            match out.verdict {
                                Verdict::Pass => {}
                                Verdict::Discard => acc.discards += 1,
                                Verdict::Known(k) => *acc.known.entry(k).or_insert(0) += 1,
                                Verdict::Fail(_) => {
                                    failures.lock().unwrap().insert(i, src.tape.clone());
                                    lowest.fetch_min(i, Ordering::Relaxed);
                                }
                            }
                            if out.nontrivial {
                                let new = seen[(out.hash & 63) as usize].lock().unwrap().insert(out.hash);
                                if new {
                                    acc.nontrivial += 1;
                                    if ctx.want_desc && !out.desc.is_empty() && out.desc.len() < 4000 {
                                        acc.samples.push((i, out.desc));
                                    }
                                }
                            }
                        }
                        beats[w].store(0, Ordering::Relaxed);
                    }
                    let mut t = total.lock().unwrap();
                    t.evals += acc.evals;
                    t.discards += acc.discards;
                    t.nontrivial += acc.nontrivial;
                    for (k, v) in acc.labels {
                        *t.labels.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in acc.known {
                        *t.known.entry(k).or_insert(0) += v;
                    }
                    t.samples.extend(acc.samples);
                    beats[w].store(0, Ordering::Relaxed);
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // Watchdog: every case has bounded work and takes milliseconds, so one
        // that runs this long has not ended; the report says which.
        let (done, beats, at) = (&done, &beats, &at);
        s.spawn(move || {
            while done.load(Ordering::SeqCst) < o.threads {
                std::thread::sleep(std::time::Duration::from_millis(20));
                let now = t0.elapsed().as_secs() + 1;
                for (b, i) in beats.iter().zip(at) {
                    let v = b.load(Ordering::Relaxed);
                    if v != 0 && now > v + HANG {
                        let i = i.load(Ordering::Relaxed);
                        let dir = format!("{}/replays", o.out_dir);
                        let _ = std::fs::create_dir_all(&dir);
                        let path = format!("{dir}/{}-{}-{i}.txt", p.id, o.seed);
                        let m = format!("property {} seed {} case {i}: still running after {HANG} s", p.id, o.seed);
                        let _ = std::fs::write(&path, format!("{m}\nfresh: {} {i}\n", o.seed));
                        println!("{m}");
                        write_evidence(p, o, &mut Acc { evals: i, ..Acc::default() }, "stopped at a case that did not end", 1, t0.elapsed().as_secs_f64());
                        println!("VIOLATION property={} replay={path}", p.id);
                        std::process::exit(1);
                    }
                }
            }
        });
    });
    let mut acc = total.into_inner().unwrap();
    let failures = failures.into_inner().unwrap();
    let mut violations = 0;
    let mut code = 0;
    let ex = extra.map(|f| on_big_stack(|| f(o)));
    let replay_dir = format!("{}/replays", o.out_dir);
    let _ = std::fs::create_dir_all(&replay_dir);
    let mut extra_note = String::new();
    let mut knowns: BTreeMap<String, String> = BTreeMap::new();
    if let Some(ex) = &ex {
        acc.evals += ex.evals;
        extra_note = ex.note.clone();
        if let Some(m) = &ex.fail {
            violations += 1;
            code = 1;
            let path = format!("{replay_dir}/{}-fixed.txt", p.id);
            let _ = std::fs::write(&path, format!("{m}\n"));
            println!("{m}");
            println!("VIOLATION property={} replay={}", p.id, path);
        }
        for (k, w) in &ex.known {
            knowns.insert(k.to_string(), w.clone());
        }
    }
    for k in acc.known.keys() {
        knowns.entry(k.to_string()).or_default();
    }
    for k in knowns.keys() {
        match listed.iter().find(|(s, _)| s == k) {
            Some((_, what)) => println!("KNOWN-FINDING: property={} {}", p.id, what),
            None => {
                violations += 1;
                code = 1;
                let path = format!("{replay_dir}/{}-{}.txt", p.id, k);
                let _ = std::fs::write(&path, format!("unlisted finding with signature {k}\n"));
                println!("VIOLATION property={} replay={}", p.id, path);
            }
        }
    }
    if let Some((idx, tape)) = failures.into_iter().next() {
        violations += 1;
        code = 1;
        let path = format!("{replay_dir}/{}-{}-{}.txt", p.id, o.seed, idx);
        // A shrunk candidate may not end; the original case then stands.
        let finished = AtomicUsize::new(0);
        let first: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
        let _ = std::fs::write(&path, format!("property {} case {idx} (not shrunk)\ntape: {}\n", p.id, first.join(" ")));
        if let Some(f) = progress {
            let _ = f.set_len(0);
            let _ = f.write_at(path.as_bytes(), 0);
        }
        let (small, evals, out) = std::thread::scope(|s| {
            let original: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
            let (path, finished, id) = (path.clone(), &finished, p.id);
            s.spawn(move || {
                let t = std::time::Instant::now();
                while finished.load(Ordering::SeqCst) == 0 {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    if t.elapsed().as_secs() > 180 {
                        let _ = std::fs::write(&path, format!("property {id} case {idx} (not shrunk)\ntape: {}\n", original.join(" ")));
                        write_evidence(p, o, &mut Acc { evals: idx, ..Acc::default() }, "shrinking did not end", 1, t0.elapsed().as_secs_f64());
                        println!("VIOLATION property={id} replay={path}");
                        std::process::exit(1);
                    }
                }
            });
            let r = on_big_stack(|| {
            let ctx = Ctx { thorough: o.thorough, index: idx, want_desc: true };
            let (small, evals) = shrink(p, tape, &ctx, 20000);
            let out = run_case(p, &mut Src::replay(&small), &ctx);
            (small, evals, out)
            });
            finished.store(1, Ordering::SeqCst);
            r
        });
        let msg = match out.verdict {
            Verdict::Fail(m) => m,
            _ => "failure did not reproduce after shrinking".into(),
        };
        let text = format!(
            "property {} seed {} case {} (shrunk with {} evaluations)\ntape: {}\n{}\n{}\n",
            p.id,
            o.seed,
            idx,
            evals,
            small.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "),
            out.desc,
            msg
        );
        let _ = std::fs::write(&path, &text);
        print!("{text}");
        println!("VIOLATION property={} replay={}", p.id, path);
    }
    if !write_evidence(p, o, &mut acc, &extra_note, violations, t0.elapsed().as_secs_f64()) {
        eprintln!("cannot write evidence");
        return 3;
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} discarded, {} violations, {:.1}s",
        p.id,
        if o.thorough { "thorough" } else { "quick" },
        acc.evals,
        acc.nontrivial,
        acc.discards,
        violations,
        t0.elapsed().as_secs_f64()
    );
    code
}
