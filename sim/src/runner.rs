//! Batches of runs: seeds, worker processes, watchdog, minimisation, replay
//! files and evidence.

use crate::choice::{hash_str, mix, Choices};
use crate::core::*;
use crate::sys::{self, Run};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn() -> Res,
    /// runs of the quick tier, runs of the thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub assumes: &'static [&'static str],
}

pub const STUBS: &str = "the kernel below libc: file system, directory listing, mappings, clock and sleep, \
entropy source, and the choice of which client thread runs (all simulated in sim/src/sys.rs); no stub replaces any rust_graph code";

pub struct Outcome {
    pub viol: Option<Viol>,
    pub run: Run,
}

/// One run: a pure function of the choices, the seed and the code.
pub fn run_once(p: &Prop, ch: Choices, seed: u64, tracing: bool) -> Outcome {
    sys::install(Run::new(ch, seed, tracing));
    let f = p.run;
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            sys::enter(sys::DRIVER);
            set_style(0);
            let r = match attempt(f) {
                Ok(r) => r,
                Err(e) => {
                    let loc = e.rsplit('(').next().unwrap_or("").trim_end_matches(')').to_string();
                    Err(Viol {
                        class: format!("panic:{}", loc),
                        msg: format!("panic: {}", e),
                    })
                }
            };
            sys::leave();
            r
        })
        .expect("thread");
    let res = h.join().unwrap_or_else(|_| {
        Err(Viol {
            class: "panic".into(),
            msg: "run thread panicked".into(),
        })
    });
    let run = sys::uninstall();
    Outcome {
        viol: res.err(),
        run,
    }
}

pub fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    mix(mix(base, hash_str(0, prop)), i)
}

// ------------------------------------------------------------ replay files --

#[derive(Clone)]
pub struct Replay {
    pub prop: String,
    pub class: String,
    pub msg: String,
    pub seed: u64,
    pub hash: u64,
    pub recs: Option<[Vec<u64>; 3]>,
    /// runs to execute before, in the same process: seed, executed twice
    pub history: Vec<(u64, bool)>,
    pub trace: Vec<String>,
}

fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}

fn un_line(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}

impl Replay {
    pub fn write(&self, path: &str) {
        let mut s = String::new();
        s += "simcheck-replay 1\n";
        s += &format!("property {}\n", self.prop);
        s += &format!("class {}\n", one_line(&self.class));
        s += &format!("seed {}\n", self.seed);
        s += &format!("hash {}\n", self.hash);
        match &self.recs {
            None => s += "mode seed\n",
            Some(r) => {
                s += "mode choices\n";
                for (n, v) in ["work", "fault", "sched"].iter().zip(r.iter()) {
                    s += &format!(
                        "{} {}\n",
                        n,
                        v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
                    );
                }
            }
        }
        for (i, twice) in &self.history {
            s += &format!("before {}{}\n", i, if *twice { " twice" } else { "" });
        }
        s += &format!("violation {}\n", one_line(&self.msg));
        for t in &self.trace {
            s += &format!("# {}\n", one_line(t));
        }
        let tmp = format!("{}.tmp", path);
        fs::write(&tmp, s).expect("write replay file");
        fs::rename(&tmp, path).expect("rename replay file");
    }
    pub fn read(path: &str) -> Option<Replay> {
        let s = fs::read_to_string(path).ok()?;
        let mut r = Replay {
            prop: String::new(),
            class: String::new(),
            msg: String::new(),
            seed: 0,
            hash: 0,
            recs: None,
            history: Vec::new(),
            trace: Vec::new(),
        };
        let mut recs: [Vec<u64>; 3] = Default::default();
        let mut choices = false;
        for l in s.lines() {
            let (k, v) = match l.find(' ') {
                Some(i) => (&l[..i], &l[i + 1..]),
                None => (l, ""),
            };
            let nums = || v.split_whitespace().filter_map(|x| x.parse().ok()).collect::<Vec<u64>>();
            match k {
                "property" => r.prop = v.into(),
                "class" => r.class = un_line(v),
                "violation" => r.msg = un_line(v),
                "#" => r.trace.push(un_line(v)),
                "seed" => r.seed = v.parse().ok()?,
                "hash" => r.hash = v.parse().ok()?,
                "mode" => choices = v == "choices",
                "work" => recs[0] = nums(),
                "fault" => recs[1] = nums(),
                "sched" => recs[2] = nums(),
                "before" => {
                    if let Some(x) = nums().first() {
                        r.history.push((*x, v.ends_with("twice")));
                    }
                }
                _ => {}
            }
        }
        if choices {
            r.recs = Some(recs);
        }
        Some(r)
    }
    pub fn choices(&self) -> Choices {
        match &self.recs {
            Some(r) => Choices::replay(r.clone()),
            None => Choices::gen(self.seed),
        }
    }
}

// ---------------------------------------------------------------- shrinking --

fn trim(mut r: [Vec<u64>; 3]) -> [Vec<u64>; 3] {
    for s in r.iter_mut() {
        while s.last() == Some(&0) {
            s.pop();
        }
    }
    r
}
fn size(r: &[Vec<u64>; 3]) -> (usize, u64) {
    (
        r.iter().map(|s| s.len()).sum(),
        r.iter().flatten().map(|x| 64 - x.leading_zeros() as u64).sum(),
    )
}

/// `test` runs the choices and returns the recorded choices and WORK spans when
/// the same class of violation occurs.
type Tested = Option<([Vec<u64>; 3], Vec<(usize, usize)>)>;
pub fn shrink(
    start: [Vec<u64>; 3],
    spans: Vec<(usize, usize)>,
    limit: Duration,
    max_exec: u64,
    mut test: impl FnMut(&[Vec<u64>; 3]) -> Tested,
    mut progress: impl FnMut(&[Vec<u64>; 3]),
) -> ([Vec<u64>; 3], u64) {
    let t0 = Instant::now();
    let mut best = trim(start);
    let mut spans = spans;
    let mut execs = 0u64;
    macro_rules! try_cand {
        ($c:expr) => {{
            let c = trim($c);
            let mut ok = false;
            if c != best && t0.elapsed() < limit && execs < max_exec {
                execs += 1;
                if let Some((r, sp)) = test(&c) {
                    // the run may have consumed fewer choices than offered
                    let mut r = trim(r);
                    if size(&r) > size(&c) {
                        r = c;
                    }
                    if size(&r) < size(&best) {
                        best = r;
                        spans = sp;
                        progress(&best);
                        ok = true;
                    }
                }
            }
            ok
        }};
    }
    loop {
        let before = best.clone();
        for s in [1usize, 2, 0] {
            let mut c = best.clone();
            c[s].clear();
            try_cand!(c);
        }
        // whole operations
        let mut k = 0;
        loop {
            let mut sp = spans.clone();
            sp.sort_by_key(|(a, b)| std::cmp::Reverse((*b - *a, *b)));
            if k >= sp.len() {
                break;
            }
            let (a, b) = sp[k];
            let mut c = best.clone();
            if a < c[0].len() {
                let b = b.min(c[0].len());
                c[0].drain(a..b);
                if try_cand!(c) {
                    continue;
                }
            }
            k += 1;
        }
        // runs of choices
        for s in [1usize, 2, 0] {
            let mut n = (best[s].len() / 2).max(1);
            while n >= 1 {
                let mut i = best[s].len();
                while i > 0 {
                    let a = i.saturating_sub(n);
                    if a >= best[s].len() {
                        i = best[s].len();
                        if i == 0 {
                            break;
                        }
                        continue;
                    }
                    let e = (a + n).min(best[s].len());
                    let mut c = best.clone();
                    c[s].drain(a..e);
                    if !try_cand!(c) {
                        let mut c = best.clone();
                        let e = (a + n).min(c[s].len());
                        for x in &mut c[s][a.min(e)..e] {
                            *x = 0;
                        }
                        try_cand!(c);
                    }
                    i = a;
                }
                n /= 2;
            }
        }
        // smaller values
        for s in 0..3 {
            let mut i = 0;
            while i < best[s].len() {
                let v = best[s][i];
                for w in [0, 1, v / 2, v.saturating_sub(1)] {
                    if i < best[s].len() && w < best[s][i] {
                        let mut c = best.clone();
                        c[s][i] = w;
                        if try_cand!(c) {
                            break;
                        }
                    }
                }
                i += 1;
            }
        }
        if best == before || t0.elapsed() >= limit || execs >= max_exec {
            return (best, execs);
        }
    }
}

// ------------------------------------------------------------------ worker --

/// What is left of a run.
#[derive(Default)]
struct Sum {
    hash: u64,
    events: u64,
    marks: u64,
    fired_n: u64,
    sim_ns: u64,
    calls: u64,
    switches: u64,
    preempts: u64,
    fired: Vec<(String, u64)>,
    probes: Vec<(String, u64)>,
    viol: Option<Viol>,
    recs: [Vec<u64>; 3],
    spans: Vec<(usize, usize)>,
    trace: Vec<String>,
}

impl Sum {
    fn of(o: Outcome) -> Sum {
        let r = &o.run;
        let own = |m: &BTreeMap<&'static str, u64>| m.iter().map(|(k, v)| (k.to_string(), *v)).collect();
        Sum {
            hash: r.hash,
            events: r.events,
            marks: r.marks,
            fired_n: r.fired_n,
            sim_ns: r.sim_ns(),
            calls: r.syscalls(),
            switches: r.switches,
            preempts: r.preempts,
            fired: own(&r.fired),
            probes: own(&r.probes),
            recs: r.ch.recs(),
            spans: r.ch.st[0].spans.clone(),
            viol: o.viol,
            trace: o.run.trace,
        }
    }
    fn write(&self) -> String {
        let mut s = format!(
            "n {} {} {} {} {} {} {} {}\n",
            self.hash, self.events, self.marks, self.fired_n, self.sim_ns, self.calls, self.switches, self.preempts
        );
        for (t, v) in [("f", &self.fired), ("p", &self.probes)] {
            for (k, v) in v {
                s += &format!("{} {} {}\n", t, v, k);
            }
        }
        if let Some(v) = &self.viol {
            s += &format!("c {}\nv {}\n", one_line(&v.class), one_line(&v.msg));
        }
        for r in &self.recs {
            s += "r";
            for x in r {
                s += &format!(" {}", x);
            }
            s += "\n";
        }
        for (a, b) in &self.spans {
            s += &format!("s {} {}\n", a, b);
        }
        for t in &self.trace {
            s += &format!("t {}\n", one_line(t));
        }
        s + "end \n"
    }
    fn read(s: &str) -> Option<Sum> {
        if !s.ends_with("end \n") {
            return None;
        }
        let mut o = Sum::default();
        let (mut class, mut recs) = (String::new(), Vec::new());
        for l in s.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            let n = || v.split(' ').filter_map(|x| x.parse().ok()).collect::<Vec<u64>>();
            let kv = || v.split_once(' ').map(|(n, k)| (k.to_string(), n.parse().unwrap_or(0)));
            match k {
                "n" => {
                    let n = n();
                    if n.len() != 8 {
                        return None;
                    }
                    (o.hash, o.events, o.marks, o.fired_n) = (n[0], n[1], n[2], n[3]);
                    (o.sim_ns, o.calls, o.switches, o.preempts) = (n[4], n[5], n[6], n[7]);
                }
                "f" => o.fired.extend(kv()),
                "p" => o.probes.extend(kv()),
                "c" => class = un_line(v),
                "v" => o.viol = Some(Viol { class: class.clone(), msg: un_line(v) }),
                "r" => recs.push(n()),
                "s" => {
                    let n = n();
                    o.spans.push((n[0] as usize, n[1] as usize));
                }
                "t" => o.trace.push(un_line(v)),
                _ => {}
            }
        }
        o.recs = recs.try_into().ok()?;
        Some(o)
    }
}

/// One run: in this process or, so that nothing of it stays behind, in a child.
fn exec(p: &Prop, ch: Choices, seed: u64, tracing: bool, apart: bool) -> Sum {
    if !apart {
        return Sum::of(run_once(p, ch, seed, tracing));
    }
    match exec_apart(p, ch, seed, tracing) {
        Ok(o) => o,
        // as if it had happened here
        Err(96) => std::process::exit(96),
        Err(_) => std::process::abort(),
    }
}
fn exec_apart(p: &Prop, ch: Choices, seed: u64, tracing: bool) -> Result<Sum, i32> {
    use std::os::fd::FromRawFd;
    let mut fd = [0i32; 2];
    unsafe {
        assert!(libc::pipe(fd.as_mut_ptr()) == 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fd[0]);
            let s = Sum::of(run_once(p, ch, seed, tracing)).write();
            let mut f = fs::File::from_raw_fd(fd[1]);
            let ok = f.write_all(s.as_bytes()).is_ok();
            drop(f);
            libc::_exit(!ok as i32);
        }
        libc::close(fd[1]);
        let mut s = String::new();
        fs::File::from_raw_fd(fd[0]).read_to_string(&mut s).ok();
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        Sum::read(&s).ok_or(if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { -1 })
    }
}
pub fn warm_up() {
    sys::find_statics();
    crate::props::ldbc::warm_up();
    // process-wide lazies of the entropy code are initialised outside any run
    use rand::Rng;
    let _: u64 = rand::thread_rng().gen();
    let _ = std::collections::HashMap::<u32, u32>::new();
    // ... except the quality test of its last resort, the timer, which must not
    // see the real clock
    sys::install(Run::new(Choices::gen(1), 1, false));
    let ok = std::thread::spawn(|| {
        sys::enter(sys::DRIVER);
        let r = rand::rngs::JitterRng::new().is_ok();
        sys::leave();
        r
    })
    .join()
    .unwrap_or(false);
    sys::uninstall();
    assert!(ok, "the simulated clock is no entropy source");
}

pub fn limit_memory(gb: u64) {
    let l = libc::rlimit {
        rlim_cur: gb << 30,
        rlim_max: gb << 30,
    };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

fn put(path: &str, s: &str) {
    let tmp = format!("{}.tmp", path);
    fs::write(&tmp, s).expect("write");
    fs::rename(&tmp, path).expect("rename");
}

/// `worker PROP BASE FROM STRIDE TOTAL DIR NAME SECS DOUBLE APART`
pub fn worker(p: &Prop, a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (base, from, stride, total) = (n(0), n(1), n(2), n(3));
    let (dir, name) = (&a[4], &a[5]);
    let (secs, double, apart) = (n(6), n(7), n(8) == 1);
    let mut history: Vec<(u64, bool)> = Vec::new();
    let mut differed = 0u64;
    let known = known_classes(p.id);
    limit_memory(3);
    warm_up();
    let mut prog = fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(format!("{}/{}.progress", dir, name))
        .expect("progress file");
    let t0 = Instant::now();
    let mut runs = 0u64;
    let mut faulted = 0u64;
    let mut crashes = 0u64;
    let mut doubles = 0u64;
    let (mut sim_ns, mut calls, mut switches, mut preempts) = (0u64, 0u64, 0u64, 0u64);
    let mut fired: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut i = from;
    let mut found: Option<(u64, Viol)> = None;
    let mut complete = true;
    let mut last = Instant::now();
    let mut first = true;
    let mut slowest = (0u64, 0u64);
    while i < total {
        if t0.elapsed().as_secs() >= secs {
            complete = false;
            break;
        }
        if first || last.elapsed().as_millis() > 200 {
            first = false;
            last = Instant::now();
        }
        // the index of the run in flight, for the watchdog
        prog.write_all(&i.to_le_bytes()).ok();
        let seed = seed_of(base, p.id, i);
        let started = Instant::now();
        let mut o = exec(p, Choices::gen(seed), seed, false, apart);
        slowest = slowest.max((started.elapsed().as_millis() as u64, i));
        runs += 1;
        sim_ns += o.sim_ns;
        calls += o.calls;
        switches += o.switches;
        preempts += o.preempts;
        if o.fired_n > 0 {
            faulted += 1;
        }
        for (k, v) in &o.fired {
            if k == "crash" {
                crashes += v;
            }
            *fired.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            *probes.entry(k.clone()).or_insert(0) += v;
        }
        if o.marks > 0 && seen.len() < 3_000_000 {
            seen.insert(o.hash);
        }
        let want_sample = samples.len() < 2 && from < 2 && o.marks > 0 && o.viol.is_none()
            && (samples.is_empty() || o.fired_n > 0 || runs > 200);
        let twice = double > 0 && (runs % double == 1 || want_sample);
        if o.viol.is_none() {
            if history.len() >= 4096 {
                history.drain(..2048);
            }
            history.push((seed, twice));
        }
        if twice && o.viol.is_none() {
            doubles += 1;
            let q = exec(p, Choices::replay(o.recs.clone()), seed, true, apart);
            let same = q.hash == o.hash && q.events == o.events && q.viol.is_some() == o.viol.is_some();
            if !same && !apart && q.viol.is_none() {
                put(
                    &format!("{}/{}.nondet", dir, name),
                    &format!("run {} seed {}: two executions differ ({} / {} events)", i, seed, o.events, q.events),
                );
                return 3;
            }
            differed += !same as u64;
            if want_sample && q.viol.is_none() {
                let t = &q.trace;
                let mut s = format!("run {} seed {}: {} events; ", i, seed, q.events);
                s += &t.iter().take(70).cloned().collect::<Vec<_>>().join(" | ");
                if s.len() > 6000 {
                    let mut e = 6000;
                    while !s.is_char_boundary(e) {
                        e -= 1;
                    }
                    s.truncate(e);
                    s += " ...";
                }
                samples.push(s);
            }
            if q.viol.is_some() {
                // the second time only: the first is part of what led to it
                if let Some(h) = history.last_mut() {
                    h.1 = false;
                }
                o = q;
            }
        }
        if let Some(v) = o.viol {
            if known.iter().any(|k| v.class == *k) {
                *known_hits.entry(v.class.clone()).or_insert(0) += 1;
            } else {
                let path = format!("{}/{}.replay", dir, name);
                let mk = |recs: &[Vec<u64>; 3], v: &Viol| Replay {
                    prop: p.id.into(),
                    class: v.class.clone(),
                    msg: v.msg.clone(),
                    seed,
                    hash: 0,
                    recs: Some(recs.clone()),
                    history: Vec::new(),
                    trace: vec![format!("found by run {} (VERIF_SEED {}), not minimised", i, base)],
                };
                let mut whole = mk(&o.recs, &v);
                whole.history = history.clone();
                whole.write(&format!("{}/{}.whole", dir, name));
                mk(&o.recs, &v).write(&path);
                put(&format!("{}/{}.found", dir, name), &i.to_string());
                let class = v.class.clone();
                let orig = trim(o.recs.clone());
                let (best, execs) = shrink(
                    o.recs.clone(),
                    o.spans.clone(),
                    Duration::from_secs(40),
                    6000,
                    |c| {
                        prog.write_all(&i.to_le_bytes()).ok();
                        // a candidate may kill its process
                        match exec_apart(p, Choices::replay(c.clone()), seed, false) {
                            Ok(Sum { viol: Some(v), recs, spans, .. }) if v.class == class => Some((recs, spans)),
                            _ => None,
                        }
                    },
                    |b| mk(b, &v).write(&path),
                );
                let mut best = best;
                let last = |b: &[Vec<u64>; 3]| exec_apart(p, Choices::replay(b.clone()), seed, true).unwrap_or_default();
                let mut q = last(&best);
                if q.viol.is_none() {
                    best = o.recs.clone();
                    q = last(&best);
                }
                let (fv, hash) = match q.viol {
                    Some(ref w) => (w.clone(), q.hash),
                    None => (v.clone(), 0),
                };
                let mut r = mk(&best, &fv);
                r.hash = hash;
                r.trace = vec![format!(
                    "found by run {} (VERIF_SEED {}); minimised from {} to {} choices in {} runs",
                    i,
                    base,
                    size(&orig).0,
                    size(&best).0,
                    execs
                )];
                r.trace.extend(q.trace.iter().cloned());
                r.write(&path);
                found = Some((i, fv));
                complete = false;
                break;
            }
        }
        i += stride;
    }
    let mut s = String::new();
    s += &format!("runs\t{}\n", runs);
    s += &format!("faulted\t{}\n", faulted);
    s += &format!("crashes\t{}\n", crashes);
    s += &format!("doubles\t{}\n", doubles);
    s += &format!("sim_ns\t{}\n", sim_ns);
    s += &format!("calls\t{}\n", calls);
    s += &format!("switches\t{}\n", switches);
    s += &format!("preempts\t{}\n", preempts);
    s += &format!("slow\t{}\n", slowest.0);
    s += &format!("differed\t{}\n", differed);
    s += &format!("next\t{}\n", i);
    s += &format!("complete\t{}\n", complete as u64);
    for (k, v) in fired {
        s += &format!("fired:{}\t{}\n", k, v);
    }
    for (k, v) in probes {
        s += &format!("probe:{}\t{}\n", k, v);
    }
    for (k, v) in known_hits {
        s += &format!("known:{}\t{}\n", k, v);
    }
    for x in samples {
        s += &format!("sample\t{}\n", one_line(&x));
    }
    if let Some((i, _)) = found {
        s += &format!("violation\t{}\n", i);
    }
    let mut hb = Vec::with_capacity(seen.len() * 8);
    for h in seen {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(format!("{}/{}.hashes", dir, name), hb).expect("write hashes");
    put(&format!("{}/{}.done", dir, name), &s);
    0
}

// ------------------------------------------------------------ known findings --

pub fn verif_dir() -> String {
    std::env::var("SIMCHECK_HOME").unwrap_or_else(|_| "/verif".into())
}
/// entries "finding: property=<id> class=<class> :: <what fails>"
pub fn known_findings(prop: &str) -> Vec<(String, String)> {
    let s = fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (id, l) = l.split_once(" class=")?;
            let (class, what) = l.split_once(" :: ")?;
            if id == prop {
                Some((class.to_string(), what.to_string()))
            } else {
                None
            }
        })
        .collect()
}
fn known_classes(prop: &str) -> Vec<String> {
    known_findings(prop).into_iter().map(|x| x.0).collect()
}

// ------------------------------------------------------------------ parent --

struct W {
    child: Option<Child>,
    name: String,
    from: u64,
    last: Vec<u8>,
    since: Instant,
    shard: u64,
}

fn exe() -> std::path::PathBuf {
    std::env::current_exe().expect("exe")
}

/// Replay a file in a fresh process.  (status, output): 1 violated, 0 not, 10
/// hung, 11 died.
pub fn replay_fresh(path: &str, secs: u64, quiet: bool) -> (i32, String) {
    let mut c = Command::new(exe());
    c.arg("replay-inner").arg(path);
    c.stdin(Stdio::null()).stdout(Stdio::piped());
    c.stderr(if quiet { Stdio::null() } else { Stdio::inherit() });
    let mut ch = c.spawn().expect("spawn");
    let mut out = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        out.read_to_string(&mut s).ok();
        s
    });
    let t0 = Instant::now();
    loop {
        match ch.try_wait().expect("wait") {
            Some(st) => {
                let s = rd.join().unwrap_or_default();
                return match st.code() {
                    Some(96) => (10, s),
                    Some(c) => (c, s),
                    None => (11, s),
                };
            }
            None => {
                if t0.elapsed().as_secs() >= secs {
                    ch.kill().ok();
                    ch.wait().ok();
                    let s = rd.join().unwrap_or_default();
                    return (10, s);
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
    }
}

/// `replay-inner FILE`
pub fn replay_inner(props: &[Prop], path: &str) -> i32 {
    let r = match Replay::read(path) {
        Some(r) => r,
        None => {
            eprintln!("cannot read {}", path);
            return 2;
        }
    };
    let p = match props.iter().find(|p| p.id == r.prop) {
        Some(p) => p,
        None => return 2,
    };
    limit_memory(3);
    warm_up();
    let mut ch = r.choices();
    if r.recs.is_none() {
        // a run that never returns leaves its choices behind as it goes
        let f = fs::File::create(format!("{}.choices", path)).ok();
        ch.log = f.map(|f| {
            use std::os::fd::IntoRawFd;
            f.into_raw_fd()
        });
    }
    for (seed, twice) in &r.history {
        let o = run_once(p, Choices::gen(*seed), *seed, false);
        if *twice {
            run_once(p, Choices::replay(o.run.ch.recs()), *seed, true);
        }
    }
    let o = run_once(p, ch, r.seed, true);
    for t in &o.run.trace {
        println!("  {}", one_line(t));
    }
    match o.viol {
        Some(v) => {
            println!("violated: class {} -- {}", one_line(&v.class), one_line(&v.msg));
            println!("execution hash {}", o.run.hash);
            println!(
                "same class: {}, identical execution: {}",
                v.class == r.class,
                r.hash == 0 || r.hash == o.run.hash
            );
            if v.class == r.class && (r.hash == 0 || r.hash == o.run.hash) {
                1
            } else {
                4
            }
        }
        None => 0,
    }
}

/// A run that kills or hangs its process: recover its choices and minimise them
/// out of process.
fn settle_fatal(p: &Prop, base: u64, i: u64, dir: &str, want: i32) -> Option<Replay> {
    let seed = seed_of(base, p.id, i);
    let class = if want == 10 { "no-progress" } else { "process-death" };
    let mut r = Replay {
        prop: p.id.into(),
        class: class.into(),
        msg: if want == 10 {
            "the run does not finish: the code under test makes no progress".into()
        } else {
            "the run kills its process (abort, stack overflow or memory exhaustion)".into()
        },
        seed,
        hash: 0,
        recs: None,
        history: Vec::new(),
        trace: vec![format!("run {} (VERIF_SEED {})", i, base)],
    };
    let path = format!("{}/fatal.replay", dir);
    r.write(&path);
    let (st, _) = replay_fresh(&path, 100, true);
    if st != want && !(st == 10 || st == 11) {
        return None;
    }
    let want = st;
    r.class = if want == 10 { "no-progress" } else { "process-death" }.into();
    let log = fs::read(format!("{}.choices", path)).unwrap_or_default();
    let mut recs: [Vec<u64>; 3] = Default::default();
    for c in log.chunks_exact(9) {
        let mut b = [0u8; 8];
        b.copy_from_slice(&c[1..9]);
        if (c[0] as usize) < 3 {
            recs[c[0] as usize].push(u64::from_le_bytes(b));
        }
    }
    let seed_only = r.clone();
    r.recs = Some(recs.clone());
    r.write(&path);
    let per = if want == 10 { 8 } else { 30 };
    if replay_fresh(&path, per, true).0 != want {
        return Some(seed_only);
    }
    let cpath = format!("{}/fatal-cand.replay", dir);
    let rr = r.clone();
    let (best, _) = shrink(
        recs,
        Vec::new(),
        Duration::from_secs(90),
        400,
        |c| {
            let mut q = rr.clone();
            q.recs = Some(c.clone());
            q.write(&cpath);
            if replay_fresh(&cpath, per, true).0 == want {
                Some((c.clone(), Vec::new()))
            } else {
                None
            }
        },
        |_| {},
    );
    r.recs = Some(best);
    Some(r)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// (how many runs worker `name` has started, the index of the last)
fn last_index(dir: &str, name: &str) -> (u64, Option<u64>) {
    let b = fs::read(format!("{}/{}.progress", dir, name)).unwrap_or_default();
    let n = b.len() as u64 / 8;
    if n == 0 {
        return (0, None);
    }
    let mut x = [0u8; 8];
    x.copy_from_slice(&b[(n as usize - 1) * 8..n as usize * 8]);
    (n, Some(u64::from_le_bytes(x)))
}

struct Found {
    viol: Option<(Replay, Option<Replay>)>,
    err: Option<String>,
    names: Vec<String>,
    unrepro: u64,
}

/// The worker processes until they are through, one finds a violation, or the
/// time is over.
#[allow(clippy::too_many_arguments)]
fn search(p: &Prop, base: u64, total: u64, nw: u64, double: u64, dir: &str, t0: Instant, until: u64, apart: bool) -> Found {
    let spawn = |shard: u64, from: u64, gen: u64| -> W {
        let name = format!("{}{}-{}", if apart { "a" } else { "w" }, shard, gen);
        let left = until.saturating_sub(t0.elapsed().as_secs()).max(1);
        let c = Command::new(exe())
            .arg("worker")
            .arg(p.id)
            .args([
                base.to_string(),
                from.to_string(),
                nw.to_string(),
                total.to_string(),
                dir.to_string(),
                name.clone(),
                left.to_string(),
                double.to_string(),
                (apart as u64).to_string(),
            ])
            .stdin(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker");
        W {
            child: Some(c),
            name,
            from,
            last: Vec::new(),
            since: Instant::now(),
            shard,
        }
    };
    let mut ws: Vec<W> = (0..nw).map(|s| spawn(s, s, 0)).collect();
    let mut names: Vec<String> = ws.iter().map(|w| w.name.clone()).collect();
    let mut viol: Option<(Replay, Option<Replay>)> = None;
    let mut err: Option<String> = None;
    let mut unrepro = 0u64;
    let mut gen = 1u64;
    'outer: loop {
        let mut alive = false;
        for k in 0..ws.len() {
            let w = &mut ws[k];
            let ch = match w.child.as_mut() {
                Some(c) => c,
                None => continue,
            };
            let st = ch.try_wait().expect("wait");
            let mut fatal: Option<i32> = None;
            match st {
                Some(s) => {
                    w.child = None;
                    match s.code() {
                        Some(0) => {
                            let rp = format!("{}/{}.replay", dir, w.name);
                            if let Some(r) = Replay::read(&rp) {
                                viol = Some((r, Replay::read(&format!("{}/{}.whole", dir, w.name))));
                                break 'outer;
                            }
                        }
                        Some(3) => {
                            err = Some(
                                fs::read_to_string(format!("{}/{}.nondet", dir, w.name)).unwrap_or_default(),
                            );
                            break 'outer;
                        }
                        Some(96) => fatal = Some(10),
                        Some(c) => {
                            err = Some(format!("worker exit {}", c));
                            break 'outer;
                        }
                        None => fatal = Some(11),
                    }
                }
                None => {
                    alive = true;
                    let sz = fs::metadata(format!("{}/{}.progress", dir, w.name))
                        .map(|m| m.len())
                        .unwrap_or(0)
                        .to_le_bytes()
                        .to_vec();
                    if sz != w.last {
                        w.last = sz;
                        w.since = Instant::now();
                    } else if w.since.elapsed().as_secs() >= 45 {
                        ch.kill().ok();
                        ch.wait().ok();
                        w.child = None;
                        fatal = Some(10);
                    }
                }
            }
            if let Some(kind) = fatal {
                let (name, shard) = (w.name.clone(), w.shard);
                // killed while minimising: keep what it had
                let rp = format!("{}/{}.replay", dir, name);
                if let Some(r) = Replay::read(&rp) {
                    viol = Some((r, Replay::read(&format!("{}/{}.whole", dir, name))));
                    break 'outer;
                }
                let i = last_index(dir, &name).1.unwrap_or(w.from);
                // stop the others, so that timing is not an issue
                match settle_fatal(p, base, i, dir, kind) {
                    Some(r) => {
                        let known = known_classes(p.id);
                        if !known.iter().any(|c| *c == r.class) {
                            viol = Some((r, None));
                            break 'outer;
                        }
                    }
                    None => unrepro += 1,
                }
                if unrepro > 3 {
                    err = Some(format!("worker died {} times without a reproducible cause", unrepro));
                    break 'outer;
                }
                let next = i + nw;
                gen += 1;
                let nwk = spawn(shard, next, gen);
                names.push(nwk.name.clone());
                ws[k] = nwk;
                alive = true;
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // a violation elsewhere: let minimisation of nothing else continue
    for w in &mut ws {
        if let Some(c) = w.child.as_mut() {
            c.kill().ok();
            c.wait().ok();
        }
    }
    Found { viol, err, names, unrepro }
}

/// A replay of `r` that violates in a fresh process, and whether it is sure to.
fn settle(r: &Replay, whole: Option<Replay>, dir: &str) -> Option<Replay> {
    let tmp = format!("{}/settle.replay", dir);
    let t0 = Instant::now();
    let fatal = r.class == "no-progress" || r.class == "process-death";
    let holds = |r: &Replay| {
        r.write(&tmp);
        let (st, out) = replay_fresh(&tmp, 90, true);
        (if fatal { st == 10 || st == 11 } else { st == 1 }, out)
    };
    if holds(r).0 {
        return Some(r.clone());
    }
    let whole = whole?;
    let mut w = whole.clone();
    let n = whole.history.len();
    let mut k = 0;
    while t0.elapsed().as_secs() < 90 {
        w.history = whole.history[n - k..].to_vec();
        let (ok, out) = holds(&w);
        if ok {
            w.hash = out.lines().filter_map(|l| l.strip_prefix("execution hash ")).filter_map(|x| x.trim().parse().ok()).next().unwrap_or(0);
            w.trace.push(format!("repeats after {} earlier runs in the same process", k));
            if !holds(&w).0 {
                w.hash = 0;
            }
            return Some(w);
        }
        if k == n {
            break;
        }
        k = (k * 4).max(1).min(n);
    }
    None
}

pub fn check(p: &Prop, tier: &str, runs_override: Option<u64>, secs_override: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let home = verif_dir();
    println!("property {} tier {} VERIF_SEED {}", p.id, tier, base);
    let thorough = tier == "thorough";
    let total = runs_override.unwrap_or(if thorough { p.thorough } else { p.quick });
    let secs = secs_override.unwrap_or(if thorough { 700 } else { 240 });
    let nw: u64 = std::env::var("SIMCHECK_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let double = if thorough { 200 } else { 50 };
    let dir = format!("{}/target/run-{}-{}", home, p.id, std::process::id());
    fs::create_dir_all(&dir).expect("scratch");
    fs::create_dir_all(format!("{}/evidence", home)).ok();
    fs::create_dir_all(format!("{}/replays", home)).ok();

    let forced = std::env::var("SIMCHECK_APART").is_ok();
    let mut f = search(p, base, total, nw, double, &dir, t0, secs, forced);
    let mut apart = forced;
    let mut viol: Option<Replay> = None;
    let mut unsure: Option<Replay> = None;
    if let Some((r, whole)) = f.viol.take() {
        match settle(&r, whole, &dir) {
            Some(r) => viol = Some(r),
            None => unsure = Some(r),
        }
    }
    if viol.is_none() && !apart && (unsure.is_some() || f.err.is_some()) {
        let late = f.err.is_some() && unsure.is_none();
        // the code under test keeps something for the life of the process:
        // once more, each run in a process of its own
        println!(
            "runs in one process are not alike ({}): each in a process of its own now",
            unsure.as_ref().map(|r| r.class.clone()).or(f.err.take()).unwrap_or_default()
        );
        apart = true;
        f = search(p, base, total, nw, double, &dir, t0, t0.elapsed().as_secs() + secs.min(240), true);
        if let Some((r, whole)) = f.viol.take() {
            match settle(&r, whole, &dir) {
                Some(r) => viol = Some(r),
                None => unsure = Some(r),
            }
        }
        // ... and in one process, without comparing executions
        if late && viol.is_none() && unsure.is_none() && f.err.is_none() {
            let mut g = search(p, base, total, nw, 0, &dir, t0, t0.elapsed().as_secs() + 60, false);
            if let Some((r, whole)) = g.viol.take() {
                match settle(&r, whole, &dir) {
                    Some(r) => viol = Some(r),
                    None => unsure = Some(r),
                }
            }
        }
    }
    if viol.is_none() {
        if let Some(mut r) = unsure {
            r.trace.push("it did not repeat in a fresh process".into());
            viol = Some(r);
        }
    }
    let (err, names, unrepro) = (if viol.is_some() { None } else { f.err }, f.names, f.unrepro);

    // ---- aggregate
    let mut sum: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut done = 0;
    for n in &names {
        if let Ok(s) = fs::read_to_string(format!("{}/{}.done", dir, n)) {
            done += 1;
            for l in s.lines() {
                if let Some((k, v)) = l.split_once('\t') {
                    if k == "sample" {
                        samples.push(v.to_string());
                    } else if k == "slow" {
                        let e = sum.entry(k.to_string()).or_insert(0);
                        *e = (*e).max(v.parse::<u64>().unwrap_or(0));
                    } else {
                        *sum.entry(k.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                    }
                }
            }
        } else {
            // killed early: the runs it had started
            let k = last_index(&dir, n).0;
            *sum.entry("runs".into()).or_insert(0) += k.saturating_sub(1);
        }
        if let Ok(b) = fs::read(format!("{}/{}.hashes", dir, n)) {
            for c in b.chunks_exact(8) {
                let mut x = [0u8; 8];
                x.copy_from_slice(c);
                hashes.insert(u64::from_le_bytes(x));
            }
        }
    }
    let get = |k: &str| sum.get(k).copied().unwrap_or(0);
    let runs = get("runs");
    let wall = t0.elapsed().as_secs_f64();
    let group = |pre: &str| -> String {
        let v: Vec<String> = sum
            .iter()
            .filter_map(|(k, v)| k.strip_prefix(pre).map(|k| format!("{}: {}", js(k), v)))
            .collect();
        format!("{{{}}}", v.join(", "))
    };

    let mut code = 0;
    if let Some(r) = &viol {
        let path = format!("{}/replays/{}-{:016x}.replay", home, p.id, r.seed);
        r.write(&path);
        println!("violated: {}", r.msg);
        for t in r.trace.iter().take(120) {
            println!("  {}", one_line(t));
        }
        println!("VIOLATION property={} replay={}", p.id, path);
        code = 1;
    }
    if let Some(e) = &err {
        println!("HARNESS ERROR: {}", e);
        code = 2;
    }
    for (class, what) in known_findings(p.id) {
        if code == 0 {
            println!("KNOWN-FINDING: property={} {} (class {}, met in {} runs)", p.id, what, class, get(&format!("known:{}", class)));
        }
    }

    let per_h = |x: u64| (x as f64 / wall.max(0.001) * 3600.0) as u64;
    let mut ev = String::new();
    ev += "{\n";
    ev += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", js(p.id), js(tier), base);
    ev += " \"coverage\": {\n";
    ev += &format!("  \"evaluations\": {},\n", runs);
    ev += &format!("  \"distinct_nontrivial\": {},\n", hashes.len());
    ev += &format!("  \"rule\": {},\n", js(&format!("{} A run counts as non-trivial when at least one oracle comparison was made on a non-empty object; runs are told apart by a hash over every simulated call with its result, every fault, every client switch and every recorded operation.", p.rule)));
    ev += &format!("  \"samples\": [{}],\n", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    ev += &format!("  \"runs_planned\": {},\n", total);
    ev += &format!("  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n", per_h(runs), per_h(runs));
    ev += &format!("  \"simulated_seconds\": {:.3},\n", get("sim_ns") as f64 / 1e9);
    ev += &format!("  \"simulated_calls\": {},\n", get("calls"));
    ev += &format!("  \"client_switches\": {},\n", get("switches"));
    ev += &format!("  \"slowest_run_ms\": {},\n", get("slow"));
    if sys::instrumented() {
        ev += &format!("  \"preemptions_at_memory_accesses\": {},\n", get("preempts"));
    }
    ev += &format!("  \"runs_with_a_fault\": {},\n  \"process_crashes\": {},\n", get("faulted"), get("crashes"));
    ev += &format!("  \"faults_fired\": {},\n", group("fired:"));
    ev += &format!("  \"conditions_reached\": {},\n", group("probe:"));
    ev += &format!("  \"known_findings_met\": {},\n", group("known:"));
    ev += &format!("  \"runs_executed_twice_and_compared\": {},\n", get("doubles"));
    ev += &format!("  \"executions_that_differed\": {},\n  \"each_run_in_its_own_process\": {},\n", get("differed"), apart);
    ev += &format!("  \"worker_processes\": {},\n  \"workers_finished\": {},\n  \"watchdog_restarts_without_cause\": {},\n", nw, done, unrepro);
    ev += &format!("  \"components_real\": {},\n  \"components_stubbed\": {}\n", js(p.real), js(STUBS));
    ev += " },\n";
    let mut asm: Vec<&str> = vec![
        "single process crash model: what a completed write() put in the page cache survives, open files and memory do not; the library never asks for fsync, so loss of power is out of scope",
        "sampling, not enumeration: a clean batch is evidence, not proof",
    ];
    asm.extend(p.assumes);
    ev += &format!(" \"assumptions\": [{}],\n", asm.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    ev += &format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, (code == 1) as u32);
    put(&format!("{}/evidence/{}.json", home, p.id), &ev);
    println!(
        "{}: {} runs ({} distinct non-trivial), {} with faults, {:.1}s, exit {}",
        p.id,
        runs,
        hashes.len(),
        get("faulted"),
        wall,
        code
    );
    fs::remove_dir_all(&dir).ok();
    code
}

/// `digest PROP BASE FROM TO`: one line per run, for comparing processes.
pub fn digest(p: &Prop, base: u64, from: u64, to: u64) {
    limit_memory(3);
    warm_up();
    for i in from..to {
        let seed = seed_of(base, p.id, i);
        let o = run_once(p, Choices::gen(seed), seed, false);
        println!(
            "{} {} {:016x} {} {} {}",
            p.id,
            i,
            o.run.hash,
            o.run.events,
            o.run.fired_n,
            o.viol.map(|v| v.class).unwrap_or_else(|| "-".into())
        );
    }
}
