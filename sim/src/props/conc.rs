//! D09: concurrent saves and loads do not disturb one another.

use super::binary::s;
use super::csv_import::{edges_only, put_csv, Style};
use super::*;
use rust_graph::graph_impl::StaticGraphMmap;
use rust_graph::io::serde::{Deserialize, Serialize};
use std::sync::Arc;

pub const D09: Prop = Prop {
    id: "D09",
    run: d09,
    quick: 30_000,
    thorough: 400_000,
    rule: "A run starts two to four client threads, each saving and loading one to three graphs (CSV, binary, memory-mapped; several savers share one graph object) under different file names (some loads are of the same files); the scheduler picks the running thread at every storage call and lock wait, and faults and kills hit drawn calls. Every operation must end as it would alone: success unless a failure hit that very thread, the right graph loaded, the right files on disk after all threads ended or the process was killed.",
    real: "all of rust_graph's storage code, GraphMap, StaticGraph; csv, bincode, memmap and std code above libc, on real threads run one at a time",
    assumes: &["switch points are storage calls, entropy requests, contended locks, and loads, stores and branches in rust_graph's code and what is instantiated from csv, bincode and std with its types; precompiled std code runs without a switch", "sequentially consistent memory"],
};

#[derive(Clone)]
enum Op {
    CsvOut(Option<usize>),
    BinOut,
    MmapOut,
    CsvIn(Style),
    BinIn,
    MmapIn,
    /// export, then import again what was exported
    RoundTrip,
}
enum Got<C: Cfg> {
    Ok,
    Map(C::G),
    Static(C::S),
    Mmap(StaticGraphMmap<C::Id, C::NL, C::EL, C::L>),
}
struct Job<C: Cfg> {
    op: Op,
    shared: bool,
    stat: bool,
    m: Model,
    form: Arc<Form<C>>,
    name: String,
    /// the files are called `<name>.<x>`, or else `g.<x><name>`, which differ in
    /// the extension only
    by_name: bool,
}
impl<C: Cfg> Clone for Job<C> {
    fn clone(&self) -> Self {
        Job {
            op: self.op.clone(),
            shared: self.shared,
            stat: self.stat,
            m: self.m.clone(),
            form: self.form.clone(),
            name: self.name.clone(),
            by_name: self.by_name,
        }
    }
}
struct Done<C: Cfg> {
    r: Result<Result<Got<C>, String>, String>,
    hard: bool,
    eintr: bool,
    crashed: bool,
}

impl<C: Cfg> Job<C> {
    fn file(&self, x: &str) -> String {
        if self.by_name {
            format!("{}.{}", self.name, x)
        } else {
            format!("g.{}{}", x, self.name)
        }
    }
    fn n(&self) -> String {
        self.file("n")
    }
    fn e(&self) -> String {
        self.file("e")
    }
    fn b(&self) -> String {
        self.file("bin")
    }
    fn prefix(&self) -> String {
        if self.by_name {
            self.name.clone()
        } else {
            self.file("m")
        }
    }
    fn what(&self) -> &'static str {
        match self.op {
            Op::CsvOut(_) => "concurrent csv export",
            Op::BinOut => "concurrent binary export",
            Op::MmapOut => "concurrent mmap dump",
            Op::CsvIn(_) => "concurrent csv import",
            Op::BinIn => "concurrent binary import",
            Op::MmapIn => "concurrent mmap open",
            Op::RoundTrip => "concurrent binary export and import",
        }
    }
    /// the files an import needs, made before the clients start
    fn prepare(&self) -> Res {
        match &self.op {
            Op::CsvIn(st) => {
                put_csv::<C>(&self.m, st, &self.n(), &self.e());
            }
            Op::BinIn => clean("binary export", || self.save_bin())?,
            Op::MmapIn => clean("mmap dump", || self.save_mmap())?,
            _ => {}
        }
        Ok(())
    }
    fn save_bin(&self) -> Result<(), String> {
        match &*self.form {
            Form::Map(g) => g.export(self.b()).map_err(s),
            Form::Static(g) => g.export(self.b()).map_err(s),
        }
    }
    fn load_bin(&self) -> Result<Got<C>, String> {
        Ok(match &*self.form {
            Form::Map(_) => Got::Map(C::G::import(self.b()).map_err(s)?),
            Form::Static(_) => Got::Static(C::S::import(self.b()).map_err(s)?),
        })
    }
    fn save_mmap(&self) -> Result<(), String> {
        match &*self.form {
            Form::Static(g) => C::dump(g, &self.prefix()),
            _ => Ok(()),
        }
    }
    /// no draws in here: it runs on a client thread
    fn go(&self) -> Result<Got<C>, String> {
        match &self.op {
            Op::CsvOut(sep) => {
                let (n, e) = (self.n(), self.e());
                match sep {
                    None if self.stat => rust_graph::io::csv::write_to_csv(self.form.g(), &n, &e),
                    None => CSVWriter::new(self.form.g(), &n, &e).write(),
                    Some(i) => CSVWriter::with_separator(self.form.g(), &n, &e, SEPS[*i].0).write(),
                }
                .map_err(s)?;
                Ok(Got::Ok)
            }
            Op::BinOut => self.save_bin().map(|_| Got::Ok),
            Op::MmapOut => self.save_mmap().map(|_| Got::Ok),
            Op::CsvIn(st) => {
                let mut g = C::new();
                let (n, e) = (self.n(), self.e());
                let n = if self.stat { None } else { Some(n.as_str()) };
                csv_reader::<C>(n, &e, st.sep).headers(st.headers).flexible(st.flexible).read(&mut g).map_err(s)?;
                Ok(Got::Map(g))
            }
            Op::BinIn => self.load_bin(),
            Op::MmapIn => Ok(Got::Mmap(StaticGraphMmap::new(&self.prefix()))),
            Op::RoundTrip => {
                self.save_bin()?;
                self.load_bin()
            }
        }
    }
    fn check(&self, d: &Done<C>) -> Res {
        let what = self.what();
        if d.crashed {
            return Ok(());
        }
        match &d.r {
            Err(e) => {
                ensure!(
                    matches!(self.op, Op::MmapIn) && d.hard,
                    format!("panic:{}", what),
                    "{} of {} panicked: {}",
                    what,
                    self.name,
                    e
                );
                sys::probe("a client's operation failed");
                Ok(())
            }
            Ok(Err(e)) => {
                let hard = d.hard || (d.eintr && matches!(self.op, Op::CsvIn(_)));
                ensure!(hard, format!("spurious-error:{}", what), "{} of {} failed although nothing below this thread failed: {}", what, self.name, e);
                sys::probe("a client's operation failed");
                Ok(())
            }
            Ok(Ok(got)) => {
                if !self.m.nodes.is_empty() {
                    sys::mark();
                }
                let m = if matches!(self.op, Op::CsvIn(_)) && self.stat { edges_only(&self.m) } else { self.m.clone() };
                let who = format!("graph of {} ({})", self.name, what);
                match got {
                    Got::Map(g) => check_graph(g, &m, ALL, &who)?,
                    Got::Static(g) => check_graph(g, &m, ALL, &who)?,
                    Got::Mmap(g) => check_graph(g, &m, ALL, &who)?,
                    Got::Ok => {}
                }
                match &self.op {
                    Op::CsvOut(sep) => {
                        check_csv_files::<C>(&m, &self.n(), &self.e(), sep.map(|i| SEPS[i].1).unwrap_or(b','))?;
                    }
                    Op::BinOut | Op::RoundTrip => {
                        match clean("binary import", || self.load_bin())? {
                            Got::Map(g) => check_graph(&g, &m, ALL, &who)?,
                            Got::Static(g) => check_graph(&g, &m, ALL, &who)?,
                            _ => {}
                        };
                    }
                    Op::MmapOut => {
                        let g = clean("opening the mmap dump", || Ok(StaticGraphMmap::<C::Id, C::NL, C::EL, C::L>::new(&self.prefix())))?;
                        check_graph(&g, &m, ALL, &who)?;
                    }
                    _ => {}
                }
                Ok(())
            }
        }
    }
}

fn d09() -> Res {
    dispatch!(d09c)
}
fn d09c<C: Cfg>() -> Res {
    pick_style();
    let clients = 2 + draw(3) as usize;
    let scheme = draw(5);
    let gen = || {
        gen_model::<C>(GenOpts {
            big: 18,
            ..Default::default()
        })
    };
    let shared_m = gen();
    let shared: Arc<Form<C>> = Arc::new(Form::Map(build::<C>(&shared_m)));
    let shared_s: Arc<Form<C>> = Arc::new(Form::Static(C::into_static(build::<C>(&shared_m))));
    let mut loads: Vec<Job<C>> = Vec::new();
    let mut jobs: Vec<Arc<Free<Vec<Job<C>>>>> = Vec::new();
    for c in 0..clients {
        let mut v = Vec::new();
        for k in 0..1 + draw(3) {
            let j = sys::span(|| -> Res<Job<C>> {
                // several threads may load the same files
                if !loads.is_empty() && chance(200) {
                    let j = loads[draw(loads.len() as u64) as usize].clone();
                    if C::SHARED == [true; 3] {
                        sys::note(|| format!("client {}: {} as {} too", c, j.what(), j.name));
                        return Ok(j);
                    }
                }
                let name = match scheme {
                    0 => format!("c{}k{}", c, k),
                    1 => {
                        sys::vfs_mkdir(&format!("/data/c{}", c));
                        format!("/data/c{}/k{}", c, k)
                    }
                    2 => format!("g.{}.{}", c, k),
                    3 => format!("{}x{}", c, k),
                    _ => format!("k{}.{}", k, c),
                };
                let op = match pick(&[4, 3, 3, 3, 2, 2, 2]) {
                    0 => Op::CsvOut(if chance(400) { Some(draw(SEPS.len() as u64) as usize) } else { None }),
                    1 => Op::BinOut,
                    2 => Op::MmapOut,
                    3 => Op::CsvIn(Style::gen()),
                    4 => Op::BinIn,
                    5 => Op::MmapIn,
                    _ => Op::RoundTrip,
                };
                let stat = chance(400);
                let mm = matches!(op, Op::MmapOut | Op::MmapIn);
                let is_shared = chance(500) && C::SHARED == [true; 3];
                let (m, form) = if is_shared {
                    (shared_m.clone(), if stat || mm { shared_s.clone() } else { shared.clone() })
                } else {
                    let m = gen();
                    let g = build::<C>(&m);
                    let f = if stat || mm { Form::Static(C::into_static(g)) } else { Form::Map(g) };
                    (m, Arc::new(f))
                };
                let j = Job {
                    op,
                    shared: is_shared,
                    stat,
                    m,
                    form,
                    name,
                    by_name: scheme != 3,
                };
                sys::note(|| format!("client {}: {} as {} (shared graph: {}) of {}", c, j.what(), j.name, j.shared, j.m.show()));
                j.prepare()?;
                Ok(j)
            })?;
            if matches!(j.op, Op::CsvIn(_) | Op::BinIn | Op::MmapIn) {
                loads.push(j.clone());
            }
            v.push(j);
        }
        jobs.push(Arc::new(Free::new(v)));
    }
    sys::plan_faults(ALL_FAULTS, true, 250);
    sys::replan_at(60);
    if chance(100) {
        sys::set_cap(Some(draw(4000)));
    }
    sys::preempt_style(if sys::instrumented() { pick(&[1, 3, 3, 2]) as u64 } else { 0 });
    sys::sched_start(clients);
    sys::arm(true);
    let hs: Vec<_> = (0..clients)
        .map(|c| {
            let jobs = jobs[c].clone();
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    sys::enter(c as i32);
                    sys::sched_wait_turn();
                    let mut out: Vec<Done<C>> = Vec::new();
                    for j in jobs.get() {
                        let (h0, e0) = sys::hard();
                        let r = attempt(|| sys::preemptible(|| j.go()));
                        let (h1, e1) = sys::hard();
                        out.push(Done {
                            r,
                            hard: h1 > h0,
                            eintr: e1 > e0,
                            crashed: sys::crashed(),
                        });
                        sys::yield_point();
                    }
                    sys::sched_finish();
                    sys::leave();
                    Free::new(out)
                })
                .expect("thread")
        })
        .collect();
    let mut all = Vec::new();
    for h in hs {
        match h.join() {
            Ok(v) => all.push(v.take()),
            Err(_) => return viol("client-panic", "a client thread panicked"),
        }
    }
    sys::arm(false);
    sys::sched_stop();
    if sys::crashed() || chance(300) {
        sys::kill_now();
        sys::restart();
    }
    sys::heal();
    for (c, v) in all.iter().enumerate() {
        for (j, d) in jobs[c].get().iter().zip(v) {
            j.check(d)?;
        }
    }
    check_graph(shared.g(), &shared_m, ALL, "shared graph")?;
    check_graph(shared_s.g(), &shared_m, ALL, "shared static graph")
}
