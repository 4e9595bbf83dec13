//! D08: after storage failures stop, a retry works; failures do not harm what
//! is in memory.

use super::binary::s;
use super::csv_import::{edges_only, import_csv, put_csv, Style};
use super::*;
use rust_graph::graph_impl::StaticGraphMmap;
use rust_graph::io::serde::{Deserialize, Serialize};

pub const D08: Prop = Prop {
    id: "D08",
    run: d08,
    quick: 200_000,
    thorough: 1_000_000,
    rule: "A run takes one operation (CSV, binary or memory-mapped export; CSV, binary or memory-mapped import), measures how many storage operations it takes undisturbed, then attempts it one to four times under faults and kills, then stops the faults and repeats it: the repetition must succeed, with the right result, within the undisturbed number of storage operations plus a small constant, leaving no file open. After every failure the graph in memory is checked: unchanged by a failed export; after a failed CSV import everything it had plus only nodes, edges and labels from the files, and consistent in itself.",
    real: "all of rust_graph's storage code, GraphMap, StaticGraph; csv, bincode, memmap and std::fs code above libc",
    assumes: &["progress is bounded in storage operations: the undisturbed number plus 8"],
};
const SLACK: u64 = 8;

fn d08() -> Res {
    dispatch!(d08c)
}

/// One export or import of `C` graphs.
enum Op {
    CsvOut(Option<usize>),
    BinOut,
    MmapOut,
    CsvIn(Style, bool),
    BinIn(bool),
    MmapIn,
}
impl Op {
    fn name(&self) -> &'static str {
        match self {
            Op::CsvOut(_) => "csv export",
            Op::BinOut => "binary export",
            Op::MmapOut => "mmap dump",
            Op::CsvIn(..) => "csv import",
            Op::BinIn(_) => "binary import",
            Op::MmapIn => "opening the mmap dump",
        }
    }
    fn may(&self) -> May {
        match self {
            Op::MmapIn => OPENER,
            Op::CsvIn(..) => CSV_READ,
            _ => WRITER,
        }
    }
}

fn overlay(base: &Model, f: &Model, nodes: bool) -> Model {
    let mut m = base.clone();
    if nodes {
        for (n, l) in &f.nodes {
            m.add_node(*n, *l);
        }
    }
    for ((s, t), l) in &f.edges {
        m.add_edge(*s, *t, *l);
    }
    m
}

/// What a CSV import that failed may have done to a graph.
fn check_partial<C: Cfg>(g: &C::G, base: &Model, f: &Model) -> Res {
    let now = match no_panic("querying the graph after a failed import", || model_of::<C>(g))? {
        Ok(m) => m,
        Err(e) => return viol("partial-import", format!("after a failed import: {}", e)),
    };
    check_graph(g, &now, ALL, "graph after a failed import")?;
    for n in base.nodes.keys() {
        ensure!(now.nodes.contains_key(n), "partial-lost", "after a failed import node {} is gone", n);
    }
    for (k, l) in &now.nodes {
        let (a, b) = (base.nodes.get(k), f.nodes.get(k));
        ensure!(a == Some(l) || b == Some(l), "partial-import", "after a failed import node {} has label {:?}; before {:?}, file {:?}", k, l, a, b);
    }
    for n in base.edges.keys() {
        ensure!(now.edges.contains_key(n), "partial-lost", "after a failed import edge {:?} is gone", n);
    }
    for (k, l) in &now.edges {
        let (a, b) = (base.edges.get(k), f.edges.get(k));
        ensure!(a == Some(l) || b == Some(l), "partial-import", "after a failed import edge {:?} has label {:?}; before {:?}, file {:?}", k, l, a, b);
    }
    Ok(())
}

fn d08c<C: Cfg>() -> Res {
    pick_style();
    let m = gen_model::<C>(GenOpts::default());
    let op = match pick(&[3, 3, 3, 4, 2, 2]) {
        0 => Op::CsvOut(if chance(400) { Some(draw(SEPS.len() as u64) as usize) } else { None }),
        1 => Op::BinOut,
        2 => Op::MmapOut,
        3 => Op::CsvIn(Style::gen(), !chance(150)),
        4 => Op::BinIn(chance(500)),
        _ => Op::MmapIn,
    };
    // what a CSV import goes into
    let base = if matches!(op, Op::CsvIn(..)) && chance(600) {
        gen_model::<C>(GenOpts {
            big: 0,
            ..Default::default()
        })
    } else {
        Model::new(C::DIRECTED)
    };
    let nodes_file = matches!(op, Op::CsvIn(_, true));
    let file = if nodes_file { m.clone() } else { edges_only(&m) };
    let goal = overlay(&base, &file, nodes_file);
    sys::note(|| format!("{} of {}; into {}", op.name(), m.show(), base.show()));
    // label ids must fit
    if C::LABELS == 255 && matches!(op, Op::CsvIn(..)) {
        let d = |v: &mut dyn Iterator<Item = &Lab>| v.flatten().collect::<std::collections::BTreeSet<_>>().len();
        if d(&mut base.nodes.values().chain(m.nodes.values())) > 200 || d(&mut base.edges.values().chain(m.edges.values())) > 200 {
            return Ok(());
        }
    }
    let gm = build::<C>(&m);
    let st = if m.dense() { Some(C::into_static(gm.clone())) } else { None };
    // the files an import reads
    match &op {
        Op::CsvIn(sty, _) => {
            put_csv::<C>(&m, sty, "n.csv", "e.csv");
        }
        Op::BinIn(false) => clean("binary export", || gm.export("a.bin").map_err(s))?,
        Op::BinIn(true) => clean("binary export", || st.as_ref().unwrap().export("a.bin").map_err(s))?,
        Op::MmapIn => clean("mmap dump", || C::dump(st.as_ref().unwrap(), "g"))?,
        _ => {
            // an older export may be there
            if chance(300) {
                for p in ["n.csv", "e.csv", "a.bin", "g.labels", "g_OUT.labels", "g_OUT.offsets", "g_IN.offsets", "g_IN.edges", "g_IN.labels", "g_aux.bin"] {
                    sys::vfs_put(p, b"older content, longer than nothing");
                }
            }
        }
    }
    let np = if nodes_file || !matches!(op, Op::CsvIn(..)) { Some("n.csv") } else { None };
    let use_static = st.is_some() && chance(400);
    let coin = chance(400); // same entry point for every attempt
    let run_op = |g: &mut C::G, out: &mut Option<Back<C>>| -> Result<(), String> {
        match &op {
            Op::CsvOut(sep) => {
                let x: &DynG<C> = if use_static { st.as_ref().unwrap() } else { &gm };
                csv_export::<C>(x, "n.csv", "e.csv", *sep)
            }
            Op::BinOut if use_static => st.as_ref().unwrap().export("a.bin").map_err(s),
            Op::BinOut => gm.export("a.bin").map_err(s),
            Op::MmapOut => C::dump(st.as_ref().unwrap(), "g"),
            Op::CsvIn(sty, _) => {
                let _ = coin;
                import_csv::<C>(g, sty, np, "e.csv")
            }
            Op::BinIn(false) => {
                *out = Some(Back::Map(C::G::import("a.bin").map_err(s)?));
                Ok(())
            }
            Op::BinIn(true) => {
                *out = Some(Back::Static(C::S::import("a.bin").map_err(s)?));
                Ok(())
            }
            Op::MmapIn => {
                *out = Some(Back::Mmap(StaticGraphMmap::new("g")));
                Ok(())
            }
        }
    };
    // undisturbed
    let disk = sys::disk_save();
    let s0 = sys::syscalls();
    {
        let mut g = build::<C>(&base);
        let mut out = None;
        clean(op.name(), || run_op(&mut g, &mut out))?;
    }
    let cost = sys::syscalls() - s0;
    sys::disk_restore(&disk);

    // attempts under faults
    sys::plan_faults(ALL_FAULTS, true, 30);
    if chance(150) {
        sys::set_cap(Some(draw(2000)));
    }
    let mut g = build::<C>(&base);
    for _ in 0..1 + draw(4) {
        let stop = sys::span(|| -> Res<bool> {
            sys::replan_at(2 + cost.min(60));
            let mut out = None;
            match faulty(op.name(), op.may(), || run_op(&mut g, &mut out))? {
                Out::Done(()) => return Ok(true),
                Out::Failed(_) => {
                    sys::probe("attempt failed");
                    drop(out);
                    let n = sys::open_fds();
                    ensure!(n == 0, "open-files", "{} files are still open after a failed {}", n, op.name());
                    if matches!(op, Op::CsvIn(..)) {
                        check_partial::<C>(&g, &base, &file)?;
                    }
                }
                Out::Crashed => {
                    sys::probe("process killed during the attempt");
                    sys::restart();
                    g = build::<C>(&base);
                }
            }
            if chance(250) {
                sys::kill_now();
                sys::restart();
                g = build::<C>(&base);
            }
            Ok(false)
        })?;
        if stop {
            break;
        }
        sys::mark();
    }
    check_graph(&gm, &m, ALL, "graph in memory after attempts to save it")?;
    if let Some(x) = &st {
        check_graph(x, &m, ALL, "static graph in memory after attempts to save it")?;
    }
    // failures stop
    sys::heal();
    let s0 = sys::syscalls();
    let mut out = None;
    clean(&format!("repeated {}", op.name()), || run_op(&mut g, &mut out))?;
    let took = sys::syscalls() - s0;
    ensure!(took <= cost + SLACK, "progress", "repeated {} took {} storage operations, undisturbed it takes {}", op.name(), took, cost);
    match &op {
        Op::CsvOut(sep) => check_csv_files::<C>(&m, "n.csv", "e.csv", sep.map(|i| SEPS[i].1).unwrap_or(b','))?,
        Op::BinOut if use_static => {
            let x = clean("binary import", || C::S::import("a.bin").map_err(s))?;
            check_graph(&x, &m, ALL, "graph saved by the retry")?;
        }
        Op::BinOut => {
            let x = clean("binary import", || C::G::import("a.bin").map_err(s))?;
            check_graph(&x, &m, ALL, "graph saved by the retry")?;
        }
        Op::MmapOut => {
            let x = clean("opening the mmap dump", || Ok(StaticGraphMmap::<C::Id, C::NL, C::EL, C::L>::new("g")))?;
            check_graph(&x, &m, ALL, "graph saved by the retry")?;
        }
        Op::CsvIn(..) => check_graph(&g, &goal, ALL, "graph imported by the retry")?,
        _ => match &out {
            Some(Back::Map(x)) => check_graph(x, &m, ALL, "graph loaded by the retry")?,
            Some(Back::Static(x)) => check_graph(x, &m, ALL, "graph loaded by the retry")?,
            Some(Back::Mmap(x)) => check_graph(x, &m, ALL, "graph mapped by the retry")?,
            None => {}
        },
    }
    drop(out);
    let n = sys::open_fds();
    ensure!(n == 0, "open-files", "{} files are still open after {}", n, op.name());
    Ok(())
}

enum Back<C: Cfg> {
    Map(C::G),
    Static(C::S),
    Mmap(StaticGraphMmap<C::Id, C::NL, C::EL, C::L>),
}
