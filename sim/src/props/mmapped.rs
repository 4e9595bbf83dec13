//! D03: a memory-mapped dump that reports success gives the same graph back.
//! D07: an interrupted dump never makes up content.

use super::binary::gen_edge_vec;
use super::*;
use rust_graph::graph_impl::static_graph::mmap::EdgeVecMmap;
use rust_graph::graph_impl::static_graph::{EdgeVec, EdgeVecTrait};
use rust_graph::graph_impl::StaticGraphMmap;
use rust_graph::io::mmap::TypedMemoryMap;

pub const D03: Prop = Prop {
    id: "D03",
    run: d03,
    quick: 120_000,
    thorough: 1_500_000,
    rule: "A run dumps one to five generated graphs (directed and undirected, with and without node and edge labels, several id and label types) to one prefix, or edge vectors or plain slices, with storage faults armed; after every reported success, usually followed by a kill and restart, the dump is opened, sometimes under read faults: an open that returns must answer every query like the dumped graph, and may panic only if a fault fired. Some graphs stay open while their prefix is dumped to again, and must go on answering as before (a simulated mapping follows its file).",
    real: "rust_graph dump_mmap, StaticGraphMmap, EdgeVec, EdgeVecMmap, TypedMemoryMap, Serializer; memmap and std::fs code above libc",
    assumes: &["nothing but the library changes the files of a dump"],
};
pub const D07: Prop = Prop {
    id: "D07",
    run: d07,
    quick: 100_000,
    thorough: 1_500_000,
    rule: "A run dumps one to five generated graphs to one prefix, most of the dumps interrupted by a kill at a drawn call or by a failing write; after each interruption the prefix is opened. The open may fail and queries may panic, but every node, edge, neighbour and label that is reported must belong to one and the same graph that was dumped there; a graph that was open before goes on answering as it did.",
    real: "rust_graph dump_mmap, StaticGraphMmap, EdgeVec, EdgeVecMmap, TypedMemoryMap, Serializer; memmap and std::fs code above libc",
    assumes: &["counts and directedness of an interrupted dump are not judged, only content"],
};

macro_rules! pairs {
    ($f:ident) => {
        match pick(&[5, 3, 4, 1]) {
            0 => $f::<crate::cfg::C0U, crate::cfg::C0D>(),
            1 => $f::<crate::cfg::C1U, crate::cfg::C1D>(),
            2 => $f::<crate::cfg::C2U, crate::cfg::C2D>(),
            _ => $f::<crate::cfg::C3U, crate::cfg::C3D>(),
        }
    };
}
pub trait Same<U: Cfg>: Cfg<Id = U::Id, NL = U::NL, EL = U::EL, L = U::L> {}
impl<U: Cfg, D: Cfg<Id = U::Id, NL = U::NL, EL = U::EL, L = U::L>> Same<U> for D {}

enum St<U: Cfg, D: Cfg> {
    U(U::S),
    D(D::S),
}
impl<U: Cfg, D: Cfg> St<U, D> {
    fn build(m: &Model) -> St<U, D> {
        if m.directed {
            St::D(D::into_static(build::<D>(m)))
        } else {
            St::U(U::into_static(build::<U>(m)))
        }
    }
    fn dump(&self, p: &str) -> Result<(), String> {
        match self {
            St::U(g) => U::dump(g, p),
            St::D(g) => D::dump(g, p),
        }
    }
}
fn gen_dense<U: Cfg, D: Cfg>() -> Model {
    let o = GenOpts { min_nodes: if chance(200) { 0 } else { 1 }, huge: 4, ..Default::default() };
    if chance(500) {
        gen_model::<D>(o)
    } else {
        gen_model::<U>(o)
    }
}
type Mm<U> = StaticGraphMmap<<U as Cfg>::Id, <U as Cfg>::NL, <U as Cfg>::EL, <U as Cfg>::L>;

/// Open with or without faults; None if it failed for a reason.
fn open<T>(what: &str, f: impl Fn() -> T) -> Res<Option<T>> {
    if chance(350) {
        sys::replan_at(12);
        match faulty(what, OPENER, || Ok(f()))? {
            Out::Done(g) => return Ok(Some(g)),
            Out::Failed(_) => sys::probe("open failed under a fault"),
            Out::Crashed => {
                sys::probe("process killed while opening");
                sys::restart();
                return Ok(None);
            }
        }
        // once the fault is gone it opens
    }
    clean(what, || Ok(f())).map(Some)
}

fn dump_op(what: &str, f: impl FnOnce() -> Result<(), String>) -> Res<bool> {
    sys::replan_at(26);
    match faulty(what, WRITER, f)? {
        Out::Done(()) => {
            if sys::fired_total() > 0 {
                sys::probe("dump succeeded in a run with faults");
            }
            if chance(700) {
                sys::kill_now();
                sys::restart();
            }
            Ok(true)
        }
        Out::Failed(_) => {
            sys::probe("dump reported failure");
            Ok(false)
        }
        Out::Crashed => {
            sys::probe("process killed during dump");
            sys::restart();
            Ok(false)
        }
    }
}

fn d03() -> Res {
    pairs!(d03c)
}
fn d03c<U: Cfg, D: Same<U>>() -> Res {
    pick_style();
    sys::plan_faults(ALL_FAULTS, true, 130);
    if chance(120) {
        sys::set_cap(Some(draw(3000)));
    }
    let n = 1 + draw(5);
    let mut held: Held<U> = Held(None);
    let mut last: Option<Model> = None;
    for k in 0..n {
        sys::span(|| -> Res {
            if k + 1 == n && chance(400) {
                sys::heal();
                sys::plan_none();
            }
            match pick(&[8, 2, 1]) {
                0 => {
                    let m = or_alike(&last, gen_dense::<U, D>);
            last = Some(m.clone());
                    let p = if chance(150) { "/data/h" } else { "g" };
                    sys::note(|| format!("dump {} to {}", m.show(), p));
                    let st = St::<U, D>::build(&m);
                    if dump_op("mmap dump", || st.dump(p))? {
                        if let Some(g) = open("opening the mmap dump", || Mm::<U>::new(p))? {
                            sys::mark();
                            check_graph(&g, &m, ALL, "memory-mapped graph")?;
                            check_inner_neighbors::<U>(&g, &m)?;
                            if chance(200) {
                                // a second reader of the same files
                                let h = clean("opening the mmap dump", || Ok(Mm::<U>::new(p)))?;
                                check_graph(&h, &m, ALL, "memory-mapped graph")?;
                            }
                            held.check()?;
                            if chance(500) {
                                held.keep(g, m);
                            }
                        }
                    }
                    held.check()?;
                }
                1 => {
                    let ev: EdgeVec<U::Id, U::L> = gen_edge_vec::<U>();
                    sys::note(|| format!("dump EdgeVec, {} offsets {} edges {} labels", ev.get_offsets().len(), ev.get_edges().len(), ev.get_labels().len()));
                    if dump_op("edge vector dump", || ev.dump_mmap("ev").map_err(|e| e.to_string()))? {
                        if let Some(x) = open("opening the edge vector dump", || EdgeVecMmap::<U::Id, U::L>::new("ev"))? {
                            sys::mark();
                            check_ev(&ev, &x)?;
                        }
                    }
                }
                _ => {
                    let len = if chance(200) { [1249, 1250, 1251, 2500, 3000][draw(5) as usize] } else { draw(20) };
                    let seed = draw(1 << 16);
                    let mut r = crate::choice::Rng::new(seed);
                    let v: Vec<u64> = (0..len).map(|_| r.next()).collect();
                    sys::note(|| format!("dump slice of {}", v.len()));
                    let ok = dump_op("slice dump", || {
                        let f = std::fs::File::create("slice").map_err(|e| e.to_string())?;
                        unsafe { rust_graph::io::mmap::dump(&v, f) }.map_err(|e| e.to_string())
                    })?;
                    if ok {
                        if let Some(x) = open("opening the slice dump", || TypedMemoryMap::<u64>::new("slice"))? {
                            sys::mark();
                            let a = draw(len + 1) as usize;
                            let good = no_panic("reading the mapped slice", || x[..] == v[..] && x[a..] == v[a..] && x[..a] == v[..a] && x.len == v.len())?;
                            ensure!(good, "slice-content", "mapped slice of {} values differs (split at {})", v.len(), a);
                            // the same bytes as values of another type
                            let w: Vec<u32> = v.iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).collect();
                            let good = no_panic("reading the mapped slice", || {
                                let y = TypedMemoryMap::<u32>::with_mmap(x.map);
                                y[..] == w[..] && y[a..] == w[a..] && y[..a] == w[..a] && y.len == w.len()
                            })?;
                            ensure!(good, "slice-content", "mapped slice of {} values, taken over by another map, differs (split at {})", v.len(), a);
                        }
                    }
                }
            }
            Ok(())
        })?;
        if chance(500) {
            sys::heal();
        }
    }
    Ok(())
}

/// A mapped graph that stays open while its prefix is dumped to again.
struct Held<U: Cfg>(Option<(Mm<U>, Model, u64)>);
impl<U: Cfg> Held<U> {
    fn keep(&mut self, g: Mm<U>, m: Model) {
        self.0 = Some((g, m, sys::boots()));
    }
    fn check(&mut self) -> Res {
        match &self.0 {
            Some((_, _, b)) if *b != sys::boots() => self.0 = None,
            Some((g, m, _)) => check_graph(g, m, ALL, "memory-mapped graph that was open during a later dump")?,
            None => {}
        }
        Ok(())
    }
}

/// The neighbour lists as slices of the mapped file.
fn check_inner_neighbors<U: Cfg>(g: &Mm<U>, m: &Model) -> Res {
    no_panic("reading the mapped neighbours", || -> Res {
        let all: [(_, fn(&Mm<U>, U::Id) -> &[U::Id], _); 2] = [
            (m.adjacency(), Mm::<U>::inner_neighbors, "inner_neighbors"),
            (
                if m.directed { m.in_adjacency() } else { m.nodes.keys().map(|n| (*n, Default::default())).collect() },
                Mm::<U>::inner_in_neighbors,
                "inner_in_neighbors",
            ),
        ];
        for (want, f, what) in all {
            for (n, w) in want {
                let got: Vec<u64> = f(g, id::<U>(n)).iter().map(|x| x.id() as u64).collect();
                ensure!(got.iter().eq(w.iter()), "neighbors", "memory-mapped graph: {}({}) = {:?}, expected {:?}", what, n, got, w);
            }
        }
        Ok(())
    })?
}

pub fn check_ev<Id: IdType, L: IdType>(a: &EdgeVec<Id, L>, b: &EdgeVecMmap<Id, L>) -> Res {
    no_panic("reading the mapped edge vector", || -> Res {
        ensure!(a.get_offsets() == b.get_offsets(), "edgevec-content", "mapped offsets differ");
        ensure!(a.get_edges() == b.get_edges(), "edgevec-content", "mapped edges differ");
        ensure!(a.get_labels() == b.get_labels(), "edgevec-content", "mapped labels differ: {} / {}", a.get_labels().len(), b.get_labels().len());
        ensure!(a.num_nodes() == b.num_nodes() && a.num_edges() == b.num_edges(), "edgevec-content", "mapped counts differ");
        for i in 0..a.num_nodes().min(40) {
            let x = Id::new(i);
            ensure!(a.neighbors(x) == b.neighbors(x) && a.degree(x) == b.degree(x), "edgevec-content", "neighbours of {} differ", i);
            for j in 0..a.num_nodes().min(40) {
                let y = Id::new(j);
                ensure!(
                    a.has_edge(x, y) == b.has_edge(x, y)
                        && a.find_edge_index(x, y) == b.find_edge_index(x, y)
                        && a.find_edge_label_id(x, y) == b.find_edge_label_id(x, y)
                        && a.has_edge(x, y) == a.neighbors(x).contains(&y),
                    "edgevec-content",
                    "edge ({}, {}) differs",
                    i,
                    j
                );
            }
        }
        Ok(())
    })?
}

fn d07() -> Res {
    pairs!(d07c)
}
fn d07c<U: Cfg, D: Same<U>>() -> Res {
    pick_style();
    sys::plan_faults(WRITE_FAULTS, true, 30);
    if chance(120) {
        sys::set_cap(Some(draw(2000)));
    }
    let p = "g";
    let mut cands: Vec<Model> = Vec::new();
    let n = 1 + draw(5);
    let mut held: Held<U> = Held(None);
    let mut last: Option<Model> = None;
    for _ in 0..n {
        sys::span(|| -> Res {
            held.check()?;
            let m = or_alike(&last, gen_dense::<U, D>);
            last = Some(m.clone());
            sys::note(|| format!("dump {}", m.show()));
            let st = St::<U, D>::build(&m);
            if chance(350) {
                clean("mmap dump", || st.dump(p))?;
                let g = clean("opening the mmap dump", || Ok(Mm::<U>::new(p)))?;
                check_graph(&g, &m, ALL, "graph dumped over an interrupted dump")?;
                held.check()?;
                cands.clear();
                cands.push(m.clone());
                held.keep(g, m);
                return Ok(());
            }
            if dump_op("mmap dump", || st.dump(p))? {
                cands.clear();
                cands.push(m);
                return Ok(());
            }
            cands.push(m);
            let g = match attempt(|| Mm::<U>::new(p)) {
                Err(e) => {
                    sys::note(|| format!("open fails: {}", e));
                    sys::probe("an interrupted dump does not open");
                    return Ok(());
                }
                Ok(g) => g,
            };
            sys::probe("an interrupted dump opens");
            sys::mark();
            let mut why = String::new();
            for c in &cands {
                match within::<U>(&g, c) {
                    Ok(()) => return Ok(()),
                    Err(v) => {
                        if !why.is_empty() {
                            why += "; ";
                        }
                        why += &v;
                    }
                }
            }
            viol(
                "fabricated",
                format!("an interrupted dump opens and reports content of no graph dumped there: {}", why),
            )
        })?;
        if chance(600) {
            sys::heal();
        }
    }
    held.check()
}

/// Everything `g` reports belongs to `m`; queries may panic.
fn within<C: Cfg>(g: &Mm<C>, m: &Model) -> Result<(), String> {
    let nodes: Vec<u64> = attempt(|| g.node_indices().take(6000).map(|x| x.id() as u64).collect()).unwrap_or_default();
    for n in &nodes {
        if !m.nodes.contains_key(n) {
            return Err(format!("node {}", n));
        }
    }
    let adj = m.adjacency();
    let inn = m.in_adjacency();
    let empty = Default::default();
    for n in &nodes {
        let x = id::<C>(*n);
        if let Ok(Some(t)) = attempt(|| g.get_node_label(x).map(|l| l.text())) {
            let want = m.nodes[n].map(|k| C::NL::mk(k).text());
            if want.as_deref() != Some(&t) {
                return Err(format!("node {} has label {:?}, saved was {:?}", n, t, want));
            }
        }
        if let Ok(v) = attempt(|| g.neighbors_iter(x).map(|y| y.id() as u64).collect::<Vec<_>>()) {
            for t in v {
                if !adj.get(n).unwrap_or(&empty).contains(&t) {
                    return Err(format!("{} is a neighbour of {}", t, n));
                }
                if let Ok(Some(l)) = attempt(|| g.get_edge_label(x, id::<C>(t)).map(|l| l.text())) {
                    let want = m.label(*n, t).map(|k| C::EL::mk(k).text());
                    if want.as_deref() != Some(&l) {
                        return Err(format!("edge ({}, {}) has label {:?}, saved was {:?}", n, t, l, want));
                    }
                }
            }
        }
        if let Some(d) = g.as_digraph() {
            if let Ok(v) = attempt(|| d.in_neighbors_iter(x).map(|y| y.id() as u64).collect::<Vec<_>>()) {
                for t in v {
                    if !inn.get(n).unwrap_or(&empty).contains(&t) {
                        return Err(format!("{} is an in-neighbour of {}", t, n));
                    }
                }
            }
        }
    }
    let es: Vec<(u64, u64)> =
        attempt(|| g.edge_indices().take(20000).map(|(a, b)| (a.id() as u64, b.id() as u64)).collect()).unwrap_or_default();
    for (a, b) in es {
        if !m.has_edge(a, b) {
            return Err(format!("edge ({}, {})", a, b));
        }
    }
    Ok(())
}
