//! T01, T02: traversals.  T03, T04: connected components.

use super::hist::{shaky, text_snap, Mach, Uni};
use super::*;
use fixedbitset::FixedBitSet;
use rust_graph::algorithm::{Bfs, ConnComp, ConnSubgraph, Dfs};
use rust_graph::graph_impl::StaticGraphMmap;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const T01: Prop = Prop {
    id: "T01",
    run: t01,
    quick: 700_000,
    thorough: 5_000_000,
    rule: "A run makes a graph (generated, or by a mutation history; mutable, static or memory-mapped) and one to six breadth-first traversals of it from drawn starts; the scheduler picks which of them takes the next step, is cloned, dropped or started, either on one thread or on up to three threads sharing the graph. Every yielded node is checked when it comes: not seen before, nearest to the current root among the reachable nodes left; clones must repeat the original's sequence; every traversal ends after all nodes. A few runs walk deep graphs with tens of thousands of nodes on a thread with a small stack.",
    real: "Bfs, GraphMap, StaticGraph, StaticGraphMmap, fixedbitset, std collections; hash seeds from the simulated entropy source, files in the simulated kernel",
    assumes: &["ids up to 40000"],
};
pub const T02: Prop = Prop {
    id: "T02",
    run: t02,
    quick: 600_000,
    thorough: 5_000_000,
    rule: "As T01 with depth-first traversals, which may also be reset at drawn steps, made without a start, or rebuilt from a drawn stack and the set of nodes left; every yielded node must be an unvisited neighbour of the deepest node of the current path that has one, or start a new tree when no node of the path has one. A few runs walk deep graphs with tens of thousands of nodes on a thread with a small stack.",
    real: "Dfs, GraphMap, StaticGraph, StaticGraphMmap, fixedbitset, std collections; hash seeds from the simulated entropy source, files in the simulated kernel",
    assumes: &["ids up to 40000"],
};
pub const T03: Prop = Prop {
    id: "T03",
    run: t03,
    quick: 400_000,
    thorough: 5_000_000,
    rule: "A run feeds one or two component detectors (made from a graph, empty, or with a capacity) with edges in drawn order, with repetitions and loops, and with whole graphs, and interleaves this with queries, resets and clones; after drawn steps and at the end every answer (connected or not for all pairs, count, representatives, members) is compared with a partition computed anew from all that was fed in. A few runs stream tens of thousands of edges on a thread with a small stack.",
    real: "ConnComp, GraphMap, StaticGraph, StaticGraphMmap, std HashMap; hash seeds from the simulated entropy source",
    assumes: &[],
};
pub const T04: Prop = Prop {
    id: "T04",
    run: t04,
    quick: 250_000,
    thorough: 3_500_000,
    rule: "A run makes a graph (generated, or by a mutation history; mutable, static or memory-mapped), splits it into its connected subgraphs, sometimes on a thread with other hash seeds and with label code that panics at a drawn call (the split is then repeated), and compares every query of every subgraph with the model's component; the original must not change.",
    real: "ConnSubgraph, ConnComp, GraphMap, StaticGraph, StaticGraphMmap; hash seeds from the simulated entropy source",
    assumes: &["label sets fit the label id type"],
};

// ------------------------------------------------------------------ graphs --

pub type Mm<C> = StaticGraphMmap<<C as Cfg>::Id, <C as Cfg>::NL, <C as Cfg>::EL, <C as Cfg>::L>;
pub enum Rep<C: Cfg> {
    Map(C::G),
    Static(C::S),
    Mmap(Mm<C>),
}
impl<C: Cfg> Rep<C> {
    pub fn g(&self) -> &DynG<C> {
        match self {
            Rep::Map(g) => g,
            Rep::Static(g) => g,
            Rep::Mmap(g) => g,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Rep::Map(_) => "GraphMap",
            Rep::Static(_) => "StaticGraph",
            Rep::Mmap(_) => "StaticGraphMmap",
        }
    }
}

/// A graph that went through a history (removals included), ids not dense.
pub fn worn_graph<C: Cfg>() -> Res<(C::G, Model)> {
    let mut u = Uni::gen::<C>(true);
    if chance(400) {
        let k = [1, 3, 17, 97][draw(4) as usize];
        for x in u.ids.iter_mut() {
            *x = (*x * k).min(C::MAXID);
        }
        u.ids.dedup();
    }
    let mut x: Mach<C> = Mach::new();
    if chance(500) {
        let m = gen_model::<C>(GenOpts {
            big: 0,
            dense: chance(500),
            max_id: 60,
            ..Default::default()
        });
        x = Mach::of(build::<C>(&m), m);
    }
    let steps = match pick(&[4, 3, 1]) {
        0 => draw(10),
        1 => 5 + draw(30),
        _ => 40 + draw(60),
    };
    for _ in 0..steps {
        sys::span(|| x.step(&u))?;
    }
    Ok((x.g, x.m))
}

/// Some graph in some representation.
pub fn some_rep<C: Cfg>(big: u64, huge: u64) -> Res<(Rep<C>, Model)> {
    let (g, m) = match pick(&[4, 3, 3]) {
        0 => {
            let m = gen_model::<C>(GenOpts {
                dense: chance(600),
                min_nodes: 0,
                max_nodes: if chance(200) { 40 } else { 10 },
                big,
                huge,
                ..Default::default()
            });
            (build::<C>(&m), m)
        }
        1 => tree_like::<C>(),
        _ => worn_graph::<C>()?,
    };
    let r = if m.dense() && chance(500) {
        let st = no_panic("into_static", || C::into_static(g))?;
        if chance(300) {
            clean("mmap dump", || C::dump(&st, "t"))?;
            Rep::Mmap(clean("opening the mmap dump", || Ok(Mm::<C>::new("t")))?)
        } else {
            Rep::Static(st)
        }
    } else {
        Rep::Map(g)
    };
    sys::note(|| format!("{} of {}", r.name(), m.show()));
    Ok((r, m))
}

/// Sparse graphs with several components, long paths and cross edges.
fn tree_like<C: Cfg>() -> (C::G, Model) {
    let mut m = Model::new(C::DIRECTED);
    let n = (1 + draw(if chance(200) { 60 } else { 14 })).min(C::MAXID);
    let gap = if chance(300) { 1 + draw(4) } else { 1 };
    let lim = C::MAXID / gap;
    let lab = || if C::LABELS == 0 || chance(400) { None } else { Some(draw(C::LABELS.min(5) as u64) as u32) };
    for i in 0..n.min(lim) {
        m.add_node(i * gap, lab());
        if i > 0 && !chance(150) {
            let p = match draw(3) {
                0 => i - 1,
                1 => draw(i),
                _ => i.saturating_sub(1 + draw(3)),
            };
            if chance(300) {
                m.add_edge(i * gap, p * gap, lab());
            } else {
                m.add_edge(p * gap, i * gap, lab());
            }
        }
    }
    let n = m.nodes.len() as u64;
    for _ in 0..draw(n + 1) {
        m.add_edge(draw(n) * gap, draw(n) * gap, lab());
    }
    (build::<C>(&m), m)
}

pub type Adj = BTreeMap<u64, BTreeSet<u64>>;

// ---------------------------------------------------------------- T01, T02 --

pub trait Walk<'a, C: Cfg>: Clone + Iterator {
    const DEPTH: bool;
    fn start(r: &'a Rep<C>, s: Option<u64>) -> Self;
    fn go(&mut self) -> Option<u64>;
    fn go_iter(&mut self) -> Option<u64>;
    fn reset(&mut self) {}
    fn blank(r: &'a Rep<C>) -> Self;
    fn parts(r: &'a Rep<C>, stack: Vec<u64>, left: FixedBitSet) -> Self;
}
macro_rules! on_rep {
    ($r:expr, $g:ident => $e:expr) => {
        match $r {
            Rep::Map($g) => $e,
            Rep::Static($g) => $e,
            Rep::Mmap($g) => $e,
        }
    };
}
impl<'a, C: Cfg> Walk<'a, C> for Bfs<'a, C::Id, C::NL, C::EL, C::L> {
    const DEPTH: bool = false;
    fn start(r: &'a Rep<C>, s: Option<u64>) -> Self {
        on_rep!(r, g => Bfs::new(g, s.map(id::<C>)))
    }
    fn go(&mut self) -> Option<u64> {
        Bfs::next(self).map(|x| x.id() as u64)
    }
    fn go_iter(&mut self) -> Option<u64> {
        Iterator::next(self).map(|x| x.id() as u64)
    }
    fn blank(r: &'a Rep<C>) -> Self {
        Self::start(r, None)
    }
    fn parts(r: &'a Rep<C>, _: Vec<u64>, _: FixedBitSet) -> Self {
        Self::start(r, None)
    }
}
impl<'a, C: Cfg> Walk<'a, C> for Dfs<'a, C::Id, C::NL, C::EL, C::L> {
    const DEPTH: bool = true;
    fn start(r: &'a Rep<C>, s: Option<u64>) -> Self {
        on_rep!(r, g => Dfs::new(g, s.map(id::<C>)))
    }
    fn go(&mut self) -> Option<u64> {
        Dfs::next(self).map(|x| x.id() as u64)
    }
    fn go_iter(&mut self) -> Option<u64> {
        Iterator::next(self).map(|x| x.id() as u64)
    }
    fn reset(&mut self) {
        Dfs::reset(self)
    }
    fn blank(r: &'a Rep<C>) -> Self {
        on_rep!(r, g => Dfs::with_capacity(g))
    }
    fn parts(r: &'a Rep<C>, stack: Vec<u64>, left: FixedBitSet) -> Self {
        let st: Vec<C::Id> = stack.into_iter().map(id::<C>).collect();
        on_rep!(r, g => Dfs::from_parts(st, left, g))
    }
}

/// What a traversal may yield next.
#[derive(Clone)]
pub struct Orc {
    depth: bool,
    left: BTreeSet<u64>,
    /// breadth: nodes left of the current root's reachable set, with and by distance
    cur: BTreeMap<u64, u64>,
    near: BTreeSet<(u64, u64)>,
    /// depth: the current path
    path: Vec<u64>,
    /// the next roots, last first (None: any)
    roots: Vec<u64>,
    pub log: Vec<u64>,
}
impl Orc {
    pub fn new(depth: bool, m: &Model, start: Option<u64>) -> Orc {
        Orc {
            depth,
            left: m.nodes.keys().copied().collect(),
            cur: BTreeMap::new(),
            near: BTreeSet::new(),
            path: Vec::new(),
            roots: start.into_iter().collect(),
            log: Vec::new(),
        }
    }
    fn root(&mut self, v: u64) -> Result<(), String> {
        while let Some(r) = self.roots.last().copied() {
            if self.left.contains(&r) {
                if r != v {
                    return Err(format!("yields {} where node {} is to be visited first", v, r));
                }
                break;
            }
            self.roots.pop();
        }
        Ok(())
    }
    pub fn accept(&mut self, adj: &Adj, v: Option<u64>) -> Result<(), String> {
        let v = match v {
            None => {
                if self.left.is_empty() {
                    return Ok(());
                }
                return Err(format!("ends without {:?}", self.left.iter().take(40).collect::<Vec<_>>()));
            }
            Some(v) => v,
        };
        if !adj.contains_key(&v) {
            return Err(format!("yields {}, which is no node", v));
        }
        if !self.left.contains(&v) {
            return Err(format!("yields {} a second time", v));
        }
        if self.depth {
            while let Some(t) = self.path.last() {
                if adj[t].iter().any(|x| self.left.contains(x)) {
                    break;
                }
                self.path.pop();
            }
            match self.path.last() {
                Some(t) => {
                    if !adj[t].contains(&v) {
                        return Err(format!(
                            "yields {} while node {} of the current path still has unvisited neighbours {:?}",
                            v,
                            t,
                            adj[t].intersection(&self.left).collect::<Vec<_>>()
                        ));
                    }
                }
                None => self.root(v)?,
            }
            self.path.push(v);
        } else {
            if self.cur.is_empty() {
                self.root(v)?;
                // distances from the new root over what is left
                self.cur.insert(v, 0);
                let mut q = std::collections::VecDeque::from([v]);
                while let Some(x) = q.pop_front() {
                    let d = self.cur[&x];
                    for y in &adj[&x] {
                        if self.left.contains(y) && !self.cur.contains_key(y) {
                            self.cur.insert(*y, d + 1);
                            q.push_back(*y);
                        }
                    }
                }
                self.near = self.cur.iter().map(|(v, d)| (*d, *v)).collect();
            }
            let least = self.near.iter().next().unwrap().0;
            match self.cur.remove(&v) {
                None => return Err(format!("yields {} while {:?} are reachable and unvisited", v, self.cur.iter().take(40).collect::<Vec<_>>())),
                Some(d) if d > least => {
                    return Err(format!("yields {} at distance {} while nodes at distance {} are left", v, d, least))
                }
                Some(d) => self.near.remove(&(d, v)),
            };
        }
        self.left.remove(&v);
        self.log.push(v);
        Ok(())
    }
}

struct Task<W> {
    w: W,
    o: Orc,
    origin: usize,
}

/// Graphs too large for recursion: deep ones, on a thread with little stack.
fn large<C: Cfg>() -> Model {
    let n = 10_000 + draw(30_000);
    let mut m = Model::new(C::DIRECTED);
    let mut ids: Vec<u64> = (0..n).collect();
    let shape = draw(10);
    if shape == 3 || shape == 5 || shape == 9 {
        shuffle(&mut ids, &mut crate::choice::Rng::new(n));
    }
    for i in 0..n {
        m.add_node(i, None);
    }
    for i in 1..n {
        let (a, b) = match shape {
            0 | 3 => (i - 1, i),
            1 => (i, i - 1),
            // a tree, a comb, pairs, a ladder
            2 | 5 => ((i - 1) / 2, i),
            4 => (if i % 2 == 0 { i - 2 } else { i - 1 }, i),
            // hubs
            7 => (0, i),
            8 => (i - 1, n - 1),
            9 => (if i % 3 == 0 { 0 } else { n / 2 }, i),
            _ => (i - 1 - (i - 1) % 2, i),
        };
        m.add_edge(ids[a as usize], ids[b as usize], None);
    }
    sys::note(|| format!("shape {} with {} nodes", shape, n));
    m
}
fn little_stack<T>(f: impl FnOnce() -> Res<T>) -> Res<T> {
    in_thread_with(512 << 10, 7, f)
}
fn large_walk<C: Cfg>(depth: bool) -> Res {
    let m = large::<C>();
    let g = build::<C>(&m);
    let rep = if chance(500) { Rep::<C>::Map(g) } else { Rep::Static(no_panic("into_static", || C::into_static(g))?) };
    let n = m.nodes.len() as u64;
    let start = if chance(300) { None } else { Some([0, n - 1, n / 2, draw(n)][draw(4) as usize]) };
    sys::note(|| format!("from {:?}", start));
    let adj = m.adjacency();
    little_stack(|| {
        macro_rules! run {
            ($t:ty, $n:expr) => {{
                let mut w = no_panic($n, || <$t as Walk<C>>::start(&rep, start))?;
                let mut o = Orc::new(depth, &m, start);
                for k in 0..n + 1 {
                    let v = no_panic($n, || Walk::<C>::go(&mut w))?;
                    if let Err(e) = o.accept(&adj, v) {
                        return viol("order", format!("{} of a {} with {} nodes: after {} nodes it {}", $n, rep.name(), n, k, e));
                    }
                    ensure!(v.is_some() == (k < n), "endless", "{} does not end", $n);
                }
            }};
        }
        if depth {
            run!(Dfs<C::Id, C::NL, C::EL, C::L>, "Dfs")
        } else {
            run!(Bfs<C::Id, C::NL, C::EL, C::L>, "Bfs")
        }
        sys::probe("a graph with more than 10000 nodes");
        sys::mark();
        Ok(())
    })
}
fn large_components<C: Cfg>() -> Res {
    let m = large::<C>();
    let n = m.nodes.len() as u64;
    let mut es: Vec<(u64, u64)> = m.edges.keys().copied().collect();
    let order = draw(3);
    match order {
        0 => {}
        1 => es.reverse(),
        _ => shuffle(&mut es, &mut crate::choice::Rng::new(n)),
    }
    let cut = draw(n) as usize;
    let pick = draw(1 << 20);
    sys::note(|| format!("edges in order {}, queries after {}", order, cut));
    little_stack(|| {
        let mut cc: ConnComp<C::Id> = ConnComp::empty();
        let mut p = Part::default();
        for (k, (a, b)) in es.iter().enumerate() {
            let e: Edge<C::Id, C::L> = Edge::new(id::<C>(*a), id::<C>(*b), None);
            no_panic("process_new_edge", || cc.process_new_edge(&e))?;
            p.edge(*a, *b);
            if k != cut && k + 1 != es.len() {
                continue;
            }
            let (class, count) = p.classes();
            let mut r = crate::choice::Rng::new(pick);
            no_panic("querying components", || -> Res {
                ensure!(cc.get_count() == count, "count", "get_count() = {}, expected {} after {} edges", cc.get_count(), count, k + 1);
                for _ in 0..50 {
                    let (a, b) = (r.below(n), r.below(n));
                    let want = class.contains_key(&a) && class.get(&a) == class.get(&b);
                    let got = cc.is_connected(id::<C>(a), id::<C>(b));
                    ensure!(got == want, "connected", "is_connected({}, {}) = {} after {} edges", a, b, got, k + 1);
                }
                let a = r.below(n);
                let got = cc.get_connected_nodes(id::<C>(a)).map(|v| v.len());
                let want = class.get(&a).map(|c| class.values().filter(|k| *k == c).count());
                ensure!(got == want, "members", "get_connected_nodes({}) has {:?} nodes, expected {:?} after {} edges", a, got, want, k + 1);
                Ok(())
            })??;
        }
        sys::probe("more than 10000 edges");
        sys::mark();
        Ok(())
    })
}

fn t01() -> Res {
    dispatch!(t01c)
}
fn t01c<C: Cfg>() -> Res {
    pick_style();
    sys::plan_none();
    if C::MAXID > 1 << 16 && chance(2) {
        return large_walk::<C>(false);
    }
    let (rep, m) = some_rep::<C>(6, 0)?;
    if chance(60) {
        return threads::<C>(rep, m, false);
    }
    walk::<C, Bfs<C::Id, C::NL, C::EL, C::L>>(&rep, &m)
}
fn t02() -> Res {
    dispatch!(t02c)
}
fn t02c<C: Cfg>() -> Res {
    pick_style();
    sys::plan_none();
    if C::MAXID > 1 << 16 && chance(2) {
        return large_walk::<C>(true);
    }
    let (rep, m) = some_rep::<C>(6, 0)?;
    if chance(60) {
        return threads::<C>(rep, m, true);
    }
    walk::<C, Dfs<C::Id, C::NL, C::EL, C::L>>(&rep, &m)
}

fn walk<'a, C: Cfg, W: Walk<'a, C>>(rep: &'a Rep<C>, m: &Model) -> Res {
    let name = if W::DEPTH { "Dfs" } else { "Bfs" };
    let adj = m.adjacency();
    let ids: Vec<u64> = m.nodes.keys().copied().collect();
    // a start that is not there, or no node at all
    let absent = ids.last().map(|x| x + 1 + draw(3)).unwrap_or(0).min(C::Id::max_usize() as u64);
    if !m.nodes.contains_key(&absent) && (ids.is_empty() || chance(60)) {
        let s = if ids.is_empty() && chance(500) { None } else { Some(absent) };
        sys::note(|| format!("{} from {:?}, which is not there", name, s));
        if let Ok(v) = attempt(|| {
            let mut w = W::start(rep, s);
            w.go()
        }) {
            ensure!(v.is_none(), "absent-start", "{} from {:?}, which is not in the graph, visits {:?}", name, s, v);
        }
    }
    if ids.is_empty() {
        return Ok(());
    }
    let n = ids.len() as u64;
    let mut tasks: Vec<Task<W>> = Vec::new();
    let mut logs: Vec<Vec<u64>> = Vec::new();
    // `origin` counts runs of the same sequence: clones share it
    let begin = |tasks: &mut Vec<Task<W>>, logs: &mut Vec<Vec<u64>>| -> Res {
        let s = if chance(250) { None } else { Some(ids[draw(n) as usize]) };
        let blank = W::DEPTH && chance(120);
        sys::note(|| format!("{} {} starts {}", name, logs.len(), if blank { "blank".into() } else { format!("from {:?}", s) }));
        let (w, o) = if blank {
            (no_panic("with_capacity", || W::blank(rep))?, Orc::new(W::DEPTH, m, None))
        } else {
            (no_panic(name, || W::start(rep, s))?, Orc::new(W::DEPTH, m, s))
        };
        tasks.push(Task { w, o, origin: logs.len() });
        logs.push(Vec::new());
        Ok(())
    };
    let step = |t: &mut Task<W>, logs: &mut Vec<Vec<u64>>| -> Res<bool> {
        let at = t.o.log.len();
        let it = chance(300);
        let v = no_panic(name, || if it { t.w.go_iter() } else { t.w.go() })?;
        if let Err(e) = t.o.accept(&adj, v) {
            return viol(
                "order",
                format!("{} of {}: after {:?} it {}", name, m.show(), t.o.log, e),
            );
        }
        if let Some(v) = v {
            let l = &mut logs[t.origin];
            if at < l.len() {
                ensure!(l[at] == v, "clone", "{} of {}: a clone yields {} where the original yielded {} after {:?}", name, m.show(), v, l[at], &l[..at]);
            } else {
                l.push(v);
            }
        }
        Ok(v.is_some())
    };
    begin(&mut tasks, &mut logs)?;
    let steps = match pick(&[3, 3, 1]) {
        0 => draw(n + 2),
        1 => draw(3 * n + 4),
        _ => draw(8 * n + 10),
    }
    .min(400);
    for _ in 0..steps {
        sys::span(|| -> Res {
            let i = draw(tasks.len() as u64) as usize;
            match pick(&[30, 3, 3, 1, 2, 2]) {
                1 => {
                    if tasks.len() < 6 {
                        sys::note(|| format!("traversal {} is cloned", i));
                        let t = Task {
                            w: tasks[i].w.clone(),
                            o: tasks[i].o.clone(),
                            origin: tasks[i].origin,
                        };
                        tasks.push(t);
                    }
                }
                2 => {
                    if tasks.len() < 6 {
                        begin(&mut tasks, &mut logs)?;
                    }
                }
                3 => {
                    if tasks.len() > 1 {
                        tasks.remove(i);
                    }
                }
                4 if W::DEPTH => {
                    sys::note(|| format!("traversal {} is reset", i));
                    let t = &mut tasks[i];
                    no_panic("reset", || t.w.reset())?;
                    t.o = Orc::new(true, m, None);
                    t.origin = logs.len();
                    logs.push(Vec::new());
                }
                5 if W::DEPTH => {
                    // a checkpoint: what is left, and where to go on
                    let left = tasks[i].o.left.clone();
                    let lv: Vec<u64> = left.iter().copied().collect();
                    let mut stack: Vec<u64> = Vec::new();
                    if !lv.is_empty() {
                        match draw(3) {
                            0 => {
                                if let Some(t) = tasks[i].o.path.last() {
                                    stack.extend(adj[t].intersection(&left));
                                }
                            }
                            _ => {
                                for _ in 0..draw(4) {
                                    stack.push(lv[draw(lv.len() as u64) as usize]);
                                }
                            }
                        }
                    }
                    let cap = rep.g().max_seen_id().map(|x| x.id() + 1).unwrap_or(0);
                    let mut bits = FixedBitSet::with_capacity(cap);
                    let cleared = chance(500);
                    for x in &lv {
                        if !(cleared && stack.contains(x)) {
                            bits.insert(*x as usize);
                        }
                    }
                    sys::note(|| format!("traversal {} is rebuilt with stack {:?} and {:?} left", i, stack, lv));
                    let st = stack.clone();
                    let w = no_panic("from_parts", || W::parts(rep, st, bits))?;
                    let mut o = Orc::new(true, m, None);
                    o.left = left;
                    o.roots = stack;
                    tasks[i] = Task { w, o, origin: logs.len() };
                    logs.push(Vec::new());
                }
                _ => {
                    let k = if chance(800) { 1 } else { 1 + draw(5) };
                    for _ in 0..k {
                        if !step(&mut tasks[i], &mut logs)? {
                            break;
                        }
                    }
                }
            }
            Ok(())
        })?;
    }
    // everything that was started ends
    for mut t in tasks {
        let mut k = 0;
        while step(&mut t, &mut logs)? {
            k += 1;
            ensure!(k <= n, "endless", "{} does not end", name);
        }
        ensure!(!step(&mut t, &mut logs)?, "endless", "{} goes on after its end", name);
    }
    sys::mark();
    Ok(())
}

/// The same on several threads that share the graph.
fn threads<C: Cfg>(rep: Rep<C>, m: Model, depth: bool) -> Res {
    if m.nodes.is_empty() || C::SHARED != [true; 3] {
        return Ok(());
    }
    let ids: Vec<u64> = m.nodes.keys().copied().collect();
    let rep = Arc::new(Free::new(rep));
    let clients = 2 + draw(2) as usize;
    let scripts: Vec<Vec<Option<u64>>> = (0..clients)
        .map(|_| (0..1 + draw(3)).map(|_| if chance(300) { None } else { Some(ids[draw(ids.len() as u64) as usize]) }).collect())
        .collect();
    sys::sched_start(clients);
    let hs: Vec<_> = (0..clients)
        .map(|c| {
            let script = scripts[c].clone();
            let rep = rep.clone();
            let lim = ids.len() + 1;
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    sys::enter(c as i32);
                    sys::sched_wait_turn();
                    let r = attempt(|| {
                        let mut out: Vec<Vec<u64>> = Vec::new();
                        for s in &script {
                            let mut log = Vec::new();
                            macro_rules! run {
                                ($t:ty) => {{
                                    let mut w = <$t as Walk<C>>::start(rep.get(), *s);
                                    while let Some(v) = Walk::<C>::go(&mut w) {
                                        log.push(v);
                                        if log.len() > lim {
                                            break;
                                        }
                                        sys::yield_point();
                                    }
                                }};
                            }
                            if depth {
                                run!(Dfs<C::Id, C::NL, C::EL, C::L>)
                            } else {
                                run!(Bfs<C::Id, C::NL, C::EL, C::L>)
                            }
                            out.push(log);
                        }
                        out
                    });
                    sys::sched_finish();
                    sys::leave();
                    r
                })
                .expect("thread")
        })
        .collect();
    let mut all = Vec::new();
    for h in hs {
        match h.join() {
            Ok(Ok(v)) => all.push(v),
            Ok(Err(e)) => return viol("panic:traversal", format!("a traversal on one of several threads panicked: {}", e)),
            Err(_) => return viol("panic:traversal", "a traversal on one of several threads panicked"),
        }
    }
    sys::sched_stop();
    let adj = m.adjacency();
    for (script, logs) in scripts.iter().zip(&all) {
        for (s, log) in script.iter().zip(logs) {
            let mut o = Orc::new(depth, &m, *s);
            for v in log.iter().map(|v| Some(*v)).chain([None]) {
                if let Err(e) = o.accept(&adj, v) {
                    return viol("order", format!("traversal from {:?} of {} on one of {} threads: after {:?} it {}", s, m.show(), clients, o.log, e));
                }
            }
        }
    }
    sys::mark();
    Ok(())
}

// --------------------------------------------------------------------- T03 --

/// A partition of the nodes seen so far.
#[derive(Clone, Default)]
pub struct Part {
    nodes: BTreeSet<u64>,
    edges: BTreeSet<(u64, u64)>,
}
impl Part {
    /// component number of every node, and how many there are
    pub fn classes(&self) -> (BTreeMap<u64, u64>, usize) {
        let mut adj: BTreeMap<u64, Vec<u64>> = self.nodes.iter().map(|n| (*n, Vec::new())).collect();
        for (a, b) in &self.edges {
            adj.get_mut(a).unwrap().push(*b);
            adj.get_mut(b).unwrap().push(*a);
        }
        let mut c: BTreeMap<u64, u64> = BTreeMap::new();
        let mut k = 0;
        for n in &self.nodes {
            if c.contains_key(n) {
                continue;
            }
            k += 1;
            let mut st = vec![*n];
            while let Some(x) = st.pop() {
                if c.insert(x, *n).is_none() {
                    st.extend(&adj[&x]);
                }
            }
        }
        (c, k)
    }
    fn edge(&mut self, a: u64, b: u64) {
        self.nodes.insert(a);
        self.nodes.insert(b);
        self.edges.insert((a, b));
    }
    pub fn graph(&mut self, m: &Model) {
        self.nodes.extend(m.nodes.keys());
        for (a, b) in m.edges.keys() {
            self.edge(*a, *b);
        }
    }
}

fn t03() -> Res {
    dispatch!(t03c)
}

fn check_cc<C: Cfg>(cc: &ConnComp<C::Id>, p: &Part, ids: &[u64], full: bool) -> Res {
    let (class, count) = p.classes();
    let show = || format!("nodes {:?} edges {:?}", p.nodes.iter().take(40).collect::<Vec<_>>(), p.edges.iter().take(60).collect::<Vec<_>>());
    no_panic("querying components", || {
        // queries in a drawn order: they rearrange the detector's state
        let order = draw(4);
        for k in 0..4 {
            match (k + order) % 4 {
                0 => {
                    ensure!(cc.get_count() == count, "count", "get_count() = {}, expected {} ({})", cc.get_count(), count, show());
                    let known: BTreeSet<u64> = cc.parent().keys().map(|x| x.id() as u64).collect();
                    ensure!(known == p.nodes, "known", "the detector knows {:?}, expected {:?}", known, p.nodes);
                }
                1 => {
                    let mut roots: BTreeMap<u64, u64> = BTreeMap::new();
                    for x in ids {
                        let r = cc.get_root(id::<C>(*x)).map(|r| r.id() as u64);
                        let par = cc.get_parent(id::<C>(*x)).map(|r| r.id() as u64);
                        match class.get(x) {
                            None => {
                                ensure!(r.is_none() && par.is_none(), "root", "get_root({}) = {:?}, get_parent = {:?} for an unknown node", x, r, par);
                            }
                            Some(c) => {
                                let (r, par) = match (r, par) {
                                    (Some(a), Some(b)) => (a, b),
                                    _ => return viol("root", format!("get_root({}) = {:?}, get_parent = {:?} for a known node", x, r, par)),
                                };
                                ensure!(class.get(&r) == Some(c), "root", "get_root({}) = {} is in another component ({})", x, r, show());
                                ensure!(class.get(&par) == Some(c), "root", "get_parent({}) = {} is in another component ({})", x, par, show());
                                let w = *roots.entry(*c).or_insert(r);
                                ensure!(w == r, "root", "get_root({}) = {}, another node of its component has root {} ({})", x, r, w, show());
                                ensure!(cc.get_root(id::<C>(r)) == Some(id::<C>(r)), "root", "the root {} of {} is not its own root", r, x);
                            }
                        }
                    }
                }
                2 => {
                    let mut pairs = Vec::new();
                    if ids.len() <= 14 || full && ids.len() <= 60 {
                        for a in ids {
                            for b in ids {
                                pairs.push((*a, *b));
                            }
                        }
                    } else {
                        let mut r = crate::choice::Rng::new(draw(1 << 16));
                        for _ in 0..100 {
                            pairs.push((ids[r.below(ids.len() as u64) as usize], ids[r.below(ids.len() as u64) as usize]));
                        }
                    }
                    for (a, b) in pairs {
                        let want = class.contains_key(&a) && class.get(&a) == class.get(&b);
                        let got = cc.is_connected(id::<C>(a), id::<C>(b));
                        ensure!(got == want, "connected", "is_connected({}, {}) = {} ({})", a, b, got, show());
                    }
                }
                _ => {
                    let few: Vec<u64> = if ids.len() > 30 { (0..10).map(|_| ids[draw(ids.len() as u64) as usize]).collect() } else { ids.to_vec() };
                    for x in few {
                        let got = cc.get_connected_nodes(id::<C>(x));
                        let want: Option<Vec<u64>> = class.get(&x).map(|c| class.iter().filter(|(_, k)| *k == c).map(|(n, _)| *n).collect());
                        let got = got.map(|v| {
                            let mut v: Vec<u64> = v.iter().map(|i| i.id() as u64).collect();
                            v.sort();
                            v
                        });
                        ensure!(got == want, "members", "get_connected_nodes({}) = {:?}, expected {:?} ({})", x, got, want, show());
                    }
                }
            }
        }
        sys::mark();
        Ok(())
    })?
}

fn t03c<C: Cfg>() -> Res {
    pick_style();
    sys::plan_none();
    if C::MAXID > 1 << 16 && chance(2) {
        return large_components::<C>();
    }
    let n = match pick(&[6, 2, 1]) {
        0 => 2 + draw(9),
        1 => 10 + draw(30),
        _ => 60 + draw(120),
    };
    let mut ids: Vec<u64> = (0..n).map(|i| if chance(100) { draw(C::MAXID + 1) } else { i }).collect();
    ids.sort();
    ids.dedup();
    let any = || ids[draw(ids.len() as u64) as usize];
    let mut probe = ids.clone();
    let mut dets: Vec<(ConnComp<C::Id>, Part)> = Vec::new();
    let fresh = |probe: &mut Vec<u64>| -> Res<(ConnComp<C::Id>, Part)> {
        let mut p = Part::default();
        let cc = match pick(&[3, 2, 4]) {
            0 => ConnComp::empty(),
            1 => ConnComp::with_capacity(draw(50) as usize),
            _ => {
                let (rep, m) = some_rep::<C>(0, 0)?;
                p.graph(&m);
                for x in m.nodes.keys() {
                    if !probe.contains(x) {
                        probe.push(*x);
                    }
                }
                no_panic("ConnComp::new", || ConnComp::new(rep.g()))?
            }
        };
        Ok((cc, p))
    };
    dets.push(fresh(&mut probe)?);
    let steps = match pick(&[4, 3, 1]) {
        0 => draw(10),
        1 => 5 + draw(40),
        _ => 40 + draw(200),
    };
    let style = draw(4);
    for k in 0..steps {
        sys::span(|| -> Res {
            let i = draw(dets.len() as u64) as usize;
            match pick(&[30, 8, 1, 2, 2, 2]) {
                0 => {
                    let (a, b) = match style {
                        // a path, a star, a shuffled path, anything
                        1 => {
                            let j = k as usize % ids.len();
                            (ids[j], ids[(j + 1) % ids.len()])
                        }
                        2 => (any(), ids[0]),
                        3 => {
                            let j = draw(ids.len() as u64) as usize;
                            (ids[(j + 1) % ids.len()], ids[j])
                        }
                        _ => (any(), any()),
                    };
                    sys::note(|| format!("detector {}: edge {}-{}", i, a, b));
                    let (cc, p) = &mut dets[i];
                    let e: Edge<C::Id, C::L> = Edge::new(id::<C>(a), id::<C>(b), None);
                    match draw(3) {
                        0 => no_panic("process_new_edge", || cc.process_new_edge(&e))?,
                        1 => {
                            let t = EdgeType::Edge(e);
                            no_panic("process_new_edge", || cc.process_new_edge(&t))?
                        }
                        _ => {
                            let mut g = C::new();
                            g.add_edge(id::<C>(a), id::<C>(b), None);
                            let t = g.remove_edge(id::<C>(a), id::<C>(b));
                            no_panic("process_new_edge", || cc.process_new_edge(&t))?
                        }
                    }
                    p.edge(a, b);
                }
                1 => {
                    // single queries between edges
                    let (cc, p) = &dets[i];
                    let (a, b) = (any(), any());
                    let (cl, cnt) = p.classes();
                    let (q, r, c) = no_panic("querying components", || (cc.is_connected(id::<C>(a), id::<C>(b)), cc.get_root(id::<C>(a)), cc.get_count()))?;
                    let want = cl.contains_key(&a) && cl.get(&a) == cl.get(&b);
                    ensure!(q == want, "connected", "is_connected({}, {}) = {}", a, b, q);
                    ensure!(r.is_some() == cl.contains_key(&a), "root", "get_root({}) = {:?}", a, r);
                    ensure!(c == cnt, "count", "get_count() = {}, expected {}", c, cnt);
                }
                2 => {
                    sys::note(|| format!("detector {} reset", i));
                    let (cc, p) = &mut dets[i];
                    no_panic("reset", || cc.reset())?;
                    *p = Part::default();
                }
                3 => {
                    let (rep, m) = some_rep::<C>(0, 0)?;
                    let (cc, p) = &mut dets[i];
                    if chance(500) {
                        sys::note(|| format!("detector {} runs over that graph", i));
                        no_panic("run_detection", || cc.run_detection(rep.g()))?;
                        p.graph(&m);
                    } else {
                        sys::note(|| format!("detector {} gets that graph's edges", i));
                        no_panic("process_new_edge", || {
                            for e in rep.g().edges() {
                                cc.process_new_edge(&e);
                            }
                        })?;
                        for (a, b) in m.edges.keys() {
                            p.edge(*a, *b);
                        }
                    }
                    for x in m.nodes.keys() {
                        if !probe.contains(x) {
                            probe.push(*x);
                        }
                    }
                }
                4 => {
                    let c = if chance(500) { dets[i].clone() } else { fresh(&mut probe)? };
                    if dets.len() < 2 {
                        dets.push(c);
                    } else {
                        dets[1 - i] = c;
                    }
                }
                _ => {
                    let (cc, p) = &dets[i];
                    check_cc::<C>(cc, p, &probe, false)?;
                }
            }
            Ok(())
        })?;
    }
    for (cc, p) in &dets {
        check_cc::<C>(cc, p, &probe, true)?;
    }
    Ok(())
}

// --------------------------------------------------------------------- T04 --

fn t04() -> Res {
    dispatch_p!(t04c)
}

fn t04c<C: Cfg>() -> Res {
    pick_style();
    sys::plan_faults(&[F::Panic], false, 500);
    let (rep, m) = some_rep::<C>(6, 40)?;
    let mut p = Part::default();
    p.graph(&m);
    let (class, count) = p.classes();
    let enumerate = || -> Res {
        let two_steps = chance(300);
        let cs = match shaky("ConnSubgraph", || {
            if two_steps {
                let mut cs = ConnSubgraph::empty(rep.g());
                cs.run_subgraph_enumeration(rep.g());
                cs
            } else {
                ConnSubgraph::new(rep.g())
            }
        })? {
            Some(cs) => cs,
            None => return Ok(()),
        };
        let roots: Vec<(u64, usize)> = no_panic("root_to_subgraph", || {
            m.nodes.keys().filter_map(|n| cs.root_to_subgraph(id::<C>(*n)).map(|i| (*n, i))).collect()
        })?;
        let subs = no_panic("into_result", || cs.into_result())?;
        ensure!(subs.len() == count, "count", "{} subgraphs of {} components: {}", subs.len(), count, m.show());
        let mut parts: BTreeMap<u64, Model> = BTreeMap::new();
        for (n, l) in &m.nodes {
            parts.entry(class[n]).or_insert_with(|| Model::new(m.directed)).nodes.insert(*n, *l);
        }
        for (e, l) in &m.edges {
            parts.get_mut(&class[&e.0]).unwrap().edges.insert(*e, *l);
        }
        let shown = m.show();
        let mut seen = BTreeSet::new();
        for (i, s) in subs.iter().enumerate() {
            let ns: Vec<u64> = no_panic("node_indices", || s.node_indices().map(|x| x.id() as u64).collect())?;
            ensure!(!ns.is_empty(), "empty", "subgraph {} has no nodes", i);
            let c = match class.get(&ns[0]) {
                Some(c) => *c,
                None => return viol("unknown", format!("subgraph {} has a node {} the graph does not have", i, ns[0])),
            };
            ensure!(seen.insert(c), "twice", "two subgraphs have nodes of one component ({})", m.show());
            let want = parts.remove(&c).unwrap();
            check_graph(&**s, &want, ALL, &format!("subgraph {} of {}", i, shown))?;
        }
        let mut idx: Vec<usize> = roots.iter().map(|x| x.1).collect();
        idx.sort();
        ensure!(idx == (0..count).collect::<Vec<_>>(), "roots", "roots lead to subgraphs {:?}, there are {}", roots, count);
        for (r, i) in &roots {
            ensure!(subs[*i].has_node(id::<C>(*r)), "roots", "root {} leads to subgraph {}, which lacks it", r, i);
        }
        sys::mark();
        Ok(())
    };
    for _ in 0..1 + draw(2) {
        if chance(300) {
            // with other hash seeds
            let salt = draw(1 << 16);
            in_new_thread(salt, &enumerate)?;
        } else {
            enumerate()?;
        }
    }
    sys::heal();
    sys::plan_none();
    enumerate()?;
    let now = no_panic("querying the graph", || snap_graph::<C::Id, C::NL, C::EL, C::L>(rep.g()))?;
    ensure!(now == text_snap::<C>(&m), "changed", "splitting a graph changed it: {:?}", now);
    Ok(())
}
