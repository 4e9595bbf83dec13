//! C01: graphs used by several threads at once.

use super::alg::{minus, union};
use super::hist::text_snap;
use super::trav::{some_rep, Orc, Part, Rep, Walk};
use super::*;
use rust_graph::algorithm::{graph_minus, graph_union, Bfs, ConnComp, ConnSubgraph, Dfs};
use rust_graph::graph_gen::random_gnm_graph_unlabeled;
use rust_graph::generic::MapTrait;
use rust_graph::graph_impl::TypedGraphMap;
use rust_graph::map::{SetMap, VecMap};
use std::any::Any;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

pub const C01: Prop = Prop {
    id: "C01",
    run: c01,
    quick: 30_000,
    thorough: 700_000,
    rule: "A run makes one or two graphs (mutable, static, memory-mapped; generated or worn by a history), in a quarter of the runs also one or two of another instantiation, and two to four threads that share them; each queries, traverses, hashes, compares, clones, converts, reorders, splits or combines them, or builds, mutates and generates graphs of its own. The scheduler switches threads at counted loads, stores and branches of the library's code (instrumented build), with extra switch points at accesses to static variables. Every result is compared with the model, as if the thread had been alone; afterwards the shared graphs must be unchanged.",
    real: "GraphMap, StaticGraph, StaticGraphMmap, traversals, components, set algebra, generators, label maps, on real threads run one at a time",
    assumes: &["switch points are loads, stores and branches in rust_graph's code and what is instantiated from std with its types; precompiled std code runs without a switch", "sequentially consistent memory"],
};

#[derive(Clone, Debug)]
enum Op {
    Query(usize),
    Walk(usize, bool, Option<u64>),
    Comp(usize),
    Split(usize),
    Algebra(usize, usize, bool),
    Copy(usize),
    Reorder(usize),
    /// the history, as (kind, a, b, label)
    Own(Vec<(u64, u64, u64, Lab, bool)>),
    Generate(u64, u64),
    /// look all of a label map up
    Map(bool, u64),
}

enum Got<C: Cfg> {
    Graph(C::G),
    Log(Vec<u64>),
    Comp(ConnComp<C::Id>),
    Ok,
}

fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

struct World<C: Cfg> {
    g: Vec<(Rep<C>, Model)>,
    /// label maps, of the first so many labels
    set: SetMap<C::NL>,
    vec: VecMap<C::NL>,
    labels: u32,
}

fn look_up<T: LabT>(m: &dyn MapTrait<T>, n: u32, from: u64) -> Res {
    ensure!(m.len() == n as usize, "map", "a label map has {} labels, not {}", m.len(), n);
    for k in 0..n {
        let k = (k as u64 + from) % n as u64;
        let l = T::mk(k as u32);
        let i = m.find_index(&l);
        ensure!(i == Some(k as usize), "map", "label {} has id {:?}", k, i);
        ensure!(m.get_item(k as usize) == Some(&l), "map", "label {} is not found by its id", k);
        ensure!(m.contains(&l), "map", "label {} is not contained", k);
    }
    ensure!(m.items().map(|l| l.text()).eq((0..n).map(|k| T::mk(k).text())), "map", "a label map lists other labels");
    ensure!(m.find_index(&T::mk(n)).is_none() && m.get_item(n as usize).is_none(), "map", "an absent label is found");
    Ok(())
}

/// Hands a violation found on a client back as such.
type Out = Result<Res<Box<dyn Any>>, String>;

impl<C: Cfg> World<C> {
    /// no draws in here: it runs on a client thread
    fn go(&self, op: &Op) -> Res<Got<C>> {
        match op {
            Op::Query(i) => {
                let (g, m) = &self.g[*i];
                check_graph(g.g(), m, ALL, &format!("shared graph {}", i))?;
                Ok(Got::Ok)
            }
            Op::Walk(i, deep, s) => {
                let (r, m) = &self.g[*i];
                let mut log = Vec::new();
                macro_rules! run {
                    ($t:ty) => {{
                        let mut w = <$t as Walk<C>>::start(r, *s);
                        while let Some(v) = Walk::<C>::go(&mut w) {
                            log.push(v);
                            if log.len() > m.nodes.len() {
                                break;
                            }
                        }
                    }};
                }
                if m.nodes.is_empty() {
                } else if *deep {
                    run!(Dfs<C::Id, C::NL, C::EL, C::L>)
                } else {
                    run!(Bfs<C::Id, C::NL, C::EL, C::L>)
                }
                Ok(Got::Log(log))
            }
            Op::Comp(i) => Ok(Got::Comp(ConnComp::new(self.g[*i].0.g()))),
            Op::Split(i) => {
                let (r, m) = &self.g[*i];
                let subs = ConnSubgraph::new(r.g()).into_result();
                let mut p = Part::default();
                p.graph(m);
                let (class, count) = p.classes();
                ensure!(subs.len() == count, "split", "{} subgraphs of {} components: {}", subs.len(), count, m.show());
                let mut seen = BTreeSet::new();
                for s in &subs {
                    let n = s.node_indices().next().map(|x| x.id() as u64);
                    let c = match n.and_then(|n| class.get(&n)) {
                        Some(c) => *c,
                        None => return viol("split", format!("a subgraph starts with node {:?} of {}", n, m.show())),
                    };
                    ensure!(seen.insert(c), "split", "two subgraphs of one component of {}", m.show());
                    let mut want = Model::new(m.directed);
                    want.nodes = m.nodes.iter().filter(|(n, _)| class[n] == c).map(|(n, l)| (*n, *l)).collect();
                    want.edges = m.edges.iter().filter(|(e, _)| class[&e.0] == c).map(|(e, l)| (*e, *l)).collect();
                    check_graph(&**s, &want, ALL, "subgraph")?;
                }
                Ok(Got::Ok)
            }
            Op::Algebra(i, j, plus) => {
                let ((a, am), (b, bm)) = (&self.g[*i], &self.g[*j]);
                let g = if *plus { graph_union(a.g(), b.g()) } else { graph_minus(a.g(), b.g()) };
                let want = if *plus { union(am, bm) } else { minus(am, bm) };
                check_graph(&*g, &want, ALL, "result of graph algebra")?;
                Ok(Got::Ok)
            }
            Op::Copy(i) => {
                let (r, m) = &self.g[*i];
                let want = text_snap::<C>(m);
                match r {
                    Rep::Map(g) => {
                        let c = g.clone();
                        ensure!(c == *g, "copy", "a clone differs from the shared graph {}", m.show());
                        ensure!(h(&c) == h(g), "copy", "a clone of {} has another hash", m.show());
                        if m.dense() && !m.nodes.is_empty() {
                            let s = C::into_static(c);
                            check_graph(&s, m, ALL, "a static copy")?;
                        } else {
                            check_graph(&c, m, ALL, "a copy")?;
                        }
                    }
                    Rep::Static(g) => {
                        let c = g.clone();
                        ensure!(c == *g, "copy", "a clone differs from the shared graph {}", m.show());
                        ensure!(h(&c) == h(g), "copy", "a clone of {} has another hash", m.show());
                        check_graph(&c, m, ALL, "a copy")?;
                    }
                    Rep::Mmap(g) => {
                        let now = snap_graph::<C::Id, C::NL, C::EL, C::L>(g);
                        ensure!(now == want, "copy", "a mapped graph answers {:?}", now);
                    }
                }
                Ok(Got::Ok)
            }
            Op::Reorder(i) => {
                let (r, m) = &self.g[*i];
                if let Rep::Map(g) = r {
                    let (map, out, _) = C::reorder(g.clone(), true, true, true);
                    let map = match map {
                        Some(m) => m,
                        None => return viol("reorder", "no map of node ids"),
                    };
                    let mut new = std::collections::BTreeMap::new();
                    for n in m.nodes.keys() {
                        match map.find_index(&id::<C>(*n)) {
                            Some(k) => new.insert(*n, k as u64),
                            None => return viol("reorder", format!("node {} is not in the map of ids", n)),
                        };
                    }
                    let mut want = Model::new(m.directed);
                    for (n, l) in &m.nodes {
                        want.add_node(new[n], *l);
                    }
                    for ((a, b), l) in &m.edges {
                        want.add_edge(new[a], new[b], *l);
                    }
                    check_graph(&out, &want, ALL, "a reordered copy")?;
                }
                Ok(Got::Ok)
            }
            Op::Own(hist) => {
                let mut g = C::new();
                let mut m = Model::new(C::DIRECTED);
                for (k, a, b, l, e) in hist {
                    let (x, y) = (id::<C>(*a), id::<C>(*b));
                    match k {
                        0 => {
                            let r = g.add_node(x, nl::<C>(*l));
                            let w = m.add_node(*a, *l);
                            ensure!(r == w, "own", "add_node({}) = {}", a, r);
                        }
                        1 => {
                            g.remove_edge(x, y);
                            m.remove_edge(*a, *b);
                        }
                        2 => {
                            let r = g.remove_node(x);
                            let w = m.remove_node(*a);
                            ensure!(r.is_some() == w, "own", "remove_node({}) = {:?}", a, r);
                        }
                        _ => {
                            g.add_edge(x, y, el::<C>(*l));
                            m.add_edge(*a, *b, *l);
                        }
                    }
                    if *e {
                        ensure!(g.edge_count() == m.edges.len(), "own", "{} edges, expected {}", g.edge_count(), m.edges.len());
                    }
                }
                check_graph(&g, &m, ALL, "a thread's own graph")?;
                Ok(Got::Graph(g))
            }
            Op::Map(set, from) => {
                if *set {
                    look_up(&self.set, self.labels, *from)?
                } else {
                    look_up(&self.vec, self.labels, *from)?
                }
                Ok(Got::Ok)
            }
            Op::Generate(n, e) => {
                if C::DIRECTED {
                    gnm::<C, rust_graph::prelude::Directed>(*n, *e)?
                } else {
                    gnm::<C, rust_graph::prelude::Undirected>(*n, *e)?
                }
                Ok(Got::Ok)
            }
        }
    }
    fn check(&self, op: &Op, got: &Got<C>) -> Res {
        match (op, got) {
            (Op::Walk(i, deep, s), Got::Log(log)) => {
                let m = &self.g[*i].1;
                let adj = m.adjacency();
                let mut o = Orc::new(*deep, m, *s);
                for v in log.iter().map(|v| Some(*v)).chain([None]) {
                    if let Err(e) = o.accept(&adj, v) {
                        return viol("order", format!("traversal from {:?} of {}: after {:?} it {}", s, m.show(), o.log, e));
                    }
                }
            }
            (Op::Comp(i), Got::Comp(cc)) => {
                let m = &self.g[*i].1;
                let mut p = Part::default();
                p.graph(m);
                let (class, count) = p.classes();
                ensure!(cc.get_count() == count, "components", "{} components, expected {}: {}", cc.get_count(), count, m.show());
                for (a, b) in m.nodes.keys().zip(m.nodes.keys().skip(1)) {
                    let r = cc.is_connected(id::<C>(*a), id::<C>(*b));
                    ensure!(r == (class[a] == class[b]), "components", "is_connected({}, {}) = {}: {}", a, b, r, m.show());
                }
            }
            _ => {}
        }
        Ok(())
    }
}

fn gnm<C: Cfg, Ty: GraphType>(n: u64, e: u64) -> Res {
    let g: TypedGraphMap<C::Id, C::NL, C::EL, Ty> = random_gnm_graph_unlabeled(n as usize, e as usize);
    ensure!(g.node_count() as u64 == n, "generate", "{} nodes, expected {}", g.node_count(), n);
    ensure!(g.edge_count() as u64 == e, "generate", "{} edges, expected {}", g.edge_count(), e);
    let es: BTreeSet<(u64, u64)> = g.edge_indices().map(|(a, b)| (a.id() as u64, b.id() as u64)).collect();
    ensure!(es.len() as u64 == e && es.iter().all(|(a, b)| a != b && *a < n && *b < n), "generate", "edges {:?}", es);
    Ok(())
}

/// The graphs and label maps of one instantiation, and what can be done with them.
struct Side {
    directed: bool,
    labels: u64,
    /// the node ids of each graph
    ids: Vec<Vec<u64>>,
    go: Box<dyn Fn(&Op) -> Res<Box<dyn Any>>>,
    check: Box<dyn Fn(&Op, &dyn Any) -> Res>,
}

fn side<C: Cfg>() -> Res<Side> {
    for (what, yes) in ["GraphMap", "StaticGraph", "StaticGraphMmap"].iter().zip(C::SHARED) {
        ensure!(yes, "not-shareable", "threads can no longer share a {}: it is not Send and Sync", what);
    }
    let mut g = Vec::new();
    for _ in 0..1 + draw(2) {
        g.push(sys::span(|| some_rep::<C>(0, 0))?);
    }
    let labels = if C::LABELS == 0 { 0 } else { draw(9) as u32 };
    let list: Vec<C::NL> = (0..labels).map(C::NL::mk).collect();
    let ids = g.iter().map(|x| x.1.nodes.keys().copied().collect()).collect();
    let w = Arc::new(World::<C> {
        g,
        set: SetMap::from_vec(list.clone()),
        vec: VecMap::with_data(list),
        labels,
    });
    let w2 = w.clone();
    Ok(Side {
        directed: C::DIRECTED,
        labels: C::LABELS as u64,
        ids,
        go: Box::new(move |op| w.go(op).map(|got| Box::new(got) as Box<dyn Any>)),
        check: Box::new(move |op, got| match got.downcast_ref::<Got<C>>() {
            Some(got) => w2.check(op, got),
            // afterwards
            None => {
                for (i, (g, m)) in w2.g.iter().enumerate() {
                    check_graph(g.g(), m, ALL, &format!("shared graph {} afterwards", i))?;
                    if !m.nodes.is_empty() {
                        sys::mark();
                    }
                }
                Ok(())
            }
        }),
    })
}

fn some_op(w: &Side) -> Op {
    let lab = || if w.labels == 0 || chance(400) { None } else { Some(draw(w.labels.min(4)) as u32) };
    let k = w.ids.len() as u64;
    let i = draw(k) as usize;
    match pick(&[5, 5, 3, 3, 3, 3, 3, 4, 2, 2]) {
        0 => Op::Query(i),
        1 => {
            let ids = &w.ids[i];
            let s = if ids.is_empty() || chance(300) { None } else { Some(ids[draw(ids.len() as u64) as usize]) };
            Op::Walk(i, chance(500), s)
        }
        2 => Op::Comp(i),
        3 => Op::Split(i),
        4 => Op::Algebra(i, draw(k) as usize, chance(500)),
        5 => Op::Copy(i),
        6 => Op::Reorder(i),
        7 => Op::Own((0..draw(25)).map(|_| (pick(&[3, 2, 1, 6]) as u64, draw(8), draw(8), lab(), chance(200))).collect()),
        9 if w.labels > 0 => Op::Map(chance(500), draw(8)),
        _ => {
            let n = draw(9);
            let most = if w.directed { n * n.saturating_sub(1) } else { n * n.saturating_sub(1) / 2 };
            Op::Generate(n, draw(most + 1))
        }
    }
}

fn c01() -> Res {
    pick_style();
    sys::plan_none();
    let mut sides = vec![dispatch!(side)?];
    if chance(250) {
        // others use graphs of another kind meanwhile
        sides.push(dispatch!(side)?);
    }
    let clients = 2 + draw(3) as usize;
    let same = chance(300);
    let mut scripts: Vec<(usize, Vec<Op>)> = Vec::new();
    for c in 0..clients {
        let mut v = Vec::new();
        let at = if sides.len() > 1 { draw(2) as usize } else { 0 };
        for _ in 0..1 + draw(3) {
            v.push(sys::span(|| some_op(&sides[at])));
        }
        // all threads doing the same thing is what meets in the same code
        if same && c > 0 {
            v = scripts[0].1.clone();
            for op in &mut v {
                // that side may have one graph only
                let k = sides[at].ids.len();
                match op {
                    Op::Walk(i, _, s) => {
                        *i %= k;
                        if s.map_or(false, |s| !sides[at].ids[*i].contains(&s)) {
                            *s = None;
                        }
                    }
                    Op::Algebra(i, j, _) => {
                        *i %= k;
                        *j %= k;
                    }
                    Op::Query(i) | Op::Comp(i) | Op::Split(i) | Op::Copy(i) | Op::Reorder(i) => *i %= k,
                    Op::Own(v) => {
                        for x in v.iter_mut() {
                            if sides[at].labels == 0 {
                                x.3 = None;
                            }
                        }
                    }
                    Op::Generate(n, e) => {
                        if !sides[at].directed {
                            *e = (*e).min(*n * n.saturating_sub(1) / 2);
                        }
                    }
                    Op::Map(..) => {
                        if sides[at].labels == 0 {
                            *op = Op::Query(0);
                        }
                    }
                }
            }
        }
        sys::note(|| format!("client {} (kind {}): {:?}", c, at, v));
        scripts.push((at, v));
    }
    sys::preempt_style(pick(&[1, 3, 3, 2]) as u64);
    let w = Arc::new(Free::new(sides));
    sys::sched_start(clients);
    let hs: Vec<_> = (0..clients)
        .map(|c| {
            let (at, script) = scripts[c].clone();
            let w = w.clone();
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    sys::enter(c as i32);
                    sys::sched_wait_turn();
                    let mut out: Vec<Out> = Vec::new();
                    for op in &script {
                        out.push(attempt(|| sys::preemptible(|| (w.get()[at].go)(op))));
                        sys::yield_point();
                    }
                    sys::sched_finish();
                    sys::leave();
                    Free::new(out)
                })
                .expect("thread")
        })
        .collect();
    let mut all = Vec::new();
    for t in hs {
        match t.join() {
            Ok(v) => all.push(v.take()),
            Err(_) => return viol("client-panic", "a client thread panicked"),
        }
    }
    sys::sched_stop();
    let w = w.get();
    for (c, ((at, script), outs)) in scripts.iter().zip(&all).enumerate() {
        for (op, out) in script.iter().zip(outs) {
            match out {
                Err(e) => return viol("panic", format!("client {}: {:?} panicked: {}", c, op, e)),
                Ok(Err(v)) => return Err(Viol { class: v.class.clone(), msg: format!("client {}: {:?}: {}", c, op, v.msg) }),
                Ok(Ok(got)) => (w[*at].check)(op, got.as_ref())?,
            }
        }
    }
    for x in w {
        (x.check)(&Op::Query(0), &())?;
    }
    Ok(())
}
