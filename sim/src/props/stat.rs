//! H06: a static graph answers like the edge vectors it is made of.

use super::mmapped::check_ev;
use rust_graph::generic::graph::equal;
use super::*;
use rust_graph::graph_impl::static_graph::mmap::EdgeVecMmap;
use rust_graph::graph_impl::static_graph::{EdgeVec, EdgeVecTrait};
use rust_graph::graph_impl::{StaticGraphMmap, TypedStaticGraph};
use rust_graph::io::serde::{Deserialize, Deserializer, Serialize, Serializer};
use rust_graph::map::SetMap;

pub const H06: Prop = Prop {
    id: "H06",
    run: h06,
    quick: 300_000,
    thorough: 4_000_000,
    rule: "A run makes a static graph from edge vectors (new, with_labels or from_raw, counts given or left out, with and without labels, node-less, edge-less and with self loops, up to all ids of the id type), then removes labels, relabels nodes and edges through the mutable accessors, adds labels to the maps, clones, saves, loads, dumps and maps it (some of these with storage faults, some with the process killed), and after every step compares every query and every edge position with a model.",
    real: "rust_graph TypedStaticGraph, EdgeVec, StaticEdgeIndexIter, StaticGraphMmap, EdgeVecMmap, Serializer, Deserializer; std::fs, memmap and bincode above libc",
    assumes: &["edge vectors are well formed: offsets ascend, each neighbour list is sorted and names existing nodes, an undirected edge is listed at both ends"],
};

/// What a static graph offers beyond the graph traits.
pub trait Stat<Id: IdType, NL: LabT, EL: LabT, L: IdType>: Sized {
    fn s_new(e: EdgeVec<Id, L>, i: Option<EdgeVec<Id, L>>, n: Option<usize>, m: Option<usize>) -> Self;
    #[allow(clippy::too_many_arguments)]
    fn s_with_labels(
        e: EdgeVec<Id, L>,
        i: Option<EdgeVec<Id, L>>,
        l: Vec<L>,
        nm: SetMap<NL>,
        em: SetMap<EL>,
        n: Option<usize>,
        m: Option<usize>,
    ) -> Self;
    fn s_from_raw(
        n: usize,
        m: usize,
        e: EdgeVec<Id, L>,
        i: Option<EdgeVec<Id, L>>,
        l: Option<Vec<L>>,
        nm: SetMap<NL>,
        em: SetMap<EL>,
    ) -> Self;
    fn out(&self) -> &EdgeVec<Id, L>;
    fn inn(&self) -> &Option<EdgeVec<Id, L>>;
    fn labels(&self) -> &Option<Vec<L>>;
    fn out_mut(&mut self) -> &mut EdgeVec<Id, L>;
    fn inn_mut(&mut self) -> &mut Option<EdgeVec<Id, L>>;
    fn labels_mut(&mut self) -> &mut Option<Vec<L>>;
    fn nm_mut(&mut self) -> &mut SetMap<NL>;
    fn em_mut(&mut self) -> &mut SetMap<EL>;
    fn rm_node_labels(&mut self);
    fn rm_edge_labels(&mut self);
    fn rm_labels(&mut self);
    fn shrink(&mut self);
    fn position(&self, a: Id, b: Id) -> Option<usize>;
}
impl<Id: IdType, NL: LabT, EL: LabT, Ty: GraphType, L: IdType> Stat<Id, NL, EL, L> for TypedStaticGraph<Id, NL, EL, Ty, L> {
    fn s_new(e: EdgeVec<Id, L>, i: Option<EdgeVec<Id, L>>, n: Option<usize>, m: Option<usize>) -> Self {
        TypedStaticGraph::new(e, i, n, m)
    }
    fn s_with_labels(
        e: EdgeVec<Id, L>,
        i: Option<EdgeVec<Id, L>>,
        l: Vec<L>,
        nm: SetMap<NL>,
        em: SetMap<EL>,
        n: Option<usize>,
        m: Option<usize>,
    ) -> Self {
        TypedStaticGraph::with_labels(e, i, l, nm, em, n, m)
    }
    fn s_from_raw(
        n: usize,
        m: usize,
        e: EdgeVec<Id, L>,
        i: Option<EdgeVec<Id, L>>,
        l: Option<Vec<L>>,
        nm: SetMap<NL>,
        em: SetMap<EL>,
    ) -> Self {
        TypedStaticGraph::from_raw(n, m, e, i, l, nm, em)
    }
    fn out(&self) -> &EdgeVec<Id, L> {
        self.get_edge_vec()
    }
    fn inn(&self) -> &Option<EdgeVec<Id, L>> {
        self.get_in_edge_vec()
    }
    fn labels(&self) -> &Option<Vec<L>> {
        self.get_labels()
    }
    fn out_mut(&mut self) -> &mut EdgeVec<Id, L> {
        self.get_edge_vec_mut()
    }
    fn inn_mut(&mut self) -> &mut Option<EdgeVec<Id, L>> {
        self.get_in_edge_vec_mut()
    }
    fn labels_mut(&mut self) -> &mut Option<Vec<L>> {
        self.get_labels_mut()
    }
    fn nm_mut(&mut self) -> &mut SetMap<NL> {
        self.get_node_label_map_mut()
    }
    fn em_mut(&mut self) -> &mut SetMap<EL> {
        self.get_edge_label_map_mut()
    }
    fn rm_node_labels(&mut self) {
        self.remove_node_labels()
    }
    fn rm_edge_labels(&mut self) {
        self.remove_edge_labels()
    }
    fn rm_labels(&mut self) {
        self.remove_labels()
    }
    fn shrink(&mut self) {
        self.shrink_to_fit()
    }
    fn position(&self, a: Id, b: Id) -> Option<usize> {
        self.find_edge_index(a, b)
    }
}

/// The labels of a map in the order of their ids, as palette numbers.
type Pal = Vec<u32>;

/// The arrays of a graph, built without the library.
struct Arrays {
    off: Vec<usize>,
    edges: Vec<u64>,
    labels: Vec<Option<usize>>,
    in_off: Vec<usize>,
    in_edges: Vec<u64>,
    in_labels: Vec<Option<usize>>,
    node_labels: Vec<Option<usize>>,
}
fn arrays(m: &Model, np: &Pal, ep: &Pal) -> Arrays {
    let at = |p: &Pal, l: Lab| l.map(|l| p.iter().position(|x| *x == l).expect("palette"));
    let mut r = Arrays {
        off: vec![0],
        edges: vec![],
        labels: vec![],
        in_off: vec![0],
        in_edges: vec![],
        in_labels: vec![],
        node_labels: m.nodes.values().map(|l| at(np, *l)).collect(),
    };
    for (n, a) in m.adjacency() {
        for t in a {
            r.edges.push(t);
            r.labels.push(at(ep, m.label(n, t)));
        }
        r.off.push(r.edges.len());
    }
    if m.directed {
        for (n, a) in m.in_adjacency() {
            for t in a {
                r.in_edges.push(t);
                r.in_labels.push(at(ep, m.label(t, n)));
            }
            r.in_off.push(r.in_edges.len());
        }
    }
    r
}
fn lid<L: IdType>(l: Option<usize>) -> L {
    l.map(L::new).unwrap_or_else(L::max_value)
}
fn ids<Id: IdType>(v: &[u64]) -> Vec<Id> {
    v.iter().map(|x| Id::new(*x as usize)).collect()
}
fn edge_vec<Id: IdType, L: IdType>(off: &[usize], e: &[u64], l: Option<&[Option<usize>]>) -> EdgeVec<Id, L> {
    let l: Option<Vec<L>> = l.map(|l| l.iter().map(|x| lid(*x)).collect());
    match (l, draw(2)) {
        (Some(l), 0) => EdgeVec::with_labels(off.to_vec(), ids(e), l),
        (None, 0) => EdgeVec::new(off.to_vec(), ids(e)),
        (l, _) => EdgeVec::from_raw(off.to_vec(), ids(e), l),
    }
}
fn palette<C: Cfg>(used: impl Iterator<Item = u32>) -> Pal {
    let mut v: Pal = Vec::new();
    for l in used {
        if !v.contains(&l) {
            v.push(l);
        }
    }
    let mut r = crate::choice::Rng::new(draw(1 << 12));
    if C::LABELS > 0 && chance(300) {
        for _ in 0..1 + draw(3) {
            let x = draw(C::LABELS.min(9) as u64) as u32;
            if !v.contains(&x) && (v.len() as u32) < C::LABELS {
                v.push(x);
            }
        }
    }
    shuffle(&mut v, &mut r);
    v
}

struct St<C: Cfg> {
    g: C::S,
    m: Model,
    np: Pal,
    ep: Pal,
    /// the labels of the in-edge vector
    inl: Vec<C::L>,
}
impl<C: Cfg> St<C> {
    fn gen() -> Res<St<C>> {
        let mut m = gen_model::<C>(GenOpts {
            min_nodes: if chance(150) { 0 } else { 1 },
            big: 12,
            huge: 8,
            ..Default::default()
        });
        if m.nodes.is_empty() {
            sys::probe("static graph without nodes");
        }
        let how = draw(3);
        if how == 0 {
            m.nodes.values_mut().for_each(|l| *l = None);
            m.edges.values_mut().for_each(|l| *l = None);
        }
        let np = palette::<C>(m.nodes.values().flatten().copied());
        let ep = palette::<C>(m.edges.values().flatten().copied());
        let a = arrays(&m, &np, &ep);
        let lab = how != 0 && (m.edges.values().any(|l| l.is_some()) || chance(400));
        let out = edge_vec(&a.off, &a.edges, if lab { Some(&a.labels) } else { None });
        let inn = if m.directed {
            Some(edge_vec(&a.in_off, &a.in_edges, if lab && chance(300) { Some(&a.in_labels) } else { None }))
        } else {
            None
        };
        let inl = inn.as_ref().map_or(vec![], |i: &EdgeVec<C::Id, C::L>| i.get_labels().to_vec());
        let nm: SetMap<C::NL> = np.iter().map(|k| C::NL::mk(*k)).collect();
        let em: SetMap<C::EL> = ep.iter().map(|k| C::EL::mk(*k)).collect();
        let nl: Vec<C::L> = a.node_labels.iter().map(|x| lid(*x)).collect();
        let n = if chance(500) { Some(m.nodes.len()) } else { None };
        let e = if chance(500) { Some(m.edges.len()) } else { None };
        sys::note(|| format!("static graph {} (constructor {}, nodes {:?}, edges {:?})", m.show(), how, n, e));
        let (np, ep) = if how == 0 { (vec![], vec![]) } else { (np, ep) };
        let g = no_panic("constructing a static graph", || match how {
            0 => C::S::s_new(out, inn, n, e),
            1 => C::S::s_with_labels(out, inn, nl, nm, em, n, e),
            _ => {
                let l = if m.nodes.values().all(|l| l.is_none()) && chance(500) { None } else { Some(nl) };
                C::S::s_from_raw(m.nodes.len(), m.edges.len(), out, inn, l, nm, em)
            }
        })?;
        Ok(St { g, m, np, ep, inl })
    }

    fn check(&self, who: &str) -> Res {
        check_on::<C>(&self.g, &self.m, &self.np, &self.ep, who)?;
        let a = arrays(&self.m, &self.np, &self.ep);
        no_panic("reading the arrays of a static graph", || -> Res {
            let v = self.g.out();
            ensure!(v.get_offsets() == &a.off[..], "arrays", "{}: offsets {:?}, expected {:?}", who, v.get_offsets(), a.off);
            ensure!(v.get_edges() == &ids::<C::Id>(&a.edges)[..], "arrays", "{}: neighbours {:?}, expected {:?}", who, v.get_edges(), a.edges);
            ensure!(v.num_nodes() == self.m.nodes.len() && v.num_edges() == a.edges.len(), "arrays", "{}: the edge vector has {} nodes and {} entries", who, v.num_nodes(), v.num_edges());
            if let Some(i) = self.g.inn() {
                ensure!(i.get_offsets() == &a.in_off[..] && i.get_edges() == &ids::<C::Id>(&a.in_edges)[..], "arrays", "{}: the in-edge vector changed", who);
                ensure!(i.get_labels() == &self.inl[..], "arrays", "{}: the in-edge vector has labels {:?}, expected {:?}", who, i.get_labels(), self.inl);
            }
            ensure!(self.g.inn().is_some() == self.m.directed, "arrays", "{}: in-edge vector {}", who, self.g.inn().is_some());
            if let Some(l) = self.g.labels() {
                let want: Vec<C::L> = a.node_labels.iter().map(|x| lid(*x)).collect();
                ensure!(*l == want, "arrays", "{}: node labels {:?}, expected {:?}", who, l, want);
            }
            // every position
            let n = self.m.nodes.len() as u64;
            let lim = C::Id::max_usize() as u64;
            let mut pairs = Vec::new();
            if n <= 12 {
                for s in 0..n + 2 {
                    for t in 0..n + 2 {
                        pairs.push((s, t));
                    }
                }
            } else {
                let mut r = crate::choice::Rng::new(n);
                for _ in 0..60 {
                    pairs.push((r.below(n + 1), r.below(n + 1)));
                }
                for (i, w) in a.off.windows(2).enumerate() {
                    for k in w[0]..w[1] {
                        if r.below(4) == 0 {
                            pairs.push((i as u64, a.edges[k]));
                        }
                    }
                }
            }
            for (s, t) in pairs {
                if s > lim || t > lim {
                    continue;
                }
                let want = if s < n {
                    (a.off[s as usize]..a.off[s as usize + 1]).find(|k| a.edges[*k] == t)
                } else {
                    None
                };
                let (x, y) = (id::<C>(s), id::<C>(t));
                let got = self.g.position(x, y);
                ensure!(got == want, "position", "{}: find_edge_index({}, {}) = {:?}, expected {:?}", who, s, t, got, want);
                ensure!(v.find_edge_index(x, y) == want && v.has_edge(x, y) == want.is_some(), "position", "{}: the edge vector finds ({}, {}) at {:?}, expected {:?}", who, s, t, v.find_edge_index(x, y), want);
                let wl = want.and_then(|k| if v.get_labels().is_empty() { None } else { Some(lid::<C::L>(a.labels[k])) });
                ensure!(v.find_edge_label_id(x, y).copied() == wl, "position", "{}: label of ({}, {}) is {:?}, expected {:?}", who, s, t, v.find_edge_label_id(x, y), wl);
                ensure!(v.has_node(x) == (s < n), "position", "{}: the edge vector has node {}: {}", who, s, v.has_node(x));
            }
            Ok(())
        })?
    }

    fn step(&mut self) -> Res {
        match pick(&[1, 1, 1, 1, 4, 4, 2, 3, 3, 3, 2]) {
            0 => {
                sys::note(|| "remove_node_labels".into());
                no_panic("remove_node_labels", || self.g.rm_node_labels())?;
                self.m.nodes.values_mut().for_each(|l| *l = None);
                self.np.clear();
            }
            1 => {
                sys::note(|| "remove_edge_labels".into());
                no_panic("remove_edge_labels", || self.g.rm_edge_labels())?;
                self.m.edges.values_mut().for_each(|l| *l = None);
                self.ep.clear();
                self.gone()?;
            }
            2 => {
                sys::note(|| "remove_labels".into());
                no_panic("remove_labels", || self.g.rm_labels())?;
                self.m.nodes.values_mut().for_each(|l| *l = None);
                self.m.edges.values_mut().for_each(|l| *l = None);
                self.np.clear();
                self.ep.clear();
                self.gone()?;
            }
            3 => no_panic("shrink_to_fit", || self.g.shrink())?,
            4 => {
                // a node gets another label
                if self.m.nodes.is_empty() {
                    return Ok(());
                }
                let n = draw(self.m.nodes.len() as u64);
                let l = self.label(true)?;
                sys::note(|| format!("node {} gets label {:?}", n, l));
                let k = l.map(|l| self.np.iter().position(|x| *x == l).unwrap());
                let len = self.m.nodes.len();
                no_panic("get_labels_mut", || {
                    let v = self.g.labels_mut();
                    if v.is_none() {
                        *v = Some(vec![C::L::max_value(); len]);
                    }
                    v.as_mut().unwrap()[n as usize] = lid(k);
                })?;
                self.m.nodes.insert(n, l);
            }
            5 => {
                // some edges get other labels: another edge vector
                let keys: Vec<(u64, u64)> = self.m.edges.keys().copied().collect();
                if keys.is_empty() {
                    return Ok(());
                }
                for _ in 0..1 + draw(3) {
                    let l = self.label(false)?;
                    let k = keys[draw(keys.len() as u64) as usize];
                    sys::note(|| format!("edge {:?} gets label {:?}", k, l));
                    self.m.edges.insert(k, l);
                }
                let a = arrays(&self.m, &self.np, &self.ep);
                let labelled = self.m.edges.values().any(|l| l.is_some()) || chance(500);
                let v = edge_vec(&a.off, &a.edges, if labelled { Some(&a.labels) } else { None });
                no_panic("get_edge_vec_mut", || *self.g.out_mut() = v)?;
                if self.m.directed && chance(300) {
                    let v = edge_vec(&a.in_off, &a.in_edges, None);
                    no_panic("get_in_edge_vec_mut", || *self.g.inn_mut() = Some(v))?;
                    self.inl.clear();
                }
            }
            6 => {
                let c = no_panic("clone", || self.g.clone())?;
                let same = no_panic("comparing static graphs", || c == self.g && self.g == c && hash(&c) == hash(&self.g))?;
                ensure!(same, "clone", "a clone of a static graph is not equal to it, or has another hash");
                if chance(500) {
                    let old = std::mem::replace(&mut self.g, c);
                    check_on::<C>(&old, &self.m, &self.np, &self.ep, "static graph after being cloned")?;
                }
            }
            7 => {
                // the same graph made another way
                let g = build::<C>(&self.m);
                ensure!(
                    no_panic("equal", || equal::<C::Id, C::NL, C::EL, C::L, C::L>(&self.g, &g) && equal::<C::Id, C::NL, C::EL, C::L, C::L>(&g, &self.g))?,
                    "equal",
                    "the static graph is not equal() to a mutable graph with the same content: {}",
                    self.m.show()
                );
                let s = no_panic("into_static", || C::into_static(g))?;
                let same = no_panic("comparing static graphs", || s == self.g && self.g == s && hash(&s) == hash(&self.g))?;
                ensure!(same, "equal", "static graphs with the same content are not equal, or have different hashes: {}", self.m.show());
            }
            8 => {
                self.armed(8);
                match faulty("binary export", WRITER, || self.g.export("s.bin").map_err(|e| e.to_string()))? {
                    Out::Done(()) => {
                        if chance(300) {
                            sys::kill_now();
                            sys::restart();
                        }
                        self.g = clean("binary import", || C::S::import("s.bin").map_err(|e| e.to_string()))?;
                    }
                    Out::Failed(_) => {}
                    Out::Crashed => sys::restart(),
                }
            }
            9 => {
                self.armed(26);
                match faulty("mmap dump", WRITER, || C::dump(&self.g, "s"))? {
                    Out::Done(()) => {
                        if chance(300) {
                            sys::kill_now();
                            sys::restart();
                        }
                        let mm = clean("opening the mmap dump", || Ok(StaticGraphMmap::<C::Id, C::NL, C::EL, C::L>::new("s")))?;
                        check_on::<C>(&mm, &self.m, &self.np, &self.ep, "static graph dumped and mapped")?;
                    }
                    Out::Failed(_) => {}
                    Out::Crashed => sys::restart(),
                }
            }
            _ => self.bare()?,
        }
        Ok(())
    }

    /// No edge labels are left.
    fn gone(&mut self) -> Res {
        self.inl.clear();
        ensure!(self.g.out().get_labels().is_empty(), "arrays", "the edge vector has labels after they were removed");
        Ok(())
    }

    /// Edge vectors saved, dumped and mapped on their own.
    fn bare(&mut self) -> Res {
        sys::note(|| "edge vectors on their own".into());
        if chance(400) {
            let v = self.g.out().clone();
            clean("edge vector export", || Serializer::export(&v, "ev.bin").map_err(|e| e.to_string()))?;
            let mut w: EdgeVec<C::Id, C::L> = clean("edge vector import", || Deserializer::import("ev.bin").map_err(|e| e.to_string()))?;
            ensure!(v == w && hash(&v) == hash(&w), "edge-vec", "an edge vector saved and loaded is another one");
            match draw(4) {
                0 => {
                    w.remove_labels();
                    ensure!(w.get_labels().is_empty() && w.get_edges() == v.get_edges() && w.get_offsets() == v.get_offsets(), "edge-vec", "remove_labels of an edge vector");
                }
                1 => {
                    w.shrink_to_fit();
                    ensure!(v == w, "edge-vec", "shrink_to_fit changes an edge vector");
                }
                2 => {
                    w.clear();
                    self.no_nodes(&w, "a cleared edge vector")?;
                }
                _ => self.no_nodes(&EdgeVec::default(), "a default edge vector")?,
            }
            return Ok(());
        }
        clean("edge vector dump", || self.g.out().dump_mmap("raw_OUT").map_err(|e| e.to_string()))?;
        if let Some(i) = self.g.inn() {
            clean("edge vector dump", || i.dump_mmap("raw_IN").map_err(|e| e.to_string()))?;
        }
        let x = clean("opening the edge vector dump", || Ok(EdgeVecMmap::<C::Id, C::L>::new("raw_OUT")))?;
        check_ev(self.g.out(), &x)?;
        let mm = clean("opening the edge vectors as a graph", || Ok(StaticGraphMmap::<C::Id, C::NL, C::EL, C::L>::new("raw")))?;
        let mut m = self.m.clone();
        m.nodes.values_mut().for_each(|l| *l = None);
        m.edges.values_mut().for_each(|l| *l = None);
        // label ids without a label map are nobody's labels
        let labels = self.g.out().get_labels().is_empty();
        check_graph(&mm, &m, Check { labels, ..ALL }, "edge vectors mapped as a graph")
    }
    fn no_nodes(&self, v: &EdgeVec<C::Id, C::L>, who: &str) -> Res {
        no_panic(who, || -> Res {
            ensure!(
                v.num_nodes() == 0 && v.num_edges() == 0 && v.get_edges().is_empty() && v.get_labels().is_empty() && !v.has_node(id::<C>(0)) && !v.has_edge(id::<C>(0), id::<C>(1)) && v.find_edge_index(id::<C>(1), id::<C>(0)).is_none(),
                "edge-vec",
                "{} is not empty",
                who
            );
            Ok(())
        })?
    }
    fn armed(&self, at: u64) {
        if chance(300) {
            sys::plan_faults(WRITE_FAULTS, true, 0);
            sys::replan_at(at);
        } else {
            sys::plan_none();
        }
    }
    /// A label known to the map of the graph, which may have to be added.
    fn label(&mut self, node: bool) -> Res<Lab> {
        if C::LABELS == 0 || chance(250) {
            return Ok(None);
        }
        let k = draw(C::LABELS.min(9) as u64) as u32;
        let p = if node { &mut self.np } else { &mut self.ep };
        if !p.contains(&k) {
            if p.len() as u32 >= C::LABELS {
                return Ok(None);
            }
            let want = p.len();
            p.push(k);
            let g = &mut self.g;
            let got = no_panic("adding a label to the map of a static graph", || {
                if node {
                    g.nm_mut().add_item(C::NL::mk(k))
                } else {
                    g.em_mut().add_item(C::EL::mk(k))
                }
            })?;
            ensure!(got == want, "label-id", "a new label gets id {}, expected {}", got, want);
        }
        Ok(Some(k))
    }
}

fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn check_on<C: Cfg>(g: &DynG<C>, m: &Model, np: &Pal, ep: &Pal, who: &str) -> Res {
    check_graph(g, m, ALL, who)?;
    no_panic("reading label maps", || -> Res {
        let a: Vec<String> = g.get_node_label_map().items().map(|l| l.text()).collect();
        let b: Vec<String> = np.iter().map(|k| C::NL::mk(*k).text()).collect();
        ensure!(a == b, "label-map", "{}: node label map {:?}, expected {:?}", who, a, b);
        let a: Vec<String> = g.get_edge_label_map().items().map(|l| l.text()).collect();
        let b: Vec<String> = ep.iter().map(|k| C::EL::mk(*k).text()).collect();
        ensure!(a == b, "label-map", "{}: edge label map {:?}, expected {:?}", who, a, b);
        ensure!(
            g.num_of_node_labels() == np.len() && g.num_of_edge_labels() == ep.len() && g.has_node_labels() != np.is_empty() && g.has_edge_labels() != ep.is_empty(),
            "label-map",
            "{}: label counts",
            who
        );
        let mx = g.max_seen_id().map(|x| x.id() as u64);
        ensure!(mx == (m.nodes.len() as u64).checked_sub(1), "max_seen_id", "{}: max_seen_id() = {:?} with {} nodes", who, mx, m.nodes.len());
        Ok(())
    })?
}

fn h06() -> Res {
    dispatch!(h06c)
}
fn h06c<C: Cfg>() -> Res {
    pick_style();
    sys::plan_none();
    let mut x = St::<C>::gen()?;
    x.check("new static graph")?;
    if x.m.nodes.len() > 1 {
        sys::mark();
    }
    for _ in 0..1 + draw(7) {
        sys::span(|| -> Res {
            x.step()?;
            sys::heal();
            sys::plan_none();
            x.check("static graph")
        })?;
    }
    Ok(())
}
