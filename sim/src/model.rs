//! The reference model: a graph is a map of nodes and a map of edges, nothing
//! else, and the oracle that compares a real graph with it through the public
//! query API.

use crate::cfg::Cfg;
use crate::core::*;
use crate::sys::{self, chance, draw, range};
use rust_graph::generic::*;
use std::collections::{BTreeMap, BTreeSet};

pub type Lab = Option<u32>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Model {
    pub directed: bool,
    pub nodes: BTreeMap<u64, Lab>,
    /// directed: (start, target); undirected: (smaller, larger)
    pub edges: BTreeMap<(u64, u64), Lab>,
}

impl Model {
    pub fn new(directed: bool) -> Model {
        Model {
            directed,
            nodes: BTreeMap::new(),
            edges: BTreeMap::new(),
        }
    }
    /// Another graph of the same size: the same ids and labels elsewhere.
    pub fn alike(&self, how: usize, by: usize) -> Model {
        let ids: Vec<u64> = self.nodes.keys().copied().collect();
        let mut m = Model::new(self.directed);
        let turn = |v: Vec<Lab>| -> Vec<Lab> {
            let n = v.len();
            (0..n).map(|i| v[(i + by) % n]).collect()
        };
        let labs = turn(self.nodes.values().copied().collect());
        let elabs = turn(self.edges.values().copied().collect());
        match how {
            0 => {
                // other ends
                let to: BTreeMap<u64, u64> = (0..ids.len()).map(|i| (ids[i], ids[(i + by) % ids.len()])).collect();
                m.nodes = self.nodes.iter().map(|(n, l)| (to[n], *l)).collect();
                for ((s, t), l) in &self.edges {
                    m.edges.insert(self.key(to[s], to[t]), *l);
                }
            }
            1 => {
                // other edges, the nodes as they are
                let to: BTreeMap<u64, u64> = (0..ids.len()).map(|i| (ids[i], ids[ids.len() - 1 - i])).collect();
                m.nodes = self.nodes.clone();
                for ((s, t), l) in &self.edges {
                    m.edges.insert(self.key(to[s], to[t]), *l);
                }
            }
            2 => {
                m.nodes = ids.iter().copied().zip(labs).collect();
                m.edges = self.edges.clone();
            }
            _ => {
                m.nodes = self.nodes.clone();
                m.edges = self.edges.keys().copied().zip(elabs).collect();
            }
        }
        m
    }
    pub fn key(&self, s: u64, t: u64) -> (u64, u64) {
        if self.directed || s <= t {
            (s, t)
        } else {
            (t, s)
        }
    }
    pub fn add_node(&mut self, id: u64, l: Lab) -> bool {
        self.nodes.insert(id, l).is_none()
    }
    pub fn add_edge(&mut self, s: u64, t: u64, l: Lab) -> bool {
        self.nodes.entry(s).or_insert(None);
        self.nodes.entry(t).or_insert(None);
        let k = self.key(s, t);
        self.edges.insert(k, l).is_none()
    }
    pub fn has_edge(&self, s: u64, t: u64) -> bool {
        self.edges.contains_key(&self.key(s, t))
    }
    pub fn label(&self, s: u64, t: u64) -> Lab {
        self.edges.get(&self.key(s, t)).copied().flatten()
    }
    pub fn remove_edge(&mut self, s: u64, t: u64) -> bool {
        let k = self.key(s, t);
        self.edges.remove(&k).is_some()
    }
    pub fn remove_node(&mut self, id: u64) -> bool {
        if self.nodes.remove(&id).is_none() {
            return false;
        }
        self.edges.retain(|(s, t), _| *s != id && *t != id);
        true
    }
    pub fn out(&self, id: u64) -> BTreeSet<u64> {
        self.edges
            .keys()
            .filter_map(|(s, t)| {
                if *s == id {
                    Some(*t)
                } else if !self.directed && *t == id {
                    Some(*s)
                } else {
                    None
                }
            })
            .collect()
    }
    pub fn adjacency(&self) -> BTreeMap<u64, BTreeSet<u64>> {
        let mut m: BTreeMap<u64, BTreeSet<u64>> =
            self.nodes.keys().map(|k| (*k, BTreeSet::new())).collect();
        for (s, t) in self.edges.keys() {
            m.get_mut(s).unwrap().insert(*t);
            if !self.directed {
                m.get_mut(t).unwrap().insert(*s);
            }
        }
        m
    }
    pub fn in_adjacency(&self) -> BTreeMap<u64, BTreeSet<u64>> {
        let mut m: BTreeMap<u64, BTreeSet<u64>> =
            self.nodes.keys().map(|k| (*k, BTreeSet::new())).collect();
        for (s, t) in self.edges.keys() {
            m.get_mut(t).unwrap().insert(*s);
        }
        m
    }
    pub fn dense(&self) -> bool {
        !self.nodes.is_empty() && *self.nodes.keys().next_back().unwrap() + 1 == self.nodes.len() as u64
    }
    pub fn show(&self) -> String {
        let mut s = String::from(if self.directed { "directed" } else { "undirected" });
        s += &format!(" {} nodes", self.nodes.len());
        if self.nodes.len() <= 40 {
            s += &format!(
                " [{}]",
                self.nodes
                    .iter()
                    .map(|(n, l)| match l {
                        Some(l) => format!("{}:L{}", n, l),
                        None => n.to_string(),
                    })
                    .collect::<Vec<_>>()
                    .join(" ")
            );
        }
        s += &format!(", {} edges", self.edges.len());
        if self.edges.len() <= 60 {
            s += &format!(
                " [{}]",
                self.edges
                    .iter()
                    .map(|((a, b), l)| match l {
                        Some(l) => format!("{}-{}:L{}", a, b, l),
                        None => format!("{}-{}", a, b),
                    })
                    .collect::<Vec<_>>()
                    .join(" ")
            );
        }
        s
    }
}

// ------------------------------------------------------------- generation --

#[derive(Clone, Copy)]
pub struct GenOpts {
    pub dense: bool,
    pub min_nodes: u64,
    pub max_nodes: u64,
    pub big: u64,  // how often (in 1000) a size that crosses buffer boundaries
    pub huge: u64, // how often (in 1000) such a graph has more nodes than 16 bits can count
    pub max_id: u64,
}
impl Default for GenOpts {
    fn default() -> Self {
        GenOpts {
            dense: true,
            min_nodes: 1,
            max_nodes: 12,
            big: 60,
            huge: 0,
            max_id: 5_000,
        }
    }
}

/// Generate a random graph for configuration `C`.
pub fn gen_model<C: Cfg>(o: GenOpts) -> Model {
    let mut m = Model::new(C::DIRECTED);
    let big = o.big > 0 && chance(o.big);
    let huge = big && o.huge > 0 && C::MAXID > 1 << 20 && chance(o.huge);
    if huge {
        sys::probe("graph with more nodes than 16 bits can count");
    }
    let max_id = if huge { 1 << 18 } else { o.max_id.min(C::MAXID) };
    let nl_on = C::LABELS > 0 && chance(700);
    let el_on = C::LABELS > 0 && chance(700);
    // how many different labels
    let pal = if nl_on || el_on {
        if chance(120) {
            C::LABELS.min(300) as u64
        } else {
            1 + draw(5)
        }
    } else {
        0
    }
    .min(C::LABELS as u64);
    let all_lab = chance(400);
    let lab = |on: bool| -> Lab {
        if !on || pal == 0 || (!all_lab && chance(300)) {
            None
        } else {
            Some(draw(pal) as u32)
        }
    };
    let n = if big {
        // around the 8 KiB and 10 000 byte chunk sizes used by the writers
        let n = if huge { 65_534 } else { [200, 700, 1249, 1250, 1251, 2500, 2501][draw(7) as usize] } + draw(3);
        n.min(max_id.saturating_add(1))
    } else {
        range(o.min_nodes, o.max_nodes.max(o.min_nodes)).min(max_id.saturating_add(1))
    };
    if o.dense {
        for i in 0..n {
            m.add_node(i, if big { bulk_lab(nl_on, pal, i) } else { lab(nl_on) });
        }
    } else {
        let lim = if chance(500) { n * 3 + 1 } else { max_id };
        for i in 0..n {
            let id = if big { (i * 2).min(max_id) } else { draw(lim.min(max_id) + 1) };
            m.add_node(id, if big { bulk_lab(nl_on, pal, i) } else { lab(nl_on) });
        }
    }
    if m.nodes.is_empty() {
        return m;
    }
    let ids: Vec<u64> = m.nodes.keys().copied().collect();
    if chance(if big { 300 } else { 120 }) {
        let kind = draw(if big { 5 } else { 7 });
        let seed = draw(1 << 20);
        sys::probe(["hub, outgoing", "hub, incoming", "two hubs", "path", "ring", "complete graph", "complete bipartite graph"][kind as usize]);
        shaped(&mut m, &ids, kind, seed, |i| bulk_lab(el_on, pal, i));
    } else if big {
        let e = if huge { 65_600 } else { [0, 300, 1249, 1250, 2499, 2500, 2501, 4000][draw(8) as usize] } + draw(3);
        let seed = draw(1 << 20);
        let mut g = crate::choice::Rng::new(seed);
        for i in 0..e {
            let s = ids[g.below(ids.len() as u64) as usize];
            let t = ids[g.below(ids.len() as u64) as usize];
            m.add_edge(s, t, bulk_lab(el_on, pal, i));
        }
    } else {
        let dens = draw(4);
        let e = match dens {
            0 => draw(3),
            1 => draw(n + 1),
            2 => draw(2 * n + 1),
            _ => draw(n * n + 1).min(60),
        };
        for _ in 0..e {
            sys::span(|| {
                let s = ids[draw(ids.len() as u64) as usize];
                let t = if chance(120) { s } else { ids[draw(ids.len() as u64) as usize] };
                m.add_edge(s, t, lab(el_on));
            })
        }
    }
    m
}
/// A graph with a structure random edges never have: hubs, paths, rings, complete and bipartite graphs.
fn shaped(m: &mut Model, ids: &[u64], kind: u64, seed: u64, lab: impl Fn(u64) -> Lab) {
    let mut g = crate::choice::Rng::new(seed);
    let mut ids = ids.to_vec();
    if seed % 2 == 0 {
        shuffle(&mut ids, &mut g);
    }
    let n = ids.len();
    let mut es: Vec<(u64, u64)> = Vec::new();
    match kind {
        // hub: out, in, both; two hubs
        0 => es.extend(ids.iter().map(|t| (ids[0], *t))),
        1 => es.extend(ids.iter().skip(1).map(|t| (*t, ids[0]))),
        2 => {
            for t in &ids[1..] {
                let hub = if g.below(2) == 0 { ids[0] } else { ids[n - 1] };
                es.push(if g.below(2) == 0 { (hub, *t) } else { (*t, hub) });
            }
        }
        // path, ring
        3 => es.extend(ids.windows(2).map(|w| (w[0], w[1]))),
        4 => es.extend((0..n).map(|i| (ids[i], ids[(i + 1) % n]))),
        // complete with loops, complete bipartite
        5 => {
            for s in ids.iter().take(16) {
                es.extend(ids.iter().take(16).map(|t| (*s, *t)));
            }
        }
        _ => {
            let (a, b) = ids.split_at(n / 2);
            for s in a.iter().take(8) {
                es.extend(b.iter().take(8).map(|t| (*s, *t)));
            }
        }
    }
    let drop = seed % 3 == 0 && !es.is_empty();
    for (i, (s, t)) in es.into_iter().enumerate() {
        if !drop || g.below(10) != 0 {
            m.add_edge(s, t, lab(i as u64));
        }
    }
}
fn bulk_lab(on: bool, pal: u64, i: u64) -> Lab {
    if on && pal > 0 && i % 7 != 3 {
        Some((i % pal) as u32)
    } else {
        None
    }
}

pub fn id<C: Cfg>(x: u64) -> C::Id {
    C::Id::new(x as usize)
}
pub fn nl<C: Cfg>(l: Lab) -> Option<C::NL> {
    l.map(C::NL::mk)
}
pub fn el<C: Cfg>(l: Lab) -> Option<C::EL> {
    l.map(C::EL::mk)
}

/// Build the graph the model describes; insertion order shuffled by the run.
pub fn build<C: Cfg>(m: &Model) -> C::G {
    build_into::<C>(m, C::new())
}
pub fn build_into<C: Cfg>(m: &Model, mut g: C::G) -> C::G {
    let mut r = crate::choice::Rng::new(draw(1 << 16));
    let mut ns: Vec<(u64, Lab)> = m.nodes.iter().map(|(a, b)| (*a, *b)).collect();
    shuffle(&mut ns, &mut r);
    for (n, l) in ns {
        g.add_node(id::<C>(n), nl::<C>(l));
    }
    let mut es: Vec<((u64, u64), Lab)> = m.edges.iter().map(|(a, b)| (*a, *b)).collect();
    shuffle(&mut es, &mut r);
    for ((mut s, mut t), l) in es {
        if !m.directed && r.below(2) == 1 {
            std::mem::swap(&mut s, &mut t);
        }
        g.add_edge(id::<C>(s), id::<C>(t), el::<C>(l));
    }
    g
}
pub fn shuffle<T>(v: &mut [T], r: &mut crate::choice::Rng) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
}

// ----------------------------------------------------------------- oracle --

#[derive(Clone, Copy)]
pub struct Check {
    pub content: bool,
    pub counts: bool,
    pub labels: bool,
}
pub const ALL: Check = Check {
    content: true,
    counts: true,
    labels: true,
};

fn sorted<Id: IdType>(i: impl Iterator<Item = Id>) -> Vec<u64> {
    let mut v: Vec<u64> = i.map(|x| x.id() as u64).collect();
    v.sort();
    v
}

/// Compare every answer of `g` with the model.  `who` names the graph in messages.
pub fn check_graph<Id: IdType, NL: LabT, EL: LabT, L: IdType>(
    g: &dyn GeneralGraph<Id, NL, EL, L>,
    m: &Model,
    c: Check,
    who: &str,
) -> Res {
    no_panic(&format!("querying {}", who), || check_inner(g, m, c, who))?
}

fn check_inner<Id: IdType, NL: LabT, EL: LabT, L: IdType>(
    g: &dyn GeneralGraph<Id, NL, EL, L>,
    m: &Model,
    c: Check,
    who: &str,
) -> Res {
    let idx = |x: u64| Id::new(x as usize);
    let adj = m.adjacency();
    let nlt = |l: Lab| l.map(|k| NL::mk(k).text());
    let elt = |l: Lab| l.map(|k| EL::mk(k).text());
    ensure!(
        g.is_directed() == m.directed,
        "directedness",
        "{}: is_directed() = {}, expected {}",
        who,
        g.is_directed(),
        m.directed
    );
    let dg = g.as_digraph();
    ensure!(
        dg.is_some() == m.directed,
        "directedness",
        "{}: as_digraph() is_some = {}, expected {}",
        who,
        dg.is_some(),
        m.directed
    );
    // the same graph through every view
    let v = [g.as_graph().edge_count(), g.as_labeled_graph().edge_count(), g.as_general_graph().edge_count(), g.edge_count()];
    let n = [g.as_graph().node_count(), g.as_labeled_graph().node_count(), g.as_general_graph().node_count(), g.node_count()];
    ensure!(v.iter().all(|x| *x == v[0]) && n.iter().all(|x| *x == n[0]), "view", "{}: node and edge counts {:?} and {:?} through different views", who, n, v);
    ensure!(
        g.max_possible_id() == Id::max_value() && g.max_possible_label_id() == L::max_value(),
        "max_possible_id",
        "{}: max_possible_id() = {:?}, max_possible_label_id() = {:?}",
        who,
        g.max_possible_id(),
        g.max_possible_label_id()
    );
    if c.counts {
        ensure!(
            g.node_count() == m.nodes.len(),
            "node_count",
            "{}: node_count() = {}, expected {}",
            who,
            g.node_count(),
            m.nodes.len()
        );
        ensure!(
            g.edge_count() == m.edges.len(),
            "edge_count",
            "{}: edge_count() = {}, expected {} ({})",
            who,
            g.edge_count(),
            m.edges.len(),
            m.show()
        );
        for (n, a) in &adj {
            let d = g.degree(idx(*n));
            ensure!(
                d == a.len(),
                "degree",
                "{}: degree({}) = {}, expected {}",
                who,
                n,
                d,
                a.len()
            );
        }
        if let Some(dg) = dg {
            for (n, a) in m.in_adjacency() {
                let d = dg.in_degree(idx(n));
                ensure!(
                    d == a.len(),
                    "in_degree",
                    "{}: in_degree({}) = {}, expected {}",
                    who,
                    n,
                    d,
                    a.len()
                );
            }
        }
        let k = g.node_indices().count();
        ensure!(k == m.nodes.len(), "node_count", "{}: node_indices() yields {} ids, expected {}", who, k, m.nodes.len());
        let k = g.edge_indices().count();
        ensure!(k == m.edges.len(), "edge_count", "{}: edge_indices() yields {} edges, expected {}", who, k, m.edges.len());
        let hint = |what: &str, h: (usize, Option<usize>), n: usize| -> Res {
            ensure!(h.0 <= n && h.1.map_or(true, |u| u >= n), "size_hint", "{}: {} yields {} items, its size_hint() is {:?}", who, what, n, h);
            Ok(())
        };
        hint("node_indices()", g.node_indices().size_hint(), m.nodes.len())?;
        hint("edge_indices()", g.edge_indices().size_hint(), m.edges.len())?;
        hint("nodes()", g.nodes().size_hint(), m.nodes.len())?;
        hint("edges()", g.edges().size_hint(), m.edges.len())?;
        let (k, l) = (g.nodes().count(), g.edges().count());
        ensure!(k == m.nodes.len() && l == m.edges.len(), "iter_count", "{}: nodes() and edges() yield {} and {} items, expected {}", who, k, l, m.show());
        for (n, a) in adj.iter().take(5) {
            let i = g.neighbors_iter(idx(*n));
            hint("neighbors_iter()", i.size_hint(), a.len())?;
            ensure!(i.count() == a.len(), "iter_count", "{}: neighbors_iter({}).count() is not {}", who, n, a.len());
        }
        if let Some(mx) = m.nodes.keys().next_back() {
            let s = g.max_seen_id();
            ensure!(
                s.map(|s| s.id() as u64 >= *mx).unwrap_or(false),
                "max_seen_id",
                "{}: max_seen_id() = {:?} is below existing node {}",
                who,
                s,
                mx
            );
        }
    }
    if c.content {
        let got = sorted(g.node_indices());
        let want: Vec<u64> = m.nodes.keys().copied().collect();
        ensure!(got == want, "node_indices", "{}: node_indices() = {:?}, expected {:?}", who, got, want);
        let mut got: Vec<(u64, u64)> = g
            .edge_indices()
            .map(|(s, t)| m.key(s.id() as u64, t.id() as u64))
            .collect();
        got.sort();
        let want: Vec<(u64, u64)> = m.edges.keys().copied().collect();
        ensure!(got == want, "edge_indices", "{}: edge_indices() = {:?}, expected {:?}", who, got, want);
        for (n, a) in &adj {
            let want: Vec<u64> = a.iter().copied().collect();
            let x = sorted(g.neighbors_iter(idx(*n)));
            ensure!(x == want, "neighbors", "{}: neighbors_iter({}) = {:?}, expected {:?}", who, n, x, want);
            let x = sorted(g.neighbors(idx(*n)).iter().copied());
            ensure!(x == want, "neighbors", "{}: neighbors({}) = {:?}, expected {:?}", who, n, x, want);
        }
        if let Some(dg) = dg {
            for (n, a) in m.in_adjacency() {
                let want: Vec<u64> = a.iter().copied().collect();
                let x = sorted(dg.in_neighbors_iter(idx(n)));
                ensure!(x == want, "in_neighbors", "{}: in_neighbors_iter({}) = {:?}, expected {:?}", who, n, x, want);
                let x = sorted(dg.in_neighbors(idx(n)).iter().copied());
                ensure!(x == want, "in_neighbors", "{}: in_neighbors({}) = {:?}, expected {:?}", who, n, x, want);
            }
        }
        // membership: every node, some absent ids; every edge both ways, and
        // all pairs of small graphs (a sample of pairs of large ones)
        let lim = Id::max_usize() as u64;
        let mut probe: Vec<u64> = m.nodes.keys().copied().collect();
        if let Some(mx) = probe.last().copied() {
            // ids that look like existing ones when cut short, and the last ones
            for x in [mx.checked_add(1), mx.checked_add(7), Some(mx / 2), Some(lim), Some(lim - 1), Some(mx | 1 << 8), Some(mx | 1 << 16), Some(mx | 1 << 32)] {
                if let Some(x) = x.filter(|x| *x <= lim) {
                    probe.push(x);
                }
            }
        } else {
            probe.extend([0, 1, 7, lim]);
        }
        for x in &probe {
            let want = m.nodes.contains_key(x);
            ensure!(g.has_node(idx(*x)) == want, "has_node", "{}: has_node({}) = {}", who, x, !want);
            let n = g.get_node(idx(*x));
            ensure!(n.is_some() == want, "get_node", "{}: get_node({}).is_some() = {}", who, x, !want);
            if want {
                ensure!(n.get_id() == idx(*x), "get_node", "{}: get_node({}).get_id() = {:?}", who, x, n.get_id());
            } else {
                ensure!(n.is_none() && n.get_label_id().is_none() && g.get_node_label(idx(*x)).is_none(), "get_node", "{}: absent node {} has a label", who, x);
            }
        }
        let mut pairs: Vec<(u64, u64)> = Vec::new();
        if probe.len() <= 18 {
            for a in &probe {
                for b in &probe {
                    pairs.push((*a, *b));
                }
            }
        } else {
            for (s, t) in m.edges.keys() {
                pairs.push((*s, *t));
                pairs.push((*t, *s));
            }
            let mut r = crate::choice::Rng::new(probe.len() as u64);
            for _ in 0..200 {
                pairs.push((
                    probe[r.below(probe.len() as u64) as usize],
                    probe[r.below(probe.len() as u64) as usize],
                ));
            }
        }
        for (s, t) in pairs {
            let want = m.has_edge(s, t);
            ensure!(
                g.has_edge(idx(s), idx(t)) == want,
                "has_edge",
                "{}: has_edge({}, {}) = {}",
                who,
                s,
                t,
                !want
            );
            let e = g.get_edge(idx(s), idx(t));
            ensure!(
                e.is_some() == want,
                "get_edge",
                "{}: get_edge({}, {}).is_some() = {}",
                who,
                s,
                t,
                !want
            );
            if want {
                ensure!(
                    e.get_start() == idx(s) && e.get_target() == idx(t),
                    "get_edge",
                    "{}: get_edge({}, {}) is ({:?}, {:?})",
                    who,
                    s,
                    t,
                    e.get_start(),
                    e.get_target()
                );
                let u = e.clone().unwrap();
                ensure!(
                    u.get_start() == idx(s) && u.get_target() == idx(t) && u.get_label_id() == e.get_label_id(),
                    "get_edge",
                    "{}: get_edge({}, {}).unwrap() is another edge",
                    who,
                    s,
                    t
                );
            } else {
                ensure!(e.is_none() && e.get_label_id().is_none(), "get_edge", "{}: absent edge ({}, {}) has a label", who, s, t);
            }
            if c.labels {
                let got = g.get_edge_label(idx(s), idx(t)).map(|l| l.text());
                let want = elt(m.label(s, t));
                ensure!(
                    got == want,
                    "edge_label",
                    "{}: get_edge_label({}, {}) = {:?}, expected {:?}",
                    who,
                    s,
                    t,
                    got,
                    want
                );
            }
        }
    }
    if c.labels {
        for (n, l) in &m.nodes {
            let got = g.get_node_label(idx(*n)).map(|l| l.text());
            let want = nlt(*l);
            ensure!(
                got == want,
                "node_label",
                "{}: get_node_label({}) = {:?}, expected {:?}",
                who,
                n,
                got,
                want
            );
        }
        // the same through the node and edge iterators
        let mut seen = 0;
        for n in g.nodes() {
            let x = n.get_id().id() as u64;
            let want = match m.nodes.get(&x) {
                Some(l) => nlt(*l),
                None => return viol("nodes", format!("{}: nodes() yields unknown node {}", who, x)),
            };
            let got = n
                .get_label_id()
                .and_then(|l| g.get_node_label_map().get_item(l.id()).map(|l| l.text()));
            ensure!(got == want, "node_label", "{}: nodes() yields node {} with label {:?}, expected {:?}", who, x, got, want);
            seen += 1;
        }
        ensure!(seen == m.nodes.len(), "nodes", "{}: nodes() yields {} nodes, expected {}", who, seen, m.nodes.len());
        let mut seen = BTreeSet::new();
        for e in g.edges() {
            let (s, t) = (e.get_start().id() as u64, e.get_target().id() as u64);
            ensure!(m.has_edge(s, t), "edges", "{}: edges() yields unknown edge ({}, {})", who, s, t);
            let want = elt(m.label(s, t));
            let got = e
                .get_label_id()
                .and_then(|l| g.get_edge_label_map().get_item(l.id()).map(|l| l.text()));
            ensure!(
                got == want,
                "edge_label",
                "{}: edges() yields edge ({}, {}) with label {:?}, expected {:?}",
                who,
                s,
                t,
                got,
                want
            );
            ensure!(seen.insert(m.key(s, t)), "edges", "{}: edges() yields ({}, {}) twice", who, s, t);
        }
        ensure!(seen.len() == m.edges.len(), "edges", "{}: edges() yields {} edges, expected {}", who, seen.len(), m.edges.len());
        // label frequencies
        let mut want: BTreeMap<String, usize> = BTreeMap::new();
        for l in m.nodes.values().flatten() {
            *want.entry(NL::mk(*l).text()).or_insert(0) += 1;
        }
        let got: BTreeMap<String, usize> = g
            .get_node_label_counter()
            .most_common()
            .into_iter()
            .filter(|x| x.1 > 0)
            .map(|(l, n)| (l.text(), n))
            .collect();
        ensure!(got == want, "node_label_counter", "{}: node label counts {:?}, expected {:?}", who, got, want);
        let got: BTreeMap<String, usize> = g
            .get_node_label_id_counter()
            .most_common()
            .into_iter()
            .filter(|x| x.1 > 0)
            .map(|(l, n)| (g.get_node_label_map().get_item(l.id()).map(|l| l.text()).unwrap_or_default(), n))
            .collect();
        ensure!(got == want, "node_label_counter", "{}: node label id counts {:?}, expected {:?}", who, got, want);
        let mut want: BTreeMap<String, usize> = BTreeMap::new();
        for l in m.edges.values().flatten() {
            *want.entry(EL::mk(*l).text()).or_insert(0) += 1;
        }
        let got: BTreeMap<String, usize> = g
            .get_edge_label_counter()
            .most_common()
            .into_iter()
            .filter(|x| x.1 > 0)
            .map(|(l, n)| (l.text(), n))
            .collect();
        ensure!(got == want, "edge_label_counter", "{}: edge label counts {:?}, expected {:?}", who, got, want);
        let got: BTreeMap<String, usize> = g
            .get_edge_label_id_counter()
            .most_common()
            .into_iter()
            .filter(|x| x.1 > 0)
            .map(|(l, n)| (g.get_edge_label_map().get_item(l.id()).map(|l| l.text()).unwrap_or_default(), n))
            .collect();
        ensure!(got == want, "edge_label_counter", "{}: edge label id counts {:?}, expected {:?}", who, got, want);
    }
    Ok(())
}

/// Read a real graph back into a model (labels by text), to compare "exactly
/// one of these states" after an interruption.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Snap {
    pub directed: bool,
    pub nodes: BTreeMap<u64, Option<String>>,
    pub edges: BTreeMap<(u64, u64), Option<String>>,
}
pub fn snap_model<NL: LabT, EL: LabT>(m: &Model) -> Snap {
    Snap {
        directed: m.directed,
        nodes: m
            .nodes
            .iter()
            .map(|(k, l)| (*k, l.map(|x| NL::mk(x).text())))
            .collect(),
        edges: m
            .edges
            .iter()
            .map(|(k, l)| (*k, l.map(|x| EL::mk(x).text())))
            .collect(),
    }
}
pub fn snap_graph<Id: IdType, NL: LabT, EL: LabT, L: IdType>(
    g: &dyn GeneralGraph<Id, NL, EL, L>,
) -> Snap {
    let d = g.is_directed();
    Snap {
        directed: d,
        nodes: g
            .node_indices()
            .map(|n| (n.id() as u64, g.get_node_label(n).map(|l| l.text())))
            .collect(),
        edges: g
            .edge_indices()
            .map(|(s, t)| {
                let l = g.get_edge_label(s, t).map(|l| l.text());
                let (mut a, mut b) = (s.id() as u64, t.id() as u64);
                if !d && a > b {
                    std::mem::swap(&mut a, &mut b);
                }
                ((a, b), l)
            })
            .collect(),
    }
}
/// The model that describes what `g` answers now (labels of the palette of
/// `gen_model`), to check that a graph agrees with itself.
pub fn model_of<C: Cfg>(g: &dyn GeneralGraph<C::Id, C::NL, C::EL, C::L>) -> Result<Model, String> {
    let s = snap_graph(g);
    let n = C::LABELS.min(320);
    let nls: BTreeMap<String, u32> = (0..n).map(|k| (C::NL::mk(k).text(), k)).collect();
    let els: BTreeMap<String, u32> = (0..n).map(|k| (C::EL::mk(k).text(), k)).collect();
    let mut m = Model::new(s.directed);
    for (k, l) in s.nodes {
        let l = match l {
            None => None,
            Some(t) => Some(*nls.get(&t).ok_or(format!("node {} has label {:?}", k, t))?),
        };
        m.nodes.insert(k, l);
    }
    for (k, l) in s.edges {
        let l = match l {
            None => None,
            Some(t) => Some(*els.get(&t).ok_or(format!("edge {:?} has label {:?}", k, t))?),
        };
        for x in [k.0, k.1] {
            if !m.nodes.contains_key(&x) {
                return Err(format!("edge {:?} without node {}", k, x));
            }
        }
        if m.edges.insert(k, l).is_some() {
            return Err(format!("edge {:?} twice", k));
        }
    }
    Ok(m)
}
