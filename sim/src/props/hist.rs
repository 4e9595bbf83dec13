//! H01, H02, H05: mutation histories.

use super::binary::s;
use super::*;
use rust_graph::generic::graph::equal;
use rust_graph::graph_impl::StaticGraphMmap;
use rust_graph::io::serde::{Deserialize, Serialize};
use rust_graph::map::SetMap;
use std::collections::BTreeSet;

pub const H01: Prop = Prop {
    id: "H01",
    run: h01,
    quick: 500_000,
    thorough: 6_000_000,
    rule: "A run executes a history of up to 300 mutations (nodes, edges, labels, handles, bulk iterators, constructors, shared label maps, clones in up to three slots, save and load) on graphs of drawn id and label types; user label code (hash, ==, clone) panics at drawn calls. Every returned value is compared with the model's, every query with the model's answer after drawn steps, after every panic and at the end; after a panic the graph must be in one of the allowed states and stay usable.",
    real: "GraphMap, NodeMap, SetMap, indexmap, std collections; hash seeds from the simulated entropy source",
    assumes: &["label sets fit the label id type", "user code panics in labels only (hash, ==, clone)"],
};
pub const H02: Prop = Prop {
    id: "H02",
    run: h02,
    quick: 1_500_000,
    thorough: 6_000_000,
    rule: "As H01; after drawn steps, after every panic and at the end node_count, edge_count, degree, in_degree and the four label counters are compared with what the node, edge and neighbour iterators yield, and max_seen_id with the largest id ever added.",
    real: "GraphMap, NodeMap, label counters (counter crate), std collections; hash seeds from the simulated entropy source",
    assumes: &["label sets fit the label id type", "user code panics in labels only (hash, ==, clone)"],
};
pub const H05: Prop = Prop {
    id: "H05",
    run: h05,
    quick: 500_000,
    thorough: 4_000_000,
    rule: "A run executes a mutation history, completes the ids to 0..n-1, converts to a static graph and compares every query, label ids included, with the model; then clones, saves and loads, or dumps and maps it, possibly after failed attempts, and compares again.",
    real: "GraphMap::into_static, StaticGraph, EdgeVec, StaticGraphMmap, serde, bincode, memmap; files in the simulated kernel",
    assumes: &["label sets fit the label id type", "ids up to 5000"],
};

// ---------------------------------------------------------------- machine --

/// A graph under mutation with its model.
pub struct Mach<C: Cfg> {
    pub g: C::G,
    pub m: Model,
    /// largest id surely added / possibly added
    pub max: (Option<u64>, Option<u64>),
    /// labels surely / possibly in the label maps
    pub nl: (BTreeSet<u32>, BTreeSet<u32>),
    pub el: (BTreeSet<u32>, BTreeSet<u32>),
}
impl<C: Cfg> Clone for Mach<C> {
    fn clone(&self) -> Self {
        Mach {
            g: self.g.clone(),
            m: self.m.clone(),
            max: self.max,
            nl: self.nl.clone(),
            el: self.el.clone(),
        }
    }
}

/// Which nodes and labels a history talks about.
pub struct Uni {
    pub ids: Vec<u64>,
    pub pal: u64,
    pub nl_on: bool,
    pub el_on: bool,
    pub handles: bool,
}
impl Uni {
    pub fn gen<C: Cfg>(small: bool) -> Uni {
        let n = if chance(100) { 12 + draw(40) } else { 1 + draw(9) };
        let mut ids: Vec<u64> = (0..n).collect();
        if !small {
            for x in ids.iter_mut() {
                match pick(&[10, 2, 1, 1]) {
                    0 => {}
                    1 => *x = draw(C::MAXID + 1),
                    2 => *x = C::MAXID - draw(3),
                    _ => *x = draw(300).min(C::MAXID),
                }
            }
            ids.sort();
            ids.dedup();
        }
        let pal = if C::LABELS == 0 {
            0
        } else if chance(60) {
            (C::LABELS as u64).min(300)
        } else {
            1 + draw(5)
        };
        Uni {
            ids,
            pal,
            nl_on: pal > 0 && !chance(200),
            el_on: pal > 0 && !chance(200),
            handles: true,
        }
    }
    /// Let the history also talk about the node with the most edges.
    pub fn with_hub(&mut self, m: &Model) {
        if m.edges.len() < 200 || !chance(700) {
            return;
        }
        let mut d: std::collections::BTreeMap<u64, u64> = Default::default();
        for (a, b) in m.edges.keys() {
            *d.entry(*a).or_insert(0) += 1;
            *d.entry(*b).or_insert(0) += 1;
        }
        if let Some((n, _)) = d.iter().max_by_key(|x| x.1) {
            self.ids.retain(|x| x != n);
            self.ids.truncate(6);
            self.ids.push(*n);
        }
    }
    pub fn id(&self) -> u64 {
        self.ids[draw(self.ids.len() as u64) as usize]
    }
    fn lab(&self, on: bool) -> Lab {
        if !on || chance(250) {
            None
        } else {
            Some(draw(self.pal) as u32)
        }
    }
    pub fn nlab(&self) -> Lab {
        self.lab(self.nl_on)
    }
    pub fn elab(&self) -> Lab {
        self.lab(self.el_on)
    }
}

fn up(x: &mut Option<u64>, id: u64) {
    if x.map(|v| v < id).unwrap_or(true) {
        *x = Some(id);
    }
}

/// Run `f` with user code that may panic; None if it did.
pub fn shaky<T>(what: &str, f: impl FnOnce() -> T) -> Res<Option<T>> {
    let n0 = sys::fired_total();
    sys::arm(true);
    let r = attempt(f);
    sys::arm(false);
    match r {
        Ok(v) => Ok(Some(v)),
        Err(e) => {
            ensure!(sys::fired_total() > n0, format!("panic:{}", what), "{} panicked: {}", what, e);
            sys::probe("operation interrupted by a panic in user code");
            Ok(None)
        }
    }
}

/// The graph as a model, by label text.
pub fn text_snap<C: Cfg>(m: &Model) -> Snap {
    snap_model::<C::NL, C::EL>(m)
}

impl<C: Cfg> Mach<C> {
    pub fn new() -> Mach<C> {
        Mach::of(C::new(), Model::new(C::DIRECTED))
    }
    pub fn of(g: C::G, m: Model) -> Mach<C> {
        let mut x = Mach {
            g,
            max: (None, None),
            nl: Default::default(),
            el: Default::default(),
            m: Model::new(C::DIRECTED),
        };
        x.seen(&m);
        x.m = m;
        x
    }
    fn seen(&mut self, m: &Model) {
        if let Some(x) = m.nodes.keys().next_back() {
            up(&mut self.max.0, *x);
            up(&mut self.max.1, *x);
        }
        for l in m.nodes.values().flatten() {
            self.nl.0.insert(*l);
        }
        for l in m.edges.values().flatten() {
            self.el.0.insert(*l);
        }
    }
    /// the operation was interrupted: the graph must be in one of these states
    fn interrupted(&mut self, what: &str, cands: Vec<Model>) -> Res {
        let now = no_panic("querying after an interrupted operation", || snap_graph::<C::Id, C::NL, C::EL, C::L>(&self.g))?;
        for c in &cands {
            if text_snap::<C>(c) == now {
                if let Some(x) = c.nodes.keys().next_back() {
                    up(&mut self.max.0, *x);
                }
                self.m = c.clone();
                sys::note(|| format!("{} interrupted; now {}", what, c.show()));
                return Ok(());
            }
        }
        viol(
            format!("interrupted:{}", what),
            format!("{} interrupted by a panic in label code leaves {:?}; allowed: {}", what, now, cands.iter().map(|c| c.show()).collect::<Vec<_>>().join(" or ")),
        )
    }

    /// One operation of a history.
    pub fn step(&mut self, u: &Uni) -> Res {
        let via_dyn = chance(200);
        macro_rules! mg {
            ($g:expr) => {{
                let r: &mut dyn MutGraphTrait<C::Id, C::NL, C::EL, C::L> = if via_dyn {
                    let gg: &mut dyn GeneralGraph<C::Id, C::NL, C::EL, C::L> = $g;
                    match gg.as_mut_graph() {
                        Some(x) => x,
                        None => return viol("as_mut_graph", "as_mut_graph() of a GraphMap is None"),
                    }
                } else {
                    $g
                };
                r
            }};
        }
        match pick(&[8, 12, 4, 5, 3, 3, 2, 2, 2, 2, 1, 1]) {
            0 => {
                let (n, l) = (u.id(), u.nlab());
                sys::note(|| format!("add_node({}, {:?})", n, l));
                let mut after = self.m.clone();
                let want = after.add_node(n, l);
                let lab = nl::<C>(l);
                let g = mg!(&mut self.g);
                match shaky("add_node", || g.add_node(id::<C>(n), lab))? {
                    Some(r) => {
                        ensure!(r == want, "ret:add_node", "add_node({}) = {} for a node that {}", n, r, if want { "was not there" } else { "was there" });
                        self.seen(&after);
                        self.m = after;
                    }
                    None => {
                        up(&mut self.max.1, n);
                        self.nl.1.extend(l);
                        let c = vec![self.m.clone(), after];
                        self.interrupted("add_node", c)?
                    }
                }
            }
            1 => {
                let (a, l) = (u.id(), u.elab());
                let b = if chance(120) { a } else { u.id() };
                sys::note(|| format!("add_edge({}, {}, {:?})", a, b, l));
                let mut after = self.m.clone();
                let want = after.add_edge(a, b, l);
                let lab = el::<C>(l);
                let g = mg!(&mut self.g);
                match shaky("add_edge", || g.add_edge(id::<C>(a), id::<C>(b), lab))? {
                    Some(r) => {
                        ensure!(r == want, "ret:add_edge", "add_edge({}, {}) = {} for an edge that {}", a, b, r, if want { "was not there" } else { "was there" });
                        self.seen(&after);
                        self.m = after;
                    }
                    None => {
                        up(&mut self.max.1, a.max(b));
                        self.el.1.extend(l);
                        let mut c = vec![self.m.clone(), after];
                        for ends in [vec![a], vec![b], vec![a, b]] {
                            let mut x = self.m.clone();
                            for e in ends {
                                x.nodes.entry(e).or_insert(None);
                            }
                            c.push(x);
                        }
                        self.interrupted("add_edge", c)?
                    }
                }
            }
            2 => {
                let n = u.id();
                sys::note(|| format!("remove_node({})", n));
                let had = self.m.nodes.get(&n).copied();
                let adj = self.m.out(n);
                let g = mg!(&mut self.g);
                let r = no_panic("remove_node", || g.remove_node(id::<C>(n)))?;
                match had {
                    None => ensure!(r.is_none(), "ret:remove_node", "remove_node({}) of an absent node returns {:?}", n, r),
                    Some(l) => {
                        ensure!(r.is_some() && r.get_id() == id::<C>(n), "ret:remove_node", "remove_node({}) returns {:?}", n, r);
                        let t = r.get_label_id().and_then(|x| self.g.get_node_label_map().get_item(x.id()).map(|x| x.text()));
                        let w = l.map(|k| C::NL::mk(k).text());
                        ensure!(t == w, "ret:remove_node", "remove_node({}) returns a node labelled {:?}, expected {:?}", n, t, w);
                        if let OwnedNodeType::NodeMap(x) = &r {
                            let got: BTreeSet<u64> = x.neighbors_iter().map(|y| y.id() as u64).collect();
                            ensure!(got == adj, "ret:remove_node", "remove_node({}) returns a node with neighbours {:?}, it had {:?}", n, got, adj);
                        }
                    }
                }
                self.m.remove_node(n);
            }
            3 => {
                let (a, b) = self.some_edge(u);
                sys::note(|| format!("remove_edge({}, {})", a, b));
                let had = self.m.has_edge(a, b);
                let w = self.m.label(a, b).map(|k| C::EL::mk(k).text());
                let g = mg!(&mut self.g);
                let r = no_panic("remove_edge", || g.remove_edge(id::<C>(a), id::<C>(b)))?;
                if had {
                    ensure!(
                        r.is_some() && r.get_start() == id::<C>(a) && r.get_target() == id::<C>(b),
                        "ret:remove_edge",
                        "remove_edge({}, {}) returns {:?}",
                        a,
                        b,
                        r
                    );
                    let t = r.get_label_id().and_then(|x| self.g.get_edge_label_map().get_item(x.id()).map(|x| x.text()));
                    ensure!(t == w, "ret:remove_edge", "remove_edge({}, {}) returns an edge labelled {:?}, expected {:?}", a, b, t, w);
                } else {
                    ensure!(r.is_none(), "ret:remove_edge", "remove_edge({}, {}) of an absent edge returns {:?}", a, b, r);
                }
                self.m.remove_edge(a, b);
            }
            4 => {
                let (n, l) = (u.id(), u.nlab());
                sys::note(|| format!("update_node_label({}, {:?})", n, l));
                let want = self.m.nodes.contains_key(&n);
                let mut after = self.m.clone();
                if want {
                    after.add_node(n, l);
                }
                let lab = nl::<C>(l);
                let g = &mut self.g;
                match shaky("update_node_label", || g.update_node_label(id::<C>(n), lab))? {
                    Some(r) => {
                        ensure!(r == want, "ret:update_node_label", "update_node_label({}) = {}", n, r);
                        self.seen(&after);
                        self.m = after;
                        if !want {
                            self.nl.1.extend(l);
                        }
                    }
                    None => {
                        self.nl.1.extend(l);
                        let c = vec![self.m.clone(), after];
                        self.interrupted("update_node_label", c)?
                    }
                }
            }
            5 => {
                let ((a, b), l) = (self.some_edge(u), u.elab());
                sys::note(|| format!("update_edge_label({}, {}, {:?})", a, b, l));
                let want = self.m.has_edge(a, b);
                let mut after = self.m.clone();
                if want {
                    after.add_edge(a, b, l);
                }
                let lab = el::<C>(l);
                let g = &mut self.g;
                match shaky("update_edge_label", || g.update_edge_label(id::<C>(a), id::<C>(b), lab))? {
                    Some(r) => {
                        ensure!(r == want, "ret:update_edge_label", "update_edge_label({}, {}) = {}", a, b, r);
                        self.seen(&after);
                        self.m = after;
                        if !want {
                            self.el.1.extend(l);
                        }
                    }
                    None => {
                        self.el.1.extend(l);
                        let c = vec![self.m.clone(), after];
                        self.interrupted("update_edge_label", c)?
                    }
                }
            }
            6 if u.handles => {
                // through a node handle
                let n = u.id();
                let new = self.known_node_label(u);
                sys::note(|| format!("get_node_mut({}).set_label_id({:?})", n, new));
                let lid = new.and_then(|k| self.node_lid(k));
                let g = mg!(&mut self.g);
                let had = self.m.nodes.contains_key(&n);
                let ok = no_panic("get_node_mut", || {
                    let mut h = g.get_node_mut(id::<C>(n));
                    if h.is_none() {
                        return false;
                    }
                    if h.get_id() == id::<C>(n) {
                        h.set_label_id(lid);
                        return h.get_label_id() == lid;
                    }
                    false
                })?;
                ensure!(ok == had, "ret:get_node_mut", "get_node_mut({}) works: {}, the node exists: {}", n, ok, had);
                if had {
                    self.m.nodes.insert(n, new);
                }
            }
            7 if u.handles => {
                // through an edge handle
                let (a, b) = self.some_edge(u);
                if !C::DIRECTED && a != b {
                    let had = self.m.has_edge(a, b);
                    let g = mg!(&mut self.g);
                    let ok = no_panic("get_edge_mut", || {
                        let h = g.get_edge_mut(id::<C>(a), id::<C>(b));
                        h.is_some() && h.get_start() == id::<C>(a) && h.get_target() == id::<C>(b)
                    })?;
                    ensure!(ok == had, "ret:get_edge_mut", "get_edge_mut({}, {}) works: {}, the edge exists: {}", a, b, ok, had);
                    return Ok(());
                }
                let new = self.known_edge_label(u);
                sys::note(|| format!("get_edge_mut({}, {}).set_label_id({:?})", a, b, new));
                let lid = new.and_then(|k| self.edge_lid(k));
                let had = self.m.has_edge(a, b);
                let g = mg!(&mut self.g);
                let ok = no_panic("get_edge_mut", || {
                    let mut h = g.get_edge_mut(id::<C>(a), id::<C>(b));
                    if h.is_none() {
                        return false;
                    }
                    if h.get_start() == id::<C>(a) && h.get_target() == id::<C>(b) {
                        h.set_label_id(lid);
                        return h.get_label_id() == lid;
                    }
                    false
                })?;
                ensure!(ok == had, "ret:get_edge_mut", "get_edge_mut({}, {}) works: {}, the edge exists: {}", a, b, ok, had);
                if had {
                    self.m.add_edge(a, b, new);
                }
            }
            8 => {
                // nodes_mut / edges_mut: relabel everything that has label x;
                // of the edges of an undirected graph (recorded finding) only the loops
                let nodes = chance(500);
                let (from, to) = if nodes {
                    (self.known_node_label(u), self.known_node_label(u))
                } else {
                    (self.known_edge_label(u), self.known_edge_label(u))
                };
                sys::note(|| format!("{}: {:?} becomes {:?}", if nodes { "nodes_mut" } else { "edges_mut" }, from, to));
                let lid = |k: Lab| {
                    k.and_then(|k| if nodes { self.node_lid(k) } else { self.edge_lid(k) })
                };
                let (lf, lt) = (lid(from), lid(to));
                let g = mg!(&mut self.g);
                let mut got: Vec<((u64, u64), bool)> = no_panic("mutable iteration", || {
                    let mut v = Vec::new();
                    if nodes {
                        for mut h in g.nodes_mut() {
                            let (n, hit) = (h.get_id().id() as u64, h.get_label_id() == lf);
                            v.push(((n, n), hit));
                            if hit {
                                h.set_label_id(lt);
                            }
                        }
                    } else {
                        for mut h in g.edges_mut() {
                            let (a, b, hit) = (h.get_start().id() as u64, h.get_target().id() as u64, h.get_label_id() == lf);
                            v.push((if C::DIRECTED || a <= b { (a, b) } else { (b, a) }, hit));
                            if hit && (C::DIRECTED || a == b) {
                                h.set_label_id(lt);
                            }
                        }
                    }
                    v
                })?;
                got.sort();
                let mut want = Vec::new();
                if nodes {
                    for (n, l) in self.m.nodes.iter_mut() {
                        want.push(((*n, *n), *l == from));
                        if *l == from {
                            *l = to;
                        }
                    }
                } else {
                    for ((a, b), l) in self.m.edges.iter_mut() {
                        want.push(((*a, *b), *l == from));
                        if *l == from && (C::DIRECTED || a == b) {
                            *l = to;
                        }
                    }
                }
                want.sort();
                ensure!(got == want, "mut-iter", "mutable iteration yields {:?}, expected {:?} (whether each has label {:?})", got, want, from);
            }
            9 => {
                // labels without nodes or edges
                if C::LABELS == 0 {
                    return Ok(());
                }
                let node = chance(500);
                let k = draw(u.pal) as u32;
                sys::note(|| format!("{}({})", if node { "add_node_label" } else { "add_edge_label" }, k));
                let g = &mut self.g;
                let r = if node {
                    let l = nl::<C>(Some(k));
                    shaky("add_node_label", || C::add_node_label(g, l))?
                } else {
                    let l = el::<C>(Some(k));
                    shaky("add_edge_label", || C::add_edge_label(g, l))?
                };
                match r {
                    Some(r) => {
                        let want = if node {
                            self.nl.0.insert(k);
                            self.node_lid(k)
                        } else {
                            self.el.0.insert(k);
                            self.edge_lid(k)
                        };
                        ensure!(r == want && r.is_some(), "ret:add_label", "adding label {} returns id {:?}, the label map says {:?}", k, r, want);
                    }
                    None => {
                        if node {
                            self.nl.1.insert(k);
                        } else {
                            self.el.1.insert(k);
                        }
                        let c = vec![self.m.clone()];
                        self.interrupted("add label", c)?;
                    }
                }
            }
            10 => {
                sys::note(|| "shrink_to_fit, refine_edge_count".into());
                let g = &mut self.g;
                no_panic("refine_edge_count", || {
                    C::shrink(g);
                    C::refine_edge_count(g)
                })?;
            }
            _ => {
                // a no-argument look at handles of absent things
                let n = u.id();
                let g = mg!(&mut self.g);
                let none = no_panic("get_node_mut", || g.get_node_mut(id::<C>(n)).is_none())?;
                ensure!(none != self.m.nodes.contains_key(&n), "ret:get_node_mut", "get_node_mut({}).is_none() = {}", n, none);
            }
        }
        Ok(())
    }

    fn some_edge(&self, u: &Uni) -> (u64, u64) {
        if !self.m.edges.is_empty() && chance(650) {
            let k = draw(self.m.edges.len() as u64) as usize;
            let (a, b) = *self.m.edges.keys().nth(k).unwrap();
            if chance(300) {
                (b, a)
            } else {
                (a, b)
            }
        } else {
            (u.id(), u.id())
        }
    }
    fn node_lid(&self, k: u32) -> Option<C::L> {
        self.g.get_node_label_map().find_index(&C::NL::mk(k)).map(C::L::new)
    }
    fn edge_lid(&self, k: u32) -> Option<C::L> {
        self.g.get_edge_label_map().find_index(&C::EL::mk(k)).map(C::L::new)
    }
    fn known_node_label(&self, u: &Uni) -> Lab {
        let l = u.nlab()?;
        if self.nl.0.contains(&l) {
            Some(l)
        } else {
            None
        }
    }
    fn known_edge_label(&self, u: &Uni) -> Lab {
        let l = u.elab()?;
        if self.el.0.contains(&l) {
            Some(l)
        } else {
            None
        }
    }

    /// The label maps hold exactly the labels that were used.
    pub fn check_label_maps(&self, who: &str) -> Res {
        no_panic("querying label maps", || {
            let n = label_set(self.g.get_node_label_map(), who, "node")?;
            let e = label_set(self.g.get_edge_label_map(), who, "edge")?;
            for (what, got, (must, may), cnt, has) in [
                (
                    "node",
                    n,
                    (
                        self.nl.0.iter().map(|k| C::NL::mk(*k).text()).collect::<BTreeSet<_>>(),
                        self.nl.1.iter().map(|k| C::NL::mk(*k).text()).collect::<BTreeSet<_>>(),
                    ),
                    self.g.num_of_node_labels(),
                    self.g.has_node_labels(),
                ),
                (
                    "edge",
                    e,
                    (
                        self.el.0.iter().map(|k| C::EL::mk(*k).text()).collect(),
                        self.el.1.iter().map(|k| C::EL::mk(*k).text()).collect(),
                    ),
                    self.g.num_of_edge_labels(),
                    self.g.has_edge_labels(),
                ),
            ] {
                ensure!(must.is_subset(&got), "label-map", "{}: {} labels {:?} lack some of {:?}", who, what, got, must);
                ensure!(
                    got.iter().all(|x| must.contains(x) || may.contains(x)),
                    "label-map",
                    "{}: {} labels {:?} contain some nobody added ({:?})",
                    who,
                    what,
                    got,
                    must
                );
                ensure!(cnt == got.len(), "label-map", "{}: num_of_{}_labels() = {}, {} labels listed", who, what, cnt, got.len());
                ensure!(has != got.is_empty(), "label-map", "{}: has_{}_labels() = {}", who, what, has);
            }
            Ok(())
        })?
    }

    /// Counts against what the iterators yield; max_seen_id against the history.
    pub fn check_counts(&self, who: &str) -> Res {
        check_self_counts::<C>(&self.g, who)?;
        let g = self.g.max_seen_id().map(|x| x.id() as u64);
        ensure!(
            g >= self.max.0 && g <= self.max.1.max(self.max.0),
            "max_seen_id",
            "{}: max_seen_id() = {:?}, the largest id ever added is {:?}",
            who,
            g,
            self.max.0
        );
        sys::mark();
        Ok(())
    }
}

fn label_set<T: LabT>(m: &SetMap<T>, who: &str, what: &str) -> Res<BTreeSet<String>> {
    let mut s = BTreeSet::new();
    for (i, l) in m.items().enumerate() {
        ensure!(s.insert(l.text()), "label-map", "{}: {} label {:?} is listed twice", who, what, l);
        ensure!(
            m.find_index(l) == Some(i) && m.get_item(i).map(|x| x.text()) == Some(l.text()),
            "label-map",
            "{}: {} label {:?} at position {} has index {:?}",
            who,
            what,
            l,
            i,
            m.find_index(l)
        );
    }
    Ok(s)
}

/// Every count a graph reports equals what its own iterators yield.
pub fn check_self_counts<C: Cfg>(g: &DynG<C>, who: &str) -> Res {
    no_panic(&format!("counting in {}", who), || {
        let ids: Vec<C::Id> = g.node_indices().collect();
        let set: BTreeSet<u64> = ids.iter().map(|x| x.id() as u64).collect();
        ensure!(set.len() == ids.len(), "node_count", "{}: node_indices() repeats ids: {:?}", who, ids);
        ensure!(g.node_count() == ids.len(), "node_count", "{}: node_count() = {}, node_indices() yields {}", who, g.node_count(), ids.len());
        let n = g.nodes().count();
        ensure!(g.node_count() == n, "node_count", "{}: node_count() = {}, nodes() yields {}", who, g.node_count(), n);
        let es: Vec<(C::Id, C::Id)> = g.edge_indices().collect();
        ensure!(g.edge_count() == es.len(), "edge_count", "{}: edge_count() = {}, edge_indices() yields {}", who, g.edge_count(), es.len());
        let n = g.edges().count();
        ensure!(g.edge_count() == n, "edge_count", "{}: edge_count() = {}, edges() yields {}", who, g.edge_count(), n);
        let mut loops = 0;
        let mut out: std::collections::BTreeMap<u64, usize> = Default::default();
        let mut inn: std::collections::BTreeMap<u64, usize> = Default::default();
        for (a, b) in &es {
            let (a, b) = (a.id() as u64, b.id() as u64);
            if a == b {
                loops += 1;
            }
            *out.entry(a).or_insert(0) += 1;
            if g.is_directed() {
                *inn.entry(b).or_insert(0) += 1;
            } else if a != b {
                *out.entry(b).or_insert(0) += 1;
            }
        }
        let _ = loops;
        for i in &ids {
            let k = i.id() as u64;
            let d = g.degree(*i);
            let c = g.neighbors_iter(*i).count();
            ensure!(d == c, "degree", "{}: degree({}) = {}, neighbors_iter yields {}", who, k, d, c);
            let w = out.get(&k).copied().unwrap_or(0);
            ensure!(d == w, "degree", "{}: degree({}) = {}, the edges at it are {}", who, k, d, w);
        }
        if let Some(dg) = g.as_digraph() {
            for i in &ids {
                let k = i.id() as u64;
                let d = dg.in_degree(*i);
                let c = dg.in_neighbors_iter(*i).count();
                ensure!(d == c, "in_degree", "{}: in_degree({}) = {}, in_neighbors_iter yields {}", who, k, d, c);
                let w = inn.get(&k).copied().unwrap_or(0);
                ensure!(d == w, "in_degree", "{}: in_degree({}) = {}, the edges into it are {}", who, k, d, w);
            }
        }
        // label statistics
        type M = std::collections::BTreeMap<String, usize>;
        let text_n = |l: C::L| g.get_node_label_map().get_item(l.id()).map(|x| x.text()).unwrap_or_else(|| format!("unknown id {:?}", l));
        let text_e = |l: C::L| g.get_edge_label_map().get_item(l.id()).map(|x| x.text()).unwrap_or_else(|| format!("unknown id {:?}", l));
        let mut wn = M::new();
        for n in g.nodes() {
            if let Some(l) = n.get_label_id() {
                *wn.entry(text_n(l)).or_insert(0) += 1;
            }
        }
        let mut we = M::new();
        for e in g.edges() {
            if let Some(l) = e.get_label_id() {
                *we.entry(text_e(l)).or_insert(0) += 1;
            }
        }
        let got: [(&str, M, &M); 4] = [
            ("node_label_counter", g.get_node_label_counter().most_common().into_iter().map(|(l, n)| (l.text(), n)).collect(), &wn),
            ("node_label_id_counter", g.get_node_label_id_counter().most_common().into_iter().map(|(l, n)| (text_n(l), n)).collect(), &wn),
            ("edge_label_counter", g.get_edge_label_counter().most_common().into_iter().map(|(l, n)| (l.text(), n)).collect(), &we),
            ("edge_label_id_counter", g.get_edge_label_id_counter().most_common().into_iter().map(|(l, n)| (text_e(l), n)).collect(), &we),
        ];
        for (what, g, w) in got {
            let g: M = g.into_iter().filter(|x| x.1 > 0).collect();
            ensure!(&g == w, "label-counter", "{}: get_{}() = {:?}, the iterators yield {:?}", who, what, g, w);
        }
        if let Some(mx) = set.iter().next_back() {
            let s = g.max_seen_id().map(|x| x.id() as u64);
            ensure!(s >= Some(*mx), "max_seen_id", "{}: max_seen_id() = {:?} is below node {}", who, s, mx);
        }
        Ok(())
    })?
}

/// Replace the machine by one made another way, or save and load it.
pub fn remake<C: Cfg>(x: &mut Mach<C>, u: &Uni) -> Res {
    match draw(5) {
        0 => {
            let n = draw(8);
            let es: Vec<(u64, u64)> = (0..n).map(|_| (u.id(), u.id())).collect();
            sys::note(|| format!("from_edges({:?})", es));
            let mut m = Model::new(C::DIRECTED);
            for (a, b) in &es {
                m.add_edge(*a, *b, None);
            }
            let v: Vec<(C::Id, C::Id)> = es.iter().map(|(a, b)| (id::<C>(*a), id::<C>(*b))).collect();
            let g = no_panic("from_edges", || C::from_edges(v))?;
            *x = Mach::of(g, m);
        }
        1 => {
            // a graph sharing the label numbering
            sys::note(|| "with_label_map".into());
            let (a, b) = (x.g.get_node_label_map().clone(), x.g.get_edge_label_map().clone());
            let g = no_panic("with_label_map", || C::with_label_map(a, b))?;
            let mut y = Mach::of(g, Model::new(C::DIRECTED));
            y.nl = x.nl.clone();
            y.el = x.el.clone();
            let same = |y: &Mach<C>| -> Res {
                for k in &x.nl.0 {
                    ensure!(x.node_lid(*k) == y.node_lid(*k), "label-numbering", "label {} has id {:?} in one graph and {:?} in a graph made with its label map", k, x.node_lid(*k), y.node_lid(*k));
                }
                for k in &x.el.0 {
                    ensure!(x.edge_lid(*k) == y.edge_lid(*k), "label-numbering", "edge label {} has id {:?} and {:?}", k, x.edge_lid(*k), y.edge_lid(*k));
                }
                Ok(())
            };
            same(&y)?;
            for _ in 0..draw(5) {
                y.step(u)?;
            }
            same(&y)?;
            *x = y;
        }
        2 => {
            sys::note(|| "export, import".into());
            sys::arm(false);
            let g = &x.g;
            clean("binary export", || g.export("h.bin").map_err(s))?;
            x.g = clean("binary import", || C::G::import("h.bin").map_err(s))?;
        }
        3 => {
            let k = draw(30) as usize;
            sys::note(|| format!("with_capacity({})", k));
            let g = no_panic("with_capacity", || C::with_capacity(k, k / 2, k / 3))?;
            *x = Mach::of(g, Model::new(C::DIRECTED));
        }
        _ => {
            sys::note(|| "clone as a boxed graph".into());
            // Box<GeneralGraph> has its own clone
            let b: Box<DynG<C>> = Box::new(x.g.clone());
            if let Some(c) = shaky("boxed clone", || b.clone())? {
                check_graph(&*c, &x.m, Check { counts: false, ..ALL }, "clone of a boxed graph")?;
            }
            check_graph(&*b, &x.m, Check { counts: false, ..ALL }, "boxed graph after being cloned")?;
        }
    }
    Ok(())
}

fn history<C: Cfg>(mode: u8) -> Res {
    pick_style();
    let mut u = Uni::gen::<C>(false);
    sys::plan_faults(&[F::Panic], false, 450);
    let mut slots: Vec<Mach<C>> = vec![Mach::new()];
    if chance(400) {
        let m = gen_model::<C>(GenOpts {
            big: 2,
            dense: chance(300),
            ..Default::default()
        });
        u.with_hub(&m);
        slots[0] = Mach::of(build::<C>(&m), m);
    }
    let check = |x: &Mach<C>, who: &str| -> Res {
        if mode == 1 {
            let before = snap_graph::<C::Id, C::NL, C::EL, C::L>(&x.g);
            check_graph(&x.g, &x.m, Check { counts: false, ..ALL }, who)?;
            ensure!(before == text_snap::<C>(&x.m), "content", "{}: {:?} instead of {}", who, before, x.m.show());
            x.check_label_maps(who)?;
            sys::mark();
            Ok(())
        } else {
            x.check_counts(who)
        }
    };
    let steps = match pick(&[6, 3, 1]) {
        0 => 1 + draw(12),
        1 => 10 + draw(40),
        _ => 60 + draw(240),
    };
    for _ in 0..steps {
        sys::span(|| -> Res {
            let i = draw(slots.len() as u64) as usize;
            let n0 = sys::fired_total();
            match pick(&[40, 2, 2, 1]) {
                0 => slots[i].step(&u)?,
                1 => {
                    // clone into another slot
                    let src = &slots[i];
                    if let Some(c) = shaky("clone", || src.clone())? {
                        sys::note(|| format!("slot {} cloned", i));
                        if slots.len() < 3 {
                            slots.push(c);
                        } else {
                            let j = draw(3) as usize;
                            slots[j] = c;
                        }
                    }
                }
                2 => remake(&mut slots[i], &u)?,
                _ => {
                    // comparing may panic too, and must not harm either side
                    let j = draw(slots.len() as u64) as usize;
                    let (a, b) = (&slots[i], &slots[j]);
                    if let Some(r) = shaky("==", || a.g == b.g)? {
                        if mode == 1 {
                            let w = text_snap::<C>(&a.m) == text_snap::<C>(&b.m);
                            ensure!(r == w, "eq", "== of two graphs is {}, their content is {}", r, if w { "the same" } else { "different" });
                        }
                    }
                }
            }
            if sys::fired_total() > n0 || chance(250) {
                check(&slots[i], &format!("graph {}", i))?;
            }
            Ok(())
        })?;
    }
    sys::heal();
    for (i, x) in slots.iter().enumerate() {
        check(x, &format!("graph {} at the end", i))?;
    }
    if mode == 1 && !C::DIRECTED && chance(60) {
        undirected_handle(&mut slots[0], &u)?;
    }
    Ok(())
}

/// Setting the label of an undirected edge through a handle (recorded finding:
/// only one of the two directions changes).
fn undirected_handle<C: Cfg>(x: &mut Mach<C>, u: &Uni) -> Res {
    let es: Vec<(u64, u64)> = x.m.edges.keys().copied().filter(|(a, b)| a != b).collect();
    if es.is_empty() {
        return Ok(());
    }
    let (mut a, mut b) = es[draw(es.len() as u64) as usize];
    let many = chance(300);
    if !many && chance(500) {
        std::mem::swap(&mut a, &mut b);
    }
    let old = x.m.label(a, b);
    let new = x.known_edge_label(u);
    if new == old {
        return Ok(());
    }
    let lid = new.and_then(|k| x.edge_lid(k));
    sys::note(|| format!("undirected edge handle ({}, {}) label {:?} -> {:?}", a, b, old, new));
    no_panic("undirected edge handle", || {
        if many {
            for mut h in x.g.edges_mut() {
                if h.get_start() == id::<C>(a) && h.get_target() == id::<C>(b) {
                    h.set_label_id(lid);
                }
            }
        } else {
            x.g.get_edge_mut(id::<C>(a), id::<C>(b)).set_label_id(lid);
        }
    })?;
    let t = |l: Lab| l.map(|k| C::EL::mk(k).text());
    let f = x.g.get_edge_label(id::<C>(a), id::<C>(b)).map(|l| l.text());
    let r = x.g.get_edge_label(id::<C>(b), id::<C>(a)).map(|l| l.text());
    if f == t(new) && r == t(old) {
        // the rest must be as it was
        let back = old.and_then(|k| x.edge_lid(k));
        x.g.get_edge_mut(id::<C>(a), id::<C>(b)).set_label_id(back);
        check_graph(&x.g, &x.m, Check { counts: false, ..ALL }, "graph after the edge handle was used and its effect undone")?;
        return viol(
            "undirected-edge-handle",
            format!("after setting the label of the undirected edge {}-{} to {:?} through its handle, get_edge_label({}, {}) = {:?} but get_edge_label({}, {}) = {:?}", a, b, t(new), a, b, f, b, a, r),
        );
    }
    x.m.add_edge(a, b, new);
    check_graph(&x.g, &x.m, Check { counts: false, ..ALL }, "graph after an undirected edge handle was used")
}

fn h01c<C: Cfg>() -> Res {
    history::<C>(1)
}
fn h02c<C: Cfg>() -> Res {
    history::<C>(2)
}
fn h01() -> Res {
    dispatch_p!(h01c)
}
fn h02() -> Res {
    dispatch_p!(h02c)
}
fn h05() -> Res {
    dispatch_p!(h05c)
}

/// A graph with ids 0..n-1 at the end of some history.
pub fn dense_history<C: Cfg>() -> Res<Mach<C>> {
    let mut u = Uni::gen::<C>(true);
    u.handles = true;
    let mut x: Mach<C> = Mach::new();
    if chance(500) {
        let big = if chance(5) { 1_000 } else { 0 };
        let m = gen_model::<C>(GenOpts {
            big,
            huge: 50,
            dense: big > 0 || chance(700),
            max_id: if big > 0 { 5_000 } else { 60 },
            ..Default::default()
        });
        u.with_hub(&m);
        x = Mach::of(build::<C>(&m), m);
    }
    let steps = match pick(&[5, 3, 1]) {
        0 => draw(10),
        1 => 5 + draw(30),
        _ => 40 + draw(100),
    };
    for _ in 0..steps {
        sys::span(|| -> Res {
            if chance(30) {
                remake(&mut x, &u)
            } else {
                x.step(&u)
            }
        })?;
    }
    // complete the ids, which may be all there are of their type
    if C::MAXID == 255 && chance(120) {
        let g = &mut x.g;
        no_panic("add_node", || g.add_node(id::<C>(255), None))?;
        x.m.add_node(255, None);
        up(&mut x.max.0, 255);
    }
    if let Some(mx) = x.m.nodes.keys().next_back().copied() {
        for i in 0..mx {
            if !x.m.nodes.contains_key(&i) {
                let g = &mut x.g;
                no_panic("add_node", || g.add_node(id::<C>(i), None))?;
                x.m.add_node(i, None);
            }
        }
    } else if chance(800) {
        let g = &mut x.g;
        no_panic("add_node", || g.add_node(id::<C>(0), None))?;
        x.m.add_node(0, None);
        up(&mut x.max.0, 0);
    }
    Ok(x)
}

/// With gaps between the ids, a static graph keeps the edges, their labels and the neighbours of every id.
fn gaps<C: Cfg>(mut x: Mach<C>) -> Res {
    let mx = *x.m.nodes.keys().next_back().unwrap();
    for _ in 0..1 + draw(4) {
        let n = draw(mx);
        if x.m.nodes.contains_key(&n) {
            let g = &mut x.g;
            no_panic("remove_node", || g.remove_node(id::<C>(n)))?;
            x.m.remove_node(n);
        }
    }
    let (m, who) = (&x.m, "static graph of a graph with gaps between its ids");
    sys::note(|| format!("into_static of {}", m.show()));
    let g = x.g;
    let st = no_panic("into_static", || C::into_static(g))?;
    let st: &DynG<C> = &st;
    no_panic(who, || -> Res {
        let mut e: Vec<(u64, u64)> = st.edge_indices().map(|(a, b)| m.key(a.id() as u64, b.id() as u64)).collect();
        e.sort();
        ensure!(e.iter().eq(m.edges.keys()), "gaps", "{}: edges {:?}, expected {}", who, e, m.show());
        ensure!(st.edge_count() == m.edges.len() && st.is_directed() == m.directed, "gaps", "{}: edge_count() = {}, expected {}", who, st.edge_count(), m.show());
        let (adj, inn, none) = (m.adjacency(), m.in_adjacency(), Default::default());
        for n in 0..=mx {
            let i = id::<C>(n);
            let want: Vec<u64> = adj.get(&n).unwrap_or(&none).iter().copied().collect();
            let mut got: Vec<u64> = st.neighbors_iter(i).map(|t| t.id() as u64).collect();
            got.sort();
            ensure!(got == want && st.degree(i) == want.len() && st.neighbors(i).len() == want.len(), "gaps", "{}: neighbours of {} are {:?}, expected {:?}", who, n, got, want);
            for t in want {
                let l = st.get_edge_label(i, id::<C>(t)).map(|l| l.text());
                let w = m.label(n, t).map(|k| C::EL::mk(k).text());
                ensure!(st.has_edge(i, id::<C>(t)) && l == w, "gaps", "{}: edge ({}, {}) has label {:?}, expected {:?}", who, n, t, l, w);
            }
            if let Some(d) = st.as_digraph() {
                let want: Vec<u64> = inn.get(&n).unwrap_or(&none).iter().copied().collect();
                let mut got: Vec<u64> = d.in_neighbors_iter(i).map(|t| t.id() as u64).collect();
                got.sort();
                ensure!(got == want && d.in_degree(i) == want.len(), "gaps", "{}: in-neighbours of {} are {:?}, expected {:?}", who, n, got, want);
            }
            if (n as usize) < m.nodes.len() {
                let l = st.get_node_label(i).map(|l| l.text());
                let w = m.nodes.get(&n).copied().flatten().map(|k| C::NL::mk(k).text());
                ensure!(l == w, "gaps", "{}: node {} has label {:?}, expected {:?}", who, n, l, w);
            }
        }
        sys::mark();
        Ok(())
    })?
}

fn h05c<C: Cfg>() -> Res {
    pick_style();
    sys::plan_none();
    let x = dense_history::<C>()?;
    if chance(150) && x.m.nodes.len() > 1 {
        return gaps(x);
    }
    sys::note(|| format!("into_static of {}", x.m.show()));
    let items = |m: &SetMap<C::NL>| m.items().map(|l| l.text()).collect::<Vec<_>>();
    let eitems = |m: &SetMap<C::EL>| m.items().map(|l| l.text()).collect::<Vec<_>>();
    let (ni, ei) = (items(x.g.get_node_label_map()), eitems(x.g.get_edge_label_map()));
    let lids: Vec<(u64, Option<C::L>)> = x.m.nodes.keys().map(|n| (*n, x.g.get_node(id::<C>(*n)).get_label_id())).collect();
    let elids: Vec<((u64, u64), Option<C::L>)> = x.m.edges.keys().map(|(a, b)| ((*a, *b), x.g.get_edge(id::<C>(*a), id::<C>(*b)).get_label_id())).collect();
    let g0 = x.g.clone();
    let st = no_panic("into_static", || C::into_static(x.g))?;
    let check = |g: &DynG<C>, who: &str| -> Res {
        check_graph(g, &x.m, ALL, who)?;
        check_self_counts::<C>(g, who)?;
        let (a, b) = (items(g.get_node_label_map()), eitems(g.get_edge_label_map()));
        ensure!(a == ni && b == ei, "label-numbering", "{}: label maps {:?} / {:?}, the original had {:?} / {:?}", who, a, b, ni, ei);
        for (n, l) in &lids {
            let k = g.get_node(id::<C>(*n)).get_label_id();
            ensure!(k == *l, "label-numbering", "{}: node {} has label id {:?}, the original {:?}", who, n, k, l);
        }
        for ((a, b), l) in &elids {
            for (a, b) in [(a, b), (b, a)] {
                if x.m.directed && (*a, *b) != x.m.key(*a, *b) {
                    continue;
                }
                if !x.m.edges.contains_key(&(*a, *b)) && x.m.directed {
                    continue;
                }
                let k = g.get_edge(id::<C>(*a), id::<C>(*b)).get_label_id();
                let l = if x.m.directed {
                    elids.iter().find(|e| e.0 == (*a, *b)).map(|e| e.1).unwrap_or(None)
                } else {
                    *l
                };
                ensure!(k == l, "label-numbering", "{}: edge ({}, {}) has label id {:?}, the original {:?}", who, a, b, k, l);
            }
        }
        ensure!(
            g.max_seen_id().map(|m| m.id() as u64) == (x.m.nodes.len() as u64).checked_sub(1),
            "max_seen_id",
            "{}: max_seen_id() = {:?} with {} nodes",
            who,
            g.max_seen_id(),
            x.m.nodes.len()
        );
        sys::mark();
        Ok(())
    };
    check(&st, "static graph")?;
    ensure!(
        no_panic("equal", || equal::<C::Id, C::NL, C::EL, C::L, C::L>(&st, &g0) && equal::<C::Id, C::NL, C::EL, C::L, C::L>(&g0, &st))?,
        "equal",
        "the static graph is not equal() to the graph it was made from"
    );
    use super::stat::Stat;
    use rust_graph::graph_impl::static_graph::{EdgeVec, EdgeVecTrait};
    let arrays = |g: &C::S, who: &str| -> Res {
        no_panic("searching the edge vectors", || -> Res {
            let two: [(&str, Option<&EdgeVec<C::Id, C::L>>, bool); 2] = [("edge", Some(g.out()), false), ("in-edge", g.inn().as_ref(), true)];
            for (what, v, rev) in two {
                let v = match v {
                    Some(v) => v,
                    None => continue,
                };
                for (a, b) in x.m.edges.keys() {
                    let both = if x.m.directed || a == b { 1 } else { 2 };
                    for (a, b) in [(a, b), (b, a)].iter().take(both) {
                        let (a, b) = if rev { (b, a) } else { (a, b) };
                        let i = v.find_edge_index(id::<C>(**a), id::<C>(**b));
                        ensure!(v.has_edge(id::<C>(**a), id::<C>(**b)) && i.is_some(), "arrays", "{}: the {} vector does not find {} at {}", who, what, b, a);
                    }
                }
            }
            Ok(())
        })?
    };
    arrays(&st, "static graph")?;
    let mut cur = st;
    for _ in 0..draw(3) {
        match draw(4) {
            0 => {
                let c = no_panic("clone", || cur.clone())?;
                check(&c, "clone of a static graph")?;
                check(&cur, "static graph after being cloned")?;
                cur = c;
            }
            1 => {
                if chance(300) {
                    sys::plan_faults(WRITE_FAULTS, false, 0);
                    faulty("binary export", WRITER, || cur.export("s.bin").map_err(s))?;
                    sys::heal();
                    check(&cur, "static graph after an attempt to save it")?;
                }
                clean("binary export", || cur.export("s.bin").map_err(s))?;
                cur = clean("binary import", || C::S::import("s.bin").map_err(s))?;
                check(&cur, "static graph saved and loaded")?;
                arrays(&cur, "static graph saved and loaded")?;
            }
            2 => {
                clean("mmap dump", || C::dump(&cur, "s"))?;
                let mm = clean("opening the mmap dump", || Ok(StaticGraphMmap::<C::Id, C::NL, C::EL, C::L>::new("s")))?;
                check(&mm, "static graph dumped and mapped")?;
            }
            _ => {
                let b: Box<DynG<C>> = Box::new(cur.clone());
                let c = no_panic("boxed clone", || b.clone())?;
                check_graph(&*c, &x.m, ALL, "clone of a boxed static graph")?;
                check(&*b, "boxed static graph after being cloned")?;
            }
        }
    }
    Ok(())
}
