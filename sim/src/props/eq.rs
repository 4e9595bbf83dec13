//! H04: equality and hash depend only on content.

use super::binary::s;
use super::csv_import::{import_csv, put_csv, Style};
use super::hist::{dense_history, shaky, text_snap};
use super::*;
use rust_graph::generic::graph::equal;
use rust_graph::graph_impl::graph_map::new_general_graphmap;
use rust_graph::graph_impl::StaticGraphMmap;
use rust_graph::io::serde::{Deserialize, Serialize};
use rust_graph::map::SetMap;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};

pub const H04: Prop = Prop {
    id: "H04",
    run: h04,
    quick: 400_000,
    thorough: 8_000_000,
    rule: "A run makes two to five graphs out of one or two models (the second a small change of the first, or independent), each by another route: insertion order, capacity, label numbering, detours through other nodes, edges and labels, mutation history, save and load (binary, csv, mmap), clone, boxed clone, static, or on a thread with other hash seeds; label code may panic during comparisons. ==, equal() (also across label id types), and the hash are compared for every pair with equality of the models.",
    real: "PartialEq and Hash of GraphMap, StaticGraph and boxed graphs, equal(); GraphMap, StaticGraph, StaticGraphMmap, serde, csv, indexmap; hash seeds from the simulated entropy source, files in the simulated kernel",
    assumes: &["label sets fit the label id type"],
};

fn h04() -> Res {
    dispatch_p!(h04c)
}

type Mm<C> = StaticGraphMmap<<C as Cfg>::Id, <C as Cfg>::NL, <C as Cfg>::EL, <C as Cfg>::L>;
type BoxG<C> = Box<DynG<C>>;

enum Any<C: Cfg> {
    Map(C::G),
    Static(C::S),
    Mmap(Mm<C>),
    Boxed(BoxG<C>),
}
impl<C: Cfg> Any<C> {
    fn g(&self) -> &DynG<C> {
        match self {
            Any::Map(g) => g,
            Any::Static(g) => g,
            Any::Mmap(g) => g,
            Any::Boxed(g) => &**g,
        }
    }
    fn boxed(self) -> BoxG<C> {
        match self {
            Any::Map(g) => Box::new(g),
            Any::Static(g) => Box::new(g),
            Any::Mmap(g) => Box::new(g),
            Any::Boxed(g) => g,
        }
    }
}

fn h<T: Hash>(x: &T) -> u64 {
    let mut d = DefaultHasher::new();
    x.hash(&mut d);
    d.finish()
}

pub fn labels_used(m: &Model) -> (BTreeSet<u32>, BTreeSet<u32>) {
    (m.nodes.values().flatten().copied().collect(), m.edges.values().flatten().copied().collect())
}

/// A graph with drawn label numbering (and labels nobody uses).
pub fn numbered<C: Cfg>(m: &Model) -> C::G {
    let (nu, eu) = labels_used(m);
    let extra = |u: &BTreeSet<u32>| -> Vec<u32> {
        let mut v: Vec<u32> = u.iter().copied().collect();
        if C::LABELS > 0 {
            for _ in 0..draw(4) {
                let k = draw(C::LABELS.min(12) as u64) as u32;
                if !v.contains(&k) && v.len() < C::LABELS as usize {
                    v.push(k);
                }
            }
        }
        let mut r = crate::choice::Rng::new(draw(1 << 16));
        shuffle(&mut v, &mut r);
        v
    };
    let n: SetMap<C::NL> = extra(&nu).into_iter().map(C::NL::mk).collect();
    let e: SetMap<C::EL> = extra(&eu).into_iter().map(C::EL::mk).collect();
    build_into::<C>(m, C::with_label_map(n, e))
}

/// A graph that was something else on the way.
pub fn detour<C: Cfg>(m: &Model) -> C::G {
    let lim = C::MAXID.min(m.nodes.keys().next_back().copied().unwrap_or(0) + 20);
    let lab = |k: u64| if C::LABELS == 0 { None } else { Some((k % C::LABELS.min(9) as u64) as u32) };
    let mut w = m.clone();
    for _ in 0..1 + draw(6) {
        match draw(5) {
            0 => {
                w.add_node(draw(lim + 1), lab(draw(9)));
            }
            1 => {
                w.add_edge(draw(lim + 1), draw(lim + 1), lab(draw(9)));
            }
            2 => {
                if let Some((k, _)) = w.nodes.iter().nth(draw(w.nodes.len() as u64 + 1) as usize) {
                    let k = *k;
                    w.add_node(k, lab(draw(9)));
                }
            }
            3 => {
                if let Some((k, _)) = w.edges.iter().nth(draw(w.edges.len() as u64 + 1) as usize) {
                    let k = *k;
                    if chance(500) {
                        w.add_edge(k.0, k.1, lab(draw(9)));
                    } else {
                        w.remove_edge(k.0, k.1);
                    }
                }
            }
            _ => {
                if let Some((k, _)) = w.nodes.iter().nth(draw(w.nodes.len() as u64 + 1) as usize) {
                    let k = *k;
                    w.remove_node(k);
                }
            }
        }
    }
    let mut g = build::<C>(&w);
    // and back
    for n in w.nodes.keys() {
        if !m.nodes.contains_key(n) {
            g.remove_node(id::<C>(*n));
            for (a, b) in w.edges.keys() {
                if (a == n || b == n) && chance(100) {
                    g.remove_edge(id::<C>(*a), id::<C>(*b));
                }
            }
        }
    }
    for (a, b) in w.edges.keys() {
        if !m.edges.contains_key(&(*a, *b)) && m.nodes.contains_key(a) && m.nodes.contains_key(b) {
            let (x, y) = if !m.directed && chance(500) { (b, a) } else { (a, b) };
            g.remove_edge(id::<C>(*x), id::<C>(*y));
        }
    }
    for (n, l) in &m.nodes {
        if w.nodes.get(n) != Some(l) {
            if w.nodes.contains_key(n) && chance(500) {
                g.update_node_label(id::<C>(*n), nl::<C>(*l));
            } else {
                g.add_node(id::<C>(*n), nl::<C>(*l));
            }
        }
    }
    for ((a, b), l) in &m.edges {
        // (edges of a node that was removed on the way are gone too)
        if w.edges.get(&(*a, *b)) != Some(l) {
            let (x, y) = if !m.directed && chance(500) { (b, a) } else { (a, b) };
            if w.edges.contains_key(&(*a, *b)) && chance(500) {
                g.update_edge_label(id::<C>(*x), id::<C>(*y), el::<C>(*l));
            } else {
                g.add_edge(id::<C>(*x), id::<C>(*y), el::<C>(*l));
            }
        }
    }
    g
}

/// The graph of the model, made one way or another.
fn make<C: Cfg>(m: &Model) -> Res<(Any<C>, &'static str)> {
    let dense = m.dense();
    let q = |f: &dyn Fn() -> C::G| no_panic("building a graph", f);
    let g = match pick(&[3, 2, 4, 4, 2, 2, 2, 3, 2]) {
        0 => return Ok((Any::Map(q(&|| build::<C>(m))?), "built in some order")),
        1 => {
            let n = draw(40) as usize;
            return Ok((Any::Map(q(&|| build_into::<C>(m, C::with_capacity(n, n / 3, n / 4)))?), "built with a capacity"));
        }
        2 => q(&|| numbered::<C>(m))?,
        3 => q(&|| detour::<C>(m))?,
        4 => {
            let g = q(&|| numbered::<C>(m))?;
            clean("binary export", || g.export("q.bin").map_err(s))?;
            return Ok((Any::Map(clean("binary import", || C::G::import("q.bin").map_err(s))?), "saved and loaded"));
        }
        5 => {
            // exported and read back as csv
            let g = q(&|| numbered::<C>(m))?;
            let mut st = Style::gen();
            let mut back = q(&|| numbered::<C>(&Model::new(m.directed)))?;
            if chance(500) {
                put_csv::<C>(m, &st, "q.n", "q.e");
            } else {
                st.headers = true;
                clean("csv export", || csv_export::<C>(&g, "q.n", "q.e", st.sep))?;
            }
            clean("csv import", || import_csv::<C>(&mut back, &st, Some("q.n"), "q.e"))?;
            return Ok((Any::Map(back), "written and read as csv"));
        }
        6 => {
            let b: BoxG<C> = Box::new(q(&|| numbered::<C>(m))?);
            return Ok((Any::Boxed(no_panic("boxed clone", || b.clone())?), "clone of a boxed graph"));
        }
        7 => {
            let salt = draw(1 << 20);
            in_new_thread(salt, || no_panic("building a graph", || if chance(500) { numbered::<C>(m) } else { build::<C>(m) }))?
        }
        _ => {
            let g = q(&|| detour::<C>(m))?;
            let c = no_panic("clone", || g.clone())?;
            drop(g);
            c
        }
    };
    if dense && chance(450) {
        let st = no_panic("into_static", || C::into_static(g))?;
        return Ok(match pick(&[3, 1, 1, 1]) {
            0 => (Any::Static(st), "static"),
            1 => (Any::Static(no_panic("clone", || st.clone())?), "clone of a static graph"),
            2 => {
                clean("binary export", || st.export("q.bin").map_err(s))?;
                (Any::Static(clean("binary import", || C::S::import("q.bin").map_err(s))?), "static, saved and loaded")
            }
            _ => {
                let p = format!("q{}", draw(1000));
                clean("mmap dump", || C::dump(&st, &p))?;
                (Any::Mmap(clean("opening the mmap dump", || Ok(Mm::<C>::new(&p)))?), "memory-mapped")
            }
        });
    }
    Ok((Any::Map(g), "numbered, detoured or from another thread"))
}

/// A small change (possibly none in the end).
fn change<C: Cfg>(m: &Model) -> Model {
    let mut w = m.clone();
    let lim = C::MAXID.min(m.nodes.keys().next_back().copied().unwrap_or(0) + 2);
    let lab = || if C::LABELS == 0 || chance(300) { None } else { Some(draw(C::LABELS.min(9) as u64) as u32) };
    let ns: Vec<u64> = m.nodes.keys().copied().collect();
    let es: Vec<(u64, u64)> = m.edges.keys().copied().collect();
    let n = || ns[draw(ns.len() as u64) as usize];
    let e = || es[draw(es.len() as u64) as usize];
    let rename = |m: &Model, f: &dyn Fn(u64) -> u64| {
        let mut w = Model::new(m.directed);
        for (n, l) in &m.nodes {
            w.nodes.insert(f(*n), *l);
        }
        for ((a, b), l) in &m.edges {
            let k = w.key(f(*a), f(*b));
            w.edges.insert(k, *l);
        }
        w
    };
    match draw(14) {
        0 if !ns.is_empty() => {
            w.nodes.insert(n(), lab());
        }
        1 if !es.is_empty() => {
            w.edges.insert(e(), lab());
        }
        2 => {
            w.add_node(draw(lim + 1), lab());
        }
        3 if !ns.is_empty() => {
            w.remove_node(n());
        }
        4 if !ns.is_empty() => {
            w.add_edge(n(), n(), lab());
        }
        5 if !es.is_empty() => {
            let (a, b) = e();
            w.remove_edge(a, b);
        }
        6 if !es.is_empty() => {
            // move an edge
            let (a, b) = e();
            let l = m.label(a, b);
            w.remove_edge(a, b);
            w.add_edge(a, n(), l);
        }
        7 if !es.is_empty() => {
            let (a, b) = e();
            let l = m.label(a, b);
            w.remove_edge(a, b);
            w.add_edge(b, a, l);
        }
        8 if !ns.is_empty() => {
            // swap two node labels
            let (a, b) = (n(), n());
            let (x, y) = (m.nodes[&a], m.nodes[&b]);
            w.nodes.insert(a, y);
            w.nodes.insert(b, x);
        }
        9 if !es.is_empty() => {
            let (a, b) = (e(), e());
            let (x, y) = (m.edges[&a], m.edges[&b]);
            w.edges.insert(a, y);
            w.edges.insert(b, x);
        }
        10 if !ns.is_empty() => {
            // another id for a node
            let (a, b) = (n(), draw(lim + 1));
            return rename(m, &|x| if x == a { b } else if x == b { a } else { x });
        }
        11 if !ns.is_empty() => {
            // every edge reversed
            let mut w = Model::new(m.directed);
            w.nodes = m.nodes.clone();
            for ((a, b), l) in &m.edges {
                w.add_edge(*b, *a, *l);
            }
            return w;
        }
        12 if C::LABELS > 1 => {
            // labels renamed: the same ids in a suitable numbering
            let k = C::LABELS.min(9);
            let d = 1 + draw(k as u64 - 1) as u32;
            let f = |l: &mut Lab| {
                if let Some(x) = l {
                    if *x < k {
                        *x = (*x + d) % k
                    }
                }
            };
            if chance(500) {
                w.nodes.values_mut().for_each(f);
            } else {
                w.edges.values_mut().for_each(f);
            }
        }
        _ if C::LABELS > 0 && !ns.is_empty() => {
            // a label moves from one node or edge to another
            let l = lab();
            if !es.is_empty() && chance(500) {
                let (a, b) = (e(), e());
                w.edges.insert(a, None);
                w.edges.insert(b, l);
            } else {
                let (a, b) = (n(), n());
                w.nodes.insert(a, None);
                w.nodes.insert(b, l);
            }
        }
        _ => {
            w.add_node(draw(lim + 1), None);
        }
    }
    w
}

fn compare<C: Cfg>(a: &(Any<C>, &str), b: &(Any<C>, &str), want: bool, ma: &Model, mb: &Model) -> Res {
    let who = || {
        if ma == mb {
            format!("'{}' and '{}' of {}", a.1, b.1, ma.show())
        } else {
            format!("'{}' of {} and '{}' of {}", a.1, ma.show(), b.1, mb.show())
        }
    };
    let mut hashes: Option<(u64, u64)> = None;
    let got: Option<(bool, bool)> = match (&a.0, &b.0) {
        (Any::Map(x), Any::Map(y)) => {
            if want {
                hashes = Some((no_panic("hash", || h(x))?, no_panic("hash", || h(y))?));
            }
            shaky("==", || (x == y, y == x))?
        }
        (Any::Static(x), Any::Static(y)) => {
            if want {
                hashes = Some((no_panic("hash", || h(x))?, no_panic("hash", || h(y))?));
            }
            shaky("==", || (x == y, y == x))?
        }
        (Any::Boxed(x), Any::Boxed(y)) => {
            if want {
                hashes = Some((no_panic("hash", || h(x))?, no_panic("hash", || h(y))?));
            }
            shaky("==", || (x == y, y == x))?
        }
        _ => None,
    };
    if let Some((p, q)) = got {
        ensure!(p == q, "asymmetric", "{}: a == b is {}, b == a is {}", who(), p, q);
        ensure!(p == want, "eq", "{}: == is {}, the content is {}", who(), p, if want { "the same" } else { "different" });
    }
    if let Some((p, q)) = hashes {
        ensure!(p == q, "hash", "{}: equal, but the hashes are {:x} and {:x}", who(), p, q);
    }
    let (x, y) = (a.0.g(), b.0.g());
    if let Some((p, q)) = shaky("equal", || (equal::<C::Id, C::NL, C::EL, C::L, C::L>(x, y), equal::<C::Id, C::NL, C::EL, C::L, C::L>(y, x)))? {
        ensure!(p == q, "asymmetric", "{}: equal(a, b) is {}, equal(b, a) is {}", who(), p, q);
        ensure!(p == want, "equal", "{}: equal() is {}, the content is {}", who(), p, if want { "the same" } else { "different" });
    }
    sys::mark();
    Ok(())
}

fn h04c<C: Cfg>() -> Res {
    pick_style();
    sys::plan_faults(&[F::Panic], false, 700);
    let mut models: Vec<Model> = Vec::new();
    let mut graphs: Vec<(usize, (Any<C>, &'static str))> = Vec::new();
    let o = GenOpts {
        dense: chance(600),
        min_nodes: 0,
        max_nodes: if chance(300) { 3 } else { 10 },
        big: 2,
        ..Default::default()
    };
    if chance(150) {
        let x = dense_history::<C>()?;
        models.push(x.m.clone());
        graphs.push((0, (Any::Map(x.g), "result of a history")));
    } else {
        models.push(gen_model::<C>(o));
    }
    match pick(&[6, 2, 3]) {
        0 => models.push(change::<C>(&models[0])),
        1 => models.push(gen_model::<C>(o)),
        _ => {}
    }
    sys::note(|| models.iter().map(|m| m.show()).collect::<Vec<_>>().join(" / "));
    let k = models.len() + 1 + draw(3) as usize;
    for i in 0..k {
        let j = if i < models.len() { i } else { draw(models.len() as u64) as usize };
        let g = sys::span(|| make::<C>(&models[j]))?;
        sys::note(|| format!("graph {}: model {}, {}", graphs.len(), j, g.1));
        graphs.push((j, g));
    }
    let same = |a: usize, b: usize| text_snap::<C>(&models[a]) == text_snap::<C>(&models[b]);
    for i in 0..graphs.len() {
        for j in 0..=i {
            let (a, b) = (&graphs[i], &graphs[j]);
            compare::<C>(&a.1, &b.1, same(a.0, b.0), &models[a.0], &models[b.0])?;
        }
    }
    // the same across label id types
    if chance(400) {
        let j = draw(models.len() as u64) as usize;
        let flip = chance(300);
        let m = &models[j];
        let mut other: Box<dyn GeneralGraph<C::Id, C::NL, C::EL, usize>> = no_panic("new_general_graphmap", || {
            let mut g: Box<dyn GeneralGraph<C::Id, C::NL, C::EL, usize>> = new_general_graphmap(C::DIRECTED != flip);
            {
                let x = g.as_mut_graph().unwrap();
                for (n, l) in m.nodes.iter().rev() {
                    x.add_node(id::<C>(*n), nl::<C>(*l));
                }
                for ((a, b), l) in m.edges.iter().rev() {
                    x.add_edge(id::<C>(*a), id::<C>(*b), el::<C>(*l));
                }
            }
            g
        })?;
        if chance(300) {
            other = no_panic("boxed clone", || other.clone())?;
        }
        for (k, (g, what)) in &graphs {
            let want = !flip && same(*k, j);
            let (p, q) = no_panic("equal", || {
                (
                    equal::<C::Id, C::NL, C::EL, C::L, usize>(g.g(), &*other),
                    equal::<C::Id, C::NL, C::EL, usize, C::L>(&*other, g.g()),
                )
            })?;
            ensure!(
                p == want && q == want,
                "equal",
                "'{}' of {} and a {} graph with other label ids of {}: equal() is {} and {}, the content is {}",
                what,
                models[*k].show(),
                if flip { "differently directed" } else { "" },
                m.show(),
                p,
                q,
                if want { "the same" } else { "different" }
            );
        }
    }
    // the same as boxed graphs, whatever is in the box
    let boxed: Vec<(usize, (Any<C>, &'static str))> = graphs.into_iter().map(|(k, (g, w))| (k, (Any::Boxed(g.boxed()), w))).collect();
    for i in 0..boxed.len() {
        for j in 0..=i {
            let (a, b) = (&boxed[i], &boxed[j]);
            compare::<C>(&a.1, &b.1, same(a.0, b.0), &models[a.0], &models[b.0])?;
        }
    }
    // and after all that, content is what it was
    sys::heal();
    let (k, (g, w)) = &boxed[draw(boxed.len() as u64) as usize];
    check_graph(g.g(), &models[*k], Check { counts: false, ..ALL }, w)
}
