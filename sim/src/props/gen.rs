//! R01: random graph generators.  R02: reordering ids.

use super::hist::{shaky, Mach, Uni};
use super::trav::worn_graph;
use super::*;
use crate::cfg::*;
use rust_graph::graph_gen::*;
use rust_graph::graph_impl::TypedGraphMap;
use rust_graph::map::SetMap;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::Hash;

pub const R01: Prop = Prop {
    id: "R01",
    run: r01,
    quick: 120_000,
    thorough: 8_000_000,
    rule: "A run calls one to four generators (any kind, size, probability or edge number, label sets with repetitions) on one or several threads, each with an entropy stream of its own: random, constant, chosen so that the random numbers are extreme, or interrupted, short and temporarily unavailable requests. Every graph is compared with what was asked for (nodes, number and kind of edges, labels from the sets, every query consistent); some runs make hundreds of graphs and compare frequencies of pairs, edge numbers and labels with the promised distribution, tolerance eight standard deviations.",
    real: "graph_gen, GraphMap, rand 0.5 (thread_rng, ReseedingRng, EntropyRng, OsRng and its fallback JitterRng on the simulated clock), itertools; getrandom and clock_gettime are simulated",
    assumes: &["label sets fit the label id type, ids fit the id type"],
};
pub const R02: Prop = Prop {
    id: "R02",
    run: r02,
    quick: 500_000,
    thorough: 6_000_000,
    rule: "A run makes a graph (generated, or by a mutation history with gaps and unused labels), reorders any subset of node ids, node labels and edge labels, by the library's own ranking or by drawn permutations, on threads with different hash seeds, sometimes with label code panicking at a drawn call, and compares the result with the renamed model (all queries, counts, label maps, mapping in both directions, degree and frequency order); reordered graphs go on through further mutations and reorderings.",
    real: "TypedGraphMap::reorder_id, reorder_id_with, ReorderResult, counter, std HashMap with hash seeds from the simulated entropy source",
    assumes: &["a custom map covers every id or label in use"],
};

/// What the generators take besides the label sets.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Empty,
    Complete,
    Gnp(f32),
    Gnm(usize),
}

trait Gen: Cfg {
    fn make(k: Kind, n: usize, nl: Option<(Vec<Self::NL>, Vec<Self::EL>)>) -> Self::G;
    fn pairs(n: usize) -> Vec<(usize, usize)>;
}
fn make<Id, NL, EL, Ty>(k: Kind, n: usize, l: Option<(Vec<NL>, Vec<EL>)>) -> TypedGraphMap<Id, NL, EL, Ty>
where
    Id: IdType,
    NL: Hash + Eq + Clone,
    EL: Hash + Eq + Clone,
    Ty: GraphType,
{
    match (k, l) {
        (Kind::Empty, Some((a, b))) => empty_graph(n, a, b),
        (Kind::Complete, Some((a, b))) => complete_graph(n, a, b),
        (Kind::Gnp(p), Some((a, b))) => random_gnp_graph(n, p, a, b),
        (Kind::Gnm(m), Some((a, b))) => random_gnm_graph(n, m, a, b),
        (Kind::Empty, None) => empty_graph_unlabeled(n),
        (Kind::Complete, None) => complete_graph_unlabeled(n),
        (Kind::Gnp(p), None) => random_gnp_graph_unlabeled(n, p),
        (Kind::Gnm(m), None) => random_gnm_graph_unlabeled(n, m),
    }
}
macro_rules! gens {
    ($($c:ident $t:ty;)*) => {$(
        impl Gen for $c {
            fn make(k: Kind, n: usize, l: Option<(Vec<Self::NL>, Vec<Self::EL>)>) -> Self::G {
                make(k, n, l)
            }
            fn pairs(n: usize) -> Vec<(usize, usize)> {
                helper::complete_edge_pairs::<$t>(n).collect()
            }
        }
    )*};
}
gens! { C0D Directed; C0U Undirected; C1D Directed; C1U Undirected; C5D Directed; C5U Undirected; C6D Directed; C6U Undirected; }

fn r01() -> Res {
    match pick(&[4, 4, 2, 2, 3, 3, 1, 1]) {
        0 => r01c::<C0U>(),
        1 => r01c::<C0D>(),
        2 => r01c::<C1U>(),
        3 => r01c::<C1D>(),
        4 => r01c::<C5U>(),
        5 => r01c::<C5D>(),
        6 => r01c::<C6U>(),
        _ => r01c::<C6D>(),
    }
}

/// A label set as the caller passes it: repetitions allowed.
fn label_list<C: Cfg>() -> Vec<u32> {
    if C::LABELS == 0 || chance(150) {
        return Vec::new();
    }
    let k = 1 + draw(if chance(100) { 30 } else { 5 });
    (0..k).map(|_| draw(C::LABELS.min(40) as u64) as u32).collect()
}

fn all_pairs(n: u64, directed: bool) -> u64 {
    let p = n * n.saturating_sub(1);
    if directed {
        p
    } else {
        p / 2
    }
}

fn r01c<C: Gen>() -> Res {
    pick_style();
    if chance(20) {
        return stats::<C>();
    }
    let faults = chance(400);
    if faults {
        sys::entropy_faults(true);
        let bits: &[F] = match draw(3) {
            0 => &[F::Eintr, F::Short],
            1 => &[F::Eagain],
            _ => &[F::Eintr, F::Eagain, F::Short],
        };
        sys::plan_faults(bits, false, [100, 500, 800][draw(3) as usize]);
    } else {
        sys::plan_none();
    }
    let one = || -> Res<Model> {
        let n = match pick(&[10, 3, 1]) {
            0 => draw(9),
            1 => draw(30),
            _ => draw(90),
        }
        .min(C::MAXID + 1);
        // all ids there are, or nearly
        let full = C::MAXID == 255 && chance(60);
        let n = if full { 252 + draw(5) } else { n };
        let all = all_pairs(n, C::DIRECTED);
        let rare = sys::get_entropy_mode() == 4;
        let kind = match pick(if full { &[2, 0, 0, 3] } else if rare { &[1, 1, 20, 4] } else { &[2, 2, 5, 5] }) {
            0 => Kind::Empty,
            1 => Kind::Complete,
            2 => Kind::Gnp(match draw(if rare { 5 } else { 9 }) {
                0 => 0.0,
                1 => 1.0,
                2 => [-0.1, 1.0001, 2.0, -1e-9, f32::INFINITY][draw(5) as usize],
                3 => 1e-9,
                _ => (1 + draw(999)) as f32 / 1000.0,
            }),
            _ => Kind::Gnm(match draw(8) {
                0 => 0,
                _ if full => draw(60),
                1 => all,
                2 => all + 1 + draw(3),
                3 => all.saturating_sub(1),
                _ => draw(all + 1),
            } as usize),
        };
        let lists = (label_list::<C>(), label_list::<C>());
        let plain = chance(150);
        let l = if plain {
            None
        } else {
            Some((
                lists.0.iter().map(|k| C::NL::mk(*k)).collect::<Vec<_>>(),
                lists.1.iter().map(|k| C::EL::mk(*k)).collect::<Vec<_>>(),
            ))
        };
        let what = format!(
            "{:?} with {} nodes, {}, labels {}",
            kind,
            n,
            if C::DIRECTED { "directed" } else { "undirected" },
            if plain { "none".into() } else { format!("{:?}", lists) }
        );
        sys::note(|| what.clone());
        let bad = match kind {
            Kind::Gnp(p) => p < 0.0 || p > 1.0,
            Kind::Gnm(m) => m as u64 > all,
            _ => false,
        };
        sys::arm(faults);
        let r = attempt(|| C::make(kind, n as usize, l));
        sys::arm(false);
        let g = match r {
            Ok(g) => {
                ensure!(!bad, "impossible", "{} cannot be made, but a graph is returned", what);
                g
            }
            Err(e) => {
                ensure!(bad, "panic", "{} panicked: {}", what, e);
                sys::mark();
                return Ok(Model::new(C::DIRECTED));
            }
        };
        let m = match no_panic("querying the generated graph", || model_of::<C>(&g))? {
            Ok(m) => m,
            Err(e) => return viol("labels", format!("{}: {}", what, e)),
        };
        check_graph(&g, &m, ALL, &what)?;
        let ns: Vec<u64> = m.nodes.keys().copied().collect();
        ensure!(ns == (0..n).collect::<Vec<_>>(), "nodes", "{}: the nodes are {:?}", what, ns);
        ensure!(m.edges.keys().all(|(a, b)| a != b), "loop", "{}: self loop in {}", what, m.show());
        let e = m.edges.len() as u64;
        match kind {
            Kind::Empty => ensure!(e == 0, "edges", "{}: {} edges", what, e),
            Kind::Complete => ensure!(e == all, "edges", "{}: {} edges instead of {}", what, e, all),
            Kind::Gnp(p) => {
                ensure!(p > 0.0 || e == 0, "edges", "{}: {} edges", what, e);
                ensure!(p < 1.0 || e == all, "edges", "{}: {} edges instead of {}", what, e, all);
            }
            Kind::Gnm(k) => ensure!(e == k as u64, "edges", "{}: {} edges", what, e),
        }
        let (nset, eset): (BTreeSet<u32>, BTreeSet<u32>) = if plain {
            Default::default()
        } else {
            (lists.0.iter().copied().collect(), lists.1.iter().copied().collect())
        };
        for (x, l) in &m.nodes {
            let ok = match l {
                Some(l) => nset.contains(l),
                None => nset.is_empty(),
            };
            ensure!(ok, "labels", "{}: node {} has label {:?}", what, x, l);
        }
        for (x, l) in &m.edges {
            let ok = match l {
                Some(l) => eset.contains(l),
                None => eset.is_empty(),
            };
            ensure!(ok, "labels", "{}: edge {:?} has label {:?}", what, x, l);
        }
        let have: BTreeSet<String> = g.get_node_label_map().items().map(|x| x.text()).collect();
        let want: BTreeSet<String> = nset.iter().map(|k| C::NL::mk(*k).text()).collect();
        ensure!(have == want, "label-map", "{}: the graph's node labels are {:?}", what, have);
        let have: BTreeSet<String> = g.get_edge_label_map().items().map(|x| x.text()).collect();
        let want: BTreeSet<String> = eset.iter().map(|k| C::EL::mk(*k).text()).collect();
        ensure!(have == want, "label-map", "{}: the graph's edge labels are {:?}", what, have);
        // the list of candidate edges itself
        if chance(100) {
            let ps = no_panic("complete_edge_pairs", || C::pairs(n as usize))?;
            let set: BTreeSet<(u64, u64)> = ps.iter().map(|(a, b)| m.key(*a as u64, *b as u64)).collect();
            ensure!(
                set.len() == ps.len() && ps.len() as u64 == all && set.iter().all(|(a, b)| a != b && *a < n && *b < n),
                "pairs",
                "complete_edge_pairs({}) gives {:?}",
                n,
                ps
            );
        }
        // the graph is an ordinary graph: it can be changed
        if chance(200) {
            let max = m.nodes.keys().next_back().copied();
            let mut x: Mach<C> = Mach::of(g, m.clone());
            x.max = (max, max);
            x.nl.1 = nset;
            x.el.1 = eset;
            let u = Uni::gen::<C>(true);
            for _ in 0..1 + draw(5) {
                sys::span(|| x.step(&u))?;
            }
            check_graph(&x.g, &x.m, ALL, "the changed graph")?;
            x.check_counts("the changed graph")?;
        }
        sys::mark();
        Ok(m)
    };
    for _ in 0..1 + draw(3) {
        let salt = draw(1 << 16);
        let mode = if chance(200) { 1 + draw(4) as u8 } else { 0 };
        sys::entropy_mode(mode);
        sys::span(|| if mode == 4 || chance(600) { in_new_thread(salt, &one) } else { one() })?;
    }
    Ok(())
}

/// Whether `got` of `n` independent events of probability `p` is likelier than
/// one in 10^13 (Chernoff's bound, exact in the exponent on both tails).
fn plausible(got: u64, n: u64, p: f64) -> bool {
    if n == 0 || p <= 0.0 || p >= 1.0 {
        return got == if p >= 1.0 { n } else { 0 };
    }
    let x = got as f64 / n as f64;
    let part = |x: f64, p: f64| if x <= 0.0 { 0.0 } else { x * (x / p).ln() };
    got <= n && n as f64 * (part(x, p) + part(1.0 - x, 1.0 - p)) <= 32.0
}

fn stats<C: Gen>() -> Res {
    sys::plan_none();
    sys::entropy_mode(0);
    let labels: Vec<u32> = if C::LABELS == 0 { vec![] } else { (0..1 + if chance(150) { draw(40.min(C::LABELS as u64)) } else { draw(4.min(C::LABELS as u64)) } as u32).collect() };
    let lists = || Some((labels.iter().map(|k| C::NL::mk(*k)).collect::<Vec<_>>(), labels.iter().map(|k| C::EL::mk(*k)).collect::<Vec<_>>()));
    let kind = draw(3);
    // many graphs with few edges among many
    let wide = kind == 2 && chance(60);
    let n = if kind == 0 {
        30 + draw(30)
    } else if wide {
        36 + draw(20)
    } else {
        3 + draw(4)
    };
    let all = all_pairs(n, C::DIRECTED);
    let edge = kind == 0 && chance(300);
    let p = match draw(2) {
        0 if edge => [0.002, 0.005, 0.01, 0.02, 0.05][draw(5) as usize],
        _ if edge => [0.95, 0.98, 0.99, 0.998][draw(4) as usize],
        _ => (100 + draw(801)) as f32 / 1000.0,
    };
    let k = if wide { n - 4 + draw(n) } else { 1 + draw(all - 1) };
    let rounds = if wide {
        // an edge that is never chosen is far less likely than the tolerance
        45 * all / k
    } else if kind > 0 {
        400
    } else if edge || labels.len() > 4 || chance(150) {
        40
    } else {
        2
    };
    let per_thread = chance(300);
    let mut nodes: BTreeMap<Lab, u64> = BTreeMap::new();
    let mut elabs: BTreeMap<Lab, u64> = BTreeMap::new();
    let mut pairs: BTreeMap<(u64, u64), u64> = BTreeMap::new();
    let mut edges = 0;
    let mut first: Option<Model> = None;
    let what = format!(
        "{} graphs {} with {} nodes, {}",
        rounds,
        if kind < 2 { format!("G(n, p = {})", p) } else { format!("G(n, m = {})", k) },
        n,
        if C::DIRECTED { "directed" } else { "undirected" }
    );
    sys::note(|| what.clone());
    for r in 0..rounds {
        let f = || -> Res<Model> {
            let g = no_panic("generating", || C::make(if kind < 2 { Kind::Gnp(p) } else { Kind::Gnm(k as usize) }, n as usize, lists()))?;
            match no_panic("querying", || model_of::<C>(&g))? {
                Ok(m) => Ok(m),
                Err(e) => viol("labels", e),
            }
        };
        let m = if per_thread && kind == 0 { in_new_thread(r + 77, f)? } else { f()? };
        for l in m.nodes.values() {
            *nodes.entry(*l).or_insert(0) += 1;
        }
        for (e, l) in &m.edges {
            *elabs.entry(*l).or_insert(0) += 1;
            *pairs.entry(*e).or_insert(0) += 1;
            edges += 1;
        }
        if kind == 0 {
            let e = m.edges.len() as u64;
            ensure!(plausible(e, all, p as f64), "density", "{}: {} of {} edges in one graph", what, e, all);
            if let Some(f) = first.as_ref().filter(|f| !edge && f.edges.len() > 20) {
                ensure!(*f != m, "same", "{}: two graphs are the same: {}", what, m.show());
            }
            first = Some(m);
        }
    }
    if kind < 2 {
        ensure!(plausible(edges, all * rounds, p as f64), "density", "{}: {} of {} edges in all", what, edges, all * rounds);
    }
    let q = if kind < 2 { p as f64 } else { k as f64 / all as f64 };
    if kind > 0 {
        for a in 0..n {
            for b in 0..n {
                if a == b || !C::DIRECTED && a > b {
                    continue;
                }
                let c = pairs.get(&(a, b)).copied().unwrap_or(0);
                ensure!(plausible(c, rounds, q), "pairs", "{}: edge {}-{} is in {} of them", what, a, b, c);
            }
        }
    }
    if !labels.is_empty() {
        let k = labels.len() as f64;
        for l in &labels {
            let c = nodes.get(&Some(*l)).copied().unwrap_or(0);
            ensure!(plausible(c, rounds * n, 1.0 / k), "label-share", "{}: {} of {} nodes have label {} of {}", what, c, rounds * n, l, k);
            let c = elabs.get(&Some(*l)).copied().unwrap_or(0);
            ensure!(plausible(c, edges, 1.0 / k), "label-share", "{}: {} of {} edges have label {} of {}", what, c, edges, l, k);
        }
    }
    sys::probe("distribution of generated graphs compared");
    sys::mark();
    Ok(())
}

// --------------------------------------------------------------------- R02 --

fn r02() -> Res {
    dispatch_p!(r02c)
}

/// ids of the label map by label number of the palette
fn label_ids<T: LabT>(m: &SetMap<T>) -> Vec<String> {
    m.items().map(|x| x.text()).collect()
}

struct Before {
    m: Model,
    nl: Vec<String>,
    el: Vec<String>,
}

/// The reordered graph `g` against the original, renamed by `to`.
fn check_renamed<C: Cfg>(
    b: &Before,
    g: &C::G,
    to: &BTreeMap<u64, u64>,
    want_nl: Option<&Vec<String>>,
    want_el: Option<&Vec<String>>,
    who: &str,
) -> Res<Model> {
    let mut w = Model::new(b.m.directed);
    for (n, l) in &b.m.nodes {
        w.nodes.insert(to[n], *l);
    }
    for ((s, t), l) in &b.m.edges {
        let k = w.key(to[s], to[t]);
        w.edges.insert(k, *l);
    }
    check_graph(g, &w, ALL, who)?;
    super::hist::check_self_counts::<C>(g, who)?;
    for (what, got, want, m) in [
        ("node", label_ids(g.get_node_label_map()), want_nl, &b.nl),
        ("edge", label_ids(g.get_edge_label_map()), want_el, &b.el),
    ] {
        let want = want.unwrap_or(m);
        ensure!(&got == want, "label-ids", "{}: {} labels by id are {:?}, expected {:?}", who, what, got, want);
    }
    Ok(w)
}

fn r02c<C: Cfg>() -> Res {
    pick_style();
    sys::plan_faults(&[F::Panic], false, 400);
    let (mut g, mut m) = match pick(&[3, 4]) {
        0 => {
            let m = gen_model::<C>(GenOpts {
                dense: chance(300),
                min_nodes: 0,
                max_nodes: if chance(200) { 40 } else { 10 },
                max_id: if chance(500) { 30 } else { C::MAXID },
                ..Default::default()
            });
            (build::<C>(&m), m)
        }
        _ => worn_graph::<C>()?,
    };
    let rounds = 1 + draw(3);
    for _ in 0..rounds {
        let r = sys::span(|| {
            let other = chance(400);
            let salt = draw(1 << 16);
            if other {
                in_new_thread(salt, || round::<C>(&g, &m))
            } else {
                round::<C>(&g, &m)
            }
        })?;
        if let Some((g2, m2)) = r {
            g = g2;
            m = m2;
        }
        if chance(300) {
            let max = m.nodes.keys().next_back().copied();
            let mut x: Mach<C> = Mach::of(g, m);
            x.max = (max, None);
            let u = Uni::gen::<C>(true);
            sys::plan_none();
            for _ in 0..1 + draw(8) {
                sys::span(|| x.step(&u))?;
            }
            check_graph(&x.g, &x.m, ALL, "the graph changed after reordering")?;
            super::hist::check_self_counts::<C>(&x.g, "the graph changed after reordering")?;
            g = x.g;
            m = x.m;
        }
    }
    Ok(())
}

fn round<C: Cfg>(g: &C::G, m: &Model) -> Res<Option<(C::G, Model)>> {
    sys::note(|| m.show());
    let b = Before {
        m: m.clone(),
        nl: label_ids(g.get_node_label_map()),
        el: label_ids(g.get_edge_label_map()),
    };
    let copy = no_panic("clone", || g.clone())?;
    if chance(400) {
        return custom::<C>(copy, &b);
    }
    let (n, nl, el) = (chance(600), chance(500), chance(500));
    let who = format!("reorder_id({}, {}, {})", n, nl, el);
    sys::note(|| who.clone());
    let (map, g2, look) = match shaky(&who, move || C::reorder(copy, n, nl, el))? {
        Some(r) => r,
        None => return Ok(None),
    };
    ensure!(map.is_some() == n, "map", "{}: get_node_id_map() is {}", who, if n { "None" } else { "Some" });
    let mut to: BTreeMap<u64, u64> = BTreeMap::new();
    match &map {
        None => {
            for x in m.nodes.keys() {
                to.insert(*x, *x);
            }
        }
        Some(map) => {
            for (i, x) in map.items().enumerate() {
                to.insert(x.id() as u64, i as u64);
                ensure!(map.find_index(x) == Some(i), "map", "{}: {:?} is at {} but found at {:?}", who, x, i, map.find_index(x));
            }
            ensure!(
                to.len() == map.len() && to.keys().eq(m.nodes.keys()),
                "map",
                "{}: the node id map holds {:?}, the nodes are {:?}",
                who,
                map.items().collect::<Vec<_>>(),
                m.nodes.keys().collect::<Vec<_>>()
            );
        }
    }
    no_panic("looking up ids", || -> Res {
        for (old, new) in &to {
            let (o, w) = (look(true, id::<C>(*new)).id() as u64, look(false, id::<C>(*old)).id() as u64);
            ensure!(o == *old, "map", "{}: get_original_node_id({}) = {}, the map says {}", who, new, o, old);
            ensure!(w == *new, "map", "{}: find_new_node_id({}) = {}, the map says {}", who, old, w, new);
        }
        Ok(())
    })??;
    // labels: ascending frequency, everything in use kept
    let freq = |vals: Vec<String>| {
        let mut f: BTreeMap<String, u64> = BTreeMap::new();
        for v in vals {
            *f.entry(v).or_insert(0) += 1;
        }
        f
    };
    let nf = freq(m.nodes.values().flatten().map(|k| C::NL::mk(*k).text()).collect());
    let ef = freq(m.edges.values().flatten().map(|k| C::EL::mk(*k).text()).collect());
    let got_nl = label_ids(g2.get_node_label_map());
    let got_el = label_ids(g2.get_edge_label_map());
    for (on, what, got, f, old) in [(nl, "node", &got_nl, &nf, &b.nl), (el, "edge", &got_el, &ef, &b.el)] {
        if !on {
            continue;
        }
        let set: BTreeSet<&String> = got.iter().collect();
        ensure!(set.len() == got.len(), "label-ids", "{}: a {} label has two ids: {:?}", who, what, got);
        ensure!(got.iter().all(|l| old.contains(l)), "label-ids", "{}: {} labels {:?} were {:?}", who, what, got, old);
        ensure!(f.keys().all(|l| set.contains(l)), "label-ids", "{}: {} labels {:?} lack some in use {:?}", who, what, got, f);
        let c: Vec<u64> = got.iter().map(|l| f.get(l).copied().unwrap_or(0)).collect();
        ensure!(c.windows(2).all(|w| w[0] <= w[1]), "label-order", "{}: frequencies of {} labels by id are {:?}", who, what, c);
    }
    let w = check_renamed::<C>(&b, &g2, &to, nl.then_some(&got_nl), el.then_some(&got_el), &who)?;
    if n {
        let (out, inn) = (w.adjacency(), w.in_adjacency());
        let d: Vec<u64> = w
            .nodes
            .keys()
            .map(|x| out[x].len() as u64 + if w.directed { inn[x].len() as u64 } else { 0 })
            .collect();
        ensure!(d.windows(2).all(|w| w[0] <= w[1]), "degree-order", "{}: degrees by new id are {:?}", who, d);
    }
    sys::mark();
    Ok(Some((g2, w)))
}

/// The caller's own maps.
fn custom<C: Cfg>(g: C::G, b: &Before) -> Res<Option<(C::G, Model)>> {
    let m = &b.m;
    let mut r = crate::choice::Rng::new(draw(1 << 16));
    let (n, nl, el) = (chance(600), chance(500), chance(500));
    let mut to: BTreeMap<u64, u64> = m.nodes.keys().map(|x| (*x, *x)).collect();
    let nmap = if n {
        let mut v: Vec<u64> = m.nodes.keys().copied().collect();
        if chance(300) {
            // ids nobody uses leave gaps
            for _ in 0..1 + draw(4) {
                let x = draw(C::MAXID.min(200) + 1);
                if !v.contains(&x) && (v.len() as u64) < C::MAXID {
                    v.push(x);
                }
            }
        }
        shuffle(&mut v, &mut r);
        for (i, x) in v.iter().enumerate() {
            if let Some(t) = to.get_mut(x) {
                *t = i as u64;
            }
        }
        Some(v.into_iter().map(id::<C>).collect::<SetMap<C::Id>>())
    } else {
        None
    };
    let mut perm = |on: bool, names: &Vec<String>, used: BTreeSet<String>| -> (Option<SetMap<C::L>>, Vec<String>) {
        if !on {
            return (None, names.clone());
        }
        let all = chance(600);
        let mut v: Vec<usize> = (0..names.len()).filter(|i| all || used.contains(&names[*i])).collect();
        shuffle(&mut v, &mut r);
        let order = v.iter().map(|i| names[*i].clone()).collect();
        (Some(v.into_iter().map(C::L::new).collect()), order)
    };
    let (nlm, nlo) = perm(nl, &b.nl, m.nodes.values().flatten().map(|k| C::NL::mk(*k).text()).collect());
    let (elm, elo) = perm(el, &b.el, m.edges.values().flatten().map(|k| C::EL::mk(*k).text()).collect());
    let who = format!("reorder_id_with({:?}, {:?}, {:?})", nmap, nlm, elm);
    sys::note(|| who.clone());
    let g2 = match shaky("reorder_id_with", move || C::reorder_with(g, nmap, nlm, elm))? {
        Some(g) => g,
        None => return Ok(None),
    };
    let w = check_renamed::<C>(b, &g2, &to, Some(&nlo), Some(&elo), &who)?;
    sys::mark();
    Ok(Some((g2, w)))
}
