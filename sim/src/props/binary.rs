//! D02: a binary export that reports success is complete.
//! D06: a binary import is all or nothing.

use super::*;
use rust_graph::graph_impl::static_graph::{EdgeVec, EdgeVecTrait};
use rust_graph::io::serde::{Deserialize, Deserializer, Serialize, Serializer};
use rust_graph::map::{SetMap, VecMap};

pub const D02: Prop = Prop {
    id: "D02",
    run: d02,
    quick: 160_000,
    thorough: 1_500_000,
    rule: "A run exports one to five generated objects (GraphMap, StaticGraph, SetMap, VecMap, EdgeVec; several id and label types; sizes across the 8 KiB buffer) in binary form, usually to the same file, with storage faults armed; after every reported success, usually followed by a kill and restart, the file is imported and must give back an equal object.",
    real: "rust_graph Serializer, Deserializer, GraphMap, StaticGraph, EdgeVec, SetMap, VecMap; bincode, serde, indexmap and std::fs code above libc",
    assumes: &[],
};
pub const D06: Prop = Prop {
    id: "D06",
    run: d06,
    quick: 120_000,
    thorough: 1_500_000,
    rule: "A run saves generated objects in binary form over one another; each save is complete, interrupted by a kill or by a failing write, or torn afterwards; then the file is imported one to three times with read faults armed. An import must fail or give exactly one of the objects saved (the last one after a complete save); it may fail only if a fault fired or the file is incomplete.",
    real: "rust_graph Serializer, Deserializer, GraphMap, StaticGraph, EdgeVec, SetMap, VecMap; bincode, serde, indexmap and std::fs code above libc",
    assumes: &["a torn file is a strict prefix of what was written (no bit rot)"],
};

pub enum Obj<C: Cfg> {
    Map(C::G, Model),
    Static(C::S, Model),
    Set(SetMap<C::NL>),
    Vec(VecMap<C::EL>),
    Ev(EdgeVec<C::Id, C::L>),
}

pub fn s<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

pub fn gen_edge_vec<C: Cfg>() -> EdgeVec<C::Id, C::L> {
    let n = if chance(60) { 1300 + draw(3) } else { draw(8) };
    let labelled = chance(500);
    let mut r = crate::choice::Rng::new(draw(1 << 16));
    let mut off = vec![0usize];
    let mut edges: Vec<C::Id> = Vec::new();
    let mut labels: Vec<C::L> = Vec::new();
    let lim = n.min(C::MAXID + 1).min(256);
    for _ in 0..n.min(C::MAXID + 1) {
        let mut t = 0;
        while t < lim {
            t += r.below(4);
            if t >= lim || r.below(3) == 0 {
                break;
            }
            edges.push(id::<C>(t));
            labels.push(C::L::new(r.below(200) as usize));
            t += 1;
        }
        off.push(edges.len());
    }
    if labelled {
        EdgeVec::with_labels(off, edges, labels)
    } else {
        EdgeVec::new(off, edges)
    }
}

impl<C: Cfg> Obj<C> {
    /// Every now and then something of the same size and kind as before.
    pub fn gen_after(last: Option<&Obj<C>>, kind: usize) -> Obj<C> {
        let (how, by) = (draw(4) as usize, 1 + draw(5) as usize);
        match last {
            Some(o) if chance(200) => {
                sys::probe("an object of the same size as the one before");
                match o {
                    Obj::Map(_, m) => {
                        let m = m.alike(how, by);
                        Obj::Map(build::<C>(&m), m)
                    }
                    Obj::Static(_, m) => {
                        let m = m.alike(how, by);
                        Obj::Static(C::into_static(build::<C>(&m)), m)
                    }
                    Obj::Set(x) => Obj::Set(x.clone().items_vec().into_iter().rev().collect()),
                    Obj::Vec(x) => Obj::Vec(x.clone().items_vec().into_iter().rev().collect()),
                    Obj::Ev(x) => {
                        let mut v = x.get_labels().to_vec();
                        v.reverse();
                        let labels = if v.is_empty() { None } else { Some(v) };
                        Obj::Ev(EdgeVec::from_raw(x.get_offsets().to_vec(), x.get_edges().to_vec(), labels))
                    }
                }
            }
            _ => Obj::gen(kind),
        }
    }
    pub fn gen(kind: usize) -> Obj<C> {
        match kind {
            0 | 1 => {
                let m = gen_model::<C>(GenOpts {
                    min_nodes: 0,
                    dense: kind == 1 || chance(500),
                    huge: 4,
                    ..Default::default()
                });
                let g = build::<C>(&m);
                if kind == 1 {
                    Obj::Static(C::into_static(g), m)
                } else {
                    Obj::Map(g, m)
                }
            }
            2 => {
                let n = if chance(100) { 2000 } else { draw(9) }.min(C::LABELS as u64);
                let mut x = SetMap::new();
                for _ in 0..n.min(20) {
                    x.add_item(C::NL::mk(draw(12).min(C::LABELS as u64 - 1) as u32));
                }
                for i in 20..n {
                    x.add_item(C::NL::mk(i as u32));
                }
                Obj::Set(x)
            }
            3 => {
                let n = if chance(100) { 1500 } else { draw(9) }.min(C::LABELS as u64);
                Obj::Vec((0..n).map(|i| C::EL::mk(i as u32)).collect())
            }
            _ => Obj::Ev(gen_edge_vec::<C>()),
        }
    }
    pub fn kind(&self) -> usize {
        match self {
            Obj::Map(..) => 0,
            Obj::Static(..) => 1,
            Obj::Set(..) => 2,
            Obj::Vec(..) => 3,
            Obj::Ev(..) => 4,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Obj::Map(_, m) => format!("GraphMap {}", m.show()),
            Obj::Static(_, m) => format!("StaticGraph {}", m.show()),
            Obj::Set(x) => format!("SetMap of {}", x.len()),
            Obj::Vec(x) => format!("VecMap of {}", x.len()),
            Obj::Ev(x) => format!("EdgeVec {} offsets {} edges", x.get_offsets().len(), x.get_edges().len()),
        }
    }
    pub fn nontrivial(&self) -> bool {
        match self {
            Obj::Map(_, m) | Obj::Static(_, m) => !m.nodes.is_empty(),
            Obj::Set(x) => x.len() > 0,
            Obj::Vec(x) => x.len() > 0,
            Obj::Ev(x) => x.get_offsets().len() > 1,
        }
    }
    pub fn export(&self, p: &str) -> Result<(), String> {
        let direct = chance(300);
        match self {
            Obj::Map(x, _) if direct => Serializer::export(x, p),
            Obj::Map(x, _) => x.export(p),
            Obj::Static(x, _) if direct => Serializer::export(x, p),
            Obj::Static(x, _) => x.export(p),
            Obj::Set(x) => x.export(p),
            Obj::Vec(x) => x.export(p),
            Obj::Ev(x) => Serializer::export(x, p),
        }
        .map_err(s)
    }
    /// Import an object of this kind (the model is filled in by `same`).
    pub fn import(kind: usize, p: &str) -> Result<Obj<C>, String> {
        let m = || Model::new(C::DIRECTED);
        Ok(match kind {
            0 => Obj::Map(C::G::import(p).map_err(s)?, m()),
            1 => Obj::Static(Deserializer::import(p).map_err(s)?, m()),
            2 => Obj::Set(SetMap::import(p).map_err(s)?),
            3 => Obj::Vec(VecMap::import(p).map_err(s)?),
            _ => Obj::Ev(Deserializer::import(p).map_err(s)?),
        })
    }
    /// `self` was saved, `x` is what came back.
    pub fn same(&self, x: &Obj<C>) -> Res {
        match (self, x) {
            (Obj::Map(a, m), Obj::Map(b, _)) => {
                check_graph(b, m, ALL, "imported GraphMap")?;
                let eq = no_panic("comparing graphs", || a == b && b == a)?;
                ensure!(eq, "not-equal", "imported GraphMap != exported one ({})", m.show());
            }
            (Obj::Static(a, m), Obj::Static(b, _)) => {
                check_graph(b, m, ALL, "imported StaticGraph")?;
                let eq = no_panic("comparing graphs", || a == b && b == a)?;
                ensure!(eq, "not-equal", "imported StaticGraph != exported one ({})", m.show());
            }
            (Obj::Set(a), Obj::Set(b)) => {
                let (x, y): (Vec<_>, Vec<_>) = (a.items().collect(), b.items().collect());
                ensure!(x == y && a == b, "map-content", "imported SetMap has {} items, exported had {}: {:?} / {:?}", y.len(), x.len(), y.iter().take(20).collect::<Vec<_>>(), x.iter().take(20).collect::<Vec<_>>());
                for (i, l) in x.iter().enumerate() {
                    ensure!(b.find_index(l) == Some(i), "map-content", "imported SetMap: find_index({:?}) = {:?}, expected {}", l, b.find_index(l), i);
                }
            }
            (Obj::Vec(a), Obj::Vec(b)) => {
                let (x, y): (Vec<_>, Vec<_>) = (a.items().collect(), b.items().collect());
                ensure!(x == y && a == b, "map-content", "imported VecMap differs: {} items, exported had {}", y.len(), x.len());
            }
            (Obj::Ev(a), Obj::Ev(b)) => {
                ensure!(
                    a.get_offsets() == b.get_offsets() && a.get_edges() == b.get_edges() && a.get_labels() == b.get_labels() && a == b,
                    "edgevec-content",
                    "imported EdgeVec differs from the exported one"
                );
            }
            _ => return viol("kind", "an object of another kind came back"),
        }
        Ok(())
    }
}

fn d02() -> Res {
    dispatch!(d02c)
}
fn d02c<C: Cfg>() -> Res {
    pick_style();
    sys::plan_faults(ALL_FAULTS, true, 120);
    if chance(150) {
        sys::set_cap(Some(draw(3000)));
    }
    let n = 1 + draw(5);
    let mut last: Option<Obj<C>> = None;
    for k in 0..n {
        sys::span(|| -> Res {
            let kind = pick(&[5, 4, 2, 2, 2]);
            let o = Obj::<C>::gen_after(last.as_ref(), kind);
            let p = if chance(200) { "/data/b.bin" } else { "a.bin" };
            sys::note(|| format!("export {} to {}", o.show(), p));
            if k + 1 == n && chance(300) {
                sys::heal();
                sys::plan_none();
            }
            sys::replan_at(8);
            match faulty("binary export", WRITER, || o.export(p))? {
                Out::Done(()) => {
                    if chance(700) {
                        sys::kill_now();
                        sys::restart();
                    }
                    if o.nontrivial() {
                        sys::mark();
                    }
                    if sys::fired_total() > 0 {
                        sys::probe("export succeeded in a run with faults");
                    }
                    if sys::vfs_get(p).map(|d| d.len() > 8192).unwrap_or(false) {
                        sys::probe("file larger than the write buffer");
                    }
                    let back = clean("binary import", || Obj::<C>::import(o.kind(), p))?;
                    o.same(&back)?;
                    // a load with failures below it gives the object or an error
                    if chance(300) {
                        sys::replan_at(6);
                        match faulty("binary import", WRITER, || Obj::<C>::import(o.kind(), p))? {
                            Out::Done(x) => o.same(&x)?,
                            Out::Failed(_) => sys::probe("import reported failure"),
                            Out::Crashed => sys::restart(),
                        }
                    }
                    // the copy that came back is as good as the original
                    if chance(150) {
                        clean("binary export of the copy", || back.export("copy.bin"))?;
                        let again = clean("binary import of the copy", || Obj::<C>::import(o.kind(), "copy.bin"))?;
                        o.same(&again)?;
                    }
                }
                Out::Failed(_) => sys::probe("export reported failure"),
                Out::Crashed => {
                    sys::probe("process killed during export");
                    sys::restart();
                }
            }
            last = Some(o);
            Ok(())
        })?;
        if chance(500) {
            sys::heal();
        }
    }
    Ok(())
}

fn d06() -> Res {
    dispatch!(d06c)
}
fn d06c<C: Cfg>() -> Res {
    pick_style();
    sys::plan_faults(ALL_FAULTS, true, 150);
    let kind = pick(&[5, 4, 2, 2, 2]);
    let p = "a.bin";
    // objects whose bytes may be (partly) in the file, the newest last
    let mut saved: Vec<Obj<C>> = Vec::new();
    let mut complete = false;
    let n = 1 + draw(4);
    for _ in 0..n {
        sys::span(|| -> Res {
            let o = Obj::<C>::gen_after(saved.last(), kind);
            sys::note(|| format!("export {}", o.show()));
            if chance(600) {
                clean("binary export", || o.export(p))?;
                complete = true;
                saved.clear();
                saved.push(o);
            } else {
                sys::replan_at(8);
                match faulty("binary export", WRITER, || o.export(p))? {
                    Out::Done(()) => {
                        complete = true;
                        saved.clear();
                        saved.push(o);
                    }
                    Out::Failed(_) => {
                        sys::probe("file left by a failed export");
                        complete = false;
                        saved.push(o);
                    }
                    Out::Crashed => {
                        sys::probe("file left by a killed process");
                        sys::restart();
                        complete = false;
                        saved.push(o);
                    }
                }
            }
            let mut torn = false;
            if chance(250) {
                if let Some(d) = sys::vfs_get(p) {
                    if !d.is_empty() {
                        let keep = match draw(4) {
                            0 => d.len() - 1,
                            1 => d.len() - 1 - draw(d.len() as u64 - 1) as usize / 3,
                            _ => draw(d.len() as u64) as usize,
                        };
                        sys::vfs_put(p, &d[..keep.min(d.len() - 1)]);
                        torn = complete;
                        complete = false;
                        sys::probe("torn file");
                        sys::note(|| format!("{} torn to {} of {} bytes", p, keep, d.len()));
                    }
                }
            }
            for _ in 0..1 + draw(3) {
                sys::replan_at(6);
                let file_ok = complete;
                let r = {
                    let (h0, e0) = sys::hard();
                    sys::arm(true);
                    let r = attempt(|| Obj::<C>::import(kind, p));
                    sys::arm(false);
                    let (h1, e1) = sys::hard();
                    let _ = e0 == e1;
                    if sys::crashed() {
                        sys::restart();
                        continue;
                    }
                    match r {
                        Err(e) => return viol("panic:binary import", format!("binary import panicked: {}", e)),
                        Ok(Err(e)) => {
                            ensure!(
                                h1 > h0 || !file_ok,
                                "spurious-error:binary import",
                                "binary import of a complete file failed although nothing below it failed: {}",
                                e
                            );
                            sys::note(|| format!("import: error {}", e));
                            None
                        }
                        Ok(Ok(x)) => Some(x),
                    }
                };
                let x = match r {
                    None => {
                        sys::probe("import reported failure");
                        continue;
                    }
                    Some(x) => x,
                };
                sys::note(|| format!("import: {}", x.show()));
                if file_ok {
                    let o = saved.last().unwrap();
                    if o.nontrivial() {
                        sys::mark();
                    }
                    o.same(&x)?;
                } else {
                    ensure!(!torn, "torn-accepted", "import of a torn file succeeded: {}", x.show());
                    let hit = saved.iter().any(|o| o.same(&x).is_ok());
                    ensure!(hit, "fabricated", "import after an interrupted export gives an object that was never saved: {}", x.show());
                    sys::mark();
                }
            }
            Ok(())
        })?;
        if chance(600) {
            sys::heal();
        }
    }
    Ok(())
}
