//! A01: union and difference of graphs.

use super::hist::{shaky, text_snap, Mach, Uni};
use super::trav::{some_rep, Rep};
use super::*;
use rust_graph::algorithm::{graph_minus, graph_union};

pub const A01: Prop = Prop {
    id: "A01",
    run: a01,
    quick: 700_000,
    thorough: 6_000_000,
    rule: "A run makes two graphs of one directedness (generated, worn by a mutation history, or one a changed copy of the other; mutable, static or memory-mapped), and takes unions and differences through every entry point, on threads with different hash seeds, with label code that panics at a drawn call (the operation is then repeated); every query of the result is compared with the model, the operands must not change, and results are operands of further operations and mutations.",
    real: "graph_union, graph_minus, the + and - operators, GraphMap, StaticGraph, StaticGraphMmap; hash seeds from the simulated entropy source",
    assumes: &["both graphs have the same directedness"],
};

fn a01() -> Res {
    dispatch_p!(a01c)
}

enum Any<C: Cfg> {
    Rep(Rep<C>),
    Dyn(Box<DynG<C>>),
}
impl<C: Cfg> Any<C> {
    fn g(&self) -> &DynG<C> {
        match self {
            Any::Rep(r) => r.g(),
            Any::Dyn(b) => &**b,
        }
    }
}

pub fn union(a: &Model, b: &Model) -> Model {
    let mut w = a.clone();
    for (n, l) in &b.nodes {
        w.nodes.insert(*n, *l);
    }
    for (e, l) in &b.edges {
        w.edges.insert(*e, *l);
    }
    w
}
pub fn minus(a: &Model, b: &Model) -> Model {
    let mut w = a.clone();
    for n in b.nodes.keys() {
        w.remove_node(*n);
    }
    w
}

fn a01c<C: Cfg>() -> Res {
    pick_style();
    sys::plan_faults(&[F::Panic], false, 400);
    let mut pool: Vec<(Any<C>, Model)> = Vec::new();
    // a few runs with graphs of thousands of nodes
    let big = if chance(3) { 500 } else { 0 };
    for _ in 0..2 + draw(2) {
        if !pool.is_empty() && chance(400) {
            // a changed copy of one that is there
            let i = draw(pool.len() as u64) as usize;
            let m = pool[i].1.clone();
            let mut x: Mach<C> = Mach::of(build::<C>(&m), m);
            let u = Uni::gen::<C>(true);
            for _ in 0..draw(12) {
                sys::span(|| x.step(&u))?;
            }
            sys::note(|| format!("GraphMap of {}", x.m.show()));
            pool.push((Any::Rep(Rep::Map(x.g)), x.m));
        } else {
            let (r, m) = sys::span(|| some_rep::<C>(big, 0))?;
            pool.push((Any::Rep(r), m));
        }
    }
    for _ in 0..1 + draw(4) {
        let (i, j) = (draw(pool.len() as u64) as usize, draw(pool.len() as u64) as usize);
        let plus = chance(500);
        let way = draw(5);
        let salt = draw(1 << 16);
        let other = chance(300);
        let who = format!("graph {} {} graph {} (way {})", i, if plus { "+" } else { "-" }, j, way);
        sys::note(|| who.clone());
        let r = {
            let (a, b) = (&pool[i], &pool[j]);
            let f = || sys::span(|| one::<C>((a.0.g(), &a.1), (b.0.g(), &b.1), plus, way, &who));
            // boxed graphs stay on their thread
            match (&a.0, &b.0) {
                (Any::Rep(x), Any::Rep(y)) if other => {
                    let (am, bm) = (&a.1, &b.1);
                    in_new_thread(salt, || one::<C>((x.g(), am), (y.g(), bm), plus, way, &who).map(|_| ()))?;
                    f()?
                }
                _ => f()?,
            }
        };
        if let Some((g, m)) = r {
            let k = draw(pool.len() as u64 + 1) as usize;
            if k < pool.len() {
                pool[k] = (Any::Dyn(g), m);
            } else {
                pool.push((Any::Dyn(g), m));
            }
        }
    }
    Ok(())
}

fn one<C: Cfg>(a: (&DynG<C>, &Model), b: (&DynG<C>, &Model), plus: bool, way: u64, who: &str) -> Res<Option<(Box<DynG<C>>, Model)>> {
    let want = if plus { union(a.1, b.1) } else { minus(a.1, b.1) };
    let go = || -> Box<DynG<C>> {
        let (x, y) = (a.0, b.0);
        match way {
            0 => {
                if plus {
                    graph_union(x, y)
                } else {
                    graph_minus(x, y)
                }
            }
            // the operators on references hand out a result that lives as long
            // as the operands, so it is taken over into a graph of its own
            1 => {
                by_ref::<C>(x, y, plus)
            }
            2 => {
                let (x, y): (Box<DynG<C>>, Box<DynG<C>>) = (Box::new(build::<C>(a.1)), Box::new(build::<C>(b.1)));
                if plus {
                    x + y
                } else {
                    x - y
                }
            }
            w => {
                let (x, y) = (build::<C>(a.1), build::<C>(b.1));
                if plus {
                    Box::new(C::plus(x, y, w == 3))
                } else {
                    Box::new(C::less(x, y, w == 3))
                }
            }
        }
    };
    let g = match shaky(who, go)? {
        Some(g) => g,
        None => {
            unchanged::<C>(a, b, who)?;
            // the panic is over
            sys::plan_none();
            no_panic(who, go)?
        }
    };
    check_graph(&*g, &want, ALL, who)?;
    super::hist::check_self_counts::<C>(&*g, who)?;
    unchanged::<C>(a, b, who)?;
    sys::mark();
    Ok(Some((g, want)))
}

type DynA<'a, C> = dyn GeneralGraph<<C as Cfg>::Id, <C as Cfg>::NL, <C as Cfg>::EL, <C as Cfg>::L> + 'a;

fn by_ref<'a, C: Cfg>(x: &'a DynA<'a, C>, y: &'a DynA<'a, C>, plus: bool) -> Box<DynG<C>> {
    let g: Box<DynA<'a, C>> = if plus { x + y } else { x - y };
    let mut r = C::new();
    for n in g.node_indices() {
        r.add_node(n, g.get_node_label(n).cloned());
    }
    for (s, t) in g.edge_indices() {
        r.add_edge(s, t, g.get_edge_label(s, t).cloned());
    }
    Box::new(r)
}

fn unchanged<C: Cfg>(a: (&DynG<C>, &Model), b: (&DynG<C>, &Model), who: &str) -> Res {
    for (x, k) in [(a, "first"), (b, "second")] {
        let now = no_panic("querying an operand", || snap_graph::<C::Id, C::NL, C::EL, C::L>(x.0))?;
        ensure!(now == text_snap::<C>(x.1), "operand", "{} changed its {} operand: {:?}", who, k, now);
    }
    Ok(())
}
