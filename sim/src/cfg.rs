//! The instantiations of the generic graph types that the runs exercise.

use crate::core::{IdT, LabT, PL};
use rust_graph::generic::{GeneralGraph, MutGraphLabelTrait, MutGraphTrait};
use rust_graph::graph_impl::{TypedDiGraphMap, TypedDiStaticGraph, TypedUnGraphMap, TypedUnStaticGraph, StaticGraphMmap};
use rust_graph::io::serde::{Deserialize, Serialize};
use rust_graph::map::SetMap;
use std::fmt::Debug;
use std::hash::Hash;

pub trait Cfg: 'static {
    type Id: IdT;
    type NL: LabT;
    type EL: LabT;
    type L: IdT;
    type G: GeneralGraph<Self::Id, Self::NL, Self::EL, Self::L>
        + MutGraphTrait<Self::Id, Self::NL, Self::EL, Self::L>
        + MutGraphLabelTrait<Self::Id, Self::NL, Self::EL, Self::L>
        + Clone
        + PartialEq
        + Hash
        + Debug
        + Serialize
        + Deserialize
        + Default
        + 'static;
    type S: GeneralGraph<Self::Id, Self::NL, Self::EL, Self::L>
        + Clone
        + PartialEq
        + Hash
        + Debug
        + Serialize
        + Deserialize
        + crate::props::stat::Stat<Self::Id, Self::NL, Self::EL, Self::L>
        + 'static;
    const DIRECTED: bool;
    /// whether the compiler lets threads share the three graph types
    const SHARED: [bool; 3];
    /// how many distinct node/edge labels fit the label-id type
    const LABELS: u32;
    const MAXID: u64;
    fn new() -> Self::G;
    fn with_capacity(n: usize, a: usize, b: usize) -> Self::G;
    fn with_label_map(n: SetMap<Self::NL>, e: SetMap<Self::EL>) -> Self::G;
    fn from_edges(e: Vec<(Self::Id, Self::Id)>) -> Self::G;
    fn add_node_label(g: &mut Self::G, l: Option<Self::NL>) -> Option<Self::L>;
    fn add_edge_label(g: &mut Self::G, l: Option<Self::EL>) -> Option<Self::L>;
    fn refine_edge_count(g: &mut Self::G);
    fn shrink(g: &mut Self::G);
    fn into_static(g: Self::G) -> Self::S;
    fn dump(s: &Self::S, prefix: &str) -> Result<(), String>;
    /// `read_from_csv`, where the instantiation has it
    fn read_from_csv(
        g: &mut Self::G,
        n: Option<&str>,
        e: &str,
        sep: Option<&str>,
        headers: bool,
        flexible: bool,
    ) -> Option<std::io::Result<()>>;
    /// `+` and `-` on graphs and on boxed graphs
    fn plus(a: Self::G, b: Self::G, boxed: bool) -> Self::G;
    fn less(a: Self::G, b: Self::G, boxed: bool) -> Self::G;
    fn reorder_with(
        g: Self::G,
        n: Option<SetMap<Self::Id>>,
        nl: Option<SetMap<Self::L>>,
        el: Option<SetMap<Self::L>>,
    ) -> Self::G;
    fn reorder(
        g: Self::G,
        n: bool,
        nl: bool,
        el: bool,
    ) -> (Option<SetMap<Self::Id>>, Self::G, Box<dyn Fn(bool, Self::Id) -> Self::Id>);
}

/// `Shareable::<T>::YES`, for a concrete T: whether T is Send and Sync.
pub struct Shareable<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
pub trait NotShareable {
    const YES: bool = false;
}
impl<T> NotShareable for Shareable<T> {}
impl<T: Send + Sync> Shareable<T> {
    #[allow(dead_code)]
    pub const YES: bool = true;
}

macro_rules! rfc {
    (same, $g:expr, $n:expr, $e:expr, $s:expr, $h:expr, $f:expr) => {
        Some(rust_graph::io::csv::read_from_csv($g, $n, $e, $s, $h, $f))
    };
    (diff, $g:expr, $n:expr, $e:expr, $s:expr, $h:expr, $f:expr) => {{
        let _ = ($g, $n, $e, $s, $h, $f);
        None
    }};
}
macro_rules! cfg {
    ($same:ident, $name:ident, $id:ty, $nl:ty, $el:ty, $l:ty, $g:ident, $s:ident, $ty:ty, $dir:expr, $labels:expr, $maxid:expr) => {
        pub struct $name;
        impl Cfg for $name {
            type Id = $id;
            type NL = $nl;
            type EL = $el;
            type L = $l;
            type G = $g<$id, $nl, $el, $l>;
            type S = $s<$id, $nl, $el, $l>;
            const DIRECTED: bool = $dir;
            const SHARED: [bool; 3] = [
                Shareable::<Self::G>::YES,
                Shareable::<Self::S>::YES,
                Shareable::<StaticGraphMmap<$id, $nl, $el, $l>>::YES,
            ];
            const LABELS: u32 = $labels;
            const MAXID: u64 = $maxid;
            fn new() -> Self::G {
                Self::G::new()
            }
            fn with_capacity(n: usize, a: usize, b: usize) -> Self::G {
                Self::G::with_capacity(n, a, b)
            }
            fn with_label_map(n: SetMap<$nl>, e: SetMap<$el>) -> Self::G {
                Self::G::with_label_map(n, e)
            }
            fn from_edges(e: Vec<($id, $id)>) -> Self::G {
                Self::G::from_edges(e)
            }
            fn add_node_label(g: &mut Self::G, l: Option<$nl>) -> Option<$l> {
                g.add_node_label(l)
            }
            fn add_edge_label(g: &mut Self::G, l: Option<$el>) -> Option<$l> {
                g.add_edge_label(l)
            }
            fn refine_edge_count(g: &mut Self::G) {
                g.refine_edge_count()
            }
            fn shrink(g: &mut Self::G) {
                g.shrink_to_fit()
            }
            fn into_static(g: Self::G) -> Self::S {
                g.into_static()
            }
            fn dump(s: &Self::S, prefix: &str) -> Result<(), String> {
                s.dump_mmap(prefix).map_err(|e| e.to_string())
            }
            fn read_from_csv(
                g: &mut Self::G,
                n: Option<&str>,
                e: &str,
                sep: Option<&str>,
                headers: bool,
                flexible: bool,
            ) -> Option<std::io::Result<()>> {
                rfc!($same, g, n, e, sep, headers, flexible)
            }
            fn plus(a: Self::G, b: Self::G, boxed: bool) -> Self::G {
                if boxed {
                    Box::new(a) + Box::new(b)
                } else {
                    a + b
                }
            }
            fn less(a: Self::G, b: Self::G, boxed: bool) -> Self::G {
                if boxed {
                    Box::new(a) - Box::new(b)
                } else {
                    a - b
                }
            }
            fn reorder_with(g: Self::G, n: Option<SetMap<$id>>, nl: Option<SetMap<$l>>, el: Option<SetMap<$l>>) -> Self::G {
                g.reorder_id_with(&n, &nl, &el)
            }
            fn reorder(
                g: Self::G,
                n: bool,
                nl: bool,
                el: bool,
            ) -> (Option<SetMap<$id>>, Self::G, Box<dyn Fn(bool, $id) -> $id>) {
                let mut r = g.reorder_id(n, nl, el);
                let g = r.take_graph().unwrap();
                let m = r.get_node_id_map().cloned();
                (
                    m,
                    g,
                    Box::new(move |orig, i| if orig { r.get_original_node_id(i) } else { r.find_new_node_id(i) }),
                )
            }
        }
    };
}
cfg!(same, C0D, u32, String, String, u32, TypedDiGraphMap, TypedDiStaticGraph, Directed, true, 100_000, u32::MAX as u64);
cfg!(same, C0U, u32, String, String, u32, TypedUnGraphMap, TypedUnStaticGraph, Undirected, false, 100_000, u32::MAX as u64);
cfg!(same, C1D, usize, String, u32, usize, TypedDiGraphMap, TypedDiStaticGraph, Directed, true, 100_000, 1 << 62);
cfg!(same, C1U, usize, String, u32, usize, TypedUnGraphMap, TypedUnStaticGraph, Undirected, false, 100_000, 1 << 62);
cfg!(diff, C2D, u16, u32, String, u8, TypedDiGraphMap, TypedDiStaticGraph, Directed, true, 255, 65_535);
cfg!(diff, C2U, u16, u32, String, u8, TypedUnGraphMap, TypedUnStaticGraph, Undirected, false, 255, 65_535);
cfg!(diff, C3D, u8, (), (), u16, TypedDiGraphMap, TypedDiStaticGraph, Directed, true, 0, 255);
cfg!(diff, C3U, u8, (), (), u16, TypedUnGraphMap, TypedUnStaticGraph, Undirected, false, 0, 255);
cfg!(same, C4D, u32, PL, PL, u32, TypedDiGraphMap, TypedDiStaticGraph, Directed, true, 1000, u32::MAX as u64);
cfg!(same, C4U, u32, PL, PL, u32, TypedUnGraphMap, TypedUnStaticGraph, Undirected, false, 1000, u32::MAX as u64);

cfg!(same, C5D, u16, u32, String, u16, TypedDiGraphMap, TypedDiStaticGraph, Directed, true, 1000, 65_535);
cfg!(same, C5U, u16, u32, String, u16, TypedUnGraphMap, TypedUnStaticGraph, Undirected, false, 1000, 65_535);
cfg!(same, C6D, u8, (), (), u8, TypedDiGraphMap, TypedDiStaticGraph, Directed, true, 0, 255);
cfg!(same, C6U, u8, (), (), u8, TypedUnGraphMap, TypedUnStaticGraph, Undirected, false, 0, 255);

/// As `dispatch!`, with label types whose code panics.
#[macro_export]
macro_rules! dispatch_p {
    ($f:ident) => {{
        match $crate::sys::pick(&[3, 3, 1, 1, 2, 2, 1, 1, 6, 6]) {
            0 => $f::<$crate::cfg::C0U>(),
            1 => $f::<$crate::cfg::C0D>(),
            2 => $f::<$crate::cfg::C1U>(),
            3 => $f::<$crate::cfg::C1D>(),
            4 => $f::<$crate::cfg::C2U>(),
            5 => $f::<$crate::cfg::C2D>(),
            6 => $f::<$crate::cfg::C3U>(),
            7 => $f::<$crate::cfg::C3D>(),
            8 => $f::<$crate::cfg::C4U>(),
            _ => $f::<$crate::cfg::C4D>(),
        }
    }};
}

/// Run `f` for the instantiation drawn by the workload.
#[macro_export]
macro_rules! dispatch {
    ($f:ident) => {{
        match $crate::sys::pick(&[4, 4, 2, 2, 3, 3, 1, 1]) {
            0 => $f::<$crate::cfg::C0U>(),
            1 => $f::<$crate::cfg::C0D>(),
            2 => $f::<$crate::cfg::C1U>(),
            3 => $f::<$crate::cfg::C1D>(),
            4 => $f::<$crate::cfg::C2U>(),
            5 => $f::<$crate::cfg::C2D>(),
            6 => $f::<$crate::cfg::C3U>(),
            _ => $f::<$crate::cfg::C3D>(),
        }
    }};
}
