//! One module per property (or group of close properties).

use crate::cfg::Cfg;
use crate::core::*;
use crate::model::*;
use crate::runner::Prop;
use crate::sys::{self, chance, draw, pick, F};
use rust_graph::generic::*;
use rust_graph::io::csv::{CSVReader, CSVWriter};

pub mod alg;
pub mod binary;
pub mod conc;
pub mod eq;
pub mod gen;
pub mod hist;
pub mod ldbc;
pub mod maps;
pub mod csv_export;
pub mod csv_import;
pub mod mmapped;
pub mod retry;
pub mod share;
pub mod stat;
pub mod trav;

/// In the instrumented build, the properties that are checked with it.
#[cfg(simcov)]
pub fn all() -> Vec<Prop> {
    vec![conc::D09, share::C01]
}
#[cfg(not(simcov))]
pub fn all() -> Vec<Prop> {
    vec![
        csv_export::PROP,
        binary::D02,
        mmapped::D03,
        csv_import::D04,
        csv_import::D05,
        binary::D06,
        mmapped::D07,
        retry::D08,
        conc::D09,
        ldbc::D10,
        hist::H01,
        hist::H02,
        maps::H03,
        eq::H04,
        hist::H05,
        stat::H06,
        trav::T01,
        trav::T02,
        trav::T03,
        trav::T04,
        gen::R01,
        gen::R02,
        alg::A01,
        share::C01,
    ]
}

// ------------------------------------------------------- shared machinery --

pub type DynG<C> =
    dyn GeneralGraph<<C as Cfg>::Id, <C as Cfg>::NL, <C as Cfg>::EL, <C as Cfg>::L>;

/// What became of an operation that ran while faults were possible.
pub enum Out<T> {
    Done(T),
    Failed(String),
    Crashed,
}
impl<T> Out<T> {
    pub fn tag(&self) -> &'static str {
        match self {
            Out::Done(_) => "ok",
            Out::Failed(_) => "failed",
            Out::Crashed => "crashed",
        }
    }
}

/// How an operation may answer a failure of the system below it.
#[derive(Clone, Copy)]
pub struct May {
    /// it has no way to return an error, so it may panic
    pub panic: bool,
    /// an interrupted call counts as a failure for it
    pub eintr: bool,
}
pub const WRITER: May = May { panic: false, eintr: false };
pub const OPENER: May = May { panic: true, eintr: false };
pub const CSV_READ: May = May { panic: false, eintr: true };

/// Run an operation of the library with the fault plan armed.  It may only fail
/// when something below it failed.
pub fn faulty<T>(what: &str, may: May, f: impl FnOnce() -> Result<T, String>) -> Res<Out<T>> {
    let (h0, e0) = sys::hard();
    sys::arm(true);
    let r = attempt(f);
    sys::arm(false);
    let (h1, e1) = sys::hard();
    let hard = h1 > h0 || (may.eintr && e1 > e0);
    if sys::crashed() {
        sys::note(|| format!("{}: process killed", what));
        return Ok(Out::Crashed);
    }
    match r {
        Ok(Ok(v)) => {
            sys::note(|| format!("{}: ok", what));
            Ok(Out::Done(v))
        }
        Ok(Err(e)) => {
            ensure!(hard, format!("spurious-error:{}", what), "{} failed although nothing below it failed: {}", what, e);
            sys::note(|| format!("{}: error {}", what, e));
            Ok(Out::Failed(e))
        }
        Err(e) => {
            ensure!(
                may.panic && hard,
                format!("panic:{}", what),
                "{} panicked: {}",
                what,
                e
            );
            sys::note(|| format!("{}: panic {}", what, e));
            Ok(Out::Failed(e))
        }
    }
}

/// Run `f` on a thread of its own, with hash seeds of its own.
pub fn in_new_thread<T>(salt: u64, f: impl FnOnce() -> Res<T>) -> Res<T> {
    in_thread_with(8 << 20, salt, f)
}
pub fn in_thread_with<T>(stack: usize, salt: u64, f: impl FnOnce() -> Res<T>) -> Res<T> {
    let f = Free::new(f);
    std::thread::scope(|sc| {
        let h = std::thread::Builder::new()
            .stack_size(stack)
            .spawn_scoped(sc, move || {
                sys::enter(sys::DRIVER);
                sys::reseed_entropy(salt);
                let r = attempt(f.take());
                sys::leave();
                Free::new(r)
            })
            .expect("thread");
        match h.join().map(|r| r.take()) {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => viol("panic:thread", format!("panic on another thread: {}", e)),
            Err(_) => viol("panic:thread", "panic on another thread"),
        }
    })
}

/// Run an operation without faults: it must succeed.
pub fn clean<T>(what: &str, f: impl FnOnce() -> Result<T, String>) -> Res<T> {
    sys::arm(false);
    match attempt(f) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => viol(format!("error:{}", what), format!("{} failed although nothing below it failed: {}", what, e)),
        Err(e) => viol(format!("panic:{}", what), format!("{} panicked: {}", what, e)),
    }
}

pub const WRITE_FAULTS: &[F] = &[
    F::Enospc,
    F::Eio,
    F::Eintr,
    F::Short,
    F::Eacces,
    F::Emfile,
    F::Erofs,
    F::Latency,
];
pub const READ_FAULTS: &[F] = &[F::Eio, F::Eintr, F::Short, F::Eacces, F::Emfile, F::Enomem, F::Latency];
pub const ALL_FAULTS: &[F] = &[
    F::Enospc,
    F::Eio,
    F::Eintr,
    F::Short,
    F::Eacces,
    F::Emfile,
    F::Erofs,
    F::Enomem,
    F::Latency,
];

/// A graph in one of its in-memory forms.
pub enum Form<C: Cfg> {
    Map(C::G),
    Static(C::S),
}
impl<C: Cfg> Form<C> {
    pub fn g(&self) -> &DynG<C> {
        match self {
            Form::Map(g) => g,
            Form::Static(g) => g,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Form::Map(_) => "GraphMap",
            Form::Static(_) => "StaticGraph",
        }
    }
}
pub fn build_form<C: Cfg>(m: &Model) -> Form<C> {
    let g = build::<C>(m);
    if m.dense() && chance(450) {
        Form::Static(C::into_static(g))
    } else {
        Form::Map(g)
    }
}

pub fn pick_style() {
    let s = if chance(600) { draw(STYLES) } else { 0 };
    set_style(s);
}

pub const SEPS: &[(&str, u8)] = &[
    ("comma", b','),
    ("space", b' '),
    ("tab", b'\t'),
    (";", b';'),
    ("|", b'|'),
    (",", b','),
    (":", b':'),
];

pub fn csv_export<C: Cfg>(g: &DynG<C>, n: &str, e: &str, sep: Option<usize>) -> Result<(), String> {
    match sep {
        None => {
            if chance(500) {
                CSVWriter::new(g, n, e).write()
            } else {
                rust_graph::io::csv::write_to_csv(g, n, e)
            }
        }
        Some(i) => CSVWriter::with_separator(g, n, e, SEPS[i].0).write(),
    }
    .map_err(|e| e.to_string())
}

pub fn csv_reader<C: Cfg>(
    n: Option<&str>,
    e: &str,
    sep: Option<usize>,
) -> CSVReader<'static, C::Id, C::NL, C::EL> {
    match sep {
        None => CSVReader::new(n, e),
        Some(i) => CSVReader::with_separator(n, e, SEPS[i].0),
    }
}

/// A small CSV reader of our own (RFC 4180 with any one-byte separator).
pub fn parse_csv(data: &[u8], sep: u8) -> Vec<Vec<String>> {
    let mut rows: Vec<Vec<String>> = Vec::new();
    let mut row: Vec<String> = Vec::new();
    let mut f: Vec<u8> = Vec::new();
    let mut i = 0;
    let mut any = false; // anything on this line
    let take = |f: &mut Vec<u8>| String::from_utf8_lossy(&std::mem::take(f)).into_owned();
    while i < data.len() {
        let c = data[i];
        if c == b'"' && f.is_empty() {
            any = true;
            i += 1;
            while i < data.len() {
                if data[i] == b'"' {
                    if data.get(i + 1) == Some(&b'"') {
                        f.push(b'"');
                        i += 2;
                        continue;
                    }
                    i += 1;
                    break;
                }
                f.push(data[i]);
                i += 1;
            }
            continue;
        }
        if c == sep {
            any = true;
            row.push(take(&mut f));
        } else if c == b'\n' || c == b'\r' {
            if any {
                row.push(take(&mut f));
                rows.push(std::mem::take(&mut row));
            }
            any = false;
        } else {
            any = true;
            f.push(c);
        }
        i += 1;
    }
    if any {
        row.push(take(&mut f));
        rows.push(row);
    }
    rows
}

/// The two CSV files hold exactly the model.
pub fn check_csv_files<C: Cfg>(m: &Model, np: &str, ep: &str, sep: u8) -> Res {
    let get = |p: &str| match sys::vfs_get(p) {
        Some(d) => Ok(d),
        None => viol("file-missing", format!("{} does not exist after a successful export", p)),
    };
    let nd = get(np)?;
    let ed = get(ep)?;
    let body = |d: &[u8]| -> Vec<Vec<String>> {
        let mut r = parse_csv(d, sep);
        if !r.is_empty() {
            r.remove(0);
        }
        r
    };
    let mut got: Vec<(String, String)> = Vec::new();
    for r in body(&nd) {
        ensure!(r.len() == 2, "node-row", "{}: row {:?} has {} fields", np, r, r.len());
        got.push((r[0].clone(), r[1].clone()));
    }
    got.sort();
    let mut want: Vec<(String, String)> = m
        .nodes
        .iter()
        .map(|(n, l)| (n.to_string(), l.map(|k| C::NL::mk(k).text()).unwrap_or_default()))
        .collect();
    want.sort();
    if got != want {
        let miss = want.iter().find(|w| !got.contains(w));
        let extra = got.iter().find(|w| !want.contains(w));
        return viol(
            "node-rows",
            format!(
                "{} holds {} node rows, expected {}; missing {:?}, unexpected {:?}",
                np,
                got.len(),
                want.len(),
                miss,
                extra
            ),
        );
    }
    let mut got: Vec<((u64, u64), String)> = Vec::new();
    for r in body(&ed) {
        ensure!(r.len() == 3, "edge-row", "{}: row {:?} has {} fields", ep, r, r.len());
        let (s, t) = match (r[0].parse::<u64>(), r[1].parse::<u64>()) {
            (Ok(s), Ok(t)) => (s, t),
            _ => return viol("edge-row", format!("{}: row {:?} is not an edge", ep, r)),
        };
        got.push((m.key(s, t), r[2].clone()));
    }
    got.sort();
    let mut want: Vec<((u64, u64), String)> = m
        .edges
        .iter()
        .map(|(k, l)| (*k, l.map(|k| C::EL::mk(k).text()).unwrap_or_default()))
        .collect();
    want.sort();
    if got != want {
        let miss = want.iter().find(|w| !got.contains(w));
        let extra = got.iter().find(|w| !want.contains(w));
        return viol(
            "edge-rows",
            format!(
                "{} holds {} edge rows, expected {}; missing {:?}, unexpected {:?}",
                ep,
                got.len(),
                want.len(),
                miss,
                extra
            ),
        );
    }
    Ok(())
}

/// Every now and then a graph of the size of the one before.
pub fn or_alike(last: &Option<Model>, make: impl FnOnce() -> Model) -> Model {
    match last {
        Some(m) if chance(200) => {
            sys::probe("a graph of the same size as the one before");
            m.alike(draw(4) as usize, 1 + draw(5) as usize)
        }
        _ => make(),
    }
}
