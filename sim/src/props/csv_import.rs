//! D04: a storage failure during CSV import is never reported as success.
//! D05: CSV import takes every readable row, and only those.

use super::*;
use std::collections::BTreeMap;

pub const D04: Prop = Prop {
    id: "D04",
    run: d04,
    quick: 300_000,
    thorough: 1_000_000,
    rule: "A run writes the CSV files of one to three generated graphs (by a writer of our own: separators, header or not, column order, quoting, sizes across the 8 KiB read buffer) and imports them with read faults armed (errors at open, at any read, short reads, interruptions, kills): an import that returns Ok must have produced exactly the graph in the files, an Err needs a fault; the row iterators must not end early either.",
    real: "rust_graph CSVReader, read_from_csv, records, GraphMap; csv, serde and std::fs code above libc",
    assumes: &["an interrupted read (EINTR) may be reported as an error by the import"],
};
pub const D05: Prop = Prop {
    id: "D05",
    run: d05,
    quick: 1_000_000,
    thorough: 1_500_000,
    rule: "A run generates CSV files in which good rows are mixed with rows that do not parse (bad ids, out of range ids, wrong field counts, invalid UTF-8, blank lines, unreadable labels, repeated rows, any line ending) and imports them with drawn reader settings while reads return short at drawn points; the graph and both row iterators must contain exactly what an independent interpretation of the rows gives.",
    real: "rust_graph CSVReader, records, GraphMap; csv, serde and std::fs code above libc",
    assumes: &["only documented header names are used"],
};

fn q(f: &[u8], sep: u8, force: bool, out: &mut Vec<u8>) {
    if force || f.iter().any(|b| *b == sep || *b == b'"' || *b == b'\n' || *b == b'\r') {
        out.push(b'"');
        for b in f {
            if *b == b'"' {
                out.push(b'"');
            }
            out.push(*b);
        }
        out.push(b'"');
    } else {
        out.extend_from_slice(f);
    }
}

fn row(fields: &[Vec<u8>], sep: u8, force: bool, eol: &[u8], out: &mut Vec<u8>) {
    if fields.len() == 1 && fields[0].is_empty() {
        out.extend_from_slice(b"\"\"");
    } else {
        for (i, f) in fields.iter().enumerate() {
            if i > 0 {
                out.push(sep);
            }
            q(f, sep, force, out);
        }
    }
    out.extend_from_slice(eol);
}

#[derive(Clone, Copy)]
pub struct Style {
    pub sep: Option<usize>,
    pub headers: bool,
    pub flexible: bool,
    pub perm: u64,
    pub quote_all: bool,
    pub eol: &'static [u8],
}
impl Style {
    pub fn gen() -> Style {
        Style {
            sep: if chance(350) { Some(draw(SEPS.len() as u64) as usize) } else { None },
            headers: !chance(350),
            flexible: chance(300),
            perm: draw(6),
            quote_all: chance(150),
            eol: if chance(250) { b"\r\n" } else { b"\n" },
        }
    }
    pub fn sepb(&self) -> u8 {
        self.sep.map(|i| SEPS[i].1).unwrap_or(b',')
    }
}

const NCOL: [&str; 2] = ["nodeId:ID", ":LABEL"];
const ECOL: [&str; 3] = [":START_ID", ":END_ID", ":TYPE"];

/// column order used in the file: position -> logical column
fn order(st: &Style, n: usize) -> Vec<usize> {
    if !st.headers {
        return (0..n).collect();
    }
    if n == 2 {
        if st.perm % 2 == 0 {
            vec![0, 1]
        } else {
            vec![1, 0]
        }
    } else {
        [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][st.perm as usize].to_vec()
    }
}

/// The CSV files of a model, written without the library.
/// The rows of a file and where in it each ends; where its header ends.
pub type Rows = (Vec<(usize, (u64, u64, Option<String>))>, usize);
pub fn put_csv<C: Cfg>(m: &Model, st: &Style, np: &str, ep: &str) -> [Rows; 2] {
    let sep = st.sepb();
    let mut r = crate::choice::Rng::new(draw(1 << 16));
    let mut out = Vec::new();
    let o = order(st, 2);
    if st.headers {
        row(&o.iter().map(|i| NCOL[*i].as_bytes().to_vec()).collect::<Vec<_>>(), sep, false, st.eol, &mut out);
    }
    let mut ns: Vec<_> = m.nodes.iter().collect();
    shuffle(&mut ns, &mut r);
    let mut lay: [Rows; 2] = Default::default();
    lay[0].1 = out.len();
    for (n, l) in ns {
        let f = [
            n.to_string().into_bytes(),
            l.map(|k| C::NL::mk(k).text().into_bytes()).unwrap_or_default(),
        ];
        row(&o.iter().map(|i| f[*i].clone()).collect::<Vec<_>>(), sep, st.quote_all, st.eol, &mut out);
        lay[0].0.push((out.len(), (*n, 0, l.map(|k| C::NL::mk(k).text()))));
    }
    sys::vfs_put(np, &out);
    let mut out = Vec::new();
    let o = order(st, 3);
    if st.headers {
        row(&o.iter().map(|i| ECOL[*i].as_bytes().to_vec()).collect::<Vec<_>>(), sep, false, st.eol, &mut out);
    }
    let mut es: Vec<_> = m.edges.iter().collect();
    shuffle(&mut es, &mut r);
    lay[1].1 = out.len();
    for ((mut s, mut t), l) in es.iter().map(|(k, l)| (**k, **l)) {
        if !m.directed && r.below(2) == 1 {
            std::mem::swap(&mut s, &mut t);
        }
        let f = [
            s.to_string().into_bytes(),
            t.to_string().into_bytes(),
            l.map(|k| C::EL::mk(k).text().into_bytes()).unwrap_or_default(),
        ];
        row(&o.iter().map(|i| f[*i].clone()).collect::<Vec<_>>(), sep, st.quote_all, st.eol, &mut out);
        lay[1].0.push((out.len(), (s, t, l.map(|k| C::EL::mk(k).text()))));
    }
    sys::vfs_put(ep, &out);
    lay
}

pub fn import_csv<C: Cfg>(g: &mut C::G, st: &Style, np: Option<&str>, ep: &str) -> Result<(), String> {
    if chance(400) {
        if let Some(r) = C::read_from_csv(g, np, ep, st.sep.map(|i| SEPS[i].0), st.headers, st.flexible) {
            return r.map_err(|e| e.to_string());
        }
    }
    reader::<C>(st, np, ep).read(g).map_err(|e| e.to_string())
}
fn reader<C: Cfg>(st: &Style, np: Option<&str>, ep: &str) -> CSVReader<'static, C::Id, C::NL, C::EL> {
    let r = csv_reader::<C>(np, ep, st.sep).headers(st.headers).flexible(st.flexible);
    if chance(200) {
        r.clone()
    } else {
        r
    }
}
/// What the edges file alone describes.
pub fn edges_only(m: &Model) -> Model {
    let mut x = Model::new(m.directed);
    for ((s, t), l) in &m.edges {
        x.add_edge(*s, *t, *l);
    }
    x
}

fn d04() -> Res {
    dispatch!(d04c)
}
fn d04c<C: Cfg>() -> Res {
    pick_style();
    sys::plan_faults(READ_FAULTS, true, 100);
    for _ in 0..1 + draw(3) {
        sys::span(|| -> Res {
            let m = gen_model::<C>(GenOpts {
                min_nodes: 0,
                dense: chance(500),
                huge: 4,
                ..Default::default()
            });
            let st = Style::gen();
            let lay = put_csv::<C>(&m, &st, "n.csv", "e.csv");
            let np = if chance(150) { None } else { Some("n.csv") };
            let want = if np.is_some() { m.clone() } else { edges_only(&m) };
            sys::note(|| format!("import (headers {} flexible {} nodes file {}) of {}", st.headers, st.flexible, np.is_some(), m.show()));
            let iters = chance(250);
            if !iters {
                sys::replan_at(7);
                let mut g = C::new();
                match faulty("csv import", CSV_READ, || import_csv::<C>(&mut g, &st, np, "e.csv"))? {
                    Out::Done(()) => {
                        if !want.nodes.is_empty() {
                            sys::mark();
                        }
                        if sys::fired_total() > 0 {
                            sys::probe("import succeeded in a run with faults");
                        }
                        check_graph(&g, &want, ALL, "imported graph")?;
                    }
                    Out::Failed(_) => sys::probe("import reported failure"),
                    Out::Crashed => sys::restart(),
                }
                return Ok(());
            }
            // the row iterators
            sys::replan_at(4);
            sys::read_error("n.csv");
            let (h0, e0) = sys::hard();
            let nodes = chance(500);
            sys::arm(true);
            let r = attempt(|| -> Result<Vec<(u64, u64, Option<String>)>, String> {
                let rd = reader::<C>(&st, Some("n.csv"), "e.csv");
                if nodes {
                    Ok(rd
                        .node_iter()
                        .map_err(|e| e.to_string())?
                        .map(|(n, l)| (n.id() as u64, 0, l.map(|l| l.text())))
                        .collect())
                } else {
                    Ok(rd
                        .edge_iter()
                        .map_err(|e| e.to_string())?
                        .map(|(s, t, l)| (s.id() as u64, t.id() as u64, l.map(|l| l.text())))
                        .collect())
                }
            });
            sys::arm(false);
            if sys::crashed() {
                sys::restart();
                return Ok(());
            }
            let (h1, e1) = sys::hard();
            let hard = h1 > h0 || e1 > e0;
            let failed = sys::read_error(if nodes { "n.csv" } else { "e.csv" });
            match r {
                Err(e) => {
                    ensure!(hard, "panic:csv row iterator", "csv row iterator panicked: {}", e);
                }
                Ok(Err(e)) => {
                    ensure!(hard, "spurious-error:csv row iterator", "csv row iterator failed although nothing below it failed: {}", e);
                    sys::probe("iterator reported failure");
                }
                Ok(Ok(v)) => {
                    let (rows, head) = &lay[if nodes { 0 } else { 1 }];
                    let w: Vec<_> = rows.iter().map(|r| r.1.clone()).collect();
                    sys::mark();
                    if v != w {
                        // known: after a failed read the rows still buffered are given, and then no more
                        let sure = match failed {
                            Some(at) if hard && at >= *head as u64 => rows.iter().filter(|r| r.0 as u64 <= at).count(),
                            _ => usize::MAX,
                        };
                        let class = if w.starts_with(&v) && v.len() >= sure { "iter-silent-end" } else { "iter-rows" };
                        return viol(
                            class,
                            format!(
                                "{} yields {} of {} rows{}",
                                if nodes { "node_iter" } else { "edge_iter" },
                                v.len(),
                                w.len(),
                                if hard { " after a read failed, and reports nothing" } else { "" }
                            ),
                        );
                    }
                }
            }
            Ok(())
        })?;
        if chance(500) {
            sys::heal();
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ bad rows --

/// An unsigned integer as csv and Rust read it: decimal with optional plus
/// sign, or hexadecimal after 0x.
fn int(f: &[u8], max: u64) -> Option<u64> {
    let t = std::str::from_utf8(f).ok()?;
    let v = match t.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).ok()?,
        None => {
            let d = t.strip_prefix('+').unwrap_or(t);
            if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
                return None;
            }
            d.parse::<u64>().ok()?
        }
    };
    if v <= max {
        Some(v)
    } else {
        None
    }
}

fn gen_id<C: Cfg>() -> Vec<u8> {
    let good = |x: u64| x.min(C::MAXID);
    let max = C::Id::max_usize() as u64;
    match pick(&[40, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2]) {
        0 => good(draw(9)).to_string(),
        1 => format!("+{}", good(draw(9))),
        2 => format!("0x{:x}", good(draw(40))),
        3 => format!("00{}", good(draw(9))),
        4 => good(draw(6000)).to_string(),
        5 => String::new(),
        6 => "x7".into(),
        7 => format!("-{}", 1 + draw(9)),
        8 => "1.5".into(),
        9 => (max as u128 + 1 + draw(3) as u128).to_string(),
        10 => "99999999999999999999999".into(),
        11 => format!(" {}", draw(9)),
        12 => "0xg1".into(),
        _ => "\u{661}".into(),
    }
    .into_bytes()
}
fn gen_label<T: LabT>() -> Vec<u8> {
    if T::MAX == 0 {
        // what text a `()` label has is nobody's promise; see unit_label_first
        return Vec::new();
    }
    match pick(&[4, 10, 2, 2, 1]) {
        0 => String::new(),
        1 => T::mk(draw(4) as u32).text(),
        2 => "abc".into(),
        3 => "0x1f".into(),
        _ => "99999999999".into(),
    }
    .into_bytes()
}
fn label_of<T: LabT>(f: Option<&Vec<u8>>) -> Option<String> {
    let f = f?;
    if f.is_empty() || T::MAX == 0 {
        return None;
    }
    let t = String::from_utf8(f.clone()).ok()?;
    if std::any::TypeId::of::<T>() == std::any::TypeId::of::<u32>() {
        int(f, u32::MAX as u64).map(|v| v.to_string())
    } else {
        Some(t)
    }
}

/// Generate a file; returns the logical rows that must be taken.
fn bad_file(
    st: &Style,
    unit: bool,
    cols: &[&str],
    cell: &dyn Fn(usize) -> Vec<u8>,
    path: &str,
) -> Vec<Vec<Option<Vec<u8>>>> {
    let sep = st.sepb();
    let mut out = Vec::new();
    let mut o = order(st, cols.len());
    if chance(100) {
        // no label column at all
        o.retain(|c| *c != cols.len() - 1);
    }
    let mut expect: Option<usize> = None;
    if st.headers {
        row(&o.iter().map(|i| cols[*i].as_bytes().to_vec()).collect::<Vec<_>>(), sep, false, st.eol, &mut out);
        expect = Some(o.len());
    }
    let mut rows = Vec::new();
    let n = if chance(40) { 900 } else { draw(12) };
    let lib = draw(1 << 16);
    let mut g = crate::choice::Rng::new(lib);
    for k in 0..n {
        sys::span(|| {
            let mut f: Vec<Vec<u8>> = if n > 100 {
                // bulk rows, a few of them bad
                o.iter()
                    .map(|c| {
                        if *c == cols.len() - 1 {
                            Vec::new()
                        } else if g.below(40) == 0 {
                            b"bad".to_vec()
                        } else {
                            g.below(60).to_string().into_bytes()
                        }
                    })
                    .collect()
            } else {
                o.iter().map(|c| cell(*c)).collect()
            };
            let mut utf8 = true;
            if n <= 100 {
                match pick(&[20, 1, 1, 1]) {
                    0 => {}
                    1 => {
                        f.pop();
                    }
                    2 => f.push(if unit { Vec::new() } else { b"extra".to_vec() }),
                    _ => {
                        if k > 0 || st.headers {
                            let i = draw(f.len() as u64) as usize;
                            f[i].push(0xff);
                            utf8 = false;
                        }
                    }
                }
            }
            if f.is_empty() {
                return;
            }
            let eol: &[u8] = if n <= 100 {
                match draw(8) {
                    0..=4 => st.eol,
                    5 => b"\n\n",
                    6 => b"\r\n",
                    _ => b"\r",
                }
            } else {
                st.eol
            };
            row(&f, sep, st.quote_all || (n <= 100 && chance(80)), eol, &mut out);
            let want = *expect.get_or_insert(f.len());
            if !st.flexible && f.len() != want {
                sys::probe("row with a wrong number of fields");
                return;
            }
            if !utf8 {
                sys::probe("row that is not UTF-8");
                return;
            }
            let mut cells: Vec<Option<Vec<u8>>> = vec![None; cols.len()];
            if st.headers {
                for (i, c) in o.iter().enumerate() {
                    cells[*c] = f.get(i).cloned();
                }
            } else {
                for (c, x) in f.iter().take(cols.len()).enumerate() {
                    cells[c] = Some(x.clone());
                }
            }
            rows.push(cells);
        });
    }
    if chance(300) {
        while out.last() == Some(&b'\n') || out.last() == Some(&b'\r') {
            out.pop();
        }
    }
    sys::note(|| format!("{}: {:?}", path, String::from_utf8_lossy(&out[..out.len().min(600)])));
    sys::vfs_put(path, &out);
    rows
}

/// A labelled file read as an unlabelled graph, its label column first.
fn unit_label_first<C: Cfg>() -> Res {
    let (a, b) = (1 + draw(9), 20 + draw(9));
    sys::vfs_put("n.csv", format!(":LABEL,nodeId:ID\n{},{}\n", b, a).as_bytes());
    sys::vfs_put("e.csv", b":START_ID,:END_ID,:TYPE\n");
    let mut g = C::new();
    clean("csv import", || reader::<C>(&Style { sep: None, headers: true, flexible: false, perm: 1, quote_all: false, eol: b"\n" }, Some("n.csv"), "e.csv").read(&mut g).map_err(|e| e.to_string()))?;
    sys::mark();
    let got: Vec<usize> = g.node_indices().map(|n| n.id()).collect();
    ensure!(got.iter().all(|n| *n as u64 == a), "unit-label-shift", "a row with label {} and id {} (label column first) read as an unlabelled graph gives nodes {:?}", b, a, got);
    Ok(())
}

fn d05() -> Res {
    dispatch!(d05c)
}
fn d05c<C: Cfg>() -> Res {
    pick_style();
    if C::LABELS == 0 && chance(60) {
        return unit_label_first::<C>();
    }
    sys::plan_faults(&[F::Short, F::Latency], false, 300);
    let st = Style::gen();
    let max = C::Id::max_usize() as u64;
    let nrows = bad_file(&st, C::LABELS == 0, &NCOL, &|c| if c == 0 { gen_id::<C>() } else { gen_label::<C::NL>() }, "n.csv");
    let erows = bad_file(&st, C::LABELS == 0, &ECOL, &|c| if c < 2 { gen_id::<C>() } else { gen_label::<C::EL>() }, "e.csv");
    // independent interpretation
    let mut nl: Vec<(u64, Option<String>)> = Vec::new();
    for r in &nrows {
        match r[0].as_ref().and_then(|f| int(f, max)) {
            Some(n) => nl.push((n, label_of::<C::NL>(r[1].as_ref()))),
            None => sys::probe("row with an unreadable id"),
        }
    }
    let mut el: Vec<(u64, u64, Option<String>)> = Vec::new();
    for r in &erows {
        let p = |i: usize| r[i].as_ref().and_then(|f| int(f, max));
        match (p(0), p(1)) {
            (Some(s), Some(t)) => el.push((s, t, label_of::<C::EL>(r[2].as_ref()))),
            _ => sys::probe("row with an unreadable id"),
        }
    }
    let with_nodes = !chance(120);
    let mut want = Snap {
        directed: C::DIRECTED,
        nodes: BTreeMap::new(),
        edges: BTreeMap::new(),
    };
    // the graph may hold something already
    let mut g = if chance(200) {
        let m = gen_model::<C>(GenOpts {
            max_nodes: 6,
            big: 0,
            ..Default::default()
        });
        let g = build::<C>(&m);
        want = no_panic("querying a graph", || snap_graph(&g))?;
        sys::probe("import into a graph with content");
        g
    } else {
        C::new()
    };
    if with_nodes {
        for (n, l) in &nl {
            want.nodes.insert(*n, l.clone());
        }
    }
    for (s, t, l) in &el {
        want.nodes.entry(*s).or_insert(None);
        want.nodes.entry(*t).or_insert(None);
        let k = if C::DIRECTED || s <= t { (*s, *t) } else { (*t, *s) };
        want.edges.insert(k, l.clone());
    }
    if C::LABELS < 1000 && C::LABELS > 0 {
        // stay within the label id type
        let d = |v: Vec<Option<String>>| v.into_iter().flatten().collect::<std::collections::BTreeSet<_>>().len();
        if d(want.nodes.values().cloned().collect()) > 200 || d(want.edges.values().cloned().collect()) > 200 {
            return Ok(());
        }
    }
    let np = if with_nodes { Some("n.csv") } else { None };
    sys::arm(true);
    let r = attempt(|| import_csv::<C>(&mut g, &st, np, "e.csv"));
    sys::arm(false);
    match r {
        Err(e) => return viol("panic:csv import", format!("csv import panicked: {}", e)),
        Ok(Err(e)) => return viol("spurious-error:csv import", format!("csv import failed although all reads succeeded: {}", e)),
        Ok(Ok(())) => {}
    }
    if !want.nodes.is_empty() {
        sys::mark();
    }
    let got = no_panic("querying the imported graph", || snap_graph(&g))?;
    if got.nodes != want.nodes {
        let miss = want.nodes.iter().find(|(k, v)| got.nodes.get(k) != Some(v));
        let extra = got.nodes.iter().find(|(k, v)| want.nodes.get(k) != Some(v));
        return viol("rows-nodes", format!("imported graph has {} nodes, the readable rows give {}; expected {:?}, got {:?}", got.nodes.len(), want.nodes.len(), miss, extra));
    }
    if got.edges != want.edges {
        let miss = want.edges.iter().find(|(k, v)| got.edges.get(k) != Some(v));
        let extra = got.edges.iter().find(|(k, v)| want.edges.get(k) != Some(v));
        return viol("rows-edges", format!("imported graph has {} edges, the readable rows give {}; expected {:?}, got {:?}", got.edges.len(), want.edges.len(), miss, extra));
    }
    ensure!(g.node_count() == want.nodes.len() && g.edge_count() == want.edges.len(), "rows-counts", "imported graph counts {} nodes {} edges, expected {} and {}", g.node_count(), g.edge_count(), want.nodes.len(), want.edges.len());
    // the iterators give the same rows, in file order
    sys::arm(true);
    let r = attempt(|| -> Result<_, String> {
        let rd = reader::<C>(&st, np, "e.csv");
        let a: Vec<(u64, Option<String>)> = rd.node_iter().map_err(|e| e.to_string())?.map(|(n, l)| (n.id() as u64, l.map(|l| l.text()))).collect();
        let b: Vec<(u64, u64, Option<String>)> = rd
            .edge_iter()
            .map_err(|e| e.to_string())?
            .map(|(s, t, l)| (s.id() as u64, t.id() as u64, l.map(|l| l.text())))
            .collect();
        Ok((a, b))
    });
    sys::arm(false);
    match r {
        Err(e) => viol("panic:csv row iterator", format!("csv row iterator panicked: {}", e)),
        Ok(Err(e)) => viol("spurious-error:csv row iterator", format!("csv row iterator failed: {}", e)),
        Ok(Ok((a, b))) => {
            let nl = if with_nodes { nl } else { vec![] };
            ensure!(a == nl, "iter-nodes", "node_iter yields {} rows, the readable rows are {}: {:?} / {:?}", a.len(), nl.len(), a.iter().take(8).collect::<Vec<_>>(), nl.iter().take(8).collect::<Vec<_>>());
            ensure!(b == el, "iter-edges", "edge_iter yields {} rows, the readable rows are {}: {:?} / {:?}", b.len(), el.len(), b.iter().take(8).collect::<Vec<_>>(), el.iter().take(8).collect::<Vec<_>>());
            Ok(())
        }
    }
}
