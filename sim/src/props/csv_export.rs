//! D01: a CSV export that reports success is complete.

use super::*;

pub const PROP: Prop = Prop {
    id: "D01",
    run,
    quick: 90_000,
    thorough: 1_000_000,
    rule: "A run exports one to four generated graphs (directed or undirected, GraphMap or StaticGraph, several id and label types, label texts with separators, quotes and line breaks, sizes across the 8 KiB buffer) with CSVWriter::write or write_to_csv, often over files of an earlier export, with storage faults armed; after every reported success, usually followed by a kill and restart, the files are parsed by an independent CSV parser and re-imported with CSVReader, and both must equal the exported graph.",
    real: "rust_graph CSVWriter, CSVReader, records, GraphMap, StaticGraph; csv, serde and std::fs code above libc",
    assumes: &["labels are non-empty texts (an empty text and no label are the same in CSV)"],
};

fn run() -> Res {
    dispatch!(go)
}

fn go<C: Cfg>() -> Res {
    pick_style();
    sys::plan_faults(WRITE_FAULTS, true, 120);
    if chance(150) {
        sys::set_cap(Some(draw(6000)));
    }
    let sep = if chance(400) { Some(draw(SEPS.len() as u64) as usize) } else { None };
    let sepb = sep.map(|i| SEPS[i].1).unwrap_or(b',');
    let (np, ep) = if chance(300) { ("/data/n.csv", "/data/e.csv") } else { ("nodes.csv", "edges.csv") };
    let n = 1 + draw(4);
    let mut before: Option<Model> = None;
    for k in 0..n {
        let last = k + 1 == n;
        sys::span(|| -> Res {
            let m = or_alike(&before, || {
                gen_model::<C>(GenOpts {
                    min_nodes: 0,
                    dense: chance(600),
                    huge: 4,
                    ..Default::default()
                })
            });
            before = Some(m.clone());
            let f = build_form::<C>(&m);
            sys::note(|| format!("export {} {}", f.name(), m.show()));
            if last && chance(300) {
                sys::heal();
                sys::plan_none();
            }
            sys::replan_at(12);
            let r = faulty("csv export", WRITER, || csv_export::<C>(f.g(), np, ep, sep))?;
            match r {
                Out::Done(()) => {
                    if chance(700) {
                        sys::kill_now();
                        sys::restart();
                    }
                    if !m.nodes.is_empty() {
                        sys::mark();
                    }
                    if sys::fired_total() > 0 {
                        sys::probe("export succeeded in a run with faults");
                    }
                    if sys::vfs_get(ep).map(|d| d.len() > 8192).unwrap_or(false) {
                        sys::probe("file larger than the write buffer");
                    }
                    check_csv_files::<C>(&m, np, ep, sepb)?;
                    let mut g = C::new();
                    clean("csv import", || {
                        csv_reader::<C>(Some(np), ep, sep).read(&mut g).map_err(|e| e.to_string())
                    })?;
                    check_graph(&g, &m, ALL, "re-imported graph")?;
                }
                Out::Failed(_) => sys::probe("export reported failure"),
                Out::Crashed => {
                    sys::probe("process killed during export");
                    sys::restart();
                }
            }
            // exporting does not change the graph
            check_graph(f.g(), &m, ALL, "exported graph")
        })?;
        if chance(500) {
            sys::heal();
        }
    }
    Ok(())
}
