//! D10: importing an LDBC directory.

use super::*;
use rust_graph::graph_impl::TypedGraphMap;
use rust_graph::io::ldbc::Scheme;
use rust_graph::io::read_ldbc_from_path;
use std::collections::{BTreeMap, BTreeSet};

pub const D10: Prop = Prop {
    id: "D10",
    run: d10,
    quick: 40_000,
    thorough: 400_000,
    rule: "A run generates entities, node files and relation files of the LDBC layout (parts, extra columns, quoting, unrelated files and directories) in the simulated file system, imports them with the directory listed in a drawn order and reads split arbitrarily, and compares the result with the generated entities and relations up to renumbering of nodes (exact isomorphism search); a second import with another listing order must give the same graph; imports under failing opendir, readdir, stat, open and read calls must give that graph or fail; a directory with one malformed row must not import.",
    real: "io::ldbc, GraphMap, csv, regex, std::fs directory reading above libc",
    assumes: &["entity ids are numeric (as LDBC's are)", "isomorphism search gives up after a bounded number of steps (counted in the probes)"],
};

/// (start entity, target entity, label, file name stem)
const RELS: &[(&str, &str, &str, &str)] = &[
    ("comment", "person", "hasCreator", "comment_hasCreator_person"),
    ("comment", "tag", "hasTag", "comment_hasTag_tag"),
    ("comment", "place", "isLocatedIn", "comment_isLocatedIn_place"),
    ("comment", "comment", "replyOf", "comment_replyOf_comment"),
    ("comment", "post", "replyOf", "comment_replyOf_post"),
    ("forum", "post", "containerOf", "forum_containerOf_post"),
    ("forum", "person", "hasMember", "forum_hasMember_person"),
    ("forum", "person", "hasModerator", "forum_hasModerator_person"),
    ("forum", "tag", "hasTag", "forum_hasTag_tag"),
    ("organisation", "place", "isLocatedIn", "organisation_isLocatedIn_place"),
    ("person", "tag", "hasInterest", "person_hasInterest_tag"),
    ("person", "place", "isLocatedIn", "person_isLocatedIn_place"),
    ("person", "person", "knows", "person_knows_person"),
    ("person", "comment", "likes", "person_likes_comment"),
    ("person", "post", "likes", "person_likes_post"),
    ("person", "organisation", "studyAt", "person_studyAt_organisation"),
    ("person", "organisation", "workAt", "person_workAt_organisation"),
    ("place", "place", "isPartOf", "place_isPartOf_place"),
    ("post", "person", "hasCreator", "post_hasCreator_person"),
    ("post", "tag", "hasTag", "post_hasTag_tag"),
    ("post", "place", "isLocatedIn", "post_isLocatedIn_place"),
    ("tag", "tagclass", "hasType", "tag_hasType_tagclass"),
    ("tagclass", "tagclass", "isSubclassOf", "tagclass_isSubclassOf_tagclass"),
];

/// building a scheme compiles 27 regular expressions: most runs share one
static SCHEME: std::sync::LazyLock<Scheme> = std::sync::LazyLock::new(Scheme::init);

pub fn warm_up() {
    std::sync::LazyLock::force(&SCHEME);
}

/// What the files say: entities numbered 0.. here, in no particular order.
#[derive(Clone, Debug, PartialEq)]
struct Iso {
    directed: bool,
    labels: Vec<String>,
    /// labels an edge may carry
    edges: BTreeMap<(usize, usize), BTreeSet<String>>,
}
impl Iso {
    fn key(&self, a: usize, b: usize) -> (usize, usize) {
        if self.directed || a <= b {
            (a, b)
        } else {
            (b, a)
        }
    }
    fn colours(&self) -> Vec<u64> {
        let h = |s: &str| crate::choice::hash_str(17, s);
        let mut c: Vec<u64> = self.labels.iter().map(|l| h(l)).collect();
        for _ in 0..4 {
            let mut acc: Vec<(u64, u64)> = vec![(0, 0); c.len()];
            for (a, b) in self.edges.keys() {
                let f = |x: u64, k: u64| crate::choice::mix(x, k);
                if self.directed {
                    acc[*a].0 = acc[*a].0.wrapping_add(f(c[*b], 1));
                    acc[*b].1 = acc[*b].1.wrapping_add(f(c[*a], 2));
                } else {
                    acc[*a].0 = acc[*a].0.wrapping_add(f(c[*b], 1));
                    if a != b {
                        acc[*b].0 = acc[*b].0.wrapping_add(f(c[*a], 1));
                    }
                }
            }
            for (i, x) in c.iter_mut().enumerate() {
                let (a, b) = acc[i];
                *x = crate::choice::mix(crate::choice::mix(*x, a), b);
            }
        }
        c
    }
    fn show(&self) -> String {
        format!("{} entities {:?}, {} edges {:?}", self.labels.len(), self.labels, self.edges.len(), self.edges)
    }
}

/// Some(true): isomorphic with every edge label allowed; None: gave up.
fn isomorphic(want: &Iso, got: &Iso) -> Result<(), String> {
    if want.directed != got.directed {
        return Err("directedness".into());
    }
    if want.labels.len() != got.labels.len() {
        return Err(format!("{} nodes, expected {}", got.labels.len(), want.labels.len()));
    }
    if want.edges.len() != got.edges.len() {
        return Err(format!("{} edges, expected {}", got.edges.len(), want.edges.len()));
    }
    let count = |v: &[String]| {
        let mut m: BTreeMap<String, usize> = BTreeMap::new();
        for l in v {
            *m.entry(l.clone()).or_insert(0) += 1;
        }
        m
    };
    let (a, b) = (count(&want.labels), count(&got.labels));
    if a != b {
        return Err(format!("node labels {:?}, expected {:?}", b, a));
    }
    let (cw, cg) = (want.colours(), got.colours());
    let (mut x, mut y) = (cw.clone(), cg.clone());
    x.sort();
    y.sort();
    if x != y {
        return Err("the edges do not join the same entities".into());
    }
    let n = want.labels.len();
    if n > 60 {
        // by colours only: exact whenever the colours tell all nodes apart
        let mut have: BTreeMap<(u64, u64, &String), usize> = BTreeMap::new();
        let k = |a: u64, b: u64| if want.directed || a <= b { (a, b) } else { (b, a) };
        for ((a, b), l) in &got.edges {
            let (x, y) = k(cg[*a], cg[*b]);
            for l in l {
                *have.entry((x, y, l)).or_insert(0) += 1;
            }
        }
        for ((a, b), l) in &want.edges {
            if l.len() == 1 {
                let (x, y) = k(cw[*a], cw[*b]);
                match have.get_mut(&(x, y, l.iter().next().unwrap())) {
                    Some(c) if *c > 0 => *c -= 1,
                    _ => return Err("an edge is missing or has another label".into()),
                }
            }
        }
        return Ok(());
    }
    // order: rarest colours first
    let mut freq: BTreeMap<u64, usize> = BTreeMap::new();
    for c in &cw {
        *freq.entry(*c).or_insert(0) += 1;
    }
    let mut wadj: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    for (a, b) in want.edges.keys() {
        wadj[*a].insert(*b);
        wadj[*b].insert(*a);
    }
    // connected-first order
    let mut order: Vec<usize> = Vec::new();
    let mut placed = vec![false; n];
    while order.len() < n {
        let best = (0..n)
            .filter(|i| !placed[*i])
            .min_by_key(|i| {
                let linked = wadj[*i].iter().any(|j| placed[*j]);
                (freq[&cw[*i]] > 1, !linked, freq[&cw[*i]], *i)
            })
            .unwrap();
        placed[best] = true;
        order.push(best);
    }
    let mut by: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
    for (i, c) in cg.iter().enumerate() {
        by.entry(*c).or_default().push(i);
    }
    struct S<'a> {
        want: &'a Iso,
        got: &'a Iso,
        order: Vec<usize>,
        map: Vec<Option<usize>>,
        used: Vec<bool>,
        by: BTreeMap<u64, Vec<usize>>,
        cw: Vec<u64>,
        wadj: Vec<BTreeSet<usize>>,
        gdeg: Vec<usize>,
        steps: u64,
    }
    fn ok(s: &S, w: usize, g: usize) -> bool {
        // every edge of w to mapped nodes exists with an allowed label
        let mut mapped = 0;
        for o in &s.wadj[w] {
            let og = if *o == w {
                Some(g)
            } else {
                s.map[*o]
            };
            let og = match og {
                Some(x) => x,
                None => continue,
            };
            mapped += 1;
            for (p, q, pg, qg) in [(w, *o, g, og), (*o, w, og, g)] {
                if let Some(l) = s.want.edges.get(&s.want.key(p, q)) {
                    if !s.want.directed || (p, q) == s.want.key(p, q) {
                        match s.got.edges.get(&s.got.key(pg, qg)) {
                            Some(x) if x.is_subset(l) => {}
                            _ => return false,
                        }
                    }
                }
            }
        }
        let _ = mapped;
        s.wadj[w].len() == s.gdeg[g]
    }
    fn go(s: &mut S, i: usize) -> Option<bool> {
        if i == s.order.len() {
            return Some(true);
        }
        s.steps += 1;
        if s.steps > 60_000 {
            return None;
        }
        let w = s.order[i];
        let cand = s.by[&s.cw[w]].clone();
        for g in cand {
            if s.used[g] || !ok(s, w, g) {
                continue;
            }
            s.used[g] = true;
            s.map[w] = Some(g);
            match go(s, i + 1) {
                Some(true) => return Some(true),
                None => return None,
                Some(false) => {}
            }
            s.used[g] = false;
            s.map[w] = None;
        }
        Some(false)
    }
    let mut gadj: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    for (a, b) in got.edges.keys() {
        gadj[*a].insert(*b);
        gadj[*b].insert(*a);
    }
    let mut s = S {
        want,
        got,
        order,
        map: vec![None; n],
        used: vec![false; n],
        by,
        cw,
        wadj,
        gdeg: gadj.iter().map(|x| x.len()).collect(),
        steps: 0,
    };
    match go(&mut s, 0) {
        Some(true) => Ok(()),
        Some(false) => Err("no renumbering of the nodes gives the expected edges and edge labels".into()),
        None => {
            sys::probe("isomorphism search gave up");
            Ok(())
        }
    }
}

/// A real graph, renumbered 0.. by position; also checks it against itself.
fn read_back<Id: IdType, Ty: GraphType>(g: &TypedGraphMap<Id, String, String, Ty>) -> Res<Iso> {
    no_panic("querying the imported graph", || {
        let mut num: BTreeMap<usize, usize> = BTreeMap::new();
        let mut labels = Vec::new();
        for id in g.node_indices() {
            ensure!(num.insert(id.id(), labels.len()).is_none(), "nodes", "node {:?} is listed twice", id);
            match g.get_node_label(id) {
                Some(l) => labels.push(l.clone()),
                None => return viol("unlabelled", format!("imported node {:?} has no label", id)),
            }
        }
        ensure!(labels.len() == g.node_count(), "node_count", "node_count() = {}, {} nodes listed", g.node_count(), labels.len());
        let mut r = Iso {
            directed: g.is_directed(),
            labels,
            edges: BTreeMap::new(),
        };
        let mut n = 0;
        for (s, t) in g.edge_indices() {
            n += 1;
            let l = match g.get_edge_label(s, t) {
                Some(l) => l.clone(),
                None => return viol("unlabelled", format!("imported edge {:?}-{:?} has no label", s, t)),
            };
            let (a, b) = match (num.get(&s.id()), num.get(&t.id())) {
                (Some(a), Some(b)) => (*a, *b),
                _ => return viol("dangling", format!("edge {:?}-{:?} without its nodes", s, t)),
            };
            let k = r.key(a, b);
            r.edges.insert(k, [l].into_iter().collect());
        }
        ensure!(n == g.edge_count() && n == r.edges.len(), "edge_count", "edge_count() = {}, {} edges listed", g.edge_count(), n);
        Ok(r)
    })?
}

fn d10() -> Res {
    match draw(6) {
        0 => d10c::<u32, Directed>(),
        1 => d10c::<u32, Undirected>(),
        2 => d10c::<usize, Directed>(),
        3 => d10c::<u16, Undirected>(),
        4 => d10c::<u8, Directed>(),
        _ => d10c::<u8, Undirected>(),
    }
}

fn cell(v: &str) -> String {
    if v.contains(['|', '"', '\n', '\r']) {
        format!("\"{}\"", v.replace('"', "\"\""))
    } else {
        v.to_string()
    }
}

fn d10c<Id: IdType, Ty: GraphType>() -> Res {
    pick_style();
    let tiny = Id::max_usize() < 1000;
    let big = !tiny && chance(40);
    let dir = ["/w/ldbc", "ldbc", "/data/a.csv"][draw(3) as usize];
    sys::vfs_mkdir(dir);
    let crlf = chance(150);
    let eol = if crlf { "\r\n" } else { "\n" };
    let no_final = chance(200);
    // the entities: few ids, shared between kinds
    let nid = if big { 300 + draw(900) } else { 1 + draw(6) };
    // ids alike in their low or high parts, or in their digits, when cut short
    let how = draw(7);
    let ext = move |x: u64| -> u64 {
        match how {
            0 | 1 => x,
            2 => 1_000_000_007 + x,
            3 => (x << 32) + 5,
            4 => (x << 16) + 70_000,
            5 => i64::MAX as u64 - x,
            _ => 10u64.pow(x.min(17) as u32) + x.saturating_sub(17),
        }
    };
    let mut num: BTreeMap<(&'static str, u64), usize> = BTreeMap::new();
    let mut iso = Iso {
        directed: Ty::is_directed(),
        labels: Vec::new(),
        edges: BTreeMap::new(),
    };
    let mut files: Vec<(String, Vec<String>, usize)> = Vec::new(); // name, rows, columns
    let mut rows_total = 0;
    // node files
    for (kind, cols, lab) in [("organisation", 4usize, 1usize), ("place", 4, 3)] {
        if !chance(650) {
            continue;
        }
        let parts = 1 + draw(3) as usize;
        let mut rows: Vec<Vec<String>> = vec![Vec::new(); parts];
        let cnt = if big { nid } else { draw(nid + 1) };
        let mut listed: BTreeMap<u64, String> = BTreeMap::new();
        for i in 0..cnt {
            sys::span(|| {
                let id = if big { i } else { draw(nid) };
                let l = listed.entry(id).or_insert_with(|| label_text(draw(3) as u32)).clone();
                let mut r: Vec<String> = (0..cols).map(|c| format!("x{}{}", c, if chance(100) { "|\"y" } else { "" })).collect();
                r[0] = ext(id).to_string();
                r[lab] = l.clone();
                let r = r.iter().map(|v| cell(v)).collect::<Vec<_>>().join("|");
                rows[draw(parts as u64) as usize].push(r);
                num.entry((kind, id)).or_insert_with(|| {
                    iso.labels.push(l);
                    iso.labels.len() - 1
                });
                rows_total += 1;
            })
        }
        for (p, r) in rows.into_iter().enumerate() {
            let name = if chance(500) { format!("{}_{}_0.csv", kind, p) } else { format!("{}_0_{}.csv", kind, p) };
            if !files.iter().any(|f| f.0 == name) {
                files.push((name, r, cols));
            } else {
                files.push((format!("{}_9_{}.csv", kind, p), r, cols));
            }
        }
    }
    // relation files
    let k = 1 + draw(6);
    let mut chosen: Vec<usize> = Vec::new();
    for _ in 0..k {
        let i = draw(RELS.len() as u64) as usize;
        if !chosen.contains(&i) {
            chosen.push(i);
        }
    }
    // pairs of relations over the same entities
    if chance(150) {
        for i in [6, 7] {
            if !chosen.contains(&i) {
                chosen.push(i);
            }
        }
    }
    for i in chosen {
        let (a, b, l, stem) = RELS[i];
        let parts = 1 + draw(3) as usize;
        let cols = 2 + draw(3) as usize;
        let mut rows: Vec<Vec<String>> = vec![Vec::new(); parts];
        let cnt = if big { 200 + draw(800) } else { draw(6) };
        for _ in 0..cnt {
            sys::span(|| {
                let (x, y) = (draw(nid), draw(nid));
                let mut e = [0usize; 2];
                for (j, (kind, id)) in [(a, x), (b, y)].into_iter().enumerate() {
                    e[j] = *num.entry((kind, id)).or_insert_with(|| {
                        iso.labels.push(kind.to_string());
                        iso.labels.len() - 1
                    });
                }
                let key = iso.key(e[0], e[1]);
                iso.edges.entry(key).or_default().insert(l.to_string());
                let mut r = vec![ext(x).to_string(), ext(y).to_string()];
                for c in 2..cols {
                    r.push(format!("2010-0{}", c));
                }
                if chance(50) {
                    r[0] = format!("\"{}\"", r[0]);
                }
                rows[draw(parts as u64) as usize].push(r.join("|"));
                rows_total += 1;
            })
        }
        for (p, r) in rows.into_iter().enumerate() {
            files.push((format!("{}_0_{}.csv", stem, p), r, cols));
        }
    }
    if tiny && iso.labels.len() > 200 {
        return Ok(());
    }
    let put = |f: &(String, Vec<String>, usize), last: Option<&str>| {
        let head: Vec<String> = (0..f.2).map(|c| format!("c{}", c)).collect();
        let mut s = head.join("|") + eol;
        for r in &f.1 {
            s += r;
            s += eol;
        }
        let mut b = s.into_bytes();
        if let Some(x) = last {
            b.extend_from_slice(x.as_bytes());
        } else if no_final {
            b.truncate(b.len() - eol.len());
        }
        sys::vfs_put(&format!("{}/{}", dir, f.0), &b);
    };
    for f in &files {
        put(f, None);
    }
    // things that are not part of the data
    if chance(300) {
        sys::vfs_put(&format!("{}/readme.txt", dir), b"a|b\nc|d|e\n");
        sys::vfs_put(&format!("{}/person_0_0.csv", dir), b"id|name\n1|x\n2\n");
        sys::vfs_mkdir(&format!("{}/person_knows_person_7_7.csv", dir));
    }
    sys::note(|| format!("{}; {} files", iso.show(), files.len()));
    let direct = chance(850);
    let import = || -> Result<TypedGraphMap<Id, String, String, Ty>, String> {
        if direct {
            SCHEME.from_path::<Id, Ty, _>(dir).map_err(|e| e.to_string())
        } else {
            Ok(read_ldbc_from_path::<Id, Ty, _>(dir))
        }
    };
    const LDBC: May = May { panic: true, eintr: true };
    sys::plan_faults(&[F::Short, F::Latency], false, 300);
    let g = match faulty("LDBC import", LDBC, import)? {
        Out::Done(g) => g,
        _ => return viol("ldbc-import", "import of well-formed files failed"),
    };
    let first = read_back(&g)?;
    if let Err(e) = isomorphic(&iso, &first) {
        return viol("ldbc-graph", format!("the imported graph is not the one in the files: {}; got {}; files: {}", e, first.show(), iso.show()));
    }
    drop(g);
    sys::mark();
    // another listing order
    let g = clean("second LDBC import", import)?;
    let second = read_back(&g)?;
    if let Err(e) = isomorphic(&first, &second) {
        return viol("ldbc-order", format!("two listings of the directory give different graphs: {}; first {}, second {}", e, first.show(), second.show()));
    }
    drop(g);
    if chance(150) && rows_total > 0 {
        // one malformed row
        let nonempty: Vec<usize> = (0..files.len()).collect();
        let i = nonempty[draw(nonempty.len() as u64) as usize];
        let bad = match draw(3) {
            0 => "1".to_string(),
            1 => vec!["1"; files[i].2 + 1].join("|"),
            _ => String::new(),
        };
        if bad.is_empty() {
            // invalid text
            put(&files[i], Some("1|"));
            let p = format!("{}/{}", dir, files[i].0);
            let mut d = sys::vfs_get(&p).unwrap();
            d.extend_from_slice(b"\xff\xfe");
            for _ in 2..files[i].2 {
                d.extend_from_slice(b"|3");
            }
            sys::vfs_put(&p, &d);
        } else {
            put(&files[i], Some(&bad));
        }
        sys::arm(false);
        let r = attempt(import);
        ensure!(
            !matches!(r, Ok(Ok(_))),
            "malformed-accepted",
            "a malformed row in {} was imported without any error",
            files[i].0
        );
        sys::probe("malformed row refused");
        put(&files[i], None);
    }
    // failures
    for _ in 0..1 + draw(3) {
        sys::plan_faults(&[F::Eio, F::Eintr, F::Short, F::Eacces, F::Emfile, F::Enomem, F::Latency], false, 50);
        sys::replan_at(8 + 6 * files.len() as u64);
        match faulty("LDBC import", LDBC, import)? {
            Out::Done(g) => {
                let got = read_back(&g)?;
                if let Err(e) = isomorphic(&first, &got) {
                    return viol("ldbc-partial", format!("an import that met failures reported success with another graph: {}; got {}, expected {}", e, got.show(), first.show()));
                }
            }
            Out::Failed(_) => sys::probe("import failed loudly"),
            Out::Crashed => return Ok(()),
        }
        sys::heal();
        sys::mark();
    }
    sys::heal();
    let n = sys::open_fds();
    ensure!(n == 0, "open-files", "{} files are still open", n);
    let g = clean("repeated LDBC import", import)?;
    let got = read_back(&g)?;
    if let Err(e) = isomorphic(&first, &got) {
        return viol("ldbc-retry", format!("after the failures stopped the import gives another graph: {}", e));
    }
    Ok(())
}
