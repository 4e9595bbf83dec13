//! H03: label maps give dense, stable, consistent ids.

use super::binary::s;
use super::hist::shaky;
use super::*;
use rust_graph::io::serde::{Deserialize, Deserializer, Serialize, Serializer};
use rust_graph::map::{SetMap, VecMap};
use rust_graph::{setmap, vecmap};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub const H03: Prop = Prop {
    id: "H03",
    run: h03,
    quick: 300_000,
    thorough: 8_000_000,
    rule: "A run keeps one to three label maps (SetMap or VecMap over strings, numbers or labels with panicking and colliding code) and applies up to 120 operations: add, pop, clear, shrink, constructors, macros, iterators, conversions between the kinds, clones, save and load with storage faults; user label code panics at drawn calls. Every returned id is compared with a list model's; after drawn steps, after every panic and at the end all lookups by id and by value are; pairs of maps must be equal, with equal hashes, exactly when their lists are.",
    real: "SetMap, VecMap, indexmap, serde, bincode; hash seeds from the simulated entropy source, files in the simulated kernel",
    assumes: &["VecMap is built from vectors without repetitions (it stores what it is given)"],
};

fn h03() -> Res {
    match pick(&[3, 2, 5]) {
        0 => h03t::<String>(),
        1 => h03t::<u32>(),
        _ => h03t::<PL>(),
    }
}

enum Map<T: LabT> {
    Set(SetMap<T>),
    Vec(VecMap<T>),
}
impl<T: LabT> Clone for Map<T> {
    fn clone(&self) -> Self {
        match self {
            Map::Set(x) => Map::Set(x.clone()),
            Map::Vec(x) => Map::Vec(x.clone()),
        }
    }
}
macro_rules! on {
    ($m:expr, $x:ident => $e:expr) => {
        match $m {
            Map::Set($x) => $e,
            Map::Vec($x) => $e,
        }
    };
}
struct One<T: LabT> {
    map: Map<T>,
    list: Vec<u32>,
}

fn h<T: Hash>(x: &T) -> u64 {
    let mut d = DefaultHasher::new();
    x.hash(&mut d);
    d.finish()
}
fn mk<T: LabT>(v: &[u32]) -> Vec<T> {
    v.iter().map(|k| T::mk(*k)).collect()
}
fn dedup(v: &[u32]) -> Vec<u32> {
    let mut r = Vec::new();
    for k in v {
        if !r.contains(k) {
            r.push(*k);
        }
    }
    r
}

/// What the map lists.
fn listed<T: LabT>(m: &Map<T>) -> Vec<String> {
    on!(m, x => x.items().map(|l| l.text()).collect())
}
fn texts<T: LabT>(v: &[u32]) -> Vec<String> {
    v.iter().map(|k| T::mk(*k).text()).collect()
}

fn check<T: LabT>(o: &One<T>, pal: u64, who: &str) -> Res {
    sys::arm(false);
    no_panic("querying a label map", || {
        let got = listed(&o.map);
        let want = texts::<T>(&o.list);
        ensure!(got == want, "items", "{}: items {:?}, expected {:?}", who, got, want);
        let n = on!(&o.map, x => x.len());
        ensure!(n == want.len(), "len", "{}: len() = {} with {} items", who, n, want.len());
        let e = on!(&o.map, x => x.is_empty());
        ensure!(e == want.is_empty(), "len", "{}: is_empty() = {} with {} items", who, e, want.len());
        for i in 0..n + 3 {
            let t = on!(&o.map, x => x.get_item(i)).map(|l| l.text());
            ensure!(t.as_ref() == want.get(i), "get_item", "{}: get_item({}) = {:?}, expected {:?}", who, i, t, want.get(i));
        }
        let ks: Vec<u32> = if n > 40 { o.list.iter().copied().chain(0..pal as u32 + 5).collect() } else { (0..pal as u32 + 5).collect() };
        for k in ks {
            let l = T::mk(k);
            let f = on!(&o.map, x => x.find_index(&l));
            let w = o.list.iter().position(|x| *x == k);
            ensure!(f == w, "find_index", "{}: find_index({:?}) = {:?}, expected {:?}", who, l, f, w);
            let c = on!(&o.map, x => x.contains(&l));
            ensure!(c == w.is_some(), "contains", "{}: contains({:?}) = {}", who, l, c);
        }
        sys::mark();
        Ok(())
    })?
}

/// The operation was interrupted: one of these lists must be there.
fn settle<T: LabT>(o: &mut One<T>, cands: &[Vec<u32>], what: &str) -> Res {
    let got = no_panic("querying a label map", || listed(&o.map))?;
    for c in cands {
        if texts::<T>(c) == got {
            o.list = c.clone();
            return Ok(());
        }
    }
    viol(
        format!("interrupted:{}", what),
        format!("{} interrupted by a panic in label code leaves {:?}, allowed: {:?}", what, got, cands.iter().map(|c| texts::<T>(c)).collect::<Vec<_>>()),
    )
}

/// faults and their lasting effects so far
fn trouble() -> u64 {
    sys::fired_total() + sys::hard().0
}

fn some_keys(pal: u64) -> Vec<u32> {
    let n = draw(9);
    (0..n).map(|_| draw(pal) as u32).collect()
}

fn fresh<T: LabT>(pal: u64) -> Res<One<T>> {
    let v = some_keys(pal);
    let d = dedup(&v);
    let cap = draw(20) as usize;
    let k = draw(13);
    sys::note(|| format!("new map: way {} of {:?}", k, v));
    let salt = draw(1 << 16);
    let r = no_panic("making a label map", || -> Res<One<T>> {
        Ok(match k {
            0 => One { map: Map::Set(SetMap::new()), list: vec![] },
            1 => One { map: Map::Vec(VecMap::new()), list: vec![] },
            2 => One { map: Map::Set(SetMap::with_capacity(cap)), list: vec![] },
            3 => One { map: Map::Vec(VecMap::with_capacity(cap)), list: vec![] },
            4 => One { map: Map::Set(SetMap::from_vec(mk(&v))), list: d },
            5 => One { map: Map::Vec(VecMap::with_data(mk(&d))), list: d },
            6 => One { map: Map::Set(SetMap::from(mk(&v))), list: d },
            7 => One { map: Map::Set(SetMap::from(&mk::<T>(&v))), list: d },
            8 => One { map: Map::Vec(if cap % 2 == 0 { VecMap::from(mk(&d)) } else { VecMap::from(&mk::<T>(&d)) }), list: d },
            9 => One { map: Map::Set(mk::<T>(&v).into_iter().collect()), list: d },
            10 => One { map: Map::Vec(mk::<T>(&v).into_iter().collect()), list: d },
            11 => {
                let (a, b, c) = (draw(pal) as u32, draw(pal) as u32, draw(pal) as u32);
                let l = dedup(&[a, b, c]);
                if cap % 2 == 0 {
                    One { map: Map::Set(setmap![T::mk(a), T::mk(b), T::mk(c)]), list: l }
                } else {
                    One { map: Map::Vec(vecmap![T::mk(a), T::mk(b), T::mk(c)]), list: l }
                }
            }
            _ => {
                // with the hash seeds of another thread
                let m = in_new_thread(salt, || Ok(SetMap::from_vec(mk::<T>(&v))))?;
                One { map: Map::Set(m), list: d }
            }
        })
    })??;
    if chance(50) {
        return Ok(One {
            map: if chance(500) { Map::Set(SetMap::default()) } else { Map::Vec(VecMap::default()) },
            list: vec![],
        });
    }
    Ok(r)
}

fn step<T: LabT>(o: &mut One<T>, pal: u64) -> Res {
    match pick(&[12, 5, 1, 2, 3, 2, 1]) {
        0 => {
            let k = draw(pal) as u32;
            let mut after = o.list.clone();
            let want = match after.iter().position(|x| *x == k) {
                Some(i) => i,
                None => {
                    after.push(k);
                    after.len() - 1
                }
            };
            sys::note(|| format!("add_item({})", k));
            let item = T::mk(k);
            let r = on!(&mut o.map, x => shaky("add_item", || x.add_item(item)))?;
            match r {
                Some(i) => {
                    ensure!(i == want, "ret:add_item", "add_item({:?}) = {}, expected {} ({:?} before)", T::mk(k), i, want, texts::<T>(&o.list));
                    o.list = after;
                }
                None => {
                    let c = [o.list.clone(), after];
                    settle(o, &c, "add_item")?
                }
            }
        }
        1 => {
            sys::note(|| "pop_item".into());
            let before = o.list.clone();
            let want = o.list.pop();
            let r = on!(&mut o.map, x => shaky("pop_item", || x.pop_item()))?;
            match r {
                Some(t) => {
                    let (t, w) = (t.map(|l| l.text()), want.map(|k| T::mk(k).text()));
                    ensure!(t == w, "ret:pop_item", "pop_item() = {:?}, expected {:?}", t, w);
                }
                None => {
                    let c = [before, o.list.clone()];
                    settle(o, &c, "pop_item")?
                }
            }
        }
        2 => {
            sys::note(|| "clear".into());
            no_panic("clear", || on!(&mut o.map, x => x.clear()))?;
            o.list.clear();
        }
        3 => {
            sys::note(|| "shrink or rebuild from items_vec".into());
            let items = match &mut o.map {
                Map::Vec(x) if chance(500) => {
                    no_panic("shrink_to_fit", || x.shrink_to_fit())?;
                    return Ok(());
                }
                Map::Set(x) => x.clone().items_vec(),
                Map::Vec(x) => x.clone().items_vec(),
            };
            let got: Vec<String> = items.iter().map(|l| l.text()).collect();
            ensure!(got == texts::<T>(&o.list), "items", "items_vec() = {:?}, expected {:?}", got, texts::<T>(&o.list));
            let set = chance(500);
            o.map = if set { Map::Set(SetMap::from_vec(items)) } else { Map::Vec(VecMap::with_data(items)) };
        }
        4 => {
            // to the other kind
            let by_ref = chance(500);
            sys::note(|| format!("converted {}", if by_ref { "by reference" } else { "by value" }));
            if by_ref {
                let r = match &o.map {
                    Map::Set(x) => shaky("conversion", || Map::Vec(VecMap::from(x)))?,
                    Map::Vec(x) => shaky("conversion", || Map::Set(SetMap::from(x)))?,
                };
                if let Some(m) = r {
                    o.map = m;
                }
            } else {
                let m = o.map.clone();
                let r = match m {
                    Map::Set(x) => shaky("conversion", || Map::Vec(VecMap::from(x)))?,
                    Map::Vec(x) => shaky("conversion", || Map::Set(SetMap::from(x)))?,
                };
                if let Some(m) = r {
                    o.map = m;
                }
            }
        }
        5 => {
            sys::note(|| "saved and loaded".into());
            let p = format!("m{}", draw(3));
            let direct = chance(300);
            let ex = || -> Result<(), String> {
                match (&o.map, direct) {
                    (Map::Set(x), false) => x.export(&p),
                    (Map::Vec(x), false) => x.export(&p),
                    (Map::Set(x), true) => Serializer::export(x, &p),
                    (Map::Vec(x), true) => Serializer::export(x, &p),
                }
                .map_err(s)
            };
            sys::replan_at(8);
            // label code may panic inside
            let n0 = trouble();
            sys::arm(true);
            let r = attempt(ex);
            sys::arm(false);
            let fired = trouble() > n0;
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => {
                    ensure!(fired, "error:export", "saving a label map failed although nothing below it failed: {}", e);
                    sys::probe("saving failed under a fault");
                    return Ok(());
                }
                Err(e) => {
                    ensure!(fired, "panic:export", "saving a label map panicked: {}", e);
                    sys::probe("saving interrupted by a panic in user code");
                    return Ok(());
                }
            }
            let set = matches!(o.map, Map::Set(_));
            let im = || -> Result<Map<T>, String> {
                Ok(match (set, direct) {
                    (true, false) => Map::Set(SetMap::import(&p).map_err(s)?),
                    (false, false) => Map::Vec(VecMap::import(&p).map_err(s)?),
                    (true, true) => Map::Set(Deserializer::import(&p).map_err(s)?),
                    (false, true) => Map::Vec(Deserializer::import(&p).map_err(s)?),
                })
            };
            sys::replan_at(8);
            let n0 = trouble();
            sys::arm(true);
            let r = attempt(im);
            sys::arm(false);
            let fired = trouble() > n0;
            let m = match r {
                Ok(Ok(m)) => m,
                Ok(Err(e)) => {
                    ensure!(fired, "error:import", "loading a label map failed although nothing below it failed: {}", e);
                    sys::probe("loading failed under a fault");
                    sys::heal();
                    clean("import", im)?
                }
                Err(e) => {
                    ensure!(fired, "panic:import", "loading a label map panicked: {}", e);
                    sys::probe("loading interrupted by a panic in user code");
                    sys::heal();
                    clean("import", im)?
                }
            };
            o.map = m;
        }
        _ => {
            // many items at once
            let n = 30 + draw(300) as u32;
            let base = 20 + draw(3) as u32 * 100;
            sys::note(|| format!("{} items from {}", n, base));
            for k in base..base + n {
                let want = match o.list.iter().position(|x| *x == k) {
                    Some(i) => i,
                    None => {
                        o.list.push(k);
                        o.list.len() - 1
                    }
                };
                let item = T::mk(k);
                let i = on!(&mut o.map, x => no_panic("add_item", || x.add_item(item)))?;
                ensure!(i == want, "ret:add_item", "add_item({:?}) = {}, expected {}", T::mk(k), i, want);
            }
            if chance(500) {
                let keep = draw(n as u64) as usize;
                for _ in 0..n as usize - keep {
                    let w = o.list.pop().map(|k| T::mk(k).text());
                    let t = on!(&mut o.map, x => no_panic("pop_item", || x.pop_item()))?.map(|l| l.text());
                    ensure!(t == w, "ret:pop_item", "pop_item() = {:?}, expected {:?}", t, w);
                }
            }
        }
    }
    Ok(())
}

fn compare<T: LabT>(a: &One<T>, b: &One<T>) -> Res {
    let want = a.list == b.list;
    let who = || format!("{:?} and {:?}", texts::<T>(&a.list), texts::<T>(&b.list));
    macro_rules! cmp {
        ($x:expr, $y:expr) => {{
            if let Some((p, q)) = shaky("==", || ($x == $y, $y == $x))? {
                ensure!(p == want && q == want, "eq", "maps {}: == is {} and {}", who(), p, q);
            }
            if want {
                if let Some((p, q)) = shaky("hash", || (h($x), h($y)))? {
                    ensure!(p == q, "hash", "maps {}: equal, but the hashes are {:x} and {:x}", who(), p, q);
                }
            }
        }};
    }
    match (&a.map, &b.map) {
        (Map::Set(x), Map::Set(y)) => cmp!(x, y),
        (Map::Vec(x), Map::Vec(y)) => cmp!(x, y),
        // of different kinds: after a conversion
        (Map::Set(x), Map::Vec(y)) | (Map::Vec(y), Map::Set(x)) => {
            let (v, w) = no_panic("conversion", || (VecMap::from(x), SetMap::from(y)))?;
            cmp!(&v, y);
            cmp!(&w, x);
        }
    }
    sys::mark();
    Ok(())
}

fn h03t<T: LabT>() -> Res {
    pick_style();
    let mut kinds = vec![F::Panic];
    if chance(400) {
        kinds.extend(ALL_FAULTS);
    }
    sys::plan_faults(&kinds, false, 400);
    if chance(50) {
        sys::set_cap(Some(draw(2000)));
    }
    let pal = if chance(150) { 15 } else { 1 + draw(6) };
    let mut maps: Vec<One<T>> = vec![fresh(pal)?];
    let steps = match pick(&[5, 3, 1]) {
        0 => 1 + draw(12),
        1 => 8 + draw(30),
        _ => 40 + draw(80),
    };
    for _ in 0..steps {
        sys::span(|| -> Res {
            let i = draw(maps.len() as u64) as usize;
            let n0 = sys::fired_total();
            match pick(&[30, 2, 2, 3]) {
                0 => step(&mut maps[i], pal)?,
                1 => {
                    let m = fresh(pal)?;
                    if maps.len() < 3 {
                        maps.push(m);
                    } else {
                        maps[i] = m;
                    }
                }
                2 => {
                    let src = &maps[i];
                    if let Some(m) = shaky("clone", || src.map.clone())? {
                        sys::note(|| format!("map {} cloned", i));
                        let c = One { map: m, list: src.list.clone() };
                        if maps.len() < 3 {
                            maps.push(c);
                        } else {
                            let j = draw(3) as usize;
                            maps[j] = c;
                        }
                    }
                }
                _ => {
                    let j = draw(maps.len() as u64) as usize;
                    compare(&maps[i], &maps[j])?;
                }
            }
            let i = i.min(maps.len() - 1);
            if sys::fired_total() > n0 || chance(250) {
                check(&maps[i], pal, &format!("map {}", i))?;
            }
            Ok(())
        })?;
    }
    sys::heal();
    for i in 0..maps.len() {
        check(&maps[i], pal, &format!("map {} at the end", i))?;
        for j in 0..=i {
            compare(&maps[i], &maps[j])?;
        }
        // the same list made another way is the same map
        let l = maps[i].list.clone();
        let salt = draw(1 << 16);
        let other = in_new_thread(salt, || {
            Ok(One {
                map: if chance(500) { Map::Set(mk::<T>(&l).into_iter().collect()) } else { Map::Vec(mk::<T>(&l).into_iter().collect()) },
                list: l.clone(),
            })
        })?;
        compare(&maps[i], &other)?;
        if l.len() > 1 {
            let (a, b) = (draw(l.len() as u64) as usize, draw(l.len() as u64) as usize);
            let mut x = l.clone();
            match draw(3) {
                0 => x.swap(a, b),
                1 => {
                    x.remove(a);
                }
                _ => x[a] = 90,
            }
            let x = dedup(&x);
            let other = One { map: Map::Set(SetMap::from_vec(mk::<T>(&x))), list: x };
            compare(&maps[i], &other)?;
        }
    }
    Ok(())
}
