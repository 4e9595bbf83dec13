//! Shared vocabulary of the property runs.

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering};

/// A broken property.  `class` identifies the kind of failure while a failing
/// run is minimised; `msg` describes this occurrence.
#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Viol>;

pub fn viol<T>(class: impl Into<String>, msg: impl Into<String>) -> Res<T> {
    Err(Viol {
        class: class.into(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => {
        if !($c) { return $crate::core::viol($class, format!($($a)*)); }
    };
}

thread_local! {
    pub static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if crate::sys::in_sim() || QUIET.with(|q| q.get()) {
            let loc = i
                .location()
                .map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line()))
                .unwrap_or_default();
            let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        } else {
            def(i);
        }
    }));
}
thread_local! { pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

/// Run code of the system under test; a panic comes back as Err(where: what).
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| {
            p.borrow_mut()
                .take()
                .map(|(l, m)| format!("{} ({})", m, l))
                .unwrap_or_else(|| "panic".into())
        })),
    }
}
/// As `attempt`, where a panic is a violation.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    match attempt(f) {
        Ok(v) => Ok(v),
        Err(e) => viol(format!("panic:{}", what), format!("{} panicked: {}", what, e)),
    }
}

// ----------------------------------------------------------------- labels --

/// How label texts look in this run.
pub static STYLE: AtomicU32 = AtomicU32::new(0);
pub const STYLES: u64 = 20;
pub fn set_style(s: u64) {
    STYLE.store(s as u32, Ordering::Relaxed)
}
pub fn label_text(k: u32) -> String {
    styled(STYLE.load(Ordering::Relaxed), k)
}
fn styled(style: u32, k: u32) -> String {
    match style {
        0 => format!("l{}", k),
        1 => format!("a,b{}", k),
        2 => format!("say \"{}\"", k),
        3 => format!("line\n{}", k),
        4 => format!("{}\r", k),
        5 => format!("{}", 1000 + k),
        6 => format!(" {} ", k),
        7 => format!("\u{e9}\u{4e2d}\u{1f600}{}", k),
        8 => format!("{}-{}", k, "x".repeat(40 + (k as usize * 37) % 300)),
        9 => format!("tab\t{};|", k),
        10 => format!("\"{}", k),
        11 => format!("#{}", k),
        12 => format!("\u{feff}{}", k),
        13 => {
            let w = ["null", "true", "NaN", "None", "inf", "-0", "0x1f", "id", "()"][k as usize % 9];
            if k < 9 {
                w.into()
            } else {
                format!("{}{}", w, k)
            }
        }
        14 => format!("a\r\nb{}", k),
        15 => format!("\\{}\\\"", k),
        16 => format!("{}\n", k),
        // longer than the buffers of readers and writers
        17 => format!("{}{}", k, "y".repeat(if k == 0 { 8190 + STYLE.load(Ordering::Relaxed) as usize } else { 3 })),
        // some of each
        18 => format!("{}.{}", styled(k % 18, k), k),
        _ => format!(":LABEL{}", k),
    }
}

use serde::de::DeserializeOwned;
use serde::Serialize;
use std::fmt::Debug;
use std::hash::Hash;

pub trait LabT: Hash + Eq + Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static {
    /// number of distinct labels this type offers
    const MAX: u32;
    fn mk(k: u32) -> Self;
    fn text(&self) -> String;
}
impl LabT for String {
    const MAX: u32 = 100_000;
    fn mk(k: u32) -> String {
        label_text(k)
    }
    fn text(&self) -> String {
        self.clone()
    }
}
impl LabT for u32 {
    const MAX: u32 = 100_000;
    fn mk(k: u32) -> u32 {
        if k == 3 {
            u32::MAX
        } else {
            k * 7
        }
    }
    fn text(&self) -> String {
        self.to_string()
    }
}
impl LabT for () {
    const MAX: u32 = 0;
    fn mk(_: u32) {}
    fn text(&self) -> String {
        "()".into()
    }
}

use rust_graph::generic::IdType;
pub trait IdT: IdType + DeserializeOwned {}
impl<T: IdType + DeserializeOwned> IdT for T {}

/// A user-defined label type whose code may panic when the fault plan says so.
#[derive(Debug)]
pub struct PL(pub u32);
impl Serialize for PL {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        crate::sys::user_code("label serialize");
        self.0.serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for PL {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<PL, D::Error> {
        crate::sys::user_code("label deserialize");
        Ok(PL(u32::deserialize(d)?))
    }
}
impl Hash for PL {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        crate::sys::user_code("label hash");
        // few distinct values: lookups have to compare
        (self.0 % 3).hash(h)
    }
}
impl PartialEq for PL {
    fn eq(&self, o: &PL) -> bool {
        crate::sys::user_code("label ==");
        self.0 == o.0
    }
}
impl Eq for PL {}
impl Clone for PL {
    fn clone(&self) -> PL {
        crate::sys::user_code("label clone");
        PL(self.0)
    }
}
impl LabT for PL {
    const MAX: u32 = 1000;
    fn mk(k: u32) -> PL {
        PL(k * 2 + 1)
    }
    fn text(&self) -> String {
        self.0.to_string()
    }
}

/// Goes to another thread whatever it is made of.  What graphs may really be
/// shared is `Cfg::SHARED`; nothing else is ever used by two threads at a time.
pub struct Free<T>(T);
unsafe impl<T> Send for Free<T> {}
unsafe impl<T> Sync for Free<T> {}
impl<T> Free<T> {
    pub fn new(t: T) -> Free<T> {
        Free(t)
    }
    pub fn get(&self) -> &T {
        &self.0
    }
    pub fn take(self) -> T {
        self.0
    }
}
