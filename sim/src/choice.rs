//! Every decision of a run is one entry of one of three choice streams.  In
//! generation mode an entry comes from a PRNG seeded from the run seed; in
//! replay mode it comes from a recorded list, and is 0 ("nothing unusual")
//! beyond the end of the list.  The recorded lists are what gets minimised.

pub const WORK: usize = 0; // workload: configuration, inputs, operations
pub const FAULT: usize = 1; // which storage/entropy operation fails, and how
pub const SCHED: usize = 2; // which client runs next

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93).rotate_left(17));
    r.next() ^ b
}

pub fn hash_str(h: u64, s: &str) -> u64 {
    let mut h = h ^ 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h ^ (h >> 29)
}

#[derive(Clone, Default)]
pub struct Stream {
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
}

#[derive(Clone)]
pub struct Choices {
    pub replay: Option<[Vec<u64>; 3]>,
    rng: [Rng; 3],
    pub st: [Stream; 3],
    /// every choice is also appended to this descriptor
    pub log: Option<i32>,
}

impl Choices {
    pub fn gen(seed: u64) -> Choices {
        Choices {
            replay: None,
            rng: [
                Rng::new(mix(seed, 1)),
                Rng::new(mix(seed, 2)),
                Rng::new(mix(seed, 3)),
            ],
            st: Default::default(),
            log: None,
        }
    }
    pub fn replay(rec: [Vec<u64>; 3]) -> Choices {
        let mut c = Choices::gen(0);
        c.replay = Some(rec);
        c
    }
    /// A value in [0, n); in generation mode computed by `f`.
    #[inline]
    pub fn draw_with(&mut self, s: usize, n: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(r) => {
                let v = r[s].get(self.st[s].rec.len()).copied().unwrap_or(0);
                if v >= n {
                    n - 1
                } else {
                    v
                }
            }
            None => f(&mut self.rng[s]).min(n - 1),
        };
        self.st[s].rec.push(v);
        if let Some(fd) = self.log {
            let mut b = [s as u8; 9];
            b[1..].copy_from_slice(&v.to_le_bytes());
            crate::sys::real_write(fd, &b);
        }
        v
    }
    pub fn draw(&mut self, s: usize, n: u64) -> u64 {
        self.draw_with(s, n, |r| r.below(n))
    }
    pub fn open(&mut self, s: usize) {
        let p = self.st[s].rec.len();
        self.st[s].open.push(p);
    }
    pub fn close(&mut self, s: usize) {
        if let Some(a) = self.st[s].open.pop() {
            let b = self.st[s].rec.len();
            if b > a {
                self.st[s].spans.push((a, b));
            }
        }
    }
    pub fn recs(&self) -> [Vec<u64>; 3] {
        [
            self.st[0].rec.clone(),
            self.st[1].rec.clone(),
            self.st[2].rec.clone(),
        ]
    }
}
