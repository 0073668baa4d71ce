//! Hashers with which every 64-bit hash value can be produced at will.
use serde::{Deserialize, Serialize};
use std::hash::{BuildHasher, Hasher};

/// Mixes everything that is written into it, one invertible step per write, so
/// that every hash can be produced by one u64, one 16-digit hexadecimal string
/// or one 8-byte slice, and any other sequence of writes gives another hash.
pub struct Uni {
    state: u64,
}

/// What goes wrong next, and after how many times.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    None,
    Build,
    Write,
    Finish,
    Save,
    Clone,
}
thread_local! {
    static FAULT: std::cell::Cell<Fault> = const { std::cell::Cell::new(Fault::None) };
}
pub fn set_fault(f: Fault) {
    FAULT.with(|c| c.set(f));
}
fn faulty(f: Fault) -> bool {
    FAULT.with(|c| c.get() == f)
}
#[inline]
fn maybe(f: Fault) {
    if faulty(f) {
        std::panic::resume_unwind(Box::new("asked for"));
    }
}

const K: u64 = 0x9E37_79B9_7F4A_7C15;
const KINV: u64 = {
    let mut x = K;
    let mut i = 0;
    while i < 6 {
        x = x.wrapping_mul(2u64.wrapping_sub(K.wrapping_mul(x)));
        i += 1;
    }
    x
};

fn step(state: u64, word: u64) -> u64 {
    (state.rotate_left(9) ^ word).wrapping_mul(K)
}

/// The state before a step, and the word of a step.
fn state_before(after: u64, word: u64) -> u64 {
    (after.wrapping_mul(KINV) ^ word).rotate_right(9)
}
fn word_between(before: u64, after: u64) -> u64 {
    after.wrapping_mul(KINV) ^ before.rotate_left(9)
}

/// The u64 with hash h under this key.
pub fn value_u64(key: u64, h: u64) -> u64 {
    word_between(key, h)
}
/// The number whose 16 hexadecimal digits, as a str, have hash h.
pub fn value_str(key: u64, h: u64) -> u64 {
    word_between(key, state_before(h, 0xff))
}
/// The number whose 8 bytes, as a slice, have hash h.
pub fn value_bytes(key: u64, h: u64) -> u64 {
    word_between(step(key, 8), h)
}

impl Hasher for Uni {
    fn finish(&self) -> u64 {
        maybe(Fault::Finish);
        self.state
    }
    fn write(&mut self, bytes: &[u8]) {
        maybe(Fault::Write);
        let hex = if bytes.len() == 16 {
            std::str::from_utf8(bytes).ok().and_then(|s| u64::from_str_radix(s, 16).ok())
        } else {
            None
        };
        let word = match hex {
            Some(w) => w,
            None if bytes.len() == 8 => {
                let mut b = [0u8; 8];
                b.copy_from_slice(bytes);
                u64::from_be_bytes(b)
            }
            None => bytes.iter().fold(0xcbf2_9ce4_8422_2325, |a, b| (a ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3)),
        };
        self.state = step(self.state, word);
    }
    fn write_u8(&mut self, i: u8) {
        maybe(Fault::Write);
        self.state = step(self.state, u64::from(i));
    }
    fn write_u16(&mut self, i: u16) {
        maybe(Fault::Write);
        self.state = step(self.state, u64::from(i));
    }
    fn write_u32(&mut self, i: u32) {
        maybe(Fault::Write);
        self.state = step(self.state, u64::from(i));
    }
    fn write_u64(&mut self, i: u64) {
        maybe(Fault::Write);
        self.state = step(self.state, i);
    }
    fn write_usize(&mut self, i: usize) {
        maybe(Fault::Write);
        self.state = step(self.state, i as u64);
    }
}

/// Refuses to start when the formulas above do not hold.
pub fn assert_invertible() {
    for key in [0, 77, u64::MAX, 0x1234_5678_9abc_def0] {
        for h in [0, 1, u64::MAX, 0xfedc_ba98_7654_3210] {
            let b = Keyed { key };
            assert_eq!(b.hash_one(value_u64(key, h)), h);
            assert_eq!(b.hash_one(format!("{:016x}", value_str(key, h)).as_str()), h);
            assert_eq!(b.hash_one(value_bytes(key, h).to_be_bytes().to_vec()), h);
            assert_eq!(b.hash_one(&value_bytes(key, h).to_be_bytes()[..]), h);
        }
    }
}

/// Carries a key, which must survive cloning and saving.
#[derive(Debug, Serialize, Deserialize)]
pub struct Keyed {
    #[serde(serialize_with = "save_key")]
    pub key: u64,
}

fn save_key<S: serde::Serializer>(key: &u64, s: S) -> Result<S::Ok, S::Error> {
    if faulty(Fault::Save) {
        return Err(serde::ser::Error::custom("asked for"));
    }
    s.serialize_u64(*key)
}

impl Clone for Keyed {
    fn clone(&self) -> Keyed {
        maybe(Fault::Clone);
        Keyed { key: self.key }
    }
}

/// An element that cannot be hashed to its end.
pub struct Bomb(pub u64);

impl std::hash::Hash for Bomb {
    fn hash<H: Hasher>(&self, state: &mut H) {
        for _ in 0..self.0 {
            self.0.hash(state);
        }
        std::panic::resume_unwind(Box::new("asked for"));
    }
}

impl BuildHasher for Keyed {
    type Hasher = Uni;
    fn build_hasher(&self) -> Uni {
        maybe(Fault::Build);
        Uni { state: self.key }
    }
}

/// Another hasher type: no state.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plain;

impl BuildHasher for Plain {
    type Hasher = Uni;
    fn build_hasher(&self) -> Uni {
        maybe(Fault::Build);
        Uni { state: 0 }
    }
}

/// SplitMix64.
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9abc_def0);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0 <= result < n
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// lo <= result <= hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, percent: u64) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}
