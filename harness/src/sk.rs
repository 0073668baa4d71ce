//! The sketches under test, behind one enum.  Only the public API is used.
use crate::hashers::*;
#[cfg(feature = "std")]
use hyperloglogplus::HyperLogLogPlus;
use hyperloglogplus::{HyperLogLog, HyperLogLogError, HyperLogLogPF};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Plus,
    PF,
}

/// Element and hasher types.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    U64,
    Str,
    Bytes,
    /// Elements without a size of their own.
    Slice,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Api {
    Insert,
    Add,
    Any,
    AnyOther,
    Borrowed,
}

/// Ways to save and reload.
pub const FORMATS: u64 = 7;

pub enum Sk {
    #[cfg(feature = "std")]
    PlusU(HyperLogLogPlus<u64, Keyed>, u64),
    #[cfg(feature = "std")]
    PlusS(HyperLogLogPlus<String, Plain>),
    #[cfg(feature = "std")]
    PlusB(HyperLogLogPlus<Vec<u8>, Keyed>, u64),
    #[cfg(feature = "std")]
    PlusD(HyperLogLogPlus<[u8], Keyed>, u64),
    PfU(HyperLogLogPF<u64, Keyed>, u64),
    PfS(HyperLogLogPF<String, Plain>),
    PfB(HyperLogLogPF<Vec<u8>, Keyed>, u64),
    PfD(HyperLogLogPF<[u8], Keyed>, u64),
}

pub fn err_name(e: &HyperLogLogError) -> String {
    // Compared with ==, and the message read, as a user would.
    let name = if format!("{:?}", e).is_empty() || e.to_string().is_empty() {
        "no message"
    } else if *e == HyperLogLogError::InvalidPrecision {
        "InvalidPrecision"
    } else if *e == HyperLogLogError::IncompatiblePrecision {
        "IncompatiblePrecision"
    } else {
        "other"
    };
    name.to_string()
}

macro_rules! all {
    ($self:expr, $s:ident => $e:expr) => {
        match $self {
            #[cfg(feature = "std")]
            Sk::PlusU($s, _) => $e,
            #[cfg(feature = "std")]
            Sk::PlusS($s) => $e,
            #[cfg(feature = "std")]
            Sk::PlusB($s, _) => $e,
            #[cfg(feature = "std")]
            Sk::PlusD($s, _) => $e,
            Sk::PfU($s, _) => $e,
            Sk::PfS($s) => $e,
            Sk::PfB($s, _) => $e,
            Sk::PfD($s, _) => $e,
        }
    };
}

/// A 16-digit string.
fn text(w: u64) -> String {
    format!("{:016x}", w)
}
fn octets(w: u64) -> Vec<u8> {
    w.to_be_bytes().to_vec()
}

macro_rules! ins_u {
    ($s:expr, $k:expr, $h:expr, $api:expr) => {{
        let v = value_u64($k, $h);
        match $api {
            Api::Insert | Api::Borrowed => $s.insert(&v),
            #[allow(deprecated)]
            Api::Add => $s.add(&v),
            Api::Any => $s.insert_any(&v),
            Api::AnyOther => $s.insert_any(text(value_str($k, $h)).as_str()),
        }
    }};
}
macro_rules! ins_s {
    ($s:expr, $k:expr, $h:expr, $api:expr) => {{
        match $api {
            Api::Insert => $s.insert(&text(value_str($k, $h))),
            #[allow(deprecated)]
            Api::Add => $s.add(&text(value_str($k, $h))),
            Api::Any => $s.insert_any(&text(value_str($k, $h))),
            Api::AnyOther => $s.insert_any(&value_u64($k, $h)),
            Api::Borrowed => $s.insert::<str>(text(value_str($k, $h)).as_str()),
        }
    }};
}
macro_rules! ins_b {
    ($s:expr, $k:expr, $h:expr, $api:expr) => {{
        match $api {
            Api::Insert => $s.insert(&octets(value_bytes($k, $h))),
            #[allow(deprecated)]
            Api::Add => $s.add(&octets(value_bytes($k, $h))),
            Api::Any => $s.insert_any(&octets(value_bytes($k, $h))),
            Api::AnyOther => $s.insert_any(&value_u64($k, $h)),
            Api::Borrowed => $s.insert::<[u8]>(octets(value_bytes($k, $h)).as_slice()),
        }
    }};
}
macro_rules! ins_d {
    ($s:expr, $k:expr, $h:expr, $api:expr) => {{
        let v = octets(value_bytes($k, $h));
        match $api {
            Api::Insert => $s.insert(&v[..]),
            #[allow(deprecated)]
            Api::Add => $s.add(&v[..]),
            Api::Any => $s.insert_any(&v[..]),
            Api::AnyOther => $s.insert_any(&value_u64($k, $h)),
            Api::Borrowed => $s.insert::<[u8]>(&v),
        }
    }};
}

impl Clone for Sk {
    fn clone(&self) -> Sk {
        match self {
            #[cfg(feature = "std")]
            Sk::PlusU(s, k) => Sk::PlusU(s.clone(), *k),
            #[cfg(feature = "std")]
            Sk::PlusS(s) => Sk::PlusS(s.clone()),
            #[cfg(feature = "std")]
            Sk::PlusB(s, k) => Sk::PlusB(s.clone(), *k),
            Sk::PfU(s, k) => Sk::PfU(s.clone(), *k),
            Sk::PfS(s) => Sk::PfS(s.clone()),
            Sk::PfB(s, k) => Sk::PfB(s.clone(), *k),
            // elements without a size cannot be cloned, nor can their sketches
            _ => self.reload(1).unwrap(),
        }
    }
}

impl Sk {
    pub fn new(kind: Kind, ty: Ty, p: u8, key: u64) -> Result<Sk, String> {
        let e = |e: HyperLogLogError| err_name(&e);
        match (kind, ty) {
            #[cfg(feature = "std")]
            (Kind::Plus, Ty::U64) => {
                HyperLogLogPlus::new(p, Keyed { key }).map(|s| Sk::PlusU(s, key)).map_err(e)
            }
            #[cfg(feature = "std")]
            (Kind::Plus, Ty::Str) => HyperLogLogPlus::new(p, Plain).map(Sk::PlusS).map_err(e),
            #[cfg(feature = "std")]
            (Kind::Plus, Ty::Bytes) => {
                HyperLogLogPlus::new(p, Keyed { key }).map(|s| Sk::PlusB(s, key)).map_err(e)
            }
            #[cfg(feature = "std")]
            (Kind::Plus, Ty::Slice) => {
                HyperLogLogPlus::new(p, Keyed { key }).map(|s| Sk::PlusD(s, key)).map_err(e)
            }
            #[cfg(not(feature = "std"))]
            (Kind::Plus, _) => panic!("no plus sketches in this build"),
            (Kind::PF, Ty::U64) => {
                HyperLogLogPF::new(p, Keyed { key }).map(|s| Sk::PfU(s, key)).map_err(e)
            }
            (Kind::PF, Ty::Str) => HyperLogLogPF::new(p, Plain).map(Sk::PfS).map_err(e),
            (Kind::PF, Ty::Bytes) => {
                HyperLogLogPF::new(p, Keyed { key }).map(|s| Sk::PfB(s, key)).map_err(e)
            }
            (Kind::PF, Ty::Slice) => {
                HyperLogLogPF::new(p, Keyed { key }).map(|s| Sk::PfD(s, key)).map_err(e)
            }
        }
    }

    /// Inserts a value whose hash, in this sketch, is `h`.
    #[inline]
    pub fn insert(&mut self, h: u64, api: Api) {
        match self {
            #[cfg(feature = "std")]
            Sk::PlusU(s, k) => ins_u!(s, *k, h, api),
            #[cfg(feature = "std")]
            Sk::PlusS(s) => ins_s!(s, 0, h, api),
            #[cfg(feature = "std")]
            Sk::PlusB(s, k) => ins_b!(s, *k, h, api),
            #[cfg(feature = "std")]
            Sk::PlusD(s, k) => ins_d!(s, *k, h, api),
            Sk::PfU(s, k) => ins_u!(s, *k, h, api),
            Sk::PfS(s) => ins_s!(s, 0, h, api),
            Sk::PfB(s, k) => ins_b!(s, *k, h, api),
            Sk::PfD(s, k) => ins_d!(s, *k, h, api),
        }
    }

    pub fn ty(&self) -> Ty {
        match self {
            #[cfg(feature = "std")]
            Sk::PlusU(..) => Ty::U64,
            #[cfg(feature = "std")]
            Sk::PlusS(..) => Ty::Str,
            #[cfg(feature = "std")]
            Sk::PlusB(..) => Ty::Bytes,
            #[cfg(feature = "std")]
            Sk::PlusD(..) => Ty::Slice,
            Sk::PfU(..) => Ty::U64,
            Sk::PfS(..) => Ty::Str,
            Sk::PfB(..) => Ty::Bytes,
            Sk::PfD(..) => Ty::Slice,
        }
    }

    pub fn count(&mut self) -> f64 {
        all!(self, s => s.count())
    }

    pub fn merge(&mut self, other: &Sk) -> Result<(), String> {
        let e = |e: HyperLogLogError| err_name(&e);
        macro_rules! go {
            ($($l:ident $r:ident),*) => {
                match (self, other) {
                    $( (go!(@ $l a), go!(@ $r b)) => a.merge(b).map_err(e), )*
                    _ => panic!("merge of different kinds"),
                }
            };
            (@ PlusS $x:ident) => { Sk::PlusS($x) };
            (@ PfS $x:ident) => { Sk::PfS($x) };
            (@ $v:ident $x:ident) => { Sk::$v($x, _) };
        }
        #[cfg(feature = "std")]
        {
            go!(PlusU PlusU, PlusU PlusS, PlusU PlusB, PlusU PlusD, PlusS PlusU, PlusS PlusS, PlusS PlusB, PlusS PlusD, PlusB PlusU, PlusB PlusS, PlusB PlusB, PlusB PlusD, PlusD PlusU, PlusD PlusS, PlusD PlusB, PlusD PlusD,
                PfU PfU, PfU PfS, PfU PfB, PfU PfD, PfS PfU, PfS PfS, PfS PfB, PfS PfD, PfB PfU, PfB PfS, PfB PfB, PfB PfD, PfD PfU, PfD PfS, PfD PfB, PfD PfD)
        }
        #[cfg(not(feature = "std"))]
        {
            go!(PfU PfU, PfU PfS, PfU PfB, PfU PfD, PfS PfU, PfS PfS, PfS PfB, PfS PfD, PfB PfU, PfB PfS, PfB PfB, PfB PfD, PfD PfU, PfD PfS, PfD PfB, PfD PfD)
        }
    }

    /// The hash of a value in this sketch.
    pub fn hash_of<T: std::hash::Hash + ?Sized>(&self, v: &T) -> u64 {
        use std::hash::BuildHasher;
        let key = match self {
            #[cfg(feature = "std")]
            Sk::PlusU(_, k) | Sk::PlusB(_, k) | Sk::PlusD(_, k) => *k,
            #[cfg(feature = "std")]
            Sk::PlusS(_) => 0,
            Sk::PfU(_, k) | Sk::PfB(_, k) | Sk::PfD(_, k) => *k,
            Sk::PfS(_) => 0,
        };
        Keyed { key }.hash_one(v)
    }

    /// Inserts a value of any type.
    pub fn any<T: std::hash::Hash + ?Sized>(&mut self, v: &T) {
        all!(self, s => s.insert_any(v))
    }

    /// `clone_from` where the types allow it.
    pub fn assign(&mut self, other: &Sk) {
        match (self, other) {
            #[cfg(feature = "std")]
            (Sk::PlusU(a, k), Sk::PlusU(b, j)) => {
                a.clone_from(b);
                *k = *j;
            }
            #[cfg(feature = "std")]
            (Sk::PlusS(a), Sk::PlusS(b)) => a.clone_from(b),
            #[cfg(feature = "std")]
            (Sk::PlusB(a, k), Sk::PlusB(b, j)) => {
                a.clone_from(b);
                *k = *j;
            }
            (Sk::PfU(a, k), Sk::PfU(b, j)) => {
                a.clone_from(b);
                *k = *j;
            }
            (Sk::PfS(a), Sk::PfS(b)) => a.clone_from(b),
            (Sk::PfB(a, k), Sk::PfB(b, j)) => {
                a.clone_from(b);
                *k = *j;
            }
            (a, b) => *a = b.clone(),
        }
    }

    /// Saves and reloads.  Formats: 0 JSON text, 1 bincode, 2 JSON value, 3 JSON bytes (pretty),
    /// 4 JSON through a reader, 5 bincode through a reader, 6 bincode with another integer encoding.
    pub fn reload(&self, fmt: u8) -> Result<Sk, String> {
        macro_rules! go {
            ($s:expr, $t:ty) => {{
                let r: Result<$t, String> = match fmt {
                    0 => serde_json::to_string($s)
                        .and_then(|t| serde_json::from_str(&t))
                        .map_err(|e| e.to_string()),
                    1 => bincode::serialize($s)
                        .and_then(|t| bincode::deserialize(&t))
                        .map_err(|e| e.to_string()),
                    2 => serde_json::to_value($s)
                        .and_then(serde_json::from_value)
                        .map_err(|e| e.to_string()),
                    4 => {
                        let mut f = Vec::new();
                        serde_json::to_writer(&mut f, $s)
                            .and_then(|_| serde_json::from_reader(&mut f.as_slice()))
                            .map_err(|e| e.to_string())
                    }
                    5 => {
                        let mut f = Vec::new();
                        bincode::serialize_into(&mut f, $s)
                            .and_then(|_| bincode::deserialize_from(&mut f.as_slice()))
                            .map_err(|e| e.to_string())
                    }
                    6 => {
                        use bincode::Options;
                        let o = || bincode::DefaultOptions::new().with_big_endian();
                        o().serialize($s).and_then(|t| o().deserialize(&t)).map_err(|e| e.to_string())
                    }
                    _ => serde_json::to_vec_pretty($s)
                        .and_then(|t| serde_json::from_slice(&t))
                        .map_err(|e| e.to_string()),
                };
                r
            }};
        }
        match self {
            #[cfg(feature = "std")]
            Sk::PlusU(s, k) => go!(s, HyperLogLogPlus<u64, Keyed>).map(|x| Sk::PlusU(x, *k)),
            #[cfg(feature = "std")]
            Sk::PlusS(s) => go!(s, HyperLogLogPlus<String, Plain>).map(Sk::PlusS),
            #[cfg(feature = "std")]
            Sk::PlusB(s, k) => go!(s, HyperLogLogPlus<Vec<u8>, Keyed>).map(|x| Sk::PlusB(x, *k)),
            #[cfg(feature = "std")]
            Sk::PlusD(s, k) => go!(s, HyperLogLogPlus<[u8], Keyed>).map(|x| Sk::PlusD(x, *k)),
            Sk::PfU(s, k) => go!(s, HyperLogLogPF<u64, Keyed>).map(|x| Sk::PfU(x, *k)),
            Sk::PfS(s) => go!(s, HyperLogLogPF<String, Plain>).map(Sk::PfS),
            Sk::PfB(s, k) => go!(s, HyperLogLogPF<Vec<u8>, Keyed>).map(|x| Sk::PfB(x, *k)),
            Sk::PfD(s, k) => go!(s, HyperLogLogPF<[u8], Keyed>).map(|x| Sk::PfD(x, *k)),
        }
    }

    /// Formats: 0 JSON, 6 bincode with another integer encoding, otherwise bincode.
    pub fn save(&self, fmt: u8) -> Vec<u8> {
        use bincode::Options;
        all!(self, s => match fmt {
            0 => serde_json::to_vec(s).unwrap(),
            6 => bincode::DefaultOptions::new().with_big_endian().serialize(s).unwrap(),
            _ => bincode::serialize(s).unwrap(),
        })
    }

    pub fn load(kind: Kind, ty: Ty, key: u64, fmt: u8, data: &[u8]) -> Result<Sk, String> {
        use bincode::Options;
        fn get<T: serde::de::DeserializeOwned>(fmt: u8, data: &[u8]) -> Result<T, String> {
            match fmt {
                0 => serde_json::from_slice(data).map_err(|e| e.to_string()),
                6 => bincode::DefaultOptions::new()
                    .with_big_endian()
                    .deserialize(data)
                    .map_err(|e| e.to_string()),
                _ => bincode::deserialize(data).map_err(|e| e.to_string()),
            }
        }
        match (kind, ty) {
            #[cfg(feature = "std")]
            (Kind::Plus, Ty::U64) => get(fmt, data).map(|s| Sk::PlusU(s, key)),
            #[cfg(feature = "std")]
            (Kind::Plus, Ty::Str) => get(fmt, data).map(Sk::PlusS),
            #[cfg(feature = "std")]
            (Kind::Plus, Ty::Bytes) => get(fmt, data).map(|s| Sk::PlusB(s, key)),
            #[cfg(feature = "std")]
            (Kind::Plus, Ty::Slice) => get(fmt, data).map(|s| Sk::PlusD(s, key)),
            #[cfg(not(feature = "std"))]
            (Kind::Plus, _) => panic!("no plus sketches in this build"),
            (Kind::PF, Ty::U64) => get(fmt, data).map(|s| Sk::PfU(s, key)),
            (Kind::PF, Ty::Str) => get(fmt, data).map(Sk::PfS),
            (Kind::PF, Ty::Bytes) => get(fmt, data).map(|s| Sk::PfB(s, key)),
            (Kind::PF, Ty::Slice) => get(fmt, data).map(|s| Sk::PfD(s, key)),
        }
    }

    /// Bytes of the saved form (binary, no compression).
    pub fn size(&self) -> u64 {
        all!(self, s => bincode::serialized_size(s).unwrap())
    }

    /// Saves to a writer that takes no more than `room` bytes: true when that was refused.
    pub fn save_into_little(&self, fmt: u8, room: usize) -> bool {
        use bincode::Options;
        let w = Little { room };
        all!(self, s => match fmt {
            0 => serde_json::to_writer(w, s).is_err(),
            6 => bincode::DefaultOptions::new().with_big_endian().serialize_into(w, s).is_err(),
            _ => bincode::serialize_into(w, s).is_err(),
        })
    }

    /// Saves, which the hasher refuses: true when that was refused.
    pub fn save_refused(&self, fmt: u8) -> bool {
        all!(self, s => match fmt {
            0 => serde_json::to_vec(s).is_err(),
            2 => serde_json::to_value(s).is_err(),
            _ => bincode::serialize(s).is_err(),
        })
    }
}

struct Little {
    room: usize,
}
impl std::io::Write for Little {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.room == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.room);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
