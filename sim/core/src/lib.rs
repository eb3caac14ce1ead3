//! What every crate that instantiates the library shares: the systems under
//! test behind one object-safe interface, and the caller's hashing code, every
//! call of which is a scheduling and fault point.
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::hash::{BuildHasher, Hasher};
use std::io::{Read, Write};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stage {
    Build = 0,
    Write = 1,
    Finish = 2,
    IoWrite = 3,
    IoRead = 4,
}

thread_local! {
    /// Whether this thread's callbacks have anything to do.
    pub static ARMED: Cell<bool> = const { Cell::new(false) };
}

extern "Rust" {
    /// Defined by the simulator.
    fn hllsim_callback(stage: Stage);
}

#[inline]
pub fn callback(stage: Stage) {
    if ARMED.get() {
        unsafe { hllsim_callback(stage) }
    }
}

pub fn mix(z: u64) -> u64 {
    let mut z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Keyed builder whose hash of the value standing for `v` is `v ^ key`, so a
/// plan can choose hash outputs freely. `v` may be written as a u64, as two
/// u32 or as 16 hexadecimal digits.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SimBuilder {
    pub key: u64,
}

pub struct SimHasher {
    key: u64,
    state: u64,
    digits: u32,
}

impl BuildHasher for SimBuilder {
    type Hasher = SimHasher;
    #[inline]
    fn build_hasher(&self) -> SimHasher {
        callback(Stage::Build);
        SimHasher { key: self.key, state: 0, digits: 0 }
    }
}

impl SimHasher {
    // More than 16 digits: a reused hasher, or not one of our values.
    #[inline]
    fn feed(&mut self, bits: u32, v: u64) {
        if self.digits + bits / 4 > 16 {
            self.state = mix(self.state ^ v);
        } else if bits == 64 {
            self.state = v;
        } else {
            self.state = (self.state << bits) | v;
        }
        self.digits += bits / 4;
    }
}

impl Hasher for SimHasher {
    #[inline]
    fn finish(&self) -> u64 {
        callback(Stage::Finish);
        self.state ^ self.key
    }
    fn write(&mut self, bytes: &[u8]) {
        callback(Stage::Write);
        for b in bytes {
            if let Some(d) = (*b as char).to_digit(16) {
                self.feed(4, d as u64);
            }
        }
    }
    #[inline]
    fn write_u64(&mut self, v: u64) {
        callback(Stage::Write);
        self.feed(64, v);
    }
    fn write_u32(&mut self, v: u32) {
        callback(Stage::Write);
        self.feed(32, v as u64);
    }
    fn write_usize(&mut self, _: usize) {} // length prefixes
    fn write_u8(&mut self, _: u8) {}       // string terminators
}

/// A realistic hasher: SipHash as shipped by std, with fixed keys.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SipBuilder;

pub struct SipHasher(DefaultHasher);

impl BuildHasher for SipBuilder {
    type Hasher = SipHasher;
    fn build_hasher(&self) -> SipHasher {
        callback(Stage::Build);
        SipHasher(DefaultHasher::new())
    }
}

impl Hasher for SipHasher {
    fn finish(&self) -> u64 {
        callback(Stage::Finish);
        self.0.finish()
    }
    fn write(&mut self, bytes: &[u8]) {
        callback(Stage::Write);
        self.0.write(bytes)
    }
}

pub fn hex(v: u64) -> [u8; 16] {
    let mut o = [0; 16];
    for (i, b) in o.iter_mut().enumerate() {
        let d = (v >> (60 - 4 * i)) & 15;
        *b = b"0123456789abcdef"[d as usize];
    }
    o
}

pub fn sip_of(v: u64) -> u64 {
    use std::hash::Hash;
    let h = hex(v);
    let mut s = DefaultHasher::new();
    std::str::from_utf8(&h).unwrap().hash(&mut s);
    s.finish()
}

/// Implementation: original HyperLogLog or HyperLogLog++.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Serialize, Deserialize)]
pub enum Kind {
    Pf,
    Pp,
}

/// Value type and hasher of a sketch.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Serialize, Deserialize)]
pub enum Vt {
    U64,
    Text,
    Sip,
}

/// Build of the library: 0 default, 1 const-loop, 2 no_std, 3 no_std+const-loop,
/// 4 default without overflow checks and debug assertions, 5 default with a
/// scheduling point at every branch and memory access.
pub type Build = u8;
pub const SHIP: Build = 4;
pub const STEP: Build = 5;

pub fn builds_kind(b: Build, k: Kind) -> bool {
    k == Kind::Pf || !matches!(b, 2 | 3)
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Serialize, Deserialize)]
pub struct Spec {
    pub kind: Kind,
    pub p: u8,
    pub vt: Vt,
    pub build: Build,
}

impl Spec {
    pub fn mergeable(&self, o: &Spec) -> bool {
        self.kind == o.kind && self.build == o.build
    }
    pub fn twin(&self) -> Spec {
        Spec { vt: Vt::U64, ..*self }
    }
}

#[derive(Debug, PartialEq, Clone)]
pub enum MergeRes {
    Ok,
    Err(String),
    /// The types do not admit this merge; nothing was called.
    NoSuchCall,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Fmt {
    Json,
    Bin,
    /// Pretty JSON, parsed from a slice.
    Mem,
    /// JSON by way of a document tree, both ways.
    Tree,
    /// Bincode by way of a byte vector, both ways.
    BinMem,
}

pub trait Dut: Send + Sync {
    fn spec(&self) -> Spec;
    fn insert(&mut self, xs: &[u64], entry: u8);
    fn count(&mut self) -> f64;
    fn merge(&mut self, o: &dyn Dut) -> MergeRes;
    fn boxclone(&self) -> Box<dyn Dut>;
    /// Clones into an existing sketch of the same type.
    fn clone_into(&self, d: &mut dyn Dut) -> bool;
    /// The length of the sketch's Debug output.
    fn debug(&self) -> usize;
    fn save(&self, f: Fmt, w: &mut dyn Write) -> Result<(), String>;
    /// Deserialises a sketch of the same type as `self`.
    fn load(&self, f: Fmt, r: &mut dyn Read) -> Result<Box<dyn Dut>, String>;
    fn any(&self) -> &dyn Any;
    fn any_mut(&mut self) -> &mut dyn Any;
}

pub fn save_any<T: Serialize>(t: &T, f: Fmt, w: &mut dyn Write) -> Result<(), String> {
    match f {
        Fmt::Json => serde_json::to_writer(&mut *w, t).map_err(|e| e.to_string())?,
        Fmt::Bin => bincode::serialize_into(&mut *w, t).map_err(|e| e.to_string())?,
        Fmt::Mem => serde_json::to_writer_pretty(&mut *w, t).map_err(|e| e.to_string())?,
        Fmt::Tree => {
            let v = serde_json::to_value(t).map_err(|e| e.to_string())?;
            serde_json::to_writer(&mut *w, &v).map_err(|e| e.to_string())?
        }
        Fmt::BinMem => {
            let v = bincode::serialize(t).map_err(|e| e.to_string())?;
            w.write_all(&v).map_err(|e| e.to_string())?
        }
    }
    w.flush().map_err(|e| e.to_string())
}

pub fn load_any<T: serde::de::DeserializeOwned>(f: Fmt, r: &mut dyn Read) -> Result<T, String> {
    match f {
        Fmt::Json => serde_json::from_reader(r).map_err(|e| e.to_string()),
        Fmt::Bin => bincode::deserialize_from(r).map_err(|e| e.to_string()),
        Fmt::Tree => {
            let v: serde_json::Value = serde_json::from_reader(r).map_err(|e| e.to_string())?;
            serde_json::from_value(v).map_err(|e| e.to_string())
        }
        Fmt::Mem | Fmt::BinMem => {
            let mut v = vec![];
            r.read_to_end(&mut v).map_err(|e| e.to_string())?;
            match f {
                Fmt::Mem => serde_json::from_slice(&v).map_err(|e| e.to_string()),
                _ => bincode::deserialize(&v).map_err(|e| e.to_string()),
            }
        }
    }
}


/// Instantiates the library: `Dut` for a wrapper of the caller's own.
#[macro_export]
macro_rules! wrap {
    () => {
        struct Wrap<T> {
            t: T,
            spec: Spec,
            key: u64,
        }
    };
}

#[macro_export]
macro_rules! ins_u64 {
    ($self:ident, $xs:ident, $entry:ident) => {{
        let key = $self.key;
        match $entry % 5 {
            0 => {
                for x in $xs {
                    $self.t.insert(&(x ^ key));
                }
            }
            1 => {
                for x in $xs {
                    #[allow(deprecated)]
                    $self.t.add(&(x ^ key));
                }
            }
            2 => {
                for x in $xs {
                    $self.t.insert_any(std::str::from_utf8(&hex(x ^ key)).unwrap());
                }
            }
            3 => {
                for x in $xs {
                    let v = x ^ key;
                    $self.t.insert_any(&((v >> 32) as u32, v as u32));
                }
            }
            _ => {
                for x in $xs {
                    $self.t.insert_any(&hex(x ^ key)[..]);
                }
            }
        }
    }};
}

#[macro_export]
macro_rules! ins_text {
    ($self:ident, $xs:ident, $entry:ident, $key:expr) => {{
        let key = $key;
        for x in $xs {
            let h = hex(x ^ key);
            let s = std::str::from_utf8(&h).unwrap();
            match $entry % 5 {
                0 => $self.t.insert(s),
                1 => {
                    #[allow(deprecated)]
                    $self.t.add(&s.to_string())
                }
                2 => $self.t.insert(&s.to_string()),
                3 => $self.t.insert_any(s),
                _ => $self.t.insert_any(&Box::<str>::from(s)),
            }
        }
    }};
}

#[macro_export]
macro_rules! ins_sim {
    (u64, $s:ident, $x:ident, $e:ident) => { $crate::ins_u64!($s, $x, $e) };
    (text, $s:ident, $x:ident, $e:ident) => { $crate::ins_text!($s, $x, $e, $s.key) };
    (sip, $s:ident, $x:ident, $e:ident) => { $crate::ins_text!($s, $x, $e, 0u64) };
}

#[macro_export]
macro_rules! imp {
    ($krate:ident :: $ty:ident, $h:ty, $b:ty, $ins:ident, [$(($oh:ty, $ob:ty)),*]) => {
        impl Dut for Wrap<$krate::$ty<$h, $b>> {
            fn spec(&self) -> Spec {
                self.spec
            }
            fn insert(&mut self, xs: &[u64], entry: u8) {
                #[allow(unused_imports)]
                use $krate::HyperLogLog as _;
                $crate::ins_sim!($ins, self, xs, entry)
            }
            fn count(&mut self) -> f64 {
                use $krate::HyperLogLog as _;
                self.t.count()
            }
            fn merge(&mut self, o: &dyn Dut) -> MergeRes {
                $(
                    if let Some(o) = o.any().downcast_ref::<Wrap<$krate::$ty<$oh, $ob>>>() {
                        return match self.t.merge(&o.t) {
                            Ok(()) => MergeRes::Ok,
                            Err(e) => MergeRes::Err(format!("{:?}", e)),
                        };
                    }
                )*
                MergeRes::NoSuchCall
            }
            fn boxclone(&self) -> Box<dyn Dut> {
                Box::new(Wrap { t: self.t.clone(), spec: self.spec, key: self.key })
            }
            fn save(&self, f: Fmt, w: &mut dyn Write) -> Result<(), String> {
                save_any(&self.t, f, w)
            }
            fn load(&self, f: Fmt, r: &mut dyn Read) -> Result<Box<dyn Dut>, String> {
                let t: $krate::$ty<$h, $b> = load_any(f, r)?;
                Ok(Box::new(Wrap { t, spec: self.spec, key: self.key }))
            }
            fn any(&self) -> &dyn Any {
                self
            }
            fn any_mut(&mut self) -> &mut dyn Any {
                self
            }
            fn clone_into(&self, d: &mut dyn Dut) -> bool {
                match d.any_mut().downcast_mut::<Self>() {
                    Some(d) => {
                        d.t.clone_from(&self.t);
                        (d.spec, d.key) = (self.spec, self.key);
                        true
                    }
                    None => false,
                }
            }
            fn debug(&self) -> usize {
                format!("{:?}", self.t).len()
            }
        }
    };
}

#[macro_export]
macro_rules! imp3 {
    ($krate:ident :: $ty:ident) => {
        $crate::imp!($krate::$ty, u64, SimBuilder, u64,
            [(u64, SimBuilder), (String, SimBuilder), (String, SipBuilder)]);
        $crate::imp!($krate::$ty, String, SimBuilder, text,
            [(u64, SimBuilder), (String, SimBuilder), (String, SipBuilder)]);
        $crate::imp!($krate::$ty, String, SipBuilder, sip,
            [(u64, SimBuilder), (String, SimBuilder), (String, SipBuilder)]);
    };
}

#[macro_export]
macro_rules! mk {
    ($spec:ident, $key:ident, $krate:ident :: $ty:ident, $h:ty, $b:expr) => {
        match $krate::$ty::<$h, _>::new($spec.p, $b) {
            Ok(t) => Ok(Box::new(Wrap { t, spec: $spec, key: $key }) as Box<dyn Dut>),
            Err(e) => Err(format!("{:?}", e)),
        }
    };
}

