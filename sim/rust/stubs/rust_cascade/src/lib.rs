//! A filter cascade as its users see it: the right answer for what was put
//! in, an arbitrary (but fixed) one for everything else. An item that is put
//! in both ways, or more items than announced, is an error.
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum HashAlgorithm {
    MurmurHash3,
    Sha256l32,
    Sha256,
}
#[derive(Debug)]
pub enum CascadeError {
    LongSalt,
    TooManyLayers,
    Collision,
    UnknownHashFunction,
    CapacityViolation(&'static str),
    Parse(&'static str),
    Serialize(&'static str),
}
impl fmt::Display for CascadeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for CascadeError {}

#[derive(Debug, Default)]
pub struct ExcludeSet {
    size: usize,
    set: BTreeSet<String>,
}
pub struct CascadeBuilder {
    hash: HashAlgorithm,
    salt: Vec<u8>,
    capacity: usize,
    excluded: usize,
    included: BTreeSet<String>,
    exclude: BTreeSet<String>,
    excluding: bool,
}
impl CascadeBuilder {
    pub fn new(hash: HashAlgorithm, salt: Vec<u8>, capacity: usize, excluded: usize) -> Self {
        CascadeBuilder { hash, salt, capacity, excluded, included: Default::default(), exclude: Default::default(), excluding: false }
    }
    pub fn include(&mut self, item: Vec<u8>) -> Result<(), CascadeError> {
        if self.excluding {
            return Err(CascadeError::CapacityViolation("include called after exclude"));
        }
        if self.capacity == 0 {
            return Err(CascadeError::CapacityViolation("too many items included"));
        }
        self.capacity -= 1;
        self.included.insert(hex::encode(item));
        Ok(())
    }
    pub fn exclude(&mut self, item: Vec<u8>) -> Result<(), CascadeError> {
        let mut s = ExcludeSet::default();
        self.exclude_threaded(&mut s, item);
        self.collect_exclude_set(&mut s)
    }
    pub fn exclude_threaded(&self, set: &mut ExcludeSet, item: Vec<u8>) {
        set.size += 1;
        set.set.insert(hex::encode(item));
    }
    pub fn collect_exclude_set(&mut self, set: &mut ExcludeSet) -> Result<(), CascadeError> {
        self.excluding = true;
        if set.size > self.excluded {
            return Err(CascadeError::CapacityViolation("too many items excluded"));
        }
        self.excluded -= set.size;
        set.size = 0;
        self.exclude.append(&mut set.set);
        Ok(())
    }
    pub fn finalize(self) -> Result<Box<Cascade>, CascadeError> {
        if self.salt.len() > 255 {
            return Err(CascadeError::LongSalt);
        }
        if self.included.intersection(&self.exclude).next().is_some() {
            return Err(CascadeError::Collision);
        }
        Ok(Box::new(Cascade { kind: "cascade".into(), hash: self.hash, salt: hex::encode(&self.salt), included: self.included, excluded: self.exclude }))
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cascade {
    kind: String,
    hash: HashAlgorithm,
    salt: String,
    included: BTreeSet<String>,
    excluded: BTreeSet<String>,
}
/// FNV-1a: the arbitrary answer.
fn coin(s: &str) -> bool {
    let h = s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    h >> 40 & 1 == 1
}
impl Cascade {
    pub fn to_bytes(&self) -> Result<Vec<u8>, CascadeError> {
        if self.included.is_empty() {
            return Ok(vec![]);
        }
        let mut v = serde_json::to_vec(self).map_err(|_| CascadeError::Serialize("json"))?;
        v.push(b'\n');
        Ok(v)
    }
    pub fn from_bytes(bytes: Vec<u8>) -> Result<Option<Box<Cascade>>, CascadeError> {
        if bytes.is_empty() {
            return Ok(None);
        }
        match serde_json::from_slice::<Cascade>(&bytes) {
            Ok(c) if c.kind == "cascade" => Ok(Some(Box::new(c))),
            _ => Err(CascadeError::Parse("not a cascade")),
        }
    }
    pub fn has(&self, item: Vec<u8>) -> bool {
        let k = hex::encode(item);
        self.included.contains(&k) || (!self.excluded.contains(&k) && coin(&k))
    }
    pub fn invert(&mut self) {
        std::mem::swap(&mut self.included, &mut self.excluded)
    }
    pub fn approximate_size_of(&self) -> usize {
        self.included.len() * 40
    }
}
impl fmt::Display for Cascade {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "cascade of {} items", self.included.len())
    }
}
