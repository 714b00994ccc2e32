//! The clubcard of CRLite: the model of `clubcard` with the coverage.
use clubcard::{AsQuery, Block, Clubcard, Queryable};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt;
use std::io::Read;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct CRLiteCoverage(pub BTreeMap<String, (u64, u64)>);
impl CRLiteCoverage {
    #[allow(non_snake_case)]
    pub fn from_mozilla_ct_logs_json<T: Read>(reader: T) -> Self {
        #[derive(Deserialize)]
        struct Log {
            LogID: String,
            #[serde(default)]
            MinTimestamp: u64,
            #[serde(default)]
            MaxTimestamp: u64,
        }
        let logs: Vec<Log> = serde_json::from_reader(reader).unwrap_or_default();
        CRLiteCoverage(logs.into_iter().map(|l| (l.LogID, (l.MinTimestamp, l.MaxTimestamp))).collect())
    }
}
pub struct CRLiteKey<'a> {
    issuer: &'a [u8; 32],
    serial: &'a [u8],
}
impl<'a> CRLiteKey<'a> {
    pub fn new(issuer: &'a [u8; 32], serial: &'a [u8]) -> Self {
        CRLiteKey { issuer, serial }
    }
}
pub struct CRLiteQuery<'a> {
    key: &'a CRLiteKey<'a>,
}
impl<'a> CRLiteQuery<'a> {
    pub fn new(key: &'a CRLiteKey<'a>, _ts: Option<(&'a [u8; 32], u64)>) -> Self {
        CRLiteQuery { key }
    }
}
impl<'a> AsQuery<4> for CRLiteQuery<'a> {
    fn block(&self) -> &[u8] {
        self.key.issuer
    }
    fn discriminant(&self) -> &[u8] {
        self.key.serial
    }
}
impl<'a> Queryable<4> for CRLiteQuery<'a> {
    type UniverseMetadata = CRLiteCoverage;
    type PartitionMetadata = ();
}
pub struct CRLiteClubcard(Clubcard<4, CRLiteCoverage, ()>);
#[derive(Debug)]
pub enum ClubcardError {
    Serialize,
    Deserialize,
    UnsupportedVersion,
}
impl fmt::Display for ClubcardError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for ClubcardError {}
#[derive(Serialize, Deserialize)]
struct File {
    kind: String,
    coverage: CRLiteCoverage,
    blocks: BTreeMap<String, Block>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CRLiteStatus {
    Good,
    NotCovered,
    NotEnrolled,
    Revoked,
}
fn base64(b: &[u8]) -> String {
    let a = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            out.push(if i <= c.len() { a[(n >> (18 - 6 * i) & 63) as usize] as char } else { '=' });
        }
    }
    out
}
impl CRLiteClubcard {
    /// What a client learns about a certificate with these timestamps.
    pub fn contains<'a>(&self, key: &CRLiteKey<'_>, timestamps: impl Iterator<Item = (&'a [u8; 32], u64)>) -> CRLiteStatus {
        let mut covered = false;
        for (log, t) in timestamps {
            if let Some((a, b)) = self.0.universe.0.get(&base64(log)) {
                covered |= *a <= t && t <= *b;
            }
        }
        let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
        if !covered {
            return CRLiteStatus::NotCovered;
        }
        if !self.0.blocks.contains_key(&hex(key.issuer)) {
            return CRLiteStatus::NotEnrolled;
        }
        if self.0.unchecked_contains(&CRLiteQuery::new(key, None)) {
            CRLiteStatus::Revoked
        } else {
            CRLiteStatus::Good
        }
    }
    pub fn to_bytes(&self) -> Result<Vec<u8>, ClubcardError> {
        let f = File { kind: "clubcard".into(), coverage: self.0.universe.clone(), blocks: self.0.blocks.clone() };
        let mut v = serde_json::to_vec(&f).map_err(|_| ClubcardError::Serialize)?;
        v.push(b'\n');
        Ok(v)
    }
    pub fn from_bytes(b: &[u8]) -> Result<Self, ClubcardError> {
        match serde_json::from_slice::<File>(b) {
            Ok(f) if f.kind == "clubcard" && b.ends_with(b"\n") => Ok(CRLiteClubcard(Clubcard { universe: f.coverage, partition: (), blocks: f.blocks })),
            _ => Err(ClubcardError::Deserialize),
        }
    }
}
impl From<Clubcard<4, CRLiteCoverage, ()>> for CRLiteClubcard {
    fn from(c: Clubcard<4, CRLiteCoverage, ()>) -> Self {
        CRLiteClubcard(c)
    }
}
impl AsRef<Clubcard<4, CRLiteCoverage, ()>> for CRLiteClubcard {
    fn as_ref(&self) -> &Clubcard<4, CRLiteCoverage, ()> {
        &self.0
    }
}
impl fmt::Display for CRLiteClubcard {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "clubcard of {} blocks", self.0.blocks.len())
    }
}
pub mod builder {
    use clubcard::builder::Filterable;
    use clubcard::AsQuery;
    pub struct CRLiteBuilderItem {
        pub issuer: [u8; 32],
        pub serial: Vec<u8>,
        pub revoked: bool,
    }
    impl CRLiteBuilderItem {
        pub fn revoked(issuer: [u8; 32], serial: Vec<u8>) -> Self {
            CRLiteBuilderItem { issuer, serial, revoked: true }
        }
        pub fn not_revoked(issuer: [u8; 32], serial: Vec<u8>) -> Self {
            CRLiteBuilderItem { issuer, serial, revoked: false }
        }
    }
    impl AsQuery<4> for CRLiteBuilderItem {
        fn block(&self) -> &[u8] {
            &self.issuer
        }
        fn discriminant(&self) -> &[u8] {
            &self.serial
        }
    }
    impl Filterable<4> for CRLiteBuilderItem {
        fn included(&self) -> bool {
            self.revoked
        }
    }
}
