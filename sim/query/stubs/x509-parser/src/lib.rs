//! Certificates of the simulation: "CERT", then, each with a length of two
//! octets before it: subject, issuer, serial number, subject public key,
//! notBefore and notAfter (eight octets each, seconds), the SCTs (forty octets
//! each: log, milliseconds) and the public key whose owner signed it.
use std::fmt;
use std::time::{SystemTime, UNIX_EPOCH};

#[derive(Debug, Clone, PartialEq)]
pub struct X509Error;
impl fmt::Display for X509Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "not a certificate")
    }
}
impl std::error::Error for X509Error {}

#[derive(Debug, Clone, PartialEq)]
pub struct X509Name<'a>(&'a [u8]);
impl<'a> X509Name<'a> {
    pub fn as_raw(&self) -> &'a [u8] {
        self.0
    }
}
impl fmt::Display for X509Name<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", String::from_utf8_lossy(self.0))
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct SubjectPublicKeyInfo<'a> {
    pub raw: &'a [u8],
}
#[derive(Debug, Clone, PartialEq)]
pub struct Validity {
    pub not_before: u64,
    pub not_after: u64,
}
impl Validity {
    pub fn is_valid(&self) -> bool {
        let now = SystemTime::now().duration_since(UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0);
        self.not_before <= now && now < self.not_after
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct CtLogID<'a> {
    pub key_id: &'a [u8; 32],
}
#[derive(Debug, Clone, PartialEq)]
pub struct SignedCertificateTimestamp<'a> {
    pub id: CtLogID<'a>,
    pub timestamp: u64,
}
#[derive(Debug, Clone, PartialEq)]
pub enum ParsedExtension<'a> {
    SCT(Vec<SignedCertificateTimestamp<'a>>),
    ParseError,
}
#[derive(Debug, Clone, PartialEq)]
pub struct X509Extension<'a> {
    parsed: ParsedExtension<'a>,
}
impl<'a> X509Extension<'a> {
    pub fn parsed_extension(&self) -> &ParsedExtension<'a> {
        &self.parsed
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct TbsCertificate<'a> {
    pub subject: X509Name<'a>,
    pub issuer: X509Name<'a>,
    serial: &'a [u8],
    pub subject_pki: SubjectPublicKeyInfo<'a>,
    pub validity: Validity,
    scts: Option<X509Extension<'a>>,
}
impl<'a> TbsCertificate<'a> {
    pub fn raw_serial(&self) -> &'a [u8] {
        self.serial
    }
    pub fn subject(&self) -> &X509Name<'a> {
        &self.subject
    }
    pub fn issuer(&self) -> &X509Name<'a> {
        &self.issuer
    }
    pub fn public_key(&self) -> &SubjectPublicKeyInfo<'a> {
        &self.subject_pki
    }
    pub fn validity(&self) -> &Validity {
        &self.validity
    }
    pub fn get_extension_unique(&self, oid: &der_parser::Oid) -> Result<Option<&X509Extension<'a>>, X509Error> {
        Ok(if oid.text() == "1.3.6.1.4.1.11129.2.4.2" { self.scts.as_ref() } else { None })
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct X509Certificate<'a> {
    pub tbs_certificate: TbsCertificate<'a>,
    signer: &'a [u8],
}
impl<'a> std::ops::Deref for X509Certificate<'a> {
    type Target = TbsCertificate<'a>;
    fn deref(&self) -> &TbsCertificate<'a> {
        &self.tbs_certificate
    }
}
impl<'a> X509Certificate<'a> {
    pub fn verify_signature(&self, key: Option<&SubjectPublicKeyInfo>) -> Result<(), X509Error> {
        let key = key.map(|k| k.raw).unwrap_or(self.tbs_certificate.subject_pki.raw);
        if key == self.signer {
            Ok(())
        } else {
            Err(X509Error)
        }
    }
}
pub trait FromDer<'a, E>: Sized {
    fn from_der(i: &'a [u8]) -> Result<(&'a [u8], Self), E>;
}
fn field<'a>(i: &mut &'a [u8]) -> Result<&'a [u8], X509Error> {
    if i.len() < 2 {
        return Err(X509Error);
    }
    let n = u16::from_be_bytes([i[0], i[1]]) as usize;
    if i.len() < 2 + n {
        return Err(X509Error);
    }
    let out = &i[2..2 + n];
    *i = &i[2 + n..];
    Ok(out)
}
fn number(b: &[u8]) -> Result<u64, X509Error> {
    Ok(u64::from_be_bytes(b.try_into().map_err(|_| X509Error)?))
}
impl<'a> FromDer<'a, X509Error> for X509Certificate<'a> {
    fn from_der(i: &'a [u8]) -> Result<(&'a [u8], Self), X509Error> {
        let mut r = i.strip_prefix(b"CERT").ok_or(X509Error)?;
        let subject = field(&mut r)?;
        let issuer = field(&mut r)?;
        let serial = field(&mut r)?;
        let raw = field(&mut r)?;
        let not_before = number(field(&mut r)?)?;
        let not_after = number(field(&mut r)?)?;
        let scts = field(&mut r)?;
        let signer = field(&mut r)?;
        let mut list = vec![];
        for s in scts.chunks(40) {
            if s.len() != 40 {
                return Err(X509Error);
            }
            list.push(SignedCertificateTimestamp { id: CtLogID { key_id: s[..32].try_into().unwrap() }, timestamp: number(&s[32..])? });
        }
        let scts = if list.is_empty() { None } else { Some(X509Extension { parsed: ParsedExtension::SCT(list) }) };
        Ok((
            r,
            X509Certificate {
                tbs_certificate: TbsCertificate { subject: X509Name(subject), issuer: X509Name(issuer), serial, subject_pki: SubjectPublicKeyInfo { raw }, validity: Validity { not_before, not_after }, scts },
                signer,
            },
        ))
    }
}
pub mod certificate {
    pub use super::{TbsCertificate, Validity, X509Certificate};
}
pub mod prelude {
    pub use super::{FromDer, ParsedExtension, SubjectPublicKeyInfo, TbsCertificate, Validity, X509Certificate, X509Error, X509Extension, X509Name};
}
