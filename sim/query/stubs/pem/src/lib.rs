//! PEM, as far as one block goes.
use std::fmt;
#[derive(Clone, Debug, PartialEq)]
pub struct Pem {
    pub tag: String,
    pub contents: Vec<u8>,
}
#[derive(Debug, PartialEq)]
pub struct PemError(&'static str);
impl fmt::Display for PemError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for PemError {}
pub fn parse_many<B: AsRef<[u8]>>(input: B) -> Result<Vec<Pem>, PemError> {
    let text = std::str::from_utf8(input.as_ref()).map_err(|_| PemError("not utf8"))?;
    let (mut out, mut rest) = (vec![], text);
    while let Some(i) = rest.find("-----BEGIN ") {
        rest = &rest[i + 11..];
        let (tag, r) = rest.split_once("-----").ok_or(PemError("no tag"))?;
        let (body, r) = r.split_once("-----END ").ok_or(PemError("no end"))?;
        let (tag2, r) = r.split_once("-----").ok_or(PemError("no end tag"))?;
        if tag != tag2 {
            return Err(PemError("mismatched tags"));
        }
        let body: String = body.split_whitespace().collect();
        let contents = base64::decode(body).map_err(|_| PemError("not base64"))?;
        out.push(Pem { tag: tag.into(), contents });
        rest = r;
    }
    Ok(out)
}
pub fn parse<B: AsRef<[u8]>>(input: B) -> Result<Pem, PemError> {
    parse_many(input)?.into_iter().next().ok_or(PemError("no PEM block"))
}
