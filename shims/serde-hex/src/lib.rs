//! Stand-in for `serde-hex`: "0x"-prefixed hex strings.
use serde::de::Error as _;
use serde::{Deserialize, Deserializer, Serializer};
pub struct StrictPfx;
pub struct Strict;
pub trait HexConf { const PFX: bool; }
impl HexConf for StrictPfx { const PFX: bool = true; }
impl HexConf for Strict { const PFX: bool = false; }
fn enc<C: HexConf>(b: &[u8]) -> String {
    let mut s = String::from(if C::PFX { "0x" } else { "" });
    for x in b { s.push_str(&format!("{x:02x}")); }
    s
}
fn dec<C: HexConf>(s: &str) -> Result<Vec<u8>, String> {
    let s = if C::PFX { s.strip_prefix("0x").ok_or("missing prefix")? } else { s };
    if s.len() % 2 != 0 || !s.is_ascii() { return Err("bad hex length".into()); }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(|e| e.to_string())).collect()
}
pub trait SerHex<C: HexConf>: Sized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl<C: HexConf, const N: usize> SerHex<C> for [u8; N] {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&enc::<C>(self)) }
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        dec::<C>(&s).map_err(D::Error::custom)?.try_into().map_err(|_| D::Error::custom("bad length"))
    }
}
pub trait SerHexSeq<C: HexConf>: Sized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl<C: HexConf> SerHexSeq<C> for Vec<u8> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&enc::<C>(self)) }
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        dec::<C>(&s).map_err(D::Error::custom)
    }
}
