//! The protocol under test: every field kind of blocks, every kind of payload.
use brec::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Zero = 0,
    One = 1,
    Seven = 7,
    Max = 255,
}

impl TryFrom<u8> for Kind {
    type Error = String;
    fn try_from(v: u8) -> Result<Self, String> {
        match v {
            0 => Ok(Kind::Zero),
            1 => Ok(Kind::One),
            7 => Ok(Kind::Seven),
            255 => Ok(Kind::Max),
            n => Err(format!("bad kind {n}")),
        }
    }
}
impl From<&Kind> for u8 {
    fn from(k: &Kind) -> u8 {
        match k {
            Kind::Zero => 0,
            Kind::One => 1,
            Kind::Seven => 7,
            Kind::Max => 255,
        }
    }
}

#[block]
pub struct BTiny {
    pub v: u8,
}

#[block]
pub struct BBool {
    pub a: bool,
    pub b: bool,
}

#[block]
pub struct BEnum {
    pub k: Kind,
}

#[block]
pub struct BBlob {
    pub data: [u8; 5],
}

#[block]
pub struct BMix {
    pub id: u16,
    pub first: [u8; 3],
    pub n: i32,
    pub last: [u8; 2],
}

#[block]
pub struct BAll {
    pub f_u8: u8,
    pub f_u16: u16,
    pub f_u32: u32,
    pub f_u64: u64,
    pub f_u128: u128,
    pub f_i8: i8,
    pub f_i16: i16,
    pub f_i32: i32,
    pub f_i64: i64,
    pub f_i128: i128,
    pub f_f32: f32,
    pub f_f64: f64,
    pub f_bool: bool,
    pub f_kind: Kind,
    pub f_blob: [u8; 4],
}

#[block(no_crc)]
pub struct BNoCrc {
    pub v: u16,
}

#[block]
pub struct BBig {
    pub n: u32,
    pub data: [u8; 300],
}

/// byte arrays at the beginning and side by side, a number at the end
#[block]
pub struct BEdge {
    pub head: [u8; 2],
    pub n: u16,
    pub a: [u8; 1],
    pub b: [u8; 4],
    pub flag: bool,
    pub k: Kind,
    pub c: [u8; 3],
    pub z: u64,
}

/// no fields at all
#[block]
pub struct BUnit {}

/// declared in another module
// not needed by the generated code (P23 checks that), re-exported as users do
pub use inner::BPathReferred;

pub mod inner {
    use brec::prelude::*;
    use serde::{Deserialize, Serialize};

    #[block(path = inner)]
    pub struct BPath {
        pub v: u8,
        pub(crate) w: u16,
    }

    #[payload(path = inner, bincode)]
    #[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
    pub struct PPath {
        pub x: u64,
    }
}

#[payload(bincode)]
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct PStruct {
    pub a: u32,
    pub s: String,
    pub v: Vec<u8>,
    pub o: Option<u16>,
}

#[payload(bincode)]
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct PTiny {
    pub x: u8,
}

#[payload(bincode)]
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum PEnum {
    A,
    B(u16),
    C { x: i64, y: bool },
}

#[payload(bincode, no_crc)]
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct PNoCrc {
    pub x: u16,
}

/// Custom signature (16 bytes) and custom checksum (8 bytes).
#[payload(bincode, no_default_sig, no_auto_crc)]
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct PWide {
    pub x: u32,
}
pub const PWIDE_SIG: [u8; 16] = *b"PWIDE-signature!";
impl brec::PayloadSignature for PWide {
    fn sig(&self) -> brec::ByteBlock {
        brec::ByteBlock::Len16(PWIDE_SIG)
    }
}
impl brec::StaticPayloadSignature for PWide {
    fn ssig() -> brec::ByteBlock {
        brec::ByteBlock::Len16(PWIDE_SIG)
    }
}
impl brec::PayloadCrc for PWide {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> {
        let e = brec::PayloadEncode::encode(self)?;
        Ok(brec::ByteBlock::Len8(wide_crc(&e)))
    }
    fn crc_size() -> usize {
        8
    }
}
pub fn wide_crc(e: &[u8]) -> [u8; 8] {
    let a = crate::refc::crc32(e);
    let mut out = [0u8; 8];
    out[..4].copy_from_slice(&a.to_le_bytes());
    out[4..].copy_from_slice(&(!a).to_le_bytes());
    out
}

/// Every other width of a signature and of a checksum.
macro_rules! sized {
    ($name:ident, $sig:literal, $sigv:ident, $crc:literal, $crcv:ident) => {
        impl brec::PayloadSignature for $name {
            fn sig(&self) -> brec::ByteBlock {
                <$name as brec::StaticPayloadSignature>::ssig()
            }
        }
        impl brec::StaticPayloadSignature for $name {
            fn ssig() -> brec::ByteBlock {
                brec::ByteBlock::$sigv(sized_sig($sig).try_into().unwrap())
            }
        }
        impl brec::PayloadCrc for $name {
            fn crc(&self) -> std::io::Result<brec::ByteBlock> {
                let e = brec::PayloadEncode::encode(self)?;
                Ok(brec::ByteBlock::$crcv(sized_crc(&e, $crc).try_into().unwrap()))
            }
            fn crc_size() -> usize {
                $crc
            }
        }
    };
}
/// (width of the signature, width of the checksum)
pub const SIZED: [(usize, usize); 4] = [(4, 128), (8, 16), (32, 32), (64, 64)];
#[payload(bincode, no_default_sig, no_auto_crc)]
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct PW4 {
    pub x: u32,
}
#[payload(bincode, no_default_sig, no_auto_crc)]
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct PW8 {
    pub x: u32,
}
#[payload(bincode, no_default_sig, no_auto_crc)]
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct PW32 {
    pub x: u32,
}
#[payload(bincode, no_default_sig, no_auto_crc)]
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct PW64 {
    pub x: u32,
}
sized!(PW4, 4, Len4, 128, Len128);
sized!(PW8, 8, Len8, 16, Len16);
sized!(PW32, 32, Len32, 32, Len32);
sized!(PW64, 64, Len64, 64, Len64);
pub fn sized_sig(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 5 + n) as u8).collect()
}
pub fn sized_crc(e: &[u8], n: usize) -> Vec<u8> {
    let a = crate::refc::crc32(e);
    (0..n / 4).flat_map(|i| (a ^ (i as u32 * 0x0101_0101)).to_le_bytes()).collect()
}

/// Non-bincode payload, with its own encoding and the widest signature.
#[payload(no_default_sig)]
#[derive(Debug, Clone, PartialEq)]
pub struct PManual {
    pub raw: Vec<u8>,
}
pub const PMANUAL_SIG: [u8; 128] = {
    let mut s = [0x5au8; 128];
    s[0] = 1;
    s[127] = 2;
    s
};
impl brec::PayloadSignature for PManual {
    fn sig(&self) -> brec::ByteBlock {
        brec::ByteBlock::Len128(PMANUAL_SIG)
    }
}
impl brec::StaticPayloadSignature for PManual {
    fn ssig() -> brec::ByteBlock {
        brec::ByteBlock::Len128(PMANUAL_SIG)
    }
}
impl brec::PayloadSize for PManual {
    fn size(&self) -> std::io::Result<u64> {
        Ok(self.raw.len() as u64 + 1)
    }
}
impl brec::PayloadCrc for PManual {}
impl brec::PayloadEncode for PManual {
    fn encode(&self) -> std::io::Result<Vec<u8>> {
        let mut v = vec![0xA7];
        v.extend(self.raw.iter().map(|b| b ^ 0xff));
        Ok(v)
    }
}
impl brec::PayloadEncodeReferred for PManual {
    fn encode(&self) -> std::io::Result<Option<&[u8]>> {
        Ok(None)
    }
}
impl brec::PayloadDecode<PManual> for PManual {
    fn decode(buf: &[u8]) -> std::io::Result<PManual> {
        if buf.first() != Some(&0xA7) {
            return Err(std::io::Error::new(
                std::io::ErrorKind::InvalidData,
                "bad tag",
            ));
        }
        Ok(PManual {
            raw: buf[1..].iter().map(|b| b ^ 0xff).collect(),
        })
    }
}

/// A payload whose own code fails on demand: the `fuse` counts its fallible calls down.
#[payload(no_default_sig)]
#[derive(Debug, Clone, PartialEq)]
pub struct PFail {
    pub raw: Vec<u8>,
    /// pretended size, not a part of the content
    pub claim: u64,
}
thread_local! {
    pub static FUSE: std::cell::Cell<(u32, Option<std::io::ErrorKind>)> = const { std::cell::Cell::new((0, None)) };
}
fn fuse() -> std::io::Result<()> {
    FUSE.with(|f| match f.get() {
        (1, Some(k)) => {
            f.set((0, Some(k)));
            Err(std::io::Error::from(k))
        }
        (n, k) => {
            f.set((n.saturating_sub(1), k));
            Ok(())
        }
    })
}
pub const PFAIL_SIG: [u8; 4] = *b"FAIL";
pub const PFAIL_POISON: u8 = 0xee;
impl brec::PayloadSignature for PFail {
    fn sig(&self) -> brec::ByteBlock {
        brec::ByteBlock::Len4(PFAIL_SIG)
    }
}
impl brec::StaticPayloadSignature for PFail {
    fn ssig() -> brec::ByteBlock {
        brec::ByteBlock::Len4(PFAIL_SIG)
    }
}
impl brec::PayloadSize for PFail {
    fn size(&self) -> std::io::Result<u64> {
        fuse()?;
        Ok(if self.claim > 0 { self.claim } else { self.raw.len() as u64 })
    }
}
impl brec::PayloadCrc for PFail {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> {
        fuse()?;
        Ok(brec::ByteBlock::Len4(crate::refc::crc32(&self.raw).to_le_bytes()))
    }
}
impl brec::PayloadEncode for PFail {
    fn encode(&self) -> std::io::Result<Vec<u8>> {
        fuse()?;
        Ok(self.raw.clone())
    }
}
impl brec::PayloadEncodeReferred for PFail {
    fn encode(&self) -> std::io::Result<Option<&[u8]>> {
        fuse()?;
        // both ways of encoding are used
        Ok((self.raw.len() % 2 == 0).then_some(&self.raw))
    }
}
impl brec::PayloadDecode<PFail> for PFail {
    fn decode(buf: &[u8]) -> std::io::Result<PFail> {
        fuse()?;
        if buf.first() == Some(&PFAIL_POISON) {
            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "poisoned"));
        }
        Ok(PFail { raw: buf.to_vec(), claim: 0 })
    }
}

/// what a hook does to the content
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum HookAct {
    Keep,
    Xor,
    Push,
    Pop,
    Clear,
    Fail(std::io::ErrorKind),
}
/// calls of payload code while a hook script is set
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum HookEv {
    Before,
    After,
    Decode,
}
thread_local! {
    /// (before encoding, after decoding)
    pub static ACTS: std::cell::Cell<(HookAct, HookAct)> = const { std::cell::Cell::new((HookAct::Keep, HookAct::Keep)) };
    pub static CALLS: std::cell::RefCell<Vec<HookEv>> = const { std::cell::RefCell::new(vec![]) };
}
impl HookAct {
    pub fn on_bytes(self, v: &mut Vec<u8>) -> std::io::Result<()> {
        match self {
            HookAct::Keep => {}
            HookAct::Xor => v.iter_mut().for_each(|b| *b ^= 0x5a),
            HookAct::Push => v.push(v.len() as u8),
            HookAct::Pop => {
                v.pop();
            }
            HookAct::Clear => v.clear(),
            HookAct::Fail(k) => return Err(std::io::Error::from(k)),
        }
        Ok(())
    }
    pub fn on_pair(self, x: &mut u32, t: &mut String) -> std::io::Result<()> {
        match self {
            HookAct::Keep => {}
            HookAct::Xor => *x ^= 0x5a5a_5a5a,
            HookAct::Push => t.push('\u{fc}'),
            HookAct::Pop => {
                t.pop();
            }
            HookAct::Clear => t.clear(),
            HookAct::Fail(k) => return Err(std::io::Error::from(k)),
        }
        Ok(())
    }
}
fn called(e: HookEv) {
    CALLS.with(|c| c.borrow_mut().push(e));
}

/// payload with hooks and code of its own
#[payload(hooks)]
#[derive(Debug, Clone, PartialEq)]
pub struct PHook {
    pub raw: Vec<u8>,
}
impl brec::PayloadHooks for PHook {
    fn before_encode(&mut self) -> std::io::Result<()> {
        called(HookEv::Before);
        ACTS.get().0.on_bytes(&mut self.raw)
    }
    fn after_decode(&mut self) -> std::io::Result<()> {
        called(HookEv::After);
        ACTS.get().1.on_bytes(&mut self.raw)
    }
}
impl brec::PayloadCrc for PHook {}
impl brec::PayloadSize for PHook {
    fn size(&self) -> std::io::Result<u64> {
        Ok(self.raw.len() as u64)
    }
}
impl brec::PayloadEncode for PHook {
    fn encode(&self) -> std::io::Result<Vec<u8>> {
        Ok(self.raw.clone())
    }
}
impl brec::PayloadEncodeReferred for PHook {
    fn encode(&self) -> std::io::Result<Option<&[u8]>> {
        // both ways of encoding are used
        Ok((self.raw.len() % 2 == 0).then_some(&self.raw))
    }
}
impl brec::PayloadDecode<PHook> for PHook {
    fn decode(buf: &[u8]) -> std::io::Result<PHook> {
        called(HookEv::Decode);
        Ok(PHook { raw: buf.to_vec() })
    }
}

/// payload with hooks, everything else generated
#[payload(bincode, hooks)]
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct PHookBin {
    pub x: u32,
    pub t: String,
}
impl brec::PayloadHooks for PHookBin {
    fn before_encode(&mut self) -> std::io::Result<()> {
        called(HookEv::Before);
        ACTS.get().0.on_pair(&mut self.x, &mut self.t)
    }
    fn after_decode(&mut self) -> std::io::Result<()> {
        called(HookEv::After);
        ACTS.get().1.on_pair(&mut self.x, &mut self.t)
    }
}

brec::generate!();
