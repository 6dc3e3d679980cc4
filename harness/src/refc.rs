//! Reference codec, written from site/docs/specification.md and independent of the library:
//! own CRC-32, own encoders, own packet recogniser.
use crate::model::*;
use crate::proto::{sized_crc, sized_sig, PMANUAL_SIG, PWIDE_SIG, SIZED};

const fn table() -> [u32; 256] {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let mut c = i as u32;
        let mut k = 0;
        while k < 8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 };
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
}
static TABLE: [u32; 256] = table();

pub fn crc32(data: &[u8]) -> u32 {
    let mut c = 0xffff_ffffu32;
    for &b in data {
        c = TABLE[((c ^ b as u32) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}

/// The change of four consecutive bytes, followed by `after` further bytes of the checksummed range, that
/// changes the CRC-32 by exactly `diff` (CRC-32 is linear, so it exists and is unique).
pub fn crc_burst(after: usize, diff: u32) -> [u8; 4] {
    let mut c = diff;
    for _ in 0..after + 4 {
        let i = (0..256usize).find(|i| TABLE[*i] >> 24 == c >> 24).unwrap();
        c = ((c ^ TABLE[i]) << 8) | i as u32;
    }
    c.to_le_bytes()
}

/// Bursts of at most 32 bits in the range [from, to), which is followed directly by its CRC-32 if
/// `adjacent`, chosen so that the right checksum differs from the stored one in as little as one bit or
/// one byte: what a sloppy comparison of checksums would let through. (offset, pattern)
pub fn sly_bursts(from: usize, to: usize, adjacent: bool) -> Vec<(usize, Vec<u8>)> {
    (from..to).flat_map(|at| sly_bursts_at(at, to, adjacent)).collect()
}
pub fn sly_bursts_at(at: usize, to: usize, adjacent: bool) -> Vec<(usize, Vec<u8>)> {
    let mut v = vec![];
    let mut diffs: Vec<u32> = (0..32).map(|i| 1 << i).collect();
    diffs.extend([0xff, 0xff00, 0xff_0000, 0xff00_0000, 0xffff, 0xffff_0000, u32::MAX, 0x0100_0001, 0x8000_0080]);
    if at + 4 <= to {
        for &d in &diffs {
            v.push((at, crc_burst(to - at - 4, d).to_vec()));
        }
    } else if adjacent {
        // the last k bytes of the range and 4-k bytes of the checksum, made to fit the change
        let k = to - at;
        for x in 1..=255u8 {
            let mut z = vec![0u8; k];
            z[0] = x;
            let d = crc32(&z) ^ crc32(&vec![0u8; k]);
            let mut pat = z;
            pat.extend(&d.to_le_bytes()[..4 - k]);
            v.push((at, pat));
        }
    }
    v
}

pub const SIG: [u8; 8] = [0xec, 0x25, 0x5e, 0x88, 0xec, 0x25, 0x5e, 0x88];
pub const HDR: usize = 29;
pub const SLOT_SIG: [u8; 8] = [166, 177, 188, 199, 199, 188, 177, 166];
pub const SLOT_CAP: usize = 500;
pub const SLOT_SIZE: usize = 16 + SLOT_CAP * 8 + 4;

/// name and field list a block signature is derived from
fn snap(b: &Blk) -> &'static str {
    match b {
        Blk::Tiny(_) => "BTiny;__sig:[u8;4];v:u8;__crc:[u8;4]",
        Blk::Bool(..) => "BBool;__sig:[u8;4];a:bool;b:bool;__crc:[u8;4]",
        Blk::Enum(_) => "BEnum;__sig:[u8;4];k:Kind;__crc:[u8;4]",
        Blk::Blob(_) => "BBlob;__sig:[u8;4];data:[u8;5];__crc:[u8;4]",
        Blk::Mix(..) => "BMix;__sig:[u8;4];id:u16;first:[u8;3];n:i32;last:[u8;2];__crc:[u8;4]",
        Blk::All(_) => "BAll;__sig:[u8;4];f_u8:u8;f_u16:u16;f_u32:u32;f_u64:u64;f_u128:u128;f_i8:i8;f_i16:i16;f_i32:i32;f_i64:i64;f_i128:i128;f_f32:f32;f_f64:f64;f_bool:bool;f_kind:Kind;f_blob:[u8;4];__crc:[u8;4]",
        Blk::NoCrc(_) => "BNoCrc;__sig:[u8;4];v:u16;__crc:[u8;4]",
        Blk::Edge(..) => "BEdge;__sig:[u8;4];head:[u8;2];n:u16;a:[u8;1];b:[u8;4];flag:bool;k:Kind;c:[u8;3];z:u64;__crc:[u8;4]",
        Blk::Unit => "BUnit;__sig:[u8;4];__crc:[u8;4]",
        Blk::Path(..) => "BPath;__sig:[u8;4];v:u8;w:u16;__crc:[u8;4]",
        Blk::Big(..) | Blk::BigRaw(..) => "BBig;__sig:[u8;4];n:u32;data:[u8;300];__crc:[u8;4]",
    }
}

pub fn block_sig(b: &Blk) -> [u8; 4] {
    crc32(snap(b).as_bytes()).to_le_bytes()
}

/// (fields, offset of every field start) of a block
pub fn block_body(b: &Blk) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    match b {
        Blk::Tiny(v) => o.push(*v),
        Blk::Bool(a, b) => {
            o.push(*a as u8);
            o.push(*b as u8);
        }
        Blk::Enum(k) => o.push(*k),
        Blk::Blob(d) => o.extend(d),
        Blk::Mix(id, f, n, l) => {
            o.extend(id.to_le_bytes());
            o.extend(f);
            o.extend(n.to_le_bytes());
            o.extend(l);
        }
        Blk::All(a) => {
            o.extend(a.u8_.to_le_bytes());
            o.extend(a.u16_.to_le_bytes());
            o.extend(a.u32_.to_le_bytes());
            o.extend(a.u64_.to_le_bytes());
            o.extend(a.u128_.to_le_bytes());
            o.extend(a.i8_.to_le_bytes());
            o.extend(a.i16_.to_le_bytes());
            o.extend(a.i32_.to_le_bytes());
            o.extend(a.i64_.to_le_bytes());
            o.extend(a.i128_.to_le_bytes());
            o.extend(a.f32_.to_le_bytes());
            o.extend(a.f64_.to_le_bytes());
            o.push(a.bool_ as u8);
            o.push(a.kind);
            o.extend(a.blob);
        }
        Blk::NoCrc(v) => o.extend(v.to_le_bytes()),
        Blk::Big(n, s) => {
            o.extend(n.to_le_bytes());
            o.extend(big_data(*s));
        }
        Blk::BigRaw(n, d) => {
            o.extend(n.to_le_bytes());
            o.extend(d);
        }
        Blk::Edge(head, n, a, b, flag, k, c, z) => {
            o.extend(head);
            o.extend(n.to_le_bytes());
            o.extend(a);
            o.extend(b);
            o.push(*flag as u8);
            o.push(*k);
            o.extend(c);
            o.extend(z.to_le_bytes());
        }
        Blk::Unit => {}
        Blk::Path(v, w) => {
            o.push(*v);
            o.extend(w.to_le_bytes());
        }
    }
    o
}

pub fn block(b: &Blk) -> Vec<u8> {
    let mut o = block_sig(b).to_vec();
    let body = block_body(b);
    o.extend(&body);
    if matches!(b, Blk::NoCrc(_)) {
        o.extend([0u8; 4]);
    } else {
        o.extend(crc32(&body).to_le_bytes());
    }
    o
}

pub fn payload_sig(p: &Pl) -> Vec<u8> {
    let name = match p {
        Pl::Struct { .. } => "PStruct",
        Pl::Tiny(_) => "PTiny",
        Pl::EnumA | Pl::EnumB(_) | Pl::EnumC(..) => "PEnum",
        Pl::NoCrc(_) => "PNoCrc",
        Pl::Wide(_) => return PWIDE_SIG.to_vec(),
        Pl::Sized(i, _) => return sized_sig(SIZED[*i].0),
        Pl::Path(_) => "InnerPPath",
        Pl::Manual(_) => return PMANUAL_SIG.to_vec(),
        Pl::Fail(..) => return crate::proto::PFAIL_SIG.to_vec(),
        Pl::Hook(_) => "PHook",
        Pl::HookBin(..) => "PHookBin",
        Pl::Str(_) => "String",
        Pl::Bytes(_) => "Vec<u8>",
    };
    crc32(name.as_bytes()).to_le_bytes().to_vec()
}

/// the encoded payload body
pub fn payload_body(p: &Pl) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    match p {
        Pl::Struct { a, s, v, o: opt } => {
            o.extend(a.to_le_bytes());
            o.extend((s.len() as u64).to_le_bytes());
            o.extend(s.as_bytes());
            o.extend((v.len() as u64).to_le_bytes());
            o.extend(v);
            match opt {
                None => o.push(0),
                Some(x) => {
                    o.push(1);
                    o.extend(x.to_le_bytes());
                }
            }
        }
        Pl::Tiny(x) => o.push(*x),
        Pl::EnumA => o.extend(0u32.to_le_bytes()),
        Pl::EnumB(x) => {
            o.extend(1u32.to_le_bytes());
            o.extend(x.to_le_bytes());
        }
        Pl::EnumC(x, y) => {
            o.extend(2u32.to_le_bytes());
            o.extend(x.to_le_bytes());
            o.push(*y as u8);
        }
        Pl::NoCrc(x) => o.extend(x.to_le_bytes()),
        Pl::Wide(x) | Pl::Sized(_, x) => o.extend(x.to_le_bytes()),
        Pl::Path(x) => o.extend(x.to_le_bytes()),
        Pl::Manual(v) => {
            o.push(0xA7);
            o.extend(v.iter().map(|b| b ^ 0xff));
        }
        Pl::Str(s) => o.extend(s.as_bytes()),
        Pl::Bytes(b) | Pl::Fail(b, _) | Pl::Hook(b) => o.extend(b),
        Pl::HookBin(x, t) => {
            o.extend(x.to_le_bytes());
            o.extend((t.len() as u64).to_le_bytes());
            o.extend(t.as_bytes());
        }
    }
    o
}

pub fn payload_header(p: &Pl) -> Vec<u8> {
    let body = payload_body(p);
    let sig = payload_sig(p);
    let crc: Vec<u8> = match p {
        Pl::NoCrc(_) => vec![0; 4],
        Pl::Wide(_) => crate::proto::wide_crc(&body).to_vec(),
        Pl::Sized(i, _) => sized_crc(&body, SIZED[*i].1),
        _ => crc32(&body).to_le_bytes().to_vec(),
    };
    let mut o = vec![sig.len() as u8];
    o.extend(sig);
    o.push(crc.len() as u8);
    o.extend(crc);
    o.extend((body.len() as u32).to_le_bytes());
    o
}

pub fn payload(p: &Pl) -> Vec<u8> {
    let mut o = payload_header(p);
    o.extend(payload_body(p));
    o
}

pub fn header(size: u64, blocks_len: u64, payload: u8) -> Vec<u8> {
    let mut o = SIG.to_vec();
    let mut b = vec![];
    b.extend(size.to_le_bytes());
    b.extend(blocks_len.to_le_bytes());
    b.push(payload);
    o.extend(&b);
    o.extend(crc32(&b).to_le_bytes());
    o
}

pub fn packet(p: &Pkt) -> Vec<u8> {
    let blocks: Vec<u8> = p.blocks.iter().flat_map(block).collect();
    let pl = p.payload.as_ref().map(payload).unwrap_or_default();
    let mut o = header((blocks.len() + pl.len()) as u64, blocks.len() as u64, p.payload.is_some() as u8);
    o.extend(blocks);
    o.extend(pl);
    o
}

pub fn slot(lens: &[u64]) -> Vec<u8> {
    let mut o = SLOT_SIG.to_vec();
    let mut b = (SLOT_CAP as u64).to_le_bytes().to_vec();
    for i in 0..SLOT_CAP {
        b.extend(lens.get(i).copied().unwrap_or(0).to_le_bytes());
    }
    o.extend(&b);
    o.extend(crc32(&b).to_le_bytes());
    o
}

/// image of a storage file that holds the given encoded packets
pub fn storage(packets: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    for g in packets.chunks(SLOT_CAP) {
        o.extend(slot(&g.iter().map(|p| p.len() as u64).collect::<Vec<_>>()));
        for p in g {
            o.extend(p);
        }
    }
    o
}

/// Is there a well-formed packet header (signature + checksum) at the start of `b`?
pub fn valid_header(b: &[u8]) -> Option<(u64, u64, u8)> {
    if b.len() < HDR || b[..8] != SIG {
        return None;
    }
    if crc32(&b[8..25]).to_le_bytes() != b[25..29] {
        return None;
    }
    Some((
        u64::from_le_bytes(b[8..16].try_into().unwrap()),
        u64::from_le_bytes(b[16..24].try_into().unwrap()),
        b[24],
    ))
}
