//! Plain-data model of blocks, payloads and packets, and their conversion to and from the real types.
use crate::proto::*;

#[derive(Debug, Clone, PartialEq)]
pub enum Blk {
    Tiny(u8),
    Bool(bool, bool),
    Enum(u8),
    Blob([u8; 5]),
    Mix(u16, [u8; 3], i32, [u8; 2]),
    All(Box<All>),
    NoCrc(u16),
    Big(u32, u8),
    BigRaw(u32, Vec<u8>),
    Edge([u8; 2], u16, [u8; 1], [u8; 4], bool, u8, [u8; 3], u64),
    Unit,
    Path(u8, u16),
}

#[derive(Debug, Clone, PartialEq)]
pub struct All {
    pub u8_: u8,
    pub u16_: u16,
    pub u32_: u32,
    pub u64_: u64,
    pub u128_: u128,
    pub i8_: i8,
    pub i16_: i16,
    pub i32_: i32,
    pub i64_: i64,
    pub i128_: i128,
    pub f32_: u32,
    pub f64_: u64,
    pub bool_: bool,
    pub kind: u8,
    pub blob: [u8; 4],
}

#[derive(Debug, Clone, PartialEq)]
pub enum Pl {
    Struct { a: u32, s: String, v: Vec<u8>, o: Option<u16> },
    Tiny(u8),
    EnumA,
    EnumB(u16),
    EnumC(i64, bool),
    NoCrc(u16),
    Wide(u32),
    /// index into SIZED
    Sized(usize, u32),
    Path(u64),
    Manual(Vec<u8>),
    /// (content, pretended size)
    Fail(Vec<u8>, u64),
    Hook(Vec<u8>),
    HookBin(u32, String),
    Str(String),
    Bytes(Vec<u8>),
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Pkt {
    pub blocks: Vec<Blk>,
    pub payload: Option<Pl>,
}

pub fn big_data(seed: u8) -> [u8; 300] {
    let mut d = [0u8; 300];
    for (i, b) in d.iter_mut().enumerate() {
        *b = seed.wrapping_mul(31).wrapping_add((i as u8).wrapping_mul(7));
    }
    d
}

impl Blk {
    pub fn real(&self) -> Block {
        match self {
            Blk::Tiny(v) => Block::BTiny(BTiny { v: *v }),
            Blk::Bool(a, b) => Block::BBool(BBool { a: *a, b: *b }),
            Blk::Enum(k) => Block::BEnum(BEnum { k: Kind::try_from(*k).unwrap() }),
            Blk::Blob(d) => Block::BBlob(BBlob { data: *d }),
            Blk::Mix(id, f, n, l) => Block::BMix(BMix { id: *id, first: *f, n: *n, last: *l }),
            Blk::All(a) => Block::BAll(BAll {
                f_u8: a.u8_,
                f_u16: a.u16_,
                f_u32: a.u32_,
                f_u64: a.u64_,
                f_u128: a.u128_,
                f_i8: a.i8_,
                f_i16: a.i16_,
                f_i32: a.i32_,
                f_i64: a.i64_,
                f_i128: a.i128_,
                f_f32: f32::from_bits(a.f32_),
                f_f64: f64::from_bits(a.f64_),
                f_bool: a.bool_,
                f_kind: Kind::try_from(a.kind).unwrap(),
                f_blob: a.blob,
            }),
            Blk::NoCrc(v) => Block::BNoCrc(BNoCrc { v: *v }),
            Blk::Big(n, s) => Block::BBig(BBig { n: *n, data: big_data(*s) }),
            Blk::BigRaw(n, d) => Block::BBig(BBig { n: *n, data: d.as_slice().try_into().unwrap() }),
            Blk::Edge(head, n, a, b, flag, k, c, z) => Block::BEdge(BEdge { head: *head, n: *n, a: *a, b: *b, flag: *flag, k: Kind::try_from(*k).unwrap(), c: *c, z: *z }),
            Blk::Unit => Block::BUnit(BUnit {}),
            Blk::Path(v, w) => Block::InnerBPath(inner::BPath { v: *v, w: *w }),
        }
    }
    pub fn of(b: &Block) -> Blk {
        match b {
            Block::BTiny(b) => Blk::Tiny(b.v),
            Block::BBool(b) => Blk::Bool(b.a, b.b),
            Block::BEnum(b) => Blk::Enum((&b.k).into()),
            Block::BBlob(b) => Blk::Blob(b.data),
            Block::BMix(b) => Blk::Mix(b.id, b.first, b.n, b.last),
            Block::BAll(b) => Blk::All(Box::new(All {
                u8_: b.f_u8,
                u16_: b.f_u16,
                u32_: b.f_u32,
                u64_: b.f_u64,
                u128_: b.f_u128,
                i8_: b.f_i8,
                i16_: b.f_i16,
                i32_: b.f_i32,
                i64_: b.f_i64,
                i128_: b.f_i128,
                f32_: b.f_f32.to_bits(),
                f64_: b.f_f64.to_bits(),
                bool_: b.f_bool,
                kind: (&b.f_kind).into(),
                blob: b.f_blob,
            })),
            Block::BNoCrc(b) => Blk::NoCrc(b.v),
            Block::BEdge(b) => Blk::Edge(b.head, b.n, b.a, b.b, b.flag, (&b.k).into(), b.c, b.z),
            Block::BUnit(_) => Blk::Unit,
            Block::InnerBPath(b) => Blk::Path(b.v, b.w),
            Block::BBig(b) => {
                for s in 0..=255u8 {
                    if b.data == big_data(s) {
                        return Blk::Big(b.n, s);
                    }
                }
                Blk::BigRaw(b.n, b.data.to_vec())
            }
        }
    }
    /// built from the fields of the zero-copy representation
    pub fn of_ref(b: &BlockReferred) -> Blk {
        match b {
            BlockReferred::BTiny(b) => Blk::Tiny(b.v),
            BlockReferred::BBool(b) => Blk::Bool(b.a, b.b),
            BlockReferred::BEnum(b) => Blk::Enum((&b.k).into()),
            BlockReferred::BBlob(b) => Blk::Blob(*b.data),
            BlockReferred::BMix(b) => Blk::Mix(b.id, *b.first, b.n, *b.last),
            BlockReferred::BAll(b) => Blk::All(Box::new(All {
                u8_: b.f_u8,
                u16_: b.f_u16,
                u32_: b.f_u32,
                u64_: b.f_u64,
                u128_: b.f_u128,
                i8_: b.f_i8,
                i16_: b.f_i16,
                i32_: b.f_i32,
                i64_: b.f_i64,
                i128_: b.f_i128,
                f32_: b.f_f32.to_bits(),
                f64_: b.f_f64.to_bits(),
                bool_: b.f_bool,
                kind: (&b.f_kind).into(),
                blob: *b.f_blob,
            })),
            BlockReferred::BNoCrc(b) => Blk::NoCrc(b.v),
            BlockReferred::BEdge(b) => Blk::Edge(*b.head, b.n, *b.a, *b.b, b.flag, (&b.k).into(), *b.c, b.z),
            BlockReferred::BUnit(_) => Blk::Unit,
            BlockReferred::InnerBPath(b) => Blk::Path(b.v, b.w),
            BlockReferred::BBig(b) => {
                for s in 0..=255u8 {
                    if *b.data == big_data(s) {
                        return Blk::Big(b.n, s);
                    }
                }
                Blk::BigRaw(b.n, b.data.to_vec())
            }
        }
    }
}

impl Pl {
    pub fn real(&self) -> Payload {
        match self {
            Pl::Struct { a, s, v, o } => {
                Payload::PStruct(PStruct { a: *a, s: s.clone(), v: v.clone(), o: *o })
            }
            Pl::Tiny(x) => Payload::PTiny(PTiny { x: *x }),
            Pl::EnumA => Payload::PEnum(PEnum::A),
            Pl::EnumB(v) => Payload::PEnum(PEnum::B(*v)),
            Pl::EnumC(x, y) => Payload::PEnum(PEnum::C { x: *x, y: *y }),
            Pl::NoCrc(x) => Payload::PNoCrc(PNoCrc { x: *x }),
            Pl::Wide(x) => Payload::PWide(PWide { x: *x }),
            Pl::Sized(0, x) => Payload::PW4(PW4 { x: *x }),
            Pl::Sized(1, x) => Payload::PW8(PW8 { x: *x }),
            Pl::Sized(2, x) => Payload::PW32(PW32 { x: *x }),
            Pl::Sized(_, x) => Payload::PW64(PW64 { x: *x }),
            Pl::Path(x) => Payload::InnerPPath(inner::PPath { x: *x }),
            Pl::Manual(v) => Payload::PManual(PManual { raw: v.clone() }),
            Pl::Fail(v, c) => Payload::PFail(PFail { raw: v.clone(), claim: *c }),
            Pl::Hook(v) => Payload::PHook(PHook { raw: v.clone() }),
            Pl::HookBin(x, t) => Payload::PHookBin(PHookBin { x: *x, t: t.clone() }),
            Pl::Str(s) => Payload::String(s.clone()),
            Pl::Bytes(b) => Payload::Bytes(b.clone()),
        }
    }
    pub fn of(p: &Payload) -> Pl {
        match p {
            Payload::PStruct(p) => Pl::Struct { a: p.a, s: p.s.clone(), v: p.v.clone(), o: p.o },
            Payload::PTiny(p) => Pl::Tiny(p.x),
            Payload::PEnum(PEnum::A) => Pl::EnumA,
            Payload::PEnum(PEnum::B(v)) => Pl::EnumB(*v),
            Payload::PEnum(PEnum::C { x, y }) => Pl::EnumC(*x, *y),
            Payload::PNoCrc(p) => Pl::NoCrc(p.x),
            Payload::PWide(p) => Pl::Wide(p.x),
            Payload::PW4(p) => Pl::Sized(0, p.x),
            Payload::PW8(p) => Pl::Sized(1, p.x),
            Payload::PW32(p) => Pl::Sized(2, p.x),
            Payload::PW64(p) => Pl::Sized(3, p.x),
            Payload::InnerPPath(p) => Pl::Path(p.x),
            Payload::PManual(p) => Pl::Manual(p.raw.clone()),
            Payload::PFail(p) => Pl::Fail(p.raw.clone(), p.claim),
            Payload::PHook(p) => Pl::Hook(p.raw.clone()),
            Payload::PHookBin(p) => Pl::HookBin(p.x, p.t.clone()),
            Payload::String(s) => Pl::Str(s.clone()),
            Payload::Bytes(b) => Pl::Bytes(b.clone()),
        }
    }
}

impl Pkt {
    pub fn new(blocks: Vec<Blk>, payload: Option<Pl>) -> Self {
        Pkt { blocks, payload }
    }
    pub fn real(&self) -> Packet {
        Packet::new(
            self.blocks.iter().map(|b| b.real()).collect(),
            self.payload.as_ref().map(|p| p.real()),
        )
    }
    pub fn of(p: &Packet) -> Pkt {
        Pkt {
            blocks: p.blocks.iter().map(Blk::of).collect(),
            payload: p.payload.as_ref().map(Pl::of),
        }
    }
}
