//! Bounded value domains.
use crate::model::*;
use crate::util::sequences;

pub fn all0() -> All {
    All {
        u8_: 0x12,
        u16_: 0x1234,
        u32_: 0x1234_5678,
        u64_: 0x1234_5678_9abc_def0,
        u128_: 0x0011_2233_4455_6677_8899_aabb_ccdd_eeff,
        i8_: -3,
        i16_: -300,
        i32_: -70_000,
        i64_: -5_000_000_000,
        i128_: -170_000_000_000_000_000_000_000,
        f32_: 1.5f32.to_bits(),
        f64_: (-2.25f64).to_bits(),
        bool_: true,
        kind: 7,
        blob: [9, 8, 7, 6],
    }
}

/// one or two representatives of every block type
pub fn blocks_small() -> Vec<Blk> {
    vec![
        Blk::Tiny(0),
        Blk::Tiny(0xec),
        Blk::Bool(true, false),
        Blk::Enum(7),
        Blk::Blob([0xec, 0x25, 0x5e, 0x88, 0xec]),
        Blk::Mix(0xfffe, [1, 2, 3], i32::MIN, [0, 255]),
        Blk::All(Box::new(all0())),
        Blk::NoCrc(0x0102),
        Blk::Big(3, 5),
        Blk::Edge([1, 2], 0x0304, [5], [6, 7, 8, 9], true, 7, [10, 11, 12], 0x0102_0304_0506_0708),
        Blk::Unit,
        Blk::Path(1, 2),
    ]
}

/// every type at its boundary values, one field at a time; u8/bool/enum types completely
pub fn blocks_full() -> Vec<Blk> {
    let mut v = vec![];
    for x in 0..=255u8 {
        v.push(Blk::Tiny(x));
    }
    for a in [false, true] {
        for b in [false, true] {
            v.push(Blk::Bool(a, b));
        }
    }
    for k in [0, 1, 7, 255] {
        v.push(Blk::Enum(k));
    }
    for i in 0..5 {
        for x in [0u8, 1, 0x7f, 0x80, 0xff] {
            let mut d = [0u8; 5];
            d[i] = x;
            v.push(Blk::Blob(d));
            d = [0xff; 5];
            d[i] = x;
            v.push(Blk::Blob(d));
        }
    }
    for id in [0u16, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xffff] {
        for n in [0i32, 1, -1, i32::MIN, i32::MAX, 0x0102_0304] {
            for f in [[0u8; 3], [255; 3], [1, 2, 3]] {
                for l in [[0u8; 2], [255, 0], [7, 9]] {
                    v.push(Blk::Mix(id, f, n, l));
                }
            }
        }
    }
    let base = all0();
    macro_rules! vary {
        ($f:ident, $($x:expr),*) => { $( { let mut a = base.clone(); a.$f = $x; v.push(Blk::All(Box::new(a))); } )* };
    }
    vary!(u8_, 0, 1, 0x80, 0xff);
    vary!(u16_, 0, 1, 0x00ff, 0xff00, 0x8000, 0xffff);
    vary!(u32_, 0, 1, 0xff00_0000, 0x8000_0000, u32::MAX);
    vary!(u64_, 0, 1, 1 << 32, 1 << 63, u64::MAX);
    vary!(u128_, 0, 1, 1 << 64, 1 << 127, u128::MAX);
    vary!(i8_, 0, 1, -1, i8::MIN, i8::MAX);
    vary!(i16_, 0, 1, -1, i16::MIN, i16::MAX);
    vary!(i32_, 0, 1, -1, i32::MIN, i32::MAX);
    vary!(i64_, 0, 1, -1, i64::MIN, i64::MAX);
    vary!(i128_, 0, 1, -1, i128::MIN, i128::MAX);
    vary!(
        f32_,
        0,
        0x8000_0000,
        1,
        f32::NAN.to_bits(),
        f32::INFINITY.to_bits(),
        f32::NEG_INFINITY.to_bits(),
        f32::MAX.to_bits(),
        f32::MIN_POSITIVE.to_bits(),
        0x7fc0_1234
    );
    vary!(
        f64_,
        0,
        1 << 63,
        1,
        f64::NAN.to_bits(),
        f64::INFINITY.to_bits(),
        f64::NEG_INFINITY.to_bits(),
        f64::MAX.to_bits(),
        f64::MIN_POSITIVE.to_bits(),
        0x7ff8_0000_dead_beef
    );
    vary!(bool_, false, true);
    vary!(kind, 0, 1, 7, 255);
    vary!(blob, [0; 4], [255; 4], [1, 0, 0, 0], [0, 0, 0, 1]);
    for x in [0u16, 1, 255, 256, 0xffff] {
        v.push(Blk::NoCrc(x));
    }
    for n in [0u32, 1, u32::MAX] {
        for s in [0u8, 5, 255] {
            v.push(Blk::Big(n, s));
        }
    }
    for h in [[0u8; 2], [255; 2], [1, 2]] {
        for (a, b) in [([0u8], [0u8; 4]), ([255], [255; 4]), ([1], [2, 3, 4, 5])] {
            for z in [0u64, 1, u64::MAX, 0x0102_0304_0506_0708] {
                for (f, k) in [(false, 0u8), (true, 255), (true, 1)] {
                    v.push(Blk::Edge(h, 0x7ffe, a, b, f, k, [9, 8, 7], z));
                }
            }
        }
    }
    v.push(Blk::Unit);
    for x in 0..=255u8 {
        v.push(Blk::Path(x, x as u16 * 257));
    }
    v
}

pub fn sig_bytes(n: usize) -> Vec<u8> {
    (0..n).map(|i| crate::refc::SIG[i % 8]).collect()
}

pub fn payloads_small() -> Vec<Option<Pl>> {
    vec![
        None,
        Some(Pl::Struct { a: 1, s: "hé".into(), v: vec![1, 2, 3], o: Some(9) }),
        Some(Pl::Tiny(0xec)),
        Some(Pl::EnumB(513)),
        Some(Pl::NoCrc(7)),
        Some(Pl::Wide(0xdead_beef)),
        Some(Pl::Sized(0, 1)),
        Some(Pl::Sized(1, 2)),
        Some(Pl::Sized(2, 3)),
        Some(Pl::Sized(3, 4)),
        Some(Pl::Path(5)),
        Some(Pl::Manual(vec![1, 2])),
        Some(Pl::Str("".into())),
        Some(Pl::Str("text".into())),
        Some(Pl::Bytes(vec![])),
        Some(Pl::Bytes(sig_bytes(11))),
    ]
}

pub fn payloads_full(thorough: bool) -> Vec<Pl> {
    let mut v = vec![];
    for a in [0u32, 1, u32::MAX] {
        for s in ["", "a", "\u{0}", "héł漢😀", "0123456789abcdef0123456789"] {
            for b in [vec![], vec![0u8], vec![255; 9], sig_bytes(17)] {
                for o in [None, Some(0u16), Some(0xffff)] {
                    v.push(Pl::Struct { a, s: s.into(), v: b.clone(), o });
                }
            }
        }
    }
    for x in 0..=255u8 {
        v.push(Pl::Tiny(x));
    }
    v.push(Pl::EnumA);
    for x in [0u16, 1, 0xff, 0xffff] {
        v.push(Pl::EnumB(x));
        v.push(Pl::NoCrc(x));
    }
    for x in [0i64, 1, -1, i64::MIN, i64::MAX] {
        for y in [false, true] {
            v.push(Pl::EnumC(x, y));
        }
    }
    for x in [0u32, 1, 0x8000_0000, u32::MAX] {
        v.push(Pl::Wide(x));
        for i in 0..4 {
            v.push(Pl::Sized(i, x));
        }
        v.push(Pl::Path(x as u64 * 0x1_0000_0001));
    }
    for n in [0usize, 1, 2, 127, 128, 300] {
        v.push(Pl::Manual((0..n).map(|i| i as u8).collect()));
    }
    for s in ["", "x", "\u{0}\u{0}", "héł漢😀", "line\nline\r\n"] {
        v.push(Pl::Str(s.into()));
    }
    let mut lens: Vec<usize> = (0..=70).collect();
    lens.extend([127, 128, 255, 256, 257, 4095, 4096, 4097, 8134, 8191, 8192, 8193, 16384, 65535, 65536, 65537]);
    if thorough {
        lens.extend(71..=1100);
        lens.extend(8100..=8250);
        lens.extend([1 << 17, (1 << 20) - 1, 1 << 20, 3 << 20]);
    }
    for n in lens {
        v.push(Pl::Bytes((0..n).map(|i| (i * 7 + n) as u8).collect()));
        if n <= 300 {
            v.push(Pl::Str("ж".repeat(n)));
        }
    }
    v.push(Pl::Bytes(sig_bytes(64)));
    v
}

/// All packets whose block list is a sequence of at most `k` small blocks, with every small payload.
pub fn packets(k: usize) -> Vec<Pkt> {
    let bs = blocks_small();
    let ps = payloads_small();
    let mut v = vec![];
    for s in sequences(bs.len(), k) {
        for p in &ps {
            v.push(Pkt::new(s.iter().map(|&i| bs[i].clone()).collect(), p.clone()));
        }
    }
    v
}

/// Packets around the block-count limit.
pub fn counted(counts: &[usize]) -> Vec<Pkt> {
    let bs = blocks_small();
    let mut v = vec![];
    for &n in counts {
        for p in [None, Some(Pl::Tiny(1)), Some(Pl::Str("tail".into()))] {
            v.push(Pkt::new((0..n).map(|i| Blk::Tiny(i as u8)).collect(), p.clone()));
            v.push(Pkt::new((0..n).map(|i| bs[i % bs.len()].clone()).collect(), p));
        }
    }
    v
}

/// A handful of packets, one per interesting shape (used where the other dimension is large).
pub fn shapes() -> Vec<Pkt> {
    vec![
        Pkt::new(vec![], None),
        Pkt::new(vec![Blk::Tiny(0xec)], None),
        Pkt::new(vec![Blk::Bool(true, false), Blk::Enum(7)], None),
        Pkt::new(vec![], Some(Pl::Str("text".into()))),
        Pkt::new(vec![], Some(Pl::Bytes(vec![]))),
        Pkt::new(
            vec![Blk::Mix(0xfffe, [1, 2, 3], -5, [0, 255]), Blk::Tiny(4)],
            Some(Pl::Struct { a: 1, s: "hé".into(), v: vec![1, 2, 3], o: Some(9) }),
        ),
        Pkt::new(vec![Blk::All(Box::new(all0()))], Some(Pl::EnumC(-1, true))),
        Pkt::new(vec![Blk::Blob([1, 2, 3, 4, 5])], Some(Pl::Wide(77))),
        Pkt::new(vec![Blk::Tiny(1)], Some(Pl::Manual(vec![3, 1, 4]))),
    ]
}
