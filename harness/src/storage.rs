//! P13-P19: the storage. Real writer and readers over enumerated histories, crash points, torn writes,
//! faults, damage and interleavings; the oracle is a plain list of packets.
use crate::dev::*;
use crate::model::*;
use crate::proto::*;
use crate::readers::*;
use crate::refc;
use crate::util::*;
use brec::prelude::*;
use std::io::{Cursor, ErrorKind, Read, Seek, SeekFrom, Write};
use std::sync::OnceLock;

pub const CAP: usize = refc::SLOT_CAP;

/// The i-th record of a base storage; contents and sizes differ.
pub fn rec(i: usize) -> Pkt {
    match i % 4 {
        0 => Pkt::new(vec![Blk::Mix(i as u16, [1, 2, 3], -(i as i32), [4, 5])], None),
        1 => Pkt::new(vec![], Some(Pl::Str(format!("r{i}")))),
        2 => Pkt::new(vec![Blk::NoCrc(i as u16), Blk::Tiny(7)], Some(Pl::Bytes(vec![i as u8; 3]))),
        _ => Pkt::new(vec![Blk::Tiny(i as u8), Blk::Mix(i as u16, [0; 3], 0, [0; 2])], None),
    }
}
/// records without unchecked content
pub fn rec_crc(i: usize) -> Pkt {
    if i % 4 == 2 {
        Pkt::new(vec![Blk::Enum(7), Blk::Tiny(i as u8)], Some(Pl::Struct { a: i as u32, s: "s".into(), v: vec![1], o: None }))
    } else {
        rec(i)
    }
}

pub const MAX_BASE: usize = 9 * CAP + 10;

pub fn recs() -> &'static [(Pkt, Vec<u8>)] {
    static R: OnceLock<Vec<(Pkt, Vec<u8>)>> = OnceLock::new();
    R.get_or_init(|| {
        (0..MAX_BASE)
            .map(|i| {
                let p = rec(i);
                let e = refc::packet(&p);
                (p, e)
            })
            .collect()
    })
}
pub fn base_image(n: usize) -> Vec<u8> {
    refc::storage(&recs()[..n].iter().map(|r| r.1.clone()).collect::<Vec<_>>())
}
pub fn base_list(n: usize) -> Vec<Pkt> {
    recs()[..n].iter().map(|r| r.0.clone()).collect()
}

/// records inserted by the histories
pub fn fresh(i: usize) -> Pkt {
    match i % 3 {
        0 => Pkt::new(vec![Blk::Tiny(0xA0 + i as u8)], None),
        1 => Pkt::new(vec![Blk::Blob([i as u8; 5])], Some(Pl::Str("fresh".into()))),
        _ => Pkt::new(vec![], Some(Pl::Bytes(vec![i as u8; 200]))),
    }
}

fn show(v: &[Pkt]) -> String {
    let tail: Vec<_> = v.iter().rev().take(3).rev().collect();
    format!("{} records ending {:?}", v.len(), tail).chars().take(500).collect()
}

pub fn collect<I: Iterator<Item = Result<Packet, Error>>>(it: I) -> Result<Vec<Pkt>, String> {
    let mut v = vec![];
    for p in it.take(20_000) {
        match p {
            Ok(p) => v.push(Pkt::of(&p)),
            Err(e) => return Err(format!("{} after {} records", errname(&e), v.len())),
        }
    }
    Ok(v)
}

/// everything a reader shows must be `list`
pub fn agrees<S: Read + Write + Seek>(r: &mut Reader<S>, list: &[Pkt], full: bool) -> Result<(), String> {
    let n = list.len();
    if r.count() != n {
        return Err(format!("count() {} instead of {n}", r.count()));
    }
    let got = collect(r.iter()).map_err(|e| format!("iter(): {e}"))?;
    if got != list {
        let i = got.iter().zip(list).position(|(a, b)| a != b).unwrap_or(got.len().min(n));
        return Err(format!("iter() shows {} instead of {} (first difference at {i})", show(&got), show(list)));
    }
    let mut idx: Vec<usize> = if full { (0..n).collect() } else { vec![] };
    for k in [0, 1, CAP - 1, CAP, CAP + 1, 2 * CAP - 1, 2 * CAP, 3 * CAP, 4 * CAP + 1, 5 * CAP - 1, n.wrapping_sub(2), n.wrapping_sub(1)] {
        if k < n {
            idx.push(k);
        }
    }
    for k in idx {
        match r.nth(k) {
            Ok(Some(p)) if Pkt::of(&p) == list[k] => {}
            Ok(Some(p)) => return Err(format!("nth({k}) is {:?} instead of {:?}", Pkt::of(&p), list[k])),
            Ok(None) => return Err(format!("nth({k}) is nothing, there are {n} records")),
            Err(e) => return Err(format!("nth({k}): {}", errname(&e))),
        }
    }
    for k in [n, n + 1] {
        match r.nth(k) {
            Ok(None) | Err(Error::OutOfBounds(..)) => {}
            Ok(Some(p)) => return Err(format!("nth({k}) is {:?}, there are {n} records", Pkt::of(&p))),
            Err(e) => return Err(format!("nth({k}): {}, there are {n} records", errname(&e))),
        }
    }
    Ok(())
}

pub fn image_shows(img: &[u8], list: &[Pkt]) -> Result<(), String> {
    match catch(|| {
        let mut r = Reader::new(Cursor::new(img.to_vec())).map_err(|e| format!("opening: {}", errname(&e)))?;
        agrees(&mut r, list, false)
    }) {
        Ok(r) => r,
        Err(p) => Err(format!("panic {p}")),
    }
}

/// which packets the extractor finds in the raw file
pub fn extracted(img: &[u8]) -> Vec<Pkt> {
    let t = extract(&mut Cursor::new(img), 4 * img.len() + 100);
    t.found().into_iter().cloned().collect()
}
/// is `a` a subsequence of `b`
pub fn within(a: &[Pkt], b: &[Pkt]) -> bool {
    let mut i = 0;
    for x in b {
        if i < a.len() && a[i] == *x {
            i += 1;
        }
    }
    i == a.len()
}

// ------------------------------------------------------------------------------------- P13 / P02

const BASES: &[usize] = &[0, 1, 2, 498, 499, 500, 501, 998, 999, 1000, 1001];

/// layout of the file after insertions (part of P02)
pub fn layout(ctx: &Ctx) {
    // every number of records 0..=1003, one insertion at a time through one writer
    let top = if ctx.thorough { 2002 } else { 1003 };
    ctx.group("storage layout", top as u64);
    let dev = Dev::new(vec![]);
    let mut w = match Writer::new(dev.handle()) {
        Ok(w) => w,
        Err(e) => return ctx.violation(format!("opening an empty storage: {}", errname(&e))),
    };
    let mut want: Vec<Vec<u8>> = vec![];
    for i in 0..top {
        let p = rec(i);
        if let Err(e) = w.insert(p.real()) {
            return ctx.violation(format!("insertion {i}: {}", errname(&e)));
        }
        want.push(refc::packet(&p));
        ctx.st(1);
        ctx.tr(1);
        ctx.trace(1);
        tick();
        let img = dev.image();
        if let Err(e) = laid_out(&img, &want) {
            return ctx.violation(format!("storage file after {} insertions: {e}", i + 1));
        }
    }
}

/// the published layout; an additional empty slot at the end is not a difference
fn laid_out(img: &[u8], want: &[Vec<u8>]) -> Result<(), String> {
    let expected = refc::storage(want);
    if img == expected {
        return Ok(());
    }
    if want.len() % CAP == 0 && img.len() == expected.len() + refc::SLOT_SIZE && img.starts_with(&expected) && img.ends_with(&refc::slot(&[])) {
        return Ok(());
    }
    let at = img.iter().zip(&expected).position(|(a, b)| a != b).unwrap_or(img.len().min(expected.len()));
    Err(format!(
        "{} bytes, expected {}; first difference at {at}: {} instead of {}",
        img.len(),
        expected.len(),
        hex(&img[at..img.len().min(at + 24)]),
        hex(&expected[at..expected.len().min(at + 24)])
    ))
}

struct Style {
    name: &'static str,
    read: usize,
    write: usize,
    interrupt: usize,
}
const STYLES: &[Style] = &[
    Style { name: "plain", read: usize::MAX, write: usize::MAX, interrupt: 0 },
    Style { name: "short transfers", read: 7, write: 5, interrupt: 0 },
    Style { name: "short and interrupted", read: 1000, write: 64, interrupt: 3 },
];

pub fn run13(ctx: &Ctx) {
    crate::huge::explore(ctx, 13);
    layout(ctx);
    // 0..3 insert fresh record of that kind, 3 reopen writer, 4 look with a new reader, 5 look with an old reader
    let depth = if ctx.thorough { 7 } else { 5 };
    let seqs: Vec<Vec<usize>> = sequences(5, depth).into_iter().filter(|s| s.len() == depth as usize).collect();
    ctx.group("histories", (seqs.len() * BASES.len() * STYLES.len()) as u64);
    let bases: Vec<(Vec<u8>, Vec<Pkt>)> = BASES.iter().map(|&b| (base_image(b), base_list(b))).collect();
    par(ctx, bases.len() * seqs.len(), |k| {
        let (b, s) = (k % bases.len(), &seqs[k / bases.len()]);
        for st in STYLES {
            if st.name != "plain" && s[..2] != [0, 1] && !(ctx.thorough && BASES[b] < 3) {
                continue;
            }
            let what = || format!("base {} records, file {}, history {:?} (0-2 insert, 3 reopen writer, 4 open reader)", BASES[b], st.name, s);
            case(&what());
            ctx.st(1);
            ctx.trace(1);
            let r = catch(|| history(ctx, &bases[b], s, st));
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => ctx.violation(format!("{e}\n{}", what())),
                Err(p) => ctx.violation(format!("panic {p}\n{}", what())),
            }
        }
    });
    long_runs(ctx);
    real_files(ctx);
    ctx.assume("the in-memory file behaves as a regular file: validated by running the histories on real files as well and comparing the bytes");
}

/// many groups: one long run of insertions, the writer reopened at every combination of group boundaries
fn long_runs(ctx: &Ctx) {
    let top = if ctx.thorough { 9 * CAP + 3 } else { 6 * CAP + 3 };
    let points: Vec<usize> = (1..=top / CAP).map(|g| g * CAP).collect();
    let masks = if ctx.thorough { 1usize << points.len() } else { 32 };
    ctx.group("long runs", (3 * masks) as u64);
    par(ctx, 3 * masks, |k| {
        // before, at or after the boundary
        let (d, mask) = (k % 3, k / 3);
        let at: Vec<usize> = points.iter().enumerate().filter(|(i, _)| mask >> (i % 5) & 1 == 1).map(|(_, p)| p + d - 1).collect();
        let what = || format!("{top} insertions, the writer reopened after {at:?}");
        case(&what());
        ctx.st(1);
        ctx.trace(1);
        let r = catch(|| -> Result<(), String> {
            let dev = Dev::new(vec![]);
            let list = base_list(top);
            let mut w = Writer::new(dev.handle()).map_err(|e| errname(&e))?;
            let mut r = Reader::new(dev.handle()).map_err(|e| errname(&e))?;
            for i in 0..top {
                if at.contains(&i) {
                    w = Writer::new(dev.handle()).map_err(|e| format!("reopening after {i}: {}", errname(&e)))?;
                }
                ctx.tr(1);
                w.insert(list[i].real()).map_err(|e| format!("insertion {i}: {}", errname(&e)))?;
                if i % CAP == 0 && mask == 0 {
                    image_shows(&dev.image(), &list[..i + 1]).map_err(|e| format!("after insertion {i}: {e}"))?;
                    r.reload().map_err(|e| errname(&e))?;
                    agrees(&mut r, &list[..i + 1], false).map_err(|e| format!("after insertion {i}, refreshed: {e}"))?;
                }
            }
            image_shows(&dev.image(), &list)
        })
        .unwrap_or_else(|p| Err(format!("panic {p}")));
        if let Err(e) = r {
            ctx.violation(format!("{e}\n{}", what()));
        }
    });
}

fn history(ctx: &Ctx, base: &(Vec<u8>, Vec<Pkt>), s: &[usize], st: &Style) -> Result<(), String> {
    let dev = Dev::new(base.0.clone());
    {
        let mut sh = dev.s.borrow_mut();
        sh.max_read = st.read;
        sh.max_write = st.write;
        sh.interrupt = st.interrupt;
    }
    let mut list = base.1.clone();
    let mut w = Writer::new(dev.handle()).map_err(|e| format!("opening the writer: {}", errname(&e)))?;
    for (i, &o) in s.iter().enumerate() {
        ctx.tr(1);
        match o {
            0..=2 => {
                let p = fresh(o + 3 * i);
                w.insert(p.real()).map_err(|e| format!("step {i}: insertion fails: {}", errname(&e)))?;
                list.push(p);
            }
            3 => {
                drop(w);
                w = Writer::new(dev.handle()).map_err(|e| format!("step {i}: reopening the writer: {}", errname(&e)))?;
            }
            _ => {
                let mut r = Reader::new(dev.handle()).map_err(|e| format!("step {i}: opening a reader: {}", errname(&e)))?;
                agrees(&mut r, &list, st.name == "plain" && list.len() < 20).map_err(|e| format!("step {i}: {e}"))?;
            }
        }
    }
    let mut r = Reader::new(dev.handle()).map_err(|e| format!("at the end, opening a reader: {}", errname(&e)))?;
    agrees(&mut r, &list, false).map_err(|e| format!("at the end: {e}"))
}

pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let shm = std::path::Path::new("/dev/shm");
        let root = if shm.is_dir() && std::fs::write(shm.join(format!(".v{}", std::process::id())), b"x").is_ok() {
            let _ = std::fs::remove_file(shm.join(format!(".v{}", std::process::id())));
            shm.to_path_buf()
        } else {
            std::env::temp_dir()
        };
        let p = root.join(format!("verif-{tag}-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn open_file(p: &std::path::Path) -> std::fs::File {
    std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).unwrap()
}

/// the same histories on real files: the model of a file is validated against the real one
fn real_files(ctx: &Ctx) {
    let dir = Scratch::new("p13");
    let seqs = sequences(4, if ctx.thorough { 6 } else { 4 });
    let bases = [0usize, 1, 499, 500];
    ctx.group("histories on real files", (seqs.len() * bases.len()) as u64);
    par(ctx, bases.len() * seqs.len(), |k| {
        let (b, s) = (bases[k % bases.len()], &seqs[k / bases.len()]);
        let path = dir.0.join(format!("f{k}"));
        let img = base_image(b);
        std::fs::write(&path, &img).unwrap();
        let what = || format!("real file, base {b} records, history {s:?}");
        case(&what());
        ctx.st(1);
        ctx.trace(1);
        let r = catch(|| -> Result<(), String> {
            let e = |e: Error| errname(&e);
            let dev = Dev::new(img.clone());
            let mut list = base_list(b);
            let mut w = Writer::new(open_file(&path)).map_err(e)?;
            let mut d = Writer::new(dev.handle()).map_err(e)?;
            for (i, &o) in s.iter().enumerate() {
                ctx.tr(1);
                if o < 3 {
                    let p = fresh(o + 3 * i);
                    w.insert(p.real()).map_err(e)?;
                    d.insert(p.real()).map_err(e)?;
                    list.push(p);
                } else {
                    w = Writer::new(open_file(&path)).map_err(e)?;
                    d = Writer::new(dev.handle()).map_err(e)?;
                }
            }
            let real = std::fs::read(&path).unwrap();
            if real != dev.image() {
                return Err("the real file and the in-memory file differ".into());
            }
            let mut r = Reader::new(open_file(&path)).map_err(e)?;
            agrees(&mut r, &list, false)
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ctx.violation(format!("{e}\n{}", what())),
            Err(p) => ctx.violation(format!("panic {p}\n{}", what())),
        }
        let _ = std::fs::remove_file(&path);
    });
}

// ------------------------------------------------------------------------------------- P14

fn sizes14(ctx: &Ctx) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, 498, 499, 500, 501, 502, 999, 1000, 1001, 1500, 1501, 2001, 2999, 4500];
    if ctx.thorough {
        v.extend([4, 5, 250, 497, 503, 998, 1002, 1499, 1502, 1999, 2000, 2001]);
    }
    v
}

fn out_of_range<T>(r: &Result<T, Error>) -> bool {
    matches!(r, Err(Error::OutOfBounds(..)) | Err(Error::EmptySource))
}

pub fn run14(ctx: &Ctx) {
    crate::huge::explore(ctx, 14);
    let ns = sizes14(ctx);
    ctx.group("storage sizes", ns.len() as u64);
    // 1. every index
    let mut items: Vec<(usize, usize)> = vec![];
    for &n in &ns {
        for part in 0..8 {
            items.push((n, part));
        }
    }
    par(ctx, items.len(), |k| {
        let (n, part) = items[k];
        let list = base_list(n);
        let mut r = match Reader::new(Cursor::new(base_image(n))) {
            Ok(r) => r,
            Err(e) => return ctx.violation(format!("opening a storage of {n} records: {}", errname(&e))),
        };
        let mut idx: Vec<usize> = (0..n + 1010).filter(|i| i % 8 == part).collect();
        if part == 0 {
            idx.extend([2_000_000, usize::MAX / 2, usize::MAX - 1, usize::MAX]);
        }
        for i in idx {
            ctx.st(1);
            ctx.tr(2);
            ctx.trace(2);
            case(&format!("{n} records, index {i}"));
            // by index
            match r.nth(i) {
                Ok(Some(p)) => {
                    if list.get(i) != Some(&Pkt::of(&p)) {
                        ctx.violation(format!("nth({i}) of {n} records returns {:?}", Pkt::of(&p)));
                    }
                }
                Ok(None) | Err(Error::OutOfBounds(..)) if i >= n => {}
                r => ctx.violation(format!("nth({i}) of {n} records answers {:?}", r.map(|_| ()).map_err(|e| errname(&e)))),
            }
            // from a position
            let res = r.seek(i);
            if i >= n && out_of_range(&res) {
                continue;
            }
            match res {
                Err(e) => ctx.violation(format!("seek({i}) of {n} records: {}", errname(&e))),
                Ok(it) => {
                    // the rest completely near the boundaries, else the next three
                    let near = i % CAP < 2 || i % CAP > CAP - 3 || n.saturating_sub(i) < 4;
                    let take = if near { usize::MAX } else { 3 };
                    match collect(it.take(take)) {
                        Ok(v) => {
                            let rest = list.get(i..).unwrap_or(&[]);
                            let want = &rest[..rest.len().min(take)];
                            if v != want {
                                ctx.violation(format!("iterating from {i} of {n} records shows {}, expected {}", show(&v), show(want)));
                            }
                        }
                        Err(e) => ctx.violation(format!("iterating from {i} of {n} records: {e}")),
                    }
                }
            }
            if ctx.stopped() {
                return;
            }
        }
    });
    // 2. every range
    let lens: Vec<usize> = vec![0, 1, 2, 3, 499, 500, 501, 502, 1000, 5000, usize::MAX - 1, usize::MAX];
    par(ctx, items.len(), |k| {
        let (n, part) = items[k];
        let list = base_list(n);
        let mut r = Reader::new(Cursor::new(base_image(n))).unwrap();
        let mut rf = Reader::new(Cursor::new(base_image(n))).unwrap();
        rf.add_rule(Rule::Filter(brec::RuleFnDef::Static(|p: &Packet| p.payload.is_some()))).unwrap();
        let acc = |p: &Pkt| p.payload.is_some();
        let mut froms: Vec<usize> = (0..n + 3).filter(|i| i % CAP < 3 || i % CAP > CAP - 4 || n.abs_diff(*i) < 4 || i % 97 == 0).collect();
        froms.extend([n + 500, n + 1000, usize::MAX / 2, usize::MAX - 1, usize::MAX]);
        for (j, &from) in froms.iter().enumerate() {
            if j % 8 != part {
                continue;
            }
            for &len in &lens {
                ctx.st(1);
                ctx.tr(2);
                ctx.trace(2);
                case(&format!("{n} records, range({from}, {len})"));
                let rest = list.get(from..).unwrap_or(&[]);
                let want: Vec<Pkt> = rest.iter().take(len).cloned().collect();
                let mut it = r.range(from, len);
                let got = collect(it.by_ref());
                let beyond = from >= n && matches!(&got, Err(e) if e.starts_with("OutOfBounds"));
                if !beyond && got.as_ref() != Ok(&want) {
                    ctx.violation(format!("range({from}, {len}) of {n} records: {:?}, expected {}", got.map(|v| show(&v)), show(&want)));
                }
                let want: Vec<Pkt> = rest.iter().filter(|p| acc(p)).take(len).cloned().collect();
                let got = collect(rf.range_filtered(from, len));
                let beyond = from >= n && matches!(&got, Err(e) if e.starts_with("OutOfBounds"));
                if !beyond && got.as_ref() != Ok(&want) {
                    ctx.violation(format!("range_filtered({from}, {len}) of {n} records: {:?}, expected {}", got.map(|v| show(&v)), show(&want)));
                }
                if ctx.stopped() {
                    return;
                }
            }
        }
    });
    // 3. sequences of reads, some abandoned half way
    let ops: Vec<(&str, fn(&mut Reader<Cursor<Vec<u8>>>, usize, &[Pkt]) -> Result<(), String>)> = vec![
        ("nth(last)", |r, n, l| nth_is(r, n.wrapping_sub(1), l)),
        ("nth(first)", |r, _, l| nth_is(r, 0, l)),
        ("nth(beyond)", |r, n, l| nth_is(r, n + 1, l)),
        ("iter, 2 steps", |r, _, l| same(collect(r.iter().take(2)), &l[..l.len().min(2)])),
        ("iter", |r, _, l| same(collect(r.iter()), l)),
        ("filtered, 1 step", |r, _, l| same(collect(r.filtered().take(1)), &l.iter().filter(|p| p.payload.is_some()).take(1).cloned().collect::<Vec<_>>())),
        ("filtered", |r, _, l| same(collect(r.filtered()), &l.iter().filter(|p| p.payload.is_some()).cloned().collect::<Vec<_>>())),
        ("seek(middle), 1 step", |r, n, l| match r.seek(n / 2) {
            Ok(it) => same(collect(it.take(1)), &l[n / 2..(n / 2 + 1).min(n)]),
            r if n == 0 && out_of_range(&r) => Ok(()),
            Err(e) => Err(errname(&e)),
        }),
        ("seek(beyond)", |r, n, _| match r.seek(n + 5) {
            Ok(it) => same(collect(it), &[]),
            r if out_of_range(&r) => Ok(()),
            Err(e) => Err(errname(&e)),
        }),
        ("range(499, 2), 1 step", |r, _, l| same(collect(r.range(499, 2).take(1)), &l.iter().skip(499).take(1).cloned().collect::<Vec<_>>())),
        ("range_filtered(1, 2)", |r, _, l| same(collect(r.range_filtered(1, 2)), &l.iter().skip(1).filter(|p| p.payload.is_some()).take(2).cloned().collect::<Vec<_>>())),
        ("reload", |r, _, _| match r.reload() {
            Ok(0) => Ok(()),
            r => Err(format!("{:?}", r.map_err(|e| errname(&e)))),
        }),
        ("count", |r, n, _| if r.count() == n { Ok(()) } else { Err(format!("{}", r.count())) }),
    ];
    let seqs = sequences(ops.len(), if ctx.thorough { 4 } else { 3 });
    let sizes = [0usize, 1, 3, 499, 500, 501, 1001];
    ctx.group("sequences of reads", (seqs.len() * sizes.len()) as u64);
    let bases: Vec<_> = sizes.iter().map(|&n| (n, base_image(n), base_list(n))).collect();
    par(ctx, seqs.len(), |k| {
        for (n, img, list) in &bases {
            if ctx.thorough && seqs[k].len() == 4 && *n > 501 {
                continue;
            }
            let mut r = Reader::new(Cursor::new(img.clone())).unwrap();
            r.add_rule(Rule::Filter(brec::RuleFnDef::Static(|p: &Packet| p.payload.is_some()))).unwrap();
            ctx.st(1);
            ctx.trace(1);
            case(&format!("{n} records, reads {:?}", seqs[k]));
            for (j, &o) in seqs[k].iter().enumerate() {
                ctx.tr(1);
                let res = catch(|| ops[o].1(&mut r, *n, list)).unwrap_or_else(|p| Err(format!("panic {p}")));
                if let Err(e) = res {
                    ctx.violation(format!("{n} records: after {:?}, {}: {e}", seqs[k][..j].iter().map(|&o| ops[o].0).collect::<Vec<_>>(), ops[o].0));
                    break;
                }
            }
        }
    });
}
fn nth_is<S: Read + Write + Seek>(r: &mut Reader<S>, i: usize, l: &[Pkt]) -> Result<(), String> {
    match r.nth(i) {
        Ok(p) => {
            let p = p.map(|p| Pkt::of(&p));
            if p.as_ref() == l.get(i) {
                Ok(())
            } else {
                Err(format!("nth({i}) is {p:?}"))
            }
        }
        Err(Error::OutOfBounds(..)) if i >= l.len() => Ok(()),
        Err(e) => Err(format!("nth({i}) {}", errname(&e))),
    }
}
fn same(got: Result<Vec<Pkt>, String>, want: &[Pkt]) -> Result<(), String> {
    match got {
        Ok(v) if v == want => Ok(()),
        Ok(v) => Err(format!("shows {}, expected {}", show(&v), show(want))),
        Err(e) => Err(e),
    }
}

// ------------------------------------------------------------------------------------- P15

pub fn run15(ctx: &Ctx) {
    crate::huge::explore(ctx, 15);
    let mut ns: Vec<usize> = vec![0, 1, 2, 3, 498, 499, 500, 501, 502, 998, 999, 1000, 1001, 1002, 1499, 1500, 1501, 2100, 3001];
    if ctx.thorough {
        ns.extend([4, 250, 4500, 497, 503, 750, 1498, 1502, 1999, 2000, 2001]);
        ns.sort();
    }
    let steps = if ctx.thorough { 4 } else { 3 };
    // every non-decreasing sequence of sizes: the size at opening and at every refresh
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..=steps - 1 {
        let mut nx = vec![];
        for s in &seqs {
            let from = s.last().copied().unwrap_or(0);
            for i in from..ns.len() {
                let mut t = s.clone();
                t.push(i);
                nx.push(t);
            }
        }
        seqs = nx;
    }
    ctx.group("histories of growth and refresh", seqs.len() as u64);
    let bases: Vec<_> = ns.iter().map(|&n| (base_image(n), base_list(n))).collect();
    par(ctx, seqs.len(), |k| {
        let s = &seqs[k];
        let what = || format!("sizes {:?}", s.iter().map(|&i| ns[i]).collect::<Vec<_>>());
        case(&what());
        ctx.st(1);
        ctx.trace(1);
        let dev = Dev::new(bases[s[0]].0.clone());
        let r = catch(|| -> Result<(), String> {
            let mut r = Reader::new(dev.handle()).map_err(|e| errname(&e))?;
            r.add_rule(Rule::Filter(brec::RuleFnDef::Static(|p: &Packet| p.payload.is_none()))).unwrap();
            let mut at = ns[s[0]];
            for (j, &i) in s[1..].iter().enumerate() {
                // the position in the file must not matter
                match (k + j) % 4 {
                    0 => {
                        let _ = r.iter().take(2).count();
                    }
                    1 => {
                        let _ = r.nth(at / 2);
                    }
                    2 => {
                        let _ = r.seek(at.saturating_sub(1)).map(|i| i.count());
                    }
                    _ => {}
                }
                dev.set_image(&bases[i].0);
                // unseen yet
                if r.count() != at {
                    return Err(format!("before refresh {j}: count() {}, expected {at}", r.count()));
                }
                ctx.tr(2);
                let n = r.reload().map_err(|e| format!("refresh {j} fails: {}", errname(&e)))?;
                if n != ns[i] - at {
                    return Err(format!("refresh {j} reports {n} new records, expected {}", ns[i] - at));
                }
                at = ns[i];
                let n = r.reload().map_err(|e| format!("second refresh {j} fails: {}", errname(&e)))?;
                if n != 0 {
                    return Err(format!("refresh {j} without change reports {n}"));
                }
                agrees(&mut r, &bases[i].1, false).map_err(|e| format!("after refresh {j}: {e}"))?;
                if j + 2 == s.len() {
                    let want: Vec<Pkt> = bases[i].1.iter().filter(|p| p.payload.is_none()).cloned().collect();
                    same(collect(r.filtered()), &want).map_err(|e| format!("after refresh {j}, filtered: {e}"))?;
                    for from in [0, at.saturating_sub(2), 499, 500] {
                        let want: Vec<Pkt> = bases[i].1.iter().skip(from).take(4).cloned().collect();
                        same(collect(r.range(from, 4)), &want).map_err(|e| format!("after refresh {j}, range({from}, 4): {e}"))?;
                        if from < at {
                            same(collect(r.seek(from).map_err(|e| errname(&e))?.take(4)), &want).map_err(|e| format!("after refresh {j}, seek({from}): {e}"))?;
                        }
                    }
                }
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ctx.violation(format!("{e}\n{}", what())),
            Err(p) => ctx.violation(format!("panic {p}\n{}", what())),
        }
    });
    // with the real writer on the same file: all sequences of insert / refresh / reopen writer
    // and insertion interrupted (the writing process stops) followed by reopening
    let depth = if ctx.thorough { 8 } else { 6 };
    let mut seqs: Vec<Vec<usize>> = sequences(4, depth).into_iter().filter(|s| s.len() == depth as usize).collect();
    let depth = if ctx.thorough { 9 } else { 7 };
    seqs.extend(sequences(3, depth).into_iter().filter(|s| s.len() == depth as usize));
    let starts = [0usize, 1, 497, 498, 499, 500, 999];
    ctx.group("histories with a live writer", (seqs.len() * starts.len()) as u64);
    let bases: Vec<_> = starts.iter().map(|&n| (base_image(n), base_list(n))).collect();
    par(ctx, seqs.len() * starts.len(), |k| {
        let (b, s) = (k % starts.len(), &seqs[k / starts.len()]);
        let what = || format!("base {}, history {s:?} (0 insert, 1 refresh, 2 reopen writer, 3 interrupted insertion, then reopen writer)", starts[b]);
        case(&what());
        ctx.st(1);
        ctx.trace(1);
        let r = catch(|| -> Result<(), String> {
            let dev = Dev::new(bases[b].0.clone());
            let mut w = Writer::new(dev.handle()).map_err(|e| errname(&e))?;
            let mut r = Reader::new(dev.handle()).map_err(|e| errname(&e))?;
            let mut list = bases[b].1.clone();
            let mut seen = list.len();
            for (i, &o) in s.iter().chain(&[1]).enumerate() {
                ctx.tr(1);
                match o {
                    0 => {
                        let p = fresh(i);
                        w.insert(p.real()).map_err(|e| errname(&e))?;
                        list.push(p);
                    }
                    1 => {
                        let n = r.reload().map_err(|e| format!("step {i}: refresh fails: {}", errname(&e)))?;
                        if n != list.len() - seen {
                            return Err(format!("step {i}: refresh reports {n}, expected {}", list.len() - seen));
                        }
                        seen = list.len();
                    }
                    3 => {
                        let img = dev.image();
                        dev.take_log();
                        w.insert(fresh(2 + i % 3).real()).map_err(|e| errname(&e))?;
                        drop(w);
                        let done = dev.take_log();
                        // without the last write or two of them, or in the middle of the first
                        let (j, cut) = match i % 3 {
                            0 => (done.len() - 1, 0),
                            1 => (done.len() - 1, 1),
                            _ => (0, done[0].1.len() / 2),
                        };
                        let cut = if j + 1 == done.len() && list.len() % CAP != 0 && cut > 0 { 0 } else { cut };
                        dev.set_image(&crashed(&img, &done, j, cut));
                        w = Writer::new(dev.handle()).map_err(|e| format!("after an interrupted insertion: {}", errname(&e)))?;
                    }
                    _ => {
                        drop(w);
                        w = Writer::new(dev.handle()).map_err(|e| errname(&e))?;
                    }
                }
                if r.count() != seen {
                    return Err(format!("step {i}: count() {} instead of {seen}", r.count()));
                }
                if seen > 0 {
                    nth_is(&mut r, seen - 1, &list[..seen]).map_err(|e| format!("step {i}: {e}"))?;
                }
                nth_is(&mut r, seen, &list[..seen]).map_err(|e| format!("step {i}: {e}"))?;
            }
            agrees(&mut r, &list, false)
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ctx.violation(format!("{e}\n{}", what())),
            Err(p) => ctx.violation(format!("panic {p}\n{}", what())),
        }
    });
}


// ------------------------------------------------------------------------------------- P16

/// one writer run: opens the image, inserts the packets; the effective writes and the image
type Writes = Vec<(u64, Vec<u8>)>;
struct Run {
    /// all writes in order; `acked[i]` = number of writes after which insertion i was acknowledged
    writes: Writes,
    acked: Vec<usize>,
}
fn writer_run(img: &[u8], ps: &[Pkt]) -> Result<Run, String> {
    let dev = Dev::new(img.to_vec());
    let mut w = Writer::new(dev.handle()).map_err(|e| format!("opening the writer: {}", errname(&e)))?;
    let mut acked = vec![];
    for p in ps {
        w.insert(p.real()).map_err(|e| format!("insertion: {}", errname(&e)))?;
        acked.push(dev.s.borrow().log.len());
    }
    Ok(Run { writes: dev.take_log(), acked })
}
fn writer_run_caught(img: &[u8], ps: &[Pkt]) -> Result<Run, String> {
    catch(|| writer_run(img, ps)).unwrap_or_else(|p| Err(format!("panic {p}")))
}

/// image after `j` complete writes and `cut` bytes of the next one
fn crashed(img: &[u8], w: &Writes, j: usize, cut: usize) -> Vec<u8> {
    let mut d = img.to_vec();
    for (pos, b) in &w[..j] {
        apply(&mut d, *pos, b);
    }
    if cut > 0 {
        let (pos, b) = &w[j];
        apply(&mut d, *pos, &b[..cut]);
    }
    d
}

/// positions of the slots that exist in an image written from the list
fn slot_positions(list: &[Pkt], img: &[u8]) -> Vec<u64> {
    let mut v = vec![];
    let mut pos = 0u64;
    for (i, p) in list.iter().enumerate() {
        if i % CAP == 0 {
            v.push(pos);
            pos += refc::SLOT_SIZE as u64;
        }
        pos += refc::packet(p).len() as u64;
    }
    // a slot without records yet
    let at = pos as usize;
    if list.len() % CAP == 0 && img.len() >= at + refc::SLOT_SIZE && img[at..].starts_with(&refc::SLOT_SIG) {
        v.push(pos);
    }
    v
}
fn touches_slot(slots: &[u64], pos: u64, len: usize) -> bool {
    slots.iter().any(|&s| pos < s + refc::SLOT_SIZE as u64 && s < pos + len as u64)
}

#[derive(Clone)]
struct Base {
    name: String,
    img: Vec<u8>,
    list: Vec<Pkt>,
}

/// storages as they may be found, including with rests of an interrupted insertion
fn bases16(small: bool) -> Vec<Base> {
    let mut v = vec![];
    let ns: &[usize] = if small { &[0, 1, 498, 499, 500] } else { &[0, 1, 2, 498, 499, 500, 501, 998, 999, 1000] };
    for &n in ns {
        v.push(Base { name: format!("{n} records"), img: base_image(n), list: base_list(n) });
    }
    for &n in if small { &[1usize, 499][..] } else { &[0, 1, 498, 499, 999][..] } {
        // a longer record and, behind it, anything
        for (what, rest) in [
            ("a complete unacknowledged record", refc::packet(&fresh(2))),
            ("rests of records", [refc::packet(&fresh(1)), refc::packet(&fresh(2)), refc::packet(&fresh(5))[..100].to_vec()].concat()),
            ("an old slot and records", [refc::packet(&fresh(0)), refc::slot(&[46, 46]), refc::packet(&fresh(3)), refc::packet(&fresh(3))].concat()),
        ] {
            let mut img = base_image(n);
            if n == 0 {
                img.extend(refc::slot(&[]));
            }
            img.extend(rest);
            v.push(Base { name: format!("{n} records and {what}"), img, list: base_list(n) });
        }
    }
    v
}

/// the storage left behind: returns the list it shows, or None if it says the metadata is damaged
fn left_behind(img: &[u8], allowed: &[&[Pkt]], may_be_damaged: bool) -> Result<Option<usize>, String> {
    catch(|| {
        match Reader::new(Cursor::new(img.to_vec())) {
            Ok(mut r) => {
                let n = r.count();
                let Some(i) = allowed.iter().position(|l| l.len() == n) else {
                    return Err(format!("shows {n} records, expected {:?}", allowed.iter().map(|l| l.len()).collect::<Vec<_>>()));
                };
                agrees(&mut r, allowed[i], false)?;
                match Writer::new(Cursor::new(img.to_vec())) {
                    Ok(_) => Ok(Some(i)),
                    Err(e) => Err(format!("a reader opens the storage, a writer does not: {}", errname(&e))),
                }
            }
            Err(e) => {
                if !may_be_damaged {
                    return Err(format!("cannot be opened: {}", errname(&e)));
                }
                if !matches!(e, Error::DamagedSlot(_)) {
                    return Err(format!("damage of metadata reported as {}", errname(&e)));
                }
                let ex = extracted(img);
                if !within(allowed[0], &ex) {
                    return Err(format!("metadata is damaged and the extractor finds {}, expected {}", show(&ex), show(allowed[0])));
                }
                Ok(None)
            }
        }
    })
    .unwrap_or_else(|p| Err(format!("panic {p}")))
}

pub fn run16(ctx: &Ctx) {
    let bases = bases16(false);
    ctx.group("initial storages", bases.len() as u64);
    // crash points: (base, record being inserted, second record)
    struct Item {
        base: usize,
        ins: usize,
    }
    let mut items = vec![];
    for base in 0..bases.len() {
        for ins in 0..3 {
            items.push(Item { base, ins });
        }
    }
    // 1. two insertions, a crash anywhere in the second or the first; then two more insertions
    let jobs = std::sync::Mutex::new(vec![]);
    par(ctx, items.len(), |k| {
        let it = &items[k];
        let b = &bases[it.base];
        case(&b.name);
        let ps = [fresh(it.ins), fresh(it.ins + 4)];
        match writer_run_caught(&b.img, &ps) {
            Err(e) => ctx.violation(format!("{e} ({})", b.name)),
            Ok(run) => {
                for j in 0..run.writes.len() {
                    // every byte of every write; a slot is written in large uniform parts
                    let len = run.writes[j].1.len();
                    let mut cuts: Vec<usize> = (0..len).collect();
                    if !ctx.thorough && len > 1000 {
                        let idx = b.list.len() % CAP;
                        cuts.retain(|&c| c < 40 || c > len - 24 || c % 61 == 0 || (c as i64 - (16 + 8 * idx) as i64).abs() < 24);
                    }
                    for chunk in cuts.chunks(64) {
                        jobs.lock().unwrap().push((it.base, it.ins, j, chunk.to_vec()));
                    }
                }
                jobs.lock().unwrap().push((it.base, it.ins, run.writes.len(), vec![0]));
            }
        }
    });
    let jobs = jobs.into_inner().unwrap();
    ctx.group("crash points", jobs.iter().map(|j| j.3.len() as u64).sum());
    par(ctx, jobs.len(), |k| {
        let (base, ins, j, cuts) = &jobs[k];
        let b = &bases[*base];
        let ps = [fresh(*ins), fresh(*ins + 4)];
        let Ok(run) = writer_run_caught(&b.img, &ps) else { return };
        let done = run.acked.iter().filter(|a| *a <= j).count();
        for &cut in cuts {
            let img = crashed(&b.img, &run.writes, *j, cut);
            let what = || {
                format!(
                    "{}, inserting {:?} (writes of {:?} bytes), crash after {j} writes and {cut} bytes of the next",
                    b.name,
                    [ins, &(ins + 4)],
                    run.writes.iter().map(|w| (w.0, w.1.len())).collect::<Vec<_>>()
                )
            };
            case(&what());
            ctx.st(1);
            ctx.trace(1);
            ctx.tr(3);
            let mut acked = b.list.clone();
            acked.extend_from_slice(&ps[..done]);
            let mut more = acked.clone();
            if done < 2 {
                more.push(ps[done].clone());
            }
            let tear = cut > 0 && touches_slot(&slot_positions(&acked, &img), run.writes[*j].0, run.writes[*j].1.len());
            match left_behind(&img, &[&acked, &more], tear) {
                Err(e) => ctx.violation(format!("{e}\n{}", what())),
                Ok(None) => {}
                Ok(Some(i)) => {
                    // life goes on
                    let mut list = if i == 0 { acked } else { more };
                    let next = [fresh(7), fresh(8), fresh(3)];
                    let r = writer_run_caught(&img, &next);
                    match r {
                        Err(e) => ctx.violation(format!("after the crash: {e}\n{}", what())),
                        Ok(r2) => {
                            let after = crashed(&img, &r2.writes, r2.writes.len(), 0);
                            let keep = list.clone();
                            list.extend_from_slice(&next);
                            if let Err(e) = image_shows(&after, &list) {
                                ctx.violation(format!("after the crash and three more insertions: {e}\n{}", what()));
                            }
                            // 2. a second crash, at every write boundary and in the middle of every write
                            if cut == 0 || ctx.thorough && cut % 16 == 1 {
                                for j2 in 0..r2.writes.len() {
                                    let l2 = r2.writes[j2].1.len();
                                    for cut2 in [0, 1, 29.min(l2 - 1), l2 / 2, l2 - 1] {
                                        let img2 = crashed(&img, &r2.writes, j2, cut2);
                                        let d2 = r2.acked.iter().filter(|a| **a <= j2).count();
                                        let mut a2 = keep.clone();
                                        a2.extend_from_slice(&next[..d2]);
                                        let mut m2 = a2.clone();
                                        if d2 < next.len() {
                                            m2.push(next[d2].clone());
                                        }
                                        ctx.st(1);
                                        ctx.trace(1);
                                        ctx.tr(3);
                                        let tear = cut2 > 0 && touches_slot(&slot_positions(&a2, &img2), r2.writes[j2].0, l2);
                                        let w2 = || format!("{}; then reopened, three insertions, crash after {j2} writes and {cut2} bytes", what());
                                        match left_behind(&img2, &[&a2, &m2], tear) {
                                            Err(e) => ctx.violation(format!("{e}\n{}", w2())),
                                            Ok(None) => {}
                                            Ok(Some(i)) => {
                                                let mut l = if i == 0 { a2 } else { m2 };
                                                let last = [fresh(4), fresh(0)];
                                                match writer_run_caught(&img2, &last) {
                                                    Err(e) => ctx.violation(format!("after the second crash: {e}\n{}", w2())),
                                                    Ok(r3) => {
                                                        l.extend_from_slice(&last);
                                                        let a = crashed(&img2, &r3.writes, r3.writes.len(), 0);
                                                        if let Err(e) = image_shows(&a, &l) {
                                                            ctx.violation(format!("after the second crash and two insertions: {e}\n{}", w2()));
                                                        }
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if ctx.stopped() {
                return;
            }
        }
    });
    failed_then_crash(ctx);
    ctx.assume("writes reach the file in the order they were issued; a torn write leaves a prefix of its bytes");
}

/// an insertion fails, the same writer goes on, and then the process stops
fn failed_then_crash(ctx: &Ctx) {
    let bases = bases16(!ctx.thorough);
    #[derive(Clone, Copy, Debug)]
    enum Plan {
        One,
        Down,
        Short(usize),
        ShortDown(usize),
    }
    let plans = [Plan::One, Plan::Down, Plan::Short(1), Plan::Short(29), Plan::Short(4019), Plan::ShortDown(20), Plan::ShortDown(4017)];
    // a group ends: the next one is reached with the same writer
    let mut jobs: Vec<(usize, usize, Plan, usize)> = vec![];
    for b in 0..bases.len() {
        let n = bases[b].list.len();
        for at in 0..14 {
            for p in plans {
                jobs.push((b, at, p, 3));
                if n % CAP >= CAP - 2 && (ctx.thorough || matches!(p, Plan::One | Plan::ShortDown(20))) {
                    jobs.push((b, at, p, CAP + 4));
                }
            }
        }
    }
    ctx.group("failures in front of a crash", jobs.len() as u64);
    par(ctx, jobs.len(), |k| {
        let (b, at, plan, more) = jobs[k];
        let b = &bases[b];
        let what = || format!("{}, operation {at} of an insertion: {plan:?}, then {more} more insertions", b.name);
        case(&what());
        let r = catch(|| -> Result<(), String> {
            let dev = Dev::new(b.img.clone());
            let mut w = Writer::new(dev.handle()).map_err(|e| errname(&e))?;
            let mut list = b.list.clone();
            {
                let at = dev.ops() + at;
                let mut s = dev.s.borrow_mut();
                match plan {
                    Plan::One => s.faults.push((at, Fault::Fail(ErrorKind::Other))),
                    Plan::Down => s.outage = Some((at, usize::MAX)),
                    Plan::Short(k) => s.faults.extend([(at, Fault::Short(k)), (at + 1, Fault::Fail(ErrorKind::Other))]),
                    Plan::ShortDown(k) => {
                        s.faults.push((at, Fault::Short(k)));
                        s.outage = Some((at + 1, usize::MAX));
                    }
                }
            }
            let failed = fresh(2);
            let mut ghost = None;
            let mut torn = false;
            match w.insert(failed.real()) {
                Ok(()) => list.push(failed),
                Err(_) => {
                    let slots = slot_positions(&list, &dev.image());
                    torn = dev.s.borrow().torn.iter().any(|t| touches_slot(&slots, t.0, t.2));
                    ghost = Some(failed);
                }
            }
            dev.heal();
            for i in 0..more {
                let img = dev.image();
                dev.take_log();
                let p = fresh(3 + i % 4);
                w.insert(p.real()).map_err(|e| format!("insertion {i} after the failure: {}", errname(&e)))?;
                // stops at every write
                let n = list.len() % CAP;
                let writes = dev.take_log();
                if more < 10 || n < 2 || n + 3 > CAP {
                    for j in 0..writes.len() {
                        let len = writes[j].1.len();
                        let cuts: &[usize] = if more < 10 { &[0, 1, 16, 29, len / 2, len - 1] } else { &[0, 1, len - 1] };
                        for &cut in cuts {
                            if cut >= len {
                                continue;
                            }
                            let c = crashed(&img, &writes, j, cut);
                            let slots = slot_positions(&list, &c);
                            let tear = cut > 0 && touches_slot(&slots, writes[j].0, len);
                            let mut one = list.clone();
                            one.push(p.clone());
                            let mut two = list.clone();
                            two.extend(ghost.clone());
                            ctx.st(1);
                            ctx.trace(1);
                            ctx.tr(2);
                            left_behind(&c, &[&list, &one], tear || torn)
                                .or_else(|e| if ghost.is_some() { left_behind(&c, &[&list, &two], tear || torn).map_err(|_| e) } else { Err(e) })
                                .map_err(|e| format!("insertion {i} after it, stopped after {j} writes and {cut} bytes: {e}"))?;
                        }
                    }
                }
                list.push(p);
                ghost = None;
                torn = false;
            }
            image_shows(&dev.image(), &list)
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ctx.violation(format!("{e}\n{}", what())),
            Err(p) => ctx.violation(format!("panic {p}\n{}", what())),
        }
    });
}

// ------------------------------------------------------------------------------------- P17

pub fn run17(ctx: &Ctx) {
    let bases = bases16(!ctx.thorough);
    ctx.group("initial storages", bases.len() as u64);
    // behaviour of the file from the chosen operation on
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Plan {
        /// that many operations fail
        Fail(usize, ErrorKind),
        /// a write takes k bytes, then that many operations fail
        Short(usize, usize),
        Zero,
        /// everything fails until the caller gives up
        Down,
        ShortDown(usize),
    }
    let mut plans = vec![Plan::Zero, Plan::Down];
    for n in [1, 2, 3] {
        plans.push(Plan::Fail(n, ErrorKind::Other));
    }
    plans.push(Plan::Fail(1, ErrorKind::WouldBlock));
    plans.push(Plan::Fail(1, ErrorKind::TimedOut));
    for k in [1usize, 8, 16, 20, 28, 29, 60, 2000, 4010, 4016, 4019] {
        plans.push(Plan::Short(k, 1));
        if k < 30 || k > 4000 {
            plans.push(Plan::ShortDown(k));
        }
    }
    ctx.group("fault plans", plans.len() as u64);
    let install = |dev: &Dev, at: usize, p: Plan| {
        let mut s = dev.s.borrow_mut();
        s.hit = 0;
        match p {
            Plan::Fail(n, k) => s.faults.extend((at..at + n).map(|i| (i, Fault::Fail(k)))),
            Plan::Short(k, n) => {
                s.faults.push((at, Fault::Short(k)));
                s.faults.extend((at + 1..at + 1 + n).map(|i| (i, Fault::Fail(ErrorKind::Other))));
            }
            Plan::Zero => s.faults.push((at, Fault::Zero)),
            Plan::Down => s.outage = Some((at, usize::MAX)),
            Plan::ShortDown(k) => {
                s.faults.push((at, Fault::Short(k)));
                s.outage = Some((at + 1, usize::MAX));
            }
        }
    };
    // the writer's first k insertions work, then one fails, perhaps a second one, then the file works
    struct Item {
        base: usize,
        before: usize,
        at: usize,
        twice: bool,
    }
    let mut items = vec![];
    for (b, base) in bases.iter().enumerate() {
        for before in 0..2 {
            let dev = Dev::new(base.img.clone());
            let n = catch(|| {
                let mut w = Writer::new(dev.handle()).ok()?;
                for i in 0..before {
                    w.insert(fresh(i).real()).ok()?;
                }
                let a = dev.ops();
                w.insert(fresh(5).real()).ok()?;
                Some(dev.ops() - a)
            });
            let Ok(Some(n)) = n else {
                ctx.violation(format!("insertion into {} fails without any fault", base.name));
                continue;
            };
            for at in 0..n {
                items.push(Item { base: b, before, at, twice: false });
                if ctx.thorough || before == 0 {
                    items.push(Item { base: b, before, at, twice: true });
                }
            }
        }
    }
    ctx.group("fault positions", items.len() as u64);
    par(ctx, items.len() * plans.len(), |k| {
        let (it, plan) = (&items[k / plans.len()], plans[k % plans.len()]);
        let b = &bases[it.base];
        let second: Vec<Vec<(usize, Plan)>> = if it.twice {
            // the next insertion fails as well, anywhere
            let mut v = vec![];
            for at in 0..9 {
                for p in [Plan::Fail(1, ErrorKind::Other), Plan::Down, Plan::ShortDown(29), Plan::ShortDown(4017)] {
                    v.push(vec![(at, p)]);
                }
            }
            // and a third one
            if it.before == 0 && matches!(plan, Plan::Down | Plan::ShortDown(4019)) && (ctx.thorough || it.base % 3 == 0) {
                for a in 0..9 {
                    for b in 0..9 {
                        for p in [Plan::Fail(1, ErrorKind::Other), Plan::ShortDown(29), Plan::ShortDown(4017)] {
                            v.push(vec![(a, Plan::Down), (b, p)]);
                        }
                    }
                }
            }
            v
        } else {
            vec![vec![]]
        };
        for sec in second {
            for size in if it.twice { 1..2usize } else { 0..3 } {
                let what = || {
                    format!(
                        "{}, {} insertions, then operation {} of the next insertion (record kind {size}) misbehaves as {plan:?}{}",
                        b.name,
                        it.before,
                        it.at,
                        sec.iter().map(|(a, p)| format!(", operation {a} of the one after as {p:?}")).collect::<String>()
                    )
                };
                case(&what());
                ctx.st(1);
                ctx.trace(1);
                let r = catch(|| -> Result<(), String> {
                    let dev = Dev::new(b.img.clone());
                    let mut w = Writer::new(dev.handle()).map_err(|e| errname(&e))?;
                    let mut list = b.list.clone();
                    for i in 0..it.before {
                        w.insert(fresh(i).real()).map_err(|e| errname(&e))?;
                        list.push(fresh(i));
                    }
                    // the record of a failed insertion that is visible for now
                    let mut ghost: Option<Pkt> = None;
                    let mut attempt = |w: &mut Writer<Dev>, list: &mut Vec<Pkt>, p: Pkt, at: usize, plan: Plan, name: &str| -> Result<(), String> {
                        install(&dev, dev.ops() + at, plan);
                        let r = w.insert(p.real());
                        ctx.tr(1);
                        let hit = dev.s.borrow().hit > 0;
                        dev.heal();
                        match r {
                            Ok(()) => {
                                // the fault did not matter (not reached, or a short write that was continued)
                                list.push(p.clone());
                                dev.s.borrow_mut().torn.clear();
                                if hit && matches!(plan, Plan::Down | Plan::Fail(3, _)) && at == 0 {
                                    return Err(format!("{name}: the insertion reports success although nothing worked"));
                                }
                                image_shows(&dev.image(), list).map_err(|e| format!("{name} reports success but: {e}"))
                            }
                            Err(_) if !hit => Err(format!("{name} fails without a fault")),
                            Err(_) => {
                                // what others see now
                                let slots = slot_positions(list, &dev.image());
                                let torn = dev.s.borrow().torn.iter().any(|t| touches_slot(&slots, t.0, t.2));
                                let mut more = list.clone();
                                more.push(p.clone());
                                let old = ghost.take().map(|g| {
                                    let mut l = list.clone();
                                    l.push(g);
                                    l
                                });
                                let seen = left_behind(&dev.image(), &[list, &more], torn).map(|s| s.map(|_| p));
                                let seen = match (seen, &old) {
                                    (Err(e), Some(old)) => left_behind(&dev.image(), &[list, old], torn).map(|s| s.map(|_| old[old.len() - 1].clone())).map_err(|_| e),
                                    (s, _) => s,
                                };
                                ghost = seen.map_err(|e| format!("{name} fails, then: {e}"))?;
                                Ok(())
                            }
                        }
                    };
                    attempt(&mut w, &mut list, fresh(3 + size), it.at, plan, "the insertion")?;
                    for (i, (at, p)) in sec.iter().enumerate() {
                        attempt(&mut w, &mut list, fresh(8 + i), *at, *p, ["the second insertion", "the third insertion"][i])?;
                    }
                    let img = dev.image();
                    // the same writer goes on
                    for (i, n) in [7usize, 1, 2].iter().enumerate() {
                        w.insert(fresh(*n).real()).map_err(|e| format!("insertion {i} after the failure: {}", errname(&e)))?;
                        list.push(fresh(*n));
                        ctx.tr(1);
                        image_shows(&dev.image(), &list).map_err(|e| format!("after the failure and {} insertions: {e}", i + 1))?;
                    }
                    // or another one, on what the failure left behind
                    if let Ok(mut w) = Writer::new(Cursor::new(img.clone())) {
                        drop(w);
                        let dev2 = Dev::new(img);
                        w = Writer::new(Cursor::new(vec![])).map_err(|e| errname(&e))?;
                        drop(w);
                        let mut w2 = Writer::new(dev2.handle()).map_err(|e| errname(&e))?;
                        let n = Reader::new(dev2.handle()).map_err(|e| format!("a writer opens it, a reader does not: {}", errname(&e)))?.count();
                        let short = list.len() - 3;
                        let mut l2: Vec<Pkt> = list[..short].to_vec();
                        if n == short + 1 {
                            let mut r = Reader::new(dev2.handle()).map_err(|e| errname(&e))?;
                            let last = r.nth(short).map_err(|e| format!("the record of the failed insertion: {}", errname(&e)))?.map(|p| Pkt::of(&p));
                            match last {
                                Some(p) if (0..sec.len()).any(|i| p == fresh(8 + i)) || p == fresh(3 + size) => l2.push(p),
                                p => return Err(format!("unexpected record {p:?}")),
                            }
                        }
                        for i in [4usize, 2] {
                            w2.insert(fresh(i).real()).map_err(|e| format!("insertion by a new writer: {}", errname(&e)))?;
                            l2.push(fresh(i));
                        }
                        image_shows(&dev2.image(), &l2).map_err(|e| format!("a new writer after the failure: {e}"))?;
                    }
                    Ok(())
                });
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => ctx.violation(format!("{e}\n{}", what())),
                    Err(p) => ctx.violation(format!("panic {p}\n{}", what())),
                }
                if ctx.stopped() {
                    return;
                }
            }
        }
    });
    failing_reads(ctx);
}

/// a failure while opening or reading is an error, changes nothing, and goes away
fn failing_reads(ctx: &Ctx) {
    let ns = [0usize, 1, 3, 499, 500, 501];
    let ops: &[&str] = &["open", "open writer", "iter", "filtered", "nth", "range", "range_filtered", "seek", "reload"];
    par(ctx, ns.len() * ops.len(), |k| {
        let (n, op) = (ns[k % ns.len()], ops[k / ns.len()]);
        let img = base_image(n);
        let list = base_list(n);
        let grown = base_image(n + 2);
        let glist = base_list(n + 2);
        for (down, kind) in [(false, ErrorKind::Other), (true, ErrorKind::Other), (false, ErrorKind::WouldBlock), (false, ErrorKind::TimedOut), (false, ErrorKind::PermissionDenied), (false, ErrorKind::InvalidData)] {
            let mut at = 0;
            loop {
                let dev = Dev::new(img.clone());
                let what = || format!("{n} records, {op}, operation {at} fails ({kind:?}){}", if down { " and all after it" } else { "" });
                case(&what());
                ctx.st(1);
                ctx.trace(1);
                ctx.tr(1);
                let r = catch(|| -> Result<bool, String> {
                    let set = |d: &Dev| {
                        let mut s = d.s.borrow_mut();
                        let i = s.ops.len() + at;
                        if down {
                            s.outage = Some((i, usize::MAX));
                        } else {
                            s.faults.push((i, Fault::Fail(kind)));
                        }
                        s.hit = 0;
                    };
                    let bad = |v: Vec<Pkt>, want: &[Pkt]| format!("shows {} instead of {} and no error", show(&v), show(want));
                    if op.starts_with("open") {
                        set(&dev);
                        let ok = if op == "open" {
                            Reader::new(dev.handle()).map(|mut r| {
                                dev.heal();
                                agrees(&mut r, &list, false)
                            })
                        } else {
                            Writer::new(dev.handle()).map(|mut w| {
                                // whatever it was told while opening, it has to know the whole storage
                                dev.heal();
                                if dev.image() != img {
                                    return Err("opening changes the data".into());
                                }
                                let mut more = list.clone();
                                for i in 0..2 {
                                    w.insert(fresh(i).real()).map_err(|e| errname(&e))?;
                                    more.push(fresh(i));
                                }
                                image_shows(&dev.image(), &more)?;
                                dev.set_image(&img);
                                Ok(())
                            })
                        };
                        let hit = dev.s.borrow().hit > 0;
                        dev.heal();
                        match ok {
                            Ok(r) => r.map_err(|e| format!("opens and {e}"))?,
                            Err(_) if hit => {}
                            Err(e) => return Err(format!("fails without a fault: {}", errname(&e))),
                        }
                        if hit && down && at == 0 && dev.image() != img {
                            return Err("changes the data".into());
                        }
                        if dev.image() != img {
                            return Err("opening changes the data".into());
                        }
                        image_shows(&dev.image(), &list)?;
                        return Ok(hit);
                    }
                    let mut r = Reader::new(dev.handle()).map_err(|e| errname(&e))?;
                    if op == "reload" {
                        dev.set_image(&grown);
                    }
                    set(&dev);
                    let from = n.saturating_sub(2);
                    let res: Result<(), String> = match op {
                        "iter" => match collect(r.iter()) {
                            Ok(v) if v != list => Err(bad(v, &list)),
                            _ => Ok(()),
                        },
                        "filtered" => match collect(r.filtered()) {
                            Ok(v) if v != list => Err(bad(v, &list)),
                            _ => Ok(()),
                        },
                        "range" => match collect(r.range(from, 5)) {
                            Ok(v) if v != list[from..] => Err(bad(v, &list[from..])),
                            _ => Ok(()),
                        },
                        "range_filtered" => match collect(r.range_filtered(from, 5)) {
                            Ok(v) if v != list[from..] => Err(bad(v, &list[from..])),
                            _ => Ok(()),
                        },
                        "seek" => match r.seek(from) {
                            Ok(it) => match collect(it) {
                                Ok(v) if v != list[from..] => Err(bad(v, &list[from..])),
                                _ => Ok(()),
                            },
                            Err(_) => Ok(()),
                        },
                        "nth" => match r.nth(from) {
                            Ok(p) if p.as_ref().map(Pkt::of).as_ref() != list.get(from) => Err("nth shows another record and no error".into()),
                            _ => Ok(()),
                        },
                        _ => match r.reload() {
                            Ok(m) if m != 2 => Err(format!("refresh reports {m} instead of 2 and no error")),
                            _ => Ok(()),
                        },
                    };
                    let hit = dev.s.borrow().hit > 0;
                    dev.heal();
                    res?;
                    if op == "reload" {
                        // whatever happened, a working refresh brings everything
                        let before = r.count();
                        if before != n && before != n + 2 {
                            return Err(format!("after the failed refresh of {n} records: count() {before}"));
                        }
                        for i in (0..n).filter(|i| n < 10 || *i < 3 || i + 4 > n) {
                            nth_is(&mut r, i, &list).map_err(|e| format!("after the failed refresh: {e}"))?;
                        }
                        let m = r.reload().map_err(|e| format!("refresh after the failure: {}", errname(&e)))?;
                        if before + m != n + 2 {
                            return Err(format!("refresh after the failure: {before} + {m} records, expected {}", n + 2));
                        }
                        agrees(&mut r, &glist, false).map_err(|e| format!("after the failure: {e}"))?;
                    } else {
                        agrees(&mut r, &list, false).map_err(|e| format!("after the failure: {e}"))?;
                        if dev.image() != img {
                            return Err("reading changes the data".into());
                        }
                    }
                    Ok(hit)
                });
                match r {
                    Ok(Ok(true)) => {}
                    Ok(Ok(false)) => break,
                    Ok(Err(e)) => {
                        ctx.violation(format!("{e}\n{}", what()));
                        break;
                    }
                    Err(p) => {
                        ctx.violation(format!("panic {p}\n{}", what()));
                        break;
                    }
                }
                at += 1;
                if at > 5000 || ctx.stopped() {
                    break;
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------- P18

fn open_both(img: &[u8]) -> (Result<(), String>, Result<(), String>) {
    let r = catch(|| Reader::new(Cursor::new(img.to_vec())).map(|_| ()).map_err(|e| errname(&e))).unwrap_or_else(|p| Err(format!("panic {p}")));
    let w = catch(|| Writer::new(Cursor::new(img.to_vec())).map(|_| ()).map_err(|e| errname(&e))).unwrap_or_else(|p| Err(format!("panic {p}")));
    (r, w)
}

pub fn run18(ctx: &Ctx) {
    let enc = |n: usize| (0..n).map(|i| refc::packet(&rec_crc(i))).collect::<Vec<_>>();
    let list = |n: usize| (0..n).map(rec_crc).collect::<Vec<_>>();
    // 1. metadata
    let ns: &[usize] = if ctx.thorough { &[0, 1, 3, 499, 500, 501, 1001] } else { &[0, 3, 500, 501, 1001] };
    let mut jobs: Vec<(usize, usize, usize)> = vec![];
    for (b, &n) in ns.iter().enumerate() {
        let slots = if n == 0 { vec![0] } else { slot_positions(&list(n), &[]) };
        for &s in &slots {
            for at in 0..refc::SLOT_SIZE {
                jobs.push((b, s as usize, at));
            }
        }
    }
    let bases: Vec<(Vec<u8>, Vec<Pkt>)> = ns
        .iter()
        .map(|&n| {
            let mut img = refc::storage(&enc(n));
            if n == 0 {
                img = refc::slot(&[]);
            }
            (img, list(n))
        })
        .collect();
    ctx.group("metadata bytes", jobs.len() as u64);
    let chunk = 16;
    par(ctx, jobs.len().div_ceil(chunk), |k| {
        for &(b, slot, at) in jobs.iter().skip(k * chunk).take(chunk) {
            let (img, want) = &bases[b];
            let full = ctx.thorough || at < 48 || at >= 4000 || ns[b] == 3;
            let mut pats: Vec<Vec<u8>> = vec![];
            for x in 1..=255u8 {
                let bit = x.count_ones() == 1;
                if full && (at < 48 || at >= 4000 || bit || ctx.thorough && ns[b] <= 3) || x == 0xff || x == 1 || x == 0x80 {
                    pats.push(vec![x]);
                }
            }
            // bursts
            pats.push(vec![0x80, 1]);
            pats.push(vec![1, 0, 0, 0x80]);
            pats.push(vec![0xff, 0xff, 0xff]);
            let sly = at + 8 >= refc::SLOT_SIZE || at % if ctx.thorough { 1 } else { 16 } == 8;
            let left = refc::SLOT_SIZE - 4;
            if sly && at >= 8 && at < left {
                pats.extend(refc::sly_bursts_at(at, left, true).into_iter().map(|(_, p)| p));
            }
            for pat in pats {
                if at + pat.len() > refc::SLOT_SIZE {
                    continue;
                }
                let mut d = img.clone();
                for (i, x) in pat.iter().enumerate() {
                    d[slot + at + i] ^= x;
                }
                let what = || format!("{} records, metadata of the group at {slot}: byte {at} ^ {}", ns[b], hex(&pat));
                if pat[0] == 1 {
                    case(&what());
                }
                ctx.st(1);
                ctx.tr(2);
                ctx.trace(1);
                let (r, w) = open_both(&d);
                for (who, x) in [("reader", r), ("writer", w)] {
                    match x {
                        Ok(()) => ctx.violation(format!("a {who} opens it without reporting the damage\n{}", what())),
                        Err(e) if e.starts_with("panic") => ctx.violation(format!("a {who}: {e}\n{}", what())),
                        Err(_) => {}
                    }
                }
                // nothing is lost
                if pat == [0xff] || pat == [0x80, 1] {
                    let ex = extracted(&d);
                    if ex != *want {
                        ctx.violation(format!("the extractor finds {}, expected {}\n{}", show(&ex), show(want), what()));
                    }
                }
            }
            if ctx.stopped() {
                return;
            }
        }
    });
    // the same found by a refresh
    {
        let starts = [(1usize, 3usize), (499, 500), (500, 501), (500, 502), (0, 1)];
        for (from, to) in starts {
            let img = refc::storage(&enc(to));
            let slot = *slot_positions(&list(to), &[]).last().unwrap() as usize;
            for at in (0..refc::SLOT_SIZE).filter(|a| ctx.thorough || a % 7 == 0 || *a < 24) {
                let dev = Dev::new(refc::storage(&enc(from)));
                ctx.st(1);
                ctx.trace(1);
                ctx.tr(2);
                let what = || format!("refresh from {from} to {to} records with damaged metadata at {slot}+{at}");
                case(&what());
                let r = catch(|| -> Result<(), String> {
                    let mut r = Reader::new(dev.handle()).map_err(|e| errname(&e))?;
                    let mut d = img.clone();
                    d[slot + at] ^= 0x11;
                    dev.set_image(&d);
                    match r.reload() {
                        Ok(n) => return Err(format!("refresh reports {n} new records and no damage")),
                        Err(_) => {}
                    }
                    // the reader still knows what it knew
                    if r.count() != from {
                        return Err(format!("after the failed refresh: count() {}", r.count()));
                    }
                    dev.set_image(&img);
                    let n = r.reload().map_err(|e| format!("refresh after repair: {}", errname(&e)))?;
                    if n != to - from {
                        return Err(format!("refresh after repair reports {n}"));
                    }
                    agrees(&mut r, &list(to), false)
                });
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => ctx.violation(format!("{e}\n{}", what())),
                    Err(p) => ctx.violation(format!("panic {p}\n{}", what())),
                }
            }
        }
    }
    // 2. records
    struct D {
        n: usize,
        i: usize,
        pos: usize,
        len: usize,
    }
    let mut ds = vec![];
    for &n in &[1usize, 4, 501, 502] {
        let e = enc(n);
        let mut pos = 0;
        for i in 0..n {
            if i % CAP == 0 {
                pos += refc::SLOT_SIZE;
            }
            if n < 10 || i == 0 || i == 3 || i >= 498 {
                ds.push(D { n, i, pos, len: e[i].len() });
            }
            pos += e[i].len();
        }
    }
    let mut jobs: Vec<(usize, usize)> = vec![];
    for (k, d) in ds.iter().enumerate() {
        for at in 0..d.len {
            jobs.push((k, at));
        }
    }
    ctx.group("record bytes", jobs.len() as u64);
    par(ctx, jobs.len(), |k| {
        let d = &ds[jobs[k].0];
        let at = jobs[k].1;
        let want = list(d.n);
        let img = refc::storage(&enc(d.n));
        for x in 1..=255u8 {
            if !(ctx.thorough && d.n < 10) && x.count_ones() != 1 && x != 0xff && x != 0x11 {
                continue;
            }
            if d.n > 10 && !ctx.thorough && x != 0x11 && x != 1 {
                continue;
            }
            let mut c = img.clone();
            c[d.pos + at] ^= x;
            damaged_records(ctx, &c, &want, &[d.i], at < 29, &|| format!("{} records, record {} byte {at} ^ {x:#x}", d.n, d.i));
        }
    });
    // two damaged records
    let jobs: Vec<(usize, usize)> = (0..ds.len()).flat_map(|a| (0..ds.len()).map(move |b| (a, b))).filter(|(a, b)| ds[*a].n == ds[*b].n && ds[*a].i < ds[*b].i).collect();
    par(ctx, jobs.len(), |k| {
        let (a, b) = (&ds[jobs[k].0], &ds[jobs[k].1]);
        let want = list(a.n);
        let img = refc::storage(&enc(a.n));
        let step = if ctx.thorough { 1 } else { 5 };
        for i in (0..a.len).step_by(step) {
            for j in (0..b.len).step_by(step) {
                if a.n > 10 && (i % 10 != 0 || j % 10 != 0) {
                    continue;
                }
                let mut c = img.clone();
                c[a.pos + i] ^= 0x40;
                c[b.pos + j] ^= 0x40;
                damaged_records(ctx, &c, &want, &[a.i, b.i], i < 29 || j < 29, &|| format!("{} records, record {} byte {i} and record {} byte {j} ^ 0x40", a.n, a.i, b.i));
            }
        }
    });
    // 3. truncation
    let ns: &[usize] = &[0, 1, 4, 499, 500, 501, 502, 1001];
    let mut jobs: Vec<(usize, usize)> = vec![];
    for &n in ns {
        let img = if n == 0 { refc::slot(&[]) } else { refc::storage(&enc(n)) };
        let slots = slot_positions(&list(n), &[]);
        for t in 0..img.len() {
            let near = slots.iter().any(|&s| {
                let s = s as usize;
                t + 30 > s && t < s + 60 || t + 30 > s + refc::SLOT_SIZE && t < s + refc::SLOT_SIZE + 140
            }) || t + 140 > img.len();
            if n < 10 || near || t % if ctx.thorough { 1 } else { 37 } == 0 {
                jobs.push((n, t));
            }
        }
    }
    ctx.group("truncations", jobs.len() as u64);
    par(ctx, jobs.len().div_ceil(8), |k| {
        for &(n, t) in jobs.iter().skip(k * 8).take(8) {
            let want = list(n);
            let mut img = if n == 0 { refc::slot(&[]) } else { refc::storage(&enc(n)) };
            img.truncate(t);
            let what = || format!("{n} records, file cut at {t}");
            case(&what());
            ctx.st(1);
            ctx.trace(1);
            let (r, w) = open_both(&img);
            for (who, x) in [("reader", &r), ("writer", &w)] {
                if let Err(e) = x {
                    if e.starts_with("panic") {
                        ctx.violation(format!("{who}: {e}\n{}", what()));
                    }
                }
            }
            let res = catch(|| -> Result<(), String> {
                // what is completely there is still there for the extractor
                let ex = extracted(&img);
                let mut pos = 0;
                let mut whole = 0;
                for (i, p) in want.iter().enumerate() {
                    if i % CAP == 0 {
                        pos += refc::SLOT_SIZE;
                    }
                    pos += refc::packet(p).len();
                    if pos <= t {
                        whole = i + 1;
                    }
                }
                if ex != want[..whole] {
                    return Err(format!("the extractor finds {}, expected {}", show(&ex), show(&want[..whole])));
                }
                let Ok(mut r) = Reader::new(Cursor::new(img.clone())) else { return Ok(()) };
                if r.count() > n {
                    return Err(format!("count() {}", r.count()));
                }
                for i in [0, 1, 2, 3, 4, 498, 499, 500, 501, 999, 1000, 1001, whole.saturating_sub(1), whole, whole + 1] {
                    ctx.tr(1);
                    match r.nth(i) {
                        Ok(Some(p)) => {
                            if want.get(i) != Some(&Pkt::of(&p)) {
                                return Err(format!("nth({i}) is {:?}", Pkt::of(&p)));
                            }
                        }
                        _ if i < whole && r.count() > i => return Err(format!("record {i} is complete and known but not readable by index")),
                        _ => {}
                    }
                }
                let mut v = vec![];
                for p in r.iter().take(3000) {
                    match p {
                        Ok(p) => v.push(Pkt::of(&p)),
                        Err(_) => break,
                    }
                }
                if v.len() > n || v != want[..v.len()] {
                    return Err(format!("iter() shows {}", show(&v)));
                }
                let mut v = vec![];
                for p in r.filtered().take(3000) {
                    match p {
                        Ok(p) => v.push(Pkt::of(&p)),
                        Err(_) => break,
                    }
                }
                if v.len() > n || v != want[..v.len()] {
                    return Err(format!("filtered() shows {}", show(&v)));
                }
                let _ = r.reload();
                Ok(())
            })
            .unwrap_or_else(|p| Err(format!("panic {p}")));
            if let Err(e) = res {
                ctx.violation(format!("{e}\n{}", what()));
            }
            if ctx.stopped() {
                return;
            }
        }
    });
}

fn damaged_records(ctx: &Ctx, img: &[u8], want: &[Pkt], bad: &[usize], header: bool, what: &dyn Fn() -> String) {
    case(&what());
    ctx.st(1);
    ctx.trace(1);
    let n = want.len();
    let r = catch(|| -> Result<(), String> {
        let mut r = Reader::new(Cursor::new(img.to_vec())).map_err(|e| format!("cannot be opened: {}", errname(&e)))?;
        if r.count() != n {
            return Err(format!("count() {}", r.count()));
        }
        let idx: Vec<usize> = if n < 20 { (0..n).collect() } else { (0..n).filter(|i| *i < 6 || *i > 494 || i % 50 == 0).collect() };
        let mut near = idx.clone();
        for b in bad {
            near.extend((b.saturating_sub(1)..(b + 2).min(n)).collect::<Vec<_>>());
        }
        for &i in &near {
            ctx.tr(1);
            match r.nth(i) {
                Ok(Some(p)) if Pkt::of(&p) == want[i] => {}
                Ok(Some(p)) => return Err(format!("nth({i}) is {:?}, written was {:?}", Pkt::of(&p), want[i])),
                Ok(None) => return Err(format!("nth({i}) is nothing")),
                Err(e) if !bad.contains(&i) => return Err(format!("undamaged record {i} by index: {}", errname(&e))),
                Err(_) => {}
            }
            // a range of one
            let v: Vec<_> = r.range(i, 1).collect();
            match &v[..] {
                [Ok(p)] if Pkt::of(p) == want[i] => {}
                [Err(_)] if bad.contains(&i) => {}
                _ => return Err(format!("range({i}, 1) gives {} items, {:?}", v.len(), v.first().map(|x| x.as_ref().map(Pkt::of).map_err(errname)))),
            }
            let v: Vec<_> = r.range_filtered(i, 1).take(1).collect();
            match &v[..] {
                [Ok(p)] if Pkt::of(p) == want[i] => {}
                [Err(_)] if bad.contains(&i) => {}
                _ => return Err(format!("range_filtered({i}, 1) gives {} items", v.len())),
            }
        }
        // iteration: no altered content, and it ends
        let known = |p: &Pkt| want.contains(p);
        let mut items = 0;
        for p in r.iter().take(100_000) {
            items += 1;
            if let Ok(p) = p {
                if !known(&Pkt::of(&p)) {
                    return Err(format!("iter() shows altered content {:?}", Pkt::of(&p)));
                }
            }
        }
        let mut ok = 0;
        for p in r.filtered().take(100_000) {
            ok += 1;
            if let Ok(p) = p {
                if !known(&Pkt::of(&p)) {
                    return Err(format!("filtered() shows altered content {:?}", Pkt::of(&p)));
                }
            }
        }
        if items >= 100_000 || ok >= 100_000 {
            return Err("iteration does not end".into());
        }
        // nothing is left out silently: an error stands in the place of a damaged record
        let first = bad[0];
        let lim = if n < 20 { 100 } else { 2 * n };
        let from = if n < 20 { 0 } else { first.saturating_sub(2) };
        let exact = |name: &str, from: usize, v: Vec<Result<Pkt, String>>| -> Result<(), String> {
            for (i, x) in v.iter().enumerate() {
                match (x, want.get(from + i)) {
                    (Ok(p), Some(q)) if p == q => {}
                    (Err(_), Some(_)) if bad.contains(&(from + i)) => {}
                    (x, _) => return Err(format!("{name}: item {i} is {x:?}")),
                }
            }
            if v.len() != n - from {
                return Err(format!("{name}: {} items instead of {}", v.len(), n - from));
            }
            Ok(())
        };
        fn seen<I: Iterator<Item = Result<Packet, Error>>>(it: I, lim: usize) -> Vec<Result<Pkt, String>> {
            it.take(lim).map(|x| x.map(|p| Pkt::of(&p)).map_err(|e| errname(&e))).collect()
        }
        exact("range()", from, seen(r.range(from, n - from), lim))?;
        exact("range_filtered()", from, seen(r.range_filtered(from, n - from), lim).into_iter().take(n - from).collect())?;
        for (name, v) in [("iter()", seen(r.iter(), lim)), ("filtered()", seen(r.filtered(), lim)), ("seek()", match r.seek(from) {
            Ok(it) => seen(it, lim),
            Err(e) => return Err(format!("seek({from}): {}", errname(&e))),
        })] {
            let at = if name == "seek()" { from } else { 0 };
            if !header {
                exact(name, at, v)?;
            } else if v.iter().all(|x| x.is_ok()) && v.len() != n - at {
                return Err(format!("{name} leaves out records without an error"));
            }
        }
        // in front of the damage iteration is exact
        same(collect(r.iter().take(first)), &want[..first]).map_err(|e| format!("iter() in front of the damage: {e}"))?;
        // the raw file
        let ex = extracted(img);
        let rest: Vec<Pkt> = want.iter().enumerate().filter(|(i, _)| !bad.contains(i)).map(|(_, p)| p.clone()).collect();
        if !within(&rest, &ex) {
            return Err(format!("the extractor finds {}, which lacks undamaged records of {}", show(&ex), show(&rest)));
        }
        if !within(&ex, want) {
            return Err(format!("the extractor shows altered or misplaced content: {}", show(&ex)));
        }
        Ok(())
    })
    .unwrap_or_else(|p| Err(format!("panic {p}")));
    if let Err(e) = r {
        ctx.violation(format!("{e}\n{}", what()));
    }
}

// ------------------------------------------------------------------------------------- P19

use std::cell::RefCell;
use std::rc::Rc;

/// A file another process is writing: its successive states, and the schedule that decides how many
/// of the writer's operations happen before each operation of the reader that can notice them.
struct Sched {
    writes: Writes,
    data: Vec<u8>,
    t: usize,
    /// number of writer steps in front of observing operation i; beyond: none
    plan: Vec<usize>,
    /// (chosen, possible) of every observing operation of this execution
    trace: Vec<(usize, usize)>,
}
#[derive(Clone)]
struct Live {
    s: Rc<RefCell<Sched>>,
    pos: u64,
}
impl Live {
    /// A read of bytes that no outstanding write touches commutes with all of them: no choice needed
    /// there, as the writes may as well happen at the next operation that can notice them, or at the
    /// beginning of the next call (which is a choice as well).
    fn observe_range(&self, from: u64, len: usize) {
        let dep = {
            let s = self.s.borrow();
            s.writes[s.t..].iter().any(|(p, b)| *p < from + len as u64 && from < *p + b.len() as u64)
        };
        if dep {
            self.observe();
        }
    }
    fn observe(&self) {
        let mut s = self.s.borrow_mut();
        let i = s.trace.len();
        let left = s.writes.len() - s.t;
        let go = s.plan.get(i).copied().unwrap_or(0).min(left);
        s.trace.push((go, left));
        for _ in 0..go {
            let t = s.t;
            let (pos, b) = s.writes[t].clone();
            apply(&mut s.data, pos, &b);
            s.t += 1;
        }
    }
    fn now(&self) -> usize {
        self.s.borrow().t
    }
}
impl Read for Live {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.observe_range(self.pos, b.len());
        let n = read_at(&self.s.borrow().data, self.pos, b);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Live {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        if matches!(to, SeekFrom::End(_)) {
            // only growth of the file can be noticed
            let end = self.s.borrow().data.len() as u64;
            self.observe_range(end, usize::MAX / 4);
        }
        self.pos = seek_in(self.pos, self.s.borrow().data.len(), to)?;
        Ok(self.pos)
    }
}
impl Write for Live {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        panic!("a reader writes into the storage");
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn run19(ctx: &Ctx) {
    // scenarios: initial storage, records the writer inserts
    let mut sc: Vec<(Base, Vec<Pkt>)> = vec![];
    let b = |n: usize| Base { name: format!("{n} records"), img: base_image(n), list: base_list(n) };
    let few: Vec<Pkt> = vec![fresh(0), fresh(1)];
    let three: Vec<Pkt> = vec![fresh(1), fresh(0), fresh(2)];
    for n in [0usize, 1, 499, 500, 999] {
        sc.push((b(n), few.clone()));
    }
    sc.push((b(498), three.clone()));
    if ctx.thorough {
        for n in [0usize, 2, 499, 500, 998, 1000] {
            sc.push((b(n), three.clone()));
        }
    }
    for x in bases16(true) {
        if x.name.contains("and") {
            sc.push((x, few.clone()));
        }
    }
    // what the reader does: o open, r refresh, i iterate, n nth, s seek, f filtered, g range
    let scripts: Vec<&str> = if ctx.thorough {
        vec!["o", "oi", "or", "ori", "orr", "orri", "oin", "orn", "ors", "orf", "org", "orh", "osr", "onr", "oir", "ofr", "ogr", "oo", "orir", "onrn", "osrs"]
    } else {
        vec!["o", "oi", "or", "ori", "orr", "orn", "ors", "orf", "org", "orh", "oir", "onr"]
    };
    let runs: Vec<Result<Run, String>> = sc.iter().map(|(b, ps)| writer_run_caught(&b.img, ps)).collect();
    ctx.group("scenarios", sc.len() as u64);
    ctx.group("reader scripts", scripts.len() as u64);
    let total = std::sync::atomic::AtomicU64::new(0);
    par(ctx, sc.len() * scripts.len(), |k| {
        let ((b, ps), script) = (&sc[k / scripts.len()], scripts[k % scripts.len()]);
        let run = match &runs[k / scripts.len()] {
            Ok(r) => r,
            Err(e) => return ctx.violation(format!("{e} ({})", b.name)),
        };
        if ps.len() > 2 && !ctx.thorough && !matches!(script, "o" | "oi" | "or" | "ors") || ps.len() > 2 && script.len() > 3 {
            return;
        }
        let mut all = b.list.clone();
        all.extend_from_slice(ps);
        let n0 = b.list.len();
        let mut plan: Vec<usize> = vec![];
        let cap = if ctx.thorough { 20_000_000u64 } else { 2_000_000 };
        let mut count = 0u64;
        loop {
            let live = Live {
                s: Rc::new(RefCell::new(Sched { writes: run.writes.clone(), data: b.img.clone(), t: 0, plan: plan.clone(), trace: vec![] })),
                pos: 0,
            };
            let acked = |t: usize| n0 + run.acked.iter().filter(|a| **a <= t).count();
            // insertion i begins with the first write after acknowledgement of the one before
            let begun = |t: usize| {
                n0 + (0..ps.len()).filter(|&i| t > if i == 0 { 0 } else { run.acked[i - 1] }).count()
            };
            let what = |e: String, live: &Live| {
                let s = live.s.borrow();
                let mut at = 0;
                let sched: Vec<String> = s
                    .trace
                    .iter()
                    .enumerate()
                    .filter(|(_, c)| c.0 > 0)
                    .map(|(i, c)| {
                        at += c.0;
                        format!("before reader operation {i}: writer up to write {at}")
                    })
                    .collect();
                format!(
                    "{e}\n{}, writer inserts {} records with writes {:?}, reader script {script:?} (o open, r refresh, i iterate, n nth, s seek, f filtered, g range, h filtered range)\nschedule: {}",
                    b.name,
                    ps.len(),
                    run.writes.iter().map(|w| (w.0, w.1.len())).collect::<Vec<_>>(),
                    if sched.is_empty() { "reader first".into() } else { sched.join("; ") }
                )
            };
            if count % 64 == 0 {
                case(&format!("{} / {script} schedule {plan:?}", b.name));
            }
            count += 1;
            ctx.trace(1);
            let lv = live.clone();
            let res = catch(|| -> Result<(), String> {
                let live = lv;
                let mut r: Option<Reader<Live>> = None;
                let mut view = 0;
                for op in script.chars() {
                    ctx.tr(1);
                    live.observe();
                    let t0 = live.now();
                    match op {
                        'o' => {
                            let x = Reader::new(Live { s: live.s.clone(), pos: 0 }).map_err(|e| format!("opening reports {}", errname(&e)))?;
                            view = x.count();
                            let (lo, hi) = (acked(t0), begun(live.now()));
                            if view < lo || view > hi {
                                return Err(format!("opening shows {view} records; acknowledged before {lo}, begun {hi}"));
                            }
                            r = Some(x);
                        }
                        'r' => {
                            let x = r.as_mut().unwrap();
                            let n = x.reload().map_err(|e| format!("refresh reports {}", errname(&e)))?;
                            let c = x.count();
                            let (lo, hi) = (acked(t0), begun(live.now()));
                            if c < lo || c > hi || c < view {
                                return Err(format!("refresh shows {c} records after {view}; acknowledged before {lo}, begun {hi}"));
                            }
                            if n != c - view {
                                return Err(format!("refresh reports {n} new records, from {view} to {c}"));
                            }
                            view = c;
                        }
                        'i' => same(collect(r.as_mut().unwrap().iter()), &all[..view]).map_err(|e| format!("iter(): {e}"))?,
                        'f' => same(collect(r.as_mut().unwrap().filtered()), &all[..view]).map_err(|e| format!("filtered(): {e}"))?,
                        'n' => {
                            let x = r.as_mut().unwrap();
                            if view > 0 {
                                nth_is(x, view - 1, &all[..view])?;
                            }
                            nth_is(x, view, &all[..view])?;
                        }
                        's' => {
                            let x = r.as_mut().unwrap();
                            let from = view.saturating_sub(2);
                            match x.seek(from) {
                                Ok(it) => same(collect(it), &all[from..view]).map_err(|e| format!("seek({from}): {e}"))?,
                                y if view == 0 && out_of_range(&y) => {}
                                Err(e) => return Err(format!("seek({from}): {}", errname(&e))),
                            }
                        }
                        'h' => {
                            let from = view.saturating_sub(1);
                            same(collect(r.as_mut().unwrap().range_filtered(from, 5)), &all[from..view]).map_err(|e| format!("range_filtered({from}, 5): {e}"))?
                        }
                        _ => {
                            let from = view.saturating_sub(1);
                            same(collect(r.as_mut().unwrap().range(from, 5)), &all[from..view]).map_err(|e| format!("range({from}, 5): {e}"))?
                        }
                    }
                    if let Some(x) = &r {
                        if x.count() != view {
                            return Err(format!("count() {} instead of {view}", x.count()));
                        }
                    }
                }
                Ok(())
            })
            .unwrap_or_else(|p| Err(format!("panic {p}")));
            if let Err(e) = res {
                ctx.violation(what(e, &live));
                break;
            }
            // next schedule (depth first): raise the last choice that can be raised
            let tr = live.s.borrow().trace.clone();
            let Some(i) = tr.iter().rposition(|(c, max)| c < max) else { break };
            plan = tr[..i].iter().map(|c| c.0).collect();
            plan.push(tr[i].0 + 1);
            if count >= cap {
                ctx.group("scenario/script pairs cut at the schedule limit", 1);
                break;
            }
            if ctx.stopped() {
                break;
            }
        }
        total.fetch_add(count, std::sync::atomic::Ordering::Relaxed);
        ctx.st(count);
        if std::env::var("P19_COUNTS").is_ok() {
            eprintln!("{} {script} {count}", b.name);
        }
    });
    ctx.group("schedules", total.into_inner());
    ctx.assume("one read or write call is atomic; the writer does not depend on the reader, so its operations are those of an undisturbed run");
}
