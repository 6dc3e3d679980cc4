//! Storages larger than 4 GiB (and with groups that end beyond 2 and 4 GiB), on a sparse in-memory file.
use crate::dev::seek_in;
use crate::model::*;
use crate::proto::*;
use crate::readers::*;
use crate::refc;
use crate::storage::*;
use crate::util::*;
use brec::prelude::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Read, Result as IoResult, Seek, SeekFrom, Write};
use std::rc::Rc;

/// pieces at their positions, zeros between them
#[derive(Clone, Default)]
pub struct Sparse {
    s: Rc<RefCell<(BTreeMap<u64, Vec<u8>>, u64)>>,
    pos: u64,
}
const CHUNK: u64 = 4096;
impl Sparse {
    fn put(&self, mut pos: u64, mut b: &[u8]) {
        let mut s = self.s.borrow_mut();
        s.1 = s.1.max(pos + b.len() as u64);
        while !b.is_empty() {
            let off = (pos % CHUNK) as usize;
            let n = b.len().min(CHUNK as usize - off);
            let key = pos / CHUNK;
            if s.0.contains_key(&key) || b[..n].iter().any(|x| *x != 0) {
                let c = s.0.entry(key).or_insert_with(|| vec![0; CHUNK as usize]);
                c[off..off + n].copy_from_slice(&b[..n]);
            }
            pos += n as u64;
            b = &b[n..];
        }
    }
    fn handle(&self) -> Self {
        Sparse { s: self.s.clone(), pos: 0 }
    }
}
impl Read for Sparse {
    fn read(&mut self, b: &mut [u8]) -> IoResult<usize> {
        let s = self.s.borrow();
        let n = (b.len() as u64).min(s.1.saturating_sub(self.pos)) as usize;
        let mut done = 0;
        while done < n {
            let p = self.pos + done as u64;
            let off = (p % CHUNK) as usize;
            let k = (n - done).min(CHUNK as usize - off);
            match s.0.get(&(p / CHUNK)) {
                Some(c) => b[done..done + k].copy_from_slice(&c[off..off + k]),
                None => b[done..done + k].fill(0),
            }
            done += k;
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, to: SeekFrom) -> IoResult<u64> {
        self.pos = seek_in(self.pos, self.s.borrow().1 as usize, to)?;
        Ok(self.pos)
    }
}
impl Write for Sparse {
    fn write(&mut self, b: &[u8]) -> IoResult<usize> {
        self.put(self.pos, b);
        self.pos += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> IoResult<()> {
        Ok(())
    }
}

struct Plan {
    /// payload size of record i
    size: fn(usize) -> usize,
    n: usize,
}

fn record(p: &Plan, i: usize) -> Pkt {
    Pkt::new(vec![Blk::Mix(i as u16, [1, 2, 3], i as i32, [4, 5])], Some(Pl::Bytes(vec![0; (p.size)(i)])))
}

/// the file, and the position of every record
fn build(p: &Plan) -> (Sparse, Vec<u64>) {
    let f = Sparse::default();
    let mut pos = 0u64;
    let mut at = vec![];
    let mut crcs: BTreeMap<usize, u32> = BTreeMap::new();
    for g in 0..p.n.div_ceil(CAP) {
        let ids: Vec<usize> = (g * CAP..(g * CAP + CAP).min(p.n)).collect();
        // header, block and payload header by hand: the payload itself is zeros and not stored
        let heads: Vec<Vec<u8>> = ids
            .iter()
            .map(|&i| {
                let n = (p.size)(i);
                let crc = *crcs.entry(n).or_insert_with(|| refc::crc32(&vec![0; n]));
                let blk = refc::block(&Blk::Mix(i as u16, [1, 2, 3], i as i32, [4, 5]));
                let mut ph = refc::payload_header(&Pl::Bytes(vec![]));
                let k = ph.len();
                ph[k - 8..k - 4].copy_from_slice(&crc.to_le_bytes());
                ph[k - 4..].copy_from_slice(&(n as u32).to_le_bytes());
                let mut o = refc::header((blk.len() + ph.len() + n) as u64, blk.len() as u64, 1);
                o.extend(blk);
                o.extend(ph);
                o
            })
            .collect();
        let lens: Vec<u64> = ids.iter().zip(&heads).map(|(&i, h)| (h.len() + (p.size)(i)) as u64).collect();
        f.put(pos, &refc::slot(&lens));
        pos += refc::SLOT_SIZE as u64;
        for (h, l) in heads.iter().zip(&lens) {
            f.put(pos, h);
            at.push(pos);
            pos += l;
        }
        f.s.borrow_mut().1 = pos;
    }
    (f, at)
}

fn is(r: Result<Packet, Error>, want: &Pkt, what: &str) -> Result<(), String> {
    match r {
        Ok(p) if Pkt::of(&p) == *want => Ok(()),
        Ok(p) => Err(format!("{what}: {}", format!("{:?}", Pkt::of(&p)).chars().take(200).collect::<String>())),
        Err(e) => Err(format!("{what}: {}", errname(&e))),
    }
}

/// `what`: 13 insertion, 14 positioned reads, 15 refresh
pub fn explore(ctx: &Ctx, what: u32) {
    let plans: [Plan; 3] = [
        // a group that ends beyond 4 GiB
        Plan { size: |_| 9_500_000, n: 503 },
        // the first group ends beyond 2 GiB, the second beyond 4 GiB
        Plan { size: |_| 4_600_000, n: 1002 },
        // one group beyond 4 GiB that is not full yet
        Plan { size: |i| if i % 2 == 0 { 18_000_000 } else { 100 }, n: 499 },
    ];
    par(ctx, plans.len(), |k| {
        let p = &plans[k];
        let (f, at) = build(p);
        ctx.st(1);
        ctx.trace(1);
        case(&format!("huge storage {k}: {} records, last at {}", p.n, at[p.n - 1]));
        let r = catch(|| -> Result<(), String> {
            // records at both sides of every power of two from 2 GiB on, of every group boundary and the ends
            let mut idx: Vec<usize> = vec![0, 1, p.n - 2, p.n - 1];
            for lim in [1u64 << 31, 1 << 32] {
                if let Some(i) = at.iter().position(|a| *a >= lim) {
                    idx.extend([i - 2, i - 1, i]);
                    if i + 1 < p.n {
                        idx.push(i + 1);
                    }
                }
            }
            for b in (CAP..p.n).step_by(CAP) {
                idx.extend([b - 1, b]);
            }
            idx.sort();
            idx.dedup();
            let mut r = Reader::new(f.handle()).map_err(|e| format!("opening: {}", errname(&e)))?;
            if r.count() != p.n {
                return Err(format!("count() {} of {}", r.count(), p.n));
            }
            let indexed = |r: &mut Reader<Sparse>, n: usize, idx: &[usize]| -> Result<(), String> {
                for &i in idx {
                    ctx.tr(1);
                    let want = if i < p.n { record(p, i) } else { fresh(i - p.n) };
                    match r.nth(i) {
                        Ok(Some(x)) => is(Ok(x), &want, &format!("nth({i}) of {n}"))?,
                        Ok(None) => return Err(format!("nth({i}) is nothing")),
                        Err(e) => is(Err(e), &want, &format!("nth({i}) of {n}"))?,
                    }
                }
                Ok(())
            };
            if what == 14 {
                indexed(&mut r, p.n, &idx)?;
                for &i in &idx {
                    let m = 2.min(p.n - i);
                    ctx.tr(3);
                    let v: Vec<_> = r.range(i, 2).collect();
                    if v.len() != m {
                        return Err(format!("range({i}, 2) has {} items", v.len()));
                    }
                    for (j, x) in v.into_iter().enumerate() {
                        is(x, &record(p, i + j), &format!("range({i}, 2)[{j}]"))?;
                    }
                    let v: Vec<_> = r.range_filtered(i, 2).collect();
                    if v.len() != m {
                        return Err(format!("range_filtered({i}, 2) has {} items", v.len()));
                    }
                    for (j, x) in v.into_iter().enumerate() {
                        is(x, &record(p, i + j), &format!("range_filtered({i}, 2)[{j}]"))?;
                    }
                    // iteration loads what remains of a group at once: only where that is little
                    let group_end = ((i / CAP + 1) * CAP).min(p.n);
                    let left: usize = (i..group_end).map(p.size).sum();
                    let next: usize = (group_end..(group_end + CAP).min(p.n)).map(p.size).sum();
                    if left > 100_000_000 {
                        continue;
                    }
                    let m = if next > 100_000_000 { m.min(group_end - i) } else { m };
                    let v: Vec<_> = r.seek(i).map_err(|e| format!("seek({i}): {}", errname(&e)))?.take(m).collect();
                    if v.len() != m {
                        return Err(format!("seek({i}) has {} items", v.len()));
                    }
                    for (j, x) in v.into_iter().enumerate() {
                        is(x, &record(p, i + j), &format!("seek({i})[{j}]"))?;
                    }
                }
                return Ok(());
            }
            // insertion: the new records are found by index, the old ones are not touched
            let mut w = Writer::new(f.handle()).map_err(|e| format!("opening for writing: {}", errname(&e)))?;
            let end = f.s.borrow().1;
            let mut grown = end;
            for j in 0..4 {
                ctx.tr(1);
                let pk = fresh(j);
                grown += refc::packet(&pk).len() as u64;
                if (p.n + j) % CAP == 0 {
                    grown += refc::SLOT_SIZE as u64;
                }
                w.insert(pk.real()).map_err(|e| format!("insertion {j}: {}", errname(&e)))?;
                if what == 15 {
                    let added = r.reload().map_err(|e| format!("refresh: {}", errname(&e)))?;
                    if added != 1 || r.count() != p.n + j + 1 {
                        return Err(format!("refresh reports {added}, count() {}", r.count()));
                    }
                    indexed(&mut r, p.n + j + 1, &[p.n + j, p.n - 1])?;
                }
                if f.s.borrow().1 != grown {
                    return Err(format!("after insertion {j} the file has {} bytes instead of {grown}", f.s.borrow().1));
                }
            }
            drop(w);
            idx.extend(p.n..p.n + 4);
            let mut w = Writer::new(f.handle()).map_err(|e| format!("opening again for writing: {}", errname(&e)))?;
            w.insert(fresh(4).real()).map_err(|e| format!("insertion after opening again: {}", errname(&e)))?;
            idx.push(p.n + 4);
            let mut r2 = Reader::new(f.handle()).map_err(|e| format!("opening again: {}", errname(&e)))?;
            if r2.count() != p.n + 5 {
                return Err(format!("count() {} after five insertions into {}", r2.count(), p.n));
            }
            indexed(&mut r2, p.n + 5, &idx)?;
            if what == 15 {
                let added = r.reload().map_err(|e| format!("refresh: {}", errname(&e)))?;
                if added != 1 {
                    return Err(format!("last refresh reports {added}"));
                }
                indexed(&mut r, p.n + 5, &idx)?;
            }
            Ok(())
        })
        .unwrap_or_else(|p| Err(format!("panic {p}")));
        if let Err(e) = r {
            ctx.violation(format!("{e}\nhuge storage: {} records, the last at byte {}", p.n, at[p.n - 1]));
        }
    });
    ctx.group("storages beyond 2 and 4 GiB", plans.len() as u64);
}
