//! An in-memory file with several handles: records the writes, injects faults, splits transfers.
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Fault {
    /// the operation fails and has no effect
    Fail(ErrorKind),
    /// a write takes only this many bytes and says so; on other operations: as Fail
    Short(usize),
    /// a write takes nothing and says so (a full disk); on other operations: as Fail
    Zero,
}

#[derive(Default)]
pub struct Shared {
    pub data: Vec<u8>,
    /// (position, bytes) of every effective write, in order
    pub log: Vec<(u64, Vec<u8>)>,
    /// kind of every operation, in order: r w e (seek to the end) s (other seeks) f
    pub ops: Vec<u8>,
    /// from operation index (counted in `ops`) to behaviour
    pub faults: Vec<(usize, Fault)>,
    /// from this operation on every operation fails, until this one
    pub outage: Option<(usize, usize)>,
    pub hit: usize,
    /// positions and lengths of writes cut short by a fault
    pub torn: Vec<(u64, usize, usize)>,
    pub max_read: usize,
    pub max_write: usize,
    /// every n-th read or write is interrupted
    pub interrupt: usize,
    pub rw: usize,
}

#[derive(Clone)]
pub struct Dev {
    pub s: Rc<RefCell<Shared>>,
    pos: u64,
}

impl Dev {
    pub fn new(data: Vec<u8>) -> Self {
        Dev {
            s: Rc::new(RefCell::new(Shared { data, max_read: usize::MAX, max_write: usize::MAX, ..Default::default() })),
            pos: 0,
        }
    }
    /// another handle of the same file
    pub fn handle(&self) -> Self {
        Dev { s: self.s.clone(), pos: 0 }
    }
    pub fn image(&self) -> Vec<u8> {
        self.s.borrow().data.clone()
    }
    pub fn set_image(&self, d: &[u8]) {
        let mut s = self.s.borrow_mut();
        s.data.clear();
        s.data.extend_from_slice(d);
    }
    pub fn ops(&self) -> usize {
        self.s.borrow().ops.len()
    }
    pub fn take_log(&self) -> Vec<(u64, Vec<u8>)> {
        std::mem::take(&mut self.s.borrow_mut().log)
    }
    pub fn heal(&self) {
        let mut s = self.s.borrow_mut();
        s.faults.clear();
        s.outage = None;
    }
    fn begin(&mut self, kind: u8) -> Result<Option<Fault>> {
        let mut s = self.s.borrow_mut();
        let i = s.ops.len();
        s.ops.push(kind);
        if let Some(f) = s.faults.iter().find(|f| f.0 == i).map(|f| f.1) {
            s.hit += 1;
            return match (f, kind) {
                (Fault::Fail(k), _) => Err(Error::from(k)),
                (f, b'w') => Ok(Some(f)),
                _ => Err(Error::from(ErrorKind::Other)),
            };
        }
        if let Some((a, b)) = s.outage {
            if i >= a && i < b {
                s.hit += 1;
                return Err(Error::from(ErrorKind::Other));
            }
        }
        if s.interrupt > 0 && (kind == b'r' || kind == b'w') {
            s.rw += 1;
            if s.rw % s.interrupt == 0 {
                return Err(Error::from(ErrorKind::Interrupted));
            }
        }
        Ok(None)
    }
}

pub fn apply(data: &mut Vec<u8>, pos: u64, b: &[u8]) {
    let end = pos as usize + b.len();
    if b.is_empty() {
        return;
    }
    if data.len() < end {
        data.resize(end, 0);
    }
    data[pos as usize..end].copy_from_slice(b);
}

pub fn seek_in(pos: u64, len: usize, to: SeekFrom) -> Result<u64> {
    let p: i128 = match to {
        SeekFrom::Start(p) => p as i128,
        SeekFrom::End(d) => len as i128 + d as i128,
        SeekFrom::Current(d) => pos as i128 + d as i128,
    };
    if p < 0 || p > i64::MAX as i128 {
        return Err(Error::from(ErrorKind::InvalidInput));
    }
    Ok(p as u64)
}

pub fn read_at(data: &[u8], pos: u64, b: &mut [u8]) -> usize {
    let p = (pos as usize).min(data.len());
    let n = b.len().min(data.len() - p);
    b[..n].copy_from_slice(&data[p..p + n]);
    n
}

impl Read for Dev {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.begin(b'r')?;
        let s = self.s.borrow();
        let m = b.len().min(s.max_read);
        let n = read_at(&s.data, self.pos, &mut b[..m]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Dev {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.begin(if matches!(to, SeekFrom::End(_)) { b'e' } else { b's' })?;
        self.pos = seek_in(self.pos, self.s.borrow().data.len(), to)?;
        Ok(self.pos)
    }
}
impl Write for Dev {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let f = self.begin(b'w')?;
        let mut s = self.s.borrow_mut();
        let mut n = b.len().min(s.max_write);
        match f {
            Some(Fault::Short(k)) => {
                n = n.min(k);
                if n > 0 && n < b.len() {
                    s.torn.push((self.pos, n, b.len()));
                }
            }
            Some(Fault::Zero) => n = 0,
            _ => {}
        }
        if n > 0 {
            s.log.push((self.pos, b[..n].to_vec()));
            apply(&mut s.data, self.pos, &b[..n]);
        }
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        self.begin(b'f')?;
        Ok(())
    }
}
