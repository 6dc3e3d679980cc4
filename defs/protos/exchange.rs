// shared by the two versions of a protocol: everything crosses over as plain bytes and text
use std::sync::{Arc, Mutex};

#[derive(Clone)]
pub struct Piece {
    /// text of the packet
    pub text: String,
    /// the other version has all its definitions
    pub shared: bool,
    pub bytes: Vec<u8>,
}
fn show(p: &Packet) -> String {
    format!("{:?} {:?}", p.blocks, p.payload)
}
pub fn pieces() -> Vec<Piece> {
    packets()
        .into_iter()
        .map(|(shared, mut p)| {
            let mut bytes = vec![];
            WriteMutTo::write_all(&mut p, &mut bytes).expect("write");
            Piece { text: show(&p), shared, bytes }
        })
        .collect()
}
/// a storage with the given packets
pub fn store(idx: &[usize]) -> Vec<u8> {
    let mut file = std::io::Cursor::new(vec![]);
    let mut w = Writer::new(&mut file).expect("writer");
    for i in idx {
        w.insert(packets().swap_remove(*i).1).expect("insert");
    }
    drop(w);
    file.into_inner()
}
struct Chunks<'a>(&'a [u8], usize);
impl std::io::Read for Chunks<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
/// (packets and errors in order, ignored bytes) as seen by the stream extractor
pub fn extract(bytes: &[u8], chunk: usize) -> (Vec<Option<String>>, Vec<u8>) {
    let mut src = Chunks(bytes, chunk);
    let ignored = Arc::new(Mutex::new(vec![]));
    let to = ignored.clone();
    let mut rd: PacketBufReader<_> = PacketBufReader::new(&mut src);
    rd.add_rule(Rule::Ignored(brec::RuleFnDef::Dynamic(Box::new(move |b: &[u8]| to.lock().unwrap().extend(b)))))
        .expect("rule");
    let mut out = vec![];
    for _ in 0..bytes.len() * 2 + 100 {
        match rd.read() {
            Ok(NextPacket::Found(p)) => out.push(Some(show(&p))),
            Ok(NextPacket::NoData) => break,
            Ok(_) => {}
            Err(_) => out.push(None),
        }
    }
    drop(rd);
    let i = ignored.lock().unwrap().clone();
    (out, i)
}
/// what each single reader says, with the position after it
pub fn readers(b: &[u8]) -> Vec<(&'static str, Option<String>, u64)> {
    let st = |r: Result<ReadStatus<Packet>, brec::Error>| match r {
        Ok(ReadStatus::Success(p)) => Some(show(&p)),
        _ => None,
    };
    let mut c = std::io::Cursor::new(b);
    let a = <Packet as ReadFrom>::read(&mut c).ok().map(|p| show(&p));
    let mut d = std::io::Cursor::new(b);
    let e = st(<Packet as TryReadFrom>::try_read(&mut d));
    let mut f = std::io::Cursor::new(b);
    let g = st(<Packet as TryReadFromBuffered>::try_read(&mut f));
    vec![("read", a, c.position()), ("try_read", e, d.position()), ("buffered try_read", g, f.position())]
}
/// all records by iteration, one by one, as a range, filtered by nothing
pub fn load(file: Vec<u8>) -> Result<Vec<(&'static str, Vec<Option<String>>)>, String> {
    let mut r = Reader::new(std::io::Cursor::new(file)).map_err(|e| format!("{e:?}"))?;
    let n = r.count();
    let lim = n + 5;
    let it = |p: Result<Packet, brec::Error>| p.ok().map(|p| show(&p));
    let mut out = vec![("iteration", r.iter().take(lim).map(it).collect::<Vec<_>>())];
    out.push(("indexed", (0..n).map(|i| r.nth(i).ok().flatten().map(|p| show(&p))).collect()));
    out.push(("range", r.range(0, n).take(lim).map(it).collect()));
    out.push(("filtered range", r.range_filtered(0, n).take(lim).map(it).collect()));
    Ok(out)
}
