// shared by the protocols with packets: every packet through every reader and a storage
fn round(packets: Vec<Packet>) -> (u64, Vec<String>) {
    let show = |p: &Packet| format!("{:?} {:?}", p.blocks, p.payload);
    let mut bad = vec![];
    let mut n = 0;
    let want: Vec<String> = packets.iter().map(show).collect();
    let mut stream = vec![0x33; 5];
    let mut file = std::io::Cursor::new(vec![]);
    let mut w = Writer::new(&mut file).expect("writer");
    for (i, mut p) in packets.into_iter().enumerate() {
        let mut e = vec![];
        WriteMutTo::write_all(&mut p, &mut e).expect("write");
        let mut v = vec![];
        WriteVectoredMutTo::write_vectored_all(&mut p, &mut v).expect("write");
        if v != e {
            bad.push(format!("{}: vectored writing differs", want[i]));
        }
        stream.extend(&e);
        stream.extend([0x44; 3]);
        let got = [
            <Packet as ReadFrom>::read(&mut std::io::Cursor::new(&e)).ok(),
            match <Packet as TryReadFrom>::try_read(&mut std::io::Cursor::new(&e)) {
                Ok(ReadStatus::Success(p)) => Some(p),
                _ => None,
            },
            match <Packet as TryReadFromBuffered>::try_read(&mut std::io::Cursor::new(&e)) {
                Ok(ReadStatus::Success(p)) => Some(p),
                _ => None,
            },
        ];
        for (k, g) in got.iter().enumerate() {
            n += 1;
            let g = g.as_ref().map(show);
            if g.as_ref() != Some(&want[i]) {
                bad.push(format!("{} is read as {g:?} by reader {k}", want[i]));
            }
        }
        w.insert(p).expect("insert");
    }
    drop(w);
    let mut got = vec![];
    let mut c = std::io::Cursor::new(&stream);
    let mut rd: PacketBufReader<_> = PacketBufReader::new(&mut c);
    for _ in 0..stream.len() {
        match rd.read() {
            Ok(NextPacket::Found(p)) => got.push(show(&p)),
            Ok(NextPacket::NoData) => break,
            _ => {}
        }
    }
    if got != want {
        bad.push(format!("stream: {got:?}, expected {want:?}"));
    }
    let mut r = Reader::new(file).expect("reader");
    let got: Vec<String> = r.iter().map(|p| p.map(|p| show(&p)).unwrap_or_else(|e| e.to_string())).collect();
    if got != want {
        bad.push(format!("storage: {got:?}, expected {want:?}"));
    }
    bad.truncate(3);
    (n + 2, bad)
}
