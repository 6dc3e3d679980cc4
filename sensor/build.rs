// Takes the sensor's sources as they are in /repo; the only change is the origin of `std` items, which
// come from `shim` (loom's synchronisation primitives, everything else re-exported from std).
use std::path::{Path, PathBuf};

fn subst(src: &str) -> String {
    let b = src.as_bytes();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let word = |w: &str| {
            src[i..].starts_with(w)
                && src[i + w.len()..].trim_start().starts_with("::")
                && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_'))
        };
        if word("std") {
            out.push_str("shim");
            i += 3;
        } else if word("core") {
            out.push_str("shim");
            i += 4;
        } else {
            let c = src[i..].chars().next().unwrap();
            out.push(c);
            i += c.len_utf8();
        }
    }
    out
}

fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let p = e.path();
        let t = to.join(e.file_name());
        if p.is_dir() {
            copy(&p, &t);
        } else if p.extension().is_some_and(|x| x == "rs") {
            let s = std::fs::read_to_string(&p).unwrap();
            std::fs::write(&t, subst(&s)).unwrap();
        }
    }
}

fn main() {
    let root = PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap());
    let from = root.join("../../repo/brec/src/storage/observer").canonicalize().expect("sources of the observer");
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let to = out.join("observer");
    let _ = std::fs::remove_dir_all(&to);
    copy(&from, &to);
    let m = if to.join("sensor/mod.rs").exists() { to.join("sensor/mod.rs") } else { to.join("sensor.rs") };
    std::fs::write(out.join("inc.rs"), format!("#[allow(dead_code)]\n#[path = {:?}]\npub mod sensor;\n", m)).unwrap();
    println!("cargo:rerun-if-changed={}", from.display());
    println!("cargo:rerun-if-changed=build.rs");
}
