//! Generates the definitions under test: every arrangement of field types within the bounds, every field
//! name used by the generated code, every combination of payload attributes. No randomness.
use std::fmt::Write;

const TYPES: [&str; 17] = [
    "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "bool", "Kind", "[u8;0]", "[u8;1]", "[u8;4]",
];
const FEW: [&str; 5] = ["u8", "i32", "bool", "Kind", "[u8;3]"];
/// thorough tier: triples over these as well
const DEEP: [&str; 9] = ["u8", "i32", "bool", "Kind", "[u8;3]", "u64", "f32", "i128", "[u8;0]"];
/// names of variables, parameters, functions and types the generated code uses
const NAMES: [&str; 37] = [
    "buf",
    "buffer",
    "reader",
    "writer",
    "block",
    "blk",
    "crc",
    "sig",
    "sig_buf",
    "skip_sig",
    "hasher",
    "slices",
    "offset",
    "required",
    "src",
    "dst",
    "size",
    "ssize",
    "len",
    "err",
    "bytes",
    "start_pos",
    "read",
    "write",
    "brec",
    "std",
    "payload",
    "packet",
    "r#type",
    "r#fn",
    "r#match",
    "from",
    "into",
    "default",
    "try_from",
    "u8",
    "u16",
];

struct D {
    name: String,
    attr: &'static str,
    head: &'static str,
    vis: &'static str,
    fields: Vec<(String, String)>,
}

fn lit(t: &str) -> String {
    t.to_string()
}

fn main() {
    brec::build_setup();
    let mut defs: Vec<D> = vec![];
    let mut add = |attr: &'static str, head: &'static str, vis: &'static str, fields: Vec<(String, String)>| {
        let name = format!("D{}", defs.len());
        defs.push(D {
            name,
            attr,
            head,
            vis,
            fields,
        });
    };
    let f = |n: &str, t: &str| (n.to_string(), lit(t));
    for t in TYPES {
        add("", "", "pub", vec![f("a", t)]);
        add("no_crc", "", "pub", vec![f("a", t)]);
    }
    for t in TYPES {
        for u in TYPES {
            add("", "", "pub", vec![f("a", t), f("b", u)]);
        }
    }
    for t in FEW {
        for u in FEW {
            for w in FEW {
                add("", "", "pub", vec![f("x", t), f("y", u), f("z", w)]);
            }
        }
    }
    if std::env::var("DEFS_DEEP").is_ok() {
        for t in DEEP {
            for u in DEEP {
                for w in DEEP {
                    if !(FEW.contains(&t) && FEW.contains(&u) && FEW.contains(&w)) {
                        add("", "", "pub", vec![f("x", t), f("y", u), f("z", w)]);
                    }
                }
            }
        }
    }
    // runs of plain fields and of byte arrays in every order of four
    for m in 0..16 {
        let fs = (0..4)
            .map(|i| f(&format!("q{i}"), if m >> i & 1 == 1 { "[u8;2]" } else { "u16" }))
            .collect();
        add("", "", "pub", fs);
    }
    // alternations of plain fields and byte arrays, single ones and pairs
    for n in 5..=12 {
        for (width, start) in [(1, 0), (1, 1), (2, 0), (2, 1)] {
            let fs = (0..n)
                .map(|i| f(&format!("q{i}"), if (i / width + start) % 2 == 1 { "[u8;2]" } else { "u16" }))
                .collect();
            add("", "", "pub", fs);
        }
    }
    for n in NAMES {
        for t in ["u8", "[u8;4]"] {
            add("", "", "pub", vec![f(n, t), f("other", "u16")]);
            add("", "", "pub", vec![f("other", "[u8;4]"), f(n, t)]);
        }
    }
    // visibility, attributes, documentation, forms of the length
    for v in ["", "pub", "pub(crate)", "pub(in crate)"] {
        add(
            "",
            "#[doc = \"text\"]\n#[derive(Debug, Clone, PartialEq)]\n#[allow(dead_code)]",
            v,
            vec![f("a", "u32"), f("b", "[u8;2]")],
        );
        add(
            "no_crc",
            "#[derive(Debug, Clone, PartialEq)]",
            v,
            vec![f("a", "i64"), f("b", "bool")],
        );
    }
    for l in ["[u8;0x10]", "[u8;7usize]", "[u8;1_0]", "[u8;255]", "[u8;256]", "[u8;4096]"] {
        add("", "", "pub", vec![f("n", "u8"), f("d", l), f("m", "u8")]);
    }
    add(
        "",
        "",
        "pub",
        (0..64).map(|i| f(&format!("f{i}"), TYPES[i % TYPES.len()])).collect(),
    );
    add("", "", "pub", (0..300).map(|i| f(&format!("f{i}"), "u8")).collect());
    add("", "", "pub", vec![]);
    add("no_crc", "", "pub", vec![]);
    // in modules which are not imported, `@` is the name of the definition
    for at in ["path = in_@", "path = \"in_@\"", "in_@::deep", "path = in_@::deep", "in_@::deep::er", "path = in_@, no_crc", "no_crc, path = in_@::deep"] {
        add(at, "", "pub", vec![f("a", "u32"), f("b", "[u8;2]"), f("c", "Kind")]);
        add(at, "", "pub", vec![f("q", "[u8;3]")]);
    }

    let mut o = String::new();
    let mut types_of: Vec<String> = vec![];
    for d in &defs {
        let vis = if d.vis == "pub" { "pub" } else { "" };
        let _ = vis;
        let attr = d.attr.replace('@', &d.name);
        let module = attr
            .replace('"', "")
            .split(", ")
            .map(|a| a.trim_start_matches("path = ").to_string())
            .find(|a| a.starts_with("in_"))
            .unwrap_or_default();
        let modules: Vec<&str> = module.split("::").filter(|m| !m.is_empty()).collect();
        for m in &modules {
            writeln!(o, "pub mod {m} {{ #[allow(unused_imports)] use super::*;").unwrap();
        }
        let ty = modules.iter().map(|m| format!("{m}::")).collect::<String>() + &d.name;
        let var = modules
            .iter()
            .map(|m| m[..1].to_uppercase() + &m[1..])
            .collect::<String>()
            + &d.name;
        // a macro found through the import of everything would be expanded after `generate!`
        writeln!(o, "#[brec::block({})]\n{}\n{} struct {} {{", attr, d.head, d.vis, d.name).unwrap();
        for (n, t) in &d.fields {
            writeln!(
                o,
                "    {} {n}: {t},",
                if d.name.len() % 2 == 0 || n.len() % 2 == 0 {
                    "pub"
                } else {
                    "pub(crate)"
                }
            )
            .unwrap();
        }
        writeln!(o, "}}").unwrap();
        for _ in &modules {
            writeln!(o, "}}").unwrap();
        }
        // the name and the types as the signature is documented to be derived from
        let mut snap = format!("{};__sig:[u8;4]", d.name);
        for (n, t) in &d.fields {
            let t = if let Some(l) = t.strip_prefix("[u8;") {
                let l = l.trim_end_matches(']').trim_end_matches("usize").replace('_', "");
                let l = if let Some(h) = l.strip_prefix("0x") {
                    usize::from_str_radix(h, 16).unwrap()
                } else {
                    l.parse().unwrap()
                };
                format!("[u8;{l}]")
            } else {
                t.clone()
            };
            write!(snap, ";{n}:{t}").unwrap();
        }
        snap.push_str(";__crc:[u8;4]");
        let types: Vec<String> = d.fields.iter().map(|(_, t)| format!("<{t} as Fv>::KIND")).collect();
        writeln!(
            o,
            "impl Def for {0} {{
    const SNAP: &'static str = {1:?};
    const CRC: bool = {2};
    const KINDS: &'static [FK] = &[{3}];
    fn make(_v: &[Vec<u8>]) -> Self {{ {0} {{ {4} }} }}
    fn get(&self) -> Vec<Vec<u8>> {{ vec![{5}] }}
    fn wrap(self) -> Block {{ Block::{6}(self) }}
    fn unwrap(b: &Block) -> Option<&Self> {{ if let Block::{6}(b) = b {{ Some(b) }} else {{ None }} }}
    fn slice(b: &[u8], skip: bool) -> Result<Self, brec::Error> {{ {0}Referred::read_from_slice(b, skip).map(|r| r.into()) }}
}}",
            ty,
            snap,
            !d.attr.contains("no_crc"),
            types.join(", "),
            d.fields
                .iter()
                .enumerate()
                .map(|(i, (n, _))| format!("{n}: Fv::from_le(&_v[{i}])"))
                .collect::<Vec<_>>()
                .join(", "),
            d.fields
                .iter()
                .map(|(n, _)| format!("self.{n}.get_le()"))
                .collect::<Vec<_>>()
                .join(", "),
            var,
        )
        .unwrap();
        types_of.push(ty);
    }
    writeln!(
        o,
        "pub const OTHERS: &[(&str, fn() -> Vec<u8>, fn(&[u8]) -> Vec<Saw>)] = &[{}];",
        types_of.iter().map(|t| format!("({t}::SNAP, sample::<{t}>, saw::<{t}>)")).collect::<Vec<_>>().join(", ")
    )
    .unwrap();
    writeln!(
        o,
        "pub const CHECKS: &[fn(&Ctx)] = &[{}];",
        types_of.iter().map(|t| format!("check::<{t}>")).collect::<Vec<_>>().join(", ")
    )
    .unwrap();

    // payloads
    let shapes: [(&str, &str, &str, &str); 6] = [
        ("struct", "{ pub x: u32 }", "{n} { x: 0x01020304 }", "&[4, 3, 2, 1]"),
        ("struct", "(pub u8, pub u16);", "{n}(7, 0x0102)", "&[7, 2, 1]"),
        ("struct", ";", "{n}", "&[]"),
        ("enum", "{ A, B }", "{n}::B", "&[1, 0, 0, 0]"),
        ("enum", "{ A(u8), B { x: u16 } }", "{n}::B { x: 0x0304 }", "&[1, 0, 0, 0, 4, 3]"),
        (
            "struct",
            "{ pub s: String, pub o: Option<u8> }",
            "{n} { s: \"ab\".to_string(), o: Some(9) }",
            "&[2, 0, 0, 0, 0, 0, 0, 0, 97, 98, 1, 9]",
        ),
    ];
    let mut pls = vec![];
    for m in 0..32u32 {
        for (si, sh) in shapes.iter().enumerate() {
            if si > 0 && !matches!(m, 0 | 2) {
                continue;
            }
            let (sig, nocrc, noauto, hooks, path) = (m & 1 > 0, m & 2 > 0, m & 4 > 0, m & 8 > 0, m & 16 > 0);
            let n = format!("P{}", pls.len());
            // far from each other: damage of one does not give another
            let own = format!("{:08x}", (pls.len() as u32 + 1).wrapping_mul(2654435761));
            let mut at = vec!["bincode"];
            if sig {
                at.push("no_default_sig");
            }
            if nocrc {
                at.push("no_crc");
            }
            if noauto {
                at.push("no_auto_crc");
            }
            if hooks {
                at.push("hooks");
            }
            if path {
                // any order of the attributes
                at.insert(0, "path = pin");
            }
            if path {
                writeln!(o, "pub mod pin_{n} {{ use super::*;").unwrap();
                at[0] = "PATH";
            }
            let at = at.join(", ").replace("PATH", &format!("path = pin_{n}"));
            writeln!(
                o,
                "#[brec::payload({at})]\n#[derive(serde::Serialize, serde::Deserialize, Debug, Clone, PartialEq)]\npub {} {n} {}",
                sh.0, sh.1
            )
            .unwrap();
            if sig {
                writeln!(
                    o,
                    "impl brec::PayloadSignature for {n} {{ fn sig(&self) -> brec::ByteBlock {{ brec::ByteBlock::Len8(*b\"{own}\") }} }}"
                )
                .unwrap();
                writeln!(
                    o,
                    "impl brec::StaticPayloadSignature for {n} {{ fn ssig() -> brec::ByteBlock {{ brec::ByteBlock::Len8(*b\"{own}\") }} }}"
                )
                .unwrap();
            }
            if noauto && !nocrc {
                writeln!(
                    o,
                    "impl brec::PayloadCrc for {n} {{
    fn crc(&self) -> std::io::Result<brec::ByteBlock> {{ Ok(brec::ByteBlock::Len8(own_crc(&brec::PayloadEncode::encode(self)?))) }}
    fn crc_size() -> usize {{ 8 }}
}}"
                )
                .unwrap();
            }
            if hooks {
                writeln!(o, "impl brec::PayloadHooks for {n} {{}}").unwrap();
            }
            if path {
                writeln!(o, "}}").unwrap();
            }
            let (var, ty) = if path {
                (format!("Pin_{n}{n}"), format!("pin_{n}::{n}"))
            } else {
                (n.clone(), n.clone())
            };
            let sigx = if sig {
                format!("b\"{own}\".to_vec()")
            } else {
                format!("crc32(b\"{var}\").to_le_bytes().to_vec()")
            };
            let crcx = if nocrc {
                "vec![0; 4]".to_string()
            } else if noauto {
                "own_crc(body).to_vec()".to_string()
            } else {
                "crc32(body).to_le_bytes().to_vec()".to_string()
            };
            let val = sh.2.replace("{n}", &ty);
            pls.push(format!(
                "PlDef {{ name: \"{n} {at}\", body: {}, crc: {}, sig: || {sigx}, sum: |_body| {{ let body = _body; let _ = body; {crcx} }}, make: || Payload::{var}({val}), is: |p| matches!(p, Payload::{var}(v) if *v == {val}) }}",
                sh.3, !nocrc
            ));
        }
    }
    writeln!(o, "pub const PAYLOADS: &[PlDef] = &[\n{}\n];", pls.join(",\n")).unwrap();
    writeln!(o, "brec::generate!();").unwrap();
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/defs.rs"), o).unwrap();
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=DEFS_DEEP");
}
