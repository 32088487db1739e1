//! Copies /repo's server sources to OUT_DIR, byte for byte except that paths starting with `std::`
//! name `crate::vstd::` (std plus the models in src/model), and, in the storage file layer
//! (common/interface/fs.rs), `fs`/`BufReader`/`BufWriter` name the in-memory file model.
use std::{env, fs, path::Path};
fn ident(b: u8) -> bool { b.is_ascii_alphanumeric() || b == b'_' }
fn subst(s: &str) -> String {
    let (b, mut o, mut i) = (s.as_bytes(), Vec::with_capacity(s.len() + 1024), 0);
    while i < b.len() {
        if b[i..].starts_with(b"::std::") && (i == 0 || !ident(b[i - 1])) { o.extend_from_slice(b"crate::vstd::"); i += 7; }
        else if b[i..].starts_with(b"std::") && (i == 0 || !(ident(b[i - 1]) || b[i - 1] == b':')) { o.extend_from_slice(b"crate::vstd::"); i += 5; }
        else { o.push(b[i]); i += 1; }
    }
    String::from_utf8(o).unwrap()
}
fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let p = e.unwrap().path();
        let t = to.join(p.file_name().unwrap());
        if p.is_dir() { copy(&p, &t); continue; }
        let c = fs::read(&p).unwrap();
        let c = if p.extension().map_or(false, |x| x == "rs") {
            let mut s = subst(&String::from_utf8(c).unwrap());
            if p.ends_with("storage/common/interface/fs.rs") {
                s = s.replace("fs as std_fs", "fsmodel as std_fs").replace("io::{BufReader, BufWriter, ", "fsmodel::{BufReader, BufWriter}, io::{");
            }
            if p.ends_with("storage/common/checksum.rs") { s = s.replace("crc::{", "crate::vstd::crcmodel::{"); }
            if env::var("CARGO_FEATURE_INLINEMAPS").is_ok() {
                if p.ends_with("core/index/row.rs") { s = s.replace("= IndexST<RawStr", "= crate::vstd::inl::HashMap<RawStr"); }
                if p.ends_with("idx/stdhm.rs") {
                    s = format!("{s}\nmod inl {{\n{}\n}}\n", s.replace("super::", "super::super::").replace("vstd::collections", "vstd::inlcollections").replace("vstd::{", "vstd::{").replace("collections::{\n            hash_map", "inlcollections::{\n            hash_map"));
                }
            }
            // the journal writer's buffer: small, so that it is exceeded within the bound
            if p.ends_with("sdss_r1/rw.rs") { s = s.replace("const SIZE: usize = 8192", "const SIZE: usize = 64"); }
            s.into_bytes()
        } else { c };
        if fs::read(&t).map_or(true, |old| old != c) { fs::write(&t, c).unwrap(); }
    }
}
fn main() {
    let o = env::var("OUT_DIR").unwrap();
    fs::write(format!("{o}/skyd"), "help").unwrap();
    let src = format!("{o}/src");
    let _ = fs::create_dir_all(&src);
    // (SKYVERIF_REPO: development only; checks always run against /repo)
    let repo = env::var("SKYVERIF_REPO").unwrap_or_else(|_| "/repo".into());
    copy(&Path::new(&repo).join("server/src"), Path::new(&src));
    fs::write(format!("{o}/mods.rs"), format!(
        "#[macro_use]\n#[path = \"{src}/util/mod.rs\"]\npub mod util;\n#[path = \"{src}/engine/mod.rs\"]\nmod engine;\n")).unwrap();
    println!("cargo:rerun-if-changed=/nonexistent/always-rerun");
    println!("cargo:rerun-if-env-changed=SKYVERIF_DIR");
    println!("cargo:rustc-cfg=skyverif");
}
