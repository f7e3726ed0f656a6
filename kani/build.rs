//! Mechanical extraction of /repo source text for harnesses that need a function the crate
//! does not export, or a different collection behind it.  Each extraction states what it
//! drops; when an anchor is lost the cfg is not set and the harness is left out.
use std::{env, fs, path::Path};

fn main() {
    println!("cargo:rerun-if-changed=/repo/src");
    println!("cargo:rerun-if-changed=x");
    // read_cache.rs: the items that define and implement ReadCacheRange, unchanged.
    extract("read_cache", "read/read_cache.rs", &|h| h.contains("struct ReadCacheRange") || h.contains("for ReadCacheRange<"),
        "pub fn at(_: &'static [u8], _: u64, _: u64) -> Result<&'static [u8], ()> { Err(()) } pub fn until(_: &'static [u8], _: Range<u64>, _: u8) -> Result<&'static [u8], ()> { Err(()) }");
    // relocation.rs: the CREL iterator and its entry, unchanged.
    extract("crel", "read/elf/relocation.rs", &|h| h.contains("struct Crel") || h.contains("impl<'data> CrelIterator") || h.contains("for CrelIterator<"),
        "pub fn sym() -> u64 { 0 }");
    // gnu_compression.rs: the whole parser, unchanged.
    extract("gnu_compression", "read/gnu_compression.rs", &|h| !h.starts_with("use "),
        "use core::result; pub trait ReadRef<'d>: Copy { fn read_bytes(self, o: &mut u64, s: u64) -> Result<&'d [u8], ()>; fn read<T>(self, o: &mut u64) -> Result<&'d T, ()>; } pub struct U32<E>(E); impl<E> U32<E> { pub fn get(&self, _: E) -> u32 { 0 } } pub mod endian { pub struct BigEndian; } pub enum CompressionFormat { None, Unknown, Zlib, Zstandard } pub struct CompressedFileRange { pub format: CompressionFormat, pub offset: u64, pub compressed_size: u64, pub uncompressed_size: u64 }");
    // mod.rs: Relocation and RelocationMap, unchanged (derives and trait impls other than
    // their inherent methods are dropped).
    extract("relmap", "read/mod.rs", &|h| ["pub enum RelocationTarget", "pub struct Relocation", "impl Relocation", "pub struct RelocationMap(Map<u64, RelocationMapEntry>)", "impl RelocationMap", "struct RelocationMapEntry"].contains(&h.trim_end()),
        "use core::fmt; pub fn witness_key() -> u64 { 0 } #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)] pub struct SymbolIndex(pub usize); #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)] pub struct SectionIndex(pub usize); #[derive(PartialEq, Clone, Copy)] pub enum SectionKind { Debug } #[derive(PartialEq, Clone, Copy)] pub enum RelocationEncoding { Generic } #[derive(Clone, Copy)] pub enum RelocationKind { None, Absolute, Unknown } #[derive(Clone, Copy)] pub struct RelocationFlags;");
    // string.rs: the string table and its sort, unchanged.
    extract("strtab", "write/string.rs", &|h| h.contains("struct StringId") || h.contains("struct StringTable") || h.contains("StringTable<") || h.starts_with("fn sort") || h.starts_with("fn byte"), "");
}

/// Put the wanted items of a source file into the context `x/NAME.rs` in place of its
/// `//@EXTRACT` line; cfg `x_NAME` is set when the result compiles on its own.  Items the
/// wanted ones turn out to need (helpers, constants) are taken along, a few rounds deep.
fn extract(name: &str, file: &str, want: &dyn Fn(&str) -> bool, hooks: &str) {
    let out = env::var("OUT_DIR").unwrap();
    println!("cargo:rustc-check-cfg=cfg(x_{name})");
    let s = fs::read_to_string(Path::new("/repo/src").join(file)).unwrap_or_default();
    let ctx = fs::read_to_string(format!("x/{name}.rs")).unwrap();
    let mut more: Vec<String> = vec![];
    let mut text = String::new();
    for _ in 0..4 {
        let got = items(&s, |h| want(h) || more.iter().any(|m| ["fn ", "struct ", "enum ", "const ", "static ", "type ", "trait "].iter().any(|k| {
            h.find(&format!("{k}{m}")).is_some_and(|i| !h[i + k.len() + m.len()..].starts_with(|c: char| c.is_alphanumeric() || c == '_'))
        })));
        text = ctx.replace("//@EXTRACT", &got.replace("pub(super) ", "pub ").replace("pub(crate) ", "pub "));
        let probe = Path::new(&out).join(format!("{name}_probe.rs"));
        fs::write(&probe, format!("{text}\n{hooks}\n")).unwrap();
        let rustc = env::var("RUSTC").unwrap_or("rustc".into());
        let res = std::process::Command::new(rustc)
            .args(["--edition", "2024", "--crate-type", "lib", "--emit", "metadata", "-A", "warnings", "--out-dir"])
            .arg(&out)
            .arg(&probe)
            .output();
        let Ok(o) = res else { break };
        if o.status.success() {
            if !got.is_empty() {
                println!("cargo:rustc-cfg=x_{name}");
            }
            break;
        }
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        let n = more.len();
        for l in err.lines().filter(|l| l.starts_with("error") && l.contains("cannot find")) {
            if let Some(m) = l.split('`').nth(1) {
                if !more.iter().any(|x| x == m) {
                    more.push(m.into());
                }
            }
        }
        if more.len() == n {
            println!("cargo:warning=extraction {name}: {}", err.lines().find(|l| l.starts_with("error")).unwrap_or(""));
            break;
        }
    }
    // inner attributes are not allowed in an included file
    let text = text.replace("#![", "// #![");
    fs::write(Path::new(&out).join(format!("{name}.rs")), text).unwrap();
}

/// Top-level items whose header (text up to the first `{` or `;`) satisfies `want`,
/// with their attributes, doc comments dropped.
fn items(src: &str, want: impl Fn(&str) -> bool) -> String {
    let mut out = String::new();
    let mut lines = src.lines().peekable();
    let mut attrs = String::new();
    while let Some(l) = lines.next() {
        if l.starts_with("//") || l.trim().is_empty() {
            continue;
        }
        if l.starts_with("#[") {
            attrs.push_str(l);
            attrs.push('\n');
            continue;
        }
        if l.starts_with("#!") {
            continue;
        }
        // an item starts in column 0 and ends at a line "}" or at a `;` before any brace
        let mut item = String::from(l);
        item.push('\n');
        let done = |i: &str| {
            let b = i.find('{');
            let s = i.trim_end().ends_with(';') && (b.is_none() || i.starts_with("use ") || i.starts_with("pub use "));
            s || (b.is_some() && {
                let last = i.trim_end().lines().last().unwrap_or("");
                last == "}" || (i.lines().count() == 1 && last.ends_with('}'))
            })
        };
        while !done(&item) {
            match lines.next() {
                Some(l) => {
                    item.push_str(l);
                    item.push('\n');
                }
                None => break,
            }
        }
        let head = &item[..item.find(['{', ';']).unwrap_or(item.len())];
        if want(head) {
            out.push_str(&attrs);
            out.push_str(&item);
        }
        attrs.clear();
    }
    out
}
