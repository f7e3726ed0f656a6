//! Variable-length integers.
use crate::shim::*;
use object::read::Bytes;
use object::read::elf::AttributesSection;
use object::write::elf::AttributesWriter;
use object::{elf, Endianness};

/// Number of bytes of the encoding at the head of `d` (1..=10), or None.
fn group_len(d: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < 10 {
        if i >= d.len() { return None; }
        if d[i] & 0x80 == 0 { return Some(i + 1); }
        i += 1;
    }
    None
}
fn uleb_spec(d: &[u8]) -> Option<(u64, usize)> {
    let n = group_len(d)?;
    let mut v: u128 = 0;
    let mut i = 0;
    while i < n {
        v |= ((d[i] & 0x7f) as u128) << (7 * i);
        i += 1;
    }
    if v >> 64 != 0 { None } else { Some((v as u64, n)) }
}
fn sleb_spec(d: &[u8]) -> Option<(i64, usize)> {
    let n = group_len(d)?;
    let mut v: i128 = 0;
    let mut i = 0;
    while i < n {
        v |= ((d[i] & 0x7f) as i128) << (7 * i);
        i += 1;
    }
    if d[n - 1] & 0x40 != 0 { v |= -1i128 << (7 * n); }
    if v < i64::MIN as i128 || v > i64::MAX as i128 { None } else { Some((v as i64, n)) }
}

harnesses! {
    /// Loops are bounded by the ten groups of a 64-bit value, so unwinding is complete.
    [kani::unwind(12)]
    fn uleb_read() {
        let d = any_bytes::<14>();
        let mut b = Bytes(d);
        let r = b.read_uleb128();
        match uleb_spec(d) {
            Some((v, n)) => {
                reach!(n == 10, "ten groups");
                ensure!(r == Ok(v), "uleb128: decodes to the mathematical value");
                ensure!(is_at(b.0, d, n, d.len() - n), "uleb128: consumes exactly its bytes");
            }
            None => ensure!(r.is_err(), "uleb128: short or over-long input fails"),
        }
    }
    [kani::unwind(12)]
    fn sleb_read() {
        let d = any_bytes::<14>();
        let mut b = Bytes(d);
        let r = b.read_sleb128();
        match sleb_spec(d) {
            Some((v, n)) => {
                reach!(n == 10 && v < 0, "ten groups");
                ensure!(r == Ok(v), "sleb128: decodes to the mathematical value");
                ensure!(is_at(b.0, d, n, d.len() - n), "sleb128: consumes exactly its bytes");
            }
            None => ensure!(r.is_err(), "sleb128: short or over-long input fails"),
        }
    }
    /// Encoder (as used by the attributes writer) against the decoder and the spec.
    [kani::unwind(28)]
    fn uleb_write() {
        let v: u64 = any();
        let mut w = AttributesWriter::new(Endianness::Little);
        w.start_subsection(b"");
        w.start_subsubsection(elf::Tag_File);
        w.write_attribute_integer(v);
        w.end_subsubsection();
        w.end_subsection();
        let out = w.data();
        // 'A', u32 length, NUL, tag, u32 length, then the number
        let enc = &out[11..];
        let mut n = 1;
        let mut x = v >> 7;
        while x != 0 { n += 1; x >>= 7; }
        ensure!(enc.len() == n, "uleb128 encoder: minimal length");
        ensure!(uleb_spec(enc) == Some((v, n)), "uleb128 encoder: bytes denote the value");
        let mut b = Bytes(enc);
        ensure!(b.read_uleb128() == Ok(v) && b.is_empty(), "uleb128: decode(encode(v)) == v");
        ensure!(out[1..5] == ((out.len() - 1) as u32).to_le_bytes(), "encoded size is the number of bytes written");
        ensure!(out[7..11] == ((out.len() - 6) as u32).to_le_bytes(), "encoded size is the number of bytes written");
    }
    /// Tag and index fields use the same encoding.
    [kani::unwind(28)]
    fn attribute_tag() {
        let t: u64 = any();
        let mut w = AttributesWriter::new(Endianness::Big);
        w.start_subsection(b"");
        w.start_subsubsection(elf::Tag_File);
        w.write_attribute_tag(t);
        w.end_subsubsection();
        w.end_subsection();
        let out = w.data();
        let mut b = Bytes(&out[11..]);
        ensure!(b.read_uleb128() == Ok(t) && b.is_empty(), "attribute tag round trip");
    }
    [kani::unwind(28)]
    fn attribute_index() {
        let t: u32 = any();
        let mut w = AttributesWriter::new(Endianness::Big);
        w.start_subsection(b"");
        w.start_subsubsection(elf::Tag_Section);
        w.write_subsubsection_index(t);
        w.end_subsubsection();
        w.end_subsection();
        let out = w.data();
        let mut b = Bytes(&out[11..]);
        ensure!(b.read_uleb128() == Ok(t as u64) && b.is_empty(), "attribute index round trip");
    }
}

natives! {}
