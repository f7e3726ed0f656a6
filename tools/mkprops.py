#!/usr/bin/env python3
"""Single source for properties.jsonl (what must hold); MANIFEST.json is made by mkmanifest.py."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=None)))


prop("C01", "Zero-copy typed views cover exactly the bytes asked for",
     "Viewing bytes as a fixed-layout record or array of records succeeds exactly when the input holds enough correctly aligned bytes, the view is exactly those bytes in place, and the remainder is everything after them; casting back to bytes is the inverse. "
     "A cursor over bytes consumes exactly what it returned, and an over-long request is an error that leaves the cursor empty. No length, count or offset, however large, panics or reaches outside the input.",
     ["inputs"], "every input length, offset, element count (including counts whose byte size overflows), element size and alignment",
     "The unit tests try one 4- and one 8-byte buffer; lengths and counts are unbounded and the overflow cases need counts near 2^64.",
     ["src/pod.rs", "src/read/util.rs"],
     [("size computed with checked multiplication before slicing", "src/pod.rs slice_from_bytes"),
      ("cursor advances by get()/split", "src/read/util.rs Bytes")],
     ["return values of the public cast functions and of the byte cursor"])

prop("C02", "Endian-tagged integers decode and encode every value exactly",
     "For every integer width and every value, storing a value under a byte order and loading it under the same order gives the value back, and the stored bytes are that value's big-endian or little-endian bytes. "
     "Run-time selected endianness behaves exactly as the corresponding fixed endianness, and unaligned field types behave exactly as the primitive conversions.",
     ["inputs"], "every value of every integer width, both byte orders, fixed and run-time selected",
     "Tests check one constant per type.",
     ["src/endian.rs"],
     [("Endian trait conversions", "src/endian.rs"), ("U16Bytes..I64Bytes wrappers", "src/endian.rs")],
     ["stored bytes and loaded values"])

prop("C03", "Bounded reads return exactly the requested file bytes or an error",
     "A read at an offset and size from an in-memory file, from a sub-range of a cached stream, or from a cached stream returns exactly the file's bytes there, or an error when the range is not inside the file or the sub-range; no offset or size panics. "
     "A delimited read returns the bytes before the first delimiter inside the given range, or an error if there is none, and string-table lookup is the delimited read at table start plus offset limited to the table end. All sources give the same answer for the same file, except that a cached stream may refuse delimited reads longer than 4096 bytes.",
     ["inputs", "histories"], "every file, offset, size, range and delimiter position, and every order of reads through the cache",
     "Tests read a handful of offsets; the dangerous cases are offsets near 2^64, ranges past the end, and cache hits after earlier reads of other sizes.",
     ["src/read/read_ref.rs", "src/read/read_cache.rs", "src/read/util.rs"],
     [("checked conversion and get()", "src/read/read_ref.rs"), ("range offset checks", "src/read/read_cache.rs ReadCacheRange"),
      ("cache keyed by offset and size", "src/read/read_cache.rs"), ("string table bounds", "src/read/util.rs StringTable")],
     ["byte slices returned"])

prop("C04", "Variable-length integers decode to their exact value or fail",
     "Decoding an unsigned or signed LEB128 number yields the mathematical value of its groups and consumes exactly its bytes, and fails when the input ends early or the value does not fit in 64 bits. "
     "Encoding any unsigned 64-bit value and decoding the result gives the value back, and the reported encoded size is the number of bytes written.",
     ["inputs"], "every byte sequence and every 64-bit value",
     "No test enumerates 10-byte encodings; sign extension and the 64-bit limit only show in the last group.",
     ["src/read/util.rs", "src/write/util.rs", "src/write/macho/encoder.rs", "src/read/macho/exports_trie.rs", "src/read/elf/attributes.rs"],
     [("shift==63 guard", "src/read/util.rs"), ("write_uleb128/write_sleb128", "src/write/util.rs")],
     ["decoded value, bytes consumed, bytes written"])

prop("C05", "Malformed ELF input yields errors, never a panic or out-of-range read",
     "Every ELF read operation, on any header and table contents and any file bytes, either returns a value made only of bytes inside the file range it describes, or an error. "
     "It never panics, overflows an integer, shifts by the width of the type or more, or divides by zero.",
     ["inputs"], "every byte string handed to the ELF header, section, segment, symbol, relocation, note, version, hash, dynamic and attribute readers",
     "The tests read well-formed files (and the fuzz corpus is not in the tree); malformed field combinations are unbounded.",
     ["src/read/elf/file.rs", "src/read/elf/section.rs", "src/read/elf/segment.rs", "src/read/elf/symbol.rs", "src/read/elf/relocation.rs",
      "src/read/elf/note.rs", "src/read/elf/version.rs", "src/read/elf/hash.rs", "src/read/elf/dynamic.rs", "src/read/elf/attributes.rs"],
     [("checked offsets, get(), read_error", "src/read/elf/*")], ["Result values", "absence of panics"])

prop("C06", "Malformed Mach-O input yields errors, never a panic or out-of-range read",
     "Every Mach-O read operation (headers, load commands, segments, sections, symbols, relocations, fat archives, code signatures, dyld info, fixups and exports trie), on any file bytes, either returns a value made only of bytes inside the file, or an error. "
     "It never panics, overflows an integer, over-shifts or divides by zero.",
     ["inputs"], "every byte string handed to the Mach-O readers",
     "Tests read a few well-formed files; malformed field combinations are unbounded.",
     ["src/read/macho/file.rs", "src/read/macho/load_command.rs", "src/read/macho/segment.rs", "src/read/macho/section.rs", "src/read/macho/symbol.rs",
      "src/read/macho/fat.rs", "src/read/macho/fixup.rs", "src/read/macho/dyld_info.rs", "src/read/macho/exports_trie.rs", "src/read/macho/codesign.rs"],
     [("checked offsets, get(), read_error", "src/read/macho/*")], ["Result values", "absence of panics"])

prop("C07", "Malformed PE and COFF input yields errors, never a panic",
     "Every PE and COFF read operation (headers, section table, symbol and string tables, relocations, data directories, imports, exports, resources, base relocations, rich header, import objects), on any file bytes, either returns a value made only of bytes inside the file, or an error. "
     "It never panics, overflows an integer, over-shifts or divides by zero.",
     ["inputs"], "every byte string handed to the PE and COFF readers",
     "Tests read a few well-formed files; malformed field combinations are unbounded.",
     ["src/read/pe/file.rs", "src/read/pe/section.rs", "src/read/pe/import.rs", "src/read/pe/export.rs", "src/read/pe/resource.rs", "src/read/pe/relocation.rs",
      "src/read/pe/data_directory.rs", "src/read/pe/rich.rs", "src/read/coff/file.rs", "src/read/coff/section.rs", "src/read/coff/symbol.rs", "src/read/coff/import.rs"],
     [("checked offsets, get(), read_error", "src/read/pe/*, src/read/coff/*")], ["Result values", "absence of panics"])

prop("C08", "Malformed archives and XCOFF input yield errors, never a panic",
     "Every archive and XCOFF read operation, on any file bytes, either returns a value made only of bytes inside the file, or an error. "
     "It never panics, overflows an integer, over-shifts or divides by zero.",
     ["inputs"], "every byte string handed to the archive and XCOFF readers",
     "Tests read a few well-formed archives and XCOFF files; malformed decimal fields, member sizes and table offsets are unbounded.",
     ["src/read/archive.rs", "src/read/xcoff/file.rs", "src/read/xcoff/section.rs", "src/read/xcoff/symbol.rs", "src/read/xcoff/relocation.rs"],
     [("checked offsets, get(), read_error", "src/read/archive.rs, src/read/xcoff/*")], ["Result values", "absence of panics"])

prop("C09", "Section and segment contents and address lookups are exact",
     "The contents reported for a section or segment of any format are exactly the file bytes its header describes (empty where the header says it occupies no file space). "
     "Looking up an address range inside a section or segment returns exactly the bytes at that distance from its start, or nothing when any part of the range lies outside its contents.",
     ["inputs"], "every section and segment header, file, address and size, all five object formats, 32- and 64-bit",
     "Tests look up a few in-range addresses; the edges (zero size, wrap-around, last byte, no-file-space kinds) are not sampled.",
     ["src/read/util.rs", "src/read/elf/section.rs", "src/read/elf/segment.rs", "src/read/macho/section.rs", "src/read/macho/segment.rs",
      "src/read/pe/section.rs", "src/read/coff/section.rs", "src/read/xcoff/section.rs"],
     [("data_range", "src/read/util.rs"), ("file_range per format", "src/read/*/section.rs")], ["bytes returned"])

prop("C10", "ELF relocation entries decode to what was encoded",
     "Symbol index and type of an explicit relocation round-trip for 32-bit, 64-bit and little-endian 64-bit MIPS entries. "
     "A packed relative-relocation stream yields exactly the addresses its address words and bitmap words denote, in order. "
     "A compact (CREL) stream yields the offsets, symbols, types and addends given by accumulating its deltas, the number of entries its header declares.",
     ["inputs"], "every field value and every packed stream",
     "Tests use one RELR bitmap and one CREL stream; bit positions, word sizes and accumulated wrap-around are unbounded.",
     ["src/read/elf/relocation.rs", "src/elf.rs"],
     [("RelrIterator", "src/read/elf/relocation.rs"), ("CrelIterator", "src/read/elf/relocation.rs"), ("r_info packing", "src/elf.rs")],
     ["iterator items"])

prop("C11", "ELF symbol hash values and hash-table lookups follow the ABI",
     "The System V and GNU hash of any name equal the values defined by the ABI. "
     "A hash-table lookup returns a symbol only if that symbol's name (and version) match the request, and finds every symbol reachable from the name's bucket chain in a well-formed table; a malformed table yields no symbol or an error.",
     ["inputs"], "every name and every table contents",
     "The test checks four names and lookups in one file.",
     ["src/elf.rs", "src/read/elf/hash.rs"],
     [("hash/gnu_hash loops", "src/elf.rs"), ("bucket and chain walk, bloom filter", "src/read/elf/hash.rs")], ["hash value", "symbol found"])

prop("C12", "Address-to-symbol lookup returns the nearest preceding symbol",
     "For any collection of symbols, in any order and with any duplicate addresses, looking up an address returns an entry whose address is the greatest one not above it, and returns nothing exactly when every entry is above it. "
     "Lookup in a map of sized debug entries returns an entry only if the address falls within that entry's extent.",
     ["inputs"], "every list of entries, every queried address",
     "Tests use three hand-picked symbols.",
     ["src/read/symbol_map.rs"], [("sort, dedup and binary search", "src/read/symbol_map.rs")], ["entry returned"])

prop("C13", "Written string tables give every string back at its offset",
     "After writing a string table, the offset recorded for each added string points at that string followed by a terminator inside the written bytes, whatever strings were added, in whatever order, with any sharing of suffixes. "
     "The reported size is the number of bytes written plus the base, and adding the same string twice yields the same entry.",
     ["inputs", "histories"], "every sequence of added strings, including empty strings, suffixes of one another and duplicates, and every base offset",
     "The test adds four strings; suffix merging depends on the sorted order of the whole set.",
     ["src/write/string.rs"], [("reverse-suffix sort and merge", "src/write/string.rs")], ["offset of each string in the written bytes"])

prop("C14", "ELF writer places every structure where its headers say",
     "With the low-level ELF writer, every reserved block starts at the requested alignment, blocks do not overlap, and writing in the reserved order produces exactly the reserved length. "
     "Parsing the result gives back, for 32- and 64-bit and both byte orders, exactly the file header, program header, section header, symbol, relocation and dynamic field values that were written, including extended section counts and indices.",
     ["inputs", "programs"], "every field value, class, byte order and alignment; every sequence of reserve calls",
     "Round-trip tests write a few fixed small objects; extended numbering and alignment edges are not exercised.",
     ["src/write/elf/writer.rs", "src/write/elf/encoder.rs", "src/read/elf/file.rs"],
     [("reserve/align", "src/write/elf/writer.rs"), ("encoder", "src/write/elf/encoder.rs")], ["bytes written", "parsed headers"])

prop("C15", "COFF and PE writers produce headers the readers read back unchanged",
     "Every file header, section header, symbol, auxiliary record and relocation written by the COFF writer, and every header, data directory, section and base relocation written by the PE writer, is read back with exactly the written field values at the offsets the headers state. "
     "Section names of any length survive through inline, decimal-offset or base64-offset encodings, and base-relocation blocks decode to exactly the added addresses and types.",
     ["inputs", "programs"], "every field value, name and string-table offset",
     "Round-trip tests write one small COFF object; long names need string tables above 10^7 bytes to reach base64 encoding.",
     ["src/write/coff/writer.rs", "src/write/pe.rs", "src/read/coff/section.rs", "src/read/pe/section.rs", "src/read/pe/relocation.rs"],
     [("name encoding", "src/write/coff/writer.rs"), ("reserve/write", "src/write/pe.rs")], ["bytes written", "parsed values"])

prop("C16", "Mach-O encoder output is read back unchanged",
     "Every header, load command, segment, section, symbol and relocation encoded for Mach-O, 32- and 64-bit, both byte orders, has its declared size and is read back with exactly the encoded field values. "
     "Relocation bit-fields round-trip in both byte orders, plain and scattered.",
     ["inputs"], "every field value, word size and byte order",
     "Round-trip tests write one small object in little-endian order.",
     ["src/write/macho/encoder.rs", "src/macho.rs", "src/read/macho/load_command.rs", "src/read/macho/relocation.rs"],
     [("encoder", "src/write/macho/encoder.rs"), ("bit-field packing", "src/macho.rs")], ["bytes written", "parsed values"])

prop("C17", "Archive members are found with their exact name, size and bytes",
     "For every archive kind (GNU, BSD, COFF, AIX big, thin), iterating a well-formed archive yields each member once with exactly its header's decimal or octal fields, its name resolved through the kind's naming rule, and exactly its data bytes. "
     "The symbol table yields each recorded symbol name with the offset recorded for it.",
     ["inputs"], "every member header, field text, name form and archive kind",
     "Tests parse three tiny archives; field text and name forms are unbounded.",
     ["src/read/archive.rs"], [("member parsing", "src/read/archive.rs"), ("decimal/octal parsing", "src/read/archive.rs")], ["member names, sizes, data", "symbols"])

prop("C18", "PE address mapping and tables follow the format",
     "A relative address inside a PE image maps to exactly the file bytes its section places there, never beyond the section's mapped file data. "
     "Imports, exports, resources, base relocations and the rich header decode to exactly the values stored.",
     ["inputs"], "every section table, address and directory contents",
     "Tests read two PE files; address edges, forwarders, ordinals and padded relocation blocks are not sampled.",
     ["src/read/pe/section.rs", "src/read/pe/data_directory.rs", "src/read/pe/relocation.rs", "src/read/pe/rich.rs", "src/read/pe/export.rs", "src/read/pe/import.rs", "src/read/pe/resource.rs"],
     [("section range and min(size)", "src/read/pe/section.rs"), ("block iterator", "src/read/pe/relocation.rs"), ("header search", "src/read/pe/rich.rs")], ["bytes and values returned"])

prop("C19", "Mach-O fixups, bindings, exports and function starts decode exactly",
     "Chained fixup pointers of every pointer format decode to exactly the target, addend, bind/rebase kind, authentication data and next distance in their bits, and chains visit exactly the linked locations. "
     "Rebase and bind opcodes, the exports trie, the function-starts list and export flags decode to exactly the entries the opcodes and nodes denote, and a shared cache's slide information to exactly the pointers of its chains.",
     ["inputs"], "every pointer value, chain, opcode stream, trie and slide table",
     "Unit tests cover a few opcode streams and pointers.",
     ["src/read/macho/fixup.rs", "src/read/macho/dyld_info.rs", "src/read/macho/exports_trie.rs", "src/read/macho/function_starts.rs", "src/read/macho/dyld_cache.rs", "src/macho.rs"],
     [("pointer bit-fields", "src/macho.rs"), ("opcode interpreter", "src/read/macho/dyld_info.rs"), ("trie walk", "src/read/macho/exports_trie.rs")], ["iterator items"])

prop("C20", "COFF and XCOFF symbol, section and name records are read exactly",
     "COFF and XCOFF symbol and section names resolve to the inline name up to its first zero byte or to the string-table entry whose offset the record holds, symbol iteration steps over exactly the declared auxiliary records, and regular and big-object layouts of the same record read the same. "
     "Auxiliary records are interpreted only for the storage classes that define them. A section has exactly the relocations its header declares, a COFF overflow count included; an XCOFF32 overflow count is an error, never a shortened table.",
     ["inputs"], "every symbol and section record, string table and auxiliary count",
     "Tests read a few fixed objects; name encodings and auxiliary layouts are unbounded.",
     ["src/read/coff/symbol.rs", "src/read/coff/section.rs", "src/read/coff/relocation.rs", "src/read/xcoff/symbol.rs", "src/read/xcoff/section.rs"],
     [("symbol table iteration", "src/read/coff/symbol.rs"), ("name decoding", "src/read/coff/section.rs")], ["names, indices, aux records"])

prop("C21", "Objects written by the unified writer are read back with the same content",
     "For every supported architecture and object format, the sections, data, alignment, symbols (name, value, size, kind, scope, binding) and relocations given to the unified writer are what the unified reader reports for the written file. "
     "Data appended to a section starts at the requested alignment and stays at the returned offset.",
     ["inputs", "programs", "configurations"], "every sequence of builder calls, format, architecture and byte order",
     "Round-trip tests build one object per format.",
     ["src/write/mod.rs", "src/write/elf/object.rs", "src/write/coff/object.rs", "src/write/macho/object.rs", "src/write/xcoff.rs"],
     [("section/symbol/relocation translation", "src/write/*/object.rs")], ["reader's view of the written file"])

prop("C22", "Packed bit-fields of raw structures set and get independently",
     "Setting a packed field (symbol binding, type and visibility, version flags, relocation info, segment and section flags and types, compact-pointer fields) and reading it back gives the value set, and leaves every other field of the same word unchanged. "
     "Constructing a packed word from its parts and splitting it are inverse.",
     ["inputs"], "every word and every field value in range",
     "Tests read packed words only through whole files.",
     ["src/elf.rs", "src/macho.rs", "src/pe.rs", "src/xcoff.rs"], [("shift and mask accessors", "src/elf.rs, src/macho.rs, src/pe.rs, src/xcoff.rs")], ["field values"])

prop("C23", "Relocation application adds exactly the symbol address and addend",
     "Applying a relocation map to a value yields, for supported relocations, the value implied by symbol address, addend, section address with 64-bit wrap-around, and leaves values at other offsets unchanged; unsupported relocations are rejected when the map is built.",
     ["inputs"], "every relocation kind, width, addend, offset and value",
     "No test covers wrap-around or 32-bit truncation.",
     ["src/read/mod.rs"], [("RelocationMap", "src/read/mod.rs")], ["relocated value"])

prop("C24", "Compressed sections are recognised with their declared format and sizes",
     "A section is reported compressed exactly when its flags or name and header say so, with the declared algorithm, the declared uncompressed size, and exactly the payload bytes after the header; otherwise its contents are the plain bytes. "
     "Truncated or unknown headers yield an error or the unknown format, and contents reported as uncompressed are returned unchanged.",
     ["inputs"], "every section header, name and contents, 32- and 64-bit, both byte orders",
     "Tests decompress two well-formed sections.",
     ["src/read/elf/section.rs", "src/read/elf/compression.rs", "src/read/gnu_compression.rs", "src/read/mod.rs"],
     [("compressed_file_range", "src/read/elf/section.rs"), ("gnu_compression", "src/read/gnu_compression.rs")], ["format, sizes, payload range"])

prop("C25", "File kind detection follows the magic and class fields",
     "The detected kind of a file is the one its leading magic, class and machine bytes denote, for every file, and parsing under that kind agrees with the detection on class and byte order. "
     "Files too short for their kind's identification, or with no known magic, are rejected.",
     ["inputs"], "every file",
     "Tests detect a handful of files.",
     ["src/read/mod.rs", "src/read/macho/fat.rs"], [("FileKind::parse_at", "src/read/mod.rs")], ["detected kind"])

prop("C26", "Every output buffer kind receives the same bytes",
     "Growing in-memory buffers and streaming buffers given the same sequence of reserve, resize and write operations end with the same length and the same bytes, aligned padding is zero, and a resize never loses bytes already written.",
     ["programs", "histories"], "every sequence of buffer operations",
     "Tests only use the vector buffer.",
     ["src/write/util.rs"], [("WritableBuffer implementations", "src/write/util.rs")], ["bytes written"])

prop("C27", "Rebuilding an ELF file preserves everything not edited",
     "Reading an ELF file into the editable builder and writing it without edits yields a file whose sections, segments, symbols, relocations, dynamic entries and versions read back the same; edits change only what they name.",
     ["inputs", "programs"], "every well-formed ELF file and edit sequence",
     "Rewrite tests cover a few fixed files.",
     ["src/build/elf.rs", "src/build/table.rs"], [("Builder::read / write", "src/build/elf.rs")], ["reader's view before and after"])

with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
