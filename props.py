"""The property table: statement, anchors, harness bounds (see gen.py)."""
HOOK_COMMITS = ["bceef37", "809dd08", "5315d63", "abbcb1f"]
UTF8 = "core::str::from_utf8 replaced by its contract restricted to 1- and 2-byte sequences (longer ones treated as invalid)"
DROP = "destructors of decoded values are not executed (leaked): their drop glue is outside the encoding"
ERRCTX = "the diagnostic context attached to errors (origin, message) is stubbed out"
P = []
def prop(id, title, statement, over, quant, why, files, mech, harnesses, outside, assume=(), **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  harnesses=harnesses, outside=outside, assume=list(assume) + [ERRCTX], **kw))
NA = []
def na(id, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason))

prop("C01", "Client handshake parsing is total, exact and independent of packet splits",
     "For every byte sequence a client may send as its handshake and every way the network splits it into reads, the server never crashes or reads out of bounds: it accepts exactly the well-formed handshakes (every field at a known value, decimal lengths, username and password of exactly the announced sizes, no byte more consumed), reports the right error for each unknown field, and otherwise waits for more. The outcome does not depend on how the bytes were split.",
     ["inputs", "histories"], "all handshake byte strings up to 12 bytes (14 whole), every split in up to two deliveries; every pair of announced 64-bit lengths",
     "Tests send a few well-formed handshakes and one split pattern; nothing reaches malformed fields, huge lengths or arbitrary split points.",
     ["net/protocol/handshake.rs", "mem/scanner.rs"],
     [("CHandshake::resume_with state machine", "net/protocol/handshake.rs"), ("BufferedScanner integer scan", "mem/scanner.rs")],
     {"c01_hs_whole": "any 6..=14 bytes in one read, compared with an independent grammar",
      "c01_hs_split": "any 6..=12 bytes starting with 'H', any split into two reads",
      "c01_hs_resume_sizes": "any announced 64-bit username/password length, any 8 following bytes"},
     "longer handshakes; the socket loop that feeds the parser")

prop("C02", "Simple-query framing is total, exact and independent of packet splits",
     "For every byte sequence following a handshake and every split into reads, the query-exchange parser never crashes, loops or reads out of bounds; it yields a query exactly when the packet size, query length and body are well-formed, with query and parameter regions exactly as announced, rejects malformed packets, and otherwise waits. The result does not depend on where the bytes were split.",
     ["inputs", "histories"], "all packets up to 11 bytes whole, 9 bytes in two deliveries, 7 bytes in three; any 64-bit partial length",
     "Tests feed a handful of well-formed packets; malformed sizes, overflowing lengths and splits inside a number are not sampled.",
     ["net/protocol/exchange.rs", "mem/scanner.rs"],
     [("QExchangeState resumable parser", "net/protocol/exchange.rs"), ("scan_usize / LFTIntParseResult", "net/protocol/exchange.rs")],
     {"c02_sq_whole": "any 5..=11 bytes", "c02_sq_split2": "any 5..=9 bytes, any two-way split",
      "c02_sq_split3": "any 5..=7 bytes, any three-way split", "c02_scan_int": "any 64-bit accumulator, any 5 bytes, any cursor"},
     "longer packets; pipelined input (only required not to be accepted as one query); the socket loop")

prop("C03", "Lexing: every symbol, keyword and identifier gets exactly its own token",
     "Every operator symbol lexes to its own token, every keyword is recognised in any letter case and nothing else is taken for a keyword, identifiers and true/false are told apart exactly, blanks only separate, and any other byte is rejected: for every input text, with no crash and no out-of-bounds read.",
     ["inputs"], "all single symbols, all keywords in every case mix, all words up to the bound, all other bytes",
     "Tests lex a few sample queries; the perfect-hash keyword tables can silently mis-map any of the untested words.",
     ["ql/lex/mod.rs", "ql/lex/raw.rs"],
     [("keyword lookup (perfect hash)", "ql/lex/raw.rs"), ("SecureLexer / RawLexer", "ql/lex/mod.rs")],
     {"c03_symbols": "every byte", "c03_keywords_recognized": "every keyword, every mix of upper/lower case",
      "c03_keywords_only": "any word up to the bound is a keyword only if it spells one", "c03_ident": "any identifier up to the bound",
      "c03_ident_false": "identifiers vs. booleans", "c03_other_byte": "any non-token byte is rejected", "c03_blank": "any leading blanks"},
     "queries of more than two tokens at once; words longer than the bound; the insecure (literal) lexer's string escapes")

prop("C04", "Query parameters decode to exactly the client's value or are rejected",
     "For every parameter byte string a client can send, the parameter decoder yields exactly the value encoded (null, booleans, unsigned and signed integers with full range and no wrap-around, floats, binary and string blocks of exactly the announced length, strings only if valid UTF-8), or rejects the query; it never crashes or reads out of bounds, and parameters are used in order.",
     ["inputs"], "all parameter payloads up to the bounds, all type codes",
     "Tests send a few valid parameters; overflow at 2^64 and -2^63, truncated blocks and unknown codes need all values.",
     ["ql/lex/mod.rs", "mem/scanner.rs"],
     [("SecureLexer parameter decoding table", "ql/lex/mod.rs")],
     {"c04_param_null": "any tail", "c04_param_bool": "any tail", "c04_param_uint": "any payload up to 5 bytes",
      "c04_param_sint": "likewise, signed", "c04_edge_uint": "19-21 digit numbers around 2^64 and 2^32, last two digits symbolic", "c04_edge_sint": "around -2^63 and 2^63",
      "c04_edge_bin": "announced lengths around 0, 2^32, 2^64", "c04_edge_str": "likewise", "c04_param_float": "any 4-byte float text region", "c04_param_bin": "any short block with any announced length",
      "c04_param_str": "any short string", "c04_param_unknown": "any unknown code", "c04_params_in_order": "two parameters"},
     "longer payloads; the numeric value of float parsing",
     ["f64::from_str is stubbed (its value is not checked, only which text region is parsed)", UTF8])

prop("C20", "Stored cell values survive encode/decode; corrupt cells never crash",
     "Every scalar, string, binary and list value written to storage decodes to the same value, type and nullness. For every corrupted or truncated cell the decoder returns an error or a well-formed value and never reads past its input, panics or allocates by an unchecked length.",
     ["inputs", "fault_sequences"], "every value of every scalar type; short strings and binaries; every byte string up to the bound as a cell",
     "Tests roundtrip a few values; corrupt lengths and boundary values need all byte strings.",
     ["storage/common_encoding/r1/obj.rs", "storage/common_encoding/r1/mod.rs"],
     [("cell::encode / cell::decode_element", "storage/common_encoding/r1/obj.rs"), ("DataSource for BufferedScanner", "storage/common_encoding/r1/mod.rs")],
     {"c20_roundtrip_null_bool": "all", "c20_roundtrip_uint": "all u64, 4 widths", "c20_roundtrip_sint": "all i64, 4 widths",
      "c20_roundtrip_float": "all bit patterns", "c20_roundtrip_bin_str": "any content up to 3 bytes", "c20_decode_list": "2-element list images",
      "c20_corrupt_scalar": "any bytes, any truncation", "c20_corrupt_bin": "any 64-bit length, any content", "c20_corrupt_str": "likewise", "c20_corrupt_list": "any count"},
     "long blocks; encoding of lists (recursion beyond the encoder's reach); deep nesting", [UTF8, DROP])

prop("C21", "Catalog objects and events survive encode/decode; corrupt ones never crash",
     "Field definitions, dictionaries, user accounts, space and model identities and removed-field lists written to the catalog decode to exactly what was written. For every corrupted or truncated image the decoder returns an error or an object consistent with the bytes, and never reads past its input, overflows a length or trusts a count for an allocation.",
     ["inputs", "fault_sequences"], "all field types and nullability, all short names and contents, all byte strings up to the bound as stored image",
     "Tests roundtrip one instance of each object; corrupt lengths and counts are not sampled.",
     ["storage/common_encoding/r1/obj.rs", "storage/common_encoding/r1/map.rs", "storage/common_encoding/r1/impls/gns/model.rs", "storage/common_encoding/r1/impls/gns/space.rs", "storage/common_encoding/r2.rs"],
     [("FieldRef / LayerRef", "storage/common_encoding/r1/obj.rs"), ("PersistMapImpl::obj_dec", "storage/common_encoding/r1/map.rs"), ("user events", "storage/common_encoding/r2.rs")],
     {"c21_field_flat": "13 scalar types x nullable", "c21_field_list": "list of 13 scalar types x nullable", "c21_field_corrupt": "any 50 bytes, any truncation",
      "c21_dict_roundtrip": "one uint entry, any value, any 1-byte key", "c21_dict_corrupt": "one entry, any key length", "c21_dict_corrupt2": "count of two with one entry present",
      "c21_user_events": "create user: any 2-byte name, 3-byte hash", "c21_user_events2": "alter, drop user", "c21_user_corrupt": "any 27 bytes, any truncation",
      "c21_ids_roundtrip": "drop space: any uuid, 2-byte name", "c21_removed_roundtrip": "remove fields: any uuids and version", "c21_ids_corrupt": "drop model: any 59 bytes, any truncation"},
     "longer names; dictionaries are decoded into an array map instead of std's HashMap; model layout and alter add/update events", [UTF8, DROP],
     cbmc_args=["--max-field-sensitivity-array-size", "128"])

prop("C07", "Only values that fit the declared field type are accepted for storage",
     "A value offered for a field is accepted exactly when it belongs to the declared type: same kind, integers and floats inside the declared width, null only where allowed, lists element by element at exactly the declared nesting depth. An accepted value is stored unchanged, labelled with the declared type.",
     ["inputs"], "every value of every kind against each of the 13 scalar types, nullable or not, and lists of up to two elements and two levels",
     "Tests insert a few values; the accept/reject boundary of each width and each type pair needs all values.",
     ["core/model/mod.rs", "data/cell.rs"],
     [("Field::vt_data_fpath / rvt_data", "core/model/mod.rs"), ("VTFN verification table", "core/model/mod.rs")],
     {"c07_uint_value": "any u64 x 13 types x nullable", "c07_sint_value": "any i64 x 13 types x nullable", "c07_float_value": "any bit pattern x 13 types x nullable",
      "c07_other_value": "bool, binary, string, null x 13 types x nullable", "c07_list": "lists of one or two integers, all widths",
      "c07_list_shape": "empty, nested, too deep and too shallow lists, null"},
     "lists longer than two elements", [DROP])

FSMODEL = "the operating system file is a 352-byte array holding a single file; writes may be short or fail at a chosen point, reads return what was written"
CRC = "crc::Crc is replaced by a simpler checksum (byte count, or rotate-xor where corruption is checked); the strength of CRC-64 is not in scope"
BUF = "the writer's buffer is 64 bytes instead of 8 KiB; the file header is one byte"
FSENS = ["--max-field-sensitivity-array-size", "384"]
prop("C24", "The event journal restores exactly what was committed, or refuses",
     "Reopening an event journal replays exactly the committed events, in order, with their kinds and payloads, over any number of sessions. A journal truncated anywhere, or with any field of any event corrupted, is refused and applies nothing that was not committed. If a write fails the commit is reported failed; a heartbeat that reports recovery leaves a journal in which every acknowledged event, before and after the fault, is restored.",
     ["inputs", "crash_points", "fault_sequences", "histories"], "any event contents; sessions of up to four events and three openings; every truncation point; every value of every field of an event and of the closing record; a failing write at its start, inside, at its end and at sync",
     "Tests reopen a few journals and corrupt a few chosen bytes; they cannot cover every cut, every corrupt value, or a write failure followed by recovery and further commits.",
     ["storage/v2/raw/journal/raw/mod.rs", "storage/v2/raw/journal/mod.rs", "storage/common/sdss/impls/sdss_r1/rw.rs"],
     [("RawJournalWriter::commit_event, lw_heartbeat, close_driver", "storage/v2/raw/journal/raw/mod.rs"), ("RawJournalReader::scroll", "storage/v2/raw/journal/raw/mod.rs"), ("EventLogAdapter", "storage/v2/raw/journal/mod.rs")],
     {"c24_reopen": "two sessions, any payloads", "c24_many": "four events in one session", "c24_truncated": "every truncation point of a two-event journal",
      **{f"c24_corrupt_{x}": f"any other value of: {y}" for x, y in [("txn", "event id"), ("meta", "event kind"), ("ck", "event checksum"), ("data", "payload"), ("close_txn", "id of the closing record"), ("close_kind", "kind of the closing record"), ("close_ck", "checksum of the closing record"), ("close_len", "length of the closing record"), ("close_prev", "previous checksum"), ("close_off", "previous offset"), ("close_id", "previous id"), ("magic", "file header")]},
      **{f"c24_len_{x}": f"payload length {y}" for x, y in [("short", "0 instead of 1"), ("long", "2"), ("past", "one past the end of file"), ("huge", "2^63")]},
      "c24_fault_none": "write fails with nothing written, then recovery and another commit", "c24_fault_torn1": "write fails after one byte", "c24_fault_torn40": "write fails one byte before its end", "c24_fault_sync": "sync fails"},
     "payloads over two bytes; journals over four events; the repair tool; two faults in a row", [FSMODEL, CRC, BUF], cbmc_args=FSENS)

prop("C25", "Writes reach the storage file once, in order, with matching offset and checksum",
     "Whatever sizes are written and however the operating system splits the writes, the bytes reach the file exactly once and in order, and the tracked offset and checksum are those of the bytes on disk. After a failed write the offset and checksum still agree with the disk and the unwritten rest can be flushed later. The reader returns exactly the file's bytes, counts them exactly, and refuses to read past the end.",
     ["inputs", "fault_sequences"], "any contents; writes smaller than, equal to and larger than the buffer; short writes at every of the first three calls; failures after 0, 1 and 5 bytes",
     "Real disks almost never return short or failing writes in tests, so the retry and accounting paths are never executed there.",
     ["storage/common/sdss/impls/sdss_r1/rw.rs", "storage/common/interface/fs.rs"],
     [("TrackedWriter", "storage/common/sdss/impls/sdss_r1/rw.rs"), ("TrackedReader", "storage/common/sdss/impls/sdss_r1/rw.rs"), ("fwrite_all_count", "storage/common/interface/fs.rs")],
     {"c25_short_buffered": "writes that fit the buffer, short writes", "c25_short_large": "write larger than the buffer", "c25_short_through": "write-through", "c25_exact": "writes at exact buffer boundaries",
      "c25_fail0": "failure with nothing written", "c25_fail1": "after one byte", "c25_fail5": "after five", "c25_reader": "any 12 bytes read in every way"},
     "buffer of 8 bytes instead of 8 KiB; more than five writes", [FSMODEL, CRC], cbmc_args=FSENS)

STATICROW = "row maps hold at most four fields; the row's shared cell lives in static memory instead of the heap (one live row)"
prop("C16", "Rows follow every schema change, in order, whenever they are next read",
     "A row written under one schema version and read under a later one shows exactly the fields of the later schema: fields added since then are null, fields removed since then are gone, a field removed and added again is null, and every field untouched by the changes keeps its value. It does not matter how many changes came in between or whether the row was read between them.",
     ["inputs", "histories"], "every sequence of up to three additions/removals over three field names, any cell values, with and without a read in between",
     "Tests alter a model once and read a row once; which of several pending changes is applied first, skipped or applied twice depends on the history of versions and reads.",
     ["core/index/row.rs", "core/model/delta.rs"],
     [("Row::resolve_schema_deltas_and_freeze", "core/index/row.rs"), ("DeltaState schema deltas", "core/model/delta.rs")],
     {"c16_sym1": "any one change", "c16_sym2_mid": "any two changes, the row read in between and after", "c16_sym3": "any three changes, the row read once after"},
     "more than three pending changes or four fields; the locks and the index around the row; ALTER statements themselves", [STATICROW, DROP], cbmc_args=FSENS)

prop("C09", "Primary keys with equal values are one key; different values are different keys",
     "A primary key built from a stored value reports exactly that value. Two keys are equal exactly when they have the same type and the same value, and a key equals a query literal exactly when the literal has that type and value; whatever is equal hashes alike, so that a lookup by literal finds the row stored under that key. A copy of a key is an independent key of the same value, and dropping either leaves the other intact.",
     ["inputs"], "every pair of 64-bit unsigned and signed keys; every pair of binary and string keys and literals up to three bytes, every combination of types",
     "Tests look up a few keys; that equality and hash agree for every pair, and that copies own their memory, is not something a sample shows.",
     ["core/index/key.rs", "data/lit.rs"],
     [("PrimaryIndexKey equality, hash, clone, drop", "core/index/key.rs"), ("Lit hash", "data/lit.rs")],
     {"c09_ints": "all pairs of integers", "c09_blocks2": "all pairs of 2-byte binaries, strings", "c09_blocks_len": "blocks of different lengths",
      "c09_mixed": "keys of different types", "c09_clone_uint": "copy of any unsigned key", "c09_clone_sint": "any signed key", "c09_clone_bin": "any binary key, empty included", "c09_clone_str": "any string key"},
     "blocks over three bytes; the hash function itself (a simple mixing hasher is used)", ["the std hasher is replaced by a deterministic mixing hasher"])

prop("C10", "Query results are encoded exactly and can be read back unambiguously",
     "Every cell returned to a client is encoded as its type code followed by exactly its value in the documented format: integers in canonical decimal with no leading zero for every value of every width, blocks with their exact length and bytes, lists with their exact element count and elements, null and booleans as single markers. Nothing is missing and nothing trails, so a client that follows the protocol reads back the stored value.",
     ["inputs"], "all 8 and 16 bit integers, wider ones at every edge with the last four digits symbolic; all booleans; all block contents of 0, 1 and 11 bytes; lists of none and two elements",
     "Tests print a few integers; a digit-table or length slip shows only for particular values and lengths.",
     ["core/dml/sel.rs", "mem/numbuf.rs"],
     [("encode_cell", "core/dml/sel.rs"), ("IntegerRepr", "mem/numbuf.rs")],
     {"c10_int8": "all 8-bit integers", "c10_uint16": "all", "c10_sint16": "all",
      "c10_uint32": "five leading parts x last four digits", "c10_uint64_a": "four leading parts x last four digits", "c10_uint64_b": "three larger ones, up to the maximum", "c10_sint64_a": "around zero and five to eight digits", "c10_sint64_b": "up to the minimum",
      "c10_cell_uint8": "extremes", "c10_cell_sint8": "extremes", "c10_cell_uint": "extremes", "c10_cell_sint": "extremes", "c10_cell_simple": "null, any boolean", "c10_cell_block": "any bytes", "c10_cell_list": "two elements", "c10_cell_list0": "empty", "c10_cell_float": "any bit pattern, both widths"},
     "the digits of floats (formatted by std); longer blocks and lists; the row and response headers", ["f64 formatting is stubbed: that the stored value is what is formatted is checked, not its digits", DROP],
     cbmc_args=FSENS)

prop("C12", "The engine's own containers behave as sequences and own their elements",
     "The engine's hand-written containers (inline vector, fixed array, fixed vector, small string) behave like plain sequences under every history of operations: contents and order match, indexes and capacity limits are honoured, iteration from either end yields every element once, copies are independent. Every element is dropped exactly once, every heap block is freed, and no uninitialised or foreign memory is touched.",
     ["histories", "inputs"], "every history of one or two operations from every length 0 to 4 of the inline vector, four operations on the fixed array and fixed vector; every iteration from both ends; any contents",
     "Tests push and pop in one order; leaks, double drops and moves between stack and heap depend on the operation sequence and element type.",
     ["mem/vinline.rs", "mem/uarray.rs", "mem/fixed_vec.rs", "mem/astr.rs"],
     [("VInline", "mem/vinline.rs"), ("UArray", "mem/uarray.rs"), ("FixedVec", "mem/fixed_vec.rs"), ("AStr", "mem/astr.rs")],
     {**{f"c12_vinline_ops{n}": f"any operations from length {n}" for n in range(5)}, "c12_vinline_iter": "any interleaving of both ends, stopped anywhere", "c12_vinline_plain": "integers: copy, iterate",
      "c12_uarray_ops": "any four operations, then iteration or drop", "c12_uarray_clone": "any length", "c12_fixedvec_ops": "any four operations", "c12_fixedvec_bytes": "append and consume bytes", "c12_astr": "any two strings up to five bytes"},
     "longer histories; capacities other than 2 to 5; panicking element destructors", ["the engine's allocation functions count live blocks"])
