NA = []
P = []


def prop(**k):
    P.append(k)


prop(
    id="C01", title="Adler-32 equals RFC 1950 for every input and every chunking",
    statement="For every initial value and every sequence of updates, the Adler-32 checksum equals the RFC 1950 definition (two sums modulo 65521 over the bytes in order). How the data is cut into updates does not matter, and finalizing returns the context to its initial value.",
    quant="all initial values, all byte sequences of any length, all ways to cut them into updates",
    tests="The tests compute one checksum of one short string; the deferred modulo reduction only matters for blocks of thousands of large bytes.",
    files=["keramics-checksums/src/adler32.rs"],
    mech=[("deferred modulo in blocks of 5552 bytes", "keramics-checksums/src/adler32.rs Adler32Context::update"), ("reset", "Adler32Context::finalize")],
    units=["c01_adler32"],
    note="Proved for all inputs: update equals the byte-wise definition with no overflow in the deferred sums. Trusted: Verus/Z3, kx extraction.",
    theorems=["Adler32Context::update", "Adler32Context::finalize"],
)
prop(
    id="C02", title="CRC-32 equals polynomial division, any polynomial, chunking and direction",
    statement="For every polynomial, initial value and data, the CRC-32 and the reversed (reflected) CRC-32 equal bit-by-bit polynomial division with the complemented initial value and complemented result. Cutting the data into several updates, or reusing a context after finalizing, gives the same checksums.",
    quant="all polynomials, initial values, byte sequences and ways to cut them into updates",
    tests="The tests use one polynomial and one short string per direction; lookup-table entries that the string does not touch are never read.",
    files=["keramics-checksums/src/crc32.rs"],
    mech=[("256-entry lookup table, built on first use", "keramics-checksums/src/crc32.rs initialize_table"), ("table-driven update", "Crc32Context::update, ReversedCrc32Context::update")],
    units=["c02_crc32"],
    note="Proved for all inputs: every table entry is eight division steps, and the table-driven step equals eight bit steps (linearity lemma). Trusted: Verus/Z3, kx extraction.",
    theorems=["Crc32Context::update", "ReversedCrc32Context::update", "theorem_split", "lemma_table"],
)
HASHF = ["keramics-hashes/src/md5.rs", "keramics-hashes/src/sha1.rs", "keramics-hashes/src/sha224.rs", "keramics-hashes/src/sha256.rs", "keramics-hashes/src/sha512.rs"]
HASHU = ["c03_md5", "c03_sha1", "c03_sha224", "c03_sha256", "c03_sha512"]
prop(
    id="C03", title="MD5 and SHA-1/224/256/512 digests equal RFC 1321 and FIPS 180-4",
    statement="For every message, the MD5, SHA-1, SHA-224, SHA-256 and SHA-512 digest equals the one the published standard defines, including padding and the message length field for every length. The digest has exactly the standard's number of bytes.",
    quant="all messages of any length",
    tests="The tests hash a handful of messages; padding has a boundary at every block size, and a constant or rotation used on few bits can be wrong unnoticed only for other data.",
    files=HASHF,
    mech=[("compression function", "transform_block of each context"), ("padding and length", "finalize of each context"), ("buffering", "update of each context")],
    units=HASHU,
    note="Proved for all inputs against a transcription of the standards (round functions, constants, schedule, padding). Assumed: messages are shorter than 2^61 bytes (the length counter is machine arithmetic). Trusted: Verus/Z3, kx extraction, rotate/to_bytes specifications.",
    theorems=["transform_block", "finalize", "update"],
    assumptions=["total message length in bytes fits the length counter"],
)
prop(
    id="C04", title="Digests do not depend on chunking, and finalize starts a new message",
    statement="For every digest kind and every way to cut a message into updates (empty pieces included), the digest is that of the whole message. After finalizing, the same context computes the digest of the next message as a fresh context would.",
    over=["inputs", "histories"],
    quant="all histories of updates and finalizations on one context, all data",
    tests="The tests call update once and finalize once; buffer-boundary handling depends on the sum of the piece lengths so far.",
    files=HASHF,
    mech=[("partial block buffer", "update of each context"), ("reset", "finalize of each context")],
    units=HASHU,
    note="Proved: update appends to the abstract message, finalize returns the digest of the abstract message and empties it (theorem_pieces_and_reuse). Same assumptions as C03.",
    theorems=["theorem_pieces_and_reuse"],
    assumptions=["total message length in bytes fits the length counter"],
)
prop(
    id="C05", title="FILETIME and POSIX timestamps convert to the right calendar date and time",
    statement="For every FILETIME, 32-bit POSIX and 64-bit POSIX (with nanoseconds) timestamp, negative ones included, the ISO 8601 text is the proleptic Gregorian date and time of day that many units after the epoch, with the fraction printed in full. Timestamps read from bytes honour the byte order, and the display text is the ISO 8601 text followed by the raw value.",
    quant="all timestamp values of each type",
    tests="The tests convert a few dates; leap years, century ends, dates before the epoch and the far future each take another path.",
    files=["keramics-datetime/src/util.rs", "keramics-datetime/src/filetime.rs", "keramics-datetime/src/posix.rs"],
    mech=[("day count to date", "keramics-datetime/src/util.rs get_date_values"), ("seconds to time of day", "get_time_values"), ("text", "to_iso8601_string of Filetime, PosixTime32, PosixTime64Ns")],
    units=["c05_dates"],
    note="Proved for all timestamps: the printed date is the valid date with that day number (unique, theorem_date_unique; successor, theorem_next_day). Trusted: Verus/Z3, kx extraction, the specification of integer formatting.",
    theorems=["get_date_values", "get_time_values", "theorem_date_unique", "theorem_next_day"],
)
prop(
    id="C06", title="FAT dates and times decode by bit field, to the 10 ms",
    statement="For every 16-bit FAT date, 16-bit FAT time and 10 ms fraction, the ISO 8601 text shows the bit fields of the format: years since 1980, month, day, hours, minutes and twice the two-second count, with the fraction carrying whole seconds into the seconds field. Reading from bytes takes the little-endian fields in their on-disk order, and the display text adds the raw values.",
    quant="all 2^16 dates, 2^16 times and 2^8 fractions",
    tests="The tests decode a few values; each bit field has to be isolated for all neighbours.",
    files=["keramics-datetime/src/fat.rs"],
    mech=[("bit fields", "to_iso8601_string of FatDate, FatTimeDate, FatTimeDate10Ms"), ("byte layout", "from_bytes of each")],
    units=["c06_fat"],
    note="Proved for all values. Trusted: Verus/Z3, kx extraction, the specification of integer formatting.",
    theorems=["FatTimeDate10Ms::to_iso8601_string"],
)
import glob, os
_U = os.path.join(os.path.dirname(os.path.abspath(__file__)), "units")
CODECS = sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(_U, "c07_*.vx")))
prop(
    id="C07", title="Single-byte code pages decode and encode by their published tables",
    statement="For ASCII, ISO 8859, Windows, KOI8 and Macintosh single-byte encodings, decoding yields one item per byte in order: the code point the published table assigns, or an error where it assigns none. Encoding yields one item per code point in order: one byte that decodes back to it, or an error exactly when no byte does. An error never stops or repeats the rest.",
    quant="all 36 single-byte encodings, all byte sequences and all sequences of 32-bit code points of any length",
    tests="The tests decode and encode one short string per encoding; most of the 256 table entries and nearly all unmapped code points are never used.",
    files=["keramics-encodings/src/" + c[4:] + ".rs" for c in CODECS] + ["keramics-encodings/src/lib.rs"],
    mech=[("decoder tables", "DecoderX::next"), ("encoder tables and ranges", "EncoderX::next"), ("choice of codec", "keramics-encodings/src/lib.rs new_character_decoder, new_character_encoder")],
    units=CODECS,
    note="Proved for each codec's decoder and encoder. Bytes 0x80-0xff of ASCII are left unspecified. The dispatch through Box<dyn Iterator> in new_character_decoder/encoder is exercised by the exhaustive search only. Trusted: Verus/Z3, kx extraction, the reference tables.",
    theorems=["DecoderX::next", "EncoderX::next", "theorem_inverse"],
    bounded=["new_character_decoder and new_character_encoder (dyn dispatch): every byte and every code point below 0x11000 of every codec on every run, and random strings"],
    design="Reference tables: the codecs of the Python standard library, written once by gen_codecs.py into the units (each unit carries its table). Python has no MacCeltic, MacGaelic or MacDingbats, and for these three the table was taken from the code itself after a reading against Apple's published files from memory: for them the check pins today's mapping rather than an independent one. Where two bytes share a code point (MacArabic, MacFarsi) the encoder may choose either.",
)
prop(
    id="C08", title="UTF-8 decodes and encodes exactly the well-formed sequences of RFC 3629",
    statement="A well-formed UTF-8 sequence at the decoder's position yields its scalar value and is consumed whole; anything else (overlong, surrogate, above U+10FFFF, stray or missing continuation) yields an error. Every error consumes at least one byte and never passes the end, so decoding any bytes ends. Encoding yields one item per code point in order: its UTF-8 bytes, or an error exactly when it is no scalar value.",
    quant="all byte sequences of any length, from every position; all sequences of 32-bit code points",
    tests="The tests decode one valid string and one or two invalid ones; the boundaries between sequence lengths, the overlong and surrogate ranges are not sampled.",
    files=["keramics-encodings/src/utf8.rs", "keramics-encodings/src/lib.rs"],
    mech=[("sequence decoding", "DecoderUtf8::next"), ("encoding", "EncoderUtf8::next")],
    units=["c08_utf8"],
    note="Proved for all inputs: DecoderUtf8::next against the syntax of RFC 3629, and that this syntax accepts exactly the encodings of scalar values (theorem_syntax). Trusted: Verus/Z3, kx extraction.",
    theorems=["DecoderUtf8::next", "EncoderUtf8::next", "theorem_syntax"],
)
prop(
    id="C10", title="Base64 decodes RFC 4648 text exactly, inside the given buffer",
    statement="For every text, buffer and skip setting, base64 decoding gives the bytes whose sextets are the alphabet characters up to the first other one, most significant bit first. It succeeds only if the text ends there or properly padded and the bytes fit the buffer, whose remainder stays untouched; otherwise it returns an error. Decoding an RFC 4648 encoding gives the data back.",
    quant="all texts and all buffers of any length; all byte strings for the round trip",
    tests="The tests decode a few strings into large enough buffers; buffer sizes, misplaced padding and bad characters at every position are not sampled.",
    files=["keramics-encodings/src/base64.rs"],
    mech=[("bit stream", "Base64Stream::get_value"), ("decoding and padding", "Base64Context::decode")],
    units=["c10_base64"],
    note="Proved for all inputs, theorem_roundtrip included. Trailing characters after complete padding, and non-zero leftover bits, are accepted as the code does. Trusted: Verus/Z3, kx extraction.",
    theorems=["Base64Stream::get_value", "Base64Context::decode", "theorem_roundtrip"],
)
prop(
    id="C11", title="Integers are read from bytes in the named byte order, sign included",
    statement="For every data, and every offset from which the integer lies within the data, bytes_to_{u,i}{16,32,64}_{be,le}! gives the number whose base-256 digits are the bytes at that offset, most significant first (be) or last (le), and two's complement for the signed ones. No other byte influences the value.",
    quant="all data and all offsets, for the twelve macros",
    tests="The tests read each kind once, from offset 0 of one fixed byte string, without a set sign bit.",
    files=["keramics-types/src/macros.rs"],
    mech=[("byte order", "bytes_to_u16_be! ... bytes_to_i64_le!")],
    units=["c11_macros"],
    note="Proved for all inputs; each macro body is verified as a function of its slice and offset. Trusted: Verus/Z3, kx extraction, the specification of {integer}::from_{be,le}_bytes.",
    theorems=["bytes_to_u64_be", "bytes_to_i64_le"],
)
prop(
    id="C12", title="UUIDs: byte layouts, text form and parsing agree with RFC 4122",
    statement="Big- and little-endian bytes give the UUID fields in the RFC 4122 and the GUID layout, and the text is the 8-4-4-4-12 lower-case hexadecimal form. Parsing succeeds exactly for that form in either case, optionally inside braces, giving the written value; otherwise it is an error, without panic, that leaves the UUID unchanged. Parsing the text of a UUID gives it back.",
    quant="all 16-byte values; all strings, valid UTF-8 of any kind",
    tests="The tests parse one valid string and a few invalid ones; multi-byte characters, signs, and misplaced separators are not tried.",
    files=["keramics-types/src/uuid.rs"],
    mech=[("byte layouts", "Uuid::from_be_bytes, Uuid::from_le_bytes"), ("parsing", "Uuid::from_string"), ("text", "Uuid::to_string, Display")],
    units=["c12_uuid"],
    note="Proved for all inputs, theorem_text_roundtrip included. Trusted: Verus/Z3, kx extraction, vstd's UTF-8 theory, the specifications of integer formatting and of from_str_radix.",
    theorems=["Uuid::from_string", "Uuid::to_string", "theorem_text_roundtrip"],
)
prop(
    id="C13", title="16-bit strings end at the first zero, whatever the data, and never panic",
    statement="Reading a UCS-2 or UTF-16 string from bytes takes the 16-bit elements of the named byte order up to the first zero or the end; an odd last byte is ignored. Comparison is lexicographic by element, case folding maps each element by the table. Text shows every element in order, UCS-2 surrogates as escapes, UTF-16 pairs combined and unpaired surrogates as U+FFFD.",
    quant="all byte strings and element sequences of any length; all folding tables",
    tests="The tests read short even-length strings of plain letters.",
    files=["keramics-types/src/ucs2_string.rs", "keramics-types/src/utf16_string.rs"],
    mech=[("reading", "from_be_bytes, from_le_bytes of both, Ucs2String::read_data_le"), ("order", "Ucs2String::compare"), ("text", "to_string of both"), ("case folding", "Ucs2String::new_with_case_folding")],
    units=["c13_utf16"],
    note="Proved for all inputs. Trusted: Verus/Z3, kx extraction, the specifications of String::from_utf16_lossy, of hexadecimal formatting and of String::join.",
    theorems=["Ucs2String::compare", "Ucs2String::from_le_bytes", "Utf16String::to_string"],
)
prop(
    id="C14", title="Byte strings keep their bytes and convert between encodings whole or fail",
    statement="A byte string read from data holds the bytes before the first zero. Its text shows each decoded character in order, with backslashes doubled and undecodable bytes as U+FFFD. Extending with a string of the same encoding appends its bytes; of another encoding, it appends the encoding of every decoded character, and succeeds exactly if all decode and encode. If one does not decode nothing is appended.",
    quant="all byte strings and the encodings that keramics implements",
    tests="The tests extend with strings of the same encoding and print plain letters.",
    files=["keramics-types/src/byte_string.rs"],
    mech=[("reading", "ByteString::read_data, From<&[u8]>"), ("text", "ByteString::to_string"), ("conversion", "ByteString::extend, extend_from_codepoints")],
    units=["c14_bytestring"],
    note="Proved for all inputs against an assumed contract on the Box<dyn Iterator> decoder and encoder objects (an iterator over a fixed finite sequence); C07 and C08 prove that contract for the concrete types. Encodings without codec panic (todo!) and are outside. Trusted: Verus/Z3, kx extraction.",
    theorems=["ByteString::extend", "ByteString::to_string"],
    assumptions=["new_character_decoder and new_character_encoder return iterators over a finite sequence determined by their arguments (Box<dyn Iterator>)"],
)
prop(
    id="C15", title="A fake data stream reads its data, then zeros, exactly up to its size",
    statement="For every data, size, and history of reads and seeks, a read yields the bytes of the content (the data, cut or zero-filled to the size) from the current position, as many as the buffer and the size allow, leaves the rest of the buffer, and advances. A seek goes to the 64-bit target or fails and stays. On any conforming stream the exact reads yield all bytes asked for or an error.",
    over=["inputs", "histories"],
    quant="all data, all sizes up to 2^64, all histories of reads and seeks; the default methods for all streams that keep the trait's contract",
    tests="The tests read from a few positions inside the data or far behind it, never across its end, before its start or near 2^64.",
    files=["keramics-core/src/fake_data_stream.rs", "keramics-core/src/data_stream.rs"],
    mech=[("reading", "FakeDataStream::read"), ("seeking", "FakeDataStream::seek"), ("exact reads", "DataStream::read_exact, read_exact_at_position, read_at_position")],
    units=["c15_streams"],
    note="Proved for all inputs and positions. The default methods are proved against the contract of read and seek that an implementor must keep; FakeDataStream is proved to keep it, std::fs::File is not examined. Trusted: Verus/Z3, kx extraction.",
    theorems=["FakeDataStream::read", "FakeDataStream::seek", "DataStream::read_exact", "DataStream::read_exact_at_position"],
    assumptions=["implementors of DataStream other than FakeDataStream keep the contract of read and seek"],
)
prop(
    id="C16", title="Hexdumps and array listings show every byte and element, in place",
    statement="For every data, the hexdump is one line per 16 bytes: offset, hexadecimal cells padded to full width, and printable characters. With grouping, full lines that repeat their predecessor and are not the last full line become a single '...' per run. Hexadecimal text is two digits per byte. An array listing shows all elements, or one element and the count if all are equal, in rows of 16.",
    quant="all data and arrays of any length, grouped or not",
    tests="The tests format one or two fixed lengths; most lengths modulo 16 and repetition patterns are not tried.",
    files=["keramics-core/src/formatters.rs"],
    mech=[("hexdump", "format_as_hexdump"), ("hexadecimal text", "format_as_string"), ("arrays", "debug_format_array")],
    units=["c16_format"],
    note="Proved for all inputs. Trusted: Verus/Z3, kx extraction, the specifications of integer formatting and of join.",
    theorems=["format_as_hexdump", "debug_format_array"],
)
prop(
    id="C18", title="The signature scanner reports only signatures that are in the data, in place",
    statement="For every set of non-empty signatures built into a scanner, every data and every way to cut it into buffers, a scan neither panics nor overflows, and every signature it reports is one of the set whose pattern lies in the scanned buffer, within the data: at its offset from the start, at its offset from the end, or at the reported offset for an unbound one. Earlier results stay, and the data offset advances by the buffer.",
    over=["inputs", "histories"],
    quant="all signature sets with offset + size up to 2^62, all data sizes, all buffers and cuts into buffers",
    tests="The tests scan 128 bytes in one buffer with one or two signatures.",
    files=["keramics-sigscan/src/signature.rs", "keramics-sigscan/src/scan_tree.rs", "keramics-sigscan/src/scan_context.rs"],
    mech=[("matching", "Signature::scan_buffer"), ("tree lookup", "ScanTreeNode::scan_buffer"), ("scan", "ScanContext::new, scan_buffer, scan_buffer_with_scan_tree")],
    units=["c18_scan"],
    note="Proved for all inputs on 64-bit platforms, for scanners that C19 proves Scanner::build to yield. Trusted: Verus/Z3, kx extraction.",
    theorems=["ScanContext::scan_buffer", "Signature::scan_buffer"],
    assumptions=["usize is 64 bits", "signatures are not empty and end below 2^62", "a scanner is built once, before it scans"],
)
prop(
    id="C19", title="The signature scanner misses no signature that is in the data",
    statement="For every set of non-empty signatures that builds into a scanner, a scan of the first buffer reports a start-bound signature if the buffer holds one in place; a scan of a buffer that starts no later than the footer range reports an end-bound one if it holds one; and every occurrence in a buffer of an unbound signature is reported or overlaps one that is. Building neither panics nor recurses without end.",
    over=["inputs"],
    quant="all signature sets with offset + size up to 2^62, all data and buffers",
    tests="The tests build from one or two signatures that do not interact; shared offsets, prefixes and skip values are not tried.",
    files=["keramics-sigscan/src/scanner.rs", "keramics-sigscan/src/scan_tree.rs", "keramics-sigscan/src/signature_table.rs", "keramics-sigscan/src/skip_table.rs",
        "keramics-sigscan/src/groups.rs", "keramics-sigscan/src/pattern_weights.rs", "keramics-sigscan/src/scan_context.rs"],
    mech=[("tables", "SignatureTable::fill, calculate_pattern_weights, get_most_significant_pattern_offset"), ("tree", "ScanTreeNode::build, ScanTree::build"), ("skipping", "SkipTable::fill"), ("scan", "ScanContext::scan_buffer_with_scan_tree")],
    units=["c19_build", "c18_scan"],
    note="Proved for all inputs on 64-bit platforms: build yields a tree that leads the bytes of any data that holds a signature to a match, and a scan follows it. Signatures that lie across two buffers, and footers of data smaller than the footer range, are outside the property. Trusted: Verus/Z3, kx extraction, the iteration and get_mut of std maps.",
    theorems=["ScanTreeNode::build", "SkipTable::fill", "Scanner::build", "ScanContext::scan_buffer"],
    assumptions=["usize is 64 bits", "signatures are not empty and end below 2^62", "a scanner is built once, before it scans; build may fail for sets with signatures that can match in the same place"],
)
prop(
    id="C21", title="ADC, LZVN and LZNT1 data decompresses to exactly what its tokens stand for",
    statement="For every input and output buffer, ADC, LZVN and LZNT1 decompression neither panics nor loops: it fails exactly if a token is cut off, invalid, copies from before the start of the data (of the LZNT1 chunk), or does not fit the buffer; otherwise the front of the buffer holds the literals and copies of all tokens up to the end of stream or a full buffer, the reported size is theirs, and the rest of the buffer is untouched.",
    quant="all byte strings as compressed data, all output buffers",
    tests="The tests decompress one or two well-formed streams; damaged ones and rare token forms are not tried.",
    files=["keramics-compression/src/adc.rs", "keramics-compression/src/lzvn.rs", "keramics-compression/src/lznt1.rs"],
    mech=[("ADC", "AdcContext::decompress"), ("LZVN", "LzvnContext::decompress, LZVN_OPPCODE_TYPES"), ("LZNT1", "Lznt1Context::decompress, decompress_block, Lznt1BlockHeader::read_data")],
    units=["c21_adc", "c21_lzvn", "c21_lznt1"], search="compression",
    note="Proved for all inputs (LZNT1 on 64-bit platforms). Debug output is outside. An LZNT1 chunk that the input ends in is accepted between two groups of 8 elements. Trusted: Verus/Z3, kx extraction.",
    theorems=["AdcContext::decompress", "LzvnContext::decompress", "Lznt1Context::decompress"],
    assumptions=["usize is 64 bits (LZNT1)", "debug output is off"],
)
prop(
    id="C22", title="DEFLATE and zlib data decompresses as RFC 1951 and RFC 1950 say, or fails",
    statement="For every input and output buffer, DEFLATE and zlib decompression neither panics nor loops: it fails exactly if a block type, stored length, set of code sizes, code, distance, size, the zlib header or the Adler-32 of the output is invalid, or the data does not fit the buffer; otherwise the front of the buffer holds what the blocks up to the last one stand for, the reported size is theirs, and the rest of the buffer is untouched. Huffman codes are the canonical ones of RFC 1951.",
    quant="all byte strings as compressed data, all output buffers",
    tests="The tests decompress one well-formed stream each; damaged streams, incomplete codes, stored blocks and rare code tables are not tried.",
    files=["keramics-compression/src/huffman.rs", "keramics-compression/src/deflate.rs", "keramics-compression/src/zlib.rs"],
    mech=[("Huffman codes", "HuffmanTree::build, decode_symbol"), ("bits", "DeflateBitstream"), ("blocks", "DeflateContext::decompress_bitstream, decompress_huffmann_encoded_block, build_dynamic_huffman_trees"), ("zlib", "ZlibDataHeader::read_data, ZlibContext::decompress")],
    units=["c22_zlib"], search="compression",
    note="Proved for all inputs on 64-bit platforms. As the code has it: bits behind the end of the data are zero, data may end behind any block, codes may be incomplete, and a checksum that is cut off is not checked. Debug output is outside. HuffmanTree is checked with its Bitstream taken as DeflateBitstream. Trusted: Verus/Z3, kx extraction.",
    theorems=["HuffmanTree::build", "HuffmanTree::decode_symbol", "DeflateContext::decompress_bitstream", "ZlibContext::decompress"],
    assumptions=["usize is 64 bits", "debug output is off"],
)
prop(
    id="C23", title="An MBR, GPT or APM partition reads as exactly its extent of the image",
    statement="For every image, partition and history of seeks and reads on it: a partition's size is that of its table entry; a read copies the bytes of the image from the partition's start plus the current position, never any before or behind the partition, leaves the rest of the buffer untouched and advances by what it read; a seek goes exactly where start, end or current position plus the offset is, or fails without moving if that is below 0 or above 2^64-1. Nothing panics.",
    over=["inputs", "histories"],
    quant="all images, partitions, positions, buffers and histories of seeks and reads",
    tests="The tests seek and read at a few positions within one image; reads across the end of a partition and seeks out of range are hardly tried.",
    files=["keramics-formats/src/mbr/partition.rs", "keramics-formats/src/gpt/partition.rs", "keramics-formats/src/apm/partition.rs", "keramics-core/src/data_stream.rs"],
    mech=[("MBR", "MbrPartition::read, seek, get_size"), ("GPT", "GptPartition::read, seek, get_size"), ("APM", "ApmPartition::read, seek, get_size")],
    units=["c23_mbr", "c23_gpt", "c23_apm"], search="formats",
    note="Proved for all inputs, step by step over the history: each call is specified by the state before it. The image behind a partition is taken as a shared stream with fixed content, whose lock and reads may fail and whose reads may be short. Trusted: Verus/Z3, kx extraction, that contract of DataStreamReference (dstream.vx).",
    theorems=["MbrPartition::read", "GptPartition::read", "ApmPartition::read", "MbrPartition::seek"],
    assumptions=["the image does not change while it is read", "a partition ends below 2^64, which C24 proves for all partitions a volume system hands out"],
)
prop(
    id="C24", title="MBR, GPT and APM partition tables are read as they are on the image",
    statement="For every image, reading an MBR, GPT or APM volume system neither panics nor loops. If it succeeds, signatures, versions, CRCs and bounds hold, and the partitions are exactly the used entries: of the MBR and its chain of extended boot records (logical ones relative to their own record), of the GPT entry table, or of the APM map, in order, with their index, extent in bytes, type and identification. Partition extents do not overflow.",
    quant="all images and all sector sizes",
    tests="The tests read one well-formed image per format; chains of extended boot records, damaged tables and extreme block numbers are not tried.",
    files=["keramics-formats/src/mbr/volume_system.rs", "keramics-formats/src/mbr/partition_entry.rs", "keramics-formats/src/mbr/master_boot_record.rs", "keramics-formats/src/mbr/extended_boot_record.rs",
        "keramics-formats/src/gpt/volume_system.rs", "keramics-formats/src/gpt/partition_entry.rs", "keramics-formats/src/gpt/partition_table_header.rs",
        "keramics-formats/src/apm/volume_system.rs", "keramics-formats/src/apm/partition_map_entry.rs", "keramics-layout-map/src/structure.rs"],
    mech=[("MBR", "MbrVolumeSystem::read_data_stream, read_boot_records, read_extended_boot_record, get_partition_by_index"), ("GPT", "GptVolumeSystem::read_data_stream, read_partition_table, GptPartitionTableHeader::read_data, GptPartitionEntry::read_data"), ("APM", "ApmVolumeSystem::read_data_stream, read_partition_map, ApmPartitionMapEntry::read_data")],
    units=["c24_mbr", "c24_gpt", "c24_apm"], search="formats",
    note="Proved for all images: what a successful read returns. That well-formed tables are not rejected is only searched for, since reads and locks of the shared image may fail in the contract. The sector size of an MBR without an extended partition follows the size of the image, as the code has it. GPT names are not specified. Trusted: Verus/Z3, kx extraction, DataStreamReference (dstream.vx).",
    theorems=["MbrVolumeSystem::read_data_stream", "GptVolumeSystem::read_data_stream", "ApmVolumeSystem::read_data_stream"],
    assumptions=["the image does not change while it is read", "debug output is off"],
)
prop(
    id="C25", title="An EXT, FAT or NTFS file reads as the blocks its block ranges name",
    statement="For every image and every list of block ranges, cluster chain or run list, opening a file's content fails or yields a stream that maps each byte of the file to the one place its ranges give it: the block on the image, or zero for sparse blocks and, in NTFS, what lies past the valid data size. For every history of seeks and reads a read returns exactly those bytes from the current position, never more than the file's size, leaves the rest of the buffer untouched and advances by what it read. Nothing panics or loops.",
    over=["inputs", "histories"],
    quant="all images, block ranges, cluster chains and run lists, block sizes, file sizes, positions, buffers and histories of seeks and reads",
    tests="The tests read a few small files of one image from start to end; sparse and fragmented files, damaged chains, runs over several attributes and reads across ranges are hardly tried.",
    files=["keramics-formats/src/block_tree.rs", "keramics-formats/src/block_tree_node.rs",
        "keramics-formats/src/ext/block_stream.rs", "keramics-formats/src/ext/block_range.rs",
        "keramics-formats/src/fat/block_stream.rs", "keramics-formats/src/fat/block_range.rs", "keramics-formats/src/fat/block_allocation_table.rs", "keramics-formats/src/fat/enums.rs",
        "keramics-formats/src/ntfs/block_stream.rs", "keramics-formats/src/ntfs/block_range.rs", "keramics-formats/src/ntfs/mft_attribute.rs", "keramics-formats/src/ntfs/data_run.rs", "keramics-formats/src/ntfs/cluster_group.rs"],
    mech=[("map of block ranges", "BlockTree, BlockTreeNode: insert_value, get_value"), ("EXT", "ExtBlockStream::open, read_data_from_blocks, read, seek"), ("FAT", "FatBlockStream::open, read_data_from_blocks, read, seek; FatBlockAllocationTable::read_entry"), ("NTFS", "NtfsBlockStream::open, read_data_from_blocks, read, seek")],
    units=["c25_tree", "c25_ext", "c25_fat", "c25_ntfs"], search="formats",
    note="Proved for all inputs, step by step over the history, on the type-generic block tree: inserting a free aligned range succeeds, and what inserted ranges map to is exactly what lookups return. NTFS compressed content is outside. Trusted: Verus/Z3, kx extraction, DataStreamReference (dstream.vx).",
    theorems=["BlockTree::insert_value", "BlockTree::get_value", "ExtBlockStream::open", "ExtBlockStream::read", "FatBlockStream::open", "FatBlockStream::read", "FatBlockAllocationTable::read_entry", "NtfsBlockStream::open", "NtfsBlockStream::read"],
    assumptions=["the image does not change while it is read and reads nothing only at its end", "the FAT lies below 2^60 on the image", "debug output is off", "usize is 64 bits"],
)
prop(
    id="C26", title="A sparse image or VHD disk reads as its band or block table says",
    statement="For every image file, opening a sparse disk image or VHD file fails or yields the disk its header or footer describes, and a well-formed one opens. A band or present sector is the bytes at the place that its table entry and bitmap give, an unallocated one zero or, in a differential VHD, the same place of the parent disk. For every history of seeks and reads a read returns exactly those bytes from the current position, never beyond the disk's size, leaves the rest of the buffer untouched and advances by what it read. Nothing panics or loops.",
    over=["inputs", "histories"],
    quant="all image files, headers, footers, tables, bitmaps and parent disks, all block sizes, positions, buffers and histories of seeks and reads",
    tests="The tests read a few small images of one block size, from start to end; reads across blocks and through parents, sector bitmaps with holes, unusual block sizes, short reads and damaged tables are hardly tried.",
    files=["keramics-formats/src/sparseimage/file.rs", "keramics-formats/src/sparseimage/file_header.rs", "keramics-formats/src/vhd/file.rs", "keramics-formats/src/vhd/file_footer.rs", "keramics-formats/src/vhd/dynamic_disk_header.rs", "keramics-formats/src/vhd/block_allocation_table.rs", "keramics-formats/src/vhd/sector_bitmap.rs", "keramics-formats/src/block_tree.rs", "keramics-formats/src/block_tree_node.rs"],
    mech=[("sparse disk image", "SparseImageFile: read_header_block, read_data_from_bands, read, seek"), ("VHD", "VhdFile: read_metadata, read_block_allocation_entry, read_sector_bitmap, read_data_from_blocks, set_parent, read, seek"), ("VHD sector bitmap", "VhdSectorBitmap::read_data")],
    units=["c26_sparse", "c26_vhd", "c25_tree"], search="formats",
    note="Proved for all inputs, step by step over the history, including that well-formed images on streams that do not fail open and read. The checksums of the VHD structures are not checked by the code and not specified. Trusted: Verus/Z3, kx extraction, DataStreamReference (dstream.vx), the parent disk as a stream of fixed content.",
    theorems=["SparseImageFile::read_data_stream", "SparseImageFile::read", "VhdFileFooter::read_at_position", "VhdDynamicDiskHeader::read_at_position", "VhdSectorBitmap::read_data", "VhdFile::read_data_stream", "VhdFile::read", "VhdFile::set_parent"],
    assumptions=["the image does not change while it is read and reads nothing only at its end", "a parent disk is a stream of fixed content", "debug output is off", "usize is 64 bits"],
)
prop(
    id="C27", title="A VHDX disk reads as its block table says",
    statement="For every image file, opening a VHDX file fails or yields the disk its headers, region and metadata tables describe, and a well-formed one opens. The block table and sector bitmaps give where each byte is: in a present block or sector the byte at that place of the image; otherwise zero or, in a differential disk, the same place of the parent disk. For every history of seeks and reads a read returns exactly those bytes from the current position, never beyond the disk's size, leaves the rest of the buffer untouched and advances by what it read. Nothing panics or loops.",
    over=["inputs", "histories"],
    quant="all image files, headers, tables, bitmaps, parent locators and parent disks, all block and sector sizes, positions, buffers and histories of seeks and reads",
    tests="The tests read a few small images from start to end; tables over several chunks, sector bitmaps with holes, parents of another size, unusual block sizes, duplicate and missing table entries and damaged tables are hardly tried.",
    files=["keramics-formats/src/vhdx/file.rs", "keramics-formats/src/vhdx/image_header.rs", "keramics-formats/src/vhdx/region_table.rs", "keramics-formats/src/vhdx/metadata_table.rs", "keramics-formats/src/vhdx/parent_locator.rs", "keramics-formats/src/vhdx/block_allocation_table.rs", "keramics-formats/src/vhdx/sector_bitmap.rs", "keramics-formats/src/block_tree.rs", "keramics-formats/src/block_tree_node.rs"],
    mech=[("headers and tables", "VhdxFile: read_metadata, read_metadata_values, VhdxRegionTable, VhdxMetadataTable, VhdxParentLocator: read_data"), ("blocks", "VhdxFile: read_block_allocation_entry, read_sector_bitmap, read_data_from_blocks, set_parent, read, seek"), ("sector bitmap", "VhdxSectorBitmap::read_data")],
    units=["c27_vhdx", "c25_tree"], search="formats",
    note="Proved for all inputs, step by step over the history, including that well-formed images on streams that do not fail open and read. The log of the image is not replayed by the code and not specified; the second region table must be valid and is not used. Trusted: Verus/Z3, kx extraction, DataStreamReference (dstream.vx), the parent disk as a stream of fixed content, std HashMap; Uuid::from_string (C12) and Ucs2String::to_string (C13) as functions of their input.",
    theorems=["VhdxImageHeader::read_at_position", "VhdxRegionTable::read_at_position", "VhdxMetadataTable::read_at_position", "VhdxParentLocator::read_at_position", "VhdxSectorBitmap::read_data", "VhdxFile::read_data_stream", "VhdxFile::read", "VhdxFile::set_parent"],
    assumptions=["the image does not change while it is read and reads nothing only at its end", "a parent disk is a stream of fixed content", "debug output is off", "usize is 64 bits", "Uuid and String are well-behaved keys of a HashMap"],
)
prop(
    id="C28", title="A QCOW disk reads as its cluster tables say",
    statement="For every image file, opening a QCOW file (versions 1 to 3) fails or yields the disk its header describes, and a well-formed unencrypted one opens. The level 1 and level 2 tables give where each byte is: in a cluster they map the byte at that place of the image, and in a cluster marked as zeros zero; in one they leave out the same place of the backing file, with zeros after its end, or zero if there is none. Compressed clusters are refused with an error. For every history of seeks and reads a read returns exactly those bytes from the current position, never beyond the disk's size, leaves the rest of the buffer untouched and advances by what it read. Nothing panics or loops.",
    over=["inputs", "histories"],
    quant="all image files, versions, headers, cluster sizes, level 1 and 2 tables, backing files, positions, buffers and histories of seeks and reads",
    tests="The tests read two small images from start to end; backing files and holes of either table, disk sizes that are no multiple of the cluster size, unusual cluster and table sizes, zero clusters and damaged tables are hardly tried.",
    files=["keramics-formats/src/qcow/file.rs", "keramics-formats/src/qcow/file_header.rs", "keramics-formats/src/qcow/file_header_v1.rs", "keramics-formats/src/qcow/file_header_v2.rs", "keramics-formats/src/qcow/file_header_v3.rs", "keramics-formats/src/qcow/cluster_table.rs", "keramics-formats/src/qcow/cluster_table_entry.rs", "keramics-formats/src/qcow/block_range.rs", "keramics-formats/src/block_tree.rs", "keramics-formats/src/block_tree_node.rs"],
    mech=[("header", "QcowFileHeader::read_at_position, QcowFile::read_file_header"), ("tables", "QcowClusterTable::read_entry, QcowFile::read_cluster_block_entry"), ("clusters and backing file", "QcowFile: read_data_from_blocks, set_backing_file, read, seek")],
    units=["c28_qcow", "c25_tree"], search="formats",
    note="Proved for all inputs, step by step over the history, including that well-formed images on streams that do not fail open and read. QcowImage::open, which looks up the backing file, is outside; snapshots are not read by the code. Trusted: Verus/Z3, kx extraction, DataStreamReference (dstream.vx), RwLock of the backing file (rwlock.vx), the backing file as a stream of fixed content that ends at its media size (which is what QcowFile::read ensures).",
    theorems=["QcowFileHeader::read_at_position", "QcowClusterTable::read_entry", "QcowFile::read_file_header", "QcowFile::read_cluster_block_entry", "QcowFile::read_data_from_blocks", "QcowFile::read", "QcowFile::set_backing_file"],
    assumptions=["the image does not change while it is read and reads nothing only at its end", "a backing file is a stream of fixed content that ends at its media size", "debug output is off", "usize is 64 bits"],
)
prop(
    id="C29", title="A UDIF disk image reads as its block tables say",
    statement="For every image file, opening a UDIF file (dmg) fails or yields the disk its footer and plist describe, and a well-formed one opens. The block tables of the plist give, without gaps, what is at each sector: raw blocks the bytes at that place of the image, sparse blocks zeros, compressed blocks what their stored bytes decompress to, which must be exactly the size of the block; a block that does not is an error to read, never other data. Without a plist the data fork is the disk. For every history of seeks and reads, whatever blocks were read before, a read returns exactly those bytes from the current position, never beyond the disk's size, leaves the rest of the buffer untouched and advances by what it read. Nothing panics or loops.",
    over=["inputs", "histories"],
    quant="all image files, footers, plists, block tables, positions, buffers and histories of seeks and reads",
    tests="The tests read one image per compression method from start to end in order; revisited blocks, more blocks than the cache holds, several tables, mixed sparse, raw and compressed blocks, blocks that decompress to another size and damaged tables are hardly tried.",
    files=["keramics-formats/src/udif/file.rs", "keramics-formats/src/udif/file_footer.rs", "keramics-formats/src/udif/block_table.rs", "keramics-formats/src/udif/block_table_header.rs", "keramics-formats/src/udif/block_table_entry.rs", "keramics-formats/src/udif/block_range.rs", "keramics-formats/src/plist/object.rs", "keramics-formats/src/lru_cache.rs", "keramics-formats/src/block_tree.rs", "keramics-formats/src/block_tree_node.rs"],
    mech=[("footer and tables", "UdifFile::read_metadata, UdifFileFooter, UdifBlockTable: read_data"), ("blocks", "UdifFile: read_compressed_block, read_data_from_blocks, read, seek"), ("cache", "LruCache: contains, get, insert")],
    units=["c29_udif", "c25_tree"], search="formats",
    note="Proved for all inputs, step by step over the history, including that well-formed images on streams that do not fail open and read. Trusted: Verus/Z3, kx extraction, DataStreamReference (dstream.vx), String::from_utf8, XmlPlist::parse and the ADC, bzip2, LZFSE and zlib decompressors as functions of their input that fill at most the room they are given, HashMap<String, _>::get by text.",
    theorems=["UdifFileFooter::read_at_position", "UdifBlockTable::read_data", "UdifFile::read_metadata", "UdifFile::read_compressed_block", "UdifFile::read_data_from_blocks", "UdifFile::read", "LruCache::insert"],
    assumptions=["the image does not change while it is read and reads nothing only at its end", "plists and compressed data mean the same each time they are parsed", "debug output is off", "usize is 64 bits"],
)
prop(
    id="C30", title="An EWF image reads as the sections of its segment files say",
    statement="For every set of segment files, opening an EWF image (.E01, .S01 and in lower case) fails or yields the media its segment files describe, and well-formed segment files open. The segment files are found by their names (E01 to E99, EAA to ZZZ), each must have a valid file header with its own number and a chain of sections with valid checksums up to its last byte, and the one with the done section is the last. The volume gives the sizes; the tables of all segment files, in order, give where each chunk is: a raw chunk is the bytes at that place of its segment file, also beyond 2 GiB, a compressed chunk what its stored bytes inflate to; a chunk that is too short is an error to read, never other data. For every history of seeks and reads, whatever was read before, a read returns exactly those bytes from the current position, never beyond the media size, leaves the rest of the buffer untouched and advances by what it read. Nothing panics or loops.",
    over=["inputs", "histories"],
    quant="all sets of segment files, names, sections, volumes, tables, positions, buffers and histories of seeks and reads",
    tests="The tests read one image in one segment file, from start to end; several segment files, more of them than the cache holds, chunks at the same offset of different segment files, offsets beyond 2 GiB, short chunks, names that are not ASCII and damaged sections are never tried.",
    files=["keramics-formats/src/ewf/image.rs", "keramics-formats/src/ewf/file.rs", "keramics-formats/src/ewf/file_header.rs", "keramics-formats/src/ewf/section_header.rs", "keramics-formats/src/ewf/volume.rs", "keramics-formats/src/ewf/table.rs", "keramics-formats/src/ewf/table_header.rs", "keramics-formats/src/ewf/table_entry.rs", "keramics-formats/src/ewf/table_footer.rs", "keramics-formats/src/ewf/error2.rs", "keramics-formats/src/ewf/digest.rs", "keramics-formats/src/ewf/hash.rs", "keramics-formats/src/lru_cache.rs", "keramics-formats/src/block_tree.rs", "keramics-formats/src/block_tree_node.rs"],
    mech=[("segment files", "EwfImage: get_segment_file_extension, read_segment_files, open_segment_file, EwfFile::read_data_stream"), ("sections", "EwfFile::read_sections, EwfImage: read_sections, read_volume_section, read_table_section"), ("chunks", "EwfImage: read_data_from_blocks, read, seek"), ("caches", "LruCache: contains, get, get_mut, insert")],
    units=["c30_ewf", "c25_tree", "c01_adler32"], search="formats",
    note="Proved for all inputs, step by step over the history, including that well-formed segment files on streams that do not fail open and read. The checksums of chunks are not checked by the code and not specified, and the values of header and header2 sections are outside but for the date values. As in the code, the table of an EWF-S01 file is followed by a checksum of its entries and the chunks without a sectors section end where the table section does. Trusted: Verus/Z3, kx extraction, DataStreamReference (dstream.vx), the file resolver as a map from names to streams of fixed content, PathComponent (text, stem and extension around the last dot that is not the first character), header sections and zlib as functions of their input, zlib filling at most the room it is given, std HashMap.",
    theorems=["EwfImage::get_segment_file_extension", "EwfImage::read_segment_files", "EwfImage::open_segment_file", "EwfFile::read_sections", "EwfImage::read_sections", "EwfImage::read_volume_section", "EwfImage::read_table_section", "EwfImage::read_data_from_blocks", "EwfImage::read", "LruCache::get_mut"],
    assumptions=["the segment files do not change while they are read and read nothing only at their end", "compressed data means the same each time it is inflated", "debug output is off", "usize is 64 bits"],
)
prop(
    id="C31", title="An EXT file's block ranges are what its extents or block numbers say",
    statement="For every inode and file system image, reading an EXT inode's data reference fails or yields the ranges of blocks that its extents tree or its tree of direct, indirect, double and triple indirect block numbers describes, in order: extents where they say, with a hole before one that starts after the previous one's end and after the last one; extents of more than 32768 blocks as that many less blocks of zeros; a block number of zero as a hole of all blocks below it (consecutive blocks may share a range). A tree whose nodes are damaged, too deep, or not completely in the image is an error, and every valid one is read. Devices and files without blocks have no ranges. Nothing panics or overflows, and the depth of the tree bounds the recursion.",
    over=["inputs"],
    quant="all inodes, data references, block sizes, file sizes, tree nodes at every level and images",
    tests="The tests read one data reference per kind of tree; trees of several levels, holes inside and between levels, extents with the upper bits of the block number or not written, entries beyond the node and damaged nodes are hardly tried.",
    files=["keramics-formats/src/ext/extents_tree.rs", "keramics-formats/src/ext/extents_header.rs", "keramics-formats/src/ext/extents_footer.rs", "keramics-formats/src/ext/extent_index.rs", "keramics-formats/src/ext/extent_descriptor.rs", "keramics-formats/src/ext/block_numbers_tree.rs", "keramics-formats/src/ext/block_range.rs", "keramics-formats/src/ext/inode.rs"],
    mech=[("extents", "ExtExtentsTree: read_data_reference, read_node_data, read_node_at_position"), ("block numbers", "ExtBlockNumbersTree: read_data_reference, read_node_data, read_node_at_position"), ("choice of the tree", "ExtInode::read_data_reference")],
    units=["c31_ext"], search="formats",
    note="Proved for all inputs, by recursion over the levels of the tree, including that valid trees on streams that do not fail are read. Block sizes are at least 12 and a multiple of 4, as the superblock gives them. Order and overlap of extents are not checked here by the code (the block stream of C24 refuses ranges that overlap). Trusted: Verus/Z3, kx extraction, DataStreamReference (dstream.vx).",
    theorems=["ExtExtentsTree::read_data_reference", "ExtExtentsTree::read_node_data", "ExtExtentsTree::read_node_at_position", "ExtBlockNumbersTree::read_data_reference", "ExtBlockNumbersTree::read_node_data", "ExtBlockNumbersTree::read_node_at_position", "ExtInode::read_data_reference"],
    assumptions=["the image does not change while it is read and reads nothing only at its end", "debug output is off", "usize is 64 bits"],
)
