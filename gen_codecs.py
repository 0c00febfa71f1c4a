#!/usr/bin/env python3
"""gen_codecs.py -- (development only) writes units/c07_*.vx: one unit per single-byte
codec.  The reference mapping is Python's codec of the same name (generated from the
Unicode consortium's tables); for the three Apple encodings Python does not have, the
reference is pinned in mac_tables.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
L = """ascii:Ascii iso8859_1:Iso8859_1 iso8859_2:Iso8859_2 iso8859_3:Iso8859_3 iso8859_4:Iso8859_4 iso8859_5:Iso8859_5
iso8859_6:Iso8859_6 iso8859_7:Iso8859_7 iso8859_8:Iso8859_8 iso8859_9:Iso8859_9 iso8859_10:Iso8859_10 iso8859_11:Iso8859_11
iso8859_13:Iso8859_13 iso8859_14:Iso8859_14 iso8859_15:Iso8859_15 iso8859_16:Iso8859_16 koi8_r:Koi8R koi8_u:Koi8U
mac_arabic:MacArabic mac_celtic:MacCeltic mac_central_eur_roman:MacCentralEurRoman mac_croatian:MacCroatian
mac_cyrillic:MacCyrillic mac_dingbats:MacDingbats mac_farsi:MacFarsi mac_gaelic:MacGaelic windows874:Windows874
windows1250:Windows1250 windows1251:Windows1251 windows1252:Windows1252 windows1253:Windows1253 windows1254:Windows1254
windows1255:Windows1255 windows1256:Windows1256 windows1257:Windows1257 windows1258:Windows1258""".split()
PY = {"mac_central_eur_roman": "mac_latin2"}
MAC = json.load(open(os.path.join(V, "mac_tables.json")))


def table(f):
    if f in MAC:
        return MAC[f]
    e = PY.get(f, f.replace("windows", "cp"))
    t = []
    for b in range(256):
        try:
            t.append(ord(bytes([b]).decode(e)))
        except UnicodeDecodeError:
            t.append(-1)
    return t


rust = ["//! Generated by gen_codecs.py: reference mapping of each single-byte encoding.\n",
        "use keramics_encodings::CharacterEncoding;\n",
        "pub const TABLES: [(CharacterEncoding, [i32; 256]); %d] = [\n" % len(L)]
for x in L:
    f, ty = x.split(":")
    t = table(f)
    rust.append("    (CharacterEncoding::%s, [%s]),\n" % (ty, ", ".join(map(str, t))))
    seq = "seq![" + ", ".join("%d%s" % (v, "int" if i == 0 else "") for i, v in enumerate(t)) + "]"
    k = 0
    while k < 256 and t[k] == k:
        k += 1
    seen = set()
    arms = []
    for b in range(k, 256):
        if t[b] >= 0 and t[b] not in seen and not t[b] < k:
            seen.add(t[b])
            arms.append(" else if c == %d { %d }" % (t[b], b))
    dup = len([v for v in t if v >= 0]) != len({v for v in t if v >= 0})
    ub = " || b >= 0x80" if f == "ascii" else ""
    body = "if 0 <= c < %d { c }" % k + "".join(arms) + " else { -1 }"
    fwd = "dec_table()[k] != -1 ==> enc(dec_table()[k]) == k" if not dup else "dec_table()[k] != -1 ==> enc(dec_table()[k]) != -1"
    chkp = fwd.replace("[k]", "[n - 1]").replace("== k", "== n - 1")
    adec = "dec(b) == c" if f != "ascii" else "b < 0x80 ==> dec(b) == c"
    edec = "dec(b) == -1"
    with open(os.path.join(V, "units", "c07_%s.vx" % f), "w") as o:
        o.write("""@@# generated by gen_codecs.py
@@include std.vx
@@include codec.vx
@@raw
// reference mapping: code point of each byte, -1 where the encoding assigns none
spec fn dec_table() -> Seq<int> { %(seq)s }
spec fn dec(b: u8) -> int { dec_table()[b as int] }
// its inverse: a byte for each code point, -1 where no byte has that code point
spec fn enc(c: int) -> int { %(body)s }
spec fn chk(n: nat) -> bool
    decreases n
{
    n == 0 || (chk((n - 1) as nat) && (%(chkp)s))
}
proof fn lemma_chk(n: nat, k: int)
    requires chk(n), 0 <= k < n,
    ensures %(fwd)s,
    decreases n
{
    if k < n - 1 { lemma_chk((n - 1) as nat, k); }
}
proof fn lemma_enc(c: int)
    ensures enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
}
// Decoding and encoding are inverse to each other.
proof fn theorem_inverse(k: int, c: int)
    ensures
        0 <= k < 256 ==> (%(fwd)s),
        enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
    assert(chk(256)) by (compute_only);
    lemma_enc(c);
    if 0 <= k < 256 { lemma_chk(256, k); }
}
spec fn decoded(b: u8, r: Result<u32, ErrorTrace>) -> bool {
    match r { Ok(c) => %(adec)s, Err(_) => %(edec)s }
}
// `b` encodes c: one byte, and it decodes to c
spec fn encoded(c: u32, r: Result<Vec<u8>, ErrorTrace>) -> bool {
    match r { Ok(v) => v@.len() == 1 && enc(c as int) != -1 && dec(v@[0]) == c, Err(_) => enc(c as int) == -1 }
}
@@file keramics-encodings/src/%(f)s.rs
@@item Decoder%(ty)s
@@item Encoder%(ty)s
@@fn Decoder%(ty)s::new
    ensures r.bytes@ == bytes@, r.byte_index == 0,
@@fn Decoder%(ty)s::next for Iterator
    ensures
        final(self).bytes@ == old(self).bytes@,
        old(self).byte_index >= old(self).bytes@.len() ==> r is None && final(self).byte_index == old(self).byte_index,
        old(self).byte_index < old(self).bytes@.len() ==> r is Some && final(self).byte_index == old(self).byte_index + 1
            && decoded(old(self).bytes@[old(self).byte_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.bytes); }
@@fn Encoder%(ty)s::new
    ensures r.code_points@ == code_points@, r.code_point_index == 0,
@@fn Encoder%(ty)s::next for Iterator
    ensures
        final(self).code_points@ == old(self).code_points@,
        old(self).code_point_index >= old(self).code_points@.len() ==> r is None && final(self).code_point_index == old(self).code_point_index,
        old(self).code_point_index < old(self).code_points@.len() ==> r is Some && final(self).code_point_index == old(self).code_point_index + 1
            && encoded(old(self).code_points@[old(self).code_point_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.code_points); }
@@endfn
""" % dict(seq=seq, body=body, fwd=fwd, chkp=chkp, f=f, ty=ty, adec=adec, edec=edec))
rust.append("];\n")
open(os.path.join(V, "harness/base/src/codec_tables.rs"), "w").writelines(rust)

# Windows 932: code page 932 as published by the Unicode consortium (Python's cp932
# without the bytes 0x80, 0xa0, 0xfd-0xff and the user-defined rows 0xf0-0xf9).
rows = []
for b in range(256):
    if b in (0x80, 0xa0) or b >= 0xfd:
        continue
    try:
        rows.append("%02x %x\n" % (b, ord(bytes([b]).decode("cp932"))))
    except UnicodeDecodeError:
        pass
for a in list(range(0x81, 0xa0)) + list(range(0xe0, 0xfd)):
    if 0xf0 <= a <= 0xf9:
        continue
    for b in range(256):
        try:
            s = bytes([a, b]).decode("cp932")
        except UnicodeDecodeError:
            continue
        if len(s) == 1:
            rows.append("%02x%02x %x\n" % (a, b, ord(s)))
open(os.path.join(V, "harness/base/src/w932.txt"), "w").writelines(rows)
