@@include std.vx
@@include streams.vx
@@mappath Vec::from kx_vec_from
@@raw
global size_of usize == 8;
use std::collections::HashMap;
use std::collections::BTreeMap;
use std::sync::Arc;
broadcast use vstd::std_specs::hash::group_hash_axioms;
#[verifier::external_body]
fn kx_slice_eq<T: PartialEq>(a: &[T], b: &[T]) -> (r: bool) where T: Copy
    ensures r == (a@ == b@),
{ a == b }
#[verifier::external_body]
fn kx_vec_from<T: Copy>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { Vec::from(s) }
#[verifier::external_body]
proof fn kx_slice_len(s: &[u8]) ensures s@.len() <= isize::MAX as int {}
@@file keramics-sigscan/src/enums.rs
@@item PatternType #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@@file keramics-sigscan/src/signature.rs
@@item Signature
@@file keramics-sigscan/src/types.rs
@@item SignatureReference
@@raw
spec fn sig_ok(s: Signature) -> bool {
    s.pattern_size == s.pattern@.len() && s.pattern_size > 0 && s.pattern_offset + s.pattern_size <= 0x4000_0000_0000_0000
}
// where a signature is to be found in data of size n, scanned at data offset d and buffer offset o
spec fn place(s: Signature, n: int, d: int, o: int) -> int {
    match s.pattern_type {
        PatternType::BoundToEnd => n - s.pattern_offset,
        PatternType::BoundToStart => s.pattern_offset as int,
        PatternType::Unbound => d + o,
    }
}
// the bytes b from data offset d hold the signature at its place, within the data
spec fn found_at(s: Signature, d: int, n: int, b: Seq<u8>, o: int) -> bool {
    let p = place(s, n, d, o);
    d <= p && 0 <= p && p - d + s.pattern@.len() <= b.len() && p + s.pattern@.len() <= n
        && b.subrange(p - d, p - d + s.pattern@.len()) == s.pattern@
}
spec fn same(a: Signature, b: Signature) -> bool {
    a.pattern_type == b.pattern_type && a.pattern_offset == b.pattern_offset && a.pattern@ == b.pattern@
}
@@file keramics-sigscan/src/scan_tree.rs
@@item ScanObject
@@item ScanTreeNode
@@raw
// ---- scan tree: offsets within a tree that spans r bytes ----
spec fn toff(s: Signature, r: int) -> int {
    match s.pattern_type {
        PatternType::BoundToEnd => r - s.pattern_offset,
        PatternType::BoundToStart => s.pattern_offset as int,
        PatternType::Unbound => 0,
    }
}
spec fn has(s: Signature, r: int, q: int) -> bool { toff(s, r) <= q < toff(s, r) + s.pattern@.len() }
spec fn byte(s: Signature, r: int, q: int) -> u8 { s.pattern@[q - toff(s, r)] }
// every signature of the tree is one of l and of type t
spec fn tree_obj_ok(x: ScanObject, t: PatternType, l: Seq<Arc<Signature>>, d: nat) -> bool
    decreases d, 1nat
{
    match x {
        ScanObject::Signature(s) => l.contains(s) && s.pattern_type == t && sig_ok(*s),
        ScanObject::ScanTreeNode(m) => d > 0 && tree_ok(m, t, l, (d - 1) as nat),
    }
}
spec fn tree_ok(n: ScanTreeNode, t: PatternType, l: Seq<Arc<Signature>>, d: nat) -> bool
    decreases d, 2nat
{
    n.pattern_offset <= 0x8000_0000_0000_0000
    && forall|k: i16| #[trigger] n.scan_objects@.contains_key(k) ==> tree_obj_ok(n.scan_objects@[k], t, l, d)
}
// following the bytes of data that holds s leads to s (or to another match)
spec fn cov_obj(x: ScanObject, s: Signature, r: int, d: nat) -> bool
    decreases d, 1nat
{
    match x {
        ScanObject::Signature(y) => same(*y, s),
        ScanObject::ScanTreeNode(m) => d > 0 && cov(m, s, r, (d - 1) as nat),
    }
}
spec fn cov(n: ScanTreeNode, s: Signature, r: int, d: nat) -> bool
    decreases d, 2nat
{
    let o = n.scan_objects@;
    let q = n.pattern_offset as int;
    if has(s, r, q) {
        o.contains_key(byte(s, r, q) as i16) && cov_obj(o[byte(s, r, q) as i16], s, r, d)
    } else {
        o.contains_key(-1i16) && cov_obj(o[-1i16], s, r, d)
            && forall|k: i16| #[trigger] o.contains_key(k) && o[k] is ScanTreeNode ==> cov_obj(o[k], s, r, d)
    }
}
@@file keramics-sigscan/src/skip_table.rs
@@item SkipTable
@@raw
// a shift by a skip value jumps over no place where a signature of type t can match
spec fn skip_ok(k: SkipTable, l: Seq<Arc<Signature>>, t: PatternType) -> bool {
    let m = k.smallest_pattern_size as int;
    &&& 1 <= k.smallest_skip_value <= m
    &&& forall|b: u8| #[trigger] k.skip_values@.contains_key(b) ==> k.skip_values@[b] <= m
    &&& forall|j: int| 0 <= j < l.len() && (#[trigger] l[j]).pattern_type == t ==> skip_sig(k, *l[j], m)
}
spec fn skip_sig(k: SkipTable, s: Signature, m: int) -> bool {
    &&& m <= s.pattern@.len()
    &&& forall|i: int| 0 <= i < m ==> k.skip_values@.contains_key(#[trigger] s.pattern@[i]) && k.skip_values@[s.pattern@[i]] <= m - 1 - i
            && (i < m - 1 ==> k.smallest_skip_value <= m - 1 - i)
}
@@file keramics-sigscan/src/scan_tree.rs
@@item ScanTree
@@raw
spec fn tree_wf(t: ScanTree, l: Seq<Arc<Signature>>) -> bool {
    let r = t.range_end_offset as int;
    &&& t.range_start_offset == 0
    &&& r <= 0x4000_0000_0000_0000
    &&& tree_ok(t.root_node, t.pattern_type, l, 2 * r as nat)
    &&& forall|j: int| 0 <= j < l.len() && (#[trigger] l[j]).pattern_type == t.pattern_type ==> covered(t, *l[j])
    &&& r > 0 ==> skip_ok(t.skip_table, l, t.pattern_type)
    &&& t.skip_table.smallest_pattern_size <= 0x4000_0000_0000_0000
}
spec fn covered(t: ScanTree, s: Signature) -> bool {
    let r = t.range_end_offset as int;
    sig_ok(s) && s.pattern_offset + s.pattern_size <= r && cov(t.root_node, s, r, 2 * r as nat)
}
@@file keramics-sigscan/src/scanner.rs
@@item Scanner
@@raw
spec fn scanner_wf(s: Scanner) -> bool {
    &&& s.header_scan_tree.pattern_type == PatternType::BoundToStart
    &&& s.footer_scan_tree.pattern_type == PatternType::BoundToEnd
    &&& s.unbound_scan_tree.pattern_type == PatternType::Unbound
    &&& tree_wf(s.header_scan_tree, s.signatures@)
    &&& tree_wf(s.footer_scan_tree, s.signatures@)
    &&& tree_wf(s.unbound_scan_tree, s.signatures@)
}
