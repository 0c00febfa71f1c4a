@@include sigscan.vx
@@file keramics-sigscan/src/signature.rs
@@fn Signature::new
    ensures r.pattern_type == pattern_type, r.pattern_offset == pattern_offset, r.pattern@ == pattern@, r.pattern_size == pattern@.len(), r.identifier@ == identifier@,
@@fn Signature::scan_buffer
    requires sig_ok(*self), buffer_size == buffer@.len(), buffer_offset <= buffer_size,
    ensures r == found_at(*self, data_offset as int, data_size as int, buffer@, buffer_offset as int),
@@at start
proof { kx_slice_len(buffer); }
@@file keramics-sigscan/src/scan_result.rs
@@item ScanResult
@@raw
enum Step { None, Node(ScanTreeNode), Sig(Arc<Signature>) }
spec fn lookup(n: ScanTreeNode, k: i16) -> Option<ScanObject> {
    if n.scan_objects@.contains_key(k) { Some(n.scan_objects@[k]) } else { None }
}
// what a node yields for the data at a buffer offset
spec fn step(n: ScanTreeNode, d: int, size: int, b: Seq<u8>, o: int) -> Step {
    let q = o + n.pattern_offset;
    let inside = d < size && q < b.len() && q < size - d;
    let x = if inside { lookup(n, b[q] as i16) } else { None };
    if d >= size { Step::None }
    else {
        match x {
            Some(ScanObject::ScanTreeNode(m)) => Step::Node(m),
            Some(ScanObject::Signature(s)) => if found_at(*s, d, size, b, o) { Step::Sig(s) } else { fallback(n, d, size, b, o) },
            None => fallback(n, d, size, b, o),
        }
    }
}
spec fn fallback(n: ScanTreeNode, d: int, size: int, b: Seq<u8>, o: int) -> Step {
    match lookup(n, -1i16) {
        Some(ScanObject::ScanTreeNode(m)) => Step::Node(m),
        Some(ScanObject::Signature(s)) => if found_at(*s, d, size, b, o) { Step::Sig(s) } else { Step::None },
        None => Step::None,
    }
}
spec fn step_is(r: ScanResult, s: Step) -> bool {
    match r {
        ScanResult::None => s is None,
        ScanResult::ScanTreeNode(m) => s == Step::Node(*m),
        ScanResult::Signature(x) => s == Step::Sig(x),
    }
}
// a signature aligned with the tree
spec fn aligned(s: Signature, r: int, d: int, size: int, o: int) -> bool {
    place(s, size, d, o) - d == o + toff(s, r)
}
proof fn lemma_step(n: ScanTreeNode, t: PatternType, l: Seq<Arc<Signature>>, h: nat, d: int, size: int, b: Seq<u8>, o: int)
    requires tree_ok(n, t, l, h),
    ensures match step(n, d, size, b, o) {
        Step::None => true,
        Step::Node(m) => h > 0 && tree_ok(m, t, l, (h - 1) as nat),
        Step::Sig(x) => l.contains(x) && x.pattern_type == t && sig_ok(*x) && found_at(*x, d, size, b, o),
    },
{
    reveal_with_fuel(tree_ok, 2);
    reveal_with_fuel(tree_obj_ok, 2);
}
proof fn lemma_same(a: Signature, b: Signature, d: int, size: int, buf: Seq<u8>, o: int)
    requires same(a, b),
    ensures found_at(a, d, size, buf, o) == found_at(b, d, size, buf, o),
{}
// a match is not missed: the node yields it, another match, or a node that covers it
proof fn lemma_cov(n: ScanTreeNode, s: Signature, r: int, h: nat, d: int, size: int, b: Seq<u8>, o: int)
    requires cov(n, s, r, h), aligned(s, r, d, size, o), found_at(s, d, size, b, o), s.pattern@.len() > 0, 0 <= o,
    ensures match step(n, d, size, b, o) {
        Step::None => false,
        Step::Node(m) => h > 0 && cov(m, s, r, (h - 1) as nat),
        Step::Sig(x) => found_at(x_of(x), d, size, b, o),
    },
{
    let p = place(s, size, d, o);
    let q = n.pattern_offset as int;
    let sub = b.subrange(p - d, p - d + s.pattern@.len());
    if has(s, r, q) {
        assert(s.pattern@[q - toff(s, r)] == sub[q - toff(s, r)]);
        assert(b[o + q] == byte(s, r, q));
    }
    assert forall|y: Signature| same(y, s) implies #[trigger] found_at(y, d, size, b, o) by { lemma_same(y, s, d, size, b, o); }
}
spec fn x_of(x: Arc<Signature>) -> Signature { *x }
@@file keramics-sigscan/src/scan_tree.rs
@@fn ScanTreeNode::scan_buffer
    requires
        buffer_size == buffer@.len(), buffer_offset <= buffer_size,
        exists|t: PatternType, l: Seq<Arc<Signature>>, h: nat| tree_ok(*self, t, l, h),
    ensures step_is(r, step(*self, data_offset as int, data_size as int, buffer@, buffer_offset as int)),
@@at start
proof { kx_slice_len(buffer); }
let ghost th = choose|t: PatternType, l: Seq<Arc<Signature>>, h: nat| tree_ok(*self, t, l, h);
proof { assert(tree_ok(*self, th.0, th.1, th.2)); }
@@file keramics-sigscan/src/skip_table.rs
@@fn SkipTable::get_skip_value
    ensures r == (if self.skip_values@.contains_key(*byte_value) { self.skip_values@[*byte_value] } else { 0 }),
@@file keramics-sigscan/src/scan_context.rs
@@item ScanContext
@@raw
type Sigs = Seq<Arc<Signature>>;
type Found = Map<u64, SignatureReference>;
spec fn in_l(x: Arc<Signature>, l: Sigs) -> bool { l.contains(x) }
// an entry that a scan of the buffer b (from data offset d, data of size n) may add
spec fn genuine(k: u64, x: Arc<Signature>, l: Sigs, d: int, n: int, b: Seq<u8>) -> bool {
    in_l(x, l) && sig_ok(*x) && exists|o: int| 0 <= o < b.len() && #[trigger] found_at(*x, d, n, b, o) && k == place(*x, n, d, o)
}
spec fn sound(old: Found, new: Found, l: Sigs, d: int, n: int, b: Seq<u8>) -> bool {
    &&& forall|k: u64| #[trigger] old.contains_key(k) ==> new.contains_key(k)
    &&& forall|k: u64| #[trigger] new.contains_key(k) ==> (old.contains_key(k) && new[k] == old[k]) || genuine(k, new[k], l, d, n, b)
}
// p lies in an entry for an unbound signature at or before p
spec fn hit(new: Found, d: int, n: int, b: Seq<u8>, p: int) -> bool {
    exists|q: int| #[trigger] hit_at(new, d, n, b, q, p)
}
spec fn hit_at(new: Found, d: int, n: int, b: Seq<u8>, q: int, p: int) -> bool {
    0 <= q <= p && d + q <= u64::MAX && new.contains_key((d + q) as u64) && ({
        let x = *new[(d + q) as u64];
        x.pattern_type == PatternType::Unbound && p < q + x.pattern@.len() && found_at(x, d, n, b, q)
    })
}
proof fn lemma_sound_step(old: Found, mid: Found, k: u64, x: Arc<Signature>, l: Sigs, d: int, n: int, b: Seq<u8>, o: int)
    requires sound(old, mid, l, d, n, b), in_l(x, l), sig_ok(*x), 0 <= o < b.len(), found_at(*x, d, n, b, o), k == place(*x, n, d, o),
    ensures sound(old, mid.insert(k, x), l, d, n, b),
{
    assert(genuine(k, x, l, d, n, b));
}
@@raw
spec fn reported(m: Found, l: Sigs, t: PatternType, d: int, n: int, b: Seq<u8>) -> bool {
    exists|x: Arc<Signature>, o: int| in_l(x, l) && x.pattern_type == t && #[trigger] found_at(*x, d, n, b, o) && m.contains_key(place(*x, n, d, o) as u64)
}
@@raw
spec fn of_type(l: Sigs, j: int, t: PatternType) -> bool { 0 <= j < l.len() && l[j].pattern_type == t }
// the matches at the current offset that the tree still has to yield
spec fn pending(node: ScanTreeNode, t: PatternType, r: int, l: Sigs, h: nat, d: int, n: int, b: Seq<u8>, o: int) -> bool {
    forall|j: int| #[trigger] of_type(l, j, t) && aligned(*l[j], r, d, n, o) && found_at(*l[j], d, n, b, o) ==> cov(node, *l[j], r, h)
}
spec fn bound_done(m: Found, t: PatternType, r: int, l: Sigs, d: int, n: int, b: Seq<u8>, o: int) -> bool {
    forall|j: int| #[trigger] of_type(l, j, t) && aligned(*l[j], r, d, n, o) && found_at(*l[j], d, n, b, o) ==> reported(m, l, t, d, n, b)
}
spec fn unbound_done(m: Found, t: PatternType, l: Sigs, d: int, n: int, b: Seq<u8>, o0: int, o: int) -> bool {
    forall|j: int, p: int| #[trigger] of_type(l, j, t) && o0 <= p < o && #[trigger] found_at(*l[j], d, n, b, p) ==> hit(m, d, n, b, p)
}
spec fn skip_for(k: SkipTable, x: u8) -> int {
    let v = if k.skip_values@.contains_key(x) { k.skip_values@[x] as int } else { 0 };
    if v == 0 { k.smallest_skip_value as int } else { v }
}
proof fn lemma_skip(k: SkipTable, l: Sigs, t: PatternType, d: int, n: int, b: Seq<u8>, o: int, e: int)
    requires
        skip_ok(k, l, t), t == PatternType::Unbound, 0 <= o < b.len(),
        e == kx_min(o + k.smallest_pattern_size, b.len() as int) - 1,
    ensures
        skip_for(k, b[e]) >= 1,
        forall|j: int, p: int| #[trigger] of_type(l, j, t) && o < p < o + skip_for(k, b[e]) ==> !#[trigger] found_at(*l[j], d, n, b, p),
{
    let m = k.smallest_pattern_size as int;
    assert forall|j: int, p: int| #[trigger] of_type(l, j, t) && o < p < o + skip_for(k, b[e]) implies !#[trigger] found_at(*l[j], d, n, b, p) by {
        let s = *l[j];
        assert(skip_sig(k, s, m));
        if found_at(s, d, n, b, p) {
            let i = m - 1 - (p - o);
            let sub = b.subrange(p, p + s.pattern@.len());
            assert(o + m <= b.len());
            assert(i >= 0);
            assert(sub[i] == b[e]);
            assert(s.pattern@[i] == b[e]);
        }
    }
}
// extending the results keeps what was found, in one tree
proof fn lemma_hit_insert(m: Found, k: u64, x: Arc<Signature>, t: PatternType, l: Sigs, d: int, n: int, b: Seq<u8>, o0: int, o: int, sz: int)
    requires
        unbound_done(m, t, l, d, n, b, o0, o), t == PatternType::Unbound, k == d + o, 0 <= o0 <= o, 0 <= d, d + o <= u64::MAX,
        x.pattern_type == t, x.pattern@.len() == sz, found_at(*x, d, n, b, o),
    ensures unbound_done(m.insert(k, x), t, l, d, n, b, o0, o + sz),
{
    let m2 = m.insert(k, x);
    assert forall|j: int, p: int| #[trigger] of_type(l, j, t) && o0 <= p < o + sz && #[trigger] found_at(*l[j], d, n, b, p) implies hit(m2, d, n, b, p) by {
        if p < o {
            let q = choose|q: int| #[trigger] hit_at(m, d, n, b, q, p);
            assert(hit_at(m, d, n, b, q, p));
            assert(hit_at(m2, d, n, b, q, p));
        } else {
            assert(hit_at(m2, d, n, b, o, p));
        }
    }
}
proof fn lemma_root(t: ScanTree, l: Sigs, d: int, n: int, b: Seq<u8>, o: int)
    requires tree_wf(t, l),
    ensures
        pending(t.root_node, t.pattern_type, t.range_end_offset as int, l, (2 * t.range_end_offset) as nat, d, n, b, o),
        tree_ok(t.root_node, t.pattern_type, l, (2 * t.range_end_offset) as nat),
{
    assert forall|j: int| #[trigger] of_type(l, j, t.pattern_type) implies cov(t.root_node, *l[j], t.range_end_offset as int, (2 * t.range_end_offset) as nat) by {
        assert(covered(t, *l[j]));
    }
}
// an aligned signature starts at or after the offset
proof fn lemma_end(t: ScanTree, l: Sigs, d: int, n: int, b: Seq<u8>, o: int)
    requires tree_wf(t, l), o >= b.len(),
    ensures forall|j: int| #[trigger] of_type(l, j, t.pattern_type) && aligned(*l[j], t.range_end_offset as int, d, n, o) ==> !found_at(*l[j], d, n, b, o),
{
    assert forall|j: int| #[trigger] of_type(l, j, t.pattern_type) && aligned(*l[j], t.range_end_offset as int, d, n, o) implies !found_at(*l[j], d, n, b, o) by {
        assert(covered(t, *l[j]));
    }
}
proof fn lemma_pending(t: ScanTree, node: ScanTreeNode, l: Sigs, h: nat, d: int, n: int, b: Seq<u8>, o: int)
    requires
        tree_wf(t, l), tree_ok(node, t.pattern_type, l, h), pending(node, t.pattern_type, t.range_end_offset as int, l, h, d, n, b, o), 0 <= o,
    ensures match step(node, d, n, b, o) {
        Step::None => forall|j: int| #[trigger] of_type(l, j, t.pattern_type) && aligned(*l[j], t.range_end_offset as int, d, n, o) ==> !found_at(*l[j], d, n, b, o),
        Step::Node(m) => h > 0 && tree_ok(m, t.pattern_type, l, (h - 1) as nat) && pending(m, t.pattern_type, t.range_end_offset as int, l, (h - 1) as nat, d, n, b, o),
        Step::Sig(x) => l.contains(x) && x.pattern_type == t.pattern_type && sig_ok(*x) && found_at(*x, d, n, b, o),
    },
{
    let r = t.range_end_offset as int;
    lemma_step(node, t.pattern_type, l, h, d, n, b, o);
    assert forall|j: int| #[trigger] of_type(l, j, t.pattern_type) && aligned(*l[j], r, d, n, o) && found_at(*l[j], d, n, b, o)
        implies match step(node, d, n, b, o) {
            Step::None => false,
            Step::Node(m) => h > 0 && cov(m, *l[j], r, (h - 1) as nat),
            Step::Sig(x) => true,
        } by {
        assert(covered(t, *l[j]));
        lemma_cov(node, *l[j], r, h, d, n, b, o);
    }
}
@@fn ScanContext::scan_buffer_with_scan_tree
    requires
        tree_wf(*scan_tree, old(self).scanner.signatures@),
        buffer_size == buffer@.len(), buffer_offset <= buffer_size, buffer_size > 0,
        old(self).data_offset + buffer_size <= u64::MAX,
        scan_tree.pattern_type == PatternType::Unbound ==> scan_tree.range_end_offset > 0,
    ensures
        final(self).scanner == old(self).scanner, final(self).data_offset == old(self).data_offset, final(self).data_size == old(self).data_size,
        final(self).header_range_size == old(self).header_range_size, final(self).footer_range_size == old(self).footer_range_size,
        final(self).unbound_range_size == old(self).unbound_range_size,
        sound(old(self).results@, final(self).results@, old(self).scanner.signatures@, old(self).data_offset as int, old(self).data_size as int, buffer@),
        // bound: an aligned match is not missed
        scan_tree.pattern_type != PatternType::Unbound ==> bound_done(final(self).results@, scan_tree.pattern_type, scan_tree.range_end_offset as int,
            old(self).scanner.signatures@, old(self).data_offset as int, old(self).data_size as int, buffer@, buffer_offset as int),
        // unbound: no occurrence is missed, unless it overlaps one found before
        scan_tree.pattern_type == PatternType::Unbound ==> unbound_done(final(self).results@, scan_tree.pattern_type,
            old(self).scanner.signatures@, old(self).data_offset as int, old(self).data_size as int, buffer@, buffer_offset as int, buffer@.len() as int),
@@isolate
@@at start
let ghost o0 = buffer_offset as int;
let ghost d = self.data_offset as int;
let ghost n = self.data_size as int;
let ghost l = self.scanner.signatures@;
let ghost rr = scan_tree.range_end_offset as int;
let ghost ty = scan_tree.pattern_type;
let ghost mut h: nat = (2 * scan_tree.range_end_offset) as nat;
proof { kx_slice_len(buffer); lemma_root(*scan_tree, l, d, n, buffer@, o0); }
@@loop 0
invariant
    self.scanner == old(self).scanner, self.data_offset == old(self).data_offset, self.data_size == old(self).data_size,
    self.header_range_size == old(self).header_range_size, self.footer_range_size == old(self).footer_range_size,
    self.unbound_range_size == old(self).unbound_range_size,
    d == old(self).data_offset, n == old(self).data_size, l == old(self).scanner.signatures@, rr == scan_tree.range_end_offset, ty == scan_tree.pattern_type,
    tree_wf(*scan_tree, l), buffer_size == buffer@.len(), buffer_size > 0, buffer_size <= isize::MAX, buffer_end_offset == buffer_size - 1,
    d + buffer_size <= u64::MAX,
    ty == PatternType::Unbound ==> rr > 0,
    0 <= o0 <= buffer_offset,
    sound(old(self).results@, self.results@, l, d, n, buffer@),
    ty == PatternType::Unbound ==> unbound_done(self.results@, ty, l, d, n, buffer@, o0, buffer_offset as int),
invariant_except_break
    tree_ok(*scan_tree_node, ty, l, h),
    pending(*scan_tree_node, ty, rr, l, h, d, n, buffer@, buffer_offset as int),
    ty != PatternType::Unbound ==> buffer_offset == o0,
    ty != PatternType::Unbound && o0 >= buffer_size ==> bound_done(self.results@, ty, rr, l, d, n, buffer@, o0),
ensures
    ty == PatternType::Unbound ==> buffer_offset >= buffer_size,
    ty != PatternType::Unbound ==> bound_done(self.results@, ty, rr, l, d, n, buffer@, o0),
decreases (if buffer_offset < buffer_size { buffer_size - buffer_offset } else { 0 }), h,
@@at let:scan_result before
let ghost node0 = *scan_tree_node;
let ghost res0 = self.results@;
@@at let:scan_result after
proof {
    lemma_pending(*scan_tree, node0, l, h, d, n, buffer@, buffer_offset as int);
    lemma_root(*scan_tree, l, d, n, buffer@, 0);
    if scan_result is ScanTreeNode { h = (h - 1) as nat; }
}
@@at let:pattern_offset after
proof {
    lemma_sound_step(old(self).results@, res0, pattern_offset, signature, l, d, n, buffer@, buffer_offset as int);
    if ty == PatternType::Unbound {
        lemma_hit_insert(res0, pattern_offset, signature, ty, l, d, n, buffer@, o0, buffer_offset as int, signature.pattern_size as int);
    } else {
        assert(reported(res0.insert(pattern_offset, signature), l, ty, d, n, buffer@)) by {
            assert(in_l(signature, l) && found_at(*signature, d, n, buffer@, buffer_offset as int));
        }
    }
}
@@at let:skip_value_offset after
let ghost e0 = skip_value_offset as int;
@@loop 1
invariant
    buffer_size == buffer@.len(), buffer_offset < buffer_size, skip_value_offset < buffer_size, ty == scan_tree.pattern_type,
    ty == PatternType::Unbound ==> skip_ok(scan_tree.skip_table, l, ty),
    0 <= e0 < buffer_size,
invariant_except_break
    ty == PatternType::Unbound ==> skip_value_offset == e0,
ensures
    ty == PatternType::Unbound ==> skip_value == skip_for(scan_tree.skip_table, buffer@[e0]),
decreases skip_value_offset,
@@at loop 1 after
proof {
    if ty == PatternType::Unbound {
        lemma_skip(scan_tree.skip_table, l, ty, d, n, buffer@, buffer_offset as int, e0);
        assert forall|j: int, p: int| #[trigger] of_type(l, j, ty) && o0 <= p < buffer_offset + skip_value && #[trigger] found_at(*l[j], d, n, buffer@, p)
            implies hit(self.results@, d, n, buffer@, p) by {
            assert(aligned(*l[j], rr, d, n, buffer_offset as int));
        }
        assert(unbound_done(self.results@, ty, l, d, n, buffer@, o0, buffer_offset + skip_value));
    }
}
@@at loop 0 end
proof {
    h = (2 * scan_tree.range_end_offset) as nat;
    lemma_root(*scan_tree, l, d, n, buffer@, buffer_offset as int);
}
@@at loop 0 before
proof { if o0 >= buffer@.len() { lemma_end(*scan_tree, l, d, n, buffer@, o0); } }
@@file keramics-sigscan/src/scan_tree.rs
@@fn ScanTree::get_spanning_range
    ensures r.0 == self.range_start_offset, r.1 == self.range_end_offset,
@@file keramics-sigscan/src/scan_context.rs
@@raw
spec fn context_wf(c: ScanContext) -> bool {
    &&& scanner_wf(*c.scanner)
    &&& c.header_range_size == c.scanner.header_scan_tree.range_end_offset
    &&& c.footer_range_size == c.scanner.footer_scan_tree.range_end_offset
    &&& c.unbound_range_size == c.scanner.unbound_scan_tree.range_end_offset
}
spec fn footer_start(c: ScanContext) -> int {
    if c.footer_range_size <= c.data_size { c.data_size - c.footer_range_size } else { 0 }
}
// a signature of type t that is at its place in the data is not missed
spec fn not_missed(new: Found, t: PatternType, l: Sigs, d: int, n: int, b: Seq<u8>) -> bool {
    forall|j: int| #[trigger] of_type(l, j, t) && found_at(*l[j], d, n, b, 0) ==> reported(new, l, t, d, n, b)
}
proof fn lemma_aligned_header(t: ScanTree, l: Sigs, m: Found, n: int, b: Seq<u8>)
    requires
        tree_wf(t, l), t.pattern_type == PatternType::BoundToStart,
        t.range_end_offset > 0 ==> bound_done(m, PatternType::BoundToStart, t.range_end_offset as int, l, 0, n, b, 0),
    ensures not_missed(m, PatternType::BoundToStart, l, 0, n, b),
{
    assert forall|j: int| #[trigger] of_type(l, j, t.pattern_type) && found_at(*l[j], 0, n, b, 0) implies reported(m, l, t.pattern_type, 0, n, b) by {
        assert(covered(t, *l[j]));
        assert(aligned(*l[j], t.range_end_offset as int, 0, n, 0));
    }
}
proof fn lemma_aligned_footer(t: ScanTree, l: Sigs, m: Found, d: int, n: int, b: Seq<u8>, o: int)
    requires
        tree_wf(t, l), t.pattern_type == PatternType::BoundToEnd, d + o == n - t.range_end_offset,
        bound_done(m, PatternType::BoundToEnd, t.range_end_offset as int, l, d, n, b, o),
    ensures not_missed(m, PatternType::BoundToEnd, l, d, n, b),
{
    assert forall|j: int| #[trigger] of_type(l, j, t.pattern_type) && found_at(*l[j], d, n, b, 0) implies reported(m, l, t.pattern_type, d, n, b) by {
        assert(covered(t, *l[j]));
        assert(aligned(*l[j], t.range_end_offset as int, d, n, o));
        assert(found_at(*l[j], d, n, b, o));
    }
}
// the buffer ends before the footer range
proof fn lemma_no_footer(t: ScanTree, l: Sigs, m: Found, d: int, n: int, b: Seq<u8>)
    requires tree_wf(t, l), t.pattern_type == PatternType::BoundToEnd, d + b.len() < n - t.range_end_offset,
    ensures not_missed(m, PatternType::BoundToEnd, l, d, n, b),
{
    assert forall|j: int| #[trigger] of_type(l, j, t.pattern_type) && found_at(*l[j], d, n, b, 0) implies reported(m, l, t.pattern_type, d, n, b) by {
        assert(covered(t, *l[j]));
    }
}
proof fn lemma_reported_grows(m: Found, m2: Found, t: PatternType, l: Sigs, d: int, n: int, b: Seq<u8>)
    requires not_missed(m, t, l, d, n, b), forall|k: u64| #[trigger] m.contains_key(k) ==> m2.contains_key(k),
    ensures not_missed(m2, t, l, d, n, b),
{
    assert forall|j: int| #[trigger] of_type(l, j, t) && found_at(*l[j], d, n, b, 0) implies reported(m2, l, t, d, n, b) by {
        assert(reported(m, l, t, d, n, b));
        let (x, o) = choose|x: Arc<Signature>, o: int| in_l(x, l) && x.pattern_type == t && #[trigger] found_at(*x, d, n, b, o) && m.contains_key(place(*x, n, d, o) as u64);
        assert(found_at(*x, d, n, b, o) && m2.contains_key(place(*x, n, d, o) as u64));
    }
}
proof fn lemma_sound_trans(a: Found, m: Found, c: Found, l: Sigs, d: int, n: int, b: Seq<u8>)
    requires sound(a, m, l, d, n, b), sound(m, c, l, d, n, b),
    ensures sound(a, c, l, d, n, b),
{}
@@fn ScanContext::new
    requires scanner_wf(*scanner),
    ensures r.scanner == scanner, r.data_offset == 0, r.data_size == data_size, r.results@ == Map::<u64, SignatureReference>::empty(), context_wf(r),
@@fn ScanContext::scan_buffer
    requires context_wf(*old(self)), old(self).data_offset + buffer@.len() <= u64::MAX,
    ensures
        context_wf(*final(self)), final(self).scanner == old(self).scanner, final(self).data_size == old(self).data_size,
        final(self).data_offset == old(self).data_offset + buffer@.len(),
        // every reported signature is one of the scanner and is in the data at the reported offset
        sound(old(self).results@, final(self).results@, old(self).scanner.signatures@, old(self).data_offset as int, old(self).data_size as int, buffer@),
        // a header signature in the first buffer is not missed
        old(self).data_offset == 0 ==> not_missed(final(self).results@, PatternType::BoundToStart, old(self).scanner.signatures@, 0, old(self).data_size as int, buffer@),
        // a footer signature in a buffer that starts before the footer range is not missed
        old(self).footer_range_size <= old(self).data_size && old(self).data_offset <= footer_start(*old(self)) ==>
            not_missed(final(self).results@, PatternType::BoundToEnd, old(self).scanner.signatures@, old(self).data_offset as int, old(self).data_size as int, buffer@),
        // no occurrence of an unbound signature in the buffer is missed, unless it overlaps another one
        unbound_done(final(self).results@, PatternType::Unbound, old(self).scanner.signatures@, old(self).data_offset as int, old(self).data_size as int, buffer@, 0, buffer@.len() as int),
@@at start
let ghost d = self.data_offset as int;
let ghost n = self.data_size as int;
let ghost l = self.scanner.signatures@;
let ghost sc = *self.scanner;
let ghost res0 = self.results@;
