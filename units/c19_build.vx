@@include sigscan.vx
@@mapmethod get_mut .kx_get_mut
@@mapmethod contains .kx_contains
@@opt maps
@@raw
use std::hash::Hash;
broadcast proof fn lemma_push_has<T>(s: Seq<T>, x: T, y: T)
    ensures #[trigger] s.push(x).contains(y) <==> s.contains(y) || x == y,
{
    if s.contains(y) {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == y;
        assert(s.push(x)[i] == y);
    }
    if x == y { assert(s.push(x)[s.len() as int] == y); }
}
spec fn entries_of<K, V>(r: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.contains_key(*(#[trigger] r[i]).0) && m[*r[i].0] == *r[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < r.len() && *(#[trigger] r[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> *(#[trigger] r[i]).0 != *(#[trigger] r[j]).0
}
// maps of the standard library: an entry to change, the entries in some order
trait KxMap<K, V> {
    spec fn kx_map(&self) -> Map<K, V>;
    fn kx_get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures match r {
            Some(v) => old(self).kx_map().contains_key(*k) && *v == old(self).kx_map()[*k] && final(self).kx_map() == old(self).kx_map().insert(*k, *final(v)),
            None => !old(self).kx_map().contains_key(*k) && final(self).kx_map() == old(self).kx_map(),
        };
    fn kx_entries<'a>(&'a self) -> (r: Vec<(&'a K, &'a V)>) ensures entries_of(r@, self.kx_map());
}
impl<K: Eq + Hash, V> KxMap<K, V> for HashMap<K, V> {
    spec fn kx_map(&self) -> Map<K, V> { self@ }
    #[verifier::external_body]
    fn kx_get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>) { self.get_mut(k) }
    #[verifier::external_body]
    fn kx_entries<'a>(&'a self) -> (r: Vec<(&'a K, &'a V)>) { self.iter().collect() }
}
impl<K: Ord, V> KxMap<K, V> for BTreeMap<K, V> {
    spec fn kx_map(&self) -> Map<K, V> { self@ }
    #[verifier::external_body]
    fn kx_get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>) { self.get_mut(k) }
    #[verifier::external_body]
    fn kx_entries<'a>(&'a self) -> (r: Vec<(&'a K, &'a V)>) { self.iter().collect() }
}
// Vec::contains: any element equal to the value
trait KxContains<T> {
    spec fn kx_has(&self, x: T) -> bool;
    fn kx_contains(&self, x: &T) -> (r: bool) ensures r == self.kx_has(*x);
}
impl KxContains<usize> for Vec<usize> {
    spec fn kx_has(&self, x: usize) -> bool { self@.contains(x) }
    fn kx_contains(&self, x: &usize) -> (r: bool) {
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), forall|j: int| 0 <= j < i ==> self@[j] != *x,
            decreases self@.len() - i,
        {
            if self[i] == *x { return true; }
            i = i + 1;
        }
        false
    }
}
impl KxContains<Arc<Signature>> for Vec<Arc<Signature>> {
    spec fn kx_has(&self, x: Arc<Signature>) -> bool { exists|i: int| 0 <= i < self@.len() && same(*#[trigger] self@[i], *x) }
    fn kx_contains(&self, x: &Arc<Signature>) -> (r: bool) {
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), forall|j: int| 0 <= j < i ==> !same(*#[trigger] self@[j], **x),
            decreases self@.len() - i,
        {
            if self[i].eq(x) { return true; }
            i = i + 1;
        }
        false
    }
}
@@file keramics-sigscan/src/errors.rs
@@item BuildError
@@fn BuildError::new
@@file keramics-sigscan/src/signature.rs
@@fn Signature::eq
    ensures r == same(*self, *other),
@@at start
broadcast use vstd::laws_eq::group_laws_eq;
proof {
    if self.pattern@ =~= other.pattern@ {}
    assert(self.pattern@.len() == other.pattern@.len() && (forall|i: int| 0 <= i < self.pattern@.len() ==> #[trigger] self.pattern@[i] == other.pattern@[i]) ==> self.pattern@ =~= other.pattern@);
}
@@file keramics-sigscan/src/groups.rs
@@item SignatureGroup
@@fn SignatureGroup::new
    ensures r.byte_value == byte_value, r.signatures@.len() == 0,
@@fn SignatureGroup::append_signature
    ensures final(self).byte_value == old(self).byte_value, final(self).signatures@ == old(self).signatures@.push(*signature),
@@item ByteValueGroup
@@fn ByteValueGroup::new
    ensures r.pattern_offset == pattern_offset, r.signature_groups@ == Map::<u8, SignatureGroup>::empty(),
@@raw
type SMap = Map<u8, SignatureGroup>;
type BMap = Map<usize, ByteValueGroup>;
// x is recorded for the byte value v
spec fn in_group(g: SMap, v: u8, x: Arc<Signature>) -> bool { g.contains_key(v) && g[v].signatures@.contains(x) }
spec fn group_ok(g: ByteValueGroup) -> bool {
    forall|v: u8| #[trigger] g.signature_groups@.contains_key(v) ==> g.signature_groups@[v].byte_value == v && g.signature_groups@[v].signatures@.len() > 0
}
spec fn some_key(g: SMap) -> bool { exists|v: u8| #[trigger] g.contains_key(v) }
// x is recorded for the byte value v at the offset q
spec fn recorded(m: BMap, q: usize, v: u8, x: Arc<Signature>) -> bool { m.contains_key(q) && in_group(m[q].signature_groups@, v, x) }
spec fn groups_ok(m: BMap) -> bool {
    forall|q: usize| #[trigger] m.contains_key(q) ==> m[q].pattern_offset == q && group_ok(m[q])
}
@@fn ByteValueGroup::insert_signature
    requires group_ok(*old(self)),
    ensures
        group_ok(*final(self)), some_key(final(self).signature_groups@), final(self).pattern_offset == old(self).pattern_offset,
        forall|v: u8, x: Arc<Signature>| #[trigger] in_group(final(self).signature_groups@, v, x)
            <==> in_group(old(self).signature_groups@, v, x) || (v == byte_value && x == *signature),
@@at start
broadcast use lemma_push_has;
@@at end
proof { assert(self.signature_groups@.contains_key(byte_value)); }
@@item OffsetGroup
@@fn OffsetGroup::new
    ensures r.offsets@.len() == 0,
@@fn OffsetGroup::append_offset
    ensures final(self).offsets@ == old(self).offsets@.push(pattern_offset),
@@file keramics-sigscan/src/pattern_weights.rs
@@item PatternWeights
@@raw
// every offset with a weight is one of the offsets of the groups m
spec fn weights_ok(w: PatternWeights, m: BMap) -> bool {
    forall|k: isize| #[trigger] w.offset_groups@.contains_key(k) ==> w.offset_groups@[k].offsets@.len() > 0
        && forall|i: int| 0 <= i < w.offset_groups@[k].offsets@.len() ==> m.contains_key(#[trigger] w.offset_groups@[k].offsets@[i])
}
@@fn PatternWeights::new
    ensures r.offset_groups@ == Map::<isize, OffsetGroup>::empty(), r.weights@ == Map::<usize, isize>::empty(), r.largest_weight == 0,
@@fn PatternWeights::append_weight
    ensures forall|m: BMap| weights_ok(*old(self), m) && m.contains_key(pattern_offset) ==> #[trigger] weights_ok(*final(self), m),
@@fn PatternWeights::get_weight
@@file keramics-sigscan/src/constants.rs
@@item SIGSCAN_COMMON_BYTE_VALUES
@@file keramics-sigscan/src/signature_table.rs
@@item SignatureTable
@@raw
type Sigs = Seq<Arc<Signature>>;
spec fn fits(s: Signature, t: PatternType, r: int) -> bool {
    s.pattern_type == t && sig_ok(s) && s.pattern_offset + s.pattern_size <= r
}
// x is to be recorded for the byte value v at the offset q
spec fn belongs(x: Arc<Signature>, i: Seq<usize>, r: int, q: usize, v: u8) -> bool {
    !i.contains(q) && has(*x, r, q as int) && byte(*x, r, q as int) == v
}
spec fn no_gap(m: BMap) -> bool { forall|q: usize| #[trigger] m.contains_key(q) ==> some_key(m[q].signature_groups@) }
spec fn smallest_ok(t: SignatureTable) -> bool {
    t.byte_value_groups@.len() > 0 ==> t.byte_value_groups@.contains_key(t.smallest_pattern_offset)
}
// the table holds the signatures of its list at all offsets that are not in i
spec fn table_ok(t: SignatureTable, i: Seq<usize>, r: int) -> bool {
    &&& forall|x: Arc<Signature>| #[trigger] t.signatures@.contains(x) ==> fits(*x, t.pattern_type, r)
    &&& groups_ok(t.byte_value_groups@) && no_gap(t.byte_value_groups@) && smallest_ok(t)
    &&& forall|q: usize, v: u8, x: Arc<Signature>| #[trigger] recorded(t.byte_value_groups@, q, v, x) <==> t.signatures@.contains(x) && belongs(x, i, r, q, v)
}
spec fn table_weights_ok(t: SignatureTable) -> bool {
    weights_ok(t.byte_value_weights, t.byte_value_groups@) && weights_ok(t.occurrence_weights, t.byte_value_groups@) && weights_ok(t.similarity_weights, t.byte_value_groups@)
}
spec fn no_weights(t: SignatureTable) -> bool {
    &&& t.byte_value_weights.offset_groups@ == Map::<isize, OffsetGroup>::empty()
    &&& t.occurrence_weights.offset_groups@ == Map::<isize, OffsetGroup>::empty()
    &&& t.similarity_weights.offset_groups@ == Map::<isize, OffsetGroup>::empty()
}
@@fn SignatureTable::new
    ensures r.pattern_type == *pattern_type, r.signatures@.len() == 0, r.byte_value_groups@ == Map::<usize, ByteValueGroup>::empty(), no_weights(r),
@@fn SignatureTable::insert_signature
    requires groups_ok(old(self).byte_value_groups@), no_gap(old(self).byte_value_groups@), smallest_ok(*old(self)),
    ensures
        groups_ok(final(self).byte_value_groups@), no_gap(final(self).byte_value_groups@), smallest_ok(*final(self)),
        final(self).pattern_type == old(self).pattern_type, final(self).signatures == old(self).signatures,
        final(self).byte_value_weights == old(self).byte_value_weights, final(self).occurrence_weights == old(self).occurrence_weights,
        final(self).similarity_weights == old(self).similarity_weights,
        forall|q: usize, v: u8, x: Arc<Signature>| #[trigger] recorded(final(self).byte_value_groups@, q, v, x)
            <==> recorded(old(self).byte_value_groups@, q, v, x) || (q == pattern_offset && v == byte_value && x == *signature),
@@fn SignatureTable::fill
    requires
        table_ok(*old(self), offsets_to_ignore@, largest_pattern_offset as int), no_weights(*old(self)),
        forall|x: Arc<Signature>| #[trigger] signatures@.contains(x) && x.pattern_type == old(self).pattern_type ==> fits(*x, x.pattern_type, largest_pattern_offset as int),
        largest_pattern_offset <= 0x4000_0000_0000_0000,
    ensures
        table_ok(*final(self), offsets_to_ignore@, largest_pattern_offset as int), no_weights(*final(self)), final(self).pattern_type == old(self).pattern_type,
        forall|x: Arc<Signature>| #[trigger] final(self).signatures@.contains(x) <==> old(self).signatures@.contains(x) || (signatures@.contains(x) && x.pattern_type == old(self).pattern_type),
@@at start
broadcast use lemma_push_has;
let ghost ty = self.pattern_type;
let ghost r = largest_pattern_offset as int;
let ghost ign = offsets_to_ignore@;
let ghost old_s = self.signatures@;
@@loop 0
    table_ok(*self, ign, r), no_weights(*self), self.pattern_type == ty,
    forall|x: Arc<Signature>| #[trigger] self.signatures@.contains(x) <==> old_s.contains(x) || (signatures@.take(it0 as int).contains(x) && x.pattern_type == ty),
@@at loop 0 begin
proof {
    assert(signatures@.take(it0 as int) =~= signatures@.take(it0 as int - 1).push(*signature));
    assert(signatures@.contains(*signature));
}
@@at loop 0 after
proof { assert(signatures@.take(it0 as int) =~= signatures@); }
@@at let:pattern_offset after
let ghost s0 = self.signatures@;
let ghost first = pattern_offset as int;
@@loop 1
    self.pattern_type == ty, no_weights(*self),
    first == toff(**signature, r), fits(**signature, ty, r), r == largest_pattern_offset, r <= 0x4000_0000_0000_0000,
    pattern_offset == first + it1, self.signatures@ == s0.push(*signature),
    groups_ok(self.byte_value_groups@), no_gap(self.byte_value_groups@), smallest_ok(*self),
    forall|q: usize, v: u8, x: Arc<Signature>| #[trigger] recorded(self.byte_value_groups@, q, v, x)
        <==> (s0.contains(x) && belongs(x, ign, r, q, v)) || (x == *signature && q < first + it1 && belongs(x, ign, r, q, v)),
@@raw
spec fn same_but_weights(a: SignatureTable, b: SignatureTable) -> bool {
    a.pattern_type == b.pattern_type && a.byte_value_groups == b.byte_value_groups && a.signatures == b.signatures && a.smallest_pattern_offset == b.smallest_pattern_offset
}
@@fn SignatureTable::calculate_pattern_weights
    requires groups_ok(old(self).byte_value_groups@), no_weights(*old(self)),
    ensures same_but_weights(*final(self), *old(self)), table_weights_ok(*final(self)),
@@loop 0
    same_but_weights(*self, *old(self)), table_weights_ok(*self), groups_ok(self.byte_value_groups@), entries_of(sl0@, self.byte_value_groups@),
@@loop 1
    same_but_weights(*self, *old(self)), table_weights_ok(*self), groups_ok(self.byte_value_groups@), self.byte_value_groups@.contains_key(byte_value_group.pattern_offset),
@@fn SignatureTable::get_pattern_offset_by_byte_value_weights
    requires table_weights_ok(*self),
    ensures r is Some ==> self.byte_value_groups@.contains_key(r->Some_0),
@@fn SignatureTable::get_pattern_offset_by_occurrence_weights
    requires table_weights_ok(*self),
    ensures r is Some ==> self.byte_value_groups@.contains_key(r->Some_0),
@@loop 0
    it0 > 0 ==> self.byte_value_groups@.contains_key(pattern_offset),
@@fn SignatureTable::get_pattern_offset_by_similarity_weights
    requires table_weights_ok(*self),
    ensures r is Some ==> self.byte_value_groups@.contains_key(r->Some_0),
@@loop 0
    it0 > 0 ==> self.byte_value_groups@.contains_key(pattern_offset),
@@fn SignatureTable::get_most_significant_pattern_offset
    requires table_weights_ok(*self), smallest_ok(*self),
    ensures r is Some ==> self.byte_value_groups@.contains_key(r->Some_0),
@@fn SignatureTable::get_signatures_by_pattern_offset
    ensures forall|x: Arc<Signature>| #[trigger] r@.contains(x) ==> exists|v: u8| recorded(self.byte_value_groups@, pattern_offset, v, x),
@@at start
broadcast use lemma_push_has;
@@loop 0
    entries_of(sl0@, byte_value_group.signature_groups@),
    self.byte_value_groups@.contains_key(pattern_offset), byte_value_group == self.byte_value_groups@[pattern_offset],
    forall|x: Arc<Signature>| #[trigger] signatures@.contains(x) ==> exists|v: u8| recorded(self.byte_value_groups@, pattern_offset, v, x),
@@at loop 0 begin
let ghost v0 = *sl0@[it0 as int - 1].0;
@@loop 1
    self.byte_value_groups@.contains_key(pattern_offset), byte_value_group == self.byte_value_groups@[pattern_offset],
    byte_value_group.signature_groups@.contains_key(v0), byte_value_group.signature_groups@[v0] == *signature_group,
    forall|x: Arc<Signature>| #[trigger] signatures@.contains(x) ==> exists|v: u8| recorded(self.byte_value_groups@, pattern_offset, v, x),
@@at loop 1 begin
proof { assert(recorded(self.byte_value_groups@, pattern_offset, v0, *signature)); }
@@file keramics-sigscan/src/skip_table.rs
@@fn SkipTable::new
    ensures r.smallest_pattern_size == 0, r.smallest_skip_value == 0, r.skip_values@ == Map::<u8, usize>::empty(),
@@file keramics-sigscan/src/scan_tree.rs
@@fn ScanTreeNode::new
    ensures r.pattern_offset == 0, r.scan_objects@ == Map::<i16, ScanObject>::empty(),
@@raw
spec fn ignored_ok(i: Seq<usize>, r: int) -> bool { i.no_duplicates() && forall|j: int| 0 <= j < i.len() ==> (#[trigger] i[j]) < 2 * r }
proof fn lemma_pigeon(i: Seq<usize>, r: int)
    requires ignored_ok(i, r), r >= 0,
    ensures i.len() <= 2 * r,
{
    let s = i.map_values(|x: usize| x as int);
    assert(s.no_duplicates());
    s.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, 2 * r);
    assert(s.to_set().subset_of(vstd::set_lib::set_int_range(0, 2 * r))) by {
        assert forall|x: int| #[trigger] s.to_set().contains(x) implies vstd::set_lib::set_int_range(0, 2 * r).contains(x) by {
            let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
            assert(i[j] < 2 * r);
        }
    }
    vstd::set_lib::lemma_len_subset(s.to_set(), vstd::set_lib::set_int_range(0, 2 * r));
}
spec fn tree_for(n: ScanTreeNode, t: PatternType, s: Sigs, r: int, d: nat) -> bool {
    tree_ok(n, t, s, d) && forall|x: Arc<Signature>| #[trigger] s.contains(x) ==> cov(n, *x, r, d)
}
proof fn lemma_tree_mono(n: ScanTreeNode, t: PatternType, a: Sigs, b: Sigs, d: nat)
    requires tree_ok(n, t, a, d), forall|x: Arc<Signature>| #[trigger] a.contains(x) ==> b.contains(x),
    ensures tree_ok(n, t, b, d),
    decreases d,
{
    assert forall|k: i16| #[trigger] n.scan_objects@.contains_key(k) implies tree_obj_ok(n.scan_objects@[k], t, b, d) by {
        assert(tree_obj_ok(n.scan_objects@[k], t, a, d));
        match n.scan_objects@[k] {
            ScanObject::Signature(_) => {},
            ScanObject::ScanTreeNode(m) => { lemma_tree_mono(m, t, a, b, (d - 1) as nat); },
        }
    }
}
// the object for a group of signatures g, when the signatures rem have no byte at the offset
spec fn obj_for(x: ScanObject, g: Sigs, rem: Sigs, t: PatternType, l: Sigs, r: int, d: nat) -> bool {
    &&& any_obj(x, rem, t, l, r, d)
    &&& forall|s: Arc<Signature>| #[trigger] g.contains(s) ==> cov_obj(x, *s, r, d)
}
spec fn any_obj(x: ScanObject, rem: Sigs, t: PatternType, l: Sigs, r: int, d: nat) -> bool {
    &&& tree_obj_ok(x, t, l, d)
    &&& x is ScanTreeNode ==> forall|s: Arc<Signature>| #[trigger] rem.contains(s) ==> cov_obj(x, *s, r, d)
}
proof fn lemma_obj_node(m: ScanTreeNode, sub: Sigs, g: Sigs, rem: Sigs, t: PatternType, l: Sigs, r: int, d: nat)
    requires
        d > 0, tree_for(m, t, sub, r, (d - 1) as nat),
        forall|x: Arc<Signature>| #[trigger] g.contains(x) ==> sub.contains(x),
        forall|x: Arc<Signature>| #[trigger] rem.contains(x) ==> sub.contains(x),
        forall|x: Arc<Signature>| #[trigger] sub.contains(x) ==> l.contains(x),
    ensures obj_for(ScanObject::ScanTreeNode(m), g, rem, t, l, r, d),
{
    lemma_tree_mono(m, t, sub, l, (d - 1) as nat);
}
proof fn lemma_obj_one(x: Arc<Signature>, g: Sigs, rem: Sigs, t: PatternType, l: Sigs, r: int, d: nat)
    requires g.len() == 1, x == g[0], l.contains(x), fits(*x, t, r),
    ensures obj_for(ScanObject::Signature(x), g, rem, t, l, r, d),
{
}
@@fn ScanTreeNode::build
    requires
        table_ok(*signature_table, offsets_to_ignore@, largest_pattern_offset as int), table_weights_ok(*signature_table),
        ignored_ok(offsets_to_ignore@, largest_pattern_offset as int), largest_pattern_offset <= 0x4000_0000_0000_0000,
        old(self).scan_objects@ == Map::<i16, ScanObject>::empty(),
    ensures
        r is Ok ==> tree_for(*final(self), signature_table.pattern_type, signature_table.signatures@, largest_pattern_offset as int,
            (2 * largest_pattern_offset - offsets_to_ignore@.len()) as nat),
    decreases 2 * largest_pattern_offset - offsets_to_ignore@.len(),
@@at start
broadcast use lemma_push_has;
let ghost ty = signature_table.pattern_type;
let ghost rr = largest_pattern_offset as int;
let ghost ign = offsets_to_ignore@;
let ghost l = signature_table.signatures@;
let ghost d = (2 * rr - ign.len()) as nat;
proof { lemma_pigeon(ign, rr); }
@@at let:signatures_in_node after
let ghost q = self.pattern_offset;
proof {
    let v = choose|v: u8| #[trigger] signature_table.byte_value_groups@[q].signature_groups@.contains_key(v);
    let g = signature_table.byte_value_groups@[q].signature_groups@;
    assert(g.contains_key(v));
    let y = g[v].signatures@[0];
    assert(g[v].signatures@.contains(y));
    assert(recorded(signature_table.byte_value_groups@, q, v, y));
    assert(q < 2 * rr && !ign.contains(q));
}
@@loop 0
    self.pattern_offset == q, self.scan_objects@ == Map::<i16, ScanObject>::empty(),
    forall|x: Arc<Signature>| #[trigger] remaining_signatures@.contains(x) ==> l.contains(x),
    forall|x: Arc<Signature>| #[trigger] l.take(it0 as int).contains(x) && !signatures_in_node.kx_has(x) ==> remaining_signatures@.contains(x),
@@at loop 0 begin
proof { assert(l.take(it0 as int) =~= l.take(it0 as int - 1).push(*signature)); assert(l.contains(*signature)); }
@@at loop 0 after
proof { assert(l.take(it0 as int) =~= l); }
@@at let:sub_offsets_to_ignore after
let ghost rem = remaining_signatures@;
let ghost g = signature_table.byte_value_groups@[q].signature_groups@;
let ghost sub_ign = ign.push(q);
proof { lemma_pigeon(sub_ign, rr); }
@@loop 1
    self.pattern_offset == q, entries_of(sl1@, g), sub_offsets_to_ignore@ == sub_ign,
    forall|k: i16| #[trigger] self.scan_objects@.contains_key(k) ==> 0 <= k < 256,
    forall|k: i16| #[trigger] self.scan_objects@.contains_key(k) ==> any_obj(self.scan_objects@[k], rem, ty, l, rr, d),
    forall|j: int| 0 <= j < it1 ==> self.scan_objects@.contains_key(*(#[trigger] sl1@[j]).0 as i16)
        && obj_for(self.scan_objects@[*sl1@[j].0 as i16], sl1@[j].1.signatures@, rem, ty, l, rr, d),
@@at loop 1 begin
let ghost v0 = *sl1@[it1 as int - 1].0;
proof {
    assert(g.contains_key(v0) && g[v0] == *signature_group);
    assert forall|x: Arc<Signature>| #[trigger] signature_group.signatures@.contains(x) implies l.contains(x) by {
        assert(recorded(signature_table.byte_value_groups@, q, v0, x));
    }
}
let ghost grp = signature_group.signatures@;
let ghost obj0 = self.scan_objects@;
@@at let:number_of_signatures after
proof {
    if grp.len() == 1 {
        assert(grp.contains(grp[0]));
        lemma_obj_one(grp[0], grp, rem, ty, l, rr, d);
    }
}
@@at let:number_of_remaining_signatures after
let ghost grp = rem;
let ghost obj0 = self.scan_objects@;
assert(forall|k: i16| #[trigger] obj0.contains_key(k) ==> 0 <= k < 256 && any_obj(obj0[k], rem, ty, l, rr, d));
assert forall|v: u8| #[trigger] g.contains_key(v) implies obj0.contains_key(v as i16) && obj_for(obj0[v as i16], g[v].signatures@, rem, ty, l, rr, d) by { }
proof {
    if grp.len() == 1 {
        assert(grp.contains(grp[0]));
        lemma_obj_one(grp[0], grp, rem, ty, l, rr, d);
    }
}
@@at call:build:* after
proof { lemma_obj_node(sub_node, sub_signature_table.signatures@, grp, rem, ty, l, rr, d); }
@@at end
proof {
    assert(self.scan_objects@ == obj0 || (exists|x: ScanObject| self.scan_objects@ == #[trigger] obj0.insert(-1i16, x) && obj_for(x, rem, rem, ty, l, rr, d)));
    assert forall|k: i16| #[trigger] self.scan_objects@.contains_key(k) implies tree_obj_ok(self.scan_objects@[k], ty, l, d) by {
        assert(any_obj(self.scan_objects@[k], rem, ty, l, rr, d));
    }
    assert(tree_ok(*self, ty, l, d));
    assert forall|x: Arc<Signature>| #[trigger] l.contains(x) implies cov(*self, *x, rr, d) by {
        if has(*x, rr, q as int) {
            let v = byte(*x, rr, q as int);
            assert(belongs(x, ign, rr, q, v));
            assert(recorded(signature_table.byte_value_groups@, q, v, x));
        } else {
            if signatures_in_node.kx_has(x) {
                let i = choose|i: int| 0 <= i < signatures_in_node@.len() && same(*#[trigger] signatures_in_node@[i], *x);
                let y = signatures_in_node@[i];
                assert(signatures_in_node@.contains(y));
                let v = choose|v: u8| recorded(signature_table.byte_value_groups@, q, v, y);
                assert(recorded(signature_table.byte_value_groups@, q, v, y));
                assert(has(*y, rr, q as int));
            }
            assert(rem.contains(x));
        }
    }
}
@@file keramics-sigscan/src/skip_table.rs
@@raw
spec fn fresh_skips(k: SkipTable) -> bool {
    k.smallest_pattern_size == 0 && k.smallest_skip_value == 0 && k.skip_values@ == Map::<u8, usize>::empty()
}
spec fn sigs_ok(l: Sigs) -> bool { forall|j: int| 0 <= j < l.len() ==> sig_ok(*#[trigger] l[j]) }
@@fn SkipTable::fill
    requires fresh_skips(*old(self)), sigs_ok(signatures@), signatures@.len() > 0,
    ensures
        forall|t: PatternType| #[trigger] skip_ok(*final(self), signatures@, t),
        final(self).smallest_pattern_size <= 0x4000_0000_0000_0000,
@@loop 0
    fresh_skips(*self) || it0 > 0, self.skip_values@ == Map::<u8, usize>::empty(), self.smallest_skip_value == 0,
    it0 > 0 ==> 0 < self.smallest_pattern_size <= 0x4000_0000_0000_0000,
    forall|j: int| 0 <= j < it0 ==> self.smallest_pattern_size <= (#[trigger] signatures@[j]).pattern@.len(),
@@at loop 0 begin
proof { assert(sig_ok(**signature)); }
@@at assign:self.smallest_skip_value:0 after
let ghost m = self.smallest_pattern_size as int;
@@loop 1
    m == self.smallest_pattern_size, 0 < m <= 0x4000_0000_0000_0000,
    forall|j: int| 0 <= j < signatures@.len() ==> m <= (#[trigger] signatures@[j]).pattern@.len(),
    it1 == 0 ==> self.skip_values@ == Map::<u8, usize>::empty() && self.smallest_skip_value == m,
    it1 > 0 ==> self.smallest_skip_value == 1,
    forall|b: u8| #[trigger] self.skip_values@.contains_key(b) ==> self.skip_values@[b] <= m,
    forall|j: int| 0 <= j < it1 ==> skip_sig(*self, *#[trigger] signatures@[j], m),
@@at let:skip_value after
let ghost i1 = it1 as int;
@@loop 2
    m == self.smallest_pattern_size, 0 < m <= 0x4000_0000_0000_0000, i1 == it1, sl2@.len() == m,
    forall|i: int| 0 <= i < m ==> #[trigger] sl2@[i] == signature.pattern@[i],
    skip_value == m - it2,
    forall|b: u8| #[trigger] self.skip_values@.contains_key(b) ==> self.skip_values@[b] <= m,
    i1 == 1 ==> self.smallest_skip_value == (if it2 == m { 1 } else { m - it2 }),
    i1 == 1 ==> forall|b: u8| #[trigger] self.skip_values@.contains_key(b) ==> self.skip_values@[b] >= m - it2,
    i1 > 1 ==> self.smallest_skip_value == 1,
    forall|j: int| 0 <= j < i1 - 1 ==> skip_sig(*self, *#[trigger] signatures@[j], m),
    forall|i: int| 0 <= i < it2 ==> self.skip_values@.contains_key(#[trigger] signature.pattern@[i]) && self.skip_values@[signature.pattern@[i]] <= m - 1 - i,
@@file keramics-sigscan/src/scan_tree.rs
@@fn ScanTree::new
    ensures fresh_tree(r), r.pattern_type == pattern_type,
@@raw
spec fn fresh_tree(t: ScanTree) -> bool {
    t.range_start_offset == 0 && t.range_end_offset == 0 && fresh_skips(t.skip_table) && t.root_node.scan_objects@ == Map::<i16, ScanObject>::empty() && t.root_node.pattern_offset == 0
}
@@fn ScanTree::build
    requires fresh_tree(*old(self)), sigs_ok(signatures@),
    ensures r is Ok ==> tree_wf(*final(self), signatures@) && final(self).pattern_type == old(self).pattern_type,
@@loop 0
    self.pattern_type == old(self).pattern_type, self.range_start_offset == 0, self.range_end_offset <= 0x4000_0000_0000_0000,
    self.root_node == old(self).root_node, self.skip_table == old(self).skip_table,
    forall|j: int| 0 <= j < it0 && (#[trigger] signatures@[j]).pattern_type == self.pattern_type ==> number_of_signatures > 0 && signatures@[j].pattern_offset + signatures@[j].pattern_size <= self.range_end_offset,
    number_of_signatures == 0 ==> self.range_end_offset == 0, number_of_signatures <= it0,
@@at loop 0 begin
proof { assert(sig_ok(**signature)); }
@@at call:build:* after
proof { lemma_tree_mono(self.root_node, self.pattern_type, signature_table.signatures@, signatures@, (2 * self.range_end_offset) as nat);
    assert forall|j: int| 0 <= j < signatures@.len() && (#[trigger] signatures@[j]).pattern_type == self.pattern_type
        implies cov(self.root_node, *signatures@[j], self.range_end_offset as int, (2 * self.range_end_offset) as nat) by {
        assert(signatures@.contains(signatures@[j]));
        assert(signature_table.signatures@.contains(signatures@[j]));
    }
}
@@at end
proof {
    assert forall|j: int| 0 <= j < signatures@.len() && (#[trigger] signatures@[j]).pattern_type == self.pattern_type implies covered(*self, *signatures@[j]) by {
        assert(signatures@.contains(signatures@[j]));
    }
}
@@file keramics-sigscan/src/scanner.rs
@@raw
spec fn fresh_scanner(s: Scanner) -> bool {
    &&& fresh_tree(s.header_scan_tree) && s.header_scan_tree.pattern_type == PatternType::BoundToStart
    &&& fresh_tree(s.footer_scan_tree) && s.footer_scan_tree.pattern_type == PatternType::BoundToEnd
    &&& fresh_tree(s.unbound_scan_tree) && s.unbound_scan_tree.pattern_type == PatternType::Unbound
}
@@fn Scanner::new
    ensures fresh_scanner(r), r.signatures@.len() == 0, scanner_wf(r),
@@fn Scanner::add_signature
    ensures final(self).signatures@ == old(self).signatures@.push(Arc::new(signature)), fresh_scanner(*old(self)) ==> fresh_scanner(*final(self)),
@@fn Scanner::build
    requires fresh_scanner(*old(self)), sigs_ok(old(self).signatures@),
    ensures final(self).signatures == old(self).signatures, r is Ok ==> scanner_wf(*final(self)),
@@endfn