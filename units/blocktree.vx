@@include num.vx
@@opt try
@@raw
use std::sync::Arc;
use vstd::arithmetic::power::*;
global size_of usize == 8;
@@mappath min kx_min64
@@mappath max kx_max64
@@raw
fn kx_min64(a: u64, b: u64) -> (r: u64) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
fn kx_max64(a: u64, b: u64) -> (r: u64) ensures r == if a < b { b } else { a } { if a < b { b } else { a } }
fn kx_nones<T>(n: u64) -> (r: Vec<Option<T>>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]) is None,
{
    let mut v: Vec<Option<T>> = Vec::new();
    let mut i: u64 = 0;
    while i < n
        invariant i <= n, v@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] v@[j]) is None,
        decreases n - i,
    {
        v.push(None);
        i = i + 1;
    }
    v
}
#[verifier::external_body]
struct InsertError { _p: u8 }
impl InsertError {
    #[verifier::external_body]
    fn new(message_string: String) -> InsertError { InsertError { _p: 0 } }
}
@@file keramics-formats/src/block_tree_node.rs
@@item BlockTreeNodeType #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@@item BlockTreeNode
@@raw
impl<T> BlockTreeNode<T> {
    // the value at an offset that is not before the node
    spec fn at(self, o: int) -> Option<T>
        decreases self.element_size
    {
        let i = (o - self.offset) / self.element_size as int;
        if self.element_size == 0 || o < self.offset { None }
        else if self.node_type == BlockTreeNodeType::Leaf {
            if i < self.values@.len() && self.values@[i] is Some { Some(*self.values@[i]->0) } else { None }
        } else {
            if i < self.sub_nodes@.len() && self.sub_nodes@[i] is Some && self.sub_nodes@[i]->0.element_size < self.element_size { self.sub_nodes@[i]->0.at(o) } else { None }
        }
    }
    spec fn count(self, e: int) -> int {
        if self.node_type == BlockTreeNodeType::Leaf { if self.values@.len() == 0 { e } else { self.values@.len() as int } }
        else { if self.sub_nodes@.len() == 0 { e } else { self.sub_nodes@.len() as int } }
    }
    // elements of leaf * e^k each; a node without elements gets its e elements on insertion
    spec fn wf(self, e: int, leaf: int, k: nat) -> bool
        decreases k, 0int
    {
        &&& self.element_size > 0 && self.element_size == leaf * pow(e, k) && self.offset as int % leaf == 0
        &&& self.node_type == BlockTreeNodeType::Branch ==> {
            &&& k > 0 && e > 1
            &&& forall|i: int| 0 <= i < self.sub_nodes@.len() && (#[trigger] self.sub_nodes@[i]) is Some ==> sub_wf(self.sub_nodes@[i]->0, self.offset + i * self.element_size, e, leaf, (k - 1) as nat)
        }
        &&& self.node_type == BlockTreeNodeType::Leaf ==> self.values_end()
    }
    // the elements in use end below 2^64
    spec fn values_end(self) -> bool {
        forall|i: int| 0 <= i < self.values@.len() && (#[trigger] self.values@[i]) is Some ==> self.offset + (i + 1) * self.element_size <= u64::MAX
    }
    // every branch in the tree has its sub nodes
    spec fn filled(self) -> bool { self.node_type == BlockTreeNodeType::Branch ==> self.sub_nodes@.len() > 0 }
    spec fn same(self, o: Self, e: int) -> bool {
        self.offset == o.offset && self.element_size == o.element_size && self.count(e) == o.count(e)
    }
}
spec fn sub_wf<T>(s: BlockTreeNode<T>, offset: int, e: int, leaf: int, k: nat) -> bool
    decreases k, 1int
{
    s.offset == offset && s.count(e) == e && s.filled() && s.wf(e, leaf, k)
}
@@fn BlockTreeNode::new
    ensures r.node_type == *node_type, r.offset == offset, r.element_size == element_size, r.sub_nodes@.len() == 0, r.values@.len() == 0,
@@raw
spec fn slot_at<T>(s: Option<BlockTreeNode<T>>, o: int) -> Option<T> { if s is Some { s->0.at(o) } else { None } }
proof fn lemma_pow_step(e: int, k: nat)
    requires e > 1, k > 0
    ensures pow(e, k) == e * pow(e, (k - 1) as nat), pow(e, (k - 1) as nat) > 0, pow(e, k) > pow(e, (k - 1) as nat)
{
    lemma_pow_positive(e, (k - 1) as nat);
    lemma_pow_adds(e, 1, (k - 1) as nat);
    lemma_pow1(e);
    assert(pow(e, k) > pow(e, (k - 1) as nat)) by (nonlinear_arith)
        requires pow(e, k) == e * pow(e, (k - 1) as nat), pow(e, (k - 1) as nat) > 0, e > 1;
}
// node sizes determine the height
proof fn lemma_height(e: int, leaf: int, k: nat, m: nat)
    requires e > 1, leaf > 0, leaf * pow(e, k) == leaf * pow(e, m)
    ensures k == m
{
    if k < m { lemma_pow_strictly_increases(e as nat, k, m); }
    if m < k { lemma_pow_strictly_increases(e as nat, m, k); }
    assert(pow(e, k) == pow(e, m)) by (nonlinear_arith)
        requires leaf > 0, leaf * pow(e, k) == leaf * pow(e, m);
}
// the size of a sub element, while it is too small to fill an element
proof fn lemma_sub(e: int, leaf: int, k: nat, j: nat, es: int, s: int)
    requires e > 1, leaf > 0, j < k, es == leaf * pow(e, k), s == leaf * pow(e, j)
    ensures s > 0, (es / s > e) == (j + 1 < k), j + 1 == k ==> es == e * s, s * e == leaf * pow(e, j + 1), es % s == 0, s % leaf == 0,
        j + 1 < k ==> s * e < es,
{
    lemma_pow_positive(e, j);
    let d = (k - j) as nat;
    lemma_pow_adds(e, j, d);
    lemma_pow_adds(e, j, 1);
    lemma_pow1(e);
    assert(s > 0) by (nonlinear_arith) requires s == leaf * pow(e, j), leaf > 0, pow(e, j) > 0;
    assert(es == pow(e, d) * s) by (nonlinear_arith) requires es == leaf * pow(e, k), pow(e, k) == pow(e, j) * pow(e, d), s == leaf * pow(e, j);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(pow(e, d), s);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(pow(e, d), s);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(pow(e, j), leaf);
    assert(s == pow(e, j) * leaf) by (nonlinear_arith) requires s == leaf * pow(e, j);
    assert(es / s == pow(e, d)) by { assert(s * pow(e, d) == pow(e, d) * s) by (nonlinear_arith); }
    if d > 1 { lemma_pow_strictly_increases(e as nat, 1, d); }
    assert(s * e == leaf * pow(e, j + 1)) by (nonlinear_arith) requires s == leaf * pow(e, j), pow(e, j + 1) == pow(e, j) * e;
    if d > 1 {
        assert(s * e < es) by (nonlinear_arith) requires es == pow(e, d) * s, s > 0, pow(e, d) > e;
    }
}
// the element of an offset
proof fn lemma_elem(o: int, base: int, es: int)
    requires es > 0, o >= base
    ensures (o - base) / es >= 0, base + ((o - base) / es) * es <= o < base + ((o - base) / es + 1) * es
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(o - base, es);
    vstd::arithmetic::div_mod::lemma_mod_pos_bound(o - base, es);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(o - base, es);
    assert(base + ((o - base) / es) * es <= o < base + ((o - base) / es + 1) * es) by (nonlinear_arith)
        requires o - base == es * ((o - base) / es) + (o - base) % es, 0 <= (o - base) % es < es;
}
proof fn lemma_elem_unique(o: int, base: int, es: int, i: int)
    requires es > 0, base + i * es <= o < base + (i + 1) * es
    ensures (o - base) / es == i
{
    assert(o - base == i * es + (o - base - i * es));
    assert(0 <= o - base - i * es < es) by (nonlinear_arith) requires base + i * es <= o < base + (i + 1) * es;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(o - base, es, i, o - base - i * es);
}
proof fn lemma_ceil(x: int, es: int, c: int, i: int)
    requires es > 0, x >= 0, c == (if x % es == 0 { x / es } else { x / es + 1 })
    ensures i < c ==> i * es < x, i >= c ==> i * es >= x, forall|n: int| x <= #[trigger] (n * es) ==> c <= n,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, es);
    vstd::arithmetic::div_mod::lemma_mod_pos_bound(x, es);
    assert(c * es >= x && (c - 1) * es < x) by (nonlinear_arith)
        requires es > 0, x == es * (x / es) + x % es, 0 <= x % es < es, c == (if x % es == 0 { x / es } else { x / es + 1 });
    if i < c { assert(i * es < x) by (nonlinear_arith) requires i <= c - 1, (c - 1) * es < x, es > 0; }
    else { assert(i * es >= x) by (nonlinear_arith) requires i >= c, c * es >= x, es > 0; }
    assert forall|n: int| x <= #[trigger] (n * es) implies c <= n by {
        if n <= c - 1 { assert(n * es < x) by (nonlinear_arith) requires n <= c - 1, (c - 1) * es < x, es > 0; }
    }
}
proof fn lemma_mul_mod(a: int, b: int, leaf: int)
    requires leaf > 0, a % leaf == 0, b % leaf == 0
    ensures (a + b) % leaf == 0, (a - b) % leaf == 0
{
    vstd::arithmetic::div_mod::lemma_small_mod(0, leaf as nat);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(a, b, leaf);
    vstd::arithmetic::div_mod::lemma_sub_mod_noop(a, b, leaf);
}
proof fn lemma_elem_mod(es: int, e: int, s: int, leaf: int)
    requires leaf > 0, es == e * s, s % leaf == 0
    ensures es % leaf == 0
{
    lemma_scaled_mod(e, s, leaf);
}
proof fn lemma_scaled_mod(i: int, es: int, leaf: int)
    requires leaf > 0, es % leaf == 0
    ensures (i * es) % leaf == 0
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(es, leaf);
    assert(i * es == (i * (es / leaf)) * leaf) by (nonlinear_arith) requires es == leaf * (es / leaf);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(i * (es / leaf), leaf);
}
proof fn lemma_branch_at<T>(n: BlockTreeNode<T>, e: int, leaf: int, k: nat, o: int)
    requires n.wf(e, leaf, k), n.node_type == BlockTreeNodeType::Branch, leaf > 0
    ensures n.at(o) == (if o >= n.offset && 0 <= (o - n.offset) / n.element_size as int && ((o - n.offset) / n.element_size as int) < n.sub_nodes@.len() { slot_at(n.sub_nodes@[(o - n.offset) / n.element_size as int], o) } else { None })
{
    if o >= n.offset {
        let es = n.element_size as int;
        lemma_elem(o, n.offset as int, es);
        let i = (o - n.offset) / es;
        if i < n.sub_nodes@.len() && n.sub_nodes@[i] is Some {
            let sub = n.sub_nodes@[i]->0;
            assert(sub_wf(sub, n.offset + i * es, e, leaf, (k - 1) as nat));
            lemma_pow_step(e, k);
            assert(sub.element_size < es) by (nonlinear_arith)
                requires sub.element_size == leaf * pow(e, (k - 1) as nat), es == leaf * pow(e, k), pow(e, k) > pow(e, (k - 1) as nat), leaf > 0;
        }
    }
}
proof fn lemma_branch_filled<T>(n: BlockTreeNode<T>, subs: Seq<Option<BlockTreeNode<T>>>, e: int, leaf: int, k: nat, o: int)
    requires n.wf(e, leaf, k), n.node_type == BlockTreeNodeType::Branch, leaf > 0, subs == n.sub_nodes@ || (n.sub_nodes@.len() == 0 && forall|i: int| 0 <= i < subs.len() ==> (#[trigger] subs[i]) is None)
    ensures n.at(o) == (if o >= n.offset && 0 <= (o - n.offset) / n.element_size as int && ((o - n.offset) / n.element_size as int) < subs.len() { slot_at(subs[(o - n.offset) / n.element_size as int], o) } else { None })
{
    lemma_branch_at(n, e, leaf, k, o);
}
proof fn lemma_pow0_of(k: nat)
    requires k > 0
    ensures pow(0, k) == 0
{
    lemma0_pow(k);
}
proof fn lemma_pow1_of(k: nat)
    ensures pow(1, k) == 1
{
    lemma1_pow(k);
}
@@fn BlockTreeNode::split
    requires
        exists|k: nat| k > 0 && old(self).wf(elements_per_node as int, leaf_value_size as int, k),
        leaf_value_size > 0, elements_per_node > 1, old(self).node_type == BlockTreeNodeType::Leaf,
    ensures
        final(self).same(*old(self), elements_per_node as int), final(self).node_type == BlockTreeNodeType::Branch,
        forall|k: nat| old(self).wf(elements_per_node as int, leaf_value_size as int, k) ==> final(self).wf(elements_per_node as int, leaf_value_size as int, k),
        forall|o: int| #[trigger] final(self).at(o) == old(self).at(o),
@@at start
    let ghost e = elements_per_node as int;
    let ghost leaf = leaf_value_size as int;
    let ghost k = choose|k: nat| k > 0 && old(self).wf(e, leaf, k);
    let ghost base = self.offset as int;
    let ghost es = self.element_size as int;
    let ghost mut j: nat = 0;
    let ghost mut s: int = 0;
    proof {
        assert(k > 0 && old(self).wf(e, leaf, k));
        lemma_pow0(e);
    }
@@at loop 0 begin
    proof { lemma_sub(e, leaf, k, j, es, sub_node_element_size as int); }
@@at loop 0 end
    proof { j = j + 1; lemma_sub(e, leaf, k, j, es, sub_node_element_size as int); }
@@loop 0
    invariant
        j < k, sub_node_element_size == leaf * pow(e, j), e > 1, k > 0, sub_node_element_size > 0,
    decreases k - j,
@@at loop 0 after
    proof {
        s = sub_node_element_size as int;
        lemma_sub(e, leaf, k, j, es, s);
        assert(j == k - 1);
        assert forall|m: nat| old(self).wf(e, leaf, m) implies m == k by { lemma_height(e, leaf, k, m); }
        assert(s < es) by (nonlinear_arith) requires es == e * s, e > 1, s > 0;
        assert(es % leaf == 0) by { lemma_elem_mod(es, e, s, leaf); }
    }
@@loop 1
    invariant
        *self == *old(self), sub_nodes@.len() == it1, hi1 == old(self).values@.len(),
        forall|i: int| 0 <= i < it1 && (#[trigger] sub_nodes@[i]) is Some ==> sub_wf(sub_nodes@[i]->0, base + i * es, e, leaf, (k - 1) as nat),
        forall|i: int, o: int| 0 <= i < it1 && base + i * es <= o < base + (i + 1) * es ==> (#[trigger] slot_at(sub_nodes@[i], o)) == (if old(self).values@[i] is Some { Some(*old(self).values@[i]->0) } else { None }),
@@at let:sub_node_offset before
    assert(base + value_index * es + es <= u64::MAX) by {
        assert((value_index + 1) * es == value_index * es + es) by (nonlinear_arith);
    }
    assert(value_index * es >= 0) by (nonlinear_arith) requires value_index >= 0, es > 0;
@@loop 2
    invariant
        leaf_node.node_type == BlockTreeNodeType::Leaf, leaf_node.offset == sub_node_offset, leaf_node.element_size == s,
        leaf_node.sub_nodes@.len() == 0, leaf_node.values@.len() == it2, hi2 == e, lo2 == 0,
        forall|i: int| 0 <= i < it2 ==> (#[trigger] leaf_node.values@[i]) is Some && *leaf_node.values@[i]->0 == **value,
@@at loop 2 after
    proof {
        let n = leaf_node;
        lemma_scaled_mod(value_index as int, es, leaf);
        lemma_mul_mod(base, value_index * es, leaf);
        assert forall|i: int| 0 <= i < n.values@.len() && (#[trigger] n.values@[i]) is Some implies n.offset + (i + 1) * n.element_size <= u64::MAX by {
            assert((i + 1) * s <= es) by (nonlinear_arith) requires i + 1 <= e, es == e * s, s > 0;
        }
        assert(n.wf(e, leaf, (k - 1) as nat));
        assert(sub_wf(n, base + value_index * es, e, leaf, (k - 1) as nat));
        assert forall|o: int| base + value_index * es <= o < base + (value_index + 1) * es implies #[trigger] n.at(o) == Some(**value) by {
            lemma_elem(o, n.offset as int, s);
            let i = (o - n.offset) / s;
            assert(n.offset + e * s == base + (value_index + 1) * es) by (nonlinear_arith) requires n.offset == base + value_index * es, es == e * s;
            assert(i < e) by (nonlinear_arith) requires n.offset + i * s <= o, o < n.offset + e * s, s > 0, n.offset + e * s == base + (value_index + 1) * es;
            assert(n.values@[i] is Some);
        }
    }
@@at tail
    proof {
        assert forall|m: nat| old(self).wf(e, leaf, m) implies self.wf(e, leaf, m) by { lemma_height(e, leaf, k, m); }
        assert(self.wf(e, leaf, k));
        assert forall|o: int| #[trigger] self.at(o) == old(self).at(o) by {
            lemma_branch_at(*self, e, leaf, k, o);
            if o >= base {
                lemma_elem(o, base, es);
                let i = (o - base) / es;
                if i < self.sub_nodes@.len() { assert(slot_at(self.sub_nodes@[i], o) == slot_at(self.sub_nodes@[i], o)); }
            }
        }
    }
@@fn BlockTreeNode::insert_value
@@attr #[verifier::rlimit(60)]
    requires
        exists|k: nat| old(self).wf(elements_per_node as int, leaf_value_size as int, k),
        leaf_value_size > 0, size > 0, offset % leaf_value_size == 0, size % leaf_value_size == 0,
        old(self).offset <= offset, offset + size <= u64::MAX, offset + size <= old(self).offset + old(self).count(elements_per_node as int) * old(self).element_size,
    ensures
        final(self).same(*old(self), elements_per_node as int), final(self).filled(),
        forall|k: nat| old(self).wf(elements_per_node as int, leaf_value_size as int, k) ==> final(self).wf(elements_per_node as int, leaf_value_size as int, k),
        r is Ok ==> forall|o: int| offset <= o < offset + size ==> #[trigger] final(self).at(o) == Some(*value) && old(self).at(o) is None,
        r is Ok ==> forall|o: int| !(offset <= o < offset + size) ==> #[trigger] final(self).at(o) == old(self).at(o),
        r is Err ==> exists|o: int| offset <= o < offset + size && (#[trigger] old(self).at(o)) is Some,
        r is Err ==> forall|o: int| #[trigger] final(self).at(o) == old(self).at(o) || (offset <= o < offset + size && old(self).at(o) is None && final(self).at(o) == Some(*value)),
    decreases old(self).element_size,
@@at start
    let ghost e = elements_per_node as int;
    let ghost leaf = leaf_value_size as int;
    let ghost k = choose|k: nat| old(self).wf(e, leaf, k);
    let ghost base = self.offset as int;
    let ghost es = self.element_size as int;
    let ghost end = offset + size;
    let ghost mut j: nat = 0;
    let ghost mut s: int = 0;
    let ghost mut si: int = 0;
    let ghost mut so: int = 0;
    let ghost mut ro: int = 0;
    let ghost mut re: int = 0;
    let ghost mut subs1: Seq<Option<BlockTreeNode<T>>> = Seq::empty();
    let ghost mut sub: BlockTreeNode<T> = *self;
    let ghost mut subs0: Seq<Option<BlockTreeNode<T>>> = Seq::empty();
    let ghost mut vals0: Seq<Option<Arc<T>>> = Seq::empty();
    let ghost mut n0: BlockTreeNode<T> = *self;
    proof {
        assert(old(self).wf(e, leaf, k));
        lemma_elem(offset as int, base, es);
        lemma_ceil(end - base, es, if (end - base) % es == 0 { (end - base) / es } else { (end - base) / es + 1 }, 0);
        lemma_mul_mod(offset as int, size as int, leaf);
        lemma_pow0(e);
    }
@@at call:split before
    assert(k > 0 && e > 1) by {
        if es == leaf { lemma_mul_mod(offset as int, base, leaf); }
        assert(es != leaf);
        assert(k > 0);
        if e == 0 { lemma_pow0_of(k); }
        if e == 1 { lemma_pow1_of(k); }
    }
@@at if:1 before
    proof {
        n0 = *self;
        assert(n0.wf(e, leaf, k));
        assert(n0.node_type == BlockTreeNodeType::Branch ==> k > 0 && e > 1);
        assert forall|m: nat| old(self).wf(e, leaf, m) implies n0.wf(e, leaf, m) by {}
    }
@@at loop 0 before
    proof {
        subs0 = self.sub_nodes@;
        assert(subs0.len() == n0.count(e));
        assert forall|i: int| 0 <= i < subs0.len() && (#[trigger] subs0[i]) is Some implies sub_wf(subs0[i]->0, base + i * es, e, leaf, (k - 1) as nat) by {
            assert(subs0 == n0.sub_nodes@);
        }
    }
    assert(leaf_value_size == leaf * pow(e, j));
    assert(1 <= k);
@@at loop 0 begin
    proof { lemma_sub(e, leaf, k, j, es, sub_node_element_size as int); }
@@at loop 0 end
    proof { j = j + 1; lemma_sub(e, leaf, k, j, es, sub_node_element_size as int); }
@@loop 0
    invariant
        j < k, sub_node_element_size == leaf * pow(e, j), e > 1, k > 0, sub_node_element_size > 0,
    decreases k - j,
@@at loop 0 after
    proof {
        s = sub_node_element_size as int;
        lemma_sub(e, leaf, k, j, es, s);
        assert(j == k - 1);
        lemma_elem_mod(es, e, s, leaf);
        assert forall|m: nat| n0.wf(e, leaf, m) implies m == k by { lemma_height(e, leaf, k, m); }
        assert(s < es) by (nonlinear_arith) requires es == e * s, e > 1, s > 0;
        lemma_pow_step(e, k);
    }
@@loop 1
    invariant
        self.node_type == BlockTreeNodeType::Branch, self.offset == base, self.element_size == es, self.values == n0.values,
        self.sub_nodes@.len() == subs0.len(),
        hi1 <= subs0.len(),
        forall|i: int| 0 <= i < subs0.len() && !(lo1 <= i < it1) ==> (#[trigger] self.sub_nodes@[i]) == subs0[i],
        forall|i: int| lo1 <= i < it1 ==> (#[trigger] self.sub_nodes@[i]) is Some && sub_wf(self.sub_nodes@[i]->0, base + i * es, e, leaf, (k - 1) as nat),
        forall|i: int, o: int| lo1 <= i < it1 && offset <= o < end && base + i * es <= o < base + (i + 1) * es ==> (#[trigger] slot_at(self.sub_nodes@[i], o)) == Some(*value) && slot_at(subs0[i], o) is None,
        forall|i: int, o: int| lo1 <= i < it1 && !(offset <= o < end) && base + i * es <= o < base + (i + 1) * es ==> (#[trigger] slot_at(self.sub_nodes@[i], o)) == slot_at(subs0[i], o),
@@at loop 1 begin
    proof {
        si = sub_node_index as int;
        so = base + si * es;
        subs1 = self.sub_nodes@;
        lemma_ceil(end - base, es, hi1 as int, si);
        assert(0 <= si * es && offset < base + (si + 1) * es) by (nonlinear_arith)
            requires es > 0, si >= lo1, lo1 >= 0, offset < base + (lo1 + 1) * es;
        assert((si + 1) * es == si * es + es) by (nonlinear_arith);
        lemma_scaled_mod(si, es, leaf);
        lemma_mul_mod(base, si * es, leaf);
        lemma_mul_mod(so, es, leaf);
        assert(subs1[si] == subs0[si]);
    }
@@at let:range_size after
    proof {
        ro = range_offset as int;
        re = range_offset + range_size;
        assert(re == if end < so + es { end as int } else { so + es });
        assert(ro == if offset < so { so } else { offset as int });
        lemma_mul_mod(re, ro, leaf);
    }
@@at let:sub_node_type after
    assert(sub_node_type == BlockTreeNodeType::Branch ==> k > 1) by {
        if k == 1 { assert(j == 0); lemma_pow0(e); assert(s == leaf); }
    }
@@at let:sub_node:1 before
    proof { sub = self.sub_nodes@[si]->0; }
    assert(sub.offset == so && sub.count(e) == e && sub.wf(e, leaf, (k - 1) as nat));
    assert(sub.element_size == s);
    assert(e * s == es) by (nonlinear_arith) requires es == e * s;
    assert(forall|o: int| #[trigger] sub.at(o) == slot_at(subs0[si], o));
@@at loop 1 end
    proof {
        let now = self.sub_nodes@[si]->0;
        assert(now.wf(e, leaf, (k - 1) as nat));
        assert forall|i: int| lo1 <= i < it1 implies (#[trigger] self.sub_nodes@[i]) is Some && sub_wf(self.sub_nodes@[i]->0, base + i * es, e, leaf, (k - 1) as nat) by {
            if i != si { assert(self.sub_nodes@[i] == subs1[i]); }
        }
        assert forall|i: int, o: int| lo1 <= i < it1 && offset <= o < end && base + i * es <= o < base + (i + 1) * es implies (#[trigger] slot_at(self.sub_nodes@[i], o)) == Some(*value) && slot_at(subs0[i], o) is None by {
            if i != si { assert(self.sub_nodes@[i] == subs1[i]); } else { assert(now.at(o) == Some(*value)); }
        }
        assert forall|i: int, o: int| lo1 <= i < it1 && !(offset <= o < end) && base + i * es <= o < base + (i + 1) * es implies (#[trigger] slot_at(self.sub_nodes@[i], o)) == slot_at(subs0[i], o) by {
            if i != si { assert(self.sub_nodes@[i] == subs1[i]); } else { assert(now.at(o) == sub.at(o)); }
        }
    }
@@at loop 1 after
    proof {
        assert forall|m: nat| n0.wf(e, leaf, m) implies self.wf(e, leaf, m) by {
            lemma_height(e, leaf, k, m);
            assert forall|i: int| 0 <= i < self.sub_nodes@.len() && (#[trigger] self.sub_nodes@[i]) is Some implies sub_wf(self.sub_nodes@[i]->0, base + i * es, e, leaf, (k - 1) as nat) by {}
        }
        assert(self.wf(e, leaf, k));
        assert forall|o: int| true implies #[trigger] self.at(o) == (if o >= base && (o - base) / es < self.sub_nodes@.len() { slot_at(self.sub_nodes@[(o - base) / es], o) } else { None }) by {
            if o >= base { lemma_elem(o, base, es); }
            lemma_branch_at(*self, e, leaf, k, o);
        }
        assert forall|o: int| true implies #[trigger] n0.at(o) == (if o >= base && (o - base) / es < subs0.len() { slot_at(subs0[(o - base) / es], o) } else { None }) by {
            if o >= base { lemma_elem(o, base, es); }
            lemma_branch_filled(n0, subs0, e, leaf, k, o);
        }
        assert forall|o: int| offset <= o < end implies #[trigger] self.at(o) == Some(*value) && n0.at(o) is None by {
            let i = (o - base) / es;
            lemma_elem(o, base, es);
            lemma_elem(offset as int, base, es);
            lemma_ceil(end - base, es, hi1 as int, i);
            assert(lo1 <= i) by (nonlinear_arith) requires base + lo1 * es <= offset, offset <= o, o < base + (i + 1) * es, es > 0;
            assert(i < hi1);
            assert(slot_at(self.sub_nodes@[i], o) == Some(*value));
        }
        assert forall|o: int| !(offset <= o < end) implies #[trigger] self.at(o) == n0.at(o) by {
            if o >= base {
                let i = (o - base) / es;
                lemma_elem(o, base, es);
                if i < subs0.len() {
                    assert(slot_at(self.sub_nodes@[i], o) == slot_at(subs0[i], o));
                }
            }
        }
    }
@@at let:last_value_index before
    assert(first_value_index + number_of_values <= n0.count(e) && number_of_values * es == size && base + first_value_index * es == offset) by {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(offset - base, es);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(size as int, es);
        let a = (offset - base) / es; let b = size as int / es; let c = n0.count(e);
        assert(a + b <= c) by (nonlinear_arith) requires offset - base == es * a, size == es * b, offset + size <= base + c * es, es > 0;
        assert(b * es == size) by (nonlinear_arith) requires size == es * b;
        assert(base + a * es == offset) by (nonlinear_arith) requires offset - base == es * a;
    }
@@at loop 2 before
    proof { vals0 = self.values@; }
    assert(vals0.len() == n0.count(e));
@@loop 2
    invariant
        self.node_type == BlockTreeNodeType::Leaf, self.offset == base, self.element_size == es, self.sub_nodes == n0.sub_nodes,
        self.values@.len() == vals0.len(),
        forall|i: int| 0 <= i < vals0.len() && !(lo2 <= i < it2) ==> (#[trigger] self.values@[i]) == vals0[i],
        forall|i: int| lo2 <= i < it2 ==> (#[trigger] self.values@[i]) is Some && *self.values@[i]->0 == *value && vals0[i] is None,
@@at loop 2 after
    proof {
        assert(self.values_end()) by {
            assert forall|x: int| 0 <= x < self.values@.len() && (#[trigger] self.values@[x]) is Some implies base + (x + 1) * es <= u64::MAX by {
                if lo2 <= x < hi2 {
                    assert(base + (x + 1) * es <= end) by (nonlinear_arith)
                        requires base + lo2 * es == offset, (hi2 - lo2) * es == end - offset, lo2 <= x < hi2, es > 0;
                } else { assert(self.values@[x] == vals0[x]); }
            }
        }
        assert forall|o: int| offset <= o < end implies #[trigger] self.at(o) == Some(*value) && n0.at(o) is None by {
            let i = (o - base) / es;
            lemma_elem(o, base, es);
            assert(lo2 <= i < hi2) by (nonlinear_arith)
                requires base + lo2 * es == offset, (hi2 - lo2) * es == end - offset, offset <= o < end, base + i * es <= o < base + (i + 1) * es, es > 0;
            assert(self.values@[i] is Some && *self.values@[i]->0 == *value);
        }
        assert forall|o: int| !(offset <= o < end) implies #[trigger] self.at(o) == n0.at(o) by {
            if o >= base {
                let i = (o - base) / es;
                lemma_elem(o, base, es);
                assert(!(lo2 <= i < hi2)) by (nonlinear_arith)
                    requires base + lo2 * es == offset, (hi2 - lo2) * es == end - offset, !(offset <= o < end), base + i * es <= o < base + (i + 1) * es, es > 0;
                if i < vals0.len() { assert(self.values@[i] == vals0[i]); }
            }
        }
    }
@@at return:0 before
    proof {
        let now = self.sub_nodes@[si]->0;
        assert(now.wf(e, leaf, (k - 1) as nat));
        assert forall|i: int| 0 <= i < self.sub_nodes@.len() && (#[trigger] self.sub_nodes@[i]) is Some implies sub_wf(self.sub_nodes@[i]->0, base + i * es, e, leaf, (k - 1) as nat) by {
            if i != si { assert(self.sub_nodes@[i] == subs1[i]); }
        }
        assert(self.wf(e, leaf, k));
        let w = choose|o: int| ro <= o < re && (#[trigger] sub.at(o)) is Some;
        assert(slot_at(subs0[si], w) is Some);
        lemma_branch_filled(n0, subs0, e, leaf, k, w);
        lemma_elem_unique(w, base, es, si);
        assert(n0.at(w) is Some);
        assert(old(self).at(w) is Some);
        assert forall|o: int| #[trigger] self.at(o) == n0.at(o) || (offset <= o < end && n0.at(o) is None && self.at(o) == Some(*value)) by {
            lemma_branch_at(*self, e, leaf, k, o);
            lemma_branch_filled(n0, subs0, e, leaf, k, o);
            if o >= base {
                lemma_elem(o, base, es);
                let i = (o - base) / es;
                if i < subs0.len() {
                    if i == si { assert(now.at(o) == sub.at(o) || (ro <= o < re && sub.at(o) is None && now.at(o) == Some(*value))); }
                    else { assert(self.sub_nodes@[i] == subs1[i]); assert(slot_at(subs1[i], o) == slot_at(self.sub_nodes@[i], o)); }
                }
            }
        }
    }
@@at return:1 before
    proof {
        let i = value_index as int;
        assert(self.values@[i] == vals0[i]);
        assert(self.values_end()) by {
            assert forall|x: int| 0 <= x < self.values@.len() && (#[trigger] self.values@[x]) is Some implies base + (x + 1) * es <= u64::MAX by {
                if lo2 <= x < i {
                    assert(base + (x + 1) * es <= end) by (nonlinear_arith)
                        requires base + lo2 * es == offset, (hi2 - lo2) * es == end - offset, lo2 <= x < hi2, es > 0;
                } else { assert(self.values@[x] == vals0[x]); }
            }
        }
        let w = base + i * es;
        assert(w < base + (i + 1) * es) by (nonlinear_arith) requires w == base + i * es, es > 0;
        lemma_elem_unique(w, base, es, i);
        assert(offset <= w < end) by (nonlinear_arith)
            requires base + lo2 * es == offset, (hi2 - lo2) * es == end - offset, lo2 <= i < hi2, w == base + i * es, es > 0;
        assert(n0.at(w) is Some);
        assert(old(self).at(w) is Some);
        assert forall|o: int| #[trigger] self.at(o) == n0.at(o) || (offset <= o < end && n0.at(o) is None && self.at(o) == Some(*value)) by {
            if o >= base {
                lemma_elem(o, base, es);
                let x = (o - base) / es;
                if lo2 <= x < i {
                    assert(offset <= o < end) by (nonlinear_arith)
                        requires base + lo2 * es == offset, (hi2 - lo2) * es == end - offset, lo2 <= x < hi2, base + x * es <= o < base + (x + 1) * es, es > 0;
                    assert(self.values@[x] is Some && *self.values@[x]->0 == *value);
                } else if x < vals0.len() { assert(self.values@[x] == vals0[x]); }
            }
        }
    }
@@file keramics-formats/src/block_tree.rs
@@item BlockTree
@@raw
impl<T> BlockTree<T> {
    spec fn at(self, o: int) -> Option<T> { slot_at(self.root_node, o) }
    spec fn root_wf(self, k: nat) -> bool {
        let n = self.root_node->0;
        &&& n.wf(self.elements_per_node as int, self.leaf_value_size as int, k)
        &&& n.filled() && n.offset == 0 && n.count(self.elements_per_node as int) * n.element_size >= self.data_size
    }
    spec fn wf(self) -> bool { self.root_node is Some ==> self.leaf_value_size > 0 && exists|k: nat| self.root_wf(k) }
    spec fn sizes(self, o: Self) -> bool { self.data_size == o.data_size && self.elements_per_node == o.elements_per_node && self.leaf_value_size == o.leaf_value_size }
}
@@fn BlockTree::new
    ensures r.wf(), r.data_size == data_size, r.elements_per_node == elements_per_node, r.leaf_value_size == leaf_value_size, r.root_node is None,
@@fn BlockTree::create_root_node
    requires old(self).leaf_value_size > 0, old(self).data_size > 0, offset % old(self).leaf_value_size == 0, size % old(self).leaf_value_size == 0,
    ensures final(self).wf(), final(self).sizes(*old(self)), final(self).root_node is Some, forall|o: int| #[trigger] final(self).at(o) is None,
@@at start
    let ghost e = self.elements_per_node as int;
    let ghost leaf = self.leaf_value_size as int;
    let ghost d = self.data_size as int;
    let ghost mut j: nat = 0;
    proof { lemma_pow0(e); }
@@loop 0
    invariant
        element_size > 0, element_size == leaf * pow(e, j), e > 1, *self == *old(self),
    decreases d - element_size,
@@at loop 0 begin
    proof {
        let es = element_size as int;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, es);
        assert(es * e < d && es * e > es) by (nonlinear_arith) requires d == es * (d / es) + d % es, d / es > e, d % es >= 0, es > 0, e > 1;
        lemma_pow_adds(e, j, 1);
        lemma_pow1(e);
        assert(es * e == leaf * pow(e, j + 1)) by (nonlinear_arith) requires es == leaf * pow(e, j), pow(e, j + 1) == pow(e, j) * e;
        j = j + 1;
    }
@@at let:elements_per_node after
    let ghost es = element_size as int;
    proof { lemma_ceil(d, es, elements_per_node as int, 0); lemma_ceil(d, es, elements_per_node as int, elements_per_node as int); assert(elements_per_node > 0); }
@@at let:node_type after
    assert(node_type == BlockTreeNodeType::Branch ==> j > 0);
@@at end
    proof {
        let n = self.root_node->0;
        assert(n.count(e) == (d / es) + (if d % es == 0 { 0int } else { 1 }));
        vstd::arithmetic::div_mod::lemma_small_mod(0, leaf as nat);
        assert(n.wf(e, leaf, j));
        assert(self.root_wf(j));
        assert forall|o: int| #[trigger] self.at(o) is None by { if o >= 0 { lemma_elem(o, 0, es); } }
    }
@@fn BlockTree::get_value
    requires self.wf(),
    ensures offset < self.data_size ==> self.at(offset as int) == (match r { Some(v) => Some(*v), None => None }),
        offset >= self.data_size ==> r is None,
@@at start
    let ghost e = self.elements_per_node as int;
    let ghost leaf = self.leaf_value_size as int;
    let ghost mut k: nat = 0;
    proof { if self.root_node is Some { k = choose|k: nat| self.root_wf(k); } }
@@loop 0
    invariant
        leaf > 0, node.wf(e, leaf, k), node.filled(), node.offset <= offset < node.offset + node.count(e) * node.element_size,
        self.at(offset as int) == node.at(offset as int),
    decreases k,
@@at loop 0 begin
    proof {
        let es = node.element_size as int; let base = node.offset as int;
        lemma_elem(offset as int, base, es);
        let i = (offset - base) / es; let c = node.count(e);
        assert(i < c) by (nonlinear_arith) requires base + i * es <= offset, offset < base + c * es, es > 0;
        lemma_pow_step(e, k);
        assert(node.sub_nodes@[i] is Some ==> sub_wf(node.sub_nodes@[i]->0, base + i * es, e, leaf, (k - 1) as nat));
        if node.sub_nodes@[i] is Some {
            let s = leaf * pow(e, (k - 1) as nat);
            assert(es == e * s && s < es) by (nonlinear_arith) requires s == leaf * pow(e, (k - 1) as nat), es == leaf * pow(e, k), pow(e, k) == e * pow(e, (k - 1) as nat), pow(e, (k - 1) as nat) > 0, e > 1, leaf > 0;
            assert((i + 1) * es == i * es + es) by (nonlinear_arith);
        }
        k = (k - 1) as nat;
    }
@@at let:value_index before
    proof {
        lemma_elem(offset as int, node.offset as int, node.element_size as int);
    }
@@fn BlockTree::insert_value
    requires old(self).wf(),
    ensures final(self).wf(), final(self).sizes(*old(self)),
        r is Ok ==> offset + size <= old(self).data_size,
        r is Ok ==> forall|o: int| offset <= o < offset + size ==> #[trigger] final(self).at(o) == Some(value) && old(self).at(o) is None,
        r is Ok ==> forall|o: int| !(offset <= o < offset + size) ==> #[trigger] final(self).at(o) == old(self).at(o),
        r is Err ==> offset + size > old(self).data_size || old(self).leaf_value_size == 0 || offset % old(self).leaf_value_size != 0 || size % old(self).leaf_value_size != 0
            || exists|o: int| offset <= o < offset + size && (#[trigger] old(self).at(o)) is Some,
        r is Err ==> forall|o: int| #[trigger] final(self).at(o) == old(self).at(o) || (offset <= o < offset + size && old(self).at(o) is None && final(self).at(o) == Some(value)),
@@at let:root_node before
    proof {
        let k = choose|k: nat| self.root_wf(k);
        assert(self.root_wf(k));
    }
    let ghost before = *self;
@@at tail
    proof {
        let n0 = before.root_node->0; let n1 = self.root_node->0;
        assert(forall|o: int| #[trigger] self.at(o) == n1.at(o) && before.at(o) == n0.at(o));
        let k = choose|k: nat| before.root_wf(k);
        assert(self.root_wf(k));
        if !(exists|o: int| offset <= o < offset + size && (#[trigger] n0.at(o)) is Some) { } else {
            let w = choose|o: int| offset <= o < offset + size && (#[trigger] n0.at(o)) is Some;
            assert(before.at(w) is Some);
            if old(self).root_node is Some { assert(*old(self) == before); }
            assert(old(self).at(w) is Some);
        }
    }
