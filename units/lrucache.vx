@@mapmethod LruCache.get_mut .kx_get_mut
@@raw
// ---- the cache of keramics-formats: what it holds, as a map; std HashMap and VecDeque by vstd ----
use std::collections::{HashMap, VecDeque};
use std::hash::Hash;
use vstd::std_specs::hash::*;
broadcast use vstd::std_specs::hash::group_hash_axioms;
// HashMap::get_mut, which vstd does not specify
trait KxGetMut<K, V>: Sized {
    spec fn kx_map(&self) -> Map<K, V>;
    fn kx_get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures r is Some <==> old(self).kx_map().contains_key(*k), r is None ==> *final(self) == *old(self),
            r is Some ==> *r->0 == old(self).kx_map()[*k] && final(self).kx_map() == old(self).kx_map().insert(*k, *final(r->0));
}
impl<K: Hash + Eq, V> KxGetMut<K, V> for HashMap<K, V> {
    spec fn kx_map(&self) -> Map<K, V> { self@ }
    #[verifier::external_body]
    fn kx_get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>) { self.get_mut(k) }
}
@@file keramics-formats/src/lru_cache.rs
@@item LruCacheEntry
@@item LruCache
@@raw
impl<K: Hash + Eq, V> LruCache<K, V> {
    spec fn has(self, k: K) -> bool { self.values@.contains_key(k) }
    spec fn held(self, k: K) -> V { self.values@[k].value }
}
@@fn LruCacheEntry::new
    ensures r.value == value,
@@fn LruCache::new
    requires obeys_key_model::<K>(), builds_valid_hashers::<std::collections::hash_map::RandomState>(),
    ensures forall|k: K| !#[trigger] r.has(k),
@@fn LruCache::contains
    requires obeys_key_model::<K>(), builds_valid_hashers::<std::collections::hash_map::RandomState>(),
    ensures r == self.has(*key),
@@fn LruCache::get
    requires obeys_key_model::<K>(), builds_valid_hashers::<std::collections::hash_map::RandomState>(),
    ensures *final(self) == *old(self), r is Some <==> old(self).has(*key), r is Some ==> *r->0 == old(self).held(*key),
@@fn LruCache::get_mut
    requires obeys_key_model::<K>(), builds_valid_hashers::<std::collections::hash_map::RandomState>(),
    ensures r is Some <==> old(self).has(*key), r is None ==> *final(self) == *old(self),
        r is Some ==> *r->0 == old(self).held(*key) && final(self).has(*key) && final(self).held(*key) == *final(r->0)
            && forall|k: K| k != *key ==> #[trigger] final(self).has(k) == old(self).has(k) && final(self).held(k) == old(self).held(k),
@@fn LruCache::insert
    requires obeys_key_model::<K>(), builds_valid_hashers::<std::collections::hash_map::RandomState>(),
    ensures final(self).has(key) && final(self).held(key) == value,
        // what else is held was held before
        forall|k: K| #[trigger] final(self).has(k) && k != key ==> old(self).has(k) && final(self).held(k) == old(self).held(k),
@@endfn
