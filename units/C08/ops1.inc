#define HAVL() (vf_K == 0 ? vf_B + vf_idx : vf_link(vf_K - 1))
#include "map.inc"
#define SAMEBUT(e, o) ((e)->key == (o).key && (e)->value == (o).value && (e)->hash == (o).hash)
void vf_harness(void)
{
	hashmap_t *m = vf_map(); size_t n = vf_n, f = vf_f, bc = m->bucketCount, size0 = m->size;
	/* a watched entry and a watched other bucket */
	size_t w = RANGE(0, n ? n - 1 : 0), ob = RANGE(0, bc - 1); REQUIRES(ob != vf_idx || bc == 1);
#ifdef VF_UNB
	REQUIRES(n == 0 || (w <= vf_K + 1 && w + 1 >= vf_K) || w == 0);   /* entries elsewhere are out of reach, see map.inc */
#endif
	Entry *we = n ? vf_at(w) : NULL, wc = {0}; if (n) wc = *we;
	Entry *obv = m->buckets[ob], *head = m->buckets[vf_idx];
	bool kf = m->fn_key_free != NULL, vfr = m->fn_value_free != NULL, lk = m->lock.acquire != NULL;
	void *v = (void *)(uintptr_t)RANGE(0, 6);
#if GET == 1
	void *r = hashmap_get(m, vf_key);
	if (w == f && f < n) ENSURES(r == wc.value, "lookup gives the value stored under an equal key");
	if (f == n) ENSURES(r == NULL, "lookup of an absent key gives NULL");
	ENSURES(hashmap_size(m) == size0 && vf_news == 0 && vf_nfree == 0 && vf_kcb == 0 && vf_vcb == 0, "lookup changes nothing");
	if (n) ENSURES(SAMEBUT(we, wc) && we->next == wc.next, "lookup changes no entry");
	ENSURES(m->buckets[vf_idx] == head, "lookup changes no bucket");
#elif GET == 2
	void *r = hashmap_put(m, vf_key, v);
	if (f < n) {
		if (w == f) {
			void *fv = wc.value;
			ENSURES(r == fv && we->value == v && we->next == wc.next && we->key == wc.key && we->hash == wc.hash, "replaces the value of the existing entry and returns the old one");
			ENSURES(vf_vcb == (vfr && fv ? 1 : 0) && (vf_vcb == 0 || vf_vp == fv), "the old value is released through the callback");
		}
		ENSURES(m->size == size0 && vf_news == 0, "size unchanged by a replacement");
		if (w != f) ENSURES(SAMEBUT(we, wc) && we->next == wc.next, "other entries unchanged");
		REACH("replace");
	} else {
		ENSURES(r == NULL && vf_vcb == 0, "no old value");
		ENSURES((vf_news == 0) == vf_oom, "an entry is made unless memory is exhausted");
		if (vf_news == 0) ENSURES(m->size == size0 && errno == ENOMEM && m->buckets[vf_idx] == head, "out of memory leaves the map unchanged");
		else {
			Entry *e = vf_newp;
			ENSURES(m->size == size0 + 1 && vf_news == 1, "one entry more");
			ENSURES(e->key == vf_key && e->value == v && e->hash == vf_h, "the new entry holds the key and value");
			if (m->buckets[vf_idx] == e && n) ENSURES(e->next == head, "a new entry in front of the chain is linked to it");
			else {
				ENSURES(e->next == NULL, "a new entry at the end ends the chain");
				if (n == 0) ENSURES(m->buckets[vf_idx] == e, "the new entry is the chain");
				else if (w == n - 1) ENSURES(we->next == e && m->buckets[vf_idx] == head, "the last entry is linked to the new one");
			}
		}
		if (n) ENSURES(SAMEBUT(we, wc) && (w == n - 1 ? we->next == 0 || we->next == vf_newp : we->next == wc.next), "other entries unchanged");
		REACH("new");
	}
	ENSURES(vf_nfree == 0 && vf_kcb == 0, "nothing else is released");
#else
	void *r = hashmap_remove(m, vf_key);
	if (f < n) {
		if (w == f) {
			ENSURES(r == wc.value, "returns the removed value");
			ENSURES(vf_vcb == (vfr && wc.value ? 1 : 0) && (!vf_vcb || vf_vp == wc.value), "the value is released");
			if (f == 0) ENSURES(m->buckets[vf_idx] == wc.next, "the bucket leads to its successor");
		}
		if (w + 1 == f) ENSURES(we->next == vf_at(f + 1), "its predecessor is linked to its successor");
		if (w + 1 == f) ENSURES(SAMEBUT(we, wc), "its predecessor keeps its contents");
		ENSURES(m->size == size0 - 1 && vf_nfree == 1, "one entry less, freed");
		ENSURES(vf_kcb == (kf && vf_fkey ? 1 : 0) && (!vf_kcb || vf_kp == vf_fkey), "the stored key is released");
		if (w != f && w + 1 != f) ENSURES(SAMEBUT(we, wc) && we->next == wc.next, "other entries unchanged");
		if (f) ENSURES(m->buckets[vf_idx] == head, "chain head kept");
		REACH("removed");
	} else {
		ENSURES(r == NULL && m->size == size0 && vf_nfree == 0 && vf_kcb == 0 && vf_vcb == 0, "absent key: nothing changes");
		if (n) ENSURES(SAMEBUT(we, wc) && we->next == wc.next, "absent key: entries unchanged");
		ENSURES(m->buckets[vf_idx] == head, "absent key: bucket unchanged");
	}
	ENSURES(vf_news == 0, "no allocation");
#endif
	ENSURES(m->bucketCount == bc && m->buckets == vf_B, "table kept");
	if (ob != vf_idx) ENSURES(m->buckets[ob] == obv, "no other bucket changes");
	ENSURES(vf_acq == vf_rel && vf_acq == (lk ? 1 : 0), "lock and unlock are matched");
	REACH("done");
}
