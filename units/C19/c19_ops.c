/*VF
kind: full
src: src/file/ini_parser.c
functions: search_target_section iter_for_search_target_section iter_section_for_search_target_kv iter_for_search_key_value ini_parser_put_string ini_parser_get_string ini_parser_has_section ini_parser_has_section_key ini_parser_delete_by_section_key ini_parser_delete_section ini_parser_foreach iter_foreach_section iter_foreach_section_key_value
unwind: 5
cases: 0 1 2 3 4
casejobs: 4
nobmc: 1
san: nonat
timeout: 300
assumes: the linked list by its contract (discharged in C09): foreach visits the elements in order until the callback returns false and yields that node | section names and keys of a document are pairwise different ignoring case (kept by every operation here) | strlcpy, strlen, strcasecmp and memcpy by contract, names by identity
*/
#include "vf.h"
#include "common_macro.h"
#undef fclose
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include "data/list.h"
#include "file/ini_parser.h"
#ifndef VF_CASE
#define VF_CASE 0
#endif
static size_t k_strlen(const char *); static int k_casecmp(const char *, const char *); static size_t k_strlcpy(char *, const char *, size_t); static void *k_memcpy(void *, const void *, size_t), *k_calloc(size_t, size_t); static void k_free(void *);
#define strlen k_strlen
#define strcasecmp k_casecmp
#undef strlcpy
#define strlcpy k_strlcpy
#undef memcpy
#define memcpy k_memcpy
#undef calloc
#define calloc k_calloc
#undef free
#define free k_free
#include "src/file/ini_parser.c"
#undef calloc
#undef free
static char SLo, WLo, OLo, NLo, nW, nO, nN, nK, nP, nQ, nX;
#define LT(o) ((list_t *)&(o))
static section_info_t *W, *O, *N; static key_value_t *K, *P, *Q, *X; static bool wp, op, np, kp, pp, qp, xp, nl, flip, kflip; static list_t *xl;
static char sarg[2], karg[2], varg[2], *vout; static unsigned ids, idk, idW, idO, idN, idK, idP, idQ, idX; static size_t slen, klen, vlen, kvlen, pvlen; static int vK, vP, vQ, vX, copied; static size_t vsz; static bool oom;
static unsigned id(const char *p) { if (p == sarg) return ids; if (p == karg) return idk; if (W && p == W->section_name) return idW; if (O && p == O->section_name) return idO; if (N && p == N->section_name) return idN; if (K && p == K->key) return idK; if (P && p == P->key) return idP; if (Q && p == Q->key) return idQ; if (X && p == X->key) return idX; __CPROVER_assert(0, "STUB a known name"); return 0; }
static int k_casecmp(const char *a, const char *b) { unsigned x = id(a), y = id(b); return x == y ? 0 : 1; }
static size_t k_strlen(const char *p) { if (p == sarg) return slen; if (p == karg) return klen; if (p == varg) return vlen; if (K && p == K->value) return kvlen; if (P && p == P->value) return pvlen; if (Q && p == Q->value) return pvlen; __CPROVER_assert(0, "STUB strlen of a known string"); return 0; }
static size_t k_strlcpy(char *d, const char *s, size_t n)
{
	__CPROVER_assert(n > 0 && __CPROVER_w_ok(d, n), "ENSURES within the field"); bool fits;
	if (N && d == N->section_name) { ENSURES(s == sarg, "the new section's name"); fits = slen < n; idN = fits ? ids : 99; d[0] = 'n'; return slen; }
	if (X && d == X->key) { ENSURES(s == karg, "the new key"); fits = klen < n; idX = fits ? idk : 99; d[0] = 'k'; return klen; }
	int c; size_t l; if (s == varg) { l = vlen; c = l < n ? 7 : 9; } else { ENSURES(s[0] == 0, "the value or nothing"); l = 0; c = 8; }
	if (X && d == X->value) vX = c; else if (K && d == K->value) vK = c; else if (P && d == P->value) vP = c; else if (Q && d == Q->value) vQ = c; else __CPROVER_assert(0, "STUB strlcpy to a known field"); return l;
}
static void *k_memcpy(void *d, const void *s, size_t n) { ENSURES(d == vout, "to the caller"); ENSURES(n <= vsz, "within the caller's size"); if (K && s == K->value) { ENSURES(n == kvlen + 1, "the whole value"); copied = vK; } else if (P && s == P->value) { ENSURES(n == pvlen + 1, "the whole value"); copied = vP; } else if (Q && s == Q->value) copied = vQ; else __CPROVER_assert(0, "STUB memcpy of a known value"); return d; }
static void *k_calloc(size_t a, size_t b) { if (BOOL()) { oom = true; return NULL; } if (a * b == sizeof(section_info_t)) { __CPROVER_assert(!N, "STUB one new section"); N = (malloc)(sizeof *N); __CPROVER_assume(N); *N = (section_info_t){0}; return N; } __CPROVER_assert(!X && a * b == sizeof(key_value_t), "STUB one new entry"); X = (malloc)(sizeof *X); __CPROVER_assume(X); X->key[0] = 0; X->value[0] = 0; return X; }
static void k_free(void *p) { if (N && p == N) { ENSURES(!np, "not while it is listed"); (free)(N); N = NULL; } else if (X && p == X) { ENSURES(!xp, "not while it is listed"); (free)(X); X = NULL; } else __CPROVER_assert(0, "ENSURES only what was allocated here is freed"); }
list_t *list_new(list_free_cb cb) { ENSURES(cb != NULL && !nl, "a list that owns its entries"); if (BOOL()) { oom = true; return NULL; } nl = true; return LT(NLo); }
static void live(const list_t *l) { ENSURES(l == LT(SLo) || (l == LT(WLo) && wp) || (l == LT(OLo) && op) || (l == LT(NLo) && nl), "a list that exists"); }
size_t list_length(const list_t *l) { live(l); size_t n = U32(); if (l == LT(NLo)) return 0; if (l == LT(SLo)) REQUIRES(n >= (size_t)wp + op); else if (l == LT(WLo)) REQUIRES(n >= (size_t)kp + pp); else REQUIRES(n >= (size_t)qp); return n; }
static list_node_t *try_(list_iter_cb cb, void *c, void *d, char *node) { return cb(d, c) ? NULL : (list_node_t *)node; }
list_node_t *list_foreach(const list_t *l, list_iter_cb cb, void *c)
{
	live(l); list_node_t *r = NULL;
	if (l == LT(SLo)) { if (flip && op) r = try_(cb, c, O, &nO); if (!r && wp) r = try_(cb, c, W, &nW); if (!r && !flip && op) r = try_(cb, c, O, &nO); }
	else if (l == LT(WLo)) { if (kflip && pp) r = try_(cb, c, P, &nP); if (!r && kp) r = try_(cb, c, K, &nK); if (!r && !kflip && pp) r = try_(cb, c, P, &nP); }
	else if (l == LT(OLo) && qp) r = try_(cb, c, Q, &nQ);
	return r;
}
void *list_node(const list_node_t *n) { const char *p = (const char *)n; if (p == &nW) return W; if (p == &nO) return O; if (p == &nK) return K; if (p == &nP) return P; if (p == &nQ) return Q; __CPROVER_assert(0, "STUB a node"); return NULL; }
bool list_append(list_t *l, void *d) { live(l); if (BOOL()) { oom = true; return false; } if (l == LT(SLo)) { ENSURES(N && d == N && !np && N->plist_section == LT(NLo), "only a new, complete section is added"); np = true; } else { ENSURES(X && d == X && !xp, "only a new entry is added"); xp = true; xl = l; } return true; }
bool list_remove(list_t *l, void *d)
{
	live(l); if (l == LT(SLo)) { if (d == W && wp) { wp = false; (free)(W); W = NULL; return true; } if (d == O && op) { op = false; (free)(O); O = NULL; return true; } }
	if (l == LT(WLo)) { if (d == K && kp) { kp = false; (free)(K); K = NULL; return true; } if (d == P && pp) { pp = false; (free)(P); P = NULL; return true; } } if (l == LT(OLo) && d == Q && qp) { qp = false; (free)(Q); Q = NULL; return true; }
	ENSURES(0, "only an element of the list is removed"); return false;
}
static bool wfreed, ofreed;
void list_free(list_t *l) { if (!l) return; if (l == LT(NLo)) { ENSURES(nl && !np, "the new list is freed once"); nl = false; return; } ENSURES((l == LT(WLo) && !wfreed) || (l == LT(OLo) && !ofreed), "a section's list is freed once"); if (l == LT(WLo)) { wfreed = true; if (kp) { kp = false; (free)(K); K = NULL; } if (pp) { pp = false; (free)(P); P = NULL; } } else { ofreed = true; if (qp) { qp = false; (free)(Q); Q = NULL; } } }
static key_value_t *kv(void) { key_value_t *k = (malloc)(sizeof *k); __CPROVER_assume(k); REQUIRES(k->key[0] != 0); return k; }
static section_info_t *se(list_t *l) { section_info_t *s = (malloc)(sizeof *s); __CPROVER_assume(s); s->plist_section = l; REQUIRES(s->section_name[0] != 0); return s; }
static bool stopped; static int sK, sP, sQ, hn, lastpos;
static int each(const char *s, const char *k, const char *v, const void *u)
{
	ENSURES(u == &SLo && !stopped, "the caller's argument, nothing after it asked to stop"); hn++; int pos;
	if (kp && k == K->key) { ENSURES(s == W->section_name && v == K->value && !sK++, "each entry once, with its section"); pos = (flip ? 4 : 0) + (kflip ? 2 : 1); } else if (pp && k == P->key) { ENSURES(s == W->section_name && v == P->value && !sP++, "each entry once, with its section"); pos = (flip ? 4 : 0) + (kflip ? 1 : 2); } else { ENSURES(qp && k == Q->key && s == O->section_name && v == Q->value && !sQ++, "each entry once, with its section"); pos = 3; }
	ENSURES(pos > lastpos, "in order"); lastpos = pos; int r = (int)I32(); stopped = r != 0; return r;
}
void vf_harness(void)
{
	W = se(LT(WLo)); O = se(LT(OLo)); K = kv(); P = kv(); Q = kv(); N = NULL; X = NULL; wp = BOOL(); op = BOOL(); kp = wp && BOOL(); pp = wp && BOOL(); qp = op && BOOL(); np = xp = nl = wfreed = ofreed = oom = false; xl = NULL; flip = BOOL(); kflip = BOOL(); copied = 0; vK = 1; vP = 2; vQ = 3; vX = 0;
	ids = U8() & 7; idk = U8() & 7; idW = U8() & 7; idO = U8() & 7; idK = U8() & 7; idP = U8() & 7; idQ = U8() & 7; idN = idX = 50; REQUIRES(idW != idO && idK != idP); slen = (size_t)U64(); klen = (size_t)U64(); vlen = (size_t)U64(); kvlen = RANGE(0, 255); pvlen = RANGE(0, 255); REQUIRES(slen < (1ull << 40) && klen < (1ull << 40) && vlen < (1ull << 40)); sarg[0] = slen ? 's' : 0; karg[0] = klen ? 'k' : 0; varg[0] = vlen ? 'v' : 0; sarg[1] = karg[1] = varg[1] = 0;
	REQUIRES(slen > 0 && slen < 64 || (ids != idW && ids != idO)); REQUIRES(klen > 0 && klen < 64 || (idk != idK && idk != idP && idk != idQ));   /* a name that does not fit or is empty is in no document */
	struct _ini_parser *p = (malloc)(sizeof *p); __CPROVER_assume(p); p->plist_sections = LT(SLo); REQUIRES(p->prediction_str_size < 1000000); unsigned cache = U8() % 3; REQUIRES(cache == 0 || (cache == 1 ? wp : op)); p->p_last_used_section = cache == 0 ? NULL : cache == 1 ? W : O;
	bool inW = wp && ids == idW, inO = op && ids == idO, hK = inW && kp && idk == idK, hP = inW && pp && idk == idP, hQ = inO && qp && idk == idQ, had = hK || hP || hQ, wp0 = wp, op0 = op, kp0 = kp, pp0 = pp, qp0 = qp; int r;
#if VF_CASE == 0
	const char *v = BOOL() ? varg : NULL; bool ns = BOOL() && BOOL(), nk = BOOL() && BOOL(); r = ini_parser_put_string(p, ns ? NULL : sarg, nk ? NULL : karg, v); int nv = v ? 7 : 8;
	ENSURES(wp == wp0 && op == op0 && kp == kp0 && pp == pp0 && qp == qp0, "nothing is removed");
	bool fit = !ns && !nk && slen > 0 && slen < 64 && klen > 0 && klen < 64 && (!v || vlen < 256);
	if (!fit) { ENSURES(r != 0 && !N && !X && !nl && vK == 1 && vP == 2 && vQ == 3, "refused without effect"); }
	else if (r == 0) {
		ENSURES(np == !(inW || inO) && xp == !had, "a section and an entry are added only when missing"); ENSURES(vK == (hK ? nv : 1) && vP == (hP ? nv : 2) && vQ == (hQ ? nv : 3), "only the entry's value changes"); if (np) ENSURES(idN == ids, "under the section's name"); if (xp) { ENSURES(xl == (inW ? LT(WLo) : inO ? LT(OLo) : LT(NLo)) && idX == idk && vX == nv, "in its section, with its key and value"); } REACH("put");
	} else { ENSURES(oom && vK == 1 && vP == 2 && vQ == 3 && !xp, "fails only without memory, and changes no entry"); }
	ENSURES((N != NULL) == np && (X != NULL) == xp && nl == np, "what is not in the document is released");
	ENSURES(p->p_last_used_section == NULL || (wp && p->p_last_used_section == W) || (op && p->p_last_used_section == O) || (np && p->p_last_used_section == N), "the cache names a section that exists");
#elif VF_CASE == 1
	vsz = (size_t)U64(); REQUIRES(vsz < (1ull << 40)); char out; vout = &out; unsigned how = U8() % 3; size_t need = hK ? kvlen : pvlen; r = how == 0 ? ini_parser_get_string(p, sarg, karg, vout, vsz) : how == 1 ? ini_parser_has_section_key(p, sarg, karg) : ini_parser_has_section(p, sarg);
	if (how == 2) ENSURES((r == 0) == (inW || inO), "whether the section exists"); else if (!had) ENSURES(r != 0 && !copied, "a missing section or key is reported"); else if (how == 1 || vsz == 0) ENSURES(r == 0, "whether the key exists"); else if (need < vsz) { ENSURES(r == 0 && copied == (hK ? 1 : hP ? 2 : 3), "the value last put"); REACH("got"); } else ENSURES(r != 0 && !copied, "no room");
	ENSURES(!N && !X && !nl && wp == wp0 && op == op0 && kp == kp0 && pp == pp0 && qp == qp0 && vK == 1 && vP == 2 && vQ == 3, "a lookup changes nothing");
	ENSURES(p->p_last_used_section == NULL || (wp && p->p_last_used_section == W) || (op && p->p_last_used_section == O), "the cache names a section that exists");
#elif VF_CASE == 2
	r = ini_parser_delete_by_section_key(p, sarg, karg); ENSURES((r == 0) == had, "reports whether it was there"); ENSURES(wp == wp0 && op == op0 && kp == (kp0 && !hK) && pp == (pp0 && !hP) && qp == (qp0 && !hQ) && !N && !X && !nl, "only that entry is removed"); if (had) REACH("deleted");
	ENSURES(p->p_last_used_section == NULL || (wp && p->p_last_used_section == W) || (op && p->p_last_used_section == O), "the cache names a section that exists");
#elif VF_CASE == 3
	r = ini_parser_delete_section(p, sarg); ENSURES((r == 0) == (inW || inO), "reports whether it was there"); ENSURES(wp == (wp0 && !inW) && op == (op0 && !inO) && wfreed == inW && ofreed == inO && !N && !X && !nl, "only that section is removed, with its entries"); if (!inW) ENSURES(kp == kp0 && pp == pp0, "the others stay"); if (!inO) ENSURES(qp == qp0, "the others stay");
	ENSURES(p->p_last_used_section == NULL || (wp && p->p_last_used_section == W) || (op && p->p_last_used_section == O), "the cache names a section that exists"); if (inW) REACH("deleted");
#else
	stopped = false; sK = sP = sQ = hn = 0; lastpos = 0; r = ini_parser_foreach(p, each, &SLo); ENSURES(r == 0, "succeeds"); if (!stopped) { ENSURES(hn == (int)kp + pp + qp, "every entry once"); REACH("all"); }
#endif
}
