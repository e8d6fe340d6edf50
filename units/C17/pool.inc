/* a pool of any number of atoms of VF_ATOM bytes, as mplite_init lays it out: the blocks, then one control byte per atom */
#define VF_ATOM VF_CASE
static uint8_t *vf_mem, vf_w0; static size_t vf_len, vf_w; static int vf_nb;
static mplite_t vf_anyh(void) { mplite_t x; return x; }
static mplite_t *vf_pool(void)
{
	static mplite_t vf_h0; mplite_t *h = &vf_h0; *h = vf_anyh(); int nb = (int)RANGE(1, (0x7fffffffu) / (VF_ATOM + 1)); vf_nb = nb; vf_len = (size_t)nb * (VF_ATOM + 1); vf_mem = vf_alloc(vf_len);
	h->szAtom = VF_ATOM; h->nBlock = nb; h->zPool = vf_mem; h->aCtrl = vf_mem + (size_t)nb * VF_ATOM; return h;
}
static mplite_link_t *vf_lnk(const mplite_t *h, int b) { return (mplite_link_t *)&h->zPool[b * VF_ATOM]; }
/* b is the start of a block of 2^k atoms */
static _Bool vf_blk(const mplite_t *h, int b, int k) { return b >= 0 && k <= MPLITE_LOGMAX && (b & (int)((1u << k) - 1)) == 0 && (long long)b + (1ll << k) <= h->nBlock; }
static _Bool vf_freeblk(const mplite_t *h, int b, int k, int first, int next) { return vf_blk(h, b, k) && h->aCtrl[b] == (MPLITE_CTRL_FREE | k) && (!first || (vf_lnk(h, b)->prev == -1 && vf_lnk(h, b)->next == next)); }
static _Bool vf_inlinks(size_t w, int b, int k) { return w >= (size_t)b * VF_ATOM && w < ((size_t)b + ((size_t)1 << k)) * VF_ATOM; }
static _Bool vf_inctrl(size_t w, int b, int k) { size_t c = (size_t)vf_nb * VF_ATOM; return w >= c + (size_t)b && w < c + (size_t)b + ((size_t)1 << k); }
static void vf_wsave(void) { vf_w0 = vf_mem[vf_w]; }
static void vf_wcheck(void) { ENSURES(vf_mem[vf_w] == vf_w0, "memory outside the chosen block is unchanged by an iteration"); }
