/*VF
kind: full
functions: lcu_url_encode lcu_url_decode
unwind: 6
bound: 2
bunwind: 9
*/
/* Lemma on one byte with the real code: its token decodes to it and has the same length both ways.  With the
   per-token contracts of encode and decode (positions are running sums of token lengths) this gives the round
   trip for every length. */
#include "vf.h"
#include "src/net/url_encoder_decoder.c"
void vf_harness(void)
{
#ifdef VF_UNB
	char s[1], o[4], b[4]; size_t n = 1; s[0] = (char)U8(); char *last;
#else
	size_t n = SZ(1, 2000);
	char *s = BUFA(n, "aZ09 .-*_%+/=\x80\xff~"), *o = vf_alloc(3 * n + 1), *b = vf_alloc(n + 1), *last;
#endif
	int r = lcu_url_encode(o, 3 * n + 1, s, n);
	ENSURES(r > 0, "encoding into 3n+1 bytes succeeds");
	int d = lcu_url_decode(b, n + 1, o, r, &last);
	ENSURES(d == (int)n, "decode of encode has the original length");
	ENSURES(last == o + r, "decode consumes the whole text");
	ENSURES_FORALL(k, 0, n, b[k] == s[k], "decode of encode is the original");
	REACH("roundtrip");
}
