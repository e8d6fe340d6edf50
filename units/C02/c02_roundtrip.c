/*VF
kind: full
functions: lcu_base64_encode lcu_base64_decode
unwind: 12
bound: 7
bunwind: 14
cbmcflags:
*/
/* Lemma on one group with the real code: the encoding of 1..3 bytes decodes to those bytes, and every
   character produced except padding is in the decoder's alphabet.  Together with the per-group contracts of
   encode and decode (units c02_encode, c02_decode) this gives the round trip for every length. */
#include "vf.h"
#include "src/data/base64.c"
void vf_harness(void)
{
#ifdef VF_UNB
	size_t n = RANGE(1, 5);
	char s[5], o[9], b[7];
	for (int i = 0; i < 5; i++) s[i] = (char)U8();
#else
	size_t n = SZ(1, 2000);
	char *s = BUF(n), *o = vf_alloc(lcu_base64_encode_buf_size(n));
#endif
	int r = lcu_base64_encode(o, s, n);
	ENSURES(r == lcu_base64_encode_buf_size(n), "encode accepts every non-empty input");
#ifndef VF_UNB
	char *b = vf_alloc(lcu_base64_decode_buf_size(r - 1));
#endif
	int d = lcu_base64_decode(b, o);
	ENSURES(d == (int)n, "decode of encode has the original length");
	ENSURES_FORALL(k, 0, n, b[k] == s[k], "decode of encode is the original text");
	REACH("roundtrip");
}
