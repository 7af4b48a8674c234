// SHA-256 compression: the processor's SHA instructions where present, portable code otherwise.
#include <cpuid.h>
#include <immintrin.h>
#include <stdint.h>
#include <stddef.h>
extern const uint32_t k256[64];
bool have_sha_ni() { unsigned a, b, c, d; static int v = -1; if (v < 0) { v = 0; if (__get_cpuid_count(7, 0, &a, &b, &c, &d) && (b & (1u << 29)) && __builtin_cpu_supports("sse4.1") && __builtin_cpu_supports("ssse3")) v = 1; } return v; }
__attribute__((target("sha,sse4.1,ssse3"))) void sha_ni_blocks(uint32_t *st, const unsigned char *p, size_t n) {
	const __m128i mask = _mm_set_epi64x(0x0c0d0e0f08090a0bULL, 0x0405060700010203ULL);
	__m128i t = _mm_shuffle_epi32(_mm_loadu_si128((const __m128i *)st), 0xB1), s1 = _mm_shuffle_epi32(_mm_loadu_si128((const __m128i *)(st + 4)), 0x1B);
	__m128i s0 = _mm_alignr_epi8(t, s1, 8); s1 = _mm_blend_epi16(s1, t, 0xF0);
	for (; n; n--, p += 64) {
		__m128i a0 = s0, a1 = s1, w[4];
		for (int i = 0; i < 4; i++) w[i] = _mm_shuffle_epi8(_mm_loadu_si128((const __m128i *)(p + 16 * i)), mask);
		for (int i = 0; i < 16; i++) {
			__m128i m = _mm_add_epi32(w[i & 3], _mm_loadu_si128((const __m128i *)(k256 + 4 * i)));
			s1 = _mm_sha256rnds2_epu32(s1, s0, m); m = _mm_shuffle_epi32(m, 0x0E); s0 = _mm_sha256rnds2_epu32(s0, s1, m);
			__m128i x = _mm_sha256msg1_epu32(w[i & 3], w[(i + 1) & 3]);
			x = _mm_add_epi32(x, _mm_alignr_epi8(w[(i + 3) & 3], w[(i + 2) & 3], 4)); w[i & 3] = _mm_sha256msg2_epu32(x, w[(i + 3) & 3]);
		}
		s0 = _mm_add_epi32(s0, a0); s1 = _mm_add_epi32(s1, a1);
	}
	t = _mm_shuffle_epi32(s0, 0x1B); s1 = _mm_shuffle_epi32(s1, 0xB1); s0 = _mm_blend_epi16(t, s1, 0xF0); s1 = _mm_alignr_epi8(s1, t, 8);
	_mm_storeu_si128((__m128i *)st, s0); _mm_storeu_si128((__m128i *)(st + 4), s1);
}
