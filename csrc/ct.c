/* Secret independence, watched by MemorySanitizer: the secret bytes are marked uninitialized, so that any branch
 * taken on them and any address formed from them is reported. usage: ct seed rounds [which] */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sanitizer/msan_interface.h>
#include "api.h"
#include "inner.h"
#define SECRET(p, n) __msan_poison((p), (n))
#define PUBLIC(p, n) __msan_unpoison((p), (n))
static uint64_t st;
static uint64_t rnd(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st; }
static void fill(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)(rnd() >> 21); }
static unsigned long calls[32];
static const char *names[32] = {"hash_to_point_ct", "shake256", "keccak256", "verify_recover", "", "", "", "",
	"fpr_add_mul_div_sqrt", "fpr_rounding", "fpr_expm_p63", "fft_algebra", "gaussian0_sampler", "", ""};

static fpr rf(void) { fpr x = fpr_scaled((int64_t)rnd() >> 8, -40); return x; }
static volatile uint64_t sink;
/* the result may be used by the caller, so it is declared before leaving */
static void out(void *p, size_t n) { unsigned char h = 0; PUBLIC(p, n); for (size_t i = 0; i < n; i++) h ^= ((unsigned char *)p)[i]; sink += h; }

int main(int argc, char **argv)
{
	st = strtoull(argv[1], 0, 10) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
	int rounds = atoi(argv[2]);
	for (int r = 0; r < rounds; r++) {
		unsigned logn = 1 + rnd() % 10;
		size_t n = (size_t)1 << logn;
		uint16_t *x = malloc(2 * n), *c0 = malloc(2 * n);
		int16_t *s = malloc(2 * n), *s1 = malloc(2 * n);
		uint8_t *tmp = aligned_alloc(8, 8192);
		unsigned char buf[400];
		size_t bl = rnd() % sizeof buf;
		fill(buf, sizeof buf);
		{
			inner_shake256_context sc;
			SECRET(buf, bl);
			inner_shake256_init(&sc);
			inner_shake256_inject(&sc, buf, bl);
			inner_shake256_flip(&sc);
			calls[1]++;
			Zf(hash_to_point_ct)(&sc, x, logn, tmp);
			calls[0]++;
			out(x, 2 * n);
			inner_keccak256_prng_ctx kc;
			unsigned char o[100];
			inner_keccak256_init(&kc);
			inner_keccak256_inject(&kc, buf, bl);
			inner_keccak256_flip(&kc);
			inner_keccak256_extract(&kc, o, sizeof o);
			out(o, sizeof o);
			calls[2]++;
			PUBLIC(buf, sizeof buf);
		}
		for (size_t i = 0; i < n; i++) {
			x[i] = rnd() % 12289; c0[i] = rnd() % 12289;
			s[i] = (int)(rnd() % 600) - 300; s1[i] = (int)(rnd() % 600) - 300;
		}
		SECRET(s, 2 * n); SECRET(s1, 2 * n); SECRET(c0, 2 * n);
		int v = Zf(verify_recover)(x, c0, s1, s, logn, tmp); out(&v, sizeof v); out(x, 2 * n); calls[3]++;
		for (int k = 0; k < 20; k++) {
			fpr a = rf(), b = rf(), c;
			if (k == 0) a = fpr_zero;
			if (k == 1) b = fpr_neg(a);
			SECRET(&a, sizeof a); SECRET(&b, sizeof b);
			c = fpr_add(a, b); out(&c, sizeof c);
			c = fpr_sub(a, b); out(&c, sizeof c);
			c = fpr_mul(a, b); out(&c, sizeof c);
			c = fpr_div(a, b); out(&c, sizeof c);
			c = fpr_sqrt(a); out(&c, sizeof c);
			c = fpr_half(a); out(&c, sizeof c);
			c = fpr_double(a); out(&c, sizeof c);
			calls[8]++;
			int64_t i = fpr_rint(a); out(&i, sizeof i);
			i = fpr_floor(b); out(&i, sizeof i);
			i = fpr_trunc(b); out(&i, sizeof i);
			int l = fpr_lt(a, b); out(&l, sizeof l);
			int64_t w = (int64_t)rnd() >> (rnd() % 60);
			SECRET(&w, sizeof w);
			c = fpr_of(w); out(&c, sizeof c);
			calls[9]++;
			fpr e = fpr_scaled((int64_t)(rnd() % 6000), -14), ccs = fpr_scaled((int64_t)(rnd() % 16000), -14);
			SECRET(&e, sizeof e); SECRET(&ccs, sizeof ccs);
			uint64_t z = fpr_expm_p63(e, ccs); out(&z, sizeof z);
			calls[10]++;
		}
		if (logn >= 2) {
			fpr *f[5];
			for (int k = 0; k < 5; k++) {
				f[k] = malloc(n * sizeof(fpr));
				for (size_t i = 0; i < n; i++) f[k][i] = rf();
				SECRET(f[k], n * sizeof(fpr));
			}
			Zf(FFT)(f[0], logn); Zf(FFT)(f[1], logn);
			Zf(poly_mul_fft)(f[0], f[1], logn);
			Zf(poly_mulselfadj_fft)(f[1], logn);
			Zf(poly_div_fft)(f[0], f[1], logn);
			Zf(poly_LDLmv_fft)(f[3], f[4], f[1], f[0], f[2], logn);
			Zf(poly_split_fft)(f[2], f[2] + n / 2, f[3], logn);
			Zf(poly_merge_fft)(f[4], f[2], f[2] + n / 2, logn);
			Zf(iFFT)(f[4], logn);
			for (int k = 0; k < 5; k++) { out(f[k], n * sizeof(fpr)); free(f[k]); }
			calls[11]++;
		}
		{
			prng p;
			inner_shake256_context sc;
			inner_shake256_init(&sc); inner_shake256_inject(&sc, buf, 48); inner_shake256_flip(&sc);
			Zf(prng_init)(&p, &sc);
			SECRET(p.buf.d, sizeof p.buf.d);
			for (int k = 0; k < 30; k++) { int z = Zf(gaussian0_sampler)(&p); out(&z, sizeof z); calls[12]++; }
		}
		free(x); free(c0); free(s); free(s1); free(tmp);
	}
	printf("EVENTS");
	for (int i = 0; i < 15; i++) if (names[i][0]) printf(" %s=%lu", names[i], calls[i]);
	printf("\n");
	return 0;
}
