/* Drives the public C interface with genuine and hostile inputs; built under MemorySanitizer (every byte the
 * library outputs must be initialized, and nothing uninitialized may steer it).
 * usage: drive seed rounds; prints the events it saw. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "api.h"
#include "inner.h"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define INIT(p, n) __msan_check_mem_is_initialized((p), (n))
#define POISON(p, n) __msan_poison((p), (n))
#endif
#endif
#ifndef INIT
#define INIT(p, n) ((void)0)
#define POISON(p, n) ((void)0)
#endif

void rb_seed(uint64_t s);
int randombytes(unsigned char *x, unsigned long long n);
static uint64_t st;
static uint64_t rnd(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st; }
static unsigned long ev_keys, ev_signs, ev_opens, ev_ok, ev_inner;

typedef int (*sign_f)(unsigned char *, unsigned long long *, const unsigned char *, unsigned long long, const unsigned char *);
static void dirty_stack(void)
{
	volatile unsigned char junk[60000];
	for (size_t i = 0; i < sizeof junk; i += 64) junk[i] = (unsigned char)i;
	POISON((void *)junk, sizeof junk);
}

static void hostile(sign_f op, const unsigned char *sm, size_t n, const unsigned char *pk, size_t pklen)
{
	size_t siglen = ((size_t)sm[0] << 8) | sm[1];
	for (int k = 0; k < 24; k++) {
		size_t m = n;
		unsigned char *b = malloc(n + 64), *out = malloc(n + 64), *p = malloc(pklen);
		unsigned long long ml = 0;
		memcpy(b, sm, n);
		memcpy(p, pk, pklen);
		unsigned w = rnd() % 12;
		size_t cut;
		switch (w) {
		case 0: b[rnd() % n] ^= 1 << (rnd() % 8); break;
		case 1: cut = rnd() % 5 == 0 ? rnd() % n : n - 1 - rnd() % 3; m = cut; break;
		case 2: { unsigned v = rnd() % 3 ? rnd() % 8 : rnd() % 65536; b[0] = v >> 8; b[1] = v; break; }
		case 3: { /* only the first few bytes of the signature stay */
			size_t keep = rnd() % 6, ml0 = n - 42 - siglen;
			m = 42 + ml0 + keep; b[0] = keep >> 8; b[1] = keep; break; }
		case 4: memset(b + n - siglen + 1, rnd() % 2 ? 0xFF : 0, rnd() % siglen); break;
		case 5: for (int i = 0; i < 20; i++) b[n - siglen + 1 + rnd() % (siglen - 1)] = rnd(); break;
		case 6: for (size_t i = n - siglen + 1; i < n; i++) b[i] = rnd(); break;
		case 7: p[0] = rnd(); break;
		case 8: p[1 + rnd() % (pklen - 1)] = 0xFF; break;
		case 9: m = rnd() % 45; if (m > n) m = n; break;
		case 10: { size_t keep = siglen - rnd() % 10, ml0 = n - 42 - siglen; m = 42 + ml0 + keep; b[0] = keep >> 8; b[1] = keep; break; }
		default: memset(b + 2, rnd(), 40); break;
		}
		unsigned char *x = malloc(m ? m : 1);
		memcpy(x, b, m);
		POISON(out, n + 64);
		dirty_stack();
		int r = op(out, &ml, x, m, p);
		ev_opens++;
		if (r == 0) { INIT(&ml, sizeof ml); INIT(out, ml); ev_ok++; }
		free(b); free(x); free(out); free(p);
	}
}

int main(int argc, char **argv)
{
	uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
	int rounds = argc > 2 ? atoi(argv[2]) : 1;
	st = seed * 0x9E3779B97F4A7C15ULL + 1;
	rb_seed(seed);
	for (int r = 0; r < rounds; r++) {
		unsigned char *pk = malloc(CRYPTO_PUBLICKEYBYTES), *sk = malloc(CRYPTO_SECRETKEYBYTES);
		unsigned char *zpk = malloc(ZKNOX_CRYPTO_PUBLICKEYBYTES), *zsk = malloc(CRYPTO_SECRETKEYBYTES);
		unsigned char sd[80];
		randombytes(sd, sizeof sd);
		dirty_stack();
		if (r & 1) {
			if (crypto_sign_keypair_from_seed(pk, sk, sd, 32 + rnd() % 40)) abort();
			if (zknox_crypto_sign_keypair_from_seed(zpk, zsk, sd, 32 + rnd() % 40)) abort();
			if (!crypto_sign_keypair_from_seed(pk, sk, sd, rnd() % 32)) abort();
			if (!zknox_crypto_sign_keypair_from_seed(zpk, zsk, sd, rnd() % 32)) abort();
		} else {
			if (crypto_sign_keypair(pk, sk)) abort();
			dirty_stack();
			if (zknox_crypto_sign_keypair(zpk, zsk)) abort();
		}
		ev_keys += 2;
		INIT(pk, CRYPTO_PUBLICKEYBYTES); INIT(sk, CRYPTO_SECRETKEYBYTES);
		INIT(zpk, ZKNOX_CRYPTO_PUBLICKEYBYTES); INIT(zsk, CRYPTO_SECRETKEYBYTES);
		unsigned char *epk = malloc(ZKNOX_CRYPTO_PUBLICKEYBYTES);
		memcpy(epk, zpk, ZKNOX_CRYPTO_PUBLICKEYBYTES);
		if (zknox_pk_epervier(epk)) abort();
		INIT(epk, ZKNOX_CRYPTO_PUBLICKEYBYTES);
		for (int i = 0; i < 4; i++) {
			size_t ml = (size_t[]){0, 1, 96, 97, 300, 1025, 4056}[rnd() % 7];
			unsigned char *m = malloc(ml ? ml : 1);
			randombytes(m, ml);
			for (int k = 0; k < 3; k++) {
				size_t over = k == 0 ? CRYPTO_BYTES : k == 1 ? ZKNOX_CRYPTO_BYTES : ZKNOX_CRYPTO_BYTES_EPERVIER;
				sign_f s = k == 0 ? crypto_sign : k == 1 ? zknox_crypto_sign : zknox_crypto_sign_epervier;
				sign_f o = k == 0 ? crypto_sign_open : k == 1 ? zknox_crypto_sign_open : zknox_crypto_sign_open_epervier;
				unsigned char *sm = malloc(ml + over), *out = malloc(ml + over);
				unsigned long long n = 0, n2 = 0;
				POISON(sm, ml + over);
				dirty_stack();
				int rc = s(sm, &n, m, ml, k == 0 ? sk : zsk);
				if (rc) { printf("sign failed\n"); return 3; }
				INIT(&n, sizeof n); INIT(sm, n);
				ev_signs++;
				POISON(out, ml + over);
				dirty_stack();
				rc = o(out, &n2, sm, n, k == 0 ? pk : k == 1 ? zpk : epk);
				ev_opens++;
				if (rc == 0) { INIT(out, n2); ev_ok++; }
				hostile(o, sm, n, k == 0 ? pk : k == 1 ? zpk : epk, k == 0 ? CRYPTO_PUBLICKEYBYTES : ZKNOX_CRYPTO_PUBLICKEYBYTES);
				/* hostile private keys must be refused or handled */
				for (int q = 0; q < 2; q++) {
					unsigned char *bad = malloc(CRYPTO_SECRETKEYBYTES);
					memcpy(bad, k == 0 ? sk : zsk, CRYPTO_SECRETKEYBYTES);
					if (q == 0) bad[0] = rnd() | 0x80;
					else bad[1 + rnd() % 768] = 0x82;
					/* a key that decodes but is not a Falcon key is refused by complete_private or signs nonsense:
					 * signing may then never find a short vector, so only keys that fail decoding are used */
					if (q == 1) { memset(bad + 1, 0x20 << 2, 3); bad[1] = 0x82; bad[2] = 0x08; bad[3] = 0x20; }
					unsigned long long nn = 0;
					dirty_stack();
					int rr = s(sm, &nn, m, ml, bad);
					ev_signs++;
					if (rr == 0) INIT(sm, nn);
					free(bad);
				}
				free(sm); free(out);
			}
			free(m);
		}
		/* inner pieces with poisoned outputs */
		for (unsigned logn = 1; logn <= 9; logn++) {
			size_t n = (size_t)1 << logn;
			inner_shake256_context sc;
			inner_keccak256_prng_ctx kc;
			uint16_t *x = malloc(2 * n), *y = malloc(2 * n);
			uint8_t *tmp = malloc(4096);
			unsigned char t[60];
			randombytes(t, sizeof t);
			inner_shake256_init(&sc); inner_shake256_inject(&sc, t, sizeof t); inner_shake256_flip(&sc);
			POISON(x, 2 * n); POISON(y, 2 * n); POISON(tmp, 4096);
			Zf(hash_to_point_vartime)(&sc, x, logn);
			INIT(x, 2 * n);
			inner_shake256_init(&sc); inner_shake256_inject(&sc, t, sizeof t); inner_shake256_flip(&sc);
			dirty_stack();
			Zf(hash_to_point_ct)(&sc, y, logn, tmp);
			INIT(y, 2 * n);
			if (memcmp(x, y, 2 * n)) { printf("htp differs\n"); return 3; }
			POISON(&kc, sizeof kc);
			inner_keccak256_init(&kc); inner_keccak256_inject(&kc, t, sizeof t); inner_keccak256_flip(&kc);
			POISON(x, 2 * n);
			Zf(keccak_hash_to_point_vartime)(&kc, x, logn);
			INIT(x, 2 * n);
			ev_inner += 3;
			free(x); free(y); free(tmp);
		}
		free(pk); free(sk); free(zpk); free(zsk); free(epk);
	}
	printf("EVENTS keys=%lu signs=%lu opens=%lu opened=%lu inner=%lu\n", ev_keys, ev_signs, ev_opens, ev_ok, ev_inner);
	return 0;
}
