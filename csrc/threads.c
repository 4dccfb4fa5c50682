/* The C interface from several threads at once, each with its own random stream, must do what it does in one.
 * usage: threads nthreads rounds seed; prints one digest per thread run alone and one per thread run together. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <sched.h>
#include "api.h"
#include "inner.h"
void rb_seed(uint64_t s);
int randombytes(unsigned char *x, unsigned long long n);

struct job { int id, rounds; uint64_t seed; uint64_t dig; unsigned long ops; pthread_barrier_t *bar; };
static void mix(struct job *j, const void *p, size_t n)
{
	const unsigned char *b = p;
	uint64_t h = j->dig;
	for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001B3ULL;
	j->dig = h;
}
typedef int (*sign_f)(unsigned char *, unsigned long long *, const unsigned char *, unsigned long long, const unsigned char *);
static void *work(void *v)
{
	struct job *j = v;
	static const sign_f S[3] = {crypto_sign, zknox_crypto_sign, zknox_crypto_sign_epervier};
	static const sign_f O[3] = {crypto_sign_open, zknox_crypto_sign_open, zknox_crypto_sign_open_epervier};
	static const int over[3] = {CRYPTO_BYTES, ZKNOX_CRYPTO_BYTES, ZKNOX_CRYPTO_BYTES_EPERVIER};
	unsigned char pk[3][ZKNOX_CRYPTO_PUBLICKEYBYTES], sk[2][CRYPTO_SECRETKEYBYTES];
	uint64_t y = j->seed * 77 + j->id;
	rb_seed(j->seed * 1000 + j->id);
	j->dig = 0xcbf29ce484222325ULL;
	if (j->bar) pthread_barrier_wait(j->bar);
	for (int r = 0; r < j->rounds; r++) {
		mix(j, "k", 1);
		if (crypto_sign_keypair(pk[0], sk[0]) || zknox_crypto_sign_keypair(pk[1], sk[1])) { printf("keypair failed\n"); exit(3); }
		memcpy(pk[2], pk[1], sizeof pk[2]);
		if (zknox_pk_epervier(pk[2])) { printf("epervier pk failed\n"); exit(3); }
		for (int i = 0; i < 3; i++) mix(j, pk[i], i ? ZKNOX_CRYPTO_PUBLICKEYBYTES : CRYPTO_PUBLICKEYBYTES);
		mix(j, sk, sizeof sk);
		j->ops += 3;
		for (int k = 0; k < 6; k++) {
			int s = (k + j->id) % 3;
			unsigned char m[200], sm[200 + ZKNOX_CRYPTO_BYTES_EPERVIER], o[200 + ZKNOX_CRYPTO_BYTES_EPERVIER];
			unsigned long long n = 0, n2 = 0;
			size_t ml = (size_t)(17 * k + j->id) % sizeof m;
			randombytes(m, ml);
			int rc = S[s](sm, &n, m, ml, s == 0 ? sk[0] : sk[1]);
			mix(j, &rc, sizeof rc); mix(j, sm, n);
			y = y * 6364136223846793005ULL + 1442695040888963407ULL;
			if ((y >> 60) < 4) sched_yield();
			rc = O[s](o, &n2, sm, n, pk[s]);
			if (rc || n2 != ml || memcmp(o, m, ml)) { printf("MISMATCH thread %d: genuine signature refused (kind %d)\n", j->id, s); exit(4); }
			sm[n > 60 ? 60 : 5] ^= 1;
			rc = O[s](o, &n2, sm, n, pk[s]);
			mix(j, &rc, sizeof rc);
			j->ops += 3;
		}
		/* the hash, transform and sampler layers */
		inner_shake256_context sc;
		inner_keccak256_prng_ctx kc;
		uint16_t x[512];
		uint8_t tmp[4096];
		inner_shake256_init(&sc); inner_shake256_inject(&sc, (unsigned char *)&y, 8); inner_shake256_flip(&sc);
		Zf(hash_to_point_ct)(&sc, x, 9, tmp); mix(j, x, sizeof x);
		inner_keccak256_init(&kc); inner_keccak256_inject(&kc, (unsigned char *)&y, 8); inner_keccak256_flip(&kc);
		Zf(keccak_hash_to_point_vartime)(&kc, x, 9); Zf(to_ntt_monty)(x, 9); mix(j, x, sizeof x);
		j->ops += 2;
	}
	return NULL;
}
int main(int argc, char **argv)
{
	int n = atoi(argv[1]), rounds = atoi(argv[2]);
	uint64_t seed = strtoull(argv[3], 0, 10);
	struct job a[32], b[32];
	pthread_t t[32];
	pthread_barrier_t bar;
	unsigned long ops = 0;
	pthread_barrier_init(&bar, NULL, n);
	for (int i = 0; i < n; i++) { a[i] = (struct job){i, rounds, seed, 0, 0, NULL}; b[i] = a[i]; b[i].bar = &bar; }
	for (int i = 0; i < n; i++) pthread_create(&t[i], NULL, work, &b[i]);
	for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
	for (int i = 0; i < n; i++) work(&a[i]);
	int bad = 0;
	for (int i = 0; i < n; i++) {
		ops += a[i].ops + b[i].ops;
		if (a[i].dig != b[i].dig) { printf("MISMATCH thread %d: outputs differ from the same work done alone\n", i); bad = 1; }
	}
	printf("EVENTS ops=%lu threads=%d\n", ops, n);
	return bad ? 4 : 0;
}
