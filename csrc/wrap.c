/* Externally visible names for what the C reference keeps in headers (inline functions, structure sizes). */
#include "inner.h"
#include <string.h>
#include "api.h"

size_t w_sizeof_shake(void) { return sizeof(inner_shake256_context); }
size_t w_sizeof_keccak(void) { return sizeof(inner_keccak256_prng_ctx); }
size_t w_sizeof_prng(void) { return sizeof(prng); }
size_t w_sizeof_sampler(void) { return sizeof(sampler_context); }
size_t w_sizeof_fpr(void) { return sizeof(fpr); }
int w_pk(void) { return CRYPTO_PUBLICKEYBYTES; }
int w_sk(void) { return CRYPTO_SECRETKEYBYTES; }
int w_bytes(void) { return CRYPTO_BYTES; }
int w_zpk(void) { return ZKNOX_CRYPTO_PUBLICKEYBYTES; }
int w_zbytes(void) { return ZKNOX_CRYPTO_BYTES; }
int w_ebytes(void) { return ZKNOX_CRYPTO_BYTES_EPERVIER; }

fpr w_fpr_of(int64_t i) { return fpr_of(i); }
fpr w_fpr_scaled(int64_t i, int sc) { return fpr_scaled(i, sc); }
int64_t w_fpr_rint(fpr x) { return fpr_rint(x); }
int64_t w_fpr_trunc(fpr x) { return fpr_trunc(x); }
int64_t w_fpr_floor(fpr x) { return fpr_floor(x); }
fpr w_fpr_add(fpr x, fpr y) { return fpr_add(x, y); }
fpr w_fpr_sub(fpr x, fpr y) { return fpr_sub(x, y); }
fpr w_fpr_neg(fpr x) { return fpr_neg(x); }
fpr w_fpr_half(fpr x) { return fpr_half(x); }
fpr w_fpr_double(fpr x) { return fpr_double(x); }
fpr w_fpr_mul(fpr x, fpr y) { return fpr_mul(x, y); }
fpr w_fpr_sqr(fpr x) { return fpr_sqr(x); }
fpr w_fpr_inv(fpr x) { return fpr_inv(x); }
fpr w_fpr_div(fpr x, fpr y) { return fpr_div(x, y); }
fpr w_fpr_sqrt(fpr x) { return fpr_sqrt(x); }
int w_fpr_lt(fpr x, fpr y) { return fpr_lt(x, y); }
uint64_t w_fpr_expm_p63(fpr x, fpr ccs) { return fpr_expm_p63(x, ccs); }

uint64_t w_prng_u64(prng *p) { return prng_get_u64(p); }
unsigned w_prng_u8(prng *p) { return prng_get_u8(p); }
void w_sampler_init(sampler_context *c, inner_shake256_context *src, fpr sigma_min)
{
	c->sigma_min = sigma_min;
	Zf(prng_init)(&c->p, src);
}
void w_prng_set_cc(prng *p, uint64_t cc) { memcpy(p->state.d + 48, &cc, 8); Zf(prng_refill)(p); }
prng *w_sampler_prng(sampler_context *c) { return &c->p; }
fpr w_sigma_min(int logn) { return fpr_sigma_min[logn]; }
fpr w_inv_sigma(int logn) { return fpr_inv_sigma[logn]; }

#include <stddef.h>
#include "katrng.h"
size_t w_xof_left_offset(void) { return offsetof(AES_XOF_struct, length_remaining); }
size_t w_xof_ctr_offset(void) { return offsetof(AES_XOF_struct, ctr); }
