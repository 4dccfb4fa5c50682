/* randombytes() for the monitors: a seeded stream, an optional script of bytes to hand out first, a log of the
 * requests, and an optional hook. State is per thread, so that the library's own sharing is what races. */
#include <stdint.h>
#include <stddef.h>
#include <string.h>

#define LOGN 4096
static __thread uint64_t rb_state = 0x243F6A8885A308D3ULL;
static __thread const unsigned char *rb_script;
static __thread size_t rb_script_len;
static __thread uint64_t rb_total;
static __thread uint32_t rb_nlog;
static __thread uint64_t rb_log[LOGN];

static uint64_t next64(void)
{
	uint64_t z = (rb_state += 0x9E3779B97F4A7C15ULL);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
	return z ^ (z >> 31);
}

void rb_seed(uint64_t s) { rb_state = s; rb_script = NULL; rb_script_len = 0; rb_total = 0; rb_nlog = 0; }
void rb_set_script(const unsigned char *p, size_t n) { rb_script = p; rb_script_len = n; }
uint64_t rb_bytes_used(void) { return rb_total; }
uint32_t rb_calls(void) { return rb_nlog; }
uint64_t rb_call_len(uint32_t i) { return i < LOGN ? rb_log[i] : 0; }

int randombytes(unsigned char *x, unsigned long long xlen)
{
	if (rb_nlog < LOGN) rb_log[rb_nlog] = xlen;
	rb_nlog++;
	rb_total += xlen;
	while (xlen > 0) {
		if (rb_script_len > 0) {
			*x++ = *rb_script++;
			rb_script_len--;
			xlen--;
		} else {
			uint64_t w = next64();
			unsigned k = xlen < 8 ? (unsigned)xlen : 8;
			memcpy(x, &w, k);
			x += k;
			xlen -= k;
		}
	}
	return 0;
}
