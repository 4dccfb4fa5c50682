/* The answer-file programs seed their generator with 0, 1, ..., 47. With KAT_ENTROPY set, the first seeding takes
 * that value instead, so that the same programs write other files. Linked with --wrap=randombytes_init. */
#include <stdio.h>
#include <stdlib.h>

void __real_randombytes_init(unsigned char *e, unsigned char *p, int s);

void
__wrap_randombytes_init(unsigned char *e, unsigned char *p, int s)
{
	static int calls;
	const char *h = getenv("KAT_ENTROPY");
	int i;

	if (calls++ == 0 && h != NULL) {
		for (i = 0; i < 48; i++) {
			unsigned v;
			if (sscanf(h + 2 * i, "%2x", &v) != 1) {
				abort();
			}
			e[i] = (unsigned char)v;
		}
	}
	__real_randombytes_init(e, p, s);
}
