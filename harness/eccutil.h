/* Shared by the ECC drivers. */
#ifndef ECCUTIL_H_
#define ECCUTIL_H_

#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "poison.h"

static uint32_t rng_ = 1;

static inline uint32_t xs(void)
{
	rng_ ^= rng_ << 13;
	rng_ ^= rng_ >> 17;
	rng_ ^= rng_ << 5;
	return rng_;
}

static inline uint32_t rnd(uint32_t n)
{
	return n ? (xs() >> 3) % n : 0;
}

static inline void seed_rng(int seed)
{
	int i;

	rng_ = seed * 2654435761u + 88172645;
	if (!rng_)
		rng_ = 1;
	for (i = 0; i < 8; i++)
		xs();
}

struct opt {
	const char	*name;
	int		*val;
};

static inline void parse_args(int argc, char **argv, const struct opt *o)
{
	int i, k;

	for (i = 1; i < argc; i++) {
		char *eq = strchr(argv[i], '=');

		if (!eq)
			exit(2);
		*eq = 0;
		for (k = 0; o[k].name; k++)
			if (!strcmp(o[k].name, argv[i]))
				break;
		if (!o[k].name)
			exit(2);
		*o[k].val = atoi(eq + 1);
	}
}

/* Memory with guard bytes around it */
#define GUARD 64
#define GUARDED(name, size) \
	uint8_t name##_g[(size) + 2 * GUARD] __attribute__((aligned(GUARD))); \
	uint8_t *const name = name##_g + GUARD

/* (A buffer may shrink and grow within what's been reserved for it.) */
static inline void guard_off(uint8_t *p, int size)
{
	unpoison(p - GUARD, size + 2 * GUARD);
}

static inline void guard_set(uint8_t *p, int size)
{
	memset(p - GUARD, 0xc3, GUARD);
	memset(p + size, 0xc3, GUARD);
	poison(p - GUARD, GUARD);
	poison(p + size, GUARD);
}

static inline int guard_bad(const uint8_t *p, int size)
{
	int i, bad = 0;

	unpoison(p - GUARD, GUARD);
	unpoison(p + size, GUARD);
	for (i = 0; i < GUARD; i++)
		bad |= p[-1 - i] != 0xc3 || p[size + i] != 0xc3;
	poison(p - GUARD, GUARD);
	poison(p + size, GUARD);
	return bad;
}

/* Which bits differ between what's there and what was stored?  Data bits
 * first, then code bits. */
static inline void print_diff(const uint8_t *d, const uint8_t *d0, int len,
			      const uint8_t *c, const uint8_t *c0, int clen)
{
	int i, first = 1, n = 0;

	printf("[");
	for (i = 0; i < (len + clen) * 8 && n < 64; i++) {
		const int b = i >> 3;
		const int x = b < len ? d[b] ^ d0[b] : c[b - len] ^ c0[b - len];

		if ((x >> (i & 7)) & 1) {
			printf(first ? "%d" : ",%d", i);
			first = 0;
			n++;
		}
	}
	printf("]");
}

static inline void print_bytes(const uint8_t *p, int n)
{
	int i;

	printf("[");
	for (i = 0; i < n; i++)
		printf(i ? ",%d" : "%d", p[i]);
	printf("]");
}

/* What a chunk may look like */
static inline void fill_chunk(uint8_t *p, int len, int kind)
{
	int i;

	for (i = 0; i < len; i++)
		switch (kind) {
		case 0: p[i] = xs() >> 7; break;
		case 1: p[i] = 0xff; break;
		case 2: p[i] = 0; break;
		case 3: p[i] = i; break;
		default: p[i] = 0xff ^ (rnd(16) ? 0 : 1 << rnd(8)); break;
		}
}

static inline void flip(uint8_t *d, int len, uint8_t *c, int pos)
{
	uint8_t *p = pos >> 3 < len ? &d[pos >> 3] : &c[(pos >> 3) - len];

	*p ^= 1 << (pos & 7);
}

#endif
