/* Large maps on large chips: regions of many sectors are written, copied and
 * trimmed as a whole, and each must then read back as a whole.
 *
 *	lp lb nb gc	the chip and the map
 *	big mid		sizes of the two largest regions
 *	nops bad seed
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vnand.h"
#include "dhara/map.h"

static struct {
	int lp, lb, nb, gc, big, mid, nops, bad, seed;
} cfg = { 8, 2, 1000, 4, 1000, 100, 12, 0, 1 };

static const struct {
	const char *name;
	int *val;
} opts[] = {
#define O(x) { #x, &cfg.x }
	O(lp), O(lb), O(nb), O(gc), O(big), O(mid), O(nops), O(bad), O(seed),
	{ NULL, NULL }
#undef O
};

#define REGIONS 8

static struct vnand N;
static struct dhara_map M;
static uint8_t *page_buf, *buf;
static jmp_buf jb;
static uint32_t rng;
static int size[REGIONS];
static uint32_t base[REGIONS], mul[REGIONS];
static int next_d = 1;

static uint32_t rnd(uint32_t n)
{
	return n ? (xs(&rng) >> 4) % n : 0;
}

static dhara_sector_t sector(int r, int i)
{
	/* all sectors of a region share the top 3 bits; they're otherwise
	 * scattered by an odd factor */
	return ((uint32_t)r << 29) | ((base[r] + i * mul[r]) & 0x1fffffff);
}

static int content(int d, int i)
{
	return 1 + (d * 100003 + i) % 0xfffffe;
}

/* The most expensive call, of each kind of operation */
static long most[6];
static long lookup;

static void note(void)
{
	const long c[6] = { N.c.read, N.c.prog, N.c.erase, N.c.isbad,
		N.c.isfree, N.c.mark };
	int i;

	for (i = 0; i < 6; i++)
		if (c[i] > most[i])
			most[i] = c[i];
}

/* What's in region r?  -1: nothing, -2: not all the same, -3: trouble */
static int check(int r)
{
	int i, all = -9;

	for (i = 0; i < size[r]; i++) {
		dhara_error_t err = 0;
		dhara_page_t loc;
		int d, j, id;

		vn_zero_counters(&N);
		if (dhara_map_find(&M, sector(r, i), &loc, &err) < 0) {
			d = err == DHARA_E_NOT_FOUND ? -1 : -3;
		} else {
			if (N.c.read > lookup)
				lookup = N.c.read;
			if (dhara_map_read(&M, sector(r, i), buf, &err) < 0)
				return -3;
			if (loc >= (uint32_t)N.total ||
			    memcmp(buf, N.data + (size_t)loc * N.psz, N.psz))
				return -4;
			id = pat_id(buf, N.psz);
			d = -2;
			if (all >= 0 && content(all, i) == id)
				d = all;
			for (j = 1; d < 0 && all == -9 && j < next_d; j++)
				if (content(j, i) == id)
					d = j;
		}
		if (all == -9)
			all = d;
		if (d != all || d < -1)
			return -2;
	}
	return all;
}

static void state(void)
{
	int i, lo = -1, hi = 0;

	lookup = 0;
	printf(",\"v\":[");
	for (i = 0; i < REGIONS; i++)
		printf(i ? ",%d" : "%d", check(i));
	for (i = 0; i < cfg.nb; i++) {
		if (N.bad[i])
			continue;
		if (lo < 0 || N.erases[i] < lo)
			lo = N.erases[i];
		if (N.erases[i] > hi)
			hi = N.erases[i];
	}
	printf("],\"vn\":%d,\"cz\":%d,\"cl\":%d,\"lk\":%ld,\"er\":[%d,%d],"
	       "\"most\":[%ld,%ld,%ld,%ld,%ld,%ld]}\n",
	       (int)dhara_map_size(&M), (int)dhara_map_capacity(&M),
	       dhara_journal_is_clean(&M.journal), lookup, lo, hi,
	       most[0], most[1], most[2], most[3], most[4], most[5]);
}

static void up(const char *e)
{
	dhara_error_t err;
	int r;

	memset(page_buf, 0xa5, N.psz);
	memset(&M, 0xa5, sizeof(M));
	memset(most, 0, sizeof(most));
	vn_zero_counters(&N);
	dhara_map_init(&M, &N.n, page_buf, cfg.gc);
	r = dhara_map_resume(&M, &err);
	note();
	printf("{\"e\":\"%s\",\"r\":%d", e, r);
	state();
}

static void op(const char *name, int r, int r2)
{
	const int d = name[0] == 'w' ? next_d++ : 0;
	int i, failed = 0, x = 0, n = size[r];

	if (!strcmp(name, "gc"))
		n = 1 + rnd(size[0]);
	if (!strcmp(name, "sync") || !strcmp(name, "clear"))
		n = 1;
	memset(most, 0, sizeof(most));
	for (i = 0; i < n; i++) {
		/* not always in order */
		const int k = next_d & 1 ? i : n - 1 - i;
		dhara_error_t err = 0;
		int ret = 0;

		vn_zero_counters(&N);
		N.budget = 100000000;
		switch (name[0]) {
		case 'w':
			pat_fill(buf, N.psz, content(d, k));
			ret = dhara_map_write(&M, sector(r, k), buf, &err);
			break;
		case 't':
			ret = dhara_map_trim(&M, sector(r, k), &err);
			break;
		case 'g':
			ret = dhara_map_gc(&M, &err);
			break;
		case 's':
			ret = dhara_map_sync(&M, &err);
			break;
		case 'c':
			if (name[1] == 'l')
				dhara_map_clear(&M);
			else
				ret = dhara_map_copy_sector(&M, sector(r2, k),
						sector(r, k), &err);
			break;
		}
		note();
		if (ret < 0 && !failed++)
			x = err;
	}
	printf("{\"e\":\"op\",\"op\":\"%s\",\"s\":%d,\"s2\":%d,\"d\":%d,"
	       "\"r\":%d,\"x\":%d", name, r + 1, r2 + 1, d, failed, x);
	state();
}

int main(int argc, char **argv)
{
	int i, code;

	for (i = 1; i < argc; i++) {
		char *eq = strchr(argv[i], '=');
		int j;

		if (!eq)
			return 2;
		*eq = 0;
		for (j = 0; opts[j].name && strcmp(opts[j].name, argv[i]); j++)
			;
		if (!opts[j].name)
			return 2;
		*opts[j].val = atoi(eq + 1);
	}
	rng = cfg.seed * 2654435761u + 88172645;
	if (!rng)
		rng = 1;
	for (i = 0; i < 8; i++)
		xs(&rng);
	vn_alloc(&N, cfg.lp, cfg.lb, cfg.nb);
	N.rng = rng;
	vn_reset(&N);
	page_buf = malloc(N.psz);
	buf = malloc(N.psz);
	for (i = 0; i < cfg.bad; i++)
		N.bad[rnd(cfg.nb)] = 1;

	for (i = 0; i < REGIONS; i++) {
		size[i] = i == 0 ? cfg.big : i == 1 ? cfg.mid :
			i == 2 ? cfg.mid / 20 + 1 : i < 5 ? 1 + rnd(20) : 1;
		base[i] = xs(&rng);
		mul[i] = rnd(2) ? 1 : 1 + 2 * rnd(1 << rnd(28));
	}
	printf("{\"e\":\"cfg\",\"lp\":%d,\"lb\":%d,\"nb\":%d,\"gc\":%d,"
	       "\"rt\":%d,\"seed\":%d,\"bad\":%d,\"sizes\":[",
	       cfg.lp, cfg.lb, cfg.nb, cfg.gc, DHARA_MAX_RETRIES, cfg.seed,
	       cfg.bad);
	for (i = 0; i < REGIONS; i++)
		printf(i ? ",%d" : "%d", size[i]);
	printf("]}\n");

	N.budget = 1000000000;
	code = setjmp(jb);
	N.jb = &jb;
	if (code) {
		printf("{\"e\":\"bad\",\"what\":%d}\n", code);
		return 0;
	}
	up("init");
	for (i = 0; i < cfg.nops; i++) {
		const int what = i == 0 || i == 2 ? 0 : rnd(20);
		/* the big one once at first, then now and then */
		const int r = i == 0 ? 0 : i == 2 ? 1 :
			rnd(6) ? 1 + rnd(REGIONS - 1) : 0;
		int r2 = rnd(REGIONS);

		if (what < 8) {
			op("w", r, r);
		} else if (what < 11) {
			if (r)
				op("t", r, r);
		} else if (what < 14) {
			while (size[r2] < size[r])
				r2 = rnd(REGIONS);
			op("cs", r, r2);
		} else if (what < 16) {
			op("gc", r, r);
		} else if (what == 16 && i > cfg.nops / 2 && !rnd(3)) {
			op("clear", r, r);
		} else {
			op("sync", r, r);
			if (rnd(3))
				up("up");
		}
	}
	op("sync", 0, 0);
	up("up");
	printf("{\"e\":\"end\",\"st\":{\"erases_of_one_block\":%d,"
	       "\"most_sectors\":%d}}\n", N.erases[0], (int)dhara_map_size(&M));
	return 0;
}
