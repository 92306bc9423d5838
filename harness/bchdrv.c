/* Stores chunks with their BCH code, damages them, has them verified and
 * repaired, and records what happened.  See spec/BchTrace.tla.
 */
#include "eccutil.h"
#include "ecc/bch.h"

static int seed = 1, t = 4, len = 512, n = 500, mode, lenmax;

static const struct opt opts[] = {
	{ "seed", &seed }, { "t", &t }, { "len", &len }, { "n", &n },
	{ "mode", &mode }, { "lenmax", &lenmax }, { NULL, NULL }
};

GUARDED(data, BCH_MAX_CHUNK_SIZE);
GUARDED(code, BCH_MAX_ECC);
static uint8_t data0[BCH_MAX_CHUNK_SIZE], code0[BCH_MAX_ECC];
static const struct bch_def *bch;

static void check_guards(int l)
{
	if (guard_bad(data, l) || guard_bad(code, bch->ecc_bytes))
		printf("{\"e\":\"bad\",\"what\":\"guard\"}\n");
}

static void store(int l, int kind)
{
	guard_off(data, BCH_MAX_CHUNK_SIZE);
	guard_off(code, BCH_MAX_ECC);
	guard_set(data, l);
	guard_set(code, bch->ecc_bytes);
	fill_chunk(data, l, kind);
	memcpy(data0, data, l);
	bch_generate(bch, data, l, code);
	check_guards(l);
	memcpy(code0, code, bch->ecc_bytes);
	printf("{\"e\":\"store\",\"len\":%d,\"same\":%d,\"erased\":%d", l,
	       !memcmp(data, data0, l), kind == 1);
	{
		int i, ones = 1;

		for (i = 0; i < bch->ecc_bytes; i++)
			ones &= code[i] == 0xff;
		printf(",\"ones\":%d}\n", ones);
	}
}

static void verify(int l)
{
	uint8_t d1[BCH_MAX_CHUNK_SIZE], c1[BCH_MAX_ECC];
	int r;

	memcpy(d1, data, l);
	memcpy(c1, code, bch->ecc_bytes);
	r = bch_verify(bch, data, l, code);
	check_guards(l);
	printf("{\"e\":\"verify\",\"r\":%d,\"same\":%d}\n", r,
	       !memcmp(d1, data, l) && !memcmp(c1, code, bch->ecc_bytes));
}

static void damage(int l, const int *pos, int k)
{
	int i;

	for (i = 0; i < k; i++)
		flip(data, l, code, pos[i]);
	printf("{\"e\":\"flip\",\"now\":");
	print_diff(data, data0, l, code, code0, bch->ecc_bytes);
	printf(",\"k\":%d}\n", k);
}

static void repair(int l)
{
	bch_repair(bch, data, l, code);
	check_guards(l);
	printf("{\"e\":\"repair\",\"now\":");
	print_diff(data, data0, l, code, code0, bch->ecc_bytes);
	printf("}\n");
}

/* k distinct places, sometimes close together */
static void places(int *pos, int k, int bits)
{
	const int close = !rnd(3);
	const int base = rnd(bits);
	int i, j;

	for (i = 0; i < k; i++) {
	again:
		pos[i] = close ? (base + rnd(3 * k)) % bits : rnd(bits);
		for (j = 0; j < i; j++)
			if (pos[j] == pos[i])
				goto again;
	}
}

int main(int argc, char **argv)
{
	static const struct bch_def *const defs[] = {
		NULL, &bch_1bit, &bch_2bit, &bch_3bit, &bch_4bit
	};
	int i, j, bits, pos[64];

	parse_args(argc, argv, opts);
	seed_rng(seed);
	bch = defs[t];
	printf("{\"e\":\"bch\",\"t\":%d,\"deg\":%d,\"bytes\":%d,\"seed\":%d}\n",
	       t, bch->degree, bch->ecc_bytes, seed);
	bits = (len + bch->ecc_bytes) * 8;

	switch (mode) {
	case 0:		/* histories of damage and repair */
		for (i = 0; i < n; i++) {
			const int l = lenmax ? len + rnd(lenmax - len + 1) : len;

			bits = (l + bch->ecc_bytes) * 8;
			store(l, rnd(6));
			verify(l);
			for (j = 0; j < 3; j++) {
				int k = rnd(4) ? 1 + rnd(t) : rnd(t + 1);

				if (k > bits)
					k = bits;
				places(pos, k, bits);
				damage(l, pos, k);
				verify(l);
				repair(l);
				verify(l);
			}
			/* too much to repair, but it's noticed */
			places(pos, j = t + 1 + rnd(t), bits);
			damage(l, pos, j);
			verify(l);
			/* ... and trying to repair even more is harmless */
			if (i & 1) {
				for (j = 0; j < 64; j++)
					pos[j] = rnd(bits);
				damage(l, pos, rnd(65));
			}
			repair(l);
		}
		break;
	case 1:		/* one error in every place */
		store(len, 0);
		for (i = 0; i < bits; i++) {
			damage(len, &i, 1);
			verify(len);
			repair(len);
		}
		break;
	case 2:		/* two errors in every pair of places */
		store(len, 0);
		for (i = 0; i < bits; i++)
			for (j = i + 1; j < bits; j++) {
				pos[0] = i;
				pos[1] = j;
				damage(len, pos, 2);
				repair(len);
				verify(len);
			}
		break;
	case 3:		/* code of every single-bit chunk, last bit first */
		for (i = len * 8 - 1; i >= 0; i--) {
			guard_off(data, BCH_MAX_CHUNK_SIZE);
			guard_off(code, BCH_MAX_ECC);
			guard_set(data, len);
			guard_set(code, bch->ecc_bytes);
			memset(data, 0xff, len);
			flip(data, len, code, i);
			bch_generate(bch, data, len, code);
			check_guards(len);
			printf("{\"e\":\"unit\",\"i\":%d,\"c\":", len * 8 - i);
			print_bytes(code, bch->ecc_bytes);
			printf("}\n");
		}
		break;
	case 4:		/* codes of sums of chunks */
		for (i = 0; i < n; i++) {
			uint8_t c[3][BCH_MAX_ECC];

			const int l = 1 + rnd(len);

			fill_chunk(data, l, 0);
			fill_chunk(data0, l, 0);
			bch_generate(bch, data, l, c[0]);
			bch_generate(bch, data0, l, c[1]);
			for (j = 0; j < l; j++)
				data[j] ^= data0[j] ^ 0xff;
			bch_generate(bch, data, l, c[2]);
			printf("{\"e\":\"sum\",\"a\":");
			print_bytes(c[0], bch->ecc_bytes);
			printf(",\"b\":");
			print_bytes(c[1], bch->ecc_bytes);
			printf(",\"c\":");
			print_bytes(c[2], bch->ecc_bytes);
			printf("}\n");
		}
		break;
	}
	printf("{\"e\":\"end\"}\n");
	return 0;
}
