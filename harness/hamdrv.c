/* Stores chunks with their Hamming code, damages them, and records what
 * syndrome and repair make of it.  See spec/HammingTrace.tla.
 */
#include "eccutil.h"
#include "ecc/hamming.h"

static int seed = 1, len = 512, n = 300, mode, lenmax;

static const struct opt opts[] = {
	{ "seed", &seed }, { "len", &len }, { "n", &n }, { "mode", &mode },
	{ "lenmax", &lenmax }, { NULL, NULL }
};

GUARDED(data, HAMMING_MAX_CHUNK_SIZE);
GUARDED(code, HAMMING_ECC_SIZE);
static uint8_t data0[HAMMING_MAX_CHUNK_SIZE], code0[HAMMING_ECC_SIZE];

static void check_guards(int l)
{
	if (guard_bad(data, l) || guard_bad(code, HAMMING_ECC_SIZE))
		printf("{\"e\":\"bad\",\"what\":\"guard\"}\n");
}

static void store(int l, int kind)
{
	guard_off(data, HAMMING_MAX_CHUNK_SIZE);
	guard_off(code, HAMMING_ECC_SIZE);
	guard_set(data, l);
	guard_set(code, HAMMING_ECC_SIZE);
	fill_chunk(data, l, kind);
	memcpy(data0, data, l);
	hamming_generate(data, l, code);
	check_guards(l);
	memcpy(code0, code, HAMMING_ECC_SIZE);
	printf("{\"e\":\"store\",\"len\":%d,\"same\":%d,\"erased\":%d,"
	       "\"ones\":%d}\n", l, !memcmp(data, data0, l), kind == 1,
	       code[0] == 0xff && code[1] == 0xff && code[2] == 0xff);
}

static void print_now(int l)
{
	print_diff(data, data0, l, code, code0, HAMMING_ECC_SIZE);
}

static void damage(int l, const int *pos, int k)
{
	int i;

	for (i = 0; i < k; i++)
		flip(data, l, code, pos[i]);
	printf("{\"e\":\"flip\",\"now\":");
	print_now(l);
	printf("}\n");
}

static void repair(int l)
{
	uint8_t d1[HAMMING_MAX_CHUNK_SIZE];
	const hamming_ecc_t syn = hamming_syndrome(data, l, code);
	int r;

	memcpy(d1, data, l);
	printf("{\"e\":\"verify\",\"r\":%d,\"h\":%d,\"same\":%d}\n",
	       syn ? -1 : 0, (int)syn, !memcmp(data, d1, l));
	r = hamming_repair(data, l, syn);
	check_guards(l);
	printf("{\"e\":\"repair\",\"r\":%d,\"now\":", r);
	print_now(l);
	printf("}\n");
}

static int place(int bits)
{
	/* favour the code */
	return rnd(4) ? rnd(bits) : bits - 1 - rnd(24);
}

int main(int argc, char **argv)
{
	int i, j, bits, pos[24];

	parse_args(argc, argv, opts);
	seed_rng(seed);
	printf("{\"e\":\"ham\",\"seed\":%d}\n", seed);
	bits = (len + HAMMING_ECC_SIZE) * 8;

	switch (mode) {
	case 0:
		for (i = 0; i < n; i++) {
			const int l = lenmax ? len + rnd(lenmax - len + 1) : len;

			bits = (l + HAMMING_ECC_SIZE) * 8;
			store(l, rnd(6));
			repair(l);
			pos[0] = rnd(l * 8);
			damage(l, pos, 1);
			repair(l);
			pos[0] = rnd(l * 8);
			damage(l, pos, 1);
			repair(l);
			pos[0] = place(bits);
			do
				pos[1] = place(bits);
			while (pos[1] == pos[0]);
			damage(l, pos, 2);
			repair(l);
			/* one of them goes away */
			damage(l, pos + rnd(2), 1);
			repair(l);
		}
		break;
	case 1:		/* one error in every place */
		store(len, 0);
		for (i = 0; i < bits; i++) {
			damage(len, &i, 1);
			repair(len);
			if (i >= len * 8)
				damage(len, &i, 1);
		}
		break;
	case 2:		/* every pair */
		store(len, 0);
		for (i = 0; i < bits; i++)
			for (j = i + 1; j < bits; j++) {
				pos[0] = i;
				pos[1] = j;
				damage(len, pos, 2);
				repair(len);
				damage(len, pos, 2);
			}
		break;
	case 3:		/* code of every single-bit chunk */
		for (i = 0; i < len * 8; i++) {
			guard_off(data, HAMMING_MAX_CHUNK_SIZE);
			guard_off(code, HAMMING_ECC_SIZE);
			guard_set(data, len);
			guard_set(code, HAMMING_ECC_SIZE);
			memset(data, 0, len);
			flip(data, len, code, i);
			hamming_generate(data, len, code);
			check_guards(len);
			printf("{\"e\":\"unit\",\"i\":%d,\"c\":", i);
			print_bytes(code, 3);
			printf("}\n");
		}
		break;
	case 5:		/* many errors, which may look like one past the end */
		for (i = 0; i < n; i++) {
			const int l = lenmax ? len + rnd(lenmax - len + 1) : len;
			const int w = l * 8 + rnd(HAMMING_MAX_CHUNK_SIZE * 8 -
						  l * 8);

			store(l, rnd(6));
			for (j = 0; j < 12; j++)
				pos[j] = l * 8 + 2 * j + !((w >> j) & 1);
			damage(l, pos, 12);
			repair(l);
			store(l, rnd(6));
			bits = (l + HAMMING_ECC_SIZE) * 8;
			for (j = 0; j < 24; j++)
				pos[j] = place(bits);
			damage(l, pos, 3 + rnd(22));
			repair(l);
		}
		break;
	case 4:		/* codes of sums */
		for (i = 0; i < n; i++) {
			uint8_t c[3][3];
			const int l = 1 + rnd(len);

			fill_chunk(data, l, 0);
			fill_chunk(data0, l, 0);
			hamming_generate(data, l, c[0]);
			hamming_generate(data0, l, c[1]);
			for (j = 0; j < l; j++)
				data[j] ^= data0[j];
			hamming_generate(data, l, c[2]);
			printf("{\"e\":\"sum\",\"a\":");
			print_bytes(c[0], 3);
			printf(",\"b\":");
			print_bytes(c[1], 3);
			printf(",\"c\":");
			print_bytes(c[2], 3);
			printf("}\n");
		}
		break;
	}
	printf("{\"e\":\"end\"}\n");
	return 0;
}
