/* Arithmetic in GF(2^13).  See spec/GfTrace.tla. */
#include "eccutil.h"
#include "ecc/gf13.h"

static int seed = 1, n = 2000, mode, from, to = GF13_ORDER;

static const struct opt opts[] = {
	{ "seed", &seed }, { "n", &n }, { "mode", &mode }, { "from", &from },
	{ "to", &to }, { NULL, NULL }
};

int main(int argc, char **argv)
{
	int i;

	parse_args(argc, argv, opts);
	seed_rng(seed);
	switch (mode) {
	case 0:
		for (i = 0; i < n; i++) {
			const int a = 1 + rnd(GF13_ORDER);
			const int b = rnd(10) ? 1 + rnd(GF13_ORDER) :
				1 << rnd(13);

			printf("{\"e\":\"mul\",\"a\":%d,\"b\":%d,\"r\":%d}\n",
			       a, b, gf13_mul(a, b));
			printf("{\"e\":\"div\",\"a\":%d,\"b\":%d,\"r\":%d}\n",
			       a, b, gf13_div(a, b));
		}
		break;
	case 1:		/* powers of alpha, up and down */
		{
			gf13_elem_t x = 1, y = 1;

			for (i = 0; i <= GF13_ORDER; i++) {
				printf("{\"e\":\"pow\",\"i\":%d,\"x\":%d,"
				       "\"y\":%d,\"m\":%d,\"d\":%d}\n", i, x, y,
				       gf13_mul(x, y), gf13_div(x, x));
				x = gf13_mulx(x);
				y = gf13_divx(y);
			}
		}
		break;
#ifndef GF13_NO_TABLES
	case 2:
		for (i = 0; i <= GF13_ORDER; i++)
			printf("{\"e\":\"tab\",\"i\":%d,\"x\":%d,\"l\":%d}\n",
			       i, gf13_exp[i], gf13_log[gf13_exp[i]]);
		break;
#endif
	}
	printf("{\"e\":\"end\"}\n");
	return 0;
}
