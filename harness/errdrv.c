/* Error messages, and the helpers for byte order.  See spec/ErrTrace.tla. */
#include "eccutil.h"
#include "dhara/error.h"
#include "dhara/bytes.h"

static int seed = 1, n = 500;

static const struct opt opts[] = {
	{ "seed", &seed }, { "n", &n }, { NULL, NULL }
};

static void str(const char *ev, int v)
{
	const char *s = dhara_strerror(v);
	int i;

	printf("{\"e\":\"%s\",\"v\":%d,\"s\":[", ev, v);
	for (i = 0; s && s[i] && i < 200; i++)
		printf(i ? ",%d" : "%d", (unsigned char)s[i]);
	printf("],\"null\":%d}\n", !s);
}

int main(int argc, char **argv)
{
	int i;

	parse_args(argc, argv, opts);
	seed_rng(seed);
	for (i = 0; i < DHARA_E_MAX; i++)
		str("msg", i);
	for (i = 0; i < DHARA_E_MAX; i++)
		str("msg", DHARA_E_MAX - 1 - i);
	for (i = -50; i < 0; i++)
		str("nomsg", i);
	for (i = DHARA_E_MAX; i < DHARA_E_MAX + 300; i++)
		str("nomsg", i);
	for (i = 0; i < n; i++) {
		const int v = (int)(xs() ^ xs() << 9);

		if (v < 0 || v >= DHARA_E_MAX)
			str("nomsg", v);
	}
	for (i = 0; i < n; i++) {
		const uint32_t v = i < 32 ? 1u << i : xs() ^ xs() << 7;
		uint8_t b[8];
		dhara_error_t e = DHARA_E_ECC;

		memset(b, 0xa5, 8);
		dhara_w32(b + 2, v);
		printf("{\"e\":\"w32\",\"lo\":%d,\"hi\":%d,\"b\":",
		       (int)(v & 0xffff), (int)(v >> 16));
		print_bytes(b, 8);
		printf(",\"rlo\":%d,\"rhi\":%d}\n",
		       (int)(dhara_r32(b + 2) & 0xffff),
		       (int)(dhara_r32(b + 2) >> 16));
		memset(b, 0xa5, 8);
		dhara_w16(b + 3, v);
		printf("{\"e\":\"w16\",\"lo\":%d,\"b\":", (int)(v & 0xffff));
		print_bytes(b, 8);
		printf(",\"rlo\":%d}\n", dhara_r16(b + 3));
		dhara_set_error(NULL, DHARA_E_ECC);
		dhara_set_error(&e, i % DHARA_E_MAX);
		printf("{\"e\":\"set\",\"v\":%d,\"r\":%d}\n", i % DHARA_E_MAX, e);
	}
	printf("{\"e\":\"end\"}\n");
	return 0;
}
