/* Checksums of all sorts of blocks.  See spec/CrcTrace.tla. */
#include "eccutil.h"
#include "ecc/crc32.h"

static int seed = 1, len = 40, n = 200, mode;

static const struct opt opts[] = {
	{ "seed", &seed }, { "len", &len }, { "n", &n }, { "mode", &mode },
	{ NULL, NULL }
};

#define MAX 4096
static uint8_t b[MAX], d[MAX];
static uint8_t huge[1 << 19];

static void crc(const char *key, uint32_t c)
{
	printf(",\"%s\":[%d,%d]", key, (int)(c & 0xffff), (int)(c >> 16));
}

int main(int argc, char **argv)
{
	int i, j;

	parse_args(argc, argv, opts);
	seed_rng(seed);
	if (len > MAX)
		return 2;
	printf("{\"e\":\"crc\",\"seed\":%d}\n", seed);
	switch (mode) {
	case 0:		/* blocks, in several pieces */
		for (i = 0; i < n; i++) {
			const int l = 1 + rnd(len);
			uint32_t c = CRC32_INIT, w;
			int p = 0;

			if (i & 1)
				c = xs() ^ xs() << 7;
			unpoison(b, MAX);
			fill_chunk(b, l, rnd(6));
			poison(b + l, MAX - l);
			w = crc32_nand(b, l, c);
			printf("{\"e\":\"start\"");
			crc("c", c);
			printf("}\n");
			while (p < l) {
				const int k = rnd(l - p + 1);

				unpoison(d, MAX);
				memcpy(d, b + p, k);
				poison(d + k, MAX - k);
				c = crc32_nand(d, k, c);
				printf("{\"e\":\"add\",\"b\":");
				print_bytes(b + p, k);
				crc("c", c);
				printf("}\n");
				p += k;
			}
			printf("{\"e\":\"whole\"");
			crc("c", w);
			printf("}\n");
		}
		break;
	case 1:		/* every byte value after every other in a few states */
		for (i = 0; i < 256; i++)
			for (j = 0; j < 4; j++) {
				const uint32_t c0 = j ? xs() : CRC32_INIT;

				b[0] = i;
				printf("{\"e\":\"start\"");
				crc("c", c0);
				printf("}\n{\"e\":\"add\",\"b\":[%d]", i);
				crc("c", crc32_nand(b, 1, c0));
				printf("}\n");
			}
		break;
	case 2:		/* damaged blocks: k flips within len bytes */
		for (i = 0; i < n; i++) {
			const int l = 1 + rnd(len), k = 1 + rnd(3);
			const int burst = rnd(2);
			const int base = rnd(l * 8);
			uint32_t c0, c1;
			int m, nf = 0, span;

			fill_chunk(b, l, rnd(6));
			memcpy(d, b, l);
			c0 = crc32_nand(b, l, CRC32_INIT);
			for (m = 0; m < (burst ? 20 : k); m++) {
				int p = burst ? base + rnd(32) : rnd(l * 8);

				if (p < l * 8)
					d[p >> 3] ^= 1 << (p & 7);
			}
			span = 0;
			m = -1;
			for (j = 0; j < l * 8; j++)
				if (((b[j >> 3] ^ d[j >> 3]) >> (j & 7)) & 1) {
					nf++;
					if (m < 0)
						m = j;
					span = j - m + 1;
				}
			c1 = crc32_nand(d, l, CRC32_INIT);
			printf("{\"e\":\"damage\",\"bits\":%d,\"n\":%d,"
			       "\"span\":%d,\"differ\":%d}\n", l * 8, nf, span,
			       c0 != c1);
		}
		break;
	case 3:		/* erased blocks, with their erased checksum */
		memset(b, 0xff, MAX);
		for (i = 0; i <= len; i++) {
			printf("{\"e\":\"erased\",\"len\":%d", i);
			crc("c", crc32_nand(b, i, CRC32_INIT));
			printf("}\n");
		}
		break;
	case 4:		/* large blocks, most of which is erased */
		for (i = 0; i < n; i++) {
			uint32_t c = CRC32_INIT;
			size_t p = 0;

			memset(huge, 0xff, sizeof(huge));
			printf("{\"e\":\"start\"");
			crc("c", c);
			printf("}\n");
			for (j = 2 + rnd(4); j > 0; j--) {
				const int k = 1 + rnd(8);
				const int gap = 1 + rnd(i & 1 ? 100000 : 9000);

				fill_chunk(huge + p, k, rnd(6));
				c = crc32_nand(huge + p, k, c);
				printf("{\"e\":\"add\",\"b\":");
				print_bytes(huge + p, k);
				crc("c", c);
				p += k;
				c = crc32_nand(huge + p, gap, c);
				p += gap;
				printf("}\n{\"e\":\"gap\",\"n\":%d", gap);
				crc("c", c);
				printf("}\n");
			}
			printf("{\"e\":\"whole\"");
			crc("c", crc32_nand(huge, p, CRC32_INIT));
			printf("}\n");
		}
		break;
	}
	printf("{\"e\":\"end\"}\n");
	return 0;
}
