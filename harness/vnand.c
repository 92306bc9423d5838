#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "vnand.h"

static void *xalloc(size_t n)
{
	void *p = calloc(1, n ? n : 1);

	if (!p) {
		perror("calloc");
		exit(3);
	}
	return p;
}

void vn_alloc(struct vnand *v, int lp, int lb, int nb)
{
	memset(v, 0, sizeof(*v));
	v->n.log2_page_size = lp;
	v->n.log2_ppb = lb;
	v->n.num_blocks = nb;
	v->total = nb << lb;
	v->psz = 1 << lp;
	v->data = xalloc((size_t)v->total << lp);
	v->pst = xalloc(v->total);
	v->eccfail = xalloc(v->total);
	v->dmg = xalloc(v->total);
	v->bad = xalloc(nb);
	v->fail = xalloc(nb);
	v->bomb = xalloc(nb * sizeof(int));
	v->erases = xalloc(nb * sizeof(int));
	v->next = xalloc(nb * sizeof(int));
	v->rng = 0x1234567;
	v->budget = 1L << 40;
}

void vn_free(struct vnand *v)
{
	free(v->data); free(v->pst); free(v->eccfail); free(v->dmg); free(v->bad);
	free(v->fail); free(v->bomb); free(v->erases); free(v->next);
	memset(v, 0, sizeof(*v));
}

void vn_reset(struct vnand *v)
{
	int i;

	const int g = v->garbage_init;
	size_t j;

	memset(v->data, g == 1 ? 0x55 : g == 3 ? 0 : 0xff,
	       (size_t)v->total * v->psz);
	memset(v->pst, g == 4 ? PG_TORN : g ? PG_PROG : PG_FREE, v->total);
	if (g == 2 || g == 5)
		for (j = 0; j < (size_t)v->total * v->psz; j++)
			v->data[j] = xs(&v->rng) >> 7;
	if (g == 5)		/* almost ours */
		for (i = 0; i < v->total; i++) {
			uint8_t *q = v->data + (size_t)i * v->psz;

			memcpy(q, "Dha", 3);
			q[(xs(&v->rng) >> 7) % 3] ^= 1 << ((xs(&v->rng) >> 7) & 7);
		}
	memset(v->eccfail, 0, v->total);
	memset(v->dmg, 0, v->total);
	memset(v->bad, 0, v->n.num_blocks);
	memset(v->fail, 0, v->n.num_blocks);
	memset(v->bomb, 0, v->n.num_blocks * sizeof(int));
	memset(v->erases, 0, v->n.num_blocks * sizeof(int));
	for (i = 0; i < v->n.num_blocks; i++)
		v->next[i] = v->garbage_init ? (1 << v->n.log2_ppb) : 0;
}

void vn_copy(struct vnand *d, const struct vnand *s)
{
	const int nb = s->n.num_blocks;

	memcpy(d->data, s->data, (size_t)s->total * s->psz);
	memcpy(d->pst, s->pst, s->total);
	memset(d->eccfail, 0, d->total);
	memcpy(d->dmg, s->dmg, s->total);
	memcpy(d->bad, s->bad, nb);
	memcpy(d->fail, s->fail, nb);
	memcpy(d->bomb, s->bomb, nb * sizeof(int));
	memcpy(d->erases, s->erases, nb * sizeof(int));
	memcpy(d->next, s->next, nb * sizeof(int));
	d->imprecise = s->imprecise;
	d->stale_bad = s->stale_bad;
	d->fail_full = s->fail_full;
	d->rng = s->rng ^ 0x5bd1e995;
	if (!d->rng)
		d->rng = 1;
}

void vn_powerloss(struct vnand *v, int log2_ppc)
{
	const int ppc = 1 << log2_ppc;
	int p;

	for (p = ppc - 1; p < v->total; p += ppc)
		if (v->pst[p] == PG_TORN && !v->bad[p >> v->n.log2_ppb])
			v->dmg[p] = 1;
}

void vn_zero_counters(struct vnand *v)
{
	memset(&v->c, 0, sizeof(v->c));
}

/* Is it all or nothing with this page? */
static int whole(const struct vnand *v, int p)
{
	return v->cp_mask && !((p + 1) & v->cp_mask);
}

void vn_tear(struct vnand *v, int kind, int arg, const uint8_t *data, int tear)
{
	const int ppb = 1 << v->n.log2_ppb;
	int i;

	if (tear == TEAR_NONE)
		return;

	switch (kind) {
	case K_MARK:
		v->bad[arg] = 1;
		break;

	case K_PROG:
		v->next[arg >> v->n.log2_ppb] = (arg & (ppb - 1)) + 1;
		if (tear == TEAR_DONE && data &&
		    pat_id(v->data + (size_t)arg * v->psz, v->psz) == 0) {
			memcpy(v->data + (size_t)arg * v->psz, data, v->psz);
			v->pst[arg] = PG_PROG;
		} else {
			memset(v->data + (size_t)arg * v->psz, 0x5a, v->psz);
			v->pst[arg] = PG_TORN;
		}
		break;

	case K_ERASE:
		v->erases[arg]++;
		v->next[arg] = 0;
		for (i = 0; i < ppb; i++) {
			const int p = (arg << v->n.log2_ppb) + i;
			int how = tear;

			if (tear == TEAR_MIX)
				how = xs(&v->rng) % 3;

			if (whole(v, p))
				how = TEAR_DONE;
			if (how == TEAR_ECC) {
				memset(v->data + (size_t)p * v->psz, 0x5a, v->psz);
				v->pst[p] = PG_TORN;
			} else if (how) {
				memset(v->data + (size_t)p * v->psz, 0xff, v->psz);
				v->pst[p] = PG_FREE;
			}
		}
		break;
	}
}

/************************************************************************
 * Page contents
 */

void pat_fill(uint8_t *buf, int psz, int id)
{
	uint32_t x = id * 2654435761u + 12345;
	int i;

	if (!id) {
		memset(buf, 0xff, psz);
		return;
	}

	for (i = 0; i < psz; i += 4) {
		x = x * 1664525 + 1013904223;
		buf[i] = x >> 24;
		buf[i + 1] = x >> 16;
		buf[i + 2] = x >> 8;
		buf[i + 3] = (x >> 20) ^ i;
	}
	buf[0] = id;
	buf[1] = id >> 8;
	buf[2] = id >> 16;
	buf[3] = 0x42;
}

int pat_id(const uint8_t *buf, int psz)
{
	uint8_t ref[1 << 12];
	int i, id;

	for (i = 0; i < psz; i++)
		if (buf[i] != 0xff)
			break;
	if (i == psz)
		return 0;

	if (psz > (int)sizeof(ref) || buf[3] != 0x42)
		return -2;
	id = buf[0] | (buf[1] << 8) | (buf[2] << 16);
	pat_fill(ref, psz, id);
	return memcmp(ref, buf, psz) ? -2 : id;
}

/************************************************************************
 * dhara/nand.h
 */

static struct vnand *V(const struct dhara_nand *n)
{
	return (struct vnand *)n;
}

static void spend(struct vnand *v)
{
	if (--v->budget < 0)
		longjmp(*v->jb, JB_HANG);
}

static void oor(struct vnand *v, const char *op, long a, long b)
{
	if (v->log)
		v->log(v, op, a, b, -9, NULL);
	longjmp(*v->jb, JB_OOR);
}

static void check_block(struct vnand *v, const char *op, dhara_block_t b)
{
	spend(v);
	if (b >= v->n.num_blocks)
		oor(v, op, b, 0);
}

static void check_page(struct vnand *v, const char *op, dhara_page_t p)
{
	spend(v);
	if (p >= v->total)
		oor(v, op, p, 0);
}

static void mutate(struct vnand *v, int kind, int arg, const uint8_t *data)
{
	if (v->pre)
		v->pre(v, kind, arg);

	if (v->cut && !--v->cut) {
		if (kind == K_PROG && v->tear != TEAR_DONE && whole(v, arg))
			v->tear = TEAR_NONE;
		vn_tear(v, kind, arg, data, v->tear);
		if (v->log)
			v->log(v, kind == K_ERASE ? "E" : kind == K_PROG ?
			       "P" : "B", arg, 0, 2 + v->tear, data);
		longjmp(*v->jb, JB_CUT);
	}

	if (v->failop && !--v->failop && kind != K_MARK) {
		const int b = kind == K_ERASE ? arg : arg >> v->n.log2_ppb;

		v->failmore -= !v->fail[b];
		v->fail[b] = 1;
		if (v->failmore > 0)
			v->failop = v->failgap;
	}
}

static void tick(struct vnand *v, int b)
{
	if (v->bomb[b] && !--v->bomb[b])
		v->fail[b] = 1;
}

int dhara_nand_is_bad(const struct dhara_nand *n, dhara_block_t b)
{
	struct vnand *v = V(n);

	check_block(v, "isbad", b);
	v->c.isbad++;
	return v->bad[b];
}

void dhara_nand_mark_bad(const struct dhara_nand *n, dhara_block_t b)
{
	struct vnand *v = V(n);

	check_block(v, "B", b);
	mutate(v, K_MARK, b, NULL);
	v->c.mark++;
	v->bad[b] = 1;
	if (v->log)
		v->log(v, "B", b, 0, 0, NULL);
}

int dhara_nand_erase(const struct dhara_nand *n, dhara_block_t b,
		     dhara_error_t *err)
{
	struct vnand *v = V(n);
	const int ppb = 1 << v->n.log2_ppb;
	const size_t bsz = (size_t)v->psz * ppb;
	int i;

	check_block(v, "E", b);
	mutate(v, K_ERASE, b, NULL);
	v->c.erase++;
	memset(v->dmg + b * ppb, 0, ppb);
	v->erases[b]++;
	v->next[b] = 0;
	tick(v, b);

	if (v->fail[b]) {
		v->c.failed++;
		memset(v->data + b * bsz, 0x5a, bsz);
		memset(v->pst + b * ppb, PG_TORN, ppb);
		for (i = b * ppb; i < (b + 1) * ppb; i++)
			if (whole(v, i)) {
				memset(v->data + (size_t)i * v->psz, 0xff,
				       v->psz);
				v->pst[i] = PG_FREE;
			}
		if (v->log)
			v->log(v, "E", b, 0, 1, NULL);
		dhara_set_error(err, DHARA_E_BAD_BLOCK);
		return -1;
	}

	memset(v->data + b * bsz, 0xff, bsz);
	memset(v->pst + b * ppb, PG_FREE, ppb);
	if (v->log)
		v->log(v, "E", b, 0, 0, NULL);
	return 0;
}

static int do_prog(struct vnand *v, dhara_page_t p, const uint8_t *data,
		   dhara_error_t *err, long src)
{
	const int b = p >> v->n.log2_ppb;
	uint8_t *page = v->data + (size_t)p * v->psz;
	int i, clean = 1;

	mutate(v, K_PROG, p, data);
	v->c.prog++;
	v->last = p + 1;
	v->next[b] = (p & ((1 << v->n.log2_ppb) - 1)) + 1;
	tick(v, b);

	if (v->fail[b]) {
		v->c.failed++;
		if (v->fail_full && v->pst[p] == PG_FREE) {
			memcpy(page, data, v->psz);
			v->pst[p] = PG_PROG;
		} else if (!whole(v, p)) {
			memset(page, 0x5a, v->psz);
			v->pst[p] = PG_TORN;
		}
		if (v->log)
			v->log(v, "P", p, src, 1, data);
		dhara_set_error(err, DHARA_E_BAD_BLOCK);
		return -1;
	}

	if (v->pst[p] == PG_TORN)
		clean = 0;
	if (v->pst[p] == PG_PROG)
		for (i = 0; i < v->psz && clean; i++)
			if (page[i] != 0xff)
				clean = 0;

	if (clean) {
		memcpy(page, data, v->psz);
		v->pst[p] = PG_PROG;
	} else {
		memset(page, 0x5a, v->psz);
		v->pst[p] = PG_TORN;
	}
	if (v->log)
		v->log(v, "P", p, src, 0, data);
	return 0;
}

int dhara_nand_prog(const struct dhara_nand *n, dhara_page_t p,
		    const uint8_t *data, dhara_error_t *err)
{
	struct vnand *v = V(n);

	check_page(v, "P", p);
	return do_prog(v, p, data, err, -1);
}

int dhara_nand_is_free(const struct dhara_nand *n, dhara_page_t p)
{
	struct vnand *v = V(n);
	const uint8_t *page;
	int i;

	check_page(v, "isfree", p);
	v->c.isfree++;
	if (!v->imprecise)
		return v->pst[p] == PG_FREE;

	if (v->pst[p] == PG_TORN)
		return 0;
	page = v->data + (size_t)p * v->psz;
	for (i = 0; i < v->psz; i++)
		if (page[i] != 0xff)
			return 0;
	return 1;
}

static int do_read(struct vnand *v, dhara_page_t p, size_t offset,
		   size_t length, uint8_t *data, dhara_error_t *err)
{
	/* Blocks which are marked bad can't be read, or hold what they did */
	const int gone = v->bad[p >> v->n.log2_ppb] && !v->stale_bad;
	int once;

	v->c.read++;
	v->c.rbytes += length;
	once = v->failread && !--v->failread;
	if (v->pst[p] == PG_TORN || v->eccfail[p] || once || gone) {
		v->ecc_page = p;
		v->ecc_kind = gone ? 3 : v->eccfail[p] || once ? 1 : v->dmg[p] ? 2 : 3;
		v->c.torn_reads++;
		if (v->log)
			v->log(v, "ecc", p, 0, 1, NULL);
		memset(data, 0xa5, length);
		dhara_set_error(err, DHARA_E_ECC);
		return -1;
	}
	memcpy(data, v->data + (size_t)p * v->psz + offset, length);
	return 0;
}

int dhara_nand_read(const struct dhara_nand *n, dhara_page_t p,
		    size_t offset, size_t length,
		    uint8_t *data, dhara_error_t *err)
{
	struct vnand *v = V(n);

	check_page(v, "R", p);
	if (offset > v->psz || length > v->psz || offset + length > v->psz)
		oor(v, "R", p, (long)(offset + length));
	return do_read(v, p, offset, length, data, err);
}

int dhara_nand_copy(const struct dhara_nand *n,
		    dhara_page_t src, dhara_page_t dst,
		    dhara_error_t *err)
{
	struct vnand *v = V(n);
	uint8_t buf[1 << 12];

	check_page(v, "C", src);
	check_page(v, "P", dst);
	v->c.copy++;
	if (do_read(v, src, 0, v->psz, buf, err) < 0)
		return -1;
	return do_prog(v, dst, buf, err, src);
}
