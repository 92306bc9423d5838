/* Drives the real journal layer as a queue, following the recovery protocol
 * of journal.h, and records what happened.  See spec/JournalTrace.tla.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "dhara/journal.h"
#include "dhara/bytes.h"
#include "vnand.h"
#include "poison.h"

static struct {
	int	seed, lp, lb, nb, nops;
	int	nfault, bad, crash, reboot, cleanboot, tears, fullfail, garbage;
	int	imprecise;
	int	w_enq, w_deq, w_pad, w_rot, w_clear, w_cookie, w_dup;
	int	fill, fillmode, reserve, script, whole, nandlog, storm, row;
} cfg = {
	.seed = 1, .lp = 9, .lb = 2, .nb = 12, .nops = 200, .tears = 1,
	.w_enq = 40, .w_deq = 35, .w_pad = 5, .w_rot = 10, .w_clear = 1,
	.w_cookie = 5, .w_dup = 5,
};

static struct { const char *name; int *val; } opts[] = {
#define O(x) { #x, &cfg.x }
	O(seed), O(lp), O(lb), O(nb), O(nops), O(nfault), O(bad), O(crash),
	O(reboot), O(cleanboot), O(tears), O(fullfail), O(garbage),
	O(imprecise), O(w_enq), O(w_deq), O(w_pad), O(w_rot), O(w_clear),
	O(w_cookie), O(w_dup), O(fill), O(fillmode),
	O(reserve), O(script), O(whole), O(nandlog), O(storm), O(row),
	{ NULL, NULL }
};

#define GUARD 64
#define MAXQ 4096
enum { JB_GUARD = 5 };

static struct vnand N;
static struct guarded {
	uint8_t			g0[GUARD];
	struct dhara_journal	j;
	uint8_t			g1[GUARD];
} JG;
#define J JG.j
static uint8_t pbuf_g[(1 << 12) + 2 * GUARD];
#define pbuf (pbuf_g + GUARD)
static uint8_t wbuf_g[(1 << 12) + 2 * GUARD];
#define wbuf (wbuf_g + GUARD)		/* what's written */
static uint8_t wmeta_g[DHARA_META_SIZE + 2 * GUARD];
#define wmeta (wmeta_g + GUARD)
static uint8_t rmeta_g[DHARA_META_SIZE + 2 * GUARD];
#define rmeta (rmeta_g + GUARD)		/* what's read */
static uint32_t rng;
static jmp_buf jb;
static int next_id = 1;
static int faulty, reserve;
static int rcv, nf;	/* recovered, operations failed in this call */
/* What the run amounted to */
static int cuts, boots, oks[8], fails[8];

static struct item { dhara_page_t p; int id; } tab[MAXQ];
static int ntab;

static uint32_t rnd(uint32_t n)
{
	return n ? (xs(&rng) >> 3) % n : 0;
}

static void guard_set(uint8_t *p)
{
	memset(p, 0xc3, GUARD);
	poison(p, GUARD);
}

static int guard_bad(const uint8_t *p)
{
	int i, bad = 0;

	unpoison(p, GUARD);
	for (i = 0; i < GUARD; i++)
		bad |= p[i] != 0xc3;
	poison(p, GUARD);
	return bad;
}

/* An item is a tag (kept in the metadata) and contents. */
#define ITEM(m, d) ((m) + 32768 * (d))

static void meta_fill(uint8_t *meta, int m)
{
	uint32_t x = m * 2246822519u + 7;
	int i;

	dhara_w32(meta, m);
	for (i = 4; i < DHARA_META_SIZE; i++) {
		x = x * 1664525 + 1013904223;
		meta[i] = x >> 24;
	}
}

/* 0 for filler, -2 if it makes no sense */
static int meta_id(const uint8_t *meta)
{
	uint8_t ref[DHARA_META_SIZE];
	int i, m;

	for (i = 0; i < DHARA_META_SIZE; i++)
		if (meta[i] != 0xff)
			break;
	if (i == DHARA_META_SIZE)
		return 0;
	m = dhara_r32(meta);
	if (m <= 0 || m >= 32768)
		return -2;
	meta_fill(ref, m);
	return memcmp(ref, meta, DHARA_META_SIZE) ? -2 : m;
}

/* The item at the given page: 0 filler, <0 error */
static int item_at(struct dhara_journal *j, dhara_page_t p)
{
	uint8_t *const meta = rmeta;
	uint8_t buf[1 << 12];
	int m, d;

	memset(meta, 0xc3, DHARA_META_SIZE);
	if (p >= (dhara_page_t)N.total)
		return -5;
	if (dhara_journal_read_meta(j, p, meta, NULL) < 0)
		return -3;
	if (guard_bad(rmeta_g) || guard_bad(meta + DHARA_META_SIZE))
		return -6;
	m = meta_id(meta);
	if (m <= 0)
		return m;
	if (dhara_nand_read(&N.n, p, 0, N.psz, buf, NULL) < 0)
		return -4;
	d = pat_id(buf, N.psz);
	return d < 0 ? -4 : ITEM(m, d);
}

/* Walk the queue on a copy of the journal's state. */
static int walk(void)
{
	struct dhara_journal w = J;
	const long budget = N.budget;
	int steps, pages = 0;

	N.budget = 4000000;
	ntab = 0;
	for (steps = 0; steps < 2 * N.total + 4; steps++) {
		const dhara_page_t p = dhara_journal_peek(&w);
		int id;

		if (p == DHARA_PAGE_NONE)
			break;
		pages++;
		id = item_at(&w, p);
		if (id && ntab < MAXQ) {
			tab[ntab].p = p;
			tab[ntab].id = id;
			ntab++;
		}
		if (id < 0)
			break;
		dhara_journal_dequeue(&w);
	}
	if (steps >= 2 * N.total + 4 && ntab < MAXQ) {
		tab[ntab].p = 0;
		tab[ntab++].id = -9;	/* no end */
	}
	N.budget = budget;
	return pages;
}

static void emit_state(void)
{
	const int pages = walk();
	const dhara_page_t rt = dhara_journal_root(&J);
	int i;

	printf("\"q\":[");
	for (i = 0; i < ntab; i++)
		printf(i ? ",%d" : "%d", tab[i].id);
	printf("],\"pages\":%d,\"js\":%d,\"cap\":%d,\"cl\":%d,\"rt\":%d,"
	       "\"ck\":%d,\"rec\":%d}\n", pages,
	       (int)dhara_journal_size(&J), (int)dhara_journal_capacity(&J),
	       dhara_journal_is_clean(&J) ? 1 : 0,
	       rt == DHARA_PAGE_NONE ? -1 : item_at(&J, rt),
	       (int32_t)dhara_r32(dhara_journal_cookie(&J)),
	       dhara_journal_in_recovery(&J) ? 1 : 0);
}

static int live(dhara_page_t p, int *id)
{
	int i, k;

	for (i = 0; i < ntab; i++)
		if (tab[i].p == p) {
			/* superseded? */
			for (k = i + 1; k < ntab; k++)
				if (tab[k].id == tab[i].id)
					return 0;
			*id = tab[i].id;
			return 1;
		}
	return 0;
}

/* Assisted recovery, as described in journal.h */
static int recover(dhara_error_t *err)
{
	int restarts = 0;

	while (dhara_journal_in_recovery(&J)) {
		const dhara_page_t p = dhara_journal_next_recoverable(&J);
		dhara_error_t e = DHARA_E_NONE;
		int ret, id;

		if (p == DHARA_PAGE_NONE) {
			ret = dhara_journal_enqueue(&J, NULL, NULL, &e);
		} else if (!live(p, &id)) {
			continue;
		} else {
			uint8_t meta[DHARA_META_SIZE];

			if (dhara_journal_read_meta(&J, p, meta, err) < 0)
				return -1;
			if (ITEM(meta_id(meta), id / 32768) != id) {
				*err = -7;	/* not what was there */
				return -1;
			}
			ret = dhara_journal_copy(&J, p, meta, &e);
		}

		if (ret < 0) {
			if (e != DHARA_E_RECOVER || ++restarts > 8) {
				*err = e;
				return -1;
			}
		}
	}

	return 0;
}

enum { OP_ENQ, OP_DEQ, OP_PAD, OP_ROT, OP_CLEAR, OP_COOKIE, OP_DUP, OP_MAX };
static const char *const names[] = {
	"enq", "deq", "pad", "rot", "clear", "cookie", "dup"
};

/* push something: data, or a copy of page src, or filler */
static int push(const uint8_t *data, dhara_page_t src, const uint8_t *meta,
		dhara_error_t *err)
{
	int i;

	for (i = 0; i < 10; i++) {
		int r;

		if (src != DHARA_PAGE_NONE)
			r = dhara_journal_copy(&J, src, meta, err);
		else
			r = dhara_journal_enqueue(&J, data, meta, err);
		if (!r)
			return 0;
		if (*err != DHARA_E_RECOVER)
			return -1;
		rcv = 1;
		if (src != DHARA_PAGE_NONE) {
			/* The source may have been moved */
			int id = 0, k;

			live(src, &id);
			if (recover(err) < 0)
				return -1;
			walk();
			for (k = ntab - 1; k >= 0; k--)
				if (tab[k].id == id) {
					src = tab[k].p;
					break;
				}
		} else if (recover(err) < 0) {
			return -1;
		}
		walk();
	}
	return -1;
}

/* What's to happen in the next call, when following a script. */
static struct {
	int	cut, tear, fail;
} plan;

static char oplog[512];
static int noplog;

static void log_op(struct vnand *v, const char *op, long a, long b, int r,
		   const uint8_t *data)
{
	if (r <= 1 && strchr("EPB", *op) && noplog < (int)sizeof(oplog) - 16)
		noplog += sprintf(oplog + noplog, noplog ? ",%s%ld" : "%s%ld",
				  op, a);
	if (cfg.nandlog && (r == -9 || *op != 'e'))
		printf("{\"e\":\"n\",\"o\":\"%s\",\"a\":%ld,\"b\":%ld,"
		       "\"r\":%d,\"id\":%d}\n", op, a, b, r,
		       data && *op == 'P' ? pat_id(data, v->psz) : 0);
}

static char callbuf[256];
static int call_pending;

static void flush_call(void)
{
	if (call_pending)
		printf("{\"e\":\"jcall\",%s}\n", callbuf);
	call_pending = 0;
}

static int stormed;

static int do_op(int op)
{
	uint8_t *const buf = wbuf, *const meta = wmeta;
	dhara_error_t err = DHARA_E_NONE;
	dhara_page_t src = DHARA_PAGE_NONE;
	int id = 0, code, h = 0;
	volatile int r = 0;

	walk();

	/* There's nothing to be recovered now, and asking does no harm. */
	if (!rnd(12) && dhara_journal_next_recoverable(&J) !=
	    DHARA_PAGE_NONE) {
		printf("{\"e\":\"bad\",\"what\":\"recoverable\"}\n");
		return JB_GUARD;
	}

	/* If blocks may fail then keep some space in reserve for recovery. */
	if (faulty && (op == OP_ENQ || op == OP_ROT || op == OP_DUP ||
		       op == OP_PAD) &&
	    dhara_journal_size(&J) + reserve >=
	    dhara_journal_capacity(&J))
		return 0;

	if (op == OP_ENQ) {
		const int d = rnd(15) ? 1 + rnd(5000) : 0;

		id = ITEM(next_id, d);
		meta_fill(meta, next_id);
		pat_fill(buf, N.psz, d);
		next_id = next_id == 32767 ? 1 : next_id + 1;
	} else if (op == OP_ROT) {
		/* move the oldest item to the front */
		src = dhara_journal_peek(&J);
		if (src == DHARA_PAGE_NONE || !live(src, &id))
			return 0;
		meta_fill(meta, id % 32768);
	} else if (op == OP_DUP) {
		/* copy some item under a new tag */
		const int k = rnd(ntab);

		if (!ntab || !live(tab[k].p, &id))
			return 0;
		src = tab[k].p;
		id = ITEM(next_id, id / 32768);
		meta_fill(meta, next_id);
		next_id = next_id == 32767 ? 1 : next_id + 1;
	} else if (op == OP_COOKIE) {
		id = rnd(1 << 30);
	}

	if (op == OP_DEQ) {
		const dhara_page_t p = dhara_journal_peek(&J);

		h = p == DHARA_PAGE_NONE ? -1 : item_at(&J, p);
	}

	snprintf(callbuf, sizeof(callbuf), "\"op\":\"%s\",\"id\":%d,\"h\":%d",
		 names[op], id, h);
	call_pending = 1;
	N.budget = 1000000;
	rcv = 0;
	nf = 0;
	vn_zero_counters(&N);
	N.cut = plan.cut;
	N.failop = plan.fail;
	N.tear = plan.tear ? TEAR_ECC : TEAR_NONE;
	noplog = 0;
	oplog[0] = 0;
	if (cfg.crash && rnd(1000) < cfg.crash) {
		N.cut = 1 + rnd(3);
		do {
			N.tear = rnd(TEAR_MAX);
		} while (!((cfg.tears >> N.tear) & 1));
	}

	/* Several blocks in a row */
	stormed = 0;
	if (cfg.storm && cfg.nfault > 0 && rnd(1000) < cfg.storm) {
		N.failop = 1 + rnd(8);
		N.failgap = 1 + rnd(rnd(2) ? 4 : 16);
		N.failmore = cfg.nfault < 3 ? cfg.nfault : 1 + rnd(3);
		stormed = N.failmore;
		if (cfg.crash && rnd(2)) {
			N.cut = N.failop + rnd(40);
			N.tear = TEAR_NONE;
		}
	}

	code = setjmp(jb);
	if (!code) {
		N.jb = &jb;
		switch (op) {
		case OP_ENQ: r = push(buf, src, meta, &err); break;
		case OP_DEQ: dhara_journal_dequeue(&J); break;
		case OP_PAD: r = push(NULL, src, NULL, &err); break;
		case OP_ROT:
		case OP_DUP: r = push(NULL, src, meta, &err); break;
		case OP_CLEAR: dhara_journal_clear(&J); break;
		case OP_COOKIE: dhara_w32(dhara_journal_cookie(&J), id); break;
		}
	}
	N.cut = 0;
	N.failop = 0;
	cfg.nfault -= stormed - N.failmore;
	N.failmore = 0;
	if (code) {
		nf = N.c.failed;
		flush_call();
		return code;
	}
	code = setjmp(jb);
	if (code)
		return code == JB_CUT ? JB_HANG : code;
	if (guard_bad(JG.g0) || guard_bad(JG.g1) || guard_bad(pbuf_g) ||
	    guard_bad(pbuf + N.psz))
		return JB_GUARD;
	(r < 0 ? fails : oks)[op]++;
	printf("{\"e\":\"jop\",%s,\"r\":%d,\"x\":%d,\"rcv\":%d,",
	       callbuf, r, r < 0 ? err : 0, rcv);
	call_pending = 0;
	emit_state();
	return r < 0 && err != DHARA_E_JOURNAL_FULL ? 99 : 0;
}

static int boot(const char *ev)
{
	dhara_error_t e = DHARA_E_NONE;
	int r, i, code, ro;

	code = setjmp(jb);
	if (code) {
		printf("{\"e\":\"bad\",\"what\":%d}\n", code);
		return -1;
	}
	N.jb = &jb;
	N.budget = 1000000;
	N.cut = 0;
	for (i = 0; i < N.psz; i++)
		pbuf[i] = xs(&rng);
	memset(&J, 0x77, sizeof(J));
	dhara_journal_init(&J, &N.n, pbuf);
	vn_zero_counters(&N);
	r = dhara_journal_resume(&J, &e);
	ro = N.c.prog + N.c.erase + N.c.mark + N.c.copy;
	boots++;
	printf("{\"e\":\"%s\",\"r\":%d,\"ro\":%d,\"nf\":%d,", ev, r, ro,
	       nf);
	nf = 0;
	emit_state();
	return 0;
}

/* One of the next blocks will fail, or ROW in a row, some at once and others
 * after having taken some pages.
 */
static void set_faults(void)
{
	const int hb = N.last >> cfg.lb;
	const int first = hb + rnd(cfg.row ? 2 : 3);
	int i;

	for (i = 0; i < (cfg.row ? cfg.row : 1); i++) {
		const int b = (first + i) % cfg.nb;

		if (cfg.nfault <= 0 || N.bomb[b] || N.fail[b] || N.bad[b])
			return;
		cfg.nfault--;
		N.bomb[b] = 1 + rnd(cfg.row && rnd(2) ? 4 : (1 << cfg.lb) + 1);
	}
}

/* Follow a script: lines of
 *
 *	OP CUT TEAR FAIL LOG
 *
 * OP is a call or "up".  Power is lost at the CUTth operation on flash in
 * it, leaving it half done if TEAR; a block fails at the FAILth.  LOG is
 * which operations there should be ("-": none); it's only counted how often
 * that's so.
 */
static int steps, same;

static void follow(void)
{
	char line[1024], name[16], log[512];

	while (fgets(line, sizeof(line), stdin)) {
		int op, code = 0;

		if (sscanf(line, "%15s %d %d %d %511s", name, &plan.cut,
			   &plan.tear, &plan.fail, log) != 5)
			continue;
		for (op = 0; op < OP_MAX; op++)
			if (!strcmp(name, names[op]))
				break;
		noplog = 0;
		oplog[0] = 0;
		if (op < OP_MAX)
			code = do_op(op);
		steps++;
		if (!strcmp(log, noplog ? oplog : "-"))
			same++;
		if (code == JB_CUT)
			cuts++;
		else if (code == 99)
			return;
		else if (code) {
			printf("{\"e\":\"bad\",\"what\":%d}\n", code);
			return;
		}
		if ((code || op == OP_MAX) && boot("jup") < 0)
			return;
	}
}

int main(int argc, char **argv)
{
	int i, code, ppc = 1;

	for (i = 1; i < argc; i++) {
		char *eq = strchr(argv[i], '=');
		int k;

		if (!eq)
			return 2;
		*eq = 0;
		for (k = 0; opts[k].name; k++)
			if (!strcmp(opts[k].name, argv[i])) {
				*opts[k].val = atoi(eq + 1);
				break;
			}
		if (!opts[k].name)
			return 2;
	}
	rng = cfg.seed * 2654435761u + 88172645;
	if (!rng)
		rng = 1;
	for (i = 0; i < 8; i++)
		xs(&rng);
	vn_alloc(&N, cfg.lp, cfg.lb, cfg.nb);
	N.imprecise = cfg.imprecise;
	N.stale_bad = !cfg.script && cfg.seed % 3 == 0;
	N.garbage_init = cfg.garbage;
	N.fail_full = cfg.fullfail;
	N.rng = rng;
	N.log = log_op;
	vn_reset(&N);
	for (i = 0; i < cfg.bad; i++) {
		/* Those at the ends are special */
		const int b = i || rnd(3) ? rnd(cfg.nb) : rnd(3) ? cfg.nb - 1 : 0;

		N.bad[b] = N.fail[b] = 1;
	}
	faulty = cfg.nfault > 0 || cfg.script > 1;
	reserve = cfg.reserve ? cfg.reserve : 6 << cfg.lb;
	guard_set(JG.g0);
	guard_set(JG.g1);
	guard_set(pbuf_g);
	guard_set(pbuf + (1 << cfg.lp));
	guard_set(wbuf_g);
	guard_set(wbuf + (1 << cfg.lp));
	guard_set(wmeta_g);
	guard_set(wmeta + DHARA_META_SIZE);
	guard_set(rmeta_g);
	guard_set(rmeta + DHARA_META_SIZE);
	while (ppc < cfg.lb && ((2 << ppc) - 1) * 132 + 20 <= (1 << cfg.lp))
		ppc++;
	printf("{\"e\":\"jcfg\",\"lp\":%d,\"lb\":%d,\"nb\":%d,\"u\":%d,"
	       "\"flt\":%d,\"bad\":%d,\"seed\":%d,\"imp\":%d,\"gb\":%d,"
	       "\"mf\":%d,\"isbad\":[", cfg.lp, cfg.lb, cfg.nb, (1 << ppc) - 1, faulty,
	       cfg.bad, cfg.seed, cfg.imprecise, cfg.garbage,
	       cfg.script > 1 ? cfg.script - 1 : cfg.nfault);
	for (i = 0; i < cfg.nb; i++)
		printf(i ? ",%d" : "%d", N.bad[i]);
	printf("]}\n");
	if (boot("jinit") < 0)
		goto done;

	if (cfg.whole)
		N.cp_mask = (1 << ppc) - 1;
	if (cfg.script) {
		follow();
		goto done;
	}

	for (i = 0; i < cfg.nops; i++) {
		int w[] = { cfg.w_enq, cfg.w_deq, cfg.w_pad, cfg.w_rot,
			    cfg.w_clear, cfg.w_cookie, cfg.w_dup };
		int tot = 0, x, op = 0;

		if (cfg.fill) {
			/* alternate between filling up and draining */
			if ((i / cfg.fill) & 1)
				w[OP_ENQ] /= 8;
			else
				w[OP_DEQ] /= 8;
		}
		for (x = 0; x < OP_MAX; x++)
			tot += w[x];
		x = rnd(tot);
		while (x >= w[op])
			x -= w[op++];
		if (cfg.nfault > 0 && !rnd(8))
			set_faults();

		code = do_op(op);
		if (code == JB_CUT) {
			cuts++;
			if (boot("jup") < 0)
				goto done;
		} else if (code == 99) {
			goto done;
		} else if (code) {
			printf("{\"e\":\"bad\",\"what\":%d}\n", code);
			goto done;
		} else if (cfg.reboot && rnd(1000) < cfg.reboot) {
			if (boot("jup") < 0)
				goto done;
		} else if (cfg.cleanboot && rnd(1000) < cfg.cleanboot) {
			int n = 0;

			while (!dhara_journal_is_clean(&J) && n++ < 100 && !code)
				code = do_op(OP_PAD);
			if (code == JB_CUT || dhara_journal_is_clean(&J)) {
				if (boot("jup") < 0)
					goto done;
			} else if (code) {
				goto done;
			}
		}
	}
done:
	{
		int laps = 0, nbad = 0;

		for (i = 0; i < cfg.nb; i++) {
			if (N.erases[i] > laps)
				laps = N.erases[i];
			nbad += N.bad[i] || N.fail[i];
		}
		printf("{\"e\":\"end\",\"st\":{\"erases_of_one_block\":%d,"
		       "\"bad_blocks\":%d,\"cuts\":%d,\"resumes\":%d",
		       laps, nbad, cuts, boots);
		if (cfg.script)
			printf(",\"steps\":%d,\"same\":%d", steps, same);
		for (i = 0; i < OP_MAX; i++)
			printf(",\"%s\":%d,\"%s_failed\":%d", names[i],
			       oks[i], names[i], fails[i]);
		printf("}}\n");
	}
	return 0;
}
