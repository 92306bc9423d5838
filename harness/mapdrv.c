/* Drives the real map layer over the fault-injecting NAND and records what
 * happened, one JSON line per event.  See spec/MapTrace.tla for the reader.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "dhara/map.h"
#include "vnand.h"
#include "poison.h"

#define MAXK 256

/* More reasons to abandon a run */
enum { JB_GUARD = 5, JB_STOP = 6 };

static struct {
	int	seed, lp, lb, nb, gc, k, kw, nops, sect;
	int	probe, deep, tears;
	int	nfault, bad, badlow, crash, imprecise, garbage, eccop, eccall, start, stale;
	int	nandlog, fmt, cost, nullerr, reboot, cleanboot;
	int	w_write, w_trim, w_cs, w_cp, w_gc, w_sync, w_clear;
	int	ff, faillate, fill, maxprobe, fullfail, obs, kf, dblboot, hot, storm, row, whole;
	int	script;
} cfg = {
	.seed = 1, .lp = 9, .lb = 2, .nb = 24, .gc = 4, .k = 8, .kw = 0,
	.nops = 100, .tears = 3, .w_write = 50, .w_trim = 12, .w_cs = 6,
	.w_cp = 4, .w_gc = 6, .w_sync = 8, .w_clear = 1, .ff = 3,
	.maxprobe = 1000000, .obs = 1
};

static struct { const char *name; int *val; } opts[] = {
#define O(x) { #x, &cfg.x }
	O(seed), O(lp), O(lb), O(nb), O(gc), O(k), O(kw), O(nops), O(sect),
	O(probe), O(deep), O(tears), O(nfault), O(bad), O(badlow), O(crash),
	O(imprecise), O(garbage), O(eccop), O(eccall), O(start), O(stale), O(nandlog), O(fmt), O(cost),
	O(nullerr), O(reboot), O(cleanboot), O(w_write), O(w_trim), O(w_cs),
	O(w_cp), O(w_gc), O(w_sync), O(w_clear), O(ff), O(faillate), O(fill),
	O(maxprobe), O(fullfail), O(obs), O(kf), O(dblboot), O(storm), O(row), O(whole),
	O(hot), O(script),
	{ NULL, NULL }
};

static struct vnand N, C, D;
/* Everything the library is given has guard bytes around it. */
#define GUARD	64
static struct guarded {
	uint8_t			g0[GUARD];
	struct dhara_map	m;
	uint8_t			g1[GUARD];
} MG;
#define M MG.m
static uint8_t pbuf_g[(1 << 12) + 2 * GUARD], cbuf_g[(1 << 12) + 2 * GUARD];
static uint8_t rbuf_g[(1 << 12) + 2 * GUARD], wbuf_g[(1 << 12) + 2 * GUARD];
#define pbuf (pbuf_g + GUARD)
#define cbuf (cbuf_g + GUARD)
#define rbuf (rbuf_g + GUARD)	/* what's read */
#define wbuf (wbuf_g + GUARD)	/* what's written */
static int cmin, cmax;
static dhara_sector_t sec[MAXK];
static uint32_t rng;
static jmp_buf jb, cjb;
static int next_id = 1;
static FILE *out;
static char callbuf[512];
static int call_pending;	/* call not yet written to the trace */
static int in_call, mut_index;
static unsigned int nprobes;
static long find_cost;
static struct vn_count last;
/* What the run amounted to */
static struct {
	long ok[8], full, fails, cuts, boots, laps, looks;
	int maxn, badblocks;
} st;

static uint32_t rnd(uint32_t n)
{
	return n ? (xs(&rng) >> 3) % n : 0;
}

static void emit(const char *fmt, ...)
{
	va_list ap;

	va_start(ap, fmt);
	vfprintf(out, fmt, ap);
	va_end(ap);
}

static void flush_call(void)
{
	if (call_pending) {
		emit("{\"e\":\"call\",%s}\n", callbuf);
		call_pending = 0;
	}
}

static void guard_set(uint8_t *p)
{
	memset(p, 0xc3, GUARD);
	poison(p, GUARD);
}

static int guard_bad(const uint8_t *p)
{
	int i, bad = 0;

	unpoison(p, GUARD);
	for (i = 0; i < GUARD; i++)
		bad |= p[i] != 0xc3;
	poison(p, GUARD);
	return bad;
}

static void guards_set(void)
{
	guard_set(MG.g0);
	guard_set(MG.g1);
	guard_set(pbuf_g);
	guard_set(pbuf + (1 << cfg.lp));
	guard_set(cbuf_g);
	guard_set(cbuf + (1 << cfg.lp));
	guard_set(rbuf_g);
	guard_set(rbuf + (1 << cfg.lp));
	guard_set(wbuf_g);
	guard_set(wbuf + (1 << cfg.lp));
}

static int guards_bad(void)
{
	return guard_bad(MG.g0) || guard_bad(MG.g1) || guard_bad(pbuf_g) ||
		guard_bad(pbuf + (1 << cfg.lp)) || guard_bad(cbuf_g) ||
		guard_bad(cbuf + (1 << cfg.lp));
}

static void sample_cap(void)
{
	const int c = dhara_map_capacity(&M);

	if (c < cmin)
		cmin = c;
	if (c > cmax)
		cmax = c;
}

static int ppc_log2(int lp, int lb)
{
	int c = 1;

	while (c < lb && ((2 << c) - 1) * DHARA_META_SIZE + DHARA_HEADER_SIZE +
	       DHARA_COOKIE_SIZE <= (1 << lp))
		c++;
	return c;
}

struct obs {
	int v[MAXK];
	int n;
};

static void observe(struct dhara_map *m, struct vnand *v, struct obs *o)
{
	void (*log)(struct vnand *, const char *, long, long, int,
		    const uint8_t *) = v->log;
	const long budget = v->budget;
	uint8_t *const buf = rbuf;
	int i;

	v->log = NULL;
	v->budget = 4000000;
	find_cost = 0;
	for (i = 0; i < cfg.k; i++) {
		dhara_error_t e1 = DHARA_E_NONE, e2 = DHARA_E_NONE;
		dhara_page_t loc = 0;
		int f, r;

		vn_zero_counters(v);
		f = dhara_map_find(m, sec[i], &loc, &e1);
		r = dhara_map_read(m, sec[i], buf, &e2);
		if (v->c.read > find_cost)
			find_cost = v->c.read;

		if (r < 0)
			o->v[i] = -3;
		else
			o->v[i] = pat_id(buf, v->psz);
		if (f < 0) {
			if (e1 != DHARA_E_NOT_FOUND)
				o->v[i] = -3;
			else
				o->v[i] = o->v[i] ? -4 : -1;
		} else if (loc >= (dhara_page_t)v->total) {
			o->v[i] = -5;
		} else if (r >= 0 && memcmp(buf, v->data +
					    (size_t)loc * v->psz, v->psz)) {
			o->v[i] = -4;
		}
	}
	if (guard_bad(rbuf_g) || guard_bad(buf + v->psz))
		o->v[0] = -6;
	o->n = dhara_map_size(m);
	v->log = log;
	v->budget = budget;
}

static void vec(const char *key, const struct obs *o)
{
	int i;

	emit("\"%s\":[", key);
	for (i = 0; i < cfg.k; i++)
		emit(i ? ",%d" : "%d", o->v[i]);
	emit("],\"%sn\":%d", key, o->n);
}

static int do_resume(struct dhara_map *m, struct vnand *v, uint8_t *buf)
{
	dhara_error_t e;
	int i;

	for (i = 0; i < v->psz; i++)
		buf[i] = xs(&v->rng);
	memset(m, 0x77, sizeof(*m));
	dhara_map_init(m, &v->n, buf, cfg.gc);
	return dhara_map_resume(m, &e);
}

/************************************************************************
 * Probes: what would be found if power failed right now?
 */

#define SEEN 64
static struct { struct obs o; int r; } seen[SEEN];
static int nseen;

static void probe(int kind, int arg, const uint8_t *data, int tear)
{
	struct dhara_map pm;
	struct obs o, w;
	int r, i, code, ro;
	int deep = cfg.deep && rnd(1000) < cfg.deep;

	nprobes++;
	vn_copy(&C, &N);
	if (kind >= 0)
		vn_tear(&C, kind, arg, data, tear);
	vn_powerloss(&C, ppc_log2(cfg.lp, cfg.lb));
	C.jb = &cjb;
	C.budget = 200000;
	C.cut = 0;

	code = setjmp(cjb);
	if (code) {
		flush_call();
		emit("{\"e\":\"bad\",\"what\":%d,\"where\":\"probe\",\"m\":%d,"
		     "\"tear\":%d}\n", code, mut_index, tear);
		return;
	}

	vn_zero_counters(&C);
	r = do_resume(&pm, &C, cbuf);
	ro = C.c.prog + C.c.erase + C.c.mark + C.c.copy;
	observe(&pm, &C, &o);

	for (i = 0; i < nseen; i++)
		if (!memcmp(seen[i].o.v, o.v, cfg.k * sizeof(int)) &&
		    seen[i].o.n == o.n && seen[i].r == r)
			break;
	if (i == nseen || ro) {
		if (nseen < SEEN) {
			seen[nseen].o = o;
			seen[nseen].r = r;
			nseen++;
		}
		flush_call();
		emit("{\"e\":\"probe\",\"r\":%d,", r);
		vec("v", &o);
		emit(",\"ro\":%d,\"m\":%d,\"tear\":%d,\"kind\":%d,\"arg\":%d}\n",
		     ro, mut_index, tear, kind, arg);
	}

	if (deep) {
		const int s = rnd(cfg.kw), d = 0x700000 + rnd(10000);
		uint8_t buf[1 << 12];
		dhara_error_t e = 0, e2 = 0;
		int r1, r2 = 0, r3 = 0, et;

		vn_zero_counters(&C);

		C.budget = 2000000;
		pat_fill(buf, C.psz, d);
		r1 = dhara_map_write(&pm, sec[s], buf, &e);
		if (r1 < 0 && e == DHARA_E_MAP_FULL)
			r1 = 1;
		r2 = dhara_map_sync(&pm, &e2);
		if (!r2)
			r3 = do_resume(&pm, &C, cbuf);
		et = C.c.torn_reads ? C.ecc_kind : 0;
		observe(&pm, &C, &w);
		flush_call();
		emit("{\"e\":\"deep\",\"s\":%d,\"d\":%d,\"r1\":%d,\"x1\":%d,"
		     "\"r2\":%d,\"x2\":%d,\"r3\":%d,\"et\":%d,", s + 1, d, r1, e,
		     r2, e2, r3, et);
		vec("v", &o);
		emit(",");
		vec("w", &w);
		emit(",\"m\":%d,\"tear\":%d}\n", mut_index, tear);
	}
}

static const uint8_t *pre_data;

static void pre(struct vnand *v, int kind, int arg)
{
	int t;

	mut_index++;
	if (in_call)
		sample_cap();
	if (!cfg.probe || !in_call || nprobes >= cfg.maxprobe)
		return;
	if (cfg.probe > 1 && rnd(cfg.probe))
		return;

	probe(-1, 0, NULL, 0);
	if (kind == K_MARK)
		return;
	for (t = TEAR_ECC; t < TEAR_MAX; t++)
		if ((cfg.tears >> t) & 1)
			if (t != TEAR_DONE && (t != TEAR_MIX || kind == K_ERASE))
				probe(kind, arg, pre_data, t);
}

/************************************************************************
 * NAND log
 */

static void hexfield(const uint8_t *p, int n)
{
	int i;

	for (i = 0; i < n; i++)
		emit("%02x", p[i]);
}

/* What's to happen in the next call, when following a script. */
static struct {
	int	s, s2, cut, tear, fail;
} plan;

static char oplog[2048];
static int noplog;

static void nlog(struct vnand *v, const char *op, long a, long b, int r,
		 const uint8_t *data)
{
	int id = 0;

	if (cfg.script && r <= 1 && strchr("EPB", *op) &&
	    noplog < (int)sizeof(oplog) - 16)
		noplog += sprintf(oplog + noplog, noplog ? ",%s%ld" : "%s%ld",
				  op, a);
	if (r != -9 && op[0] == 'e')
		return;		/* "ecc" */
	if (!cfg.nandlog && r != -9)
		return;
	flush_call();
	if (data && op[0] == 'P')
		id = pat_id(data, v->psz);
	emit("{\"e\":\"n\",\"o\":\"%s\",\"a\":%ld,\"b\":%ld,\"r\":%d,\"id\":%d",
	     op, a, b, r, id);
	if (cfg.fmt && data && op[0] == 'P' &&
	    (r == 0 || r == 2 + TEAR_DONE)) {
		const int u = (1 << ppc_log2(cfg.lp, cfg.lb)) - 1;

		if ((a & u) == u) {
			int i, j;

			emit(",\"h\":[");
			for (i = 0; i < 4; i++)
				emit(i ? ",%d" : "%d", data[i]);
			/* 32-bit little-endian words, as signed, after
			 * the first: tail, bb_current, bb_last, cookie
			 */
			emit("],\"f\":[");
			for (i = 1; i < 5; i++)
				emit(i > 1 ? ",%d" : "%d", (int32_t)
				     (data[i * 4] | data[i * 4 + 1] << 8 |
				      data[i * 4 + 2] << 16 |
				      (uint32_t)data[i * 4 + 3] << 24));
			emit("],\"meta\":[");
			for (i = 0; i < u; i++) {
				const uint8_t *q = data + 20 + i * 132;

				emit(i ? ",[" : "[");
				/* id as two 16-bit halves, then 32 alts */
				emit("%d,%d", q[0] | q[1] << 8,
				     q[2] | q[3] << 8);
				for (j = 1; j < 33; j++)
					emit(",%d", (int32_t)
					     (q[j * 4] | q[j * 4 + 1] << 8 |
					      q[j * 4 + 2] << 16 |
					      (uint32_t)q[j * 4 + 3] << 24));
				emit("]");
			}
			emit("]");
		}
	}
	emit("}\n");
	(void)hexfield;
}

/************************************************************************
 * Operations
 */

enum { OP_W, OP_T, OP_CS, OP_CP, OP_GC, OP_SYNC, OP_CLEAR, OP_MAX };
static const char *const op_names[] = {
	"w", "t", "cs", "cp", "gc", "sync", "clear"
};

/* One of the next blocks will fail, or ROW in a row, some at once and others
 * after having taken some pages.
 */
static void set_faults(void)
{
	const int hb = N.last >> cfg.lb;
	const int first = hb + rnd(cfg.row ? 2 : 3);
	int i;

	for (i = 0; i < (cfg.row ? cfg.row : 1); i++) {
		const int b = (first + i) % cfg.nb;

		if (cfg.nfault <= 0 || N.bomb[b] || N.fail[b] || N.bad[b])
			return;
		cfg.nfault--;
		N.bomb[b] = 1 + rnd(cfg.row && rnd(2) ? 4 : (1 << cfg.lb) + 1);
		emit("{\"e\":\"fault\",\"b\":%d,\"ttl\":%d}\n", b, N.bomb[b]);
	}
}

/* NAND calls by the last API call, and the worst find/read after it */
static void emit_cost(void)
{
	emit(",\"cost\":[%ld,%ld,%ld,%ld,%ld,%ld],\"js\":%d,\"fc\":%ld",
	     last.read, last.prog, last.erase, last.isbad, last.isfree,
	     last.mark, dhara_journal_size(&M.journal), find_cost);
}

static int bad_count(void)
{
	int i, n = 0;

	for (i = 0; i < cfg.nb; i++)
		n += N.bad[i] || N.fail[i];
	return n;
}

static void emit_ret(const char *pfx, int r, int err)
{
	const int ecc = N.c.torn_reads ? N.ecc_page : -1;
	const int et = N.c.torn_reads ? N.ecc_kind : 0;
	struct obs o;

	last = N.c;
	observe(&M, &N, &o);
	if (call_pending) {
		emit("{\"e\":\"op\",%s,", callbuf);
		call_pending = 0;
	} else {
		emit("{\"e\":\"ret\",");
	}
	emit("\"r\":%d,\"x\":%d,", r, err);
	vec("v", &o);
	emit(",\"cl\":%d,\"c0\":%d,\"c1\":%d,\"cz\":%d,\"m\":%d",
	     dhara_journal_is_clean(&M.journal) ? 1 : 0,
	     cmin, cmax, dhara_map_capacity(&M), mut_index);
	if (cfg.cost)
		emit_cost();
	emit(",\"bb\":%d,\"ecc\":%d,\"et\":%d}\n", bad_count(), ecc, et);
}

static struct {
	int on, f[MAXK], r[MAXK], d[MAXK];
} look;

/* Find and read everything while reads fail: what's found, or the error */
static void look_while_failing(void)
{
	static const int none = -9;
	uint8_t buf[1 << 12];
	int i, any = 0;
	struct vn_count c = N.c;

	look.on = 0;
	for (i = 0; i < N.total; i++)
		any |= N.eccfail[i];
	if (!any || setjmp(jb))
		return;
	for (i = 0; i < cfg.k; i++) {
		dhara_error_t e1 = DHARA_E_NONE, e2 = DHARA_E_NONE;
		dhara_page_t loc = 0;

		look.f[i] = dhara_map_find(&M, sec[i], &loc, &e1) < 0 ? e1 : 0;
		look.r[i] = dhara_map_read(&M, sec[i], buf, &e2) < 0 ? e2 : 0;
		look.d[i] = look.r[i] ? none : pat_id(buf, N.psz);
	}
	look.on = 1;
	st.looks++;
	N.c = c;
}

static void emit_look(void)
{
	int i;

	if (!look.on)
		return;
	emit("{\"e\":\"look\",\"f\":[");
	for (i = 0; i < cfg.k; i++)
		emit(i ? ",%d" : "%d", look.f[i]);
	emit("],\"r\":[");
	for (i = 0; i < cfg.k; i++)
		emit(i ? ",%d" : "%d", look.r[i]);
	emit("],\"d\":[");
	for (i = 0; i < cfg.k; i++)
		emit(i ? ",%d" : "%d", look.d[i]);
	emit("]}\n");
	look.on = 0;
}

/* Any page in the journal, current or not: what's on it, or -1 */
static int stale_page(dhara_page_t *src)
{
	const struct dhara_journal *j = &M.journal;
	const int group = 1 << ppc_log2(cfg.lp, cfg.lb);
	const int len = (j->head + N.total - j->tail_sync) % N.total;
	const int p = (j->tail_sync + (len ? rnd(len) : 0)) % N.total;

	if (!len || p % group == group - 1 || N.pst[p] != PG_PROG ||
	    N.bad[p >> cfg.lb])
		return -1;
	*src = p;
	return pat_id(N.data + (size_t)p * N.psz, N.psz);
}

static int stormed;

/* While the map is being filled: the next sector, counted from one */
static int first;

/* A call which is repeated with the nth read failing */
static struct { int n, s, s2, d; } rep;

/* Returns 0, or the JB_* code that abandoned the call */

static int do_op(int op)
{
	uint8_t *const buf = wbuf;
	dhara_error_t err = DHARA_E_NONE, *pe = &err;
	int s = rnd(cfg.kw);
	int s2 = rnd(cfg.kw);
	int d = 0, code;
	volatile int r = 0;
	dhara_page_t src = 0;

	/* Most of the time, just a few sectors change */
	if (cfg.hot && rnd(12))
		s = rnd(cfg.hot);

	/* Prefer unmapped sectors when filling up */
	if (cfg.fill && op <= OP_CP && (int)rnd(100) < cfg.fill) {
		int i;

		for (i = 0; i < cfg.kw; i++) {
			const int t = (s + i) % cfg.kw;

			if (dhara_map_find(&M, sec[t], NULL, NULL) < 0) {
				s = t;
				break;
			}
		}
	}

	if (cfg.script) {
		s = plan.s;
		s2 = plan.s2;
	}

	if (first)
		s = first - 1;

	if (rep.n > 1) {
		s = rep.s;
		s2 = rep.s2;
		d = rep.d;
	} else if (op == OP_W) {
		d = rnd(100) < cfg.ff ? 0 : rnd(20) || next_id < 3 ? next_id++ :
			1 + rnd(next_id - 1);
	}
	if (op == OP_W)
		pat_fill(buf, N.psz, d);
	rep.s = s;
	rep.s2 = s2;
	rep.d = d;

	if (op == OP_CP) {
		if (cfg.stale && (int)rnd(100) < cfg.stale)
			d = stale_page(&src);
		else if (dhara_map_find(&M, sec[s2], &src, NULL) < 0)
			d = -1;
		else
			d = pat_id(N.data + (size_t)src * N.psz, N.psz);
		if (d < 0) {
			rep.n = 0;
			return 0;
		}
	}

	if (cfg.nullerr && !rnd(3))
		pe = NULL;

	snprintf(callbuf, sizeof(callbuf),
		 "\"op\":\"%s\",\"s\":%d,\"s2\":%d,\"d\":%d",
		 op_names[op], s + 1, s2 + 1, d);
	cmin = cmax = dhara_map_capacity(&M);
	call_pending = 1;
	nseen = 0;
	mut_index = 0;
	vn_zero_counters(&N);
	N.budget = 1000000;
	N.cut = 0;

	if (cfg.crash && rnd(1000) < cfg.crash) {
		N.cut = 1 + rnd(rnd(3) ? 3 : 12);
		do {
			N.tear = rnd(TEAR_MAX);
		} while (!((cfg.tears >> N.tear) & 1));
	}

	/* Several blocks in a row */
	stormed = 0;
	if (cfg.storm && cfg.nfault > 0 && rnd(1000) < cfg.storm) {
		N.failop = 1 + rnd(8);
		N.failgap = 1 + rnd(rnd(2) ? 4 : 16);
		N.failmore = cfg.nfault < 3 ? cfg.nfault : 1 + rnd(3);
		stormed = N.failmore;
		if (cfg.crash && rnd(2)) {
			N.cut = N.failop + rnd(40);
			N.tear = TEAR_NONE;
		}
	}

	if (cfg.script) {
		N.cut = plan.cut;
		N.tear = plan.tear ? TEAR_ECC : TEAR_NONE;
		N.failop = plan.fail > 0 ? plan.fail : 0;
		stormed = N.failmore = plan.fail > 0;
		if (plan.fail < 0)
			N.eccfail[-plan.fail - 1] = 1;
		noplog = 0;
		oplog[0] = 0;
	}

	if (cfg.eccop && !cfg.script && rnd(1000) < cfg.eccop) {
		const int cnt = 1 + rnd(rnd(3) ? N.total / 2 : 4);
		int i;

		for (i = 0; i < cnt; i++)
			N.eccfail[rnd(N.total)] = 1;
	}

	N.failread = rep.n;
	in_call = 1;
	code = setjmp(jb);
	if (!code) {
		N.jb = &jb;
		switch (op) {
		case OP_W: r = dhara_map_write(&M, sec[s], buf, pe); break;
		case OP_T: r = dhara_map_trim(&M, sec[s], pe); break;
		case OP_CS: r = dhara_map_copy_sector(&M, sec[s2], sec[s], pe); break;
		case OP_CP: r = dhara_map_copy_page(&M, src, sec[s], pe); break;
		case OP_GC: r = dhara_map_gc(&M, pe); break;
		case OP_SYNC: r = dhara_map_sync(&M, pe); break;
		case OP_CLEAR: dhara_map_clear(&M); break;
		}
	}
	in_call = 0;
	if (!N.failread)
		rep.n = rep.n ? rep.n + 1 : 0;
	else
		rep.n = 0;
	N.failread = 0;
	N.cut = 0;
	N.failop = 0;
	cfg.nfault -= stormed - N.failmore;
	N.failmore = 0;
	if (cfg.eccop) {
		if (!code && op != OP_CLEAR)
			look_while_failing();
		memset(N.eccfail, 0, N.total);
	}

	if (code) {
		flush_call();
		return code;
	}

	code = setjmp(jb);
	if (code)
		return code == JB_CUT ? JB_HANG : code;
	sample_cap();
	if (guards_bad())
		return JB_GUARD;
	if (!pe && r < 0)
		err = -1;
	if (r >= 0)
		st.ok[op]++;
	else if (err == DHARA_E_MAP_FULL)
		st.full++;
	else
		st.fails++;
	if ((int)dhara_map_size(&M) > st.maxn)
		st.maxn = dhara_map_size(&M);
	emit_ret("", r, r < 0 ? err : 0);
	emit_look();
	/* Don't go on after a known finding: see KNOWN_FINDINGS */
	if (r < 0 && pe && err == DHARA_E_ECC && last.torn_reads &&
	    N.ecc_kind == 2)
		return JB_STOP;
	if (cfg.probe && nprobes < cfg.maxprobe) {
		nseen = 0;
		probe(-1, 0, NULL, 0);
	}
	return 0;
}

static int boot(const char *ev)
{
	struct obs o;
	int r, code, ro;

	N.budget = 1000000;
	N.cut = 0;
	vn_powerloss(&N, ppc_log2(cfg.lp, cfg.lb));
	vn_zero_counters(&N);
	code = setjmp(jb);
	if (code) {
		emit("{\"e\":\"bad\",\"what\":%d,\"where\":\"resume\"}\n", code);
		return -1;
	}
	N.jb = &jb;
	r = do_resume(&M, &N, pbuf);
	ro = N.c.prog + N.c.erase + N.c.mark + N.c.copy;
	last = N.c;
	emit("{\"e\":\"%s\",\"r\":%d,\"ro\":%d", ev, r, ro);
	observe(&M, &N, &o);
	if (cfg.cost)
		emit_cost();
	emit(",\"win\":%d,", (1 << ppc_log2(cfg.lp, cfg.lb)) - 2);
	vec("v", &o);
	emit(",\"cl\":%d,\"cz\":%d,\"bb\":%d}\n",
	     dhara_journal_is_clean(&M.journal) ? 1 : 0,
	     dhara_map_capacity(&M), bad_count());
	if (guards_bad()) {
		emit("{\"e\":\"bad\",\"what\":5,\"where\":\"resume\"}\n");
		return -1;
	}
	return 0;
}

static int restart(void)
{
	int i;

	for (i = 0; i <= cfg.dblboot; i++) {
		st.boots++;
		emit("{\"e\":\"crash\"}\n");
		if (boot("up") < 0)
			return -1;
	}
	return 0;
}

static void choose_sectors(void)
{
	int i, j;

	/* All those that differ in some bits */
	if (cfg.sect == 6) {
		dhara_sector_t bit[6];
		const dhara_sector_t base = xs(&rng) & 0x7fffffff;
		int n = 0;

		while ((1 << n) < cfg.k)
			n++;
		for (i = 31; i >= 0 && n; i--)
			if (rnd(i + 1) < (uint32_t)n)
				bit[--n] = 1u << i;
		for (i = 0; i < cfg.k; i++) {
			sec[i] = base;
			for (j = 0; 1 << j < cfg.k; j++)
				sec[i] = (sec[i] & ~bit[j]) |
					((i >> j) & 1 ? bit[j] : 0);
		}
		return;
	}

	for (i = 0; i < cfg.k; i++) {
	again:
		switch (cfg.sect) {
		case 0: sec[i] = i; break;
		case 1: sec[i] = xs(&rng); break;
		case 2: sec[i] = i < 32 ? 1u << i : (i == 32 ? 0 : xs(&rng)); break;
		case 3: sec[i] = 0xfffffffeu - i; break;
		case 4: sec[i] = (xs(&rng) & 7) | ((xs(&rng) & 3) << 30); break;
		default: sec[i] = (i & 1) ? sec[i - 1] ^ (1u << rnd(32)) : xs(&rng);
		}
		if (sec[i] == DHARA_SECTOR_NONE) {
			if (cfg.sect == 2 || cfg.sect == 0 || cfg.sect == 3)
				sec[i] = 0x12345678;
			else
				goto again;
		}
		for (j = 0; j < i; j++)
			if (sec[j] == sec[i]) {
				if (cfg.sect == 4)
					cfg.sect = 1;
				sec[i] = 0;
				goto again;
			}
	}
	/* shuffle so that the never-written ones are arbitrary */
	for (i = cfg.k - 1; i > 0; i--) {
		const dhara_sector_t t = sec[i];

		j = rnd(i + 1);
		sec[i] = sec[j];
		sec[j] = t;
	}
}

/* Follow a script: lines of
 *
 *	OP S S2 CUT TEAR FAIL LOG
 *
 * OP is a call or "up", S and S2 are sectors.  Power is lost at the CUTth
 * operation on flash in it, leaving it half done if TEAR; a block fails at
 * the FAILth, or page -FAIL - 1 can't be read.  LOG is which operations there
 * should be ("-": none); it's only counted how often that's so.
 */
static int steps, same;

static void follow(void)
{
	char line[4096], name[16], log[2048];

	while (fgets(line, sizeof(line), stdin)) {
		int op, code = 0;

		if (sscanf(line, "%15s %d %d %d %d %d %2047s", name, &plan.s,
			   &plan.s2, &plan.cut, &plan.tear, &plan.fail,
			   log) != 7 || plan.s >= cfg.k || plan.s2 >= cfg.k)
			continue;
		for (op = 0; op < OP_MAX; op++)
			if (!strcmp(name, op_names[op]))
				break;
		noplog = 0;
		oplog[0] = 0;
		if (op < OP_MAX)
			code = do_op(op);
		steps++;
		if (!strcmp(log, noplog ? oplog : "-"))
			same++;
		if (code == JB_CUT) {
			st.cuts++;
		} else if (code == JB_STOP) {
			return;
		} else if (code) {
			emit("{\"e\":\"bad\",\"what\":%d,\"where\":\"op\"}\n",
			     code);
			return;
		}
		if ((code || op == OP_MAX) && restart() < 0)
			return;
	}
}

int main(int argc, char **argv)
{
	int i, code = 0;

	out = stdout;
	for (i = 1; i < argc; i++) {
		char *eq = strchr(argv[i], '=');
		int j;

		if (!eq)
			return 2;
		*eq = 0;
		for (j = 0; opts[j].name; j++)
			if (!strcmp(opts[j].name, argv[i])) {
				*opts[j].val = atoi(eq + 1);
				break;
			}
		if (!opts[j].name) {
			fprintf(stderr, "unknown option %s\n", argv[i]);
			return 2;
		}
	}
	if (!cfg.kw || cfg.kw > cfg.k)
		cfg.kw = cfg.k;
	rng = cfg.seed * 2654435761u + 88172645;
	if (!rng)
		rng = 1;
	for (i = 0; i < 8; i++)
		xs(&rng);

	vn_alloc(&N, cfg.lp, cfg.lb, cfg.nb);
	vn_alloc(&C, cfg.lp, cfg.lb, cfg.nb);
	vn_alloc(&D, cfg.lp, cfg.lb, cfg.nb);
	N.imprecise = cfg.imprecise;
	N.stale_bad = !cfg.script && cfg.seed % 3 == 0;
	N.garbage_init = cfg.garbage;
	N.fail_full = cfg.fullfail;
	C.is_clone = D.is_clone = 1;
	N.pre = pre;
	N.log = nlog;
	N.rng = rng;
	vn_reset(&N);
	for (i = 0; i < cfg.bad; i++) {
		/* Those at the ends are special */
		const int b = i || rnd(3) ? rnd(cfg.nb) : rnd(3) ? cfg.nb - 1 : 0;

		N.bad[b] = N.fail[b] = 1;
	}
	/* Those met early on, so that the capacity takes them into account
	 * when the map gets full for the first time.
	 */
	for (i = 0; i < cfg.badlow; i++) {
		const int b = rnd(cfg.nb * 3 / 5);

		if (b % 5 != 4)
			N.bad[b] = N.fail[b] = 1;
	}
	choose_sectors();
	guards_set();

	{
		const int ppc = ppc_log2(cfg.lp, cfg.lb);

		if (cfg.whole)
			N.cp_mask = C.cp_mask = D.cp_mask = (1 << ppc) - 1;
		emit("{\"e\":\"cfg\",\"k\":%d,\"kw\":%d,\"u\":%d,\"gc\":%d,\"lp\":%d,"
		     "\"lb\":%d,\"nb\":%d,\"imp\":%d,\"seed\":%d,\"eccop\":%d,\"kf\":%d,\"gb\":%d,"
		     "\"rt\":%d,\"bad\":[",
		     cfg.k, cfg.kw, (1 << ppc) - 1, cfg.gc, cfg.lp, cfg.lb,
		     cfg.nb, cfg.imprecise, cfg.seed, cfg.eccop || cfg.eccall, cfg.kf,
		     cfg.garbage, DHARA_MAX_RETRIES);
		for (i = 0; i < cfg.nb; i++)
			emit(i ? ",%d" : "%d", N.bad[i]);
		emit("],\"sec\":[");
		for (i = 0; i < cfg.k; i++)
			emit(i ? ",[%d,%d]" : "[%d,%d]", sec[i] & 0xffff,
			     sec[i] >> 16);
		emit("]}\n");
	}

	if (boot("init") < 0)
		goto done;

	if (cfg.script) {
		follow();
		goto done;
	}

	/* Start with a full map */
	for (i = 0; i < cfg.start && i < cfg.kw && !st.full; i++) {
		first = i + 1;
		code = do_op(OP_W);
		if (code) {
			emit("{\"e\":\"bad\",\"what\":%d,\"where\":\"op\"}\n", code);
			goto done;
		}
	}
	first = 0;

	for (i = 0; i < cfg.nops; i++) {
		const int tot = cfg.w_write + cfg.w_trim + cfg.w_cs + cfg.w_cp +
			cfg.w_gc + cfg.w_sync + cfg.w_clear;
		int x = rnd(tot), op = 0;
		const int w[] = { cfg.w_write, cfg.w_trim, cfg.w_cs, cfg.w_cp,
				  cfg.w_gc, cfg.w_sync, cfg.w_clear };

		while (x >= w[op])
			x -= w[op++];

		if (cfg.nfault > 0 && i >= cfg.faillate && !rnd(8))
			set_faults();

		/* If each read fails in turn, it's as good as done once */
		rep.n = cfg.eccall && (int)rnd(1000) < cfg.eccall;
		do {
			code = do_op(op);
		} while (!code && rep.n && rep.n < 300);
		rep.n = 0;

		if (code == JB_CUT) {
			st.cuts++;
			if (restart() < 0)
				goto done;
		} else if (code == JB_STOP) {
			goto done;
		} else if (code) {
			emit("{\"e\":\"bad\",\"what\":%d,\"where\":\"op\"}\n", code);
			goto done;
		} else if (cfg.reboot && rnd(1000) < cfg.reboot) {
			if (restart() < 0)
				goto done;
		} else if (cfg.cleanboot && rnd(1000) < cfg.cleanboot) {
			code = do_op(OP_SYNC);
			if (code && code != JB_CUT) {
				emit("{\"e\":\"bad\",\"what\":%d,\"where\":\"op\"}\n", code);
				goto done;
			}
			if (restart() < 0)
				goto done;
		}
	}

done:
	for (i = 0; i < cfg.nb; i++)
		if (N.erases[i] > st.laps)
			st.laps = N.erases[i];
	emit("{\"e\":\"end\",\"probes\":%u,\"st\":{", nprobes);
	for (i = 0; i < OP_MAX; i++)
		emit("\"%s\":%ld,", op_names[i], st.ok[i]);
	emit("\"full\":%ld,\"failed\":%ld,\"cuts\":%ld,\"resumes\":%ld,"
	     "\"erases_of_one_block\":%ld,\"lookups_while_failing\":%ld,"
	     "\"most_sectors\":%d,\"bad_blocks\":%d",
	     st.full, st.fails, st.cuts, st.boots, st.laps, st.looks, st.maxn,
	     bad_count());
	if (cfg.script)
		emit(",\"steps\":%d,\"same\":%d", steps, same);
	emit("}}\n");
	return 0;
}
