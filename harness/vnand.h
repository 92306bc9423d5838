/* Fault-injecting NAND model used by every driver.
 *
 * It implements the interface of dhara/nand.h for an arbitrary geometry,
 * records what the library asked of it, and can lose power, tear an
 * operation or fail a block at any chosen operation.  It decides nothing:
 * all verdicts are TLC's, from the log.
 */
#ifndef VNAND_H_
#define VNAND_H_

#include <setjmp.h>
#include <stdint.h>
#include <stddef.h>
#include "dhara/nand.h"

enum { PG_FREE = 0, PG_PROG = 1, PG_TORN = 2 };

/* How the operation interrupted by a power cut is left behind. */
enum {
	TEAR_NONE = 0,	/* never started */
	TEAR_ECC,	/* target unreadable (uncorrectable) */
	TEAR_MIX,	/* erase only: each page old, unreadable or erased */
	TEAR_DONE,	/* completed, but the status never seen */
	TEAR_MAX
};

/* Why a run was abandoned through env.jb */
enum { JB_CUT = 1, JB_OOR, JB_HANG };

struct vnand {
	struct dhara_nand	n;	/* must be first */

	int		total;		/* pages */
	int		psz;
	int		stale_bad;	/* can blocks marked bad be read? */
	int		imprecise;	/* is_free() == "reads as all 0xff" */
	int		garbage_init;	/* blank chip reads as junk */

	uint8_t		*data;
	uint8_t		*pst;
	uint8_t		*bad;		/* marked bad */
	uint8_t		*fail;		/* block has failed in hardware */
	int		*bomb;		/* ops until hardware failure */
	int		*erases;
	int		*next;
	uint8_t		*eccfail;	/* page: injected read failure */
	uint8_t		*dmg;		/* page: unreadable since power loss */

	/* Control (not part of the chip image) */
	jmp_buf		*jb;
	int		is_clone;
	long		budget;		/* NAND calls left before "hang" */
	int		cut;		/* mutating ops until power cut, 0 = off */
	int		tear;		/* TEAR_* for the cut */
	int		failop;		/* mutating ops until a failure, 0 = off */
	int		failmore;	/* how many blocks may yet fail that way */
	int		failgap;	/* ops between such failures */
	int		cp_mask;	/* if set then pages p with (p + 1) & cp_mask
					 * == 0 are never left unreadable: not
					 * programmed, or erased instead */
	int		fail_full;	/* how failed programs leave the page */
	int		mask_copy_ecc;
	uint32_t	rng;

	/* hook called before each mutating op on a non-clone */
	void		(*pre)(struct vnand *v, int kind, int arg);
	/* log of operations */
	void		(*log)(struct vnand *v, const char *op, long a, long b,
			       int r, const uint8_t *data);
	dhara_page_t	last;		/* page after the one programmed last */
	/* last ECC failure seen by the library */
	int		failread;	/* the nth read from now on fails */
	int		ecc_page;
	int		ecc_kind;	/* 1 = injected, 2 = dmg, 3 = other */

	/* counters of the current API call */
	struct vn_count {
		long	isbad, mark, erase, prog, isfree, read, copy, rbytes;
		long	torn_reads, failed;
	} c;
};

enum { K_ERASE = 0, K_PROG, K_MARK };

void vn_alloc(struct vnand *v, int lp, int lb, int nb);
void vn_free(struct vnand *v);
void vn_reset(struct vnand *v);
/* note what power loss has left unreadable (checkpoint pages of blocks not
 * marked bad) */
void vn_powerloss(struct vnand *v, int log2_ppc);
/* copy chip image (same geometry) */
void vn_copy(struct vnand *dst, const struct vnand *src);
void vn_zero_counters(struct vnand *v);
/* apply a torn version of an operation to the image */
void vn_tear(struct vnand *v, int kind, int arg, const uint8_t *data, int tear);

/* page contents <-> small integers.  0 is the all-0xff page. */
void pat_fill(uint8_t *buf, int psz, int id);
int pat_id(const uint8_t *buf, int psz);

static inline uint32_t xs(uint32_t *s)
{
	uint32_t x = *s;

	x ^= x << 13;
	x ^= x >> 17;
	x ^= x << 5;
	return *s = x;
}

#endif
