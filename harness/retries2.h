/* Built with this, the library gives up after 2 attempts instead of 8, and the
 * map keeps 2 blocks in reserve.
 */
#include "dhara/journal.h"

#undef DHARA_MAX_RETRIES
#define DHARA_MAX_RETRIES	2
