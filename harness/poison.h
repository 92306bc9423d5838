/* Where the compiler can, make it notice even reading what's beyond a
 * buffer.
 */
#ifndef POISON_H_
#define POISON_H_

#include <stddef.h>

#ifdef __SANITIZE_ADDRESS__
void __asan_poison_memory_region(const volatile void *p, size_t size);
void __asan_unpoison_memory_region(const volatile void *p, size_t size);
#define poison __asan_poison_memory_region
#define unpoison __asan_unpoison_memory_region
#else
static inline void poison(const volatile void *p, size_t size) { }
static inline void unpoison(const volatile void *p, size_t size) { }
#endif

#endif
