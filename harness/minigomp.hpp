/* A small OpenMP runtime on POSIX threads, in place of libgomp: ThreadSanitizer understands its synchronisation, every
 * thread of a team really exists, and the order of the threads is perturbed from a seed. */
#ifndef VERIF_MINIGOMP_HPP
#define VERIF_MINIGOMP_HPP
#include <cstdint>
extern "C" {
void minigomp_seed(uint64_t seed, int jitter);
long minigomp_regions();
}
#endif
