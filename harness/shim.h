// Replacement OpenMP runtime (GOMP ABI subset) used by the checks.
//  * FREE mode : real pthreads, no synchronisation beyond what OpenMP promises,
//                random per-thread delays at runtime calls and user yield points
//                (suitable for ThreadSanitizer).
//  * TOKEN mode: exactly one team member runs at a time; the next one is chosen
//                by a seeded PRNG at runtime calls and user yield points, so the
//                schedule is a deterministic function of the seed.
#pragma once
#include <stdint.h>
extern "C" {
void shim_config(int token_mode, uint64_t seed, double switch_prob);
void shim_yield();                 // user-level scheduling point
void shim_stats(uint64_t* regions, uint64_t* switches, uint64_t* yields, uint64_t* chunks,
                uint64_t* schedHash);
int shim_thread_id();
int shim_present();
}
