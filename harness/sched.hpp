// Schedule perturbation: with -Wl,--wrap the pthread synchronisation calls made by
// the code under test pass through here, and a random one is delayed or yields
// first. That widens the windows between a predicate check and a wait, between two
// critical sections, and so on, without changing what the code does.
#ifndef VM_SCHED_HPP
#define VM_SCHED_HPP
#include <atomic>
#include <cstdint>
namespace vm_sched {
// intensity: 0 off, else one perturbation in `intensity` calls; maxUs: longest delay.
void configure(uint64_t seed, unsigned intensity, unsigned maxUs);
void off();
void point();                 // an explicit perturbation point (inside a workload)
uint64_t points();            // synchronisation calls seen
uint64_t perturbed();         // ... of which delayed
uint64_t signature();         // hash of the order in which threads passed the points
}
#endif
