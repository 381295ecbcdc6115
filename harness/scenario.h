/*
 * What a concurrent scenario may use. Scenarios are compiled with -fsanitize=thread, together with the
 * repository's sources, into a shared library that runs under the controlled scheduler of sched_main.cpp.
 */
#ifndef SCHED_H
#define SCHED_H
#include <cstdint>
extern "C" {
int	mc_choose(int n);
void	mc_prune() __attribute__((noreturn));
void	mc_fail(const char* f, ...) __attribute__((noreturn, format(printf, 1, 2)));
void	mc_note(const char* f, ...) __attribute__((format(printf, 1, 2)));
void	mc_setkey(const char* f, ...) __attribute__((format(printf, 1, 2)));
long	mc_param(const char* name, long dflt);
void	mc_state(uint64_t h);
void	mc_outcome(uint64_t h);
int	sched_id();			// index of the running thread, main is 0
int	sched_waits();			// how often the running thread had to wait for anything but a mutex
int	sched_mutex_waits();		// how often it had to wait for a mutex
char*	sched_ghost(int i);		// 2 kB that no race is looked for in, zero at the start, i < 16
void	sched_until_waiting(int id);	// wait until that thread waits on a condition, or for a thread to end, or is gone
void	sched_advance(long long ns);	// let time pass
int	sched_waiting(int id);		// is that thread waiting for something
long	sched_live();			// blocks allocated now, beyond those at the start
long	sched_time();			// virtual time, ms
void	sched_fail_create(int n);	// the n-th pthread_create from now fails (1 is the next)
int	sched_unjoined();		// ended threads that nobody joined or detached
void	sched_free_point();		// the others may run here, without that counting as a preemption
struct Scenario { const char* name; void (*fn)(); int split; int leaks; };
extern Scenario mc_scenarios[];
}
#endif
