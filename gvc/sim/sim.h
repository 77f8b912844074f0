/* in-process SPMD execution of the real library: every rank has its own copy of the real shared object (GA, ARMCI
   layer, ComEx), all ranks are fibers of one process, MPI is replaced by sim_mpi.c, the interleaving is drawn from a
   seed.  Bounded stand-in: one schedule per run. */
#ifndef SIM_H
#define SIM_H
#include "vs.h"
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
extern int   sim_me;                 /* rank of the running fiber */
extern int   sim_np;                 /* ranks */
extern int   sim_node_size;          /* ranks per simulated node (0: all on one node); set before sim_run */
extern void *sim_sym(const char *name);   /* address of a symbol in the running rank's library */
/* run f(rank) on np ranks (plus `extra` ranks that only serve) to completion; seed selects the schedule */
extern void  sim_run(int np, long seed, void (*f)(int));
extern void  sim_yield(void);
extern void  sim_barrier(void);      /* harness level barrier, invisible to the library */
#define S(fn) ((__typeof__(&fn))({ static void *p_[16]; if (!p_[sim_me]) p_[sim_me] = sim_sym(#fn); p_[sim_me]; }))
#define SV(v) (*(__typeof__(&v))sim_sym(#v))
#ifdef __cplusplus
}
#endif
#endif
