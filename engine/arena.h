// Node-side heap: a bump arena dropped between executions (see arena.cc).
#ifndef VMC_ARENA_H_
#define VMC_ARENA_H_
extern bool vmc_in_node;      // the running code belongs to a node
extern int vmc_fill;         // what fresh node memory contains
void vmc_arena_reset();       // forget everything the nodes allocated
void vmc_arena_enable(bool on);
#endif
