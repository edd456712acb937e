// Deterministic simulation kernel: public C interface (mirrored in sim/harness/src/sim.rs).
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
struct SimParams {
  uint64_t seed;            // schedule / fault decisions
  uint32_t strategy;        // 0 random walk, 1 priority (PCT-like), 2 random walk with stalls, 3 run-to-block
  uint32_t preempt_gap;     // mean number of atomic operations between preemptions (random walk)
  uint32_t pct_depth;       // number of priority change points
  uint32_t pct_span;        // estimated number of points in a run
  uint32_t slice;           // forced round-robin switch after this many points
  uint32_t tick_ns;         // virtual time per scheduling point
  uint32_t late_max_us;     // timers/timeouts may fire up to this late
  uint32_t p_spurious;      // per 65536: spurious futex wake-up
  uint32_t p_eintr;         // per 65536: EINTR from an I/O call
  uint32_t p_partial;       // per 65536: short read/write
  uint32_t p_wouldblock;    // per 65536: spurious EAGAIN on send
  uint32_t p_epoll_subset;  // per 65536: epoll_wait reports only some of the ready events
  uint32_t lat_min_us, lat_max_us; // network latency per segment
  uint32_t sockbuf;         // socket buffer capacity in bytes
  uint32_t p_udp_drop, p_udp_dup, p_udp_delay; // per 65536
  uint32_t p_rst;           // per 65536: connection reset injected on a send
  uint32_t p_connfail;      // per 65536: connection attempt refused / timed out
  uint32_t p_bindfail;      // per 65536: EADDRINUSE on bind
  uint32_t p_stall;         // per 65536 (per switch): stall the thread
  uint32_t stall_max_us;
  uint32_t _pad;
  uint64_t max_steps;       // step limit of a run
  uint64_t max_time_ns;     // virtual time limit of a run
};
struct SimDecision { uint16_t tid; uint16_t kind; uint32_t ctr; uint32_t val; };
enum { SIM_K_PREEMPT=0, SIM_K_NEXT=1, SIM_K_WAKE=2, SIM_K_SPUR=3, SIM_K_EINTR=4, SIM_K_PARTIAL=5, SIM_K_AGAIN=6,
       SIM_K_EPSUB=7, SIM_K_LAT=8, SIM_K_UDROP=9, SIM_K_UDUP=10, SIM_K_RST=11, SIM_K_CONN=12, SIM_K_BIND=13,
       SIM_K_STALL=14, SIM_K_LATE=15, SIM_K_EPORD=16, SIM_K_UDELAY=17, SIM_NKINDS=18 };
enum { SIM_OUT_NONE=0, SIM_OUT_OK=1, SIM_OUT_VIOLATION=2, SIM_OUT_DEADLOCK=3, SIM_OUT_STEPS=4, SIM_OUT_TIME=5,
       SIM_OUT_INTERNAL=6, SIM_OUT_PANIC=7, SIM_OUT_SKIP=8 };
// Shared with the parent process.
struct SimShared {
  uint32_t outcome; uint32_t msglen;
  uint64_t steps, switches, virt_ns, hash, state_hash;
  uint64_t faults[32];      // fired, per decision kind (non-default only), plus explicit ones from 24 up
  uint64_t counters[32];    // free for the harness
  uint32_t threads, ndec, dec_overflow, tracelen;
  uint32_t npanics, _r;
  char panics[8192];
  char msg[8192];
  char trace[262144];
  SimDecision dec[1<<20];
};
void sim_start(const SimParams*, SimShared*, const SimDecision* replay, size_t nreplay, int replay_mode, int record);
void sim_finish(uint32_t outcome, const char* msg, size_t len) __attribute__((noreturn));
int  sim_active();
uint64_t sim_now();
uint64_t sim_step();
int  sim_tid();
void sim_set_node(int n);
int  sim_get_node();
void sim_crash_node(int n, int mode); // 0: process crash (FIN/RST), 1: host crash (silent)
void sim_revive_node(int n);
void sim_partition(int a, int b, int on);   // both directions
void sim_partition_oneway(int a, int b, int on);
void sim_reset_conns(int a, int b);   // reset every connection between a and b
void sim_set_param(int which, uint32_t v); // runtime change of fault rates (0: p_eintr,1:p_partial,2:p_wouldblock,3:p_rst,4:p_connfail,5:p_udp_drop,6:p_udp_dup,7:p_stall,8:p_spurious)
void sim_quiet();                      // switch every fault off, heal every partition
void sim_clock_jump(int64_t ns_realtime);
void sim_trace(const char*, size_t);
void sim_fault_note(int kind);
void sim_state(uint64_t h);            // mixes an observed abstract state into the state hash
uint64_t sim_open_conns(int node);
void sim_nopreempt(int d);             // +1/-1: no scheduling points while > 0
int sim_runnable_others();
void sim_points(int n);
void sim_panic(const char*, size_t);
}
