// Deterministic simulation kernel.
//
// Linked into the harness binary, it takes the place of the operating system underneath the unmodified
// kompact / kompact-net crates: it defines the libc entry points through which Rust's std, mio, rustix,
// parking_lot etc. reach threads, futexes, clocks, randomness, epoll and sockets, plus the __tsan_atomic*
// functions that the compiler's TSan pass calls for every atomic operation. Exactly one thread runs at a
// time; a seeded generator decides at every such call who runs next, how late a timer fires, what the
// network does, and which fault is injected. Outside a simulated run every call goes to the real kernel.
#include "kernel.h"
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <time.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/eventfd.h>
#include <netinet/in.h>
#include <linux/futex.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <execinfo.h>
#include <signal.h>
#include <ucontext.h>
#include <stdlib.h>
#include <vector>
#include <deque>
#include <map>
#include <algorithm>
#include <string>

typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64; typedef uint8_t u8; typedef uint16_t u16;
static const u64 NEVER = ~0ull;

// ---------------------------------------------------------------- raw system calls
static inline long raw6(long n,long a,long b,long c,long d,long e,long f){
  long r; register long r10 asm("r10")=d; register long r8 asm("r8")=e; register long r9 asm("r9")=f;
  asm volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory");
  return r;
}
static inline long ret(long r){ if(r<0 && r>-4096){ errno=(int)-r; return -1;} return r; }
#define RAW(n,...) RAW_(n,##__VA_ARGS__,0,0,0,0,0,0)
#define RAW_(n,a,b,c,d,e,f,...) raw6(n,(long)(a),(long)(b),(long)(c),(long)(d),(long)(e),(long)(f))

// ---------------------------------------------------------------- state
enum TSt { RUN, BLK, DONE };
enum Why { W_NONE, W_WOKEN, W_TIMEOUT, W_SPURIOUS };
struct Epoll;
struct Thr {
  int id; int node; TSt st; int why; volatile int tok;
  const void* faddr; u32 fbits; u64 deadline; const void* waitobj;
  u64 stall_until; u64 prio; bool frozen; bool detached;
  u64 points; u64 slice;
  u32 ctr[SIM_NKINDS];
  void*(*fn)(void*); void* arg; void* retv; pthread_t real; Thr* joiner; int endcalls; int nopreempt; u32 yields;
};
static __thread Thr* self __attribute__((tls_model("initial-exec")));
static bool active;
static SimParams P;
static SimShared* SH;
static Thr* T[512]; static int NT; static Thr* cur;
static u64 now_ns, steps, seqno; static i64 rt_off;
static u64 next_due=NEVER;
static u64 hash_ = 1469598103934665603ull;
static u64 rng_s[4], ent_s[4], net_s[4];
static bool replaying, recording;
static std::map<u64,u32>* RD;
static std::vector<u64>* pct_points; static u64 pct_low;
static i64 gap_left;
static pthread_key_t endkey; static bool endkey_ok;
static const u64 T0 = 1000000000000ull;

static inline u64 rotl(u64 x,int k){return (x<<k)|(x>>(64-k));}
static u64 nextr(u64* s){ u64 r=rotl(s[1]*5,7)*9,t=s[1]<<17; s[2]^=s[0];s[3]^=s[1];s[1]^=s[2];s[0]^=s[3];s[2]^=t;s[3]=rotl(s[3],45);return r;}
static void seedr(u64*s,u64 x){ for(int i=0;i<4;i++){ x+=0x9e3779b97f4a7c15ull; u64 z=x; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; s[i]=z^(z>>31);} }
static inline void mix(u64 v){ hash_=(hash_^v)*1099511628211ull; hash_^=hash_>>29; }

static void die(u32 oc,const char* fmt,...) __attribute__((noreturn));
static void die(u32 oc,const char* fmt,...){
  char b[1024]; va_list ap; va_start(ap,fmt); int n=vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  sim_finish(oc,b,n<(int)sizeof b?n:sizeof b-1);
}

// ---------------------------------------------------------------- decisions
static inline u64 dkey(u32 tid,u32 kind,u32 ctr){ return ((u64)tid<<48)|((u64)kind<<40)|ctr; }
static void logdec(u32 kind,u32 ctr,u32 val){
  if(val==0) return;
  if(SH && kind<24) SH->faults[kind]++;
  if(!recording) return;
  if(SH->ndec < sizeof(SH->dec)/sizeof(SH->dec[0])){ SimDecision&d=SH->dec[SH->ndec++]; d.tid=cur->id; d.kind=kind; d.ctr=ctr; d.val=val; }
  else SH->dec_overflow=1;
}
// probability p/65536 of a value in 1..n
static u32 decide(u32 kind,u32 p,u32 n){
  u32 c=cur->ctr[kind]++;
  if(replaying){ auto it=RD->find(dkey(cur->id,kind,c)); u32 v= it==RD->end()?0:it->second; if(v>n) v=n; if(v){logdec(kind,c,v);mix(kind*7919+v);} return v; }
  if(p==0||n==0) return 0;
  u64 r=nextr(net_s);
  if((r&0xffff)>=p) return 0;
  u32 v=1+(u32)((r>>16)%n); logdec(kind,c,v); mix(kind*7919+v); return v;
}

// ---------------------------------------------------------------- thread hand-over
static inline void fwake(volatile int*a){ RAW(SYS_futex,a,FUTEX_WAKE|FUTEX_PRIVATE_FLAG,1,0,0,0); }
static inline void fwait(volatile int*a){ while(__atomic_load_n(a,__ATOMIC_ACQUIRE)==0) RAW(SYS_futex,a,FUTEX_WAIT|FUTEX_PRIVATE_FLAG,0,0,0,0); __atomic_store_n(a,0,__ATOMIC_RELAXED); }
static inline bool runnable(Thr*t){ return t->st==RUN && !t->frozen && (t->stall_until<=now_ns); }
static void hand_to(Thr*t){
  Thr*me=cur; if(t==me) return;
  SH->switches++; mix(((u64)t->id<<32)^me->points);
  cur=t; if(P.strategy!=1 || replaying) t->slice=0;
  __atomic_store_n(&t->tok,1,__ATOMIC_RELEASE); fwake(&t->tok);
  if(me->st!=DONE) fwait(&me->tok); else { volatile int z=0; for(;;) RAW(SYS_futex,&z,FUTEX_WAIT|FUTEX_PRIVATE_FLAG,0,0,0,0); }
}
static void net_fire(u64 upto); static u64 net_next();
static void recompute_due(){
  u64 d=net_next();
  for(int i=0;i<NT;i++){ Thr*t=T[i]; if(t->frozen) continue; if(t->st==BLK && t->deadline<d) d=t->deadline; if(t->st==RUN && t->stall_until>now_ns && t->stall_until<d) d=t->stall_until; }
  next_due=d;
}
static void wake_thr(Thr*t,int why){ if(t->st==BLK){ t->st=RUN; t->why=why; t->faddr=0; t->waitobj=0; t->deadline=NEVER; } }
static void fire_due(){
  net_fire(now_ns);
  for(int i=0;i<NT;i++){ Thr*t=T[i]; if(t->st==BLK && t->deadline<=now_ns && !t->frozen) wake_thr(t,W_TIMEOUT); }
  recompute_due();
}
static int list_runnable(Thr**out,Thr*except){ int n=0; for(int i=0;i<NT;i++) if(T[i]!=except && runnable(T[i])) out[n++]=T[i]; return n; }
static Thr* rr_next(Thr*from){ for(int k=1;k<=NT;k++){ Thr*t=T[(from->id+k)%NT]; if(t!=from && runnable(t)) return t; } return 0; }
static void newgap(){ u64 g=P.preempt_gap?P.preempt_gap:1; gap_left=1+(i64)(nextr(rng_s)%(2*g)); }
static Thr* best_prio(Thr*except){ Thr*b=0; for(int i=0;i<NT;i++) if(T[i]!=except && runnable(T[i]) && (!b || T[i]->prio>b->prio)) b=T[i]; return b; }
static bool limits(){
  if(steps>P.max_steps){
    char b[900]; int o=snprintf(b,sizeof b,"step limit of %llu reached at %.3f virtual ms; points per thread:",(unsigned long long)P.max_steps,(now_ns-T0)/1e6);
    for(int i=0;i<NT && o<800;i++) o+=snprintf(b+o,sizeof b-o," t%d=%llu%s%s",i,(unsigned long long)T[i]->points,T[i]->st==BLK?"b":T[i]->st==RUN?"r":"e",T[i]==cur?"*":"");
    if(getenv("KSIM_BT")){ active=false; void*bt[60]; int n=backtrace(bt,60); backtrace_symbols_fd(bt,n,2); }
    sim_finish(SIM_OUT_STEPS,b,o);
  }
  if(now_ns-T0>P.max_time_ns) die(SIM_OUT_TIME,"virtual time limit of %.3f s reached",P.max_time_ns/1e9);
  return false;
}
// Called when the current thread cannot continue: choose who runs.
static void pick_and_go(){
  for(;;){
    if(now_ns>=next_due) fire_due();
    Thr* rs[512]; int n=list_runnable(rs,0);
    if(n==0){
      recompute_due();
      if(next_due==NEVER){
        char b[900]; int o=snprintf(b,sizeof b,"deadlock: every thread is blocked with no pending event:");
        for(int i=0;i<NT && o<800;i++) if(T[i]->st==BLK && !T[i]->frozen) o+=snprintf(b+o,sizeof b-o," t%d(node %d)",T[i]->id,T[i]->node);
        sim_finish(SIM_OUT_DEADLOCK,b,o);
      }
      if(next_due>now_ns) now_ns=next_due;
      limits(); fire_due(); continue;
    }
    u32 c=cur->ctr[SIM_K_NEXT]++;
    Thr*def=rr_next(cur); if(!def) def=cur; Thr*t=def;
    if(replaying){ auto it=RD->find(dkey(cur->id,SIM_K_NEXT,c)); if(it!=RD->end()){ u32 id=it->second-1; if(id<(u32)NT && runnable(T[id])) t=T[id]; } }
    else if(P.strategy==1){ t=best_prio(0); }
    else if(P.strategy==3){ t=(nextr(rng_s)&7)?def:rs[nextr(rng_s)%n]; }
    else t=rs[nextr(rng_s)%n];
    if(t!=def) logdec(SIM_K_NEXT,c,t->id+1);
    if(t==cur){ return; }
    hand_to(t); return;
  }
}
static inline void maybe_stall(Thr*t,u32 c){
  u32 v=0;
  if(replaying){ auto it=RD->find(dkey(t->id,SIM_K_STALL,c)); if(it!=RD->end()) v=it->second>64?64:it->second; }
  else { if(!P.p_stall) return; u64 r=nextr(net_s); if((r&0xffff)>=P.p_stall) return; v=1+(u32)((r>>16)%64); }
  if(v){ logdec(SIM_K_STALL,c,v); t->stall_until=now_ns+(u64)P.stall_max_us*1000ull*v/64; if(t->stall_until<next_due) next_due=t->stall_until; }
}
// A scheduling point of the current thread.
static void point_slow(){
  Thr*me=cur; limits();
  if(now_ns>=next_due) fire_due();
  u32 c=me->ctr[SIM_K_PREEMPT]++;
  Thr*t=0; bool forced=false;
  if(me->slice>=P.slice){ forced=true; t=rr_next(me); me->slice=0; if(P.strategy==1 && !replaying) me->prio=--pct_low; }
  if(replaying){ auto it=RD->find(dkey(me->id,SIM_K_PREEMPT,c)); if(it!=RD->end()){ u32 id=it->second-1; if(id<(u32)NT && runnable(T[id])) t=T[id]; } }
  else if(P.strategy==1){
    if(pct_points->size() && pct_points->back()<=steps){ pct_points->pop_back(); me->prio=--pct_low; }
    Thr*b=best_prio(0); if(b && b!=me) { t=b; logdec(SIM_K_PREEMPT,c,t->id+1);} 
    maybe_stall(me,c);
  } else if(P.strategy!=3 && gap_left<=0){
    newgap();
    Thr*rs[512]; int n=list_runnable(rs,me);
    if(n){ t=rs[nextr(rng_s)%n]; logdec(SIM_K_PREEMPT,c,t->id+1); }
    if(n) maybe_stall(me,c);
  }
  if(replaying && RD->size()) maybe_stall(me,c);
  (void)forced;
  if(me->stall_until>now_ns && !t) t=rr_next(me);
  if(t && t!=me) hand_to(t);
}
// A run that has used up many steps is on an ever slower machine: busy waiting then burns virtual time, not steps.
static u64 warp_at=400000;
static void __attribute__((noinline)) warp(){ if(warp_at==400000){ warp_at=1000000; if(P.tick_ns<1000) P.tick_ns=1000; } else { warp_at=NEVER; P.tick_ns=20000; } }
static inline void point(){
  Thr*me=self; if(!active||!me||me!=cur) return;
  steps++; if(__builtin_expect(steps==warp_at,0)) warp(); now_ns+=P.tick_ns; me->points++; me->slice++; gap_left--;
  if(me->nopreempt) return;
  point_slow();
}
// Cheap pre-filter for atomics: only enter the slow path when something can happen.
static inline void apoint(){
  Thr*me=self; if(__builtin_expect(!active||!me||me!=cur,0)) return;
  steps++; if(__builtin_expect(steps==warp_at,0)) warp(); now_ns+=P.tick_ns; me->points++; me->slice++; gap_left--;
  if(me->nopreempt) return;
  if(replaying || now_ns>=next_due || me->slice>=P.slice || steps>P.max_steps || P.strategy==1 || gap_left<=0) point_slow();
  else me->ctr[SIM_K_PREEMPT]++;
}
static int block(u64 deadline){
  Thr*me=cur; me->st=BLK; me->why=W_NONE; me->deadline=deadline; me->slice=0; me->yields=0;
  if(deadline!=NEVER && P.late_max_us){ u32 v=decide(SIM_K_LATE,16384,16); me->deadline+= (u64)P.late_max_us*1000*v/16; }
  if(me->deadline<next_due) next_due=me->deadline;
  pick_and_go();
  limits();
  return me->why;
}

// ---------------------------------------------------------------- interface
static void segv(int sg,siginfo_t*si,void*uc){
  bool was=active; active=false; void*bt[60]; int n=backtrace(bt,60); char b[200];
  int l=snprintf(b,sizeof b,"SIG %d addr %p ip %p self t%d cur t%d active %d steps %llu pid %d\n",sg,si->si_addr,(void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP],self?self->id:-1,cur->id,was,(unsigned long long)steps,0);
  RAW(SYS_write,2,b,l); backtrace_symbols_fd(bt,n,2); long me=RAW(SYS_getpid); RAW(SYS_kill,me,9);
}
extern "C" {
void sim_start(const SimParams*p, SimShared*sh,const SimDecision*rd,size_t nrd,int rmode,int rec){
  P=*p; SH=sh; replaying=rmode; recording=rec; RD=new std::map<u64,u32>(); pct_points=new std::vector<u64>();
  for(size_t i=0;i<nrd;i++) (*RD)[dkey(rd[i].tid,rd[i].kind,rd[i].ctr)]=rd[i].val;
  seedr(rng_s,p->seed^0x5ced); seedr(ent_s,p->seed^0xe47); seedr(net_s,p->seed^0x4e7);
  now_ns=T0; if(!P.slice) P.slice=5000; if(!P.tick_ns) P.tick_ns=50;
  pct_low=1ull<<32;
  if(P.strategy==1){ for(u32 i=0;i<P.pct_depth;i++) pct_points->push_back(nextr(rng_s)%(P.pct_span?P.pct_span:1)); std::sort(pct_points->rbegin(),pct_points->rend()); }
  newgap();
  Thr*t=new Thr(); memset((void*)t,0,sizeof *t); t->id=0; t->st=RUN; t->deadline=NEVER; t->prio=(1ull<<40)+nextr(rng_s)%(1<<20);
  T[0]=t; NT=1; cur=t; self=t;
  if(getenv("KSIM_BT")){ struct sigaction a; memset(&a,0,sizeof a); a.sa_sigaction=segv; a.sa_flags=SA_SIGINFO|SA_ONSTACK; sigaction(SIGSEGV,&a,0); sigaction(SIGBUS,&a,0); sigaction(SIGILL,&a,0); }
  active=true;
}
void sim_finish(u32 oc,const char*m,size_t l){
  active=false;
  SH->outcome=oc; if(l>sizeof SH->msg) l=sizeof SH->msg; memcpy(SH->msg,m,l); SH->msglen=l;
  SH->steps=steps; SH->virt_ns=now_ns-T0; SH->hash=hash_; SH->threads=NT;
  if(getenv("KSIM_HANG")){ struct timespec ts={60,0}; RAW(SYS_nanosleep,(long)&ts,0); } // for a debugger to look around
  RAW(SYS_exit_group,0);
  __builtin_unreachable();
}
int sim_active(){return active && self;}
u64 sim_now(){return now_ns-T0;}
u64 sim_step(){return steps;}
int sim_tid(){return self?self->id:-1;}
void sim_set_node(int n){ if(self) self->node=n; }
int sim_get_node(){ return self?self->node:-1; }
void sim_nopreempt(int d){ if(self) self->nopreempt+=d; }
void sim_trace(const char*s,size_t l){ if(!SH) return; if(l+1>sizeof SH->trace/2) return; if(SH->tracelen+l+1>sizeof SH->trace){ size_t h=sizeof SH->trace/2; while(h<SH->tracelen && SH->trace[h-1]!='\n') h++; memmove(SH->trace,SH->trace+h,SH->tracelen-h); SH->tracelen-=h; } memcpy(SH->trace+SH->tracelen,s,l); SH->tracelen+=l; SH->trace[SH->tracelen++]='\n'; }
void sim_fault_note(int k){ if(SH && k<32) SH->faults[k]++; }
void sim_state(u64 h){ if(SH) SH->state_hash=(SH->state_hash^h)*1099511628211ull+1; mix(h); }
void sim_clock_jump(i64 ns){ rt_off+=ns; sim_fault_note(29); }
void sim_points(int n){ for(int i=0;i<n;i++) point(); }
void sim_panic(const char*s,size_t l){ if(!SH||!active) return; SH->npanics++; size_t o=0; while(o<sizeof SH->panics && SH->panics[o]) o++; if(o+l+2<sizeof SH->panics){ memcpy(SH->panics+o,s,l); SH->panics[o+l]='\n'; } }
int sim_runnable_others(){ Thr*rs[512]; return list_runnable(rs,cur); }
void sim_set_param(int w,u32 v){ u32*q[]={&P.p_eintr,&P.p_partial,&P.p_wouldblock,&P.p_rst,&P.p_connfail,&P.p_udp_drop,&P.p_udp_dup,&P.p_stall,&P.p_spurious}; if(w>=0&&w<9) *q[w]=v; }
}

// ---------------------------------------------------------------- atomics (TSan pass)
#define ORD __ATOMIC_SEQ_CST
#define ATOMICS(N,TY) \
 extern "C" TY __tsan_atomic##N##_load(const volatile TY*a,int){ apoint(); return __atomic_load_n(a,ORD);} \
 extern "C" void __tsan_atomic##N##_store(volatile TY*a,TY v,int){ apoint(); __atomic_store_n(a,v,ORD);} \
 extern "C" TY __tsan_atomic##N##_exchange(volatile TY*a,TY v,int){ apoint(); return __atomic_exchange_n(a,v,ORD);} \
 extern "C" TY __tsan_atomic##N##_fetch_add(volatile TY*a,TY v,int){ apoint(); return __atomic_fetch_add(a,v,ORD);} \
 extern "C" TY __tsan_atomic##N##_fetch_sub(volatile TY*a,TY v,int){ apoint(); return __atomic_fetch_sub(a,v,ORD);} \
 extern "C" TY __tsan_atomic##N##_fetch_and(volatile TY*a,TY v,int){ apoint(); return __atomic_fetch_and(a,v,ORD);} \
 extern "C" TY __tsan_atomic##N##_fetch_or(volatile TY*a,TY v,int){ apoint(); return __atomic_fetch_or(a,v,ORD);} \
 extern "C" TY __tsan_atomic##N##_fetch_xor(volatile TY*a,TY v,int){ apoint(); return __atomic_fetch_xor(a,v,ORD);} \
 extern "C" TY __tsan_atomic##N##_fetch_nand(volatile TY*a,TY v,int){ apoint(); return __atomic_fetch_nand(a,v,ORD);} \
 extern "C" TY __tsan_atomic##N##_compare_exchange_val(volatile TY*a,TY c,TY v,int,int){ apoint(); __atomic_compare_exchange_n(a,&c,v,false,ORD,ORD); return c;} \
 extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile TY*a,TY*c,TY v,int,int){ apoint(); return __atomic_compare_exchange_n(a,c,v,false,ORD,ORD);} \
 extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile TY*a,TY*c,TY v,int,int){ apoint(); return __atomic_compare_exchange_n(a,c,v,false,ORD,ORD);}
ATOMICS(8,u8) ATOMICS(16,uint16_t) ATOMICS(32,u32) ATOMICS(64,u64)
typedef unsigned __int128 u128;
// 128-bit: only one simulated thread runs at a time, so plain accesses are atomic between scheduling points.
extern "C" u128 __tsan_atomic128_load(const volatile u128*a,int){apoint();return *a;}
extern "C" void __tsan_atomic128_store(volatile u128*a,u128 v,int){apoint();*a=v;}
extern "C" u128 __tsan_atomic128_exchange(volatile u128*a,u128 v,int){apoint();u128 o=*a;*a=v;return o;}
extern "C" u128 __tsan_atomic128_compare_exchange_val(volatile u128*a,u128 c,u128 v,int,int){apoint();u128 o=*a;if(o==c)*a=v;return o;}
extern "C" void __tsan_atomic_thread_fence(int){ apoint(); __atomic_thread_fence(ORD);} 
extern "C" void __tsan_atomic_signal_fence(int){}
extern "C" void __tsan_init(){}
extern "C" void __tsan_func_entry(void*){} extern "C" void __tsan_func_exit(){}

// ---------------------------------------------------------------- threads
static void thread_end(Thr*t){ t->st=DONE; if(t->joiner) wake_thr(t->joiner,W_WOKEN); pick_and_go(); }
static void endkey_fn(void*v){ Thr*t=(Thr*)v; if(!active) return; if(++t->endcalls<3){ pthread_setspecific(endkey,v); return; } thread_end(t); }
static void* tramp(void*a){ Thr*t=(Thr*)a; self=t; fwait(&t->tok); pthread_setspecific(endkey,t); t->retv=t->fn(t->arg); return t->retv; }
typedef int (*pc_t)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
extern "C" int pthread_create(pthread_t*th,const pthread_attr_t*at,void*(*fn)(void*),void*arg){
  static pc_t real; if(!real) real=(pc_t)dlsym(RTLD_NEXT,"pthread_create");
  if(!active||!self) return real(th,at,fn,arg);
  if(!endkey_ok){ pthread_key_create(&endkey,endkey_fn); endkey_ok=true; }
  if(NT>=500) die(SIM_OUT_INTERNAL,"too many threads");
  Thr*t=new Thr(); memset((void*)t,0,sizeof *t); t->id=NT; t->node=self->node; t->st=RUN; t->deadline=NEVER; t->fn=fn; t->arg=arg;
  t->prio=(1ull<<40)+nextr(rng_s)%(1<<20);
  pthread_t r; int e=real(&r,at,tramp,t); if(e) return e;
  t->real=r; *th=r; T[NT++]=t; mix(0x7000+t->id);
  point(); return 0;
}
static Thr* byreal(pthread_t p){ for(int i=0;i<NT;i++) if(T[i]->real==p && T[i]->id) return T[i]; return 0; }
extern "C" int pthread_join(pthread_t p,void**rv){
  if(!active||!self){ static int(*real)(pthread_t,void**); if(!real) real=(int(*)(pthread_t,void**))dlsym(RTLD_NEXT,"pthread_join"); return real(p,rv);} 
  Thr*t=byreal(p); if(!t) die(SIM_OUT_INTERNAL,"join of unknown thread");
  point();
  while(t->st!=DONE){ t->joiner=self; block(NEVER); }
  if(rv)*rv=t->retv; return 0;
}
extern "C" int pthread_detach(pthread_t p){
  if(!active||!self){ static int(*real)(pthread_t); if(!real) real=(int(*)(pthread_t))dlsym(RTLD_NEXT,"pthread_detach"); return real(p);} 
  return 0;
}
extern "C" int sched_yield(){ if(!active||!self) return ret(RAW(SYS_sched_yield));
  if(P.strategy==1 && !replaying && self->yields>1) self->prio=--pct_low; // a spinning thread must not starve the one it waits for
  u32 y=self->yields<10?self->yields++:10; now_ns+=(u64)P.tick_ns<<y; // a thread that keeps yielding burns time, not steps
  point(); Thr*t=rr_next(cur); if(t && !self->nopreempt){ hand_to(t);} return 0; }
extern "C" int sched_getaffinity(pid_t,size_t sz,cpu_set_t*m){ memset(m,0,sz); for(int i=0;i<4;i++) ((u8*)m)[0]|=1<<i; return 0; }
extern "C" int sched_setaffinity(pid_t p,size_t sz,const cpu_set_t*m){ if(active&&self) return 0; return ret(RAW(SYS_sched_setaffinity,p,sz,m)); }
extern "C" long sysconf(int n){ static long(*real)(int); if(!real) real=(long(*)(int))dlsym(RTLD_NEXT,"sysconf"); if(n==84||n==83) return 4; return real(n); }

// ---------------------------------------------------------------- clocks, sleep, randomness
static u64 ts2ns(const struct timespec*t){ if(t->tv_sec<0) return 0; if((u64)t->tv_sec>9000000000ull) return NEVER/2; return (u64)t->tv_sec*1000000000ull+t->tv_nsec; }
extern "C" int clock_gettime(clockid_t c,struct timespec*t){
  if(!active||!self) return ret(RAW(SYS_clock_gettime,c,t));
  if(c==CLOCK_THREAD_CPUTIME_ID||c==CLOCK_PROCESS_CPUTIME_ID){ u64 n=steps*P.tick_ns; t->tv_sec=n/1000000000; t->tv_nsec=n%1000000000; return 0; }
  apoint(); now_ns+=P.tick_ns;
  u64 n=now_ns; if(c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE) n+=1700000000000000000ull-T0+rt_off;
  t->tv_sec=n/1000000000; t->tv_nsec=n%1000000000; return 0;
}
extern "C" int gettimeofday(struct timeval*tv,void*){ struct timespec t; clock_gettime(CLOCK_REALTIME,&t); tv->tv_sec=t.tv_sec; tv->tv_usec=t.tv_nsec/1000; return 0; }
extern "C" time_t time(time_t*o){ struct timespec t; clock_gettime(CLOCK_REALTIME,&t); if(o)*o=t.tv_sec; return t.tv_sec; }
static void sim_sleep_until(u64 d){ point(); while(now_ns<d) block(d); }
extern "C" int nanosleep(const struct timespec*r,struct timespec*rem){ if(!active||!self) return ret(RAW(SYS_nanosleep,r,rem)); sim_sleep_until(now_ns+ts2ns(r)); return 0; }
extern "C" int clock_nanosleep(clockid_t c,int fl,const struct timespec*r,struct timespec*rem){
  if(!active||!self) return -(int)RAW(SYS_clock_nanosleep,c,fl,r,rem);
  u64 v=ts2ns(r); u64 d; if(fl&TIMER_ABSTIME){ d= c==CLOCK_REALTIME? v-(1700000000000000000ull-T0+rt_off):v; } else d=now_ns+v; sim_sleep_until(d); return 0;
}
extern "C" int usleep(unsigned us){ struct timespec t={(time_t)(us/1000000),(long)(us%1000000)*1000}; return nanosleep(&t,0); }
static void fillr(u8*b,size_t n){ for(size_t i=0;i<n;i++) b[i]=(u8)(nextr(ent_s)>>11); }
extern "C" ssize_t getrandom(void*b,size_t n,unsigned f){ if(!active||!self) return ret(RAW(SYS_getrandom,b,n,f)); fillr((u8*)b,n); return n; }
extern "C" int getentropy(void*b,size_t n){ return getrandom(b,n,0)<0?-1:0; }
extern "C" int getpid_sim(){return 42;}

// ---------------------------------------------------------------- futex
static long sim_futex(u32*a,int op,u32 val,const struct timespec*to,u32*a2,u32 v3){
  int cmd=op&~(FUTEX_PRIVATE_FLAG|FUTEX_CLOCK_REALTIME);
  (void)a2;
  if(cmd==FUTEX_WAIT||cmd==FUTEX_WAIT_BITSET){
    point();
    if(__atomic_load_n(a,ORD)!=val){ errno=EAGAIN; return -1; }
    u64 d=NEVER; if(to){ u64 v=ts2ns(to); if(cmd==FUTEX_WAIT) d=now_ns+v; else if(op&FUTEX_CLOCK_REALTIME) d=v-(1700000000000000000ull-T0+rt_off); else d=v; if(d<=now_ns){ errno=ETIMEDOUT; return -1; } }
    if(decide(SIM_K_SPUR,P.p_spurious,1)){ errno=EINTR; return -1; }
    Thr*me=self; me->faddr=a; me->fbits= cmd==FUTEX_WAIT_BITSET? v3: ~0u;
    int w=block(d);
    if(w==W_TIMEOUT){ errno=ETIMEDOUT; return -1; }
    return 0;
  }
  if(cmd==FUTEX_WAKE||cmd==FUTEX_WAKE_BITSET){
    u32 bits= cmd==FUTEX_WAKE_BITSET? v3: ~0u; int n=0;
    while((u32)n<val){
      Thr*ws[512]; int k=0; for(int i=0;i<NT;i++) if(T[i]->st==BLK && !T[i]->frozen && T[i]->faddr==a && (T[i]->fbits&bits)) ws[k++]=T[i];
      if(!k) break;
      u32 v= k>1? decide(SIM_K_WAKE,32768,k-1):0;
      wake_thr(ws[v%k],W_WOKEN); n++;
    }
    point();
    return n;
  }
  if(cmd==FUTEX_REQUEUE||cmd==FUTEX_CMP_REQUEUE){ int n=0; for(int i=0;i<NT;i++) if(T[i]->st==BLK&&T[i]->faddr==a){wake_thr(T[i],W_WOKEN);n++;} point(); return n; }
  die(SIM_OUT_INTERNAL,"unsupported futex op %d",cmd);
}
extern "C" int x_eventfd(unsigned v,int fl) asm("eventfd");
extern "C" int x_epoll_create1(int fl) asm("epoll_create1");
extern "C" long x_syscall(long n,long a,long b,long c,long d,long e,long f) asm("syscall");
long x_syscall(long n,long a,long b,long c,long d,long e,long f){
  if(active&&self){
    if(n==SYS_futex) return sim_futex((u32*)a,(int)b,(u32)c,(const struct timespec*)d,(u32*)e,(u32)f);
    if(n==SYS_getrandom){ fillr((u8*)a,b); return b; }
    if(n==SYS_gettid) return 1000+self->id;
    if(n==SYS_clock_gettime) return clock_gettime(a,(struct timespec*)b);
    if(n==SYS_sched_yield) return sched_yield();
    if(n==SYS_epoll_pwait2||n==441||n==SYS_timerfd_create||n==SYS_pidfd_open){ errno=ENOSYS; return -1; }
    if(n==SYS_eventfd2) return x_eventfd((unsigned)a,(int)b);
    if(n==SYS_epoll_create1) return x_epoll_create1((int)a);
  }
  return ret(raw6(n,a,b,c,d,e,f));
}
#include "net.inc"
