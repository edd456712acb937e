// Simulated file descriptors: TCP, UDP, epoll, eventfd. Included by kernel.cc.
static const int FB=500000;
struct Addr { u32 fam; u64 hi, lo; u32 port; bool any() const { return hi==0&&lo==0; } bool operator==(const Addr&o)const{return hi==o.hi&&lo==o.lo&&port==o.port;} };
enum OK_ { O_TCP, O_UDP, O_EPOLL, O_EVENT };
struct Obj; struct Reg { Epoll*ep; int fd; Obj*o; u32 ev; u64 data; bool pend, off; };
struct Obj { OK_ kind; int refs=1; int node=0; bool nb=false; bool closed=false; std::vector<Reg*> regs; int id; virtual ~Obj(){} };
struct Epoll: Obj { std::vector<Reg*> list; };
struct EventFd: Obj { u64 v=0; };
enum { G_DATA, G_FIN };
struct Seg { u64 t; int type; std::string d; };
enum TS { S_FRESH,S_BOUND,S_LISTEN,S_SYN,S_EST,S_DEAD };
struct Tcp: Obj { TS st=S_FRESH; Addr la{},ra{}; Tcp*peer=0; std::deque<Seg> q; u64 lastt=0; size_t infl=0; std::string rb; size_t ro=0;
  bool fin_sent=false, fin_rcvd=false, rd_shut=false, nospace=false, held=false, silent=false; int err=0; std::deque<Tcp*> acc; int retx=0; bool accepted=true;
  size_t avail()const{return rb.size()-ro;} };
struct Dgram { Addr from; std::string d; };
struct Udp: Obj { Addr la{}; bool bound=false; bool conn=false; Addr ra{}; std::deque<Dgram> q; };
static std::vector<Obj*>& FT(){ static std::vector<Obj*>*v=new std::vector<Obj*>(); return *v; }
static std::vector<Tcp*>& TC(){ static std::vector<Tcp*>*v=new std::vector<Tcp*>(); return *v; }
static std::vector<Udp*>& UD(){ static std::vector<Udp*>*v=new std::vector<Udp*>(); return *v; }
static std::map<std::pair<u64,u32>,int>& AN(){ static auto*v=new std::map<std::pair<u64,u32>,int>(); return *v; }
static int objid, eph=40000; static u8 part_[8][8]; static bool hostdown[256], zombie[256]; // node = machine + 8*incarnation
enum ET { E_SEG,E_SYN,E_EST,E_ACC,E_REFUSE,E_RST,E_SPACE,E_UDP,E_USPACE };
struct Ev { ET t; Tcp*a; Tcp*b; Udp*u; Addr to; Dgram dg; int n; };
static std::map<std::pair<u64,u64>,Ev>& EV(){ static auto*v=new std::map<std::pair<u64,u64>,Ev>(); return *v; }
static void sched_ev(u64 t,Ev e){ EV()[{t,seqno++}]=e; if(t<next_due) next_due=t; }
static u64 net_next(){ return EV().empty()?NEVER:EV().begin()->first.first; }
static u64 lat(){ u64 l=(u64)P.lat_min_us*1000; if(P.lat_max_us>P.lat_min_us){ u32 v=decide(SIM_K_LAT,40000,32); l+=(u64)(P.lat_max_us-P.lat_min_us)*1000*v/32; } return l?l:1000; }
static bool cut(int a,int b){ return part_[a&7][b&7]; }
static Obj* ob(int fd){ if(fd<FB||fd>=FB+(int)FT().size()) return 0; return FT()[fd-FB]; }
static int newfd(Obj*o){ auto&f=FT(); for(size_t i=0;i<f.size();i++) if(!f[i]){ f[i]=o; return FB+i; } f.push_back(o); return FB+f.size()-1; }
template<class T> static T* mk(OK_ k){ T*o=new T(); o->kind=k; o->node=self->node; o->id=objid++; if((k==O_TCP||k==O_UDP)&&zombie[self->node&255]) o->closed=true; return o; }
static u32 mask(Obj*o){
  u32 m=0;
  switch(o->kind){
  case O_EVENT:{ EventFd*e=(EventFd*)o; if(e->v) m|=EPOLLIN; m|=EPOLLOUT; break; }
  case O_EPOLL: { Epoll*e=(Epoll*)o; for(auto r:e->list) if(!r->off&&(mask(r->o)&(r->ev|EPOLLERR|EPOLLHUP))) m|=EPOLLIN; break; }
  case O_UDP:{ Udp*u=(Udp*)o; if(u->q.size()) m|=EPOLLIN; m|=EPOLLOUT; break; }
  case O_TCP:{ Tcp*s=(Tcp*)o;
    if(s->st==S_LISTEN){ if(s->acc.size()) m|=EPOLLIN; break; }
    if(s->st==S_FRESH||s->st==S_BOUND) { m|=EPOLLOUT|EPOLLHUP; break; }
    if(s->err) m|=EPOLLERR;
    if(s->st==S_DEAD) m|=EPOLLIN|EPOLLOUT|EPOLLHUP|EPOLLRDHUP;
    if(s->avail()) m|=EPOLLIN;
    if(s->fin_rcvd||s->rd_shut) m|=EPOLLIN|EPOLLRDHUP;
    if((s->fin_rcvd||s->rd_shut)&&s->fin_sent) m|=EPOLLHUP;
    if(s->st==S_EST){ if(s->fin_sent) m|=EPOLLOUT; else { size_t used=s->peer->avail()+s->peer->infl; if(used<P.sockbuf && (P.sockbuf-used)*3>=P.sockbuf) m|=EPOLLOUT; } }
    break; }
  }
  return m;
}
static void wake_waiters(const void*o){ for(int i=0;i<NT;i++) if(T[i]->st==BLK && T[i]->waitobj==o) wake_thr(T[i],W_WOKEN); }
static void notify(Obj*o){ for(Reg*r:o->regs){ r->pend=true; wake_waiters(r->ep); if(r->ep->regs.size()) notify(r->ep);} wake_waiters(o); }
static void to_dead(Tcp*s,int err){ if(s->st==S_DEAD) return; s->st=S_DEAD; s->err=err; s->q.clear(); s->infl=0; notify(s); }
static void send_seg(Tcp*dst,int type,const char*d,size_t n){
  u64 t=now_ns+lat(); if(t<=dst->lastt) t=dst->lastt+1; dst->lastt=t; Seg g; g.t=t; g.type=type; if(n) g.d.assign(d,n); dst->infl+=n; dst->q.push_back(g);
  Ev e{}; e.t=E_SEG; e.a=dst; sched_ev(t,e);
}
static void send_rst(Tcp*dst){ if(!dst||dst->st==S_DEAD) return; Ev e{}; e.t=E_RST; e.a=dst; sched_ev(now_ns+lat(),e); }
static bool match(const Addr&l,const Addr&to){ return l.port==to.port && (l.any()||(l.hi==to.hi&&l.lo==to.lo)); }
static Tcp* find_listener(const Addr&to){ for(Tcp*s:TC()) if(s->st==S_LISTEN&&!s->closed&&match(s->la,to)) return s; return 0; }
static void net_fire(u64 upto){
  auto&ev=EV();
  while(!ev.empty() && ev.begin()->first.first<=upto){
    Ev e=ev.begin()->second; ev.erase(ev.begin());
    switch(e.t){
    case E_SEG:{ Tcp*d=e.a; if(d->q.empty()||d->st==S_DEAD) break;
      int from=d->peer?d->peer->node:0;
      if(d->silent){ // host crashed
        if(hostdown[d->node&255]){ d->retx++; if(d->retx>12){ if(d->peer) to_dead(d->peer,ETIMEDOUT); } else sched_ev(now_ns+1000000000ull,e); }
        else { d->q.clear(); d->infl=0; send_rst(d->peer); }
        break; }
      if(cut(from,d->node)){ d->held=true; break; }
      while(!d->q.empty() && d->q.front().t<=now_ns){ Seg g=d->q.front(); d->q.pop_front();
        d->infl-=g.d.size();
        if(g.type==G_DATA){ if(d->closed||d->rd_shut){ if(d->closed){ send_rst(d->peer); } if(d->peer&&d->peer->nospace){d->peer->nospace=false; notify(d->peer);} } else { d->rb.append(g.d); notify(d); } }
        else { d->fin_rcvd=true; notify(d); } }
      break; }
    case E_RST: if(e.a->st!=S_DEAD){ Tcp*s=e.a; if(s->peer&&cut(s->peer->node,s->node)){ sched_ev(now_ns+200000000ull,e); break; } to_dead(s, s->fin_rcvd?EPIPE:ECONNRESET);} break;
    case E_SYN:{ Tcp*s=e.a; if(s->st!=S_SYN||s->closed) break; Tcp*l=find_listener(s->ra); int dn=-1;
      if(l) dn=l->node; else { auto it=AN().find({s->ra.lo,s->ra.port}); if(it!=AN().end()) dn=it->second; }
      if(dn>=0 && (cut(s->node,dn)||cut(dn,s->node)||hostdown[dn&255])){ if(++e.n>=7) { to_dead(s,ETIMEDOUT); } else sched_ev(now_ns+1000000000ull,e); break; }
      u32 f=decide(SIM_K_CONN,P.p_connfail,2);
      if(!l||f){ Ev r{}; r.t=E_REFUSE; r.a=s; r.n= f==2?ETIMEDOUT:ECONNREFUSED; sched_ev(now_ns+(f==2?3000000000ull:lat()),r); break; }
      Tcp*c=new Tcp(); c->kind=O_TCP; c->id=objid++; c->node=l->node; c->st=S_EST; c->la=s->ra; c->ra=s->la; c->peer=s; s->peer=c; c->refs=0; c->accepted=false; TC().push_back(c);
      Ev r{}; r.t=E_EST; r.a=s; u64 t1=now_ns+lat(); sched_ev(t1,r); Ev q{}; q.t=E_ACC; q.a=c; q.b=l; sched_ev(t1+lat(),q); c->lastt=t1; break; }
    case E_EST: if(e.a->st==S_SYN){ if(e.a->peer->st==S_DEAD){to_dead(e.a,ECONNRESET);break;} if(cut(e.a->peer->node,e.a->node)){ sched_ev(now_ns+1000000000ull,e); break; } e.a->st=S_EST; notify(e.a);} break;
    case E_ACC: if(e.b->closed||e.b->st!=S_LISTEN){ e.a->closed=true; e.a->st=S_DEAD; send_rst(e.a->peer); } else { if(cut(e.a->peer->node,e.a->node)||e.a->peer->st==S_SYN){ if(e.a->peer->closed||e.a->peer->st==S_DEAD) break; sched_ev(now_ns+300000000ull,e); break; } e.b->acc.push_back(e.a); notify(e.b);} break;
    case E_REFUSE: if(e.a->st==S_SYN) to_dead(e.a,e.n); break;
    case E_SPACE:{ Tcp*s=e.a; if(s->st==S_EST&&s->peer&&!s->fin_sent){ size_t used=s->peer->avail()+s->peer->infl; if(!(used<P.sockbuf&&(P.sockbuf-used)*3>=P.sockbuf)&&!s->peer->closed){ s->nospace=true; break; } } notify(s); break; }
    case E_USPACE: if(!e.u->closed) notify(e.u); break;
    case E_UDP:{ for(Udp*u:UD()) if(u->bound&&!u->closed&&match(u->la,e.to)){ if(hostdown[u->node&255]||cut(e.n,u->node)) { sim_fault_note(SIM_K_UDROP); break;} if(u->q.size()<512){ u->q.push_back(e.dg); notify(u);} break; } break; }
    }
  }
}
static void heal_kick(){ for(Tcp*d:TC()) if(d->held&&d->peer&&!cut(d->peer->node,d->node)){ d->held=false; u64 t=now_ns+lat(); for(auto&g:d->q) if(g.t<t) g.t=t; d->lastt=std::max(d->lastt,t); Ev e{}; e.t=E_SEG; e.a=d; for(auto&g:d->q) sched_ev(g.t,e);} }
extern "C" void sim_partition_oneway(int a,int b,int on){ part_[a&7][b&7]=on; if(on) sim_fault_note(24); else heal_kick(); point(); }
extern "C" void sim_partition(int a,int b,int on){ part_[a&7][b&7]=on; part_[b&7][a&7]=on; if(on) sim_fault_note(24); else heal_kick(); point(); }
extern "C" void sim_reset_conns(int a,int b){ for(size_t i=0;i<TC().size();i++){ Tcp*s=TC()[i]; if(s->st==S_EST&&s->peer&&s->peer->st==S_EST&&((s->node==a&&s->peer->node==b))){ sim_fault_note(25); Tcp*p=s->peer; send_rst(s); send_rst(p);} } point(); }
extern "C" void sim_quiet(){ memset(part_,0,sizeof part_); P.p_eintr=P.p_partial=P.p_wouldblock=P.p_rst=P.p_connfail=P.p_udp_drop=P.p_udp_dup=P.p_stall=P.p_spurious=P.p_bindfail=0; heal_kick(); point(); }
extern "C" u64 sim_open_conns(int node){ u64 n=0; for(Tcp*s:TC()) if(s->node==node&&s->st==S_EST&&!s->closed&&s->accepted) n++; return n; }
static void obj_close(Obj*o,bool crash){
  if(o->closed) return; o->closed=true;
  for(Reg*r:o->regs){ auto&l=r->ep->list; l.erase(std::remove(l.begin(),l.end(),r),l.end()); } o->regs.clear();
  if(o->kind==O_TCP){ Tcp*s=(Tcp*)o;
    if(s->st==S_LISTEN){ for(Tcp*c:s->acc){ c->closed=true; send_rst(c->peer); } s->acc.clear(); s->st=S_DEAD; }
    else if(s->st==S_EST){ if(s->avail()||(crash&&decide(SIM_K_CONN,32768,1))) { send_rst(s->peer); s->st=S_DEAD; } else if(!s->fin_sent){ s->fin_sent=true; send_seg(s->peer,G_FIN,0,0);} }
    else s->st=S_DEAD; }
  if(o->kind==O_UDP) ((Udp*)o)->bound=false;
}
extern "C" void sim_crash_node(int n,int mode){
  // The node's sockets vanish for everybody else; its threads go on without any way to be observed.
  sim_fault_note(26+mode); zombie[n&255]=true;
  if(mode==1) hostdown[n&255]=true;
  for(size_t i=0;i<FT().size();i++){ Obj*o=FT()[i]; if(!o||o->node!=n||o->closed||(o->kind!=O_TCP&&o->kind!=O_UDP)) continue;
    if(o->kind==O_TCP&&((Tcp*)o)->st==S_EST&&mode==1){ ((Tcp*)o)->silent=true; o->closed=true; for(Reg*r:o->regs){ auto&l=r->ep->list; l.erase(std::remove(l.begin(),l.end(),r),l.end()); } o->regs.clear(); } else obj_close(o,mode==0); }
  for(Tcp*c:TC()) if(c->node==n&&!c->accepted&&c->st==S_EST&&!c->closed){ c->closed=true; if(mode==1) c->silent=true; else send_rst(c->peer); }
  point();
}
extern "C" void sim_revive_node(int n){ hostdown[n&255]=false; point(); }

// ------------------------------------------------------------ addresses
static bool rdaddr(const struct sockaddr*sa,socklen_t l,Addr&a){
  if(!sa) return false; a=Addr{};
  if(sa->sa_family==AF_INET&&l>=sizeof(sockaddr_in)){ auto*i=(const sockaddr_in*)sa; a.fam=AF_INET; a.lo=ntohl(i->sin_addr.s_addr); a.port=ntohs(i->sin_port); return true; }
  if(sa->sa_family==AF_INET6&&l>=sizeof(sockaddr_in6)){ auto*i=(const sockaddr_in6*)sa; a.fam=AF_INET6; memcpy(&a.hi,&i->sin6_addr,8); memcpy(&a.lo,((const u8*)&i->sin6_addr)+8,8); a.port=ntohs(i->sin6_port); return true; }
  return false;
}
static void wraddr(const Addr&a,struct sockaddr*sa,socklen_t*l){ if(!sa||!l) return;
  if(a.fam==AF_INET6){ sockaddr_in6 i; memset(&i,0,sizeof i); i.sin6_family=AF_INET6; i.sin6_port=htons(a.port); memcpy(&i.sin6_addr,&a.hi,8); memcpy(((u8*)&i.sin6_addr)+8,&a.lo,8); memcpy(sa,&i,std::min<size_t>(*l,sizeof i)); *l=sizeof i; }
  else { sockaddr_in i; memset(&i,0,sizeof i); i.sin_family=AF_INET; i.sin_port=htons(a.port); i.sin_addr.s_addr=htonl((u32)a.lo); memcpy(sa,&i,std::min<size_t>(*l,sizeof i)); *l=sizeof i; } }
static u16 ephemeral(){ for(;;){ u16 p=(u16)(eph++); if(eph>60000) eph=40000; bool used=false; for(Tcp*s:TC()) if(!s->closed&&s->la.port==p) used=true; for(Udp*s:UD()) if(!s->closed&&s->la.port==p) used=true; if(!used) return p; } }
#define SIMON (active&&self)
#define FAIL(e) do{ errno=(e); return -1; }while(0)
#define S(name) asm(name)
static bool waitfor(Obj*o){ self->waitobj=o; block(NEVER); return true; }
typedef ssize_t ssz;
extern "C" int x_socket(int d,int t,int p) S("socket");
int x_socket(int d,int t,int p){ if(!SIMON) return ret(RAW(SYS_socket,d,t,p)); point(); int ty=t&0xf; Obj*o;
  if(ty==SOCK_STREAM){ Tcp*s=mk<Tcp>(O_TCP); s->la.fam=d; TC().push_back(s); o=s; } else if(ty==SOCK_DGRAM){ Udp*u=mk<Udp>(O_UDP); u->la.fam=d; UD().push_back(u); o=u; } else FAIL(EPROTONOSUPPORT);
  o->nb=t&SOCK_NONBLOCK; return newfd(o); }
extern "C" int x_bind(int fd,const struct sockaddr*sa,socklen_t l) S("bind");
int x_bind(int fd,const struct sockaddr*sa,socklen_t l){ if(!SIMON) return ret(RAW(SYS_bind,fd,sa,l)); point(); Obj*o=ob(fd); if(!o) FAIL(EBADF); Addr a; if(!rdaddr(sa,l,a)) FAIL(EINVAL);
  if(a.port && decide(SIM_K_BIND,P.p_bindfail,1)) FAIL(EADDRINUSE);
  if(o->kind==O_TCP){ Tcp*s=(Tcp*)o; if(s->st!=S_FRESH) FAIL(EINVAL); if(!a.port) a.port=ephemeral(); else if(!s->closed) for(Tcp*x:TC()) if(x!=s&&!x->closed&&(x->st==S_LISTEN||x->st==S_BOUND)&&x->la.port==a.port&&(x->la.any()||a.any()||(x->la.hi==a.hi&&x->la.lo==a.lo))) FAIL(EADDRINUSE); s->la=a; s->st=S_BOUND; if(!s->closed) AN()[{a.lo,a.port}]=s->node; }
  else { Udp*u=(Udp*)o; if(!a.port) a.port=ephemeral(); else if(!u->closed) for(Udp*x:UD()) if(x!=u&&!x->closed&&x->bound&&x->la.port==a.port&&(x->la.any()||a.any()||(x->la.hi==a.hi&&x->la.lo==a.lo))) FAIL(EADDRINUSE); u->la=a; u->bound=true; }
  return 0; }
extern "C" int x_listen(int fd,int b) S("listen");
int x_listen(int fd,int b){ if(!SIMON) return ret(RAW(SYS_listen,fd,b)); point(); Tcp*s=(Tcp*)ob(fd); if(!s||s->kind!=O_TCP) FAIL(EBADF); if(s->st==S_FRESH){ s->la.port=ephemeral(); } s->st=S_LISTEN; return 0; }
extern "C" int x_accept4(int fd,struct sockaddr*sa,socklen_t*l,int fl) S("accept4");
int x_accept4(int fd,struct sockaddr*sa,socklen_t*l,int fl){ if(!SIMON) return ret(RAW(SYS_accept4,fd,sa,l,fl)); point(); Tcp*s=(Tcp*)ob(fd); if(!s||s->kind!=O_TCP) FAIL(EBADF);
  if(s->closed&&zombie[s->node&255]) FAIL(EAGAIN);
  for(;;){ if(s->st!=S_LISTEN) FAIL(EINVAL); if(decide(SIM_K_EINTR,P.p_eintr,1)) FAIL(EINTR);
    if(s->acc.size()){ Tcp*c=s->acc.front(); s->acc.pop_front(); c->refs=1; c->accepted=true; c->nb=fl&SOCK_NONBLOCK; wraddr(c->ra,sa,l); return newfd(c); }
    if(s->nb) FAIL(EAGAIN); waitfor(s); } }
extern "C" int x_accept(int fd,struct sockaddr*sa,socklen_t*l) S("accept");
int x_accept(int fd,struct sockaddr*sa,socklen_t*l){ return x_accept4(fd,sa,l,0); }
extern "C" int x_connect(int fd,const struct sockaddr*sa,socklen_t l) S("connect");
int x_connect(int fd,const struct sockaddr*sa,socklen_t l){ if(!SIMON) return ret(RAW(SYS_connect,fd,sa,l)); point(); Obj*o=ob(fd); if(!o) FAIL(EBADF); Addr a; if(!rdaddr(sa,l,a)) FAIL(EINVAL);
  if(o->kind==O_UDP){ Udp*u=(Udp*)o; u->conn=true; u->ra=a; if(!u->bound){u->la.fam=a.fam; u->la.port=ephemeral(); u->bound=true;} return 0; }
  Tcp*s=(Tcp*)o; if(s->closed&&zombie[s->node&255]) FAIL(EINPROGRESS); if(s->st==S_EST) FAIL(EISCONN); if(s->st==S_SYN) FAIL(EALREADY); if(s->st!=S_FRESH&&s->st!=S_BOUND) FAIL(EINVAL);
  if(s->st==S_FRESH||!s->la.port){ s->la=a; if(a.fam==AF_INET&&(a.lo>>24)==10) s->la.lo=(10u<<24)+1+(s->node&7); s->la.port=ephemeral(); } s->ra=a; s->st=S_SYN; Ev e{}; e.t=E_SYN; e.a=s; sched_ev(now_ns+lat(),e);
  if(s->nb) FAIL(EINPROGRESS);
  while(s->st==S_SYN) waitfor(s); if(s->err){ int x=s->err; s->err=0; FAIL(x);} return 0; }
extern "C" int x_getsockopt(int fd,int lv,int op,void*v,socklen_t*l) S("getsockopt");
int x_getsockopt(int fd,int lv,int op,void*v,socklen_t*l){ Obj*o=SIMON?ob(fd):0; if(!o) return ret(RAW(SYS_getsockopt,fd,lv,op,v,l)); point(); memset(v,0,*l); if(lv==SOL_SOCKET&&op==SO_ERROR&&o->kind==O_TCP){ *(int*)v=((Tcp*)o)->err; ((Tcp*)o)->err=0; } else if(lv==SOL_SOCKET&&op==SO_TYPE) *(int*)v= o->kind==O_TCP?SOCK_STREAM:SOCK_DGRAM; return 0; }
extern "C" int x_setsockopt(int fd,int lv,int op,const void*v,socklen_t l) S("setsockopt");
int x_setsockopt(int fd,int lv,int op,const void*v,socklen_t l){ Obj*o=SIMON?ob(fd):0; if(!o) return ret(RAW(SYS_setsockopt,fd,lv,op,v,l)); return 0; }
extern "C" int x_getsockname(int fd,struct sockaddr*sa,socklen_t*l) S("getsockname");
int x_getsockname(int fd,struct sockaddr*sa,socklen_t*l){ Obj*o=SIMON?ob(fd):0; if(!o) return ret(RAW(SYS_getsockname,fd,sa,l)); wraddr(o->kind==O_TCP?((Tcp*)o)->la:((Udp*)o)->la,sa,l); return 0; }
extern "C" int x_getpeername(int fd,struct sockaddr*sa,socklen_t*l) S("getpeername");
int x_getpeername(int fd,struct sockaddr*sa,socklen_t*l){ Obj*o=SIMON?ob(fd):0; if(!o) return ret(RAW(SYS_getpeername,fd,sa,l)); if(o->kind==O_TCP){ if(((Tcp*)o)->st!=S_EST) FAIL(ENOTCONN); wraddr(((Tcp*)o)->ra,sa,l); return 0;} if(!((Udp*)o)->conn) FAIL(ENOTCONN); wraddr(((Udp*)o)->ra,sa,l); return 0; }

static bool dead_end(Obj*o){ return o->closed && zombie[o->node&255]; }
static ssz tcp_send(Tcp*s,const char*b,size_t n){
  if(dead_end(s)) return n;
  for(;;){
    if(s->err){ int e=s->err; s->err=0; FAIL(e);} if(s->st==S_SYN) { if(s->nb) FAIL(EAGAIN); waitfor(s); continue; }
    if(s->st==S_FRESH||s->st==S_BOUND||s->st==S_LISTEN) FAIL(ENOTCONN);
    if(s->st==S_DEAD||s->fin_sent) FAIL(EPIPE);
    if(decide(SIM_K_EINTR,P.p_eintr,1)) FAIL(EINTR);
    if(decide(SIM_K_RST,P.p_rst,1)){ send_rst(s->peer); to_dead(s,0); FAIL(ECONNRESET); }
    if(n==0) return 0;
    size_t used=s->peer->avail()+s->peer->infl;
    size_t sp= used<P.sockbuf? P.sockbuf-used:0; if(s->peer->closed&&!s->peer->silent) sp=P.sockbuf;
    if(sp==0){ s->nospace=true; if(s->nb) FAIL(EAGAIN); waitfor(s); continue; }
    if(s->nb&&decide(SIM_K_AGAIN,P.p_wouldblock,1)){ Ev e{}; e.t=E_SPACE; e.a=s; sched_ev(now_ns+lat(),e); FAIL(EAGAIN); }
    size_t m=std::min(n,sp); if(m>1){ u32 v=decide(SIM_K_PARTIAL,P.p_partial,1024); if(v) m=std::max<size_t>(1,m*v/1025); }
    send_seg(s->peer,G_DATA,b,m); return m;
  } }
static ssz tcp_recv(Tcp*s,char*b,size_t n,int fl){
  if(dead_end(s)){ if(s->nb) FAIL(EAGAIN); block(NEVER); }
  for(;;){
    if(s->st==S_SYN){ if(s->nb) FAIL(EAGAIN); waitfor(s); continue; }
    if(s->st==S_FRESH||s->st==S_BOUND||s->st==S_LISTEN) FAIL(ENOTCONN);
    if(decide(SIM_K_EINTR,P.p_eintr,1)) FAIL(EINTR);
    if(n==0) return 0;
    if(s->avail()){ size_t m=std::min(n,s->avail()); if(m>1){ u32 v=decide(SIM_K_PARTIAL,P.p_partial,1024); if(v) m=std::max<size_t>(1,m*v/1025); }
      memcpy(b,s->rb.data()+s->ro,m); if(!(fl&MSG_PEEK)){ s->ro+=m; if(s->ro>65536||s->ro==s->rb.size()){ s->rb.erase(0,s->ro); s->ro=0; }
        if(s->peer&&s->peer->nospace){ size_t used=s->avail()+s->infl; if(used<P.sockbuf&&(P.sockbuf-used)*3>=P.sockbuf){ s->peer->nospace=false; Ev e{}; e.t=E_SPACE; e.a=s->peer; sched_ev(now_ns+lat(),e);} } }
      return m; }
    if(s->err){ int e=s->err; s->err=0; FAIL(e);} 
    if(s->st==S_DEAD||s->fin_rcvd||s->rd_shut) return 0;
    if(s->nb) FAIL(EAGAIN); waitfor(s);
  } }
static ssz udp_send(Udp*u,const char*b,size_t n,const Addr*to){
  if(dead_end(u)) return n;
  if(!to){ if(!u->conn) FAIL(EDESTADDRREQ); to=&u->ra; } if(n>65507) FAIL(EMSGSIZE); if(decide(SIM_K_EINTR,P.p_eintr,1)) FAIL(EINTR);
  if(u->nb&&decide(SIM_K_AGAIN,P.p_wouldblock,1)){ Ev e{}; e.t=E_USPACE; e.u=u; sched_ev(now_ns+lat(),e); FAIL(EAGAIN); }
  if(!u->bound){ u->la.port=ephemeral(); u->bound=true; }
  if(decide(SIM_K_UDROP,P.p_udp_drop,1)) return n;
  Ev e{}; e.t=E_UDP; e.to=*to; e.n=u->node; e.dg.from=u->la; if(e.dg.from.any()){ e.dg.from.hi=to->hi; e.dg.from.lo=to->lo; e.dg.from.fam=to->fam; } e.dg.d.assign(b,n);
  u64 t=now_ns+lat(); u32 v=decide(SIM_K_UDELAY,P.p_udp_delay,64); t+=(u64)v*1000000; sched_ev(t,e);
  if(decide(SIM_K_UDUP,P.p_udp_dup,1)) sched_ev(t+lat(),e);
  return n; }
static ssz udp_recv(Udp*u,char*b,size_t n,int fl,struct sockaddr*sa,socklen_t*l){
  if(dead_end(u)){ if(u->nb) FAIL(EAGAIN); block(NEVER); }
  for(;;){ if(decide(SIM_K_EINTR,P.p_eintr,1)) FAIL(EINTR);
    if(u->q.size()){ Dgram&d=u->q.front(); size_t m=std::min(n,d.d.size()); memcpy(b,d.d.data(),m); wraddr(d.from,sa,l); if(!(fl&MSG_PEEK)) u->q.pop_front(); return m; }
    if(u->nb||(fl&MSG_DONTWAIT)) FAIL(EAGAIN); waitfor(u); } }
static ssz ev_read(EventFd*e,void*b,size_t n){ if(n<8) FAIL(EINVAL); for(;;){ if(e->v){ *(u64*)b=e->v; e->v=0; return 8; } if(e->nb) FAIL(EAGAIN); waitfor(e);} }
static ssz ev_write(EventFd*e,const void*b,size_t n){ if(n<8) FAIL(EINVAL); u64 x=*(const u64*)b; if(e->v+x<e->v||e->v+x==NEVER) FAIL(EAGAIN); e->v+=x; notify(e); point(); return 8; }
static ssz gsend(Obj*o,const char*b,size_t n){ switch(o->kind){ case O_TCP: return tcp_send((Tcp*)o,b,n); case O_UDP: return udp_send((Udp*)o,b,n,0); case O_EVENT: return ev_write((EventFd*)o,b,n); default: FAIL(EINVAL);} }
static ssz grecv(Obj*o,char*b,size_t n,int fl){ switch(o->kind){ case O_TCP: return tcp_recv((Tcp*)o,b,n,fl); case O_UDP: return udp_recv((Udp*)o,b,n,fl,0,0); case O_EVENT: return ev_read((EventFd*)o,b,n); default: FAIL(EINVAL);} }
extern "C" ssz x_send(int fd,const void*b,size_t n,int fl) S("send");
ssz x_send(int fd,const void*b,size_t n,int fl){ Obj*o=SIMON?ob(fd):0; if(!o) return ret(RAW(SYS_sendto,fd,b,n,fl,0,0)); point(); return gsend(o,(const char*)b,n); }
extern "C" ssz x_recv(int fd,void*b,size_t n,int fl) S("recv");
ssz x_recv(int fd,void*b,size_t n,int fl){ Obj*o=SIMON?ob(fd):0; if(!o) return ret(RAW(SYS_recvfrom,fd,b,n,fl,0,0)); point(); return grecv(o,(char*)b,n,fl); }
extern "C" ssz x_write(int fd,const void*b,size_t n) S("write");
ssz x_write(int fd,const void*b,size_t n){ Obj*o=SIMON?ob(fd):0; if(!o) return ret(RAW(SYS_write,fd,b,n)); point(); return gsend(o,(const char*)b,n); }
extern "C" ssz x_read(int fd,void*b,size_t n) S("read");
ssz x_read(int fd,void*b,size_t n){ Obj*o=SIMON?ob(fd):0; if(!o) return ret(RAW(SYS_read,fd,b,n)); point(); return grecv(o,(char*)b,n,0); }
extern "C" ssz x_writev(int fd,const struct iovec*v,int c) S("writev");
ssz x_writev(int fd,const struct iovec*v,int c){ Obj*o=SIMON?ob(fd):0; if(!o) return ret(RAW(SYS_writev,fd,v,c)); point(); std::string s; for(int i=0;i<c;i++) s.append((const char*)v[i].iov_base,v[i].iov_len); return gsend(o,s.data(),s.size()); }
extern "C" ssz x_readv(int fd,const struct iovec*v,int c) S("readv");
ssz x_readv(int fd,const struct iovec*v,int c){ Obj*o=SIMON?ob(fd):0; if(!o) return ret(RAW(SYS_readv,fd,v,c)); point(); for(int i=0;i<c;i++) if(v[i].iov_len) return grecv(o,(char*)v[i].iov_base,v[i].iov_len,0); return 0; }
extern "C" ssz x_sendto(int fd,const void*b,size_t n,int fl,const struct sockaddr*sa,socklen_t l) S("sendto");
ssz x_sendto(int fd,const void*b,size_t n,int fl,const struct sockaddr*sa,socklen_t l){ Obj*o=SIMON?ob(fd):0; if(!o) return ret(RAW(SYS_sendto,fd,b,n,fl,sa,l)); point(); if(o->kind==O_UDP){ Addr a; bool h=rdaddr(sa,l,a); return udp_send((Udp*)o,(const char*)b,n,h?&a:0);} return gsend(o,(const char*)b,n); }
extern "C" ssz x_recvfrom(int fd,void*b,size_t n,int fl,struct sockaddr*sa,socklen_t*l) S("recvfrom");
ssz x_recvfrom(int fd,void*b,size_t n,int fl,struct sockaddr*sa,socklen_t*l){ Obj*o=SIMON?ob(fd):0; if(!o) return ret(RAW(SYS_recvfrom,fd,b,n,fl,sa,l)); point(); if(o->kind==O_UDP) return udp_recv((Udp*)o,(char*)b,n,fl,sa,l); return grecv(o,(char*)b,n,fl); }
extern "C" ssz x_sendmsg(int fd,const struct msghdr*m,int fl) S("sendmsg");
ssz x_sendmsg(int fd,const struct msghdr*m,int fl){ Obj*o=SIMON?ob(fd):0; if(!o) return ret(RAW(SYS_sendmsg,fd,m,fl)); FAIL(ENOSYS); }
extern "C" int x_shutdown(int fd,int how) S("shutdown");
int x_shutdown(int fd,int how){ Obj*o=SIMON?ob(fd):0; if(!o) return ret(RAW(SYS_shutdown,fd,how)); point(); if(o->kind!=O_TCP) return 0; Tcp*s=(Tcp*)o; if(s->st!=S_EST) { if(s->st==S_DEAD) FAIL(ENOTCONN); FAIL(ENOTCONN);} 
  if(how==SHUT_RD||how==SHUT_RDWR) s->rd_shut=true; if((how==SHUT_WR||how==SHUT_RDWR)&&!s->fin_sent){ s->fin_sent=true; send_seg(s->peer,G_FIN,0,0);} notify(s); return 0; }
extern "C" int x_close(int fd) S("close");
int x_close(int fd){ Obj*o=SIMON?ob(fd):0; if(!o) return ret(RAW(SYS_close,fd)); point(); FT()[fd-FB]=0;
  for(size_t i=0;i<o->regs.size();) { Reg*r=o->regs[i]; if(r->fd==fd&&o->refs==1){ auto&l=r->ep->list; l.erase(std::remove(l.begin(),l.end(),r),l.end()); o->regs.erase(o->regs.begin()+i);} else i++; }
  if(--o->refs<=0) obj_close(o,false); return 0; }
extern "C" int x_fcntl(int fd,int cmd,long a) S("fcntl");
int x_fcntl(int fd,int cmd,long a){ Obj*o=SIMON?ob(fd):0; if(!o) return ret(RAW(SYS_fcntl,fd,cmd,a)); switch(cmd){ case F_GETFL: return O_RDWR|(o->nb?O_NONBLOCK:0); case F_SETFL: o->nb=a&O_NONBLOCK; return 0; case F_GETFD: return FD_CLOEXEC; case F_SETFD: return 0; case F_DUPFD: case F_DUPFD_CLOEXEC: o->refs++; return newfd(o);} FAIL(EINVAL); }
extern "C" int x_fcntl64(int fd,int cmd,long a) S("fcntl64"); int x_fcntl64(int fd,int cmd,long a){ return x_fcntl(fd,cmd,a); }
extern "C" int x_ioctl(int fd,unsigned long rq,void*a) S("ioctl");
int x_ioctl(int fd,unsigned long rq,void*a){ Obj*o=SIMON?ob(fd):0; if(!o) return ret(RAW(SYS_ioctl,fd,rq,a)); if(rq==0x5421){ o->nb=*(int*)a!=0; return 0; } if(rq==0x5451||rq==0x5450) return 0; FAIL(ENOTTY); }
int x_eventfd(unsigned v,int fl){ if(!SIMON) return ret(RAW(SYS_eventfd2,v,fl)); EventFd*e=mk<EventFd>(O_EVENT); e->v=v; e->nb=fl&EFD_NONBLOCK; return newfd(e); }
int x_epoll_create1(int fl){ if(!SIMON) return ret(RAW(SYS_epoll_create1,fl)); return newfd(mk<Epoll>(O_EPOLL)); }
extern "C" int x_timerfd_create(int c,int fl) S("timerfd_create");
int x_timerfd_create(int c,int fl){ if(!SIMON) return ret(RAW(SYS_timerfd_create,c,fl)); FAIL(ENOSYS); }
extern "C" int x_epoll_ctl(int ep,int op,int fd,struct epoll_event*e) S("epoll_ctl");
int x_epoll_ctl(int ep,int op,int fd,struct epoll_event*e){ Epoll*E=(Epoll*)(SIMON?ob(ep):0); if(!E) return ret(RAW(SYS_epoll_ctl,ep,op,fd,e)); point(); Obj*o=ob(fd); if(!o) FAIL(EBADF);
  Reg*r=0; for(Reg*x:E->list) if(x->fd==fd&&x->o==o) r=x;
  if(op==EPOLL_CTL_ADD){ if(r) FAIL(EEXIST); r=new Reg(); r->ep=E; r->fd=fd; r->o=o; r->ev=e->events; r->data=e->data.u64; r->off=false; r->pend=mask(o)&(r->ev|EPOLLERR|EPOLLHUP); E->list.push_back(r); o->regs.push_back(r); if(r->pend) wake_waiters(E); }
  else if(op==EPOLL_CTL_MOD){ if(!r) FAIL(ENOENT); r->ev=e->events; r->data=e->data.u64; r->off=false; r->pend=mask(o)&(r->ev|EPOLLERR|EPOLLHUP); if(r->pend) wake_waiters(E); }
  else { if(!r) FAIL(ENOENT); E->list.erase(std::remove(E->list.begin(),E->list.end(),r),E->list.end()); o->regs.erase(std::remove(o->regs.begin(),o->regs.end(),r),o->regs.end()); }
  return 0; }
static int ep_wait(int ep,struct epoll_event*out,int max,i64 tmo_ns){
  Epoll*E=(Epoll*)ob(ep); if(!E||E->kind!=O_EPOLL) FAIL(EBADF); point(); u64 dl= tmo_ns<0?NEVER:now_ns+tmo_ns;
  for(;;){
    if(decide(SIM_K_EINTR,P.p_eintr,1)) FAIL(EINTR);
    std::vector<std::pair<Reg*,u32>> rd;
    for(Reg*r:E->list){ if(r->off) continue; u32 m=mask(r->o)&(r->ev|EPOLLERR|EPOLLHUP); if(!m){ r->pend=false; continue; } if((r->ev&EPOLLET)&&!r->pend) continue; rd.push_back({r,m}); }
    if(rd.size()){
      if(rd.size()>1){ u32 v=decide(SIM_K_EPORD,32768,rd.size()-1); std::rotate(rd.begin(),rd.begin()+v,rd.end()); }
      size_t k=std::min<size_t>(rd.size(),max); if(k>1){ u32 v=decide(SIM_K_EPSUB,P.p_epoll_subset,k-1); k-=v; }
      for(size_t i=0;i<k;i++){ Reg*r=rd[i].first; out[i].events=rd[i].second; out[i].data.u64=r->data; r->pend=false; if(r->ev&EPOLLONESHOT) r->off=true; }
      return k; }
    if(now_ns>=dl) return 0;
    self->waitobj=E; block(dl);
  } }
extern "C" int x_epoll_wait(int ep,struct epoll_event*out,int max,int to) S("epoll_wait");
int x_epoll_wait(int ep,struct epoll_event*out,int max,int to){ if(!SIMON||!ob(ep)) return ret(RAW(SYS_epoll_wait,ep,out,max,to)); return ep_wait(ep,out,max,to<0?-1:(i64)to*1000000); }
extern "C" int x_epoll_pwait2(int ep,struct epoll_event*out,int max,const struct timespec*to,const void*sg) S("epoll_pwait2");
int x_epoll_pwait2(int ep,struct epoll_event*out,int max,const struct timespec*to,const void*sg){ if(!SIMON||!ob(ep)) return ret(RAW(441,ep,out,max,to,sg)); return ep_wait(ep,out,max,to?(i64)ts2ns(to):-1); }
extern "C" int x_poll(struct pollfd*f,nfds_t n,int to) S("poll");
int x_poll(struct pollfd*f,nfds_t n,int to){ if(!SIMON) return ret(RAW(SYS_poll,f,n,to)); int c=0; for(nfds_t i=0;i<n;i++){ f[i].revents=0; Obj*o=ob(f[i].fd); if(o){ u32 m=mask(o)&(f[i].events|POLLERR|POLLHUP); f[i].revents=m; if(m)c++; } } if(c||to==0) return c; if(n==1&&ob(f[0].fd)){ Obj*o=ob(f[0].fd); u64 dl=to<0?NEVER:now_ns+(u64)to*1000000; for(;;){ u32 m=mask(o)&(f[0].events|POLLERR|POLLHUP); if(m){f[0].revents=m;return 1;} if(now_ns>=dl) return 0; self->waitobj=o; block(dl);} } FAIL(EINVAL); }
