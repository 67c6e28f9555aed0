#include "sched_rt.h"
#include <pthread.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <malloc.h>
#include <unistd.h>
#include <new>
#define API extern "C" __attribute__((visibility("default")))
namespace sched {
  static const int MAXT=9;
  struct VC { uint32_t c[MAXT]; };
  static inline void join(VC &a,const VC &b) { for(int i=0;i<MAXT;i++) if(b.c[i]>a.c[i]) a.c[i]=b.c[i]; }
  enum St { NONE, READY, BARRIER, LOCK, DONE };
  struct WS { bool init=false; long next=0,end=0,incr=1,chunk=1; unsigned long long un=0,ue=0,ui=1,uc=1; bool up=true,single=false; int mode=0; long sect=0,nsect=0; void *copy=nullptr; long total=0,given=0; };
  struct Team { int n=1; int id=0; std::vector<WS*> ws; int barrier_count=0; void (*fn)(void*)=nullptr; void *data=nullptr; };
  struct Thr { int tid=0; St st=NONE; void *waiton=nullptr; VC vc; size_t wsi=0; WS *cur=nullptr; long ordered=0; pthread_t pt; pthread_cond_t cv; bool created=false; char *lo=nullptr,*hi=nullptr; };
  static Thr T[MAXT];
  static Team *team=nullptr;
  static int teamsize_wanted=1, cur=0;
  static pthread_mutex_t mu=PTHREAD_MUTEX_INITIALIZER;
  static __thread int me=0; static __thread int serial=0; // serial: nested region depth
  static __thread int inrt=0;
  bool active=false;
  static bool monitor=false; // inside a team of >1
  static Run *R=nullptr; static const std::vector<int> *choice=nullptr; static size_t cpos=0;
  struct Sync { VC vc; void *owner=nullptr; int by=-1; };
  static std::map<void*,Sync> *syncs;
  static Sync glock_atomic, glock_critical;
  static VC barrier_vc;

  // ---- shadow memory: only accesses made inside a parallel region are recorded
  struct Cell { uintptr_t g; uint32_t ep; uint32_t wc[MAXT],rc[MAXT]; uint8_t wm[MAXT],rm[MAXT]; void *wp[MAXT],*rp[MAXT]; };
  static Cell *tab=nullptr; static size_t cap=0,used=0; static uint32_t epoch=1;
  static size_t hsh(uintptr_t g) { g*=0x9E3779B97F4A7C15ull; return (g>>20)&(cap-1); }
  static Cell* find(uintptr_t g,bool make) {
    size_t i=hsh(g);
    while(true) { Cell &c=tab[i]; if(c.ep!=epoch) { if(!make) return nullptr; memset(&c,0,sizeof c); c.g=g; c.ep=epoch; used++; return &c; } if(c.g==g) return &c; i=(i+1)&(cap-1); }
  }
  static void grow() {
    Cell *old=tab; size_t oc=cap; cap=cap?cap*2:(1<<15); tab=(Cell*)calloc(cap,sizeof(Cell)); used=0;
    for(size_t i=0;i<oc;i++) if(old[i].ep==epoch) { *find(old[i].g,true)=old[i]; } 
    free(old);
  }
  static char *exe_base();
  static void report(const char *a,void *pa,const char *b,void *pb,uintptr_t addr) {
    static std::set<std::pair<void*,void*>> *seen=new std::set<std::pair<void*,void*>>;
    if(R->races.size()>40) return;
    if(seen->size()<20000) seen->insert({pa,pb});
    char buf[200]; snprintf(buf,200,"%s@0x%lx %s@0x%lx",a,(unsigned long)((char*)pa-exe_base()),b,(unsigned long)((char*)pb-exe_base()));
    for(auto &r: R->races) if(r==buf) return;
    R->races.push_back(buf);
  }
  static void touch1(uintptr_t g,uint8_t m,bool w,void *pc) {
    if(used*2>=cap) grow();
    Cell *c=find(g,true); const VC &v=T[me].vc;
    for(int t=0;t<team->n;t++) if(t!=me) {
      if((c->wm[t]&m) && c->wc[t]>v.c[t]) report("write",c->wp[t],w?"write":"read",pc,g<<3);
      if(w && (c->rm[t]&m) && c->rc[t]>v.c[t]) report("read",c->rp[t],"write",pc,g<<3);
    }
    if(w) { if(c->wc[me]!=v.c[me]) c->wm[me]=0; c->wc[me]=v.c[me]; c->wm[me]|=m; c->wp[me]=pc; }
    else { if(c->rc[me]!=v.c[me]) c->rm[me]=0; c->rc[me]=v.c[me]; c->rm[me]|=m; c->rp[me]=pc; }
  }
  static inline void touch(const void *p,size_t n,bool w,void *pc) {
    if(!monitor||inrt||!n) return;
    char *a=(char*)p; if(T[me].lo && a>=T[me].lo && a<T[me].hi) return; // a worker's own stack
    inrt++; R->accesses++;
    uintptr_t x=(uintptr_t)p,e=x+n;
    while(x<e) { uintptr_t g=x>>3; unsigned o=x&7; unsigned k=8-o; if(k>e-x) k=e-x; touch1(g,(uint8_t)(((1u<<k)-1)<<o),w,pc); x+=k; }
    inrt--;
  }
  static void fresh(void *p,size_t n) { // newly allocated: no history
    if(!monitor||inrt||!p||!n) return;
    uintptr_t a=(uintptr_t)p>>3,b=((uintptr_t)p+n-1)>>3;
    for(uintptr_t g=a;g<=b;g++) { Cell *c=find(g,false); if(c) { memset(c->wc,0,sizeof c->wc); memset(c->rc,0,sizeof c->rc); memset(c->wm,0,MAXT); memset(c->rm,0,MAXT); } }
  }
  // ---- scheduler
  static void wait_turn(int t) { while(cur!=t) pthread_cond_wait(&T[t].cv,&mu); }
  // Decide who runs next. Called with mu held by the running thread.
  static int decide(bool curready,bool rotate=false) {
    int opt[MAXT],n=0; if(curready&&!rotate) opt[n++]=me;
    for(int k=1;k<=team->n;k++) { int t=(me+k)%team->n; if(t!=me && T[t].st==READY) opt[n++]=t; }
    if(curready&&rotate) opt[n++]=me;
    if(n==0) return -1;
    R->points++;
    if(n==1) return opt[0];
    int c=cpos<choice->size()?(*choice)[cpos]:0; if(c>=n) c=0; cpos++; inrt++; R->width.push_back(n); inrt--;
    if(opt[c]!=me) R->switches++;
    return opt[c];
  }
  static void deadlock() { fprintf(stderr,"DEADLOCK: no team member can run\n"); fflush(stderr); _exit(77); }
  static void yield_point(bool rotate=false) {
    if(!monitor||serial) return;
    pthread_mutex_lock(&mu); int n=decide(true,rotate); if(n!=me) { cur=n; pthread_cond_signal(&T[n].cv); wait_turn(me); } pthread_mutex_unlock(&mu);
  }
  static void block_locked() { // current thread is not READY; mu held
    int n=decide(false); if(n<0) deadlock(); cur=n; pthread_cond_signal(&T[n].cv); wait_turn(me);
  }
  static void release(Sync &s) { join(s.vc,T[me].vc); T[me].vc.c[me]++; }
  static void acquire(Sync &s) { join(T[me].vc,s.vc); }
  static void lock(Sync &s) {
    R->locks++;
    yield_point();
    if(!monitor||serial) { return; }
    pthread_mutex_lock(&mu);
    while(s.by>=0) { T[me].st=LOCK; T[me].waiton=&s; block_locked(); }
    s.by=me; pthread_mutex_unlock(&mu); acquire(s);
  }
  static void unlock(Sync &s) {
    if(!monitor||serial) return;
    release(s);
    pthread_mutex_lock(&mu); s.by=-1; for(int t=0;t<team->n;t++) if(T[t].st==LOCK&&T[t].waiton==&s) T[t].st=READY; pthread_mutex_unlock(&mu);
    yield_point();
  }
  static void barrier() {
    if(!monitor||serial) return;
    pthread_mutex_lock(&mu);
    join(barrier_vc,T[me].vc); T[me].vc.c[me]++;
    T[me].st=BARRIER; int w=0; for(int t=0;t<team->n;t++) if(T[t].st!=BARRIER) w++;
    if(w==0) { for(int t=0;t<team->n;t++) { T[t].st=READY; join(T[t].vc,barrier_vc); }
      int n=decide(true); if(n!=me) { cur=n; pthread_cond_signal(&T[n].cv); wait_turn(me); } }
    else block_locked();
    pthread_mutex_unlock(&mu);
  }
  static void *worker(void *p) {
    int t=(int)(intptr_t)p; me=t; serial=0; inrt=1;
    pthread_attr_t at; pthread_getattr_np(pthread_self(),&at); void *sa; size_t ss; pthread_attr_getstack(&at,&sa,&ss); pthread_attr_destroy(&at); T[t].lo=(char*)sa; T[t].hi=(char*)sa+ss;
    pthread_mutex_lock(&mu); wait_turn(t); pthread_mutex_unlock(&mu);
    inrt=0; team->fn(team->data); 
    return nullptr; }
  // thread_local destructors run after worker() returns, so completion is signalled from a TLS key destructor run last
  static pthread_key_t endkey; 
  static void finish_member() { // end of region body for this member: implicit barrier, then leave
    pthread_mutex_lock(&mu); T[me].st=DONE; join(barrier_vc,T[me].vc); T[me].vc.c[me]++;
    int left=0; for(int t=0;t<team->n;t++) if(T[t].st!=DONE) left++;
    if(left) { int n=decide(false); if(n<0) deadlock(); cur=n; pthread_cond_signal(&T[n].cv); if(me==0) wait_turn(0); }
    else if(me!=0) { cur=0; pthread_cond_signal(&T[0].cv); }
    pthread_mutex_unlock(&mu);
  }
  static void *trampoline(void *p) { int rounds=0; (void)rounds; worker(p); inrt=0; finish_member(); inrt=1; return nullptr; }
  static WS *preset=nullptr; static __thread Team *steam=nullptr;
  static void parallel(void (*fn)(void*),void *data,unsigned nt) {
    int want=nt?(int)nt:teamsize_wanted; if(want>MAXT-1) want=MAXT-1; if(want>teamsize_wanted) want=teamsize_wanted;
    WS *pre=preset; preset=nullptr;
    if(!active||monitor||serial||want<=1) {
      // team of one (also nested regions)
      inrt++; { Team *st=team; size_t sw=T[me].wsi; WS *sc=T[me].cur; Team one; one.n=1; if(pre) one.ws.push_back(pre);
      serial++; Team *old=steam; steam=&one; T[me].wsi=0; T[me].cur=nullptr; if(pre) { T[me].cur=pre; T[me].wsi=1; }
      inrt--; fn(data); inrt++;
      steam=old; serial--; T[me].wsi=sw; T[me].cur=sc; for(WS *w: one.ws) delete w; (void)st; }
      inrt--; return;
    }
    inrt=1; R->regions++; if(want>R->maxteam) R->maxteam=want;
    Team tm; tm.n=want; tm.fn=fn; tm.data=data; if(pre) tm.ws.push_back(pre);
    team=&tm; if(!tab) grow(); if(cap>(1u<<18)) { free(tab); tab=nullptr; cap=0; grow(); } epoch++; used=0; if(epoch==0) { memset(tab,0,cap*sizeof(Cell)); epoch=1; }
    memset(&barrier_vc,0,sizeof barrier_vc); syncs->clear(); glock_atomic=Sync(); glock_critical=Sync(); memset(&glock_atomic.vc,0,sizeof(VC)); memset(&glock_critical.vc,0,sizeof(VC));
    T[0].vc.c[0]++; VC base=T[0].vc;
    for(int t=0;t<want;t++) { T[t].tid=t; T[t].st=READY; T[t].wsi=pre?1:0; T[t].cur=pre; if(t) { join(T[t].vc,base); } T[t].vc.c[t]++; }
    monitor=true; me=0; cur=0;
    for(int t=1;t<want;t++) { pthread_cond_init(&T[t].cv,nullptr); pthread_create(&T[t].pt,nullptr,trampoline,(void*)(intptr_t)t); }
    inrt=0;
    yield_point();
    fn(data);
    finish_member();
    inrt=1;
    for(int t=1;t<want;t++) pthread_join(T[t].pt,nullptr);
    for(int t=0;t<want;t++) { join(T[0].vc,T[t].vc); T[t].lo=T[t].hi=nullptr; }
    monitor=false; team=nullptr; for(WS *w: tm.ws) delete w; inrt=0;
  }
  static Team* myteam() { return serial?steam:team; }
  static int mytid() { return (monitor&&!serial)?me:0; }
  static int myn() { return (monitor&&!serial)?team->n:1; }
  static WS dummy;
  static WS *nextws() { inrt++; Team *t=myteam(); if(!t) { t=new Team; steam=t; } size_t i=T[me].wsi++; while(t->ws.size()<=i) t->ws.push_back(new WS); T[me].cur=t->ws[i]; inrt--; return t->ws[i]; }
  // hand out one chunk; static mode: round robin by thread
  static bool chunk(WS *w,long *is,long *ie) {
    R->loops++; yield_point(true);
    long cnt=w->incr>0?(w->end-w->next+w->incr-1)/w->incr:(w->next-w->end-w->incr-1)/(-w->incr);
    if(cnt<=0) return false; long c=w->chunk>0?w->chunk:1; if(w->mode==2) { long q=cnt/myn(); if(q>c) c=q; } if(c>cnt) c=cnt;
    *is=w->next; *ie=w->next+c*w->incr; w->next=*ie; return true; }
  static bool uchunk(WS *w,unsigned long long *is,unsigned long long *ie) {
    R->loops++; yield_point(true);
    unsigned long long cnt; if(w->up) cnt=w->ue>w->un?(w->ue-w->un+w->ui-1)/w->ui:0; else { unsigned long long s=0-w->ui; cnt=w->un>w->ue?(w->un-w->ue+s-1)/s:0; }
    if(!cnt) return false; unsigned long long c=w->uc?w->uc:1; if(c>cnt) c=cnt; *is=w->un; *ie=w->un+c*w->ui; w->un=*ie; return true; }
  static void setloop(WS *w,long s,long e,long i,long c,int mode) { if(!w->init) { w->init=true; w->next=s; w->end=e; w->incr=i; w->chunk=c; w->mode=mode; if(mode==1&&c==0) { long cnt=i>0?(e-s+i-1)/i:(s-e-i-1)/(-i); w->chunk=cnt/myn()+1; } } }
  static char *base_=nullptr; 
  static char *exe_base() { extern char __executable_start_ __asm__("__executable_start"); return &__executable_start_; }
  Run execute(int tm,const std::vector<int> &ch,void (*fn)(void*),void *arg) {
    Run r; if(!syncs) syncs=new std::map<void*,Sync>; pthread_cond_init(&T[0].cv,nullptr);
    R=&r; choice=&ch; cpos=0; teamsize_wanted=tm; cur=0; me=0; for(int t=0;t<MAXT;t++) memset(&T[t].vc,0,sizeof(VC)); active=true; fn(arg); active=false; R=nullptr; return r; }
  static Run idle; struct Init { Init() { } } init_;
}
using namespace sched;
#define RINIT if(!R) R=&sched::idle
// ---------------- libgomp
API void GOMP_parallel(void (*fn)(void*),void *d,unsigned n,unsigned) { RINIT; parallel(fn,d,n); }
API unsigned GOMP_parallel_reductions(void (*fn)(void*),void *d,unsigned n,unsigned) { RINIT; parallel(fn,d,n); return 1; }
API void GOMP_barrier(void) { RINIT; barrier(); }
API bool GOMP_cancel(int,bool) { return false; }
API bool GOMP_cancellation_point(int) { return false; }
API bool GOMP_barrier_cancel(void) { RINIT; barrier(); return false; }
API void GOMP_critical_start(void) { RINIT; lock(glock_critical); }
API void GOMP_critical_end(void) { RINIT; unlock(glock_critical); }
static Sync &syncof(void *p) { inrt++; Sync &s=(*syncs)[p]; inrt--; return s; }
API void GOMP_critical_name_start(void **p) { RINIT; lock(syncof(p)); }
API void GOMP_critical_name_end(void **p) { RINIT; unlock(syncof(p)); }
API void GOMP_atomic_start(void) { RINIT; lock(glock_atomic); }
API void GOMP_atomic_end(void) { RINIT; unlock(glock_atomic); }
API bool GOMP_single_start(void) { RINIT; WS *w=nextws(); yield_point(); if(w->single) return false; return w->single=true; }
API void *GOMP_single_copy_start(void) { RINIT; WS *w=nextws(); yield_point(); if(!w->single) { w->single=true; return nullptr; } barrier(); return w->copy; }
API void GOMP_single_copy_end(void *d) { T[me].cur->copy=d; barrier(); }
API unsigned GOMP_sections_start(unsigned n) { RINIT; WS *w=nextws(); if(!w->init) { w->init=true; w->nsect=n; } yield_point(); return w->sect<w->nsect?++w->sect:0; }
API unsigned GOMP_sections_next(void) { RINIT; WS *w=T[me].cur; yield_point(); return w->sect<w->nsect?++w->sect:0; }
API void GOMP_sections_end(void) { RINIT; barrier(); }
API void GOMP_sections_end_nowait(void) {}
API void GOMP_parallel_sections(void (*fn)(void*),void *d,unsigned n,unsigned c,unsigned) { RINIT; WS *w=new WS; w->init=true; w->nsect=c; preset=w; parallel(fn,d,n); }
API void GOMP_loop_end(void) { RINIT; barrier(); }
API void GOMP_loop_end_nowait(void) {}
API bool GOMP_loop_end_cancel(void) { RINIT; barrier(); return false; }
API void GOMP_ordered_start(void) { RINIT; lock(glock_critical); }
API void GOMP_ordered_end(void) { RINIT; unlock(glock_critical); }
API void GOMP_taskwait(void) {}
API void GOMP_taskyield(void) {}
API void GOMP_taskgroup_start(void) {}
API void GOMP_taskgroup_end(void) {}
API void GOMP_task(void (*fn)(void*),void *data,void (*cpy)(void*,void*),long sz,long al,bool,unsigned,void**,int,void*) {
  if(cpy) { char *b=(char*)malloc(sz+al); char *a=(char*)(((uintptr_t)b+al-1)&~(uintptr_t)(al-1)); cpy(a,data); fn(a); free(b); } else fn(data); }
#define LOOPV(kind,MODE) \
API bool GOMP_loop_##kind##_start(long s,long e,long i,long c,long *is,long *ie) { RINIT; WS *w=nextws(); setloop(w,s,e,i,c,MODE); return chunk(w,is,ie); } \
API bool GOMP_loop_##kind##_next(long *is,long *ie) { RINIT; return chunk(T[me].cur,is,ie); } \
API void GOMP_parallel_loop_##kind(void (*fn)(void*),void *d,unsigned n,long s,long e,long i,long c,unsigned) { RINIT; WS *w=new WS; w->init=true; w->next=s; w->end=e; w->incr=i; w->chunk=c; w->mode=MODE; preset=w; parallel(fn,d,n); } \
API bool GOMP_loop_ull_##kind##_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long c,unsigned long long *is,unsigned long long *ie) { RINIT; WS *w=nextws(); if(!w->init) { w->init=true; w->up=up; w->un=s; w->ue=e; w->ui=i; w->uc=c; } return uchunk(w,is,ie); } \
API bool GOMP_loop_ull_##kind##_next(unsigned long long *is,unsigned long long *ie) { RINIT; return uchunk(T[me].cur,is,ie); }
#define RTV(kind) \
API bool GOMP_loop_##kind##_start(long s,long e,long i,long *is,long *ie) { RINIT; WS *w=nextws(); setloop(w,s,e,i,1,0); return chunk(w,is,ie); } \
API bool GOMP_loop_##kind##_next(long *is,long *ie) { RINIT; return chunk(T[me].cur,is,ie); } \
API void GOMP_parallel_loop_##kind(void (*fn)(void*),void *d,unsigned n,long s,long e,long i,unsigned) { RINIT; WS *w=new WS; w->init=true; w->next=s; w->end=e; w->incr=i; preset=w; parallel(fn,d,n); } \
API bool GOMP_loop_ull_##kind##_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long *is,unsigned long long *ie) { RINIT; WS *w=nextws(); if(!w->init) { w->init=true; w->up=up; w->un=s; w->ue=e; w->ui=i; w->uc=1; } return uchunk(w,is,ie); } \
API bool GOMP_loop_ull_##kind##_next(unsigned long long *is,unsigned long long *ie) { RINIT; return uchunk(T[me].cur,is,ie); }
LOOPV(static,1) LOOPV(dynamic,0) LOOPV(nonmonotonic_dynamic,0) LOOPV(guided,2) LOOPV(nonmonotonic_guided,2)
RTV(runtime) RTV(nonmonotonic_runtime) RTV(maybe_nonmonotonic_runtime)
API int omp_get_thread_num(void) { return mytid(); }
API int omp_get_num_threads(void) { return myn(); }
API int omp_get_max_threads(void) { return active?teamsize_wanted:1; }
API int omp_get_num_procs(void) { return 8; }
API int omp_in_parallel(void) { return monitor; }
API int omp_get_level(void) { return (monitor?1:0)+serial; }
API int omp_get_active_level(void) { return monitor; }
API int omp_get_thread_limit(void) { return MAXT-1; }
API int omp_get_dynamic(void) { return 0; }
API int omp_get_nested(void) { return 0; }
API int omp_get_max_active_levels(void) { return 1; }
API void omp_set_num_threads(int) {}
API void omp_set_dynamic(int) {}
API void omp_set_nested(int) {}
API void omp_set_max_active_levels(int) {}
API double omp_get_wtime(void) { return 0; }
API double omp_get_wtick(void) { return 1e-9; }
API void omp_init_lock(void **p) { *p=nullptr; }
API void omp_destroy_lock(void **) {}
API void omp_set_lock(void **p) { RINIT; lock(syncof(p)); }
API void omp_unset_lock(void **p) { RINIT; unlock(syncof(p)); }
// ---------------- libtsan
#define PC __builtin_return_address(0)
API void __tsan_init(void) {}
API void __tsan_func_entry(void*) {}
API void __tsan_func_exit(void) {}
#define RW(n) API void __tsan_read##n(void*p) { touch(p,n,false,PC); } API void __tsan_write##n(void*p) { touch(p,n,true,PC); } \
 API void __tsan_unaligned_read##n(void*p) { touch(p,n,false,PC); } API void __tsan_unaligned_write##n(void*p) { touch(p,n,true,PC); } \
 API void __tsan_volatile_read##n(void*p) { touch(p,n,false,PC); } API void __tsan_volatile_write##n(void*p) { touch(p,n,true,PC); } \
 API void __tsan_unaligned_volatile_read##n(void*p) { touch(p,n,false,PC); } API void __tsan_unaligned_volatile_write##n(void*p) { touch(p,n,true,PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
API void __tsan_read_range(void*p,size_t n) { touch(p,n,false,PC); }
API void __tsan_write_range(void*p,size_t n) { touch(p,n,true,PC); }
API void __tsan_vptr_update(void**p,void*) { touch(p,8,true,PC); }
API void __tsan_vptr_read(void**p) { touch(p,8,false,PC); }
// Only orderings the memory model needs make an edge: a relaxed access makes none, and of a reference
// count only the decrements release and only the one that reaches zero acquires, so that an incidental
// copy of a shared pointer does not hide an unsynchronised access.
static void async(const volatile void *p,int mo) { if(!monitor||inrt||mo==0) return; Sync &s=syncof((void*)p); acquire(s); release(s); }
static void acount(const volatile void *p,bool dec,bool zero) { if(!monitor||inrt||!dec) return; Sync &s=syncof((void*)p); if(zero) acquire(s); release(s); }
#define ATO(n,t,st) \
 API t __tsan_atomic##n##_load(const volatile t*p,int o) { if(o&&monitor&&!inrt) acquire(syncof((void*)p)); return *p; } \
 API void __tsan_atomic##n##_store(volatile t*p,t v,int o) { if(o&&monitor&&!inrt) release(syncof((void*)p)); *p=v; } \
 API t __tsan_atomic##n##_exchange(volatile t*p,t v,int m) { async(p,m); t o=*p; *p=v; return o; } \
 API t __tsan_atomic##n##_fetch_add(volatile t*p,t v,int m) { t o=*p; acount(p,(st)v<0,(t)(o+v)==0); *p=o+v; return o; } \
 API t __tsan_atomic##n##_fetch_sub(volatile t*p,t v,int m) { t o=*p; acount(p,(st)v>0,(t)(o-v)==0); *p=o-v; return o; } \
 API t __tsan_atomic##n##_fetch_and(volatile t*p,t v,int m) { async(p,m); t o=*p; *p=o&v; return o; } \
 API t __tsan_atomic##n##_fetch_or(volatile t*p,t v,int m) { async(p,m); t o=*p; *p=o|v; return o; } \
 API t __tsan_atomic##n##_fetch_xor(volatile t*p,t v,int m) { async(p,m); t o=*p; *p=o^v; return o; } \
 API t __tsan_atomic##n##_fetch_nand(volatile t*p,t v,int m) { async(p,m); t o=*p; *p=~(o&v); return o; } \
 API int __tsan_atomic##n##_compare_exchange_strong(volatile t*p,t*e,t v,int m,int) { async(p,m); if(*p==*e) { *p=v; return 1; } *e=*p; return 0; } \
 API int __tsan_atomic##n##_compare_exchange_weak(volatile t*p,t*e,t v,int m,int) { async(p,m); if(*p==*e) { *p=v; return 1; } *e=*p; return 0; } \
 API t __tsan_atomic##n##_compare_exchange_val(volatile t*p,t e,t v,int m,int) { async(p,m); t o=*p; if(o==e) *p=v; return o; }
ATO(8,uint8_t,int8_t) ATO(16,uint16_t,int16_t) ATO(32,uint32_t,int32_t) ATO(64,uint64_t,int64_t) ATO(128,__uint128_t,__int128)
API void __tsan_atomic_thread_fence(int) {}
API void __tsan_atomic_signal_fence(int) {}
// ---------------- memory and interposed library functions (linked with --wrap)
API void *__real_malloc(size_t); API void __real_free(void*); API void *__real_calloc(size_t,size_t); API void *__real_realloc(void*,size_t); API void *__real_memcpy(void*,const void*,size_t); API void *__real_memmove(void*,const void*,size_t); API void *__real_memset(void*,int,size_t);
API int __real___cxa_guard_acquire(void*); API void __real___cxa_guard_release(void*);
API void *__wrap_malloc(size_t n) { void *p=__real_malloc(n); if(p) fresh(p,malloc_usable_size(p)); return p; }
API void *__wrap_calloc(size_t a,size_t b) { void *p=__real_calloc(a,b); if(p) fresh(p,malloc_usable_size(p)); return p; }
API void *__wrap_realloc(void *o,size_t n) { if(o) touch(o,malloc_usable_size(o),true,PC); void *p=__real_realloc(o,n); if(p) fresh(p,malloc_usable_size(p)); return p; }
API void __wrap_free(void *p) { if(p&&monitor&&!inrt) touch(p,malloc_usable_size(p),true,PC); __real_free(p); }
API void *__wrap_memcpy(void *d,const void *s,size_t n) { touch(s,n,false,PC); touch(d,n,true,PC); return __real_memcpy(d,s,n); }
API void *__wrap_memmove(void *d,const void *s,size_t n) { touch(s,n,false,PC); touch(d,n,true,PC); return __real_memmove(d,s,n); }
API void *__wrap_memset(void *d,int c,size_t n) { touch(d,n,true,PC); return __real_memset(d,c,n); }
API int __wrap___cxa_guard_acquire(void *g) { async(g,5); return __real___cxa_guard_acquire(g); }
API void __wrap___cxa_guard_release(void *g) { async(g,5); __real___cxa_guard_release(g); }
void *operator new(size_t n) { void *p=__real_malloc(n?n:1); if(!p) throw std::bad_alloc(); if(p) fresh(p,malloc_usable_size(p)); return p; }
void *operator new[](size_t n) { void *p=__real_malloc(n?n:1); if(!p) throw std::bad_alloc(); if(p) fresh(p,malloc_usable_size(p)); return p; }
void operator delete(void *p) noexcept { if(p&&monitor&&!inrt) touch(p,malloc_usable_size(p),true,PC); __real_free(p); }
void operator delete[](void *p) noexcept { if(p&&monitor&&!inrt) touch(p,malloc_usable_size(p),true,PC); __real_free(p); }
void operator delete(void *p,size_t) noexcept { operator delete(p); }
void operator delete[](void *p,size_t) noexcept { operator delete[](p); }
