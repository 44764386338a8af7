#include "vsched.h"
#include <pthread.h>
#include <sched.h>
#include <dlfcn.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <algorithm>
#include <atomic>
#define NOTSAN __attribute__((no_sanitize("thread")))
extern "C" void*__libc_malloc(size_t); extern "C" void __libc_free(void*); extern "C" void*__libc_realloc(void*,size_t); extern "C" void*__libc_calloc(size_t,size_t); extern "C" void*__libc_memalign(size_t,size_t);

namespace{
const int MAXT=12;
typedef uint64_t u64;
NOTSAN inline u64 mix(u64 h, u64 v){ h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>33; return h; }
struct VC{ unsigned c[MAXT]; };
enum St{ RUN, WAIT_MUTEX, WAIT_COND, WAIT_JOIN, WAIT_BARRIER, DONE };
struct Team;
struct VT{
	int id; std::atomic<int> go; St st; const void*what; VC vc; pthread_t os; bool yielded, created, os_created, detached, pooled; std::atomic<int> idle;
	void*(*fn)(void*); void*arg; void*ret; char*arena,*arena_pos,*arena_end; Team*team; int team_id; unsigned ws_index; int ignore; bool woken; bool started; char*sp,*base; const void*cond_mutex;
	std::vector<void(*)()>*dummy;
};
VT T[MAXT]; int nT=0; int cur=-1;
bool active=false;             // an execution is under control
__thread int my_id=-1; __thread int busy=0;
const size_t ARENA=(size_t)64<<20; char*arena_base=0; char*stack_base=0; const size_t STACK=(size_t)1<<20, SCRUB=(size_t)96<<10;

struct Mutex{ int owner=-1; int rec=0; VC vc; Mutex(){ memset(&vc,0,sizeof vc);} };
struct Cond{ std::vector<int> waiters; VC vc; Cond(){ memset(&vc,0,sizeof vc);} };
struct Shadow{ uintptr_t addr=0; bool known_written=false; int wt=-1; unsigned wc=0; bool watomic=false; unsigned rc[MAXT]; bool ratomic[MAXT]; Shadow(){ memset(rc,0,sizeof rc); memset(ratomic,0,sizeof ratomic);} };
// open addressing table of the bytes accessed in this execution
struct ShadowMap{
	std::vector<Shadow>t; std::vector<unsigned>used; size_t mask;
	NOTSAN ShadowMap():t(1<<15),mask((1<<15)-1){}
	NOTSAN void clear(){ for(unsigned i:used) t[i]=Shadow(); used.clear(); }
	NOTSAN size_t slot(uintptr_t a){ size_t i=(a*0x9e3779b97f4a7c15ull>>33)&mask; while(t[i].addr&&t[i].addr!=a) i=(i+1)&mask; return i; }
	NOTSAN Shadow&operator[](uintptr_t a){
		size_t i=slot(a); if(t[i].addr) return t[i];
		if(used.size()*2>mask){ std::vector<Shadow>o; o.swap(t); std::vector<unsigned>u; u.swap(used); mask=mask*2+1; t.resize(mask+1); for(unsigned k:u){ size_t j=slot(o[k].addr); t[j]=o[k]; used.push_back(j); } i=slot(a); }
		t[i].addr=a; used.push_back(i); return t[i];
	}
};
struct Sync{ VC vc; Sync(){ memset(&vc,0,sizeof vc);} };
struct Ws{ bool init=false; long next=0,end=0,incr=1,chunk=1; unsigned long long unext=0,uend=0,uincr=1; bool up=true; int left=0; VC vc; bool single_taken=false; Ws(){ memset(&vc,0,sizeof vc);} };
struct Team{ bool used=false; int n; int at_barrier=0; unsigned gen=0; std::map<unsigned,Ws>ws; VC bvc; VC release; Team*parent=0; int members_left=0; void(*fn)(void*); void*data; int ids[MAXT]; Team(){ memset(&bvc,0,sizeof bvc); memset(&release,0,sizeof release);} };

struct Choice{ std::vector<int> alts; size_t pick; };
struct Global{
	std::unordered_map<const void*,Mutex>mutexes; std::unordered_map<const void*,Cond>conds; ShadowMap shadow; std::unordered_map<uintptr_t,Sync>syncs;
	std::set<uintptr_t>hot; std::set<uintptr_t>new_hot; std::unordered_set<uintptr_t>written; bool new_written=false;
	std::vector<Choice>stack; size_t pos=0;            // DFS stack, position in the current execution
	std::unordered_map<u64,unsigned>visited;           // state -> least preemptions
	u64 steps=0; unsigned preempt=0, spurious=0; bool pruned=false, recording=true;
	std::string fail, race; std::string trace;
	vs::Options o; vs::Result res; Mutex critical; std::unordered_map<const void*,Mutex>named;
	std::vector<Team*>teams;
};
Global*S=0;

struct Busy{ NOTSAN Busy(){ ++busy; } NOTSAN ~Busy(){ --busy; } };

NOTSAN void futex_wait(std::atomic<int>&f){
	while(!f.load(std::memory_order_acquire)) syscall(SYS_futex,(int*)&f,FUTEX_WAIT_PRIVATE,0,0,0,0);
	f.store(0);
}
NOTSAN void futex_wake(std::atomic<int>&f){ f.store(1,std::memory_order_release); syscall(SYS_futex,(int*)&f,FUTEX_WAKE_PRIVATE,1,0,0,0); }

[[noreturn]] NOTSAN void die(const std::string&m){
	// the other virtual threads cannot be unwound: end the process, the runner reports the message
	std::string s="SCHEDULE-FAILURE: "+m+"\n schedule: "+(S?S->trace:"")+"\n";
	if(write(2,s.data(),s.size())){} _exit(79);
}
NOTSAN bool on(){ return active && my_id>=0 && busy==0 && !T[my_id].ignore; }
NOTSAN void join_vc(VC&a, const VC&b){ for(int i=0;i<MAXT;++i) if(b.c[i]>a.c[i]) a.c[i]=b.c[i]; }

NOTSAN bool enabled(int i){
	VT&t=T[i];
	switch(t.st){
		case RUN: return true;
		case WAIT_MUTEX: return S->mutexes[t.what].owner<0;
		case WAIT_COND: return S->spurious<S->o.spurious && S->mutexes[t.cond_mutex].owner<0; // a spurious wake up
		case WAIT_JOIN: return T[(long)t.what].st==DONE;
		default: return false;
	}
}
NOTSAN bool own_stack(const Shadow&b){ return b.wt>=0 && b.addr>=(uintptr_t)stack_base+STACK*b.wt && b.addr<(uintptr_t)stack_base+STACK*(b.wt+1); }
NOTSAN u64 hash_range(u64 h, const char*p, const char*e){
	while(p+8<=e){ u64 v; __builtin_memcpy(&v,p,8); h=(h^v)*0x9fb21c651e98df25ull; h^=h>>29; p+=8; }
	while(p<e){ h=(h^(unsigned char)*p)*0x9fb21c651e98df25ull; h^=h>>29; ++p; }
	return h;
}
NOTSAN bool on_stack(uintptr_t a){ return a>=(uintptr_t)stack_base&&a<(uintptr_t)stack_base+STACK*MAXT; }
// The whole state: live stacks and registers of all threads, all memory allocated or written by them, the
// synchronisation objects, and for the race detector which earlier accesses are ordered before which threads.
NOTSAN u64 state_key(){
	u64 h=mix(nT,cur);
	for(int i=0;i<nT;++i){ VT&t=T[i];
		h=mix(h,t.st*16+(t.yielded?1:0)+(t.started?2:0)); if(t.st==DONE){ u64 o=t.os_created; for(int j=0;j<nT;++j) o=o*2+(T[j].st!=DONE&&T[j].vc.c[i]>=t.vc.c[i]); h=mix(h,o); continue; }
		if(t.st!=RUN) h=mix(h,(u64)t.what);
		if(t.started) h=hash_range(h,t.sp,t.base); else h=mix(mix(h,(u64)t.fn),(u64)t.arg);
		h=mix(h,t.team_id*64+t.ws_index*2+(t.ignore?1:0)); h=hash_range(mix(h,t.arena_pos-t.arena),t.arena,t.arena_pos);
	}
	u64 s=0; for(auto&m:S->mutexes) if(m.second.owner>=0) s+=mix((u64)m.first,m.second.owner*100+m.second.rec); h=mix(h,s);
	s=0; for(auto&c:S->conds) if(!c.second.waiters.empty()){ u64 x=(u64)c.first; for(int w:c.second.waiters) x=mix(x,w); s+=mix(x,1); } h=mix(h,s);
	for(auto t:S->teams){ h=mix(h,t->at_barrier*31+t->members_left); for(auto&w:t->ws){ h=mix(h,w.first); h=mix(h,w.second.next); h=mix(h,w.second.single_taken); } }
	s=0;
	for(unsigned k:S->shadow.used){ const Shadow&b=S->shadow.t[k];
		bool st=on_stack(b.addr); u64 x=0;
		if(b.wt>=0){ if(!st) x=mix(b.addr,*(unsigned char*)b.addr);
			u64 o=0; bool all=true; for(int i=0;i<nT;++i) if(T[i].st!=DONE){ bool y=i==b.wt||b.wc<=T[i].vc.c[b.wt]; o=o*2+y; all&=b.wc<=T[i].vc.c[b.wt]; }
			if(!all&&!(st&&own_stack(b))){ for(auto&m:S->mutexes) o+=mix((u64)m.first,b.wc<=m.second.vc.c[b.wt]); for(auto&m:S->syncs) o+=mix((u64)m.first,b.wc<=m.second.vc.c[b.wt]); x=mix(mix(x,o),b.wt*2+b.watomic+5); } }
		if(b.known_written&&!st) for(int r=0;r<nT;++r) if(b.rc[r]){ u64 o=0; bool all=true; for(int i=0;i<nT;++i) if(T[i].st!=DONE){ bool y=i==r||b.rc[r]<=T[i].vc.c[r]; o=o*2+y; all&=b.rc[r]<=T[i].vc.c[r]; }
			if(!all){ for(auto&m:S->mutexes) o+=mix((u64)m.first,b.rc[r]<=m.second.vc.c[r]); for(auto&m:S->syncs) o+=mix((u64)m.first,b.rc[r]<=m.second.vc.c[r]); x=mix(mix(x,o),r*2+b.ratomic[r]+99); } }
		s+=mix(b.addr,x);
	}
	h=mix(h,s);
	return mix(h,S->spurious);
}
// picks the next thread to run; `me` may be blocked or done
NOTSAN int choose(int me, bool free_switch){
	std::vector<int>en; for(int i=0;i<nT;++i) if(enabled(i)) en.push_back(i);
	if(++S->steps>S->o.max_steps) die("livelock: the execution does not end");
	bool real=false; for(int x:en) if(T[x].st!=WAIT_COND) real=true;
	if(!real){
		bool all=true; for(int i=0;i<nT;++i) if(T[i].st!=DONE) all=false;
		if(all) return -1;
		std::string m="deadlock:"; for(int i=0;i<nT;++i){ static const char*n[]={"running","waiting for a mutex","waiting for a condition variable","waiting for a thread to end","waiting at a barrier","done"}; m+=" thread "+std::to_string(i)+" "+n[T[i].st]+";"; }
		if(!S->fail.empty()) m=S->fail+" / "+m;
		die(m);
	}
	bool me_on=std::find(en.begin(),en.end(),me)!=en.end();
	// a thread that yielded or spins is only continued when nobody else can run
	if(me>=0&&T[me].yielded&&me_on&&en.size()>1){ en.erase(std::find(en.begin(),en.end(),me)); me_on=false; }
	if(me>=0) T[me].yielded=false;
	if(en.size()==1) return en[0]; 
	std::vector<int>alts; if(me_on) alts.push_back(me); 
	for(int x:en) if(x!=me||!me_on){ alts.push_back(x); }
	bool costs=me_on&&!free_switch;
	if(unsigned o=S->o.single){
		if(o==2) return *std::max_element(en.begin(),en.end());
		if(o==3&&me_on&&S->steps%7) return me;
		int r=-1,lo=en[0]; for(int x:en){ lo=std::min(lo,x); if(x>me&&(r<0||x<r)) r=x; } return r<0?lo:r;
	}
	if(costs && S->preempt>=S->o.max_preempt) return me;
	int pick;
	if(S->pos<S->stack.size()){
		Choice&c=S->stack[S->pos];
		if(c.alts!=alts) die("internal: replay of a schedule diverged");
		pick=c.alts[c.pick]; ++S->pos;
	}else{
		if(S->recording){
			u64 k=state_key(); auto it=S->visited.find(k);
			if(it!=S->visited.end() && it->second<=S->preempt){ S->recording=false; S->pruned=true; }
			else{ S->visited[k]=S->preempt; }
		}
		if(!S->recording){ return alts[0]; }
		Choice c; c.alts=alts; c.pick=0; S->stack.push_back(c); ++S->pos; pick=alts[0];
	}
	if(costs && pick!=me) ++S->preempt;
	return pick;
}
NOTSAN void acquire_after_resume(int me){
	VT&t=T[me];
	if(t.st==WAIT_COND){ auto&w=S->conds[t.what].waiters; w.erase(std::find(w.begin(),w.end(),me)); ++S->spurious; t.st=WAIT_MUTEX; t.what=t.cond_mutex; }
	if(t.st==WAIT_MUTEX){ Mutex&m=S->mutexes[t.what]; m.owner=me; m.rec=1; join_vc(t.vc,m.vc); t.st=RUN; }
	else if(t.st==WAIT_JOIN){ join_vc(t.vc,T[(long)t.what].vc); t.st=RUN; }
}
NOTSAN void hand_over(int me, int next){
	if(S->trace.size()<6000){ S->trace+=std::to_string(next); S->trace+=' '; }
	cur=next; futex_wake(T[next].go);
	if(T[me].st!=DONE) futex_wait(T[me].go);
}
// called by the running thread with its status set
__attribute__((noinline)) NOTSAN void scrub(){ char b[4096]; __builtin_memset(b,0,sizeof b); asm volatile("" :: "r"(b) : "memory"); }
__attribute__((noinline)) NOTSAN void reschedule(bool free_switch=false){
	int me=my_id; Busy b;
	__builtin_unwind_init(); char*sp; asm volatile("mov %%rsp,%0":"=r"(sp)::"memory"); T[me].sp=sp;
	int n=choose(me,free_switch);
	if(n>=0&&n!=me) hand_over(me,n);
	acquire_after_resume(me);
	scrub();
}
NOTSAN void point(){ ++S->res.transitions; reschedule(); }

// ---- memory
NOTSAN bool is_hot(uintptr_t a, size_t n){ if(S->hot.empty()) return false; auto it=S->hot.lower_bound(a); return it!=S->hot.end() && *it<a+n; }
NOTSAN void race_report(uintptr_t a, int i, int j, bool w1, bool w2){
	if(!S->race.empty()) return;
	char b[300]; snprintf(b,sizeof b,"data race: threads %d and %d access the same memory (%s/%s) without synchronization",i,j,w1?"write":"read",w2?"write":"read"); S->race=b;
}
NOTSAN void shadow_access(uintptr_t a, size_t n, bool write, bool atomic){
	int me=my_id; VC&vc=T[me].vc; if(nT<2) { }
	for(size_t k=0;k<n;++k){
		Shadow&s=S->shadow[a+k]; bool conflict=false;
		if(s.wt<0&&!s.known_written){ if(S->written.count(a+k)) s.known_written=true; else if(write){ s.known_written=true; S->written.insert(a+k); S->new_written=true; } }
		if(s.wt>=0&&s.wt!=me&&s.wc>vc.c[s.wt]){ conflict=true;
			bool tolerated = (s.watomic&&atomic) || (s.watomic&&!write&&!atomic);
			if(!tolerated) race_report(a+k,s.wt,me,true,write); }
		if(write) for(int i=0;i<nT;++i) if(i!=me&&s.rc[i]>vc.c[i]){ conflict=true; if(!(atomic)) race_report(a+k,i,me,false,true); }
		if(conflict&&!S->hot.count(a+k)) S->new_hot.insert(a+k);
		if(write){ s.wt=me; s.wc=vc.c[me]; s.watomic=atomic; } else { s.rc[me]=vc.c[me]; s.ratomic[me]=atomic; }
	}
}
NOTSAN void plain(const void*p, size_t n, bool write){
	if(!on()) return;
	uintptr_t a=(uintptr_t)p;
	// a thread's own stack is not shared unless somebody else was seen there
	{ Busy b; if(is_hot(a,n)) { ++S->res.transitions; --busy; reschedule(); ++busy; }
	  shadow_access(a,n,write,false); }
	scrub();
}
NOTSAN void atomic_pre(const void*p, size_t n, bool write){
	if(!on()) return;
	Busy b; uintptr_t a=(uintptr_t)p;
	if(is_hot(a,n)){ ++S->res.transitions; --busy; reschedule(); ++busy; }
	shadow_access(a,n,write,true);
	Sync&s=S->syncs[a]; VC&v=T[my_id].vc; join_vc(v,s.vc); if(write){ s.vc=v; v.c[my_id]++; }
		scrub();
}

template<class F> NOTSAN F real(const char*n){ return (F)dlsym(RTLD_NEXT,n); }

std::atomic<int>all_done;
const std::function<void()>*the_body;
NOTSAN void*run_body(void*){ try{ (*the_body)(); }catch(std::exception&e){ vs::note_failure(std::string("unexpected exception: ")+e.what()); } return 0; }
__attribute__((noinline)) NOTSAN void scrub_stack(){ Busy z; char b[SCRUB]; __builtin_memset(b,0,sizeof b); asm volatile("" :: "r"(b) : "memory"); }
__attribute__((noinline)) NOTSAN void run_one(int id){
	T[id].started=true; char anchor; T[id].base=(char*)&anchor; asm volatile("" :: "r"(&anchor) : "memory"); scrub();
	T[id].ret=T[id].fn(T[id].arg);
	Busy b; T[id].st=DONE; int n=choose(id,true); if(n>=0) hand_over(id,n); else futex_wake(all_done);
}
// operating system threads are reused by all executions: creating some 100000 per second exhausts kernel memory
NOTSAN void*pool_thread(void*p){
	int id=(int)(long)p; my_id=id;
	for(;;){ futex_wait(T[id].go); scrub_stack(); run_one(id); futex_wake(T[id].idle); }
	return 0;
}
NOTSAN void start_os(int id){
	T[id].idle=0; T[id].os_created=true;
	if(T[id].pooled) return;
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,stack_base+STACK*id,STACK);
	static auto rc=real<int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*)>("pthread_create");
	if(rc(&T[id].os,&at,pool_thread,(void*)(long)id)) die("internal: pthread_create failed");
	pthread_attr_destroy(&at); T[id].pooled=true;
}
NOTSAN int spawn(void*(*fn)(void*), void*arg, bool with_os=true){
	// the number of a thread that ended, was joined and happened before this point is used again: to the race
	// detector the new thread continues the old one
	int id=0; unsigned clock=0; for(int i=1;i<nT&&!id;++i) if(T[i].st==DONE&&!T[i].os_created&&T[my_id].vc.c[i]>=T[i].vc.c[i]){ id=i; clock=T[i].vc.c[i]; }
	if(!id){ if(nT>=MAXT) die("internal: too many threads"); id=nT++; }
	VT&t=T[id]; t.id=id; t.go=0; t.st=RUN; t.what=0; t.yielded=false; t.fn=fn; t.arg=arg; t.ret=0; t.team=0; t.team_id=0; t.ws_index=0; t.ignore=0; t.woken=false; t.detached=false; t.started=false; t.sp=t.base=0;
	t.vc=T[my_id].vc; t.vc.c[id]=clock+1; T[my_id].vc.c[my_id]++;
	start_os(id);
	return id;
}
NOTSAN void join_os(int id){ if(T[id].os_created){ futex_wait(T[id].idle); T[id].os_created=false; } }
NOTSAN int vt_of(pthread_t p){ for(int i=1;i<nT;++i) if(T[i].os_created&&pthread_equal(T[i].os,p)) return i; return -1; }
}

namespace vs{
NOTSAN bool controlled(){ return active&&my_id>=0; }
NOTSAN void note_failure(const std::string&m){ Busy b; if(S&&S->fail.empty()) S->fail=m; }
NOTSAN void ignore_begin(){ if(active&&my_id>=0) ++T[my_id].ignore; }
NOTSAN void ignore_end(){ if(active&&my_id>=0) --T[my_id].ignore; }

NOTSAN static double seconds(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
NOTSAN Result explore(const Options&o, const std::function<void()>&body, const std::function<std::string()>&judge){
	Busy outer;
	if(!arena_base){
		arena_base=(char*)mmap(0,ARENA*MAXT,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
		stack_base=(char*)mmap(0,STACK*MAXT,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
		for(int i=0;i<MAXT;++i){ T[i].arena=T[i].arena_pos=arena_base+ARENA*i; T[i].arena_end=T[i].arena+ARENA; }
	}
	Global g; S=&g; g.o=o;
	std::set<uintptr_t>hot; double t_begin=seconds();
	for(unsigned round=0;;++round){
		g.stack.clear(); g.visited.clear(); g.hot=hot; g.new_hot.clear(); g.res.rounds=round+1; u64 exec_this=0; bool again=false;
		for(;;){
			g.mutexes.clear(); g.conds.clear(); g.shadow.clear(); g.syncs.clear(); g.pos=0; g.steps=0; g.preempt=0; g.spurious=0; g.pruned=false; g.recording=true; g.fail.clear(); g.race.clear(); g.trace.clear(); g.named.clear(); g.critical=Mutex();
			g.teams.clear();
			for(int i=0;i<MAXT;++i){ if(T[i].arena_pos>T[i].arena) memset(T[i].arena,0,T[i].arena_pos-T[i].arena); T[i].arena_pos=T[i].arena; memset(&T[i].vc,0,sizeof(VC)); T[i].os_created=false; }
			nT=1; VT&t=T[0]; t.id=0; t.go=0; t.st=RUN; t.yielded=false; t.vc.c[0]=1; t.team=0; t.team_id=0; t.ws_index=0; t.ignore=0; t.woken=false; cur=0;
			all_done=0; t.fn=run_body; t.arg=0; t.ret=0; t.what=0; t.started=false; t.sp=t.base=0; the_body=&body;
			my_id=-1; active=true; start_os(0); futex_wake(t.go); futex_wait(all_done);
			active=false;
			for(int i=0;i<nT;++i) join_os(i);
			++g.res.executions; ++exec_this; if(getenv("VX_STATS")&&g.res.executions%2000==0) fprintf(stderr,"%lu exec, %lu states, round %u hot %lu depth %lu %.1fs steps %lu\n",g.res.executions,g.visited.size(),round,g.hot.size(),g.stack.size(),seconds()-t_begin,g.steps); g.res.states=std::max<u64>(g.res.states,g.visited.size()); g.res.max_choices=std::max<u64>(g.res.max_choices,g.stack.size()); g.res.preempt_max=std::max<u64>(g.res.preempt_max,g.preempt);
			std::string f=g.fail; if(f.empty()&&o.report_races) f=g.race; if(f.empty()) f=judge();
			if(!f.empty()){ g.res.fail=f; g.res.schedule=g.trace; g.res.complete=false; g.res.hot=g.hot.size(); S=0; return g.res; }
			if(g.new_written){ g.new_written=false; again=true; }
			if(!g.new_hot.empty()){ hot.insert(g.new_hot.begin(),g.new_hot.end()); again=true; if(round>200) die("internal: hot set does not settle"); }
			if(again) break;
			while(!g.stack.empty()){ Choice&c=g.stack.back(); if(c.pick+1<c.alts.size()){ ++c.pick; break; } g.stack.pop_back(); }
			if(g.stack.empty()) break;
			if(g.res.executions>=o.max_exec||seconds()-t_begin>o.max_seconds){ g.res.complete=false; break; }
		}
		if(!again) break;
	}
	g.res.hot=hot.size(); S=0; auto r=g.res; return r;
}
}

// ------------------------------------------------------------------ allocation
extern "C"{
NOTSAN static void*arena_alloc(size_t n, size_t al){
	VT&t=T[my_id]; uintptr_t p=((uintptr_t)t.arena_pos+16+al-1)/al*al; if(p+n+16>(uintptr_t)t.arena_end) die("internal: arena exhausted"); *(size_t*)(p-8)=n; t.arena_pos=(char*)(p+n); return (void*)p;
}
NOTSAN static bool in_arena(const void*p){ return arena_base&&(const char*)p>=arena_base&&(const char*)p<arena_base+ARENA*MAXT; }
NOTSAN void*malloc(size_t n){ if(on()) return arena_alloc(n,16); return __libc_malloc(n); }
NOTSAN void free(void*p){ if(in_arena(p)) return; __libc_free(p); }
NOTSAN void*calloc(size_t a, size_t b){ if(on()){ void*p=arena_alloc(a*b,16); memset(p,0,a*b); return p; } return __libc_calloc(a,b); }
NOTSAN void*realloc(void*p, size_t n){ if(in_arena(p)||(on()&&!p)){ size_t old=p?*(size_t*)((char*)p-8):0; void*q=on()?arena_alloc(n,16):__libc_malloc(n); if(p) memcpy(q,p,old<n?old:n); return q; } return __libc_realloc(p,n); }
NOTSAN void*memalign(size_t a, size_t n){ if(on()) return arena_alloc(n,a<16?16:a); return __libc_memalign(a,n); }
NOTSAN void*aligned_alloc(size_t a, size_t n){ return memalign(a,n); }
NOTSAN int posix_memalign(void**r, size_t a, size_t n){ *r=memalign(a,n); return *r?0:ENOMEM; }

// ------------------------------------------------------------------ pthread
NOTSAN int pthread_create(pthread_t*out, const pthread_attr_t*at, void*(*fn)(void*), void*arg){
	if(!on()){ static auto r=real<int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*)>("pthread_create"); return r(out,at,fn,arg); }
	int id; { Busy b; id=spawn(fn,arg); *out=T[id].os; }
	point(); return 0;
}
NOTSAN int pthread_join(pthread_t p, void**ret){
	int id=-1; if(on()){ Busy b; id=vt_of(p); }
	if(id<0){ static auto r=real<int(*)(pthread_t,void**)>("pthread_join"); return r(p,ret); }
	T[my_id].st=WAIT_JOIN; T[my_id].what=(void*)(long)id; point();
	if(ret) *ret=T[id].ret; { Busy b; join_os(id); } return 0;
}
NOTSAN int pthread_detach(pthread_t p){ int id=-1; if(on()){ Busy b; id=vt_of(p); } if(id<0){ static auto r=real<int(*)(pthread_t)>("pthread_detach"); return r(p); } T[id].detached=true; return 0; }
NOTSAN int pthread_mutex_lock(pthread_mutex_t*m){
	if(!on()){ static auto r=real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock"); return active&&my_id>=0?0:r(m); }
	{ Busy b; Mutex&x=S->mutexes[m]; if(x.owner==my_id){ ++x.rec; if(((int*)m)[4]==0) die("deadlock: a thread locks a mutex that it already holds"); return 0; } }
	T[my_id].st=WAIT_MUTEX; T[my_id].what=m; point(); return 0;
}
NOTSAN int pthread_mutex_trylock(pthread_mutex_t*m){
	if(!on()){ static auto r=real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return active&&my_id>=0?0:r(m); }
	point(); Busy b; Mutex&x=S->mutexes[m]; if(x.owner>=0){ return EBUSY; }
	x.owner=my_id; x.rec=1; join_vc(T[my_id].vc,x.vc); return 0;
}
NOTSAN int pthread_mutex_unlock(pthread_mutex_t*m){
	if(!on()){ static auto r=real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return active&&my_id>=0?0:r(m); }
	Busy b; Mutex&x=S->mutexes[m]; if(x.owner!=my_id) die("a thread unlocks a mutex that it does not hold"); if(--x.rec) return 0; x.owner=-1; x.vc=T[my_id].vc; T[my_id].vc.c[my_id]++; return 0;
}
NOTSAN int pthread_mutex_destroy(pthread_mutex_t*m){ if(on()){ Busy b; auto it=S->mutexes.find(m); if(it!=S->mutexes.end()){ if(it->second.owner>=0) vs::note_failure("a locked mutex is destroyed"); S->mutexes.erase(it);} return 0; } static auto r=real<int(*)(pthread_mutex_t*)>("pthread_mutex_destroy"); return r(m); }
NOTSAN static int cond_wait(pthread_cond_t*c, pthread_mutex_t*m, bool timed){
	{ Busy b; Mutex&x=S->mutexes[m]; if(x.owner!=my_id) die("condition wait without holding the mutex"); x.owner=-1; x.rec=0; x.vc=T[my_id].vc; T[my_id].vc.c[my_id]++;
	  S->conds[c].waiters.push_back(my_id); T[my_id].st=WAIT_COND; T[my_id].what=c; T[my_id].cond_mutex=m; }
	if(timed){ Busy b; auto&w=S->conds[c].waiters; w.erase(std::find(w.begin(),w.end(),my_id)); T[my_id].st=WAIT_MUTEX; T[my_id].what=m; T[my_id].yielded=true; --busy; point(); ++busy; return ETIMEDOUT; }
	point(); return 0;
}
NOTSAN int pthread_cond_wait(pthread_cond_t*c, pthread_mutex_t*m){ if(!on()){ static auto r=real<int(*)(pthread_cond_t*,pthread_mutex_t*)>("pthread_cond_wait"); return r(c,m); } return cond_wait(c,m,false); }
NOTSAN int pthread_cond_timedwait(pthread_cond_t*c, pthread_mutex_t*m, const struct timespec*ts){ if(!on()){ static auto r=real<int(*)(pthread_cond_t*,pthread_mutex_t*,const struct timespec*)>("pthread_cond_timedwait"); return r(c,m,ts); } return cond_wait(c,m,true); }
NOTSAN int pthread_cond_clockwait(pthread_cond_t*c, pthread_mutex_t*m, clockid_t k, const struct timespec*ts){ if(!on()){ static auto r=real<int(*)(pthread_cond_t*,pthread_mutex_t*,clockid_t,const struct timespec*)>("pthread_cond_clockwait"); return r(c,m,k,ts); } return cond_wait(c,m,true); }
NOTSAN static void wake(int w){ T[w].st=WAIT_MUTEX; T[w].what=T[w].cond_mutex; }
NOTSAN static int cond_signal(pthread_cond_t*c, bool all){
	point(); Busy b; auto&w=S->conds[c].waiters;
	if(all){ for(int x:w) wake(x); w.clear(); } else if(!w.empty()){ wake(w.front()); w.erase(w.begin()); }
	return 0;
}
NOTSAN int pthread_cond_signal(pthread_cond_t*c){ if(!on()){ static auto r=real<int(*)(pthread_cond_t*)>("pthread_cond_signal"); return active&&my_id>=0?0:r(c); } return cond_signal(c,false); }
NOTSAN int pthread_cond_broadcast(pthread_cond_t*c){ if(!on()){ static auto r=real<int(*)(pthread_cond_t*)>("pthread_cond_broadcast"); return active&&my_id>=0?0:r(c); } return cond_signal(c,true); }
NOTSAN int pthread_cond_destroy(pthread_cond_t*c){ if(on()){ Busy b; auto it=S->conds.find(c); if(it!=S->conds.end()){ if(!it->second.waiters.empty()) vs::note_failure("a condition variable with waiting threads is destroyed"); S->conds.erase(it);} return 0; } static auto r=real<int(*)(pthread_cond_t*)>("pthread_cond_destroy"); return r(c); }
NOTSAN int sched_yield(){ if(!on()){ static auto r=real<int(*)()>("sched_yield"); return r(); } T[my_id].yielded=true; point(); return 0; }
NOTSAN int nanosleep(const struct timespec*a, struct timespec*b){ if(!on()){ static auto r=real<int(*)(const struct timespec*,struct timespec*)>("nanosleep"); return r(a,b); } T[my_id].yielded=true; point(); return 0; }
NOTSAN int clock_nanosleep(clockid_t k, int f, const struct timespec*a, struct timespec*b){ if(!on()){ static auto r=real<int(*)(clockid_t,int,const struct timespec*,struct timespec*)>("clock_nanosleep"); return r(k,f,a,b); } T[my_id].yielded=true; point(); return 0; }

// ------------------------------------------------------------------ memory hooks
NOTSAN void __tsan_init(){} NOTSAN void __tsan_func_entry(void*){} NOTSAN void __tsan_func_exit(){}
#define RW(N) NOTSAN void __tsan_read##N(void*p){ plain(p,N,false); } NOTSAN void __tsan_write##N(void*p){ plain(p,N,true); } NOTSAN void __tsan_unaligned_read##N(void*p){ plain(p,N,false); } NOTSAN void __tsan_unaligned_write##N(void*p){ plain(p,N,true); } \
	NOTSAN void __tsan_volatile_read##N(void*p){ plain(p,N,false); } NOTSAN void __tsan_volatile_write##N(void*p){ plain(p,N,true); } NOTSAN void __tsan_unaligned_volatile_read##N(void*p){ plain(p,N,false); } NOTSAN void __tsan_unaligned_volatile_write##N(void*p){ plain(p,N,true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
NOTSAN void __tsan_read_range(void*p, size_t n){ plain(p,n,false); } NOTSAN void __tsan_write_range(void*p, size_t n){ plain(p,n,true); }
NOTSAN void __tsan_vptr_update(void**p, void*v){ if(*p!=v) plain(p,8,true); } NOTSAN void __tsan_vptr_read(void**p){ plain(p,8,false); }
NOTSAN void*__real_memcpy(void*,const void*,size_t); NOTSAN void*__real_memmove(void*,const void*,size_t); NOTSAN void*__real_memset(void*,int,size_t);
NOTSAN void*__wrap_memcpy(void*d, const void*s, size_t n){ if(n){ plain(s,n,false); plain(d,n,true); } return __real_memcpy(d,s,n); }
NOTSAN void*__wrap_memmove(void*d, const void*s, size_t n){ if(n){ plain(s,n,false); plain(d,n,true); } return __real_memmove(d,s,n); }
NOTSAN void*__wrap_memset(void*d, int c, size_t n){ if(n) plain(d,n,true); return __real_memset(d,c,n); }
#define AT(B,TY) \
	NOTSAN TY __tsan_atomic##B##_load(const volatile TY*p, int){ atomic_pre((const void*)p,sizeof(TY),false); return __atomic_load_n(p,__ATOMIC_SEQ_CST); } \
	NOTSAN void __tsan_atomic##B##_store(volatile TY*p, TY v, int){ atomic_pre((const void*)p,sizeof(TY),true); __atomic_store_n(p,v,__ATOMIC_SEQ_CST); } \
	NOTSAN TY __tsan_atomic##B##_exchange(volatile TY*p, TY v, int){ atomic_pre((const void*)p,sizeof(TY),true); return __atomic_exchange_n(p,v,__ATOMIC_SEQ_CST); } \
	NOTSAN TY __tsan_atomic##B##_fetch_add(volatile TY*p, TY v, int){ atomic_pre((const void*)p,sizeof(TY),true); return __atomic_fetch_add(p,v,__ATOMIC_SEQ_CST); } \
	NOTSAN TY __tsan_atomic##B##_fetch_sub(volatile TY*p, TY v, int){ atomic_pre((const void*)p,sizeof(TY),true); return __atomic_fetch_sub(p,v,__ATOMIC_SEQ_CST); } \
	NOTSAN TY __tsan_atomic##B##_fetch_and(volatile TY*p, TY v, int){ atomic_pre((const void*)p,sizeof(TY),true); return __atomic_fetch_and(p,v,__ATOMIC_SEQ_CST); } \
	NOTSAN TY __tsan_atomic##B##_fetch_or(volatile TY*p, TY v, int){ atomic_pre((const void*)p,sizeof(TY),true); return __atomic_fetch_or(p,v,__ATOMIC_SEQ_CST); } \
	NOTSAN TY __tsan_atomic##B##_fetch_xor(volatile TY*p, TY v, int){ atomic_pre((const void*)p,sizeof(TY),true); return __atomic_fetch_xor(p,v,__ATOMIC_SEQ_CST); } \
	NOTSAN TY __tsan_atomic##B##_fetch_nand(volatile TY*p, TY v, int){ atomic_pre((const void*)p,sizeof(TY),true); return __atomic_fetch_nand(p,v,__ATOMIC_SEQ_CST); } \
	NOTSAN int __tsan_atomic##B##_compare_exchange_strong(volatile TY*p, TY*e, TY v, int, int){ atomic_pre((const void*)p,sizeof(TY),true); return __atomic_compare_exchange_n(p,e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); } \
	NOTSAN int __tsan_atomic##B##_compare_exchange_weak(volatile TY*p, TY*e, TY v, int, int){ atomic_pre((const void*)p,sizeof(TY),true); return __atomic_compare_exchange_n(p,e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); } \
	NOTSAN TY __tsan_atomic##B##_compare_exchange_val(volatile TY*p, TY e, TY v, int, int){ atomic_pre((const void*)p,sizeof(TY),true); __atomic_compare_exchange_n(p,&e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); return e; }
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned a32; typedef unsigned long a64;
AT(8,a8) AT(16,a16) AT(32,a32) AT(64,a64)
NOTSAN void __tsan_atomic_thread_fence(int){} NOTSAN void __tsan_atomic_signal_fence(int){}

// ------------------------------------------------------------------ OpenMP
static const int default_threads=3;
NOTSAN int omp_get_thread_num(){ return active&&my_id>=0&&T[my_id].team?T[my_id].team_id:0; }
NOTSAN int omp_get_num_threads(){ return active&&my_id>=0&&T[my_id].team?T[my_id].team->n:1; }
NOTSAN int omp_get_max_threads(){ return default_threads; } NOTSAN int omp_get_num_procs(){ return default_threads; } NOTSAN int omp_in_parallel(){ return active&&my_id>=0&&T[my_id].team!=0; } NOTSAN void omp_set_num_threads(int){} NOTSAN double omp_get_wtime(){ return 0; } NOTSAN int omp_get_thread_limit(){ return MAXT; } NOTSAN int omp_get_level(){ return omp_in_parallel(); } NOTSAN void omp_set_dynamic(int){} NOTSAN int omp_get_dynamic(){ return 0; }
// team objects live at the same addresses in every execution
NOTSAN static Team*new_team(){ static Team*pool[64]; size_t k=0; while(k<S->teams.size()&&S->teams[k]->used) ++k; if(k>=64) die("internal: too many teams"); if(!pool[k]) pool[k]=new Team; *pool[k]=Team(); pool[k]->used=true; if(k==S->teams.size()) S->teams.push_back(pool[k]); return pool[k]; }
NOTSAN static void team_barrier(){
	VT&t=T[my_id]; Team*tm=t.team; if(!tm||tm->n==1) return;
	{ Busy b; join_vc(tm->bvc,t.vc); t.vc.c[my_id]++; ++tm->at_barrier;
	  if(tm->at_barrier==tm->n){ tm->at_barrier=0; ++tm->gen; tm->release=tm->bvc; memset(&tm->bvc,0,sizeof(VC)); 
		for(int i=0;i<nT;++i) if(T[i].team==tm){ join_vc(T[i].vc,tm->release); T[i].st=RUN; }
		for(auto it=tm->ws.begin();it!=tm->ws.end();) { bool used=false; for(int i=0;i<nT;++i) if(T[i].team==tm&&T[i].ws_index<=it->first) used=true; if(used) ++it; else it=tm->ws.erase(it); }
	  } else t.st=WAIT_BARRIER; }
	point();
}
NOTSAN void GOMP_barrier(){ if(on()) team_barrier(); }
NOTSAN bool GOMP_barrier_cancel(){ GOMP_barrier(); return false; }
NOTSAN static void*team_thread(void*p){ Team*tm=(Team*)p; tm->fn(tm->data); team_barrier(); T[my_id].team=0; return 0; }
NOTSAN void GOMP_parallel(void(*fn)(void*), void*data, unsigned n, unsigned){
	if(n==0) n=default_threads;
	if(!on()||n==1){ Team*old=my_id>=0?T[my_id].team:0; (void)old; if(my_id>=0&&active){ Team one; one.n=1; T[my_id].team=&one; int oi=T[my_id].team_id; unsigned ow=T[my_id].ws_index; T[my_id].team_id=0; T[my_id].ws_index=0; fn(data); T[my_id].team=old; T[my_id].team_id=oi; T[my_id].ws_index=ow; } else fn(data); return; }
	Team*tm; int oi; unsigned ow; Team*old;
	{ Busy b; old=T[my_id].team; oi=T[my_id].team_id; ow=T[my_id].ws_index; tm=new_team(); tm->n=n; tm->fn=fn; tm->data=data;
	  T[my_id].team=tm; T[my_id].team_id=0; T[my_id].ws_index=0;
	  for(unsigned i=1;i<n;++i){ int id=spawn(team_thread,tm); T[id].team=tm; T[id].team_id=i; tm->ids[i]=id; } }
	point();
	fn(data);
	team_barrier();
	{ Busy b; T[my_id].team=old; T[my_id].team_id=oi; T[my_id].ws_index=ow; }
	for(size_t i=0;i<n-1;++i){ int id=tm->ids[i+1]; T[my_id].st=WAIT_JOIN; T[my_id].what=(void*)(long)id; point(); Busy b; join_os(id); }
	{ Busy b; *tm=Team(); }
}
// work shares
NOTSAN static Ws&ws_cur(bool fresh){ VT&t=T[my_id]; if(fresh) ++t.ws_index; static Ws lone; if(!t.team) return lone; return t.team->ws[t.ws_index]; }
NOTSAN static bool ws_next(Ws&w, long*a, long*b){
	if(w.incr>0? w.next>=w.end : w.next<=w.end) return false;
	long c=S&&S->o.loop_chunk?(long)S->o.loop_chunk:w.chunk; if(c<1) c=1; long e=w.next+c*w.incr; if(w.incr>0? e>w.end : e<w.end) e=w.end; *a=w.next; *b=e; w.next=e; return true;
}
NOTSAN static bool loop_start(long s, long e, long inc, long chunk, long*a, long*b){
	if(!on()){ if(inc>0? s>=e : s<=e) return false; *a=s; *b=e; return true; }
	point(); Busy bz; Ws&w=ws_cur(true); if(!T[my_id].team){ *a=s; *b=e; return inc>0?s<e:s>e; }
	if(!w.init){ w.init=true; w.next=s; w.end=e; w.incr=inc; w.chunk=chunk; } return ws_next(w,a,b);
}
NOTSAN static bool loop_next(long*a, long*b){ if(!on()) return false; if(!T[my_id].team) return false; point(); Busy bz; return ws_next(ws_cur(false),a,b); }
#define LOOPK(K) \
	NOTSAN bool GOMP_loop_##K##_start(long s, long e, long i, long c, long*a, long*b){ return loop_start(s,e,i,c,a,b); } \
	NOTSAN bool GOMP_loop_##K##_next(long*a, long*b){ return loop_next(a,b); } \
	NOTSAN bool GOMP_loop_ull_##K##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long*a, unsigned long long*b){ return loop_start(s,e,i,c,(long*)a,(long*)b); } \
	NOTSAN bool GOMP_loop_ull_##K##_next(unsigned long long*a, unsigned long long*b){ return loop_next((long*)a,(long*)b); }
LOOPK(static) LOOPK(dynamic) LOOPK(guided) LOOPK(nonmonotonic_dynamic) LOOPK(nonmonotonic_guided) LOOPK(ordered_static) LOOPK(ordered_dynamic) LOOPK(ordered_guided)
#define LOOPR(K) \
	NOTSAN bool GOMP_loop_##K##_start(long s, long e, long i, long*a, long*b){ return loop_start(s,e,i,1,a,b); } \
	NOTSAN bool GOMP_loop_##K##_next(long*a, long*b){ return loop_next(a,b); } \
	NOTSAN bool GOMP_loop_ull_##K##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long*a, unsigned long long*b){ return loop_start(s,e,i,1,(long*)a,(long*)b); } \
	NOTSAN bool GOMP_loop_ull_##K##_next(unsigned long long*a, unsigned long long*b){ return loop_next((long*)a,(long*)b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
NOTSAN void GOMP_loop_end(){ GOMP_barrier(); } NOTSAN void GOMP_loop_end_nowait(){} NOTSAN bool GOMP_loop_end_cancel(){ GOMP_barrier(); return false; }
struct PL{ void(*fn)(void*); void*data; long s,e,i,c; };
NOTSAN static void pl_body(void*p){ PL*l=(PL*)p; // combined parallel loop: the outlined function calls *_next itself, the work share exists from the start
	if(on()){ Busy b; Ws&w=ws_cur(true); if(!w.init){ w.init=true; w.next=l->s; w.end=l->e; w.incr=l->i; w.chunk=l->c; } } l->fn(l->data); }
#define PLOOP(K) NOTSAN void GOMP_parallel_loop_##K(void(*fn)(void*), void*d, unsigned n, long s, long e, long i, long c, unsigned f){ PL l={fn,d,s,e,i,c}; GOMP_parallel(pl_body,&l,n,f); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(K) NOTSAN void GOMP_parallel_loop_##K(void(*fn)(void*), void*d, unsigned n, long s, long e, long i, unsigned f){ PL l={fn,d,s,e,i,1}; GOMP_parallel(pl_body,&l,n,f); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
NOTSAN bool GOMP_single_start(){ if(!on()||!T[my_id].team) return true; point(); Busy b; Ws&w=ws_cur(true); bool r=!w.single_taken; w.single_taken=true; return r; }
NOTSAN static void crit(void*m){ pthread_mutex_lock((pthread_mutex_t*)m); } NOTSAN static void uncrit(void*m){ pthread_mutex_unlock((pthread_mutex_t*)m); }
static char crit_default[64] __attribute__((aligned(16))), atomic_default[64] __attribute__((aligned(16)));
NOTSAN void GOMP_critical_start(){ if(on()) crit(crit_default); } NOTSAN void GOMP_critical_end(){ if(on()) uncrit(crit_default); }
NOTSAN void GOMP_critical_name_start(void**p){ if(on()) crit(p); } NOTSAN void GOMP_critical_name_end(void**p){ if(on()) uncrit(p); }
NOTSAN void GOMP_atomic_start(){ if(on()) crit(atomic_default); } NOTSAN void GOMP_atomic_end(){ if(on()) uncrit(atomic_default); }
NOTSAN void omp_init_lock(void*){} NOTSAN void omp_destroy_lock(void*){} NOTSAN void omp_set_lock(void*p){ if(on()) crit(p); } NOTSAN void omp_unset_lock(void*p){ if(on()) uncrit(p); }
NOTSAN unsigned GOMP_sections_start(unsigned n){ long a,b; if(!on()||!T[my_id].team) return 1; return loop_start(1,(long)n+1,1,1,&a,&b)?a:0; }
NOTSAN unsigned GOMP_sections_next(){ long a,b; return loop_next(&a,&b)?a:0; }
NOTSAN void GOMP_sections_end(){ GOMP_barrier(); } NOTSAN void GOMP_sections_end_nowait(){}
}
