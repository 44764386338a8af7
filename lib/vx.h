// vx: bounded exhaustive exploration runner.
//
// A suite is a finite space of cases 0..count-1 with a deterministic decoding index -> case.
// The runner visits every index exactly once (work is spread over forked workers), judges each case
// in the worker, survives crashes / hangs / sanitizer reports of the code under test, re-runs a
// failing index alone in a fresh process, and reports measured coverage.
#ifndef VX_H
#define VX_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <sys/prctl.h>
#include <sched.h>
#include <functional>
#include <atomic>
#include <algorithm>
#include <stdexcept>
#include <sstream>
#include <new>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>

namespace vx{

struct Failure{ std::string msg; };

inline std::string fmt(const char*f, ...){
	char buf[4096];
	va_list ap; va_start(ap, f);
	vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	return buf;
}

template<class T> inline std::string str(const T&x){ std::ostringstream o; o<<x; return o.str(); }
template<class T> inline std::string str(const std::vector<T>&v){
	std::ostringstream o; o<<"[";
	for(size_t i=0;i<v.size();++i){ if(i) o<<","; if(i>60){ o<<"...("<<v.size()<<")"; break; } o<<+v[i]; }
	o<<"]"; return o.str();
}
inline std::string str(const std::vector<std::string>&v){
	std::ostringstream o; o<<"[";
	for(size_t i=0;i<v.size();++i){ if(i) o<<","; o<<"'"<<v[i]<<"'"; }
	o<<"]"; return o.str();
}

struct Ctx{
	uint64_t states = 0;       // distinct (case, observation point) states judged
	uint64_t transitions = 0;  // API operations executed on the implementation
	uint64_t traces = 0;       // complete reference-model traces compared with the implementation
	bool truncated = false;    // the case was not explored to its end (reported as incomplete coverage, not as a failure)
	std::string note;          // prefix describing where in the case we are (for failure messages)
	[[noreturn]] void fail(const std::string&m){ throw Failure{note.empty()?m:(note+": "+m)}; }
	void expect(bool ok, const std::string&m){ ++states; if(!ok) fail(m); }
	template<class A, class B, class F> void eq(const A&got, const B&want, F&&what){
		++states;
		if(!(got == want)) fail(what()+": got "+str(got)+" want "+str(want));
	}
	template<class A, class B> void eqs(const A&got, const B&want, const char*what){
		++states;
		if(!(got == want)) fail(std::string(what)+": got "+str(got)+" want "+str(want));
	}
};

struct Suite{
	std::string name;
	std::string bounds;       // human readable statement of the enumerated space
	uint64_t count;
	std::function<void(uint64_t, Ctx&)> run;
	std::function<std::string(uint64_t)> describe;
	double case_timeout = 60;
	unsigned chunk = 0;
	unsigned max_workers = 64;
	bool pin = false;          // one core per worker (controlled scheduler: threads of a worker never run in parallel)
};

// mixed radix decoder
struct Dec{
	uint64_t v;
	explicit Dec(uint64_t v):v(v){}
	uint64_t get(uint64_t radix){ uint64_t r = v % radix; v /= radix; return r; }
};
inline uint64_t ipow(uint64_t b, unsigned e){ uint64_t r=1; while(e--) r*=b; return r; }
inline std::vector<unsigned> nth_permutation(unsigned n, uint64_t idx){
	std::vector<unsigned>pool(n), r;
	for(unsigned i=0;i<n;++i) pool[i]=i;
	for(unsigned i=n;i>0;--i){ unsigned k = idx % i; idx /= i; r.push_back(pool[k]); pool.erase(pool.begin()+k); }
	return r;
}
inline uint64_t factorial(unsigned n){ uint64_t r=1; for(unsigned i=2;i<=n;++i) r*=i; return r; }

// explicit recursion-free choice explorer: runs f(choose) for every sequence of choices.
// f calls ch(k) to obtain a value in 0..k-1; exploration is depth first and complete.
struct Choices{
	std::vector<unsigned> val, radix; size_t pos=0;
	unsigned operator()(unsigned k){
		if(k==0) abort();
		if(pos==val.size()){ val.push_back(0); radix.push_back(k); }
		return val[pos++];
	}
	bool next(){
		while(!val.empty()){
			if(++val.back() < radix.back()) return true;
			val.pop_back(); radix.pop_back();
		}
		return false;
	}
	void rewind(){ pos=0; }
};

struct Options{
	std::string tier="quick", cfg="fast", out, known, scratch, only;
	unsigned workers=8;
	double deadline=700;      // seconds for the whole harness run
	bool replay=false; std::string replay_suite; uint64_t replay_index=0;
	bool thorough()const{ return tier=="thorough"; }
	bool asan()const{ return cfg!="fast"; }
};
inline Options&opt(){ static Options o; return o; }

namespace impl{
	const unsigned max_slots = 40;
	struct Slot{ uint64_t index; char kind[16]; char msg[4000]; };
	struct WorkerState{
		std::atomic<uint64_t> cur, chunk_end; std::atomic<int> busy; std::atomic<double> since;
		std::atomic<uint64_t> cases, states, transitions, traces, truncated;
	};
	struct Shared{
		std::atomic<uint64_t> next; std::atomic<int> stop; std::atomic<uint64_t> slots_used; std::atomic<uint64_t> known_hits;
		std::atomic<uint64_t> known_by[64];
		Slot slot[max_slots];
		WorkerState w[64];
	};
	inline double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
	struct Known{ std::string suite; std::vector<std::string> subs; std::string id; };
	inline std::vector<Known>&known(){ static std::vector<Known> k; return k; }
	inline int known_match(const std::string&suite, const std::string&msg){
		for(size_t i=0;i<known().size();++i){
			auto&k=known()[i];
			if(k.suite!=suite && k.suite!="*") continue;
			bool ok=true;
			for(auto&s:k.subs) if(msg.find(s)==std::string::npos) ok=false;
			if(ok) return (int)i;
		}
		return -1;
	}
	inline std::string jesc(const std::string&s){
		std::string r;
		for(unsigned char c:s){
			if(c=='"') r+="\\\""; else if(c=='\\') r+="\\\\"; else if(c=='\n') r+="\\n"; else if(c=='\t') r+="\\t";
			else if(c<32||c>=127) r+=fmt("\\u%04x",c); else r+=c;
		}
		return r;
	}
	inline std::string run_case(const Suite&s, uint64_t i, Ctx&c){
		try{ s.run(i,c); return ""; }
		catch(Failure&f){ return f.msg.empty()?"failure":f.msg; }
		catch(std::exception&e){ return (c.note.empty()?std::string():c.note+": ")+"unexpected exception: "+e.what(); }
		catch(...){ return "unexpected exception of unknown type"; }
	}
	inline std::string tail_of(const std::string&file){
		std::string r; FILE*f=fopen(file.c_str(),"rb"); if(!f) return r;
		char b[6000]; size_t n=fread(b,1,sizeof b,f); fclose(f); r.assign(b,n);
		// keep the informative head of a sanitizer report
		size_t p=r.find("ERROR: AddressSanitizer"); if(p!=std::string::npos) r=r.substr(p);
		if(r.size()>1500) r.resize(1500);
		return r;
	}
	inline void limits(){
		if(!opt().asan()){
			rlimit l; l.rlim_cur=l.rlim_max=(rlim_t)5<<30; setrlimit(RLIMIT_AS,&l);
		}
		rlimit c; c.rlim_cur=c.rlim_max=0; setrlimit(RLIMIT_CORE,&c);
		rlimit fz; getrlimit(RLIMIT_FSIZE,&fz); if(fz.rlim_cur>(rlim_t)1<<30) fz.rlim_cur=(rlim_t)1<<30; setrlimit(RLIMIT_FSIZE,&fz);
	}
	// runs one case alone in a fresh child. returns "" if it passes
	inline std::string isolated(const Suite&s, uint64_t i, double timeout, bool&crashed){
		crashed=false;
		std::string ef=opt().scratch+"/iso.err", mf=opt().scratch+"/iso.msg";
		unlink(mf.c_str());
		pid_t p=fork();
		if(p==0){
			setpgid(0,0); prctl(PR_SET_PDEATHSIG,SIGKILL);
			limits();
			int fd=open(ef.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0644); dup2(fd,2); dup2(fd,1);
			Ctx c; std::string m=run_case(s,i,c);
			if(!m.empty()){ FILE*f=fopen(mf.c_str(),"wb"); fwrite(m.data(),1,m.size(),f); fclose(f); _exit(3); }
			_exit(0);
		}
		double t0=now(); int st;
		for(;;){
			pid_t r=waitpid(p,&st,WNOHANG);
			if(r==p) break;
			if(now()-t0>timeout){ kill(-p,SIGKILL); kill(p,SIGKILL); waitpid(p,&st,0); crashed=true; return fmt("does not terminate (no result after %.0f s in a process of its own)",timeout); }
			usleep(5000);
		}
		kill(-p,SIGKILL);
		if(WIFEXITED(st)&&WEXITSTATUS(st)==0) return "";
		if(WIFEXITED(st)&&WEXITSTATUS(st)==3) return tail_of(mf);
		crashed=true;
		if(WIFSIGNALED(st)) return fmt("crashed with signal %d (%s) ",WTERMSIG(st),strsignal(WTERMSIG(st)))+tail_of(ef);
		return fmt("process ended with status %d: ",WEXITSTATUS(st))+tail_of(ef);
	}
}

struct SuiteResult{ std::string name,bounds; uint64_t count,cases,states,transitions,traces; bool complete; double wall; std::string sample; };

inline int run_all(int argc, char**argv, const std::string&prop, const std::function<void(std::vector<Suite>&, const std::string&)>&make){
	using namespace impl;
	auto&o=opt();
	for(int i=1;i<argc;++i){
		std::string a=argv[i]; auto val=[&]{ return std::string(argv[++i]); };
		if(a=="--tier") o.tier=val(); else if(a=="--cfg") o.cfg=val(); else if(a=="--out") o.out=val();
		else if(a=="--known") o.known=val(); else if(a=="--scratch") o.scratch=val(); else if(a=="--only") o.only=val();
		else if(a=="--workers") o.workers=atoi(val().c_str()); else if(a=="--deadline") o.deadline=atof(val().c_str());
		else if(a=="--replay"){ o.replay=true; o.replay_suite=val(); o.replay_index=strtoull(val().c_str(),0,10); }
		else { fprintf(stderr,"unknown option %s\n",a.c_str()); return 2; }
	}
	signal(SIGPIPE,SIG_IGN);
	if(o.scratch.empty()){ fprintf(stderr,"--scratch required\n"); return 2; }
	if(!o.known.empty()){
		FILE*f=fopen(o.known.c_str(),"r"); char line[4096];
		if(f){ while(fgets(line,sizeof line,f)){
			std::string l=line; while(!l.empty()&&(l.back()=='\n')) l.pop_back();
			std::vector<std::string> p; size_t b=0; for(;;){ size_t e=l.find('\t',b); p.push_back(l.substr(b,e==std::string::npos?e:e-b)); if(e==std::string::npos) break; b=e+1; }
			if(p.size()>=3){ Known k; k.id=p[0]; k.suite=p[1]; for(size_t i=2;i<p.size();++i) k.subs.push_back(p[i]); known().push_back(k); }
		} fclose(f);} 
	}
	std::vector<Suite>suites; make(suites, prop); if(!o.thorough()) for(auto&s:suites) if(s.case_timeout>100&&s.case_timeout<=200) s.case_timeout=100; // the cases of the quick tier take seconds; a case that does not end has to be reported in time
	if(o.replay){
		for(auto&s:suites) if(s.name==o.replay_suite){
			printf("suite %s index %llu\n%s\n",s.name.c_str(),(unsigned long long)o.replay_index,s.describe?s.describe(o.replay_index).c_str():"");
			fflush(stdout);
			bool cr; std::string m=isolated(s,o.replay_index,s.case_timeout*2+60,cr);
			if(m.empty()){ printf("PASS\n"); return 0; }
			printf("FAIL: %s\n",m.c_str()); return 1;
		}
		printf("no such suite\n"); return 2;
	}
	double t_start=now();
	auto*sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
	std::vector<SuiteResult>results;
	struct Viol{ std::string suite; uint64_t index; std::string desc,msg; };
	std::vector<Viol>viols; std::vector<uint64_t>known_counts(known().size(),0);
	uint64_t respawns=0;
	for(size_t si=0; si<suites.size(); ++si){
		auto&s=suites[si];
		if(!o.only.empty() && s.name!=o.only) continue;
		if(!viols.empty()) break;
		double t0=now();
		if(t0-t_start>o.deadline){ results.push_back({s.name,s.bounds,s.count,0,0,0,0,false,0,""}); continue; }
		memset((void*)sh,0,sizeof(Shared));
		unsigned W=std::min<uint64_t>({o.workers,s.max_workers,std::max<uint64_t>(1,s.count)});
		uint64_t chunk=s.chunk?s.chunk:std::max<uint64_t>(1,std::min<uint64_t>(4096,s.count/(W*16)));
		std::vector<pid_t>pid(W,0);
		std::vector<uint64_t>resume(W,0),resume_end(W,0);
		auto spawn=[&](unsigned w){
			fflush(0);
			pid_t p=fork();
			if(p==0){
				setpgid(0,0); prctl(PR_SET_PDEATHSIG,SIGKILL);
				limits();
				if(s.pin){ cpu_set_t m,n; if(sched_getaffinity(0,sizeof m,&m)==0){ int k=w%CPU_COUNT(&m); for(int i=0;i<CPU_SETSIZE;++i) if(CPU_ISSET(i,&m)&&k--==0){ CPU_ZERO(&n); CPU_SET(i,&n); sched_setaffinity(0,sizeof n,&n); } } }
				int fd=open(fmt("%s/w%u.err",o.scratch.c_str(),w).c_str(),O_CREAT|O_TRUNC|O_WRONLY,0644); dup2(fd,2); dup2(fd,1);
				auto&ws=sh->w[w];
				uint64_t b=resume[w],e=resume_end[w];
				for(;;){
					for(;b<e;++b){
						if(sh->stop.load(std::memory_order_relaxed)) _exit(0);
						ws.cur=b; ws.since=now(); ws.busy=1;
						Ctx c; std::string m=run_case(s,b,c);
						ws.busy=0;
						ws.cases=ws.cases+1; ws.states=ws.states+c.states; ws.transitions=ws.transitions+c.transitions; ws.traces=ws.traces+c.traces; ws.truncated=ws.truncated+(c.truncated?1:0);
						if(!m.empty()){
							int k=known_match(s.name,m);
							if(k>=0 && k<64){ sh->known_by[k]++; }
							else{
								uint64_t n=sh->slots_used++;
								if(n<max_slots){ sh->slot[n].index=b; strcpy(sh->slot[n].kind,"fail"); strncpy(sh->slot[n].msg,m.c_str(),sizeof(sh->slot[n].msg)-1); }
								if(n+1>=3) sh->stop=1;
							}
						}
					}
					if(sh->stop) _exit(0);
					b=sh->next.fetch_add(chunk); if(b>=s.count) _exit(0);
					e=std::min(s.count,b+chunk); ws.chunk_end=e;
				}
			}
			pid[w]=p;
		};
		for(unsigned w=0;w<W;++w) spawn(w);
		unsigned alive=W; bool timed_out=false;
		while(alive){
			bool progress=false;
			for(unsigned w=0;w<W;++w) if(pid[w]){
				int st; pid_t r=waitpid(pid[w],&st,WNOHANG);
				bool dead=false, hang=false; std::string why;
				if(r==pid[w]){
					kill(-pid[w],SIGKILL);
					if(WIFEXITED(st)&&WEXITSTATUS(st)==0){ pid[w]=0; --alive; progress=true; continue; }
					dead=true;
					if(WIFSIGNALED(st)) why=fmt("crashed with signal %d (%s) ",WTERMSIG(st),strsignal(WTERMSIG(st))); else why=fmt("process ended with status %d: ",WEXITSTATUS(st));
					why+=tail_of(fmt("%s/w%u.err",o.scratch.c_str(),w));
				}else if(sh->w[w].busy && now()-sh->w[w].since>s.case_timeout){
					kill(-pid[w],SIGKILL); kill(pid[w],SIGKILL); waitpid(pid[w],&st,0); dead=hang=true; why="hang";
				}
				if(dead){
					progress=true;
					uint64_t idx=sh->w[w].cur; bool cr=false;
					std::string m=isolated(s,idx,s.case_timeout*2+30,cr);
					bool external = WIFSIGNALED(st)&&WTERMSIG(st)==SIGKILL; // memory pressure or our own hang kill
					if(m.empty() && !external) m="(only after earlier cases of the same worker) "+why;
					++respawns;
					if(!m.empty()){
						int k=known_match(s.name,m);
						if(k>=0&&k<64) sh->known_by[k]++;
						else{
							uint64_t n=sh->slots_used++;
							if(n<max_slots){ sh->slot[n].index=idx; strcpy(sh->slot[n].kind,"crash"); strncpy(sh->slot[n].msg,m.c_str(),sizeof(sh->slot[n].msg)-1); }
							sh->stop=1;
						}
					}else{ sh->w[w].cases=sh->w[w].cases+1; }
					resume[w]=idx+1; resume_end[w]=sh->w[w].chunk_end;
					if(sh->stop || respawns>2000){ pid[w]=0; --alive; }
					else spawn(w);
				}
			}
			if(!timed_out && now()-t_start>o.deadline){ timed_out=true; sh->stop=1; }
			if(timed_out && now()-t_start>o.deadline+s.case_timeout+5){
				for(unsigned w=0;w<W;++w) if(pid[w]){ int st; kill(-pid[w],SIGKILL); waitpid(pid[w],&st,0); pid[w]=0; --alive; }
			}
			if(!progress) usleep(2000);
		}
		uint64_t truncated=0; SuiteResult r{s.name,s.bounds,s.count,0,0,0,0,false,now()-t0,""};
		for(unsigned w=0;w<W;++w){ r.cases+=sh->w[w].cases; r.states+=sh->w[w].states; r.transitions+=sh->w[w].transitions; r.traces+=sh->w[w].traces; truncated+=sh->w[w].truncated; }
		for(size_t k=0;k<known().size()&&k<64;++k) known_counts[k]+=sh->known_by[k];
		uint64_t nv=std::min<uint64_t>(sh->slots_used,max_slots);
		std::vector<std::pair<uint64_t,std::string>>v;
		for(uint64_t i=0;i<nv;++i) v.push_back({sh->slot[i].index,sh->slot[i].msg});
		std::sort(v.begin(),v.end());
		for(auto&x:v) viols.push_back({s.name,x.first,s.describe?s.describe(x.first):"",x.second});
		r.complete = !timed_out && v.empty() && !truncated && (r.cases>=s.count);
		if(s.describe && s.count) r.sample=s.describe(s.count/2);
		if(r.sample.size()>600) r.sample.resize(600);
		results.push_back(r);
		fprintf(stderr,"[%s/%s] %-34s %10llu/%llu cases %12llu states %12llu transitions %6.1fs%s\n",prop.c_str(),o.cfg.c_str(),s.name.c_str(),(unsigned long long)r.cases,(unsigned long long)s.count,(unsigned long long)r.states,(unsigned long long)r.transitions,r.wall,v.empty()?(r.complete?"":" INCOMPLETE"):" VIOLATION");
	}
	if(!o.out.empty()){
		FILE*f=fopen(o.out.c_str(),"w"); if(!f) return 2;
		fprintf(f,"{\"property\":\"%s\",\"cfg\":\"%s\",\"suites\":[",prop.c_str(),o.cfg.c_str());
		for(size_t i=0;i<results.size();++i){ auto&r=results[i];
			fprintf(f,"%s\n{\"name\":\"%s\",\"bounds\":\"%s\",\"space\":%llu,\"cases\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"complete\":%s,\"wall_s\":%.3f,\"sample\":\"%s\"}",i?",":"",jesc(r.name).c_str(),jesc(r.bounds).c_str(),(unsigned long long)r.count,(unsigned long long)r.cases,(unsigned long long)r.states,(unsigned long long)r.transitions,(unsigned long long)r.traces,r.complete?"true":"false",r.wall,jesc(r.sample).c_str());
		}
		fprintf(f,"],\"violations\":[");
		for(size_t i=0;i<viols.size();++i){ auto&v=viols[i];
			fprintf(f,"%s\n{\"suite\":\"%s\",\"index\":%llu,\"case\":\"%s\",\"message\":\"%s\"}",i?",":"",jesc(v.suite).c_str(),(unsigned long long)v.index,jesc(v.desc).c_str(),jesc(v.msg).c_str());
		}
		fprintf(f,"],\"known\":[");
		bool first=true;
		for(size_t i=0;i<known().size();++i) if(known_counts[i]){ fprintf(f,"%s{\"id\":\"%s\",\"hits\":%llu}",first?"":",",jesc(known()[i].id).c_str(),(unsigned long long)known_counts[i]); first=false; }
		fprintf(f,"]}\n"); fclose(f);
	}
	for(auto&v:viols) fprintf(stderr,"  violation %s[%llu] %s\n    %s\n",v.suite.c_str(),(unsigned long long)v.index,v.desc.c_str(),v.msg.c_str());
	return viols.empty()?0:1;
}

} // namespace vx
#endif
