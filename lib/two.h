// Two query objects used alternately in one thread: every interleaving of their steps.
#ifndef TWO_H
#define TWO_H
#include "vx.h"
#include "graphs.h"
#include <memory>
#include <cstring>
namespace two{
// one object: kind 0 plain, 1 one-to-many, 2 many-to-one; six steps: begin, run, check, begin again, run, check
template<class Q> struct Side{
	Q q; const G&g; const std::vector<unsigned>&w; const Dist&D; unsigned kind; unsigned at=0; std::vector<unsigned>pins;
	Side(Q q, const G&g, const std::vector<unsigned>&w, const Dist&D, unsigned kind):q(std::move(q)),g(g),w(w),D(D),kind(kind){ for(unsigned i=g.n;i-->0;) pins.push_back(i); pins.push_back(g.n/2); }
	template<class C> void step(C&c, const std::string&who){
		unsigned n=g.n, round=at/3; Eps E=round? Eps{{n-1,0}} : Eps{{0,0},{n/2,1}}; Eps F={{round?0:n-1,2}};
		switch(at%3){
			case 0:
				if(kind==0){ if(round) q.reset(); for(auto&e:E) q.add_source(e.node,e.off); for(auto&f:F) q.add_target(f.node,f.off); }
				else if(kind==1){ if(round) q.reset_source(); else q.pin_targets(pins); for(auto&e:E) q.add_source(e.node,e.off); }
				else{ if(round) q.reset_target(); else q.pin_sources(pins); for(auto&e:E) q.add_target(e.node,e.off); }
				break;
			case 1: if(kind==0) q.run(); else if(kind==1) q.run_to_pinned_targets(); else q.run_to_pinned_sources(); break;
			case 2:
				++c.traces;
				if(kind==0){ unsigned want=ref_dist(D,E,F); c.eqs(q.get_distance(),want,(who+": distance").c_str()); check_path(c,g,w,E,F,want,q.get_used_source(),q.get_used_target(),q.get_node_path(),q.get_arc_path()); }
				else{ auto d= kind==1?q.get_distances_to_targets():q.get_distances_to_sources(); if(d.size()!=pins.size()) c.fail(who+": wrong number of distances");
					for(unsigned i=0;i<pins.size();++i) c.eqs(d[i],kind==1?ref_dist(D,E,{{pins[i],0}}):ref_dist(D,{{pins[i],0}},E),(who+": pinned distance").c_str()); }
		}
		++at; ++c.transitions;
	}
};
inline std::vector<unsigned> interleavings(){ std::vector<unsigned>r; for(unsigned m=0;m<4096;++m) if(__builtin_popcount(m)==6) r.push_back(m); return r; }
inline std::string describe(unsigned ka, unsigned kb, unsigned mask){ static const char*k[]={"plain","one-to-many","many-to-one"}; std::string s=std::string("a: ")+k[ka]+", b: "+k[kb]+", steps "; for(unsigned i=0;i<12;++i) s+=(mask>>i&1)?'b':'a'; return s; }
template<class C, class Q> void run(C&c, Side<Q>&a, Side<Q>&b, unsigned mask){ for(unsigned i=0;i<12;++i) if(mask>>i&1) b.step(c,"second object"); else a.step(c,"first object"); }
// One object from its creation on: start 0 attached by the constructor, 1 default constructed in unused memory, 2 default constructed where a
// used object of the same hierarchy was destroyed, 3 the same with another hierarchy; after `when` steps it is (how) 0 copied, 1 moved,
// 2 copied onto a used object, 3 moved onto a used object, 4 swapped with a used object. Copy and original are then both used to the end.
struct Life{ unsigned start, kind, when, how, h, other; };
enum{ STARTS=4, HOWS=5, WHENS=7 };
inline std::string describe(const Life&l){ static const char*k[]={"plain","one-to-many","many-to-one"}; static const char*st[]={"constructed with its hierarchy","default constructed in unused memory","default constructed in the memory of a destroyed object of the same hierarchy","default constructed in the memory of a destroyed object of another hierarchy"}; static const char*h[]={"copied","moved","copied onto a used object","moved onto a used object","swapped with a used object"};
	return std::string(k[l.kind])+" query object "+st[l.start]+", "+h[l.how]+" after "+std::to_string(l.when)+" steps, hierarchies "+std::to_string(l.h)+" and "+std::to_string(l.other); }
// target(i): the hierarchy or metric number i; world(i,&g,&w,&D)
template<class Q, class C, class Target, class World> void live(C&c, const Life&l, Target target, World world){
	const G*g; const std::vector<unsigned>*w; const Dist*D; world(l.h,&g,&w,&D); const G*g2; const std::vector<unsigned>*w2; const Dist*D2; world(l.other,&g2,&w2,&D2);
	auto used=[&](unsigned i, Q&q){ const G*g; const std::vector<unsigned>*w; const Dist*D; world(i,&g,&w,&D); Side<Q>s(std::move(q),*g,*w,*D,(l.kind+1)%3); for(unsigned j=0;j<4;++j) s.step(c,"the other object"); q=std::move(s.q); };
	auto mem=std::unique_ptr<unsigned char[]>(new unsigned char[sizeof(Q)+64]); memset(mem.get(),0,sizeof(Q)+64); void*p=mem.get(); size_t room=sizeof(Q)+64; p=std::align(alignof(Q),sizeof(Q),p,room);
	Q*q;
	if(l.start==0) q=new(p)Q(target(l.h));
	else{ if(l.start>=2){ Q*o=new(p)Q(target(l.start==2?l.h:l.other)); Q tmp(*o); used(l.start==2?l.h:l.other,tmp); *o=tmp; asm volatile(""::"r"(p):"memory"); o->~Q(); asm volatile(""::"r"(p):"memory"); }
		q=new(p)Q(); q->reset(target(l.h)); }
	struct End{ Q*q; ~End(){ q->~Q(); } } end{q};
	Side<Q>a(Q(*q),*g,*w,*D,l.kind); // steps work on a.q; *q only served to attach it
	a.q=std::move(*q);
	for(unsigned i=0;i<l.when;++i) a.step(c,"the object");
	auto finish=[&](Side<Q>&s, const char*who){ while(s.at<6) s.step(c,who); };
	if(l.how==0){ Side<Q>b(Q(a.q),*g,*w,*D,l.kind); b.at=a.at; finish(b,"the copy"); finish(a,"the original"); }
	else if(l.how==1){ Side<Q>b(std::move(a.q),*g,*w,*D,l.kind); b.at=a.at; finish(b,"the moved object"); }
	else{ Q o(target(l.other)); used(l.other,o); Side<Q>b(std::move(o),*g,*w,*D,l.kind); b.at=a.at;
		if(l.how==2){ b.q=a.q; finish(a,"the original"); finish(b,"the assigned copy"); }
		else if(l.how==3){ b.q=std::move(a.q); finish(b,"the moved object"); }
		else{ std::swap(a.q,b.q); finish(b,"the swapped object"); a.q.reset(); Side<Q>e(std::move(a.q),*g2,*w2,*D2,l.kind); finish(e,"the other swapped object"); } }
}
// a hierarchy that is copied, moved, assigned or swapped; sources of copies are gone before the result is used
enum{ TRANSFERS=8 };
inline const char*transfer_name(unsigned how){ static const char*h[]={"copied, original destroyed","copied onto another, original destroyed","moved","moved onto another","swapped with another","in a growing vector","copied, both used","assigned to itself"}; return h[how]; }
template<class H, class Use> void transfer(unsigned how, H made, H other, Use use){
	std::unique_ptr<H>a(new H(std::move(made)));
	switch(how){
		case 0:{ H b(*a); a.reset(); use(b); break; }
		case 1:{ H b(std::move(other)); b=*a; a.reset(); use(b); break; }
		case 2:{ H b(std::move(*a)); a.reset(); use(b); break; }
		case 3:{ H b(std::move(other)); b=std::move(*a); a.reset(); use(b); break; }
		case 4:{ H b(std::move(other)); std::swap(*a,b); a.reset(); use(b); break; }
		case 5:{ std::vector<H>v; for(unsigned i=0;i<5;++i){ if(i%2) v.push_back(*a); else v.emplace_back(H(*a)); } a.reset(); for(auto&x:v) use(x); v.erase(v.begin()+1); use(v[1]); break; }
		case 6:{ H b(*a); use(*a); use(b); use(*a); break; }
		case 7:{ const H&self=*a; *a=self; use(*a); break; }
	}
}
}
#endif
