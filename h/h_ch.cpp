// C01 distances, C02 paths, C03 query histories, C04 pinned queries, C05 extra weights, C06 storage, C35 error check
#include "vx.h"
#include "graphs.h"
#include "two.h"
#include <routingkit/contraction_hierarchy.h>
#include <fstream>
#include <sstream>
using namespace RoutingKit;
using vx::Ctx; using vx::Suite; using vx::fmt; using vx::str;

namespace{

// build kind: 0 build(), 1 given order, 2 given rank
ContractionHierarchy build(const G&g, unsigned kind, const std::vector<unsigned>&order, unsigned max_pop){
	std::function<void(std::string)>log; unsigned mix=g.n+g.m(); for(unsigned a=0;a<g.m();++a) mix+=g.w[a]^g.tail[a]; if(mix%4==0) log=[](std::string){}; // logging changes nothing
	if(kind==0) return ContractionHierarchy::build(g.n,g.tail,g.head,g.w,log,max_pop);
	if(kind==1) return ContractionHierarchy::build_given_order(order,g.tail,g.head,g.w,log,max_pop);
	return ContractionHierarchy::build_given_rank(invert(order),g.tail,g.head,g.w,log,max_pop);
}
std::string bstr(unsigned kind, const std::vector<unsigned>&o, unsigned mp){ return (kind==0?std::string("build()"):(kind==1?"order":"rank")+str(o))+fmt(" max_pop=%u",mp); }

enum Mode{ DIST=1, PATH=2 };

void query(Ctx&c, const G&g, const Dist&D, ContractionHierarchyQuery&q, const Eps&S, const Eps&T, unsigned mode){
	q.reset();
	for(auto&s:S) q.add_source(s.node,s.off);
	for(auto&t:T) q.add_target(t.node,t.off);
	q.run();
	c.transitions+=2+S.size()+T.size();
	unsigned want=ref_dist(D,S,T), got=q.get_distance();
	c.eq(got,want,[&]{ return "distance "+str(S)+"->"+str(T); });
	if(mode&PATH) check_path(c,g,g.w,S,T,want,q.get_used_source(),q.get_used_target(),q.get_node_path(),q.get_arc_path());
	++c.traces;
}
void all_pairs_queries(Ctx&c, const G&g, const Dist&D, const ContractionHierarchy&ch, unsigned mode){
	ContractionHierarchyQuery q(ch);
	for(unsigned s=0;s<g.n;++s) for(unsigned t=0;t<g.n;++t) query(c,g,D,q,{{s,0}},{{t,0}},mode);
}
void multi_queries(Ctx&c, const G&g, const Dist&D, const ContractionHierarchy&ch, unsigned mode){
	ContractionHierarchyQuery q(ch);
	if(g.n<2) return;
	for(unsigned a=0;a<g.n;++a){
		unsigned b=(a+1)%g.n;
		for(unsigned t=0;t<g.n;++t){
			query(c,g,D,q,{{a,0},{b,1}},{{t,2}},mode);
			query(c,g,D,q,{{t,3}},{{a,1},{b,0}},mode);
			query(c,g,D,q,{{a,2},{a,1},{b,4}},{{t,0},{b,5},{t,2}},mode);
		}
	}
}
void build_and_check(Ctx&c, const G&g, unsigned kind, const std::vector<unsigned>&o, unsigned mp, unsigned mode, bool multi){
	auto D=all_pairs(g);
	auto ch=build(g,kind,o,mp); c.transitions++;
	c.note=bstr(kind,o,mp);
	if(kind==1||kind==2) if(ch.node_count()!=g.n) c.fail("node count");
	all_pairs_queries(c,g,D,ch,mode);
	if(multi) multi_queries(c,g,D,ch,mode);
}

template<class Space>
Suite space_suite(const std::string&name, const std::string&bounds, Space sp, unsigned mode, std::vector<unsigned>pops, bool multi, unsigned orders=2, bool with_build=true){
	Suite s; s.name=name; s.bounds=bounds; s.count=sp.count();
	s.describe=[sp](uint64_t i){ return ::str(sp.at(i)); };
	s.run=[=](uint64_t i, Ctx&c){
		G g=sp.at(i);
		for(unsigned mp:pops){
			if(with_build) build_and_check(c,g,0,{},mp,mode,multi);
			for(unsigned o=0;o<orders;++o) build_and_check(c,g,1+o%2,order_pattern(o,g.n),mp,mode,multi);
		}
	};
	return s;
}

void exact_suites(std::vector<Suite>&v, unsigned mode){
	bool T=vx::opt().thorough(), A=vx::opt().asan();
	const unsigned D500=500;
	// tiny graphs first (simplest counterexamples)
	v.push_back(space_suite("n2_loops","all graphs on 2 nodes incl. loops, weights {0,1,5,inf}",SlotSpace(2,true,{0,1,5,INF}),mode,{D500,0},true));
	v.push_back(space_suite("n3_w012","all loop free graphs on 3 nodes, weights {0,1,3}; build(), order, rank",SlotSpace(3,false,{0,1,3}),mode,{0,1,D500},true));
	v.push_back(space_suite("n3_big","3 nodes, weights {1,2^30,inf-1,inf}",SlotSpace(3,false,{1,1u<<30,INF-1,INF}),mode,{D500,0},true));
	if(!A){
		v.push_back(space_suite("n3_loops","all graphs on 3 nodes incl. loops, weights {0,1,3}",SlotSpace(3,true,{0,1,3}),mode,{D500},false,1));
		v.push_back(space_suite("n4_w12","all loop free graphs on 4 nodes, weights {1,2}",SlotSpace(4,false,{1,2}),mode,{D500},false));
		v.push_back(space_suite("n4_w01","all loop free graphs on 4 nodes, weights {0,1}; no witness search",SlotSpace(4,false,{0,1}),mode,{0},false));
		v.push_back(space_suite("n4_sets_big","4 nodes, all sets of 4 arcs, weights {2,2^30,inf-1,inf}",SubsetSpace(4,4,{2,1u<<30,INF-1,INF}),mode,{D500},false));
		v.push_back(space_suite("n5_m5","5 nodes, all sets of 5 arcs, weights {1,2}",SubsetSpace(5,5,{1,2}),mode,{D500},false));
		v.push_back(space_suite("n3_list4","3 nodes, all ordered lists of 4 arcs (parallel arcs), weights {1,2,3}",ListSpace(3,4,false,{1,2,3}),mode,{D500},false));
		v.push_back(space_suite("n4_list4","4 nodes, all ordered lists of 4 arcs (parallel arcs), weights {1,2}",ListSpace(4,4,false,{1,2}),mode,{D500},false,1));
	}else{
		v.push_back(space_suite("n3_list3","3 nodes, all ordered lists of 3 arcs with loops, weights {1,2}",ListSpace(3,3,true,{1,2}),mode,{D500},false));
		v.push_back(space_suite("n4_w1","all loop free graphs on 4 nodes, weight 1",SlotSpace(4,false,{1}),mode,{D500,1},true));
	}
	if(T&&!A){
		v.push_back(space_suite("n4_w013","all loop free graphs on 4 nodes, weights {0,1,3}",SlotSpace(4,false,{0,1,3}),mode,{D500},false,1));
		v.push_back(space_suite("n5_m6","5 nodes, all sets of 6 arcs, weights {1,2}",SubsetSpace(5,6,{1,2}),mode,{D500},false,1));
		v.push_back(space_suite("n5_m6_w123","5 nodes, all sets of 5 arcs, weights {0,1,3}",SubsetSpace(5,5,{0,1,3}),mode,{1},false,1));
		v.push_back(space_suite("n6_m6","6 nodes, all sets of 6 arcs, weight 1",SubsetSpace(6,6,{1}),mode,{D500},false,1));
	}
	// every contraction order of every undirected graph on 5 nodes
	{
		unsigned n=A?4:5; unsigned E=n*(n-1)/2; uint64_t F=vx::factorial(n);
		Suite s; s.name="all_orders"; s.bounds=fmt("all %u-node undirected graphs x all %llu contraction orders x 3 weight patterns",n,(u64)F);
		s.count=(1ull<<E)*F*3;
		auto dec=[=](uint64_t i, G&g, std::vector<unsigned>&o){
			vx::Dec d(i); unsigned wp=d.get(3); o=vx::nth_permutation(n,d.get(F)); unsigned mask=d.v; g.n=n; unsigned k=0; uint64_t s=mask+1;
			for(unsigned a=0;a<n;++a) for(unsigned b=a+1;b<n;++b,++k) if(mask>>k&1){ auto W=[&]{ return wp==0?1u:wp==1?lcg(s)%3:1+(k*7+a)%4; }; g.add(a,b,W()); g.add(b,a,W()); }
		};
		s.describe=[=](uint64_t i){ G g; std::vector<unsigned>o; dec(i,g,o); return ::str(g)+" order="+str(o); };
		s.run=[=](uint64_t i, Ctx&c){ G g; std::vector<unsigned>o; dec(i,g,o); build_and_check(c,g,1+(i&1),o,i%5==0?0:500,mode,false); };
		v.push_back(s);
	}
	// source / target sets
	{
		SlotSpace sp(3,false,{1,2}); 
		Suite s; s.name="endpoint_sets"; s.bounds="3 nodes, weights {1,2}: all source sets x all target sets with offsets {0,1,3}";
		s.count=sp.count(); s.describe=[=](uint64_t i){ return ::str(sp.at(i)); };
		s.run=[=](uint64_t i, Ctx&c){
			G g=sp.at(i); auto D=floyd(g); auto ch=build(g,i%3,order_pattern(i%2,3),500); ContractionHierarchyQuery q(ch);
			for(unsigned a=1;a<64;++a) for(unsigned b=1;b<64;++b){ Eps S,T; static const unsigned off[]={0,0,1,3};
				for(unsigned x=0;x<3;++x){ if(a>>(2*x)&3) S.push_back({x,off[a>>(2*x)&3]}); if(b>>(2*x)&3) T.push_back({2-x,off[b>>(2*x)&3]}); }
				if(S.empty()||T.empty()) continue; query(c,g,D,q,S,T,mode); }
		};
		v.push_back(s);
	}
	{
		SlotSpace sp(3,false,{1}); unsigned len=T&&!A?3:2;
		Suite s; s.name="endpoint_sequences"; s.bounds=fmt("every digraph on 3 nodes, weight 1: all sequences of up to %u sources x all sequences of up to 2 targets, offsets {0,1,3}, repeated nodes included",len);
		s.count=sp.count(); s.describe=[=](uint64_t i){ return ::str(sp.at(i)); };
		s.run=[=](uint64_t i, Ctx&c){ G g=sp.at(i); auto D=floyd(g); auto ch=build(g,i%3,order_pattern(i%2,3),500); ContractionHierarchyQuery q(ch); auto A1=endpoint_sequences(3,len,{0,1,3}),B1=endpoint_sequences(3,2,{3,1,0}); for(auto&S:A1) for(auto&T:B1) query(c,g,D,q,S,T,mode); };
		v.push_back(s);
	}
	// families
	{
		std::vector<unsigned>sizes={0,1,2,3,5,7,8,9,12,16,17,25,33,40}; if(!A){ for(unsigned x:{63,64,65,100,129,257,513,700}) sizes.push_back(x); } if(T&&!A) for(unsigned x=41;x<=72;++x) sizes.push_back(x);
		std::vector<unsigned>pops={500,0,1,2,5,50};
		struct K{ unsigned f,n,pat,kind,mp; };
		auto ks=std::make_shared<std::vector<K>>();
		for(unsigned n:sizes) for(unsigned f=0;f<F_COUNT;++f) for(unsigned p=0;p<PATTERNS;++p) for(unsigned k=0;k<=ORDERS;++k) for(unsigned mp:pops){
			bool dense=(f==F_COMPLETE||f==F_LCG_DENSE);
			if(n>40 && (dense|| (k!=0 && k!=4 && k!=3) || mp!=500)) continue;
			if(n>65 && (f==F_GRID||f==F_LCG_SPARSE||f==F_CLIQUES||f==F_STAR) && k!=0) continue;
			if(n>129 && (p==1||p==4||f==F_LCG_SPARSE)) continue;
			if(A && (n>17 && mp!=500)) continue;
			if(dense && n>25 && (A||mp<50)) continue;
			if(!T && n>9 && n<=40 && mp!=500 && mp!=1 && p!=2) continue;
			ks->push_back({f,n,p,k,mp});
		}
		Suite s; s.name="families"; s.bounds="13 graph families x sizes 0..700 x 6 weight patterns x build()/5 order patterns x witness limits {0,1,2,5,50,500}; all pairs (n<=72) or 3 sources x all targets";
		s.count=ks->size();
		s.describe=[=](uint64_t i){ auto&k=(*ks)[i]; return fmt("%s n=%u pattern=%u order=%d max_pop=%u",family_name(k.f),k.n,k.pat,(int)k.kind-1,k.mp); };
		s.run=[=](uint64_t i, Ctx&c){
			auto&k=(*ks)[i]; G g=family(k.f,k.n,k.pat);
			auto o=k.kind?order_pattern(k.kind-1,g.n):std::vector<unsigned>();
			if(g.n<=72){ build_and_check(c,g,k.kind==0?0:1+(i&1),o,k.mp,mode,g.n<=12); return; }
			auto ch=build(g,k.kind==0?0:1,o,k.mp); ContractionHierarchyQuery q(ch);
			for(unsigned s0:{0u,g.n/2,g.n-1}){ auto d=sssp(g,g.w,s0); 
				for(unsigned t=0;t<g.n;++t){ q.reset().add_source(s0).add_target(t).run(); c.transitions+=4; ++c.traces; unsigned want=cap(d[t]); c.eq(q.get_distance(),want,[&]{ return fmt("distance %u->%u",s0,t); });
					if(mode&PATH) check_path(c,g,g.w,{{s0,0}},{{t,0}},want,q.get_used_source(),q.get_used_target(),q.get_node_path(),q.get_arc_path()); } }
		};
		s.chunk=8; s.case_timeout=120;
		v.push_back(s);
	}
}

// ---------------------------------------------------------------- C03 histories
struct World{ std::vector<G>g; std::vector<Dist>D; std::vector<ContractionHierarchy>ch; };
std::shared_ptr<World> make_world(unsigned k){
	auto w=std::make_shared<World>();
	auto add=[&](G g, unsigned kind, std::vector<unsigned>o){ w->ch.push_back(build(g,kind,o,500)); w->D.push_back(floyd(g)); w->g.push_back(g); };
	G a; a.n=3; a.add(0,1,1); a.add(1,2,1); a.add(0,2,3); a.add(2,0,4);
	G b; b.n=3; b.add(0,1,2); b.add(1,0,2); b.add(2,1,1); b.add(0,0,0);
	G c; c.n=4; c.add(0,1,1); c.add(1,2,1); c.add(2,3,1); c.add(3,0,1); c.add(0,2,1); c.add(3,1,0);
	G d; d.n=4; d.add(3,2,5); d.add(2,1,1); d.add(1,0,1); d.add(3,0,9); d.add(0,3,2); d.add(1,3,0);
	G e; e.n=1;
	switch(k){
		case 0: add(a,1,{0,1,2}); add(b,1,{1,0,2}); add(c,0,{}); break;
		case 1: add(c,1,{1,2,0,3}); add(d,1,{0,2,3,1}); add(a,0,{}); break;
		case 2: add(d,1,{2,1,0,3}); add(c,1,{3,0,1,2}); add(e,0,{}); break;
		default: add(a,1,{1,2,0}); add(b,0,{}); add(e,0,{}); break;
	}
	return w;
}
// model state of the query object
struct QM{
	unsigned ch=0; int st=0; // 0 init 1 run 2 target pinned 3 target run 4 source pinned 5 source run
	Eps S,T; std::vector<unsigned>pins;
};
struct HistDriver{
	std::shared_ptr<World>w; Ctx&c; std::string trace; bool paths;
	typedef std::function<void(ContractionHierarchyQuery&,QM&,HistDriver&)> OpF;
	struct Op{ std::string name; OpF f; };
	std::vector<Op> legal(const QM&m)const{
		std::vector<Op>r; unsigned n=w->g[m.ch].n;
		auto pin_lists=[&]{ std::vector<std::vector<unsigned>>l; l.push_back({0}); l.push_back({n-1,0}); l.push_back({n/2,n/2,0}); return l; };
		auto add=[&](std::string s, OpF f){ r.push_back({s,f}); };
		if((m.st==0||m.st==2)&&m.S.size()<2){ for(unsigned x:{0u,n-1}){ if(n==1&&x) continue; unsigned off=m.S.empty()?0:1; add(fmt("add_source(%u,%u)",x,off),[x,off](ContractionHierarchyQuery&q,QM&m,HistDriver&){ q.add_source(x,off); m.S.push_back({x,off}); }); } }
		if((m.st==0||m.st==4)&&m.T.size()<2){ for(unsigned x:{0u,n/2}){ unsigned off=m.T.empty()?0:2; add(fmt("add_target(%u,%u)",x,off),[x,off](ContractionHierarchyQuery&q,QM&m,HistDriver&){ q.add_target(x,off); m.T.push_back({x,off}); }); if(n==1) break; } }
		if(m.st==0&&!m.S.empty()&&!m.T.empty()) add("run",[](ContractionHierarchyQuery&q,QM&m,HistDriver&h){ q.run(); m.st=1; h.check(q,m); });
		if(m.st==2&&!m.S.empty()) add("run_to_pinned_targets",[](ContractionHierarchyQuery&q,QM&m,HistDriver&h){ q.run_to_pinned_targets(); m.st=3; h.check(q,m); });
		if(m.st==4&&!m.T.empty()) add("run_to_pinned_sources",[](ContractionHierarchyQuery&q,QM&m,HistDriver&h){ q.run_to_pinned_sources(); m.st=5; h.check(q,m); });
		if(m.st==0&&m.S.empty()&&m.T.empty()) for(auto l:pin_lists()){
			add("pin_targets"+str(l),[l](ContractionHierarchyQuery&q,QM&m,HistDriver&){ q.pin_targets(l); m.pins=l; m.st=2; });
			add("pin_sources"+str(l),[l](ContractionHierarchyQuery&q,QM&m,HistDriver&){ q.pin_sources(l); m.pins=l; m.st=4; });
		}
		if(m.st==2||m.st==3) add("reset_source",[](ContractionHierarchyQuery&q,QM&m,HistDriver&){ q.reset_source(); m.S.clear(); m.st=2; });
		if(m.st==4||m.st==5) add("reset_target",[](ContractionHierarchyQuery&q,QM&m,HistDriver&){ q.reset_target(); m.T.clear(); m.st=4; });
		if(!(m.st==0&&m.S.empty()&&m.T.empty())) add("reset",[](ContractionHierarchyQuery&q,QM&m,HistDriver&){ q.reset(); m.S.clear(); m.T.clear(); m.st=0; });
		for(unsigned k=0;k<w->ch.size();++k) if(k!=m.ch||m.st!=0) add(fmt("reset(ch%u)",k),[k](ContractionHierarchyQuery&q,QM&m,HistDriver&h){ q.reset(h.w->ch[k]); m=QM(); m.ch=k; });
		return r;
	}
	void check(ContractionHierarchyQuery&q, const QM&m){
		auto&g=w->g[m.ch]; auto&D=w->D[m.ch]; c.note=trace; ++c.traces;
		if(m.st==1){
			unsigned want=ref_dist(D,m.S,m.T); c.eqs(q.get_distance(),want,"distance");
			check_path(c,g,g.w,m.S,m.T,want,q.get_used_source(),q.get_used_target(),q.get_node_path(),q.get_arc_path());
		}else if(m.st==3||m.st==5){
			bool tg=m.st==3; auto d=tg?q.get_distances_to_targets():q.get_distances_to_sources(); auto u=tg?q.get_used_sources_to_targets():q.get_used_targets_to_sources();
			if(d.size()!=m.pins.size()||u.size()!=m.pins.size()) c.fail("wrong number of distances");
			for(unsigned i=0;i<m.pins.size();++i){
				Eps P={{m.pins[i],0}}; const Eps&E=tg?m.S:m.T; unsigned want=tg?ref_dist(D,E,P):ref_dist(D,P,E);
				c.eqs(d[i],want,"pinned distance");
				if(want==INF){ if(u[i]!=invalid_id) c.fail("used endpoint should be invalid"); }
				else{ bool ok=false; for(auto&e:E) if(e.node==u[i]){ u64 x=tg?D(e.node,m.pins[i]):D(m.pins[i],e.node); if(x<INF64&&x+e.off==want) ok=true; } if(!ok) c.fail(fmt("used endpoint %u of pinned node %u does not attain distance %u",u[i],m.pins[i],want)); }
			}
		}
	}
	void dfs(const ContractionHierarchyQuery&q0, const QM&m0, unsigned depth){
		if(depth==0) return;
		auto ops=legal(m0); std::string t0=trace;
		for(auto&o:ops){
			ContractionHierarchyQuery q(q0); QM m(m0); trace=t0+" "+o.name; c.note=trace; c.transitions++;
			o.f(q,m,*this);
			dfs(q,m,depth-1);
		}
		trace=t0;
	}
};
void history_suites(std::vector<Suite>&v){
	bool T=vx::opt().thorough(), A=vx::opt().asan();
	unsigned depth=A?6:(T?9:7);
	std::vector<std::shared_ptr<World>>ws; for(unsigned k=0;k<4;++k) ws.push_back(make_world(k));
	// prefix choices: world, initial ch, then two ops
	{
		const unsigned maxop=16; unsigned pre=T?3:2;
		Suite s; s.name="op_histories"; s.bounds=fmt("all legal operation sequences of length <= %u on a query object over 4 worlds of 3 hierarchies (equal and different sizes)",depth);
		s.count=4*3*vx::ipow(maxop,pre);
		s.describe=[=](uint64_t i){ vx::Dec d(i); unsigned w=d.get(4),c=d.get(3); std::string r=fmt("world %u start ch%u prefix",w,c); for(unsigned k=0;k<pre;++k) r+=fmt(" op#%u",(unsigned)d.get(maxop)); return r; };
		s.run=[=](uint64_t i, Ctx&c){
			vx::Dec d(i); auto w=ws[d.get(4)]; unsigned k0=d.get(3); HistDriver h{w,c,fmt("start ch%u:",k0),true};
			ContractionHierarchyQuery q(w->ch[k0]); QM m; m.ch=k0;
			for(unsigned p=0;p<pre;++p){ auto ops=h.legal(m); unsigned o=d.get(maxop); if(o>=ops.size()) return; h.trace+=" "+ops[o].name; c.note=h.trace; c.transitions++; ops[o].f(q,m,h); if(ops.size()>maxop) c.fail("harness: raise maxop"); }
			h.dfs(q,m,depth-pre);
		};
		s.chunk=4; s.case_timeout=200;
		v.push_back(s);
	}
	{
		auto il=std::make_shared<std::vector<unsigned>>(two::interleavings()); unsigned K=il->size(); Suite s; s.name="two_objects"; s.bounds="two query objects of one thread, of one or two hierarchies of 4 worlds, plain and pinned queries: all interleavings of their six steps"; s.count=(uint64_t)4*3*3*9*K;
		auto dec=[=](uint64_t i){ vx::Dec d(i); std::vector<unsigned>r{(unsigned)d.get(3),(unsigned)d.get(3)}; unsigned k=d.get(K); r.push_back((*il)[k]); r.push_back(d.get(3)); r.push_back(d.get(3)); r.push_back(d.get(4)); return r; };
		s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("world %u ch%u and ch%u ",k[5],k[3],k[4])+two::describe(k[0],k[1],k[2]); };
		s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); auto&w=*ws[k[5]]; typedef two::Side<ContractionHierarchyQuery> S; S a(ContractionHierarchyQuery(w.ch[k[3]]),w.g[k[3]],w.g[k[3]].w,w.D[k[3]],k[0]), b(ContractionHierarchyQuery(w.ch[k[4]]),w.g[k[4]],w.g[k[4]].w,w.D[k[4]],k[1]); two::run(c,a,b,k[2]); };
		s.chunk=64; v.push_back(s);
	}
	{
		Suite s; s.name="object_lives"; s.bounds="a query object default constructed or attached by its constructor, also in the memory of a destroyed one, copied, moved, assigned or swapped after every number of steps, plain and pinned queries, 4 worlds x all pairs of hierarchies"; s.count=(uint64_t)two::STARTS*3*two::WHENS*two::HOWS*9*4;
		auto dec=[](uint64_t i, unsigned&wo){ vx::Dec d(i); two::Life l; l.start=d.get(two::STARTS); l.kind=d.get(3); l.when=d.get(two::WHENS); l.how=d.get(two::HOWS); l.h=d.get(3); l.other=d.get(3); wo=d.get(4); return l; };
		s.describe=[=](uint64_t i){ unsigned wo; auto l=dec(i,wo); return fmt("world %u: ",wo)+two::describe(l); };
		s.run=[=](uint64_t i, Ctx&c){ unsigned wo; auto l=dec(i,wo); auto&w=*ws[wo]; two::live<ContractionHierarchyQuery>(c,l,[&](unsigned k)->const ContractionHierarchy&{ return w.ch[k]; },[&](unsigned k, const G**g, const std::vector<unsigned>**wt, const Dist**D){ *g=&w.g[k]; *wt=&w.g[k].w; *D=&w.D[k]; }); };
		v.push_back(s);
	}
	// generation counter wrap-around: many resets between two queries
	{
		std::vector<unsigned>ks; for(unsigned b:{255u,256u,65535u,131070u}) for(int d=-4;d<=4;++d) ks.push_back(b+d); for(unsigned x=0;x<6;++x) ks.push_back(x);
		if(!A&&T) for(unsigned b:{196605u,262140u}) for(int d=-4;d<=4;++d) ks.push_back(b+d);
		Suite s; s.name="reset_counts"; s.bounds="number of resets between queries 0..5, 251..260, 65531..65539, 131066..131074 x 4 worlds x 4 kinds of preceding query x 4 kinds of reset";
		s.count=ks.size()*4*4*4;
		s.describe=[=](uint64_t i){ vx::Dec d(i); unsigned w=d.get(4),a=d.get(4),b=d.get(4); return fmt("world %u preceding %u reset kind %u count %u",w,a,b,ks[d.get(ks.size())]); };
		s.run=[=](uint64_t i, Ctx&c){
			vx::Dec d(i); auto w=ws[d.get(4)]; unsigned pk=d.get(4), rk=d.get(4), k=ks[d.get(ks.size())];
			auto&g=w->g[0]; auto&D=w->D[0]; ContractionHierarchyQuery q(w->ch[0]); HistDriver h{w,c,"",true}; QM m;
			auto all_nodes=[&]{ std::vector<unsigned>l; for(unsigned x=0;x<g.n;++x) l.push_back(x); return l; };
			if(pk==1){ q.add_source(0).add_target(g.n-1).run(); }
			if(pk==2){ q.pin_targets(all_nodes()); q.add_source(0).run_to_pinned_targets(); }
			if(pk==3){ q.pin_sources(all_nodes()); q.add_target(g.n-1).run_to_pinned_sources(); }
			if(rk==2&&pk==2){ for(unsigned x=0;x<std::max(1u,k);++x) q.reset_source(); q.add_source(g.n-1).run_to_pinned_targets(); m.S={{g.n-1,0}}; m.pins=all_nodes(); m.st=3; h.trace="reset_source wrap"; h.check(q,m); q.reset(); }
			else if(rk==3&&pk==3){ for(unsigned x=0;x<std::max(1u,k);++x) q.reset_target(); q.add_target(0).run_to_pinned_sources(); m.T={{0,0}}; m.pins=all_nodes(); m.st=5; h.trace="reset_target wrap"; h.check(q,m); q.reset(); }
			else if(rk==1){ for(unsigned x=0;x<k;++x) q.reset(w->ch[0]); }
			else for(unsigned x=0;x<k;++x) q.reset();
			c.transitions+=k;
			if(rk!=0||pk!=0||true){
				// after k resets, unfinished endpoint sets of the first query must be gone
				c.note="after resets"; 
				for(unsigned s=0;s<g.n;++s) for(unsigned t=0;t<g.n;++t) query(c,g,D,q,{{s,0}},{{t,0}},DIST|PATH);
				q.reset(); q.pin_targets(all_nodes()); q.add_source(0).run_to_pinned_targets(); m=QM(); m.S={{0,0}}; m.pins=all_nodes(); m.st=3; h.trace="final pinned"; h.check(q,m);
			}
		};
		s.chunk=2; v.push_back(s);
	}
}

// ---------------------------------------------------------------- C04 pinned
void pinned_check(Ctx&c, const G&g, const Dist&D, const ContractionHierarchy&ch, const std::vector<std::vector<unsigned>>&lists, const std::vector<Eps>&sets, bool reuse){
	ContractionHierarchyQuery q(ch);
	for(auto&l:lists) for(int dir=0;dir<2;++dir){
		if(!reuse) q=ContractionHierarchyQuery(ch); else q.reset();
		if(dir==0) q.pin_targets(l); else q.pin_sources(l);
		c.transitions+=2;
		c.eq(dir==0?q.get_pinned_target_count():q.get_pinned_source_count(),(unsigned)l.size(),[&]{ return std::string("pinned count"); });
		bool first=true; const Eps*before=&sets.back();
		for(auto&E:sets) for(int drop=0;drop<2;++drop){
			if(!first||(l.size()&1)){ if(dir==0) q.reset_source(); else q.reset_target(); }
			first=false;
			if(drop){ // endpoints that are dropped again without running the query
				for(auto&e:*before) if(dir==0) q.add_source(e.node,e.off/2); else q.add_target(e.node,e.off/2);
				if(dir==0) q.reset_source(); else q.reset_target();
				c.transitions+=1+before->size(); before=&E;
			}
			for(auto&e:E) if(dir==0) q.add_source(e.node,e.off); else q.add_target(e.node,e.off);
			if(dir==0) q.run_to_pinned_targets(); else q.run_to_pinned_sources();
			c.transitions+=2+E.size(); ++c.traces;
			auto d=dir==0?q.get_distances_to_targets():q.get_distances_to_sources();
			auto u=dir==0?q.get_used_sources_to_targets():q.get_used_targets_to_sources();
			std::vector<unsigned>d2(l.size()+2,77),u2(l.size()+2,78);
			if(dir==0){ q.get_distances_to_targets(d2.data()); q.get_used_sources_to_targets(u2.data()); } else { q.get_distances_to_sources(d2.data()); q.get_used_targets_to_sources(u2.data()); }
			if(d2[l.size()]!=77||u2[l.size()]!=78) c.fail("wrote behind the output array");
			d2.resize(l.size()); u2.resize(l.size());
			auto where=[&]{ return std::string(dir?"sources":"targets")+str(l)+" endpoints "+::str(E)+(drop?" after dropped endpoints":""); };
			c.eq(d,d2,[&]{ return "pointer and vector variant "+where(); }); c.eq(u,u2,[&]{ return "used pointer and vector variant "+where(); });
			if(d.size()!=l.size()) c.fail("size "+where());
			for(unsigned i=0;i<l.size();++i){
				Eps P={{l[i],0}}; unsigned want=dir==0?ref_dist(D,E,P):ref_dist(D,P,E);
				c.eq(d[i],want,[&]{ return fmt("entry %u of ",i)+where(); });
				if(want==INF){ if(u[i]!=invalid_id) c.fail("used endpoint not invalid "+where()); }
				else{ bool ok=false; for(auto&e:E) if(e.node==u[i]){ u64 x=dir==0?D(e.node,l[i]):D(l[i],e.node); if(x<INF64&&x+e.off==want) ok=true; } if(!ok) c.fail(fmt("used endpoint %u of entry %u does not attain %u ",u[i],i,want)+where()); }
			}
		}
	}
}
std::vector<std::vector<unsigned>> all_lists(unsigned n, unsigned maxlen){
	std::vector<std::vector<unsigned>>r={{}};
	for(unsigned l=1;l<=maxlen;++l){ uint64_t k=vx::ipow(n,l); for(uint64_t i=0;i<k;++i){ vx::Dec d(i); std::vector<unsigned>x; for(unsigned j=0;j<l;++j) x.push_back(d.get(n)); r.push_back(x); } }
	return r;
}
void pinned_suites(std::vector<Suite>&v){
	bool T=vx::opt().thorough(), A=vx::opt().asan();
	auto mk=[&](std::string name, std::string b, auto sp, unsigned maxlen, bool reuse, std::vector<unsigned>offs){
		Suite s; s.name=name; s.bounds=b; s.count=sp.count(); s.describe=[sp](uint64_t i){ return ::str(sp.at(i)); };
		s.run=[=](uint64_t i, Ctx&c){
			G g=sp.at(i); auto D=floyd(g); auto lists=all_lists(g.n,maxlen); std::vector<Eps>sets;
			uint64_t K=vx::ipow(offs.size()+1,g.n); for(uint64_t k=1;k<K;++k){ vx::Dec d(k); Eps E; for(unsigned x=0;x<g.n;++x){ unsigned o=d.get(offs.size()+1); if(o) E.push_back({x,offs[o-1]}); } sets.push_back(E); }
			for(unsigned x=0;x<g.n;++x){ sets.push_back({{x,2},{x,1}}); sets.push_back({{x,1},{x,2},{(x+1)%g.n,4},{(x+1)%g.n,0}}); }
			for(unsigned k=0;k<3;++k){ auto o=order_pattern(k-1,g.n); auto ch=build(g,k?1:0,k?o:std::vector<unsigned>(),500); c.note=fmt("build kind %u",k); pinned_check(c,g,D,ch,lists,sets,reuse); }
		};
		v.push_back(s);
	};
	mk("n2","2 nodes with loops, weights {0,1,inf}, all lists of length<=4 (more than nodes), all endpoint sets with offsets {0,1}",SlotSpace(2,true,{0,1,INF}),4,true,{0,1});
	mk("n3","3 nodes, weights {0,1,3}, all lists of length<=2, all endpoint sets with offsets {0,1}",SlotSpace(3,false,{0,1,3}),2,true,{0,1});
	mk("n3_long","3 nodes, weight 1, all lists of length<=4, all endpoint sets with offsets {0,2}",SlotSpace(3,false,{1}),A?4:5,false,{0,2});
	if(!A) mk("n4","4 nodes, weights {1,2}, all sets of 5 arcs, lists of length<=2, all endpoint sets",SubsetSpace(4,5,{1,2}),2,true,{0});
	if(T&&!A) mk("n4_all","4 nodes, weights {0,1}, all graphs, lists of length<=1, all endpoint sets",SlotSpace(4,false,{0,1}),1,true,{0});
	// families with full lists, repeated lists
	std::vector<unsigned>sizes={1,2,5,9,16,17,33,40,64,65}; if(!A) for(unsigned x:{129,300}) sizes.push_back(x);
	Suite s; s.name="families"; s.bounds="13 families x sizes 1..300 x 6 weight patterns x 3 orders; pinned lists: all nodes, reversed, doubled, every third; 5 endpoint sets re-run on each pin";
	s.count=sizes.size()*F_COUNT*PATTERNS*3;
	auto dec=[=](uint64_t i){ vx::Dec d(i); unsigned p=d.get(PATTERNS),f=d.get(F_COUNT),k=d.get(3),n=sizes[d.get(sizes.size())]; return std::vector<unsigned>{f,n,p,k}; };
	s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u pattern=%u order=%u",family_name(k[0]),k[1],k[2],k[3]); };
	s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); unsigned n=k[1]; if((k[0]==F_COMPLETE||k[0]==F_LCG_DENSE)&&n>40) n=40; if(n>65&&k[0]==F_LCG_SPARSE) n=65; G g=family(k[0],n,k[2]); auto D=all_pairs(g);
		std::vector<unsigned>a; for(unsigned x=0;x<n;++x) a.push_back(x); auto r=a; std::reverse(r.begin(),r.end()); auto dbl=a; dbl.insert(dbl.end(),r.begin(),r.end()); std::vector<unsigned>th; for(unsigned x=n%3;x<n;x+=3) th.push_back(x);
		std::vector<Eps>sets={{{0,0}},{{n-1,3}},{{n/2,1},{0,2}},{{n/3,0},{n-1,0},{n/2,7}},{{n/2,0}}};
		auto ch=build(g,k[3]?1:0,k[3]?order_pattern(k[3]==1?1:4,n):std::vector<unsigned>(),500); pinned_check(c,g,D,ch,{a,r,dbl,th,{}},sets,true); };
	s.chunk=4; s.case_timeout=120; v.push_back(s);
}

// ---------------------------------------------------------------- C05 extra weight
struct Word{ std::vector<unsigned>a; bool operator==(const Word&o)const{ return a==o.a; } };
std::ostream&operator<<(std::ostream&o, const Word&w){ return o<<str(w.a); }
struct Concat{ Word operator()(const Word&l, const Word&r)const{ if(l.a.empty()||r.a.empty()) throw std::runtime_error("link was given a default constructed value"); Word x=l; x.a.insert(x.a.end(),r.a.begin(),r.a.end()); return x; } };
struct PtrCont{ const Word*p; const Word&operator[](unsigned i)const{ return p[i]; } };
// the word must spell a shortest path from one of S to one of T
void check_word(Ctx&c, const G&g, const Dist&D, const Eps&S, const Eps&T, const Word&w, const std::string&what){
	++c.states; unsigned want=ref_dist(D,S,T);
	auto where=[&]{ return what+" "+::str(S)+"->"+::str(T)+" word "+str(w.a); };
	if(want==INF){ if(!w.a.empty()) c.fail("expected a default constructed value: "+where()); return; }
	if(w.a.empty()){
		bool ok=false; for(auto&s:S) for(auto&t:T) if(s.node==t.node&&(u64)s.off+t.off==want) ok=true;
		if(!ok) c.fail("default value although the shortest path has arcs: "+where()); return;
	}
	u64 len=0; for(unsigned i=0;i<w.a.size();++i){ if(w.a[i]>=g.m()) c.fail("arc out of range: "+where()); len+=g.w[w.a[i]]; if(i&&g.head[w.a[i-1]]!=g.tail[w.a[i]]) c.fail("linked in an order that is no path: "+where()); }
	unsigned a=g.tail[w.a.front()],b=g.head[w.a.back()]; bool ok=false;
	for(auto&s:S) for(auto&t:T) if(s.node==a&&t.node==b&&len+s.off+t.off==want) ok=true;
	if(!ok) c.fail(fmt("not a shortest path (length %llu, want %u): ",len,want)+where());
}
void extra_check(Ctx&c, const G&g, const ContractionHierarchy&ch, bool small){
	auto D=all_pairs(g); Concat link; std::vector<Word>ew(g.m()); for(unsigned i=0;i<g.m();++i) ew[i].a={i};
	ContractionHierarchyExtraWeight<Word>pre(ch,ew,link); PtrCont pc{ew.data()};
	ContractionHierarchyExtraWeight<Word>pre2; { // reset history: first for other weights
		std::vector<Word>ow(g.m()); for(unsigned i=0;i<g.m();++i) ow[i].a={g.m()-1-i}; pre2.reset(ch,ow,link); pre2.reset(ch,pc,link); }
	ContractionHierarchyQuery q(ch); std::vector<Word>tmp(g.n);
	auto p2p=[&](const Eps&S, const Eps&T){
		q.reset(); for(auto&e:S) q.add_source(e.node,e.off); for(auto&e:T) q.add_target(e.node,e.off); q.run(); c.transitions+=3+S.size()+T.size(); ++c.traces;
		Word a=q.get_extra_weight_distance(ew,link), b=q.get_extra_weight_distance(pre,link), d=q.get_extra_weight_distance(pre2,link);
		check_word(c,g,D,S,T,a,"single"); c.eq(b,a,[&]{ return std::string("precomputed single"); }); c.eq(d,a,[&]{ return std::string("reset precomputed single"); });
		c.eq(a.a,q.get_arc_path(),[&]{ return std::string("single word vs arc path"); });
	};
	unsigned step=small?1:std::max(1u,g.n/7);
	for(unsigned s=0;s<g.n;s+=step) for(unsigned t=0;t<g.n;++t) p2p({{s,0}},{{t,0}});
	if(g.n>1) for(unsigned t=0;t<g.n;++t){ p2p({{0,1},{g.n-1,0}},{{t,0}}); p2p({{t,2}},{{g.n/2,0},{0,2}}); }
	std::vector<std::vector<unsigned>>lists; if(small){ lists=all_lists(g.n,2); } { std::vector<unsigned>a; for(unsigned x=0;x<g.n;++x) a.push_back(x); lists.push_back(a); std::reverse(a.begin(),a.end()); lists.push_back(a); a.insert(a.end(),a.begin(),a.end()); lists.push_back(a); }
	for(auto&l:lists) for(int dir=0;dir<2;++dir){
		q.reset(); if(dir==0) q.pin_targets(l); else q.pin_sources(l); c.transitions+=2;
		for(unsigned s=0;s<g.n;s+=step) for(unsigned var=0;var<2;++var){
			Eps E={{s,0}}; if(var){ if(!small&&s%2) continue; E.push_back({(s+1)%g.n,1}); }
			if(dir==0) q.reset_source(); else q.reset_target();
			for(auto&e:E) if(dir==0) q.add_source(e.node,e.off); else q.add_target(e.node,e.off);
			if(dir==0) q.run_to_pinned_targets(); else q.run_to_pinned_sources();
			c.transitions+=3; ++c.traces;
			std::vector<Word>a,b,d,e(l.size());
			if(dir==0){ a=q.get_extra_weight_distances_to_targets(ew,link); b=q.get_extra_weight_distances_to_targets(pre,link); d=q.get_extra_weight_distances_to_targets(pc,link,tmp); q.get_extra_weight_distances_to_targets(pre2,link,tmp,e); }
			else{ a=q.get_extra_weight_distances_to_sources(ew,link); b=q.get_extra_weight_distances_to_sources(pre,link); d=q.get_extra_weight_distances_to_sources(pc,link,tmp); q.get_extra_weight_distances_to_sources(pre2,link,tmp,e); }
			if(a.size()!=l.size()||b.size()!=l.size()||d.size()!=l.size()) c.fail("number of extra weight distances");
			for(unsigned i=0;i<l.size();++i){
				Eps P={{l[i],0}}; std::string w=fmt("pinned %s entry %u of ",dir?"sources":"targets",i)+str(l);
				if(dir==0) check_word(c,g,D,E,P,a[i],w); else check_word(c,g,D,P,E,a[i],w);
				if(dir==0){ check_word(c,g,D,E,P,b[i],w+" precomputed"); check_word(c,g,D,E,P,d[i],w+" tmp"); check_word(c,g,D,E,P,e[i],w+" tmp,dist"); }
				else{ check_word(c,g,D,P,E,b[i],w+" precomputed"); check_word(c,g,D,P,E,d[i],w+" tmp"); check_word(c,g,D,P,E,e[i],w+" tmp,dist"); }
			}
			// distances must be unaffected by extraction
			auto dd=dir==0?q.get_distances_to_targets():q.get_distances_to_sources();
			for(unsigned i=0;i<l.size();++i){ Eps P={{l[i],0}}; c.eq(dd[i],dir==0?ref_dist(D,E,P):ref_dist(D,P,E),[&]{ return std::string("distance after extraction"); }); }
		}
	}
}
void saturated_check(Ctx&c, const G&g, const ContractionHierarchy&ch, const std::vector<int>&iw, const std::vector<unsigned>&uw){
	// values along the reported path, added with saturation (associative only without mixed saturation: monotone inputs)
	SaturatedWeightAddition link; ContractionHierarchyQuery q(ch); ContractionHierarchyExtraWeight<int>pi(ch,iw,link); ContractionHierarchyExtraWeight<unsigned>pu(ch,uw,link);
	for(unsigned s=0;s<g.n;++s) for(unsigned t=0;t<g.n;++t){
		q.reset().add_source(s).add_target(t).run(); c.transitions+=4; auto p=q.get_arc_path(); long long wi=0; u64 wu=0; for(auto a:p){ wi+=iw[a]; wu+=uw[a]; }
		wi=std::max<long long>(INT_MIN,std::min<long long>(INT_MAX,wi)); unsigned wuc=wu>=INF?INF:wu; ++c.traces;
		c.eq(q.get_extra_weight_distance(iw,link),(int)wi,[&]{ return std::string("int sum"); }); c.eq(q.get_extra_weight_distance(pi,link),(int)wi,[&]{ return std::string("int precomputed"); });
		c.eq(q.get_extra_weight_distance(uw,link),wuc,[&]{ return std::string("unsigned sum"); }); c.eq(q.get_extra_weight_distance(pu,link),wuc,[&]{ return std::string("unsigned precomputed"); });
	}
}
void extra_suites(std::vector<Suite>&v){
	bool T=vx::opt().thorough(), A=vx::opt().asan();
	auto mk=[&](std::string name, std::string b, auto sp, unsigned kinds){
		Suite s; s.name=name; s.bounds=b; s.count=sp.count(); s.describe=[sp](uint64_t i){ return ::str(sp.at(i)); };
		s.run=[=](uint64_t i, Ctx&c){ G g=sp.at(i); for(unsigned k=0;k<kinds;++k){ auto o=order_pattern(k-1,g.n); auto ch=build(g,k?1:0,k?o:std::vector<unsigned>(),500); c.note=fmt("build kind %u",k); extra_check(c,g,ch,true); } };
		v.push_back(s);
	};
	mk("n2","2 nodes with loops, weights {0,1,4}; non-commutative word concatenation",SlotSpace(2,true,{0,1,4}),3);
	mk("n3","3 nodes, weights {1,2,4}; word concatenation; all pinned lists of length<=2",SlotSpace(3,false,{1,2,4}),3);
	mk("n3_zero","3 nodes, weights {0,1}",SlotSpace(3,false,{0,1}),3);
	mk("n3_multi","3 nodes, all ordered lists of 3 arcs incl. loops, weights {1,2}",ListSpace(3,3,true,{1,2}),A?1:2);
	if(!A) mk("n4","4 nodes, all sets of 5 arcs, weights {1,2}",SubsetSpace(4,5,{1,2}),T?3:2);
	if(T&&!A) mk("n4_all","4 nodes, all graphs with weights {1,3}",SlotSpace(4,false,{1,3}),1);
	if(T&&!A) mk("n5","5 nodes, all sets of 5 arcs, weight 1",SubsetSpace(5,5,{1}),3);
	{
		std::vector<unsigned>sizes={1,2,5,8,9,17,33,65}; if(!A) sizes.push_back(100);
		Suite s; s.name="families"; s.bounds="13 families x sizes 1..100 x 5 weight patterns x 3 orders";
		s.count=sizes.size()*F_COUNT*5*3;
		auto dec=[=](uint64_t i){ vx::Dec d(i); unsigned p=d.get(5),f=d.get(F_COUNT),k=d.get(3),n=sizes[d.get(sizes.size())]; return std::vector<unsigned>{f,n,p,k}; };
		s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u pattern=%u order=%u",family_name(k[0]),k[1],k[2],k[3]); };
		s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); unsigned n=k[1]; if((k[0]==F_COMPLETE||k[0]==F_LCG_DENSE)&&n>17) n=17; G g=family(k[0],n,k[2]); auto ch=build(g,k[3]?1:0,k[3]?order_pattern(k[3]==1?1:4,n):std::vector<unsigned>(),500); extra_check(c,g,ch,false); };
		s.chunk=2; s.case_timeout=120; v.push_back(s);
	}
	{
		SubsetSpace sp(4,4,{1});
		static const int iv[]={0,1,-1,INT_MAX,INT_MIN,1<<30}; static const unsigned uv[]={0,1,5,INF,INF-1,1u<<30};
		Suite s; s.name="saturation"; s.bounds="4 nodes, all sets of 4 arcs; saturating sums: all assignments of {0,1,max,2^30} / {0,-1,min} to the arcs";
		s.count=sp.count()*256*2; s.describe=[=](uint64_t i){ return ::str(sp.at(i%sp.count()))+fmt(" values %llu",(u64)(i/sp.count())); };
		s.run=[=](uint64_t i, Ctx&c){ G g=sp.at(i%sp.count()); vx::Dec d(i/sp.count()); unsigned neg=d.get(2); std::vector<int>iw; std::vector<unsigned>uw; static const int pos[]={0,1,INT_MAX,1<<30}, ng[]={0,-1,INT_MIN,-(1<<30)}; static const unsigned us[]={0,1,INF,1u<<30}; for(unsigned k=0;k<4;++k){ unsigned x=d.get(4); iw.push_back(neg?ng[x]:pos[x]); uw.push_back(us[x]); } (void)iv;(void)uv; auto ch=build(g,i&1,{3,1,0,2},500); saturated_check(c,g,ch,iw,uw); };
		v.push_back(s);
	}
}

// ---------------------------------------------------------------- C06 storage
std::string dump(const ContractionHierarchy&ch, unsigned*calls=0){ std::string r; unsigned k=0; ch.write([&](const char*p, unsigned long long l){ r.append(p,l); ++k; }); if(calls) *calls=k; return r; }
struct StrSource{ const std::string&s; size_t pos=0; void operator()(char*p, unsigned long long l){ if(l>s.size()-pos) throw std::runtime_error("source ended"); memcpy(p,s.data()+pos,l); pos+=l; } };
void transfer_suite(std::vector<Suite>&v){
	static const unsigned ns[]={1,3,8,21}; Suite s; s.name="transferred_hierarchies"; s.bounds="13 graph families x 1..21 nodes x build() and a given order: the hierarchy copied, moved, assigned, swapped, stored in a growing vector, assigned to itself; originals gone before use"; s.count=(uint64_t)F_COUNT*4*2*two::TRANSFERS;
	auto dec=[](uint64_t i){ vx::Dec d(i); std::vector<unsigned>r; r.push_back(d.get(two::TRANSFERS)); r.push_back(d.get(2)); r.push_back(d.get(4)); r.push_back(d.get(F_COUNT)); return r; };
	s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u %s, hierarchy %s",family_name(k[3]),ns[k[2]],k[1]?"given order":"build()",two::transfer_name(k[0])); };
	s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); G g=family(k[3],ns[k[2]],3); auto D=floyd(g); G g2; g2.n=3; g2.add(0,1,4); g2.add(1,2,2); std::vector<unsigned>o(g.n); for(unsigned j=0;j<g.n;++j) o[j]=g.n-1-j;
		auto make=[](const G&g, const std::vector<unsigned>*o){ return o?ContractionHierarchy::build_given_rank(*o,g.tail,g.head,g.w):ContractionHierarchy::build(g.n,g.tail,g.head,g.w); };
		two::transfer(k[0],make(g,k[1]?&o:nullptr),make(g2,nullptr),[&](const ContractionHierarchy&h){ ++c.traces; ContractionHierarchyQuery q(h); for(unsigned s0=0;s0<g.n;++s0) for(unsigned t=0;t<g.n;++t){ q.reset().add_source(s0).add_target(t).run(); unsigned want=ref_dist(D,{{s0,0}},{{t,0}}); c.eqs(q.get_distance(),want,"distance"); check_path(c,g,g.w,{{s0,0}},{{t,0}},want,q.get_used_source(),q.get_used_target(),q.get_node_path(),q.get_arc_path()); } }); };
	v.push_back(s);
}
void same_answers(Ctx&c, const G&g, const ContractionHierarchy&a, const ContractionHierarchy&b, const Dist&D, const std::string&what){
	c.note=what; if(a.node_count()!=b.node_count()) c.fail("node count differs");
	ContractionHierarchyQuery p(a),q(b); unsigned step=std::max(1u,g.n/9);
	for(unsigned s=0;s<g.n;s+=step) for(unsigned t=0;t<g.n;++t){
		p.reset().add_source(s).add_target(t).run(); q.reset().add_source(s).add_target(t).run(); c.transitions+=8; ++c.traces;
		c.eq(q.get_distance(),p.get_distance(),[&]{ return std::string("distance"); }); c.eq(q.get_distance(),cap(D(s,t)),[&]{ return std::string("distance vs reference"); });
		c.eq(q.get_arc_path(),p.get_arc_path(),[&]{ return std::string("arc path"); }); c.eq(q.get_node_path(),p.get_node_path(),[&]{ return std::string("node path"); });
	}
}
template<class F> bool throws(F&&f){ try{ f(); }catch(std::exception&){ return true; } return false; }
void storage_check(Ctx&c, const G&g, const ContractionHierarchy&ch, bool trunc, bool files){
	auto D=all_pairs(g); unsigned calls=0; std::string s=dump(ch,&calls);
	same_answers(c,g,ch,ContractionHierarchy::read(std::function<void(char*,unsigned long long)>(StrSource{s})),D,"callback read");
	same_answers(c,g,ch,ContractionHierarchy::read(std::function<void(char*,unsigned long long)>(StrSource{s}),s.size()),D,"sized callback read");
	{ std::istringstream in(s); auto r=ContractionHierarchy::read(in); same_answers(c,g,ch,r,D,"stream read"); c.note="rewrite"; c.eq(dump(r).size(),s.size(),[&]{ return std::string("write after read"); }); }
	{ std::istringstream in(s); same_answers(c,g,ch,ContractionHierarchy::read(in,s.size()),D,"sized stream read"); }
	{ std::ostringstream o; ch.write(o); c.note="stream write"; if(o.str().size()!=s.size()) c.fail("stream and callback write sizes differ"); std::string os=o.str(); same_answers(c,g,ch,ContractionHierarchy::read(std::function<void(char*,unsigned long long)>(StrSource{os})),D,"read of stream write"); }
	{ // two hierarchies behind one another in one unsized stream
		std::string two=s+s; StrSource src{two}; std::function<void(char*,unsigned long long)>f=[&](char*p,unsigned long long l){ src(p,l); };
		same_answers(c,g,ch,ContractionHierarchy::read(f),D,"first of two"); same_answers(c,g,ch,ContractionHierarchy::read(f),D,"second of two"); c.note="two"; if(src.pos!=two.size()) c.fail("did not consume exactly one hierarchy"); }
	c.note="corrupt";
	for(long long d=-70;d<=70;++d) if(d){ // announced size differs from the data: must be rejected whether or not that many bytes are there
		if((long long)s.size()+d<0) continue;
		std::string x=s; x.resize(s.size()+(d>0?d:0)); 
		c.expect(throws([&]{ ContractionHierarchy::read(std::function<void(char*,unsigned long long)>(StrSource{x}),(unsigned long long)((long long)s.size()+d)); }),fmt("announced size off by %lld accepted",d)); c.transitions++;
	}
	for(unsigned b=0;b<8;++b){ std::string x=s; x[b]^=1; c.expect(throws([&]{ ContractionHierarchy::read(std::function<void(char*,unsigned long long)>(StrSource{x})); }),"damaged header accepted"); c.expect(throws([&]{ ContractionHierarchy::read(std::function<void(char*,unsigned long long)>(StrSource{x}),x.size()); }),"damaged header accepted (sized)"); c.transitions+=2; }
	for(unsigned field=0;field<3;++field) for(unsigned bit:{28u,29u,30u,31u}){ // a damaged element count must not make the announced size fit (wrap around)
		std::string x=s; unsigned v; memcpy(&v,&x[8+4*field],4); v^=1u<<bit; memcpy(&x[8+4*field],&v,4); u64 got=0;
		c.expect(throws([&]{ StrSource src{x}; ContractionHierarchy::read(std::function<void(char*,unsigned long long)>([&](char*p,unsigned long long l){ src(p,l); got+=l; }),x.size()); }),"damaged count accepted");
		c.expect(got<=24,"a hierarchy whose announced size does not fit its header was read beyond the header"); c.transitions++;
	}
	if(trunc) for(size_t l=0;l<s.size();++l){
		std::string x=s.substr(0,l); c.transitions+=4;
		c.expect(throws([&]{ ContractionHierarchy::read(std::function<void(char*,unsigned long long)>(StrSource{x}),l); }),fmt("truncation to %zu of %zu accepted",l,s.size()));
		c.expect(throws([&]{ std::istringstream in(x); ContractionHierarchy::read(in); }),fmt("stream truncation to %zu of %zu accepted",l,s.size()));
		c.expect(throws([&]{ std::istringstream in(x); ContractionHierarchy::read(in,s.size()); }),fmt("sized stream truncation to %zu of %zu accepted",l,s.size()));
		c.expect(throws([&]{ ContractionHierarchy::read(std::function<void(char*,unsigned long long)>(StrSource{x})); }),fmt("callback truncation to %zu accepted",l));
	}
	if(files){
		std::string f=fmt("%s/ch.%d",vx::opt().scratch.c_str(),(int)getpid());
		ch.save_file(f); same_answers(c,g,ch,ContractionHierarchy::load_file(f),D,"file"); c.note="file";
		{ std::ifstream in(f,std::ios::binary); std::string x((std::istreambuf_iterator<char>(in)),std::istreambuf_iterator<char>()); c.eq(x.size(),s.size(),[&]{ return std::string("file size"); }); }
		for(size_t l=0;l<s.size();l+=(trunc?1:7)){ std::ofstream(f,std::ios::binary).write(s.data(),l); c.expect(throws([&]{ ContractionHierarchy::load_file(f); }),fmt("file truncated to %zu of %zu accepted",l,s.size())); c.transitions++; }
		for(unsigned l=1;l<=70;l+=3){ std::string x=s+std::string(l,'\0'); std::ofstream(f,std::ios::binary).write(x.data(),x.size()); c.expect(throws([&]{ ContractionHierarchy::load_file(f); }),fmt("file with %u extra bytes accepted",l)); c.transitions++; }
		unlink(f.c_str()); c.expect(throws([&]{ ContractionHierarchy::load_file(f); }),"missing file accepted");
		c.expect(throws([&]{ ch.save_file(vx::opt().scratch+"/no/such/dir/x"); }),"saving into a missing directory reported no error");
		c.expect(throws([&]{ ch.save_file("/dev/full"); }),"saving to a full device reported no error");
	}
}
void storage_suites(std::vector<Suite>&v){
	bool T=vx::opt().thorough(), A=vx::opt().asan();
	auto mk=[&](std::string name, std::string b, auto sp, bool trunc, bool files){
		Suite s; s.name=name; s.bounds=b; s.count=sp.count(); s.describe=[sp](uint64_t i){ return ::str(sp.at(i)); };
		s.run=[=](uint64_t i, Ctx&c){ G g=sp.at(i); auto ch=build(g,i%3,order_pattern(i%2,g.n),500); storage_check(c,g,ch,trunc,files); };
		v.push_back(s);
	};
	mk("n2_files","2 nodes with loops, weights {0,1}: every truncation point, every interface, files",SlotSpace(2,true,{0,1}),true,true);
	mk("n3","3 nodes, weights {1,3}: every truncation point, stream and callback interfaces",SlotSpace(3,false,{1,3}),true,false);
	if(!A) mk("n4","4 nodes, all sets of 5 arcs, weights {1,2}: round trip",SubsetSpace(4,5,{1,2}),false,false);
	if(T&&!A) mk("n4_trunc","4 nodes, all graphs weight 1: every truncation point",SlotSpace(4,false,{1}),true,false);
	std::vector<unsigned>sizes={0,1,2,9,33,65,200}; if(!A) for(unsigned x:{257,513,600}) sizes.push_back(x);
	Suite s; s.name="families"; s.bounds="13 families x sizes 0..600 (more than 512 arcs per direction) x 2 weight patterns: round trip, sizes, truncation of files in steps of 7 bytes";
	s.count=sizes.size()*F_COUNT*2;
	auto dec=[=](uint64_t i){ vx::Dec d(i); unsigned p=d.get(2),f=d.get(F_COUNT),n=sizes[d.get(sizes.size())]; return std::vector<unsigned>{f,n,p+2}; };
	s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u pattern=%u",family_name(k[0]),k[1],k[2]); };
	s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); unsigned n=k[1]; if((k[0]==F_COMPLETE||k[0]==F_LCG_DENSE||k[0]==F_LCG_SPARSE)&&n>65) n=65; G g=family(k[0],n,k[2]); auto ch=build(g,i%2,order_pattern(4,n),500); storage_check(c,g,ch,false,n<=65); };
	s.chunk=1; s.case_timeout=120; v.push_back(s);
}

// ---------------------------------------------------------------- C35 the check of a hierarchy for errors
// Reference: written from the meaning of the members, not from the code
bool side_valid(const ContractionHierarchy::Side&s, unsigned n){
	if(s.first_out.size()!=(size_t)n+1 || s.first_out[0]!=0) return false;
	for(unsigned x=0;x<n;++x) if(s.first_out[x]>s.first_out[x+1]) return false;
	size_t m=s.first_out[n];
	if(s.head.size()!=m||s.weight.size()!=m||s.shortcut_first_arc.size()!=m||s.shortcut_second_arc.size()!=m||s.is_shortcut_an_original_arc.size()!=m) return false;
	for(unsigned x=0;x<n;++x) for(unsigned a=s.first_out[x];a<s.first_out[x+1];++a) if(s.head[a]>=n||s.head[a]<=x) return false;
	return true;
}
bool ref_valid(const ContractionHierarchy&ch){
	unsigned n=ch.rank.size(); if(ch.order.size()!=n) return false;
	for(unsigned x=0;x<n;++x) if(ch.rank[x]>=n||ch.order[ch.rank[x]]!=x) return false;
	if(!side_valid(ch.forward,n)||!side_valid(ch.backward,n)) return false;
	unsigned fm=ch.forward.head.size(), bm=ch.backward.head.size();
	for(unsigned dir=0;dir<2;++dir){ auto&s=dir?ch.backward:ch.forward; unsigned m=dir?bm:fm;
		for(unsigned a=0;a<m;++a){ unsigned f=s.shortcut_first_arc[a], g=s.shortcut_second_arc[a];
			if(s.is_shortcut_an_original_arc.is_set(a)){ if(f==invalid_id||g>=n) return false; }
			else{ if(f>=bm||g>=fm) return false; if((dir?f:g)>=a) return false; if((unsigned)(ch.backward.weight[f]+ch.forward.weight[g])!=s.weight[a]) return false; } } }
	return true;
}
// 0 accepted, 1 refused
int verdict(const ContractionHierarchy&ch){ try{ check_contraction_hierarchy_for_errors(ch); }catch(std::runtime_error&){ return 1; } return 0; }
void accept_check(Ctx&c, const G&, const ContractionHierarchy&ch){
	++c.traces; c.transitions+=2; if(verdict(ch)) c.fail("a freshly built hierarchy was refused");
	std::string x=dump(ch); auto r=ContractionHierarchy::read(std::function<void(char*,unsigned long long)>(StrSource{x}),x.size()); if(verdict(r)) c.fail("a loaded hierarchy was refused");
}
std::vector<std::vector<unsigned>*> members(ContractionHierarchy&h){ return {&h.rank,&h.order,&h.forward.first_out,&h.forward.head,&h.forward.weight,&h.forward.shortcut_first_arc,&h.forward.shortcut_second_arc,&h.backward.first_out,&h.backward.head,&h.backward.weight,&h.backward.shortcut_first_arc,&h.backward.shortcut_second_arc}; }
const char*const MEMBER[]={"rank","order","forward.first_out","forward.head","forward.weight","forward.shortcut_first_arc","forward.shortcut_second_arc","backward.first_out","backward.head","backward.weight","backward.shortcut_first_arc","backward.shortcut_second_arc"};
struct Change{ unsigned mem; int pos; unsigned val; };   // pos -1: remove the last element, -2: append val, -3: clear, else set; mem 12,13: flags of the forward, backward side (val 0: flip pos, 1: resize to pos)
std::string str(const Change&k){ std::string m=k.mem<12?MEMBER[k.mem]:k.mem==12?"forward.is_shortcut_an_original_arc":"backward.is_shortcut_an_original_arc"; if(k.mem>=12) return k.val?m+fmt(" resized to %d",k.pos):fmt("bit %d of ",k.pos)+m+" flipped"; return k.pos==-1?m+" shortened":k.pos==-2?m+fmt(" + %u",k.val):k.pos==-3?m+" cleared":m+fmt("[%d]=%u",k.pos,k.val); }
void apply(ContractionHierarchy&h, const Change&k){
	if(k.mem>=12){ auto&b=k.mem==12?h.forward.is_shortcut_an_original_arc:h.backward.is_shortcut_an_original_arc; if(k.val==0) b.toggle(k.pos); else{ BitVector x(k.pos,BitVector::uninitialized); for(int i=0;i<k.pos;++i) x.set_if(i,i<(int)b.size()&&b.is_set(i)); for(int i=0;i<k.pos;++i) if(!(i<(int)b.size()&&b.is_set(i))) x.reset(i); b=x; } return; }
	auto&v=*members(h)[k.mem]; if(k.pos==-1) v.pop_back(); else if(k.pos==-2) v.push_back(k.val); else if(k.pos==-3) v.clear(); else v[k.pos]=k.val;
}
std::vector<Change> changes(ContractionHierarchy&h, bool few){
	std::vector<Change>r; auto M=members(h); unsigned n=h.rank.size();
	for(unsigned m=0;m<12;++m){ auto&v=*M[m]; unsigned sz=v.size(), fm=h.forward.head.size(), bm=h.backward.head.size();
		std::vector<unsigned>val={0,1,2,n-1,n,n+1,fm-1,fm,bm-1,bm,0x7fffffffu,0x80000000u,invalid_id,invalid_id-1};
		if(few) val={0,n-1,n,0x7fffffffu,invalid_id};
		std::sort(val.begin(),val.end()); val.erase(std::unique(val.begin(),val.end()),val.end());
		for(unsigned i=0;i<sz;++i){ auto x=val; x.push_back(v[i]+1); x.push_back(v[i]-1); std::sort(x.begin(),x.end()); x.erase(std::unique(x.begin(),x.end()),x.end()); for(unsigned y:x) if(y!=v[i]) r.push_back({m,(int)i,y}); }
		if(sz) r.push_back({m,-1,0}),r.push_back({m,-3,0}); for(unsigned y:val) r.push_back({m,-2,y});
	}
	for(unsigned m=12;m<14;++m){ unsigned sz=(m==12?h.forward:h.backward).is_shortcut_an_original_arc.size(); for(unsigned i=0;i<sz;++i) r.push_back({m,(int)i,0}); for(unsigned z:{0u,sz-1,sz+1,sz+600}) if(z!=sz&&z!=(unsigned)-1) r.push_back({m,(int)z,1}); }
	return r;
}
void refuse_check(Ctx&c, const ContractionHierarchy&ch, bool pairs){
	ContractionHierarchy base=ch; auto K=changes(base,false);
	auto one=[&](const ContractionHierarchy&h, const std::string&what){ ++c.transitions; ++c.traces; c.note=what; bool want=!ref_valid(h); int got=verdict(h); if(got!=(int)want) c.fail(want?"a broken hierarchy was accepted":"a valid hierarchy was refused"); };
	for(auto&k:K){ ContractionHierarchy h=base; apply(h,k); one(h,str(k)); }
	for(unsigned x=0;x<base.rank.size();++x) for(unsigned y=0;y<x;++y){ // a different consistent numbering is as valid as before; a swap on one side only is not
		ContractionHierarchy h=base; std::swap(h.rank[x],h.rank[y]); one(h,fmt("rank of %u and %u swapped",x,y)); std::swap(h.order[h.rank[x]],h.order[h.rank[y]]); one(h,fmt("nodes %u and %u renamed",x,y)); }
	if(pairs){ auto F=changes(base,true); for(unsigned i=0;i<F.size();++i) for(unsigned j=0;j<F.size();++j) if(F[j].pos>=0&&F[j].mem<12&&!(F[i].mem==F[j].mem&&F[i].pos==F[j].pos)){ ContractionHierarchy h=base; apply(h,F[i]); if(F[j].pos>=(int)members(h)[F[j].mem]->size()) continue; apply(h,F[j]); one(h,str(F[i])+" and "+str(F[j])); } }
}
void error_suites(std::vector<Suite>&v){
	bool T=vx::opt().thorough(), A=vx::opt().asan();
	auto mk=[&](std::string name, std::string b, auto sp, int how){
		Suite s; s.name=name; s.bounds=b; s.count=sp.count(); s.describe=[sp](uint64_t i){ return ::str(sp.at(i)); };
		s.run=[=](uint64_t i, Ctx&c){ G g=sp.at(i); for(unsigned k=0;k<3;++k) for(unsigned mp:{500u,0u}){ auto ch=build(g,k,order_pattern(k,g.n),mp); c.note=bstr(k,order_pattern(k,g.n),mp); accept_check(c,g,ch); if(!ref_valid(ch)) c.fail("a freshly built hierarchy is not valid"); if(how) refuse_check(c,ch,how>1&&k==1&&mp==0); } };
		v.push_back(s);
	};
	mk("n2_loops","all graphs on 2 nodes incl. loops, weights {0,1,inf-1,inf} (with memory checks: {0,inf-1}); every single change of every member, and all pairs of changes over a smaller alphabet",A?SlotSpace(2,true,{0,INF-1}):SlotSpace(2,true,{0,1,INF-1,INF}),2);
	mk("n3_big","3 nodes, weights {1,inf-1}: every single change of every member",SlotSpace(3,false,{1,INF-1}),A?1:1);
	mk("n3_pairs","3 nodes, weight 2: every pair of changes",SlotSpace(3,false,{2}),2);
	if(!A){
		mk("n4","4 nodes, all sets of 4 arcs, weight 1: every single change",SubsetSpace(4,4,{1}),1);
		mk("n4_built","all loop free graphs on 4 nodes, weights {0,1}: built and loaded hierarchies are accepted",SlotSpace(4,false,{0,1}),0);
		mk("n4_sets_big","4 nodes, all sets of 4 arcs, weights {2,2^30,inf-1,inf}: built and loaded hierarchies are accepted",SubsetSpace(4,4,{2,1u<<30,INF-1,INF}),0);
		mk("n3_list4","3 nodes, all ordered lists of 4 arcs with loops, weights {1,2}: accepted",ListSpace(3,4,true,{1,2}),0);
	}
	if(T&&!A){ mk("n4_m6","4 nodes, all sets of 6 arcs, weights {1,2}: every single change",SubsetSpace(4,6,{1,2}),1); mk("n5_m5","5 nodes, all sets of 5 arcs, weight 1: every single change",SubsetSpace(5,5,{1}),1); mk("n4_pairs","4 nodes, all sets of 4 arcs, weight 1: every pair of changes",SubsetSpace(4,4,{1}),2); }
	std::vector<unsigned>sizes={0,1,2,5,9,17,33,65}; if(!A) for(unsigned x:{129,257,513,600}) sizes.push_back(x);
	Suite s; s.name="families"; s.bounds="13 families x sizes 0..600 x 3 weight patterns x build(), order, rank: accepted; up to 17 nodes every single change of every member";
	s.count=sizes.size()*F_COUNT*3*3;
	auto dec=[=](uint64_t i){ vx::Dec d(i); unsigned p=d.get(3),k=d.get(3),f=d.get(F_COUNT),n=sizes[d.get(sizes.size())]; return std::vector<unsigned>{f,n,p==2?4u:p,k}; };
	s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u pattern=%u kind=%u",family_name(k[0]),k[1],k[2],k[3]); };
	s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); unsigned n=k[1]; if((k[0]==F_COMPLETE||k[0]==F_LCG_DENSE||k[0]==F_LCG_SPARSE)&&n>65) n=65; G g=family(k[0],n,k[2]); auto ch=build(g,k[3],order_pattern(4,n),k[3]==1?0:500); accept_check(c,g,ch); if(!ref_valid(ch)) c.fail("a freshly built hierarchy is not valid"); if(n<=(A?9u:17u)) refuse_check(c,ch,false); };
	s.chunk=1; s.case_timeout=120; v.push_back(s);
}

// ---------------------------------------------------------------- sizes beyond 16 bits, for all properties
void wide_suite(std::vector<Suite>&v, const std::string&prop){
	if(vx::opt().asan()) return; bool T=vx::opt().thorough(); unsigned N=T?3:2,K=3;
	Suite s; s.name="beyond_16_bits"; s.bounds=fmt("paths, trees, ladders, one-way cycles and chains of cliques with 65535..%u nodes, build() and a given order, three weight patterns; queries from 3 nodes to a sample of the nodes (all nodes for pinned queries)",WIDE_N[N-1]); s.count=N*WIDE_FAMILIES*K; s.chunk=1; s.case_timeout=200;
	auto dec=[=](uint64_t i){ vx::Dec d(i); unsigned f=d.get(WIDE_FAMILIES),k=d.get(K),n=d.get(N); return std::vector<unsigned>{WIDE_F[f],WIDE_N[n],k==0?0u:k==1?2u:4u,k}; };
	s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u pattern=%u kind=%u",family_name(k[0]),k[1],k[2],k[3]); };
	s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); unsigned n=k[1]; G g=family(k[0],n,k[2]); G r=reversed(g); auto o=k[3]?wide_order(k[0],n):std::vector<unsigned>(); auto ch=build(g,k[3],o,k[3]==2?5:500); c.eqs(ch.node_count(),n,"node count"); ContractionHierarchyQuery q(ch); std::vector<unsigned>all(n); for(unsigned x=0;x<n;++x) all[x]=x;
		std::vector<unsigned>src={0u,n-1,n/2+7};
		std::unique_ptr<ContractionHierarchy>copy; std::unique_ptr<ContractionHierarchyQuery>qc; if(prop=="C06"){ std::string x=dump(ch); copy.reset(new ContractionHierarchy(ContractionHierarchy::read(std::function<void(char*,unsigned long long)>(StrSource{x}),x.size()))); std::string f=fmt("%s/wide.%d",vx::opt().scratch.c_str(),(int)getpid()); copy->save_file(f); *copy=ContractionHierarchy::load_file(f); unlink(f.c_str()); qc.reset(new ContractionHierarchyQuery(*copy)); }
		ContractionHierarchyExtraWeight<unsigned>ex; std::vector<unsigned>ones(g.m(),1); auto plus=[](unsigned a, unsigned b){ return a+b; }; if(prop=="C05") ex.reset(ch,ones,plus);
		if(prop=="C03"){ G sm=family(F_GRID,9,2); auto cs=build(sm,0,{},500); auto Ds=floyd(sm); auto d0=sssp(g,g.w,src[2]); for(unsigned rep=0;rep<3;++rep){ q.reset(ch); q.add_source(src[2],3).add_target(n-1,4).run(); c.eqs(q.get_distance(),cap(d0[n-1]+7),"distance in the large hierarchy"); if(rep) q.reset(); q.pin_targets({n-1,65536%n,0}); if(rep>1){ auto x=q.reset_source().add_source(src[2]).run_to_pinned_targets().get_distances_to_targets(); c.eqs(x[1],cap(d0[65536%n]),"pinned distance in the large hierarchy"); } q.reset(cs); c.transitions+=6; for(unsigned t=0;t<9;++t) query(c,sm,Ds,q,{{rep,0}},{{t,1}},DIST|PATH); q.reset(ch); for(unsigned t:wide_probes(n,20)){ q.reset().add_source(src[2]).add_target(t).run(); c.eqs(q.get_distance(),cap(d0[t]),"distance after the switch"); } ++c.traces; } return; }
		if(prop=="C35"){ accept_check(c,g,ch); if(!ref_valid(ch)) c.fail("not valid"); unsigned m=ch.forward.head.size(); auto K=[&](const char*what, std::function<void(ContractionHierarchy&)>f){ ContractionHierarchy h=ch; f(h); ++c.transitions; c.note=what; if(verdict(h)!=(ref_valid(h)?0:1)) c.fail("wrong verdict"); };
			for(unsigned x:wide_probes(n,6)) for(unsigned y:{0u,x-65536,x+65536,x^65536,n,n-1,invalid_id}){ K("order",[&](ContractionHierarchy&h){ h.order[x]=y; }); K("rank",[&](ContractionHierarchy&h){ h.rank[x]=y; }); K("first_out",[&](ContractionHierarchy&h){ h.forward.first_out[x]=y; }); K("backward first_out",[&](ContractionHierarchy&h){ h.backward.first_out[x]=y; }); unsigned a=(unsigned)((u64)x*m/n); if(a<m){ K("head",[&](ContractionHierarchy&h){ h.forward.head[a]=y; }); K("weight",[&](ContractionHierarchy&h){ h.forward.weight[a]=y; }); K("second",[&](ContractionHierarchy&h){ h.forward.shortcut_second_arc[a]=y; }); K("first",[&](ContractionHierarchy&h){ h.forward.shortcut_first_arc[a]=y; }); } }
			return; }
		if(prop=="C04"){ for(unsigned s0:src) for(unsigned dir=0;dir<2;++dir){ auto d=sssp(dir?r:g,g.w,s0); if(s0==src[0]||s0==src[2]){ q.reset(); if(dir) q.pin_sources(all); else q.pin_targets(all); } else { if(dir) q.reset(),q.pin_sources(all); else q.reset(),q.pin_targets(all); } for(unsigned rep=0;rep<2;++rep){ auto x= dir? q.reset_target().add_target(s0,rep).run_to_pinned_sources().get_distances_to_sources() : q.reset_source().add_source(s0,rep).run_to_pinned_targets().get_distances_to_targets(); auto u= dir? q.get_used_targets_to_sources() : q.get_used_sources_to_targets(); c.transitions+=4; ++c.traces; for(unsigned t=0;t<n;++t){ c.eq(x[t],cap(d[t]+(d[t]<INF64?rep:0)),[&]{ return fmt("pinned distance %u %u direction %u",s0,t,dir); }); c.eq(u[t],x[t]==INF?invalid_id:s0,[&]{ return fmt("used endpoint of %u",t); }); } } } return; }
		for(unsigned s0:src){ auto d=sssp(g,g.w,s0),b=sssp(r,g.w,s0); bool paths=prop!="C01"&&prop!="C03"; for(unsigned t:wide_probes(n,paths?25:1500)) for(unsigned dir=0;dir<2;++dir){ unsigned a=dir?t:s0,z=dir?s0:t; u64 D=dir?b[t]:d[t]; unsigned want=D>=INF64?INF:cap(D+3); q.reset().add_source(a,1).add_target(z,2).run(); c.transitions+=4; ++c.traces; c.eq(q.get_distance(),want,[&]{ return fmt("distance %u->%u",a,z); });
			if(prop=="C02") check_path(c,g,g.w,{{a,1}},{{z,2}},want,q.get_used_source(),q.get_used_target(),q.get_node_path(),q.get_arc_path());
			if(prop=="C05"){ unsigned hops=q.get_arc_path().size(); c.eq(q.get_extra_weight_distance(ones,plus),hops,[&]{ return std::string("sum of extra weights"); }); c.eq(q.get_extra_weight_distance(ex,plus),hops,[&]{ return std::string("sum of precomputed extra weights"); }); }
			if(prop=="C06"){ qc->reset().add_source(a,1).add_target(z,2).run(); c.eq(qc->get_distance(),want,[&]{ return fmt("distance %u->%u after loading",a,z); }); c.eq(qc->get_arc_path(),q.get_arc_path(),[&]{ return std::string("arc path after loading"); }); } }
			if(prop=="C05"){ q.reset().pin_targets(all); q.add_source(s0).run_to_pinned_targets(); auto x=q.get_extra_weight_distances_to_targets(g.w,plus); auto y=q.get_extra_weight_distances_to_targets(ContractionHierarchyExtraWeight<unsigned>(ch,g.w,plus),plus); for(unsigned t=0;t<n;++t) if(d[t]<INF){ c.eq(x[t],(unsigned)d[t],[&]{ return fmt("pinned sum of %u",t); }); c.eq(y[t],(unsigned)d[t],[&]{ return fmt("pinned precomputed sum of %u",t); }); } } }
	};
	v.push_back(s);
}
// node ids and ranks that agree in their lower 16 bits
void twin_suite(std::vector<Suite>&v, const std::string&prop){
	if(vx::opt().asan()) return; Suite s; s.name="twin_ids"; s.bounds="13 families of 6 and 14 nodes, 2 weight patterns, build() and two given orders, whose nodes (in given orders also ranks) come in pairs that differ by 65536: all pairs"; s.count=F_COUNT*2*2*3; s.chunk=1; s.case_timeout=200;
	auto dec=[=](uint64_t i){ vx::Dec d(i); unsigned k=d.get(3),p=d.get(2)?4:2,n=d.get(2)?14:6,f=d.get(F_COUNT); return std::vector<unsigned>{f,n,p,k}; };
	s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u pattern=%u kind=%u",family_name(k[0]),k[1],k[2],k[3]); };
	s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); unsigned n=k[1]; G a=family(k[0],n,k[2]); auto D=floyd(a); G g=twin_graph(a); std::vector<unsigned>o(g.n); for(unsigned x=0;x<g.n;++x) o[x]=k[3]==2?g.n-1-x:x; auto ch=build(g,k[3]?1:0,o,k[3]==2?0:500); ContractionHierarchyQuery q(ch);
		for(unsigned x=0;x<n;++x) for(unsigned y=0;y<n;++y){ unsigned s0=twin_id(x),t0=twin_id(y); u64 d=D(x,y); unsigned want=d>=INF64?INF:cap(d+3); q.reset().add_source(s0,1).add_target(t0,2).run(); c.transitions+=4; ++c.traces; ++c.states; c.eq(q.get_distance(),want,[&]{ return fmt("distance %u->%u",s0,t0); }); if(prop=="C02") check_path(c,g,g.w,{{s0,1}},{{t0,2}},want,q.get_used_source(),q.get_used_target(),q.get_node_path(),q.get_arc_path()); }
		if(prop=="C04"){ std::vector<unsigned>all; for(unsigned x=0;x<n;++x) all.push_back(twin_id(x)); for(unsigned dir=0;dir<2;++dir){ q.reset(); if(dir) q.pin_sources(all); else q.pin_targets(all); for(unsigned x=0;x<n;++x){ auto r= dir? q.reset_target().add_target(all[x]).run_to_pinned_sources().get_distances_to_sources() : q.reset_source().add_source(all[x]).run_to_pinned_targets().get_distances_to_targets(); for(unsigned y=0;y<n;++y){ u64 d=dir?D(y,x):D(x,y); c.eq(r[y],d>=INF64?INF:cap(d),[&]{ return fmt("pinned distance %u %u direction %u",all[x],all[y],dir); }); } } } }
	}; v.push_back(s);
}
void hub_suite(std::vector<Suite>&v, const std::string&prop){ // a node with more than 2^16 arcs
	if(vx::opt().asan()) return; static const unsigned ns[]={65537,65535}; Suite s; s.name="large_degree"; s.bounds="a node with 65535 and 65537 outgoing and one incoming arc or the reverse, contracted first, last, or as build() decides; queries between the ends of the arcs"; s.count=2*2*3; s.chunk=1; s.case_timeout=200;
	s.describe=[=](uint64_t i){ return fmt("%u %s arcs, %s",ns[i/6],i/3%2?"incoming":"outgoing",i%3==0?"build()":i%3==1?"hub contracted first":"hub contracted last"); };
	s.run=[=](uint64_t i, Ctx&c){ unsigned d=ns[i/6],n=d+2,k=i%3; bool in=i/3%2; G g; g.n=n; auto arc=[&](unsigned x, unsigned y, unsigned w){ if(in) g.add(y,x,w); else g.add(x,y,w); }; auto W=[](unsigned x){ return 1+x*7919u%1000; }; arc(1,0,5); for(unsigned x=2;x<n;++x) arc(0,x,W(x)); std::vector<unsigned>o(n); for(unsigned x=0;x<n;++x) o[x]=k==2?n-1-x:x; auto ch=build(g,k?1:0,o,500); ContractionHierarchyQuery q(ch); unsigned f0=k%2;
		for(unsigned t:wide_probes(n,prop=="C02"?40:400)) for(unsigned f:{f0,1-f0,n-1}){ unsigned a=in?t:f,z=in?f:t; unsigned want= f==t?0: f==0? (t==1?INF:W(t)) : f==1? (t==0?5:5+W(t)) : INF; q.reset().add_source(a).add_target(z).run(); c.transitions+=4; ++c.traces; ++c.states; c.eq(q.get_distance(),want,[&]{ return fmt("distance %u->%u",a,z); }); if(prop=="C02") check_path(c,g,g.w,{{a,0}},{{z,0}},want,q.get_used_source(),q.get_used_target(),q.get_node_path(),q.get_arc_path()); }
	}; v.push_back(s);
}
// ---------------------------------------------------------------- many endpoints
void crowd_suite(std::vector<Suite>&v, const std::string&prop){
	bool A=vx::opt().asan(); static const unsigned fs[]={F_GRID,F_LCG_SPARSE,F_CYCLE,F_TREE,F_CLIQUES,F_EMPTY}; std::vector<unsigned>ns={6,12,40}; if(!A) for(unsigned x:{70,140,300}) ns.push_back(x);
	Suite s; s.name="many_endpoints"; s.bounds=fmt("6 graph families x 6..%u nodes x build() and a given order: 4 up to twice as many endpoints as there are nodes, counts around powers of two, four node and offset patterns, on one side and on both sides",ns.back()); s.count=6*ns.size()*2; s.chunk=1; s.case_timeout=120;
	auto dec=[=](uint64_t i){ vx::Dec d(i); unsigned f=fs[d.get(6)],k=d.get(2),n=ns[d.get(ns.size())]; return std::vector<unsigned>{f,k,f==F_LCG_SPARSE&&n>70?70u:n}; };
	s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u kind=%u",family_name(k[0]),k[2],k[1]); };
	s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); unsigned n=k[2]; G g=family(k[0],n,2); auto D=all_pairs(g); auto ch=build(g,k[1],order_pattern(4,n),500); ContractionHierarchyQuery q(ch); auto E=crowds(n);
		if(prop=="C04"){ std::vector<unsigned>a; for(unsigned x=0;x<n;x+=1+n/20) a.push_back(x); auto r=a; r.insert(r.end(),a.rbegin(),a.rend()); pinned_check(c,g,D,ch,{a,r},E,true); return; }
		unsigned mode=prop=="C01"?DIST:DIST|PATH;
		for(unsigned j=0;j<E.size();++j){ query(c,g,D,q,E[j],{{n/2,0}},mode); query(c,g,D,q,{{j%n,1}},E[j],mode); query(c,g,D,q,E[j],E[(j*3+1)%E.size()],mode); } };
	v.push_back(s);
}
void make(std::vector<Suite>&v, const std::string&prop){
	if(prop=="C01"||prop=="C02"||prop=="C03"||prop=="C04") crowd_suite(v,prop);
	wide_suite(v,prop); if(prop=="C01"||prop=="C02"||prop=="C04") twin_suite(v,prop); if(prop=="C01"||prop=="C02") hub_suite(v,prop);
	if(prop=="C01"||prop=="C02") transfer_suite(v);
	if(prop=="C01") exact_suites(v,DIST);
	else if(prop=="C02") exact_suites(v,DIST|PATH);
	else if(prop=="C03") history_suites(v);
	else if(prop=="C04") pinned_suites(v);
	else if(prop=="C05") extra_suites(v);
	else if(prop=="C06") storage_suites(v);
	else if(prop=="C35") error_suites(v);
}
}
int main(int argc, char**argv){ if(argc<2) return 2; std::string p=argv[1]; return vx::run_all(argc-1,argv+1,p,make); }
