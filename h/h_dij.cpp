// C13 Dijkstra, C14 queues and flag sets
#include "vx.h"
#include "graphs.h"
#include <routingkit/dijkstra.h>
#include <routingkit/id_queue.h>
#include <routingkit/id_set_queue.h>
#include <routingkit/timestamp_flag.h>
#include <set>
#include <map>
#include <memory>
using namespace RoutingKit;
using vx::Ctx; using vx::Suite; using vx::fmt; using vx::str;
typedef std::vector<unsigned> V;
namespace{
// ---------------------------------------------------------------- C13
struct Graph{ V first_out,tail,head,w; unsigned n=0; };
Graph adjacency(const G&g){
	Graph r; r.n=g.n; r.first_out.assign(g.n+1,0); V p(g.m()); for(unsigned i=0;i<p.size();++i) p[i]=i; std::stable_sort(p.begin(),p.end(),[&](unsigned a, unsigned b){ return g.tail[a]<g.tail[b]; });
	for(unsigned i:p){ r.tail.push_back(g.tail[i]); r.head.push_back(g.head[i]); r.w.push_back(g.w[i]); ++r.first_out[g.tail[i]+1]; } for(unsigned i=0;i<g.n;++i) r.first_out[i+1]+=r.first_out[i]; return r;
}
// weight functions; all have the FIFO property
enum{ W_CONST, W_TIMETABLE, W_RUSH, N_W };
unsigned weight_at(unsigned kind, unsigned w, unsigned a, unsigned t){
	if(w>=INF) return INF;
	switch(kind){
		case W_CONST: return w;
		case W_TIMETABLE:{ unsigned p=2+a%3; return (p-t%p)%p+w; }               // wait for the next departure
		default: return t<4? w+(4-t) : w;                                           // falls by one per time unit: still FIFO
	}
}
struct Labels{ std::vector<u64>d; };
// reference: Bellman-Ford earliest arrival
std::vector<u64> reference(const Graph&g, unsigned kind, const Eps&S){
	std::vector<u64>d(g.n,INF64); for(auto&s:S) d[s.node]=std::min<u64>(d[s.node],s.off);
	if(g.n>130){ // label setting with a binary heap; exact because the weight functions have the FIFO property
		typedef std::pair<u64,unsigned>P; std::priority_queue<P,std::vector<P>,std::greater<P>>q; for(unsigned x=0;x<g.n;++x) if(d[x]<INF64) q.push({d[x],x});
		while(!q.empty()){ P p=q.top(); q.pop(); if(p.first>d[p.second]) continue; for(unsigned a=g.first_out[p.second];a<g.first_out[p.second+1];++a){ unsigned w=weight_at(kind,g.w[a],a,(unsigned)p.first); if(w<INF&&p.first+w<d[g.head[a]]){ d[g.head[a]]=p.first+w; q.push({p.first+w,g.head[a]}); } } }
		return d;
	}
	for(unsigned round=0;round<=g.n;++round) for(unsigned a=0;a<g.tail.size();++a) if(d[g.tail[a]]<INF64){ unsigned w=weight_at(kind,g.w[a],a,(unsigned)d[g.tail[a]]); if(w<INF) d[g.head[a]]=std::min<u64>(d[g.head[a]],d[g.tail[a]]+w); }
	return d;
}
void check_node(Ctx&c, const Dijkstra&d, const Graph&g, unsigned kind, const Eps&S, unsigned x, bool settled, u64 want){
	c.eq(d.was_node_reached(x),settled,[&]{ return fmt("was_node_reached(%u)",x); });
	unsigned dist=d.get_distance_to(x); auto np=d.get_node_path_to(x),ap=d.get_arc_path_to(x);
	if(!settled){ c.eq(dist,INF,[&]{ return fmt("distance to the not reached node %u",x); }); if(!np.empty()||!ap.empty()) c.fail(fmt("path to the not reached node %u",x)); return; }
	c.eq((u64)dist,want,[&]{ return fmt("distance to %u",x); });
	if(np.size()!=ap.size()+1||np.back()!=x) c.fail(fmt("path to %u: nodes %s arcs %s",x,str(np).c_str(),str(ap).c_str()));
	u64 t=INF64; for(auto&s:S) if(s.node==np[0]) t=std::min<u64>(t,s.off); if(t>=INF64) c.fail(fmt("path to %u starts at %u which is not a source",x,np[0]));
	for(unsigned i=0;i<ap.size();++i){ unsigned a=ap[i]; if(a>=g.tail.size()||g.tail[a]!=np[i]||g.head[a]!=np[i+1]) c.fail(fmt("arc path %s and node path %s to %u do not fit",str(ap).c_str(),str(np).c_str(),x)); unsigned w=weight_at(kind,g.w[a],a,(unsigned)t); if(w>=INF) c.fail("path over an arc of infinite weight"); t+=w; }
	c.eq(t,want,[&]{ return fmt("length of path to %u",x); });
}
// settles `limit` nodes, judging every intermediate state
void drive(Ctx&c, Dijkstra&d, const Graph&g, unsigned kind, const Eps&S, unsigned limit=~0u, bool every_step=true){
	auto want=reference(g,kind,S); std::vector<bool>settled(g.n,false); unsigned last=0,steps=0; unsigned reach=0; for(u64 x:want) if(x<INF64) ++reach;
	for(auto&s:S) d.add_source(s.node,s.off);
	while(!d.is_finished()&&steps<limit){
		auto r= kind==W_CONST ? d.settle(ScalarGetWeight(g.w)) : d.settle([&](unsigned a, unsigned t){ return weight_at(kind,g.w[a],a,t); });
		++c.transitions; ++steps;
		if(r.node>=g.n||settled[r.node]) c.fail(fmt("node %u is settled twice",r.node)); settled[r.node]=true;
		if(r.distance<last) c.fail(fmt("node %u is settled at %u after %u",r.node,r.distance,last)); last=r.distance;
		c.eq((u64)r.distance,want[r.node],[&]{ return fmt("settle distance of %u",r.node); });
		if(every_step) for(unsigned x=0;x<g.n;++x) check_node(c,d,g,kind,S,x,settled[x],want[x]);
	}
	if(steps<limit){ c.eq(steps,reach,[]{ return std::string("number of settled nodes"); }); c.expect(d.is_finished(),"not finished"); }
	for(unsigned x=0;x<g.n;++x) if(g.n<=1000||x%9973==0||x+1==g.n) check_node(c,d,g,kind,S,x,settled[x],want[x]); else { c.eq(d.was_node_reached(x),(bool)settled[x],[&]{ return fmt("was_node_reached(%u)",x); }); c.eq(d.get_distance_to(x),settled[x]?(unsigned)want[x]:INF,[&]{ return fmt("distance to %u",x); }); }
	++c.traces;
}
std::vector<Eps> source_sets(unsigned n){
	std::vector<Eps>r; for(unsigned s=0;s<n;++s) r.push_back({{s,0}}); if(n>=2){ r.push_back({{0,0},{1,1}}); r.push_back({{1,3},{0,0}}); r.push_back({{0,5},{n-1,5}}); } if(n>=3) r.push_back({{2,1},{1,0},{0,2}}); r.push_back({}); if(n) r.push_back({{n-1,7}}); return r;
}
template<class Space> Suite graph_suite(std::string name, std::string bounds, Space sp, unsigned kinds){
	Suite s; s.name=name; s.bounds=bounds; s.count=sp.count();
	s.describe=[=](uint64_t i){ return ::str(sp.at(i)); };
	s.run=[=](uint64_t i, Ctx&c){ Graph g=adjacency(sp.at(i)); Dijkstra d(g.first_out,g.tail,g.head); bool first=true;
		for(unsigned k=0;k<N_W;++k) if(kinds>>k&1) for(auto&S:source_sets(g.n)){ c.note=fmt("weight function %u sources %s",k,::str(S).c_str()); if(!first) d.reset(); first=false; drive(c,d,g,k,S); } };
	return s;
}
// histories of one object over several graphs
void history(Ctx&c, uint64_t ops, unsigned depth){
	static const G gs[4]={family(F_GRID,4,0),family(F_LCG_SPARSE,7,2),family(F_PATH,2,0),family(F_LCG_DENSE,4,2)};
	Graph cur; Dijkstra d; vx::Dec dec(ops); std::string log; bool have=false; bool clean=true; Dijkstra saved; 
	Graph pool[4]; for(unsigned i=0;i<4;++i) pool[i]=adjacency(gs[i]); const Graph*g=0; Graph inplace; std::unique_ptr<Graph>heap;
	for(unsigned k=0;k<depth;++k){
		unsigned op=dec.get(12); c.note=fmt("history %llu step %u op %u%s",(unsigned long long)ops,k,op,log.c_str()); ++c.transitions;
		if(op<4){ d.reset(pool[op].first_out,pool[op].tail,pool[op].head); g=&pool[op]; have=true; clean=true; }
		else if(op<7){ static const unsigned w[]={1,2,0}; inplace=pool[w[op-4]]; d.reset(inplace.first_out,inplace.tail,inplace.head); g=&inplace; have=true; clean=true; } // the same vectors with new content
		else if(op==7){ heap.reset(new Graph(pool[k%4])); d.reset(heap->first_out,heap->tail,heap->head); g=heap.get(); have=true; clean=true; }                        // the old vectors are gone
		else if(op==8){ if(have){ d.reset(); clean=true; } }
		else if(op==9){ if(have&&clean){ drive(c,d,*g,k%N_W,{{g->n-1,k}},2); clean=false; } }
		else if(op==10){ if(have&&clean){ drive(c,d,*g,W_CONST,{{0,3},{g->n-1,0}},0); clean=false; } }                                                                     // sources that are never settled
		else { if(have&&clean){ Dijkstra e(d); drive(c,e,*g,W_CONST,{{0,1}}); drive(c,d,*g,(k+1)%N_W,{{0,0},{g->n-1,2}}); clean=false; } }
		// a graph that is no longer alive must not be used by later steps
		if(op==7&&g!=heap.get()) have=false;
		if(op>=4&&op<7&&g!=&inplace) have=false;
	}
	c.note="final run";
	if(have){ d.reset(); drive(c,d,*g,W_CONST,{{0,0}}); }
}
void make13(std::vector<Suite>&v){
	bool T=vx::opt().thorough(),A=vx::opt().asan();
	v.push_back(graph_suite("all_n1_n2","every graph with 2 nodes and 3 arcs, weights 0,1,5,inf, all weight functions",ListSpace(2,3,true,{0,1,5,INF}),7));
	v.push_back(graph_suite("all_n3","every graph with 3 nodes, each arc (loops too) absent or weight 0/1/3",SlotSpace(3,true,A?V{0,3}:V{0,1,3}),A?1:7));
	if(!A||T) v.push_back(graph_suite("all_n4","every graph with 4 nodes, each arc absent, 1 or 4",SlotSpace(4,false,{1,4}),T?7:1));
	v.push_back(graph_suite("multi_n3","every list of 4 arcs on 3 nodes, weights 1,2,inf",ListSpace(3,A?3:4,false,{1,2,INF}),T?7:3));
	v.push_back(graph_suite("sparse_n5",fmt("every set of %u arcs on 5 nodes, weights 1,3",T?6:5),SubsetSpace(5,T?6:(A?4:5),T?V{1,3}:V{1}),3));
	{ Suite s; s.name="families"; std::vector<unsigned>ns= T?V{1,2,5,17,40,120}:V{1,2,5,17,40}; s.bounds="graph families, all weight patterns and functions, every source"; s.count=F_COUNT*ns.size()*PATTERNS;
	  auto at=[ns](uint64_t i){ vx::Dec d(i); unsigned f=d.get(F_COUNT),n=ns[d.get(ns.size())],p=d.get(PATTERNS); return family(f,n,p); };
	  s.describe=[=](uint64_t i){ return ::str(at(i)); };
	  s.run=[=](uint64_t i, Ctx&c){ Graph g=adjacency(at(i)); Dijkstra d(g.first_out,g.tail,g.head); bool first=true; for(unsigned k=0;k<N_W;++k) for(unsigned x=0;x<g.n;x+=1+g.n/8){ c.note=fmt("function %u source %u",k,x); if(!first) d.reset(); first=false; drive(c,d,g,k,{{x,x},{(x*3+1)%g.n==x?(x+1)%g.n:(x*3+1)%g.n,4}},~0u,g.n<=5); if(g.n==1) break; } };
	  // with one node the two sources would coincide
	  auto r=s.run; s.run=[=](uint64_t i, Ctx&c){ if(at(i).n==1){ Graph g=adjacency(at(i)); Dijkstra d(g.first_out,g.tail,g.head); drive(c,d,g,0,{{0,3}}); return; } r(i,c); };
	  v.push_back(s); }
	{ Suite s; unsigned depth=A?4:T?6:5; s.name="histories"; s.bounds=fmt("all sequences of %u operations (reset to 4 graphs, to vectors changed in place, to vectors whose predecessors were destroyed, reset, sources added without a run, partial run, full run on copy and original)",depth); s.count=vx::ipow(12,depth);
	  s.describe=[](uint64_t i){ return fmt("history %llu",(unsigned long long)i); }; s.run=[=](uint64_t i, Ctx&c){ history(c,i,depth); }; v.push_back(s); }
	if(!A){ Suite s; static const unsigned ns[]={65535,65536,65537,131075}, fs[]={F_PATH,F_STAR,F_TREE,F_GRID,F_LCG_SPARSE,F_LCG_DENSE}; s.name="beyond_16_bits"; s.bounds="path, star, tree, grid and pseudo random families with 65535..65537 and 131075 nodes, several weight patterns, constant and time dependent weights, full and partial searches"; s.count=6*4*3; s.chunk=1;
	  auto at=[](uint64_t i){ vx::Dec d(i); unsigned f=fs[d.get(6)],n=ns[d.get(4)],p=d.get(3); return family(f,n,p); };
	  s.describe=[=](uint64_t i){ vx::Dec d(i); unsigned f=d.get(6),n=ns[d.get(4)],p=d.get(3); return fmt("family %u n %u pattern %u",fs[f],n,p); };
	  s.run=[=](uint64_t i, Ctx&c){ Graph g=adjacency(at(i)); Dijkstra d(g.first_out,g.tail,g.head); drive(c,d,g,W_CONST,{{0,0}},~0u,false); d.reset(); drive(c,d,g,W_TIMETABLE,{{g.n-1,1},{0,7}},g.n/2,false); d.reset(); drive(c,d,g,W_CONST,{{g.n-1,1},{g.n/2,0}},~0u,false); }; v.push_back(s); }
	{ static const unsigned ns[]={6,40,140,300}; Suite s; s.name="many_sources"; s.bounds="graph families x 6..300 nodes, all weight functions: 4 to all nodes are sources, counts around powers of two, four node and departure time patterns, full and partial searches"; s.count=F_COUNT*(A?2:4); s.chunk=1; auto at=[](uint64_t i){ return family(i%F_COUNT,ns[i/F_COUNT],2); }; s.describe=[=](uint64_t i){ return fmt("%s n=%u",family_name(i%F_COUNT),ns[i/F_COUNT]); };
	  s.run=[=](uint64_t i, Ctx&c){ Graph g=adjacency(at(i)); Dijkstra d(g.first_out,g.tail,g.head); bool first=true; unsigned j=0; for(auto&S:crowds(g.n,false)) for(unsigned k=0;k<N_W;++k,++j){ c.note=fmt("weight function %u sources ",k)+::str(S); if(!first) d.reset(); first=false; drive(c,d,g,k,S,j%4==3?g.n/2:~0u,g.n<=6); } }; v.push_back(s); }
	{ Suite s; s.name="many_resets"; s.bounds="65530..65544 resets between two searches"; s.count=15; s.describe=[](uint64_t i){ return fmt("%u resets",65530+(unsigned)i); };
	  s.run=[](uint64_t i, Ctx&c){ Graph g=adjacency(family(F_GRID,9,2)),h=adjacency(family(F_PATH,9,2)); Dijkstra d(g.first_out,g.tail,g.head); drive(c,d,g,0,{{0,0}}); for(unsigned k=0;k<65530+i;++k) d.reset(); drive(c,d,g,0,{{8,0}},3); d.reset(h.first_out,h.tail,h.head); drive(c,d,h,0,{{4,0}},2); for(unsigned k=0;k<65533;++k) d.reset(); drive(c,d,h,0,{{0,0}}); };
	  v.push_back(s); }
}
// ---------------------------------------------------------------- C14
struct QModel{ std::map<unsigned,unsigned>k; };
void check_queue(Ctx&c, MinIDQueue&q, const QModel&m, unsigned n){
	c.eq((unsigned)q.size(),(unsigned)m.k.size(),[]{ return std::string("size"); }); c.eq(q.empty(),m.k.empty(),[]{ return std::string("empty"); }); c.eq(q.id_count(),n,[]{ return std::string("id_count"); });
	for(unsigned i=0;i<n;++i){ auto it=m.k.find(i); c.eq(q.contains_id(i),it!=m.k.end(),[&]{ return fmt("contains %u",i); }); if(it!=m.k.end()) c.eq(q.get_key(i),it->second,[&]{ return fmt("key of %u",i); }); }
	if(!m.k.empty()){ unsigned mn=~0u; for(auto&x:m.k) mn=std::min(mn,x.second); auto p=q.peek(); c.eq(p.key,mn,[]{ return std::string("peek key"); }); auto it=m.k.find(p.id); if(it==m.k.end()||it->second!=p.key) c.fail(fmt("peek returns %u with key %u",p.id,p.key)); }
}
void pop_checked(Ctx&c, MinIDQueue&q, QModel&m){ unsigned mn=~0u; for(auto&x:m.k) mn=std::min(mn,x.second); auto p=q.pop(); ++c.transitions; c.eq(p.key,mn,[]{ return std::string("popped key"); }); auto it=m.k.find(p.id); if(it==m.k.end()||it->second!=p.key) c.fail(fmt("pop returns %u with key %u",p.id,p.key)); m.k.erase(it); }
void drain(Ctx&c, MinIDQueue q, QModel m, unsigned n){ while(!m.k.empty()) { pop_checked(c,q,m); check_queue(c,q,m,n); } ++c.traces; }
void queue_seq(Ctx&c, unsigned n, unsigned keys, unsigned depth, uint64_t first){
	// depth first over all legal operation sequences; the first operation is fixed by the case
	struct Op{ unsigned kind,id,key; };
	std::vector<Op>ops; for(unsigned i=0;i<n;++i) for(unsigned k=0;k<keys;++k) for(unsigned t=0;t<3;++t) ops.push_back({t,i,k}); ops.push_back({3,0,0}); ops.push_back({4,0,0}); ops.push_back({5,0,0});
	std::function<void(const MinIDQueue&,const QModel&,unsigned,const std::string&)>rec=[&](const MinIDQueue&q0, const QModel&m0, unsigned d, const std::string&log){
		for(unsigned o=0;o<ops.size();++o){
			if(d==0&&o!=first%ops.size()) continue; if(d==1&&o!=first/ops.size()) continue;
			auto&p=ops[o]; bool in=m0.k.count(p.id);
			if(p.kind==0&&in) continue; if((p.kind==1||p.kind==2)&&!in) continue; if(p.kind==3&&m0.k.empty()) continue;
			MinIDQueue q(q0); QModel m(m0); std::string l=log+fmt(" %s(%u,%u)",p.kind==0?"push":p.kind==1?"decrease":p.kind==2?"increase":p.kind==3?"pop":p.kind==4?"clear":"swap",p.id,p.key); c.note=l; ++c.transitions;
			static const unsigned kv[]={0,5,7,0xffffffffu}; unsigned key=kv[p.key];
			if(p.kind==0){ q.push({p.id,key}); m.k[p.id]=key; }
			else if(p.kind==1){ bool want=key<m.k[p.id]; c.eq(q.decrease_key({p.id,key}),want,[]{ return std::string("decrease_key result"); }); if(want) m.k[p.id]=key; }
			else if(p.kind==2){ bool want=key>m.k[p.id]; c.eq(q.increase_key({p.id,key}),want,[]{ return std::string("increase_key result"); }); if(want) m.k[p.id]=key; }
			else if(p.kind==3) pop_checked(c,q,m);
			else if(p.kind==4){ q.clear(); m.k.clear(); }
			else { MinIDQueue r(n); using std::swap; swap(q,r); check_queue(c,q,QModel(),n); MinIDQueue s(std::move(r)); q=s; }
			check_queue(c,q,m,n);
			if(d+1<depth) rec(q,m,d+1,l); else drain(c,q,m,n);
		}
	};
	rec(MinIDQueue(n),QModel(),0,"");
}
void queue_big(Ctx&c, unsigned n, unsigned keys, uint64_t pat, unsigned extra){
	MinIDQueue q(n); QModel m; vx::Dec d(pat);
	for(unsigned i=0;i<n;++i){ unsigned id=(i*3+1)%n; if(n%3==0) id=i; unsigned k=d.get(keys); q.push({id,k*2}); m.k[id]=k*2; }
	c.note=fmt("n %u keys pattern %llu",n,(unsigned long long)pat); check_queue(c,q,m,n); drain(c,q,m,n);
	if(extra) for(unsigned i=0;i<n;++i) for(unsigned k=0;k<=2*keys;++k){
		MinIDQueue r(q); QModel mm(m); c.note=fmt("n %u keys pattern %llu change id %u to %u",n,(unsigned long long)pat,i,k); bool dn=k<mm.k[i],up=k>mm.k[i];
		if(k%2){ c.eq(r.decrease_key({i,k}),dn,[]{ return std::string("decrease result"); }); if(dn) mm.k[i]=k; } 
		else { c.eq(r.increase_key({i,k}),up,[]{ return std::string("increase result"); }); if(up) mm.k[i]=k; }
		drain(c,r,mm,n);
		// pop, change, push again
		MinIDQueue s(q); QModel ms(m); pop_checked(c,s,ms); unsigned back=0; while(ms.k.count(back)) ++back; if(ms.k.count(i)){ if(s.decrease_key({i,k})) { if(!(k<ms.k[i])) c.fail("decrease reported without effect"); ms.k[i]=k; } if(s.increase_key({i,k+1})) ms.k[i]=k+1; } s.push({back,k}); ms.k[back]=k; drain(c,s,ms,n);
	}
}
void check_set(Ctx&c, IDSetMinQueue&q, const std::set<unsigned>&m, unsigned n){
	c.eq(q.id_count(),n,[]{ return std::string("id_count"); }); c.eq(q.empty(),m.empty(),[]{ return std::string("empty"); }); c.eq(q.peek(),m.empty()?invalid_id:*m.begin(),[]{ return std::string("peek"); });
	for(unsigned i=0;i<n;++i) c.eq(q.contains(i),m.count(i)!=0,[&]{ return fmt("contains %u",i); });
}
void set_case(Ctx&c, unsigned n, uint64_t subset){ // the set reached in ascending, descending and mixed push order, then every operation
	for(unsigned ord=0;ord<3;++ord){
		IDSetMinQueue q(n); std::set<unsigned>m; V ids; for(unsigned i=0;i<n;++i) if(subset>>i&1) ids.push_back(i);
		if(ord==1) std::reverse(ids.begin(),ids.end()); if(ord==2) for(unsigned i=0;i+1<ids.size();i+=2) std::swap(ids[i],ids[i+1]);
		c.note=fmt("n %u pushes %s",n,str(ids).c_str()); check_set(c,q,m,n);
		for(unsigned x:ids){ q.push(x); m.insert(x); ++c.transitions; check_set(c,q,m,n); }
		for(unsigned op=0;op<n+2;++op){
			IDSetMinQueue r(q); std::set<unsigned>s(m); c.note=fmt("n %u pushes %s then op %u",n,str(ids).c_str(),op);
			if(op<n){ r.push(op); s.insert(op); } else if(op==n){ c.eq(r.pop(),s.empty()?invalid_id:*s.begin(),[]{ return std::string("pop"); }); if(!s.empty()) s.erase(s.begin()); } else { r.clear(); s.clear(); }
			check_set(c,r,s,n);
			// pop half, push one back, drain
			IDSetMinQueue t(r); std::set<unsigned>u(s); unsigned h=(u.size()+1)/2; for(unsigned k=0;k<h;++k){ c.eq(t.pop(),*u.begin(),[]{ return std::string("pop"); }); u.erase(u.begin()); check_set(c,t,u,n); } if(n){ unsigned b=(op*5+1)%n; t.push(b); u.insert(b); check_set(c,t,u,n); }
			while(!u.empty()){ c.eq(t.pop(),*u.begin(),[]{ return std::string("pop"); }); u.erase(u.begin()); ++c.transitions; } check_set(c,t,u,n); c.eq(t.pop(),invalid_id,[]{ return std::string("pop of an empty queue"); }); check_set(c,t,u,n);
			IDSetMinQueue mv(std::move(r)); check_set(c,mv,s,n); ++c.traces;
		}
	}
}
void set_seq(Ctx&c, unsigned n, unsigned depth, uint64_t code){
	IDSetMinQueue q(n); std::set<unsigned>m; vx::Dec d(code); std::string log;
	for(unsigned k=0;k<depth;++k){ unsigned op=d.get(n+2); log+=fmt(" %u",op); c.note=fmt("n %u operations%s",n,log.c_str()); ++c.transitions; if(op<n){ q.push(op); m.insert(op); } else if(op==n){ c.eq(q.pop(),m.empty()?invalid_id:*m.begin(),[]{ return std::string("pop"); }); if(!m.empty()) m.erase(m.begin()); } else { q.clear(); m.clear(); } check_set(c,q,m,n); }
	++c.traces;
}
void flag_seq(Ctx&c, unsigned n, unsigned depth, uint64_t code){
	TimestampFlags f(n); std::vector<bool>m(n,false); vx::Dec d(code); std::string log;
	for(unsigned k=0;k<depth;++k){
		unsigned op=d.get(2*n+4); log+=fmt(" %u",op); c.note="operations"+log; ++c.transitions;
		if(op<n){ f.set(op); m[op]=true; } else if(op<2*n){ f.reset_one(op-n); m[op-n]=false; } else{ unsigned r= op==2*n?1: op==2*n+1?65534: op==2*n+2?65535:65536; for(unsigned i=0;i<r;++i) f.reset_all(); m.assign(n,false); }
		if(k==depth/2){ TimestampFlags g(f); f=g; }
		for(unsigned i=0;i<n;++i) c.eq(f.is_set(i),(bool)m[i],[&]{ return fmt("flag %u",i); });
	}
	++c.traces;
}
// queues with many elements: key patterns with ties, bulk pushes, decreases, increases, partial pops, re-pushes and a full drain against an ordered set
void queue_huge(Ctx&c, unsigned n, unsigned pat){
	MinIDQueue q(n); std::set<std::pair<unsigned,unsigned>>m; V key(n,0); std::vector<bool>in(n,false); 
	auto k0=[&](unsigned i)->unsigned{ switch(pat){ case 0: return i; case 1: return n-i; case 2: return (unsigned)(i*2654435761u); case 3: return i%7; default: return (unsigned)(i*40503u)&0xffff; } };
	auto look=[&](unsigned i){ c.eq(q.contains_id(i),(bool)in[i],[&]{ return fmt("contains %u",i); }); if(in[i]) c.eq(q.get_key(i),key[i],[&]{ return fmt("key of %u",i); }); };
	auto pop=[&]{ auto e=q.peek(); auto p=q.pop(); ++c.transitions; c.eq(p.key,m.begin()->first,[]{ return std::string("popped key"); }); c.eq(e.key,p.key,[]{ return std::string("peeked key"); }); if(p.id>=n||!in[p.id]||key[p.id]!=p.key) c.fail(fmt("pop returns %u with key %u",p.id,p.key)); m.erase({p.key,p.id}); in[p.id]=false; c.eq((unsigned)q.size(),(unsigned)m.size(),[]{ return std::string("size"); }); };
	auto push=[&](unsigned i, unsigned k){ q.push({i,k}); m.insert({k,i}); key[i]=k; in[i]=true; ++c.transitions; };
	for(unsigned i=0;i<n;++i) push(i,k0(i)); for(unsigned i=0;i<n;++i) look(i);
	for(unsigned i=0;i<n;i+=3){ unsigned k=key[i]/2; bool w=k<key[i]; c.eq(q.decrease_key({i,k}),w,[]{ return std::string("decrease_key result"); }); if(w){ m.erase({key[i],i}); m.insert({k,i}); key[i]=k; } ++c.transitions; }
	for(unsigned i=1;i<n;i+=5){ unsigned k=key[i]/2+n/3; bool w=k>key[i]; c.eq(q.increase_key({i,k}),w,[]{ return std::string("increase_key result"); }); if(w){ m.erase({key[i],i}); m.insert({k,i}); key[i]=k; } ++c.transitions; }
	for(unsigned i=0;i<n;++i) look(i);
	for(unsigned k=0;k<n/3;++k) pop();
	for(unsigned i=0;i<n;++i) look(i);
	for(unsigned i=0;i<n;i+=2) if(!in[i]) push(i,k0(n-1-i));
	for(unsigned i=n;i--;) if(in[i]&&i%4==0){ unsigned k=key[i]-key[i]/3; bool w=k<key[i]; c.eq(q.decrease_key({i,k}),w,[]{ return std::string("decrease_key result"); }); if(w){ m.erase({key[i],i}); m.insert({k,i}); key[i]=k; } ++c.transitions; }
	{ MinIDQueue r(q); MinIDQueue t(std::move(q)); q=r; }
	while(!m.empty()) pop(); c.expect(q.empty(),"not empty after all pops");
	for(unsigned i=0;i<n;i+=3) push(i,n-i); q.clear(); m.clear(); in.assign(n,false); for(unsigned i=0;i<n;++i) look(i); c.expect(q.empty(),"not empty after clear");
	for(unsigned i=n;i--;) push(i,k0(i)); while(!m.empty()) pop(); ++c.traces;
}
void set_huge(Ctx&c, unsigned n, unsigned pat){
	IDSetMinQueue q(n); std::set<unsigned>m; auto member=[&](unsigned i){ return pat==0? true: pat==1? i%5==0: pat==2? i%64==63: pat==3? i>=n-3||i==65536%n : (i*2654435761u)%11<3; };
	auto look=[&](unsigned i){ c.eq(q.contains(i),m.count(i)!=0,[&]{ return fmt("contains %u",i); }); }; auto pop=[&]{ c.eq(q.peek(),m.empty()?invalid_id:*m.begin(),[]{ return std::string("peek"); }); c.eq(q.pop(),m.empty()?invalid_id:*m.begin(),[]{ return std::string("pop"); }); if(!m.empty()) m.erase(m.begin()); ++c.transitions; };
	auto all=[&]{ c.eq(q.empty(),m.empty(),[]{ return std::string("empty"); }); for(unsigned i=0;i<n;++i) look(i); };
	for(unsigned i=n;i--;) if(member(i)){ q.push(i); m.insert(i); ++c.transitions; c.eq(q.peek(),*m.begin(),[]{ return std::string("peek"); }); } all();
	unsigned h=m.size()/2; while(m.size()>h) pop(); all(); for(unsigned i=0;i<n;i+=n/7+1){ q.push(i); m.insert(i); } all(); while(!m.empty()) pop(); pop(); all();
	for(unsigned i=0;i<n;i+=n/9+1){ q.push(i); m.insert(i); } q.clear(); m.clear(); all(); q.push(n-1); m.insert(n-1); all(); pop(); pop();
	// an id above the current minimum and one below it while draining
	for(unsigned i=0;i<n;++i) if(member(i)){ q.push(i); m.insert(i); } for(unsigned k=0;k<2000&&!m.empty();++k){ unsigned t=*m.begin(); pop(); if(k%3==0&&t>0){ q.push(t-1); m.insert(t-1); } if(k%5==0){ unsigned u=(t+70001)%n; q.push(u); m.insert(u); } } while(!m.empty()) pop(); all(); ++c.traces;
}
void flags_huge(Ctx&c, unsigned n, unsigned resets){
	TimestampFlags f(n); std::vector<bool>m(n,false); auto all=[&]{ for(unsigned i=0;i<n;++i) c.eq(f.is_set(i),(bool)m[i],[&]{ return fmt("flag %u",i); }); }; all();
	for(unsigned r=0;r<3;++r){ for(unsigned i=r;i<n;i+=2+r){ f.set(i); m[i]=true; ++c.transitions; } all(); for(unsigned i=0;i<n;i+=5){ f.reset_one(i); m[i]=false; } all(); for(unsigned k=0;k<resets;++k) f.reset_all(); m.assign(n,false); all(); } ++c.traces;
}
void make14(std::vector<Suite>&v){
	bool T=vx::opt().thorough(),A=vx::opt().asan();
	{ unsigned n=3,keys=3,depth=T?6:(A?4:5),ops=n*keys*3+3; Suite s; s.name="queue_sequences"; s.bounds=fmt("every legal sequence of %u operations (push, decrease, increase with %u keys, pop, clear, swap+move+copy) on %u ids",depth,keys,n); s.count=(uint64_t)ops*ops; s.chunk=1;
	  s.describe=[](uint64_t i){ return fmt("prefix %llu",(unsigned long long)i); }; s.run=[=](uint64_t i, Ctx&c){ queue_seq(c,n,keys,depth,i); }; v.push_back(s); }
	auto big=[&](unsigned n, unsigned keys, unsigned extra){ Suite s; s.name=fmt("queue_n%u_k%u",n,keys); s.bounds=fmt("every key assignment of %u keys to %u ids%s, all pops",keys,n,extra?", every single key change and every pop-change-push":""); s.count=vx::ipow(keys,n); s.describe=[=](uint64_t i){ return fmt("pattern %llu",(unsigned long long)i); }; s.run=[=](uint64_t i, Ctx&c){ queue_big(c,n,keys,i,extra); }; v.push_back(s); };
	big(1,3,1); big(2,4,1); big(4,4,1); big(6,A?3:4,1); big(8,A?2:3,1); big(A?10:12,2,1); if(!A) big(T?22:18,2,0); if(T) big(9,4,1);
	for(unsigned n=0;n<=(T?13u:(A?7u:11u));++n){ Suite s; s.name=fmt("id_set_n%u",n); s.bounds=fmt("every subset of %u ids, three push orders, every operation, then half pops, re-push and drain",n); s.count=1ull<<n; s.describe=[=](uint64_t i){ return fmt("n %u subset %llx",n,(unsigned long long)i); }; s.run=[=](uint64_t i, Ctx&c){ set_case(c,n,i); }; v.push_back(s); }
	for(unsigned n:{1u,2u,3u,5u}){ unsigned depth=n==1?8:n==2?8:n==3?(T?9:7):(T?8:(A?5:6)); Suite s; s.name=fmt("id_set_sequences_n%u",n); s.bounds=fmt("every sequence of %u operations on %u ids",depth,n); s.count=vx::ipow(n+2,depth); s.describe=[=](uint64_t i){ return fmt("code %llu",(unsigned long long)i); }; s.run=[=](uint64_t i, Ctx&c){ set_seq(c,n,depth,i); }; v.push_back(s); }
	{ static const unsigned ns[]={0,1,2,3,8,64,65,100}; Suite s; s.name="default_constructed"; s.bounds="queues constructed without a size where a used queue of 0..100 ids was destroyed: empty, cleared, popped, copied, then assigned a queue of 0..100 ids"; s.count=8*8*2;
	  s.describe=[](uint64_t i){ return fmt("%s after one of %u ids, then one of %u ids",i/64?"id set":"queue",ns[i%8],ns[i/8%8]); };
	  s.run=[](uint64_t i, Ctx&c){ unsigned n=ns[i%8],m=ns[i/8%8];
		typename std::aligned_storage<sizeof(MinIDQueue),alignof(MinIDQueue)>::type a; typename std::aligned_storage<sizeof(IDSetMinQueue),alignof(IDSetMinQueue)>::type b;
		if(i/64==0){ { auto*q=new(&a)MinIDQueue(n); for(unsigned k=0;k<n;++k) q->push({k,k}); asm volatile(""::"r"(&a):"memory"); q->~MinIDQueue(); asm volatile(""::"r"(&a):"memory"); }
			auto*q=new(&a)MinIDQueue(); check_queue(c,*q,QModel(),0); MinIDQueue r(*q); check_queue(c,r,QModel(),0); q->clear(); check_queue(c,*q,QModel(),0); *q=MinIDQueue(m); QModel mo; for(unsigned k=m;k-->0;){ q->push({k,k*3%7}); mo.k[k]=k*3%7; } check_queue(c,*q,mo,m); q->clear(); check_queue(c,*q,QModel(),m); q->~MinIDQueue(); }
		else{ { auto*q=new(&b)IDSetMinQueue(n); for(unsigned k=0;k<n;++k) q->push(k); asm volatile(""::"r"(&b):"memory"); q->~IDSetMinQueue(); asm volatile(""::"r"(&b):"memory"); }
			auto*q=new(&b)IDSetMinQueue(); check_set(c,*q,{},0); IDSetMinQueue r(*q); check_set(c,r,{},0); q->clear(); c.eq(q->pop(),invalid_id,[]{ return std::string("pop of an empty set"); }); check_set(c,*q,{},0); *q=IDSetMinQueue(m); std::set<unsigned>mo; for(unsigned k=m;k-->0;) if(k%3!=1){ q->push(k); mo.insert(k); } check_set(c,*q,mo,m); q->clear(); check_set(c,*q,{},m); q->~IDSetMinQueue(); }
		++c.traces; c.transitions+=8; };
	  v.push_back(s); }
	{ unsigned depth=T?5:4; Suite s; s.name="flag_sequences"; s.bounds=fmt("every sequence of %u operations (set, reset one, reset all 1/65534/65535/65536 times) on 3 flags",depth); s.count=vx::ipow(10,depth); s.describe=[](uint64_t i){ return fmt("code %llu",(unsigned long long)i); }; s.run=[=](uint64_t i, Ctx&c){ flag_seq(c,3,depth,i); }; v.push_back(s); }
	if(!A){ static const unsigned ns[]={255,256,257,4096,65535,65536,65537,65600,131075}; auto add=[&](std::string name, std::string b, unsigned k, std::function<void(Ctx&,unsigned,unsigned)>f){ Suite s; s.name=name; s.bounds=b; s.count=9*k; s.chunk=1; s.describe=[k](uint64_t i){ return fmt("n %u pattern %u",ns[i/k],(unsigned)(i%k)); }; s.run=[=](uint64_t i, Ctx&c){ f(c,ns[i/k],i%k); }; v.push_back(s); };
	  add("queue_many","queues of 255..131075 ids, 5 key patterns, bulk push, decrease, increase, pop, re-push, copy and drain",5,queue_huge); add("id_set_many","sets over 255..131075 ids, 5 membership patterns, pushes in descending order, half pops, re-pushes above and below the minimum, drain",5,set_huge);
	  add("flags_many","255..131075 flags, 1, 2 and 65535 resets",3,[](Ctx&c, unsigned n, unsigned p){ flags_huge(c,n,p==0?1:p==1?2:65535); }); }
}
void make(std::vector<Suite>&v, const std::string&p){ if(p=="C13") make13(v); else make14(v); }
}
int main(int argc, char**argv){ if(argc<2) return 2; std::string p=argv[1]; return vx::run_all(argc-1,argv+1,p,make); }
