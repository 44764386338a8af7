// Small graph spaces, parameterised graph families and reference shortest paths.
#ifndef GRAPHS_H
#define GRAPHS_H
#include "vx.h"
#include <routingkit/constants.h>
#include <map>
#include <memory>
#include <queue>

struct G{
	unsigned n=0;
	std::vector<unsigned>tail, head, w;
	void add(unsigned t, unsigned h, unsigned x){ tail.push_back(t); head.push_back(h); w.push_back(x); }
	unsigned m()const{ return tail.size(); }
};
inline std::string str(const G&g){
	std::ostringstream o; o<<"n="<<g.n<<" arcs{";
	for(unsigned i=0;i<g.m();++i){ if(i) o<<" "; if(i>80){ o<<"..."<<g.m(); break; } o<<i<<":"<<g.tail[i]<<">"<<g.head[i]<<"/"<<g.w[i]; }
	o<<"}"; return o.str();
}

typedef unsigned long long u64;
const u64 INF64 = ~0ull>>2;
const unsigned INF = RoutingKit::inf_weight;

// Reference: all pairs distances, arcs of weight >= INF do not exist, path lengths >= INF count as unreachable
struct Dist{
	unsigned n; std::vector<u64>d;
	u64 operator()(unsigned s, unsigned t)const{ return d[(size_t)s*n+t]; }
};
inline Dist floyd(const G&g, const std::vector<unsigned>&w){
	Dist r; r.n=g.n; r.d.assign((size_t)g.n*g.n, INF64);
	for(unsigned i=0;i<g.n;++i) r.d[(size_t)i*g.n+i]=0;
	for(unsigned a=0;a<g.m();++a) if(w[a]<INF){ auto&x=r.d[(size_t)g.tail[a]*g.n+g.head[a]]; x=std::min<u64>(x,w[a]); }
	for(unsigned k=0;k<g.n;++k) for(unsigned i=0;i<g.n;++i){ u64 ik=r.d[(size_t)i*g.n+k]; if(ik>=INF64) continue;
		for(unsigned j=0;j<g.n;++j){ u64 v=ik+r.d[(size_t)k*g.n+j]; if(v<r.d[(size_t)i*g.n+j]) r.d[(size_t)i*g.n+j]=v; } }
	return r;
}
inline Dist floyd(const G&g){ return floyd(g,g.w); }
// Reference single source distances on larger graphs (textbook Dijkstra on std::priority_queue, 64 bit)
inline std::vector<u64> sssp(const G&g, const std::vector<unsigned>&w, unsigned s){
	std::vector<std::vector<std::pair<unsigned,unsigned>>>out(g.n);
	for(unsigned a=0;a<g.m();++a) if(w[a]<INF) out[g.tail[a]].push_back({g.head[a],w[a]});
	std::vector<u64>d(g.n,INF64); d[s]=0;
	std::priority_queue<std::pair<u64,unsigned>,std::vector<std::pair<u64,unsigned>>,std::greater<std::pair<u64,unsigned>>>q; q.push({0,s});
	while(!q.empty()){ auto p=q.top(); q.pop(); if(p.first>d[p.second]) continue;
		for(auto&e:out[p.second]) if(p.first+e.second<d[e.first]){ d[e.first]=p.first+e.second; q.push({d[e.first],e.first}); } }
	return d;
}
inline Dist all_pairs(const G&g){
	if(g.n<=80) return floyd(g);
	Dist r; r.n=g.n; r.d.resize((size_t)g.n*g.n);
	for(unsigned s=0;s<g.n;++s){ auto d=sssp(g,g.w,s); std::copy(d.begin(),d.end(),r.d.begin()+(size_t)s*g.n); }
	return r;
}
inline unsigned cap(u64 x){ return x>=INF?INF:(unsigned)x; }

struct Ep{ unsigned node, off; };
typedef std::vector<Ep> Eps;
// every sequence of 1..len endpoints over n nodes and the given offsets (repeated nodes included)
inline std::vector<Eps> endpoint_sequences(unsigned n, unsigned len, const std::vector<unsigned>&offs){
	std::vector<Eps>r; uint64_t k=n*offs.size();
	for(unsigned l=1;l<=len;++l){ uint64_t m=1; for(unsigned i=0;i<l;++i) m*=k; for(uint64_t i=0;i<m;++i){ uint64_t v=i; Eps e; for(unsigned j=0;j<l;++j){ unsigned x=v%k; v/=k; e.push_back({x%n,offs[x/n]}); } r.push_back(e); } }
	return r;
}
// many endpoints: counts around powers of two up to twice the number of nodes, four ways to choose nodes and offsets
inline std::vector<Eps> crowds(unsigned n, bool repeats=true){
	std::vector<unsigned>counts; for(unsigned k:{4u,5u,7u,8u,9u,15u,16u,17u,31u,32u,33u,63u,64u,65u,127u,128u,129u,255u,256u,257u}) if(k<n) counts.push_back(k); counts.push_back(n); if(repeats) counts.push_back(2*n);
	std::vector<Eps>r; for(unsigned k:counts) for(unsigned p=0;p<4;++p){ Eps e; uint64_t s=k*4+p; for(unsigned i=0;i<k;++i){ s=s*6364136223846793005ull+1442695040888963407ull; unsigned l=(unsigned)(s>>33); e.push_back({p==0?i%n:p==1?n-1-i%n:p==2&&repeats?l%n:(i*2+1<n?i*2+1:(i*2+1-n)|0)%n,p==0?0u:p==1?i%3:p==2?l%5:k-i}); }
		if(!repeats){ std::vector<bool>seen(n,false); Eps f; for(auto&x:e) if(!seen[x.node]){ seen[x.node]=true; f.push_back(x); } e=f; } r.push_back(e); }
	return r;
}
inline std::string str(const Eps&e){ std::string r="{"; for(auto&x:e) if(r.size()>400){ r+=vx::fmt(" ... (%u in total)",(unsigned)e.size()); break; } else r+=vx::fmt("%s%u+%u",r.size()>1?" ":"",x.node,x.off); return r+"}"; }
inline unsigned ref_dist(const Dist&D, const Eps&S, const Eps&T){
	u64 b=INF64; for(auto&s:S) for(auto&t:T){ u64 d=D(s.node,t.node); if(d<INF64) b=std::min<u64>(b,d+s.off+t.off); }
	return cap(b);
}

// checks that arcs/nodes form an optimal path; used_s / used_t as reported
inline void check_path(vx::Ctx&c, const G&g, const std::vector<unsigned>&w, const Eps&S, const Eps&T, unsigned want,
	unsigned used_s, unsigned used_t, const std::vector<unsigned>&nodes, const std::vector<unsigned>&arcs){
	using vx::fmt; using vx::str;
	c.states++;
	auto where=[&]{ return " nodes="+str(nodes)+" arcs="+str(arcs)+fmt(" used=%u->%u want=%u ",used_s,used_t,want)+::str(S)+::str(T); };
	if(want==INF){
		if(!nodes.empty()||!arcs.empty()) c.fail("no path expected but got one"+where());
		if(used_s!=RoutingKit::invalid_id||used_t!=RoutingKit::invalid_id) c.fail("no path expected but used endpoints are set"+where());
		return;
	}
	if(nodes.size()!=arcs.size()+1) c.fail("node path and arc path lengths do not fit"+where());
	if(nodes.front()!=used_s||nodes.back()!=used_t) c.fail("path does not join the used endpoints"+where());
	u64 len=0;
	for(size_t i=0;i<arcs.size();++i){
		if(arcs[i]>=g.m()) c.fail("arc id out of range"+where());
		if(g.tail[arcs[i]]!=nodes[i]||g.head[arcs[i]]!=nodes[i+1]) c.fail("arc does not join consecutive nodes"+where());
		if(w[arcs[i]]>=INF) c.fail("path uses an arc of infinite weight"+where());
		len+=w[arcs[i]];
	}
	u64 so=INF64,to=INF64;
	for(auto&s:S) if(s.node==used_s) so=std::min<u64>(so,s.off);
	for(auto&t:T) if(t.node==used_t) to=std::min<u64>(to,t.off);
	if(so>=INF64||to>=INF64) c.fail("used endpoint is not one of the query's endpoints"+where());
	if(len+so+to!=want) c.fail(fmt("path length %llu does not match distance",len+so+to)+where());
}

// all digraphs on n nodes where each possible arc (loops optional) is absent or has one of the weights
struct SlotSpace{
	unsigned n; bool loops; std::vector<unsigned>weights; std::vector<std::pair<unsigned,unsigned>>slots;
	SlotSpace(unsigned n, bool loops, std::vector<unsigned>weights):n(n),loops(loops),weights(weights){
		for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j) if(i!=j||loops) slots.push_back({i,j});
	}
	uint64_t count()const{ return vx::ipow(weights.size()+1,slots.size()); }
	G at(uint64_t i)const{ G g; g.n=n; vx::Dec d(i); for(auto&s:slots){ unsigned k=d.get(weights.size()+1); if(k) g.add(s.first,s.second,weights[k-1]); } return g; }
};
// all ordered arc lists of exactly m arcs (parallel arcs and any arc id order)
struct ListSpace{
	unsigned n,m; bool loops; std::vector<unsigned>weights; std::vector<std::pair<unsigned,unsigned>>slots;
	ListSpace(unsigned n, unsigned m, bool loops, std::vector<unsigned>weights):n(n),m(m),loops(loops),weights(weights){
		for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j) if(i!=j||loops) slots.push_back({i,j});
	}
	uint64_t count()const{ return vx::ipow(weights.size()*slots.size(),m); }
	G at(uint64_t i)const{ G g; g.n=n; vx::Dec d(i); for(unsigned k=0;k<m;++k){ auto s=slots[d.get(slots.size())]; g.add(s.first,s.second,weights[d.get(weights.size())]); } return g; }
};
// all sets of exactly m distinct arcs with weights
struct SubsetSpace{
	unsigned n,m; std::vector<unsigned>weights; std::vector<std::pair<unsigned,unsigned>>slots; uint64_t subsets;
	static uint64_t binom(unsigned n, unsigned k){ if(k>n) return 0; uint64_t r=1; for(unsigned i=0;i<k;++i) r=r*(n-i)/(i+1); return r; }
	SubsetSpace(unsigned n, unsigned m, std::vector<unsigned>weights):n(n),m(m),weights(weights){
		for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j) if(i!=j) slots.push_back({i,j});
		subsets=binom(slots.size(),m);
	}
	uint64_t count()const{ return subsets*vx::ipow(weights.size(),m); }
	G at(uint64_t i)const{
		G g; g.n=n; uint64_t s=i%subsets; vx::Dec d(i/subsets);
		unsigned k=m; for(int x=(int)slots.size()-1; x>=0 && k>0; --x){ uint64_t b=binom(x,k); if(s>=b){ s-=b; g.add(slots[x].first,slots[x].second,weights[d.get(weights.size())]); --k; } }
		return g;
	}
};

// deterministic families of larger graphs
inline unsigned lcg(uint64_t&s){ s=s*6364136223846793005ull+1442695040888963407ull; return (unsigned)(s>>33); }
enum Family{ F_PATH, F_CYCLE, F_BICYCLE, F_STAR, F_GRID, F_COMPLETE, F_TREE, F_CLIQUES, F_LCG_SPARSE, F_LCG_DENSE, F_LADDER, F_MULTI, F_EMPTY, F_COUNT };
inline const char*family_name(unsigned f){ static const char*n[]={"path","cycle","bicycle","star","grid","complete","tree","cliques","lcg_sparse","lcg_dense","ladder","multi","empty"}; return n[f]; }
// weight pattern 0: all 1; 1: all 0; 2: small pseudo random 0..3; 3: large distinct; 4: powers of two; 5: small random with some infinite
inline unsigned pattern_weight(unsigned pat, unsigned i, uint64_t&s, unsigned n){
	switch(pat){
		case 0: return 1;
		case 1: return 0;
		case 2: return lcg(s)%4;
		case 3: return 1+lcg(s)%(INF/(2*n+2));
		case 4: return 1u<<(lcg(s)%10);
		default: return lcg(s)%5==0?INF:lcg(s)%7;
	}
}
const unsigned PATTERNS=6;
inline G family(unsigned f, unsigned n, unsigned pat, uint64_t seed=1){
	G g; g.n=n; uint64_t s=seed*7919+f*131+n*17+pat+1; unsigned i=0;
	auto W=[&]{ return pattern_weight(pat,i++,s,n); };
	auto bi=[&](unsigned a, unsigned b){ if(a<n&&b<n){ unsigned x=W(); g.add(a,b,x); g.add(b,a,W()); } };
	auto one=[&](unsigned a, unsigned b){ if(a<n&&b<n) g.add(a,b,W()); };
	if(n==0) return g;
	switch(f){
		case F_PATH: for(unsigned x=0;x+1<n;++x) bi(x,x+1); break;
		case F_CYCLE: for(unsigned x=0;x<n;++x) one(x,(x+1)%n); break;
		case F_BICYCLE: for(unsigned x=0;x<n;++x) bi(x,(x+1)%n); break;
		case F_STAR: for(unsigned x=1;x<n;++x) bi(0,x); break;
		case F_GRID:{ unsigned c=1; while(c*c<n) ++c; for(unsigned x=0;x<n;++x){ if((x+1)%c) bi(x,x+1); bi(x,x+c); } } break;
		case F_COMPLETE: for(unsigned a=0;a<n;++a) for(unsigned b=0;b<n;++b) if(a!=b) one(a,b); break;
		case F_TREE: for(unsigned x=1;x<n;++x) bi(x,(x-1)/2); break;
		case F_CLIQUES: for(unsigned b=0;b<n;b+=6){ for(unsigned i2=b;i2<b+6;++i2) for(unsigned j=b;j<b+6;++j) if(i2!=j) one(i2,j); bi(b,b+6); } break;
		case F_LCG_SPARSE: for(unsigned k=0;k<2*n;++k) one(lcg(s)%n,lcg(s)%n); break;
		case F_LCG_DENSE: for(unsigned k=0;k<6*n;++k) one(lcg(s)%n,lcg(s)%n); break;
		case F_LADDER: for(unsigned x=0;x+2<n;x+=2){ bi(x,x+1); bi(x,x+2); bi(x+1,x+3); } break;
		case F_MULTI: for(unsigned x=0;x<n;++x){ for(unsigned k=0;k<3;++k){ one(x,(x+1)%n); one((x+1)%n,x); one(x,x); } one(x,(x*7+3)%n); } break;
		default: break;
	}
	return g;
}
// orders: 0 identity 1 reverse 2 even-odd 3 bit reversal like 4 lcg shuffle
inline std::vector<unsigned> order_pattern(unsigned k, unsigned n){
	std::vector<unsigned>o(n); for(unsigned i=0;i<n;++i) o[i]=i;
	if(k==1) std::reverse(o.begin(),o.end());
	else if(k==2){ std::vector<unsigned>r; for(unsigned i=0;i<n;i+=2) r.push_back(i); for(unsigned i=1;i<n;i+=2) r.push_back(i); o=r; }
	else if(k==3){ std::vector<unsigned>r; unsigned b=1; while(b<n) b*=2; for(unsigned st=b; st>=1; st/=2){ for(unsigned x=st/2;x<n;x+=st) if(st>1||true){ bool seen=false; for(auto y:r) if(y==x) seen=true; if(!seen) r.push_back(x); } if(st==1) break; } for(unsigned i=0;i<n;++i){ bool seen=false; for(auto y:r) if(y==i) seen=true; if(!seen) r.push_back(i);} std::reverse(r.begin(),r.end()); o=r; }
	else if(k==4){ uint64_t s=n*977+5; for(unsigned i=n;i>1;--i) std::swap(o[i-1],o[lcg(s)%i]); }
	return o;
}
const unsigned ORDERS=5;
// sizes beyond 16 bits: families of small treewidth, orders that keep hierarchies small, and distances from (to) a few nodes only
const unsigned WIDE_N[]={65535,65537,131075}, WIDE_F[]={F_PATH,F_TREE,F_LADDER,F_CYCLE,F_CLIQUES};
const unsigned WIDE_FAMILIES=5;
inline std::vector<unsigned> wide_order(unsigned f, unsigned n){
	std::vector<unsigned>o(n); for(unsigned i=0;i<n;++i) o[i]=i;
	if(f==F_TREE||f==F_STAR){ std::reverse(o.begin(),o.end()); return o; }
	auto level=[f](unsigned x){ unsigned y= f==F_LADDER?x/2 : f==F_CLIQUES?x/6 : x; return __builtin_ctz(y+1); };
	std::stable_sort(o.begin(),o.end(),[&](unsigned a, unsigned b){ return level(a)<level(b); }); return o;
}
inline G reversed(const G&g){ G r=g; std::swap(r.tail,r.head); return r; }
// targets looked at: around powers of two, the ends and a regular sample
inline std::vector<unsigned> wide_probes(unsigned n, unsigned count){ std::vector<unsigned>r; for(unsigned x:{0u,1u,254u,255u,256u,257u,65534u,65535u,65536u,65537u,131072u,n-2,n-1}) if(x<n) r.push_back(x); for(unsigned k=0;k<count;++k) r.push_back((unsigned)((uint64_t)k*(n-1)/count)); return r; }
// the graph within 65536+n ids such that its nodes come in pairs whose ids differ by 65536; all other ids are isolated nodes
inline unsigned twin_id(unsigned x){ return (x%2?65536:0)+x/2; }
inline G twin_graph(const G&s){ G g=s; g.n=65536+s.n; for(auto&x:g.tail) x=twin_id(x); for(auto&x:g.head) x=twin_id(x); return g; }
inline std::vector<unsigned> invert(const std::vector<unsigned>&p){ std::vector<unsigned>r(p.size()); for(unsigned i=0;i<p.size();++i) r[p[i]]=i; return r; }
#endif
