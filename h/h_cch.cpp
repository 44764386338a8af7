// C07 exact CCH queries, C08 partial customization, C10 perfect customization, C11 query object histories
#include "vx.h"
#include "graphs.h"
#include "two.h"
#include <routingkit/customizable_contraction_hierarchy.h>
#include <routingkit/contraction_hierarchy.h>
#include <memory>
using namespace RoutingKit;
using vx::Ctx; using vx::Suite; using vx::fmt; using vx::str;
typedef CustomizableContractionHierarchy CCH;
typedef CustomizableContractionHierarchyMetric Metric;
typedef CustomizableContractionHierarchyQuery Query;
typedef CustomizableContractionHierarchyPartialCustomization Partial;
typedef CustomizableContractionHierarchyParallelization Parallel;
typedef std::vector<unsigned> V;

namespace{
CCH build(const G&g, const V&order, bool filter, unsigned log=0){
	if(log==0) return CCH(order,g.tail,g.head,[](const std::string&){},filter);
	if(log==1) return CCH(order,g.tail,g.head,std::function<void(const std::string&)>(),filter);
	return CCH(order,g.tail,g.head);
}
void query(Ctx&c, const G&g, const V&w, const Dist&D, Query&q, const Eps&S, const Eps&T, bool path=true){
	q.reset();
	for(auto&s:S) q.add_source(s.node,s.off);
	for(auto&t:T) q.add_target(t.node,t.off);
	q.run();
	c.transitions+=2+S.size()+T.size();
	unsigned want=ref_dist(D,S,T), got=q.get_distance();
	c.eq(got,want,[&]{ return "distance "+str(S)+"->"+str(T); });
	if(path) check_path(c,g,w,S,T,want,q.get_used_source(),q.get_used_target(),q.get_node_path(),q.get_arc_path());
	++c.traces;
}
void all_queries(Ctx&c, const G&g, const V&w, const Dist&D, const Metric&m, bool multi, bool path=true){
	Query q(m);
	for(unsigned s=0;s<g.n;++s) for(unsigned t=0;t<g.n;++t) query(c,g,w,D,q,{{s,0}},{{t,0}},path);
	if(!multi||g.n<2) return;
	for(unsigned a=0;a<g.n;++a){
		unsigned b=(a+1)%g.n;
		for(unsigned t=0;t<g.n;++t){
			query(c,g,w,D,q,{{a,0},{b,1}},{{t,2}},path);
			query(c,g,w,D,q,{{t,3}},{{a,1},{b,0}},path);
			query(c,g,w,D,q,{{a,2},{a,1},{b,4}},{{t,0},{b,5},{t,2}},path);
		}
	}
}
Dist dist(const G&g, const V&w){
	if(g.n<=80) return floyd(g,w);
	G h=g; h.w=w; return all_pairs(h);
}
std::string ostr(const V&o, bool filter){ return "order="+str(o)+(filter?" filtered":" unfiltered"); }

// one structure, one order, one filter: customize for every weight vector handed out by next_w
void exact(Ctx&c, const G&g, const V&order, bool filter, const std::vector<V>&ws, bool multi, unsigned log=0){
	auto cch=build(g,order,filter,log); c.transitions++;
	c.note=ostr(order,filter);
	if(cch.node_count()!=g.n||cch.input_arc_count()!=g.m()) c.fail("node or arc count");
	for(unsigned i=0;i<ws.size();++i){
		Metric m(cch,ws[i].data()); m.customize(); c.transitions++;
		c.note=ostr(order,filter)+" weights="+str(ws[i]);
		all_queries(c,g,ws[i],dist(g,ws[i]),m,multi);
	}
}
const unsigned VARY=99; // the identity order and one that varies with the case index (all labelled graphs under one order are all graphs under all orders)
template<class Space> Suite space_suite(std::string name, std::string bounds, Space sp, unsigned orders, bool multi){
	Suite s; s.name=name; s.bounds=bounds; s.count=sp.count(); s.describe=[sp](uint64_t i){ return ::str(sp.at(i)); };
	s.run=[=](uint64_t i, Ctx&c){
		G g=sp.at(i);
		uint64_t all=vx::factorial(g.n);
		for(uint64_t o=0;o<(orders==VARY?2:orders?orders:all);++o){
			V order = orders==VARY?vx::nth_permutation(g.n,o?i%all:0):orders?order_pattern(o,g.n):vx::nth_permutation(g.n,o);
			for(int f=0;f<2;++f) exact(c,g,order,f,{g.w},multi,(unsigned)(i+o+f)%3<2?(i+o)%2:(f?1:2));
		}
	};
	return s;
}
void exact_suites(std::vector<Suite>&v){
	bool T=vx::opt().thorough(), A=vx::opt().asan();
	v.push_back(space_suite("n0_n1","0 and 1 node graphs: empty, loops, weights {0,1,inf}",SlotSpace(1,true,{0,1,INF}),0,true));
	{ Suite s; s.name="empty"; s.bounds="the graph without nodes, both filters, with and without log callback"; s.count=6; s.describe=[](uint64_t i){ return fmt("filter=%llu log=%llu",(unsigned long long)i%2,(unsigned long long)i/2); };
	  s.run=[](uint64_t i, Ctx&c){ G g; auto cch=build(g,{},i%2,i/2); c.eqs(cch.node_count(),0u,"node count"); Metric m(cch,V(1).data()); V w(1); m.reset(cch,w.data()).customize(); Parallel p(cch); p.customize(m,2); auto ch=m.build_contraction_hierarchy_using_perfect_witness_search(); c.eqs(ch.node_count(),0u,"CH node count"); };
	  v.push_back(s); }
	v.push_back(space_suite("n2_loops","all graphs on 2 nodes incl. loops, weights {0,1,5,inf}, all orders, filter on/off",SlotSpace(2,true,{0,1,5,INF}),0,true));
	{ SlotSpace sp(3,false,{1}); bool T=vx::opt().thorough(),A=vx::opt().asan(); unsigned len=T&&!A?3:2; Suite s; s.name="endpoint_sequences"; s.bounds=fmt("every digraph on 3 nodes, weight 1: all sequences of up to %u sources x all sequences of up to 2 targets, offsets {0,1,3}, repeated nodes included, 6 orders",len); s.count=sp.count()*6; s.describe=[=](uint64_t i){ return ::str(sp.at(i/6)); };
	  s.run=[=](uint64_t i, Ctx&c){ G g=sp.at(i/6); auto cch=build(g,vx::nth_permutation(3,i%6),i%2,0); Metric m(cch,g.w.data()); if(g.m()==0) return; m.customize(); auto D=dist(g,g.w); Query q(m); auto A1=endpoint_sequences(3,len,{0,1,3}),B1=endpoint_sequences(3,2,{3,1,0}); for(auto&S:A1) for(auto&T:B1) query(c,g,g.w,D,q,S,T,true); }; v.push_back(s); }
	v.push_back(space_suite("n3_w","all loop free graphs on 3 nodes, weights {0,1,3}, all 6 orders, filter on/off",SlotSpace(3,false,{0,1,3}),0,true));
	v.push_back(space_suite("n2_multi","2 nodes, all ordered lists of 4 arcs incl. loops and parallel arcs, weights {0,2,inf}",ListSpace(2,4,true,{0,2,INF}),0,true));
	if(!A){
		v.push_back(space_suite("n3_big","3 nodes, weights {1,2^30,inf-1,inf}, all orders, filter on/off",SlotSpace(3,false,{1,1u<<30,INF-1,INF}),0,true));
		v.push_back(space_suite("n3_multi","3 nodes, all ordered lists of 4 arcs incl. loops and parallel arcs, weights {1,2}",ListSpace(3,4,true,{1,2}),0,false));
		v.push_back(space_suite("n4_sub5","4 nodes, all sets of 5 arcs, weights {1,3}, all 24 orders, filter on/off",SubsetSpace(4,5,{1,3}),0,false));
		v.push_back(space_suite("n4_sub6","4 nodes, all sets of 6 arcs, weights {0,2}, all 24 orders, filter on/off",SubsetSpace(4,6,{0,2}),0,false));
		v.push_back(space_suite("n5_sub6","5 nodes, all sets of 6 arcs, weights {1,4}, identity and varying order, filter on/off",SubsetSpace(5,6,{1,4}),VARY,false));
		v.push_back(space_suite("n4_all","4 nodes, all graphs with weights {1,3}, identity and reverse order, filter on/off",SlotSpace(4,false,{1,3}),2,false));
		if(T){
			v.push_back(space_suite("n3_loops_w","3 nodes with loops, weights {0,1,3,inf}, all orders",SlotSpace(3,true,{0,1,3,INF}),0,true));
			v.push_back(space_suite("n4_all_orders","4 nodes, all graphs with weights {1,3}, all 24 orders",SlotSpace(4,false,{1,3}),0,false));
			v.push_back(space_suite("n4_w013","4 nodes, all graphs with weights {0,1,3}, one order",SlotSpace(4,false,{0,1,3}),1,false));
			v.push_back(space_suite("n5_sub8","5 nodes, all sets of 7 arcs, weights {1,4}, identity and varying order",SubsetSpace(5,7,{1,4}),VARY,false));
			v.push_back(space_suite("n6_sub6","6 nodes, all sets of 6 arcs, weight 1, 5 order patterns",SubsetSpace(6,6,{1}),5,false));
		}
	}else{
		v.push_back(space_suite("n3_multi_asan","3 nodes, all ordered lists of 3 arcs incl. loops, weights {1,2}",ListSpace(3,3,true,{1,2}),0,true));
		v.push_back(space_suite("n4_sub3","4 nodes, all sets of 3 arcs, weight 1, all 24 orders",SubsetSpace(4,3,{1}),0,false));
	}
	// families incl. more than 512 / 1024 arcs (bit vector blocks) and deep elimination trees
	std::vector<unsigned>sizes={5,6,7,8,12,17,33}; if(!A){ for(unsigned x:{65,100,129,200}) sizes.push_back(x); if(T) for(unsigned x:{257,400,513,700}) sizes.push_back(x); }
	Suite s; s.name="families"; s.bounds=fmt("13 families x sizes 5..%u x 6 weight patterns x 5 orders x filter on/off, all pairs",sizes.back());
	s.count=sizes.size()*F_COUNT*ORDERS*2;
	auto dec=[=](uint64_t i){ vx::Dec d(i); unsigned fi=d.get(2),o=d.get(ORDERS),f=d.get(F_COUNT),n=sizes[d.get(sizes.size())]; return V{f,n,o,fi}; };
	s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u order pattern %u filter=%u",family_name(k[0]),k[1],k[2],k[3]); };
	s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); unsigned n=k[1]; if((k[0]==F_COMPLETE||k[0]==F_LCG_DENSE)&&n>65) n=65; if(k[0]==F_COMPLETE&&n>40) n=40; if(k[0]==F_LCG_SPARSE&&n>130) n=130;
		G g=family(k[0],n,0); std::vector<V>ws; for(unsigned p=0;p<PATTERNS;++p) ws.push_back(family(k[0],n,p).w);
		for(auto&x:ws) x.resize(g.m(),1);
		exact(c,g,order_pattern(k[2],n),k[3],ws,n<=17); };
	s.chunk=1; s.case_timeout=200; v.push_back(s);
}

// ------------------------------------------------------------------ C08
// all pairs (w0,w1) of weight vectors over `vals` on a fixed structure
struct Structure{ std::string name; G g; };
G structure(unsigned n, std::vector<std::pair<unsigned,unsigned>>arcs){ G g; g.n=n; for(auto a:arcs) g.add(a.first,a.second,1); return g; }
G bidir(unsigned n, std::vector<std::pair<unsigned,unsigned>>edges){ G g; g.n=n; for(auto a:edges){ g.add(a.first,a.second,1); g.add(a.second,a.first,1); } return g; }
V weights_at(uint64_t i, const V&vals, unsigned m){ vx::Dec d(i); V w(m); for(auto&x:w) x=vals[d.get(vals.size())]; return w; }

void partial_pair(Ctx&c, const G&g, const CCH&cch, const V&w0, const V&w1, unsigned mode){
	// mode 0: announce changed arcs ascending 1: announce everything descending and twice 2: reset first, default object
	V w=w0; Metric m(cch,w); m.customize();
	Partial p(cch);
	if(mode==2){ for(unsigned a=0;a<g.m();++a) p.update_arc(a); p.reset(); p.reset(cch); }
	w=w1;
	if(mode==1) for(unsigned a=g.m();a-->0;){ p.update_arc(a); p.update_arc(a); }
	else for(unsigned a=0;a<g.m();++a) if(w0[a]!=w1[a]) p.update_arc(a);
	p.customize(m); c.transitions+=3+g.m();
	c.note="w0="+str(w0)+" w1="+str(w1)+fmt(" mode %u",mode);
	all_queries(c,g,w1,dist(g,w1),m,false);
}
// histories of updates on one metric / one partial object
void partial_history(Ctx&c, const G&g, const CCH&cch, unsigned depth, const V&vals, vx::Choices&ch){
	V w(g.m(),vals[0]); Metric m(cch,w); m.customize(); Partial p(cch);
	std::vector<bool>dirty(g.m(),false); std::string tr;
	auto judge=[&]{ c.note="history "+tr; all_queries(c,g,w,dist(g,w),m,false); };
	for(unsigned d=0;d<depth;++d){
		// ops: set arc a to value v and announce; announce unneeded; announcement then reset then announce again; customize
		unsigned op=ch(g.m()*vals.size()+3);
		c.transitions++;
		if(op<g.m()*vals.size()){ unsigned a=op/vals.size(),x=op%vals.size(); w[a]=vals[x]; p.update_arc(a); dirty[a]=true; tr+=fmt("w[%u]=%u ",a,vals[x]); }
		else if(op==g.m()*vals.size()){ p.reset(); for(unsigned a=g.m();a-->0;) if(dirty[a]) p.update_arc(a); tr+="reset+reannounce "; }
		else if(op==g.m()*vals.size()+1){ p.customize(m); dirty.assign(g.m(),false); tr+="customize "; judge(); }
		else { m.customize(); p.reset(cch); dirty.assign(g.m(),false); tr+="full "; judge(); }
	}
	p.customize(m); tr+="customize"; judge();
}
void transfer_suite(std::vector<Suite>&v){
	static const unsigned ns[]={1,3,8,21}; Suite s; s.name="transferred_hierarchies"; s.bounds="13 graph families with parallel arcs x 1..21 nodes x 5 orders x 2 filters: the hierarchy copied, moved, assigned, swapped, stored in a growing vector, assigned to itself; originals gone before use"; s.count=(uint64_t)F_COUNT*4*ORDERS*2*two::TRANSFERS;
	auto dec=[](uint64_t i){ vx::Dec d(i); V r; r.push_back(d.get(two::TRANSFERS)); r.push_back(d.get(2)); r.push_back(d.get(ORDERS)); r.push_back(d.get(4)); r.push_back(d.get(F_COUNT)); return r; };
	s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u order pattern %u filter %u, hierarchy %s",family_name(k[4]),ns[k[3]],k[2],k[1],two::transfer_name(k[0])); };
	s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); G g=family(k[4],ns[k[3]],3); unsigned m=g.m(); for(unsigned a=0;a<m;a+=3) g.add(g.tail[a],g.head[a],g.w[a]+(a%2?1:-(g.w[a]>0))); V w=g.w; auto D=dist(g,w); G g2=bidir(3,{{0,1},{1,2}});
		two::transfer(k[0],build(g,order_pattern(k[2],g.n),k[1]),build(g2,{1,0,2},false),[&](const CCH&h){ ++c.traces; Metric x(h,w); x.customize(); all_queries(c,g,w,D,x,false); auto ch=x.build_contraction_hierarchy_using_perfect_witness_search(); ContractionHierarchyQuery q(ch); for(unsigned s0=0;s0<g.n;++s0){ q.reset().add_source(s0).add_target(g.n-1-s0).run(); c.eqs(q.get_distance(),ref_dist(D,{{s0,0}},{{g.n-1-s0,0}}),"distance of the extracted hierarchy"); } }); };
	v.push_back(s);
}
void partial_suites(std::vector<Suite>&v){
	bool T=vx::opt().thorough(), A=vx::opt().asan();
	// every pair of weight vectors on every 3 node structure
	{
		V vals={0,1,3,INF}; if(A||!T) vals={0,2,INF};
		struct It{ G g; uint64_t n0; }; std::vector<It>its; uint64_t total=0; std::vector<uint64_t>first;
		for(unsigned mask=1;mask<64;++mask){
			SlotSpace sp(3,false,{1}); G g=sp.at(mask); if(A&&g.m()>3) continue;
			uint64_t k=vx::ipow(vals.size(),g.m()); first.push_back(total); its.push_back({g,k}); total+=k*k;
		}
		Suite s; s.name="n3_pairs"; s.bounds="every 3 node structure, every pair (old,new) of weight vectors over "+str(vals)+", filter alternating, three announcement modes over the 6 orders"; s.count=total;
		auto dec=[=](uint64_t i){ size_t k=std::upper_bound(first.begin(),first.end(),i)-first.begin()-1; i-=first[k]; return std::make_tuple(k,i%its[k].n0,i/its[k].n0); };
		s.describe=[=](uint64_t i){ auto t=dec(i); auto&g=its[std::get<0>(t)].g; return ::str(g)+" w0="+str(weights_at(std::get<1>(t),vals,g.m()))+" w1="+str(weights_at(std::get<2>(t),vals,g.m())); };
		s.run=[=](uint64_t i, Ctx&c){ auto t=dec(i); auto&g=its[std::get<0>(t)].g; V w0=weights_at(std::get<1>(t),vals,g.m()),w1=weights_at(std::get<2>(t),vals,g.m());
			for(unsigned o=0;o<6;++o){ if(!T&&!A&&(o+i)%3) continue; V order=vx::nth_permutation(3,o); auto cch=build(g,order,(i+o)%2); partial_pair(c,g,cch,w0,w1,(i/7+o)%3); } };
		v.push_back(s);
	}
	// every single or double change from every weight vector on 4 node structures
	auto changes=[&](std::string name, G g, V vals, V order, unsigned nchg){
		auto cch=std::make_shared<CCH>(build(g,order,false)); auto cchf=std::make_shared<CCH>(build(g,order,true));
		Suite s; s.name=name; s.bounds=fmt("%s: every weight vector over %s, every change of %u arcs",::str(g).c_str(),str(vals).c_str(),nchg);
		unsigned per=vx::ipow(g.m()*vals.size(),nchg);
		s.count=vx::ipow(vals.size(),g.m());
		s.describe=[=](uint64_t i){ return ::str(g)+" w0="+str(weights_at(i,vals,g.m())); };
		s.run=[=](uint64_t i, Ctx&c){ V w0=weights_at(i,vals,g.m());
			const CCH&h=i%2?*cchf:*cch;
			V w=w0; Metric m0(h,w); m0.customize(); Partial p(h);
			for(unsigned k=0;k<per;++k){ vx::Dec d(k); V w1=w0; for(unsigned j=0;j<nchg;++j){ unsigned a=d.get(g.m()); w1[a]=vals[d.get(vals.size())]; } if(w1==w0) continue;
				w=w1; Metric m=m0; for(unsigned a=0;a<g.m();++a) if(w0[a]!=w1[a]) p.update_arc(a);
				p.customize(m); c.transitions+=2; c.note="w1="+str(w1);
				all_queries(c,g,w1,dist(g,w1),m,false); }
		};
		v.push_back(s);
	};
	G k4=structure(4,{{0,1},{0,2},{0,3},{1,0},{1,2},{1,3},{2,0},{2,1},{2,3},{3,0},{3,1},{3,2}});
	if(!A){
		changes("k4_single",k4,T?V{0,2,INF}:V{1,INF},{0,1,2,3},1);
		changes("k4_double",k4,{1,3},{0,1,2,3},T?2:1);
		G c5=bidir(5,{{0,1},{1,2},{2,3},{3,4},{4,0}});
		changes("ring5_single",c5,{1,4,INF},{0,1,2,3,4},1);
		changes("ring5_rev",c5,{1,3},{0,2,4,1,3},2);
		G lad=structure(6,{{0,4},{4,5},{1,5},{5,1},{2,4},{4,2},{3,5},{0,5},{5,0}});
		changes("diamond6",lad,{1,2,INF},{0,1,2,3,4,5},1);
		changes("oneway_path6",structure(6,{{0,1},{1,2},{2,3},{3,4},{4,5},{5,0},{0,3},{3,1}}),{0,2,INF},{1,3,5,0,2,4},2);
	}else changes("k4_asan",structure(4,{{0,1},{1,2},{2,3},{3,0},{0,2},{2,0}}),{1,3,INF},{0,1,2,3},1);
	// multi arcs and loops
	changes("multi3",structure(3,{{0,1},{0,1},{1,0},{1,2},{1,2},{2,2},{0,2}}),{1,2,INF},{1,0,2},1);
	changes("multi3b",structure(3,{{0,1},{0,1},{0,1},{1,2},{2,0},{2,0},{1,1}}),{0,2,INF},{0,1,2},1);
	// histories
	auto hist=[&](std::string name, G g, V order, V vals, unsigned depth){
		auto cch=std::make_shared<CCH>(build(g,order,false)); auto cchf=std::make_shared<CCH>(build(g,order,true));
		unsigned r=g.m()*vals.size()+3; uint64_t prefix=(uint64_t)r*r;
		Suite s; s.name=name; s.bounds=fmt("%s: all histories of %u operations (set+announce %u arcs x values %s, reset+reannounce, partial customize, full customize) on one partial object, filter on/off",::str(g).c_str(),depth,g.m(),str(vals).c_str());
		s.count=prefix*2; s.describe=[=](uint64_t i){ return ::str(g)+fmt(" first ops %llu,%llu filter=%llu",(unsigned long long)(i/2%r),(unsigned long long)(i/2/r),(unsigned long long)i%2); };
		s.run=[=](uint64_t i, Ctx&c){ vx::Choices ch; const CCH&h=i%2?*cchf:*cch; i/=2;
			ch.val={(unsigned)(i%r),(unsigned)(i/r)}; ch.radix={r,r};
			do{ ch.rewind(); partial_history(c,g,h,depth,vals,ch); if(!ch.next()) break; }while(ch.val.size()>=2&&ch.val[0]==i%r&&ch.val[1]==i/r);
		};
		v.push_back(s);
	};
	hist("hist_tri",bidir(3,{{0,1},{1,2},{0,2}}),{0,1,2},{1,5,INF},A?3:4);
	if(!A) hist("hist_path4",bidir(4,{{0,1},{1,2},{2,3}}),{1,2,0,3},{1,3},T?6:5);
	if(!A&&T) hist("hist_tri_deep",structure(3,{{0,1},{1,2},{2,0},{0,2}}),{1,0,2},{1,5,INF},5);
	// one partial object and one metric moved along hierarchies of equal and of other sizes
	{
		std::vector<G>gs={bidir(3,{{0,1},{1,2},{0,2}}),structure(3,{{0,1},{1,2},{2,0}}),bidir(5,{{0,1},{1,2},{2,3},{3,4},{4,0}}),structure(1,{{0,0}}),structure(6,{{0,1},{1,2},{2,3},{3,4},{4,5},{5,0},{0,3},{3,1}}),bidir(4,{{0,1},{1,2},{2,3}})};
		auto hs=std::make_shared<std::vector<CCH>>(); hs->resize(gs.size()); for(unsigned i=0;i<gs.size();++i) (*hs)[i]=(build(gs[i],order_pattern(i%ORDERS,gs[i].n),i%2));
		unsigned K=gs.size(), L=A?3:4; Suite s; s.name="moved_objects"; s.bounds=fmt("every sequence of %u out of %u hierarchies (equal and different sizes) x start with an empty object (where a used one was destroyed) or not x pending announcements at each move or not x 4 ways to attach the metric",L,K); s.count=vx::ipow(K,L)*2*2*4;
		s.describe=[=](uint64_t i){ vx::Dec d(i); unsigned e=d.get(2),pe=d.get(2),at=d.get(4); std::string r=fmt("empty start %u, pending %u, attach %u:",e,pe,at); for(unsigned j=0;j<L;++j) r+=fmt(" h%u",d.get(K)); return r; };
		s.run=[=](uint64_t i, Ctx&c){ vx::Dec d(i); unsigned e=d.get(2),pe=d.get(2),at=d.get(4); V seq(L); for(auto&x:seq) x=d.get(K);
			std::vector<V>ws(L); unsigned from=0;
			// the empty objects lie where used ones were destroyed
			typename std::aligned_storage<sizeof(Metric),alignof(Metric)>::type mm; typename std::aligned_storage<sizeof(Partial),alignof(Partial)>::type pm; { V w0=gs[seq[L-1]].w; Metric*m0=new(&mm)Metric((*hs)[seq[L-1]],w0); Partial*p0=new(&pm)Partial((*hs)[seq[0]]); for(unsigned a=gs[seq[0]].m();a-->0;) p0->update_arc(a); asm volatile(""::"r"(&mm),"r"(&pm):"memory"); p0->~Partial(); m0->~Metric(); asm volatile(""::"r"(&mm),"r"(&pm):"memory"); }
			Metric&m=*new(&mm)Metric(); Partial&p=*new(&pm)Partial(); struct End{ Metric&m; Partial&p; ~End(){ p.~Partial(); m.~Metric(); } } end{m,p};
			if(!e){ m=Metric((*hs)[seq[0]],ws[0]=gs[seq[0]].w); p=Partial((*hs)[seq[0]]); m.customize(); from=1; }
			for(unsigned j=0;j<L;++j){ const G&g=gs[seq[j]]; const CCH&h=(*hs)[seq[j]]; V&w=ws[j]; w=V(g.m()); for(unsigned a=0;a<g.m();++a) w[a]=1+(a*5+j*3)%7;
				if(j>=from){ p.reset(h); switch((at+j)%4){ case 0: m.reset(h,w); break; case 1: m.reset(h,w.data()); break; case 2: m=Metric(h,w); break; case 3: m=Metric(h,w.data()); break; } m.customize(); } else m.reset(w).customize();
				c.transitions+=3;
				for(unsigned a=j%2;a<g.m();a+=2){ w[a]=a%3==0?INF:w[a]+4; p.update_arc(a); } p.customize(m); c.note=fmt("step %u, hierarchy %u",j,seq[j]); all_queries(c,g,w,dist(g,w),m,false);
				if(pe) for(unsigned a=0;a<g.m();++a) p.update_arc(a); } };
		v.push_back(s);
	}
	// families: every single arc change to several values, and batches
	std::vector<unsigned>sizes=A?std::vector<unsigned>{9}:std::vector<unsigned>{9,16,25,40};
	Suite s; s.name="families"; s.bounds="13 families x sizes x 5 orders x filter: every single arc set to {0,1000,inf} and back, chained on one metric, then batches";
	s.count=sizes.size()*F_COUNT*ORDERS*2;
	auto dec=[=](uint64_t i){ vx::Dec d(i); unsigned fi=d.get(2),o=d.get(ORDERS),f=d.get(F_COUNT),n=sizes[d.get(sizes.size())]; return V{f,n,o,fi}; };
	s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u order pattern %u filter=%u",family_name(k[0]),k[1],k[2],k[3]); };
	s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); G g=family(k[0],k[1],2); auto cch=build(g,order_pattern(k[2],g.n),k[3]); V w=g.w; Metric m(cch,w); m.customize(); Partial p(cch);
		unsigned step=g.m()>60?g.m()/30:1;
		for(unsigned a=0;a<g.m();a+=step) for(unsigned x:{0u,1000u,INF,g.w[a]}){ w[a]=x; p.update_arc(a).customize(m); c.transitions+=2; c.note=fmt("arc %u set to %u",a,x);
			auto D=dist(g,w); Query q(m); unsigned n=g.n; for(unsigned s=0;s<n;++s) for(unsigned t=s%3;t<n;t+=(n>16?3:1)) query(c,g,w,D,q,{{s,0}},{{t,0}},(s+t)%2==0); }
		for(unsigned b=0;b<4;++b){ uint64_t sd=b+1; for(unsigned a=b%3;a<g.m();a+=3){ unsigned r=lcg(sd)%9; w[a]=r==0?INF:r; p.update_arc(a); } p.customize(m); c.note=fmt("batch %u",b); all_queries(c,g,w,dist(g,w),m,false); }
	};
	s.chunk=1; s.case_timeout=200; v.push_back(s);
}

// ------------------------------------------------------------------ C10
void ch_query(Ctx&c, const G&g, const V&w, const Dist&D, ContractionHierarchyQuery&q, const Eps&S, const Eps&T){
	q.reset(); for(auto&s:S) q.add_source(s.node,s.off); for(auto&t:T) q.add_target(t.node,t.off); q.run(); c.transitions+=3;
	unsigned want=ref_dist(D,S,T); c.eq(q.get_distance(),want,[&]{ return "CH distance "+str(S)+"->"+str(T); });
	check_path(c,g,w,S,T,want,q.get_used_source(),q.get_used_target(),q.get_node_path(),q.get_arc_path()); ++c.traces;
}
void ch_queries(Ctx&c, const G&g, const V&w, const Dist&D, const ContractionHierarchy&ch, bool pinned){
	ContractionHierarchyQuery q(ch);
	for(unsigned s=0;s<g.n;++s) for(unsigned t=0;t<g.n;++t) ch_query(c,g,w,D,q,{{s,0}},{{t,0}});
	if(pinned&&g.n){ V all(g.n); for(unsigned i=0;i<g.n;++i) all[i]=i;
		q.reset().pin_targets(all); for(unsigned s=0;s<g.n;++s){ auto r=q.reset_source().add_source(s).run_to_pinned_targets().get_distances_to_targets(); for(unsigned t=0;t<g.n;++t) c.eqs(r[t],cap(D(s,t)),"pinned distance"); }
	}
}
void perfect(Ctx&c, const G&g, const V&order, bool filter, const std::vector<V>&ws, unsigned after){
	auto cch=build(g,order,filter);
	for(unsigned i=0;i<ws.size();++i){
		V w=ws[i]; auto D=dist(g,w); Metric m(cch,w.data());
		if(i%2) m.customize();
		auto ch=m.build_contraction_hierarchy_using_perfect_witness_search(); c.transitions+=2;
		c.note=ostr(order,filter)+" weights="+str(w)+" extracted CH"; ch_queries(c,g,w,D,ch,true);
		// the metric afterwards
		for(unsigned k=0;k<5;++k) if(after&(1u<<k)){
			V w2=w;
			if(k==0){ c.note=ostr(order,filter)+" weights="+str(w)+" metric after extraction"; all_queries(c,g,w,D,m,false); continue; }
			for(unsigned a=0;a<w2.size();++a) if((a+k)%2==0) w2[a]= w[a]==INF?1:(w[a]%3==0?w[a]+2:(a%3?INF:0));
			if(k==1){ m.reset(w2.data()).customize(); }
			if(k==2){ m.reset(cch,w2.data()); Parallel p(cch); p.customize(m,2); }
			if(k==3){ Partial p(cch); m.reset(w2.data()); for(unsigned a=0;a<w2.size();++a) if(w2[a]!=w[a]) p.update_arc(a); p.customize(m); }
			if(k==4){ m.reset(w2.data()); auto ch2=m.build_contraction_hierarchy_using_perfect_witness_search(); c.note="second extraction"; ch_queries(c,g,w2,dist(g,w2),ch2,false); }
			c.transitions+=2; c.note=ostr(order,filter)+" first weights="+str(w)+" then "+str(w2)+fmt(" by way %u",k); all_queries(c,g,w2,dist(g,w2),m,false);
			if(k!=4||(after>>5)){ m.reset(w.data()); m.build_contraction_hierarchy_using_perfect_witness_search(); }
		}
	}
}
void perfect_suites(std::vector<Suite>&v){
	bool T=vx::opt().thorough(), A=vx::opt().asan();
	auto mk=[&](std::string name, std::string b, auto sp, unsigned orders, unsigned after){
		Suite s; s.name=name; s.bounds=b; s.count=sp.count(); s.describe=[sp](uint64_t i){ return ::str(sp.at(i)); };
		s.run=[=](uint64_t i, Ctx&c){ G g=sp.at(i); uint64_t all=vx::factorial(g.n); for(uint64_t o=0;o<(orders==VARY?2:orders?orders:all);++o){ V order=orders==VARY?vx::nth_permutation(g.n,o?i%all:0):orders?order_pattern(o,g.n):vx::nth_permutation(g.n,o); for(int f=0;f<2;++f) perfect(c,g,order,f,{g.w},after); } };
		v.push_back(s);
	};
	mk("n1","1 node with loop",SlotSpace(1,true,{0,1,INF}),0,31);
	mk("n2_loops","2 nodes with loops, weights {0,1,5,inf}, all orders, filters; metric used afterwards in 5 ways",SlotSpace(2,true,{0,1,5,INF}),0,31);
	mk("n3_w","3 nodes, weights {0,1,3}, all orders, filters; metric used afterwards in 5 ways",SlotSpace(3,false,A?V{0,2}:V{0,1,3}),0,31);
	mk("n2_multi","2 nodes, ordered lists of 4 arcs, weights {0,2}",ListSpace(2,4,true,{0,2}),0,31);
	if(!A){
		mk("n3_big","3 nodes, weights {1,2^30,inf-1,inf}",SlotSpace(3,false,{1,1u<<30,INF-1,INF}),0,1);
		mk("n3_multi","3 nodes, ordered lists of 4 arcs with loops, weight {1,2}",ListSpace(3,4,true,{1,2}),2,1);
		mk("n4_all","4 nodes, all graphs with weights {1,3}, one order per filter",SlotSpace(4,false,{1,3}),1,0);
		mk("n4_sub5","4 nodes, sets of 5 arcs, weights {0,2}, all 24 orders",SubsetSpace(4,5,{0,2}),0,0);
		mk("n4_sub6_after","4 nodes, sets of 6 arcs, weights {1,4}, 3 orders; metric used afterwards",SubsetSpace(4,6,{1,4}),3,31);
		mk("n5_sub6","5 nodes, sets of 6 arcs, weights {1,4}, identity and varying order",SubsetSpace(5,6,{1,4}),VARY,0);
		mk("n5_sub7","5 nodes, sets of 7 arcs, weight {1}, identity and varying order",SubsetSpace(5,7,{1}),VARY,1);
		if(T){ mk("n4_all_orders","4 nodes, all graphs with weights {1,3}, all orders",SlotSpace(4,false,{1,3}),0,9); mk("n5_sub7_w","5 nodes, sets of 7 arcs, weights {1,4}",SubsetSpace(5,7,{1,4}),VARY,1); mk("n5_sub8","5 nodes, sets of 8 arcs, weights {1,4}",SubsetSpace(5,8,{1,4}),VARY,0); mk("n4_w013","4 nodes, all graphs weights {0,1,3}",SlotSpace(4,false,{0,1,3}),1,0); }
	}
	std::vector<unsigned>sizes={5,7,10,17}; if(!A){ for(unsigned x:{26,33,50}) sizes.push_back(x); if(T) for(unsigned x:{65,100,150,257}) sizes.push_back(x); }
	Suite s; s.name="families"; s.bounds=fmt("13 families x sizes 5..%u x 6 weight patterns x 5 orders x filter",sizes.back()); s.count=sizes.size()*F_COUNT*ORDERS*2;
	auto dec=[=](uint64_t i){ vx::Dec d(i); unsigned fi=d.get(2),o=d.get(ORDERS),f=d.get(F_COUNT),n=sizes[d.get(sizes.size())]; return V{f,n,o,fi}; };
	s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u order pattern %u filter=%u",family_name(k[0]),k[1],k[2],k[3]); };
	s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); unsigned n=k[1]; if((k[0]==F_COMPLETE||k[0]==F_LCG_DENSE)&&n>40) n=40; G g=family(k[0],n,0); std::vector<V>ws; for(unsigned p=0;p<PATTERNS;++p){ ws.push_back(family(k[0],n,p).w); ws.back().resize(g.m(),1); } perfect(c,g,order_pattern(k[2],n),k[3],ws,n<=17?31:8); };
	s.chunk=1; s.case_timeout=200; v.push_back(s);
}

// ------------------------------------------------------------------ C11
struct World{
	// two hierarchies of different size, three metrics (two of the same hierarchy)
	G ga,gb; std::unique_ptr<CCH>ca,cb; V w1,w2,w3; std::unique_ptr<Metric>m1,m2,m3; Dist D1,D2,D3; V alt1; unsigned flip=0;
	World(const G&a, const V&oa, const G&b, const V&ob, bool filter):ga(a),gb(b){
		ca.reset(new CCH(build(a,oa,filter))); cb.reset(new CCH(build(b,ob,!filter)));
		w1=a.w; w2=a.w; for(unsigned i=0;i<w2.size();++i) w2[i]=(w1[i]*5+i)%7; alt1=w1; for(unsigned i=0;i<alt1.size();++i) alt1[i]= i%4==1?INF:w1[i]+i; w3=b.w;
		m1.reset(new Metric(*ca,w1)); m2.reset(new Metric(*ca,w2)); m3.reset(new Metric(*cb,w3)); m1->customize(); m2->customize(); m3->customize();
		D1=dist(ga,w1); D2=dist(ga,w2); D3=dist(gb,w3);
	}
	void recustomize(){ std::swap(w1,alt1); m1->reset(w1).customize(); D1=dist(ga,w1); flip^=1; }
};
const unsigned NOPS=12;
const char*op_name[NOPS]={"plain(0->last)","plain(all pairs)","multi","one_to_many","many_to_one","one_to_many rep.","abandon source","abandon pinned targets","reset(m1)","reset(m2)","reset(m3)","recustomize m1"};
struct Driver{
	World&W; Ctx&c; std::unique_ptr<Query>q; int cur=1; std::string tr;
	Driver(World&W, Ctx&c):W(W),c(c){ q.reset(new Query(*W.m1)); }
	const G&g(){ return cur==3?W.gb:W.ga; } const V&w(){ return cur==1?W.w1:cur==2?W.w2:W.w3; } const Dist&D(){ return cur==1?W.D1:cur==2?W.D2:W.D3; }
	void pinned_targets(const V&t, const std::vector<Eps>&srcs, bool ptr){
		q->reset(); q->pin_targets(t); c.transitions+=2; bool first=true;
		for(auto&S:srcs){ if(!first) q->reset_source(); first=false; for(auto&s:S) q->add_source(s.node,s.off); q->run_to_pinned_targets(); c.transitions+=2+S.size();
			V r; if(ptr){ r.assign(t.size(),77); q->get_distances_to_targets(r.data()); } else r=q->get_distances_to_targets();
			for(unsigned i=0;i<t.size();++i) c.eq(r[i],ref_dist(D(),S,{{t[i],0}}),[&]{ return fmt("one-to-many distance %u to ",i)+str(t)+" from "+str(S); }); ++c.traces; }
	}
	void pinned_sources(const V&t, const std::vector<Eps>&tg, bool ptr){
		q->reset(); q->pin_sources(t); c.transitions+=2; bool first=true;
		for(auto&S:tg){ if(!first) q->reset_target(); first=false; for(auto&s:S) q->add_target(s.node,s.off); q->run_to_pinned_sources(); c.transitions+=2+S.size();
			V r; if(ptr){ r.assign(t.size(),77); q->get_distances_to_sources(r.data()); } else r=q->get_distances_to_sources();
			for(unsigned i=0;i<t.size();++i) c.eq(r[i],ref_dist(D(),{{t[i],0}},S),[&]{ return fmt("many-to-one distance %u from ",i)+str(t)+" to "+str(S); }); ++c.traces; }
	}
	void op(unsigned o){
		unsigned n=g().n; tr+=std::string(op_name[o])+"; "; c.note=tr; c.transitions++;
		switch(o){
			case 0: query(c,g(),w(),D(),*q,{{0,0}},{{n-1,0}}); break;
			case 1: for(unsigned s=0;s<n;++s) for(unsigned t=0;t<n;++t) query(c,g(),w(),D(),*q,{{s,0}},{{t,0}}); break;
			case 2: query(c,g(),w(),D(),*q,{{0,1},{n/2,0},{0,0}},{{n-1,4},{1%n,1}}); query(c,g(),w(),D(),*q,{{n-1,INF-1},{0,3}},{{0,2},{n-1,7}}); break;
			case 3: { V t; for(unsigned i=0;i<n;++i) t.push_back(i); pinned_targets(t,{{{0,0}},{{n-1,0}},{{n/2,1},{0,5}}},false); } break;
			case 4: { V t; for(unsigned i=n;i-->0;) t.push_back(i); pinned_sources(t,{{{0,0}},{{n-1,0}},{{n/2,1},{0,5}}},false); } break;
			case 5: { V t={n-1,0,n-1,n/2,n-1}; while(t.size()<2*n+3) t.push_back(t.size()%n); pinned_targets(t,{{{n/2,0}},{{0,2},{n-1,0}}},true); pinned_sources(t,{{{n/2,0}},{{0,2},{n-1,0}}},true); } break;
			case 6: q->reset(); q->add_source(n-1,1).add_source(0,2).add_target(n/2,3); break;
			case 7: q->reset(); q->pin_targets({0,n-1,0}); q->add_source(n/2); if(tr.size()%2) q->run_to_pinned_targets(); break;
			case 8: q->reset(*W.m1); cur=1; direct(); break;
			case 9: q->reset(*W.m2); cur=2; direct(); break;
			case 10: q->reset(*W.m3); cur=3; direct(); break;
			case 11: W.recustomize(); break;
		}
	}
	void direct(){ // no reset() in between: a query right after reset(metric)
		unsigned n=g().n; q->add_source(n-1); q->add_target(0); q->run(); c.eqs(q->get_distance(),ref_dist(D(),{{n-1,0}},{{0,0}}),"distance right after reset(metric)");
		check_path(c,g(),w(),{{n-1,0}},{{0,0}},ref_dist(D(),{{n-1,0}},{{0,0}}),q->get_used_source(),q->get_used_target(),q->get_node_path(),q->get_arc_path());
	}
};
void history_suites(std::vector<Suite>&v){
	bool T=vx::opt().thorough(), A=vx::opt().asan();
	struct Cfg{ std::string name; G a; V oa; G b; V ob; };
	std::vector<Cfg>cfgs;
	{ G a=bidir(4,{{0,1},{1,2},{2,3},{0,2}}); for(unsigned i=0;i<a.m();++i) a.w[i]=1+i*3%5; G b=bidir(3,{{0,1},{1,2}}); cfgs.push_back({"ring4",a,{1,3,0,2},b,{0,1,2}}); }
	{ G a=structure(5,{{0,1},{1,2},{2,0},{3,4},{4,3},{2,3}}); a.w={2,0,1,3,1,4}; G b=family(F_GRID,9,2); cfgs.push_back({"oneway5",a,{0,3,1,4,2},b,order_pattern(4,9)}); }
	{ G a=family(F_TREE,7,2); G b=family(F_STAR,2,0); cfgs.push_back({"tree7",a,{3,4,5,6,1,2,0},b,{1,0}}); }
	unsigned depth=A?3:(T?6:5);
	for(auto&k:cfgs){
		if(A&&&k!=&cfgs[1]) continue;
		Suite s; s.name="hist_"+k.name; s.bounds=fmt("all histories of %u operations out of %u on one query object; hierarchies %s order %s and n=%u",depth,NOPS,::str(k.a).c_str(),str(k.oa).c_str(),k.b.n);
		s.count=vx::ipow(NOPS,depth-1);
		s.describe=[=](uint64_t i){ vx::Dec d(i); std::string r; for(unsigned j=0;j+1<depth;++j) r+=std::string(op_name[d.get(NOPS)])+"; "; return r+"then every last operation"; };
		auto world=std::make_shared<std::unique_ptr<World>>();
		s.run=[=](uint64_t i, Ctx&c){
			if(!*world) world->reset(new World(k.a,k.oa,k.b,k.ob,false));
			for(unsigned last=0;last<NOPS;++last){
				if((*world)->flip) (*world)->recustomize();
				Driver d(**world,c); vx::Dec e(i); for(unsigned j=0;j+1<depth;++j) d.op(e.get(NOPS)); d.op(last); d.op(0);
			}
		};
		v.push_back(s);
	}
	for(auto&k:cfgs){
		auto il=std::make_shared<std::vector<unsigned>>(two::interleavings()); unsigned K=il->size(); Suite s; s.name="two_objects_"+k.name; s.bounds="two query objects of one thread, on the same metric, on two metrics of one hierarchy and on two hierarchies, plain and pinned queries: all interleavings of their six steps"; s.count=(uint64_t)9*9*K;
		auto dec=[=](uint64_t i){ vx::Dec d(i); V r{(unsigned)d.get(3),(unsigned)d.get(3)}; unsigned x=d.get(K); r.push_back((*il)[x]); r.push_back(d.get(3)); r.push_back(d.get(3)); return r; };
		s.describe=[=](uint64_t i){ auto x=dec(i); return fmt("metrics %u and %u ",x[3],x[4])+two::describe(x[0],x[1],x[2]); };
		auto world=std::make_shared<std::unique_ptr<World>>();
		s.run=[=](uint64_t i, Ctx&c){ if(!*world) world->reset(new World(k.a,k.oa,k.b,k.ob,true)); auto&W=**world; auto x=dec(i);
			auto side=[&](unsigned m, unsigned kind){ return two::Side<Query>(Query(m==0?*W.m1:m==1?*W.m2:*W.m3),m==2?W.gb:W.ga,m==0?W.w1:m==1?W.w2:W.w3,m==0?W.D1:m==1?W.D2:W.D3,kind); };
			auto a=side(x[3],x[0]), b=side(x[4],x[1]); two::run(c,a,b,x[2]); };
		s.chunk=64; v.push_back(s);
	}
	for(auto&k:cfgs){
		Suite s; s.name="object_lives_"+k.name; s.bounds="a query object default constructed or attached by its constructor, also in the memory of a destroyed one, copied, moved, assigned or swapped after every number of steps, plain and pinned queries, all pairs of 3 metrics of two hierarchies"; s.count=(uint64_t)two::STARTS*3*two::WHENS*two::HOWS*9;
		auto dec=[](uint64_t i){ vx::Dec d(i); two::Life l; l.start=d.get(two::STARTS); l.kind=d.get(3); l.when=d.get(two::WHENS); l.how=d.get(two::HOWS); l.h=d.get(3); l.other=d.get(3); return l; };
		s.describe=[=](uint64_t i){ return two::describe(dec(i)); };
		auto world=std::make_shared<std::unique_ptr<World>>();
		s.run=[=](uint64_t i, Ctx&c){ if(!*world) world->reset(new World(k.a,k.oa,k.b,k.ob,true)); auto&W=**world;
			two::live<Query>(c,dec(i),[&](unsigned m)->const Metric&{ return m==0?*W.m1:m==1?*W.m2:*W.m3; },[&](unsigned m, const G**g, const std::vector<unsigned>**w, const Dist**D){ *g=m==2?&W.gb:&W.ga; *w=m==0?&W.w1:m==1?&W.w2:&W.w3; *D=m==0?&W.D1:m==1?&W.D2:&W.D3; }); };
		v.push_back(s);
	}
	// pinned lists: all lists over the nodes, all sources / source pairs
	auto pin=[&](std::string name, G g, unsigned maxlen, bool pairs){
		Suite s; s.name=name; unsigned n=g.n; uint64_t lists=0; for(unsigned l=0;l<=maxlen;++l) lists+=vx::ipow(n,l);
		s.bounds=fmt("%s: all pinned lists of length 0..%u (repetitions included) x all sources / targets%s, %llu orders, filter",::str(g).c_str(),maxlen,pairs?" and pairs":"",(unsigned long long)vx::factorial(n));
		s.count=lists; auto dec=[=](uint64_t i){ V l; for(unsigned k=0;k<=maxlen;++k){ uint64_t c=vx::ipow(n,k); if(i<c){ vx::Dec d(i); for(unsigned j=0;j<k;++j) l.push_back(d.get(n)); return l; } i-=c; } return l; };
		s.describe=[=](uint64_t i){ return "list "+str(dec(i)); };
		s.run=[=](uint64_t i, Ctx&c){ V l=dec(i); uint64_t F=vx::factorial(n); for(uint64_t o=0;o<F;o+=(n>4?7:1)) { World W(g,vx::nth_permutation(n,o),g,vx::nth_permutation(n,F-1-o),o%2); Driver d(W,c); std::vector<Eps>S; for(unsigned x=0;x<n;++x) S.push_back({{x,0}}); if(pairs) for(unsigned x=0;x<n;++x) for(unsigned y=0;y<n;++y) S.push_back({{x,2},{y,1}});
			d.tr="one-to-many "; d.c.note=ostr(vx::nth_permutation(n,o),o%2); d.pinned_targets(l,S,true); d.pinned_sources(l,S,true); if(!l.empty()){ d.pinned_targets(l,S,false); d.op(9); d.pinned_sources(l,S,false); } } };
		v.push_back(s);
	};
	G p3=structure(3,{{0,1},{1,2},{2,1}}); p3.w={2,3,1};
	pin("pin3",p3,A?4:6,true);
	G p4=bidir(4,{{0,1},{1,2},{2,3}}); p4.w={1,2,0,4,3,INF};
	if(!A){ pin("pin4",p4,T?6:4,true); G p5=structure(5,{{0,1},{1,2},{2,3},{3,4},{4,0},{1,3},{2,0}}); p5.w={1,0,3,1,2,5,0}; pin("pin5",p5,T?5:3,false); }
	// families, all graphs
	auto graphs=[&](std::string name, std::string b, auto sp){
		Suite s; s.name=name; s.bounds=b; s.count=sp.count(); s.describe=[sp](uint64_t i){ return ::str(sp.at(i)); };
		s.run=[=](uint64_t i, Ctx&c){ G g=sp.at(i); for(unsigned o=0;o<3;++o){ World W(g,order_pattern(o,g.n),g,order_pattern(o+1,g.n),(i+o)%2); Driver d(W,c); for(unsigned x:{3u,9u,4u,10u,5u,11u,8u,3u,4u,2u}) d.op(x); } };
		v.push_back(s);
	};
	graphs("n3_graphs","every 3 node graph with weights {0,1,3}: fixed interleaving of pinned and plain queries over metric and hierarchy switches",SlotSpace(3,false,A?V{1}:V{0,1,3}));
	if(!A) graphs("n4_graphs","4 nodes, all sets of 5 arcs, weights {1,3}",SubsetSpace(4,5,{1,3}));
	{
		std::vector<unsigned>sizes=A?std::vector<unsigned>{6,20}:std::vector<unsigned>{6,13,30,60};
		Suite s; s.name="families"; s.bounds="13 families x sizes x 3 weight patterns x 5 orders, interleaved plain/pinned queries"; s.count=sizes.size()*F_COUNT*ORDERS*3;
		auto dec=[=](uint64_t i){ vx::Dec d(i); unsigned p=d.get(3),o=d.get(ORDERS),f=d.get(F_COUNT),n=sizes[d.get(sizes.size())]; return V{f,n,o,p}; };
		s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u order pattern %u weights %u",family_name(k[0]),k[1],k[2],k[3]+2); };
		s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); G g=family(k[0],k[1],k[3]+2); World W(g,order_pattern(k[2],g.n),family(k[0],k[1]/2+1,2),order_pattern((k[2]+1)%ORDERS,k[1]/2+1),i%2); Driver d(W,c); for(unsigned x:{3u,4u,9u,5u,1u,7u,10u,4u,3u,11u,8u,1u,6u,5u}) d.op(x); };
		s.chunk=1; s.case_timeout=200; v.push_back(s);
	}
	// a new hierarchy built into the object of the old one, query.reset(new metric)
	{
		Suite s; s.name="replaced_hierarchy"; s.bounds="hierarchy object overwritten by a hierarchy of another graph of 2..4 nodes (all structures on <=3 nodes), metric and query reset to it, query in every prior state"; 
		s.count=64*8*6*4;
		auto dec=[](uint64_t i){ vx::Dec d(i); V r; r.push_back(d.get(6)); r.push_back(d.get(8)); r.push_back(d.get(4)); r.push_back(d.get(64)); return r; };
		s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("prior state %u, from structure %u (order %u) to structure %u on 3 nodes",k[1],k[3],k[0],k[2]*16+3); };
		s.run=[=](uint64_t i, Ctx&c){
			auto k=dec(i); G g1=SlotSpace(3,false,{2}).at(k[3]), g2=SlotSpace(3,false,{1}).at((k[2]*21+5)%64); if(k[2]==3){ g2=bidir(4,{{0,3},{3,1},{1,2}}); } if(k[2]==2) g2=bidir(2,{{0,1}});
			CCH cch=build(g1,vx::nth_permutation(3,k[0]),k[0]%2); V w1=g1.w,w2=g2.w; w1.push_back(0); w2.push_back(0); Metric m(cch,w1.data()); m.customize(); Query q(m);
			unsigned st=k[1]; if(st>=1&&st<=3) q.add_source(0,1); if(st==2||st==3) q.add_target(2); if(st==3) q.run(); if(st>=4&&st<6) q.pin_targets({0,2}); if(st==5){ q.add_source(1); q.run_to_pinned_targets(); } if(st>=6) q.pin_sources({1,2}); if(st==7){ q.add_target(0); q.run_to_pinned_sources(); }
			cch=build(g2,vx::nth_permutation(g2.n,k[0]),k[0]%2==0); m.reset(cch,w2.data()); m.customize(); q.reset(m); c.transitions+=6; w2.pop_back(); auto D=dist(g2,w2);
			unsigned n=g2.n; q.add_source(0); q.add_target(n-1); q.run(); c.eqs(q.get_distance(),cap(D(0,n-1)),"distance on the replaced hierarchy");
			for(unsigned s=0;s<n;++s) for(unsigned t=0;t<n;++t) query(c,g2,w2,D,q,{{s,0}},{{t,0}});
		};
		v.push_back(s);
	}
}

// ------------------------------------------------------------------ sizes beyond 16 bits, for all properties
void wide_suite(std::vector<Suite>&v, const std::string&prop){
	if(vx::opt().asan()) return; bool T=vx::opt().thorough(); unsigned N=T?3:2,K=4;
	Suite s; s.name="beyond_16_bits"; s.bounds=fmt("paths, trees, ladders, one-way cycles and chains of cliques with 65535..%u nodes, nested orders, both filters, two weight patterns; queries from 3 nodes to a sample of the nodes (all nodes for pinned queries)",WIDE_N[N-1]); s.count=N*WIDE_FAMILIES*K; s.chunk=1; s.case_timeout=200;
	auto dec=[=](uint64_t i){ vx::Dec d(i); unsigned f=d.get(WIDE_FAMILIES),k=d.get(K),n=d.get(N); return V{WIDE_F[f],WIDE_N[n],k%2?2u:4u,k/2}; };
	s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u pattern=%u filter=%u",family_name(k[0]),k[1],k[2],k[3]); };
	s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); unsigned n=k[1]; G g=family(k[0],n,k[2]); auto cch=build(g,wide_order(k[0],n),k[3]); if(cch.node_count()!=n||cch.input_arc_count()!=g.m()) c.fail("node or arc count"); V w=g.w; Metric m(cch,w); m.customize(); V src={0u,n-1,n/2+7}; V all(n); for(unsigned x=0;x<n;++x) all[x]=x; Query q(m); std::unique_ptr<ContractionHierarchy>ch; std::unique_ptr<ContractionHierarchyQuery>hq;
		auto probe=[&](unsigned count, bool path){ for(unsigned s0:src){ G h=g; h.w=w; auto d=sssp(g,w,s0),b=sssp(reversed(h),w,s0); for(unsigned t:wide_probes(n,count)) for(unsigned dir=0;dir<2;++dir){ unsigned a=dir?t:s0,z=dir?s0:t; u64 D=dir?b[t]:d[t]; unsigned want=D>=INF64?INF:cap(D+3); q.reset().add_source(a,1).add_target(z,2).run(); c.transitions+=4; ++c.traces; c.eq(q.get_distance(),want,[&]{ return fmt("distance %u->%u",a,z); });
			if(path) check_path(c,g,w,{{a,1}},{{z,2}},want,q.get_used_source(),q.get_used_target(),q.get_node_path(),q.get_arc_path());
			if(hq){ hq->reset().add_source(a,1).add_target(z,2).run(); c.eq(hq->get_distance(),want,[&]{ return fmt("distance %u->%u in the extracted hierarchy",a,z); }); if(path) check_path(c,g,w,{{a,1}},{{z,2}},want,hq->get_used_source(),hq->get_used_target(),hq->get_node_path(),hq->get_arc_path()); } } } };
		auto pinned=[&]{ for(unsigned s0:src) for(unsigned dir=0;dir<2;++dir){ auto d=sssp(dir?reversed(g):g,w,s0); q.reset(); if(dir) q.pin_sources(all); else q.pin_targets(all); for(unsigned rep=0;rep<2;++rep){ V x= dir? q.reset_target().add_target(s0,rep).run_to_pinned_sources().get_distances_to_sources() : q.reset_source().add_source(s0,rep).run_to_pinned_targets().get_distances_to_targets(); c.transitions+=4; ++c.traces; if(x.size()!=n) c.fail("number of pinned distances"); for(unsigned t=0;t<n;++t) c.eq(x[t],cap(d[t]+(d[t]<INF64?rep:0)),[&]{ return fmt("pinned distance %u %u direction %u",s0,t,dir); }); } } };
		if(prop=="C07"){ probe(25,true); probe(1000,false); V w2=w; for(unsigned a=0;a<w2.size();++a) w2[a]=1+a%3; w=w2; m.reset(w).customize(); q.reset(m); probe(300,false); }
		if(prop=="C08"){ Partial p(cch); for(unsigned r=0;r<4;++r){ if(r<3) for(unsigned a: r==0?V{0u,65536u%g.m(),g.m()-1}:r==1?V{g.m()/2}:V{65535u%g.m(),1u}){ w[a]=r==1?INF:w[a]+9+r; p.update_arc(a); } else for(unsigned a=0;a<g.m();a+=3){ w[a]=a%11==0?INF:a%5; p.update_arc(a); } p.customize(m); c.transitions++; c.note=fmt("partial customization %u",r); probe(r<3?40:150,r==1); } }
		if(prop=="C10"){ ch.reset(new ContractionHierarchy(m.build_contraction_hierarchy_using_perfect_witness_search())); hq.reset(new ContractionHierarchyQuery(*ch)); probe(25,true); probe(300,false); }
		if(prop=="C11"){ pinned(); probe(20,true); pinned(); G sm=family(F_GRID,9,2); auto cs=build(sm,order_pattern(0,9),false); Metric ms(cs,sm.w); ms.customize(); q.reset(ms); auto Ds=floyd(sm); for(unsigned a=0;a<9;++a) for(unsigned b=0;b<9;++b) query(c,sm,sm.w,Ds,q,{{a,0}},{{b,1}}); q.reset(m); probe(20,false); } };
	v.push_back(s);
}
void twin_suite(std::vector<Suite>&v, const std::string&prop){ // node ids and ranks that agree in their lower 16 bits
	if(vx::opt().asan()) return; Suite s; s.name="twin_ids"; s.bounds="13 families of 6 and 14 nodes, 2 weight patterns, 2 orders, 2 filters, whose nodes and ranks come in pairs that differ by 65536: all pairs"; s.count=F_COUNT*2*2*2*2; s.chunk=1; s.case_timeout=200;
	auto dec=[=](uint64_t i){ vx::Dec d(i); unsigned fi=d.get(2),o=d.get(2),p=d.get(2)?4:2,n=d.get(2)?14:6,f=d.get(F_COUNT); return V{f,n,p,o,fi}; };
	s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u pattern=%u order=%u filter=%u",family_name(k[0]),k[1],k[2],k[3],k[4]); };
	s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); unsigned n=k[1]; G a=family(k[0],n,k[2]); G g=twin_graph(a); V o(g.n); for(unsigned x=0;x<g.n;++x) o[x]=k[3]?g.n-1-x:x; auto cch=build(g,o,k[4]); V w=g.w; Metric m(cch,w); m.customize(); Query q(m); std::unique_ptr<ContractionHierarchy>ch; std::unique_ptr<ContractionHierarchyQuery>hq; if(prop=="C10"){ ch.reset(new ContractionHierarchy(m.build_contraction_hierarchy_using_perfect_witness_search())); hq.reset(new ContractionHierarchyQuery(*ch)); }
		auto all=[&]{ auto D=dist(a,w); for(unsigned x=0;x<n;++x) for(unsigned y=0;y<n;++y){ unsigned s0=twin_id(x),t0=twin_id(y); u64 d=D(x,y); unsigned want=d>=INF64?INF:cap(d+3); q.reset().add_source(s0,1).add_target(t0,2).run(); c.transitions+=4; ++c.traces; ++c.states; c.eq(q.get_distance(),want,[&]{ return fmt("distance %u->%u",s0,t0); }); check_path(c,g,w,{{s0,1}},{{t0,2}},want,q.get_used_source(),q.get_used_target(),q.get_node_path(),q.get_arc_path());
			if(hq){ hq->reset().add_source(s0,1).add_target(t0,2).run(); c.eq(hq->get_distance(),want,[&]{ return fmt("distance %u->%u in the extracted hierarchy",s0,t0); }); check_path(c,g,w,{{s0,1}},{{t0,2}},want,hq->get_used_source(),hq->get_used_target(),hq->get_node_path(),hq->get_arc_path()); } } };
		all(); if(prop=="C08"){ Partial p(cch); for(unsigned r=0;r<g.m();r+=1+g.m()/12){ unsigned old=w[r]; for(unsigned x:{INF,0u,old}){ w[r]=x; p.update_arc(r).customize(m); c.note=fmt("arc %u now %u",r,x); all(); } } }
		if(prop=="C11"){ auto D=dist(a,w); V l; for(unsigned x=0;x<n;++x) l.push_back(twin_id(x)); for(unsigned dir=0;dir<2;++dir){ q.reset(); if(dir) q.pin_sources(l); else q.pin_targets(l); for(unsigned x=0;x<n;++x){ V r= dir? q.reset_target().add_target(l[x]).run_to_pinned_sources().get_distances_to_sources() : q.reset_source().add_source(l[x]).run_to_pinned_targets().get_distances_to_targets(); for(unsigned y=0;y<n;++y){ u64 d=dir?D(y,x):D(x,y); c.eq(r[y],d>=INF64?INF:cap(d),[&]{ return fmt("pinned distance %u %u direction %u",l[x],l[y],dir); }); } } } }
	}; v.push_back(s);
}
void hub_suite(std::vector<Suite>&v, const std::string&prop){ // a node with more than 2^16 arcs
	if(vx::opt().asan()) return; static const unsigned ns[]={65535,65537}; Suite s; s.name="large_degree"; s.bounds="a node with 65535 and 65537 neighbours that is contracted last, arcs in one direction, in the other or in both, and as many parallel arcs between two nodes, two filters; queries between the neighbours"; s.count=2*4*2; s.chunk=1; s.case_timeout=200;
	s.describe=[=](uint64_t i){ return fmt("%u %s, filter %u",ns[i/8],i%4==3?"parallel arcs":i%4==2?"neighbours, both directions":i%4?"neighbours, incoming":"neighbours, outgoing",(unsigned)(i/4%2)); };
	s.run=[=](uint64_t i, Ctx&c){ unsigned d=ns[i/8],k=i%4; G g; g.n=k==3?3:d+2; unsigned n=g.n; auto W=[](unsigned x){ return 1+x*7919u%1000; }; if(k==3){ for(unsigned x=0;x<d;++x) g.add(x%3==0,x%3!=0,70000-x%65536); g.add(1,2,3); } else { g.add(k==1?0:1,k==1?1:0,5); for(unsigned x=2;x<n;++x){ if(k!=1) g.add(0,x,W(x)); if(k!=0) g.add(x,0,W(x)); } if(k==2) g.add(0,1,5); }
		V o(n); for(unsigned x=0;x<n;++x) o[x]=n-1-x; auto cch=build(g,o,i/4%2); V w=g.w; Metric m(cch,w); m.customize(); Query q(m); std::unique_ptr<ContractionHierarchy>ch; std::unique_ptr<ContractionHierarchyQuery>hq; if(prop=="C10"){ ch.reset(new ContractionHierarchy(m.build_contraction_hierarchy_using_perfect_witness_search())); hq.reset(new ContractionHierarchyQuery(*ch)); }
		auto all=[&](unsigned many){ G h=g; h.w=w; for(unsigned f:V{0u,1u,n-1}) for(unsigned dir=0;dir<2;++dir){ auto D=sssp(dir?reversed(h):h,w,f); for(unsigned t:wide_probes(n,many)) { if(t>=n) continue; unsigned a=dir?t:f,z=dir?f:t; u64 x=D[t]; unsigned want=x>=INF64?INF:cap(x); q.reset().add_source(a).add_target(z).run(); c.transitions+=4; ++c.traces; ++c.states; c.eq(q.get_distance(),want,[&]{ return fmt("distance %u->%u",a,z); }); check_path(c,g,w,{{a,0}},{{z,0}},want,q.get_used_source(),q.get_used_target(),q.get_node_path(),q.get_arc_path()); if(hq){ hq->reset().add_source(a).add_target(z).run(); c.eq(hq->get_distance(),want,[&]{ return fmt("distance %u->%u in the extracted hierarchy",a,z); }); } } } };
		all(40); if(prop=="C08"){ Partial p(cch); unsigned M=g.m(); for(unsigned r:V{0u,M-1,65536%M,65535%M,M/2}) for(unsigned x:{0u,INF,w[r]}){ w[r]=x; p.update_arc(r).customize(m); c.note=fmt("arc %u now %u",r,x); all(3); } for(unsigned r=0;r<M;++r){ w[r]=2+r%5; p.update_arc(r); } p.customize(m); c.note="all arcs changed"; all(20); }
		if(prop=="C11"){ V l; for(unsigned x=0;x<n;++x) l.push_back(x); for(unsigned dir=0;dir<2;++dir){ q.reset(); if(dir) q.pin_sources(l); else q.pin_targets(l); for(unsigned f:V{0u,1u,n-1}){ auto D=sssp(dir?reversed(g):g,w,f); V r= dir? q.reset_target().add_target(f).run_to_pinned_sources().get_distances_to_sources() : q.reset_source().add_source(f).run_to_pinned_targets().get_distances_to_targets(); for(unsigned y=0;y<n;++y) c.eq(r[y],D[y]>=INF64?INF:cap(D[y]),[&]{ return fmt("pinned distance %u %u direction %u",f,y,dir); }); } } }
	}; v.push_back(s);
}
void sequential_parallel(std::vector<Suite>&v){ // parallel customization in a build without OpenMP
	static const unsigned ns[]={1,2,5,12,24}; Suite s; s.name="without_openmp"; s.bounds="13 graph families x 5 orders x 1..24 nodes x 2 filters x default, 1, 2 and 7 threads: weights like those of the sequential customization, all queries"; s.count=F_COUNT*ORDERS*5*2; auto dec=[](uint64_t i){ vx::Dec d(i); V k{(unsigned)d.get(F_COUNT),(unsigned)d.get(ORDERS),ns[d.get(5)],(unsigned)d.get(2)}; if(k[2]<3&&k[0]!=F_PATH) k[2]=3; return k; };
	s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u order %u filter %u",family_name(k[0]),k[2],k[1],k[3]); };
	s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); G g=family(k[0],k[2],i%3); auto cch=build(g,order_pattern(k[1],g.n),k[3]); Parallel par(cch); Metric a(cch,g.w); a.customize(); auto D=dist(g,g.w); for(unsigned t:{0u,1u,2u,7u}){ c.note=fmt("%u threads",t); Metric b(cch,g.w); if(t) par.customize(b,t); else par.customize(b); c.transitions++; c.eqs(b.forward,a.forward,"forward weights"); c.eqs(b.backward,a.backward,"backward weights"); if(t==2) all_queries(c,g,g.w,D,b,false); } }; v.push_back(s); }
void crowd_suite(std::vector<Suite>&v, const std::string&prop){ // many endpoints
	bool A=vx::opt().asan(); static const unsigned fs[]={F_GRID,F_LCG_SPARSE,F_CYCLE,F_TREE,F_CLIQUES,F_EMPTY}; V ns={6,12,40}; if(!A) for(unsigned x:{70,140,300}) ns.push_back(x);
	Suite s; s.name="many_endpoints"; s.bounds=fmt("6 graph families x 6..%u nodes x 2 orders x 2 filters: 4 up to twice as many endpoints as there are nodes, counts around powers of two, four node and offset patterns, on one side and on both sides",ns.back()); s.count=6*ns.size()*4; s.chunk=1; s.case_timeout=120;
	auto dec=[=](uint64_t i){ vx::Dec d(i); unsigned f=fs[d.get(6)],o=d.get(2),k=d.get(2),n=ns[d.get(ns.size())]; return V{f,o,k,f==F_LCG_SPARSE&&n>70?70u:n}; };
	s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u order=%u filter=%u",family_name(k[0]),k[3],k[1],k[2]); };
	s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); unsigned n=k[3]; G g=family(k[0],n,2); if(g.m()==0) g.add(0,1,3); auto D=dist(g,g.w); auto cch=build(g,k[1]?order_pattern(4,n):wide_order(k[0],n),k[2]); Metric m(cch,g.w); m.customize(); Query q(m); auto E=crowds(n);
		if(prop=="C11"){ V a; for(unsigned x=0;x<n;x+=1+n/20) a.push_back(x); V r=a; r.insert(r.end(),a.rbegin(),a.rend()); for(unsigned dir=0;dir<2;++dir){ q.reset(); if(dir) q.pin_sources(r); else q.pin_targets(r); bool first=true; for(auto&e:E){ if(!first){ if(dir) q.reset_target(); else q.reset_source(); } first=false; for(auto&x:e) if(dir) q.add_target(x.node,x.off); else q.add_source(x.node,x.off); V d; if(dir) d=q.run_to_pinned_sources().get_distances_to_sources(); else d=q.run_to_pinned_targets().get_distances_to_targets(); c.transitions+=2+e.size(); ++c.traces; if(d.size()!=r.size()) c.fail("number of distances"); for(unsigned j=0;j<r.size();++j){ Eps P={{r[j],0}}; c.eq(d[j],dir?ref_dist(D,P,e):ref_dist(D,e,P),[&]{ return fmt("entry %u direction %u endpoints ",j,dir)+::str(e); }); } } } }
		for(unsigned j=0;j<E.size();++j){ query(c,g,g.w,D,q,E[j],{{n/2,0}}); query(c,g,g.w,D,q,{{j%n,1}},E[j]); query(c,g,g.w,D,q,E[j],E[(j*3+1)%E.size()]); } };
	v.push_back(s);
}
void make(std::vector<Suite>&v, const std::string&prop){
	if(prop=="C07"||prop=="C11") crowd_suite(v,prop);
	if(prop=="C34"){ sequential_parallel(v); return; }
	wide_suite(v,prop); twin_suite(v,prop); hub_suite(v,prop);
	if(prop=="C07"){ exact_suites(v); transfer_suite(v); }
	else if(prop=="C08") partial_suites(v);
	else if(prop=="C10") perfect_suites(v);
	else if(prop=="C11") history_suites(v);
}
}
int main(int argc, char**argv){ if(argc<2) return 2; std::string p=argv[1]; return vx::run_all(argc-1,argv+1,p,make); }
