// C12: several threads on one shared index, explored under the controlled scheduler
#include "vx.h"
#include "graphs.h"
#include "vsched.h"
#include <routingkit/contraction_hierarchy.h>
#include <routingkit/customizable_contraction_hierarchy.h>
#include <routingkit/dijkstra.h>
#include <routingkit/geo_position_to_node.h>
#include <routingkit/id_mapper.h>
#include <routingkit/bit_vector.h>
#include <routingkit/inverse_vector.h>
#include <thread>
#include <memory>
using namespace RoutingKit;
using vx::Ctx; using vx::Suite; using vx::fmt; using vx::str;
typedef std::vector<unsigned> V;
typedef CustomizableContractionHierarchy CCH;
typedef CustomizableContractionHierarchyMetric Metric;
typedef CustomizableContractionHierarchyQuery CQ;
namespace{
// Everything a thread observes goes into one vector; alone or together it must be the same.
struct World{
	G g; V first_out,w,w2; ContractionHierarchy ch; std::vector<unsigned>extra; ContractionHierarchyExtraWeight<unsigned>ex; CCH cch; std::unique_ptr<Metric>metric; GeoPositionToNode geo; BitVector bits; std::unique_ptr<LocalIDMapper>lm; std::unique_ptr<IDMapper>im; std::unique_ptr<CustomizableContractionHierarchyParallelization>par; ContractionHierarchy perfect;
};
const unsigned PROBLEMS=4;
std::unique_ptr<World> world(unsigned p){
	std::unique_ptr<World>x(new World); World&k=*x; 
	k.g= p==0? family(F_GRID,6,0) : p==1? family(F_COMPLETE,4,0) : p==2? family(F_GRID,6,1) : family(F_GRID,4,0);
	if(p==2) k.g.add(0,3,INF);
	V perm(k.g.m()); for(unsigned i=0;i<perm.size();++i) perm[i]=i; std::stable_sort(perm.begin(),perm.end(),[&](unsigned a, unsigned b){ return k.g.tail[a]<k.g.tail[b]; });
	G s; s.n=k.g.n; for(unsigned i=0;i<perm.size();++i) s.add(k.g.tail[perm[i]],k.g.head[perm[i]],1+(i*7+p)%5); k.g=s;
	k.w=k.g.w; k.w2=k.w; for(unsigned i=0;i<k.w2.size();++i) k.w2[i]=1+(i*5+3)%9;
	k.first_out=V(k.g.n+1,0); for(unsigned t:k.g.tail) ++k.first_out[t+1]; for(unsigned i=0;i<k.g.n;++i) k.first_out[i+1]+=k.first_out[i];
	V order(k.g.n); for(unsigned i=0;i<k.g.n;++i) order[i]=i; std::reverse(order.begin(),order.begin()+k.g.n/2);
	k.ch=ContractionHierarchy::build_given_order(order,k.g.tail,k.g.head,k.w,[](const std::string&){});
	for(unsigned i=0;i<k.g.m();++i) k.extra.push_back(i*i+1); k.ex.reset(k.ch,k.extra,[](unsigned a, unsigned b){ return a+b; });
	k.cch=CCH(order,k.g.tail,k.g.head,[](const std::string&){},p%2); k.metric.reset(new Metric(k.cch,k.w)); k.metric->customize(); k.par.reset(new CustomizableContractionHierarchyParallelization(k.cch));
	std::vector<float>la,lo; for(unsigned i=0;i<7;++i){ la.push_back(48+0.01f*(i*3%7)); lo.push_back(8+0.01f*(i*5%7)); } k.geo=GeoPositionToNode(la,lo);
	k.bits=BitVector(700); for(unsigned i=0;i<700;i+=1+i%5) k.bits.set(i); k.lm.reset(new LocalIDMapper(k.bits)); k.im.reset(new IDMapper(k.bits));
	return x;
}
typedef std::vector<uint64_t> Obs;
void put(Obs&o, const V&v){ o.push_back(v.size()); for(unsigned x:v) o.push_back(x); }
// the operations a thread may perform
enum{ CH_PLAIN, CH_PATH, CH_PINT, CH_PINS, CH_EXTRA, CH_EXTRA_MANY, CH_RESET_SHARED, CCH_PLAIN, CCH_PINNED, CCH_CUSTOMIZE, CCH_PARTIAL, CCH_PARALLEL, CCH_PERFECT, CCH_SWITCH, DIJ, GEO_NEAR, GEO_ALL, MAP_LOCAL, MAP_GLOBAL, CH_COPY, CH_WRITE, EXTRA_BUILD, MAP_BUILD, N_OPS };
const char*op_name(unsigned o){ static const char*n[]={"CH query","CH paths","CH pinned targets","CH pinned sources","CH extra weight","CH extra weights to pinned","CH query reset","CCH query","CCH pinned","CCH customization of an own metric","CCH partial customization of an own metric","parallel customization of an own metric","perfect customization of an own metric","CCH query switching metrics","Dijkstra","nearest node","nodes in range","local id mapper","id mapper","copies of the hierarchy","write hierarchy","extra weight construction","id mapper construction"}; return n[o]; }
Obs perform(unsigned op, const World&k, unsigned s){
	Obs o; unsigned n=k.g.n; unsigned t=(s+n-1)%n; auto plus=[](unsigned a, unsigned b){ return a+b; };
	switch(op){
		case CH_PLAIN:{ ContractionHierarchyQuery q(k.ch); for(unsigned i=0;i<2;++i){ q.reset().add_source(s,i).add_source((s+1)%n,1).add_target(t).add_target(i,2).run(); o.push_back(q.get_distance()); o.push_back(q.get_used_source()); o.push_back(q.get_used_target()); } break; }
		case CH_PATH:{ ContractionHierarchyQuery q(k.ch); q.add_source(s).add_target(t).run(); put(o,q.get_node_path()); put(o,q.get_arc_path()); break; }
		case CH_PINT:{ ContractionHierarchyQuery q(k.ch); q.pin_targets({t,s,t}).add_source(s).run_to_pinned_targets(); put(o,q.get_distances_to_targets()); put(o,q.get_used_sources_to_targets()); q.reset_source().add_source(t).run_to_pinned_targets(); put(o,q.get_distances_to_targets()); break; }
		case CH_PINS:{ ContractionHierarchyQuery q(k.ch); q.pin_sources({t,s}).add_target(s).run_to_pinned_sources(); put(o,q.get_distances_to_sources()); put(o,q.get_used_targets_to_sources()); break; }
		case CH_EXTRA:{ ContractionHierarchyQuery q(k.ch); q.add_source(s).add_target(t).run(); o.push_back(q.get_extra_weight_distance(k.ex,plus)); o.push_back(q.get_extra_weight_distance(k.extra,plus)); break; }
		case CH_EXTRA_MANY:{ ContractionHierarchyQuery q(k.ch); q.pin_targets({t,s}).add_source(s).run_to_pinned_targets(); put(o,q.get_extra_weight_distances_to_targets(k.ex,plus)); q.reset().pin_sources({t}).add_target(s).run_to_pinned_sources(); put(o,q.get_extra_weight_distances_to_sources(k.ex,plus)); break; }
		case CH_RESET_SHARED:{ ContractionHierarchyQuery q; q.reset(k.ch).add_source(s); q.reset(k.ch).add_source(t).add_target(s).run(); o.push_back(q.get_distance()); ContractionHierarchyQuery q2(q); q2.reset().add_source(s).add_target(s).run(); o.push_back(q2.get_distance()); break; }
		case CCH_PLAIN:{ CQ q(*k.metric); q.add_source(s).add_target(t,1).run(); o.push_back(q.get_distance()); put(o,q.get_node_path()); put(o,q.get_arc_path()); break; }
		case CCH_PINNED:{ CQ q(*k.metric); q.pin_targets({t,s}).add_source(s).run_to_pinned_targets(); put(o,q.get_distances_to_targets()); q.reset().pin_sources({t}).add_target(s).run_to_pinned_sources(); put(o,q.get_distances_to_sources()); break; }
		case CCH_CUSTOMIZE:{ Metric m(k.cch,k.w2); m.customize(); put(o,m.forward); put(o,m.backward); break; }
		case CCH_PARTIAL:{ V w=k.w2; Metric m(k.cch,w); m.customize(); CustomizableContractionHierarchyPartialCustomization pc(k.cch); w[s]+=3; pc.update_arc(s).customize(m); put(o,m.forward); put(o,m.backward); break; }
		case CCH_PARALLEL:{ Metric m(k.cch,k.w2); k.par->customize(m,1); put(o,m.forward); put(o,m.backward); break; }
		case CCH_PERFECT:{ Metric m(k.cch,k.w2); m.customize(); auto ch=m.build_contraction_hierarchy_using_perfect_witness_search(); ContractionHierarchyQuery q(ch); q.add_source(s).add_target(t).run(); o.push_back(q.get_distance()); put(o,q.get_arc_path()); break; }
		case CCH_SWITCH:{ Metric m(k.cch,k.w2); m.customize(); CQ q(*k.metric); q.add_source(s).add_target(t).run(); o.push_back(q.get_distance()); q.reset(m).add_source(s).add_target(t).run(); o.push_back(q.get_distance()); q.reset(*k.metric).add_source(t).add_target(s).run(); o.push_back(q.get_distance()); break; }
		case DIJ:{ Dijkstra d(k.first_out,k.g.tail,k.g.head); d.add_source(s); while(!d.is_finished()){ auto x=d.settle(ScalarGetWeight(k.w)); o.push_back(x.distance); } for(unsigned i=0;i<n;++i) o.push_back(d.get_distance_to(i)); put(o,d.get_arc_path_to(t)); break; }
		case GEO_NEAR:{ for(unsigned i=0;i<2;++i){ auto r=k.geo.find_nearest_neighbor_within_radius(48+0.011f*s,8+0.02f*i,3000); o.push_back(r.id); o.push_back(r.id==invalid_id?0:(uint64_t)(r.distance*16)); } break; }
		case GEO_ALL:{ for(auto r:k.geo.find_all_nodes_within_radius(48+0.011f*s,8.03f,2500)){ o.push_back(r.id); o.push_back((uint64_t)(r.distance*16)); } break; }
		case MAP_LOCAL: for(unsigned i=s;i<700;i+=97){ o.push_back(k.lm->to_local(i,7777)); o.push_back(k.lm->is_global_id_mapped(i)); } o.push_back(k.lm->local_id_count()); break;
		case MAP_GLOBAL: for(unsigned i=s;i<k.im->local_id_count();i+=31){ o.push_back(k.im->to_global(i)); o.push_back(k.im->to_local(k.im->to_global(i))); } break;
		case CH_COPY:{ ContractionHierarchy c(k.ch); ContractionHierarchyQuery q(c); q.add_source(s).add_target(t).run(); o.push_back(q.get_distance()); break; }
		case CH_WRITE:{ std::string out; k.ch.write([&](const char*b, unsigned long long l){ out.append(b,l); }); o.push_back(out.size()); size_t at=0; ContractionHierarchy c=ContractionHierarchy::read([&](char*b, unsigned long long l){ if(at+l>out.size()) throw std::runtime_error("short"); out.copy(b,l,at); at+=l; },out.size()); ContractionHierarchyQuery q(c); q.add_source(s).add_target(t).run(); o.push_back(q.get_distance()); break; }
		case EXTRA_BUILD:{ ContractionHierarchyExtraWeight<unsigned>e(k.ch,k.extra,plus); ContractionHierarchyQuery q(k.ch); q.add_source(s).add_target(t).run(); o.push_back(q.get_extra_weight_distance(e,plus)); break; }
		case MAP_BUILD:{ IDMapper m(k.bits); o.push_back(m.local_id_count()); o.push_back(m.to_global(s)); break; }
	}
	return o;
}
struct Cfg{ unsigned problem; std::vector<unsigned>ops; };
void explore_case(Ctx&c, const Cfg&f, const vs::Options&o){
	auto k=world(f.problem); std::vector<Obs>want,got(f.ops.size()); for(unsigned i=0;i<f.ops.size();++i) want.push_back(perform(f.ops[i],*k,i));
	auto body=[&]{
		std::vector<std::thread>t; for(unsigned i=0;i+1<f.ops.size();++i) t.emplace_back([&,i]{ got[i]=perform(f.ops[i],*k,i); });
		unsigned l=f.ops.size()-1; got[l]=perform(f.ops[l],*k,l); for(auto&x:t) x.join();
	};
	auto judge=[&]()->std::string{ for(unsigned i=0;i<f.ops.size();++i) if(got[i]!=want[i]) return fmt("thread %u (%s) obtains other results than alone",i,op_name(f.ops[i])); return ""; };
	auto wrapped=[&]{ { vs::Ignore ig; for(auto&x:got){ Obs e; e.swap(x); } } body(); };
	auto r=vs::explore(o,wrapped,judge);
	for(auto&x:got) new(&x) Obs(); // their memory belonged to the explored execution
	c.states+=r.states; c.transitions+=r.transitions; c.traces+=r.executions; if(!r.complete) c.truncated=true;
	if(getenv("VX_STATS")) fprintf(stderr,"exec %lu states %lu hot %lu rounds %lu choices %lu\n",r.executions,r.states,r.hot,r.rounds,r.max_choices);
	if(!r.fail.empty()) c.fail(r.fail+" [schedule "+r.schedule+"]");
	// the index still gives the same answers
	for(unsigned i=0;i<f.ops.size();++i) if(perform(f.ops[i],*k,i)!=want[i]) c.fail(fmt("the index answers differently after concurrent use (%s)",op_name(f.ops[i])));
}
void make(std::vector<Suite>&v, const std::string&){
	bool T=vx::opt().thorough();
	auto mk=[&](std::string name, std::string b, std::vector<Cfg>ks, vs::Options o){
		auto K=std::make_shared<std::vector<Cfg>>(ks); Suite s; s.name=name; s.bounds=b; s.count=ks.size(); s.chunk=1; s.pin=true; s.case_timeout=200;
		s.describe=[=](uint64_t i){ auto&f=(*K)[i]; std::string r=fmt("index %u, threads:",f.problem); for(unsigned x:f.ops) r+=std::string(" [")+op_name(x)+"]"; return r; }; s.run=[=](uint64_t i, Ctx&c){ explore_case(c,(*K)[i],o); }; v.push_back(s);
	};
	vs::Options full; full.max_seconds=T?1000:60; vs::Options p3=full; p3.max_preempt=2;
	std::vector<Cfg>two,three;
	for(unsigned p=0;p<PROBLEMS;++p) for(unsigned a=0;a<N_OPS;++a) for(unsigned b=a;b<N_OPS;++b) two.push_back({p,{a,b}});
	for(unsigned p=0;p<(T?PROBLEMS:1u);++p) for(unsigned a=0;a<N_OPS;++a) for(unsigned b=a;b<N_OPS;b+=T?1:2) three.push_back({p,{a,b,a}});
	mk("pairs",fmt("every pair of %u operations in two threads on %u shared indexes, all interleavings at conflicting accesses",(unsigned)N_OPS,PROBLEMS),two,full);
	mk("three_threads","three threads, at most 2 preemptions",three,p3);
}
}
int main(int argc, char**argv){ if(argc<2) return 2; std::string p=argv[1]; return vx::run_all(argc-1,argv+1,p,make); }
