// C09: parallel customization, explored under the controlled scheduler
#include "vx.h"
#include "graphs.h"
#include "vsched.h"
#include <routingkit/customizable_contraction_hierarchy.h>
#include <thread>
#include <memory>
using namespace RoutingKit;
using vx::Ctx; using vx::Suite; using vx::fmt; using vx::str;
typedef CustomizableContractionHierarchy CCH;
typedef CustomizableContractionHierarchyMetric Metric;
typedef CustomizableContractionHierarchyParallelization Parallel;
typedef std::vector<unsigned> V;
namespace{
G bidir(unsigned n, std::vector<std::pair<unsigned,unsigned>>edges){ G g; g.n=n; for(auto a:edges){ g.add(a.first,a.second,1); g.add(a.second,a.first,1); } return g; }
struct Problem{ std::string name; G g; V order; };
std::vector<Problem> problems(){
	std::vector<Problem>p; auto id=[](unsigned n){ V o(n); for(unsigned i=0;i<n;++i) o[i]=i; return o; };
	p.push_back({"two bottoms, one top arc",bidir(4,{{0,2},{0,3},{1,2},{1,3}}),id(4)});
	p.push_back({"two bottoms, top arc in the input",bidir(4,{{0,2},{0,3},{1,2},{1,3},{2,3}}),id(4)});
	p.push_back({"three bottoms, one top arc",bidir(5,{{0,3},{0,4},{1,3},{1,4},{2,3},{2,4}}),id(5)});
	p.push_back({"two bottoms, three tops",bidir(5,{{0,2},{0,3},{0,4},{1,2},{1,3},{1,4}}),id(5)});
	p.push_back({"two levels",bidir(6,{{0,2},{0,4},{1,2},{1,4},{0,3},{1,3},{2,5},{3,5}}),id(6)});
	p.push_back({"path",bidir(5,{{0,1},{1,2},{2,3},{3,4}}),{1,3,0,2,4}});
	p.push_back({"ring",bidir(6,{{0,1},{1,2},{2,3},{3,4},{4,5},{5,0}}),{0,2,4,1,3,5}});
	p.push_back({"one way mix",[]{ G g; g.n=5; g.add(0,3,1); g.add(4,0,1); g.add(0,4,1); g.add(1,3,1); g.add(1,4,1); g.add(4,1,1); g.add(2,4,1); g.add(3,2,1); g.add(3,1,1); g.add(3,4,1); g.add(3,4,1); return g; }(),id(5)});
	p.push_back({"grid 2x3",family(F_GRID,6,0),{0,5,1,4,2,3}});
	p.push_back({"complete 4",family(F_COMPLETE,4,0),id(4)});
	return p;
}
V weights(unsigned pat, unsigned m){ V w(m); for(unsigned i=0;i<m;++i) w[i]= pat==0? 1+i*7%5 : pat==1? (i%3==0?INF:10-i%7) : pat==2? 0 : pat==3? (m-i)*3 : (i*i*5+3)%11; return w; }
const unsigned WPAT=5;

void check_same(Ctx&c, const Metric&a, const V&f, const V&b){ c.eqs(a.forward,f,"forward weights"); c.eqs(a.backward,b,"backward weights"); }

// threads threads customize one metric; garbage: what the metric holds before
void explore_case(Ctx&c, const Problem&p, unsigned threads, unsigned pat, bool filter, const vs::Options&o, unsigned metrics){
	CCH cch(p.order,p.g.tail,p.g.head,[](const std::string&){},filter);
	Parallel par; switch((pat+threads+filter*2+p.g.n)%4){ // made by its constructor, attached later, a copy, attached to another hierarchy before
		case 0: par=Parallel(cch); break; case 1: par.reset(cch); break; case 2:{ Parallel q(cch); par=q; break; }
		case 3:{ G h=family(F_CYCLE,7,0); CCH other(order_pattern(0,7),h.tail,h.head); par.reset(other); Metric x(other,h.w); par.customize(x,1); par.reset(cch); break; } }
	std::vector<V>w; std::vector<std::unique_ptr<Metric>>m,ref;
	for(unsigned k=0;k<metrics;++k) w.push_back(weights((pat+k)%WPAT,p.g.m()));
	for(unsigned k=0;k<metrics;++k){ ref.emplace_back(new Metric(cch,w[k])); ref[k]->customize(); m.emplace_back(new Metric(cch,w[k])); }
	auto body=[&]{
		{ vs::Ignore ig; for(auto&x:m){ std::fill(x->forward.begin(),x->forward.end(),3u); std::fill(x->backward.begin(),x->backward.end(),0u); } }
		if(metrics==1){ if(threads==0) par.customize(*m[0]); else par.customize(*m[0],threads); }
		else{ std::vector<std::thread>t; for(unsigned k=1;k<metrics;++k) t.emplace_back([&,k]{ par.customize(*m[k],threads); }); par.customize(*m[0],threads); for(auto&x:t) x.join(); }
	};
	auto judge=[&]()->std::string{
		for(unsigned k=0;k<metrics;++k){ if(m[k]->forward!=ref[k]->forward) return "forward weights "+str(m[k]->forward)+" instead of "+str(ref[k]->forward); if(m[k]->backward!=ref[k]->backward) return "backward weights "+str(m[k]->backward)+" instead of "+str(ref[k]->backward); }
		return "";
	};
	auto r=vs::explore(o,body,judge);
	c.states+=r.states; c.transitions+=r.transitions; c.traces+=r.executions;
	if(!r.fail.empty()) c.fail(r.fail+" [schedule "+r.schedule+"]");
	if(!r.complete) c.truncated=true;
	if(getenv("VX_STATS")) fprintf(stderr,"exec %lu states %lu hot %lu rounds %lu choices %lu\n",r.executions,r.states,r.hot,r.rounds,r.max_choices);
}
void make(std::vector<Suite>&v, const std::string&prop){
	bool C34=prop=="C34"; // the emulated compare-and-swap: its writes are plain ones under a lock, so only the results count
	bool T=vx::opt().thorough();
	auto P=std::make_shared<std::vector<Problem>>(problems());
	auto mk=[&](std::string name, std::string b, std::vector<unsigned>which, std::vector<unsigned>threads, unsigned metrics, vs::Options o, std::vector<unsigned>pats){ o.report_races=!C34;
		Suite s; s.name=name; s.bounds=b; s.count=which.size()*threads.size()*pats.size()*2; s.chunk=1; s.pin=true; s.case_timeout=700;
		auto dec=[=](uint64_t i){ vx::Dec d(i); unsigned f=d.get(2), p=pats[d.get(pats.size())], t=threads[d.get(threads.size())], g=which[d.get(which.size())]; return V{g,t,p,f}; };
		s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s %s, %u threads, weights %s, filter=%u",(*P)[k[0]].name.c_str(),::str((*P)[k[0]].g).c_str(),k[1],str(weights(k[2],(*P)[k[0]].g.m())).c_str(),k[3]); };
		s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); explore_case(c,(*P)[k[0]],k[1],k[2],k[3],o,metrics); };
		v.push_back(s);
	};
	vs::Options full; vs::Options pb; pb.max_preempt=T?4:(C34?1:2); vs::Options chunk=pb; chunk.loop_chunk=0;
	std::vector<unsigned>all; for(unsigned i=0;i<P->size();++i) all.push_back(i);
	mk("sequential","thread count 1",all,{1},1,full,{0,1,2,3,4});
	mk("two_threads","2 threads, loop pieces of one arc, all interleavings at conflicting accesses",{0,1,3,7,5},{2},1,full,C34&&!T?V{0,1}:V{0,1,2,3,4});
	mk("preemption_bounded",fmt("2 and 3 threads and the default thread count, loop pieces of one arc, at most %u preemptions",pb.max_preempt),all,{2,3,0},1,pb,T?std::vector<unsigned>{0,1,2,3,4}:std::vector<unsigned>{0,1});
	if(C34) return;
	mk("original_pieces","2 and 3 threads, loop pieces as the program asks",{0,3,4,8},{2,3},1,chunk,{0,4});
	// larger graphs: one schedule each, with the race check, and the sequential schedule for deep and wide hierarchies
	{ static const unsigned ns[]={7,17,65,257}; Suite s; s.name="one_schedule"; s.bounds="13 graph families with up to 65 (thorough: 257) nodes (dense ones 24, grids and cliques 40) x 5 orders x 2 and 3 threads: three schedules each (next thread at every scheduling point, last thread first, next thread at every seventh point), race check on every access"; s.count=F_COUNT*ORDERS*(T?4:3)*2; s.chunk=1; s.pin=true; s.case_timeout=200;
	  auto dec=[](uint64_t i){ vx::Dec d(i); unsigned f=d.get(F_COUNT),o=d.get(ORDERS),t=d.get(2),n=ns[d.get(4)]; if(f==F_COMPLETE||f==F_LCG_DENSE||f==F_STAR||f==F_MULTI||f==F_LCG_SPARSE) n=std::min(n,24u); if(f==F_GRID||f==F_CLIQUES) n=std::min(n,40u); return V{f,o,t+2,n}; };
	  s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u order pattern %u threads %u",family_name(k[0]),k[3],k[1],k[2]); };
	  s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); Problem p{"",family(k[0],k[3],0),order_pattern(k[1],k[3])}; vs::Options o; o.max_steps=200000000; for(o.single=1;o.single<=3;++o.single) explore_case(c,p,k[2],i%WPAT,i%2,o,1); }; v.push_back(s); }
	{ static const unsigned ns[]={9,33,1000}; static const unsigned fs[]={F_STAR,F_PATH,F_LADDER,F_TREE}; Suite s; s.name="many_threads"; s.bounds="4 graph families with 9, 33 and 1000 nodes x nested and reversed orders x 4..11 threads, loop pieces of one arc and as the program asks: three schedules each, race check on every access"; s.count=4*2*3*8*2; s.chunk=1; s.pin=true; s.case_timeout=200;
	  auto dec=[](uint64_t i){ vx::Dec d(i); unsigned ch=d.get(2),t=d.get(8)+4,f=fs[d.get(4)],o=d.get(2),n=ns[d.get(3)]; return V{f,o,t,n,ch}; };
	  s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u order %u threads %u%s",family_name(k[0]),k[3],k[1],k[2],k[4]?" original pieces":""); };
	  s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); Problem p{"",family(k[0],k[3],0),k[1]&&k[3]<100?order_pattern(1,k[3]):wide_order(k[0],k[3])}; vs::Options o; o.max_steps=200000000; if(k[4]) o.loop_chunk=0; for(o.single=1;o.single<=3;++o.single) explore_case(c,p,k[2],i%WPAT,i%2,o,1); }; v.push_back(s); }
	{ Suite s; static const unsigned ns[]={257,65535,65537}; s.name="deep_and_wide"; s.bounds="paths, trees, ladders, one-way cycles and chains of cliques with 257..65537 nodes, nested orders and (path, cycle) the order along the path, whose elimination tree is as deep as the graph is long: the schedule that runs one thread after the other"; s.count=3*(WIDE_FAMILIES+2)*2; s.chunk=1; s.case_timeout=200; static const unsigned line[]={F_PATH,F_CYCLE};
	  auto dec=[](uint64_t i){ vx::Dec d(i); unsigned f=d.get(WIDE_FAMILIES+2),fi=d.get(2),n=ns[d.get(3)]; return V{f<WIDE_FAMILIES?WIDE_F[f]:line[f-WIDE_FAMILIES],n,fi,f>=WIDE_FAMILIES}; };
	  s.describe=[=](uint64_t i){ auto k=dec(i); return fmt("%s n=%u filter %u%s",family_name(k[0]),k[1],k[2],k[3]?" along the path":""); };
	  s.run=[=](uint64_t i, Ctx&c){ auto k=dec(i); unsigned n=k[1]; G g=family(k[0],n,4); CCH cch(k[3]?order_pattern(0,n):wide_order(k[0],n),g.tail,g.head,[](const std::string&){},k[2]); Metric a(cch,g.w),b(cch,g.w); a.customize(); std::fill(b.forward.begin(),b.forward.end(),3u); std::fill(b.backward.begin(),b.backward.end(),0u); Parallel par(cch); par.customize(b,2); c.transitions+=2; c.traces++; check_same(c,b,a.forward,a.backward); }; v.push_back(s); }
	vs::Options two; two.max_preempt=T?2:1; mk("two_metrics",fmt("two metrics customized at the same time with one parallelization object, 2 threads each, at most %u preemptions",two.max_preempt),{0,1,5,7},{2},2,two,{0,1});
}
}
int main(int argc, char**argv){ if(argc<2) return 2; std::string p=argv[1]; return vx::run_all(argc-1,argv+1,p,make); }
