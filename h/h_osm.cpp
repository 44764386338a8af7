// C25: routing graphs from OSM maps, C26: turn restrictions, C27: profiles. Maps are written with lib/pbf.h.
#include "../lib/pbf.h"
#include <routingkit/osm_graph_builder.h>
#include <routingkit/osm_profile.h>
#include <routingkit/osm_simple.h>
#include <routingkit/constants.h>
#include <set>
#include <limits.h>
using namespace RoutingKit; using vx::Ctx; using vx::Suite; using vx::Dec;
typedef OSMWayDirectionCategory Dir;
typedef std::vector<uint64_t> Ids;
static const Dir DIRS[]={Dir::open_in_both,Dir::only_open_forwards,Dir::only_open_backwards,Dir::closed};

// ---------------------------------------------------------------- maps
struct Node{ uint64_t id; int64_t lat, lon; pbf::Tags tags; };
struct Way{ uint64_t id; Ids nodes; Dir dir; bool used; pbf::Tags tags; };
struct Rel{ uint64_t id; std::vector<pbf::Member> m; pbf::Tags tags; };
struct Map{ std::vector<Node> n; std::vector<Way> w; std::vector<Rel> r; };

static std::vector<pbf::Obj> objects(const Map&m){
	std::vector<pbf::Obj> o;
	for(auto&x:m.n) o.push_back({'n',x.id,x.lat,x.lon,x.tags,{},{}});
	for(auto&x:m.w) o.push_back({'w',x.id,0,0,x.tags,x.nodes,{}});
	for(auto&x:m.r) o.push_back({'r',x.id,0,0,x.tags,{},x.m});
	return o;
}
// consecutive objects of one kind form a group; after every `per` objects a new block starts
static std::string file_of(const std::vector<pbf::Obj>&o, unsigned per=1000000, pbf::Style s=pbf::Style()){
	std::vector<pbf::Block> b; unsigned in=0;
	for(auto&x:o){
		if(b.empty()||in>=per){ b.push_back(pbf::Block()); in=0; }
		auto&g=b.back().g;
		if(g.empty()||g.back().o[0]->kind!=x.kind) g.push_back(pbf::Group());
		g.back().o.push_back(&x); ++in;
	}
	return pbf::join(pbf::pieces(b,s));
}
static std::string show(const Map&m){ std::string r; for(auto&w:m.w){ r+=vx::fmt("way %llu%s %s[",(unsigned long long)w.id,w.used?"":" (unused)",w.dir==Dir::open_in_both?"both":w.dir==Dir::only_open_forwards?"forward":w.dir==Dir::only_open_backwards?"backward":"closed"); for(auto n:w.nodes) r+=vx::fmt("%llu ",(unsigned long long)n); r+="] "; if(r.size()>900) break; } for(auto&x:m.r){ r+="relation "; for(auto&t:x.tags) r+=t.first+"="+t.second+" "; for(auto&y:x.m) r+=vx::fmt("(%s %d %llu) ",y.role.c_str(),y.type,(unsigned long long)y.id); } return r; }

// ---------------------------------------------------------------- reference construction
struct Arc{ unsigned tail, head, way; bool anti; Ids path; long double dist; unsigned seg; bool known; unsigned id; };
struct Ref{ std::set<uint64_t> modelling, routing, ways; std::vector<uint64_t> rnode, rway; std::vector<Arc> arcs; std::map<uint64_t,const Node*> at; };
static long double ref_dist(const Node&a, const Node&b){
	long double d=M_PIl/180; long double la=(float)(a.lat*1e-9), lb=(float)(b.lat*1e-9), oa=(float)(a.lon*1e-9), ob=(float)(b.lon*1e-9);
	long double s1=sinl((la-lb)*d/2), s2=sinl((oa-ob)*d/2); long double h=s1*s1+cosl(la*d)*cosl(lb*d)*s2*s2; if(h>1) h=1;
	return 2*6371000.785L*asinl(sqrtl(h));
}
static Ref reference(const Map&m, const std::set<uint64_t>&demanded, bool all, bool want_arcs=true){
	Ref r; for(auto&n:m.n) r.at[n.id]=&n;
	std::map<uint64_t,unsigned> seen;
	for(auto&w:m.w) if(w.used && w.nodes.size()>=2){ r.ways.insert(w.id); for(auto n:w.nodes){ r.modelling.insert(n); ++seen[n]; if(all) r.routing.insert(n); } r.routing.insert(w.nodes.front()); r.routing.insert(w.nodes.back()); }
	for(auto&s:seen) if(s.second>1) r.routing.insert(s.first);
	for(auto n:demanded) if(r.at.count(n)){ r.routing.insert(n); r.modelling.insert(n); }
	r.rnode.assign(r.routing.begin(),r.routing.end()); r.rway.assign(r.ways.begin(),r.ways.end());
	auto loc=[](const std::vector<uint64_t>&v, uint64_t x){ return unsigned(std::lower_bound(v.begin(),v.end(),x)-v.begin()); };
	if(want_arcs) for(auto&w:m.w) if(w.used && w.nodes.size()>=2 && w.dir!=Dir::closed){
		unsigned last=0;
		for(unsigned i=1;i<w.nodes.size();++i) if(r.routing.count(w.nodes[i])){
			Arc a; a.path.assign(w.nodes.begin()+last+1,w.nodes.begin()+i); a.tail=loc(r.rnode,w.nodes[last]); a.head=loc(r.rnode,w.nodes[i]); a.way=loc(r.rway,w.id); a.anti=false; a.dist=0; a.seg=i-last; a.known=true;
			for(unsigned j=last;j<i;++j){ auto p=r.at.find(w.nodes[j]), q=r.at.find(w.nodes[j+1]); if(p==r.at.end()||q==r.at.end()) a.known=false; else a.dist+=ref_dist(*p->second,*q->second); }
			if(w.dir!=Dir::only_open_backwards) r.arcs.push_back(a);
			if(w.dir!=Dir::only_open_forwards){ std::swap(a.tail,a.head); a.anti=true; std::reverse(a.path.begin(),a.path.end()); r.arcs.push_back(a); }
			last=i;
		}
	}
	return r;
}
static bool dist_ok(unsigned got, const Arc&a){ if(!a.known) return true; long double t=1.05L+0.5L*a.seg+1e-6L*a.dist; return got>=a.dist-t && got<=a.dist+t-1; }
static void set_eq(Ctx&c, const BitVector&b, const std::set<uint64_t>&s, const char*what){
	++c.states; Ids got; for(uint64_t w=0;w*64<b.size();++w) if(b.data()[w]) for(uint64_t i=w*64;i<w*64+64&&i<b.size();++i) if(b.is_set(i)) got.push_back(i);
	Ids w(s.begin(),s.end()); if(got!=w) c.fail(std::string(what)+" are "+vx::str(got)+" instead of "+vx::str(w));
}
// the node with this position (maps keep all positions distinct), 0 is nothing
static uint64_t node_at(const Ref&r, float lat, float lon){ for(auto&n:r.at) if(fabs(n.second->lat*1e-9-lat)<2e-5 && fabs(n.second->lon*1e-9-lon)<2e-5) return n.first; return 0; }

template<class G> static void judge_nodes(Ctx&c, const G&g, const Ref&r){
	c.eqs((unsigned)g.first_out.size(),(unsigned)r.rnode.size()+1,"size of first_out");
	c.eqs((unsigned)g.latitude.size(),(unsigned)r.rnode.size(),"number of latitudes"); c.eqs((unsigned)g.longitude.size(),(unsigned)r.rnode.size(),"number of longitudes");
	for(unsigned i=0;i<r.rnode.size();++i){ auto f=r.at.find(r.rnode[i]); if(f==r.at.end()) continue; ++c.states;
		if(!(fabs(g.latitude[i]-f->second->lat*1e-9)<2e-5 && fabs(g.longitude[i]-f->second->lon*1e-9)<2e-5)) c.fail(vx::fmt("routing node %u (OSM node %llu) is at %.6f/%.6f",i,(unsigned long long)r.rnode[i],g.latitude[i],g.longitude[i])); }
	c.eqs(g.first_out[0],0u,"first_out[0]"); c.eqs(g.first_out.back(),(unsigned)g.head.size(),"last element of first_out");
	for(unsigned i=0;i+1<g.first_out.size();++i) c.expect(g.first_out[i]<=g.first_out[i+1],"first_out is not ascending");
	for(unsigned h:g.head) c.expect(h<r.rnode.size(),"head out of range");
	for(unsigned i=0;i+1<g.first_out.size();++i) for(unsigned a=g.first_out[i];a+1<g.first_out[i+1];++a) c.expect(g.head[a]<=g.head[a+1],"arcs are not sorted by head within a tail");
	c.eqs((unsigned)g.geo_distance.size(),(unsigned)g.head.size(),"number of distances");
}
template<class G> static std::vector<unsigned> tails(const G&g){ std::vector<unsigned> t(g.head.size()); for(unsigned i=0;i+1<g.first_out.size();++i) for(unsigned a=g.first_out[i];a<g.first_out[i+1];++a) t[a]=i; return t; }

static void judge_graph(Ctx&c, const OSMRoutingGraph&g, const Ref&r, OSMRoadGeometry geo){
	judge_nodes(c,g,r); auto t=tails(g);
	c.eqs((unsigned)g.way.size(),(unsigned)g.head.size(),"number of arc ways"); c.eqs((unsigned)g.is_arc_antiparallel_to_way.size(),(unsigned)g.head.size(),"number of direction flags");
	c.eqs(g.node_count(),(unsigned)r.rnode.size(),"node_count()"); c.eqs(g.arc_count(),(unsigned)r.arcs.size(),"arc_count()");
	bool pts= geo!=OSMRoadGeometry::none;
	if(pts){
		c.eqs((unsigned)g.first_modelling_node.size(),(unsigned)g.head.size()+1,"size of first_modelling_node");
		c.eqs(g.first_modelling_node[0],0u,"first_modelling_node[0]"); c.eqs(g.first_modelling_node.back(),(unsigned)g.modelling_node_latitude.size(),"last element of first_modelling_node"); c.eqs((unsigned)g.modelling_node_longitude.size(),(unsigned)g.modelling_node_latitude.size(),"number of modelling node longitudes");
		for(unsigned i=0;i<g.head.size();++i) c.expect(g.first_modelling_node[i]<=g.first_modelling_node[i+1],"first_modelling_node is not ascending");
	}
	auto key=[](unsigned a, unsigned b, unsigned w, bool anti, const Ids&p){ std::string k=vx::fmt("arc %u -> %u of way %u%s",a,b,w,anti?" (against the way)":""); k+=" via ["; for(auto x:p) k+=vx::fmt("%llu ",(unsigned long long)x); return k+"]"; };
	std::map<std::string,std::vector<const Arc*>> want; std::map<std::string,std::vector<unsigned>> got;
	for(auto&a:r.arcs){ Ids p; if(pts){ p=a.path; for(auto&x:p) if(!r.at.count(x)) x=0; if(geo==OSMRoadGeometry::first_and_last && p.size()>2) p={p.front(),p.back()}; } want[key(a.tail,a.head,a.way,a.anti,p)].push_back(&a); }
	for(unsigned i=0;i<g.head.size();++i){ Ids p; if(pts) for(unsigned j=g.first_modelling_node[i];j<g.first_modelling_node[i+1];++j) p.push_back(node_at(r,g.modelling_node_latitude[j],g.modelling_node_longitude[j])); got[key(t[i],g.head[i],g.way[i],g.is_arc_antiparallel_to_way[i],p)].push_back(g.geo_distance[i]); }
	for(auto&x:want){ ++c.states; auto f=got.find(x.first); unsigned n=f==got.end()?0:f->second.size(); if(n!=x.second.size()) c.fail(vx::fmt("%u times instead of %u: ",n,(unsigned)x.second.size())+x.first);
		std::sort(f->second.begin(),f->second.end()); std::sort(x.second.begin(),x.second.end(),[](const Arc*a, const Arc*b){ return a->dist<b->dist; });
		bool all_known=true; for(auto a:x.second) all_known=all_known&&a->known;
		if(all_known) for(unsigned i=0;i<n;++i) if(!dist_ok(f->second[i],*x.second[i])) c.fail(vx::fmt("length %u instead of %.2Lf m: ",f->second[i],x.second[i]->dist)+x.first); }
	for(auto&x:got) if(!want.count(x.first)) c.fail("unexpected "+x.first);
}
struct Built{ OSMRoutingIDMapping map; OSMRoutingGraph g; };
// a log callback is given in a part of the cases (a function of the map): it must change nothing
static std::function<void(const std::string&)> some_log(const Map&m, unsigned salt){ unsigned h=salt; unsigned k=0; for(auto&w:m.w){ h+=w.nodes.size()+(unsigned)w.dir+w.tags.size(); if(++k==50) break; } if(h%3) return nullptr; return [](const std::string&){}; }
static const Way*find_way(const Map&m, uint64_t id){ if(m.w.size()>4000){ /* large maps keep their ways in ascending order */ auto i=std::lower_bound(m.w.begin(),m.w.end(),id,[](const Way&w, uint64_t x){ return w.id<x; }); return i!=m.w.end()&&i->id==id?&*i:0; } for(auto&w:m.w) if(w.id==id) return &w; return 0; }
static OSMRoutingIDMapping get_mapping(Ctx&c, const Map&m, const std::string&f, const std::set<uint64_t>&dem, bool all, bool use_node_cb){
	std::set<uint64_t> seen; std::string bad;
	std::function<bool(uint64_t,const TagMap&)> ncb; if(use_node_cb) ncb=[&](uint64_t id, const TagMap&){ return dem.count(id)>0; };
	auto map=load_osm_id_mapping_from_pbf(f,ncb,[&](uint64_t id, const TagMap&t){ auto w=find_way(m,id); if(!w) bad=vx::fmt("the way filter is asked about way %llu",(unsigned long long)id); else if(t.size()!=w->tags.size()) bad="the way filter is called with wrong tags"; return w&&w->used; },some_log(m,all+dem.size()),all);
	++c.transitions; if(!bad.empty()) c.fail(bad);
	return map;
}
static OSMRoutingGraph get_graph(Ctx&c, const Map&m, const std::string&f, const OSMRoutingIDMapping&map, const Ref&r, OSMRoadGeometry geo, bool ordered=false, bool decode=false){
	std::map<uint64_t,unsigned> calls; std::string bad;
	std::function<void(uint64_t,const std::vector<OSMRelationMember>&,const TagMap&,std::function<void(OSMTurnRestriction)>)> dec;
	if(decode) dec=[](uint64_t id, const std::vector<OSMRelationMember>&l, const TagMap&t, std::function<void(OSMTurnRestriction)> out){ decode_osm_car_turn_restrictions(id,l,t,out); };
	auto g=load_osm_routing_graph_from_pbf(f,map,[&](uint64_t id, unsigned rid, const TagMap&t)->Dir{ ++calls[id]; auto w=find_way(m,id); if(!w){ bad="the way callback is called for an unknown way"; return Dir::closed; } if(rid>=r.rway.size()||r.rway[rid]!=id) bad=vx::fmt("the way callback gets routing way id %u for way %llu",rid,(unsigned long long)id); for(auto&x:w->tags) if(!t[x.first.c_str()]||x.second!=t[x.first.c_str()]) bad="the way callback is called with wrong tags"; return w->dir; },dec,some_log(m,(unsigned)geo+decode),ordered,geo);
	++c.transitions; if(!bad.empty()) c.fail(bad);
	for(auto id:r.rway) if(calls[id]!=1) c.fail(vx::fmt("the way callback is called %u times for way %llu",calls[id],(unsigned long long)id));
	for(auto&x:calls) if(x.second && !r.ways.count(x.first)) c.fail("the way callback is called for a way that is not used");
	return g;
}
static const OSMRoadGeometry GEOS[]={OSMRoadGeometry::uncompressed,OSMRoadGeometry::first_and_last,OSMRoadGeometry::none};
static void mapping_eq(Ctx&c, const OSMRoutingIDMapping&m, const Ref&r){ set_eq(c,m.is_routing_way,r.ways,"routing ways"); set_eq(c,m.is_modelling_node,r.modelling,"modelling nodes"); set_eq(c,m.is_routing_node,r.routing,"routing nodes"); }

// positions: no three in line, all pairwise lengths different and large
static const int64_t PLAT[]={10000000,-42000000,73000000,5000000,91000000,-77000000,33000000,-21000000}, PLON[]={20000000,31000000,-57000000,-83000000,97000000,-11000000,64000000,8000000};
static std::vector<Node> some_nodes(const Ids&ids, int64_t lat0=0, int64_t lon0=0){ std::vector<Node> r; for(unsigned i=0;i<ids.size();++i) r.push_back({ids[i],lat0+PLAT[i%8]+(int64_t)(i/8)*113000000,lon0+PLON[i%8]+(int64_t)(i/64)*217000000,{}}); return r; }
static uint64_t seq_count(unsigned k, unsigned lo, unsigned hi){ uint64_t n=0; for(unsigned i=lo;i<=hi;++i) n+=vx::ipow(k,i); return n; }
static Ids nth_seq(uint64_t x, const Ids&ids, unsigned lo, unsigned hi){ unsigned k=ids.size(); for(unsigned i=lo;i<=hi;++i){ uint64_t n=vx::ipow(k,i); if(x<n){ Ids r; Dec q(x); for(unsigned j=0;j<i;++j) r.push_back(ids[q.get(k)]); return r; } x-=n; } abort(); }

static void all_options(Ctx&c, Map m, const std::set<uint64_t>&dem, bool use_cb, unsigned dirs, unsigned geos, unsigned flags=2){
	pbf::MemFile f(file_of(objects(m)));
	for(unsigned all=0;all<flags;++all){
		auto r0=reference(m,dem,all,false);
		auto map=get_mapping(c,m,f.name,dem,all,use_cb); mapping_eq(c,map,r0);
		uint64_t n=vx::ipow(dirs,m.w.size());
		for(uint64_t d=0;d<n;++d){ Dec q(d); for(auto&w:m.w) w.dir=DIRS[q.get(dirs)]; auto r=reference(m,dem,all);
			for(unsigned g=0;g<geos;++g){ c.note=show(m)+(all?" all nodes ":" ")+vx::fmt("geometry %u",g); auto gr=get_graph(c,m,f.name,map,r,GEOS[g]); judge_graph(c,gr,r,GEOS[g]); c.note=""; } }
	}
	++c.traces;
}
static Suite s_one(){
	Suite s; s.name="one_way_map"; unsigned l= vx::opt().thorough()?6:(vx::opt().asan()?4:5); static const Ids ids={3,64,65,200}; s.bounds=vx::fmt("one way: every node sequence of up to %u nodes out of 4 x 4 direction categories x 3 geometry forms x all nodes as routing nodes or not",l); s.count=seq_count(4,0,l);
	auto dec=[l](uint64_t x){ Map m; m.n=some_nodes(ids); m.w={{77,nth_seq(x,ids,0,l),Dir::open_in_both,true,{{"highway","x"}}}}; return m; };
	s.run=[dec](uint64_t x, Ctx&c){ all_options(c,dec(x),{},false,4,3); }; s.describe=[dec](uint64_t x){ return show(dec(x)); }; return s;
}
static Suite s_two(){
	Suite s; s.name="two_way_map"; bool a=vx::opt().asan(), t=vx::opt().thorough(); unsigned l=3, dirs=a&&!t?1:4, geos=t?3:1; static const Ids ids={3,64,65,200}; unsigned k=a&&!t?3:4;
	static Ids use; use.assign(ids.begin(),ids.begin()+k);
	s.bounds=vx::fmt("two ways: every pair of node sequences of up to %u nodes out of %u x %u direction categories each x %u geometry forms x all nodes as routing nodes or not",l,k,dirs,geos); uint64_t n=seq_count(k,0,l); s.count=n*n;
	auto dec=[n](uint64_t x){ Map m; m.n=some_nodes(ids); m.w={{77,nth_seq(x%n,use,0,3),Dir::open_in_both,true,{}},{12,nth_seq(x/n,use,0,3),Dir::open_in_both,true,{{"a","b"}}}}; return m; };
	s.run=[dec,dirs,geos](uint64_t x, Ctx&c){ all_options(c,dec(x),{},false,dirs,geos); }; s.describe=[dec](uint64_t x){ return show(dec(x)); }; return s;
}
static Suite s_three(){
	Suite s; s.name="three_way_map"; static const Ids ids={3,64,65,200}; bool a=vx::opt().asan()&&!vx::opt().thorough(); unsigned masks=a?1:8; s.bounds=vx::fmt("three ways of two nodes out of 4 x %u sets of used ways, open in both directions",masks); s.count=4096*masks;
	auto dec=[a](uint64_t x){ Map m; m.n=some_nodes(ids); Dec q(x); for(int i=0;i<3;++i){ Ids v; v.push_back(ids[q.get(4)]); v.push_back(ids[q.get(4)]); m.w.push_back({(uint64_t)(5+60*i),v,Dir::open_in_both,true,{}}); } unsigned u=a?7:q.get(8); for(int i=0;i<3;++i) m.w[i].used=u>>i&1; return m; };
	s.run=[dec](uint64_t x, Ctx&c){ all_options(c,dec(x),{},false,1,1,1); }; s.describe=[dec](uint64_t x){ return show(dec(x)); }; return s;
}
static Suite s_demand(){
	Suite s; s.name="demanded_and_missing_nodes"; static const Ids ids={3,64,65,200}; bool a=vx::opt().asan()&&!vx::opt().thorough(); unsigned l1=a?3:4; s.bounds=vx::fmt("one way of up to %u nodes out of 4, alone or with a second way over two of them x every set of demanded routing nodes x every set of nodes missing in the file",l1); uint64_t n=seq_count(4,2,l1); s.count=n*2*16*16;
	auto dec=[n,l1](uint64_t x, std::set<uint64_t>&dem, bool&cb){ Dec q(x); unsigned d=q.get(16), mi=q.get(16); bool two=q.get(2); Map m; auto all=some_nodes(ids); for(unsigned i=0;i<4;++i) if(!(mi>>i&1)) m.n.push_back(all[i]); for(unsigned i=0;i<4;++i) if(d>>i&1) dem.insert(ids[i]); cb=d||mi%2; m.w.push_back({9,nth_seq(q.v,ids,2,l1),Dir::open_in_both,true,{}}); if(two) m.w.push_back({10,{65,3},Dir::only_open_forwards,true,{}}); return m; };
	s.run=[dec](uint64_t x, Ctx&c){ std::set<uint64_t> dem; bool cb; Map m=dec(x,dem,cb); pbf::MemFile f(file_of(objects(m))); auto r=reference(m,dem,false); auto map=get_mapping(c,m,f.name,dem,false,cb); mapping_eq(c,map,r); auto g=get_graph(c,m,f.name,map,r,GEOS[0]);
		if(r.at.size()==4) judge_graph(c,g,r,GEOS[0]);
		else{ // positions of nodes the file lacks are not specified: compare without geometry
			judge_graph(c,get_graph(c,m,f.name,map,r,GEOS[2]),r,GEOS[2]); }
		++c.traces; };
	s.describe=[dec](uint64_t x){ std::set<uint64_t> dem; bool cb; Map m=dec(x,dem,cb); std::string d=show(m)+" demanded:"; for(auto i:dem) d+=vx::fmt(" %llu",(unsigned long long)i); d+=" in file:"; for(auto&n:m.n) d+=vx::fmt(" %llu",(unsigned long long)n.id); return d; }; return s;
}
static Map order_map(unsigned shape){
	Map m; Ids ids={2,63,64,511,512,5000}; m.n=some_nodes(ids);
	if(shape==0) m.w={{1,{2,63,64},Dir::open_in_both,true,{}},{700,{64,511,2},Dir::only_open_forwards,true,{}}};
	else if(shape==1) m.w={{64,{512,5000},Dir::only_open_backwards,true,{}},{63,{5000,2,512},Dir::open_in_both,true,{}},{3,{2,63},Dir::open_in_both,false,{}}};
	else m.w={{10,{2,63,64,511,2},Dir::open_in_both,true,{}}};
	if(shape!=2) m.n.resize(shape==0?4:6); else m.n.resize(4);
	if(shape==1){ m.n.erase(m.n.begin()+2,m.n.begin()+4); }
	return m;
}
static Suite s_order(){
	Suite s; s.name="object_order"; s.bounds="three maps x every order of their objects in the file x one object or all objects per block: the same graph results"; s.count=(720+5040+120)*2;
	auto dec=[](uint64_t x, unsigned&shape, std::vector<pbf::Obj>&o, unsigned&per, Map&m){ per=x%2?1:1000; x/=2; shape= x<720?0: x<5760?1:2; uint64_t i=x-(shape==0?0:shape==1?720:5760); m=order_map(shape); auto all=objects(m); auto p=vx::nth_permutation(all.size(),i); for(unsigned k:p) o.push_back(all[k]); };
	s.run=[dec](uint64_t x, Ctx&c){ unsigned shape,per; std::vector<pbf::Obj> o; Map m; dec(x,shape,o,per,m); auto r=reference(m,{},false); pbf::MemFile f(file_of(o,per)); auto map=get_mapping(c,m,f.name,{},false,false); mapping_eq(c,map,r); judge_graph(c,get_graph(c,m,f.name,map,r,GEOS[0]),r,GEOS[0]);
		bool sorted=true; int st=0; for(auto&y:o){ int k=y.kind=='n'?0:1; if(k<st) sorted=false; st=k; } if(sorted) judge_graph(c,get_graph(c,m,f.name,map,r,GEOS[0],true),r,GEOS[0]);
		++c.traces; };
	s.describe=[dec](uint64_t x){ unsigned shape,per; std::vector<pbf::Obj> o; Map m; dec(x,shape,o,per,m); return pbf::show(o); }; return s;
}
static Suite s_large_ids(){
	Suite s; s.name="large_ids"; s.bounds="node ids, way ids or both on either side of 2^32, with ids that agree in their lower 32 bits: mapping, graph and geometry"; s.count=4; s.chunk=1; static const uint64_t G=1ull<<32;
	auto dec=[](uint64_t x){ Map m; if(x<2){ m.n=some_nodes({3,64,200,G+3,G+64,G+4095}); m.w={{77,{3,G+3,64,G+64},Dir::open_in_both,true,{{"a","b"}}},{12,{G+64,200,G+4095,3},Dir::only_open_forwards,true,{}}}; if(x==1) for(auto&w:m.w) std::reverse(w.nodes.begin(),w.nodes.end()); }
		else { m.n=some_nodes({3,64,65,200}); m.w={{77,{3,64,65},Dir::open_in_both,true,{{"a","b"}}},{G+77,{65,200},Dir::only_open_backwards,true,{{"c","d"}}},{G+12,{200,3},Dir::open_in_both,x==2,{}},{12,{3,65},Dir::open_in_both,true,{}}}; } return m; };
	s.run=[dec](uint64_t x, Ctx&c){ Map m=dec(x); auto r=reference(m,{},false); pbf::MemFile f(file_of(objects(m))); c.note=show(m); auto map=get_mapping(c,m,f.name,{},false,false); mapping_eq(c,map,r); judge_graph(c,get_graph(c,m,f.name,map,r,GEOS[0]),r,GEOS[0]); ++c.traces; };
	s.describe=[dec](uint64_t x){ return show(dec(x)); }; return s; }
static Map big_map(unsigned k){
	Map m; 
	if(k<12){ unsigned len=std::vector<unsigned>{2,3,10,64,65,511,512,513,1000,3000,8000,8001}[k]; Ids ids; for(unsigned i=0;i<len;++i) ids.push_back(i*3+1); for(unsigned i=0;i<len;++i) m.n.push_back({ids[i],(int64_t)(i%90)*700000000+(int64_t)i*1000000,(int64_t)(i/90)*1500000000-80000000000LL,{}}); m.w.push_back({1,ids,Dir::open_in_both,true,{}}); if(k%2){ m.w.push_back({2,{ids[len/2],ids[0]},Dir::only_open_forwards,true,{}}); } }
	else if(k<16){ unsigned d=std::vector<unsigned>{3,8,20,40}[k-12]; for(unsigned i=0;i<d*d;++i) m.n.push_back({i+1,(int64_t)(i/d)*20000000,(int64_t)(i%d)*30000000,{}}); for(unsigned i=0;i<d;++i){ Ids a,b; for(unsigned j=0;j<d;++j){ a.push_back(i*d+j+1); b.push_back(j*d+i+1); } m.w.push_back({100+i,a,DIRS[i%3],true,{}}); m.w.push_back({5000+i,b,DIRS[(i+1)%4],i%5!=4,{}}); } }
	else if(k<20){ unsigned n=std::vector<unsigned>{5,100,1000,5000}[k-16]; for(unsigned i=0;i<n;++i) m.n.push_back({1000000+i*17ull,(int64_t)(i%170)*1000000000/2,(int64_t)(i/170)*1000000000,{}}); for(unsigned i=0;i+1<n;++i) m.w.push_back({i+1,{m.n[i].id,m.n[i+1].id},DIRS[i%3],true,{}}); }
	else{ // closed loops with inner nodes, meeting in one node
		for(unsigned i=0;i<13;++i) m.n.push_back({i+1,(int64_t)(i*i)*10000000,(int64_t)(i*7%13)*10000000,{}}); m.w={{1,{1,2,3,4,1},Dir::open_in_both,true,{}},{2,{1,5,6,7,1},Dir::only_open_forwards,true,{}},{3,{8,9,10,8,11,12,13,12},k==20?Dir::open_in_both:Dir::only_open_backwards,true,{}}}; }
	return m;
}
static Suite s_big(){
	Suite s; s.name="map_families"; s.bounds="single ways of up to 8001 nodes, grids of up to 40 x 40 with crossing one-way and two-way ways, chains of up to 5000 ways, touching loops x block sizes 1 (small maps), 100 and everything in one x 3 geometry forms x all nodes as routing nodes or not"; s.count=22*3*3*2; s.case_timeout=300;
	s.run=[](uint64_t x, Ctx&c){ Dec q(x); unsigned k=q.get(22), b=q.get(3), g=q.get(3), all=q.get(2); Map m=big_map(k); if((b==0&&m.n.size()>1100)) b=1; if(vx::opt().asan()&&!vx::opt().thorough()&&m.n.size()>1700&&(g!=0||b!=1)) return;
		pbf::Style st; st.blob=k%3; st.dense=k%2==0; pbf::MemFile f(file_of(objects(m),b==0?1:b==1?100:8000,st)); auto r=reference(m,{},all); auto map=get_mapping(c,m,f.name,{},all,false); mapping_eq(c,map,r);
		if(m.n.size()<1700||g==2) judge_graph(c,get_graph(c,m,f.name,map,r,GEOS[g]),r,GEOS[g]);
		else{ // finding nodes by position is slow for long ways: only every position of the modelling nodes in order
			auto gr=get_graph(c,m,f.name,map,r,GEOS[g]); auto r2=r; judge_graph(c,gr,r,GEOS[2]); c.eqs((unsigned)gr.first_modelling_node.size(),gr.arc_count()+1,"size of first_modelling_node"); auto t=tails(gr);
			for(unsigned i=0;i<gr.arc_count();++i) for(auto&a:r.arcs) if(a.tail==t[i]&&a.head==gr.head[i]&&a.way==gr.way[i]&&a.anti==gr.is_arc_antiparallel_to_way[i]){ Ids p=a.path; if(g==1&&p.size()>2) p={p.front(),p.back()}; unsigned o=gr.first_modelling_node[i]; c.eqs(gr.first_modelling_node[i+1]-o,(unsigned)p.size(),"number of modelling nodes of an arc"); for(unsigned j=0;j<p.size();++j){ auto n=r.at.at(p[j]); c.expect(fabs(gr.modelling_node_latitude[o+j]-n->lat*1e-9)<2e-5&&fabs(gr.modelling_node_longitude[o+j]-n->lon*1e-9)<2e-5,"position of a modelling node"); } break; }
		} ++c.traces; };
	s.describe=[](uint64_t x){ Dec q(x); unsigned k=q.get(22), b=q.get(3), g=q.get(3), all=q.get(2); return vx::fmt("map %u, block size form %u, geometry %u, all %u",k,b,g,all); }; return s;
}
static Suite s_wide(){
	Suite s; s.name="beyond_16_bits"; s.bounds="one way of n nodes, one way of n nodes crossed by another that uses every second of them, a chain of n ways, n ways that leave one node; n of 65534..65537 and 70000; geometry uncompressed and endpoints only; all nodes as routing nodes or not"; s.count=4*5*2*2; s.chunk=1; s.case_timeout=200; static const unsigned ns[]={65534,65535,65536,65537,70000};
	s.run=[](uint64_t x, Ctx&c){ Dec q(x); unsigned k=q.get(4), n=ns[q.get(5)], g=q.get(2), all=q.get(2); if(all&&k>1) return; Map m; auto pos=[](unsigned i, uint64_t id)->Node{ return {id,(int64_t)(i%700)*50000000,(int64_t)(i/700)*150000000-8000000000LL,{}}; };
		for(unsigned i=0;i<n+1;++i) m.n.push_back(pos(i,5+i*2));
		if(k<2){ Ids a,b; for(unsigned i=0;i<n;++i){ a.push_back(m.n[i].id); if(i%2==0) b.push_back(m.n[i].id); } m.w.push_back({9,a,Dir::open_in_both,true,{}}); if(k) m.w.push_back({10,b,Dir::only_open_forwards,true,{}}); }
		else for(unsigned i=0;i<n;++i) m.w.push_back({i+1,{m.n[k==2?i:0].id,m.n[i+1].id},DIRS[i%3],true,{}});
		auto r=reference(m,{},all); pbf::Style st; st.dense=true; pbf::MemFile f(file_of(objects(m),8000,st)); c.note=vx::fmt("map %u n %u geometry %u all %u",k,n,g,all); auto map=get_mapping(c,m,f.name,{},all,false); mapping_eq(c,map,r); auto gr=get_graph(c,m,f.name,map,r,GEOS[g]); judge_graph(c,gr,r,GEOS[2]); c.eqs((unsigned)gr.first_modelling_node.size(),gr.arc_count()+1,"size of first_modelling_node"); auto t=tails(gr);
		std::map<std::vector<unsigned>,std::vector<const Arc*>> by; for(auto&a:r.arcs) by[{a.tail,a.head,a.way,a.anti}].push_back(&a);
		for(unsigned i=0;i<gr.arc_count();++i){ auto&l=by[{t[i],gr.head[i],gr.way[i],gr.is_arc_antiparallel_to_way[i]}]; bool ok=false; for(auto a:l){ Ids p=a->path; if(g==1&&p.size()>2) p={p.front(),p.back()}; unsigned o=gr.first_modelling_node[i]; if(gr.first_modelling_node[i+1]-o!=p.size()) continue; bool fit=true; for(unsigned j=0;j<p.size()&&fit;++j){ auto z=r.at.at(p[j]); fit=fabs(gr.modelling_node_latitude[o+j]-z->lat*1e-9)<2e-5&&fabs(gr.modelling_node_longitude[o+j]-z->lon*1e-9)<2e-5; } ok=ok||fit; } ++c.states; if(!ok) c.fail(vx::fmt("modelling nodes of arc %u",i)); } ++c.traces; };
	s.describe=[](uint64_t x){ Dec q(x); unsigned k=q.get(4), n=ns[q.get(5)], g=q.get(2), all=q.get(2); return vx::fmt("map %u n %u geometry %u all %u",k,n,g,all); }; return s;
}

// ---------------------------------------------------------------- reference profiles
typedef std::map<std::string,std::string> T;
static bool in(const std::string&x, std::initializer_list<const char*> l){ for(auto y:l) if(x==y) return true; return false; }
static const std::string*get(const T&t, const char*k){ auto i=t.find(k); return i==t.end()?nullptr:&i->second; }
static bool is(const T&t, const char*k, std::initializer_list<const char*> l){ auto v=get(t,k); return v&&in(*v,l); }
static bool ref_car(const T&t){
	if(get(t,"junction")||is(t,"route",{"ferry"})||is(t,"ferry",{"yes"})) return true;
	if(!get(t,"highway")) return false;
	if(is(t,"motorcar",{"no"})||is(t,"motor_vehicle",{"no"})) return false;
	if(get(t,"access")&&!is(t,"access",{"yes","permissive","delivery","designated","destination"})) return false;
	if(is(t,"highway",{"motorway","trunk","primary","secondary","tertiary","unclassified","residential","service","motorway_link","trunk_link","primary_link","secondary_link","tertiary_link","motorway_junction","living_street","track","ferry"})) return true;
	if(is(t,"highway",{"bicycle_road"})) return is(t,"motorcar",{"yes"});
	if(is(t,"highway",{"construction","path","footway","cycleway","bridleway","pedestrian","bus_guideway","raceway","escape","steps","proposed","conveying"})) return false;
	if(is(t,"oneway",{"reversible","alternating"})) return false;
	return get(t,"maxspeed")!=nullptr;
}
static Dir ref_car_dir(const T&t){
	if(get(t,"oneway")){
		if(is(t,"oneway",{"-1","reverse","backward"})) return Dir::only_open_backwards;
		if(is(t,"oneway",{"yes","true","1"})) return Dir::only_open_forwards;
		if(is(t,"oneway",{"reversible","alternating"})) return Dir::closed;
		return Dir::open_in_both;
	}
	if(is(t,"junction",{"roundabout"})||is(t,"highway",{"motorway","motorway_link"})) return Dir::only_open_forwards;
	return Dir::open_in_both;
}
static bool ref_ped(const T&t){
	if(get(t,"junction")||is(t,"route",{"ferry"})||is(t,"ferry",{"ferry"})||is(t,"public_transport",{"stop_position","platform","stop_area","station"})||is(t,"railway",{"halt","platform","subway_entrance","station","tram_stop"})) return true;
	if(!get(t,"highway")) return false;
	if(get(t,"access")&&!is(t,"access",{"yes","permissive","delivery","designated","destination","agricultural","forestry","public"})) return false;
	if(is(t,"crossing",{"no"})) return false;
	return is(t,"highway",{"secondary","tertiary","unclassified","residential","service","secondary_link","tertiary_link","living_street","track","bicycle_road","path","footway","cycleway","bridleway","pedestrian","escape","steps","crossing","escalator","elevator","platform","ferry"});
}
static bool ref_bike(const T&t){
	if(get(t,"junction")||is(t,"route",{"ferry"})||is(t,"ferry",{"ferry"})) return true;
	if(!get(t,"highway")||is(t,"highway",{"proposed"})) return false;
	if(get(t,"access")&&!is(t,"access",{"yes","permissive","delivery","designated","destination","agricultural","forestry","public"})) return false;
	if(is(t,"bicycle",{"no","use_sidepath"})) return false;
	if(get(t,"cycleway")||get(t,"cycleway:left")||get(t,"cycleway:right")||get(t,"cycleway:both")) return true;
	return is(t,"highway",{"secondary","tertiary","unclassified","residential","service","secondary_link","tertiary_link","living_street","track","bicycle_road","primary","primary_link","path","footway","cycleway","bridleway","pedestrian","crossing","escape","steps","ferry"});
}
static Dir ref_bike_dir(const T&t){
	if(get(t,"oneway:bicycle")){
		if(is(t,"oneway:bicycle",{"-1","opposite"})) return Dir::only_open_backwards;
		if(is(t,"oneway:bicycle",{"1","yes","true","no_planned"})) return Dir::only_open_forwards;
		if(is(t,"oneway:bicycle",{"0","no","false","tolerated","permissive"})) return Dir::open_in_both;
		return Dir::closed;
	}
	if(!get(t,"oneway")||is(t,"oneway",{"no","false","0"})) return Dir::open_in_both;
	if(is(t,"cycleway",{"opposite","opposite_track","opposite_lane","opposite_share_busway"})||get(t,"cycleway:both")||(get(t,"cycleway:left")&&get(t,"cycleway:right"))) return Dir::open_in_both;
	if(is(t,"oneway",{"-1","reverse","backward"})) return Dir::only_open_backwards;
	if(is(t,"oneway",{"yes","true","1"})) return Dir::only_open_forwards;
	return Dir::closed;
}
static unsigned ref_comfort(const T&t){ if(is(t,"highway",{"cycleway"})) return 4; if(get(t,"cycleway")) return is(t,"cycleway",{"track"})?3:2; if(is(t,"highway",{"primary","primary_link"})||is(t,"bicycle",{"dismount"})) return 0; return 1; }
// -1: says nothing
static long long ref_limit(std::string v){
	for(auto&ch:v) if('A'<=ch&&ch<='Z') ch+=32;
	long long best=-1; size_t p=0;
	for(;;){ size_t e=v.find(';',p); std::string x=v.substr(p,e==std::string::npos?e:e-p); size_t b=0; while(b<x.size()&&x[b]==' ') ++b; x=x.substr(b);
		long long s=-1; auto cc=[&](const char*y){ return x.size()==3+strlen(y)&&x[2]==':'&&x.substr(3)==y; };
		static const std::map<std::string,int> words={{"none",130},{"unlimited",130},{"walk",5},{"foot",5},{"walking_pace",5},{"schritt",5},{"urban",40},{"living_street",10},{"de:rural",100},{"at:rural",100},{"ro:rural",100},{"rural",100},{"ru:rural",90},{"ua:rural",90},{"ru:motorway",110},{"ch:motorway",120},{"at:motorway",130},{"ro:motorway",130},{"de:motorway",130},{"national",100},{"ro:trunk",100},{"dk:rural",80},{"ch:rural",80},{"fr:rural",80},{"it:rural",90},{"hu:rural",90},{"de:zone:30",30},{"de:zone30",30},{"at:zone30",30}};
		auto w=words.find(x);
		if(w!=words.end()) s=w->second; else if(cc("walk")) s=5; else if(cc("urban")) s=40; else if(cc("living_street")) s=10;
		else if(!x.empty()&&isdigit((unsigned char)x[0])){ size_t i=0; long long n=0; while(i<x.size()&&isdigit((unsigned char)x[i])){ n=n*10+(x[i]-'0'); if(n>1000000) n=1000000; ++i; } while(i<x.size()&&x[i]==' ') ++i; std::string u=x.substr(i); s=u=="mph"?n*1609/1000:u=="knots"?n*1852/1000:n; }
		if(s>=0&&(best<0||s<best)) best=s;
		if(e==std::string::npos) break; p=e+1; }
	return best==0?1:best;
}
static unsigned ref_speed(const T&t){
	auto m=get(t,"maxspeed"); if(m&&*m!="unposted"){ long long l=ref_limit(*m); if(l>0) return l; }
	static const std::map<std::string,unsigned> h={{"motorway",90},{"motorway_link",45},{"trunk",85},{"trunk_link",40},{"primary",65},{"primary_link",30},{"secondary",55},{"secondary_link",25},{"tertiary",40},{"tertiary_link",20},{"unclassified",25},{"residential",25},{"living_street",10},{"service",8},{"track",8},{"ferry",5}};
	if(auto x=get(t,"highway")){ auto i=h.find(*x); if(i!=h.end()) return i->second; }
	if(get(t,"junction")) return 20; if(is(t,"route",{"ferry"})||get(t,"ferry")) return 5; return 50;
}
static std::string ref_name(const T&t){ auto n=get(t,"name"), r=get(t,"ref"); return n&&r?*n+";"+*r: n?*n: r?*r:""; }
static std::string show(const T&t){ std::string r="{"; for(auto&x:t) r+=x.first+"="+x.second.substr(0,60)+" "; return r+"}"; }

struct Probe{ // one tag map object used for all cases of a worker
	TagMap m; std::vector<std::pair<std::string,std::string>> l; unsigned logs=0;
	void set(const T&t, bool rev){ l.assign(t.begin(),t.end()); if(rev) std::reverse(l.begin(),l.end()); m.build(l.size(),[&](unsigned i){ return l[i].first.c_str(); },[&](unsigned i){ return l[i].second.c_str(); }); }
};
static const char*dname(Dir d){ return d==Dir::open_in_both?"both":d==Dir::only_open_forwards?"forwards":d==Dir::only_open_backwards?"backwards":d==Dir::closed?"closed":"?"; }
enum{ P_CAR=1,P_DIR=2,P_SPEED=4,P_NAME=8,P_BIKE=16,P_BDIR=32,P_COMF=64,P_PED=128 };
static void judge_tags(Ctx&c, const T&t, unsigned what){
	static Probe p; 
	for(int rev=0;rev<2;++rev){
		p.set(t,rev); std::function<void(const std::string&)> log; if(rev) log=[&](const std::string&){ ++p.logs; };
		auto bad=[&](const std::string&f, const std::string&g, const std::string&w){ c.fail(show(t)+": "+f+" is "+g+" instead of "+w); };
		auto yn=[](bool b){ return std::string(b?"true":"false"); };
		if(what&P_CAR){ ++c.states; bool g=is_osm_way_used_by_cars(7,p.m,log), w=ref_car(t); if(g!=w) bad("used by cars",yn(g),yn(w)); }
		if(what&P_PED){ ++c.states; bool g=is_osm_way_used_by_pedestrians(7,p.m,log), w=ref_ped(t); if(g!=w) bad("used by pedestrians",yn(g),yn(w)); }
		if(what&P_BIKE){ ++c.states; bool g=is_osm_way_used_by_bicycles(7,p.m,log), w=ref_bike(t); if(g!=w) bad("used by bicycles",yn(g),yn(w)); }
		if(what&P_DIR){ ++c.states; Dir g=get_osm_car_direction_category(7,p.m,log), w=ref_car_dir(t); if(g!=w) bad("car direction",dname(g),dname(w)); }
		if(what&P_BDIR){ ++c.states; Dir g=get_osm_bicycle_direction_category(7,p.m,log), w=ref_bike_dir(t); if(g!=w) bad("bicycle direction",dname(g),dname(w)); }
		if(what&P_SPEED){ ++c.states; unsigned g=get_osm_way_speed(7,p.m,log), w=ref_speed(t); if(g!=w) bad("speed",std::to_string(g),std::to_string(w)); }
		if(what&P_COMF){ ++c.states; unsigned g=get_osm_way_bicycle_comfort_level(7,p.m,log), w=ref_comfort(t); if(g!=w||g<get_min_bicycle_comfort_level()||g>get_max_bicycle_comfort_level()) bad("comfort level",std::to_string(g),std::to_string(w)); }
		if(what&P_NAME){ ++c.states; std::string g=get_osm_way_name(7,p.m,log), w=ref_name(t); if(g!=w) bad("name",g,w); }
		++c.transitions;
	}
}
static const std::vector<std::string> HW={"motorway","trunk","primary","secondary","tertiary","unclassified","residential","service","motorway_link","trunk_link","primary_link","secondary_link","tertiary_link","motorway_junction","living_street","track","ferry","bicycle_road","construction","path","footway","cycleway","bridleway","pedestrian","bus_guideway","raceway","escape","steps","proposed","conveying","crossing","escalator","elevator","platform","other","","Motorway"};
struct Dim{ const char*key; std::vector<std::string> v; };  // every key is also absent
static Suite product(const char*name, const std::vector<Dim>&d, unsigned what){
	Suite s; s.name=name; s.count=1; std::string b="every combination of"; for(auto&x:d){ s.count*=x.v.size()+1; b+=vx::fmt(" %s (%zu values or absent)",x.key,x.v.size()); } s.bounds=b+", tags in both orders, with and without log function";
	auto dec=[d](uint64_t x){ T t; Dec q(x); for(auto&y:d){ unsigned i=q.get(y.v.size()+1); if(i) t[y.key]=y.v[i-1]; } return t; };
	s.run=[dec,what](uint64_t x, Ctx&c){ judge_tags(c,dec(x),what); ++c.traces; }; s.describe=[dec](uint64_t x){ return show(dec(x)); }; return s;
}
static std::vector<std::string> limits(){
	std::vector<std::string> r={"","signals","variable","none","unlimited","walk","foot","DE:walk","walking_pace","schritt","urban","RU:urban","xx:urban","xxx:urban","living_street","AT:living_street","DE:rural","at:rural","RO:rural","rural","RU:rural","UA:rural","ru:motorway","CH:motorway","AT:motorway","ro:motorway","DE:motorway","national","RO:trunk","DK:rural","CH:rural","FR:rural","IT:rural","HU:rural","ES:rural","DE:zone:30","DE:zone30","AT:zone30","unposted","NONE","fifty","-50","0","0 mph","1 mph","5","7","30","50","50 ","50km/h","50 km/h","50 kmh","50 kph","50 KM/H","30 mph","30mph","30 MPH","10 knots","10knots","50 furlongs","50.5","120","130","999","1000","4294967295","4294967296","4294967297","4294967346","42949672960","18446744073709551616","18446744073709551666","99999999999999999999999999","2147483647","2147483648","4294967296 mph","2669388 mph","2319096 knots","429496730","1000000","000050","?","??:walk","50;","; 50",";",";;"};
	r.push_back(std::string(2000,'9')); r.push_back(std::string(1020,' ')+"50"); r.push_back(std::string(300,'x')+";30"); return r;
}
static Suite s_speed(){
	Suite s; s.name="speed_limits"; static const auto L=limits(); static const std::vector<std::string> H={"(absent)","motorway","motorway_link","trunk","trunk_link","primary","primary_link","secondary","secondary_link","tertiary","tertiary_link","unclassified","residential","living_street","service","track","ferry","other"}; static const char*sep[]={"",";","; ","; ; "};
	s.bounds=vx::fmt("%zu speed limit texts alone and all pairs of them with 3 separators x 18 road classes, junction / route / ferry tags present or not for single texts",L.size()); s.count=H.size()*(L.size()+L.size()*L.size()*3+L.size()*12);
	auto dec=[](uint64_t x){ T t; Dec q(x); unsigned h=q.get(H.size()); if(h) t["highway"]=H[h]; uint64_t y=q.v, n=L.size(); if(y<n) t["maxspeed"]=L[y]; else if(y<n+n*n*3){ y-=n; Dec z(y); unsigned a=z.get(n), b=z.get(n), sp=z.get(3)+1; t["maxspeed"]=L[a]+sep[sp]+L[b]; } else { y-=n+n*n*3; Dec z(y); unsigned a=z.get(n), j=z.get(2), r=z.get(3), f=z.v; if(a) t["maxspeed"]=L[a]; if(j) t["junction"]="yes"; if(r) t["route"]=r==1?"ferry":"bus"; if(f) t["ferry"]="yes"; } return t; };
	// texts longer than the buffer of the parser are cut: only totality is claimed there
	s.run=[dec](uint64_t x, Ctx&c){ T t=dec(x); if(t.count("maxspeed")&&t["maxspeed"].size()>1000){ static Probe p; p.set(t,false); unsigned g=get_osm_way_speed(7,p.m,nullptr); c.expect(g>0&&g<inf_weight,show(t)+vx::fmt(": speed %u",g)); } else judge_tags(c,t,P_SPEED); ++c.traces; };
	s.describe=[dec](uint64_t x){ return show(dec(x)); }; return s;
}
static Suite s_numbers(){
	Suite s; s.name="numeric_limits"; s.bounds="every number up to 20000, powers of ten up to 10^22 and 2^k-1..2^k+1 up to 2^65 x 8 units"; static std::vector<std::string> N; if(N.empty()){ for(unsigned i=0;i<=20000;++i) N.push_back(std::to_string(i)); for(unsigned i=5;i<=22;++i){ N.push_back("1"+std::string(i,'0')); N.push_back(std::string(i,'9')); } for(unsigned b=15;b<=65;++b) for(int d=-1;d<=1;++d){ __int128 v=((__int128)1<<b)+d; std::string t; while(v){ t+=char('0'+(int)(v%10)); v/=10; } std::reverse(t.begin(),t.end()); N.push_back(t); } }
	static const char*U[]={""," km/h","kmh"," kph","mph"," mph"," knots"," leagues"}; s.count=N.size()*8; auto dec=[](uint64_t x){ T t; t["maxspeed"]=N[x/8]+U[x%8]; if(x%3==0) t["highway"]="primary"; return t; };
	s.run=[dec](uint64_t x, Ctx&c){ judge_tags(c,dec(x),P_SPEED); ++c.traces; }; s.describe=[dec](uint64_t x){ return show(dec(x)); }; return s;
}
// ---------------------------------------------------------------- the simple loaders
static const std::vector<T>&tag_sets(){ static const std::vector<T> v={ {},{{"highway","primary"}},{{"highway","motorway"}},{{"highway","footway"}},{{"highway","cycleway"}},{{"highway","residential"},{"oneway","yes"}},{{"highway","residential"},{"oneway","-1"},{"maxspeed","30"}},{{"highway","secondary"},{"maxspeed","50 mph"}},{{"highway","tertiary"},{"oneway","reversible"}},{{"highway","service"},{"access","private"}},{{"highway","track"},{"access","forestry"}},{{"junction","roundabout"}},{{"junction","roundabout"},{"highway","primary"},{"oneway","no"}},{{"route","ferry"}},{{"ferry","yes"}},{{"ferry","ferry"}},{{"building","yes"}},{{"highway","steps"}},{{"highway","residential"},{"oneway","yes"},{"cycleway","opposite"}},{{"highway","residential"},{"oneway","yes"},{"oneway:bicycle","no"}},{{"highway","residential"},{"bicycle","no"}},{{"highway","path"},{"bicycle","dismount"}},{{"highway","primary"},{"cycleway","track"}},{{"railway","platform"}},{{"highway","living_street"},{"motor_vehicle","no"}},{{"highway","living_street"},{"maxspeed","walk"},{"name","x"}},{{"highway","motorway_link"},{"maxspeed","0"}},{{"highway","trunk"},{"oneway","perhaps"}} }; return v; }
static pbf::Tags to_tags(const T&t){ return pbf::Tags(t.begin(),t.end()); }
template<class G> static void judge_simple(Ctx&c, const G&g, const Ref&r, const char*what, const std::function<bool(unsigned arc, const Arc&)>&attr){
	c.note+=std::string(what)+": "; judge_nodes(c,g,r); auto t=tails(g); c.eqs(g.node_count(),(unsigned)r.rnode.size(),"node_count()"); c.eqs(g.arc_count(),(unsigned)r.arcs.size(),"arc_count()");
	std::vector<char> used(r.arcs.size(),0);
	for(unsigned i=0;i<g.head.size();++i){ bool ok=false; for(unsigned j=0;j<r.arcs.size();++j) if(!used[j]&&r.arcs[j].tail==t[i]&&r.arcs[j].head==g.head[i]&&dist_ok(g.geo_distance[i],r.arcs[j])&&attr(i,r.arcs[j])){ used[j]=1; ok=true; break; } ++c.states; if(!ok) c.fail(vx::fmt("arc %u (%u -> %u, %u m) matches no section of the map",i,t[i],g.head[i],g.geo_distance[i])); }
	c.note="";
}
static void all_simple(Ctx&c, Map m, const std::string&file, bool all, bool ordered){
	auto prof=[&](bool(*used)(const T&), Dir(*dir)(const T&)){ for(auto&w:m.w){ T t(w.tags.begin(),w.tags.end()); w.used=used(t); w.dir=dir?dir(t):Dir::open_in_both; } return reference(m,{},all); };
	std::string n0=c.note;
	{ auto r=prof(ref_car,ref_car_dir); auto g=simple_load_osm_car_routing_graph_from_pbf(file,some_log(m,0+all),all,ordered); ++c.transitions; c.eqs((unsigned)g.travel_time.size(),(unsigned)g.head.size(),"number of travel times");
		judge_simple(c,g,r,"car",[&](unsigned a, const Arc&x){ auto w=find_way(m,r.rway[x.way]); unsigned sp=ref_speed(T(w->tags.begin(),w->tags.end())); uint64_t e=std::min<uint64_t>((uint64_t)g.geo_distance[a]*3600/sp,inf_weight); return (uint64_t)g.travel_time[a]+1>=e && g.travel_time[a]<=e+1 && g.travel_time[a]<=inf_weight; }); }
	c.note=n0;
	{ auto r=prof(ref_ped,nullptr); auto g=simple_load_osm_pedestrian_routing_graph_from_pbf(file,some_log(m,1+all),all,ordered); ++c.transitions; judge_simple(c,g,r,"pedestrian",[](unsigned, const Arc&){ return true; }); }
	c.note=n0;
	{ auto r=prof(ref_bike,ref_bike_dir); auto g=simple_load_osm_bicycle_routing_graph_from_pbf(file,some_log(m,2+all),all,ordered); ++c.transitions; c.eqs((unsigned)g.arc_comfort_level.size(),(unsigned)g.head.size(),"number of comfort levels");
		judge_simple(c,g,r,"bicycle",[&](unsigned a, const Arc&x){ auto w=find_way(m,r.rway[x.way]); return g.arc_comfort_level[a]==ref_comfort(T(w->tags.begin(),w->tags.end())); }); }
	c.note="";
}
static Suite s_simple(){
	Suite s; s.name="simple_loaders"; unsigned n=tag_sets().size(); s.bounds=vx::fmt("three ways (a loop, a chord, a branch) x every pair of %u tag sets on the first two, third way cycling x all nodes as routing nodes or not: car, pedestrian and bicycle graphs",n); s.count=n*n*2;
	auto dec=[n](uint64_t x){ Dec q(x); unsigned a=q.get(n), b=q.get(n); Map m; m.n=some_nodes({1,2,3,4,5,6}); m.w={{10,{1,2,3,4,1},Dir::open_in_both,true,to_tags(tag_sets()[a])},{11,{2,5,4},Dir::open_in_both,true,to_tags(tag_sets()[b])},{8,{5,6},Dir::open_in_both,true,to_tags(tag_sets()[(a*5+b)%n])}}; return m; };
	s.run=[dec,n](uint64_t x, Ctx&c){ Map m=dec(x); bool all=x>=n*n; pbf::MemFile f(file_of(objects(m))); c.note=""; all_simple(c,m,f.name,all,false); ++c.traces; };
	s.describe=[dec,n](uint64_t x){ Map m=dec(x%(n*n)); std::string r=x>=n*n?"all nodes ":""; for(auto&w:m.w) r+=vx::fmt("way %llu ",(unsigned long long)w.id)+show(T(w.tags.begin(),w.tags.end())); return r; }; return s;
}
static Suite s_times(){
	Suite s; s.name="travel_times"; s.bounds="ways of about 1 m to 200000 km (up to five times around the equator) x speeds 0, 1, 2, 3, 5, 7, 30, 50, 90, 100, 130, 200, 999, 10000, 1000000, 10^12 km/h, 30 mph, none; inner nodes every 15 degrees for long ways";
	static const std::vector<std::string> V={"0","1","2","3","5","7","30","50","90","100","130","200","999","10000","1000000","1000000000000","30 mph",""}; s.count=60*V.size();
	auto dec=[](uint64_t x, std::string&v){ Dec q(x); v=V[q.get(V.size())]; unsigned l=q.v; double deg= l<40? 0.00001*pow(1.5,l) : 90.0*(l-39); if(l==39) deg=2.1459; Map m; unsigned k=deg<20?1:(unsigned)ceil(deg/15); Ids ids; for(unsigned i=0;i<=k;++i){ double lon=deg*i/k; while(lon>180) lon-=360; m.n.push_back({i+1,(int64_t)(i*100000),(int64_t)llround(lon*1e7)*100,{}}); ids.push_back(i+1); } T t={{"highway","other"},{"maxspeed",v}}; if(v.empty()) t={{"highway","track"}}; m.w={{5,ids,Dir::open_in_both,true,to_tags(t)}}; return m; };
	s.run=[dec](uint64_t x, Ctx&c){ std::string v; Map m=dec(x,v); pbf::MemFile f(file_of(objects(m))); all_simple(c,m,f.name,false,false); ++c.traces; };
	s.describe=[dec](uint64_t x){ std::string v; Map m=dec(x,v); Ref r=reference(m,{},false); return vx::fmt("way of %.1Lf m, maxspeed '%s'",r.arcs.empty()?0.0L:r.arcs[0].dist,v.c_str()); }; return s;
}
static Suite s_ordered(){
	Suite s; s.name="declared_order"; s.bounds="the loaders with and without the declaration that the file is sorted, on sorted and unsorted files in every order of six objects: simple loaders and graph builder agree, in the result or in raising an exception"; s.count=720*2;
	auto dec=[](uint64_t x, Map&m){ std::vector<pbf::Obj> o; m.n=some_nodes({1,2,3}); m.w={{7,{1,2,3},Dir::open_in_both,true,{{"highway","primary"}}},{9,{3,1},Dir::open_in_both,true,{{"highway","primary"}}}}; m.r={{4,{{1,7,"from"},{0,3,"via"},{1,9,"to"}},{{"restriction","no_left_turn"}}}}; auto all=objects(m); for(unsigned k:vx::nth_permutation(6,x/2)) o.push_back(all[k]); return o; };
	s.run=[dec](uint64_t x, Ctx&c){ Map m; auto o=dec(x,m); bool decl=x%2; pbf::MemFile f(file_of(o,1));
		bool sorted=true; int st=0; for(auto&y:o){ int k=y.kind=='n'?0:y.kind=='w'?1:2; if(k<st) sorted=false; st=k; }
		auto mapping=load_osm_id_mapping_from_pbf(f.name,nullptr,[](uint64_t, const TagMap&){ return true; });
		bool t0=false; try{ load_osm_routing_graph_from_pbf(f.name,mapping,[](uint64_t,unsigned,const TagMap&){ return Dir::open_in_both; },[](uint64_t id, const std::vector<OSMRelationMember>&l, const TagMap&t, std::function<void(OSMTurnRestriction)> out){ decode_osm_car_turn_restrictions(id,l,t,out); },nullptr,decl); }catch(const std::exception&){ t0=true; }
		bool t1=false; try{ all_simple(c,m,f.name,false,decl); }catch(const std::exception&){ t1=true; }catch(vx::Failure&){ if(!(decl&&!sorted)) throw; }
		if(sorted||!decl) c.expect(!t0&&!t1,"loading fails");
		c.expect(t0==t1,vx::fmt("file %s, declared as %s: the graph builder %s, the simple loaders %s",sorted?"sorted":"unsorted",decl?"sorted":"unknown",t0?"raises an exception":"returns",t1?"raise an exception":"return")); ++c.traces; };
	s.describe=[dec](uint64_t x){ Map m; return pbf::show(dec(x,m))+(x%2?"declared as sorted":""); }; return s;
}
// ---------------------------------------------------------------- turn restrictions
struct RT{ bool mandatory; int dir; uint64_t from, via, to; bool operator<(const RT&o)const{ return std::tie(mandatory,dir,from,via,to)<std::tie(o.mandatory,o.dir,o.from,o.via,o.to); } bool operator==(const RT&o)const{ return !(*this<o)&&!(o<*this); } };
static int dirno(OSMTurnDirection d){ return d==OSMTurnDirection::left_turn?0:d==OSMTurnDirection::right_turn?1:d==OSMTurnDirection::straight_on?2:3; }
static std::vector<RT> ref_decode(const T&tags, const std::vector<pbf::Member>&m){
	std::vector<RT> r; auto v=get(tags,"restriction"); if(!v) return r; std::string x=*v; bool man; if(x.compare(0,5,"only_")==0){ man=true; x=x.substr(5); } else if(x.compare(0,3,"no_")==0){ man=false; x=x.substr(3); } else return r;
	int d= x=="left_turn"?0: x=="right_turn"?1: x=="straight_on"?2: x=="u_turn"?3:-1; if(d<0) return r;
	Ids from,to; std::vector<const pbf::Member*> via; for(auto&y:m){ if(y.role=="via") via.push_back(&y); else if(y.role=="from"&&y.type==1) from.push_back(y.id); else if(y.role=="to"&&y.type==1) to.push_back(y.id); }
	if(via.size()>1||(via.size()==1&&via[0]->type!=0)) return r; if(from.empty()||to.empty()) return r; if(man&&(from.size()!=1||to.size()!=1)) return r;
	for(auto f:from) for(auto t:to) r.push_back({man,d,f,via.empty()?~0ull:via[0]->id,t}); return r;
}
static Suite s_decode(){
	Suite s; s.name="restriction_decoding"; static const char*roles[]={"via","from","to","location_hint","viaduct",""}; static const std::vector<std::string> R={"no_left_turn","only_right_turn","only_straight_on","no_u_turn","no_entry","only_","no_","left_turn","","only_left_turnx","No_left_turn"};
	bool a=vx::opt().asan()&&!vx::opt().thorough(); unsigned l=a?3:4, k=6*3; static const unsigned nr=11; s.bounds=vx::fmt("every member list of up to %u members (6 roles x 3 types, distinct ids) x %zu restriction values and no restriction tag",l,R.size()); s.count=seq_count(k,0,l)*(nr+1);
	auto dec=[k,l](uint64_t x, T&t){ unsigned r=x%(nr+1); x/=nr+1; if(r) t["restriction"]=R[r-1]; if(x%3==1) t["type"]="restriction"; std::vector<pbf::Member> m; Ids al; for(unsigned i=0;i<k;++i) al.push_back(i); unsigned j=0; for(auto y:nth_seq(x,al,0,l)) { m.push_back({(int)(y/6),(j%2?(1ull<<40):0)+100+10*j,roles[y%6]}); ++j; } return m; };
	s.run=[dec](uint64_t x, Ctx&c){ T t; auto m=dec(x,t); static Probe p; p.set(t,x&1); std::vector<OSMRelationMember> l; for(auto&y:m) l.push_back({y.type==0?OSMIDType::node:y.type==1?OSMIDType::way:OSMIDType::relation,y.id,y.role.c_str()}); std::vector<RT> got, want=ref_decode(t,m); bool idok=true;
		std::function<void(const std::string&)> log; if(x%2) log=[](const std::string&){};
		decode_osm_car_turn_restrictions(4711,l,p.m,[&](OSMTurnRestriction r){ if(r.osm_relation_id!=4711) idok=false; got.push_back({r.category==OSMTurnRestrictionCategory::mandatory,dirno(r.direction),r.from_way,r.via_node,r.to_way}); },log);
		++c.transitions; ++c.states; std::sort(got.begin(),got.end()); std::sort(want.begin(),want.end()); if(!idok) c.fail("relation id"); if(!(got==want)) c.fail(vx::fmt("%u restrictions decoded instead of %u, or different ones",(unsigned)got.size(),(unsigned)want.size())); ++c.traces; };
	s.describe=[dec](uint64_t x){ T t; auto m=dec(x,t); std::string r=show(t); for(auto&y:m) r+=vx::fmt("(%s %s %llu) ",y.role.c_str(),y.type==0?"node":y.type==1?"way":"relation",(unsigned long long)y.id); return r; }; return s;
}
// crossings on a grid near the equator, so that angles are multiples of 90 or 45 degrees away from the limits
static std::vector<Map> crossings(){
	std::vector<Map> r; const int64_t d=1000000; // 0.001 degree
	// 1 centre, 2 west, 3 east, 4 north, 5 south, 6 far west, 7 far east
	std::vector<Node> n={{1,5*d,5*d,{}},{2,5*d,4*d,{}},{3,5*d,6*d,{}},{4,6*d,5*d,{}},{5,4*d,5*d,{}},{6,5*d,2*d,{}},{7,5*d,8*d,{}},{8,8*d,6*d+500000,{}},{9,7*d,7*d,{}}};
	auto add=[&](std::vector<std::pair<Ids,Dir>> w){ Map m; m.n=n; uint64_t id=20; for(auto&x:w){ m.w.push_back({id,x.first,x.second,true,{{"highway","primary"}}}); id+=7; } r.push_back(m); };
	Dir b=Dir::open_in_both, f=Dir::only_open_forwards, k=Dir::only_open_backwards;
	add({{{2,1},b},{{1,3},b},{{1,4},b},{{5,1},b}});                 // four arms
	add({{{2,1,3},b},{{5,1,4},b}});                                 // two roads crossing
	add({{{2,1},f},{{1,3},f},{{1,4},b},{{5,1},k}});                 // one-way arms
	add({{{6,2,1,3,7},f},{{4,1,5},b}});                             // a one-way road with inner nodes crossing
	add({{{2,1,3},b},{{1,4},b}});                                   // side road
	add({{{2,1,3},k},{{1,4},b},{{5,1},f}});
	add({{{2,1},b},{{1,3},b},{{2,4,3},b}});                         // two ways meeting twice
	add({{{1,3,7,8,4,1},b},{{2,1},b}});                             // loop starting and ending at the crossing
	add({{{1,3,7,8,4,1},f},{{2,1,5},b}});
	add({{{6,2,1},b},{{1,3,7},b},{{3,9},b}});                       // chain with a branch
	add({{{2,1,3},b}});                                             // nothing to turn to
	add({{{2,1,3},b},{{2,1,4},b}});                                 // two ways share an arm (parallel arcs)
	return r;
}
static const std::vector<Map>&CR(){ static auto c=crossings(); return c; }
// arcs of the returned graph with their neighbours at both ends
struct GArc{ unsigned tail, head, way; bool anti; uint64_t first, last; }; // node after the tail, node before the head
static std::vector<GArc> garcs(Ctx&c, const OSMRoutingGraph&g, const Ref&r){ std::vector<GArc> v; auto t=tails(g); for(unsigned i=0;i<g.arc_count();++i){ GArc a{t[i],g.head[i],g.way[i],(bool)g.is_arc_antiparallel_to_way[i],0,0}; unsigned p=g.first_modelling_node[i], q=g.first_modelling_node[i+1]; a.first= p==q? r.rnode[a.head] : node_at(r,g.modelling_node_latitude[p],g.modelling_node_longitude[p]); a.last= p==q? r.rnode[a.tail] : node_at(r,g.modelling_node_latitude[q-1],g.modelling_node_longitude[q-1]); v.push_back(a); } return v; }
static bool direction_fits(const Ref&r, uint64_t before, uint64_t via, uint64_t after, int dir){
	auto P=[&](uint64_t x){ return r.at.at(x); }; double a=atan2((double)(P(via)->lat-P(before)->lat),(double)(P(via)->lon-P(before)->lon)), b=atan2((double)(P(after)->lat-P(via)->lat),(double)(P(after)->lon-P(via)->lon)); double d=(b-a)*180/M_PI; while(d<0) d+=360; while(d>=360) d-=360;
	return dir==0? d>45&&d<135 : dir==1? d>225&&d<315 : dir==2? d<60||d>300 : d>120&&d<240;
}
// false: not specified for this map
static bool ref_forbidden(const std::vector<RT>&rs, const std::vector<GArc>&A, const Ref&r, std::set<std::pair<unsigned,unsigned>>&out){
	auto loc=[](const std::vector<uint64_t>&v, uint64_t x){ auto i=std::lower_bound(v.begin(),v.end(),x); return i!=v.end()&&*i==x?(unsigned)(i-v.begin()):~0u; };
	for(auto x:rs){
		unsigned f=loc(r.rway,x.from), t=loc(r.rway,x.to); if(f==~0u||t==~0u) continue;
		unsigned via;
		if(x.via!=~0ull){ via=loc(r.rnode,x.via); if(via==~0u) continue; }
		else if(x.mandatory&&f==t){ // go straight on along the way, at every inner node, in both directions
			for(unsigned i=0;i<A.size();++i) if(A[i].way==f){ std::vector<unsigned> next; for(unsigned j=0;j<A.size();++j) if(A[j].way==f&&A[j].anti==A[i].anti&&A[j].tail==A[i].head) next.push_back(j); unsigned into=0; for(unsigned j=0;j<A.size();++j) if(A[j].way==f&&A[j].anti==A[i].anti&&A[j].head==A[i].head) ++into;
				if(next.size()>1||into>1||x.dir!=2) return false; if(next.empty()) continue; for(unsigned j=0;j<A.size();++j) if(A[j].tail==A[i].head&&j!=next[0]) out.insert({i,j}); }
			continue;
		}else{ std::set<unsigned> in, meet; for(auto&a:A) if(a.way==f) in.insert(a.head); for(auto&a:A) if(a.way==t&&in.count(a.tail)) meet.insert(a.tail); if(meet.size()!=1) continue; via=*meet.begin(); }
		std::vector<unsigned> from,to; for(unsigned i=0;i<A.size();++i){ if(A[i].way==f&&A[i].head==via) from.push_back(i); if(A[i].way==t&&A[i].tail==via) to.push_back(i); }
		if(from.empty()||to.empty()) continue;
		std::vector<std::pair<unsigned,unsigned>> fit;
		if(from.size()==1&&to.size()==1) fit.push_back({from[0],to[0]}); else for(unsigned a:from) for(unsigned b:to) if(direction_fits(r,A[a].last,r.rnode[via],A[b].first,x.dir)) fit.push_back({a,b});
		if(fit.size()!=1) continue;
		if(!x.mandatory) out.insert(fit[0]); else for(unsigned j=0;j<A.size();++j) if(A[j].tail==via&&j!=fit[0].second) out.insert({fit[0].first,j});
	}
	return true;
}
static void judge_turns(Ctx&c, const Map&m, const std::string&file, bool all, bool light=false){
	auto r=reference(m,{},all); auto map=get_mapping(c,m,file,{},all,false);
	std::vector<RT> rs; for(auto&x:m.r){ auto d=ref_decode(T(x.tags.begin(),x.tags.end()),x.m); rs.insert(rs.end(),d.begin(),d.end()); }
	for(int geo=0;geo<(light?1:3);++geo){
		auto g=get_graph(c,m,file,map,r,GEOS[geo],false,true); c.note=vx::fmt("geometry %d: ",geo); if(geo==0) judge_graph(c,g,r,GEOS[0]);
		auto A=garcs(c,geo==2?get_graph(c,m,file,map,r,GEOS[0],false,false):g,r); std::set<std::pair<unsigned,unsigned>> want; bool spec=ref_forbidden(rs,A,r,want);
		c.eqs((unsigned)g.forbidden_turn_from_arc.size(),(unsigned)g.forbidden_turn_to_arc.size(),"lengths of the forbidden turn vectors");
		std::vector<std::pair<unsigned,unsigned>> got; for(unsigned i=0;i<g.forbidden_turn_from_arc.size();++i) got.push_back({g.forbidden_turn_from_arc[i],g.forbidden_turn_to_arc[i]});
		for(unsigned i=0;i<got.size();++i){ c.expect(got[i].first<A.size()&&got[i].second<A.size(),"forbidden turn with an arc out of range"); c.expect(A[got[i].first].head==A[got[i].second].tail,"forbidden turn of arcs that do not meet"); if(i) c.expect(got[i-1]<got[i],"forbidden turns are not strictly ascending"); }
		if(spec){ ++c.states; std::vector<std::pair<unsigned,unsigned>> w(want.begin(),want.end()); auto tx=[&](std::pair<unsigned,unsigned> p){ return vx::fmt("(arc %u: %llu->%llu way %llu, arc %u: %llu->%llu way %llu)",p.first,(unsigned long long)r.rnode[A[p.first].tail],(unsigned long long)r.rnode[A[p.first].head],(unsigned long long)r.rway[A[p.first].way],p.second,(unsigned long long)r.rnode[A[p.second].tail],(unsigned long long)r.rnode[A[p.second].head],(unsigned long long)r.rway[A[p.second].way]); };
			for(auto&p:w) if(!std::binary_search(got.begin(),got.end(),p)) c.fail("missing forbidden turn "+tx(p)); for(auto&p:got) if(!want.count(p)) c.fail("unexpected forbidden turn "+tx(p)); }
		c.note="";
	}
	if(light){ ++c.traces; return; }
	// the simple loader shows the same turns
	auto g=simple_load_osm_car_routing_graph_from_pbf(file,some_log(m,all),all); ++c.transitions;
	{ auto h=get_graph(c,m,file,map,r,GEOS[1],false,true); Map m2=m; bool same=true; for(auto&w:m2.w){ T t(w.tags.begin(),w.tags.end()); if(!ref_car(t)||ref_car_dir(t)!=w.dir) same=false; } if(same){ c.eqs(g.forbidden_turn_from_arc,h.forbidden_turn_from_arc,"forbidden turns of the simple loader (from)"); c.eqs(g.forbidden_turn_to_arc,h.forbidden_turn_to_arc,"forbidden turns of the simple loader (to)"); } }
	++c.traces;
}
static void give_oneway_tags(Map&m){ for(auto&w:m.w){ T t(w.tags.begin(),w.tags.end()); if(w.dir==Dir::only_open_forwards) t["oneway"]="yes"; if(w.dir==Dir::only_open_backwards) t["oneway"]="-1"; w.tags=to_tags(t); } }
static const char*DN[]={"left_turn","right_turn","straight_on","u_turn"};
static Suite s_turns(){
	Suite s; s.name="single_restriction"; s.bounds=vx::fmt("%zu crossings (one-way and two-way arms, loops, shared arms, ways meeting twice) x prohibition or mandate x 4 directions x every pair of ways and one unknown way x every node, an absent node or none as via node x all nodes as routing nodes or not",CR().size());
	auto sizes=[]{ std::vector<uint64_t> v; for(auto&m:CR()) v.push_back((uint64_t)8*(m.w.size()+1)*(m.w.size()+1)*10*2); return v; }; static const auto Z=sizes(); s.count=0; for(auto z:Z) s.count+=z;
	auto dec=[](uint64_t x, bool&all){ unsigned k=0; while(x>=Z[k]) x-=Z[k++]; Map m=CR()[k]; Dec q(x); unsigned n=m.w.size()+1; bool man=q.get(2); unsigned d=q.get(4), f=q.get(n), t=q.get(n), v=q.get(10); all=q.get(2); auto wid=[&](unsigned i)->uint64_t{ return i<m.w.size()?m.w[i].id:999; }; Rel r; r.id=50; r.tags={{"type","restriction"},{"restriction",std::string(man?"only_":"no_")+DN[d]}}; r.m.push_back({1,wid(f),"from"}); if(v<9) r.m.push_back({0,v+1ull,"via"}); r.m.push_back({1,wid(t),"to"}); m.r.push_back(r); give_oneway_tags(m); return m; };
	s.run=[dec](uint64_t x, Ctx&c){ bool all; Map m=dec(x,all); pbf::MemFile f(file_of(objects(m))); judge_turns(c,m,f.name,all); }; s.describe=[dec](uint64_t x){ bool all; Map m=dec(x,all); return show(m)+(all?" all nodes":""); }; return s;
}
static Suite s_turns2(){
	Suite s; s.name="restriction_pairs"; bool a=vx::opt().asan()&&!vx::opt().thorough(); static std::vector<unsigned> ms; ms= a?std::vector<unsigned>{1}:std::vector<unsigned>{0,1,3}; unsigned v=2;
	s.bounds=vx::fmt("%zu crossings x all pairs of restrictions (prohibition or mandate x 4 directions x pairs of the first two or four ways x via node given or not), in both orders of relations",ms.size());
	auto R=[](const Map&m, unsigned y){ Dec q(y); unsigned n=m.w.size(); bool man=q.get(2); unsigned d=q.get(4), f=q.get(n), t=q.get(n); bool via=q.get(2); Rel r; r.tags={{"restriction",std::string(man?"only_":"no_")+DN[d]}}; r.m.push_back({1,m.w[t].id,"to"}); if(via) r.m.push_back({0,1,"via"}); r.m.push_back({1,m.w[f].id,"from"}); return r; };
	static std::vector<uint64_t> Z; Z.clear(); s.count=0; for(unsigned k:ms){ uint64_t n=CR()[k].w.size(); uint64_t z=8*n*n*v; Z.push_back(z*z); if(k==0) Z.back()=z*16; s.count+=Z.back(); }
	auto dec=[R](uint64_t x){ unsigned k=0; while(x>=Z[k]) x-=Z[k++]; Map m=CR()[ms[k]]; uint64_t z=16*m.w.size()*m.w.size(); Rel a=R(m,x%z), b=R(m,(x/z)*(ms[k]==0?16:1)%z); a.id=5; b.id=6; m.r={a,b}; give_oneway_tags(m); return m; };
	s.run=[dec](uint64_t x, Ctx&c){ Map m=dec(x); pbf::MemFile f(file_of(objects(m))); judge_turns(c,m,f.name,false); }; s.describe=[dec](uint64_t x){ return show(dec(x)); }; return s;
}
static Suite s_turns3(){
	Suite s; s.name="multiple_members"; s.bounds="the four arm crossing x every member list of three members (from, to or via x five ways or nodes) x 4 restriction values, with a second, independent restriction present that must not be disturbed"; s.count=15*15*15*4;
	auto dec=[](uint64_t x){ Map m=CR()[0]; Dec q(x); static const char*rv[]={"no_left_turn","only_left_turn","no_entry","only_straight_on"}; Rel r; r.id=5; r.tags={{"restriction",rv[q.get(4)]}}; for(int i=0;i<3;++i){ unsigned y=q.get(15); if(y<5) r.m.push_back({1,y<4?m.w[y].id:888,"from"}); else if(y<10) r.m.push_back({1,y-5<4?m.w[y-5].id:888,"to"}); else if(y<13) r.m.push_back({0,y-9ull,"via"}); else if(y==13) r.m.push_back({1,m.w[0].id,"via"}); else r.m.push_back({2,1,"from"}); } Rel o; o.id=6; o.tags={{"restriction","no_right_turn"}}; o.m={{1,m.w[1].id,"from"},{0,1,"via"},{1,m.w[2].id,"to"}}; m.r={r,o}; if(x%2) std::swap(m.r[0],m.r[1]); return m; };
	s.run=[dec](uint64_t x, Ctx&c){ Map m=dec(x); pbf::MemFile f(file_of(objects(m))); judge_turns(c,m,f.name,false); }; s.describe=[dec](uint64_t x){ return show(dec(x)); }; if(vx::opt().asan()&&!vx::opt().thorough()) s.count/=4, s.bounds+=" (one restriction value)"; return s;
}
static Suite s_turns4(){
	Suite s; s.name="derived_via_nodes"; bool a=vx::opt().asan()&&!vx::opt().thorough(); static unsigned orders, dirs; orders=a?1:(vx::opt().thorough()?4:2); dirs=a?2:3; static const unsigned step= a?5:1;
	s.bounds=vx::fmt("%s map of four ways of two out of four nodes x %u assignments of directions x every pair of ways as prohibition or straight mandate without via node, all of them in one map in %u orders",a?"every fifth":"every",dirs,orders); s.count=(20736+step-1)/step*orders*dirs;
	auto dec=[](uint64_t x){ Dec q(x); unsigned o=q.get(orders), di=q.get(dirs); uint64_t w=q.v*step; Map m; const int64_t d=1000000; m.n={{1,5*d,5*d,{}},{2,5*d,7*d,{}},{3,8*d,6*d,{}},{4,6*d,9*d,{}}}; Dec p(w);
		for(unsigned i=0;i<4;++i){ uint64_t u=p.get(4)+1, v=p.get(3)+1; if(v>=u) ++v; Dir k= di==0?Dir::only_open_forwards:(di==1?(i%2?Dir::only_open_forwards:Dir::open_in_both):(i%2?Dir::only_open_backwards:Dir::only_open_forwards)); m.w.push_back({20+i,{u,v},k,true,{{"highway","primary"}}}); }
		for(unsigned k=0;k<16;++k){ unsigned y= o==0?k:(o==1?15-k:(o==2?(k*5)%16:(k*11+3)%16)); Rel r; r.id=5+k; bool man=y/4==y%4; r.tags={{"restriction",man?"only_straight_on":"no_left_turn"}}; r.m={{1,20ull+y/4,"from"},{1,20ull+y%4,"to"}}; m.r.push_back(r); } give_oneway_tags(m); return m; };
	s.run=[dec](uint64_t x, Ctx&c){ Map m=dec(x); pbf::MemFile f(file_of(objects(m))); judge_turns(c,m,f.name,false,true); }; s.describe=[dec](uint64_t x){ return show(dec(x)); }; return s;
}
static Suite s_turn_ids(){
	Suite s; s.name="large_ids"; s.bounds="seven crossings with node ids, way ids or both above 2^32 x a prohibition and a mandate for every pair of ways and every direction in one map; other nodes and ways have the same lower 32 bits"; s.count=7*3; s.chunk=1; s.case_timeout=200; static const uint64_t G=1ull<<32;
	auto dec=[](uint64_t x){ Map m=CR()[x%7]; unsigned how=x/7+1; uint64_t gn=how&1?G:0, gw=how&2?G:0; for(auto&n:m.n) n.id+=gn; for(auto&w:m.w){ for(auto&y:w.nodes) y+=gn; w.id+=gw; }
		auto real=m; if(gn){ for(uint64_t i=1;i<=3;++i) m.n.push_back({i,(int64_t)i*50000000,(int64_t)3000000000,{}}); m.w.push_back({900,{1,2,3},Dir::open_in_both,true,{{"highway","primary"}}}); } if(gw){ m.n.push_back({70,90000000,5000000000,{}}); m.n.push_back({71,91000000,5000000000,{}}); for(auto&w:real.w) m.w.push_back({w.id-G,{70,71},Dir::open_in_both,true,{{"highway","primary"}}}); }
		uint64_t id=5; for(unsigned f=0;f<real.w.size();++f) for(unsigned t=0;t<real.w.size();++t) for(unsigned d=0;d<4;++d){ Rel r; r.id=gw+id++; r.tags={{"restriction",std::string((f+t+d)%2?"no_":"only_")+DN[d]}}; r.m={{1,real.w[f].id,"from"},{0,real.n[0].id,"via"},{1,real.w[t].id,"to"}}; m.r.push_back(r); }
		std::sort(m.w.begin(),m.w.end(),[](const Way&a,const Way&b){ return a.id<b.id; }); std::sort(m.n.begin(),m.n.end(),[](const Node&a,const Node&b){ return a.id<b.id; }); give_oneway_tags(m); return m; };
	s.run=[dec](uint64_t x, Ctx&c){ Map m=dec(x); pbf::MemFile f(file_of(objects(m))); judge_turns(c,m,f.name,false,true); }; s.describe=[dec](uint64_t x){ return show(dec(x)); }; return s;
}
static Suite s_turn_many(){
	Suite s; s.name="beyond_16_bits"; s.bounds="a chain of n ways with a restriction at every node (prohibited u-turn, prohibited or demanded straight on, with via node, in four orders of the relations), n of 32767..32769, 65535..65537 and 70000"; static const unsigned ns[]={32767,32768,32769,65535,65536,65537,70000}; s.count=7*4; s.chunk=1; s.case_timeout=300;
	s.run=[](uint64_t x, Ctx&c){ unsigned n=ns[x%7], o=x/7; Map m; for(unsigned i=0;i<=n;++i) m.n.push_back({i+1,(int64_t)(i%2)*1000000,(int64_t)i*2000000-70000000000LL,{}}); for(unsigned i=0;i<n;++i) m.w.push_back({i+1,{i+1ull,i+2ull},Dir::open_in_both,true,{{"highway","primary"}}});
		for(unsigned j=0;j+1<n;++j){ unsigned i= o==0?j: o==1?n-2-j: o==2?(unsigned)((uint64_t)j*7919%(n-1)):(unsigned)((uint64_t)j*104729%(n-1)); Rel r; r.id=j+1; r.tags={{"restriction",i%3==0?"no_u_turn":i%3==1?"no_straight_on":"only_straight_on"}}; r.m={{1,i+1ull,"from"},{0,i+2ull,"via"},{1,i%3==0?i+1ull:i+2ull,"to"}}; m.r.push_back(r); }
		auto r=reference(m,{},false); pbf::Style st; st.dense=true; pbf::MemFile f(file_of(objects(m),8000,st)); auto map=get_mapping(c,m,f.name,{},false,false); auto g=get_graph(c,m,f.name,map,r,GEOS[2],false,true); judge_graph(c,g,r,GEOS[2]); auto t=tails(g); c.eqs(g.node_count(),n+1,"nodes");
		std::set<std::pair<unsigned,unsigned>> want; auto arc=[&](unsigned a, unsigned b){ for(unsigned e=g.first_out[a];e<g.first_out[a+1];++e) if(g.head[e]==b) return e; return ~0u; };
		for(unsigned i=0;i+1<n;++i){ unsigned a=arc(i,i+1); if(i%3==1) want.insert({a,arc(i+1,i+2)}); else want.insert({a,arc(i+1,i)}); }
		std::vector<std::pair<unsigned,unsigned>> got, w(want.begin(),want.end()); for(unsigned i=0;i<g.forbidden_turn_from_arc.size();++i) got.push_back({g.forbidden_turn_from_arc[i],g.forbidden_turn_to_arc[i]}); c.states+=w.size(); c.eqs((unsigned)g.forbidden_turn_to_arc.size(),(unsigned)w.size(),"number of forbidden turns"); for(unsigned i=0;i<w.size();++i) if(got[i]!=w[i]) c.fail(vx::fmt("forbidden turn %u is (%u,%u) instead of (%u,%u)",i,got[i].first,got[i].second,w[i].first,w[i].second)); ++c.traces; };
	s.describe=[](uint64_t x){ return vx::fmt("n %u order %u",ns[x%7],(unsigned)(x/7)); }; return s;
}
static Suite s_angles(){
	Suite s; s.name="turn_angles"; static const std::vector<int> A={44,46,59,61,119,121,134,136,224,226,239,241,299,301,314,316,0,20,30,52,75,90,105,128,180,200,270,345}; static const unsigned n=A.size();
	s.bounds=vx::fmt("a road into a crossing and a way with two arms at every pair of %u angles (one degree on both sides of every limit, and others), passing or turning around x prohibition or mandate x 4 directions; the arms of the first way bent so that only the part next to the crossing counts",n); s.count=n*n*8*2;
	auto dec=[](uint64_t x){ Dec q(x); int a=A[q.get(n)], b=A[q.get(n)]; bool man=q.get(2); unsigned d=q.get(4); bool first=q.get(2); Map m; const int64_t u=1000000; auto at=[&](uint64_t id, double r, double deg){ m.n.push_back({id,5*u+(int64_t)llround(r*sin(deg*M_PI/180)*1e4)*100,5*u+(int64_t)llround(r*cos(deg*M_PI/180)*1e4)*100,{}}); };
		m.n.push_back({1,5*u,5*u,{}}); at(2,1,180); at(3,2,a); at(4,2.5,b); at(5,5,a+77); at(6,6,b-60); at(7,7,100);
		// way 20 leads east into the crossing; way 30 has two arms
		m.w={{20,{7,2,1},Dir::only_open_forwards,true,{{"highway","primary"}}},{30,{5,3,1,4,6},Dir::open_in_both,true,{{"highway","primary"}}}}; if(first){ m.w[0].nodes={1,2,7}; m.w[0].dir=Dir::only_open_backwards; }
		Rel r; r.id=1; r.tags={{"restriction",std::string(man?"only_":"no_")+DN[d]}}; r.m={{1,20,"from"},{0,1,"via"},{1,30,"to"}}; m.r={r}; give_oneway_tags(m); return m; };
	s.run=[dec](uint64_t x, Ctx&c){ Map m=dec(x); pbf::MemFile f(file_of(objects(m))); judge_turns(c,m,f.name,false); }; s.describe=[dec](uint64_t x){ Dec q(x); int a=A[q.get(n)], b=A[q.get(n)]; return vx::fmt("arms at %d and %d degrees, ",a,b)+show(dec(x)); }; return s;
}
static void make(std::vector<Suite>&v, const std::string&p){
	if(p=="C25"){ v={s_one(),s_two(),s_three(),s_demand(),s_order(),s_big(),s_simple(),s_ordered()}; if(!vx::opt().asan()) { v.push_back(s_large_ids()); v.push_back(s_wide()); } }
	if(p=="C26") v={s_decode(),s_turns(),s_turns2(),s_turns3(),s_turns4(),s_angles()}; if(p=="C26"&&!vx::opt().asan()){ v.push_back(s_turn_ids()); v.push_back(s_turn_many()); }
	if(p=="C27"){
		std::vector<std::string> acc={"yes","permissive","delivery","designated","destination","agricultural","forestry","public","no","private",""};
		std::vector<std::string> ow={"yes","true","1","no","false","0","-1","reverse","backward","reversible","alternating","perhaps",""};
		v={ product("car_access",{{"highway",HW},{"junction",{"roundabout","x"}},{"route",{"ferry","bus"}},{"ferry",{"yes","ferry","no"}},{"motorcar",{"no","yes"}},{"motor_vehicle",{"no","yes"}},{"access",acc},{"oneway",{"reversible","alternating","yes"}},{"maxspeed",{"50"}}},P_CAR),
			product("car_direction",{{"oneway",ow},{"junction",{"roundabout","circular",""}},{"highway",{"motorway","motorway_link","trunk","primary",""}},{"oneway:bicycle",{"yes"}}},P_DIR),
			product("bicycle_access",{{"highway",HW},{"junction",{"roundabout"}},{"route",{"ferry","bus"}},{"ferry",{"yes","ferry"}},{"access",acc},{"bicycle",{"no","use_sidepath","yes","dismount"}},{"cycleway",{"lane","no"}},{"cycleway:left",{"lane"}},{"cycleway:right",{"lane"}},{"cycleway:both",{"lane"}}},P_BIKE|P_COMF),
			product("bicycle_direction",{{"oneway",ow},{"oneway:bicycle",{"-1","opposite","1","yes","true","no_planned","0","no","false","tolerated","permissive","perhaps",""}},{"cycleway",{"opposite","opposite_track","opposite_lane","opposite_share_busway","lane",""}},{"cycleway:both",{"no"}},{"cycleway:left",{"lane"}},{"cycleway:right",{"lane"}},{"highway",{"motorway","residential"}}},P_BDIR),
			product("comfort",{{"highway",HW},{"cycleway",{"track","lane","opposite",""}},{"bicycle",{"dismount","yes","no"}},{"oneway",{"yes"}}},P_COMF),
			product("pedestrian_access",{{"highway",HW},{"junction",{"roundabout"}},{"route",{"ferry","bus"}},{"ferry",{"yes","ferry"}},{"public_transport",{"stop_position","platform","stop_area","station","x"}},{"railway",{"halt","platform","subway_entrance","station","tram_stop","rail"}},{"access",acc},{"crossing",{"no","zebra"}}},P_PED),
			product("names",{{"name",{"","a","Am Weg; 5"}},{"ref",{"","A 5"}},{"highway",{"primary"}},{"int_name",{"x"}}},P_NAME),
			s_speed(), s_numbers(), s_times() };
	}
}
int main(int argc,char**argv){ if(argc<2) return 2; std::string p=argv[1]; return vx::run_all(argc-1,argv+1,p,make); }
