// C21 nearest node and range queries of GeoPositionToNode, geo_dist, against direct search with long double distances.
#include "vx.h"
#include <routingkit/geo_position_to_node.h>
#include <routingkit/geo_dist.h>
#include <memory>
#include <math.h>
using namespace RoutingKit; using vx::fmt; using vx::Ctx; using vx::Suite; using vx::str;
namespace{
struct P{ float lat,lon; };
bool is_number(double d){ uint64_t b; memcpy(&b,&d,8); return (b>>52&0x7ff)!=0x7ff; }       // -ffast-math removes ordinary tests
bool is_number(float d){ uint32_t b; memcpy(&b,&d,4); return (b>>23&0xff)!=0xff; }
const long double PI=3.14159265358979323846264338327950288L, R=6371000.785L;
// great circle distance by the angle between unit vectors (atan2 of cross and dot product: accurate everywhere)
long double ref_dist(P a, P b){
	long double la=a.lat*PI/180,lb=b.lat*PI/180,dl=((long double)a.lon-b.lon)*PI/180;
	long double x=cosl(lb)*sinl(dl),y=cosl(la)*sinl(lb)-sinl(la)*cosl(lb)*cosl(dl),z=sinl(la)*sinl(lb)+cosl(la)*cosl(lb)*cosl(dl);
	return R*atan2l(sqrtl(x*x+y*y),z);
}
std::string ps(P p){ return fmt("(%.9g,%.9g)",p.lat,p.lon); }
std::string ps(const std::vector<P>&v){ std::string r; for(auto&p:v) r+=ps(p); return r; }
const double exact_tol=0.5; // metres; acos near 1 in double precision loses 0.1 m
void dist_case(Ctx&c, P a, P b){
	c.note=ps(a)+" "+ps(b); double d=geo_dist(a.lat,a.lon,b.lat,b.lon),e=geo_dist(b.lat,b.lon,a.lat,a.lon); c.transitions+=2; ++c.traces; c.states+=4;
	if(!is_number(d)||!is_number(e)) c.fail("geo_dist is no number"); if(d<0) c.fail(fmt("geo_dist is %g",d)); if(fabs(d-e)>1e-3) c.fail(fmt("geo_dist is not symmetric: %.9g %.9g",d,e));
	long double w=ref_dist(a,b); if(fabsl(d-w)>exact_tol) c.fail(fmt("geo_dist is %.6f, the great circle distance is %.6Lf",d,w));
}
// rounding allowed for a tree over points whose distances are at most D: distances are compared as floats (relative 6e-8 each)
double tol_for(long double D){ return 0.6+4e-7*D; }
void tree_case(Ctx&c, const std::vector<P>&pt, const std::vector<P>&query, const std::vector<float>&radius){
	unsigned n=pt.size(); std::vector<float>lat,lon; for(auto&p:pt){ lat.push_back(p.lat); lon.push_back(p.lon); }
	std::string base=n>1000?fmt("%u points",n):"points "+ps(pt); if(base.size()>1500) base=base.substr(0,1500)+"..."; c.note=base; GeoPositionToNode g; { std::unique_ptr<GeoPositionToNode>t(new GeoPositionToNode(lat,lon)); switch(n%4){ case 0: if(n||query.size()%2) g=std::move(*t); break; case 1: g=*t; break; case 2:{ GeoPositionToNode u(*t); std::swap(g,u); break; } default:{ GeoPositionToNode u(std::move(*t)); g=u; } } } ++c.transitions; c.eqs(g.point_count(),n,"point_count"); std::vector<long double>w(n); long double spread=0; for(auto&p:pt) spread=std::max(spread,2*ref_dist(pt[0],p)); spread=std::min(spread,PI*R);
	for(auto&q:query){
		long double mn=1e30L,mx=0; for(unsigned i=0;i<n;++i){ w[i]=ref_dist(pt[i],q); mn=std::min(mn,w[i]); mx=std::max(mx,w[i]); } double tol=tol_for(std::max(spread,mx));
		for(float r:radius){
			c.note=base+fmt(" query (%.9g,%.9g) radius %g",q.lat,q.lon,r);
			auto x=g.find_nearest_neighbor_within_radius(q.lat,q.lon,r); ++c.transitions; c.states+=2; ++c.traces;
			if(x.id==invalid_id){ if(n && mn<=r-tol) c.fail(fmt("no point found but one is at %.3Lf m",mn)); }
			else{ if(x.id>=n) c.fail(fmt("id %u",x.id)); if(!is_number(x.distance)||fabsl(x.distance-w[x.id])>tol) c.fail(fmt("distance %.3f of point %u which is at %.3Lf m",x.distance,x.id,w[x.id])); if(w[x.id]>r+tol) c.fail(fmt("point %u at %.3Lf m is outside the radius",x.id,w[x.id])); if(w[x.id]>mn+tol) c.fail(fmt("point %u at %.3Lf m returned but the nearest is at %.3Lf m",x.id,w[x.id],mn)); }
			auto all=g.find_all_nodes_within_radius(q.lat,q.lon,r); ++c.transitions; std::vector<char>seen(n,0);
			for(auto&y:all){ ++c.states; if(y.id>=n) c.fail(fmt("range query: id %u",y.id)); if(seen[y.id]) c.fail(fmt("range query: point %u twice",y.id)); seen[y.id]=1; if(!is_number(y.distance)||fabsl(y.distance-w[y.id])>tol) c.fail(fmt("range query: distance %.3f of point %u which is at %.3Lf m",y.distance,y.id,w[y.id])); if(w[y.id]>r+tol) c.fail(fmt("range query: point %u at %.3Lf m is outside the radius",y.id,w[y.id])); }
			for(unsigned i=0;i<n;++i) if(!seen[i] && w[i]<=r-tol) c.fail(fmt("range query: point %u at %.3Lf m is missing",i,w[i]));
		}
	}
}
const float LATS[]={-90,-89.99999f,-66.5f,-45.3f,-1e-5f,0,1e-5f,12.3456f,49.0068f,49.0069f,89.9f,89.99999f,90};
const float LONS[]={-180,-179.99999f,-122.4194f,-90,-1e-5f,0,8.4037f,8.4038f,45,90,179.99998f,180};
P anti(P p){ P q; q.lat=-p.lat; q.lon=p.lon>0?p.lon-180:p.lon+180; return q; }
P shift(P p, float a, float b){ P q; q.lat=std::max(-90.f,std::min(90.f,p.lat+a)); q.lon=p.lon+b; if(q.lon>180) q.lon-=360; if(q.lon<-180) q.lon+=360; return q; }
struct Uni{ const char*name; std::vector<P>p; };
const std::vector<Uni>&universes(){
	static const std::vector<Uni>u={
		{"local",{{49.0068f,8.4037f},{49.0069f,8.4037f},{49.0068f,8.4052f},{49.02f,8.45f}}},
		{"date line",{{0,180},{0,-180},{10,179.9f},{10,-179.9f}}},
		{"poles",{{90,0},{90,120},{-90,-77},{89.9f,45}}},
		{"antipodes",{{20,30},{-20,-150},{-20.001f,-150.001f},{-20.02f,-149.9f}}},
		{"spread",{{0,0},{0,90},{45,-45},{-60,170}}},
		{"equator circle",{{0,0},{0,10},{0,-10},{10,0}}},
	}; return u;
}
const std::vector<float>RAD={0,1,30,400,20000,1500000,9000000,15000000,25000000,1e9f};
std::vector<P>queries_for(const std::vector<P>&p){ std::vector<P>q; for(auto&x:p){ q.push_back(x); q.push_back(anti(x)); q.push_back(shift(x,0.0007f,-0.0011f)); q.push_back(shift(x,-3.f,7.f)); } return q; }
unsigned lcg(unsigned&s){ s=s*1664525u+1013904223u; return s>>8; }
std::vector<P>family(unsigned kind, unsigned n){
	std::vector<P>v; unsigned s=kind*977+n+1;
	for(unsigned i=0;i<n;++i){ P p; unsigned a=lcg(s),b=lcg(s); switch(kind){
		case 0: p={49.f,8.4f}; break;                                                       // all the same
		case 1: p={0.f,-180.f+360.f*i/std::max(1u,n-1)}; break;                             // equator
		case 2: p={-90.f+180.f*i/std::max(1u,n-1),13.f}; break;                             // meridian
		case 3: p={89.f,-180.f+360.f*i/n}; break;                                           // circle around a pole
		case 4: { P q={48.5f+(a%1000)*0.0001f,9.f+(b%1000)*0.0001f}; p=i%2?anti(q):q; break; } // cluster and its antipodes
		case 5: p={-90.f+(a%1801)*0.1f,-180.f+(b%3601)*0.1f}; break;                        // everywhere
		case 6: p={49.f+(a%8)*0.001f,8.4f+(b%8)*0.001f}; break;                             // street grid with repetitions
		case 7: p={-17.f+(a%100)*0.01f,179.5f+(b%100)*0.01f}; if(p.lon>180) p.lon-=360; break; // across the date line
		case 8: p={i%2?0.f:0.f+i*1e-4f,i%3?20.f:20.f+i*1e-3f}; break;
		case 9: p={-33.f+(a%300)*0.0001f,-180.f+(b%300)*0.0001f}; break;                    // near -180
		case 10: p={i==0?33.f:-33.f+(a%100)*0.0005f,i==0?0.f:179.97f+(b%60)*0.0005f}; break; // pivot and a cluster at its antipode
		default: p={(float)(int(a%3)-1)*30,(float)(int(b%5)-2)*60}; } v.push_back(p); }
	return v;
}
const unsigned KINDS=12;
void make21(std::vector<Suite>&v){
	bool T=vx::opt().thorough(),A=vx::opt().asan();
	{ std::vector<P>g; for(float a:LATS) for(float b:LONS) g.push_back({a,b}); uint64_t N=g.size(); Suite s; s.name="distance_grid"; s.bounds=fmt("all ordered pairs of %u positions (poles, equator, date line, neighbours)",(unsigned)N); s.count=N*N; s.describe=[=](uint64_t i){ return ps(g[i/N])+ps(g[i%N]); }; s.run=[=](uint64_t i, Ctx&c){ dist_case(c,g[i/N],g[i%N]); }; v.push_back(s); }
	{ unsigned N=A?3600:(T?360000:72000); Suite s; s.name="distance_sweep"; s.bounds=fmt("%u latitudes from pole to pole, each against itself, its antipode and 6 neighbours",N+1); s.count=N+1; s.describe=[=](uint64_t i){ return fmt("latitude %g",-90+180.0*i/N); }; s.run=[=](uint64_t i, Ctx&c){ P p={float(-90+180.0*i/N),float(-180+(i*7919%360000)*0.001)}; dist_case(c,p,p); dist_case(c,p,anti(p)); for(float d:{1e-5f,1e-3f,0.7f}){ dist_case(c,p,shift(p,d,0)); dist_case(c,p,shift(p,0,d)); } }; v.push_back(s); }
	for(unsigned u=0;u<universes().size();++u){ auto U=universes()[u].p; unsigned k=U.size();
		{ unsigned L=A?3:4; uint64_t E=0; for(unsigned l=0;l<=L;++l) E+=vx::ipow(k,l); Suite s; s.name=fmt("few_points_%u",u); s.bounds=fmt("every sequence of up to %u points of the universe '%s', every query, %zu radii",L,universes()[u].name,RAD.size()); s.count=E; auto dec=[=](uint64_t e){ unsigned l=0; while(e>=vx::ipow(k,l)){ e-=vx::ipow(k,l); ++l; } std::vector<P>r; vx::Dec d(e); for(unsigned i=0;i<l;++i) r.push_back(U[d.get(k)]); return r; }; s.describe=[=](uint64_t i){ return ps(dec(i)); }; s.run=[=](uint64_t i, Ctx&c){ tree_case(c,dec(i),queries_for(U),RAD); }; v.push_back(s); }
		{ unsigned L=9, kk=A?2:(T?4:3); Suite s; s.name=fmt("one_split_%u",u); s.bounds=fmt("every sequence of %u points (one inner node) out of the first %u positions of the universe '%s', every query, %zu radii",L,kk,universes()[u].name,RAD.size()); s.count=vx::ipow(kk,L); auto dec=[=](uint64_t e){ std::vector<P>r; vx::Dec d(e); for(unsigned i=0;i<L;++i) r.push_back(U[d.get(kk)]); return r; }; s.describe=[=](uint64_t i){ return ps(dec(i)); }; s.run=[=](uint64_t i, Ctx&c){ tree_case(c,dec(i),queries_for(U),RAD); }; v.push_back(s); }
		{ unsigned L=18, D=T?4:3; if(A) D=2; std::vector<std::vector<unsigned>>sets; // L points, at most D of them differ from a periodic filling
		  std::function<void(unsigned,std::vector<unsigned>&)>rec=[&](unsigned from, std::vector<unsigned>&cur){ sets.push_back(cur); if(cur.size()<2*D) for(unsigned i=from;i<L;++i) for(unsigned x=1;x<k;++x){ cur.push_back(i); cur.push_back(x); rec(i+1,cur); cur.pop_back(); cur.pop_back(); } }; std::vector<unsigned>cur; rec(0,cur);
		  auto S=std::make_shared<std::vector<std::vector<unsigned>>>(sets); Suite s; s.name=fmt("two_levels_%u",u); s.bounds=fmt("every sequence of %u points (two levels of inner nodes) of the universe '%s' with at most %u points away from the first position",L,universes()[u].name,D); s.count=S->size(); auto dec=[=](uint64_t e){ std::vector<P>r(L,U[0]); auto&x=(*S)[e]; for(unsigned i=0;i<x.size();i+=2) r[x[i]]=U[x[i+1]]; return r; }; s.describe=[=](uint64_t i){ return ps(dec(i)); }; s.run=[=](uint64_t i, Ctx&c){ tree_case(c,dec(i),queries_for(U),{0,30,20000,15000000,1e9f}); }; v.push_back(s); }
	}
	if(!A){ static const unsigned ns[]={4097,65535,65536,65537,131075}; unsigned K=T?5:4; Suite s; s.name="many_points"; s.bounds=fmt("%u families with 4097..%u points, queries at and around 12 of them",KINDS,ns[K-1]); s.count=KINDS*K; s.chunk=1; s.case_timeout=120; s.describe=[=](uint64_t i){ return fmt("kind %u n %u",(unsigned)(i%KINDS),ns[i/KINDS]); }; s.run=[=](uint64_t i, Ctx&c){ auto p=family(i%KINDS,ns[i/KINDS]); std::vector<P>q; for(unsigned j=0;j<3;++j) q.push_back(p[(p.size()-1)*j/2]); tree_case(c,p,queries_for(q),{30,20000,1e9f}); }; v.push_back(s); }
	{ unsigned N=A?40:(T?600:250); Suite s; s.name="families"; s.bounds=fmt("%u families of point sets (line, circle, grid, clusters, antipodes, date line, repetitions), every size up to %u, queries at and around every point and antipode (up to 60 points)",KINDS,N); s.count=(N+1)*KINDS; s.describe=[=](uint64_t i){ return fmt("kind %u n %u",(unsigned)(i%KINDS),(unsigned)(i/KINDS)); }; s.run=[=](uint64_t i, Ctx&c){ auto p=family(i%KINDS,i/KINDS); std::vector<P>q; unsigned st=1+p.size()/60; for(unsigned j=0;j<p.size();j+=st) q.push_back(p[j]); if(q.empty()) q.push_back({0,0}); tree_case(c,p,queries_for(q),{1,400,20000,1500000,15000000,1e9f}); }; v.push_back(s); }
}
}
int main(int argc, char**argv){ if(argc<2) return 2; std::string p=argv[1]; return vx::run_all(argc-1,argv+1,p,[](std::vector<Suite>&v, const std::string&p){ if(p=="C21") make21(v); }); }
