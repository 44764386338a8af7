// C23 decoding of well-formed OSM PBF files, C24 malformed ones, C30 wire format primitives
#include "vx.h"
#include "pbf.h"
#include "protobuf.h"
#include <routingkit/osm_decoder.h>
#include <math.h>
using namespace RoutingKit; using vx::fmt; using vx::Ctx; using vx::Suite; using vx::str; using namespace pbf;

// ---- environment under control: answers of the file, content of fresh memory
static struct{ bool on; size_t step; long fail_after; size_t given; unsigned hits; } g_io={false,0,-1,0,0};
extern "C" ssize_t read(int fd, void*buf, size_t n){
	if(!g_io.on) return syscall(SYS_read,fd,buf,n);
	++g_io.hits; if(g_io.fail_after>=0 && (long)g_io.given>=g_io.fail_after){ errno=EIO; return -1; }
	if(g_io.step && n>g_io.step) n=g_io.step; if(g_io.fail_after>=0) n=std::min<size_t>(n,g_io.fail_after-g_io.given); ssize_t k=syscall(SYS_read,fd,buf,n); if(k>0) g_io.given+=k; return k;
}
static int g_fill=-1;
#ifndef __SANITIZE_ADDRESS__
void*operator new[](std::size_t n){ void*p=malloc(n?n:1); if(!p) throw std::bad_alloc(); if(g_fill>=0 && n>(1<<20)) memset(p,g_fill,4096); return p; }
void operator delete[](void*p)noexcept{ free(p); }
void operator delete[](void*p, std::size_t)noexcept{ free(p); }
#endif
namespace{
struct Outcome{ bool threw=false; std::string what; Recorder rec; };
Outcome run(const B&content, unsigned mode, unsigned subset){ // mode 0 unordered, 1 ordered, 2 ordered and declared so; subset: bits n w r
	Outcome o; MemFile f(content); std::function<void(uint64_t,double,double,const TagMap&)>n; std::function<void(uint64_t,const std::vector<uint64_t>&,const TagMap&)>w; std::function<void(uint64_t,const std::vector<OSMRelationMember>&,const TagMap&)>r; if(subset&1) n=o.rec.node(); if(subset&2) w=o.rec.way(); if(subset&4) r=o.rec.relation();
	try{ if(mode==0) unordered_read_osm_pbf(f.name,n,w,r); else ordered_read_osm_pbf(f.name,n,w,r,[](const std::string&){},mode==2); }catch(std::exception&e){ o.threw=true; o.what=e.what(); }
	return o;
}
std::vector<Obj>filter(const std::vector<Obj>&v, unsigned mode, unsigned subset){ std::vector<Obj>r; auto in=[&](char k){ return subset>>(k=='n'?0:(k=='w'?1:2))&1; }; if(mode==0||mode==2){ for(auto&o:v) if(in(o.kind)) r.push_back(o); } else for(char k:{'n','w','r'}) for(auto&o:v) if(o.kind==k&&in(k)) r.push_back(o); return r; }
const std::string LONG(130,'L');
std::vector<Obj>alphabet(){
	return {
		{'n',1,490068000,84037000,{},{},{}},
		{'n',5000000001ull,-900000000000ll/10,1800000000000ll/10,{{"highway","crossing"},{"name",LONG}},{},{}},
		{'n',(1ull<<62)+3,12345600,-98765400,{{"x",""}},{},{}},
		{'w',7,0,0,{},{1,5000000001ull,1},{}},
		{'w',1ull<<40,0,0,{{"highway","primary"},{"name","x"},{"oneway","yes"}},{(1ull<<62)+3,2},{}},
		{'w',3,0,0,{{"name","a"}},{},{}},
		{'r',9,0,0,{{"type","restriction"}},{},{{1,7,"from"},{0,1,"via"},{1,1ull<<40,"to"},{2,9,""}}},
		{'r',2,0,0,{},{},{}},
	};
}
bool ordered_file(const std::vector<Obj>&v){ int l=0; for(auto&o:v){ int k=o.kind=='n'?0:(o.kind=='w'?1:2); if(k<l) return false; l=k; } return true; }
std::vector<Block> layout(const std::vector<Obj>&v, unsigned cuts){ // base 3 digit between neighbours: same group, new group, new block
	std::vector<Block>b; for(unsigned i=0;i<v.size();++i){ unsigned d=i?cuts%3:2; if(i) cuts/=3; if(d==0&&v[i-1].kind!=v[i].kind) d=1; if(d==2) b.push_back(Block()); if(d>=1) b.back().g.push_back(Group()); b.back().g.back().o.push_back(&v[i]); } return b;
}
Style style(unsigned k){ Style s; switch(k){ case 0: break;
	case 1: s.blob=2; s.header=2; break; case 2: s.dense=false; break; case 3: s.dense=false; s.blob=2; s.empty_kv=1; s.reversed=true; break; case 4: s.empty_kv=1; break; case 5: s.empty_kv=2; s.unknown=1; break;
	case 6: s.gran=1; s.lato=-300; s.lono=70000; break; case 7: s.gran=1000; s.lato=1000000000ll; s.lono=-2000000000ll; s.dense=false; break; case 8: s.unknown=2; s.blob=3; s.reversed=true; break; case 9: s.header=0; s.strings=1; s.blob=4; break;
	case 10: s.extra=1; s.strings=2; break; case 11: s.extra=2; s.reversed=true; break; case 12: s.extra=3; s.blob=1; break; case 13: s.extra=4; s.gran=100; break; case 14: s.extra=5; s.dense=false; s.unknown=2; break; case 15: s.lato=-1000000; s.dense=true; s.gran=200; break; case 16: s.lono=5; s.gran=10; s.dense=false; s.reversed=true; break; case 17: s.reversed=true; s.unknown=2; s.empty_kv=2; s.gran=25; s.lato=7; s.lono=-7; break; } return s; }
const unsigned STYLES=18;
void good_case(Ctx&c, const std::vector<Obj>&v, unsigned cuts, const Style&s, const std::vector<std::pair<unsigned,unsigned>>&runs){
	auto bl=layout(v,cuts); B f=join(pieces(bl,s)); std::vector<Obj>want; for(auto&o:v) want.push_back(expected(o,s));
	for(auto&r:runs){ if(r.first==2&&!ordered_file(v)) continue; c.note=fmt("%s, callbacks %s%s%s, objects ",r.first==0?"unordered":(r.first==1?"ordered":"declared ordered"),r.second&1?"n":"",r.second&2?"w":"",r.second&4?"r":"")+show(v); auto o=run(f,r.first,r.second); c.transitions+=1+o.rec.calls; ++c.traces; ++c.states; if(o.threw) c.fail("unexpected error: "+o.what); if(!o.rec.bad.empty()) c.fail(o.rec.bad); auto d=differ(filter(want,r.first,r.second),o.rec.got); if(!d.empty()) c.fail(d); c.states+=o.rec.got.size(); }
}
void make23(std::vector<Suite>&v){
	bool T=vx::opt().thorough(),A=vx::opt().asan(); unsigned K=alphabet().size();
	auto seq=[](uint64_t e, unsigned K, unsigned&len){ unsigned l=0; while(e>=vx::ipow(K,l)*vx::ipow(3,l?l-1:0)){ e-=vx::ipow(K,l)*vx::ipow(3,l?l-1:0); ++l; } len=l; return e; };
	auto total=[](unsigned K, unsigned L){ uint64_t t=0; for(unsigned l=0;l<=L;++l) t+=vx::ipow(K,l)*vx::ipow(3,l?l-1:0); return t; };
	auto objs=[=](uint64_t e, unsigned L, unsigned&cuts){ auto a=alphabet(); unsigned l; e=seq(e,K,l); vx::Dec d(e); std::vector<Obj>v; for(unsigned i=0;i<l;++i) v.push_back(a[d.get(K)]); cuts=d.v; return v; };
	for(unsigned st=0;st<STYLES;++st){ unsigned L=A?(st<4?3:2):((st<2||T)?4:3); Suite s; s.name=fmt("objects_style%u",st); s.bounds=fmt("every sequence of up to %u objects out of %u (nodes, ways, relations with and without tags, extreme ids), every grouping into groups and blocks, encoding style %u; unordered, ordered and declared ordered reading",L,K,st); s.count=total(K,L); s.describe=[=](uint64_t i){ unsigned cu; auto o=objs(i,L,cu); return fmt("style %u grouping %u objects ",st,cu)+show(o); }; s.run=[=](uint64_t i, Ctx&c){ unsigned cu; auto o=objs(i,L,cu); good_case(c,o,cu,style(st),{{0,7},{1,7},{2,7}}); }; v.push_back(s); }
	{ unsigned L=A?1:2; Suite s; s.name="callbacks"; s.bounds=fmt("every sequence of up to %u objects and grouping x 4 styles x 7 callback subsets x 3 readers",L); s.count=total(K,L)*4; s.describe=[=](uint64_t i){ unsigned cu; auto o=objs(i/4,L,cu); return fmt("style %u ",(unsigned)(i%4*5))+show(o); }; s.run=[=](uint64_t i, Ctx&c){ unsigned cu; auto o=objs(i/4,L,cu); std::vector<std::pair<unsigned,unsigned>>r; for(unsigned m=0;m<3;++m) for(unsigned k=1;k<8;++k) r.push_back({m,k}); good_case(c,o,cu,style(i%4*5),r); }; v.push_back(s); }
	{ // the full product of the encoding options on one rich file
	  const unsigned D[]={5,2,3,5,5,3,2,3,6,3}; uint64_t N=1; for(unsigned d:D) N*=d; unsigned stride=A?97:(T?1:5); Suite s; s.name="encodings"; s.bounds=fmt("product of blob kind, dense, empty arrays, granularity, offsets, unknown fields, field order, header, extra blocks, string table order (%llu encodings, every %u-th in this run) on a file with all objects",(unsigned long long)N,stride); s.count=(N+stride-1)/stride;
	  auto dec=[=](uint64_t i){ vx::Dec d(i*stride); Style s; s.blob=d.get(5); s.dense=d.get(2); s.empty_kv=d.get(3); const int64_t g[]={0,1,25,100,1000}; s.gran=g[d.get(5)]; const int64_t o[][2]={{0,0},{100,0},{0,-100},{-7000000,13000000},{int64_t(-900)*100000000,int64_t(1800)*100000000}}; unsigned k=d.get(5); s.lato=o[k][0]; s.lono=o[k][1]; s.unknown=d.get(3); s.reversed=d.get(2); s.header=d.get(3); s.extra=d.get(6); s.strings=d.get(3); return s; };
	  s.describe=[=](uint64_t i){ auto s=dec(i); return fmt("blob %u dense %d empty %u granularity %lld offsets %lld %lld unknown %u reversed %d header %u extra %u strings %u",s.blob,s.dense,s.empty_kv,(long long)s.gran,(long long)s.lato,(long long)s.lono,s.unknown,s.reversed,s.header,s.extra,s.strings); };
	  s.run=[=](uint64_t i, Ctx&c){ auto a=alphabet(); good_case(c,a,3788/*mixed grouping*/,dec(i),{{0,7},{1,7}}); }; v.push_back(s); }
	{ // long runs of nodes: delta coding over many elements, large blocks, many tags
	  Suite s; s.name="long_blocks"; s.bounds="1..40 and 1000..5000 nodes in one dense group, ways with up to 2000 nodes, relations with up to 2000 members, 3 styles"; s.count=45*3; auto dec=[](uint64_t i){ unsigned k=i/3; return k<40?k+1:(k-39)*1000; }; s.describe=[=](uint64_t i){ return fmt("%u objects style %u",dec(i),(unsigned)(i%3)); };
	  s.run=[=](uint64_t i, Ctx&c){ unsigned n=dec(i); std::vector<Obj>v; for(unsigned k=0;k<n;++k){ Obj o{'n',(k*2654435761ull)%1000003,(int64_t)(k*7919%180000)*1000000-90000000000ll,(int64_t)(k*104729%360000)*1000000-180000000000ll,{},{},{}}; if(k%3==1) for(unsigned t=0;t<=k%5;++t) o.tags.push_back({fmt("k%u",t*7+k%11),fmt("v%u",k)}); v.push_back(o); } Obj w{'w',77,0,0,{{"highway","x"}},{},{}},r{'r',78,0,0,{},{},{}}; for(unsigned k=0;k<std::min(n,2000u);++k){ w.nodes.push_back(v[k].id); r.members.push_back({(int)(k%3),v[k].id,k%2?"a":""}); } v.push_back(w); v.push_back(r); const unsigned ST[]={0,1,2}; good_case(c,v,0,style(ST[i%3]),{{0,7},{1,7}}); }; s.chunk=1; v.push_back(s); }
	if(!A){ // sizes beyond 16 bits
	  static const unsigned ns[]={255,256,257,65534,65535,65536,65537,70000}; Suite s; s.name="beyond_16_bits"; s.bounds="255..70000 nodes in one block with a string of their own each; a way and a relation with as many members, each member with a role of its own; as many blocks of one object; 3 styles"; s.count=8*3*3; s.chunk=1; s.case_timeout=120; s.describe=[](uint64_t i){ return fmt("%u objects form %u style %u",ns[i/9],(unsigned)(i/3%3),(unsigned)(i%3)); };
	  s.run=[=](uint64_t i, Ctx&c){ unsigned n=ns[i/9],form=i/3%3; std::vector<Obj>v; for(unsigned k=0;k<n;++k){ Obj o{'n',k*3+1,(int64_t)(k*7919%180000)*1000000-90000000000ll,(int64_t)(k*104729%360000)*1000000-180000000000ll,{},{},{}}; if(form==0||k%1000==0) o.tags.push_back({k%2?"name":fmt("k%u",k),fmt("v%u",k)}); v.push_back(o); }
		if(form==1){ Obj w{'w',77,0,0,{{"highway","x"}},{},{}},r{'r',78,0,0,{},{},{}}; for(unsigned k=0;k<n;++k){ w.nodes.push_back((k*2654435761ull)%1000003); r.members.push_back({(int)(k%3),(k*2654435761ull)%1000003,fmt("role%u",k)}); } v.push_back(w); v.push_back(r); }
		Style st=style(i%3); std::vector<Block>bl; if(form==2) for(auto&o:v){ bl.push_back(Block()); bl.back().g.push_back(Group()); bl.back().g.back().o.push_back(&o); } else bl=layout(v,0); B f=join(pieces(bl,st)); std::vector<Obj>want; for(auto&o:v) want.push_back(expected(o,st));
		for(unsigned how=0;how<3;++how){ c.note=fmt("%u objects form %u style %u reader %u",n,form,(unsigned)(i%3),how); auto o=run(f,how,7); c.transitions+=1+o.rec.calls; ++c.traces; c.states+=o.rec.got.size(); if(o.threw) c.fail("unexpected error: "+o.what); if(!o.rec.bad.empty()) c.fail(o.rec.bad); auto d=differ(filter(want,how,7),o.rec.got); if(!d.empty()) c.fail(d.substr(0,2000)); } }; v.push_back(s); }
	{ // the length of a block header is a number of four bytes
	  std::vector<unsigned>ix; for(unsigned k=1;k<(A?300u:1200u);++k) ix.push_back(k); for(unsigned k:{2048u,4096u,8192u,16384u,32768u,65536u}) for(unsigned d=0;d<40;++d) ix.push_back(k-d); Suite s; s.name="header_lengths"; s.bounds="block headers with index data of 1..1200 bytes (sanitized 300) and up to 40 bytes below powers of two up to 2^16, 3 objects in 2 blocks, 2 styles"; s.count=ix.size()*2; s.describe=[=](uint64_t i){ return fmt("%u bytes of index data, style %u",ix[i/2],(unsigned)(i%2)); };
	  s.run=[=](uint64_t i, Ctx&c){ auto a=alphabet(); Style st=style(i%2*2); st.index=ix[i/2]; good_case(c,{a[0],a[3],a[6]},3,st,{{0,7},{1,7}}); }; v.push_back(s); }
	if(!A){ // blocks up to the largest allowed size of 32 MiB
	  static const unsigned ns[]={1u<<20,(1u<<24)-1,1u<<24,(1u<<24)+1,(1u<<25)-1}; Suite s; s.name="largest_blocks"; s.bounds="three blocks of which the second has 1, 16 (also one byte more or less) or almost 32 MiB, raw and compressed, three readers"; s.count=5*2*3; s.chunk=1; s.case_timeout=120;
	  s.describe=[](uint64_t i){ return fmt("%u bytes, %s, mode %u",ns[i/6],i/3%2?"zlib":"raw",(unsigned)(i%3)); };
	  s.run=[](uint64_t i, Ctx&c){ auto a=alphabet(); std::vector<Obj>v{a[1],a[4],a[6]}; Style st=style(0); B f; for(unsigned k=0;k<3;++k){ Block b; b.g.push_back(Group()); b.g[0].o.push_back(&v[k]); B d=data_block(b,st); if(k==1){ unsigned pad=ns[i/6]-d.size(); B x; for(unsigned q=pad-2;q<=pad;--q){ x.clear(); f_bytes(x,15,B(q,'p')); if(x.size()<=pad) break; } if(d.size()+x.size()<ns[i/6]) c.fail("harness: padding"); d=x+d; } f+=frame("OSMData",blob(d,i/3%2?2:0,0,false),0,false); }
		auto o=run(f,i%3,7); ++c.transitions; ++c.traces; ++c.states; if(o.threw) c.fail("unexpected error: "+o.what); std::vector<Obj>want; for(auto&x:v) want.push_back(expected(x,st)); auto d=differ(filter(want,i%3,7),o.rec.got); if(!d.empty()) c.fail(d); }; v.push_back(s); }
	{ Suite s; s.name="short_reads"; s.bounds="a file with all objects x 6 styles x the operating system answering with at most 1..64 bytes per read"; s.count=6*64; s.describe=[](uint64_t i){ return fmt("style %u, %u bytes per read",(unsigned)(i%6*3),(unsigned)(i/6+1)); }; s.run=[](uint64_t i, Ctx&c){ g_io={true,(size_t)(i/6+1),-1,0,0}; struct R{ ~R(){ g_io.on=false; } }r; good_case(c,alphabet(),3788,style(i%6*3),{{0,7},{1,7}}); }; v.push_back(s); }
	{ // order of the kinds in the file: all arrangements of 5 objects
	  unsigned pick[]={0,1,3,4,6}; Suite s; s.name="orders"; s.bounds="all 120 orders of 5 objects x all 81 groupings, ordered reading"; s.count=120*81; s.describe=[](uint64_t i){ return fmt("order %u grouping %u",(unsigned)(i%120),(unsigned)(i/120)); }; std::vector<unsigned>pk(pick,pick+5); s.run=[=](uint64_t i, Ctx&c){ auto a=alphabet(); auto p=vx::nth_permutation(5,i%120); std::vector<Obj>v; for(unsigned x:p) v.push_back(a[pk[x]]); good_case(c,v,i/120,style(i%2),{{1,7},{2,7}}); }; if(A) s.count=120*3; v.push_back(s); }
}
// ---------------------------------------------------------------- C24
std::vector<std::pair<std::vector<Obj>,std::pair<unsigned,unsigned>>>bases(){ auto a=alphabet(); std::vector<Obj>small{a[0],a[1],a[3],a[6]},nodes{a[2],a[0]},rel{a[6],a[4]}; return {{small,{26,0}},{small,{0,2}},{small,{13,5}},{a,{3788,1}},{nodes,{0,6}},{rel,{2,10}},{nodes,{2,14}},{rel,{0,3}},{small,{26,11}},{nodes,{0,12}}}; }
std::string observe(const B&f, unsigned mode){ auto o=run(f,mode,7); if(!o.rec.bad.empty()) return "BAD "+o.rec.bad; std::string s; for(auto&x:o.rec.got) s+=show(x)+" "; return s+(o.threw?"| error":"| end"); }
void bad_case(Ctx&c, const B&f, unsigned mode){ // any bytes: terminates, same result whatever the memory held before
	g_fill=0; std::string a=observe(f,mode); g_fill=0x5a; std::string b=observe(f,mode); g_fill=-1; c.transitions+=2; ++c.traces; ++c.states; if(a.compare(0,3,"BAD")==0) c.fail(a); if(b.compare(0,3,"BAD")==0) c.fail(b);
	// an error may overtake objects that were decompressed before it, so that only the number of objects before an error is open
	bool ea=a.size()>=7&&a.substr(a.size()-7)=="| error",eb=b.size()>=7&&b.substr(b.size()-7)=="| error"; std::string x=ea?a.substr(0,a.size()-7):a,y=eb?b.substr(0,b.size()-7):b; if(x.size()>y.size()) std::swap(x,y);
	if(ea!=eb||(ea?y.compare(0,x.size(),x)!=0:x!=y)) c.fail("the result depends on memory outside of the data: '"+a+"' versus '"+b+"'");
}
void make24(std::vector<Suite>&v){
	bool T=vx::opt().thorough(),A=vx::opt().asan(); auto bs=bases();
	for(unsigned k=0;k<bs.size();++k){
		auto objs=bs[k].first; unsigned cuts=bs[k].second.first,st=bs[k].second.second; auto bl=layout(objs,cuts); Style sty=style(st); auto pc=pieces(bl,sty); B f=join(pc); std::vector<size_t>ends{0}; for(auto&p:pc) ends.push_back(ends.back()+p.size()); std::vector<Obj>want; for(auto&o:objs) want.push_back(expected(o,sty));
		{ Suite s; s.name=fmt("truncated_%u",k); s.bounds=fmt("file %u (%u bytes) cut after every byte, unordered and ordered reading",k,(unsigned)f.size()); s.count=(f.size()+1)*2; s.describe=[=](uint64_t i){ return fmt("%s reading of the first %u of %u bytes",i%2?"ordered":"unordered",(unsigned)(i/2),(unsigned)f.size()); }; s.case_timeout=20;
		  s.run=[=](uint64_t i, Ctx&c){ size_t n=i/2; bool at=std::find(ends.begin(),ends.end(),n)!=ends.end(); auto o=run(f.substr(0,n),i%2,7); ++c.transitions; ++c.traces; ++c.states; if(!o.rec.bad.empty()) c.fail(o.rec.bad); if(!at&&!o.threw) c.fail(fmt("a file cut after byte %zu inside a block is read as if it were complete",n)); if(at&&o.threw) c.fail("unexpected error: "+o.what);
			// what is delivered are objects of the file, in order
			auto w=filter(want,i%2,7); unsigned j=0; for(auto&g:o.rec.got){ while(j<w.size()&&!differ({w[j]},{g}).empty()) ++j; if(j==w.size()) c.fail("an object that is not in the file: "+show(g)); ++j; } if(n==f.size()){ auto d=differ(w,o.rec.got); if(!d.empty()) c.fail(d); } }; v.push_back(s); }
		{ // single byte changes
		  unsigned V=(T||(!A&&(k==0||k==4||k==7)))?255:12; Suite s; s.name=fmt("changed_%u",k); s.bounds=fmt("file %u with any one of %u bytes replaced by %u other values, %s",k,(unsigned)f.size(),V,"unordered and ordered reading"); s.count=f.size()*V*2; auto dec=[=](uint64_t i){ unsigned m=i%2; i/=2; size_t p=i/V; unsigned x=i%V; B g=f; unsigned char old=g[p]; unsigned char nw= V==255? (unsigned char)(old+1+x) : (x<8?old^(1u<<x):(x==8?0:(x==9?0xff:(x==10?old+1:old-1)))); g[p]=nw; return std::make_pair(g,m); };
		  s.describe=[=](uint64_t i){ auto x=dec(i); size_t p=i/2/V; return fmt("%s reading, byte %u changed from %02x to %02x",x.second?"ordered":"unordered",(unsigned)p,(unsigned char)f[p],(unsigned char)x.first[p]); }; s.case_timeout=20; s.run=[=](uint64_t i, Ctx&c){ auto x=dec(i); bad_case(c,x.first,x.second); }; v.push_back(s); }
		{ // a byte lost or doubled, two blocks exchanged
		  Suite s; s.name=fmt("shifted_%u",k); s.bounds=fmt("file %u with any one byte left out or doubled, unordered and ordered reading",k); s.count=f.size()*4; auto dec=[=](uint64_t i){ B g=f; size_t p=i/4; if(i/2%2) g.erase(p,1); else g.insert(p,1,f[p]); return g; }; s.describe=[=](uint64_t i){ return fmt("%s reading, byte %u %s",i%2?"ordered":"unordered",(unsigned)(i/4),i/2%2?"missing":"doubled"); }; s.case_timeout=20; s.run=[=](uint64_t i, Ctx&c){ bad_case(c,dec(i),i%2); }; v.push_back(s); }
		{ Suite s; s.name=fmt("read_errors_%u",k); s.bounds=fmt("file %u, reading fails after every number of bytes, 3 read sizes, unordered and ordered",k); s.count=(f.size()+1)*6; s.describe=[=](uint64_t i){ return fmt("%s reading, read fails after %u bytes, read size %u",i%2?"ordered":"unordered",(unsigned)(i/6),(unsigned)(i/2%3)); }; s.case_timeout=20;
		  s.run=[=](uint64_t i, Ctx&c){ const size_t st[]={0,7,64}; g_io={true,st[i/2%3],(long)(i/6),0,0}; struct R{ ~R(){ g_io.on=false; } }r; auto o=run(f,i%2,7); g_io.on=false; ++c.transitions; ++c.traces; ++c.states; if(!o.rec.bad.empty()) c.fail(o.rec.bad); if(g_io.hits && !o.threw) c.fail("a read error is not reported"); }; v.push_back(s); }
	}
	{ // arbitrary short files
	  Suite s; s.name="short_files"; const unsigned R=9; static const unsigned char al[R]={0,1,2,8,10,13,24,127,255}; unsigned L=A?3:(T?7:5); uint64_t N=0; for(unsigned l=0;l<=L;++l) N+=vx::ipow(R,l); s.bounds=fmt("every file of up to %u bytes over %u byte values, unordered and ordered",L,R); s.count=N*2; auto dec=[=](uint64_t e){ e/=2; unsigned l=0; while(e>=vx::ipow(R,l)){ e-=vx::ipow(R,l); ++l; } vx::Dec d(e); B f; for(unsigned i=0;i<l;++i) f+=(char)al[d.get(R)]; return f; };
	  s.describe=[=](uint64_t i){ std::string r=i%2?"ordered reading of bytes":"unordered reading of bytes"; for(unsigned char x:dec(i)) r+=fmt(" %02x",x); return r; }; s.case_timeout=20; s.run=[=](uint64_t i, Ctx&c){ B f=dec(i); auto o=run(f,i%2,7); ++c.transitions; ++c.traces; ++c.states; bool want=!f.empty(); if(f.size()>=4){ } if(!o.rec.got.empty()) c.fail("objects from nowhere"); if(f.empty()&&o.threw) c.fail("unexpected error "+o.what); if(f.size()<4&&want&&!o.threw) c.fail("an incomplete block header is taken for the end of the file"); }; v.push_back(s); }
	{ // string ids out of range, array lengths that do not match, limits: structured damage
	  Suite s; s.name="bad_references"; s.bounds="key, value and role ids at, above and far above the string table size on nodes, ways and relations; arrays of different lengths; missing fields; wrong sizes; both or no payload"; s.count=60*2; s.describe=[](uint64_t i){ return fmt("damage %u %s",(unsigned)(i/2),i%2?"ordered":"unordered"); }; s.case_timeout=20;
	  s.run=[](uint64_t i, Ctx&c){ unsigned k=i/2; auto block=[&](const B&group, const B&pre=B()){ B st,b=pre,e; for(const char*x:{"","a","b"}) f_bytes(st,1,x); f_bytes(b,1,st); f_bytes(b,2,group); return frame("OSMData",blob(b,0,0,false),0,false); }; auto var=[](std::vector<uint64_t>v){ B r; for(auto x:v) put_varint(r,x); return r; };
		B f; bool must=true; auto obj=[&](unsigned field, std::function<void(B&)>body){ B o,g; body(o); f_bytes(g,field,o); return g; };
		const uint64_t ids[]={3,4,127,128,0xffffffffull,1ull<<40}; bool done=false;
		if(k<36){ uint64_t bad=ids[k%6]; unsigned w=k/6; done=true; switch(w){ case 0: f=block(obj(1,[&](B&o){ f_varint(o,1,zz(5)); f_bytes(o,2,var({bad})); f_bytes(o,3,var({1})); f_varint(o,8,0); f_varint(o,9,0); })); break; case 1: f=block(obj(1,[&](B&o){ f_varint(o,1,zz(5)); f_bytes(o,2,var({1})); f_bytes(o,3,var({bad})); f_varint(o,8,0); f_varint(o,9,0); })); break;
			case 2: f=block(obj(2,[&](B&o){ f_bytes(o,1,var({2})); f_bytes(o,8,var({2})); f_bytes(o,9,var({2})); f_bytes(o,10,var({bad,1,0})); })); break; case 3: f=block(obj(2,[&](B&o){ f_bytes(o,1,var({2})); f_bytes(o,8,var({2})); f_bytes(o,9,var({2})); f_bytes(o,10,var({1,bad,0})); })); break;
			case 4: f=block(obj(3,[&](B&o){ f_varint(o,1,5); f_bytes(o,2,var({1,bad})); f_bytes(o,3,var({bad,1})); f_bytes(o,8,var({2})); })); break; case 5: f=block(obj(4,[&](B&o){ f_varint(o,1,5); f_bytes(o,8,var({bad})); f_bytes(o,9,var({2})); f_bytes(o,10,var({0})); })); break; }
			if(bad>0xffffffffull) must=false; } // ids are 32 bit in the format
		else{ done=true; switch(k-36){
			case 0: f=block(obj(3,[&](B&o){ f_varint(o,1,5); f_bytes(o,2,var({1,2})); f_bytes(o,3,var({1})); })); break; case 1: f=block(obj(4,[&](B&o){ f_varint(o,1,5); f_bytes(o,2,var({1})); })); break; case 2: f=block(obj(1,[&](B&o){ f_varint(o,1,zz(5)); f_bytes(o,3,var({1})); })); break;
			case 3: f=block(obj(2,[&](B&o){ f_bytes(o,1,var({2,2})); f_bytes(o,8,var({2})); f_bytes(o,9,var({2,2})); })); break; case 4: f=block(obj(2,[&](B&o){ f_bytes(o,1,var({2,2})); f_bytes(o,8,var({2,2})); f_bytes(o,9,var({2})); })); break; case 5: f=block(obj(2,[&](B&o){ f_bytes(o,1,var({2})); f_bytes(o,8,var({2,2})); f_bytes(o,9,var({2})); })); break; case 6: f=block(obj(2,[&](B&o){ f_bytes(o,1,var({2})); f_bytes(o,8,var({2})); f_bytes(o,9,var({2,2})); })); break;
			case 7: f=block(obj(2,[&](B&o){ f_bytes(o,1,var({2})); f_bytes(o,8,var({2})); f_bytes(o,9,var({2})); f_bytes(o,10,var({1,2})); })); break; case 8: f=block(obj(2,[&](B&o){ f_bytes(o,1,var({2})); f_bytes(o,8,var({2})); f_bytes(o,9,var({2})); f_bytes(o,10,var({0,0})); })); break; case 9: f=block(obj(2,[&](B&o){ f_bytes(o,8,var({2})); f_bytes(o,9,var({2})); })); break;
			case 10: f=block(obj(4,[&](B&o){ f_varint(o,1,5); f_bytes(o,8,var({1})); f_bytes(o,9,var({2,2})); f_bytes(o,10,var({0,0})); })); break; case 11: f=block(obj(4,[&](B&o){ f_varint(o,1,5); f_bytes(o,8,var({1,1})); f_bytes(o,9,var({2,2})); f_bytes(o,10,var({0})); })); break; case 12: f=block(obj(4,[&](B&o){ f_varint(o,1,5); f_bytes(o,8,var({1})); f_bytes(o,9,var({2})); f_bytes(o,10,var({3})); })); break;
			case 13: f=block(obj(3,[&](B&o){ f_bytes(o,8,var({2})); })); break; case 14: { B b,bl; f_bytes(bl,1,"xx"); f_varint(bl,2,3); f=frame("OSMData",bl,0,false); break; } case 15: { B bl; f_varint(bl,2,3); f=frame("OSMData",bl,0,false); break; } case 16: { B bl; B z=blob(B(100,'a'),2,0,false); f_bytes(bl,1,"xx"); f=frame("OSMData",bl+z,0,false); break; }
			case 17: { B z=blob(B(100,0),2,0,false); B bl; f_varint(bl,2,99); f=frame("OSMData",z+bl,0,false); break; } case 18: { B z=blob(B(100,0),2,0,false); B bl; f_varint(bl,2,101); f=frame("OSMData",z+bl,0,false); break; } case 19: { B pre; f_varint(pre,17,0); f=block(B(),pre); break; }
			case 20: { B t; t.assign("\x00\x00\x00\x02\x18\x00",6); f=t; must=false; break; } case 21: { B t; t.assign("\x7f\xff\xff\xff",4); f=t+B(100,'x'); break; } case 22: { B h; f_bytes(h,1,"OSMData"); B t; t.assign("\0\0\0",3); t+=char(h.size()); f=t+h; break; } case 23: { B z; f_varint(z,2,1ull<<33); f_bytes(z,3,"abc"); f=frame("OSMData",z,0,false); break; }
			default: done=false; } }
		if(!done) return; c.note=fmt("damage %u",k); auto o=run(f,i%2,7); ++c.transitions; ++c.traces; ++c.states; if(!o.rec.bad.empty()) c.fail(o.rec.bad); if(must&&!o.threw) c.fail("not reported"); bad_case(c,f,i%2); }; v.push_back(s); }
	{ // one object of every kind with two tags (and two members): every mandatory field left out, every string id out of range, every array too short or too long
	  // arrays: index of the object kind, field, values; ids of strings are those in the fields marked 's', the string table has 4 entries
	  struct F{ unsigned field; bool varint; std::vector<uint64_t>v; char role; }; // role: m mandatory, s string ids, a array that has to fit the others, o optional
	  struct K{ unsigned group; const char*name; std::vector<F>f; };
	  static const std::vector<K>ks={ {1,"node",{{1,true,{10},'m'},{2,false,{1,2},'s'},{3,false,{3,1},'s'},{8,true,{20},'o'},{9,true,{30},'o'}}}, {2,"dense nodes",{{1,false,{10,2},'m'},{8,false,{4,6},'m'},{9,false,{8,2},'m'},{10,false,{1,2,0,3,1,2,3,0},'d'}}}, {3,"way",{{1,true,{5},'m'},{2,false,{1,2},'s'},{3,false,{3,1},'s'},{8,false,{2,4},'o'}}}, {4,"relation",{{1,true,{5},'m'},{2,false,{1,2},'s'},{3,false,{3,1},'s'},{8,false,{2,3},'r'},{9,false,{2,4},'a'},{10,false,{0,1},'a'}}} };
	  struct D{ unsigned k; int leave=-1, at=-1, pos=-1, len=-1; uint64_t val=0; int delta=0; bool must=true; }; static const uint64_t badid[]={4,5,127,128,16384,(1ull<<31)-1,1ull<<31,(1ull<<32)-1};
	  auto ds=std::make_shared<std::vector<D>>(); for(unsigned k=0;k<ks.size();++k){ D d; d.k=k; d.must=false; ds->push_back(d); for(unsigned f=0;f<ks[k].f.size();++f){ auto&x=ks[k].f[f]; char r=x.role; D e; e.k=k;
		e.must=r!='o'&&r!='d'; e.leave=f; ds->push_back(e); e.leave=-1; e.must=true;
		if(r=='s'||r=='d'||r=='r') for(unsigned p=0;p<x.v.size();++p){ if(x.v[p]==0) continue; for(uint64_t id:badid){ e.at=f; e.pos=p; e.val=id; ds->push_back(e); } } e.at=-1;
		if(!x.varint&&r!='o') for(int dl:{-1,1}){ e.len=f; e.delta=dl; ds->push_back(e); } } }
	  Suite s; s.name="damaged_objects"; s.bounds="a node, two dense nodes, a way and a relation with tags (and members): every mandatory field left out, every string id at and above the size of the string table, every array one element too short or too long, first, middle or last object of the block, raw and compressed, two readers: refused"; s.count=ds->size()*3*2*2; s.case_timeout=20;
	  s.describe=[=](uint64_t i){ auto&d=(*ds)[i/12]; auto&k=ks[d.k]; return std::string(k.name)+(d.leave>=0?fmt(" without field %u",k.f[d.leave].field):d.at>=0?fmt(" with string id %llu in field %u place %d",(unsigned long long)d.val,k.f[d.at].field,d.pos):d.len>=0?fmt(" with field %u %s",k.f[d.len].field,d.delta<0?"too short":"too long"):"")+fmt(", place %u, %s, mode %u",(unsigned)(i/4%3),i/2%2?"compressed":"raw",(unsigned)(i%2)); };
	  s.run=[=](uint64_t i, Ctx&c){ auto&d=(*ds)[i/12]; auto obj=[&](const D&d){ auto&k=ks[d.k]; B o,g; for(unsigned f=0;f<k.f.size();++f){ if((int)f==d.leave) continue; auto v=k.f[f].v; if((int)f==d.at) v[d.pos]=d.val; if((int)f==d.len){ if(d.delta<0) v.pop_back(); else v.push_back(v.back()?1:0); } if(k.f[f].varint) f_varint(o,k.f[f].field,v[0]); else{ B a; for(auto x:v) put_varint(a,x); f_bytes(o,k.f[f].field,a); } } f_bytes(g,k.group,o); return g; };
		B st,b,gs; for(const char*x:{"","a","b","c"}) f_bytes(st,1,x); f_bytes(b,1,st); unsigned place=i/4%3; for(unsigned j=0;j<3;++j){ D good; good.k=d.k; f_bytes(b,2,obj(j==place?d:good)); } B f=frame("OSMData",blob(b,i/2%2?2:0,0,false),0,false);
		auto o=run(f,i%2,7); ++c.transitions; ++c.traces; ++c.states; if(!o.rec.bad.empty()) c.fail(o.rec.bad); if(d.must&&!o.threw) c.fail("not reported, delivered "+show(o.rec.got)); if(!d.must&&o.threw) c.fail("unexpected error: "+o.what); if(!d.must&&d.leave<0&&o.rec.got.size()!=(d.k==1?6u:3u)) c.fail("delivered "+show(o.rec.got)); bad_case(c,f,i%2); };
	  v.push_back(s); }
	{ // a block that declares another size than its data has; every prefix that ends between two fields is a valid block by itself
	  auto a=alphabet(); auto v3=std::make_shared<std::vector<Obj>>(std::vector<Obj>{a[1],a[4],a[6]}); Style st=style(0); Block b; for(auto&o:*v3){ b.g.push_back(Group()); b.g.back().o.push_back(&o); } B d=data_block(b,st); unsigned n=d.size(); const unsigned X=40; static const uint64_t far[]={255,256,65536,(1ull<<24)+7,(1ull<<25)-1,1ull<<25,(1ull<<32)-1,1ull<<32,(1ull<<32)+100,1ull<<63}; unsigned K=n+X+10;
	  Suite s; s.name="declared_sizes"; s.bounds=fmt("a block of %u bytes that declares every size from 0 to %u and 10 large ones, raw, three compressions and both at once, size in front of or behind the data, another block behind it or not: refused unless the size is right and the data is given once",n,n+X-1); s.count=(uint64_t)K*5*2*2*2; s.case_timeout=20;
	  auto dec=[=](uint64_t i, uint64_t&size, unsigned&kind, bool&behind, bool&more, unsigned&mode){ vx::Dec q(i); mode=q.get(2); more=q.get(2); behind=q.get(2); kind=q.get(5); unsigned k=q.get(K); size=k<n+X?k:far[k-n-X]; };
	  s.describe=[=](uint64_t i){ uint64_t z; unsigned k,m; bool be,mo; dec(i,z,k,be,mo,m); return fmt("%s block of %u bytes declares %llu, %s reading",k==4?"raw and compressed":k?"compressed":"raw",n,(unsigned long long)z,m?"ordered":"unordered"); };
	  s.run=[=](uint64_t i, Ctx&c){ uint64_t z; unsigned k,m; bool be,mo; dec(i,z,k,be,mo,m); B data; if(k==0||k==4) f_bytes(data,1,d); if(k){ uLongf l=compressBound(n); B y(l,0); compress2((Bytef*)&y[0],&l,(const Bytef*)d.data(),n,k==1?6:k==2?0:9); y.resize(l); f_bytes(data,3,y); } B size; f_varint(size,2,z); B f=frame("OSMData",be?data+size:size+data,0,false); if(mo){ Block e; e.g.push_back(Group()); e.g[0].o.push_back(&(*v3)[2]); f+=frame("OSMData",blob(data_block(e,st),0,0,false),0,false); }
		auto o=run(f,m,7); ++c.transitions; ++c.traces; ++c.states; if(!o.rec.bad.empty()) c.fail(o.rec.bad); if((z!=n||k==4)&&!o.threw) c.fail("not reported, delivered "+show(o.rec.got)); if(z==n&&k!=4){ if(o.threw) c.fail("unexpected error: "+o.what); std::vector<Obj>want; for(auto&x:*v3) want.push_back(expected(x,st)); if(mo) want.push_back(want[2]); auto e=differ(filter(want,m,7),o.rec.got); if(!e.empty()) c.fail(e); }
	  }; v.push_back(s); }
	{ // blocks above the largest size that is accepted, small compressed data that inflates to them included
	  static const unsigned ns[]={(1u<<25)-1,1u<<25,(1u<<25)+1,(1u<<25)+4,(1u<<25)+5,(1u<<25)+64,(1u<<25)+4096,33u<<20,40u<<20,64u<<20,96u<<20}; Suite s; s.name="oversized_blocks"; s.bounds="a block of 32 MiB - 1 .. 96 MiB (raw; compressed, declared truthfully, as 1000 bytes and as 4 GiB), two readers: an error or the right objects, no access outside of buffers"; s.count=11*4*2; s.chunk=1; s.case_timeout=200;
	  s.describe=[](uint64_t i){ return fmt("%u bytes, %s, mode %u",ns[i/8],i/2%4==0?"raw":i/2%4==1?"zlib":i/2%4==2?"zlib declared as 1000 bytes":"zlib declared as 4 GiB",(unsigned)(i%2)); };
	  s.run=[](uint64_t i, Ctx&c){ auto a=alphabet(); std::vector<Obj>v{a[1],a[4]}; Style st=style(0); B f; unsigned how=i/2%4; for(unsigned k=0;k<2;++k){ Block b; b.g.push_back(Group()); b.g[0].o.push_back(&v[k]); B d=data_block(b,st); if(k==0){ unsigned pad=ns[i/8]-d.size(); B x; for(unsigned q=pad-2;q<=pad;--q){ x.clear(); f_bytes(x,15,B(q,'p')); if(x.size()<=pad) break; } d=x+d; } B bl=blob(d,how?2:0,0,false); if(k==0&&how>=2) f_varint(bl,2,how==2?1000:0xffffffffull); f+=frame("OSMData",bl,0,false); }
		auto o=run(f,i%2,7); ++c.transitions; ++c.traces; ++c.states; if(!o.rec.bad.empty()) c.fail(o.rec.bad); if(how>=2&&!o.threw) c.fail("wrong size not reported"); if(!o.threw){ std::vector<Obj>want; for(auto&x:v) want.push_back(expected(x,st)); auto d=differ(filter(want,i%2,7),o.rec.got); if(!d.empty()) c.fail(d); } }; v.push_back(s); }
	{ // what may follow what: the header comes first and only once; h: header, s: header that announces sorted data (as the reader understands it), u: unknown block, n, w, r: data
	  unsigned L=T?5:4; const unsigned R=6; static const char*al="hsunwr"; uint64_t N=0; for(unsigned l=0;l<=L;++l) N+=vx::ipow(R,l); Suite s; s.name="block_sequences"; s.bounds=fmt("every sequence of up to %u file blocks (header, header that announces sorted data, unknown block, block with a node, a way, a relation), three readers: an error exactly if there is a second header or one behind data, otherwise exactly the objects",L); s.count=N*3; s.case_timeout=20;
	  auto dec=[=](uint64_t e){ e/=3; unsigned l=0; while(e>=vx::ipow(R,l)){ e-=vx::ipow(R,l); ++l; } vx::Dec d(e); B f; for(unsigned i=0;i<l;++i) f+=al[d.get(R)]; return f; };
	  s.describe=[=](uint64_t i){ return fmt("blocks %s mode %u",dec(i).c_str(),(unsigned)(i%3)); };
	  s.run=[=](uint64_t i, Ctx&c){ B q=dec(i),f; unsigned mode=i%3; auto a=alphabet(); std::vector<Obj>v; bool bad=false,header=false,data=false,sorted=false; v.reserve(q.size()); Style st=style(0);
		for(char k:q){
			if(k=='h'||k=='s'){ if(header||data) bad=true; header=true; if(k=='h') f+=frame("OSMHeader",blob(header_block(0),1,0,false),0,false); else{ B h; f_bytes(h,4,"DenseNodes"); f_bytes(h,5,"Has_Metadata"); f_bytes(h,5,"Sort.Type_then_ID"); f_bytes(h,16,"writer"); f+=frame("OSMHeader",h,0,false); sorted=true; } }
			else if(k=='u') f+=frame("SomethingNew",B("not a blob at all"),0,false);
			else{ data=true; Obj o=a[k=='n'?1:k=='w'?4:6]; o.id+=v.size(); v.push_back(o); Block b; b.g.push_back(Group()); b.g[0].o.push_back(&v.back()); f+=frame("OSMData",blob(data_block(b,st),v.size()%3,0,false),0,false); } }
		if((sorted&&mode==1||mode==2)&&!ordered_file(v)) return; // the announcement would be wrong
		auto o=run(f,mode,7); ++c.transitions; ++c.traces; ++c.states; if(!o.rec.bad.empty()) c.fail(o.rec.bad); std::vector<Obj>want; for(auto&x:v) want.push_back(expected(x,st)); auto w=filter(want,mode,7);
		if(o.threw!=bad) c.fail(bad?"a misplaced header is not reported":"unexpected error: "+o.what);
		if(!bad){ auto d=differ(w,o.rec.got); if(!d.empty()) c.fail(d); }
	  }; v.push_back(s); }
	{ Suite s; s.name="no_file"; s.bounds="a missing file and a directory, three readers"; s.count=6; s.describe=[](uint64_t i){ return fmt("%u",(unsigned)i); }; s.case_timeout=20; s.run=[](uint64_t i, Ctx&c){ std::string n=i/3?"/":"/nonexistent/file.osm.pbf"; bool threw=false; Recorder r; try{ if(i%3==0) unordered_read_osm_pbf(n,r.node(),r.way(),r.relation()); else ordered_read_osm_pbf(n,r.node(),r.way(),r.relation(),[](const std::string&){},i%3==2); }catch(std::exception&){ threw=true; } ++c.transitions; ++c.traces; if(!threw) c.fail("no error for "+n); }; v.push_back(s); }
}
// ---------------------------------------------------------------- C30
struct Ref{ bool ok; uint64_t v; size_t used; };
Ref ref_varint(const unsigned char*p, size_t n){ unsigned __int128 v=0; for(size_t i=0;i<n&&i<10;++i){ v|=(unsigned __int128)(p[i]&127)<<(7*i); if(!(p[i]&128)){ if(v>>64) return {false,0,0}; return {true,(uint64_t)v,i+1}; } } return {false,0,0}; }
void varint_case(Ctx&c, const B&b){
	std::unique_ptr<char[]>buf(new char[b.size()?b.size():1]); memcpy(buf.get(),b.data(),b.size()); const char*p=buf.get(); if(b.empty()) p=buf.get(); bool threw=false; uint64_t v=0; const char*q=p; try{ v=decode_varint_as_uint64_and_advance_first_parameter(q,p+b.size()); }catch(std::exception&){ threw=true; }
	auto r=ref_varint((const unsigned char*)p,b.size()); ++c.transitions; ++c.traces; ++c.states; if(threw==r.ok||(r.ok&&(v!=r.v||q!=p+r.used))){ std::string h; for(unsigned char x:b) h+=fmt("%02x ",x); c.fail("varint "+h+(threw?"is rejected":fmt("decodes to %llu using %d bytes",(unsigned long long)v,(int)(q-p)))+(r.ok?fmt(" instead of %llu using %u bytes",(unsigned long long)r.v,(unsigned)r.used):" but is no valid encoding")); }
}
struct Ev{ char k; uint64_t id; uint64_t v; std::string s; bool operator==(const Ev&o)const{ return k==o.k&&id==o.id&&v==o.v&&s==o.s; } };
uint64_t dbits(double d){ uint64_t x; memcpy(&x,&d,8); if((x>>52&0x7ff)==0x7ff&&(x<<12)) return 1; return x; } // every NaN alike
uint64_t f2bits(const unsigned char*p){ uint32_t x; memcpy(&x,p,4); uint64_t s=(uint64_t)(x>>31)<<63; unsigned e=x>>23&255; uint64_t m=x&0x7fffff; if(e==255) return m?1:(s|0x7ff0000000000000ull); if(e==0){ if(!m) return s; int sh=0; while(!(m&0x800000)){ m<<=1; ++sh; } m&=0x7fffff; return s|(uint64_t)(1-127+1023-sh)<<52|m<<29; } return s|(uint64_t)(e-127+1023)<<52|m<<29; }
bool subnormal_float(const unsigned char*p){ uint32_t x; memcpy(&x,p,4); return (x>>23&255)==0 && (x&0x7fffff); }
void message_case(Ctx&c, const B&b){
	std::unique_ptr<char[]>buf(new char[b.size()?b.size():1]); memcpy(buf.get(),b.data(),b.size()); const char*p=buf.get(); std::vector<Ev>want,got; bool ok=true; const unsigned char*u=(const unsigned char*)p; size_t n=b.size(),i=0; bool vague=false;
	while(i<n){ auto h=ref_varint(u+i,n-i); if(!h.ok){ ok=false; break; } i+=h.used; uint64_t id=h.v>>3; unsigned w=h.v&7; if(w==0){ auto x=ref_varint(u+i,n-i); if(!x.ok){ ok=false; break; } i+=x.used; want.push_back({'v',id,x.v,""}); } else if(w==1){ if(n-i<8){ ok=false; break; } double d; memcpy(&d,u+i,8); want.push_back({'d',id,dbits(d),""}); i+=8; } else if(w==5){ if(n-i<4){ ok=false; break; } if(subnormal_float(u+i)) vague=true; want.push_back({'d',id,f2bits(u+i),""}); i+=4; } else if(w==2){ auto l=ref_varint(u+i,n-i); if(!l.ok||n-i-l.used<l.v){ ok=false; break; } i+=l.used; want.push_back({'s',id,0,std::string((const char*)u+i,l.v)}); i+=l.v; } else { ok=false; break; } }
	bool threw=false; try{ decode_protobuf_message_with_callbacks(p,p+n,[&](uint64_t id, uint64_t v){ got.push_back({'v',id,v,""}); },[&](uint64_t id, double d){ got.push_back({'d',id,dbits(d),""}); },[&](uint64_t id, const char*s, const char*e){ got.push_back({'s',id,0,std::string(s,e)}); }); }catch(std::exception&){ threw=true; }
	++c.transitions; ++c.traces; c.states+=1+got.size(); if(vague) for(unsigned k=0;k<got.size()&&k<want.size();++k) if(got[k].k=='d') got[k].v=want[k].v; if(threw!=!ok||(ok&&!(got==want))){ std::string h; for(unsigned char x:b) h+=fmt("%02x ",x); c.fail("message "+h+(threw?"is rejected although it is valid":(ok?"is decoded to other fields":"is accepted although it is malformed"))); }
	if(!ok){ if(got.size()>want.size()) c.fail("fields beyond the malformed place are delivered"); for(unsigned k=0;k<got.size();++k) if(!(got[k]==want[k])) c.fail("a field before the malformed place is wrong"); }
}
void make30(std::vector<Suite>&v){
	bool T=vx::opt().thorough(),A=vx::opt().asan();
	auto bytes=[](uint64_t e, unsigned L, const std::vector<unsigned char>&al){ unsigned R=al.size(); unsigned l=0; while(e>=vx::ipow(R,l)){ e-=vx::ipow(R,l); ++l; } vx::Dec d(e); B f; for(unsigned i=0;i<l;++i) f+=(char)al[d.get(R)]; return f; };
	auto total=[](unsigned R, unsigned L){ uint64_t N=0; for(unsigned l=0;l<=L;++l) N+=vx::ipow(R,l); return N; };
	auto hex=[](const B&b){ std::string h="bytes"; for(unsigned char x:b) h+=fmt(" %02x",x); return h; };
	std::vector<unsigned char>all; for(unsigned i=0;i<256;++i) all.push_back(i);
	struct Sp{ const char*n; std::vector<unsigned char>al; unsigned L; bool msg; };
	std::vector<Sp>sp={ {"varint_bytes",all,A?2u:3u,false}, {"varint_long",{0x00,0x01,0x80,0xff},A?9u:(T?12u:11u),false}, {"message_bytes",all,A?2u:3u,true}, {"message_fields",{0x00,0x01,0x02,0x03,0x08,0x09,0x0a,0x0d,0x10,0x12,0x80,0xff},A?5u:(T?7u:6u),true}, {"message_nested",{0x0a,0x02,0x08,0x01},A?8u:(T?11u:10u),true}, {"message_fixed",{0x09,0x0d,0x00,0x3f},A?9u:(T?12u:10u),true} };
	for(auto&x:sp){ Suite s; s.name=x.n; s.bounds=fmt("every byte sequence of length up to %u over %u byte values",x.L,(unsigned)x.al.size()); s.count=total(x.al.size(),x.L); auto al=x.al; unsigned L=x.L; bool m=x.msg; s.describe=[=](uint64_t i){ return hex(bytes(i,L,al)); }; s.run=[=](uint64_t i, Ctx&c){ B b=bytes(i,L,al); if(m) message_case(c,b); else varint_case(c,b); }; v.push_back(s); }
	{ Suite s; s.name="varint_ten"; s.bounds="nine continuation bytes out of {80,81,ff}, every tenth byte, every eleventh byte or none"; s.count=(A?81:19683)*256ull; s.describe=[=](uint64_t i){ return fmt("prefix %u tenth byte %02x",(unsigned)(i/256),(unsigned)(i%256)); }; s.run=[=](uint64_t i, Ctx&c){ const unsigned char al[3]={0x80,0x81,0xff}; vx::Dec d(i/256); B b; for(unsigned k=0;k<9;++k) b+=(char)al[d.get(3)]; b+=(char)(i%256); varint_case(c,b); for(unsigned char y:{0x00,0x01,0x7f,0x80,0xff}) varint_case(c,b+(char)y); varint_case(c,b+"\x80\x80\x01"); }; v.push_back(s); }
	{ Suite s; s.name="values"; s.bounds="all values 2^a + 2^b + d, d in -2..2, as varint followed by other bytes, zigzag, field ids and lengths"; s.count=65*65*5; s.describe=[](uint64_t i){ return fmt("%u %u %d",(unsigned)(i/5%65),(unsigned)(i/325),(int)(i%5)-2); }; s.run=[=](uint64_t i, Ctx&c){ auto pw=[](unsigned k)->uint64_t{ return k==64?0:1ull<<k; }; uint64_t x=pw(i/5%65)+pw(i/325)+(uint64_t)((int64_t)(i%5)-2); B b; put_varint(b,x); varint_case(c,b); varint_case(c,b+"\xff\x01"); for(size_t k=0;k<b.size();++k) varint_case(c,b.substr(0,k)); { B nc=b; if(nc.size()<10){ nc.back()|=0x80; nc+='\0'; varint_case(c,nc); } }
		c.eqs(zigzag_convert_uint64_to_int64(zz((int64_t)x)),(int64_t)x,"zigzag"); int64_t w=(x&1)?-(int64_t)(x>>1)-1:(int64_t)(x>>1); c.eqs(zigzag_convert_uint64_to_int64(x),w,"zigzag of a code"); c.transitions+=2; B m; put_varint(m,x&~7ull); put_varint(m,x); message_case(c,m); B n; put_varint(n,(x&~7ull)|2); put_varint(n,x); n+="abc"; message_case(c,n); B l; put_varint(l,0x12); put_varint(l,3); l+="abc"; f_varint(l,1,x); message_case(c,l); B dd; f_fix64(dd,3,0); for(int k=0;k<8;++k) dd[1+k]=(char)(x>>(8*k)); message_case(c,dd); B ff; f_fix32(ff,3,0); for(int k=0;k<4;++k) ff[1+k]=(char)(x>>(8*k)); message_case(c,ff); }; v.push_back(s); }
	{ Suite s; s.name="truncated_messages"; s.bounds="messages with every sequence of up to 4 fields out of 7, cut at every byte"; s.count=total(7,4); auto mk=[=](uint64_t e){ unsigned l=0; while(e>=vx::ipow(7,l)){ e-=vx::ipow(7,l); ++l; } vx::Dec d(e); B b; for(unsigned i=0;i<l;++i) switch(d.get(7)){ case 0: f_varint(b,1,5); break; case 1: f_varint(b,2047,~0ull); break; case 2: f_fix64(b,2,-1.25); break; case 3: f_fix32(b,300,7.5f); break; case 4: f_bytes(b,3,""); break; case 5: f_bytes(b,4,B(130,'x')); break; case 6: f_bytes(b,16,"ab"); break; } return b; }; s.describe=[=](uint64_t i){ return hex(mk(i)).substr(0,300); }; s.run=[=](uint64_t i, Ctx&c){ B b=mk(i); for(size_t k=0;k<=b.size();++k) message_case(c,b.substr(0,k)); }; v.push_back(s); }
}
void make(std::vector<Suite>&v, const std::string&p){ if(p=="C34"){ make23(v); make24(v); v.erase(std::remove_if(v.begin(),v.end(),[](const Suite&s){ for(const char*n:{"objects_style0","objects_style1","objects_style3","header_lengths","orders","long_blocks","truncated_","changed_0","changed_3"}) if(s.name.compare(0,strlen(n),n)==0&&(strlen(n)<14||s.name==n)) return false; return true; }),v.end()); } if(p=="C23") make23(v); if(p=="C24") make24(v); if(p=="C30") make30(v); }
}
int main(int argc, char**argv){ if(argc<2) return 2; std::string p=argv[1]; return vx::run_all(argc-1,argv+1,p,make); }
