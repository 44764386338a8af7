// writer of OSM PBF files in many encodings, and a recorder for what the decoder delivers
#ifndef VERIF_PBF_H
#define VERIF_PBF_H
#include "vx.h"
#include <routingkit/osm_decoder.h>
#include <zlib.h>
#include <sys/syscall.h>
#include <map>
#include <math.h>
#include <memory>
namespace pbf{
typedef std::string B;
inline void put_varint(B&o, uint64_t x){ while(x>=128){ o+=char(x|128); x>>=7; } o+=char(x); }
inline uint64_t zz(int64_t x){ return ((uint64_t)x<<1)^(uint64_t)(x>>63); }
inline void f_varint(B&o, unsigned id, uint64_t v){ put_varint(o,id<<3); put_varint(o,v); }
inline void f_bytes(B&o, unsigned id, const B&b){ put_varint(o,id<<3|2); put_varint(o,b.size()); o+=b; }
inline void f_fix64(B&o, unsigned id, double d){ put_varint(o,id<<3|1); char t[8]; memcpy(t,&d,8); o.append(t,8); }
inline void f_fix32(B&o, unsigned id, float d){ put_varint(o,id<<3|5); char t[4]; memcpy(t,&d,4); o.append(t,4); }
typedef std::vector<std::pair<std::string,std::string>> Tags;
struct Member{ int type; uint64_t id; std::string role; };
struct Obj{ char kind; uint64_t id; int64_t lat,lon; Tags tags; std::vector<uint64_t>nodes; std::vector<Member>members; }; // kind n/w/r; lat and lon in nanodegree
struct Style{
	unsigned blob=0;      // 0 raw, 1 raw with raw_size, 2 zlib, 3 zlib level 0, 4 zlib best
	bool dense=true; unsigned empty_kv=0; // 0: leave out an empty key value array, 1: write it as an empty array, 2: write the terminators
	int64_t gran=0; int64_t lato=0,lono=0; // 0: absent
	unsigned unknown=0;   // unknown fields at every level
	bool reversed=false;  // fields in descending order
	unsigned header=1;    // 0 none, 1 raw, 2 zlib
	unsigned extra=0;     // 1: block of unknown type in front, 2: between, 3: behind; 4: empty data block in front, 5: empty group
	unsigned strings=0;   // 0: first use, 1: reversed with unused entries, 2: repeated
	unsigned index=0;     // bytes of index data in the block header
	unsigned split=0;     // unused by the writer
};
inline B assemble(std::vector<B>f, bool rev){ B r; if(rev) std::reverse(f.begin(),f.end()); for(auto&x:f) r+=x; return r; }
inline void noise(std::vector<B>&f, unsigned u){
	if(!u) return; B a,b,c,d; f_varint(a,31,~0ull); f_fix64(b,33,1.5); f_fix32(c,34,2.5f); f_bytes(d,35,B("\x0a\xff\x00junk",7)); f.insert(f.begin(),a); f.push_back(b); if(u>1){ f.insert(f.begin(),c); f.push_back(d); f.push_back(B()); f_bytes(f.back(),4095,""); }
}
inline B blob(const B&data, unsigned kind, unsigned unknown, bool rev){
	std::vector<B>f; B x;
	if(kind<2){ f_bytes(x,1,data); f.push_back(x); if(kind==1){ B y; f_varint(y,2,data.size()); f.push_back(y); } }
	else{ uLongf n=compressBound(data.size()); B z(n,0); compress2((Bytef*)&z[0],&n,(const Bytef*)data.data(),data.size(),kind==2?6:(kind==3?0:9)); z.resize(n); B y; f_varint(y,2,data.size()); f.push_back(y); f_bytes(x,3,z); f.push_back(x); }
	if(unknown){ B u; f_varint(u,31,7); f.push_back(u); B w; f_bytes(w,33,"index"); f.insert(f.begin(),w); } return assemble(f,rev);
}
inline B frame(const B&type, const B&b, unsigned unknown, bool rev, unsigned index=0){
	std::vector<B>f; B t,i,s; f_bytes(t,1,type); f.push_back(t); if(unknown||index){ f_bytes(i,2,index?B(index,7):B("\x00\x01\x02",3)); f.push_back(i); } f_varint(s,3,b.size()); f.push_back(s); if(unknown>1){ B u; f_fix64(u,9,3.0); f.push_back(u); }
	B h=assemble(f,rev),o; uint32_t n=h.size(); o+=char(n>>24); o+=char(n>>16); o+=char(n>>8); o+=char(n); return o+h+b;
}
inline B header_block(unsigned unknown){ B h,bb; f_varint(bb,1,zz(-100)); f_bytes(h,1,bb); f_bytes(h,4,"OsmSchema-V0.6"); f_bytes(h,4,"DenseNodes"); f_bytes(h,16,"writer"); if(unknown) f_varint(h,32,12345); return h; }
struct Strings{
	std::vector<std::string>s; std::map<std::string,unsigned>at;
	unsigned id(const std::string&x){ auto i=at.find(x); return i->second; }
	Strings(const std::vector<std::string>&use, unsigned style){ s.push_back(""); std::vector<std::string>u; { std::map<std::string,char>seen; for(auto&x:use) if(seen.insert({x,1}).second) u.push_back(x); }
		if(style==1){ s.push_back("unused"); std::reverse(u.begin(),u.end()); } if(style==2) for(auto&x:u) s.push_back(x); for(auto&x:u){ at[x]=s.size(); s.push_back(x); } if(style==1) s.push_back(""); if(style==1) s.push_back("also unused"); }
};
struct Group{ std::vector<const Obj*>o; };
struct Block{ std::vector<Group>g; };
inline int64_t units(const Style&s, int64_t nano, int64_t off){ int64_t g=s.gran?s.gran:100; return (nano-off)/g; }
inline B data_block(const Block&b, const Style&s){
	std::vector<std::string>use; for(auto&g:b.g) for(auto o:g.o){ for(auto&t:o->tags){ use.push_back(t.first); use.push_back(t.second); } for(auto&m:o->members) use.push_back(m.role); } Strings st(use,s.strings);
	std::vector<B>top; { std::vector<B>l; for(auto&x:st.s){ B e; f_bytes(e,1,x); l.push_back(e); } B t,all; for(auto&x:l) all+=x; f_bytes(t,1,all); top.push_back(t); }
	auto kv=[&](const Obj&o, std::vector<B>&f){ B k,v; for(auto&t:o.tags){ put_varint(k,st.id(t.first)); put_varint(v,st.id(t.second)); } if(!o.tags.empty()||s.empty_kv){ B a,c; f_bytes(a,2,k); f_bytes(c,3,v); f.push_back(a); f.push_back(c); } };
	for(auto&g:b.g){
		std::vector<B>gf;
		if(s.dense && !g.o.empty() && g.o[0]->kind=='n'){
			B ids,la,lo,k; int64_t pi=0,pa=0,po=0; bool any=false; for(auto o:g.o){ int64_t a=units(s,o->lat,s.lato),q=units(s,o->lon,s.lono); put_varint(ids,zz((int64_t)(o->id-pi))); put_varint(la,zz(a-pa)); put_varint(lo,zz(q-po)); pi=o->id; pa=a; po=q; for(auto&t:o->tags){ put_varint(k,st.id(t.first)); put_varint(k,st.id(t.second)); any=true; } put_varint(k,0); }
			std::vector<B>f(3); f_bytes(f[0],1,ids); f_bytes(f[1],8,la); f_bytes(f[2],9,lo); if(any||s.empty_kv){ B x; f_bytes(x,10,any||s.empty_kv==2?k:B()); f.push_back(x); } if(s.unknown){ B info; f_bytes(info,5,B("\x0a\x01\x01",3)); f.push_back(info); } noise(f,s.unknown); B x; f_bytes(x,2,assemble(f,s.reversed)); gf.push_back(x);
		}else for(auto o:g.o){
			std::vector<B>f; B x;
			if(o->kind=='n'){ f_varint(x,1,zz(o->id)); f.push_back(x); kv(*o,f); B a,q; f_varint(a,8,zz(units(s,o->lat,s.lato))); f.push_back(a); f_varint(q,9,zz(units(s,o->lon,s.lono))); f.push_back(q); }
			else if(o->kind=='w'){ f_varint(x,1,o->id); f.push_back(x); kv(*o,f); B r; int64_t p=0; for(auto n:o->nodes){ put_varint(r,zz((int64_t)(n-p))); p=n; } if(!o->nodes.empty()||s.empty_kv){ B y; f_bytes(y,8,r); f.push_back(y); } }
			else{ f_varint(x,1,o->id); f.push_back(x); kv(*o,f); B ro,id,ty; int64_t p=0; for(auto&m:o->members){ put_varint(ro,st.id(m.role)); put_varint(id,zz((int64_t)(m.id-p))); p=m.id; put_varint(ty,m.type); } if(!o->members.empty()||s.empty_kv){ std::vector<B>y(3); f_bytes(y[0],8,ro); f_bytes(y[1],9,id); f_bytes(y[2],10,ty); for(auto&q:y) f.push_back(q); } }
			if(s.unknown){ B info,i2; f_varint(i2,1,3); f_bytes(info,4,i2); f.push_back(info); } noise(f,s.unknown); B y; f_bytes(y,o->kind=='n'?1:(o->kind=='w'?3:4),assemble(f,s.reversed)); gf.push_back(y);
		}
		if(s.unknown){ B cs; f_bytes(cs,5,"change set"); gf.push_back(cs); }
		B x; f_bytes(x,2,assemble(gf,false)); top.push_back(x);
	}
	if(s.extra==5){ B x; f_bytes(x,2,""); top.push_back(x); }
	std::vector<B>opt; if(s.gran){ B x; f_varint(x,17,s.gran); opt.push_back(x); } if(s.lato){ B x; f_varint(x,19,(uint64_t)s.lato); opt.push_back(x); } if(s.lono){ B x; f_varint(x,20,(uint64_t)s.lono); opt.push_back(x); }
	B pre,suf; for(auto&x:top) (s.reversed?suf:pre)+=x; B o; for(auto&x:opt) o+=x; if(s.unknown){ B u; f_varint(u,18,1000); f_fix32(u,40,1.f); f_fix64(u,41,2.); f_bytes(u,42,"?"); o+=u; } // groups keep their order, the string table comes first or last
	if(s.reversed){ B gs; for(unsigned i=1;i<top.size();++i) gs+=top[i]; return o+gs+top[0]; } return pre+o;
}
inline std::vector<B> pieces(const std::vector<Block>&bl, const Style&s){ // one element per file block
	std::vector<B>r; if(s.header) r.push_back(frame("OSMHeader",blob(header_block(s.unknown),s.header==1?1:2,0,false),s.unknown,s.reversed));
	B unk=frame("SomethingNew",B("not a blob at all"),s.unknown,s.reversed); if(s.extra==1) r.push_back(unk); if(s.extra==4) r.push_back(frame("OSMData",blob(data_block(Block(),s),s.blob,s.unknown,s.reversed),s.unknown,s.reversed));
	for(unsigned i=0;i<bl.size();++i){ r.push_back(frame("OSMData",blob(data_block(bl[i],s),s.blob,s.unknown,s.reversed),s.unknown,s.reversed,s.index)); if(s.extra==2&&i==0) r.push_back(unk); } if(s.extra==3) r.push_back(unk); return r;
}
inline B join(const std::vector<B>&v){ B r; for(auto&x:v) r+=x; return r; }

// a file that lives in memory only
struct MemFile{ int fd; std::string name; MemFile(const B&content){ fd=syscall(SYS_memfd_create,"pbf",0); if(fd<0) throw std::runtime_error("memfd_create"); size_t p=0; while(p<content.size()){ ssize_t k=write(fd,content.data()+p,content.size()-p); if(k<=0) throw std::runtime_error("write"); p+=k; } name=vx::fmt("/proc/self/fd/%d",fd); } ~MemFile(){ close(fd); } MemFile(const MemFile&)=delete; };

inline Obj expected(const Obj&o, const Style&s){ Obj r=o; int64_t g=s.gran?s.gran:100; r.lat=s.lato+g*units(s,o.lat,s.lato); r.lon=s.lono+g*units(s,o.lon,s.lono); return r; }
inline std::string show(const Obj&o){ std::string r=vx::fmt("%c%llu",o.kind,(unsigned long long)o.id); if(o.kind=='n') r+=vx::fmt("@%lld/%lld",(long long)o.lat,(long long)o.lon); r+="{"; for(auto&t:o.tags) r+=t.first.substr(0,20)+"="+t.second.substr(0,20)+";"; r+="}"; if(o.kind=='w'){ r+="["; for(auto n:o.nodes) r+=vx::fmt("%llu ",(unsigned long long)n); r+="]"; } for(auto&m:o.members) r+=vx::fmt("(%d %llu %s)",m.type,(unsigned long long)m.id,m.role.substr(0,20).c_str()); return r; }
inline std::string show(const std::vector<Obj>&v){ std::string r; for(auto&o:v) r+=show(o)+" "; return r; }
struct Recorder{
	std::vector<Obj>got; uint64_t calls=0; std::string bad; uint64_t touched=0;
	static const std::vector<std::string>&probes(){ static const std::vector<std::string>p={"","highway","name","x","unused","type","no such key"}; return p; }
	void tags(Obj&o, const RoutingKit::TagMap&t){
		unsigned n=0; for(auto&e:t){ if(!e.key||!e.value){ bad="a tag without key or value"; continue; } o.tags.push_back({e.key,e.value}); ++n; } if(n!=t.size()) bad="size of the tag map"; if(t.empty()!=(n==0)) bad="empty of the tag map";
		auto look=[&](const std::string&k){ const char*v=t[k.c_str()]; const std::string*w=0; for(auto&x:o.tags) if(x.first==k){ w=&x.second; break; } if(!w? v!=0 : (!v||*w!=v)) bad="lookup of tag '"+k+"'"; }; for(auto&x:o.tags) look(x.first); for(auto&k:probes()) look(k);
		std::sort(o.tags.begin(),o.tags.end());
	}
	std::function<void(uint64_t,double,double,const RoutingKit::TagMap&)> node(){ return [this](uint64_t id, double a, double b, const RoutingKit::TagMap&t){ ++calls; Obj o; o.kind='n'; o.id=id; auto r=[](double d)->int64_t{ uint64_t x; memcpy(&x,&d,8); if((x>>52&0x7ff)>1023+33) return INT64_MIN; return llround(d*1e9); }; o.lat=r(a); o.lon=r(b); tags(o,t); got.push_back(o); }; }
	std::function<void(uint64_t,const std::vector<uint64_t>&,const RoutingKit::TagMap&)> way(){ return [this](uint64_t id, const std::vector<uint64_t>&n, const RoutingKit::TagMap&t){ ++calls; Obj o; o.kind='w'; o.id=id; o.lat=o.lon=0; o.nodes=n; tags(o,t); got.push_back(o); }; }
	std::function<void(uint64_t,const std::vector<RoutingKit::OSMRelationMember>&,const RoutingKit::TagMap&)> relation(){ return [this](uint64_t id, const std::vector<RoutingKit::OSMRelationMember>&m, const RoutingKit::TagMap&t){ ++calls; Obj o; o.kind='r'; o.id=id; o.lat=o.lon=0; for(auto&x:m){ if(!x.role) bad="member without role"; int ty=x.type==RoutingKit::OSMIDType::node?0:(x.type==RoutingKit::OSMIDType::way?1:(x.type==RoutingKit::OSMIDType::relation?2:9)); if(ty==9) bad="member type"; o.members.push_back({ty,x.id,x.role?x.role:""}); } tags(o,t); got.push_back(o); }; }
};
inline std::string differ(std::vector<Obj>want, const std::vector<Obj>&got){ // "" if equal
	for(auto&o:want) std::sort(o.tags.begin(),o.tags.end());
	for(unsigned i=0;i<want.size()||i<got.size();++i){
		if(i>=got.size()) return "missing "+show(want[i]); if(i>=want.size()) return "unexpected "+show(got[i]); auto&a=want[i]; auto&b=got[i];
		bool ok=a.kind==b.kind&&a.id==b.id&&a.tags==b.tags&&a.nodes==b.nodes&&a.members.size()==b.members.size(); if(ok&&a.kind=='n') ok=std::llabs(a.lat-b.lat)<=2&&std::llabs(a.lon-b.lon)<=2; if(ok) for(unsigned j=0;j<a.members.size();++j) if(a.members[j].type!=b.members[j].type||a.members[j].id!=b.members[j].id||a.members[j].role!=b.members[j].role) ok=false;
		if(!ok) return vx::fmt("object %u is ",i)+show(b)+" instead of "+show(a);
	} return "";
}
}
#endif
