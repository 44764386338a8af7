// C28: TagMap against a list of pairs.
#include "../lib/vx.h"
#include <routingkit/tag_map.h>
#include <memory>
#include <map>
using namespace RoutingKit; using vx::Ctx; using vx::Suite; using vx::Dec;
typedef std::vector<std::pair<std::string,std::string>> List;

// strings in exactly fitting heap blocks, so that reading past the end is seen
struct Store{
	std::vector<std::unique_ptr<char[]>> k, v;
	Store(const List&l){ for(auto&e:l){ k.push_back(mk(e.first)); v.push_back(mk(e.second)); } }
	static std::unique_ptr<char[]> mk(const std::string&s){ std::unique_ptr<char[]>p(new char[s.size()+1]); memcpy(p.get(), s.c_str(), s.size()+1); return p; }
};
struct Built{
	TagMap m; List cur; std::vector<std::shared_ptr<Store>> keep;
	void build(const List&l){
		std::shared_ptr<Store> s(new Store(l)); keep.push_back(s); cur=l;
		Store*p=s.get(); unsigned n=l.size();
		m.build(n, [p,n](unsigned i){ if(i>=n) throw std::runtime_error("key index out of range"); return (const char*)p->k[i].get(); },
			[p,n](unsigned i){ if(i>=n) throw std::runtime_error("value index out of range"); return (const char*)p->v[i].get(); });
	}
};
static std::string show(const List&l){ std::string r="{"; for(size_t i=0;i<l.size()&&i<12;++i) r+=(i?", ":"")+l[i].first+"="+l[i].second; return r+(l.size()>12?", ...}":"}"); }

static void lookup(Ctx&c, const TagMap&m, const List&l, const std::map<std::string,std::string>&first, const std::string&key){
	++c.transitions;
	auto p=Store::mk(key);
	const char*g=m[p.get()];
	auto f=first.find(key);
	++c.states;
	if(f==first.end()){ if(g) c.fail("lookup of '"+key+"' in "+show(l)+" gives '"+g+"' instead of nothing"); }
	else{
		if(!g) c.fail("lookup of '"+key+"' in "+show(l)+" gives nothing");
		if(f->second!=g) c.fail("lookup of '"+key+"' in "+show(l)+" gives '"+g+"' instead of '"+f->second+"'");
	}
}
static std::map<std::string,std::string> firsts(const List&l){ std::map<std::string,std::string> r; for(auto&e:l) r.insert(e); return r; }
static void judge(Ctx&c, const TagMap&m, const List&l, const std::vector<std::string>&probe){
	auto f=firsts(l);
	c.eqs(m.size(), (unsigned)l.size(), "size()");
	c.eqs(m.empty(), l.empty(), "empty()");
	List it; for(auto i=m.begin(); i!=m.end(); ++i) it.push_back({i->key,i->value});
	List w=l; std::sort(w.begin(),w.end()); std::sort(it.begin(),it.end());
	if(w!=it) c.fail("iteration over "+show(l)+" shows (sorted) "+show(it));
	for(auto&k:probe) lookup(c,m,l,f,k);
	for(auto&e:l) lookup(c,m,l,f,e.first);
}
// many of these share a hash: vowel classes ignore case, other characters are taken modulo seven, only first, middle and last character count
static const std::vector<std::string> U={"", "a","A","e","b","i", "aa","aA", "axa","aya","axya", "highway","hiGhway","hixhway","highwxy","name","nAmE","\xc3\xa4","\xff","\x01"};

static Suite s_lists(){
	Suite s; s.name="lists"; bool t=!vx::opt().asan();
	unsigned k=U.size(), d=vx::opt().thorough()?5:(t?5:4);
	s.bounds=vx::fmt("every list of up to %u tags over %u keys (colliding and repeated ones included), all keys looked up", d, k);
	s.count=0; for(unsigned i=0;i<=d;++i) s.count+=vx::ipow(k,i);
	auto dec=[k,d](uint64_t x){ List l; for(unsigned i=0;i<=d;++i){ uint64_t n=vx::ipow(k,i); if(x<n){ Dec q(x); for(unsigned j=0;j<i;++j) l.push_back({U[q.get(k)],"v"+std::to_string(j)}); return l; } x-=n; } abort(); };
	s.run=[dec](uint64_t x, Ctx&c){ Built b; b.build(dec(x)); judge(c,b.m,b.cur,U); ++c.traces; };
	s.describe=[dec](uint64_t x){ return show(dec(x)); };
	return s;
}
static std::vector<List> contents(){
	return { {}, {{"a","1"}}, {{"A","2"}}, {{"a","3"},{"A","4"},{"e","5"}}, {{"e","6"},{"a","7"}}, {{"highway","8"},{"hixhway","9"},{"name",""}}, {{"name","10"},{"name","11"}}, {{"","12"},{"b","13"}} };
}
static Suite s_hist(){
	Suite s; s.name="histories"; unsigned d=vx::opt().asan()?4:(vx::opt().thorough()?6:5); unsigned k=8+5;
	s.bounds=vx::fmt("all histories of %u operations on two tag maps: build from 8 lists, build from a range of 40 tags, clear, copy to the other, move to the other, swap; everything judged after every operation", d);
	s.count=vx::ipow(k,d);
	static const std::vector<List> L=contents();
	auto dec=[k,d](uint64_t x){ std::vector<unsigned> r; Dec q(x); for(unsigned i=0;i<d;++i) r.push_back(q.get(k)); return r; };
	s.run=[dec](uint64_t x, Ctx&c){
		Built a,b; unsigned step=0;
		for(unsigned op:dec(x)){
			++c.transitions; c.note="after operation "+std::to_string(++step);
			if(op<8) a.build(L[op]);
			else if(op==8){ List l; for(int i=0;i<40;++i) l.push_back({"k"+std::to_string(i),std::to_string(i)}); a.build(l); }
			else if(op==9){ a.m.clear(); a.cur.clear(); }
			else if(op==10){ b.m=a.m; b.cur=a.cur; for(auto&p:a.keep) b.keep.push_back(p); }
			else if(op==11){ TagMap t(std::move(a.m)); b.m=t; b.cur=a.cur; for(auto&p:a.keep) b.keep.push_back(p); a.m=TagMap(); a.cur.clear(); }
			else{ std::swap(a.m,b.m); std::swap(a.cur,b.cur); for(auto&p:std::vector<std::shared_ptr<Store>>(a.keep)) b.keep.push_back(p); for(auto&p:std::vector<std::shared_ptr<Store>>(b.keep)) a.keep.push_back(p); }
			judge(c,a.m,a.cur,U); judge(c,b.m,b.cur,U);
			lookup(c,a.m,a.cur,firsts(a.cur),"k39");
		}
		++c.traces;
	};
	s.describe=[dec](uint64_t x){ return vx::str(dec(x)); };
	return s;
}
static Suite s_sizes(){
	Suite s; s.name="sizes"; s.bounds="0..300, 1000, 4095..4097, 65535 and 65536 distinct tags, in ascending, descending and colliding key forms; every key and an absent key looked up"; s.count=306*3;
	auto dec=[](uint64_t x, unsigned&n, unsigned&f){ Dec q(x); f=q.get(3); unsigned i=q.get(306); n= i<=300?i: i==301?1000: i==302?4095: i==303?4096: i==304?65535:65536; };
	s.run=[dec](uint64_t x, Ctx&c){
		unsigned n,f; dec(x,n,f); List l;
		bool big=n>5000;
		for(unsigned i=0;i<n;++i){ unsigned j=f==1?n-1-i:i; std::string num=std::to_string(j);
			// form 2: one hash for all, which makes large maps slow: limit
			l.push_back({ f==2&&!big ? "q"+std::string(2*(6-num.size()),'-')+ num+"q"+num+"q" : num, "v"+num}); }
		Built b; b.build(l); auto fst=firsts(l);
		c.eqs(b.m.size(), n, "size()");
		unsigned step=big?7:1;
		for(unsigned i=0;i<n;i+= (i<200||i+200>n)?1:step) lookup(c,b.m,l,fst,l[i].first);
		lookup(c,b.m,l,fst,"absent"); lookup(c,b.m,l,fst,std::to_string(n));
		std::vector<std::string> seen; for(auto i=b.m.begin();i!=b.m.end();++i) seen.push_back(i->key);
		std::vector<std::string> w; for(auto&e:l) w.push_back(e.first);
		std::sort(seen.begin(),seen.end()); std::sort(w.begin(),w.end());
		c.expect(seen==w, "iteration does not show exactly the keys");
		b.m.clear(); b.cur.clear(); judge(c,b.m,b.cur,{"0","1",n?l[n/2].first:"x"});
		++c.traces;
	};
	s.describe=[dec](uint64_t x){ unsigned n,f; dec(x,n,f); return vx::fmt("%u tags, form %u",n,f); };
	return s;
}
static Suite s_bytes(){
	Suite s; s.name="byte_values"; s.bounds="all strings of one and two bytes (every byte value but zero) as keys: alone, with every string of one byte present, and one map with all of them"; s.count=256;
	s.run=[](uint64_t x, Ctx&c){
		if(x==0){
			List l; l.push_back({"","e"}); for(int a=1;a<256;++a){ l.push_back({std::string(1,(char)a),"v"}); for(int b=1;b<256;++b) l.push_back({std::string{(char)a,(char)b},"v"+std::to_string(a*256+b)}); }
			Built b; b.build(l); auto f=firsts(l); for(auto&e:l) lookup(c,b.m,l,f,e.first);
			lookup(c,b.m,l,f,"abc");
		}else{
			List one; for(int a=1;a<256;++a) if(a!=(int)x) one.push_back({std::string(1,(char)a),std::to_string(a)});
			Built b; b.build(one); auto f=firsts(one);
			lookup(c,b.m,one,f,std::string(1,(char)x)); for(auto&e:one) lookup(c,b.m,one,f,e.first);
			for(int y=1;y<256;++y){ std::string k{(char)x,(char)y}; lookup(c,b.m,one,f,k); List l{{k,"z"}}; Built d; d.build(l); judge(c,d.m,l,{std::string(1,(char)x)}); }
		}
		++c.traces;
	};
	s.describe=[](uint64_t x){ return vx::fmt("first byte %u",(unsigned)x); };
	return s;
}
static void make(std::vector<Suite>&v, const std::string&){ v={s_lists(),s_hist(),s_sizes(),s_bytes()}; }
int main(int argc,char**argv){ if(argc<2) return 2; std::string p=argv[1]; return vx::run_all(argc-1,argv+1,p,make); }
