// C31: text conversion of vector files, C32: graph conversion programs, C33: query programs.
// Every case runs the repository's programs as processes on files in a scratch directory.
#include "../lib/pbf.h"
#include <routingkit/constants.h>
#include "../lib/graphs.h"
#include <routingkit/vector_io.h>
#include <routingkit/osm_simple.h>
#include <spawn.h>
#include <math.h>
#include <set>
#include <map>
#include <array>
#include <algorithm>
extern char**environ;
using vx::Ctx; using vx::Suite; using vx::Dec; using vx::fmt;
typedef std::string S; typedef std::vector<S> VS; typedef std::vector<unsigned> V; typedef std::vector<float> VF;

// ---------------------------------------------------------------- processes and files
static const S&dir(){ static S d; static pid_t owner=0; if(owner!=getpid()){ owner=getpid(); d=vx::opt().scratch+fmt("/cli%d",(int)getpid()); mkdir(d.c_str(),0755); } return d; }
static S P(const S&name){ return dir()+"/"+name; }
static void put(const S&name, const S&content){ FILE*f=fopen(P(name).c_str(),"wb"); if(!f) throw std::runtime_error("scratch"); fwrite(content.data(),1,content.size(),f); fclose(f); }
static bool get(const S&name, S&r){ r.clear(); FILE*f=fopen(P(name).c_str(),"rb"); if(!f) return false; char b[1<<16]; size_t k; while((k=fread(b,1,sizeof b,f))>0) r.append(b,k); fclose(f); return true; }
static void del(const S&name){ unlink(P(name).c_str()); }
template<class T> S bytes(const std::vector<T>&v){ return S((const char*)v.data(),v.size()*sizeof(T)); }
template<class T> void putv(const S&name, const std::vector<T>&v){ put(name,bytes(v)); }
template<class T> std::vector<T> getv(Ctx&c, const S&name){ S s; if(!get(name,s)) c.fail("file "+name+" is not written"); if(s.size()%sizeof(T)) c.fail("file "+name+" has an odd size"); std::vector<T>v(s.size()/sizeof(T)); memcpy((void*)v.data(),s.data(),s.size()); return v; }
struct Res{ int code; bool crashed; S out, err; };
static Res run(Ctx&c, const S&tool, const VS&args, const S&in=""){
	static S tools=getenv("VX_TOOLS")?getenv("VX_TOOLS"):""; S exe=tools+"/"+tool;
	put("stdin",in); std::vector<char*>a; a.push_back((char*)exe.c_str()); for(auto&x:args) a.push_back((char*)x.c_str()); a.push_back(0);
	posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); S i=P("stdin"),o=P("stdout"),e=P("stderr");
	posix_spawn_file_actions_addopen(&fa,0,i.c_str(),O_RDONLY,0); posix_spawn_file_actions_addopen(&fa,1,o.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644); posix_spawn_file_actions_addopen(&fa,2,e.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644);
	pid_t p; int k=posix_spawn(&p,exe.c_str(),&fa,0,a.data(),environ); posix_spawn_file_actions_destroy(&fa); if(k) throw std::runtime_error("cannot start "+exe);
	int st; while(waitpid(p,&st,0)<0) if(errno!=EINTR) throw std::runtime_error("waitpid");
	++c.transitions; Res r; get("stdout",r.out); get("stderr",r.err); r.crashed=WIFSIGNALED(st)||(WIFEXITED(st)&&(WEXITSTATUS(st)==77||WEXITSTATUS(st)==78||WEXITSTATUS(st)>=126)); r.code=WIFEXITED(st)?WEXITSTATUS(st):1000+WTERMSIG(st);
	if(r.crashed){ S x=r.err; size_t q=x.find("ERROR: AddressSanitizer"); if(q!=S::npos) x=x.substr(q); c.fail(tool+fmt(" crashes (%d): ",r.code)+x.substr(0,500)); }
	return r;
}
static Res good(Ctx&c, const S&tool, const VS&args, const S&in=""){ auto r=run(c,tool,args,in); ++c.states; if(r.code) c.fail(tool+fmt(" fails with status %d: ",r.code)+r.err.substr(0,300)); return r; }
// the program has to fail and to leave the files that it would write alone
static void bad(Ctx&c, const S&tool, const VS&args, const VS&outs, const S&in=""){
	std::vector<S>before; for(auto&f:outs){ S x; if(!get(f,x)){ x="sentinel "+f; put(f,x); } before.push_back(x); }
	auto r=run(c,tool,args,in); ++c.states; if(r.code==0) c.fail(tool+" accepts wrong input (status 0)"+(r.err.empty()?S():", having printed: "+r.err.substr(0,200)));
	for(unsigned i=0;i<outs.size();++i){ S x; ++c.states; if(!get(outs[i],x)||x!=before[i]) c.fail(tool+" fails but overwrites "+outs[i]); }
}
static S esc(const S&s){ S r; for(char ch:s){ if(ch=='\n') r+="\\n"; else if(ch=='\\') r+="\\\\"; else r+=ch; } return r.substr(0,400); }
static Suite mk(S name, S bounds, uint64_t count, std::function<void(uint64_t,Ctx&)>f, std::function<S(uint64_t)>d){ Suite s; s.name=name; s.bounds=bounds; s.count=count; s.run=[f,d](uint64_t i, Ctx&c){ c.note=d(i); f(i,c); ++c.traces; }; s.describe=d; s.case_timeout=120; return s; }
static bool A(){ return vx::opt().asan(); } static bool TH(){ return vx::opt().thorough(); }

// ---------------------------------------------------------------- C31
static const char*TY[]={"int8","uint8","int16","uint16","int32","uint32","int64","uint64","float32","float64","string"};
static unsigned width(unsigned t){ static const unsigned w[]={1,1,2,2,4,4,8,8,4,8}; return w[t]; }
typedef __int128 I; typedef std::vector<I> VI;
static I imin(unsigned t){ return t%2?0:-((I)1<<(8*width(t)-1)); } static I imax(unsigned t){ return t%2?((I)1<<(8*width(t)))-1:((I)1<<(8*width(t)-1))-1; }
static S dec(I x){ if(x==0) return "0"; S r; bool n=x<0; if(n) x=-x; while(x>0){ r+=char('0'+(int)(x%10)); x/=10; } if(n) r+='-'; std::reverse(r.begin(),r.end()); return r; }
static S raw(unsigned t, const VI&v){ S r; for(I x:v) for(unsigned b=0;b<width(t);++b) r+=char((unsigned char)((unsigned __int128)x>>(8*b))); return r; }
static S text(const VI&v){ S r; for(I x:v) r+=dec(x)+"\n"; return r; }
static void int_case(Ctx&c, unsigned t, const VI&v){
	S b=raw(t,v), x=text(v); put("a",b); auto r=good(c,"decode_vector",{TY[t],P("a")}); if(r.out!=x) c.fail(S("decoding ")+TY[t]+" "+esc(x)+" prints "+esc(r.out));
	put("o","sentinel"); good(c,"encode_vector",{TY[t],P("o")},x); S y; get("o",y); ++c.states; if(y!=b) c.fail(S("encoding ")+TY[t]+" "+esc(x)+fmt(" gives %zu bytes that differ",y.size()));
	if(!v.empty()){ x.pop_back(); good(c,"encode_vector",{TY[t],P("o")},x); get("o",y); ++c.states; if(y!=b) c.fail(S("encoding without final line break ")+TY[t]+" "+esc(x)); }
}
static void float_case(Ctx&c, unsigned t, const S&b){
	put("a",b); auto r=good(c,"decode_vector",{TY[t],P("a")}); put("o","sentinel"); good(c,"encode_vector",{TY[t],P("o")},r.out); S y; get("o",y); c.states+=b.size()/width(t);
	if(y==b) return; if(y.size()!=b.size()) c.fail("number of elements changes"); for(unsigned i=0;i<b.size();i+=width(t)) if(y.substr(i,width(t))!=b.substr(i,width(t))){ if(t==8){ uint32_t p,q; memcpy(&p,&b[i],4); memcpy(&q,&y[i],4); c.fail(fmt("float32 with bits %08x becomes %08x",p,q)); } else { uint64_t p,q; memcpy(&p,&b[i],8); memcpy(&q,&y[i],8); c.fail(fmt("float64 with bits %016llx becomes %016llx",(unsigned long long)p,(unsigned long long)q)); } }
}
static S sraw(const VS&v){ S r; for(auto&x:v){ r+=x; r+='\0'; } return r; }
static void string_case(Ctx&c, const VS&v){
	RoutingKit::save_vector(P("a"),v); S b; get("a",b); auto r=good(c,"decode_vector",{"string",P("a")}); c.eqs((size_t)std::count(r.out.begin(),r.out.end(),'\n'),v.size(),"lines of the decoded strings");
	put("o","sentinel"); good(c,"encode_vector",{"string",P("o")},r.out); auto w=RoutingKit::load_vector<S>(P("o")); c.states+=v.size(); if(w!=v){ for(unsigned i=0;i<std::min(v.size(),w.size());++i) if(v[i]!=w[i]) c.fail("string \""+esc(v[i])+"\" becomes \""+esc(w[i])+"\""); c.fail("number of strings changes"); }
}
static S nth_string(uint64_t i, const S&alpha){ S r; uint64_t k=alpha.size(), n=1; while(i>=n){ i-=n; n*=k; r+=' '; } for(auto&ch:r){ ch=alpha[i%k]; i/=k; } return r; }
static uint64_t strings_upto(unsigned len, unsigned k){ uint64_t n=0; for(unsigned i=0;i<=len;++i) n+=vx::ipow(k,i); return n; }
static VI edges(unsigned t){ VI e{imin(t),imin(t)+1,0,1,imax(t)-1,imax(t)}; if(t%2==0) e.push_back(-1); else e.push_back(imax(t)/2+1); return e; }
// texts that are no number of the type
static VS wrong(unsigned t){
	VS w{"","x","5x","5 6","--1","-","1,5","5;","one"}; if(t<8){ VS m{"5.5","1e3","0x10","99999999999999999999999",dec(imin(t)-1),dec(imax(t)+1),dec(imax(t)*2+2)}; w.insert(w.end(),m.begin(),m.end()); } return w;
}
static void compare_case(Ctx&c, unsigned t, const VS&a, const VS&b){ // elements as raw bytes (or strings)
	auto w=[&](const S&f, const VS&v){ S x; if(t==10) x=sraw(v); else for(auto&y:v) x+=y; put(f,x); }; w("a",a); w("b",b); auto r=good(c,"compare_vector",{TY[t],P("a"),P("b")}); ++c.states;
	bool same=r.out.find("are the same and have")!=S::npos, diff=r.out.find("differ")!=S::npos, size=r.out.find("equal size")!=S::npos; if(same!=(a==b)||size!=(a.size()!=b.size())||diff!=(a.size()==b.size()&&a!=b)) c.fail("compare_vector says "+esc(r.out));
	if(diff){ unsigned d=0; for(unsigned i=0;i<a.size();++i) if(a[i]!=b[i]) ++d; if(r.out.find(fmt("%u elements are different",d))==S::npos||r.out.find(fmt("%u elements are the same",(unsigned)a.size()-d))==S::npos) c.fail(fmt("%u elements differ but compare_vector says ",d)+esc(r.out)); }
	else if(same&&r.out.find(fmt("have %u elements",(unsigned)a.size()))==S::npos) c.fail("compare_vector says "+esc(r.out));
}
static VS sample_elements(unsigned t){ VS r; if(t==10) return {"a","","b\n"}; if(t==8){ for(float f:{0.f,-1.5f,3e20f}) r.push_back(S((char*)&f,4)); return r; } if(t==9){ for(double f:{0.,-1.5,1e300}) r.push_back(S((char*)&f,8)); return r; } for(I x:VI{imin(t),imax(t),1}) r.push_back(raw(t,{x})); return r; }
static std::vector<VS> lists_upto(const VS&e, unsigned len){ std::vector<VS>r{{}}; size_t b=0; for(unsigned l=0;l<len;++l){ size_t n=r.size(); for(size_t i=b;i<n;++i) for(auto&x:e){ auto y=r[i]; y.push_back(x); r.push_back(y); } b=n; } return r; }
static void large31(std::vector<Suite>&v);
static void make31(std::vector<Suite>&v){
	if(!A()) large31(v);
	v.push_back(mk("int_ranges","every value of the 8 and 16 bit types, all values within 2 of a power of two of the 32 and 64 bit types, ascending and scrambled",16,[](uint64_t i, Ctx&c){ unsigned t=i%8; std::set<I>s; if(t<4) for(I x=imin(t);x<=imax(t);++x) s.insert(x); else for(unsigned b=0;b<=8*width(t);++b) for(int d=-2;d<=2;++d) for(int g=-1;g<=1;g+=2){ I x=g*((I)1<<b)+d; if(x>=imin(t)&&x<=imax(t)) s.insert(x); } VI w(s.begin(),s.end()); if(i/8){ uint64_t st=5; for(size_t k=w.size();k>1;--k) std::swap(w[k-1],w[lcg(st)%k]); } int_case(c,t,w); },[](uint64_t i){ return S(TY[i%8])+(i/8?" scrambled":" ascending"); }));
	{ unsigned L=A()?2:(TH()?5:4); uint64_t n=strings_upto(L,7); v.push_back(mk("int_vectors",fmt("8 integer types, every vector of up to %u elements from 7 boundary values",L),8*n,[](uint64_t i, Ctx&c){ unsigned t=i%8; auto e=edges(t); S q=nth_string(i/8,"0123456"); VI w; for(char ch:q) w.push_back(e[ch-'0']); int_case(c,t,w); },[](uint64_t i){ return S(TY[i%8])+" values "+nth_string(i/8,"0123456"); })); }
	{ // floats: 64 slices of the exponent range
		unsigned K=64; v.push_back(mk("float_patterns","every sign and exponent of normal numbers x 130 mantissa patterns (each single bit, each run from the top and from the bottom, lattice), zero and infinity",2*K,[K](uint64_t i, Ctx&c){ S b; bool d=i%2; unsigned M=d?52:23; std::set<uint64_t>ms; for(unsigned k=0;k<M;++k){ ms.insert(1ull<<k); ms.insert((1ull<<k)-1); ms.insert(((1ull<<M)-1)^((1ull<<k)-1)); } ms.insert((1ull<<M)-1); for(unsigned k=1;k<60;++k) ms.insert((((1ull<<M)-1)/60*k)^k); unsigned E=d?2046:254; unsigned lo=1+E*(i/2)/K, hi=1+E*(i/2+1)/K;
			auto add=[&](uint64_t x){ if(d) b.append((char*)&x,8); else { uint32_t y=x; b.append((char*)&y,4); } }; for(unsigned e=lo;e<hi;++e) for(auto m:ms) for(unsigned s=0;s<2;++s) add((uint64_t)s<<(d?63:31)|(uint64_t)e<<M|m); if(i/2==0){ add(0); add(1ull<<(d?63:31)); for(unsigned s=0;s<2;++s) add((uint64_t)s<<(d?63:31)|(uint64_t)(E+1)<<M); } float_case(c,d?9:8,b); },[](uint64_t i){ return fmt("%s exponent slice %u of 64",i%2?"float64":"float32",(unsigned)(i/2)); }));
		if(TH()&&!A()) v.push_back(mk("float32_all","every normal float32",2*254*8,[](uint64_t i, Ctx&c){ uint32_t s=i&1, e=1+i/2%254, q=i/2/254; S b; b.reserve(4<<20); for(uint32_t m=q<<20;m<(q+1)<<20;++m){ uint32_t x=s<<31|e<<23|m; b.append((char*)&x,4); } float_case(c,8,b); },[](uint64_t i){ return fmt("sign %u exponent %u part %u",(unsigned)(i&1),(unsigned)(1+i/2%254),(unsigned)(i/2/254)); })); }
	{ S al="an\\\n"; unsigned L=A()?3:4; v.push_back(mk("strings",fmt("every string of up to %u characters over {a, n, backslash, line break} alone",L),strings_upto(L,4),[al](uint64_t i, Ctx&c){ string_case(c,{nth_string(i,al)}); },[al](uint64_t i){ return "string "+esc(nth_string(i,al)); }));
	  v.push_back(mk("string_vectors","every vector of up to two strings of up to two characters over the same alphabet, and one vector of all strings of up to seven characters",A()?1+1+21:1+1+21+441,[al](uint64_t i, Ctx&c){ if(i==0){ VS all; uint64_t n=strings_upto(7,4); for(uint64_t k=0;k<n;++k) all.push_back(nth_string(k,al)); string_case(c,all); return; } --i; VS w; if(i>0){ --i; if(i<21) w={nth_string(i,al)}; else { i-=21; w={nth_string(i%21,al),nth_string(i/21,al)}; } } string_case(c,w); },[al](uint64_t i){ return fmt("string vector %u",(unsigned)i); }));
	  S by="\x01\t\r \"'\x7f\x80\xffz"; v.push_back(mk("string_bytes","every string of up to two characters over ten other bytes",strings_upto(A()?1:2,10),[by](uint64_t i, Ctx&c){ string_case(c,{nth_string(i,by),"-"}); },[](uint64_t i){ return fmt("bytes %u",(unsigned)i); })); }
	{ std::vector<std::pair<unsigned,S>>w; for(unsigned t=0;t<10;++t) for(auto&x:wrong(t)) w.push_back({t,x}); v.push_back(mk("wrong_lines","10 numeric types x every text of a list that is no number of the type x four places in the input",w.size()*4,[w](uint64_t i, Ctx&c){ auto&p=w[i%w.size()]; unsigned k=i/w.size(); S in=k==0?p.second+"\n":k==1?p.second+"\n1\n2\n":k==2?"1\n"+p.second+"\n2\n":"1\n2\n"+p.second+"\n"; put("o","old content"); bad(c,"encode_vector",{TY[p.first],P("o")},{"o"},in); },[w](uint64_t i){ return S(TY[w[i%w.size()].first])+" line \""+w[i%w.size()].second+"\""; })); }
	v.push_back(mk("wrong_use","wrong numbers of arguments, unknown types, missing, unreadable or cut input files, outputs that cannot be written",12,[](uint64_t i, Ctx&c){
		switch(i){
			case 0: del("n"); for(auto t:TY){ bad(c,"decode_vector",{t,P("n")},{}); bad(c,"compare_vector",{t,P("n"),P("n")},{}); } break;
			case 1: for(unsigned t=0;t<10;++t) for(unsigned b=1;b<width(t);++b){ put("a",S(width(t)*2+b,'\1')); bad(c,"decode_vector",{TY[t],P("a")},{}); put("b",S(width(t)*2,'\1')); bad(c,"compare_vector",{TY[t],P("a"),P("b")},{}); bad(c,"compare_vector",{TY[t],P("b"),P("a")},{}); } break;
			case 2: put("a",S("abc\0de",6)); bad(c,"decode_vector",{"string",P("a")},{}); put("b",S("abc\0de\0",7)); bad(c,"compare_vector",{"string",P("a"),P("b")},{}); break;
			case 3: put("a","12345678"); for(auto t:{"","int","Int8","uint","float","double","strings","int128"}){ bad(c,"decode_vector",{t,P("a")},{}); bad(c,"encode_vector",{t,P("o")},{"o"},"1\n"); bad(c,"compare_vector",{t,P("a"),P("a")},{}); } break;
			case 4: bad(c,"decode_vector",{},{}); bad(c,"decode_vector",{"int8"},{}); put("a","1"); bad(c,"decode_vector",{"int8",P("a"),P("a")},{}); break;
			case 5: bad(c,"encode_vector",{},{}); bad(c,"encode_vector",{"int8"},{}); bad(c,"encode_vector",{"int8",P("o"),P("o")},{"o"},"1\n"); break;
			case 6: bad(c,"compare_vector",{},{}); put("a","1"); bad(c,"compare_vector",{"int8",P("a")},{}); bad(c,"compare_vector",{"int8",P("a"),P("a"),P("a")},{}); break;
			case 7: for(auto t:TY) bad(c,"encode_vector",{t,P("nodir/x")},{},"1\n"); break;
			case 8: bad(c,"generate_constant_vector",{},{}); bad(c,"generate_constant_vector",{"1","2"},{}); bad(c,"generate_constant_vector",{"1","2",P("o"),"3"},{"o"}); bad(c,"generate_constant_vector",{"x","2",P("o")},{"o"}); bad(c,"generate_constant_vector",{"2","x",P("o")},{"o"}); bad(c,"generate_constant_vector",{"2","1",P("nodir/x")},{}); break;
			case 9: put("a","12"); del("n"); for(auto t:TY){ bad(c,"compare_vector",{t,P("a"),P("n")},{}); bad(c,"compare_vector",{t,P("n"),P("a")},{}); } break;
			case 10: put("a","1234567"); bad(c,"decode_vector",{"float64",P("a")},{}); break;
			case 11: for(auto t:TY){ put("a",""); auto r=good(c,"decode_vector",{t,P("a")}); c.eqs(r.out,S(),"text of an empty vector"); good(c,"encode_vector",{t,P("o")},""); S o; get("o",o); c.eqs(o,S(),"an empty text"); } break;
		} },[](uint64_t i){ return fmt("wrong use %u",(unsigned)i); }));
	{ unsigned L=A()?1:2; auto n=lists_upto({"0","1","2"},L).size(); v.push_back(mk("compare",fmt("11 types, every pair of vectors of up to %u elements from three values",L),11*n*n,[L,n](uint64_t i, Ctx&c){ unsigned t=i%11; auto l=lists_upto(sample_elements(t),L); compare_case(c,t,l[i/11%n],l[i/11/n]); },[L,n](uint64_t i){ auto l=lists_upto({"x","y","z"},L); return S(TY[i%11])+" "+vx::str(l[i/11%n])+" and "+vx::str(l[i/11/n]); }));
	  if(!A()) v.push_back(mk("compare_flip","11 types, vectors of 9 elements that differ at one or two places",11*(9+36),[](uint64_t i, Ctx&c){ unsigned t=i%11; auto e=sample_elements(t); VS a; for(unsigned k=0;k<9;++k) a.push_back(e[k%3]); VS b=a; uint64_t j=i/11; if(j<9) b[j]=e[(j+1)%3]; else { j-=9; unsigned x=0,y=1; while(j--){ if(++y==9){ ++x; y=x+1; } } b[x]=e[(x+1)%3]; b[y]=e[(y+2)%3]; } compare_case(c,t,a,b); },[](uint64_t i){ return S(TY[i%11])+fmt(" places %u",(unsigned)(i/11)); })); }
	{ static const char*sz[]={"0","1","2","7","1000"},*va[]={"0","1","2147483647","2147483648","4294967295","42"}; v.push_back(mk("constant","generate_constant_vector for 5 sizes and 6 values",30,[](uint64_t i, Ctx&c){ good(c,"generate_constant_vector",{sz[i%5],va[i/5],P("o")}); auto g=getv<unsigned>(c,"o"); V w(strtoul(sz[i%5],0,10),(unsigned)strtoul(va[i/5],0,10)); c.eqs(g,w,"constant vector"); },[](uint64_t i){ return fmt("%s times %s",sz[i%5],va[i/5]); })); }
}

static const unsigned LARGE[]={65535,65536,65537,100003};
static void large31(std::vector<Suite>&v){
	v.push_back(mk("beyond_16_bits","11 types x vectors of 65535, 65536, 65537 and 100003 elements, strings of as many characters: decode, encode, compare equal and with one difference at either end, constants",12*4,[](uint64_t i, Ctx&c){ unsigned t=i%12,n=LARGE[i/12];
		if(t<8){ auto e=edges(t); VI w; for(unsigned k=0;k<n;++k) w.push_back(e[(k*k+k/7)%e.size()]); int_case(c,t,w); }
		else if(t<10){ S b; for(unsigned k=0;k<n;++k){ if(t==8){ float f=(k+1)*0.37f-9000; b.append((char*)&f,4); } else { double f=(k+1)*0.37-9000; b.append((char*)&f,8); } } float_case(c,t,b); }
		else if(t==10){ VS w; for(unsigned k=0;k<n;++k) w.push_back(k%5?fmt("s%u",k):S()); string_case(c,w); VS big{S(n,'a'),"",S(n-1,'\\')+"\n",S(n,'\n'),"z"}; string_case(c,big); }
		else { good(c,"generate_constant_vector",{fmt("%u",n),"65536",P("o")}); c.eqs(getv<unsigned>(c,"o"),V(n,65536),"constant vector"); for(unsigned ty:{0u,5u,7u,9u,10u}){ auto e=sample_elements(ty); VS a; for(unsigned k=0;k<n;++k) a.push_back(e[k%3]); compare_case(c,ty,a,a); VS b=a; b[0]=e[1]; compare_case(c,ty,a,b); b=a; b[n-1]=e[n%3]; compare_case(c,ty,a,b); for(unsigned k=0;k<n;++k) b[k]=e[(k+1)%3]; compare_case(c,ty,b,a); b.pop_back(); compare_case(c,ty,a,b); } }
	},[](uint64_t i){ return S(i%12<11?TY[i%12]:"constants and comparison")+fmt(" n %u",LARGE[i/12]); })); v.back().chunk=1; v.back().case_timeout=300; }

// ---------------------------------------------------------------- C32
struct CG{ V first_out, head, w; };
static CG adj(const G&g){ // the graph as the programs store it: arcs sorted by tail
	CG r; r.first_out.assign(g.n+1,0); for(unsigned a=0;a<g.m();++a) ++r.first_out[g.tail[a]+1]; for(unsigned x=0;x<g.n;++x) r.first_out[x+1]+=r.first_out[x];
	V p=r.first_out; r.head.resize(g.m()); r.w.resize(g.m()); for(unsigned a=0;a<g.m();++a){ unsigned k=p[g.tail[a]]++; r.head[k]=g.head[a]; r.w[k]=g.w[a]; } return r;
}
typedef std::vector<std::array<unsigned,3>> Arcs;
static Arcs arcs_of(Ctx&c, const V&fo, const V&head, const V&w, unsigned n){
	c.eqs((unsigned)fo.size(),n+1,"size of first_out"); c.eqs(fo[0],0u,"first_out[0]"); c.eqs(fo.back(),(unsigned)head.size(),"last element of first_out"); c.eqs(w.size(),head.size(),"number of weights"); Arcs r;
	for(unsigned x=0;x<n;++x){ if(fo[x]>fo[x+1]||fo[x+1]>head.size()) c.fail("first_out is not ascending"); for(unsigned a=fo[x];a<fo[x+1];++a){ if(head[a]>=n) c.fail("head out of range"); r.push_back({x,head[a],w[a]}); } } return r;
}
static S astr(const Arcs&a){ S r; for(auto&x:a) r+=fmt("%u>%u/%u ",x[0],x[1],x[2]); return r; }
static void same_arcs(Ctx&c, Arcs got, Arcs want, const char*what){ ++c.states; std::sort(got.begin(),got.end()); std::sort(want.begin(),want.end()); if(got!=want) c.fail(S(what)+": arcs are "+astr(got)+"instead of "+astr(want)); }
static Arcs arcs_of(const G&g){ Arcs r; for(unsigned a=0;a<g.m();++a) r.push_back({g.tail[a],g.head[a],g.w[a]}); return r; }
static S gr(const G&g){ S r=fmt("p sp %u %u\n",g.n,g.m()); for(unsigned a=0;a<g.m();++a) r+=fmt("a %u %u %u\n",g.tail[a]+1,g.head[a]+1,g.w[a]); return r; }
static VS words(const S&l){ VS r; std::istringstream i(l); S x; while(i>>x) r.push_back(x); return r; }
static bool num(const S&x, uint64_t max, uint64_t&v){ if(x.empty()||x.size()>12) return false; v=0; for(char ch:x){ if(ch<'0'||ch>'9') return false; v=v*10+(ch-'0'); } return v<=max; }
static bool snum(const S&x, int64_t&v){ bool n=!x.empty()&&x[0]=='-'; uint64_t u; if(!num(n?x.substr(1):x,999999999999ull,u)) return false; v=n?-(int64_t)u:(int64_t)u; return true; }
static VS lines_of(const S&t){ VS r; S cur; for(char ch:t){ if(ch=='\n'){ r.push_back(cur); cur.clear(); } else cur+=ch; } if(!cur.empty()) r.push_back(cur); return r; }
static bool parse_gr(const S&t, G&g){
	bool h=false; uint64_t n=0,m=0; g=G(); for(auto&l:lines_of(t)){ if(l.empty()||l[0]=='c') continue; auto w=words(l); if(!h){ if(w.size()!=4||w[0]!="p"||w[1]!="sp"||!num(w[2],~0u,n)||!num(w[3],~0u,m)) return false; h=true; } else { uint64_t a,b,x; if(w.size()!=4||w[0]!="a"||!num(w[1],~0u,a)||!num(w[2],~0u,b)||!num(w[3],~0u,x)) return false; if(a<1||b<1||a>n||b>n) return false; g.add(a-1,b-1,x); } } g.n=n; return h&&g.m()==m;
}
static bool parse_co(const S&t, std::vector<int64_t>&lat, std::vector<int64_t>&lon){
	bool h=false; uint64_t n=0; std::vector<char>seen; for(auto&l:lines_of(t)){ if(l.empty()||l[0]=='c') continue; auto w=words(l); if(!h){ if(w.size()!=5||w[0]!="p"||w[1]!="aux"||w[2]!="sp"||w[3]!="co"||!num(w[4],~0u,n)) return false; h=true; lat.assign(n,0); lon.assign(n,0); seen.assign(n,0); } else { uint64_t x; int64_t a,b; if(w.size()!=4||w[0]!="v"||!num(w[1],~0u,x)||!snum(w[2],a)||!snum(w[3],b)) return false; if(x<1||x>n||seen[x-1]) return false; seen[x-1]=1; lon[x-1]=a; lat[x-1]=b; } } for(char s:seen) if(!s) return false; return h;
}
static VS GOUT={"fo","he","we"};
static VS gpaths(){ return {P("fo"),P("he"),P("we")}; }
static void convert_case(Ctx&c, const S&t, const G&g){
	for(auto&f:GOUT) put(f,"x"); put("in.gr",t); good(c,"convert_road_dimacs_graph",{P("in.gr"),P("fo"),P("he"),P("we")}); auto fo=getv<unsigned>(c,"fo"),he=getv<unsigned>(c,"he"),we=getv<unsigned>(c,"we"); auto a=arcs_of(c,fo,he,we,g.n); same_arcs(c,a,arcs_of(g),"converted graph"); for(unsigned i=0;i+1<a.size();++i) if(a[i][0]==a[i+1][0]&&a[i][1]>a[i+1][1]) c.fail("arcs are not sorted by tail and head: "+astr(a));
	if(g.m()==0) return; put("out.gr","x"); good(c,"export_road_dimacs_graph",{P("fo"),P("he"),P("we"),P("out.gr")}); S o; get("out.gr",o); G h; if(!parse_gr(o,h)) c.fail("exported text is no DIMACS graph: "+esc(o)); c.eqs(h.n,g.n,"exported number of nodes"); same_arcs(c,arcs_of(h),arcs_of(g),"exported graph");
	S b[3]; for(int i=0;i<3;++i) get(GOUT[i],b[i]); for(auto&f:GOUT) put(f,"x"); good(c,"convert_road_dimacs_graph",{P("out.gr"),P("fo"),P("he"),P("we")}); same_arcs(c,arcs_of(c,getv<unsigned>(c,"fo"),getv<unsigned>(c,"he"),getv<unsigned>(c,"we"),g.n),arcs_of(g),"graph converted from the exported file");
}
static void judge_gr(Ctx&c, const S&t){ G g; if(parse_gr(t,g)){ if(g.n<1000000) convert_case(c,t,g); } else { for(auto&f:GOUT) put(f,"old "+f); put("in.gr",t); bad(c,"convert_road_dimacs_graph",{P("in.gr"),P("fo"),P("he"),P("we")},GOUT); } }
static void judge_co(Ctx&c, const S&t){ std::vector<int64_t>la,lo; put("in.co",t); VS outs{"la","lo"}; for(auto&f:outs) put(f,"old"); if(!parse_co(t,la,lo)){ bad(c,"convert_road_dimacs_coordinates",{P("in.co"),P("la"),P("lo")},outs); return; }
	good(c,"convert_road_dimacs_coordinates",{P("in.co"),P("la"),P("lo")}); auto a=getv<float>(c,"la"),b=getv<float>(c,"lo"); c.eqs(a.size(),la.size(),"number of latitudes"); c.eqs(b.size(),lo.size(),"number of longitudes"); for(unsigned i=0;i<a.size();++i){ auto ok=[&](float f, int64_t x){ ++c.states; double v=x/1e6; return fabs(f-v)<=1.3e-7*fabs(v); }; if(!ok(a[i],la[i])) c.fail(fmt("latitude of node %u is %.9g instead of %.6f",i,a[i],la[i]/1e6)); if(!ok(b[i],lo[i])) c.fail(fmt("longitude of node %u is %.9g instead of %.6f",i,b[i],lo[i]/1e6)); } }
static void distinct_weights(G&g){ for(unsigned a=0;a<g.m();++a) g.w[a]=(a*7+3)%1009+(a==1?4294960000u:0); }
// every text that differs from the base in one line or word
static VS mutations(const VS&L, const VS&repl){ VS r; auto text=[](const VS&l){ S x; for(auto&y:l) x+=y+"\n"; return x; };
	for(unsigned i=0;i<L.size();++i){ auto m=L; m.erase(m.begin()+i); r.push_back(text(m)); m=L; m.insert(m.begin()+i,L[i]); r.push_back(text(m)); for(unsigned j=i+1;j<L.size();++j){ m=L; std::swap(m[i],m[j]); r.push_back(text(m)); } for(S ins:{S(),S("c comment"),S("c"),S("cx 1 2 3"),S("x"),S("q 1 2 3"),S("p sp 3 3"),S("p aux sp co 3"),S("a 1 1 1"),S("v 1 1 1"),S(" "),S("1 2 3")}) for(unsigned at=i;at<=i+(i+1==L.size());++at){ if(ins==" ") continue; m=L; m.insert(m.begin()+at,ins); r.push_back(text(m)); }
		auto w=words(L[i]); for(unsigned k=0;k<w.size();++k) for(auto&x:repl){ auto q=w; if(x=="(none)") q.erase(q.begin()+k); else q[k]=x; S l; for(auto&y:q) l+=(l.empty()?"":" ")+y; m=L; m[i]=l; r.push_back(text(m)); } m=L; m[i]+=" 1"; r.push_back(text(m)); m=L; m[i]+=" x"; r.push_back(text(m)); m=L; m[i]+="x"; r.push_back(text(m)); m=L; m[i]+=" "; r.push_back(text(m)); m=L; { S t; for(char ch:L[i]) t+=ch==' '?S("  \t"):S(1,ch); m[i]=t; } r.push_back(text(m)); }
	S t=text(L); for(unsigned k=0;k<t.size();++k) r.push_back(t.substr(0,k)); r.push_back("c only a comment\n"); r.push_back("\n\n"); return r; }
static void permute_case(Ctx&c, const G&g, unsigned seed, unsigned weights){
	auto a=adj(g); V id(a.head.size()); for(unsigned i=0;i<id.size();++i) id[i]=i*3+1; V fo=a.first_out; V tail; for(unsigned x=0;x<g.n;++x) for(unsigned k=fo[x];k<fo[x+1];++k) tail.push_back(x);
	putv("fo",a.first_out); putv("he",a.head); putv("we",id); putv("w2",a.w); VS args{fmt("%u",seed),P("fo"),P("he")}; if(weights>=1) args.push_back(P("we")); if(weights>=2) args.push_back(P("w2")); good(c,"randomly_permute_nodes",args);
	auto f2=getv<unsigned>(c,"fo"),h2=getv<unsigned>(c,"he"),i2=getv<unsigned>(c,"we"),w2=getv<unsigned>(c,"w2"); auto r=arcs_of(c,f2,h2,h2,g.n); c.eqs(r.size(),a.head.size(),"number of arcs");
	if(weights==0){ c.eqs(i2,id,"a weight file that was not named"); // without marks: compare degrees
		std::multiset<std::pair<unsigned,unsigned>>x,y; V in(g.n,0),in2(g.n,0); unsigned l=0,l2=0; for(unsigned k=0;k<r.size();++k){ ++in[a.head[k]]; ++in2[r[k][1]]; l+=tail[k]==a.head[k]; l2+=r[k][0]==r[k][1]; } for(unsigned k=0;k<g.n;++k){ x.insert({fo[k+1]-fo[k],in[k]}); y.insert({f2[k+1]-f2[k],in2[k]}); } c.expect(x==y&&l==l2,"degrees of the permuted graph differ"); return; }
	c.eqs(i2.size(),id.size(),"number of weights"); V pi(g.n,~0u),back(g.n,~0u); std::vector<char>seen(id.size(),0);
	for(unsigned k=0;k<r.size();++k){ ++c.states; unsigned o=(i2[k]-1)/3; if(i2[k]%3!=1||o>=id.size()||seen[o]) c.fail("weights of the permuted graph: "+vx::str(i2)); seen[o]=1; unsigned from[2]={tail[o],a.head[o]},to[2]={r[k][0],r[k][1]}; for(int e=0;e<2;++e){ if((pi[from[e]]!=~0u&&pi[from[e]]!=to[e])||(back[to[e]]!=~0u&&back[to[e]]!=from[e])) c.fail(fmt("arc %u of the input does not fit a renaming of the nodes",o)); pi[from[e]]=to[e]; back[to[e]]=from[e]; } if(weights>=2&&w2[k]!=a.w[o]) c.fail("the weight vectors are permuted differently"); }
	// the same seed gives the same result
	putv("fo",a.first_out); putv("he",a.head); putv("we",id); putv("w2",a.w); good(c,"randomly_permute_nodes",args); c.eqs(getv<unsigned>(c,"fo"),f2,"first_out with the same seed"); c.eqs(getv<unsigned>(c,"he"),h2,"head with the same seed"); c.eqs(getv<unsigned>(c,"we"),i2,"weights with the same seed");
}
// inconsistent graphs in files; the base is the path 0-1-2 with a parallel arc
struct BadGraph{ S what; S fo, he, we; };
static std::vector<BadGraph> bad_graphs(bool weights){ V fo{0,2,4,5},he{1,1,0,2,1},we{1,2,3,4,5}; std::vector<BadGraph>r; auto b=[&](S w, V a, V h, V x){ r.push_back({w,bytes(a),bytes(h),bytes(x)}); };
	b("first_out empty",{},he,we); b("everything empty",{},{},{}); b("first_out starts at 1",{1,2,4,5},he,we); b("first_out too short",{0,2,4},he,we); b("first_out too large",{0,2,4,6},he,we); b("first_out far too large",{0,2,4,4000000000u},he,we); b("first_out not ascending",{0,4,2,5},he,we); b("first_out beyond the end inside",{0,4000000,4,5},he,we); b("head too short",fo,{1,1,0,2},we); b("head too long",fo,{1,1,0,2,1,0},we); b("head empty",fo,{},we); for(unsigned k=0;k<5;++k){ auto h=he; h[k]=3; b("head out of range",fo,h,we); h[k]=~0u; b("head invalid",fo,h,we); h[k]=1u<<31; b("head huge",fo,h,we); }
	if(weights){ b("weight too short",fo,he,{1,2,3,4}); b("weight too long",fo,he,{1,2,3,4,5,6}); b("weight empty",fo,he,{}); }
	for(unsigned k=1;k<4;++k){ r.push_back({"first_out cut",bytes(fo).substr(0,16-k),bytes(he),bytes(we)}); r.push_back({"head cut",bytes(fo),bytes(he).substr(0,20-k),bytes(we)}); if(weights) r.push_back({"weight cut",bytes(fo),bytes(he),bytes(we).substr(0,20-k)}); } return r; }
static const S MISSING="(missing)";
static void put_or_del(const S&f, const S&x){ if(x==MISSING) del(f); else put(f,x); }
static double ref_geo(double la, double lo, double lb, double ob){ long double d=M_PIl/180; long double s1=sinl((la-lb)*d/2), s2=sinl((lo-ob)*d/2); long double h=s1*s1+cosl(la*d)*cosl(lb*d)*s2*s2; if(h>1) h=1; return 2*6371000.785L*asinl(sqrtl(h)); }
static const float GLA[]={0,49.01f,49.0101f,-33.5f,89.9f,-90,0.001f,52}, GLO[]={0,8.40f,8.4002f,151.2f,10,0,179.999f,-179.99f};
static void osm_case(Ctx&c, unsigned k, unsigned form){
	// maps of up to three ways over six nodes; k: 3 bits ways present x way kinds
	std::vector<pbf::Obj>o; static const int64_t la[]={10000000,-42000000,73000000,5000000,91000000,-77000000},lo[]={20000000,31000000,-57000000,-83000000,97000000,-11000000}; for(unsigned i=0;i<6;++i) o.push_back({'n',10+i*3,la[i],lo[i],{},{},{}});
	std::vector<std::vector<uint64_t>>ws={{10,13,16,19},{16,22,10},{13,25}}; Dec d(k); static const std::vector<pbf::Tags>tags={{},{{"highway","primary"},{"name","B 3"}},{{"highway","residential"},{"oneway","yes"},{"ref","x"}},{{"highway","motorway"},{"maxspeed","20 mph"}},{{"highway","footway"}}};
	for(unsigned i=0;i<3;++i){ unsigned t=d.get(5); if(t) o.push_back({'w',100+i*7,0,0,tags[t],ws[i],{}}); }
	std::vector<pbf::Block>b(1); for(auto&x:o){ auto&g=b.back().g; if(g.empty()||g.back().o[0]->kind!=x.kind) g.push_back(pbf::Group()); g.back().o.push_back(&x); } put("m.pbf",pbf::join(pbf::pieces(b,pbf::Style())));
	VS f{"fo","he","gd","tt"}, f2=f; if(form) for(auto x:{"way","ws","wn"}) f2.push_back(x); for(auto x:{"la","lo"}) f2.push_back(x); if(form) for(auto x:{"on","ow"}) f2.push_back(x); VS args{P("m.pbf")}; for(auto&x:f2){ put(x,"old"); args.push_back(P(x)); } good(c,"osm_extract",args);
	auto g=RoutingKit::simple_load_osm_car_routing_graph_from_pbf(P("m.pbf"),nullptr); c.eqs(getv<unsigned>(c,"fo"),g.first_out,"first_out"); c.eqs(getv<unsigned>(c,"he"),g.head,"head"); c.eqs(getv<unsigned>(c,"gd"),g.geo_distance,"geo_distance"); c.eqs(getv<unsigned>(c,"tt"),g.travel_time,"travel_time"); c.eqs(getv<float>(c,"la"),g.latitude,"latitude"); c.eqs(getv<float>(c,"lo"),g.longitude,"longitude");
	if(form){ auto way=getv<unsigned>(c,"way"),sp=getv<unsigned>(c,"ws"); auto nm=RoutingKit::load_vector<S>(P("wn")); c.eqs(way.size(),g.head.size(),"ways of the arcs"); c.eqs(nm.size(),sp.size(),"way names"); unsigned cars=0; Dec q(k); VS want; for(unsigned i=0;i<3;++i){ unsigned t=q.get(5); if(t>=1&&t<=3){ ++cars; want.push_back(t==1?"B 3":t==2?"x":""); c.expect(sp.size()>=cars&&sp[cars-1]==(t==1?65u:t==2?25u:32u),fmt("speed of way %u is %u",cars-1,sp.size()>=cars?sp[cars-1]:0u)); } } c.eqs(sp.size(),(size_t)cars,"way speeds"); c.eqs(nm,want,"way names"); for(unsigned a=0;a<way.size();++a){ if(way[a]>=cars) c.fail("way of an arc"); unsigned t=(unsigned)((uint64_t)g.geo_distance[a]*18000/sp[way[a]]/5); c.eqs(g.travel_time[a],t,"travel time of an arc"); }
		auto on=RoutingKit::load_bit_vector(P("on")),ow=RoutingKit::load_bit_vector(P("ow")); c.eqs((unsigned)ow.population_count(),cars,"OSM ways"); c.eqs((unsigned)on.population_count(),(unsigned)g.first_out.size()-1,"OSM nodes"); for(unsigned i=0;i<3;++i){ Dec z(k); unsigned t=0; for(unsigned j=0;j<=i;++j) t=z.get(5); bool is=100+i*7<ow.size()&&ow.is_set(100+i*7); c.eqs(is,t>=1&&t<=3,"OSM way bit"); } }
}
static void make32(std::vector<Suite>&v){
	if(!A()){ v.push_back(mk("beyond_16_bits","5 graph families with 65535, 65537 and 131075 nodes: convert, export, permute, geographic lengths, coordinates",WIDE_FAMILIES*3*2,[](uint64_t i, Ctx&c){ unsigned n=WIDE_N[i/2/WIDE_FAMILIES]; G g=family(WIDE_F[i/2%WIDE_FAMILIES],n,3);
		if(i%2==0){ convert_case(c,gr(g),g); S t=fmt("p aux sp co %u\n",n); for(unsigned k=0;k<n;++k){ unsigned x=(unsigned)((uint64_t)k*7919%n); t+=fmt("v %u %d %d\n",x+1,(int)(x*2741%360000000)-180000000,(int)(x*1371%180000000)-90000000); } judge_co(c,t); }
		else { permute_case(c,g,5,2); auto a=adj(g); VF la,lo; for(unsigned x=0;x<g.n;++x){ la.push_back(40+x%300*0.01f); lo.push_back(8+x/300*0.01f); } putv("fo",a.first_out); putv("he",a.head); putv("la",la); putv("lo",lo); put("o","old"); good(c,"compute_geographic_distance_weights",{P("fo"),P("he"),P("la"),P("lo"),P("o")}); auto w=getv<unsigned>(c,"o"); c.eqs(w.size(),a.head.size(),"number of lengths"); for(unsigned x=0;x<g.n;++x) for(unsigned k=a.first_out[x];k<a.first_out[x+1];++k){ double d=ref_geo(la[x],lo[x],la[a.head[k]],lo[a.head[k]]); ++c.states; if(fabs(d-w[k])>1.5+d*1e-5) c.fail(fmt("length of arc %u is %u instead of %.2f",k,w[k],d)); } } },[](uint64_t i){ return fmt("%s n %u part %u",family_name(WIDE_F[i/2%WIDE_FAMILIES]),WIDE_N[i/2/WIDE_FAMILIES],(unsigned)(i%2)); })); v.back().chunk=1; v.back().case_timeout=300; }
	auto lists=[&](S name, unsigned n, unsigned m){ ListSpace sp(n,m,true,{5}); v.push_back(mk(name,fmt("every ordered list of %u arcs on %u nodes (loops and parallel arcs), distinct weights: convert, export, convert again",m,n),sp.count(),[sp](uint64_t i, Ctx&c){ G g=sp.at(i); distinct_weights(g); convert_case(c,gr(g),g); },[sp](uint64_t i){ G g=sp.at(i); distinct_weights(g); return ::str(g); })); };
	lists("convert_n1",1,2); lists("convert_n2",2,A()?3:TH()?6:5); lists("convert_n3",3,A()?2:TH()?5:4); lists("convert_n4",4,A()?2:3);
	v.push_back(mk("convert_families","13 graph families, 3 sizes",F_COUNT*3,[](uint64_t i, Ctx&c){ G g=family(i%F_COUNT,std::vector<unsigned>{2,17,100}[i/F_COUNT],3); convert_case(c,gr(g),g); },[](uint64_t i){ return fmt("%s size %u",family_name(i%F_COUNT),(unsigned)(i/F_COUNT)); }));
	v.push_back(mk("convert_empty","graphs without arcs on 0, 1 and 5 nodes",3,[](uint64_t i, Ctx&c){ G g; g.n=i==2?5:i; convert_case(c,gr(g),g); },[](uint64_t i){ return fmt("%u",(unsigned)i); }));
	{ VS repl{"x","-1","0","1","2","3","4","5","4294967295","4294967296","99999999999","1.5","1x","(none)","a","b","p","sp","c","v"}; static VS m1,m2; m1=mutations({"p sp 3 3","a 1 2 35","a 3 1 4","a 1 1 120"},repl); m1.erase(std::remove_if(m1.begin(),m1.end(),[](const S&t){ auto w=words(t); return w.size()>3&&w[0]=="p"&&w[1]=="sp"&&(w[2].size()>9||w[3].size()>9)&&(w[2].size()==10||w[3].size()==10)&&w[2].find_first_not_of("0123456789")==S::npos&&w[3].find_first_not_of("0123456789")==S::npos&&w[2]!="4294967296"&&w[3]!="4294967296"; }),m1.end());
	  VS repl2{"x","-1","0","1","2","3","4","4294967295","99999999999","1.5","1x","(none)","a","v","p","aux","sp","co","c"}; m2=mutations({"p aux sp co 3","v 1 -73530767 41085396","v 3 179999999 -89999999","v 2 0 12"},repl2); m2.erase(std::remove_if(m2.begin(),m2.end(),[](const S&t){ return t.find("co 4294967295")!=S::npos; }),m2.end());
	  unsigned st=A()&&!TH()?5:1; v.push_back(mk("graph_texts",fmt("%zu texts: every line deleted, repeated, exchanged or inserted, every word replaced, every truncation of a DIMACS graph",m1.size()),m1.size()/st,[st](uint64_t i, Ctx&c){ judge_gr(c,m1[i*st]); },[st](uint64_t i){ return esc(m1[i*st]); }));
	  v.push_back(mk("coordinate_texts",fmt("%zu texts of the same kind for a DIMACS coordinate file",m2.size()),m2.size()/st,[st](uint64_t i, Ctx&c){ judge_co(c,m2[i*st]); },[st](uint64_t i){ return esc(m2[i*st]); })); }
	{ static const int64_t X[]={0,1,-1,180000000,-180000000,90000000,-90000000,8403653,-73530767,123456789,999999,-1000001}; v.push_back(mk("coordinates","three nodes in every line order, every pair of 12 values",6*144,[](uint64_t i, Ctx&c){ Dec d(i); auto p=vx::nth_permutation(3,d.get(6)); int64_t a=X[d.get(12)],b=X[d.get(12)]; S t="p aux sp co 3\n"; for(unsigned x:p) t+=fmt("v %u %lld %lld\n",x+1,(long long)(x==0?a:x==1?b:5),(long long)(x==0?b:x==1?-a:7)); judge_co(c,t); },[](uint64_t i){ return fmt("coordinates %u",(unsigned)i); })); if(A()&&!TH()) v.back().count=144; }
	{ unsigned m=A()?2:3; ListSpace sp(3,m,true,{5}); unsigned K=A()?1:TH()?9:3; v.push_back(mk("permute_n3",fmt("every list of %u arcs on 3 nodes x %u seeds x 0, 1 or 2 weight files",m,K),sp.count()*K*3,[sp,K](uint64_t i, Ctx&c){ Dec d(i); unsigned w=d.get(3),s=d.get(K); G g=sp.at(d.v); distinct_weights(g); permute_case(c,g,s*s*s*31+1,w); },[sp,K](uint64_t i){ return ::str(sp.at(i/3/K))+fmt(" weights %u seed %u",(unsigned)(i%3),(unsigned)(i/3%K)); })); }
	v.push_back(mk("permute_families","13 graph families, 3 sizes, 2 seeds, 2 weight files",F_COUNT*6,[](uint64_t i, Ctx&c){ Dec d(i); G g=family(d.get(F_COUNT),std::vector<unsigned>{4,23,120}[d.get(3)],3); if(!g.m()) return; permute_case(c,g,77+d.get(2),2); },[](uint64_t i){ return fmt("%s size %u",family_name(i%F_COUNT),(unsigned)(i/F_COUNT%3)); }));
	{ static auto B=bad_graphs(true); v.push_back(mk("bad_graphs",fmt("%zu inconsistent sets of graph files x 4 programs, missing files, wrong argument counts",B.size()),B.size()+5,[](uint64_t i, Ctx&c){
		if(i<B.size()){ auto&b=B[i]; put("fo",b.fo); put("he",b.he); put("we",b.we); bool wb=b.what.find("weight")!=S::npos; bad(c,"export_road_dimacs_graph",{P("fo"),P("he"),P("we"),P("o")},{"o"}); bad(c,"randomly_permute_nodes",{"1",P("fo"),P("he"),P("we")},GOUT); V ok{1,2,3,4,5}; putv("w1",ok); if(!wb){ bad(c,"randomly_permute_nodes",{"1",P("fo"),P("he")},GOUT); } else bad(c,"randomly_permute_nodes",{"1",P("fo"),P("he"),P("w1"),P("we")},VS{"fo","he","we","w1"}); VF l{1,2,3}; putv("la",l); putv("lo",l); if(!wb) bad(c,"compute_geographic_distance_weights",{P("fo"),P("he"),P("la"),P("lo"),P("o")},{"o"}); return; }
		i-=B.size(); V fo{0,2,4,5},he{1,1,0,2,1},we{1,2,3,4,5}; VF l3{1,2,3}; putv("fo",fo); putv("he",he); putv("we",we); putv("la",l3); putv("lo",l3); del("n"); VS all{"fo","he","we"};
		if(i==0){ for(unsigned k=0;k<3;++k){ VS a=gpaths(); a[k]=P("n"); VS e=a; e.push_back(P("o")); bad(c,"export_road_dimacs_graph",e,{"o"}); VS q{"1"}; for(auto&x:a) q.push_back(x); bad(c,"randomly_permute_nodes",q,GOUT); } bad(c,"randomly_permute_nodes",{"x",P("fo"),P("he"),P("we")},GOUT); bad(c,"export_road_dimacs_graph",{P("fo"),P("he"),P("we"),P("nodir/x")},{}); }
		if(i==1){ for(unsigned k=0;k<4;++k){ VS a{P("fo"),P("he"),P("la"),P("lo"),P("o")}; a[k]=P("n"); bad(c,"compute_geographic_distance_weights",a,{"o"}); } for(VF bl:{VF{},VF{1,2},VF{1,2,3,4}}){ putv("lb",bl); bad(c,"compute_geographic_distance_weights",{P("fo"),P("he"),P("lb"),P("lo"),P("o")},{"o"}); bad(c,"compute_geographic_distance_weights",{P("fo"),P("he"),P("la"),P("lb"),P("o")},{"o"}); } }
		if(i==2){ bad(c,"convert_road_dimacs_graph",{P("n"),P("fo"),P("he"),P("we")},GOUT); bad(c,"convert_road_dimacs_coordinates",{P("n"),P("la"),P("lo")},{"la","lo"}); put("in.gr","p sp 1 0\n"); put("in.co","p aux sp co 1\nv 1 1 1\n"); bad(c,"convert_road_dimacs_graph",{P("in.gr"),P("nodir/x"),P("he"),P("we")},{}); bad(c,"convert_road_dimacs_coordinates",{P("in.co"),P("nodir/x"),P("nodir/y")},{}); }
		if(i==3){ bad(c,"convert_road_dimacs_graph",{},{}); bad(c,"convert_road_dimacs_graph",{P("in.gr"),P("fo"),P("he")},GOUT); bad(c,"convert_road_dimacs_coordinates",{P("in.co"),P("la")},{"la"}); bad(c,"export_road_dimacs_graph",{P("fo"),P("he"),P("we")},GOUT); bad(c,"randomly_permute_nodes",{"1",P("fo")},{"fo"}); bad(c,"compute_geographic_distance_weights",{P("fo"),P("he"),P("la"),P("lo")},{"la"}); bad(c,"osm_extract",{P("n")},{}); }
		if(i==4){ VS a{P("n")}; for(auto x:{"fo","he","we","la","lo","w1"}) a.push_back(P(x)); put("w1","z"); bad(c,"osm_extract",a,{"fo","he","we","la","lo","w1"}); put("m","nonsense that is no map"); a[0]=P("m"); bad(c,"osm_extract",a,{"fo","he","we","la","lo","w1"}); }
	},[](uint64_t i){ return i<B.size()?B[i].what:fmt("wrong use %u",(unsigned)(i-B.size())); })); }
	v.push_back(mk("geographic_weights","every ordered pair of 8 positions joined by arcs, and every graph of 2 arcs on 3 of them",1+81,[](uint64_t i, Ctx&c){ G g; VF la,lo; if(i==0){ g.n=8; for(unsigned a=0;a<8;++a) for(unsigned b=0;b<8;++b) g.add(a,b,0); for(unsigned k=0;k<8;++k){ la.push_back(GLA[k]); lo.push_back(GLO[k]); } } else { g=ListSpace(3,2,true,{0}).at(i-1); for(unsigned k=0;k<3;++k){ la.push_back(GLA[k*2]); lo.push_back(GLO[k*2]); } }
		auto a=adj(g); putv("fo",a.first_out); putv("he",a.head); putv("la",la); putv("lo",lo); put("o","old"); good(c,"compute_geographic_distance_weights",{P("fo"),P("he"),P("la"),P("lo"),P("o")}); auto w=getv<unsigned>(c,"o"); c.eqs(w.size(),a.head.size(),"number of weights"); for(unsigned x=0;x<g.n;++x) for(unsigned k=a.first_out[x];k<a.first_out[x+1];++k){ unsigned y=a.head[k]; double d=ref_geo(la[x],lo[x],la[y],lo[y]); ++c.states; if(w[k]<d-1.6-4e-7*d||w[k]>d+0.6+4e-7*d) c.fail(fmt("arc %u has weight %u instead of %.1f",k,w[k],d)); } },[](uint64_t i){ return fmt("graph %u",(unsigned)i); }));
	v.push_back(mk("dot","every list of two arcs on 3 nodes: graph_to_dot names exactly the arcs",81,[](uint64_t i, Ctx&c){ G g=ListSpace(3,2,true,{0}).at(i); distinct_weights(g); auto a=adj(g); putv("fo",a.first_out); putv("he",a.head); putv("we",a.w); good(c,"graph_to_dot",{P("fo"),P("he"),P("we"),P("o")}); S o; get("o",o); Arcs got; for(size_t p=0;(p=o.find("->",p))!=S::npos;++p){ size_t b=o.find_last_not_of("0123456789 ",p-1); unsigned x,y,w; if(sscanf(o.c_str()+(b==S::npos?0:b+1),"%u -> %u[label=\"%u\"]",&x,&y,&w)!=3) c.fail("dot file: "+esc(o)); got.push_back({x,y,w}); } same_arcs(c,got,arcs_of(g),"dot file"); },[](uint64_t i){ return ::str(ListSpace(3,2,true,{0}).at(i)); }));
	v.push_back(mk("svg","every list of two arcs on 3 nodes x 6 assignments of positions: graph_to_svg draws exactly the arcs between the scaled positions",81*6,[](uint64_t i, Ctx&c){ G g=ListSpace(3,2,true,{0}).at(i/6); auto a=adj(g); auto p=vx::nth_permutation(3,i%6); static const float LA[]={10.f,-20.f,25.f},LO[]={-7.f,3.f,100.f}; std::vector<float>la(3),lo(3); for(unsigned x=0;x<3;++x){ la[x]=LA[p[x]]; lo[x]=LO[p[(x+1)%3]]; } 
		float l0=*std::min_element(la.begin(),la.end()),l1=*std::max_element(la.begin(),la.end()),o0=*std::min_element(lo.begin(),lo.end()),o1=*std::max_element(lo.begin(),lo.end()); if(o0==o1||l0==l1) return; putv("fo",a.first_out); putv("he",a.head); putv("la",la); putv("lo",lo); good(c,"graph_to_svg",{P("fo"),P("he"),P("la"),P("lo"),P("o")}); S o; get("o",o);
		std::vector<std::array<double,4>>got,want; for(size_t q=0;(q=o.find("<line",q))!=S::npos;++q){ std::array<double,4>z; static const char*K[]={" x1=\""," y1=\""," x2=\""," y2=\""}; for(int k=0;k<4;++k){ size_t f=o.find(K[k],q); if(f==S::npos||f>o.find(">",q)) c.fail("svg file: "+esc(o)); z[k]=atof(o.c_str()+f+5); } got.push_back(z); }
		auto X=[&](unsigned v){ return 300.0*(lo[v]-o0)/(o1-o0); }; auto Y=[&](unsigned v){ return 300.0-300.0*(la[v]-l0)/(l1-l0); }; for(unsigned x=0;x<3;++x) for(unsigned e=a.first_out[x];e<a.first_out[x+1];++e) want.push_back({X(x),Y(x),X(a.head[e]),Y(a.head[e])});
		if(o.find("<svg")==S::npos||o.find("</svg>")==S::npos||got.size()!=want.size()) c.fail(fmt("%zu lines instead of %zu: ",got.size(),want.size())+esc(o)); std::vector<char>used(got.size()); for(auto&w:want){ bool ok=false; for(size_t k=0;k<got.size()&&!ok;++k) if(!used[k]){ bool m=true; for(int t=0;t<4;++t) m=m&&fabs(got[k][t]-w[t])<0.01; if(m){ used[k]=1; ok=true; } } if(!ok) c.fail("svg lines: "+esc(o)); } },[](uint64_t i){ return ::str(ListSpace(3,2,true,{0}).at(i/6))+fmt(" positions %u",(unsigned)(i%6)); }));
	v.push_back(mk("osm_extract","every map of up to three ways of five kinds, both argument forms: the files hold the graph that the library loads",125*2,[](uint64_t i, Ctx&c){ osm_case(c,i/2,i%2); },[](uint64_t i){ return fmt("map %u form %u",(unsigned)(i/2),(unsigned)(i%2)); })); if(A()&&!TH()) v.back().count=50;
}

// ---------------------------------------------------------------- C33
static void put_graph(const CG&a){ putv("fo",a.first_out); putv("he",a.head); putv("we",a.w); }
static void query_case(Ctx&c, const G&g, const V&s, const V&t, const Dist&D, bool with_ch=true){
	auto a=adj(g); put_graph(a); putv("s",s); putv("t",t); put("d","old"); good(c,"run_dijkstra",{P("fo"),P("he"),P("we"),P("s"),P("t"),P("d")}); V want; for(unsigned i=0;i<s.size();++i) want.push_back(cap(D(s[i],t[i]))); c.eqs(getv<unsigned>(c,"d"),want,"distances of run_dijkstra"); if(!with_ch||g.m()==0) return;
	put("ch","old"); good(c,"compute_contraction_hierarchy",{P("fo"),P("he"),P("we"),P("ch")}); put("d","old"); good(c,"run_contraction_hierarchy_query",{P("ch"),P("s"),P("t"),P("d")}); c.eqs(getv<unsigned>(c,"d"),want,"distances of run_contraction_hierarchy_query");
}
static void pairs(unsigned n, V&s, V&t){ for(unsigned x=0;x<n;++x) for(unsigned y=0;y<n;++y){ s.push_back(x); t.push_back(y); } s.push_back(n-1); t.push_back(0); }
static void path_case(Ctx&c, const G&g, const V&s, const V&t, const Dist&D){
	auto a=adj(g); put_graph(a); good(c,"compute_contraction_hierarchy",{P("fo"),P("he"),P("we"),P("ch")}); VF la,lo; for(unsigned x=0;x<g.n;++x){ la.push_back(x*0.5f); lo.push_back(x*0.25f-100); } putv("la",la); putv("lo",lo); S in; for(unsigned i=0;i<s.size();++i) in+=fmt("%u %u\n",s[i],t[i]); auto r=good(c,"show_path",{P("ch"),P("la"),P("lo")},in); auto e=good(c,"examine_ch",{P("ch")}); if(words(e.out).size()<3||e.out.find(fmt("node_count : %u\n",g.n))==S::npos) c.fail("examine_ch says "+esc(e.out));
	std::vector<S>docs; size_t p=0; while((p=r.out.find("<kml",p))!=S::npos){ size_t q=r.out.find("</kml>",p); if(q==S::npos) c.fail("document without end"); docs.push_back(r.out.substr(p,q-p)); p=q; } c.eqs(docs.size(),s.size(),"number of documents");
	for(unsigned i=0;i<docs.size();++i){ unsigned len; size_t k=docs[i].find("Path of length "); if(k==S::npos||sscanf(docs[i].c_str()+k,"Path of length %u",&len)!=1) c.fail("no length"); unsigned want=cap(D(s[i],t[i])); c.eqs(len,want,"length of the shown path"); size_t b=docs[i].find("<coordinates>",docs[i].find("<LineString>")),en=docs[i].find("</coordinates>",b); V nodes; for(auto&w:words(docs[i].substr(b+13,en-b-13))){ float x,y; if(sscanf(w.c_str(),"%f,%f,0",&x,&y)!=2) c.fail("coordinates "+w); unsigned n=(unsigned)lround(y*2); if(n>=g.n||fabs(y-la[n])>1e-4||fabs(x-lo[n])>1e-4) c.fail("coordinates "+w); nodes.push_back(n); }
		if(want==INF){ c.expect(nodes.empty(),"path between unconnected nodes"); continue; } c.expect(!nodes.empty()&&nodes.front()==s[i]&&nodes.back()==t[i],"ends of the path "+vx::str(nodes)); u64 sum=0; for(unsigned k2=0;k2+1<nodes.size();++k2){ u64 best=INF64; for(unsigned x=0;x<g.m();++x) if(g.tail[x]==nodes[k2]&&g.head[x]==nodes[k2+1]) best=std::min<u64>(best,g.w[x]); if(best==INF64) c.fail("path uses a missing arc"); sum+=best; } c.eqs(sum,(u64)want,"length of the nodes of the path"); }
}
static void rank_case(Ctx&c, const G&g, unsigned count, unsigned seed, bool by_file){
	auto a=adj(g); put_graph(a); putv("cnt",V(count,7)); VS o{"s","t","r","d"}; for(auto&x:o) put(x,"old"); VS args{P("fo"),P("he"),P("we"),by_file?P("cnt"):fmt("%u",count),fmt("%u",seed),P("s"),P("t"),P("r"),P("d")}; good(c,"generate_dijkstra_rank_test_queries",args);
	auto s=getv<unsigned>(c,"s"),t=getv<unsigned>(c,"t"),r=getv<unsigned>(c,"r"),d=getv<unsigned>(c,"d"); c.expect(s.size()==t.size()&&s.size()==r.size()&&s.size()==d.size(),"sizes of the query files"); unsigned i=0,groups=0; std::map<unsigned,std::vector<u64>>cache; unsigned least=~0u,most=0;
	for(unsigned x=0;x<g.n;++x){ auto dd=sssp(g,g.w,x); unsigned k=0; for(auto y:dd) if(y<INF) ++k; unsigned rows=0; for(unsigned q=6;(1u<<q)<=k;++q) ++rows; least=std::min(least,rows); most=std::max(most,rows); cache[x]=dd; }
	while(i<s.size()){ unsigned src=s[i]; if(src>=g.n) c.fail("source out of range"); auto&dd=cache[src]; unsigned k=0; for(auto y:dd) if(y<INF) ++k; unsigned q=6; for(;(1u<<q)<=k;++q,++i){ if(i>=s.size()||s[i]!=src||r[i]!=q) c.fail(fmt("query %u: rank %u of source %u is missing",i,q,src)); if(t[i]>=g.n||d[i]!=cap(dd[t[i]])) c.fail(fmt("query %u has a wrong distance",i)); unsigned less=0,le=0; for(auto y:dd){ less+=y<d[i]; le+=y<=d[i]; } if(!(less<(1u<<q)&&le>=(1u<<q))) c.fail(fmt("query %u: the target is not the one of rank %u",i,q)); ++c.states; } if(q==6) c.fail("query of a source that reaches too few nodes"); ++groups; }
	if(least==most&&least>0) c.eqs(groups,count,"number of sources"); else c.expect(groups<=count,"number of sources");
	putv("s0",s); S a0[4],b0[4]; for(int k=0;k<4;++k) get(o[k],a0[k]); good(c,"generate_dijkstra_rank_test_queries",args); for(int k=0;k<4;++k){ get(o[k],b0[k]); c.expect(a0[k]==b0[k],"the same seed gives other queries"); }
	if(s.size()){ Dist D; V want=d; putv("s",s); putv("t",t); good(c,"run_dijkstra",{P("fo"),P("he"),P("we"),P("s"),P("t"),P("d2")}); c.eqs(getv<unsigned>(c,"d2"),want,"distances of the generated queries"); }
}
static void order_case(Ctx&c, const G&g, unsigned pos){ auto a=adj(g); put_graph(a); VF la,lo; uint64_t st=pos+3; for(unsigned x=0;x<g.n;++x){ if(pos==0){ la.push_back(x); lo.push_back(0); } else if(pos==1){ la.push_back(0); lo.push_back(0); } else { la.push_back(lcg(st)%180-90.f); lo.push_back(lcg(st)%360-180.f); } } putv("la",la); putv("lo",lo); put("o","old"); good(c,"compute_nested_dissection_order",{P("fo"),P("he"),P("la"),P("lo"),P("o")}); auto o=getv<unsigned>(c,"o"); std::sort(o.begin(),o.end()); V id; for(unsigned x=0;x<g.n;++x) id.push_back(x); c.eqs(o,id,"nodes of the order"); }
static void large33(std::vector<Suite>&v){
	v.push_back(mk("beyond_16_bits","5 graph families with 65535, 65537 and 131075 nodes: queries to all places, rank queries, nested dissection order; 65537 queries on a small graph; large query lists",WIDE_FAMILIES*3*2+2,[](uint64_t i, Ctx&c){
		if(i>=WIDE_FAMILIES*3*2){ G g=family(F_GRID,16,2); if(i%2){ V s,t; for(unsigned k=0;k<65537;++k){ s.push_back(k%16); t.push_back(k/16%16); } s.push_back(15); t.push_back(0); query_case(c,g,s,t,floyd(g)); } else for(const char*k:{"65535","65537","100003"}){ auto chk=[&](const S&f, uint64_t N, const V*first){ auto x=getv<unsigned>(c,f); c.eqs((uint64_t)x.size(),(uint64_t)strtoull(k,0,10),"number of queries"); std::set<unsigned>u(x.begin(),x.end()); if(*u.rbegin()>=N) c.fail(fmt("node %u",*u.rbegin())); if(N==100000&&(*u.rbegin()<99900||*u.begin()>100||u.size()<30000)) c.fail(fmt("%zu different nodes from %u to %u out of 100000",u.size(),*u.begin(),*u.rbegin())); if(first) c.eqs(x,*first,"the same seed"); return x; };
			for(const char*n:{"16","100000"}){ uint64_t N=strtoull(n,0,10); good(c,"generate_test_queries",{n,k,"3",P("s"),P("t")}); auto a=chk("s",N,0),b=chk("t",N,0); if(a==b) c.fail("sources and targets are equal"); good(c,"generate_test_queries",{n,k,"3",P("s"),P("t")}); chk("s",N,&a); chk("t",N,&b); good(c,"generate_random_node_list",{n,k,"3",P("s")}); chk("s",N,0); } } return; }
		unsigned n=WIDE_N[i/2/WIDE_FAMILIES]; G g=family(WIDE_F[i/2%WIDE_FAMILIES],n,2); auto a=adj(g);
		if(i%2==0){ put_graph(a); V s,t,want; for(unsigned x:{0u,n/2,n-1}){ auto d=sssp(g,g.w,x); for(unsigned k=0;k<60;++k){ unsigned y=k<50?(unsigned)((uint64_t)k*104729%n):k<55?n-1-(k-50):std::min(n-1,65535u)-(k-55); s.push_back(x); t.push_back(y); want.push_back(cap(d[y])); } } putv("s",s); putv("t",t); put("d","old"); good(c,"run_dijkstra",{P("fo"),P("he"),P("we"),P("s"),P("t"),P("d")}); c.eqs(getv<unsigned>(c,"d"),want,"distances of run_dijkstra"); put("ch","old"); good(c,"compute_contraction_hierarchy",{P("fo"),P("he"),P("we"),P("ch")}); put("d","old"); good(c,"run_contraction_hierarchy_query",{P("ch"),P("s"),P("t"),P("d")}); c.eqs(getv<unsigned>(c,"d"),want,"distances of run_contraction_hierarchy_query"); }
		else { put_graph(a); good(c,"generate_dijkstra_rank_test_queries",{P("fo"),P("he"),P("we"),"3","5",P("s"),P("t"),P("r"),P("d")}); auto s=getv<unsigned>(c,"s"),t=getv<unsigned>(c,"t"),r=getv<unsigned>(c,"r"),d=getv<unsigned>(c,"d"); c.expect(s.size()==t.size()&&s.size()==r.size()&&s.size()==d.size()&&!s.empty(),"sizes of the query files"); unsigned k=0; while(k<s.size()){ unsigned src=s[k]; c.expect(src<n,"source out of range"); auto dd=sssp(g,g.w,src); unsigned reach=0; for(auto y:dd) reach+=y<INF; unsigned q=6; for(;(1u<<q)<=reach;++q,++k){ if(k>=s.size()||s[k]!=src||r[k]!=q) c.fail(fmt("query %u: rank %u of source %u is missing",k,q,src)); if(t[k]>=n||d[k]!=cap(dd[t[k]])) c.fail(fmt("query %u has a wrong distance",k)); unsigned less=0,le=0; for(auto y:dd){ less+=y<d[k]; le+=y<=d[k]; } if(!(less<(1u<<q)&&le>=(1u<<q))) c.fail(fmt("query %u: the target is not the one of rank %u",k,q)); ++c.states; } if(q==6) c.fail("query of a source that reaches too few nodes"); }
			order_case(c,g,0); } },[](uint64_t i){ return i<WIDE_FAMILIES*6?fmt("%s n %u part %u",family_name(WIDE_F[i/2%WIDE_FAMILIES]),WIDE_N[i/2/WIDE_FAMILIES],(unsigned)(i%2)):fmt("query lists %u",(unsigned)(i%2)); })); v.back().chunk=1; v.back().case_timeout=300; }
static void make33(std::vector<Suite>&v){
	if(!A()) large33(v);
	auto q=[&](S name, S b, auto sp, unsigned st=1){ v.push_back(mk(name,b+": all pairs by both query programs",sp.count()/st,[sp,st](uint64_t i, Ctx&c){ G g=sp.at(i*st); V s,t; pairs(g.n,s,t); query_case(c,g,s,t,floyd(g)); },[sp,st](uint64_t i){ return ::str(sp.at(i*st)); })); };
	q("queries_n2","every graph of two arcs on 2 nodes with weights 0, 1, 7, infinity",ListSpace(2,A()?1:2,true,{0,1,7,INF})); q("queries_n3","every digraph on 3 nodes with weights 0, 1, 5",SlotSpace(3,false,TH()?V{0,1,5,INF}:V{0,1,5}),A()?9:1); if(!A()) q("queries_n4","every set of 4 arcs on 4 nodes, weights 1 and 3",SubsetSpace(4,TH()?5:4,V{1,3})); if(!A()) q("queries_lists","every list of 3 arcs on 3 nodes, parallel arcs and loops",ListSpace(3,TH()?4:3,true,{4,9}));
	{ static const unsigned ns[]={5,30,90}; unsigned K=A()?2:3; v.push_back(mk("query_families",fmt("13 graph families, %u sizes, 6 weight patterns, all pairs or 500 pairs",K),F_COUNT*K*PATTERNS,[K](uint64_t i, Ctx&c){ Dec d(i); unsigned f=d.get(F_COUNT),n=ns[d.get(K)],p=d.get(PATTERNS); G g=family(f,n,p); V s,t; if(n<=30) pairs(n,s,t); else { uint64_t st=9; for(unsigned k=0;k<500;++k){ s.push_back(lcg(st)%n); t.push_back(lcg(st)%n); } } query_case(c,g,s,t,all_pairs(g)); },[K](uint64_t i){ Dec d(i); unsigned f=d.get(F_COUNT),n=ns[d.get(K)],p=d.get(PATTERNS); return fmt("%s n %u weights %u",family_name(f),n,p); })); }
	v.push_back(mk("query_lists","every sequence of up to three queries on a path of 3 nodes (also none)",A()?10:1+9+81+729,[](uint64_t i, Ctx&c){ G g=family(F_CYCLE,3,2); S x=nth_string(i,"012345678"); V s,t; for(char ch:x){ s.push_back((ch-'0')%3); t.push_back((ch-'0')/3); } query_case(c,g,s,t,floyd(g)); },[](uint64_t i){ return "queries "+nth_string(i,"012345678"); }));
	{ auto sp=SubsetSpace(4,3,{2,9}); unsigned st=A()?20:1; v.push_back(mk("show_path","every set of 3 arcs on 4 nodes: the documents show shortest paths of all pairs",sp.count()/st,[sp,st](uint64_t i, Ctx&c){ G g=sp.at(i*st); V s,t; pairs(g.n,s,t); path_case(c,g,s,t,floyd(g)); },[sp,st](uint64_t i){ return ::str(sp.at(i*st)); })); v.push_back(mk("show_path_families","12 families of 20 nodes",F_COUNT-1,[](uint64_t i, Ctx&c){ G g=family(i,20,2); V s,t; pairs(g.n,s,t); path_case(c,g,s,t,floyd(g)); },[](uint64_t i){ return S(family_name(i)); })); }
	{ static const unsigned ns[]={10,64,65,150,300}; unsigned K=A()?3:5; v.push_back(mk("rank_queries",fmt("13 families, %u sizes, 3 weight patterns, source count as number or as file",K),F_COUNT*K*3*2,[K](uint64_t i, Ctx&c){ Dec d(i); unsigned f=d.get(F_COUNT),n=ns[d.get(K)]; static const unsigned pt[]={0,3,5}; unsigned p=pt[d.get(3)]; if(f==F_COMPLETE&&n>100) n=100; G g=family(f,n,p); rank_case(c,g,p==0?0:7,n+p,d.get(2)); },[K](uint64_t i){ Dec d(i); unsigned f=d.get(F_COUNT),n=ns[d.get(K)]; return fmt("%s n %u weights %u",family_name(f),n,(unsigned)d.get(3)); })); if(A()) v.back().count=F_COUNT*K; }
	{ static const char*ns[]={"1","2","3","10","1000","2147483647"},*cs[]={"0","1","2","9","500"},*sd[]={"0","1","4294967295"}; v.push_back(mk("random_queries","generate_test_queries and generate_random_node_list: 6 node counts x 5 query counts x 3 seeds",90,[](uint64_t i, Ctx&c){ Dec d(i); S n=ns[d.get(6)],k=cs[d.get(5)],s=sd[d.get(3)]; uint64_t N=strtoull(n.c_str(),0,10),K=strtoull(k.c_str(),0,10); put("s","old"); put("t","old"); auto chk=[&](const S&f){ auto x=getv<unsigned>(c,f); c.eqs((uint64_t)x.size(),K,"number of queries"); std::set<unsigned>u; for(unsigned y:x){ ++c.states; if(y>=N) c.fail(fmt("node %u of %s",y,n.c_str())); u.insert(y); } if(K==500&&N>1&&N<=10&&u.size()!=N) c.fail(fmt("only %zu of %s nodes occur in 500 queries",u.size(),n.c_str())); return x; };
		good(c,"generate_test_queries",{n,k,s,P("s"),P("t")}); auto a=chk("s"),b=chk("t"); if(K==500&&N>1&&a==b) c.fail("sources and targets are equal"); good(c,"generate_test_queries",{n,k,s,P("s"),P("t")}); c.eqs(chk("s"),a,"sources with the same seed"); c.eqs(chk("t"),b,"targets with the same seed"); good(c,"generate_random_node_list",{n,k,s,P("s")}); a=chk("s"); if(N<=1000){ putv("cnt",V(N,5)); good(c,"generate_random_node_list",{P("cnt"),k,s,P("s")}); c.eqs(chk("s"),a,"nodes with the node count given as file"); }
		if(N<=1000){ put("per",bytes(V{(unsigned)N})); good(c,"generate_random_source_times",{k,s,P("per"),P("s")}); chk("s"); } },[](uint64_t i){ Dec d(i); return fmt("nodes %s queries %s",ns[i%6],cs[i/6%5]); })); }
	{ auto sp=SlotSpace(3,true,{1}); unsigned st=A()?8:1; v.push_back(mk("orders_n3","every digraph on 3 nodes x 3 position patterns: the order is a permutation",sp.count()*3/st,[sp,st](uint64_t i, Ctx&c){ order_case(c,sp.at(i*st/3),i*st%3); },[sp,st](uint64_t i){ return ::str(sp.at(i*st/3)); })); v.push_back(mk("order_families","13 families, 3 sizes, 3 position patterns",F_COUNT*9,[](uint64_t i, Ctx&c){ Dec d(i); unsigned f=d.get(F_COUNT),n=std::vector<unsigned>{1,12,80}[d.get(3)]; order_case(c,family(f,n,0),d.get(3)); },[](uint64_t i){ return S(family_name(i%F_COUNT)); })); if(A()) v.back().count=F_COUNT*3; }
	{ static auto B=bad_graphs(true); v.push_back(mk("bad_input",fmt("%zu inconsistent sets of graph files x 4 programs; bad query lists, cut hierarchies, missing files, wrong arguments",B.size()),B.size()+8,[](uint64_t i, Ctx&c){
		V q0{0},q1{1}; VF l3{1,2,3}; putv("la",l3); putv("lo",l3); putv("s",q0); putv("t",q1); del("n");
		if(i<B.size()){ auto&b=B[i]; put("fo",b.fo); put("he",b.he); put("we",b.we); bool wb=b.what.find("weight")!=S::npos; bad(c,"run_dijkstra",{P("fo"),P("he"),P("we"),P("s"),P("t"),P("d")},{"d"}); bad(c,"compute_contraction_hierarchy",{P("fo"),P("he"),P("we"),P("ch")},{"ch"}); if(!wb) bad(c,"compute_nested_dissection_order",{P("fo"),P("he"),P("la"),P("lo"),P("o")},{"o"}); bad(c,"generate_dijkstra_rank_test_queries",{P("fo"),P("he"),P("we"),"3","1",P("a1"),P("a2"),P("a3"),P("a4")},{"a1","a2","a3","a4"}); return; }
		i-=B.size(); V fo{0,2,4,5},he{1,1,0,2,1},we{1,2,3,4,5}; putv("fo",fo); putv("he",he); putv("we",we); S chf; { put("ch","x"); good(c,"compute_contraction_hierarchy",{P("fo"),P("he"),P("we"),P("ch")}); get("ch",chf); }
		auto both=[&](const V&s, const V&t){ putv("s",s); putv("t",t); bad(c,"run_dijkstra",{P("fo"),P("he"),P("we"),P("s"),P("t"),P("d")},{"d"}); bad(c,"run_contraction_hierarchy_query",{P("ch"),P("s"),P("t"),P("d")},{"d"}); };
		if(i==0) for(unsigned x:{3u,4u,1000u,1u<<31,~0u}){ both({x},{0}); both({0},{x}); both({0,1,x},{0,1,2}); both({0,1,2},{x,1,2}); }
		if(i==1){ both({0},{}); both({},{0}); both({0,1},{0}); both({0},{0,1}); both({0,1,2},{0,1}); }
		if(i==2) for(unsigned k=1;k<4;++k){ put("s",S(8-k,'\0')); put("t",S(8,'\0')); bad(c,"run_dijkstra",{P("fo"),P("he"),P("we"),P("s"),P("t"),P("d")},{"d"}); bad(c,"run_contraction_hierarchy_query",{P("ch"),P("s"),P("t"),P("d")},{"d"}); bad(c,"run_contraction_hierarchy_query",{P("ch"),P("t"),P("s"),P("d")},{"d"}); bad(c,"run_dijkstra",{P("fo"),P("he"),P("we"),P("t"),P("s"),P("d")},{"d"}); }
		if(i==3) for(unsigned k=0;k<chf.size();k+=A()?17:1){ put("ch",chf.substr(0,k)); bad(c,"run_contraction_hierarchy_query",{P("ch"),P("s"),P("t"),P("d")},{"d"}); if(k%5==0){ bad(c,"examine_ch",{P("ch")},{}); bad(c,"show_path",{P("ch"),P("la"),P("lo")},{},"0 1\n"); } }
		if(i==4){ for(unsigned k=0;k<5;++k){ VS a{P("fo"),P("he"),P("we"),P("s"),P("t"),P("d")}; a[k]=P("n"); bad(c,"run_dijkstra",a,{"d"}); if(k<3){ VS b{P("fo"),P("he"),P("we"),P("o")}; b[k]=P("n"); bad(c,"compute_contraction_hierarchy",b,{"o"}); VS e{P("ch"),P("s"),P("t"),P("d")}; e[k]=P("n"); bad(c,"run_contraction_hierarchy_query",e,{"d"}); VS f{P("ch"),P("la"),P("lo")}; f[k]=P("n"); bad(c,"show_path",f,{},"0 1\n"); } if(k<4){ VS b{P("fo"),P("he"),P("la"),P("lo"),P("o")}; b[k]=P("n"); bad(c,"compute_nested_dissection_order",b,{"o"}); } } bad(c,"examine_ch",{P("n")},{}); }
		if(i==5){ bad(c,"run_dijkstra",{P("fo")},{"fo"}); bad(c,"compute_contraction_hierarchy",{P("fo"),P("he"),P("we")},{"we"}); bad(c,"run_contraction_hierarchy_query",{P("ch"),P("s"),P("t")},{"ch","s","t"}); bad(c,"examine_ch",{},{}); bad(c,"show_path",{P("ch")},{}); bad(c,"compute_nested_dissection_order",{P("fo"),P("he")},{"he"}); bad(c,"generate_test_queries",{"3","4","5",P("o")},{"o"}); bad(c,"generate_random_node_list",{"3","4","5"},{}); bad(c,"generate_test_queries",{"x","4","5",P("s"),P("t")},{"s","t"}); bad(c,"generate_test_queries",{"0","4","5",P("s"),P("t")},{"s","t"}); bad(c,"generate_random_node_list",{"0","4","5",P("s")},{"s"}); put("per",bytes(V{0u})); bad(c,"generate_random_source_times",{"4","1",P("per"),P("s")},{"s"}); }
		if(i==6){ for(auto x:{"3 0","0 3","4 4","4294967295 0","0 1\n1 3","2147483648 1"}) bad(c,"show_path",{P("ch"),P("la"),P("lo")},{},x); for(VF l:{VF{},VF{1,2},VF{1,2,3,4}}){ putv("lb",l); bad(c,"show_path",{P("ch"),P("lb"),P("lo")},{},"0 1\n"); bad(c,"show_path",{P("ch"),P("la"),P("lb")},{},"0 1\n"); bad(c,"compute_nested_dissection_order",{P("fo"),P("he"),P("lb"),P("lo"),P("o")},{"o"}); bad(c,"compute_nested_dissection_order",{P("fo"),P("he"),P("la"),P("lb"),P("o")},{"o"}); } }
		if(i==7){ bad(c,"run_dijkstra",{P("fo"),P("he"),P("we"),P("s"),P("t"),P("nodir/x")},{}); bad(c,"compute_contraction_hierarchy",{P("fo"),P("he"),P("we"),P("nodir/x")},{}); bad(c,"run_contraction_hierarchy_query",{P("ch"),P("s"),P("t"),P("nodir/x")},{}); bad(c,"compute_nested_dissection_order",{P("fo"),P("he"),P("la"),P("lo"),P("nodir/x")},{}); bad(c,"generate_test_queries",{"3","4","5",P("nodir/x"),P("nodir/y")},{}); }
	},[](uint64_t i){ return i<B.size()?B[i].what:fmt("wrong use %u",(unsigned)(i-B.size())); })); }
}
static void make(std::vector<Suite>&v, const std::string&p){ if(p=="C31") make31(v); if(p=="C32") make32(v); if(p=="C33") make33(v); }
int main(int argc, char**argv){ if(argc<2) return 2; std::string p=argv[1]; return vx::run_all(argc-1,argv+1,p,make); }
