// C15 bit vectors, C16 id mappers: the real classes against sequences of booleans.
#include "vx.h"
#include <routingkit/bit_vector.h>
#include <routingkit/id_mapper.h>
#include <malloc.h>
#include <memory>
#include <functional>
#include <algorithm>
using namespace RoutingKit; using vx::fmt; using vx::Ctx; using vx::Suite;
typedef std::vector<unsigned> V;
namespace{
struct Ref{ // reference: a plain sequence of booleans (one byte each)
	std::vector<unsigned char>b;
	Ref(){} explicit Ref(size_t n, bool v=false):b(n,v){}
	size_t size()const{ return b.size(); }
	bool operator==(const Ref&o)const{ return b==o.b; }
};
enum{P_ZERO,P_ONE,P_ALT,P_ALT2,P_FIRST,P_LAST,P_THIRD,P_WORDS,P_BUT_LAST,P_BUT_FIRST,P_COUNT};
bool pat(unsigned p, size_t i, size_t n){
	switch(p){ case P_ZERO:return 0; case P_ONE:return 1; case P_ALT:return i%2; case P_ALT2:return i%2==0; case P_FIRST:return i==0; case P_LAST:return i+1==n; case P_THIRD:return i%3==1; case P_WORDS:return (i/64)%2==(i%7==3); case P_BUT_LAST:return i+1!=n; default:return i!=0; }
}
Ref ref(unsigned p, size_t n){ Ref r(n); for(size_t i=0;i<n;++i) r.b[i]=pat(p,i,n); return r; }
BitVector mk(const Ref&r){ BitVector v(r.size(),false); for(size_t i=0;i<r.size();++i) if(r.b[i]) v.set(i); return v; }
void same(Ctx&c, const BitVector&v, const Ref&r, bool full=true){
	++c.states;
	if(v.size()!=r.size()) c.fail(fmt("size is %llu instead of %zu",(unsigned long long)v.size(),r.size()));
	size_t blocks=(r.size()+511)/512, pc=0;
	if(v.uint512_count()!=blocks) c.fail("uint512_count is wrong");
	if(v.empty()!=(r.size()==0)) c.fail("empty() is wrong");
	const uint64_t*d=v.data(); if(blocks&&((uintptr_t)d)%64) c.fail("storage is not aligned");
	for(size_t w=0;w<blocks*8;++w){ uint64_t x=0; size_t e=std::min(r.size(),(w+1)*64); for(size_t i=w*64;i<e;++i){ x|=(uint64_t)r.b[i]<<(i%64); pc+=r.b[i]; } if(d[w]!=x) c.fail(fmt("word %zu of the storage is %016llx instead of %016llx (size %zu%s)",w,(unsigned long long)d[w],(unsigned long long)x,r.size(),(w+1)*64>r.size()?", padding involved":"")); }
	if(v.population_count()!=pc||v.count_true()!=pc||v.count_false()!=r.size()-pc) c.fail(fmt("counts %llu/%llu/%llu instead of %zu",(unsigned long long)v.population_count(),(unsigned long long)v.count_true(),(unsigned long long)v.count_false(),pc));
	if(v.are_all_set()!=(pc==r.size())) c.fail(fmt("are_all_set is %d with %zu of %zu bits set",(int)v.are_all_set(),pc,r.size()));
	if(v.is_any_set()!=(pc!=0)) c.fail(fmt("is_any_set is %d with %zu of %zu bits set",(int)v.is_any_set(),pc,r.size()));
	if(full) for(size_t i=0;i<r.size();++i) if(v.is_set(i)!=(r.b[i]!=0)) c.fail(fmt("bit %zu is %d",i,(int)v.is_set(i)));
}
// bits that a resize left uninitialized take part in the model with the value they happen to have
void adopt(Ctx&c, const BitVector&v, Ref&r, size_t old, size_t now){ c.eq((size_t)v.size(),now,[]{ return std::string("size after resize"); }); r.b.resize(now); for(size_t i=old;i<now;++i) r.b[i]=v.is_set(i); }
std::vector<size_t> spots(size_t n){ std::vector<size_t>r; for(size_t x:{0,1,62,63,64,65,127,128,255,256,447,448,510,511,512,513,575,576,1022,1023,1024,1025,1535,1536}) if(x<n) r.push_back(x); if(n){ r.push_back(n-1); r.push_back(n/2); } std::sort(r.begin(),r.end()); r.erase(std::unique(r.begin(),r.end()),r.end()); return r; }
void unary(Ctx&c, size_t n, unsigned p){
	Ref r=ref(p,n); c.note=fmt("size %zu pattern %u",n,p); BitVector v=mk(r); same(c,v,r);
	{ BitVector w=make_bit_vector(n,[&](uint64_t i){ return r.b[i]!=0; }); same(c,w,r); if(!(w==v)) c.fail("make_bit_vector result differs"); }
	for(bool x:{false,true}){ BitVector w(n,x); Ref q(n,x); c.note=fmt("constructor size %zu value %d",n,x); same(c,w,q); w=v; w.set_all(x); c.note=fmt("set_all(%d) size %zu pattern %u",x,n,p); same(c,w,q); w=v; if(x) w.set_all(); else w.reset_all(); same(c,w,q); }
	{ BitVector w(n,BitVector::uninitialized); Ref q; c.note=fmt("uninitialized size %zu",n); adopt(c,w,q,0,n); same(c,w,q); }
	{ c.note=fmt("not size %zu pattern %u",n,p); BitVector w=~v; Ref q(r); for(auto&x:q.b) x=!x; same(c,w,q); w.inplace_not(); same(c,w,r); same(c,v,r); }
	{ c.note=fmt("copy/move/swap size %zu pattern %u",n,p); BitVector a(v),b; b=v; same(c,a,r); same(c,b,r); BitVector m(std::move(a)); same(c,m,r); same(c,a,Ref()); a=m; same(c,a,r); b.reset_all(); same(c,m,r); same(c,v,r); a=std::move(m); same(c,a,r); a.swap(b); same(c,b,r); same(c,a,Ref(n)); a.swap(a); same(c,a,Ref(n)); b=*&b; same(c,b,r); BitVector e; e.swap(b); same(c,e,r); same(c,b,Ref()); b=BitVector(); same(c,b,Ref()); e=BitVector(e); same(c,e,r); }
	for(size_t x:spots(n)){
		c.note=fmt("bit operations at %zu size %zu pattern %u",x,n,p); c.transitions+=7; Ref q(r); BitVector w(v); 
		w.set(x); q.b[x]=1; same(c,w,q,false); w.reset(x); q.b[x]=0; same(c,w,q,false); w.set_if(x,false); same(c,w,q,false); w.set_if(x,true); q.b[x]=1; same(c,w,q,false); w.set_if(x,false); same(c,w,q,false);
		w.toggle(x); q.b[x]=0; same(c,w,q,false); w.toggle(x); q.b[x]=1; same(c,w,q,false); w.set(x,false); q.b[x]=0; same(c,w,q,false); w.set(x,true); q.b[x]=1; same(c,w,q,false); w.set(x,true); same(c,w,q,false);
		if((w==v)!=(q==r)||(w!=v)!=!(q==r)) c.fail("equality is wrong");
		BitVector y(v); y.toggle(x); if(y==v||!(y!=v)||v==y) c.fail("vectors that differ in one bit are equal"); if((y<v)==(v<y)) c.fail("vectors that differ in one bit are not ordered"); if((y<v)!=(v>y)||(y<=v)!=!(v<y)||(y>=v)!=!(y<v)) c.fail("comparison operators disagree");
	}
	{ BitVector y(v); if(!(y==v)||y!=v||y<v||v<y||y>v||!(y<=v)||!(y>=v)) c.fail("comparison with an equal vector"); if(!(y==y)||y<y) c.fail("comparison with itself"); y.reset_all_padding_bits(); same(c,y,r,false); }
	// padding bits written by the user and then cleared
	if(n%512){ BitVector y(v); for(size_t w=(n+63)/64;w<(n+511)/512*8;++w) y.data()[w]=~0ull; if(n%64) y.data()[n/64]|=~0ull<<(n%64); y.reset_all_padding_bits(); c.note=fmt("reset_all_padding_bits size %zu pattern %u",n,p); same(c,y,r); }
	++c.traces;
}
void binary(Ctx&c, size_t n, unsigned p, unsigned q){
	Ref a=ref(p,n),b=ref(q,n),o(n),x(n),d(n); for(size_t i=0;i<n;++i){ o.b[i]=a.b[i]|b.b[i]; d.b[i]=a.b[i]&b.b[i]; x.b[i]=a.b[i]^b.b[i]; }
	BitVector A=mk(a),B=mk(b); c.note=fmt("combination size %zu patterns %u %u",n,p,q); c.transitions+=15;
	{ BitVector t(A); t|=B; same(c,t,o,false); BitVector s(A); s&=B; same(c,s,d,false); BitVector u(A); u^=B; same(c,u,x,false); same(c,A,a,false); same(c,B,b,false); }
	{ BitVector t(A); t|=t; same(c,t,a,false); t&=t; same(c,t,a,false); t^=t; same(c,t,Ref(n),false); }
	{ same(c,A|B,o,false); same(c,BitVector(A)|B,o,false); same(c,A|BitVector(B),o,false); same(c,BitVector(A)|BitVector(B),o,false); }
	{ same(c,A&B,d,false); same(c,BitVector(A)&B,d,false); same(c,A&BitVector(B),d,false); same(c,BitVector(A)&BitVector(B),d,false); }
	{ same(c,A^B,x,false); same(c,BitVector(A)^B,x,false); same(c,A^BitVector(B),x,false); same(c,BitVector(A)^BitVector(B),x,false); }
	if((A==B)!=(a==b)||(A!=B)==(a==b)) c.fail("equality is wrong"); if((A<B)&&(B<A)) c.fail("both vectors are smaller"); if(!(a==b)&&!(A<B)&&!(B<A)) c.fail("different vectors are not ordered"); if(a==b&&(A<B||B<A)) c.fail("equal vectors are ordered");
	for(unsigned z=0;z<P_COUNT;++z){ BitVector C=mk(ref(z,n)); if(A<B&&B<C&&!(A<C)) c.fail("the order is not transitive"); }
	++c.traces;
}
void resizes(Ctx&c, size_t from, size_t to, unsigned p, unsigned mode){
	Ref r=ref(p,from); BitVector v=mk(r); c.note=fmt("resize %zu -> %zu pattern %u mode %u",from,to,p,mode); ++c.transitions;
	if(mode==0){ v.resize(to,false); r.b.resize(to,0); } else if(mode==1){ v.resize(to,true); r.b.resize(to,1); } else if(mode==2){ v.resize(to,BitVector::uninitialized); adopt(c,v,r,std::min(from,to),to); }
	else { size_t n=from; if(n<=to){ n=1; while(n<=to) n*=2; } if(mode==3) v.make_large_enough_for(to,false); else if(mode==4) v.make_large_enough_for(to,true); else v.make_large_enough_for(to,BitVector::uninitialized);
		// the size is only promised to suffice
		if(v.size()<=to||v.size()<from) c.fail(fmt("make_large_enough_for gives size %llu",(unsigned long long)v.size())); n=v.size(); if(mode==5) adopt(c,v,r,from,n); else r.b.resize(n,mode==4); }
	same(c,v,r,false);
	// going on with the result
	BitVector w(v); same(c,w,r,false); w.inplace_not(); for(auto&x:r.b) x=!x; same(c,w,r,false);
}
const size_t HS[]={0,1,64,511,512,513,1024,1030};
const unsigned H_OPS=24;
bool hstep(Ctx&c, BitVector&v, Ref&r, BitVector&o, Ref&q, unsigned op){
	auto rs=[&](size_t n, int m){ size_t old=r.size(); if(m<2){ v.resize(n,m==1); r.b.resize(n,m==1); } else { v.resize(n,BitVector::uninitialized); adopt(c,v,r,std::min(old,n),n); } };
	switch(op){
		case 0: rs(0,0); break; case 1: rs(0,1); break; case 2: rs(1,1); break; case 3: rs(511,1); break; case 4: rs(512,1); break; case 5: rs(512,0); break; case 6: rs(512,2); break; case 7: rs(513,1); break; case 8: rs(1024,1); break; case 9: rs(1024,2); break; case 10: rs(1030,0); break; case 11: rs(64,2); break;
		case 12: v.set_all(); for(auto&x:r.b) x=1; break; case 13: v.reset_all(); for(auto&x:r.b) x=0; break; case 14: v.inplace_not(); for(auto&x:r.b) x=!x; break;
		case 15: if(!r.size()) return false; v.toggle(r.size()-1); r.b.back()^=1; break; case 16: if(!r.size()) return false; v.set(r.size()/2,r.size()%2==0); r.b[r.size()/2]=r.size()%2==0; break;
		case 17: v.swap(o); std::swap(r,q); break; case 18: o=v; q=r; break; case 19: { BitVector t(std::move(v)); r.b.swap(q.b); std::swap(r.b,q.b); o=std::move(t); q=r; r=Ref(); break; }
		case 20: if(r.size()!=q.size()) return false; v^=o; for(size_t i=0;i<r.size();++i) r.b[i]^=q.b[i]; break; case 21: if(r.size()!=q.size()) return false; v|=~o; for(size_t i=0;i<r.size();++i) r.b[i]|=!q.b[i]; break;
		case 22: { size_t n=r.size(); size_t x=n+3; v.make_large_enough_for(x,true); if(v.size()<=x) c.fail("not large enough"); r.b.resize(v.size(),1); break; }
		case 23: { BitVector t(v); v=t; t.set_all(false); BitVector e; BitVector f(e); f.swap(e); v=std::move(v|BitVector(v)); break; }
	}
	return true;
}
// ---------------------------------------------------------------- sizes beyond 2^32: the model is "value lo below split, value hi from it on, except flipped positions"
struct Big{ uint64_t n; bool lo,hi; uint64_t split; std::vector<uint64_t>flip; 
	bool bit(uint64_t i)const{ bool v=i<split?lo:hi; for(uint64_t f:flip) if(f==i) v=!v; return v; }
	void toggle(uint64_t x){ for(size_t i=0;i<flip.size();++i) if(flip[i]==x){ flip.erase(flip.begin()+i); return; } flip.push_back(x); }
	void set(uint64_t x, bool v){ if(bit(x)!=v) toggle(x); } };
void same_big(Ctx&c, const BitVector&v, const Big&r){
	++c.states; if(v.size()!=r.n) c.fail(fmt("size is %llu instead of %llu",(unsigned long long)v.size(),(unsigned long long)r.n));
	uint64_t words=(r.n+511)/512*8,pc=0; if(v.uint512_count()!=words/8) c.fail("uint512_count is wrong"); if(v.empty()) c.fail("empty() is wrong"); const uint64_t*d=v.data();
	uint64_t sw=r.split/64,lw=r.n/64; auto odd=[&](uint64_t w){ return w==sw||w>=lw; };
	std::vector<uint64_t>special; for(uint64_t f:r.flip) special.push_back(f/64);
	for(uint64_t w=0;w<words;++w){ uint64_t x=w<sw?(r.lo?~0ull:0):(r.hi?~0ull:0); bool sp=odd(w); for(uint64_t f:special) sp|=f==w; if(sp){ x=0; for(unsigned b=0;b<64;++b) if(w*64+b<r.n&&r.bit(w*64+b)) x|=1ull<<b; } if(d[w]!=x) c.fail(fmt("word %llu of the storage is %016llx instead of %016llx (size %llu)",(unsigned long long)w,(unsigned long long)d[w],(unsigned long long)x,(unsigned long long)r.n)); pc+=__builtin_popcountll(x); }
	if(v.population_count()!=pc||v.count_true()!=pc||v.count_false()!=r.n-pc) c.fail(fmt("counts %llu/%llu/%llu instead of %llu",(unsigned long long)v.population_count(),(unsigned long long)v.count_true(),(unsigned long long)v.count_false(),(unsigned long long)pc));
	if(v.are_all_set()!=(pc==r.n)) c.fail("are_all_set is wrong"); if(v.is_any_set()!=(pc!=0)) c.fail("is_any_set is wrong"); }
const uint64_t G4=1ull<<32;
std::vector<uint64_t> big_spots(uint64_t n){ std::vector<uint64_t>r; for(uint64_t x:{(uint64_t)0,(uint64_t)63,(uint64_t)1<<31,G4-65,G4-1,G4,G4+1,G4+70,n-1}) if(x<n&&std::find(r.begin(),r.end(),x)==r.end()) r.push_back(x); return r; }
enum{BIG_OPS=8};
void big(Ctx&c, uint64_t n, unsigned op){
	c.note=fmt("size %llu group %u",(unsigned long long)n,op); ++c.transitions;
	auto ops=[&](BitVector&v, Big&r){ for(uint64_t x:big_spots(n)){ auto want=[&](bool b){ ++c.transitions; if(v.is_set(x)!=b) c.fail(fmt("bit %llu is %d",(unsigned long long)x,!b)); }; v.set(x); want(1); v.reset(x); want(0); v.set_if(x,false); want(0); v.set_if(x,true); want(1); v.toggle(x); want(0); v.set(x,true); want(1); v.set(x,false); want(0); v.toggle(x); want(1); if(r.lo) v.reset(x); r.set(x,!r.lo); } same_big(c,v,r); };
	switch(op){
	case 0:{ BitVector v(n,false); Big r{n,0,0,0,{}}; same_big(c,v,r); ops(v,r); break; }
	case 1:{ BitVector v(n,true); Big r{n,1,1,0,{}}; same_big(c,v,r); ops(v,r); break; }
	case 2:{ BitVector v(700,true); v.resize(n,false); same_big(c,v,Big{n,1,0,700,{}}); v.resize(G4-5,true); Big r{G4-5,1,0,700,{}}; same_big(c,v,r); v.resize(n,true); r=Big{n,1,0,700,{}}; BitVector w(0,false); w.swap(v); uint64_t words=(n+63)/64; for(uint64_t k=(G4-5)/64;k<words;++k) for(unsigned b=0;b<64;++b){ uint64_t i=k*64+b; if(i<n&&w.is_set(i)!=(i>=G4-5)) c.fail(fmt("bit %llu after growing with ones",(unsigned long long)i)); } if(w.population_count()!=700+n-(G4-5)) c.fail("count after growing with ones"); break; }
	case 3:{ BitVector v(700,false); v.resize(n,true); same_big(c,v,Big{n,0,1,700,{}}); v.resize(900,false); if(v.size()!=900||v.population_count()!=200) c.fail("shrinking back"); break; }
	case 4:{ BitVector v(n,false); v.set(n-1); BitVector w(v); Big r{n,0,0,0,{n-1}}; same_big(c,w,r); if(!(v==w)||v<w||w<v) c.fail("a copy is different"); v.toggle(n-1); if(v==w||(v<w)==(w<v)) c.fail("vectors that differ in the last bit"); v.set(n-1); v.set(0); if(v==w||(v<w)==(w<v)) c.fail("vectors that differ in the first bit"); BitVector m(std::move(w)); if(m.size()!=n||w.size()!=0) c.fail("move"); w=std::move(v); same_big(c,w,Big{n,0,0,0,{0,n-1}}); w.swap(m); same_big(c,w,r); break; }
	case 5:{ BitVector v(n,false),w(n,true); Big a{n,0,0,0,{}},b{n,1,1,0,{}}; for(uint64_t x:big_spots(n)){ v.set(x); a.set(x,1); } uint64_t h=n/2+1; w.reset(h); w.reset(n-1); b.set(h,0); b.set(n-1,0); { v|=w; Big o{n,1,1,0,{}}; o.set(h,0); same_big(c,v,o); } { v^=w; Big o{n,0,0,0,{}}; o.set(n-1,1); same_big(c,v,o); } w&=v; same_big(c,w,Big{n,0,0,0,{}}); break; }
	case 6:{ BitVector v(n,false); v.set(n-1); v.set(G4-2); v.inplace_not(); Big r{n,1,1,0,{n-1,G4-2}}; same_big(c,v,r); v.set_all(); same_big(c,v,Big{n,1,1,0,{}}); v.reset_all(); same_big(c,v,Big{n,0,0,0,{}}); v.set_all(true); same_big(c,v,Big{n,1,1,0,{}}); v.set_all(false); same_big(c,v,Big{n,0,0,0,{}}); break; }
	default:{ BitVector v(5,true); v.make_large_enough_for(n-1,false); if(v.size()<n||v.population_count()!=5) c.fail("make_large_enough_for"); v.set(n-1); if(!v.is_set(n-1)||v.population_count()!=6) c.fail("bit set after make_large_enough_for"); } }
	++c.traces; }
void make15(std::vector<Suite>&v){
	bool T=vx::opt().thorough(),A=vx::opt().asan();
	std::vector<size_t>ns; for(size_t i=0;i<=1100;++i) ns.push_back(i); for(size_t i:{1534,1535,1536,1537,2047,2048,2049,4095,4096,4097,5000}) ns.push_back(i);
	std::vector<size_t>bs{0,1,2,31,32,33,63,64,65,127,128,129,191,192,256,320,384,447,448,449,510,511,512,513,514,575,576,577,1022,1023,1024,1025,1026,1087,1088,1535,1536,1537,2047,2048,2049,2560,4096,4097};
	auto use= A&&!T? bs: ns;
	{ Suite s; s.name="single_vectors"; s.bounds=fmt("%zu sizes (all up to 1100) x %u contents: constructors, bulk and single bit operations, copies, moves, comparisons, padding",use.size(),P_COUNT); s.count=use.size()*P_COUNT; s.describe=[=](uint64_t i){ return fmt("size %zu pattern %u",use[i/P_COUNT],(unsigned)(i%P_COUNT)); }; s.run=[=](uint64_t i, Ctx&c){ unary(c,use[i/P_COUNT],i%P_COUNT); }; v.push_back(s); }
	{ Suite s; s.name="combinations"; s.bounds=fmt("%zu sizes x all pairs of %u contents: and, or, xor in all value categories, comparisons",use.size(),P_COUNT); s.count=use.size()*P_COUNT*P_COUNT; s.describe=[=](uint64_t i){ return fmt("size %zu patterns %u %u",use[i/P_COUNT/P_COUNT],(unsigned)(i%P_COUNT),(unsigned)(i/P_COUNT%P_COUNT)); }; s.run=[=](uint64_t i, Ctx&c){ binary(c,use[i/P_COUNT/P_COUNT],i%P_COUNT,i/P_COUNT%P_COUNT); }; v.push_back(s); }
	{ Suite s; s.name="resize_boundaries"; s.bounds=fmt("all pairs of %zu boundary sizes x %u contents x 6 ways of resizing",bs.size(),P_COUNT); s.count=bs.size()*bs.size(); s.describe=[=](uint64_t i){ return fmt("%zu -> %zu",bs[i/bs.size()],bs[i%bs.size()]); }; s.run=[=](uint64_t i, Ctx&c){ for(unsigned p=0;p<P_COUNT;++p) for(unsigned m=0;m<6;++m) resizes(c,bs[i/bs.size()],bs[i%bs.size()],p,m); ++c.traces; }; v.push_back(s); }
	if(!A){ unsigned N=T?2100:1100; Suite s; s.name="resize_all"; s.bounds=fmt("all pairs of sizes up to %u x 3 contents x 6 ways of resizing",N); s.count=(uint64_t)N*N; s.describe=[=](uint64_t i){ return fmt("%u -> %u",(unsigned)(i/N),(unsigned)(i%N)); }; s.run=[=](uint64_t i, Ctx&c){ for(unsigned p:{P_ZERO,P_ONE,P_THIRD}) for(unsigned m=0;m<6;++m) resizes(c,i/N,i%N,p,m); ++c.traces; }; v.push_back(s); }
	{ unsigned depth=T?6:(A?4:5); unsigned k=sizeof(HS)/sizeof(*HS); Suite s; s.name="histories"; s.bounds=fmt("all sequences of %u of %u operations on two vectors, %u start sizes",depth,H_OPS,k); s.count=vx::ipow(H_OPS,depth-1)*k; s.describe=[=](uint64_t i){ vx::Dec d(i); std::string r=fmt("start %zu operations",HS[d.get(k)]); for(unsigned j=0;j<depth-1;++j) r+=fmt(" %u",(unsigned)d.get(H_OPS)); return r+" then each"; };
	  s.run=[=](uint64_t i, Ctx&c){ vx::Dec d(i); size_t n=HS[d.get(k)]; Ref r=ref(P_THIRD,n),q=ref(P_ALT,n); BitVector v=mk(r),o=mk(q); std::string log; for(unsigned j=0;j<depth-1;++j){ unsigned op=d.get(H_OPS); log+=fmt(" %u",op); c.note=fmt("start %zu operations",n)+log; ++c.transitions; if(!hstep(c,v,r,o,q,op)) return; same(c,v,r,false); same(c,o,q,false); }
		for(unsigned op=0;op<H_OPS;++op){ BitVector v2(v),o2(o); Ref r2(r),q2(q); c.note=fmt("start %zu operations",n)+log+fmt(" %u",op); ++c.transitions; if(!hstep(c,v2,r2,o2,q2,op)) continue; same(c,v2,r2,false); same(c,o2,q2,false); ++c.traces; } }; v.push_back(s); }
	if(!A){ static const uint64_t N[]={G4-1,G4,G4+1,G4+600}; unsigned k=T?4:2; Suite s; s.name="beyond_32_bits"; s.bounds=fmt("%u sizes around 2^32 x %u groups of operations, all words of the storage compared",k,(unsigned)BIG_OPS); s.count=k*BIG_OPS; s.chunk=1; s.describe=[=](uint64_t i){ return fmt("size %llu group %u",(unsigned long long)N[3-i/BIG_OPS],(unsigned)(i%BIG_OPS)); }; s.run=[=](uint64_t i, Ctx&c){ big(c,N[3-i/BIG_OPS],i%BIG_OPS); }; v.push_back(s); }
}
// ---------------------------------------------------------------- C16
template<class M> void check_local(Ctx&c, const M&m, const Ref&r, const std::vector<uint64_t>&ids){
	c.eq(m.global_id_count(),(uint64_t)r.size(),[]{ return std::string("global_id_count"); }); c.eq(m.local_id_count(),(uint64_t)ids.size(),[]{ return std::string("local_id_count"); });
	uint64_t k=0; for(size_t g=0;g<r.size();++g){ ++c.states; if(m.is_global_id_mapped(g)!=(r.b[g]!=0)) c.fail(fmt("is_global_id_mapped(%zu)",g));
		uint64_t a=m.to_local(g,~0ull),b=m.to_local(g,77777777); if(r.b[g]){ uint64_t x=m.to_local(g); if(x!=k||a!=k||b!=k) c.fail(fmt("to_local(%zu) is %llu / %llu instead of %llu",g,(unsigned long long)x,(unsigned long long)a,(unsigned long long)k)); ++k; } else if(a!=~0ull||b!=77777777) c.fail(fmt("to_local(%zu,default) of an id that is not contained is %llu",g,(unsigned long long)a)); }
	for(uint64_t g:{(uint64_t)r.size(),(uint64_t)r.size()+1,(uint64_t)r.size()+511,(uint64_t)1<<40,(uint64_t)-1}) if(m.to_local(g,5)!=5) c.fail(fmt("to_local(%llu,default) beyond the range",(unsigned long long)g));
}
void check_map(Ctx&c, const Ref&r){
	BitVector v=mk(r); std::vector<uint64_t>ids; for(size_t i=0;i<r.size();++i) if(r.b[i]) ids.push_back(i);
	c.transitions+=2; LocalIDMapper l(v); check_local(c,l,r,ids); IDMapper m(v.size(),v.data()); check_local(c,m,r,ids);
	auto sel=[&](const IDMapper&x){ for(uint64_t k=0;k<ids.size();++k){ ++c.states; uint64_t g=x.to_global(k); if(g!=ids[k]) c.fail(fmt("to_global(%llu) is %llu instead of %llu",(unsigned long long)k,(unsigned long long)g,(unsigned long long)ids[k])); } };
	sel(m); 
	if(r.size()<=1100){ IDMapper a(m),b; b=a; IDMapper d(std::move(a)); sel(b); sel(d); check_local(c,d,r,ids); LocalIDMapper e; c.eq(e.local_id_count()+e.global_id_count(),(uint64_t)0,[]{ return std::string("counts of an empty mapper"); }); c.eq(e.to_local(0,9),(uint64_t)9,[]{ return std::string("empty mapper"); }); e=l; check_local(c,e,r,ids); IDMapper f(v); f=std::move(d); sel(f); }
	++c.traces;
}
void big_map(Ctx&c, unsigned k){
	uint64_t n=G4+2500; c.note=fmt("case %u",k); BitVector v(n,k==1); std::vector<uint64_t>sp; // sp: the positions looked at; before(x): ids below x
	for(uint64_t b:{(uint64_t)0,(uint64_t)1<<31,G4-700,G4,n-600}) for(uint64_t x=b;x<b+600&&x<n;++x) sp.push_back(x);
	for(uint64_t b=1;b<4096;++b) for(int d=-1;d<2;++d) sp.push_back((b<<20)+d);
	std::sort(sp.begin(),sp.end()); sp.erase(std::unique(sp.begin(),sp.end()),sp.end());
	std::function<bool(uint64_t)>in; std::function<uint64_t(uint64_t)>before;
	if(k==0){ for(size_t i=0;i<sp.size();i+=2) v.set(sp[i]); in=[&](uint64_t x){ size_t p=std::lower_bound(sp.begin(),sp.end(),x)-sp.begin(); return p<sp.size()&&sp[p]==x&&p%2==0; }; before=[&](uint64_t x){ return (uint64_t)(std::lower_bound(sp.begin(),sp.end(),x)-sp.begin()+1)/2; }; }
	else if(k==1){ in=[](uint64_t){ return true; }; before=[](uint64_t x){ return x; }; }
	else { v.resize(G4-1000); v.resize(n,true); in=[](uint64_t x){ return x>=G4-1000; }; before=[](uint64_t x){ return x<G4-1000?0:x-(G4-1000); }; }
	LocalIDMapper l(v); IDMapper m(v); c.transitions+=2; uint64_t total=before(n-1)+in(n-1);
	if(l.global_id_count()!=n||m.global_id_count()!=n||l.local_id_count()!=total||m.local_id_count()!=total) c.fail(fmt("counts %llu %llu instead of %llu",(unsigned long long)l.local_id_count(),(unsigned long long)m.local_id_count(),(unsigned long long)total));
	for(uint64_t x:sp){ ++c.states; if(m.is_global_id_mapped(x)!=in(x)) c.fail(fmt("is_global_id_mapped(%llu)",(unsigned long long)x)); uint64_t w=in(x)?before(x):~0ull; if(l.to_local(x,~0ull)!=w||m.to_local(x,~0ull)!=w||(in(x)&&l.to_local(x)!=w)) c.fail(fmt("to_local(%llu) is %llu instead of %llu",(unsigned long long)x,(unsigned long long)m.to_local(x,~0ull),(unsigned long long)w)); if(in(x)&&m.to_global(w)!=x) c.fail(fmt("to_global(%llu) is %llu instead of %llu",(unsigned long long)w,(unsigned long long)m.to_global(w),(unsigned long long)x)); }
	if(m.to_local(n,5)!=5||m.to_local(2*G4,5)!=5) c.fail("to_local beyond the range"); ++c.traces; }
void make16(std::vector<Suite>&v){
	bool T=vx::opt().thorough(),A=vx::opt().asan();
	{ Suite s; unsigned N=A?10:13; s.name="all_small_sets"; s.bounds=fmt("every subset of every range of up to %u ids",N); s.count=(1ull<<(N+1))-1; s.describe=[](uint64_t i){ return fmt("set %llx",(unsigned long long)i+1); };
	  s.run=[](uint64_t i, Ctx&c){ ++i; unsigned n=63-__builtin_clzll(i); Ref r(n); for(unsigned k=0;k<n;++k) r.b[k]=i>>k&1; c.note=fmt("n %u",n); check_map(c,r); }; v.push_back(s); }
	static const unsigned sp[]={0,1,31,32,62,63,64,65,127,128,447,448,510,511,512,513,575,1023,1024,1087};
	{ Suite s; unsigned K=T?20:(A?11:16); s.name="boundary_sets"; s.bounds=fmt("every subset of %u ids at word and block boundaries in a range of 1088 ids, backgrounds empty / full / every third",K); s.count=(1ull<<K)*3; s.describe=[](uint64_t i){ return fmt("background %u mask %llx",(unsigned)(i%3),(unsigned long long)i/3); };
	  s.run=[=](uint64_t i, Ctx&c){ unsigned bg=i%3; uint64_t m=i/3; Ref r(1088); for(unsigned k=0;k<1088;++k) r.b[k]=bg==0?0:bg==1?1:k%3==0; for(unsigned k=0;k<K;++k) r.b[sp[k*20/K]]=m>>k&1; c.note="boundary set"; check_map(c,r); }; v.push_back(s); }
	{ Suite s; s.name="word_patterns"; unsigned W=A?10:(T?18:14); s.bounds=fmt("every %u bit pattern at 16 places of words, in three words of a block, surrounded by ones or zeros",W); s.count=(1ull<<W)*16; s.describe=[=](uint64_t i){ return fmt("pattern %llx place %u",(unsigned long long)i/16,(unsigned)(i%16)); };
	  s.run=[=](uint64_t i, Ctx&c){ unsigned sh=(i%16)*4; uint64_t p=i/16; for(unsigned w:{0u,3u,7u}) for(int bg=0;bg<2;++bg){ Ref r(w*64+64+ (bg?5:0)); for(size_t k=0;k<r.size();++k) r.b[k]=bg; for(unsigned k=0;k<W;++k) if(sh+k<64) r.b[w*64+sh+k]=p>>k&1; c.note=fmt("word %u background %d",w,bg); check_map(c,r); } }; v.push_back(s); }
	static const unsigned fill[]={0,1,255,256,257,512,128};
	{ Suite s; unsigned B=T?8:(A?5:6),F=7; s.name="block_fillings"; s.bounds=fmt("%u blocks, every assignment of 0,1,128,255,256,257,512 ids to them",B); s.count=vx::ipow(F,B)*2; s.describe=[=](uint64_t i){ vx::Dec d(i); std::string r=fmt("style %u fill",(unsigned)d.get(2)); for(unsigned b=0;b<B;++b) r+=fmt(" %u",fill[d.get(F)]); return r; };
	  s.run=[=](uint64_t i, Ctx&c){ vx::Dec d(i); unsigned st=d.get(2); Ref r(B*512-(st?100:0)); for(unsigned b=0;b<B;++b){ unsigned f=fill[d.get(F)]; for(unsigned k=0;k<f;++k){ size_t x=b*512+(st?511-k:k*(f<=256?2:1)); if(x<r.size()) r.b[x]=1; } } c.note="blocks"; check_map(c,r); }; v.push_back(s); }
	{ Suite s; s.name="long_gaps"; s.bounds="up to 200 blocks: filled blocks separated by gaps of 0..40 empty blocks, every count of ids before the gap around 256"; s.count=41*9; s.describe=[](uint64_t i){ return fmt("gap %u first %u",(unsigned)(i%41),(unsigned)(i/41)); };
	  s.run=[](uint64_t i, Ctx&c){ static const unsigned f[]={1,2,254,255,256,257,300,511,512}; unsigned gap=i%41,k=f[i/41]; Ref r((gap+1)*512*4+77); for(unsigned q=0;q<4;++q) for(unsigned j=0;j<k;++j){ size_t x=(size_t)q*(gap+1)*512+j; if(x<r.size()) r.b[x]=1; } r.b.back()=1; c.note="gaps"; check_map(c,r); }; v.push_back(s); }
	{ Suite s; s.name="sizes"; s.bounds="every size up to 1600 with 4 contents"; s.count=1601*4; s.describe=[](uint64_t i){ return fmt("size %u content %u",(unsigned)(i/4),(unsigned)(i%4)); }; s.run=[](uint64_t i, Ctx&c){ static const unsigned P[]={P_ZERO,P_ONE,P_THIRD,P_LAST}; c.note="size"; check_map(c,ref(P[i%4],i/4)); }; v.push_back(s); }
	if(!A){ Suite s; s.name="beyond_32_bits"; s.bounds="more than 2^32 global ids (few of them, all of them, the last ones): about 14000 places around 2^31, 2^32, the end and every multiple of 2^20"; s.count=3; s.chunk=1; s.describe=[](uint64_t i){ return fmt("case %u",(unsigned)i); }; s.run=[](uint64_t i, Ctx&c){ big_map(c,i); }; v.push_back(s); }
}
void make(std::vector<Suite>&v, const std::string&p){ if(p!="C16") make15(v); if(p!="C15"){ size_t k=v.size(); make16(v); if(p=="C34") for(;k<v.size();++k) v[k].name="mapper_"+v[k].name; } }
}
int main(int argc, char**argv){ if(argc<2) return 2; mallopt(M_PERTURB,0xA5); std::string p=argv[1]; return vx::run_all(argc-1,argv+1,p,make); }
