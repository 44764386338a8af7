// C17 permutation / sorting / inversion / filter functions, C18 graph utilities, against their definitions.
#include "vx.h"
#include "graphs.h"
#include <routingkit/permutation.h>
#include <routingkit/sort.h>
#include <routingkit/inverse_vector.h>
#include <routingkit/filter.h>
#include <routingkit/min_max.h>
#include <routingkit/graph_util.h>
#include <memory>
#include <random>
using namespace RoutingKit; using vx::fmt; using vx::Ctx; using vx::Suite; using vx::str;
typedef std::vector<unsigned> V;
namespace{
V digits(uint64_t i, unsigned len, unsigned radix){ vx::Dec d(i); V v(len); for(auto&x:v) x=d.get(radix); return v; }
// element types: plain number, short string, long (heap) string, number that may only be moved, type whose moved-from state is visible
struct Tok{ int v; bool live; Tok():v(-1),live(false){} explicit Tok(int v):v(v),live(true){} Tok(const Tok&o)=default; Tok(Tok&&o):v(o.v),live(o.live){ o.live=false; o.v=-2; } Tok&operator=(const Tok&o)=default; Tok&operator=(Tok&&o){ v=o.v; live=o.live; o.live=false; o.v=-2; return *this; } bool operator==(const Tok&o)const{ return v==o.v&&live==o.live; } };
std::ostream&operator<<(std::ostream&o, const Tok&t){ return o<<t.v<<(t.live?"":"?"); }
template<class T> struct Mk; 
template<> struct Mk<unsigned>{ static unsigned at(unsigned i){ return i*3+100; } };
template<> struct Mk<std::string>{ static std::string at(unsigned i){ return i%2?"s"+std::to_string(i):"a string that does not fit into the object itself "+std::to_string(i); } };
template<> struct Mk<Tok>{ static Tok at(unsigned i){ return Tok(i); } };
template<class T> std::vector<T> items(unsigned n){ std::vector<T>r; for(unsigned i=0;i<n;++i) r.push_back(Mk<T>::at(i)); return r; }
template<class T> void same(Ctx&c, const std::vector<T>&a, const std::vector<T>&b, const std::string&w){ ++c.states; if(a.size()!=b.size()) c.fail(w+fmt(": size %zu instead of %zu",a.size(),b.size())); for(size_t i=0;i<a.size();++i) if(!(a[i]==b[i])){ std::ostringstream o; o<<w<<": element "<<i<<" is '"<<a[i]<<"' instead of '"<<b[i]<<"'"; c.fail(o.str()); } }
template<class T> void perm_type(Ctx&c, const V&p, const char*tn){
	unsigned n=p.size(); auto v=items<T>(n); std::vector<T>a,b(n,Mk<T>::at(0)); for(unsigned i=0;i<n;++i) a.push_back(v[p[i]]); for(unsigned i=0;i<n;++i) b[p[i]]=v[i];
	c.transitions+=4; same(c,apply_permutation(p,v),a,std::string("apply_permutation ")+tn); same(c,apply_inverse_permutation(p,v),b,std::string("apply_inverse_permutation ")+tn);
	{ auto x=v; same(c,apply_permutation(p,std::move(x)),a,std::string("apply_permutation of an rvalue ")+tn); } { auto x=v; same(c,apply_inverse_permutation(p,std::move(x)),b,std::string("apply_inverse_permutation of an rvalue ")+tn); }
	same(c,v,items<T>(n),"the argument"); same(c,apply_inverse_permutation(p,apply_permutation(p,v)),v,"apply and apply inverse");
}
void perm_case(Ctx&c, const V&p){
	unsigned n=p.size(); if(n<=1000) c.note="permutation "+str(p); perm_type<unsigned>(c,p,"numbers"); perm_type<std::string>(c,p,"strings"); perm_type<Tok>(c,p,"tokens");
	{ std::vector<std::unique_ptr<unsigned>>v,w; for(unsigned i=0;i<n;++i){ v.emplace_back(new unsigned(i)); w.emplace_back(new unsigned(i)); } auto r=apply_permutation(p,std::move(v)); auto s=apply_inverse_permutation(p,std::move(w)); for(unsigned i=0;i<n;++i){ if(!r[i]||*r[i]!=p[i]) c.fail("apply_permutation of move only elements"); if(!s[p[i]]||*s[p[i]]!=i) c.fail("apply_inverse_permutation of move only elements"); } }
	V inv(n); for(unsigned i=0;i<n;++i) inv[p[i]]=i; c.eqs(invert_permutation(p),inv,"invert_permutation"); c.eqs(is_permutation(p),true,"is_permutation"); V id(n); for(unsigned i=0;i<n;++i) id[i]=i; c.eqs(identity_permutation(n),id,"identity_permutation");
	c.eqs(chain_permutation_first_left_then_right(p,inv),id,"chain with the inverse"); ++c.traces;
}
void chain_case(Ctx&c, const V&p, const V&q){
	if(p.size()<=1000) c.note="permutations "+str(p)+" "+str(q); V v(p.size()); for(unsigned i=0;i<v.size();++i) v[i]=i*7+1;
	V w1(v.size()),w2(v.size()); for(unsigned i=0;i<v.size();++i) w1[i]=v[p[i]]; for(unsigned i=0;i<v.size();++i) w2[i]=w1[q[i]];           // first p, then q
	V u1(v.size()),u2(v.size()); for(unsigned i=0;i<v.size();++i) u1[i]=v[q[i]]; for(unsigned i=0;i<v.size();++i) u2[i]=u1[p[i]];
	c.eqs(apply_permutation(chain_permutation_first_left_then_right(p,q),v),w2,"applying the chain first left then right"); c.eqs(apply_permutation(chain_permutation_first_right_then_left(p,q),v),u2,"applying the chain first right then left"); c.transitions+=2; ++c.traces;
}
void elem_case(Ctx&c, const V&p, V v){ // radix value p.size() stands for invalid_id
	bool inv=false; for(auto&x:v) if(x==p.size()){ x=invalid_id; inv=true; } if(v.size()<=1000) c.note="permutation "+str(p)+" elements "+str(v); V want(v); for(auto&x:want) if(x!=invalid_id) x=p[x];
	c.transitions+=2; c.eqs(apply_permutation_to_possibly_invalid_elements_of(p,v),want,"apply_permutation_to_possibly_invalid_elements_of"); V w(v); inplace_apply_permutation_to_possibly_invalid_elements_of(p,w); c.eqs(w,want,"inplace_apply_permutation_to_possibly_invalid_elements_of");
	if(!inv){ c.eqs(apply_permutation_to_elements_of(p,v),want,"apply_permutation_to_elements_of"); w=v; inplace_apply_permutation_to_elements_of(p,w); c.eqs(w,want,"inplace_apply_permutation_to_elements_of"); } ++c.traces;
}
struct It{ unsigned key; int tag; bool operator==(const It&o)const{ return key==o.key&&tag==o.tag; } };
bool operator<(const It&l, const It&r){ return l.key<r.key; }
std::ostream&operator<<(std::ostream&o, const It&t){ return o<<t.key<<"#"<<t.tag; }
struct KeyOf{ unsigned sh; explicit KeyOf(unsigned sh):sh(sh){} KeyOf(const KeyOf&)=delete; KeyOf&operator=(const KeyOf&)=delete; unsigned operator()(const It&i)const{ return i.key+sh; } }; // promised never to be copied
void check_perm(Ctx&c, const V&p, const std::vector<It>&v, const V&want, bool stable, bool inverse, const char*w){
	++c.transitions; ++c.states; if(p.size()!=v.size()) c.fail(std::string(w)+": size"); V q(p); { V f(p.size(),0); for(unsigned x:p){ if(x>=p.size()||f[x]) c.fail(std::string(w)+" is no permutation: "+str(p)); f[x]=1; } }
	if(inverse) for(unsigned i=0;i<p.size();++i) q[p[i]]=i;
	if(stable){ if(q!=want) c.fail(std::string(w)+": got "+str(q)+" want "+str(want)); } else for(unsigned i=0;i+1<q.size();++i) if(v[q[i+1]].key<v[q[i]].key) c.fail(std::string(w)+" does not sort: "+str(q));
}
void check_sorted(Ctx&c, const std::vector<It>&got, const std::vector<It>&want, bool stable, const char*w){
	++c.transitions; if(stable){ same(c,got,want,w); return; } ++c.states; if(got.size()!=want.size()) c.fail(std::string(w)+": size"); for(unsigned i=0;i<got.size();++i) if(got[i].key!=want[i].key) c.fail(std::string(w)+": order of keys"); auto a=got,b=want; auto by=[](const It&l,const It&r){ return l.tag<r.tag; }; std::sort(a.begin(),a.end(),by); std::sort(b.begin(),b.end(),by); same(c,a,b,std::string(w)+": elements");
}
void sort_case(Ctx&c, const V&keys, const std::vector<unsigned>&key_counts){
	bool big=keys.size()>1000; std::string kn=big?c.note:"keys "+str(keys); c.note=kn; std::vector<It>v; for(unsigned i=0;i<keys.size();++i) v.push_back({keys[i],(int)i}); V want; for(unsigned i=0;i<keys.size();++i) want.push_back(i); if(big) std::stable_sort(want.begin(),want.end(),[&](unsigned x, unsigned y){ return keys[x]<keys[y]; }); else for(unsigned i=1;i<want.size();++i) for(unsigned j=i;j>0&&keys[want[j]]<keys[want[j-1]];--j) std::swap(want[j],want[j-1]);
	std::vector<It>sorted; for(unsigned x:want) sorted.push_back(v[x]); bool is=true; for(unsigned i=1;i<keys.size();++i) if(keys[i]<keys[i-1]) is=false; auto v0=v;
	auto less=[](const It&l,const It&r){ return l.key<r.key; }; 
	check_perm(c,compute_sort_permutation_using_comparator(v,less),v,want,0,0,"compute_sort_permutation_using_comparator"); check_perm(c,compute_stable_sort_permutation_using_comparator(v,less),v,want,1,0,"compute_stable_sort_permutation_using_comparator"); check_perm(c,compute_inverse_sort_permutation_using_comparator(v,less),v,want,0,1,"compute_inverse_sort_permutation_using_comparator"); check_perm(c,compute_inverse_stable_sort_permutation_using_comparator(v,less),v,want,1,1,"compute_inverse_stable_sort_permutation_using_comparator");
	check_perm(c,compute_sort_permutation_using_less(v),v,want,0,0,"compute_sort_permutation_using_less"); check_perm(c,compute_stable_sort_permutation_using_less(v),v,want,1,0,"compute_stable_sort_permutation_using_less"); check_perm(c,compute_inverse_sort_permutation_using_less(v),v,want,0,1,"compute_inverse_sort_permutation_using_less"); check_perm(c,compute_inverse_stable_sort_permutation_using_less(v),v,want,1,1,"compute_inverse_stable_sort_permutation_using_less");
	check_sorted(c,sort_using_comparator(v,less),sorted,0,"sort_using_comparator"); check_sorted(c,stable_sort_using_comparator(v,less),sorted,1,"stable_sort_using_comparator"); check_sorted(c,sort_using_less(v),sorted,0,"sort_using_less"); check_sorted(c,stable_sort_using_less(v),sorted,1,"stable_sort_using_less");
	{ auto x=v; check_sorted(c,sort_using_comparator(std::move(x),less),sorted,0,"sort_using_comparator (rvalue)"); x=v; check_sorted(c,stable_sort_using_comparator(std::move(x),less),sorted,1,"stable_sort_using_comparator (rvalue)"); x=v; check_sorted(c,sort_using_less(std::move(x)),sorted,0,"sort_using_less (rvalue)"); x=v; check_sorted(c,stable_sort_using_less(std::move(x)),sorted,1,"stable_sort_using_less (rvalue)"); }
	c.eqs(is_sorted_using_less(v),is,"is_sorted_using_less"); c.eqs(is_sorted_using_comparator(v,less),is,"is_sorted_using_comparator");
	for(unsigned kc:key_counts){
		unsigned mx=0; for(unsigned k:keys) mx=std::max(mx,k+1); if(kc<mx) continue; unsigned sh=kc-mx; for(unsigned s2: sh?std::vector<unsigned>{0,sh}:std::vector<unsigned>{0}){ KeyOf k(s2); c.note=kn+fmt(" + %u key_count %u",s2,kc);
		check_perm(c,compute_sort_permutation_using_key(v,kc,k),v,want,0,0,"compute_sort_permutation_using_key"); check_perm(c,compute_stable_sort_permutation_using_key(v,kc,k),v,want,1,0,"compute_stable_sort_permutation_using_key"); check_perm(c,compute_inverse_sort_permutation_using_key(v,kc,k),v,want,0,1,"compute_inverse_sort_permutation_using_key"); check_perm(c,compute_inverse_stable_sort_permutation_using_key(v,kc,k),v,want,1,1,"compute_inverse_stable_sort_permutation_using_key");
		check_sorted(c,sort_using_key(v,kc,k),sorted,0,"sort_using_key"); check_sorted(c,stable_sort_using_key(v,kc,k),sorted,1,"stable_sort_using_key"); { auto x=v; check_sorted(c,sort_using_key(std::move(x),kc,k),sorted,0,"sort_using_key (rvalue)"); x=v; check_sorted(c,stable_sort_using_key(std::move(x),kc,k),sorted,1,"stable_sort_using_key (rvalue)"); }
		c.eqs(is_sorted_using_key(v,kc,k),is,"is_sorted_using_key"); }
	}
	same(c,v,v0,"the argument was changed"); ++c.traces;
}
template<class T> void filter_type(Ctx&c, unsigned n, uint64_t mask, const char*tn){
	auto v=items<T>(n); std::vector<T>keep,rest; for(unsigned i=0;i<n;++i) (mask>>i&1?keep:rest).push_back(v[i]); BitVector f=make_bit_vector(n,[&](uint64_t i){ return (mask>>i&1)!=0; }); c.transitions+=4;
	same(c,keep_element_of_vector_if(f,v),keep,std::string("keep_element_of_vector_if ")+tn); same(c,remove_element_from_vector_if(f,v),rest,std::string("remove_element_from_vector_if ")+tn);
	{ auto x=v; inplace_keep_element_of_vector_if(f,x); same(c,x,keep,std::string("inplace_keep_element_of_vector_if ")+tn); } { auto x=v; inplace_remove_element_from_vector_if(f,x); same(c,x,rest,std::string("inplace_remove_element_from_vector_if ")+tn); }
}
// sizes beyond 16 bits
const unsigned BIG[]={255,256,257,65535,65536,65537,131075};
V big_perm(unsigned n, unsigned k){ V p(n); uint64_t st=n+k; for(unsigned i=0;i<n;++i) p[i]= k==0?i : k==1?n-1-i : k==2?(i+70000)%n : i; if(k==3) for(unsigned i=n;i>1;--i) std::swap(p[i-1],p[lcg(st)%i]); return p; }
V big_keys(unsigned n, unsigned k){ V p(n); uint64_t st=n+k; for(unsigned i=0;i<n;++i) p[i]= k==0?0 : k==1?n-1-i : k==2?i%3 : k==3?lcg(st)%n : k==4?i/2 : k==5?lcg(st)%70001 : i==n-1?0:1; return p; }
void big_misc(Ctx&c, unsigned n, unsigned k){
	V q=big_keys(n,k),s(q); std::sort(s.begin(),s.end()); unsigned mx=s.empty()?0:s.back()+1; for(unsigned cnt:{mx,mx+3,mx+70000}){ c.note=fmt("invert_vector n %u pattern %u count %u",n,k,cnt); V got=invert_vector(s,cnt),w(cnt+1,0); for(unsigned x:s) ++w[x+1]; for(unsigned i=0;i<cnt;++i) w[i+1]+=w[i]; c.eqs(got,w,"invert_vector"); c.eqs(invert_inverse_vector(got),s,"invert_inverse_vector"); c.transitions+=2; }
	auto f=make_bit_vector(n,[&](uint64_t i){ return q[i]%2==0; }); auto t=items<std::string>(n); std::vector<std::string>a,b; for(unsigned i=0;i<n;++i) (q[i]%2==0?a:b).push_back(t[i]); c.note=fmt("filter n %u pattern %u",n,k); same(c,keep_element_of_vector_if(f,t),a,"keep"); same(c,remove_element_from_vector_if(f,t),b,"remove"); { auto x=t; inplace_keep_element_of_vector_if(f,x); same(c,x,a,"inplace keep"); x=t; inplace_remove_element_from_vector_if(f,x); same(c,x,b,"inplace remove"); } c.transitions+=4;
	unsigned lo=0,hi=0; for(unsigned i=1;i<n;++i){ if(q[i]<q[lo]) lo=i; if(q[hi]<q[i]) hi=i; } c.eqs(first_min_element_position_of(q),lo,"first_min_element_position_of"); c.eqs(first_max_element_position_of(q),hi,"first_max_element_position_of"); c.eqs(is_permutation(q),k==1,"is_permutation");
	// one entry of a permutation replaced
	V p=big_perm(n,3); for(unsigned at:{0u,n/2,n-1}) for(unsigned val:{0u,n-1,n,n+65536u,invalid_id}){ V r(p); r[at]=val; c.eqs(is_permutation(r),val==p[at],"is_permutation after a change"); } ++c.traces;
}
void make17(std::vector<Suite>&v){
	bool T=vx::opt().thorough(),A=vx::opt().asan();
	for(unsigned n=0;n<=(T?9u:(A?6u:8u));++n){ Suite s; s.name=fmt("permutations_n%u",n); s.bounds=fmt("every permutation of %u elements, four element types",n); s.count=vx::factorial(n); s.describe=[=](uint64_t i){ return str(vx::nth_permutation(n,i)); }; s.run=[=](uint64_t i, Ctx&c){ perm_case(c,vx::nth_permutation(n,i)); }; v.push_back(s); }
	for(unsigned n=0;n<=(T?6u:(A?4u:5u));++n){ uint64_t F=vx::factorial(n); Suite s; s.name=fmt("chains_n%u",n); s.bounds=fmt("every pair of permutations of %u elements",n); s.count=F*F; s.describe=[=](uint64_t i){ return str(vx::nth_permutation(n,i%F))+str(vx::nth_permutation(n,i/F)); }; s.run=[=](uint64_t i, Ctx&c){ chain_case(c,vx::nth_permutation(n,i%F),vx::nth_permutation(n,i/F)); }; v.push_back(s); }
	for(unsigned n=0;n<=4;++n){ uint64_t F=vx::factorial(n),E=0; unsigned L=n==0?3:(A?3:5); for(unsigned l=0;l<=L;++l) E+=vx::ipow(n+1,l); Suite s; s.name=fmt("elements_n%u",n); s.bounds=fmt("every permutation of %u ids, every vector of up to %u valid or invalid ids",n,L); s.count=F*E;
	  auto dec=[=](uint64_t i){ uint64_t e=i/F; unsigned l=0; while(e>=vx::ipow(n+1,l)){ e-=vx::ipow(n+1,l); ++l; } return std::make_pair(vx::nth_permutation(n,i%F),digits(e,l,n+1)); }; s.describe=[=](uint64_t i){ auto p=dec(i); return str(p.first)+str(p.second); }; s.run=[=](uint64_t i, Ctx&c){ auto p=dec(i); elem_case(c,p.first,p.second); }; v.push_back(s); }
	{ unsigned L=A?4:5; Suite s; s.name="is_permutation"; s.bounds=fmt("every vector of up to %u entries from 0..%u, 2^31 and the invalid id",L,L+1); uint64_t E=0; for(unsigned l=0;l<=L;++l) E+=vx::ipow(L+4,l); s.count=E; auto dec=[=](uint64_t e){ unsigned l=0; while(e>=vx::ipow(L+4,l)){ e-=vx::ipow(L+4,l); ++l; } V d=digits(e,l,L+4); for(auto&x:d) if(x==L+2) x=1u<<31; else if(x==L+3) x=invalid_id; return d; };
	  s.describe=[=](uint64_t i){ return str(dec(i)); }; s.run=[=](uint64_t i, Ctx&c){ V d=dec(i),q(d); std::sort(q.begin(),q.end()); bool w=true; for(unsigned k=0;k<q.size();++k) if(q[k]!=k) w=false; c.note=str(d); c.eqs(is_permutation(d),w,"is_permutation"); ++c.traces; ++c.transitions; }; v.push_back(s); }
	{ Suite s; s.name="random_permutation"; s.bounds="sizes 0..200, three generators, 5 seeds each"; s.count=201*15; s.describe=[](uint64_t i){ return fmt("%u",(unsigned)i); }; s.run=[](uint64_t i, Ctx&c){ unsigned n=i/15,k=i%15; auto chk=[&](const V&p, const V&q){ V s(p); std::sort(s.begin(),s.end()); if(s!=identity_permutation(n)) c.fail("no permutation: "+str(p)); ++c.states; ++c.transitions; c.eqs(q,p,"the same generator state"); };
		if(k%3==0){ std::minstd_rand a(k+1),b(k+1); V p=random_permutation(n,a); chk(p,random_permutation(n,b)); if(n>3){ if(a!=b||a==std::minstd_rand(k+1)) c.fail("the generator was not used"); } } else if(k%3==1){ std::mt19937 a(k),b(k); V p=random_permutation(n,a); chk(p,random_permutation(n,b)); } else chk(random_permutation(n,std::mt19937_64(k)),random_permutation(n,std::mt19937_64(k))); ++c.traces; }; v.push_back(s); }
	for(unsigned n=0;n<=(T?8u:(A?5u:7u));++n){ unsigned R=n<=5?4:3; Suite s; s.name=fmt("sort_n%u",n); s.bounds=fmt("every vector of %u keys from %u values; all sort functions; 8 key counts (bucket and comparison sort)",n,R); s.count=vx::ipow(R,n); s.describe=[=](uint64_t i){ return str(digits(i,n,R)); }; s.run=[=](uint64_t i, Ctx&c){ sort_case(c,digits(i,n,R),{0,1,R,R+1,16*n,16*n+15,16*n+16,16*n+40}); }; v.push_back(s); }
	{ unsigned N=T?220:120; Suite s; s.name="sort_long"; s.bounds=fmt("vectors of up to %u elements x 14 key patterns, key counts around the switch between bucket and comparison sort",N); s.count=(N+1)*14; 
	  auto at=[](uint64_t i){ unsigned p=i%14,n=i/14; V k(n); uint64_t st=p*31+n; for(unsigned j=0;j<n;++j) switch(p){ case 0:k[j]=0; break; case 1:k[j]=j%2; break; case 2:k[j]=j%3; break; case 3:k[j]=n-1-j; break; case 4:k[j]=(n-1-j)/2; break; case 5:k[j]=j; break; case 6:k[j]=j/3; break; case 7:k[j]=lcg(st)%2; break; case 8:k[j]=lcg(st)%5; break; case 9:k[j]=lcg(st)%(n+1); break; case 10:k[j]=lcg(st)%(4*n+1); break; case 11:k[j]=j<n/2?j:n-j; break; case 12:k[j]=(j*7)%11; break; default:k[j]=j==n/2?0:1; } return k; };
	  s.describe=[=](uint64_t i){ return str(at(i)); }; s.run=[=](uint64_t i, Ctx&c){ V k=at(i); unsigned n=k.size(); sort_case(c,k,{2,3,n+1,5*n+5,16*n,16*n+15,16*n+16,17*n+40}); }; v.push_back(s); }
	if(!A){ Suite s; s.name="permutations_many"; s.bounds="permutations of 255..131075 elements (identity, reversed, rotated, shuffled) and their chains"; s.count=7*16; s.chunk=1; s.describe=[](uint64_t i){ return fmt("n %u permutations %u %u",BIG[i/16],(unsigned)(i%4),(unsigned)(i/4%4)); }; s.run=[](uint64_t i, Ctx&c){ unsigned n=BIG[i/16]; V p=big_perm(n,i%4),q=big_perm(n,i/4%4); c.note=fmt("n %u permutations %u %u",n,(unsigned)(i%4),(unsigned)(i/4%4)); if(i%4==i/4%4) perm_case(c,p); chain_case(c,p,q); V e(q); for(unsigned k=0;k<n;k+=7) e[k]=n; elem_case(c,p,e); elem_case(c,p,q); }; v.push_back(s); }
	if(!A){ Suite s; s.name="sort_many"; s.bounds="255..131075 elements, 7 key patterns, key counts on both sides of the switch between bucket and comparison sort"; s.count=7*7; s.chunk=1; s.describe=[](uint64_t i){ return fmt("n %u keys %u",BIG[i/7],(unsigned)(i%7)); }; s.run=[](uint64_t i, Ctx&c){ unsigned n=BIG[i/7]; c.note=fmt("n %u keys %u",n,(unsigned)(i%7)); V k=big_keys(n,i%7); sort_case(c,k,{n,70001+n,16*n+16,17*n+70040}); big_misc(c,n,i%7); }; v.push_back(s); }
	{ unsigned L=A?5:7,R=5; uint64_t E=0; for(unsigned l=0;l<=L;++l) E+=vx::ipow(R,l); Suite s; s.name="inverse_vectors"; s.bounds=fmt("every sorted vector of up to %u ids below %u, element counts up to %u",L,R,R+3); s.count=E; auto dec=[=](uint64_t e){ unsigned l=0; while(e>=vx::ipow(R,l)){ e-=vx::ipow(R,l); ++l; } return digits(e,l,R); };
	  s.describe=[=](uint64_t i){ return str(dec(i)); }; s.run=[=](uint64_t i, Ctx&c){ V d=dec(i); if(!std::is_sorted(d.begin(),d.end())) return; unsigned mx=d.empty()?0:d.back()+1; for(unsigned n=mx;n<=R+3;++n){ c.note=str(d)+fmt(" count %u",n); V w(n+1,0); for(unsigned k=0;k<=n;++k) for(unsigned x:d) if(x<k) ++w[k]; c.transitions+=2; V got=invert_vector(d,n); c.eqs(got,w,"invert_vector"); c.eqs(invert_inverse_vector(got),d,"invert_inverse_vector"); c.eqs(invert_vector(invert_inverse_vector(w),n),w,"invert_vector of invert_inverse_vector"); } ++c.traces; }; v.push_back(s); }
	for(unsigned n=0;n<=(T?16u:(A?9u:13u));++n){ Suite s; s.name=fmt("filter_n%u",n); s.bounds=fmt("every filter of %u elements, three element types",n); s.count=1ull<<n; s.describe=[=](uint64_t i){ return fmt("n %u filter %llx",n,(unsigned long long)i); }; s.run=[=](uint64_t i, Ctx&c){ c.note=fmt("n %u filter %llx",n,(unsigned long long)i); filter_type<unsigned>(c,n,i,"numbers"); filter_type<std::string>(c,n,i,"strings"); filter_type<Tok>(c,n,i,"tokens"); ++c.traces; }; v.push_back(s); }
	{ Suite s; unsigned L=A?4:6; s.name="filter_boundaries"; s.bounds="filters of 64..1030 elements with runs"; s.count=12*6; s.describe=[](uint64_t i){ return fmt("%u",(unsigned)i); }; (void)L; s.run=[](uint64_t i, Ctx&c){ static const unsigned ns[]={63,64,65,127,128,511,512,513,1023,1024,1025,1030}; unsigned n=ns[i/6],p=i%6; auto bit=[&](unsigned k){ return p==0?k%2==0:p==1?k<n/2:p==2?k>=n/2:p==3?k%64<32:p==4?true:k==n-1; }; auto f=make_bit_vector(n,bit); auto t=items<std::string>(n); std::vector<std::string>a,b; for(unsigned k=0;k<n;++k) (bit(k)?a:b).push_back(t[k]); c.note=fmt("n %u pattern %u",n,p); same(c,keep_element_of_vector_if(f,t),a,"keep"); same(c,remove_element_from_vector_if(f,t),b,"remove"); c.transitions+=2; ++c.traces; }; v.push_back(s); }
	{ unsigned L=A?4:6,R=4; uint64_t E=0; for(unsigned l=0;l<=L;++l) E+=vx::ipow(R,l); Suite s; s.name="min_max"; s.bounds=fmt("every vector of up to %u values from %u values, numbers, signed numbers and floating point numbers",L,R); s.count=E; auto dec=[=](uint64_t e){ unsigned l=0; while(e>=vx::ipow(R,l)){ e-=vx::ipow(R,l); ++l; } return digits(e,l,R); };
	  s.describe=[=](uint64_t i){ return str(dec(i)); }; s.run=[=](uint64_t i, Ctx&c){ V d=dec(i); c.note=str(d); auto test=[&](auto conv){ typedef decltype(conv(0u)) X; std::vector<X>x; for(unsigned k:d) x.push_back(conv(k)); X e=conv(9); c.transitions+=4;
		if(x.empty()){ if(!(min_element_of(x,e)==e)||!(max_element_of(x,e)==e)) c.fail("value for an empty vector"); return; }
		unsigned a=0,b=0; for(unsigned k=1;k<x.size();++k){ if(x[k]<x[a]) a=k; if(x[b]<x[k]) b=k; } c.eqs(first_min_element_position_of(x),a,"first_min_element_position_of"); c.eqs(first_max_element_position_of(x),b,"first_max_element_position_of"); if(!(min_element_of(x)==x[a])||!(max_element_of(x)==x[b])||!(min_element_of(x,e)==x[a])||!(max_element_of(x,e)==x[b])) c.fail("min_element_of / max_element_of"); X lo=x[0],hi=x[0]; for(auto&y:x){ min_to(lo,y); max_to(hi,y); } if(!(lo==x[a])||!(hi==x[b])) c.fail("min_to / max_to"); };
		test([](unsigned k){ return k; }); test([](unsigned k){ return (int)k-2; }); test([](unsigned k){ return (double)k*0.5-1; }); ++c.traces; }; v.push_back(s); }
}
// ---------------------------------------------------------------- C18
void check_two_keys(Ctx&c, unsigned an, const V&a, unsigned bn, const V&b, bool nodes){
	if(a.size()<=1000) c.note=fmt("counts %u %u ",an,bn)+str(a)+str(b); 
	auto less=[&](unsigned x, unsigned y){ return a[x]!=a[y]?a[x]<a[y]:b[x]<b[y]; };
	auto chk=[&](const V&p, bool inverse, const char*w){ ++c.states; ++c.transitions; V q(p); if(p.size()!=a.size()||!is_permutation(p)) c.fail(std::string(w)+" is no permutation: "+str(p)); if(inverse) q=invert(p); for(unsigned i=0;i+1<q.size();++i) if(less(q[i+1],q[i])) c.fail(std::string(w)+" does not sort: "+str(p)); };
	auto chk2=[&](const V&p, bool inverse, const V&left, const char*w){ chk(p,inverse,w); V s(a); std::sort(s.begin(),s.end()); c.eqs(left,s,w); };
	chk(compute_sort_permutation_first_by_left_then_by_right(an,a,bn,b),0,"compute_sort_permutation_first_by_left_then_by_right"); chk(compute_inverse_sort_permutation_first_by_left_then_by_right(an,a,bn,b),1,"compute_inverse_sort_permutation_first_by_left_then_by_right");
	{ V x(a); V p=compute_inverse_sort_permutation_first_by_left_then_by_right_and_apply_sort_to_left(an,x,bn,b); chk2(p,1,x,"compute_inverse_sort_permutation_first_by_left_then_by_right_and_apply_sort_to_left"); }
	{ V x(a); V p=compute_sort_permutation_first_by_left_then_by_right_and_apply_sort_to_left(an,x,bn,b); chk2(p,0,x,"compute_sort_permutation_first_by_left_then_by_right_and_apply_sort_to_left"); }
	if(nodes){ unsigned n=std::max(an,bn); chk(compute_sort_permutation_first_by_tail_then_by_head(n,a,b),0,"compute_sort_permutation_first_by_tail_then_by_head"); chk(compute_inverse_sort_permutation_first_by_tail_then_by_head(n,a,b),1,"compute_inverse_sort_permutation_first_by_tail_then_by_head");
		{ V x(a); V p=compute_inverse_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(n,x,b); chk2(p,1,x,"compute_inverse_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail"); } { V x(a); V p=compute_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(n,x,b); chk2(p,0,x,"compute_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail"); }
		// tail array -> first out array -> tail array
		V p=compute_inverse_sort_permutation_first_by_tail_then_by_head(n,a,b); V t=apply_inverse_permutation(p,a); V fo=invert_vector(t,n); c.eqs(invert_inverse_vector(fo),t,"tail array of the first out array"); c.eqs((unsigned)fo.size(),n+1,"size of the first out array"); }
	++c.traces;
}
void check_graph(Ctx&c, const G&g0, unsigned walk){
	// adjacency array with the arcs of a node in input order, and one with sorted heads
	G g=g0; V ord(g.m()); for(unsigned i=0;i<ord.size();++i) ord[i]=i; std::stable_sort(ord.begin(),ord.end(),[&](unsigned x,unsigned y){ return g0.tail[x]<g0.tail[y]; });
	V so(ord); std::stable_sort(so.begin(),so.end(),[&](unsigned x,unsigned y){ return g0.tail[x]!=g0.tail[y]?g0.tail[x]<g0.tail[y]:g0.head[x]<g0.head[y]; });
	V fo(g.n+1,0),h,t,sh; for(unsigned x:ord){ h.push_back(g0.head[x]); t.push_back(g0.tail[x]); } for(unsigned x:so) sh.push_back(g0.head[x]); for(unsigned x:t) ++fo[x+1]; for(unsigned i=0;i<g.n;++i) fo[i+1]+=fo[i];
	c.note=::str(g0);
	for(unsigned x=0;x<g.n;++x) for(unsigned y=0;y<g.n;++y){
		bool ex=false; for(unsigned a=fo[x];a<fo[x+1];++a) if(h[a]==y) ex=true; c.transitions+=4;
		auto chk=[&](unsigned a, const V&hd, const char*w){ ++c.states; if(!ex){ if(a!=invalid_id) c.fail(fmt("%s(%u,%u) is %u but there is no such arc",w,x,y,a)); return; } if(a>=hd.size()||a<fo[x]||a>=fo[x+1]||hd[a]!=y) c.fail(fmt("%s(%u,%u) is %u",w,x,y,a)); };
		chk(find_arc_or_return_invalid(fo,h,x,y),h,"find_arc_or_return_invalid"); chk(find_arc_or_return_invalid_given_sorted_head(fo,sh,x,y),sh,"find_arc_or_return_invalid_given_sorted_head"); if(ex){ chk(find_arc(fo,h,x,y),h,"find_arc"); chk(find_arc_given_sorted_head(fo,sh,x,y),sh,"find_arc_given_sorted_head"); }
	}
	// every walk
	std::function<void(V&,V&)>rec=[&](V&nodes, V&arcs){
		++c.transitions; V a=convert_node_path_to_arc_path(fo,h,nodes); if(a.size()!=arcs.size()) c.fail("length of the arc path of "+str(nodes)); for(unsigned i=0;i<a.size();++i) if(a[i]>=h.size()||t[a[i]]!=nodes[i]||h[a[i]]!=nodes[i+1]) c.fail("arc path of node path "+str(nodes)+" is "+str(a)); ++c.states;
		if(!arcs.empty()){ ++c.transitions; c.eqs(convert_arc_path_to_node_path(nodes[0],h,arcs),nodes,("node path of arc path "+str(arcs)).c_str()); }
		if(arcs.size()<walk) for(unsigned b=fo[nodes.back()];b<fo[nodes.back()+1];++b){ arcs.push_back(b); nodes.push_back(h[b]); rec(nodes,arcs); arcs.pop_back(); nodes.pop_back(); }
	};
	for(unsigned s=0;s<g.n;++s){ V n{s},a; rec(n,a); } if(!convert_node_path_to_arc_path(fo,h,{}).empty()) c.fail("arc path of the empty node path");
	++c.traces;
}
void big_graph(Ctx&c, unsigned f, unsigned n){
	G g=family(f,n,0); c.note=fmt("%s n %u",family_name(f),n); check_two_keys(c,n,g.tail,n,g.head,true); check_two_keys(c,17*g.m()+17,g.tail,n,g.head,false);
	V p=compute_sort_permutation_first_by_tail_then_by_head(g.n,g.tail,g.head); V t=apply_permutation(p,g.tail),h=apply_permutation(p,g.head); V fo(n+1,0); for(unsigned x:t) ++fo[x+1]; for(unsigned i=0;i<n;++i) fo[i+1]+=fo[i];
	auto chk=[&](unsigned a, bool ex, unsigned x, unsigned y, const char*w){ ++c.states; ++c.transitions; if(!ex?a!=invalid_id:(a<fo[x]||a>=fo[x+1]||h[a]!=y)) c.fail(fmt("%s(%u,%u) is %u",w,x,y,a)); };
	unsigned st=g.m()/3000+1; for(unsigned a=0;a<g.m();a+=st) for(unsigned y:{h[a],h[a]+1,h[a]+2,h[a]-1,0u,n-1,t[a]}){ if(y>=n) continue; unsigned x=t[a]; bool ex=std::binary_search(h.begin()+fo[x],h.begin()+fo[x+1],y); chk(find_arc_or_return_invalid_given_sorted_head(fo,h,x,y),ex,x,y,"find_arc_or_return_invalid_given_sorted_head"); chk(find_arc_or_return_invalid(fo,h,x,y),ex,x,y,"find_arc_or_return_invalid"); if(ex){ chk(find_arc(fo,h,x,y),ex,x,y,"find_arc"); chk(find_arc_given_sorted_head(fo,h,x,y),ex,x,y,"find_arc_given_sorted_head"); } }
	// a long walk: always the next arc of the node, round robin
	V used(n,0),nodes,arcs; for(unsigned s:{0u,n-1,n/2}){ nodes.assign(1,s); arcs.clear(); for(unsigned k=0;k<140000;++k){ unsigned x=nodes.back(); if(fo[x]==fo[x+1]) break; unsigned a=fo[x]+(used[x]++)%(fo[x+1]-fo[x]); if(f==F_STAR&&k>300) break; arcs.push_back(a); nodes.push_back(h[a]); } c.transitions+=2; if(!arcs.empty()) c.eqs(convert_arc_path_to_node_path(s,h,arcs),nodes,"node path of a long arc path"); V r=convert_node_path_to_arc_path(fo,h,nodes); c.eqs((unsigned)r.size(),(unsigned)arcs.size(),"length of the arc path"); for(unsigned i=0;i<r.size();++i) if(r[i]<fo[nodes[i]]||r[i]>=fo[nodes[i]+1]||h[r[i]]!=nodes[i+1]) c.fail(fmt("arc %u of a long path",i)); }
	++c.traces;
}
void make18(std::vector<Suite>&v){
	bool T=vx::opt().thorough(),A=vx::opt().asan();
	auto lists=[&](std::string name, unsigned an, unsigned bn, unsigned m, unsigned as, unsigned bs){ Suite s; s.name=name; s.bounds=fmt("every list of %u pairs from %u x %u values, id ranges %u and %u",m,an,bn,as,bs); s.count=vx::ipow(an*bn,m); auto at=[=](uint64_t i){ vx::Dec d(i); V a,b; for(unsigned k=0;k<m;++k){ unsigned x=d.get(an*bn); a.push_back(as-1-(an-1-x%an)); b.push_back(bs-1-(bn-1-x/an)); } return std::make_pair(a,b); };
	  s.describe=[=](uint64_t i){ auto p=at(i); return str(p.first)+str(p.second); }; s.run=[=](uint64_t i, Ctx&c){ auto p=at(i); check_two_keys(c,as,p.first,bs,p.second,true); }; v.push_back(s); };
	for(unsigned m=0;m<=(A?4u:6u);++m) lists(fmt("two_keys_m%u",m),3,m>=6&&!T?2:3,m,3,m>=6&&!T?2:3);
	for(unsigned m:{1u,3u,5u}) if(m<5||!A){ lists(fmt("two_keys_sparse_m%u",m),2,3,m,200,150); lists(fmt("two_keys_mixed_m%u",m),2,3,m,2,300); lists(fmt("two_keys_mixed2_m%u",m),3,2,m,300,2); }
	{ unsigned N=T?150:80; Suite s; s.name="two_keys_long"; s.bounds=fmt("up to %u pairs x 8 patterns x 6 id ranges",N); s.count=(N+1)*48; s.describe=[](uint64_t i){ return fmt("size %u pattern %u range %u",(unsigned)(i/48),(unsigned)(i/6%8),(unsigned)(i%6)); };
	  s.run=[](uint64_t i, Ctx&c){ unsigned m=i/48,p=i/6%8,r=i%6; unsigned n=r==0?2:r==1?5:r==2?m+1:r==3?16*m+16:r==4?40*m+40:7; V a(m),b(m); uint64_t st=p+m; for(unsigned k=0;k<m;++k){ a[k]=(p==0?0:p==1?k:p==2?m-k:p==3?lcg(st):p==4?k/2:p==5?k%2:p==6?(m-k)/3:lcg(st)/7)%n; b[k]=(p==0?m-k:p==1?0:p==2?k%3:p==3?lcg(st):p==4?k%2:p==5?(m-k)/2:p==6?k%3:lcg(st)%3)%n; } check_two_keys(c,n,a,n,b,true); }; v.push_back(s); }
	auto graphs=[&](std::string name, std::string bounds, auto sp, unsigned walk){ Suite s; s.name=name; s.bounds=bounds+fmt(", all node pairs, all walks of up to %u arcs",walk); s.count=sp.count(); s.describe=[=](uint64_t i){ return ::str(sp.at(i)); }; s.run=[=](uint64_t i, Ctx&c){ check_graph(c,sp.at(i),walk); }; v.push_back(s); };
	graphs("graphs_n1","every arc list on one node",ListSpace(1,3,true,{1}),4); graphs("graphs_n2","every list of 4 arcs on 2 nodes, loops too",ListSpace(2,4,true,{1}),5); graphs("graphs_n3","every list of arcs on 3 nodes, loops and parallel arcs",ListSpace(3,A?3:5,true,{1}),A?4:5); if(!A) graphs("graphs_n4","every digraph with 4 nodes",SlotSpace(4,T,{1}),T?4:5); if(T) graphs("graphs_n5","every set of 8 arcs on 5 nodes",SubsetSpace(5,8,{1}),5);
	if(!A){ Suite s; static const unsigned fs[]={F_PATH,F_STAR,F_TREE,F_GRID,F_LCG_SPARSE,F_MULTI,F_CYCLE}; s.name="beyond_16_bits"; s.bounds="graph families with 255..131075 nodes, long walks"; s.count=7*7; s.chunk=1; s.describe=[](uint64_t i){ return fmt("%s n %u",family_name(fs[i%7]),BIG[i/7]); }; s.run=[](uint64_t i, Ctx&c){ big_graph(c,fs[i%7],BIG[i/7]); }; v.push_back(s); }
	{ Suite s; s.name="families"; s.bounds="graph families up to 60 nodes"; static const unsigned ns[]={0,1,2,7,20,60}; s.count=F_COUNT*6; s.describe=[](uint64_t i){ return fmt("%s n %u",family_name(i%F_COUNT),ns[i/F_COUNT]); }; s.run=[](uint64_t i, Ctx&c){ check_graph(c,family(i%F_COUNT,ns[i/F_COUNT],0),2); G g=family(i%F_COUNT,ns[i/F_COUNT],0); for(unsigned n:{g.n,g.n+1,g.n*20+5}) check_two_keys(c,n,g.tail,n,g.head,true); }; v.push_back(s); }
}
void make(std::vector<Suite>&v, const std::string&p){ if(p=="C17") make17(v); else make18(v); }
}
int main(int argc, char**argv){ if(argc<2) return 2; std::string p=argv[1]; return vx::run_all(argc-1,argv+1,p,make); }
