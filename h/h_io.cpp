// C29: vector files. Round trips, every truncation point, every failing or partial system call.
#include "../lib/vx.h"
#include <routingkit/vector_io.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <dlfcn.h>
#include <memory>
#include <limits>
using namespace RoutingKit; using vx::Ctx; using vx::Suite; using vx::Dec;

// ---- the file system calls that libstdc++ makes pass through here
namespace fault{
	static const char*zeros(){ static char z[4096]; return z; }
	enum Kind{ none, error, end, partial, interrupt, close_error };
	static Kind kind=none; static long at=-1, calls=0; static bool armed=false, fired=false, all=false;
	static int err=EIO;
	static void arm(Kind k, long n, bool every, int e){ kind=k; at=n; calls=0; armed=true; fired=false; all=every; err=e; }
	static void off(){ armed=false; }
	// saving without a disk: the bytes are counted and the marks looked at
	static bool sink=false; static uint64_t taken=0; static std::vector<std::pair<uint64_t,unsigned char>>marks;
	static ssize_t take(const void*b, size_t n){ for(size_t i=0;i<n;){ if(n-i>=4096 && !memcmp((const char*)b+i,zeros(),4096)){ i+=4096; continue; } size_t e=std::min(n,i+4096); for(;i<e;++i) if(unsigned char x=((const unsigned char*)b)[i]) if(marks.size()<100) marks.push_back({taken+i,x}); } taken+=n; return n; }
	static bool hit(){ if(!armed) return false; long n=calls++; bool h=all?n>=at:n==at; if(h) fired=true; return h; }
}
extern "C" ssize_t read(int fd, void*b, size_t n){
	if(fault::armed && fault::kind!=fault::close_error && fault::hit()){
		if(fault::kind==fault::error){ errno=fault::err; return -1; }
		if(fault::kind==fault::end) return 0;
		if(fault::kind==fault::interrupt && !fault::all){ errno=EINTR; return -1; }
		if(fault::kind==fault::partial && n>1) n= fault::all?1:(n+1)/2;
	}
	return syscall(SYS_read, fd, b, n);
}
extern "C" ssize_t write(int fd, const void*b, size_t n){
	if(fault::sink) return fault::take(b,n);
	if(fault::armed && fault::kind!=fault::close_error && fault::hit()){
		if(fault::kind==fault::error){ errno=fault::err; return -1; }
		if(fault::kind==fault::interrupt && !fault::all){ errno=EINTR; return -1; }
		if(fault::kind==fault::partial && n>1) n= fault::all?1:(n+1)/2;
	}
	return syscall(SYS_write, fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec*v, int c){
	if(fault::sink){ ssize_t r=0; for(int i=0;i<c;++i) r+=fault::take(v[i].iov_base,v[i].iov_len); return r; }
	if(fault::armed && fault::kind!=fault::close_error && fault::hit()){
		if(fault::kind==fault::error){ errno=fault::err; return -1; }
		if(fault::kind==fault::interrupt && !fault::all){ errno=EINTR; return -1; }
		if(fault::kind==fault::partial) for(int i=0;i<c;++i) if(v[i].iov_len) return syscall(SYS_write, fd, v[i].iov_base, fault::all?1:(v[i].iov_len+1)/2);
	}
	return syscall(SYS_writev, fd, v, c);
}
extern "C" int fclose(FILE*f){
	static int(*real)(FILE*)=(int(*)(FILE*))dlsym(RTLD_NEXT,"fclose");
	int r=real(f);
	if(fault::armed && fault::kind==fault::close_error && fault::hit()){ errno=fault::err; return EOF; }
	return r;
}

static std::string dir(){ static std::string d; static pid_t of=0; if(of!=getpid()){ of=getpid(); d=vx::opt().scratch.empty()?"/tmp":vx::opt().scratch; d+="/io."+std::to_string(of); mkdir(d.c_str(),0700); } return d; }
static std::string path(const char*n="f"){ return dir()+"/"+n; }
static std::string slurp(const std::string&f){
	std::string r; int fd=open(f.c_str(),O_RDONLY); if(fd<0) return "<none>"; char b[65536]; ssize_t n; while((n=syscall(SYS_read,fd,b,sizeof b))>0) r.append(b,n); close(fd); return r;
}
static void spit(const std::string&f, const std::string&d){
	int fd=open(f.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600); size_t p=0; while(p<d.size()){ ssize_t n=syscall(SYS_write,fd,d.data()+p,d.size()-p); if(n<=0) abort(); p+=n; } close(fd);
}
// runs f; true when it threw
template<class F> static bool threw(F f){ try{ f(); }catch(const std::exception&){ return true; } return false; }

// ---- kinds of files, behind one face
struct Pod3{ uint8_t a,b,c; bool operator==(const Pod3&o)const{ return a==o.a&&b==o.b&&c==o.c; } };
struct Pod16{ uint64_t a; uint32_t b; float c; bool operator==(const Pod16&o)const{ return a==o.a&&b==o.b&&!memcmp(&c,&o.c,4); } };
template<class T> static T val(unsigned i){ static const T t[]={T(0),T(1),std::numeric_limits<T>::max(),std::numeric_limits<T>::lowest(),T(std::numeric_limits<T>::max()/3*2)}; return i<5?t[i]:T(i*2654435761u); }
template<> Pod3 val<Pod3>(unsigned i){ return {uint8_t(i*37),uint8_t(i+10),uint8_t(255-i)}; }
template<> Pod16 val<Pod16>(unsigned i){ return {i*0x123456789abcdefull,i,-1.5f*i}; }
static const unsigned letters=5;

struct Kind{
	std::string name; unsigned esize;  // 0: own format
	std::function<void(const std::string&, const std::vector<unsigned>&)> save;
	// true and equality with the first n of the content, or throws
	std::function<bool(const std::string&, const std::vector<unsigned>&)> load_equal;
	std::function<uint64_t(const std::vector<unsigned>&)> bytes;
};
template<class T> static bool same(const std::vector<T>&a, const std::vector<T>&b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();++i) if(memcmp(&a[i],&b[i],sizeof(T))) return false; return true; }
template<class T> static std::vector<T> conv(const std::vector<unsigned>&v){ std::vector<T> r; for(unsigned x:v) r.push_back(val<T>(x)); return r; }
static std::string sval(unsigned i){ static const std::string t[]={"","a","\n","\xff\x01 b",std::string(9000,'x')}; return i<5?t[i]:std::string(i%31,'a'+i%26); }
static std::vector<std::string> sconv(const std::vector<unsigned>&v){ std::vector<std::string> r; for(unsigned x:v) r.push_back(sval(x)); return r; }
static BitVector bconv(const std::vector<unsigned>&v){ BitVector b(v.size(), false); for(size_t i=0;i<v.size();++i) if(v[i]&1) b.set(i); return b; }
static bool bsame(const BitVector&a, const BitVector&b){ if(a.size()!=b.size()) return false; for(uint64_t i=0;i<a.size();++i) if(a.is_set(i)!=b.is_set(i)) return false; return a==b && a.population_count()==b.population_count(); }
template<class T> static Kind pod(const std::string&n){
	return {n,sizeof(T),
		[](const std::string&f, const std::vector<unsigned>&v){ save_vector(f,conv<T>(v)); },
		[](const std::string&f, const std::vector<unsigned>&v){ return same(load_vector<T>(f),conv<T>(v)); },
		[](const std::vector<unsigned>&v){ return (uint64_t)v.size()*sizeof(T); } };
}
template<class T> static Kind stream(const std::string&n){
	return {n,0,
		[](const std::string&f, const std::vector<unsigned>&v){ open_file_for_saving(f,[&](std::ostream&o){ write_value<uint64_t>(o,v.size()); write_vector(o,conv<T>(v)); write_value<uint8_t>(o,0x5a); }); },
		[](const std::string&f, const std::vector<unsigned>&v){ bool ok=false; uint64_t want=9+v.size()*sizeof(T);
			open_file_for_loading(f,[&](std::istream&in, unsigned long long size){
				if(size!=want && size>=9) ; // the caller may also notice by itself; here only the reads decide
				uint64_t n=read_value<uint64_t>(in); if(n!=v.size()) return; auto x=read_vector<T>(in,n); ok=same(x,conv<T>(v)) && read_value<uint8_t>(in)==0x5a && size==want; });
			return ok; },
		[](const std::vector<unsigned>&v){ return (uint64_t)9+v.size()*sizeof(T); } };
}
static std::vector<Kind> kinds(){
	std::vector<Kind> k={pod<uint8_t>("uint8"),pod<int8_t>("int8"),pod<uint16_t>("uint16"),pod<uint32_t>("uint32"),pod<int64_t>("int64"),pod<float>("float"),pod<double>("double"),pod<Pod3>("3 byte struct"),pod<Pod16>("16 byte struct"),
		stream<uint32_t>("stream of uint32"),stream<Pod3>("stream of 3 byte structs")};
	k.push_back({"string",0,[](const std::string&f, const std::vector<unsigned>&v){ save_vector(f,sconv(v)); },
		[](const std::string&f, const std::vector<unsigned>&v){ return load_vector<std::string>(f)==sconv(v); },
		[](const std::vector<unsigned>&v){ uint64_t n=0; for(unsigned x:v) n+=sval(x).size()+1; return n; }});
	k.push_back({"bits",0,[](const std::string&f, const std::vector<unsigned>&v){ save_bit_vector(f,bconv(v)); },
		[](const std::string&f, const std::vector<unsigned>&v){ return bsame(load_bit_vector(f),bconv(v)); },
		[](const std::vector<unsigned>&v){ return (uint64_t)8+(v.size()+511)/512*64; }});
	return k;
}
static const std::vector<Kind>&K(){ static auto k=kinds(); return k; }
static const unsigned kstring=11, kbits=12;

// ---- contents
static std::vector<std::vector<unsigned>> sizes_family(){
	std::vector<std::vector<unsigned>> r;
	auto add=[&](unsigned n){ for(unsigned f=0;f<3;++f){ std::vector<unsigned> v; for(unsigned i=0;i<n;++i) v.push_back(f==0?i%4:f==1?(i*7+3)%4:(i%5==4?1:i%4)); r.push_back(v); } };
	for(unsigned n=4;n<40;++n) add(n);
	for(unsigned n:{127u,128u,129u,255u,256u,257u,511u,512u,513u,1023u,1024u,1025u,2047u,2048u,2049u,4095u,4096u,4097u,8190u,8191u,8192u,8193u,16383u,16384u,16385u,70000u}) add(n);
	return r;
}
static Suite s_small(){
	Suite s; s.name="small_roundtrip"; unsigned d=vx::opt().asan()&&!vx::opt().thorough()?3:4;
	s.bounds=vx::fmt("all vectors of up to %u elements over %u values x %zu file kinds: saved (to a new name and over a longer file), loaded, compared", d, letters, K().size());
	uint64_t n=0; for(unsigned i=0;i<=d;++i) n+=vx::ipow(letters,i);
	s.count=n*K().size()*2;
	auto dec=[n,d](uint64_t x, unsigned&k, bool&over){ Dec q(x); k=q.get(K().size()); over=q.get(2); uint64_t y=q.v; std::vector<unsigned> v; for(unsigned i=0;i<=d;++i){ uint64_t m=vx::ipow(letters,i); if(y<m){ Dec z(y); for(unsigned j=0;j<i;++j) v.push_back(z.get(letters)); return v; } y-=m; } abort(); };
	s.run=[dec](uint64_t x, Ctx&c){ unsigned k; bool over; auto v=dec(x,k,over); auto f=path();
		unlink(f.c_str()); if(over) spit(f,std::string(100000,'z'));
		K()[k].save(f,v); ++c.transitions;
		c.eqs((uint64_t)slurp(f).size(), K()[k].bytes(v), "file size");
		c.expect(K()[k].load_equal(f,v), "loaded vector differs"); ++c.transitions; ++c.traces; unlink(f.c_str()); };
	s.describe=[dec](uint64_t x){ unsigned k; bool over; auto v=dec(x,k,over); return K()[k].name+" "+vx::str(v)+(over?" over a longer file":""); };
	return s;
}
static Suite s_sizes(){
	Suite s; s.name="size_roundtrip"; static const auto F=sizes_family();
	s.bounds=vx::fmt("%zu contents of 4..39 elements and around powers of two up to 16385, 70000 x %zu file kinds", F.size(), K().size()); s.count=F.size()*K().size();
	s.run=[](uint64_t x, Ctx&c){ Dec q(x); unsigned k=q.get(K().size()); auto&v=F[q.v]; auto f=path(); unlink(f.c_str()); K()[k].save(f,v); c.expect(K()[k].load_equal(f,v),"loaded vector differs"); c.transitions+=2; ++c.traces; unlink(f.c_str()); };
	s.describe=[](uint64_t x){ Dec q(x); unsigned k=q.get(K().size()); return K()[k].name+" "+std::to_string(F[q.v].size())+" elements"; };
	return s;
}
static Suite s_bits(){
	Suite s; s.name="bit_sizes"; unsigned m=vx::opt().asan()&&!vx::opt().thorough()?600:1600; s.bounds=vx::fmt("bit vectors of every size up to %u x 6 patterns: file and function object forms", m); s.count=(uint64_t)(m+1)*6;
	auto dec=[](uint64_t x){ Dec q(x); unsigned p=q.get(6), n=q.v; std::vector<unsigned> v(n); for(unsigned i=0;i<n;++i) v[i]= p==0?0:p==1?1:p==2?i&1:p==3?(i+1==n):p==4?(i==0||i==n/2):(i/64)&1; return v; };
	s.run=[dec](uint64_t x, Ctx&c){ auto v=dec(x); auto f=path(); K()[kbits].save(f,v); c.expect(K()[kbits].load_equal(f,v),"loaded bit vector differs");
		std::string buf; BitVector b=bconv(v);
		write_bit_vector([&](const char*p, unsigned long long n){ buf.append(p,n); }, b);
		size_t pos=0; BitVector r=read_bit_vector([&](char*p, unsigned long long n){ if(n>buf.size()-pos) throw std::runtime_error("too much asked for"); memcpy(p,buf.data()+pos,n); pos+=n; }, v.size());
		c.expect(pos==buf.size(),"reader did not consume what the writer produced"); c.expect(bsame(r,b),"bit vector differs after function object round trip");
		c.transitions+=4; ++c.traces; unlink(f.c_str()); };
	s.describe=[dec](uint64_t x){ return vx::fmt("size %u pattern %u",(unsigned)(x/6),(unsigned)(x%6)); };
	return s;
}
// contents for the damage suites: together they include several stream buffers
static std::vector<std::vector<unsigned>> damage_contents(){ return { {}, {1}, {1,2,3}, {3,0,1,2,1,0,3}, {4,1}, std::vector<unsigned>(300,1), std::vector<unsigned>(600,3) }; }
static const std::vector<std::vector<unsigned>>&D(){ static auto d=damage_contents(); return d; }
static std::string good_file(unsigned k, const std::vector<unsigned>&v){ auto f=path("good"); K()[k].save(f,v); auto r=slurp(f); unlink(f.c_str()); return r; }

static Suite s_cut(){
	Suite s; s.name="truncation"; s.bounds=vx::fmt("%zu contents x %zu file kinds, cut after every byte (large files: all multiples of 61 as well as the first and last 700) and extended by 1..70 bytes: exception, or for cuts between elements the prefix", D().size(), K().size()); s.count=D().size()*K().size();
	s.case_timeout=300;
	s.run=[](uint64_t x, Ctx&c){ Dec q(x); unsigned k=q.get(K().size()); auto&v=D()[q.v]; std::string g=good_file(k,v); auto f=path();
		c.eqs((uint64_t)g.size(), K()[k].bytes(v), "file size");
		for(uint64_t n=0;n<g.size()+70;++n){
			if(g.size()>1500 && n>700 && n+700<g.size() && n%61) continue;
			std::string d=n<=g.size()?g.substr(0,n):g+std::string(n-g.size(),k==kstring?'y':'\x01');
			spit(f,d); ++c.transitions;
			std::vector<unsigned> want; bool must=true;  // must throw
			if(n==g.size()){ want=v; must=false; }
			else if(n<g.size()){
				if(K()[k].esize){ if(n%K()[k].esize==0){ must=false; want.assign(v.begin(),v.begin()+n/K()[k].esize); } }
				else if(k==kstring){ uint64_t p=0; unsigned i=0; while(p<n&&i<v.size()){ p+=sval(v[i]).size()+1; ++i; } if(p==n){ must=false; want.assign(v.begin(),v.begin()+i); } }
			}else{
				if(K()[k].esize){ if(n%K()[k].esize==0) continue; } // a longer vector
				else if(k!=kstring && k!=kbits) continue;           // the stream's user reads what it asks for
			}
			++c.states;
			if(must){ bool eq=false; if(!threw([&]{ eq=K()[k].load_equal(f,v); })) c.fail(vx::fmt("a file of %u bytes was loaded without error although only the first %u bytes are a complete file", (unsigned)n, (unsigned)g.size())); }
			else{ if(!K()[k].load_equal(f,want)) c.fail(vx::fmt("the first %u bytes load as something other than the first %u elements",(unsigned)n,(unsigned)want.size())); }
		}
		++c.traces; unlink(f.c_str()); };
	s.describe=[](uint64_t x){ Dec q(x); unsigned k=q.get(K().size()); return K()[k].name+" "+vx::str(D()[q.v]); };
	return s;
}
static Suite s_bithead(){
	Suite s; s.name="bit_vector_header"; s.bounds="bit vector files with 0..3 blocks x header sizes 0..2100, boundary values up to 2^64-1: rejected unless header and file size correspond"; s.count=4;
	s.run=[](uint64_t x, Ctx&c){ auto f=path(); std::vector<uint64_t> h; for(uint64_t i=0;i<=2100;++i) h.push_back(i);
		for(unsigned b=12;b<64;++b){ h.push_back(1ull<<b); h.push_back((1ull<<b)-1); h.push_back((1ull<<b)+1); h.push_back((1ull<<b)+512*x); h.push_back(-(1ull<<b)); }
		for(uint64_t i=0;i<1200;++i) h.push_back(0-i);
		for(uint64_t n:h){ std::string d((char*)&n,8); d+=std::string(64*x,'\0'); spit(f,d); ++c.transitions; ++c.states;
			bool fits = n/512+(n%512!=0)==x;
			uint64_t got=0; bool t=threw([&]{ BitVector b=load_bit_vector(f); got=b.size(); });
			if(fits && (t||got!=n)) c.fail(vx::fmt("a correct file of %llu bits is not loaded",(unsigned long long)n));
			if(!fits && !t) c.fail(vx::fmt("header says %llu bits, the file has %u blocks, loaded without error",(unsigned long long)n,(unsigned)x)); }
		++c.traces; unlink(f.c_str()); };
	s.describe=[](uint64_t x){ return vx::fmt("%u blocks",(unsigned)x); };
	return s;
}
static Suite s_value(){
	Suite s; s.name="values"; s.bounds="save_value / load_value of every element type and letter; files of every length up to 40 bytes"; s.count=2;
	s.run=[](uint64_t x, Ctx&c){ auto f=path();
		auto one=[&](auto t){ typedef decltype(t) T; for(unsigned i=0;i<letters;++i){ save_value<T>(f,val<T>(i)); T r=load_value<T>(f); c.expect(!memcmp(&r,&(const T&)val<T>(i),sizeof(T)),"value differs"); c.transitions+=2; }
			for(unsigned n=0;n<=40;++n){ spit(f,std::string(n,'\1')); bool t=threw([&]{ load_value<T>(f); }); ++c.transitions; c.expect(t==(n!=sizeof(T)), vx::fmt("load_value of a %u byte type from %u bytes",(unsigned)sizeof(T),n)); }
			// streams and function objects
			for(unsigned n=0;n<=20;++n) for(unsigned m=0;m<=4;++m){
				std::string d(n,'\1'); std::istringstream in(d); bool t=threw([&]{ read_value<T>(in); auto v=read_vector<T>(in,m); if(v.size()!=m) throw 1; }); c.transitions+=2;
				c.expect(t==(n<sizeof(T)*(m+1)), vx::fmt("reading a value and %u elements of %u bytes from a stream of %u bytes",m,(unsigned)sizeof(T),n));
			}
			for(unsigned m=0;m<=6;++m){
				std::vector<unsigned> idx; for(unsigned i=0;i<m;++i) idx.push_back(i); auto v=conv<T>(idx);
				std::string buf; std::function<void(const char*,unsigned long long)> w=[&](const char*p, unsigned long long k){ buf.append(p,k); };
				write_value(w,val<T>(2)); write_vector(w,v); write_value(w,val<T>(1));
				c.eqs((unsigned)buf.size(),(unsigned)((m+2)*sizeof(T)),"bytes written through a function");
				size_t pos=0; std::function<void(char*,unsigned long long)> r=[&](char*p, unsigned long long k){ if(k>buf.size()-pos) throw std::runtime_error("end"); memcpy(p,buf.data()+pos,k); pos+=k; };
				T a=read_value<T>(r); auto v2=read_vector<T>(r,m); T b=read_value<T>(r); c.transitions+=6;
				T wa=val<T>(2), wb=val<T>(1);
				c.expect(!memcmp(&a,&wa,sizeof(T))&&!memcmp(&b,&wb,sizeof(T))&&same(v,v2),"function object round trip differs");
				std::ostringstream o; write_value(o,wa); write_vector(o,v); write_value(o,wb); c.expect(o.str()==buf,"stream and function object forms differ");
			} };
		if(x==0){ one(uint8_t()); one(uint16_t()); one(uint32_t()); one(int64_t()); } else { one(float()); one(double()); one(Pod3()); one(Pod16()); }
		++c.traces; unlink(f.c_str()); };
	s.describe=[](uint64_t x){ return vx::fmt("type group %u",(unsigned)x); };
	return s;
}
static Suite s_fault(){
	Suite s; s.name="system_call_faults";
	s.bounds=vx::fmt("%zu contents x %zu file kinds; for saving and loading every system call in turn: fails (I/O error, no space), reports end of file, transfers half, is interrupted; all calls transfer one byte; closing fails. Either an exception or exactly the right data", D().size(), K().size());
	s.count=D().size()*K().size()*2; s.case_timeout=300;
	s.run=[](uint64_t x, Ctx&c){ Dec q(x); unsigned k=q.get(K().size()); bool sv=q.get(2); auto&v=D()[q.v]; std::string g=good_file(k,v); auto f=path();
		struct M{ fault::Kind k; bool all; int e; const char*n; };
		static const M ms[]={{fault::error,false,EIO,"fails"},{fault::error,true,EIO,"and all later ones fail"},{fault::error,true,ENOSPC,"and all later ones find no space"},{fault::end,true,0,"reports the end"},{fault::partial,false,0,"transfers half"},{fault::partial,true,0,"transfers one byte (also later ones)"},{fault::interrupt,false,0,"is interrupted"},{fault::close_error,false,EIO,"(closing) fails"}};
		for(auto&m:ms){
			if(sv && m.k==fault::end) continue;
			if(!sv && m.k==fault::close_error) continue;
			if(m.k==fault::partial && m.all && g.size()>2000) continue;
			for(long at=0; at<3000; ++at){
				if(sv) unlink(f.c_str()); else spit(f,g);
				bool eq=false;
				fault::arm(m.k,at,m.all,m.e);
				bool t=threw([&]{ if(sv) K()[k].save(f,v); else eq=K()[k].load_equal(f,v); });
				bool fired=fault::fired; fault::off();
				++c.transitions; ++c.states; ++c.traces;
				std::string what=vx::fmt("%s, call %ld %s",sv?"saving":"loading",at,m.n);
				bool harmless=!fired||m.k==fault::partial||m.k==fault::interrupt;
				if(sv && !t && slurp(f)!=g) c.fail(what+": no exception, but the file is wrong");
				if(sv && !t && fired && m.k==fault::close_error) c.fail(what+": no exception");
				if(!sv && !t && !eq) c.fail(what+": no exception, but the vector is wrong");
				if(t && harmless) c.fail(what+": exception although everything could be transferred");
				if(!fired) break;
			}
		}
		unlink(f.c_str()); };
	s.describe=[](uint64_t x){ Dec q(x); unsigned k=q.get(K().size()); bool sv=q.get(2); return K()[k].name+(sv?" saving ":" loading ")+vx::str(D()[q.v]); };
	return s;
}
static Suite s_limit(){
	Suite s; s.name="file_size_limit"; s.bounds=vx::fmt("%zu contents x %zu file kinds; the kernel refuses to let the file grow beyond n bytes, n = every value (large files: multiples of 61) up to the file size; also /dev/full",D().size(),K().size()); s.count=D().size()*K().size(); s.case_timeout=300;
	s.run=[](uint64_t x, Ctx&c){ Dec q(x); unsigned k=q.get(K().size()); auto&v=D()[q.v]; std::string g=good_file(k,v); auto f=path();
		signal(SIGXFSZ,SIG_IGN); rlimit old; getrlimit(RLIMIT_FSIZE,&old);
		for(uint64_t n=0;n<=g.size()+1;++n){
			if(g.size()>1500 && n>200 && n+200<g.size() && n%61) continue;
			unlink(f.c_str()); rlimit l=old; l.rlim_cur=n; setrlimit(RLIMIT_FSIZE,&l);
			bool t=threw([&]{ K()[k].save(f,v); }); setrlimit(RLIMIT_FSIZE,&old); ++c.transitions; ++c.states;
			if(n<g.size() && !t) c.fail(vx::fmt("only %u of %u bytes could be written, but no exception",(unsigned)n,(unsigned)g.size()));
			if(n>=g.size() && (t||slurp(f)!=g)) c.fail("saving fails or is wrong although there is enough space");
		}
		if(g.size()){ ++c.transitions; ++c.states; if(access("/dev/full",W_OK)==0 && !threw([&]{ K()[k].save("/dev/full",v); })) c.fail("saving to a full device raises no exception"); }
		++c.traces; unlink(f.c_str()); };
	s.describe=[](uint64_t x){ Dec q(x); unsigned k=q.get(K().size()); return K()[k].name+" "+vx::str(D()[q.v]); };
	return s;
}
static Suite s_names(){
	Suite s; s.name="unusable_names"; s.bounds=vx::fmt("%zu file kinds x missing file, missing directory, directory, file below a file, empty name, dangling link: loading and saving",K().size()); s.count=K().size()*6;
	s.run=[](uint64_t x, Ctx&c){ Dec q(x); unsigned k=q.get(K().size()), w=q.v; auto d=dir(); std::string n;
		spit(d+"/plain","abc"); mkdir((d+"/sub").c_str(),0700); unlink((d+"/dangling").c_str()); if(symlink((d+"/nodir/x").c_str(),(d+"/dangling").c_str())){}
		unlink((d+"/missing").c_str());
		n = w==0?d+"/missing": w==1?d+"/nodir/f": w==2?d+"/sub": w==3?d+"/plain/f": w==4?"":d+"/dangling";
		c.transitions+=2; ++c.traces;
		// a directory has no size: the stream form leaves that to its user, and for byte vectors the answer is a failing allocation, which the sanitizer does not allow
		if(!(w==2 && (K()[k].name.compare(0,6,"stream")==0 || vx::opt().asan()))) c.expect(threw([&]{ K()[k].load_equal(n,{1}); }),"loading raises no exception");
		if(w!=0) c.expect(threw([&]{ K()[k].save(n,{1,2}); }),"saving raises no exception");
		c.expect(slurp(d+"/plain")=="abc","another file was changed"); };
	s.describe=[](uint64_t x){ Dec q(x); unsigned k=q.get(K().size()); static const char*w[]={"missing file","missing directory","directory","below a plain file","empty name","dangling link"}; return K()[k].name+" "+w[q.v]; };
	return s;
}
static Suite s_hist(){
	Suite s; s.name="histories"; s.bounds="all histories of 4 operations over two file names: save one of 4 vectors (kinds uint32, string, bits) to either name, load and compare after each"; s.count=vx::ipow(24,4);
	if(!vx::opt().thorough()){ s.bounds="all histories of 3 operations over two file names: save one of 4 vectors (kinds uint32, string, bits) to either name, load and compare after each"; s.count=vx::ipow(24,3); }
	static const std::vector<std::vector<unsigned>> V={{}, {1,2}, {0,1,2,3,1}, std::vector<unsigned>(520,1)};
	static const unsigned kk[]={3,kstring,kbits};
	s.run=[](uint64_t x, Ctx&c){ std::string f[2]={path("a"),path("b")}; int have[2]={-1,-1}; unlink(f[0].c_str()); unlink(f[1].c_str());
		for(unsigned st=0;st<4;++st){ unsigned op=x%24; x/=24; unsigned w=op%2; K()[kk[op/2%3]].save(f[w],V[op/6]); have[w]=op; ++c.transitions;
			for(int i=0;i<2;++i){ ++c.transitions; ++c.states; if(have[i]>=0){ if(!K()[kk[have[i]/2%3]].load_equal(f[i],V[have[i]/6])) c.fail(vx::fmt("step %u: file %d differs",st,i)); } else if(!threw([&]{ load_vector<uint32_t>(f[i]); })) c.fail("a file that was never saved loads"); } }
		++c.traces; unlink(f[0].c_str()); unlink(f[1].c_str()); };
	s.describe=[](uint64_t x){ std::string r; for(int i=0;i<4;++i){ r+=vx::fmt("%u ",(unsigned)(x%24)); x/=24; } return r; };
	return s;
}
// files beyond 4 GiB: loading from a file with a hole, saving into a counter that takes the place of the disk
static Suite s_large(){
	Suite s; s.name="beyond_32_bits"; s.bounds="vectors of 2^29+3 elements of 8 bytes and of 2^32+5 bytes, bit vectors of 2^32+700 bits: loaded from a sparse file, and saved with the bytes counted instead of stored; cut by one byte"; s.count=3; s.case_timeout=300; s.max_workers=1;
	s.run=[](uint64_t x, Ctx&c){ auto f=path("large"); uint64_t N = x==0?((1ull<<29)+3)*8: x==1?(1ull<<32)+5: 8+((1ull<<32)+700+511)/512*64;
		std::vector<std::pair<uint64_t,unsigned char>> M; for(uint64_t p:std::vector<uint64_t>{64,(1ull<<20)+16,N/2/8*8,N-16}) M.push_back({p, (unsigned char)(1+M.size()*2)}); if(N>(1ull<<32)) { M.push_back({(1ull<<32)-8,9}); std::sort(M.begin(),M.end()); }
		signal(SIGXFSZ,SIG_IGN); rlimit lim; getrlimit(RLIMIT_FSIZE,&lim); lim.rlim_cur=lim.rlim_max; setrlimit(RLIMIT_FSIZE,&lim);
		int fd=open(f.c_str(),O_RDWR|O_CREAT|O_TRUNC,0600); bool made=fd>=0 && ftruncate(fd,N)==0;
		for(auto&m:M) if(made) made=pwrite(fd,&m.second,1,m.first)==1;
		uint64_t bits=(1ull<<32)+700; if(x==2&&made) made=pwrite(fd,&bits,8,0)==8;
		if(fd>=0) close(fd);
		std::string bad; auto load=[&](bool cut){ try{
			if(x<2){ uint64_t n; unsigned char e=0; std::vector<std::pair<uint64_t,unsigned char>> got; auto look=[&](const unsigned char*d){ for(uint64_t i=0;i+4096<=n;i+=4096) if(memcmp(d+i,fault::zeros(),4096)) for(unsigned j=0;j<4096;++j) if(d[i+j]&&got.size()<50) got.push_back({i+j,d[i+j]}); for(uint64_t i=n/4096*4096;i<n;++i) if(d[i]) got.push_back({i,d[i]}); (void)e; };
				if(x==0){ auto v=load_vector<uint64_t>(f); n=v.size()*8; look((const unsigned char*)v.data()); } else { auto v=load_vector<char>(f); n=v.size(); look((const unsigned char*)v.data()); }
				if(cut){ if(x==0) bad="the cut file loads"; return; }
				if(n!=N) bad=vx::fmt("%llu bytes loaded",(unsigned long long)n); else if(got!=M) bad="the loaded vector differs from the file";
				std::swap(got,M); std::swap(got,M);
			}else{ auto v=load_bit_vector(f); if(cut){ bad="the cut file loads"; return; } if(v.size()!=bits) bad="wrong size"; else { uint64_t ones=0; for(auto&m:M) for(unsigned b=0;b<8;++b){ uint64_t p=(m.first-8)*8+b; bool w=m.second>>b&1; ones+=w; if(v.is_set(p)!=w) bad=vx::fmt("bit %llu is wrong",(unsigned long long)p); } if(v.population_count()!=ones) bad="other bits are set"; } }
			}catch(std::bad_alloc&){ }catch(std::exception&e){ if(!cut) bad=std::string("loading failed: ")+e.what(); } };
		if(made){ ++c.transitions; ++c.states; load(false); if(bad.empty() && truncate(f.c_str(),N-1)==0){ ++c.transitions; load(true); } }
		unlink(f.c_str()); if(!bad.empty()) c.fail(bad);
		// saving
		fault::taken=0; fault::marks.clear(); auto W=M; std::string what;
		try{
			if(x==0){ std::vector<uint64_t> v(N/8); for(auto&m:M) ((unsigned char*)v.data())[m.first]=m.second; fault::sink=true; save_vector(f,v); }
			else if(x==1){ std::vector<char> v(N); for(auto&m:M) v[m.first]=m.second; fault::sink=true; save_vector(f,v); }
			else{ BitVector v(bits); W.clear(); for(unsigned b=0;b<8;++b) if(bits>>8*b&255) W.push_back({b,(unsigned char)(bits>>8*b)}); for(auto&m:M){ for(unsigned b=0;b<8;++b) if(m.second>>b&1) v.set((m.first-8)*8+b); W.push_back(m); } fault::sink=true; save_bit_vector(f,v); }
		}catch(std::bad_alloc&){ W.clear(); fault::marks.clear(); fault::taken=N; }catch(std::exception&e){ what=e.what(); }
		fault::sink=false; unlink(f.c_str()); ++c.transitions; ++c.states; ++c.traces;
		if(!what.empty()) c.fail("saving failed: "+what);
		if(fault::taken!=N) c.fail(vx::fmt("%llu instead of %llu bytes saved",(unsigned long long)fault::taken,(unsigned long long)N));
		if(fault::marks!=W) c.fail("the saved bytes differ"); };
	s.describe=[](uint64_t x){ return std::string(x==0?"uint64_t":x==1?"char":"bits"); };
	return s;
}
static void make(std::vector<Suite>&v, const std::string&){ v={s_small(),s_sizes(),s_bits(),s_cut(),s_bithead(),s_value(),s_fault(),s_limit(),s_names(),s_hist()}; if(!vx::opt().asan()) v.push_back(s_large()); }
int main(int argc,char**argv){ if(argc<2) return 2; std::string p=argv[1]; return vx::run_all(argc-1,argv+1,p,make); }
