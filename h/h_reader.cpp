// C22: BufferedAsynchronousReader under the controlled scheduler, and its file source
#include "vx.h"
#include "vsched.h"
#include "buffered_asynchronous_reader.h"
#include "file_data_source.h"
#include <memory>
#include <stdexcept>
#include <dirent.h>
#include <sys/resource.h>
using namespace RoutingKit;
using vx::Ctx; using vx::Suite; using vx::fmt; using vx::str;
namespace{
inline unsigned char byte_at(unsigned i){ return (unsigned char)(i*37+11+i/7); }
struct SourceFail:std::runtime_error{ SourceFail():std::runtime_error("source failed"){} };
enum{ END_READ_ALL, END_EARLY, MOVE_CTOR, MOVE_ASSIGN, MOVE_INTO_ACTIVE, N_END };
struct Case{ unsigned block, len, split, rd, fail_at/*0: never, k: k-th call throws*/, end; };
unsigned answer(const Case&k, unsigned call, unsigned want, unsigned left){ // how many bytes the source returns
	unsigned n;
	switch(k.split){ case 0: n=want; break; case 1: n=1; break; case 2: n=call%2?1:want; break; case 3: n=1+call%want; break; case 5: n=(unsigned)((uint64_t)want*(1+call%3)/3); break; default: n=want>1?want-1:1; }
	return std::min(std::min(n,want),left);
}
unsigned read_size(const Case&k, unsigned i){ switch(k.rd){ case 0: return k.block; case 1: return 1; case 2: return i%2?k.block:1; case 3: return 1+i%k.block; case 4: return i%3==1?0:k.block; case 6: return k.block-k.block/7*(i%5); default: return i%2? 0 : 1; } }
std::string describe(const Case&k){ static const char*e[]={"read everything","destroy early","move construct","move assign","move into an active reader"}; return fmt("block size %u, %u bytes, split pattern %u, read pattern %u, source fails at call %u, %s",k.block,k.len,k.split,k.rd,k.fail_at,e[k.end]); }

// one run of consumer and reader; every value seen is judged on the spot
void body(const Case&k){
	std::shared_ptr<unsigned>pos(new unsigned(0)),call(new unsigned(0));
	auto src=[k,pos,call](char*buf, unsigned long long want)->unsigned long long{
		unsigned c=++*call;
		if(c==k.fail_at) throw SourceFail();
		if(want<k.block) vs::note_failure("the source is asked for fewer bytes than the block size");
		unsigned n=answer(k,c,want,k.len-*pos);
		for(unsigned i=0;i<n;++i) buf[i]=byte_at(*pos+i);
		*pos+=n; return n;
	};
	// number of bytes that come before the failure
	unsigned avail=k.len; if(k.fail_at){ unsigned p=0; for(unsigned c=1;;++c){ if(c==k.fail_at){ avail=p; break; } unsigned n=answer(k,c,k.block,k.len-p); if(!n){ avail=k.len; break; } p+=n; } }
	bool fails=false; if(k.fail_at){ unsigned p=0; for(unsigned c=1;;++c){ if(c==k.fail_at){ fails=true; break; } unsigned n=answer(k,c,k.block,k.len-p); if(!n) break; p+=n; } }
	BufferedAsynchronousReader r(src,k.block),*cur=&r;
	std::unique_ptr<BufferedAsynchronousReader>other;
	unsigned got=0; char*last=0; unsigned last_n=0;
	auto verify=[&](unsigned at){ for(unsigned i=0;i<last_n;++i) if((unsigned char)last[i]!=byte_at(at+i)){ vs::note_failure(fmt("byte %u of the stream is wrong",at+i)); return false; } return true; };
	unsigned stop_after= k.end==END_EARLY ? (k.len?k.len/(2*k.block):0) : ~0u;
	for(unsigned i=0;i<stop_after;++i){
		if(i==1&&k.end==MOVE_CTOR){ other.reset(new BufferedAsynchronousReader(std::move(*cur))); cur=other.get(); }
		if(i==1&&k.end==MOVE_ASSIGN){ other.reset(new BufferedAsynchronousReader()); *other=std::move(*cur); cur=other.get(); }
		if(i==1&&k.end==MOVE_INTO_ACTIVE){ std::shared_ptr<unsigned>o(new unsigned(0)); other.reset(new BufferedAsynchronousReader([o](char*b, unsigned long long n)->unsigned long long{ if(++*o>1) return 0; b[0]=1; return 1; },k.block)); *other=std::move(*cur); cur=other.get(); }
		unsigned want=read_size(k,i);
		if(last&&!verify(got-last_n)) return;
		char*p=0; bool threw=false;
		try{ p= i%2 ? cur->read_or_throw(want) : cur->read(want); }
		catch(SourceFail&){ threw=true; if(!fails){ vs::note_failure("an exception of a source that does not fail"); return; } }
		catch(std::runtime_error&e){ // read_or_throw at the end of the stream
			if(i%2==0||fails||got+want<=k.len){ vs::note_failure(fmt("unexpected exception %s at read %u",e.what(),i)); return; }
			return;
		}
		if(threw) return;
		if(!p){
			if(fails){ vs::note_failure(fmt("end of stream reported at byte %u although the source failed",got)); return; }
			if(i%2){ vs::note_failure("read_or_throw returned null"); return; }
			if(got+want<=k.len){ vs::note_failure(fmt("end of stream reported at byte %u of %u when asking for %u",got,k.len,want)); return; }
			// the rest is still there
			unsigned rest=k.len-got; if(rest){ last=cur->read(rest); last_n=rest; if(!last){ vs::note_failure("the bytes after a too large read are lost"); return; } got+=rest; verify(got-rest); }
			if(cur->read(1)){ vs::note_failure("bytes after the end of the stream"); return; }
			return;
		}
		if(got+want>avail){ vs::note_failure(fmt("%u bytes returned at byte %u of %u",want,got,avail)); return; }
		last=p; last_n=want; got+=want; if(!verify(got-want)) return;
		if(want==0&&k.rd>=4&&i>40) return;
	}
	if(k.end==END_EARLY&&last) verify(got-last_n);
}
void explore_case(Ctx&c, const Case&k, const vs::Options&o){
	auto r=vs::explore(o,[&]{ body(k); },[]{ return std::string(); });
	c.states+=r.states; c.transitions+=r.transitions; c.traces+=r.executions; if(!r.complete) c.truncated=true;
	if(getenv("VX_STATS")) fprintf(stderr,"exec %lu states %lu hot %lu rounds %lu choices %lu\n",r.executions,r.states,r.hot,r.rounds,r.max_choices);
	if(!r.fail.empty()) c.fail(r.fail+" [schedule "+r.schedule+"]");
}
unsigned open_fds(){ unsigned n=0; DIR*d=opendir("/proc/self/fd"); while(readdir(d)) ++n; closedir(d); return n; }
// sequences of operations on file sources, judged against the file's content
void file_case(Ctx&c, unsigned len, uint64_t ops, unsigned depth){
	std::string f=fmt("%s/src%d",vx::opt().scratch.c_str(),(int)getpid()),g=f+"b";
	auto put=[](const std::string&n, unsigned l, unsigned o){ FILE*x=fopen(n.c_str(),"wb"); for(unsigned i=0;i<l;++i) fputc(byte_at(i+o),x); fclose(x); };
	put(f,len,0); put(g,3,100); unsigned fd0=open_fds();
	{
		struct M{ int file=-1; unsigned pos=0; } ma,mb; FileDataSource a,b; vx::Dec d(ops);
		auto flen=[&](int i){ return i==0?len:3u; };
		for(unsigned s=0;s<depth;++s){
			unsigned op=d.get(9); c.note=fmt("step %u operation %u",s,op); ++c.transitions;
			switch(op){
				case 0: a.open(f.c_str()); ma={0,0}; break;
				case 1: a.open(g); ma={1,0}; break;
				case 2: a.close(); ma=M(); break;
				case 3: if(ma.file>=0){ a.rewind(); ma.pos=0; } break;
				case 4: b=std::move(a); mb=ma; ma=M(); break;
				case 5:{ FileDataSource t(std::move(b)); a=std::move(t); ma=mb; mb=M(); break; }
				case 6: if(ma.file>=0){ char buf[8]; unsigned long long n=a.read(buf,2); unsigned want=std::min(2u,flen(ma.file)-ma.pos); c.eqs(n,(unsigned long long)want,"bytes read"); for(unsigned i=0;i<want;++i) c.expect((unsigned char)buf[i]==byte_at(ma.pos+i+(ma.file?100:0)),"content"); ma.pos+=want; } break;
				case 7: if(mb.file>=0){ char buf[8]; unsigned long long n=b.get_read_function_object()(buf,8); unsigned want=std::min(8u,flen(mb.file)-mb.pos); c.eqs(n,(unsigned long long)want,"bytes read"); for(unsigned i=0;i<want;++i) c.expect((unsigned char)buf[i]==byte_at(mb.pos+i+(mb.file?100:0)),"content"); mb.pos+=want; } break;
				case 8:{ bool th=false; try{ a.open((f+".missing").c_str()); }catch(std::exception&){ th=true; } c.expect(th,"opening a missing file is not reported"); break; }
			}
			c.eqs(a.size(),(unsigned long long)(ma.file<0?0:flen(ma.file)),"size of a"); c.eqs(b.size(),(unsigned long long)(mb.file<0?0:flen(mb.file)),"size of b");
			c.eqs(open_fds()-fd0,(unsigned)(ma.file>=0)+(mb.file>=0),"open files");
		}
	}
	c.note="end"; c.eqs(open_fds(),fd0,"open files"); unlink(f.c_str()); unlink(g.c_str()); ++c.traces;
}
void make(std::vector<Suite>&v, const std::string&prop){
	bool T=vx::opt().thorough();
	auto mk=[&](std::string name, std::string b, std::vector<Case>ks, vs::Options o){
		auto K=std::make_shared<std::vector<Case>>(ks); Suite s; s.name=name; s.bounds=b; s.count=ks.size(); s.chunk=1; s.pin=true; s.case_timeout=200;
		s.describe=[=](uint64_t i){ return describe((*K)[i]); }; s.run=[=](uint64_t i, Ctx&c){ explore_case(c,(*K)[i],o); }; v.push_back(s);
	};
	vs::Options full; full.max_seconds=T?1000:60; vs::Options sp=full; sp.spurious=1; sp.max_preempt=T?~0u:3;
	std::vector<Case>a,f,e,z,m;
	for(unsigned b=1;b<=(T?4u:3u);++b) for(unsigned len:{0u,1u,b,b+1,4*b,5*b,5*b+1,6*b+1,11*b}) for(unsigned sp2=0;sp2<5;++sp2) for(unsigned rd=0;rd<4;++rd){ if(b==1&&(sp2>0||rd>0)) continue; if(!T&&b==3&&len>5*b+1&&sp2>=1&&sp2<=2) continue; a.push_back({b,len,sp2,rd,0,END_READ_ALL}); }
	for(unsigned b=1;b<=3;++b) for(unsigned len:{0u,b,3*b+1,6*b}) for(unsigned sp2:{0u,3u}) for(unsigned rd:{0u,3u}) for(unsigned fa=1;fa<=5;++fa) f.push_back({b,len,sp2,rd,fa,END_READ_ALL});
	for(unsigned b=1;b<=2;++b) for(unsigned len:{0u,b,3*b+1,7*b}) for(unsigned sp2:{0u,1u,3u}) for(unsigned fa:{0u,2u,4u}) for(unsigned en:{END_EARLY,MOVE_CTOR,MOVE_ASSIGN,MOVE_INTO_ACTIVE}) (en==MOVE_INTO_ACTIVE?m:e).push_back({b,len,sp2,0,fa,en});
	for(unsigned b=1;b<=3;++b) for(unsigned len:{0u,b,2*b+1,6*b}) for(unsigned rd:{0u,2u,4u,5u}) for(unsigned fa:{0u,1u,3u}) for(unsigned en:{END_READ_ALL,END_EARLY}) z.push_back({b,len,3,rd,fa,en});
	mk("streams",fmt("block sizes 1..%u, up to 11 blocks of data, 5 ways of splitting the source's answers, 4 read patterns, all interleavings",T?4:3),a,full);
	mk("failing_source","the source throws at its 1st..5th call, all interleavings",f,full);
	mk("destroy_and_move","destruction before the end, move construction and assignment while the thread runs, all interleavings",e,full);
	vs::Options mo=full; mo.max_preempt=T?4:2; mk("replace_active_reader",fmt("a running reader is replaced by move assignment (three threads), at most %u preemptions",mo.max_preempt),m,mo);
	mk("spurious_wake_ups",std::string(T?"one spurious wake up at any wait, all interleavings":"one spurious wake up at any wait, at most 3 preemptions"),z,sp);
	{ std::vector<Case> L; for(unsigned b:{255u,256u,257u,13107u,13108u,32767u,32768u,32769u,65535u,65536u,65537u,209715u,1u<<20}) for(unsigned len:{5*b,6*b+1,11*b-1,23*b}) for(unsigned sp2:{0u,4u,5u}) for(unsigned rd:{0u,2u,6u}){ bool big=b>1000; if(!T&&big&&(b>70000||len!=6*b+1&&(len!=11*b-1||b>20000)||sp2==4||rd==0)) continue; L.push_back({b,len,sp2,rd,0,END_READ_ALL}); }
	  auto K=std::make_shared<std::vector<Case>>(L); Suite s; s.name="large_blocks"; s.bounds=fmt("block sizes around 2^8, 2^16/5, 2^15, 2^16%s, up to %u blocks of data x ways of splitting x read patterns: one schedule each",T?", 2^20/5 and 2^20":"",T?23:11); s.count=L.size(); s.chunk=1; s.pin=true; s.case_timeout=200;
	  s.describe=[=](uint64_t i){ return describe((*K)[i]); }; s.run=[=](uint64_t i, Ctx&c){ vs::Options o; o.max_exec=1; o.max_steps=50000000; bool before=c.truncated; explore_case(c,(*K)[i],o); c.truncated=before; }; v.push_back(s); }
	{ Suite s; s.name="large_file"; s.bounds="sparse files of 2^31-1 .. 2^33+5 bytes: size, reading, rewinding"; s.count=6; s.chunk=1; s.describe=[](uint64_t i){ return fmt("case %u",(unsigned)i); };
	  s.run=[](uint64_t i, Ctx&c){ static const uint64_t L[]={(1ull<<31)-1,1ull<<31,(1ull<<32)-1,1ull<<32,(1ull<<32)+7,(1ull<<33)+5}; std::string f=fmt("%s/large%d",vx::opt().scratch.c_str(),(int)getpid()); rlimit l; getrlimit(RLIMIT_FSIZE,&l); l.rlim_cur=l.rlim_max; setrlimit(RLIMIT_FSIZE,&l); FILE*x=fopen(f.c_str(),"wb"); if(!x) return; fputs("abc",x); fflush(x); bool ok=ftruncate(fileno(x),L[i])==0; fclose(x);
		if(ok){ FileDataSource s(f); char b[8]; c.eqs(s.size(),(unsigned long long)L[i],"size"); c.eqs(s.read(b,3),3ull,"bytes read"); c.expect(!memcmp(b,"abc",3),"content"); c.eqs(s.size(),(unsigned long long)L[i],"size"); c.eqs(s.read(b,8),8ull,"bytes read"); c.expect(!memcmp(b,"\0\0\0\0\0\0\0\0",8),"content"); s.rewind(); c.eqs(s.read(b,3),3ull,"bytes read"); c.expect(!memcmp(b,"abc",3),"content after rewinding"); c.transitions+=5; ++c.traces; }
		unlink(f.c_str()); }; v.push_back(s); }
	{ Suite s; s.name="unreadable_file"; s.bounds="a directory opened as a file: every way of reading from it reports an error, and the source can be used for a file afterwards"; s.count=4; s.describe=[](uint64_t i){ return fmt("case %u",(unsigned)i); };
	  s.run=[](uint64_t i, Ctx&c){ std::string f=fmt("%s/plain%d",vx::opt().scratch.c_str(),(int)getpid()); FILE*x=fopen(f.c_str(),"wb"); fputs("abcd",x); fclose(x); unsigned fd0=open_fds(); { FileDataSource s; bool th=false; char b[8]; try{ s.open(vx::opt().scratch); if(i&1) s.get_read_function_object()(b,4); else s.read(b,4); }catch(std::exception&){ th=true; } c.expect(th,"a read error is not reported"); if(i&2) s.close(); s.open(f); c.eqs(s.read(b,8),4ull,"bytes read"); c.expect(!memcmp(b,"abcd",4),"content"); c.transitions+=4; c.traces++; } c.eqs(open_fds(),fd0,"open files"); unlink(f.c_str()); }; v.push_back(s); }
	{ unsigned depth=T?6:4; Suite s; s.name="file_source"; s.bounds=fmt("all sequences of %u operations on two file sources (open two files, close, rewind, move, read, open a missing file)",depth); s.count=vx::ipow(9,depth);
	  s.describe=[=](uint64_t i){ std::string r="operations"; vx::Dec d(i); for(unsigned k=0;k<depth;++k) r+=fmt(" %u",(unsigned)d.get(9)); return r; }; s.run=[=](uint64_t i, Ctx&c){ file_case(c,5,i,depth); }; v.push_back(s); }
	if(prop=="C34") v.erase(std::remove_if(v.begin(),v.end(),[](const Suite&s){ return s.name.find("file")==std::string::npos; }),v.end());
}
}
int main(int argc, char**argv){ if(argc<2) return 2; std::string p=argv[1]; return vx::run_all(argc-1,argv+1,p,make); }
