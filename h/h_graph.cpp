// C19 strongly connected components, C20 nested dissection: fragments, components, flows, cuts, separators, orders.
#include "vx.h"
#include "graphs.h"
#include <routingkit/strongly_connected_component.h>
#include <routingkit/nested_dissection.h>
#include <set>
#include <memory>
using namespace RoutingKit; using vx::fmt; using vx::Ctx; using vx::Suite; using vx::str;
typedef std::vector<unsigned> V; typedef std::vector<float> VF;
namespace{
// ---------------------------------------------------------------- C19
void adjacency(const G&g, V&fo, V&h){ fo.assign(g.n+1,0); for(unsigned t:g.tail) ++fo[t+1]; for(unsigned i=0;i<g.n;++i) fo[i+1]+=fo[i]; V pos(fo); h.assign(g.m(),0); for(unsigned a=0;a<g.m();++a) h[pos[g.tail[a]]++]=g.head[a]; }
void scc_case(Ctx&c, const G&g){
	V fo,h; adjacency(g,fo,h); c.note=::str(g);
	// reference: reachability by a search from every node
	std::vector<std::vector<char>>R(g.n,std::vector<char>(g.n,0));
	for(unsigned s=0;s<g.n;++s){ V st{s}; R[s][s]=1; while(!st.empty()){ unsigned x=st.back(); st.pop_back(); for(unsigned a=fo[x];a<fo[x+1];++a) if(!R[s][h[a]]){ R[s][h[a]]=1; st.push_back(h[a]); } } }
	auto r=compute_strongly_connected_components(fo,h); c.transitions+=2; ++c.traces;
	if(r.component_of.size()!=g.n) c.fail("size of component_of");
	std::vector<char>used(r.component_count,0); for(unsigned x=0;x<g.n;++x){ if(r.component_of[x]>=r.component_count) c.fail(fmt("component id %u of node %u out of range",r.component_of[x],x)); used[r.component_of[x]]=1; }
	for(unsigned k=0;k<r.component_count;++k) if(!used[k]) c.fail(fmt("component id %u of %u is not used",k,r.component_count));
	for(unsigned x=0;x<g.n;++x) for(unsigned y=0;y<g.n;++y){ ++c.states; bool same=R[x][y]&&R[y][x]; if(same!=(r.component_of[x]==r.component_of[y])) c.fail(fmt("nodes %u and %u: components ",x,y)+str(r.component_of)); }
	auto l=compute_largest_strongly_connected_component(fo,h); if(l.size()!=g.n) c.fail("size of the largest component marker");
	unsigned best=0,cnt=0; int rep=-1; for(unsigned x=0;x<g.n;++x){ unsigned k=0; for(unsigned y=0;y<g.n;++y) k+=R[x][y]&&R[y][x]; best=std::max(best,k); if(l[x]){ ++cnt; if(rep<0) rep=x; } }
	c.eqs(cnt,best,"size of the largest component"); for(unsigned x=0;x<g.n;++x){ ++c.states; if((bool)l[x]!=(rep>=0&&R[x][rep]&&R[rep][x])) c.fail(fmt("largest component marker of node %u",x)); }
}
void scc_deep(Ctx&c, unsigned kind, unsigned n){
	// families with known components
	G g; g.n=n; V want(n); c.note=fmt("family %u n %u",kind,n);
	switch(kind){
		case 0: for(unsigned x=0;x+1<n;++x) g.add(x,x+1,1); for(unsigned x=0;x<n;++x) want[x]=x; break;                          // path
		case 1: for(unsigned x=0;x<n;++x) g.add(x,(x+1)%n,1); for(auto&x:want) x=0; break;                                          // cycle
		case 2: for(unsigned x=0;x+1<n;++x){ g.add(x+1,x,1); } for(unsigned x=0;x<n;++x) want[x]=x; break;                         // reversed path
		case 3: for(unsigned x=0;x+1<n;++x){ g.add(x,x+1,1); if(x%10!=9) g.add(x+1,x,1); } for(unsigned x=0;x<n;++x) want[x]=x/10; break; // chain of components
		case 4: for(unsigned x=0;x+1<n;++x) g.add(x,x+1,1); if(n>2) g.add(n-1,n/2,1); for(unsigned x=0;x<n;++x) want[x]=n>2&&x>=n/2?n/2:x; break; // tail and cycle
		case 5: for(unsigned x=1;x<n;++x){ g.add(0,x,1); g.add(x,0,1); } for(auto&x:want) x=0; break;
		case 6: for(unsigned x=0;x<n;++x){ g.add(x,x,1); g.add(x,x,1); } for(unsigned x=0;x<n;++x) want[x]=x; break;
		case 7: case 8:{ unsigned a=n>4?(kind==7?n-3:3):n; for(unsigned x=0;x<a;++x) g.add(x,(x+1)%a,1); for(unsigned x=a;x<n;++x) g.add(x,x+1<n?x+1:a,1); if(n>a) g.add(kind==7?n-1:0,kind==7?0:a,1); for(unsigned x=0;x<n;++x) want[x]=x<a?0:a; break; } // a large and a small cycle
		default: for(unsigned x=0;x<n;++x) for(unsigned k=1;k<=3;++k) if(x+k*k<n) g.add(x,x+k*k,1); for(unsigned x=0;x<n;++x) want[x]=x; break;
	}
	V fo,h; adjacency(g,fo,h); auto r=compute_strongly_connected_components(fo,h); c.transitions+=2; ++c.traces; std::map<unsigned,unsigned>m,im; for(unsigned x=0;x<n;++x){ ++c.states; if(r.component_of[x]>=r.component_count) c.fail("component id out of range"); auto p=m.insert({want[x],r.component_of[x]}); if(p.first->second!=r.component_of[x]) c.fail(fmt("node %u is not with its component",x)); auto q=im.insert({r.component_of[x],want[x]}); if(q.first->second!=want[x]) c.fail(fmt("node %u shares the component of others",x)); }
	c.eqs(r.component_count,(unsigned)m.size(),"number of components"); auto l=compute_largest_strongly_connected_component(fo,h); std::map<unsigned,unsigned>sz; for(unsigned x:want) ++sz[x]; unsigned best=0; for(auto&p:sz) best=std::max(best,p.second); unsigned cnt=0; std::set<unsigned>which; for(unsigned x=0;x<n;++x) if(l[x]){ ++cnt; which.insert(want[x]); } c.eqs(cnt,best,"size of the largest component"); if(n&&which.size()!=1) c.fail("the largest component marker mixes components");
}
void make19(std::vector<Suite>&v){
	bool T=vx::opt().thorough(),A=vx::opt().asan();
	auto sp=[&](std::string name, std::string b, auto s0){ Suite s; s.name=name; s.bounds=b; s.count=s0.count(); s.describe=[=](uint64_t i){ return ::str(s0.at(i)); }; s.run=[=](uint64_t i, Ctx&c){ scc_case(c,s0.at(i)); }; v.push_back(s); };
	{ Suite s; s.name="n0"; s.bounds="the empty graph"; s.count=1; s.describe=[](uint64_t){ return "no nodes"; }; s.run=[](uint64_t, Ctx&c){ G g; scc_case(c,g); }; v.push_back(s); }
	sp("n1","one node, up to 2 loops",ListSpace(1,2,true,{1})); sp("n2","every digraph with loops on 2 nodes",SlotSpace(2,true,{1})); sp("n3","every digraph with loops on 3 nodes",SlotSpace(3,true,{1}));
	sp("n3_lists","every arc list (all arc orders, parallel arcs) of 5 arcs on 3 nodes",ListSpace(3,A?4:5,true,{1})); sp("n4","every digraph on 4 nodes (loops too unless asan)",SlotSpace(4,!A,{1}));
	if(!A){ sp("n5","every digraph on 5 nodes",SlotSpace(5,false,{1})); sp("n4_lists","every arc list of 5 arcs on 4 nodes",ListSpace(4,5,false,{1})); sp("n6","every set of 7 arcs on 6 nodes",SubsetSpace(6,7,{1})); }
	if(!A&&T){ sp("n4_lists6","every arc list of 6 arcs on 4 nodes",ListSpace(4,6,true,{1})); sp("n6_9","every set of 9 arcs on 6 nodes",SubsetSpace(6,9,{1})); sp("n7","every set of 8 arcs on 7 nodes",SubsetSpace(7,8,{1})); }
	{ Suite s; s.name="families"; s.bounds="13 graph families, all sizes 0..130, identity and shuffled numbering"; s.count=F_COUNT*131*3; s.describe=[](uint64_t i){ return fmt("%s n %u numbering %u",family_name(i%F_COUNT),(unsigned)(i/F_COUNT%131),(unsigned)(i/F_COUNT/131)); };
	  s.run=[](uint64_t i, Ctx&c){ G g=family(i%F_COUNT,i/F_COUNT%131,0); auto p=order_pattern(i/F_COUNT/131==0?0:i/F_COUNT/131==1?1:4,g.n); for(auto&x:g.tail) x=p[x]; for(auto&x:g.head) x=p[x]; scc_case(c,g); }; v.push_back(s); }
	{ static const unsigned ns[]={1,2,3,63,64,65,258,259,260,1000,65538,65539,65540,100000,131075,1000000}; Suite s; s.name="deep"; s.bounds="10 families with known components up to 1000000 nodes (deep searches, large and small components)"; unsigned N=A?12:16; s.count=10*N; s.describe=[](uint64_t i){ return fmt("family %u n %u",(unsigned)(i%10),ns[i/10]); }; s.run=[](uint64_t i, Ctx&c){ scc_deep(c,i%10,ns[i/10]); }; v.push_back(s); }
}
// ---------------------------------------------------------------- C20
typedef std::multiset<std::pair<unsigned,unsigned>> Edges;
Edges edges_of(const GraphFragment&f){ Edges e; for(unsigned a=0;a<f.tail.size();++a) e.insert({f.global_node_id[f.tail[a]],f.global_node_id[f.head[a]]}); return e; }
void valid_fragment(Ctx&c, const GraphFragment&f, const std::string&w){
	unsigned n=f.global_node_id.size(),m=f.tail.size(); ++c.states; c.eqs(f.node_count(),n,"node_count"); c.eqs(f.arc_count(),m,"arc_count");
	if(f.head.size()!=m||f.back_arc.size()!=m||f.first_out.size()!=n+1) c.fail(w+": array sizes do not fit");
	for(unsigned a=0;a<m;++a){ if(f.tail[a]>=n||f.head[a]>=n) c.fail(w+": arc end out of range"); if(f.tail[a]==f.head[a]) c.fail(w+": loop"); if(a<f.first_out[f.tail[a]]||a>=f.first_out[f.tail[a]+1]) c.fail(w+": first_out does not fit tail"); unsigned b=f.back_arc[a]; if(b>=m||f.back_arc[b]!=a||f.tail[b]!=f.head[a]||f.head[b]!=f.tail[a]) c.fail(w+fmt(": back arc of arc %u",a)); }
	if(f.first_out[0]!=0||f.first_out[n]!=m) c.fail(w+": first_out ends"); for(unsigned i=0;i<n;++i) if(f.first_out[i]>f.first_out[i+1]) c.fail(w+": first_out decreases");
}
V comp_of(const GraphFragment&f, const BitVector*removed=nullptr){ V r(f.node_count(),~0u); unsigned k=0; for(unsigned s=0;s<f.node_count();++s) if(r[s]==~0u&&!(removed&&removed->is_set(s))){ V st{s}; r[s]=k; while(!st.empty()){ unsigned x=st.back(); st.pop_back(); for(unsigned a=f.first_out[x];a<f.first_out[x+1];++a){ unsigned y=f.head[a]; if(r[y]==~0u&&!(removed&&removed->is_set(y))){ r[y]=k; st.push_back(y); } } } ++k; } return r; }
unsigned crossing(const GraphFragment&f, const BitVector&s){ unsigned k=0; for(unsigned a=0;a<f.arc_count();++a) if(s.is_set(f.tail[a])&&!s.is_set(f.head[a])) ++k; return k; }
// brute force: smallest number of crossing arcs over all sides that contain S and no node of T
unsigned min_cut(const GraphFragment&f, unsigned S, unsigned T){ unsigned n=f.node_count(),best=~0u; for(unsigned m=0;m<(1u<<n);++m) if((m&S)==S&&!(m&T)){ unsigned k=0; for(unsigned a=0;a<f.arc_count();++a) if((m>>f.tail[a]&1)&&!(m>>f.head[a]&1)) ++k; best=std::min(best,k); } return best; }
// reference for larger graphs: augmenting paths one by one on unit capacities
unsigned max_flow(const GraphFragment&f, const BitVector&S, const BitVector&T){ unsigned n=f.node_count(); std::vector<int>fl(f.arc_count(),0); for(unsigned v=0;;++v){ V pa(n,~0u); std::vector<char>seen(n,0); V q; for(unsigned x=0;x<n;++x) if(S.is_set(x)){ q.push_back(x); seen[x]=1; } unsigned hit=~0u; for(unsigned i=0;i<q.size()&&hit==~0u;++i) for(unsigned a=f.first_out[q[i]];a<f.first_out[q[i]+1];++a) if(fl[a]<1&&!seen[f.head[a]]){ seen[f.head[a]]=1; pa[f.head[a]]=a; q.push_back(f.head[a]); if(T.is_set(f.head[a])){ hit=f.head[a]; break; } } if(hit==~0u) return v; for(unsigned x=hit;pa[x]!=~0u;x=f.tail[pa[x]]){ ++fl[pa[x]]; --fl[f.back_arc[pa[x]]]; } } }
BitVector bits(unsigned n, unsigned m){ return make_bit_vector(n,[&](uint64_t i){ return (m>>i&1)!=0; }); }
void check_cut(Ctx&c, const GraphFragment&f, const CutSide&s, const char*w){ c.transitions++; if(s.is_node_on_side.size()!=f.node_count()) c.fail(std::string(w)+": size"); unsigned k=0; for(unsigned x=0;x<f.node_count();++x) k+=s.is_node_on_side.is_set(x); c.eqs(s.node_on_side_count,k,w); c.eq(s.cut_size,crossing(f,s.is_node_on_side),[&]{ return std::string(w)+": claimed number of crossing edges"; }); }
void check_smaller(Ctx&c, const GraphFragment&f, CutSide s, const char*w){ BitVector o=s.is_node_on_side; unsigned k=s.cut_size; pick_smaller_side(s); check_cut(c,f,s,w); c.eqs(s.cut_size,k,"cut size after pick_smaller_side"); unsigned n=f.node_count(); if(s.node_on_side_count*2>n) c.fail(fmt("pick_smaller_side keeps %u of %u nodes",s.node_on_side_count,n)); bool eq=true,opp=true; for(unsigned x=0;x<n;++x){ if(o.is_set(x)!=s.is_node_on_side.is_set(x)) eq=false; else opp=false; } if(n&&!eq&&!opp) c.fail("pick_smaller_side changes the cut"); }
void check_separator(Ctx&c, const GraphFragment&f, const BitVector&side, const char*w){ BitVector sep=derive_separator_from_cut(f,side); c.transitions++; ++c.states; if(sep.size()!=f.node_count()) c.fail(std::string(w)+": size of the separator"); V k=comp_of(f,&sep); std::map<unsigned,bool>sd; for(unsigned x=0;x<f.node_count();++x) if(!sep.is_set(x)){ auto p=sd.insert({k[x],side.is_set(x)}); if(p.first->second!=side.is_set(x)) c.fail(fmt("%s: node %u is joined to the other side by a path that avoids the separator",w,x)); }
	if(crossing(f,side)==0){ for(unsigned x=0;x<f.node_count();++x) if(sep.is_set(x)) c.fail(std::string(w)+": separator without any edge to separate"); } }
void fragment_case(Ctx&c, const G&g){
	c.note=::str(g); auto f=make_graph_fragment(g.n,g.tail,g.head); c.transitions++; ++c.traces; valid_fragment(c,f,"make_graph_fragment"); c.eqs(f.node_count(),g.n,"nodes of the fragment"); for(unsigned x=0;x<g.n;++x) if(f.global_node_id[x]!=x) c.fail("global ids of the fragment");
	Edges want; for(unsigned a=0;a<g.m();++a) if(g.tail[a]!=g.head[a]){ want.insert({g.tail[a],g.head[a]}); want.insert({g.head[a],g.tail[a]}); } if(edges_of(f)!=want) c.fail("edges of the fragment differ from those of the graph");
	// components, once with identity and once with other global ids
	for(unsigned r=0;r<2;++r){ auto f2=f; if(r) for(auto&x:f2.global_node_id) x=1000-3*x; auto orig=edges_of(f2); auto k=comp_of(f2); unsigned kc=0; for(unsigned x:k) kc=std::max(kc,x+1); auto p=decompose_graph_fragment_into_connected_components(f2); c.transitions++; c.eqs((unsigned)p.size(),kc,"number of connected components"); std::multiset<unsigned>ids; Edges all; for(auto&q:p){ valid_fragment(c,q,"component"); if(q.node_count()==0) c.fail("empty component"); auto kk=comp_of(q); for(unsigned x:kk) if(x) c.fail("a component is not connected"); ids.insert(q.global_node_id.begin(),q.global_node_id.end()); auto e=edges_of(q); all.insert(e.begin(),e.end()); } if(ids!=std::multiset<unsigned>(f2.global_node_id.begin(),f2.global_node_id.end())) c.fail("nodes of the components"); if(all!=orig) c.fail("edges of the components"); }
}
void flow_case(Ctx&c, const GraphFragment&f, const BitVector&S, const BitVector&T, unsigned want){
	BlockingFlow b(f,S,T); unsigned last=0,steps=0; while(!b.is_finished()){ if(b.get_current_flow_intensity()<last||b.get_current_flow_intensity()>want) c.fail(fmt("flow intensity %u, maximum flow %u",b.get_current_flow_intensity(),want)); last=b.get_current_flow_intensity(); b.advance(); c.transitions++; ++c.states; if(++steps>f.arc_count()+3) c.fail("the flow does not finish"); }
	c.eqs(b.get_current_flow_intensity(),want,"flow intensity"); b.advance(); if(!b.is_finished()||b.get_current_flow_intensity()!=want) c.fail("advance after the end changes the flow");
	auto sc=b.get_source_cut(),tc=b.get_target_cut(),bc=b.get_balanced_cut(),sc2=b.get_source_cut(); check_cut(c,f,sc,"source cut"); check_cut(c,f,tc,"target cut"); check_cut(c,f,bc,"balanced cut"); c.eqs(sc.cut_size,want,"source cut size"); c.eqs(tc.cut_size,want,"target cut size"); c.eqs(bc.cut_size,want,"balanced cut size"); if(!(sc2.is_node_on_side==sc.is_node_on_side)) c.fail("source cut changed"); 
	int bs=-1; for(unsigned x=0;x<f.node_count();++x){ ++c.states; if(S.is_set(x)){ if(!sc.is_node_on_side.is_set(x)||tc.is_node_on_side.is_set(x)) c.fail("source on the wrong side"); int k=bc.is_node_on_side.is_set(x); if(bs<0) bs=k; if(bs!=k) c.fail("balanced cut splits the sources"); } } for(unsigned x=0;x<f.node_count();++x) if(T.is_set(x)){ if(sc.is_node_on_side.is_set(x)||!tc.is_node_on_side.is_set(x)) c.fail("target on the wrong side"); if((int)bc.is_node_on_side.is_set(x)==bs) c.fail("balanced cut does not separate sources and targets"); }
	check_smaller(c,f,sc,"smaller side of the source cut"); check_smaller(c,f,tc,"smaller side of the target cut"); check_smaller(c,f,bc,"smaller side of the balanced cut"); check_separator(c,f,sc.is_node_on_side,"separator of the source cut"); check_separator(c,f,tc.is_node_on_side,"separator of the target cut"); check_separator(c,f,bc.is_node_on_side,"separator of the balanced cut"); ++c.traces;
}
void all_flows(Ctx&c, const G&g){ auto f=make_graph_fragment(g.n,g.tail,g.head); uint64_t K=vx::ipow(3,g.n); for(uint64_t k=0;k<K;++k){ unsigned S=0,T=0; vx::Dec d(k); for(unsigned x=0;x<g.n;++x){ unsigned z=d.get(3); if(z==1) S|=1u<<x; if(z==2) T|=1u<<x; } if(!S||!T) continue; c.note=::str(g)+fmt(" sources %x targets %x",S,T); flow_case(c,f,bits(g.n,S),bits(g.n,T),min_cut(f,S,T)); } }
void all_sides(Ctx&c, const G&g){ auto f=make_graph_fragment(g.n,g.tail,g.head); for(unsigned m=0;m<(1u<<g.n);++m){ c.note=::str(g)+fmt(" side %x",m); check_separator(c,f,bits(g.n,m),"separator"); CutSide s; s.is_node_on_side=bits(g.n,m); s.node_on_side_count=__builtin_popcount(m); s.cut_size=crossing(f,s.is_node_on_side); check_smaller(c,f,s,"smaller side"); ++c.traces; } }
void positions(unsigned kind, unsigned n, VF&la, VF&lo){ la.resize(n); lo.resize(n); uint64_t st=kind*77+n; for(unsigned x=0;x<n;++x) switch(kind){ case 0: la[x]=x; lo[x]=0; break; case 1: la[x]=0; lo[x]=0; break; case 2: la[x]=x%2; lo[x]=x/2; break; case 3: la[x]=-(float)x; lo[x]=x*x%7; break; case 4: la[x]=lcg(st)%180-90.f; lo[x]=lcg(st)%360-180.f; break; case 5: la[x]=(x*5)%(n+1); lo[x]=(x*3)%(n+1); break; case 6: { unsigned k=1; while(k*k<n) ++k; la[x]=x/k; lo[x]=x%k; } break; default: la[x]=lcg(st)%3; lo[x]=lcg(st)%2; } }
const unsigned POS=8;
void check_tree(Ctx&c, const GraphFragment&f, const SeparatorDecomposition&d){
	unsigned n=f.node_count(); if(d.order.size()!=n) c.fail("size of the order"); std::map<unsigned,unsigned>local; for(unsigned x=0;x<n;++x) local[f.global_node_id[x]]=x; std::vector<char>seen(n,0); for(unsigned x:d.order){ auto p=local.find(x); if(p==local.end()||seen[p->second]) c.fail("the order is no permutation of the nodes: "+str(d.order)); seen[p->second]=1; }
	if(d.tree.empty()) c.fail("no tree"); unsigned k=d.tree.size(); V parent(k,~0u),owner(n,~0u); std::vector<char>vis(k,0); V st{0}; vis[0]=1; unsigned cnt=0;
	while(!st.empty()){ unsigned t=st.back(); st.pop_back(); ++cnt; auto&N=d.tree[t]; if(N.first_separator_vertex>N.last_separator_vertex||N.last_separator_vertex>n) c.fail(fmt("range of tree node %u",t)); for(unsigned i=N.first_separator_vertex;i<N.last_separator_vertex;++i){ if(owner[i]!=~0u) c.fail(fmt("position %u belongs to two tree nodes",i)); owner[i]=t; } for(unsigned ch=N.left_child;ch;ch=d.tree[ch].right_sibling){ if(ch>=k||vis[ch]) c.fail("the tree links are no tree"); vis[ch]=1; parent[ch]=t; st.push_back(ch); } if(t==0&&N.right_sibling) c.fail("the root has a sibling"); }
	c.eqs(cnt,k,"tree nodes reachable from the root"); for(unsigned i=0;i<n;++i) if(owner[i]==~0u) c.fail(fmt("position %u belongs to no tree node",i)); V at(n); for(unsigned i=0;i<n;++i) at[local[d.order[i]]]=owner[i];
	auto anc=[&](unsigned a, unsigned b){ for(;;){ if(a==b) return true; if(parent[b]==~0u) return false; b=parent[b]; } }; V pos(n); for(unsigned i=0;i<n;++i) pos[local[d.order[i]]]=i;
	for(unsigned i=0;i<n;++i) for(unsigned t=owner[i];parent[t]!=~0u;t=parent[t]) if(d.tree[parent[t]].last_separator_vertex>d.tree[parent[t]].first_separator_vertex&&d.tree[parent[t]].first_separator_vertex<=i) c.fail("a separator precedes a node of its parts"); 
	for(unsigned a=0;a<f.arc_count();++a){ ++c.states; unsigned x=at[f.tail[a]],y=at[f.head[a]]; if(!anc(x,y)&&!anc(y,x)) c.fail(fmt("edge %u-%u joins two parts that the decomposition separates",f.tail[a],f.head[a])); }
}
void order_case(Ctx&c, const G&g, const VF&la, const VF&lo, const std::string&w, bool exact_cuts){
	c.note=::str(g)+" "+w; auto chk=[&](const V&o, const char*what){ V s(o); std::sort(s.begin(),s.end()); ++c.states; ++c.transitions; if(s.size()!=g.n) c.fail(std::string(what)+": size"); for(unsigned i=0;i<s.size();++i) if(s[i]!=i) c.fail(std::string(what)+" is no permutation: "+str(o)); };
	chk(compute_nested_node_dissection_order_using_inertial_flow(g.n,g.tail,g.head,la,lo,[](const std::string&){}),"order"); chk(compute_nested_node_dissection_order_using_inertial_flow(g.n,g.tail,g.head,la,lo,std::function<void(const std::string&)>()),"order without log");
	auto f=make_graph_fragment(g.n,g.tail,g.head); auto sep=[&](const GraphFragment&x)->BitVector{ auto s=inertial_flow(x,la,lo); check_cut(c,x,s,"inertial flow cut"); unsigned m=x.node_count()/4; if(m==0) m=1; if(s.node_on_side_count<m||x.node_count()-s.node_on_side_count<m) c.fail("inertial flow cut is not balanced"); pick_smaller_side(s); check_separator(c,x,s.is_node_on_side,"inertial flow separator"); return derive_separator_from_cut(x,s.is_node_on_side); };
	auto d=compute_separator_decomposition(f,sep); check_tree(c,f,d); auto f2=f; for(auto&x:f2.global_node_id) x=g.n-1-x; auto la2=la,lo2=lo; chk(compute_nested_node_dissection_order(f2,sep),"order of renamed nodes"); check_tree(c,f2,compute_separator_decomposition(f2,sep));
	for(unsigned how=0;how<4;++how){ auto d2=compute_separator_decomposition(f,[&](const GraphFragment&x)->BitVector{ unsigned n=x.node_count(); if(n<2) c.fail("separator of a single node demanded"); auto k=comp_of(x); for(unsigned y:k) if(y) c.fail("separator of an unconnected fragment demanded"); valid_fragment(c,x,"fragment handed to the separator function"); BitVector b(n,false); if(how==0) b.set(0); else if(how==1) b.set(n-1); else if(how==2) b=BitVector(n,true); else for(unsigned i=0;i<n;i+=2) b.set(i); return b; }); check_tree(c,f,d2); }
	if(exact_cuts&&g.n>=2) for(unsigned b:{25u,33u,40u,50u}){ auto s=inertial_flow(f,b,la,lo); check_cut(c,f,s,"inertial flow cut"); unsigned m=g.n*b/100; if(!m) m=1; if(s.node_on_side_count<m||g.n-s.node_on_side_count<m) c.fail(fmt("inertial flow cut with balance %u has a side of %u nodes",b,s.node_on_side_count)); 
		// terminals are determined if no two of the four keys tie
		unsigned best=~0u; bool tie=false; for(unsigned dir=0;dir<4;++dir){ std::vector<std::pair<float,unsigned>>k; for(unsigned x=0;x<g.n;++x) k.push_back({dir==0?la[x]:dir==1?lo[x]:dir==2?la[x]+lo[x]:la[x]-lo[x],x}); std::sort(k.begin(),k.end()); for(unsigned i=0;i+1<g.n;++i) if(k[i].first==k[i+1].first&&((i+1==m)||(i+1==g.n-m))) tie=true; BitVector S(g.n,false),T(g.n,false); for(unsigned i=0;i<m;++i){ S.set(k[i].second); T.set(k[g.n-1-i].second); } if(!tie) best=std::min(best,max_flow(f,S,T)); } if(!tie) c.eqs(s.cut_size,best,"inertial flow cut size"); }
	++c.traces;
}
void order_big(Ctx&c, unsigned fam, unsigned n, unsigned pos){
	G g=family(fam,n,0); VF la,lo; positions(pos,n,la,lo); c.note=fmt("%s n %u positions %u",family_name(fam),n,pos);
	V o=compute_nested_node_dissection_order_using_inertial_flow(g.n,g.tail,g.head,la,lo,std::function<void(const std::string&)>()); V s(o); std::sort(s.begin(),s.end()); c.states+=n; ++c.transitions; for(unsigned i=0;i<n||i<s.size();++i) if(i>=s.size()||i>=n||s[i]!=i) c.fail("the order is no permutation");
	auto f=make_graph_fragment(g.n,g.tail,g.head); valid_fragment(c,f,"fragment"); auto d=compute_separator_decomposition(f,[&](const GraphFragment&x)->BitVector{ auto s=inertial_flow(x,la,lo); check_cut(c,x,s,"inertial flow cut"); pick_smaller_side(s); check_separator(c,x,s.is_node_on_side,"inertial flow separator"); return derive_separator_from_cut(x,s.is_node_on_side); }); check_tree(c,f,d);
	auto k=decompose_graph_fragment_into_connected_components(f); std::multiset<unsigned>ids; for(auto&q:k){ valid_fragment(c,q,"component"); ids.insert(q.global_node_id.begin(),q.global_node_id.end()); } if(ids!=std::multiset<unsigned>(f.global_node_id.begin(),f.global_node_id.end())) c.fail("nodes of the components"); ++c.traces;
}
void make20(std::vector<Suite>&v){
	bool T=vx::opt().thorough(),A=vx::opt().asan();
	auto sp=[&](std::string name, std::string b, auto s0, std::function<void(Ctx&,const G&,uint64_t)>f){ Suite s; s.name=name; s.bounds=b; s.count=s0.count(); s.describe=[=](uint64_t i){ return ::str(s0.at(i)); }; s.run=[=](uint64_t i, Ctx&c){ f(c,s0.at(i),i); }; v.push_back(s); };
	auto frag=[](Ctx&c, const G&g, uint64_t){ fragment_case(c,g); }; auto flow=[](Ctx&c, const G&g, uint64_t){ all_flows(c,g); }; auto side=[](Ctx&c, const G&g, uint64_t){ all_sides(c,g); };
	{ Suite s; s.name="n0"; s.bounds="the empty graph"; s.count=1; s.describe=[](uint64_t){ return "no nodes"; }; s.run=[](uint64_t, Ctx&c){ G g; fragment_case(c,g); order_case(c,g,{},{},"",false); all_sides(c,g); }; v.push_back(s); }
	sp("frag_n1","one node, 2 loops",ListSpace(1,2,true,{1}),frag); sp("frag_n2","every arc list of 4 arcs on 2 nodes",ListSpace(2,4,true,{1}),frag); sp("frag_n3","every digraph with loops on 3 nodes",SlotSpace(3,true,{1}),frag); sp("frag_n3_lists","every arc list of 4 arcs on 3 nodes",ListSpace(3,A?3:4,true,{1}),frag); sp("frag_n4","every digraph on 4 nodes",SlotSpace(4,false,{1}),frag); if(!A) sp("frag_n6","every set of 5 arcs on 6 nodes",SubsetSpace(6,T?6:5,{1}),frag); if(!A) sp("frag_n7","every set of 4 arcs on 7 nodes",SubsetSpace(7,T?5:4,{1}),frag);
	sp("side_n3","every digraph on 3 nodes, every side",SlotSpace(3,false,{1}),side); sp("side_n4","every digraph on 4 nodes, every side",SlotSpace(4,false,{1}),side); if(!A) sp("side_n5","every set of 6 arcs on 5 nodes, every side",SubsetSpace(5,T?8:6,{1}),side);
	sp("flow_n2","every arc list of 4 arcs on 2 nodes, every disjoint source and target set",ListSpace(2,4,true,{1}),flow); sp("flow_n3","every digraph on 3 nodes and every pair of source and target sets",SlotSpace(3,false,{1}),flow); sp("flow_n4","every digraph on 4 nodes (every undirected multigraph with up to two parallel edges), every disjoint source and target set",SlotSpace(4,false,{1}),flow); 
	if(!A){ auto und=[](unsigned n, unsigned m){ return SubsetSpace(n,m,{1}); }; (void)und; for(unsigned m=4;m<=(T?9u:7u);++m) sp(fmt("flow_n5_m%u",m),fmt("every set of %u arcs on 5 nodes, every disjoint source and target set",m),SubsetSpace(5,m,{1}),flow); }
	{ // undirected simple graphs on 6 nodes
		unsigned N=A?5:6, P=N*(N-1)/2; Suite s; s.name=fmt("flow_undirected_n%u",N); s.bounds=fmt("every undirected graph on %u nodes, every pair of disjoint source and target sets",N); s.count=1ull<<P; auto at=[=](uint64_t i){ G g; g.n=N; unsigned k=0; for(unsigned x=0;x<N;++x) for(unsigned y=x+1;y<N;++y) if(i>>k++&1) g.add(x,y,1); return g; }; s.describe=[=](uint64_t i){ return ::str(at(i)); }; s.run=[=](uint64_t i, Ctx&c){ all_flows(c,at(i)); }; v.push_back(s); }
	auto ord=[&](std::string name, std::string b, auto s0, std::vector<unsigned>kinds){ Suite s; s.name=name; s.bounds=b+fmt(", %zu position patterns",kinds.size()); s.count=s0.count()*kinds.size(); s.describe=[=](uint64_t i){ return ::str(s0.at(i/kinds.size()))+fmt(" positions %u",kinds[i%kinds.size()]); }; s.run=[=](uint64_t i, Ctx&c){ G g=s0.at(i/kinds.size()); VF la,lo; positions(kinds[i%kinds.size()],g.n,la,lo); order_case(c,g,la,lo,fmt("positions %u",kinds[i%kinds.size()]),true); }; v.push_back(s); };
	std::vector<unsigned>all{0,1,2,3,4,5,6,7}; ord("order_n1","one node",ListSpace(1,1,true,{1}),all); ord("order_n2","every digraph with loops on 2 nodes",SlotSpace(2,true,{1}),all); ord("order_n3","every digraph on 3 nodes",SlotSpace(3,false,{1}),all); ord("order_n4","every digraph on 4 nodes",SlotSpace(4,false,{1}),A?std::vector<unsigned>{2,3}:all); if(!A){ ord("order_n5","every set of 5 arcs on 5 nodes",SubsetSpace(5,T?7:5,{1}),{0,2,3,5}); ord("order_n6","every set of 5 arcs on 6 nodes",SubsetSpace(6,5,{1}),T?all:std::vector<unsigned>{3}); }
	{ unsigned N=A?3:4; uint64_t K=vx::ipow(9,N); Suite s; s.name="order_positions"; s.bounds=fmt("path, cycle and complete graph on %u nodes, every assignment of positions from a 3 x 3 grid",N); s.count=K*3; auto at=[=](uint64_t i, VF&la, VF&lo){ G g=family(i%3==0?F_PATH:i%3==1?F_BICYCLE:F_COMPLETE,N,0); vx::Dec d(i/3); for(unsigned x=0;x<N;++x){ unsigned z=d.get(9); la.push_back(z%3*45.f-45); lo.push_back(z/3*120.f-120); } return g; }; s.describe=[=](uint64_t i){ VF a,b; return ::str(at(i,a,b))+str(a)+str(b); }; s.run=[=](uint64_t i, Ctx&c){ VF a,b; G g=at(i,a,b); order_case(c,g,a,b,str(a)+str(b),true); }; v.push_back(s); }
	if(!A){ static const unsigned ns[]={257,4099,65535,65537}, fs[]={F_PATH,F_TREE,F_STAR,F_LADDER,F_EMPTY,F_GRID}; Suite s; s.name="beyond_16_bits"; s.bounds="paths, trees, ladders, isolated nodes and (up to 4099 nodes) stars and grids with 257..65537 nodes"; s.count=24; s.chunk=1; s.case_timeout=200; s.describe=[](uint64_t i){ return fmt("%s n %u",family_name(fs[i%6]),ns[i/6]); }; s.run=[](uint64_t i, Ctx&c){ unsigned n=ns[i/6],f=fs[i%6]; if((f==F_GRID||f==F_STAR)&&n>5000) return; order_big(c,f,n,f==F_GRID?6:0); }; v.push_back(s); }
	{ static const unsigned ns[]={2,3,5,7,10,16,25,36,50,64,65,100,150}; unsigned N=A?8:13; Suite s; s.name="families"; s.bounds=fmt("13 graph families, %u sizes up to %u nodes, 8 position patterns",N,ns[N-1]); s.count=F_COUNT*POS*N; s.describe=[](uint64_t i){ return fmt("%s n %u positions %u",family_name(i%F_COUNT),ns[i/F_COUNT/POS],(unsigned)(i/F_COUNT%POS)); };
	  s.run=[](uint64_t i, Ctx&c){ unsigned n=ns[i/F_COUNT/POS]; if(n>50&&i%F_COUNT==F_COMPLETE) n=50; G g=family(i%F_COUNT,n,0); VF la,lo; positions(i/F_COUNT%POS,g.n,la,lo); fragment_case(c,g); order_case(c,g,la,lo,"",true); auto f=make_graph_fragment(g.n,g.tail,g.head); for(unsigned k=0;k<6;++k){ BitVector S(n,false),T(n,false); for(unsigned x=0;x<n;++x){ if(k==0?x==0:k==1?x<n/2:k==2?x%3==0:k==3?x==n-1:k==4?x%2==0:x<n/4+1) S.set(x); else if(k==0?x==n-1:k==1?x>=n/2:k==2?x%3==1:k==3?x==0:k==4?x%2==1:x>=n-n/4-1) T.set(x); } if(!S.population_count()||!T.population_count()) continue; c.note=::str(g)+fmt(" terminals %u",k); flow_case(c,f,S,T,max_flow(f,S,T)); } }; s.case_timeout=120; s.chunk=2; v.push_back(s); }
}
void make(std::vector<Suite>&v, const std::string&p){ if(p=="C19") make19(v); else make20(v); }
}
int main(int argc, char**argv){ if(argc<2) return 2; std::string p=argv[1]; return vx::run_all(argc-1,argv+1,p,make); }
