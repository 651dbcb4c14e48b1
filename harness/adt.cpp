// Runs scripted operations on data matrices and vectors and records their outcomes.
// usage: adt SCRIPT TRACE      One line per trace: "T kind" starts a trace ("I ..." its initial state),
// "O op na a.. nv v.. nr nc d.. nf [ncell cell..].." is an operation.  Values are multiples of 1/8.
#define VH_SEED
#include "common.hpp"
#include "LinearAlgebra/INCLUDE/matrix.hpp"
#include "LinearAlgebra/INCLUDE/vector.hpp"
#include <utility>
#include <unistd.h>
using namespace Rodop;
using std::string;

static string ints(const std::vector<long>& v){ string s="["; for(size_t i=0;i<v.size();i++){ if(i) s+=","; s+=std::to_string(v[i]); } return s+"]"; }
static long unit(double d, double u=8){ double x=d*u; if(!(std::fabs(x)<1e9)) return 2000000000; double r=std::nearbyint(x); return std::fabs(x-r)>1e-6? 1999999999: (long)r; }
static vec toVec(const std::vector<long>& v){ vec r((unsigned)v.size()); for(size_t i=0;i<v.size();i++) r((unsigned)i)=v[i]/8.0; return r; }
static std::vector<long> fromVec(const vec& v){ std::vector<long> r; for(unsigned i=0;i<v.getSize();i++) r.push_back(unit(v(i))); return r; }
static string js(const vec& v){ return ints(fromVec(v)); }
static string js(const mat& m, double u=8){
	string s="{\"nr\":"+std::to_string(m.getNRows())+",\"nc\":"+std::to_string(m.getNCols())+",\"d\":[";
	if(m.getNRows()>100 || m.getNCols()>100) return s+"]}";
	for(unsigned i=0;i<m.getNRows();i++){ std::vector<long> r; for(unsigned j=0;j<m.getNCols();j++) r.push_back(unit(m(i,j),u)); if(i) s+=","; s+=ints(r); }
	return s+"]}";
}
struct Op { string op; std::vector<long> a,v; long nr,nc; std::vector<long> d; std::vector<std::vector<string>> f; };
static string unhex(const string& h){ string r; for(size_t i=1;i+1<h.size();i+=2) r+=(char)std::stoi(h.substr(i,2),nullptr,16); return r; }
static Op parse(std::istringstream& s){
	Op o; s>>o.op; size_t n; s>>n; o.a.resize(n); for(auto&x:o.a) s>>x; s>>n; o.v.resize(n); for(auto&x:o.v) s>>x;
	s>>o.nr>>o.nc; o.d.resize(o.nr*o.nc); for(auto&x:o.d) s>>x;
	s>>n; o.f.resize(n); for(auto& l:o.f){ size_t k; s>>k; l.resize(k); for(auto& c:l){ string h; s>>h; c=unhex(h); } }
	return o;
}
static mat toMat(const Op& o){ if(o.nr==0) return mat(); mat m((unsigned)o.nr,(unsigned)o.nc); for(long i=0;i<o.nr;i++) for(long j=0;j<o.nc;j++) m((unsigned)i,(unsigned)j)=o.d[i*o.nc+j]/8.0; return m; }
static void writeFile(const Op& o, const char* name){ std::ofstream f(name); for(auto& l:o.f){ for(size_t i=0;i<l.size();i++) f<<(i?",":"")<<l[i]; f<<"\n"; } }

static string doMat(mat& m, const Op& o){
	auto a=[&](size_t i){ return (int)o.a.at(i); };
	if(o.op=="addRow"){ m.addRow(toVec(o.v),a(0)); return "0"; }
	if(o.op=="addColumn"){ m.addColumn(toVec(o.v),a(0)); return "0"; }
	if(o.op=="deleteRow"){ m.deleteRow(a(0)); return "0"; }
	if(o.op=="deleteRows"){ std::vector<int> r(o.v.begin(),o.v.end()); m.deleteRows(r); return "0"; }
	if(o.op=="setRow"){ m.setRow(toVec(o.v),(unsigned)a(0)); return "0"; }
	if(o.op=="setCol"){ m.setCol(toVec(o.v),(unsigned)a(0)); return "0"; }
	if(o.op=="getRow") return js(m.getRow(a(0)));
	if(o.op=="getCol") return js(m.getCol(a(0)));
	if(o.op=="submat") return js(m.submat(a(0),a(1),a(2),a(3)));
	if(o.op=="concatRows"){ const mat& c=m; return js(c.concatenateRowWise(toMat(o))); }
	if(o.op=="concatCols"){ const mat& c=m; return js(c.concatenateColumnWise(toMat(o))); }
	if(o.op=="resize"){ m.resize((unsigned)a(0),(unsigned)a(1)); return "0"; }
	if(o.op=="transpose") return js(m.transpose());
	if(o.op=="findRow") return std::to_string(m.findRowIndex(toVec(o.v),a(0)/8.0+1e-9));
	if(o.op=="hasRow") return std::to_string((int)m.isRowInMatrix(toVec(o.v),a(0)/8.0+1e-9));
	if(o.op=="fill"){ m.fill(a(0)/8.0); return "0"; }
	if(o.op=="reset"){ m.reset(); return "0"; }
	if(o.op=="shuffle"){ m.shuffleRows(); return "0"; }
	if(o.op=="copy"){ mat c(m), d; d=m; string r=js(c); if(js(d)!=r) return "0"; c.fill(99); d.fill(98); if(c.getNRows()) { c.deleteRow(0); d.addRow(vec(d.getNCols(),3.0)); } m=m; return r; }
	if(o.op=="move"){ mat c(std::move(m)); string r=js(m); mat d; d=std::move(c); m=std::move(d); return r; }
	if(o.op=="read"){ writeFile(o,"read.csv"); m.readFromCSV("read.csv"); return "0"; }
	if(o.op=="csv"){   // a: precision (-1: default), header: 0 none, 1 right size, 2 wrong size
		std::vector<string> h; if(a(1)) for(unsigned i=0;i<m.getNCols()+(a(1)==2);i++) h.push_back("h"+std::to_string(i));
		if(o.a.at(2)==-1) m.saveAsCSV("m.csv"); else m.saveAsCSV("m.csv",a(0),h);
		mat r(1,1,5.0); r.readFromCSV("m.csv",a(1)==1 && o.a.at(2)!=-1); return js(r,8000);
	}
	throw std::logic_error("unknown operation "+o.op);
}
static string doVec(vec& v, const Op& o){
	auto a=[&](size_t i){ return (int)o.a.at(i); };
	if(o.op=="append"){ v.appendVector(toVec(o.v),a(0)); return "0"; }
	if(o.op=="overwrite"){ v.copyVector(toVec(o.v),a(0)); return "0"; }
	if(o.op=="push"){ v.push_back(a(0)/8.0); return "0"; }
	if(o.op=="resize"){ v.resize((unsigned)a(0),a(1)/8.0); return "0"; }
	if(o.op=="head") return js(v.head((unsigned)a(0)));
	if(o.op=="tail") return js(v.tail((unsigned)a(0)));
	if(o.op=="set"){ v.set((unsigned)a(0),a(1)/8.0); return "0"; }
	if(o.op=="get"){ double x=v.get((unsigned)a(0)); if(v((unsigned)a(0))!=x) return "7777"; return std::to_string(unit(x)); }
	if(o.op=="swap"){ vec w=toVec(o.v); v.swap(w); return js(w); }
	if(o.op=="std"){ vec w(2,9.0); w.fromStdVector(v.toStdVector()); return js(w); }
	if(o.op=="copy"){ vec w(v),u; u=v; string r=js(w); if(js(u)!=r) return "0"; w.fill(9); u.fill(8); u.push_back(1); v=v; return r; }
	if(o.op=="isSorted") return ints({v.is_sorted(true),v.is_sorted(false)});
	if(o.op=="between"){ vec lb=toVec(o.v), ub=lb+0.25; return std::to_string((int)v.is_between(lb,ub)); }
	if(o.op=="equal") return std::to_string((int)v.is_equal(toVec(o.v),a(0)/8.0+1e-9));
	if(o.op=="less"){ vec w=toVec(o.v); return std::to_string((int)((v<w) && (w>v))); }
	if(o.op=="sum") return std::to_string(unit(v.sum()));
	if(o.op=="min"){ double x=v.findMin(); return ints({unit(x),v.findMinIndex()}); }
	if(o.op=="max"){ double x=v.findMax(); return ints({unit(x),v.findMaxIndex()}); }
	if(o.op=="sort"){ v.sort(a(0)==1); return "0"; }
	if(o.op=="csv"){ v.saveToCSV("v.csv"); vec w(3,4.0); w.readFromCSV("v.csv"); return js(w); }
	if(o.op=="appendRow"){
		mat f=toMat(o); if(o.nr) f.saveAsCSV("append.csv",a(0)); else std::remove("append.csv");
		bool threw=false; string what; try{ v.appendToCSV("append.csv",a(0)); }catch(const std::exception& e){ threw=true; what=e.what(); }
		mat r; bool ok; vh::slurp("append.csv",&ok); if(ok) r.readFromCSV("append.csv");
		return (threw? "!":"")+js(r);
	}
	throw std::logic_error("unknown operation "+o.op);
}
int main(int argc,char**argv){
	if(argc<3) return 3;
	std::ifstream in(argv[1]); vh::trace.open(argv[2]); string l; mat m; vec v; bool vector=false;
	while(std::getline(in,l)){
		std::istringstream s(l); string k; s>>k;
		if(k=="T"){ string kind; s>>kind; vector=kind=="vector"; vh::trace.line("{\"new\":1}"); continue; }
		Op o=parse(s);
		if(k=="I"){ m=toMat(o); v=toVec(o.v); continue; }
		string r="0"; bool ok=true;
		try{ r = vector? doVec(v,o): doMat(m,o); if(r[0]=='!'){ ok=false; r=r.substr(1); } }
		catch(const std::logic_error& e){ if(string(e.what()).rfind("unknown operation",0)==0) return 3; ok=false; }
		catch(const std::exception& e){ ok=false; }
		vh::trace.line("{\"ok\":"+string(ok?"true":"false")+",\"m\":"+(vector? js(v): js(m))+",\"res\":"+r+"}");
	}
	return 0;
}
