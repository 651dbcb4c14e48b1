// Uses the C++ interface as a client does.  usage: api SCRIPT TRACE
// Script lines: name H | cwd H | strategy H | dim N | box D lb.. ub.. | obj F H H | con F H H | data H | doe N | budget N | run
// fail F n | weights F w0..w4 scale | abort EVENT | fill KIND N D lb.. ub..
// (H: hex text 'x..', F: number of the function, -1 for none).  Every call of a function is recorded with its argument and value.
#define VH_SEED
#include "common.hpp"
#include "API/INCLUDE/rodeo.h"
#include "API/INCLUDE/rodeoapi.h"
#include "INCLUDE/verif_hooks.hpp"
#include <cstring>
#include <filesystem>
using namespace Rodop;
using std::string;
static string unhex(const string& h){ string r; for(size_t i=1;i+1<h.size();i+=2) r+=(char)std::stoi(h.substr(i,2),nullptr,16); return r; }
static unsigned dim=0; static double weight[8][5]; static double scaleOf[8]; static long failAt[8]; static long ncalls[8];
static double value(int k,const double* x){
	double v=weight[k][4];
	for(unsigned i=0;i<dim;i++) v+=weight[k][i%4]*x[i];
	return std::round(v*scaleOf[k])+0.0;
}
template<int K> double fn(const double* x){
	long n=ncalls[K]++;
	bool fail = failAt[K]==n;
	double v=value(K,x);
	vh::trace.line("{\"e\":\"call\",\"fn\":"+std::to_string(K)+",\"x\":"+vh::arr(x,dim)+",\"v\":"+vh::num(v)+",\"fail\":"+(fail?"true":"false")+"}");
	if(fail) throw std::runtime_error("evaluation failed");
	return v;
}
static double (*table[8])(const double*)={fn<0>,fn<1>,fn<2>,fn<3>,fn<4>,fn<5>,fn<6>,fn<7>};
static string files(){
	string s="{"; std::vector<string> names; std::error_code ec;
	for(auto& p: std::filesystem::recursive_directory_iterator(".",ec)) if(p.is_regular_file()) names.push_back(p.path().string().substr(2));
	std::sort(names.begin(),names.end()); bool first=true;
	for(auto& n:names) if(n.find(".log")==string::npos && n.find("trace.json")==string::npos && n.find("script")==string::npos){ s+=(first?"":",")+vh::str(n)+":"+vh::str(vh::slurp(n)); first=false; }
	return s+"}";
}
int main(int argc,char** argv){
	if(argc<3) return 3;
	vh::trace.open(argv[2]);
	string root=std::filesystem::current_path().string();
	for(int k=0;k<8;k++){ for(int i=0;i<5;i++) weight[k][i]=((k*7+i*3)%5)-2+0.25*((k+i)%3); scaleOf[k]=8; failAt[k]=-1; }
	string stopAt;
	verif::sink=[&](const char* name,const verif::Fields& f){
		string n=name; if(n=="candidate"||n=="trained") return;
		string s="{\"e\":"+vh::str(n);
		for(auto& p:f) s+=",\""+string(p.first)+"\":"+vh::arr(p.second);
		vh::trace.line(s+"}");
		if(n==stopAt) throw std::runtime_error("stopped at "+n);
	};
	RobustDesignOptimizerAPI api;
	std::ifstream in(argv[1]); string l;
	while(std::getline(in,l)){
		std::istringstream s(l); string k; s>>k; string h,g; int f; unsigned n; bool ok=true; string what;
		if(k=="fail"){ s>>f>>n; failAt[f]=n; continue; }
		if(k=="weights"){ s>>f; for(int i=0;i<5;i++) s>>weight[f][i]; s>>scaleOf[f]; continue; }
		if(k=="abort"){ s>>stopAt; continue; }
		if(k=="fill"){
			unsigned d; s>>h>>n>>d; std::vector<double> lb(d),ub(d); string w; for(auto& q:lb){ s>>w; q=std::strtod(w.c_str(),nullptr); } for(auto& q:ub){ s>>w; q=std::strtod(w.c_str(),nullptr); }
			string r="{\"e\":\"filled\",\"rows\":[";
			try{
				mat m(n,d); vec lv(d),uv(d); for(unsigned i=0;i<d;i++){ lv(i)=lb[i]; uv(i)=ub[i]; }
				if(h=="lhs") m.fillRandomLHS(lb,ub); else if(h=="lhsv") m.fillRandomLHS(lv,uv); else if(h=="random") m.fillRandom(lb,ub); else m.fillRandom(lv,uv);
				for(unsigned i=0;i<n;i++){ if(i) r+=","; vec row=m.getRow(i); r+=vh::arr(row.getPointer(),d); }
			} catch(const std::exception& e){ r+="]"; vh::trace.line("{\"e\":\"filled\",\"rows\":[],\"what\":"+vh::str(e.what())+"}"); continue; }
			vh::trace.line(r+"]}"); continue;
		}
		try{
			if(k=="name"){ s>>h; api.setName(unhex(h)); }
			else if(k=="cwd"){ s>>h; api.setCurrentWorkingDirectory(unhex(h)); }
			else if(k=="strategy"){ s>>h; api.setDoEStrategy(unhex(h)); }
			else if(k=="dim"){ s>>n; api.setDimension(n); dim=n; }
			else if(k=="box"){ s>>n; std::vector<double> lb(n),ub(n); string w; for(auto& d:lb){ s>>w; d=std::strtod(w.c_str(),nullptr); } for(auto& d:ub){ s>>w; d=std::strtod(w.c_str(),nullptr); }
				lb.resize(16,0); ub.resize(16,1); api.setBoxConstraints(lb.data(),ub.data()); }
			else if(k=="obj"){ s>>f>>h>>g; api.setObjectiveFunction(f<0?nullptr:table[f],unhex(h),unhex(g)); }
			else if(k=="con"){ s>>f>>h>>g; api.addConstraint(f<0?nullptr:table[f],unhex(h),unhex(g)); }
			else if(k=="data"){ s>>h; api.setNameOfTrainingDataFile(unhex(h)); }
			else if(k=="doe"){ s>>n; api.setDoEOn(n); }
			else if(k=="budget"){ s>>n; api.setMaxNumberOfFunctionEvaluations(n); }
			else if(k=="run"){ vh::trace.line("{\"e\":\"start\"}"); api.run(); }
			else continue;
		}
		catch(const std::exception& e){ ok=false; what=e.what(); }
		catch(...){ ok=false; what="?"; }
		string r="{\"e\":\"did\",\"op\":"+vh::str(k)+",\"ok\":"+(ok?"true":"false")+",\"what\":"+vh::str(what);
		if(k=="run"){
			string here=std::filesystem::current_path().string();
			std::filesystem::path back=std::filesystem::current_path(); std::filesystem::current_path(root);
			r+=",\"cwd\":"+vh::str(here.size()>root.size()? here.substr(root.size()+1): "")+",\"files\":"+files(); std::filesystem::current_path(back);
		}
		vh::trace.line(r+"}");
	}
	return 0;
}
