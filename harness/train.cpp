// Trains surrogate models on several threads; the harness decides in which order the threads complete and,
// if asked to, which training objective each of them has reached.
// usage: train SCRIPT TRACE
#define VH_SEED
#include "common.hpp"
#include "INCLUDE/verif_hooks.hpp"
#include "SurrogateModels/INCLUDE/kriging_training.hpp"
#include "Bounds/INCLUDE/bounds.hpp"
#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <unistd.h>
using namespace Rodop;
using std::string; using std::vector;
using vh::trace;

struct Slot { const EAOptimizer* who; double value; vector<double> genes; string history; long count; };
static std::mutex m; static std::condition_variable cv;
static vector<Slot> slots; static vector<int> order; static vector<double> fakes; static size_t expected=0, turn=0; static bool training=false;
static thread_local int mine=-1;
static vector<vector<double>> trained; // value, parameters as reported when a thread is done

extern "C" __attribute__((weak)) void __real__ZN5Rodop11EAOptimizer8optimizeEv(EAOptimizer*);
extern "C" __attribute__((weak)) EAIndividual __real__ZNK5Rodop11EAOptimizer11getSolutionEv(const EAOptimizer*);

extern "C" EAIndividual __wrap__ZNK5Rodop11EAOptimizer11getSolutionEv(const EAOptimizer* a){
	EAIndividual r=__real__ZNK5Rodop11EAOptimizer11getSolutionEv(a);
	std::lock_guard<std::mutex> g(m);
	if(training && mine>=0 && mine<(int)slots.size() && slots[mine].who==a && mine<(int)fakes.size()) r.setObjectiveFunctionValue(fakes[mine]);
	return r;
}
extern "C" void __wrap__ZN5Rodop11EAOptimizer8optimizeEv(EAOptimizer* a){
	mine=-1;
	__real__ZN5Rodop11EAOptimizer8optimizeEv(a);
	if(!training) return;
	EAIndividual r=__real__ZNK5Rodop11EAOptimizer11getSolutionEv(a);
	std::unique_lock<std::mutex> g(m);
	Slot s; s.who=a; s.value=r.getObjectiveFunctionValue(); vec x=r.getGenes(); for(unsigned i=0;i<x.getSize();i++) s.genes.push_back(x(i));
	a->writeHistoryPopulationToCSV("history.csv"); s.history=vh::slurp("history.csv"); s.count=std::count(s.history.begin(),s.history.end(),'\n')-1;
	mine=(int)slots.size();
	if(mine<(int)fakes.size()) s.value=fakes[mine];
	slots.push_back(s);
	cv.notify_all();
	if(expected<2) return;
	if(!cv.wait_for(g,std::chrono::seconds(5),[&]{ return slots.size()>=expected; })) return;
	size_t pos=0; while(pos<order.size() && order[pos]!=mine) pos++;
	cv.wait_for(g,std::chrono::seconds(5),[&]{ return turn>=pos; });
}
static void hook(const char* name, const verif::Fields& f){
	if(string(name)!="thread_trained") return;
	std::lock_guard<std::mutex> g(m);
	vector<double> v; for(auto& q:f){ if(string(q.first)=="value") v.insert(v.begin(),q.second[0]); if(string(q.first)=="parameters") v.insert(v.end(),q.second.begin(),q.second.end()); }
	trained.push_back(v); turn++; cv.notify_all();
}

struct Opened : KrigingModel { using KrigingModel::data; using KrigingModel::boxConstraints; using KrigingModel::numberOfThreads; };
static vector<double> lb,ub; static double epsilon=0;

// smallest pivot of the correlation matrix, by an own factorization
static double pivot(const vector<vector<double>>& X, const vector<double>& h){
	size_t n=X.size(), d=h.size()/2; vector<vector<long double>> A(n,vector<long double>(n));
	for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++){ long double s=0; for(size_t k=0;k<d;k++) s+=h[k]*std::pow(std::fabs((long double)X[i][k]-X[j][k]),(long double)h[d+k]); A[i][j]=std::exp(-s)+(i==j?epsilon:0); }
	long double low=1e300L;
	for(size_t k=0;k<n;k++){ long double p=A[k][k]; low=std::min(low,p); if(p<=0) return (double)p; for(size_t i=k+1;i<n;i++){ long double f=A[i][k]/p; for(size_t j=k+1;j<n;j++) A[i][j]-=f*A[k][j]; } }
	return (double)low;
}
// concentrated likelihood by the same factorization (nan if its variance is not positive)
static double likelihood(const vector<vector<double>>& X, const vector<double>& y, const vector<double>& h){
	size_t n=X.size(), d=h.size()/2; vector<vector<long double>> A(n,vector<long double>(n+2));
	for(size_t i=0;i<n;i++){ for(size_t j=0;j<n;j++){ long double s=0; for(size_t k=0;k<d;k++) s+=h[k]*std::pow(std::fabs((long double)X[i][k]-X[j][k]),(long double)h[d+k]); A[i][j]=std::exp(-s)+(i==j?epsilon:0); } A[i][n]=y[i]; A[i][n+1]=1; }
	long double ld=0, yy=0, y1=0, oo=0;
	for(size_t k=0;k<n;k++){ long double p=A[k][k]; if(p<=0) return std::nan(""); ld+=std::log(p); yy+=A[k][n]*A[k][n]/p; y1+=A[k][n]*A[k][n+1]/p; oo+=A[k][n+1]*A[k][n+1]/p;
		for(size_t i=k+1;i<n;i++){ long double f=A[i][k]/p; for(size_t j=k+1;j<n+2;j++) A[i][j]-=f*A[k][j]; } }
	long double s=(yy-y1*y1/oo)/n; if(!(s>1e-14L*(yy/n))) return std::nan("");
	return (double)(-(n/2.0L)*std::log(s)-0.5L*ld);
}
static string js(const mat& a){ string s="["; for(unsigned i=0;i<a.getNRows();i++){ vector<double> r; for(unsigned j=0;j<a.getNCols();j++) r.push_back(a(i,j)); s+=(i?",":"")+vh::arr(r); } return s+"]"; }
static string js(const vec& a){ vector<double> r; for(unsigned i=0;i<a.getSize();i++) r.push_back(a(i)); return vh::arr(r); }
static string dataOf(Opened& o){ return "{\"raw\":"+js(o.data.getRawData())+",\"X\":"+js(o.data.getInputMatrix())+",\"y\":"+js(o.data.getOutputVector())+",\"n\":"+std::to_string(o.data.getNumberOfSamples())+",\"nv\":"+std::to_string(o.data.getNumberOfSamplesValidation())+"}"; }

int main(int argc,char**argv){
	if(argc<3) return 2;
	trace.open(argv[2]); std::ifstream in(argv[1]); string line;
	std::cerr.setstate(std::ios::failbit);
	verif::sink=hook;
	std::unique_ptr<Opened> o; unsigned d=1; bool valid=false; std::mt19937 rng(7);
	while(std::getline(in,line)){
		std::istringstream s(line); string op; s>>op; bool ok=true; string extra;
		try{
			if(op=="S"){ trace.line("{\"e\":\"start\"}"); continue; }
			if(op=="model"){ o.reset(new Opened()); s>>d; o->setDimension(d); ::unlink("hyper.csv"); fakes.clear(); order.clear(); valid=false; epsilon=0; o->setNameOfHyperParametersFile("hyper.csv"); }
			else if(op=="epsilon"){ s>>epsilon; o->setEpsilon(epsilon); }
			else if(op=="linear") o->setLinearRegressionOn();
			else if(op=="valid"){ double r; s>>r; o->setRatioValidationSamples(r); valid=true; }
			else if(op=="threads"){ unsigned k; s>>k; o->setNumberOfThreads(k); expected=k; }
			else if(op=="iters"){ unsigned k; s>>k; o->setNumberOfTrainingIterations(k); }
			else if(op=="rows"){ unsigned n; s>>n; std::ofstream f("train.csv"); for(unsigned i=0;i<n;i++) for(unsigned j=0;j<=d;j++){ string v; s>>v; f<<v<<(j<d?",":"\n"); } }
			else if(op=="box"){ lb.resize(d); ub.resize(d); for(auto& v:lb) s>>v; for(auto& v:ub) s>>v; }
			else if(op=="setup"){ o->setNameOfInputFile("train.csv"); Bounds b(d); vec l(d),u(d); for(unsigned i=0;i<d;i++){ l(i)=lb[i]; u(i)=ub[i]; } b.setBounds(l,u); o->setBoxConstraints(b); o->readData(); o->normalizeData(); o->initializeSurrogateModel(); }
			else if(op=="reinit") o->initializeSurrogateModel();
			else if(op=="update") o->updateModelWithNewData();
			else if(op=="add"){ vec v(d+1); for(unsigned i=0;i<=d;i++) s>>v(i); o->addNewSampleToData(v); }
			else if(op=="write"){ int k; s>>k; o->setWriteWarmStartFileFlag(k); }
			else if(op=="read"){ int k; s>>k; o->setReadWarmStartFileFlag(k); }
			else if(op=="plan"){ size_t n; s>>n; fakes.resize(n); for(auto& v:fakes){ string t; s>>t; v=std::stod(t); } s>>n; order.resize(n); for(auto& v:order) s>>v; }
			else if(op=="train"){
				KrigingModel ref=*o; string before=dataOf(*o); vector<vector<double>> X; mat XM=o->data.getInputMatrix(); for(unsigned i=0;i<XM.getNRows();i++){ vector<double> r; for(unsigned j=0;j<d;j++) r.push_back(XM(i,j)); X.push_back(r); }
				vector<double> Y; vec YV=o->data.getOutputVector(); for(unsigned i=0;i<YV.getSize();i++) Y.push_back(YV(i)); bool same=epsilon==0 && X.size()>1 && X[0]==X[1];
				auto own=[&](const vector<double>& h){ return valid? std::nan(""): -1.0*likelihood(X,Y,h); };
				slots.clear(); trained.clear(); turn=0; training=true; bool faked=!fakes.empty();
				vec hb=o->getHyperParameters(); string start=js(hb);
				try{ o->train(); } catch(...){ training=false; throw; }
				training=false;
				extra=",\"faked\":"+string(faked?"true":"false")+",\"start\":"+start+",\"before\":"+before+",\"final\":"+js(o->getHyperParameters())+",\"hyper\":"+vh::str(vh::slurp("hyper.csv"))+",\"slots\":[";
				auto truth=[&](const vector<double>& h){ vec x((unsigned)h.size()); for(size_t i=0;i<h.size();i++) x(i)=h[i]; return valid? ref.calculateValidationErrorForGivenHyperparameters(x): -1.0*ref.calculateLikelihoodFunction(x); };
				for(size_t k=0;k<slots.size();k++){
					Slot& q=slots[k]; extra+=(k?",":"")+string("{\"value\":")+vh::num(q.value)+",\"genes\":"+vh::arr(q.genes)+",\"count\":"+std::to_string(q.count)+",\"truth\":"+(faked?"null":vh::num(truth(q.genes)))+",\"cands\":[";
					vector<std::pair<double,vector<double>>> c; std::istringstream h(q.history); string r; std::getline(h,r);
					while(std::getline(h,r)){ vector<double> f; std::istringstream t(r); string w; while(std::getline(t,w,',')) f.push_back(std::strtod(w.c_str(),nullptr)); if(f.size()==5+2*d) c.push_back({f[1],vector<double>(f.begin()+5,f.end())}); }
					std::shuffle(c.begin(),c.end(),rng);
					std::stable_partition(c.begin(),c.end(),[](const std::pair<double,vector<double>>& a){ return a.first>=1e300; });
					size_t fails=0; bool first=true; size_t shown=0; double least=std::numeric_limits<double>::infinity();
					for(auto& a:c){ least=std::min(least,a.first); bool f=a.first>=1e300; if(f) fails++; if((f && fails>4) || shown>=12 || faked) continue; shown++; extra+=(first?"":",")+string("[")+vh::num(a.first)+","+vh::num(truth(a.second))+","+vh::num(pivot(X,a.second))+","+vh::num(own(a.second))+"]"; first=false; }
					extra+="],\"least\":"+vh::num(least)+",\"failing\":"+std::to_string(fails)+",\"pivot\":"+vh::num(pivot(X,q.genes))+",\"own\":"+vh::num(own(q.genes))+"}";
				}
				extra+="],\"same\":"+string(same?"true":"false")+",\"trained\":["; for(size_t k=0;k<trained.size();k++) extra+=(k?",":"")+vh::arr(trained[k]); extra+="]";
				fakes.clear(); order.clear();
			}
		} catch(std::exception& e){ ok=false; extra+=",\"what\":"+vh::str(e.what()); }
		string after="null"; if(o && o->data.isDataRead()) after=dataOf(*o);
		trace.line("{\"e\":\"op\",\"op\":"+vh::str(op)+",\"ok\":"+(ok?"true":"false")+extra+",\"data\":"+after+"}");
	}
	return 0;
}
