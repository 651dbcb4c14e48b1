// Runs the optimizer on a scenario with scripted objective and constraint values and
// records what it does.  usage: ego SCENARIO TRACE   (current directory = run directory)
#define VH_SEED
#include "common.hpp"
#include "Optimizers/INCLUDE/optimization.hpp"
#include "INCLUDE/verif_hooks.hpp"
#include <unistd.h>
#include <omp.h>
#include <dlfcn.h>
#include <sys/uio.h>
#include <cstring>
#include <chrono>

using namespace Rodop;

struct Scenario {
	unsigned dim=1, budget=1, inner=40, retrain=100000, trainIters=50, threads=1, ascent=5;
	std::vector<double> lb, ub;
	struct Con { std::string name, op; double thr; std::vector<double> script; int udf=0; };
	std::vector<Con> cons;
	std::vector<std::pair<unsigned,double>> disc;
	std::vector<double> script;
	std::vector<std::string> names;
	double scale=1, conScale=1;
	std::string objName="objective";
	std::string crash;      // "call:f:n" or "event:name:n": die there
	std::string model="ORDINARY_KRIGING";
	bool candidates=false;  // log inner-search candidates
	bool snapshots=true;
	int func=0;             // 0: scripted, else built-in function
	int thrownAt=-1; int thrownFn=-2;
	struct Known { int f; std::vector<double> x; double v; };
	std::vector<Known> known;   // a function has one value per design
	bool noisy=false;           // unless it is noisy
} sc;

static std::vector<unsigned long> calls(16,0);
static std::string snapshot(){
	if(!sc.snapshots) return "";
	std::string s=",\"files\":{";
	s+="\"history\":"+vh::str(vh::slurp("optimizationHistory.csv"))+",\"xml\":"+vh::str(vh::slurp("globalOptimalDesign.xml"));
	s+=",\"data\":["+vh::str(vh::slurp("objective.csv"));
	for(size_t c=0;c<sc.cons.size();c++) s+=","+vh::str(vh::slurp("con"+std::to_string(c)+".csv"));
	return s+"]}";
}
static void maybeDie(const std::string& what){ if(!sc.crash.empty() && sc.crash==what) _exit(137); }

static double builtin(int f, const double* x){
	// piecewise constant integer-valued functions of the design, so that ties and plateaus occur
	double s=0; for(unsigned i=0;i<sc.dim;i++){ double t=(x[i]-sc.lb[i])/(sc.ub[i]-sc.lb[i]); s += std::pow(t-0.15*(f+2)-0.1*i,2); }
	return std::floor(s*60) - 5;
}
static double call(int f, const double* x){
	unsigned long n = calls[f+1]++;
	maybeDie("call:"+std::to_string(f)+":"+std::to_string(n));
	double v;
	const std::vector<double>& script = f<0 ? sc.script : sc.cons[f].script;
	if(sc.func) v = builtin(f,x);
	else if(n < script.size()) v = script[n];
	else v = script.empty()? 0.0 : script[n % script.size()];
	double out = v*(f<0? sc.scale: sc.conScale);
	bool isKnown=false;
	if(!sc.noisy) for(auto& k: sc.known) if(k.f==f){
		bool same=true; for(unsigned i=0;i<sc.dim;i++) if(std::fabs(k.x[i]-x[i])>1e-9*(1+std::fabs(x[i]))) same=false;
		if(same){ out=k.v; isKnown=true; break; }
	}
	if(!isKnown) sc.known.push_back({f,std::vector<double>(x,x+sc.dim),out});
	vh::trace.line("{\"e\":\"call\",\"f\":"+std::to_string(f)+",\"x\":"+vh::arr(x,sc.dim)+",\"v\":"+vh::num(out)+(f<0? snapshot():std::string())+"}");
	if(f==sc.thrownFn && (int)n==sc.thrownAt) throw std::runtime_error("scripted failure");
	return out;
}
static double objective(const double* x){ return call(-1,x); }
template<int F> static double constraint(const double* x){ return call(F,x); }
static ObjectiveFunctionPtr conPtr[]={constraint<0>,constraint<1>,constraint<2>,constraint<3>};

static void readScenario(const char* file){
	std::ifstream in(file); std::string l;
	while(std::getline(in,l)){
		std::istringstream s(l); std::string k; s>>k; double d;
		auto list=[&](std::vector<double>& v){ while(s>>d) v.push_back(d); };
		if(k=="dim") s>>sc.dim; else if(k=="budget") s>>sc.budget; else if(k=="inner") s>>sc.inner;
		else if(k=="retrain") s>>sc.retrain; else if(k=="trainiters") s>>sc.trainIters; else if(k=="threads") s>>sc.threads;
		else if(k=="ascent") s>>sc.ascent; else if(k=="lb") list(sc.lb); else if(k=="ub") list(sc.ub);
		else if(k=="con"){ Scenario::Con c; s>>c.name>>c.op>>c.thr; sc.cons.push_back(c); }
		else if(k=="conscript"){ unsigned i; s>>i; list(sc.cons.at(i).script); }
		else if(k=="script") list(sc.script);
		else if(k=="disc"){ unsigned i; s>>i>>d; sc.disc.push_back({i,d}); }
		else if(k=="name"){ std::string n; s>>n; sc.names.push_back(n); }
		else if(k=="scale") s>>sc.scale; else if(k=="conscale") s>>sc.conScale; else if(k=="crash") s>>sc.crash;
		else if(k=="objname") s>>sc.objName;
		else if(k=="model") s>>sc.model; else if(k=="candidates") s>>sc.candidates; else if(k=="func") s>>sc.func;
		else if(k=="snapshots") s>>sc.snapshots; else if(k=="noisy") s>>sc.noisy;
		else if(k=="known"){ Scenario::Known n; s>>n.f; list(n.x); n.v=n.x.back(); n.x.pop_back(); sc.known.push_back(n); }
		else if(k=="throw") { s>>sc.thrownFn>>sc.thrownAt; }
	}
}

// Schedule perturbation: delay threads on their way into a critical section ("delay"), or let
// them leave the computation of a candidate at the same moment ("meet").
static bool perturb=false, meet=false;
static void delay(){ if(perturb){ static thread_local std::mt19937 g(std::random_device{}()); usleep(g()%400); } }
extern "C" void GOMP_critical_start(void){
	static void (*real)(void)=(void(*)(void))dlsym(RTLD_NEXT,"GOMP_critical_start");
	delay(); real();
}
extern "C" void GOMP_critical_name_start(void** p){
	static void (*real)(void**)=(void(*)(void**))dlsym(RTLD_NEXT,"GOMP_critical_name_start");
	delay(); real(p);
}
extern "C" void omp_set_lock(omp_lock_t* p) noexcept {
	static void (*real)(omp_lock_t*)=(void(*)(omp_lock_t*))dlsym(RTLD_NEXT,"omp_set_lock");
	delay(); real(p);
}
static std::atomic<unsigned> arrived{0};
static void rendezvous(){
	unsigned n=(unsigned)omp_get_num_threads(); if(n<2) return;
	unsigned mine=arrived++, goal=(mine/n+1)*n;
	auto end=std::chrono::steady_clock::now()+std::chrono::microseconds(300);
	while(arrived.load()<goal && std::chrono::steady_clock::now()<end) ;
}

// Death at the N-th operation on a file of the run (VERIF_KILL=write:N): the process ends
// right before it opens the file for writing, removes or renames it, or writes to it.
static long killAt=0; static std::atomic<long> fileOps{0};
static bool ownFile(const char* n){
	std::string s=n? n: ""; auto ends=[&](const char* e){ std::string x=e; return s.size()>=x.size() && s.compare(s.size()-x.size(),x.size(),x)==0; };
	return ends(".csv")||ends(".xml")||ends(".dat")||ends(".tmp");
}
static void fileOp(const char* n){ if(killAt>0 && ownFile(n) && ++fileOps==killAt) _exit(137); }
static void fileOp(int fd){
	if(killAt<=0) return;
	char l[64],b[512]; std::snprintf(l,sizeof l,"/proc/self/fd/%d",fd); ssize_t n=readlink(l,b,sizeof b-1);
	if(n>0){ b[n]=0; fileOp(b); }
}
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT,#name))
extern "C" FILE* fopen64(const char* n,const char* m){ static auto r=REAL(fopen64); if(m[0]!='r') fileOp(n); return r(n,m); }
extern "C" FILE* fopen(const char* n,const char* m){ static auto r=REAL(fopen); if(m[0]!='r') fileOp(n); return r(n,m); }
extern "C" ssize_t write(int fd,const void* b,size_t n){ static auto r=REAL(write); fileOp(fd); return r(fd,b,n); }
extern "C" ssize_t writev(int fd,const struct iovec* v,int n){ static auto r=REAL(writev); fileOp(fd); return r(fd,v,n); }
extern "C" int rename(const char* a,const char* b) noexcept { static auto r=REAL(rename); fileOp(b); return r(a,b); }
extern "C" int remove(const char* a) noexcept { static auto r=(int(*)(const char*))dlsym(RTLD_NEXT,"remove"); fileOp(a); return r(a); }
extern "C" int unlink(const char* a) noexcept { static auto r=REAL(unlink); fileOp(a); return r(a); }

int main(int argc,char**argv){
	if(argc<3) return 3;
	if(const char* k=std::getenv("VERIF_KILL")) if(std::strncmp(k,"write:",6)==0) killAt=std::atol(k+6);
	readScenario(argv[1]);
	vh::trace.open(argv[2]);
	if(const char* p=std::getenv("VERIF_PERTURB")){ perturb=p[0]=='d'; meet=p[0]=='m'; }
	static std::map<std::string,unsigned long> seen; static std::mutex seenLock;
	verif::sink=[](const char* name,const verif::Fields& f){
		std::string n=name;
		if(n=="candidate" && !sc.candidates) return;
		if(n=="candidate"){
			std::string s="{\"e\":\"candidate\"";
			for(auto& p: f) s+=",\""+std::string(p.first)+"\":"+vh::arr(p.second);
			vh::trace.line(s+",\"thread\":"+std::to_string(omp_get_thread_num())+"}");
			if(meet) rendezvous();
			return;
		}
		std::string s="{\"e\":"+vh::str(n);
		for(auto& p: f) s+=",\""+std::string(p.first)+"\":"+vh::arr(p.second);
		if(n=="recorded"||n=="initialized") s+=snapshot();
		vh::trace.line(s+"}");
		unsigned long k; { std::lock_guard<std::mutex> g(seenLock); k=seen[n]++; }
		maybeDie("event:"+n+":"+std::to_string(k));
	};
	int status=0; std::string what;
	try{
		Optimizer opt("study",sc.dim);
		opt.setAPIUseOn();
		ObjectiveFunction obj; obj.setDimension(sc.dim); obj.setFunctionPtr(objective);
		ObjectiveFunctionDefinition d; d.name=sc.objName; d.nameHighFidelityTrainingData="objective.csv";
		if(sc.model=="UNIVERSAL_KRIGING") d.modelHiFi=UNIVERSAL_KRIGING;
		obj.setParametersByDefinition(d);
		obj.setNumberOfTrainingIterationsForSurrogateModel(sc.trainIters);
		opt.addObjectFunction(obj);
		for(size_t c=0;c<sc.cons.size();c++){
			ConstraintFunction con; con.setDimension(sc.dim); con.setFunctionPtr(conPtr[c]);
			ObjectiveFunctionDefinition cd; cd.name=sc.cons[c].name; cd.nameHighFidelityTrainingData="con"+std::to_string(c)+".csv";
			if(sc.model=="UNIVERSAL_KRIGING") cd.modelHiFi=UNIVERSAL_KRIGING;
			con.setParametersByDefinition(cd);
			ConstraintDefinition def; def.constraintName=sc.cons[c].name; def.inequalityType=sc.cons[c].op; def.value=sc.cons[c].thr*sc.conScale; def.ID=(int)c;
			con.setConstraintDefinition(def);
			con.setNumberOfTrainingIterationsForSurrogateModel(sc.trainIters);
			opt.addConstraint(con);
		}
		Bounds b(sc.dim); vec lb(sc.dim),ub(sc.dim); for(unsigned i=0;i<sc.dim;i++){ lb(i)=sc.lb[i]; ub(i)=sc.ub[i]; }
		b.setBounds(lb,ub);
		opt.setBoxConstraints(b);
		if(!sc.names.empty()) opt.setParameterNames(sc.names);
		for(auto& p: sc.disc) opt.setParameterToDiscrete(p.first,p.second);
		opt.setMaximumNumberOfIterations(sc.budget);
		opt.setMaximumNumberOfInnerIterations(sc.inner);
		opt.setNumberOfThreads(sc.threads);
		opt.setHowOftenTrainModels(sc.retrain);
		opt.iterGradientEILoop=sc.ascent;
		opt.performEfficientGlobalOptimization();
	}catch(const std::exception& e){ status=1; what=e.what(); }
	vh::trace.line("{\"e\":\"end\",\"status\":"+std::to_string(status)+",\"what\":"+vh::str(what)+snapshot()+"}");
	return 0;
}
