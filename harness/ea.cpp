// Runs scripted operations on the evolutionary optimizer and on populations and records what they do.
// usage: ea SCRIPT TRACE    "S kind name" starts a sequence ("optimizer" or "population"), every other line is an operation.
#define VH_SEED
#include "common.hpp"
#include "InternalOptimizers/INCLUDE/ea_optimizer.hpp"
#include "InternalOptimizers/INCLUDE/ea_population.hpp"
#include <cstring>
#include <memory>
#include <unistd.h>
using namespace Rodop;
using std::string; using std::vector;
using vh::trace;

static vector<double> values(1,0.0);
static vector<double> lower, upper;
static long throwAt=0, count=0;
static unsigned initial=0, births=0; static bool warm=false, optimizing=false;
static std::function<void()> snapshot;

static double objective(const double* x, unsigned n){
	if(optimizing){
		long c=count-(warm?0:(long)initial);
		if(c>=0 && births>0 && c%births==0) snapshot();
	}
	count++;
	if(throwAt && count==throwAt){ trace.line("{\"e\":\"thrown\"}"); throw std::runtime_error("evaluation"); }
	unsigned long long h=1469598103934665603ull;
	for(unsigned i=0;i<n;i++){ unsigned long long b; std::memcpy(&b,x+i,8); for(int k=0;k<8;k++){ h^=(b>>(8*k))&255; h*=1099511628211ull; } }
	double v=values[(h>>20)%values.size()];
	bool in=n==lower.size();
	for(unsigned i=0;in && i<n;i++) in = x[i]>=lower[i] && x[i]<=upper[i];
	trace.line("{\"e\":\"eval\",\"x\":"+vh::arr(x,n)+",\"v\":"+vh::num(v)+",\"in\":"+(in?"true":"false")+"}");
	return v;
}
static unsigned dimension=0;
static double plain(double* x){ return objective(x,dimension); }
struct Optimizer : EAOptimizer {
	double calculateObjectiveFunctionInternal(const vec& x) override { return objective(x.getPointer(),x.getSize()); }
};
struct Capture { std::ostringstream o; std::streambuf* b; Capture(){ b=std::cout.rdbuf(o.rdbuf()); } ~Capture(){ std::cout.rdbuf(b); } };

static string state(Optimizer& a, const string& file){
	string csv, text, sol="null";
	a.setFilenameWarmStart("state.csv");
	try{ a.writeWarmRestartFile(); csv=vh::slurp("state.csv"); } catch(std::exception&){ csv="?"; }
	if(file.size()) a.setFilenameWarmStart(file);
	{ Capture c; a.printPopulation(); text=c.o.str(); }
	try{ EAIndividual b=a.getSolution(); vec g=b.getGenes(), g2=a.getBestDesignVector(); bool same=g.getSize()==g2.getSize(); for(unsigned i=0;same&&i<g.getSize();i++) same=g(i)==g2(i);
		sol="{\"id\":"+std::to_string(b.getId())+",\"v\":"+vh::num(b.getObjectiveFunctionValue())+",\"v2\":"+vh::num(a.getBestObjectiveFunctionValue())+",\"x\":"+vh::arr(g.getPointer(),g.getSize())+",\"same\":"+(same?"true":"false")+"}"; } catch(std::exception&){}
	return "\"size\":"+std::to_string(a.getPopulationSize())+",\"csv\":"+vh::str(csv)+",\"text\":"+vh::str(text.substr(0,text.find("---")))+",\"sol\":"+sol;
}
static void damage(const string& f, const string& how){
	if(how=="delete"){ ::unlink(f.c_str()); return; }
	string s=vh::slurp(f); vector<string> l; std::istringstream in(s); string r; while(std::getline(in,r)) l.push_back(r);
	if(how=="headless") l.clear();
	if(l.size()>1){ string& q=l[1+(l.size()-1)/2];
		if(how=="cut") q=q.substr(0,q.rfind(','));
		if(how=="extra") q+=",1.5";
		if(how=="text") q=q.substr(0,q.rfind(',')+1)+"x";
		if(how=="empty") q=q.substr(0,q.rfind(',')+1);
	}
	std::ofstream o(f); for(auto& q:l) o<<q<<"\n";
}

static void optimizerOp(std::unique_ptr<Optimizer>& p, string& file, std::istringstream& s, const string& line){
	string op; s>>op; bool ok=true; string extra;
	if(op=="new"){ p.reset(new Optimizer()); ::unlink("a.csv"); ::unlink("b.csv"); file=""; lower.clear(); upper.clear(); throwAt=0; count=0; initial=births=0; warm=false; int plainFn; s>>plainFn; s>>dimension; p->setDimension(dimension); if(plainFn) p->setObjectiveFunction(plain); }
	Optimizer& a=*p;
	snapshot=[&](){ trace.line("{\"e\":\"snap\","+state(a,file)+"}"); };
	long now=count; bool counted=false;
	try{
		Capture c;
		if(op=="values"){ size_t n; s>>n; values.resize(n); for(auto& v:values) s>>v; }
		else if(op=="throw"){ s>>throwAt; throwAt+=count; }
		else if(op=="box"){ int kind; s>>kind; unsigned n; s>>n; vector<double> l(n),u(n); for(auto& v:l) s>>v; for(auto& v:u) s>>v;
			if(kind==0) a.setBounds(l.at(0),u.at(0));
			else if(kind==1) a.setBounds(l,u);
			else { vec L(n),U(n); for(unsigned i=0;i<n;i++){ L(i)=l[i]; U(i)=u[i]; } a.setBounds(L,U); }
			if(kind==0){ l.assign(dimension,l[0]); u.assign(dimension,u[0]); }
			lower=l; upper=u; }
		else if(op=="mut"){ double v; s>>v; a.setMutationProbability(v); }
		else if(op=="size"){ unsigned v; s>>v; a.setInitialPopulationSize(v); initial=v; }
		else if(op=="births"){ unsigned v; s>>v; a.setNumberOfNewIndividualsInAGeneration(v); births=v; }
		else if(op=="deaths"){ unsigned v; s>>v; a.setNumberOfDeathsInAGeneration(v); }
		else if(op=="gens"){ unsigned v; s>>v; a.setNumberOfGenerations(v); }
		else if(op=="max"){ unsigned v; s>>v; a.setMaximumNumberOfGeneratedIndividuals(v); }
		else if(op=="warm"){ int v; s>>v; if(v) a.setWarmStartOn(); else a.setWarmStartOff(); warm=v; }
		else if(op=="display"){ int v; s>>v; a.ifDisplay=v; }
		else if(op=="file"){ string f; s>>f; a.setFilenameWarmStart(f); file=f; }
		else if(op=="damage"){ string f,how; s>>f>>how; damage(f,how); }
		else if(op=="init"){ count=0; counted=true; if(throwAt) throwAt-=now; a.initializePopulation(); }
		else if(op=="add") a.addNewIndividualsToPopulation();
		else if(op=="remove") a.removeIndividualsFromPopulation();
		else if(op=="gen") a.generateANewGeneration();
		else if(op=="opt"){ optimizing=true; count=0; counted=true; if(throwAt) throwAt-=now; a.optimize(); }
		else if(op=="save") a.writeWarmRestartFile();
		else if(op=="load") a.readWarmRestartFile();
		else if(op=="reset") a.resetPopulation();
		else if(op=="hist"){ a.writeHistoryPopulationToCSV("history.csv"); extra=",\"hist\":"+vh::str(vh::slurp("history.csv")); }
	} catch(std::exception& e){ ok=false; extra+=",\"why\":"+vh::str(e.what()); }
	(void)counted; optimizing=false;
	if(op!="throw") throwAt=0;
	trace.line("{\"e\":\"op\",\"op\":"+vh::str(op)+",\"ok\":"+(ok?"true":"false")+extra+","+state(a,file)+"}");
}

static EAIndividual person(unsigned dim, unsigned id, double J){ EAIndividual a(dim); a.setId(id); a.setObjectiveFunctionValue(J); return a; }
static void populationOp(std::unique_ptr<EAPopulation>& p, std::istringstream& s){
	string op; s>>op; bool ok=true; long result=0;
	if(op=="new"){ p.reset(new EAPopulation()); unsigned d; s>>d; p->setDimension(d); dimension=d; }
	EAPopulation& a=*p;
	try{
		Capture c;
		if(op=="add"){ unsigned id,d; double J; s>>d>>id>>J; a.addIndividual(person(d,id,J)); }
		else if(op=="group"){ unsigned n; s>>n; vector<EAIndividual> g; for(unsigned i=0;i<n;i++){ unsigned id; double J; s>>id>>J; g.push_back(person(dimension,id,J)); } a.addAGroupOfIndividuals(g); }
		else if(op=="removeAt"){ unsigned k; s>>k; a.removeIndividual(k); }
		else if(op=="removeId"){ unsigned k; s>>k; a.removeIndividualById(k); }
		else if(op=="reset") a.reset();
		else if(op=="minmax") a.updatePopulationMinAndMax();
		else if(op=="update") a.updatePopulationProperties();
		else if(op=="largest") result=a.getLargestId();
		else if(op=="order"){ unsigned k; s>>k; result=a.getIndividualOrderInPopulationById(k); }
		else if(op=="get"){ unsigned k; s>>k; EAIndividual b=a.getIndividual(k); result=b.getId(); }
		else if(op=="repeated") result=a.hasRepeatedIDs();
		else if(op=="die"){ result=a.pickUpAnIndividualThatWillDie().getId(); }
		else if(op=="parents"){ auto q=a.generateRandomParents(); result=q.first.getId(); if(q.first.getId()==q.second.getId() || a.getIndividualOrderInPopulationById(q.second.getId())<0) result=-7; }
	} catch(std::exception& e){ ok=false; }
	string pop="["; for(unsigned i=0;i<a.getSize();i++){ unsigned id=a.getIdOftheIndividual(i); if(i) pop+=","; pop+="["+std::to_string(id)+","+std::to_string((long)std::nearbyint(a.getIndividual(id).getObjectiveFunctionValue()))+"]"; } pop+="]";
	auto who=[&](int w){ try{ EAIndividual b= w? a.getTheWorstIndividual(): a.getTheBestIndividual(); return (long)b.getId(); } catch(std::exception&){ return -1L; } };
	long best=who(0), worst=who(1);
	string text; { Capture c; a.print(); text=c.o.str(); }
	trace.line("{\"e\":\"op\",\"op\":"+vh::str(op)+",\"ok\":"+(ok?"true":"false")+",\"result\":"+std::to_string(result)+",\"pop\":"+pop+",\"best\":"+std::to_string(best)+",\"worst\":"+std::to_string(worst)+",\"text\":"+vh::str(text.substr(0,text.find("---")))+"}");
}

int main(int argc, char** argv){
	if(argc<3) return 2;
	trace.open(argv[2]);
	std::ifstream in(argv[1]); string line, kind;
	std::unique_ptr<Optimizer> o; std::unique_ptr<EAPopulation> p; string file;
	std::cerr.setstate(std::ios::failbit);
	while(std::getline(in,line)){
		std::istringstream s(line);
		if(line.compare(0,2,"S ")==0){ string x; s>>x>>kind; trace.line("{\"e\":\"start\"}"); continue; }
		if(kind=="optimizer") optimizerOp(o,file,s,line); else populationOp(p,s);
	}
	return 0;
}
