// Performs sequences of operations on sample data (SurrogateModelData) and on a model with its data (KrigingModel)
// and records everything that can be observed after each of them.
// usage: data SCRIPT TRACE      "T id model(0|1)" starts a sequence; every sequence runs in a process of its own.
#define VH_SEED
#include "common.hpp"
#include "SurrogateModels/INCLUDE/kriging_training.hpp"
#include "SurrogateModels/INCLUDE/surrogate_model_data.hpp"
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
using namespace Rodop;
using std::string;

static string unhex(const string& h){ string r; for(size_t i=1;i+1<h.size();i+=2) r+=(char)std::stoi(h.substr(i,2),nullptr,16); return r; }
static string js(const vec& v){ std::vector<double> r; for(unsigned i=0;i<v.getSize();i++) r.push_back(v(i)); return vh::arr(r); }
static string js(const mat& m){ string s="["; for(unsigned i=0;i<m.getNRows();i++){ if(i) s+=","; s+=js(m.getRow(i)); } return s+"]"; }
static string js(bool b){ return b?"true":"false"; }
static string N(double d){ return vh::num(d); }
static vec vecOf(std::istringstream& s){ unsigned n; s>>n; vec v(n); for(unsigned i=0;i<n;i++) s>>v(i); return v; }
static vec vecOf(std::istringstream& s, unsigned n){ vec v(n); for(unsigned i=0;i<n;i++) s>>v(i); return v; }
static Bounds boxOf(std::istringstream& s){ unsigned n; s>>n; vec l=vecOf(s,n), u=vecOf(s,n); return Bounds(l,u); }
static void fileOf(std::istringstream& s, const char* name){
	string k; s>>k; std::remove(name);
	if(k=="missing") return;
	std::ofstream f(name);
	if(k=="raw"){ string h; s>>h; f<<unhex(h); return; }
	unsigned nr,nc; string v; s>>nr>>nc;
	for(unsigned i=0;i<nr;i++) for(unsigned j=0;j<nc;j++){ s>>v; f<<v<<(j+1<nc?",":"\n"); }
}

struct Opened : KrigingModel { using KrigingModel::data; };

static bool same(const vec& a,const vec& b){ if(a.getSize()!=b.getSize()) return false; for(unsigned i=0;i<a.getSize();i++) if(!(a(i)==b(i))) return false; return true; }
static string observe(const SurrogateModelData& d){
	string o="\"dim\":"+N(d.getDimension())+",\"read\":"+js(d.isDataRead())+",\"norm\":"+js(d.isDataNormalized())+",\"n\":"+N(d.getNumberOfSamples())+",\"nv\":"+N(d.getNumberOfSamplesValidation());
	bool rows=true;
	if(d.isDataRead()){
		mat raw=d.getRawData(), X=d.getInputMatrix(); std::vector<vec> xr;
		for(unsigned i=0;i<raw.getNRows();i++) rows = rows && same(raw.getRow(i),d.getRowRawData(i));
		string xs="[";
		for(unsigned i=0;i<X.getNRows();i++){ rows = rows && same(X.getRow(i),d.getRowX(i)); if(i) xs+=","; xs+=js(d.getRowXRaw(i)); }
		vec y=d.getOutputVector();
		if(y.getSize()>0){ double lo=y(0),hi=y(0); for(unsigned i=0;i<y.getSize();i++){ lo=std::min(lo,y(i)); hi=std::max(hi,y(i)); } rows = rows && lo==d.getMinimumOutputVector() && hi==d.getMaximumOutputVector(); }
		o+=",\"raw\":"+js(raw)+",\"X\":"+js(X)+",\"xraw\":"+xs+"],\"y\":"+js(y);
		o+=",\"XV\":"+js(d.getInputMatrixValidation())+",\"yV\":"+js(d.getOutputVectorValidation());
		mat g=d.getGradientMatrix(); o+=",\"grad\":"+js(g);
		for(unsigned i=0;i<g.getNRows();i++) rows = rows && same(g.getRow(i),d.getRowGradient(i));
		vec dv=d.getDirectionalDerivativesVector(); o+=",\"dirv\":"+js(dv)+",\"dirs\":[";
		for(unsigned i=0;i<dv.getSize();i++) o+=string(i?",":"")+js(d.getRowDifferentiationDirection(i));
		o+="]";
	}
	o+=",\"tread\":"+js(d.ifTestDataIsRead)+",\"tval\":"+js(d.ifTestDataHasFunctionValues)+",\"nt\":"+N(d.getNumberOfSamplesTest());
	if(d.ifTestDataIsRead){
		mat T=d.getInputMatrixTest(); o+=",\"XT\":"+js(T)+",\"yT\":"+(d.ifTestDataHasFunctionValues? js(d.getOutputVectorTest()): string("[]"))+",\"xtraw\":[";
		for(unsigned i=0;i<T.getNRows();i++){ rows = rows && same(T.getRow(i),d.getRowXTest(i)); o+=string(i?",":"")+js(d.getRowXRawTest(i)); }
		o+="]";
	}
	Bounds b=d.getBoxConstraints(); o+=",\"box\":"+(b.areBoundsSet()? "["+js(b.getLowerBounds())+","+js(b.getUpperBounds())+"]": string("[]"));
	return o+",\"rows\":"+js(rows);
}

static void onAbort(int){ vh::trace.line("{\"r\":\"abort\"}"); _exit(0); }

static void perform(const std::vector<string>& lines, bool isModel){
	std::signal(SIGABRT,onAbort); std::signal(SIGSEGV,SIG_DFL);
	std::remove("data.csv"); std::remove("test.csv");
	SurrogateModelData data; Opened model;
	for(const string& l: lines){
		std::istringstream s(l); string op; s>>op; bool ok=true; string extra;
		SurrogateModelData& d = isModel? model.data: data;
		try{
			if(op=="dim"){ unsigned n; s>>n; if(isModel) model.setDimension(n); else d.setDimension(n); }
			else if(op=="grad") d.setGradientsOn();
			else if(op=="dir") d.setDirectionalDerivativesOn();
			else if(op=="ratio"){ double v; s>>v; if(isModel) model.setRatioValidationSamples(v); else d.setValidationRatio(v); }
			else if(op=="box"){ Bounds b=boxOf(s); if(isModel) model.setBoxConstraints(b); else d.setBoxConstraints(b); }
			else if(op=="name") model.setNameOfInputFile("data.csv");
			else if(op=="linear") model.setLinearRegressionOn();
			else if(op=="file") fileOf(s,"data.csv");
			else if(op=="read"){ if(isModel) model.readData(); else { fileOf(s,"data.csv"); d.readData("data.csv"); } }
			else if(op=="normalize"){ if(isModel) model.normalizeData(); else d.normalize(); }
			else if(op=="revert") d.revertBackToFullData();
			else if(op=="sety"){ vec v=vecOf(s); d.setOutputVector(v); }
			else if(op=="readtest"){ fileOf(s,"test.csv"); if(isModel){ model.setNameOfInputFileTest("test.csv"); model.readDataTest(); } else d.readDataTest("test.csv"); }
			else if(op=="normtest"){ if(isModel) model.normalizeDataTest(); else d.normalizeSampleInputMatrixTest(); }
			else if(op=="init") model.initializeSurrogateModel();
			else if(op=="update") model.updateModelWithNewData();
			else if(op=="add"){ vec v=vecOf(s); model.addNewSampleToData(v); }
			else if(op=="count"){ Bounds b=boxOf(s); extra=",\"count\":"+N(model.countHowManySamplesAreWithinBounds(b.getLowerBounds(),b.getUpperBounds())); }
			else if(op=="train"){ model.setNumberOfTrainingIterations(1); model.train(); }
			else if(op=="tryout"){
				string mode; s>>mode;
				if(mode=="default") model.tryOnTestData(); else model.tryOnTestData(mode);
				string est="[", var="[";
				for(unsigned i=0;i<d.getNumberOfSamplesTest();i++){ vec x=d.getRowXTest(i); double f,v; model.interpolateWithVariance(x,&f,&v); est+=(i?",":"")+N(model.interpolate(x)); var+=(i?",":"")+N(v); }
				extra=",\"results\":"+js(model.testResults)+",\"estimates\":"+est+"],\"variances\":"+var+"]";
				extra+=",\"mse\":"+N(model.generalizationError);
				if(mode=="with_variances") model.saveTestResultsWithVariance(); else model.saveTestResults();
				extra+=",\"saved\":"+vh::str(vh::slurp("surrogateTestResults.csv"));
			}
			else if(op=="insample"){
				double e=model.calculateInSampleError(); vec f=model.interpolateVector(model.getX());
				extra=",\"error\":"+N(e)+",\"estimates\":"+js(f);
			}
		} catch(const std::exception& e){ ok=false; extra=",\"what\":"+vh::str(e.what()); }
		string o="{\"r\":"+string(ok?"\"ok\"":"\"rejected\"")+extra+",\"obs\":{"+observe(d);
		if(isModel){
			bool eq = same(model.gety(),d.getOutputVector()) && js(model.getX())==js(d.getInputMatrix()) && js(model.getRawData())==js(d.getRawData());
			if(d.isDataRead()) for(unsigned i=0;i<d.getNumberOfSamples();i++) eq = eq && same(model.getRowX(i),d.getRowX(i)) && same(model.getRowXRaw(i),d.getRowXRaw(i));
			o+=",\"mread\":"+js(model.ifDataIsRead)+",\"mnorm\":"+js(model.ifNormalized)+",\"init\":"+js(model.ifInitialized)+",\"mn\":"+N(model.getNumberOfSamples())+",\"same\":"+js(eq)+",\"file\":"+vh::str(vh::slurp("data.csv"));
		}
		vh::trace.line(o+"}}");
	}
}

int main(int argc,char**argv){
	if(argc<3) return 3;
	std::ifstream in(argv[1]); string l; std::vector<string> lines; bool model=false; string id;
	std::remove(argv[2]);
	auto flush=[&](){
		if(id.empty()) return;
		pid_t p=fork();
		if(p==0){ vh::trace.open(argv[2],"a"); vh::trace.line("{\"id\":"+id+"}"); if(!std::freopen("/dev/null","w",stderr)) _exit(4); perform(lines,model); _exit(0); }
		int st; waitpid(p,&st,0);
		if(!(WIFEXITED(st) && WEXITSTATUS(st)==0)){ vh::trace.open(argv[2],"a"); vh::trace.line("{\"r\":\"died\"}"); }
		lines.clear();
	};
	while(std::getline(in,l)){
		if(l.rfind("T ",0)==0){ flush(); std::istringstream s(l.substr(2)); int m; s>>id>>m; model=m; }
		else lines.push_back(l);
	}
	flush();
	return 0;
}
