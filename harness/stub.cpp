// Stands for the executables of the user: reads the design vector file, records what it found and what was on
// the disk, and then does what the file <name>.stub says for this call.
// <name>.stub: "f N", "in FILE", "out FILE", "trace FILE", "dim D", "snap 0/1", "data FILES...", "known x.. v", "also FILE TEXT",
// then one line per call: "o KIND TEXT" with KIND: ok exit killed nofile empty garbage (TEXT in hex), followed by
// "nox"/"gone" if the executable shall not be startable afterwards.
#include "common.hpp"
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using std::string;
static string unhex(const string& h){ string r; for(size_t i=1;i+1<h.size();i+=2) r+=(char)std::stoi(h.substr(i,2),nullptr,16); return r; }
int main(int argc,char** argv){
	string me=argv[0]; size_t p=me.rfind('/'); string base = p==string::npos? me: me.substr(p+1), dir = p==string::npos? ".": me.substr(0,p);
	string pre=dir+"/"+base;
	int f=0,dim=1,snap=1; string in,out,trace; std::vector<string> data; std::vector<std::vector<string>> outcomes; std::vector<std::vector<double>> known; std::vector<std::pair<string,string>> also;
	auto readKnown=[&](const string& l){ std::istringstream s(l); string k; s>>k; std::vector<double> v; double d; while(s>>d) v.push_back(d); known.push_back(v); };
	{
		std::ifstream c(pre+".stub"); string l; if(!c) return 9;
		while(std::getline(c,l)){
			std::istringstream s(l); string k; s>>k;
			if(k=="f") s>>f; else if(k=="in") s>>in; else if(k=="out") s>>out; else if(k=="trace") s>>trace; else if(k=="dim") s>>dim; else if(k=="snap") s>>snap;
			else if(k=="data"){ string d; while(s>>d) data.push_back(d); }
			else if(k=="known") readKnown(l);
			else if(k=="also"){ string a,t; s>>a>>t; also.push_back({a,unhex(t)}); }
			else if(k=="o"){ std::vector<string> o; string w; while(s>>w) o.push_back(w); outcomes.push_back(o); }
		}
		std::ifstream e(pre+".known"); while(std::getline(e,l)) readKnown(l);
	}
	unsigned long n=0; { std::ifstream c(pre+".count"); if(c) c>>n; } { std::ofstream c(pre+".count"); c<<n+1; }
	std::vector<double> x; bool clean=true; { std::ifstream d(in); string w; while(d>>w){ char* e; double v=std::strtod(w.c_str(),&e); if(*e) clean=false; x.push_back(v); } }
	bool stale; vh::slurp(out,&stale);
	std::vector<string> o = outcomes.empty()? std::vector<string>{"ok","x30."} : outcomes[n%outcomes.size()];
	string kind=o[0], text=o.size()>1? unhex(o[1]) : ""; double v=std::strtod(text.c_str(),nullptr);
	if(kind=="ok"){
		bool have=false;
		for(auto& k:known) if(k.size()==x.size()+1){ bool same=true; for(size_t i=0;i<x.size();i++) if(std::fabs(k[i]-x[i])>1e-9*(1+std::fabs(x[i]))) same=false; if(same){ v=k.back(); text=vh::num(v)+"\n"; have=true; break; } }
		if(!have){ std::ofstream k(pre+".known",std::ios::app); k<<"known"; for(double d:x) k<<" "<<vh::num(d); k<<" "<<vh::num(v)<<"\n"; }
	}
	string s="{\"e\":\"call\",\"f\":"+std::to_string(f)+",\"n\":"+std::to_string(n)+",\"x\":"+vh::arr(x)+",\"clean\":"+(clean&&(int)x.size()==dim?"true":"false")+",\"stale\":"+(stale?"true":"false")
		+",\"kind\":"+vh::str(kind)+",\"v\":"+vh::num(v);
	if(snap){
		s+=",\"files\":{\"history\":"+vh::str(vh::slurp("optimizationHistory.csv"))+",\"xml\":"+vh::str(vh::slurp("globalOptimalDesign.xml"))+",\"data\":[";
		for(size_t i=0;i<data.size();i++) s+=(i?",":"")+vh::str(vh::slurp(data[i]));
		s+="]}";
	}
	s+="}\n";
	{ int t=open(trace.c_str(),O_WRONLY|O_APPEND|O_CREAT,0644); if(t<0||write(t,s.data(),s.size())!=(ssize_t)s.size()) return 9; close(t); }
	for(auto& a:also){ std::ofstream w(a.first); w<<a.second; }
	if(kind!="nofile"){ std::ofstream w(out); w<<text; }
	if(o.size()>2){
		if(o[2]=="nox") chmod(pre.c_str(),0644);
		if(o[2]=="gone") unlink(pre.c_str());
	}
	if(kind=="exit") return 1+(int)(n%200);
	if(kind=="killed"){ raise(n%2? SIGKILL: SIGTERM); }
	return 0;
}
