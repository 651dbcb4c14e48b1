// Gives texts to constraint definitions and records what they are taken for.
// usage: condef SCRIPT TRACE   lines: "S id" new definition, "set HEX", "api HEX", "feasible"
#define VH_SEED
#include "common.hpp"
#include "ObjectiveFunctions/INCLUDE/constraint_functions.hpp"
#include "API/INCLUDE/rodeo.h"
using namespace Rodop;
using std::string;
static string unhex(const string& h){ string r; for(size_t i=1;i+1<h.size();i+=2) r+=(char)std::stoi(h.substr(i,2),nullptr,16); return r; }
static string js(const string& n,const string& op,double v){ return "{\"name\":"+vh::str(n)+",\"op\":"+vh::str(op)+",\"v\":"+vh::num(v)+"}"; }
int main(int argc,char**argv){
	if(argc<3) return 3;
	vh::trace.open(argv[2]);
	std::ifstream in(argv[1]); string l; ConstraintDefinition def;
	while(std::getline(in,l)){
		std::istringstream s(l); string k,h; s>>k>>h;
		if(k=="S"){ def=ConstraintDefinition(); continue; }
		if(k=="set"){
			bool ok=true; try{ def.setDefinition(unhex(h)); }catch(const std::exception&){ ok=false; }
			vh::trace.line(string("{\"ok\":")+(ok?"true":"false")+",\"def\":"+js(def.constraintName,def.inequalityType,def.value)+"}");
		}
		else if(k=="api"){
			bool ok=true; ParsedConstraintExpression e; e.value=0; try{ e=parseExpression(unhex(h)); }catch(const std::exception&){ ok=false; }
			vh::trace.line(string("{\"ok\":")+(ok?"true":"false")+",\"def\":"+js(e.name,e.inequality,e.value)+"}");
		}
		else if(k=="feasible"){
			ConstraintFunction c; c.setConstraintDefinition(def);
			double v=def.value, w[3]={std::nextafter(v,-INFINITY),v,std::nextafter(v,INFINITY)}; string r;
			for(double x:w) r+=string(r.empty()?"":",")+(c.checkFeasibility(x)?"true":"false");
			vh::trace.line("{\"res\":["+r+"]}");
		}
	}
	return 0;
}
