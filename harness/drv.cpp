// The program "rodeo" itself (its main function) with a sink for its observation points.
// usage: drv CONFIG TRACE [DATAFILES..]      The trace is appended to (the stub executables write to it as well).
#define VH_SEED
#include "common.hpp"
#include "Driver/INCLUDE/driver_xml.hpp"
#include "INCLUDE/verif_hooks.hpp"
#include <ctime>
#include <stdexcept>
#include <cstring>
#include <omp.h>
#define main rodeo_main
#include "Rodeo.cpp"
#undef main
using namespace Rodop;
int main(int argc,char** argv){
	if(argc<3) return 3;
	vh::trace.open(argv[2],"a");
	static std::atomic<unsigned long> phase[3]; static std::atomic<int> team{0};
	static std::vector<std::string> data(argv+3,argv+argc);
	auto snapshot=[]{
		std::string s=",\"files\":{\"history\":"+vh::str(vh::slurp("optimizationHistory.csv"))+",\"xml\":"+vh::str(vh::slurp("globalOptimalDesign.xml"))+",\"data\":[";
		for(size_t i=0;i<data.size();i++) s+=(i?",":"")+vh::str(vh::slurp(data[i]));
		return s+"]}";
	};
	verif::sink=[&](const char* name,const verif::Fields& f){
		std::string n=name;
		if(n=="candidate"){
			for(auto& p:f) if(!std::strcmp(p.first,"phase")) phase[(int)p.second[0]]++;
			team=std::max(team.load(),omp_get_num_threads());
			return;
		}
		std::string s="{\"e\":"+vh::str(n);
		for(auto& p: f) s+=",\""+std::string(p.first)+"\":"+vh::arr(p.second);
		if(n=="searched"){
			s+=",\"phase\":["+std::to_string(phase[1].exchange(0))+","+std::to_string(phase[2].exchange(0))+"],\"team\":"+std::to_string(team.exchange(0));
		}
		if(n=="recorded"||n=="initialized") s+=snapshot();
		vh::trace.line(s+"}");
	};
	char* av[]={argv[0],argv[1],nullptr};
	int status=rodeo_main(2,av);
	vh::trace.line("{\"e\":\"end\",\"status\":"+std::to_string(status)+",\"what\":\"\""+snapshot()+"}");
	return status;
}
