// Shared helpers of the harness programs: JSON-line trace output, seeding, file snapshots.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <atomic>

namespace vh {

inline std::string num(double d){
	if(std::isnan(d)) return "\"nan\"";
	if(std::isinf(d)) return d>0 ? "\"inf\"" : "\"-inf\"";
	char b[64]; std::snprintf(b,sizeof b,"%.17g",d); return b;
}
inline std::string arr(const std::vector<double>& v){
	std::string s="["; for(size_t i=0;i<v.size();i++){ if(i) s+=","; s+=num(v[i]); } return s+"]";
}
inline std::string arr(const double* p, unsigned n){ return arr(std::vector<double>(p,p+n)); }
inline std::string str(const std::string& t){
	std::string s="\"";
	for(unsigned char c: t){
		if(c=='"'||c=='\\'){ s+='\\'; s+=(char)c; }
		else if(c=='\n') s+="\\n";
		else if(c<32||c>126){ char b[8]; std::snprintf(b,sizeof b,"\\u%04x",c); s+=b; }
		else s+=(char)c;
	}
	return s+"\"";
}
inline std::string slurp(const std::string& f, bool* ok=nullptr){
	std::ifstream in(f, std::ios::binary);
	if(ok) *ok = in.good();
	std::ostringstream o; o<<in.rdbuf(); return o.str();
}

class Trace {
	std::mutex m; FILE* f=nullptr;
public:
	void open(const std::string& name, const char* mode="w"){ f=std::fopen(name.c_str(),mode); if(!f){ std::perror(name.c_str()); std::exit(3);} }
	bool on() const { return f!=nullptr; }
	void line(const std::string& s){
		std::lock_guard<std::mutex> g(m);
		if(!f) return;
		std::fputs(s.c_str(),f); std::fputc('\n',f); std::fflush(f);
	}
};
inline Trace trace;

} // namespace vh

// Deterministic seeding: every std::random_device draw comes from VERIF_SEED.
#ifdef VH_SEED
namespace vh { inline std::atomic<unsigned long long> rdState{0x9E3779B97F4A7C15ull}; }
__attribute__((constructor)) static void vhInitSeed(){
	const char* s=std::getenv("VERIF_SEED");
	vh::rdState = 0x9E3779B97F4A7C15ull * (1ull + (s? std::strtoull(s,nullptr,10):1ull));
}
unsigned int std::random_device::_M_getval(){
	unsigned long long z = (vh::rdState += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return (unsigned int)((z ^ (z >> 31)) >> 16);
}
#endif
