// Common part of every C++ exploration harness: counters, lazily described current case,
// violation reporting, crash reporting.  Output protocol (read by lib/vlib.py):
//   VIOL\t<key>\t<description>       one line per distinct violation key
//   STATS {json}                     final line of a complete exploration
#pragma once
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include <map>
#include <limits>
#include <chrono>
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace vh {
inline long states = 0, transitions = 0, traces = 0;
inline std::map<std::string,long> extra;
inline std::vector<std::string> samples;
inline std::set<std::string> seen_keys;
inline std::function<std::string()> cur;           // describes the case being executed
inline std::string cur_key = "";
inline bool dying = false;
inline bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t)=="thorough"; }
inline std::string esc(const std::string& s) {
    std::string o; for (char ch : s) { if (ch=='"'||ch=='\\') {o+='\\';o+=ch;} else if (ch=='\n'||ch=='\t') o+=' '; else o+=ch; } return o; }
inline void stats(bool complete) {
    std::ostringstream o;
    o << "STATS {\"complete\":" << (complete?"true":"false") << ",\"states\":" << states << ",\"transitions\":" << transitions
      << ",\"traces\":" << traces << ",\"violations\":" << seen_keys.size() << ",\"extra\":{";
    bool first=true; for (auto& [k,v]:extra) { o<<(first?"":",")<<"\""<<esc(k)<<"\":"<<v; first=false; }
    o << "},\"samples\":[";
    for (size_t i=0;i<samples.size();++i) o << (i?",":"") << "\"" << esc(samples[i]) << "\"";
    o << "]}";
    printf("%s\n", o.str().c_str()); fflush(stdout);
}
inline void fail(const std::string& key, const std::string& desc) {
    if (seen_keys.insert(key).second) { printf("VIOL\t%s\t%s\n", esc(key).c_str(), esc(desc).c_str()); fflush(stdout); }
    if (seen_keys.size() > 60) { stats(false); _exit(1); }
}
// a failure of the current case
inline void fail_here(const std::string& key, const std::string& what) {
    if (seen_keys.count(key)) return;
    fail(key, what + " | case: " + (cur ? cur() : std::string("?")));
}
inline void sample(const std::string& s) { if (samples.size()<6) samples.push_back(s.substr(0,400)); }
inline void on_death() {
    if (dying) return; dying = true;
    printf("VIOL\tcrash:%s\tmemory error or abnormal termination | case: %s\n", cur_key.c_str(), esc(cur?cur():std::string("?")).c_str());
    fflush(stdout);
}
inline void on_signal(int s) { signal(s, SIG_DFL); on_death(); fprintf(stderr,"signal %d\n",s); _exit(3); }
inline void init() {
    setvbuf(stdout, nullptr, _IOLBF, 1<<16);
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_set_death_callback(on_death);
    signal(SIGABRT, on_signal);
#else
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) signal(s, on_signal);
#endif
}
inline int finish() { stats(true); return seen_keys.empty() ? 0 : 1; }
inline bool finite(double x) { // works under -ffast-math
    unsigned long long u; memcpy(&u,&x,8); return ((u>>52)&0x7ff)!=0x7ff; }
inline bool close(double a, double b, double scale, double tol=1e-10) {
    if (!finite(a) || !finite(b)) return false;
    return std::fabs(a-b) <= tol*(scale > 0 ? scale : 0) + 1e-300; }
// scope of one case: description valid until the scope ends; every so often kept as a sample
struct Case {
    Case(const std::string& key, std::function<std::string()> d) { cur_key=key; cur=std::move(d); ++extra_cases(); }
    ~Case() { long n=extra_cases(); if ((n&(n-1))==0 && n>=8 && __builtin_ctzl(n)%3==0 && cur) sample(cur()); cur=nullptr; }
    static long& extra_cases() { static long n=0; return n; }
};
template<class V> std::string str(const V& v) { std::ostringstream o; o.precision(17); o<<"["; bool f=true; for (auto& x:v) { o<<(f?"":",")<<x; f=false; } o<<"]"; return o.str(); }
template<class V> std::string str2(const V& v) { std::ostringstream o; o<<"["; bool f=true; for (auto& x:v) { o<<(f?"":",")<<str(x); f=false; } o<<"]"; return o.str(); }
inline std::string num(double x) { char b[64]; snprintf(b,64,"%.17g",x); return b; }
// deterministic "generic" numbers (no randomness anywhere)
inline double gen(unsigned long long i) { // in (-1,1), never 0
    i = i*0x9E3779B97F4A7C15ull + 0x7F4A7C15ull; i ^= i>>29; i *= 0xBF58476D1CE4E5B9ull; i ^= i>>32;
    double x = (double)(i>>11)/9007199254740992.0; return 2*x-1 + 1e-9; }
}
