// Replay harness helpers: executes the contract of a property on the real code with concrete inputs.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <fstream>
#include <sstream>
#include <chrono>
#include <random>
#include <functional>
#include <csignal>
#include <unistd.h>
static std::string g_case; static int g_fails = 0;
static std::string hex(const std::string &s){ std::string o; char b[3]; for(unsigned char c: s){ snprintf(b,3,"%02x",c); o+=b;} return o; }
static std::string unhex(const std::string &s){ std::string o; for(size_t i=0;i+1<s.size();i+=2) o.push_back((char)strtoul(s.substr(i,2).c_str(),nullptr,16)); return o; }
static void FAIL(const std::string &what){ printf("FAIL %s | input: %s\n", what.c_str(), g_case.c_str()); fflush(stdout); if(++g_fails>=5) _exit(1); }
static void h_sig(int s){ char b[4000]; int n=snprintf(b,sizeof b,"FAIL crashed with signal %d | input: %.3000s\n", s, g_case.c_str()); if(write(1,b,n)){} _exit(1); }
static void h_alarm(int){ char b[4000]; int n=snprintf(b,sizeof b,"FAIL did not terminate | input: %.3000s\n", g_case.c_str()); if(write(1,b,n)){} _exit(1); }
extern "C" __attribute__((weak)) void __asan_set_death_callback(void (*)(void));
extern "C" __attribute__((weak)) void __sanitizer_set_death_callback(void (*)(void));
static void h_death(){ char b[4000]; int n=snprintf(b,sizeof b,"FAIL memory error reported by sanitizer | input: %.3000s\n", g_case.c_str()); if(write(1,b,n)){} }
struct HInit { HInit(){ signal(SIGSEGV,h_sig); signal(SIGABRT,h_sig); signal(SIGFPE,h_sig); signal(SIGBUS,h_sig); signal(SIGILL,h_sig); if(__sanitizer_set_death_callback) __sanitizer_set_death_callback(h_death); } } static h_init;
// a case that takes more than this many seconds is a failure (only where termination is part of the property)
static void case_timeout(int secs){ signal(SIGALRM,h_alarm); alarm(secs); }
static std::multimap<std::string,std::string> hints(){ std::multimap<std::string,std::string> m; const char*f=getenv("FVC_HINTS"); if(!f) return m; std::ifstream in(f); std::string l; while(std::getline(in,l)){ auto p=l.find('='); if(p!=std::string::npos) m.emplace(l.substr(0,p),l.substr(p+1)); } return m; }
static double secs_budget(){ const char*s=getenv("FVC_SECS"); return s?atof(s):20; }
static auto g_t0 = std::chrono::steady_clock::now();
static bool time_left(double frac=1.0){ return std::chrono::duration<double>(std::chrono::steady_clock::now()-g_t0).count() < secs_budget()*frac; }
static std::mt19937_64 rng(getenv("FVC_SEED")?strtoull(getenv("FVC_SEED"),nullptr,10):1);
static uint64_t rnd(uint64_t n){ return n? rng()%n : 0; }
static int done(){ printf("harness finished, %d failures\n", g_fails); return g_fails?1:0; }
