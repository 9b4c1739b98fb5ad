// Makes the calls of programs read from stdin through the C interface of libaqsis_ri2rib.  Each program runs in
// a child process; every array is followed by values the library must not look at.
#include <aqsis/ri/ri.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <list>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

static std::string unhex(const std::string& s) {
    std::string r; for(size_t i = 0; i+1 < s.size(); i += 2) r.push_back((char)strtol(s.substr(i,2).c_str(),0,16)); return r; }
static std::vector<std::string> split(const std::string& s) {
    std::vector<std::string> r; if(s.empty()) return r; std::istringstream is(s); std::string t; while(std::getline(is, t, ',')) r.push_back(t); return r; }

static std::map<int, void*> g_handles;
struct Line {
    std::vector<std::string> w; size_t pos; std::string form; void* res;
    std::list<std::string> strs; std::list<std::vector<int> > ints; std::list<std::vector<float> > flts; std::list<std::vector<char*> > ptrs;
    int np; RtToken tk[8]; RtPointer vl[8];
    const std::string& next() { static std::string e; return pos < w.size() ? w[pos++] : e; }
    char* str(const std::string& s) { strs.push_back(s); return const_cast<char*>(strs.back().c_str()); }
    int* ia(const std::string& s) { std::vector<int> v; for(auto& x : split(s)) v.push_back(atoi(x.c_str())); v.insert(v.end(), 24, 3); ints.push_back(v); return &ints.back()[0]; }
    float* fa(const std::string& s) { std::vector<float> v; for(auto& x : split(s)) v.push_back(strtof(x.c_str(), 0)); v.insert(v.end(), 24, 777.f); flts.push_back(v); return &flts.back()[0]; }
    char** sa(const std::string& s) { std::vector<char*> v; for(auto& x : split(s)) v.push_back(str(unhex(x))); v.insert(v.end(), 24, str("PAD")); ptrs.push_back(v); return &ptrs.back()[0]; }
    void params() {
        np = 0; memset(tk, 0, sizeof tk); memset(vl, 0, sizeof vl);
        if(next() != "P") return;
        while(pos < w.size()) { tk[np] = str(unhex(next())); const std::string& v = next();
            vl[np] = v[0] == 'I' ? (void*)ia(v.substr(1)) : v[0] == 'F' ? (void*)fa(v.substr(1)) : (void*)sa(v.substr(1)); ++np; }
    }
};
static RtInt I1(Line& l) { return atoi(l.next().c_str() + 1); }
static RtBoolean B1(Line& l) { return atoi(l.next().c_str() + 1); }
static RtFloat F1(Line& l) { return strtof(l.next().c_str() + 1, 0); }
static char* S1(Line& l) { return l.str(unhex(l.next().substr(1))); }
static int* IA(Line& l) { return l.ia(l.next().substr(1)); }
static float* FA(Line& l) { return l.fa(l.next().substr(1)); }
static float* MX(Line& l) { return l.fa(l.next().substr(1)); }
static char** SA(Line& l) { return l.sa(l.next().substr(1)); }
static RtPointer DP(Line& l) { std::string s = l.next().substr(1); std::vector<std::string> v = split(s); char** d = (char**)calloc(v.size() + 4, sizeof(char*)); for(size_t k = 0; k < v.size(); ++k) d[k] = strdup(unhex(v[k]).c_str()); return d; }
static void* HD(Line& l) { return g_handles[atoi(l.next().c_str() + 1)]; }
static RtFilterFunc FF(Line& l) { std::string n = unhex(l.next().substr(1));
    return n == "box" ? RiBoxFilter : n == "gaussian" ? RiGaussianFilter : n == "triangle" ? RiTriangleFilter : n == "catmull-rom" ? RiCatmullRomFilter : n == "sinc" ? RiSincFilter : n == "mitchell" ? RiMitchellFilter : n == "disk" ? RiDiskFilter : RiBesselFilter; }
static RtErrorFunc EF(Line& l) { std::string n = unhex(l.next().substr(1)); return n == "ignore" ? RiErrorIgnore : n == "print" ? RiErrorPrint : RiErrorAbort; }
static RtProcSubdivFunc PF(Line& l) { std::string n = unhex(l.next().substr(1)); return n == "RunProgram" ? RiProcRunProgram : n == "DynamicLoad" ? RiProcDynamicLoad : RiProcDelayedReadArchive; }
static RtVoid noFree(RtPointer) {}
static RtProcFreeFunc ZF(Line& l) { l.next(); return noFree; }
static RtArchiveCallback AC(Line& l) { l.next(); return 0; }

static void call(const std::string& n, Line& L) {
#   include "capi_gen.h"
    fprintf(stderr, "no call %s\n", n.c_str()); _exit(99);
}

static void program(const std::vector<std::string>& lines) {
    std::map<int, RtContextHandle> ctx;
    for(const std::string& s : lines) {
        Line L; L.pos = 0; L.res = 0; L.np = 0; std::istringstream is(s); std::string t; while(is >> t) L.w.push_back(t);
        std::string k = L.next();
        if(k == "begin") { int c = atoi(L.next().c_str()); RiBegin(L.str(L.next())); ctx[c] = RiGetContext(); }
        else if(k == "end") RiEnd();
        else if(k == "switch") RiContext(ctx[atoi(L.next().c_str())]);
        else if(k == "opt") { char* f = L.str(L.next()); char* n = L.str(L.next()); char* v = L.str(L.next()); char out[] = "RI2RIB_Output";
            RtToken tk[1] = {n}; RtPointer vl[1] = {&v}; if(f[0] == 'V') RiOptionV(out, 1, tk, vl); else RiOption(out, n, &v, RI_NULL); }
        else { int h = atoi(L.next().c_str()); L.form = L.next(); call(k, L);
            if(h) { g_handles[h] = L.res; printf("H %d %p\n", h, L.res); } }
        fprintf(stderr, "\n@done\n");
    }
}

int main() {
    std::string line, id; std::vector<std::string> lines;
    while(std::getline(std::cin, line)) {
        if(line.compare(0, 5, "CASE ") == 0) { id = line.substr(5); lines.clear(); }
        else if(line == "GO") {
            printf("CASE %s\n", id.c_str()); fflush(stdout);
            pid_t p = fork();
            if(p == 0) { alarm(20); int fd = open((id + ".err").c_str(), O_CREAT|O_WRONLY|O_TRUNC, 0600); dup2(fd, 2); program(lines); fflush(stdout); _exit(0); }
            int st = 0; waitpid(p, &st, 0); printf("END %s %d\n", id.c_str(), st); fflush(stdout);
        } else lines.push_back(line);
    }
    return 0;
}
