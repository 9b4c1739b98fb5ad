// Drives the RenderMan interface pipeline (parser -> filters -> recorder -> RIB writer) with
// cases read from stdin and prints everything observable: calls reaching the end of the
// pipeline, error/warning messages, and the bytes written by the RIB writer.
#include <aqsis/aqsis.h>
#include <aqsis/riutil/ricxx.h>
#include <aqsis/riutil/ricxx_filter.h>
#include <aqsis/riutil/ricxxutil.h>
#include <aqsis/riutil/ribwriter.h>
#include <aqsis/riutil/ribparser.h>
#include <aqsis/util/exception.h>
#include <aqsis/util/logging.h>
#include <aqsis/util/logging_streambufs.h>
#include <boost/shared_ptr.hpp>
#include <iostream>
#include <fstream>
#include <sstream>
#include <vector>
#include <list>
#include <string>
#include <cstdio>
#include <cstring>
#include <unistd.h>
using namespace Aqsis;

static std::string unhex(const std::string& s) {
    std::string r; r.reserve(s.size()/2);
    for(size_t i = 0; i+1 < s.size(); i += 2) r.push_back((char)strtol(s.substr(i,2).c_str(),0,16));
    return r;
}
static std::string hex(const std::string& s) {
    static const char* d = "0123456789abcdef"; std::string r; r.reserve(2*s.size());
    for(unsigned char c : s) { r += d[c>>4]; r += d[c&15]; } return r;
}
static std::string q(const char* s) {
    if(!s) return "null";
    std::string r = "\"";
    for(; *s; ++s) { unsigned char c = *s; char b[8];
        if(c < 32 || c > 126 || c == '"' || c == '\\') { sprintf(b, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
}
static std::string num(float f) { char b[40]; sprintf(b, "%.9g", f);
    if(strchr(b,'n') || strchr(b,'i')) return std::string("\"") + b + "\""; return b; }

static std::vector<std::string> g_out;
static std::stringbuf* g_log;
static void flushLog() {
    std::string s = g_log->str(); g_log->str("");
    std::istringstream is(s); std::string l;
    while(std::getline(is, l)) if(!l.empty()) g_out.push_back("E " + q(l.c_str()));
}

class Recorder : public Ri::Filter {
  public:
    bool forward; std::string label;
    Ri::RendererServices* svc() { return &services(); }
    struct Call {
        Recorder& r; std::string n, a, p; std::string sub; RtPointer data; bool hasPtr;
        Call(Recorder& r, const char* n) : r(r), n(n), data(0), hasPtr(false) {}
        void add(const std::string& s) { if(!a.empty()) a += ","; a += s; }
        void i(int v) { std::ostringstream o; o << v; add(o.str()); }
        void f(float v) { add(num(v)); }
        void s(const char* v) { add(q(v)); }
        void fa(const float* v, size_t n) { std::string t = "["; for(size_t k = 0; k < n; ++k) { if(k) t += ","; t += num(v[k]); } add(t + "]"); }
        void ia(const Ri::IntArray& v) { std::ostringstream t; t << "["; for(size_t k = 0; k < v.size(); ++k) { if(k) t << ","; t << v[k]; } t << "]"; add(t.str()); }
        template<class A> void sa(const A& v) { std::string t = "["; for(size_t k = 0; k < v.size(); ++k) { if(k) t += ","; t += q(v[k]); } add(t + "]"); }
        void filt(RtFilterFunc fn) { static const char* nm[] = {"box","gaussian","triangle","mitchell","catmull-rom","sinc","disk","bessel"};
            for(const char* x : nm) { try { if(r.svc()->getFilterFunc(x) == fn) { s(x); return; } } catch(XqValidation&) {} } s(fn ? "?" : 0); }
        void err(RtErrorFunc fn) { static const char* nm[] = {"ignore","print","abort"};
            for(const char* x : nm) { try { if(r.svc()->getErrorFunc(x) == fn) { s(x); return; } } catch(XqValidation&) {} } s(fn ? "?" : 0); }
        void subdiv(RtProcSubdivFunc fn) { static const char* nm[] = {"DelayedReadArchive","RunProgram","DynamicLoad"};
            int na[] = {1,2,2}; int k = 0;
            for(const char* x : nm) { try { if(r.svc()->getProcSubdivFunc(x) == fn) { s(x);
                const char** d = (const char**)data; std::string t = "["; for(int j = 0; j < na[k]; ++j) { if(j) t += ","; t += q(d[j]); } add(t + "]"); return; } } catch(XqValidation&) {} ++k; }
            s(fn ? "?" : 0); }
        void freef(RtProcFreeFunc fn) { }
        void ptr(RtPointer d) { data = d; }
        void params(const Ri::ParamList& pl) {
            static const char* ic[] = {"constant","uniform","varying","vertex","facevarying","facevertex"};
            static const char* ty[] = {"float","point","color","int","string","vector","normal","hpoint","matrix","mpoint","pointer"};
            p = "[";
            for(size_t k = 0; k < pl.size(); ++k) {
                const Ri::Param& x = pl[k]; if(k) p += ",";
                std::ostringstream h; h << (x.spec().iclass < 6 ? ic[x.spec().iclass] : "?") << " " << (x.spec().type < 11 ? ty[x.spec().type] : "?") << "[" << x.spec().arraySize << "]";
                p += "[\"" + h.str() + "\"," + q(x.name()) + ",";
                std::string sv = a; a.clear();
                switch(x.spec().storageType()) {
                    case Ri::TypeSpec::Float: { fa((const float*)x.data(), x.size()); break; }
                    case Ri::TypeSpec::Integer: { ia(Ri::IntArray((const int*)x.data(), x.size())); break; }
                    case Ri::TypeSpec::String: { sa(Ri::StringArray((RtConstString*)x.data(), x.size())); break; }
                    default: s("?");
                }
                p += a + "]"; a = sv;
            }
            p += "]";
        }
        void done() { flushLog(); g_out.push_back("C" + r.label + " {\"n\":\"" + n + "\",\"a\":[" + a + "],\"p\":" + (p.empty() ? "[]" : p) + "}"); }
    };
    void after_none() {}
    void after_Declare(RtConstString n, RtConstString d) { nextFilter().Declare(n, d); }
    void after_Procedural(RtPointer data, RtProcFreeFunc f) { if(f) f(data); }
#   include "recorder_gen.h"
};

// A stream buffer which delivers its bytes n at a time, like a pipe would.
struct ChunkBuf : std::streambuf {
    std::string d; size_t pos, n;
    ChunkBuf(const std::string& d, size_t n) : d(d), pos(0), n(n) {}
    int underflow() { if(pos >= d.size()) return EOF; size_t m = std::min(n, d.size()-pos); char* b = &d[0]+pos; setg(&d[0], b, b+m); pos += m; return (unsigned char)*b; }
};

// conditions of the test streams: T is true, anything else is false
static bool condTest(const char* c) { return c[0] == 'T'; }

int main() {
    std::ios::sync_with_stdio(false);
    std::stringbuf logbuf; std::cerr.rdbuf(&logbuf); g_log = &logbuf;
    Aqsis::show_level_buf* sl = new Aqsis::show_level_buf(Aqsis::log()); (void)sl;
    std::string line;
    std::string id; std::vector<std::vector<std::string> > filt; RibWriterOptions opts; bool fwd = false; int reparse = 0;
    std::vector<std::pair<std::string,std::string> > ribs; int chunk = 0;
    while(std::getline(std::cin, line)) {
        std::istringstream is(line); std::string cmd; is >> cmd;
        if(cmd == "CASE") { is >> id; filt.clear(); opts = RibWriterOptions(); fwd = false; ribs.clear(); reparse = 0; chunk = 0; }
        else if(cmd == "CHUNK") is >> chunk;
        else if(cmd == "FILT") { std::vector<std::string> f; std::string t; while(is >> t) f.push_back(t); filt.push_back(f); }
        else if(cmd == "WRITE") { fwd = true; std::string t; while(is >> t) { if(t == "binary") opts.useBinary = true; if(t == "gzip") opts.useGzip = true;
                if(t == "interp") opts.interpolateArchives = true; if(t == "reparse") reparse = 1; if(t == "tab") opts.indentChar = '\t'; if(t == "indent0") opts.indentStep = 0; if(t == "indent2") opts.indentStep = 2; } }
        else if(cmd == "FILE") { std::string n, h; is >> n >> h; std::ofstream o(n.c_str(), std::ios::binary); o << unhex(h); }
        else if(cmd == "RIB") { std::string n, h; is >> n >> h; ribs.push_back(std::make_pair(n, unhex(h))); }
        else if(cmd == "GO") {
            g_out.clear(); logbuf.str("");
            std::ostringstream ribout;
            {
                std::vector<boost::shared_ptr<Ri::Filter> > owned;
                std::ostringstream sinkout; boost::shared_ptr<RibWriterServices> sw(createRibWriter(sinkout, RibWriterOptions())); Ri::Renderer& sink = sw->firstFilter();
                boost::shared_ptr<RibWriterServices> w(createRibWriter(ribout, opts));
                Recorder rec; rec.forward = fwd; 
                w->addFilter(rec);
                try {
                    for(int k = (int)filt.size() - 1; k >= 0; --k) {
                        ParamListBuilder pb; 
                        std::list<std::string> keep;
                        for(size_t j = 1; j < filt[k].size(); ++j) {
                            size_t e = filt[k][j].find('='); keep.push_back(filt[k][j].substr(0,e)); std::string& key = keep.back(); keep.push_back(filt[k][j].substr(e+1)); std::string& val = keep.back();
                            if(key[0] == '#') pb(key.c_str()+1, atoi(val.c_str()));
                            else { for(char& c : val) if(c == '_') c = ' '; pb(key.c_str(), val.c_str()); }
                        }
                        if(filt[k][0] == "renderutil") { Ri::Filter* f = createRenderUtilFilter(&condTest); owned.push_back(boost::shared_ptr<Ri::Filter>(f)); w->addFilter(*f); }
                        else if(filt[k][0] == "renderutil0") { Ri::Filter* f = createRenderUtilFilter(); owned.push_back(boost::shared_ptr<Ri::Filter>(f)); w->addFilter(*f); }
                        else if(filt[k][0] == "tee") { Recorder* br = new Recorder; br->forward = false; br->label = "2"; owned.push_back(boost::shared_ptr<Ri::Filter>(br));
                            br->setNextFilter(sink); br->setRendererServices(*w);
                            Ri::Filter* f = createTeeFilter(*br); owned.push_back(boost::shared_ptr<Ri::Filter>(f)); w->addFilter(*f); }
                        else w->addFilter(filt[k][0].c_str(), pb);
                    }
                    for(size_t k = 0; k < ribs.size(); ++k) {
                        ChunkBuf cb(ribs[k].second, chunk); std::istringstream in0(ribs[k].second); std::istream in1(&cb); std::istream& in = chunk ? in1 : in0;
                        w->parseRib(in, ribs[k].first.c_str(), w->firstFilter());
                        flushLog();
                        if(ribs.size() > 1) g_out.push_back("S " + ribs[k].first);
                    }
                } catch(const std::exception& e) { flushLog(); g_out.push_back(std::string("X ") + q(e.what())); }
                flushLog();
            }
            if(fwd) g_out.push_back("W " + hex(ribout.str()));
            if(reparse) {
                std::ostringstream none; boost::shared_ptr<RibWriterServices> w2(createRibWriter(none, RibWriterOptions()));
                Recorder rec2; rec2.forward = false; rec2.label = "2"; w2->addFilter(rec2);
                std::istringstream in(ribout.str());
                try { w2->parseRib(in, "reparse", w2->firstFilter()); } catch(const std::exception& e) { g_out.push_back(std::string("X2 ") + q(e.what())); }
                flushLog();
            }
            std::string o = "BEGIN " + id + "\n";
            for(auto& s : g_out) o += s + "\n";
            o += "END " + id + "\n";
            fwrite(o.data(), 1, o.size(), stdout); fflush(stdout);
        }
    }
    return 0;
}
