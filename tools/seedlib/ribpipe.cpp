// reads a RIB on stdin, passes it through the filters named on the command line and prints what comes out
#include <aqsis/aqsis.h>
#include <aqsis/riutil/ricxx.h>
#include <aqsis/riutil/ricxx_filter.h>
#include <aqsis/riutil/ricxxutil.h>
#include <aqsis/riutil/ribwriter.h>
#include <aqsis/util/exception.h>
#include <boost/shared_ptr.hpp>
#include <iostream>
#include <sstream>
#include <cstring>
using namespace Aqsis;
static bool cond(const char* c) { return c[0] == 'T'; }
int main(int argc, char** argv) {
    RibWriterOptions opts, plain; std::ostringstream out, out2;
    for(int i = 1; i < argc; ++i) { if(!strcmp(argv[i], "binary")) opts.useBinary = true; if(!strcmp(argv[i], "interp")) opts.interpolateArchives = true; }
    boost::shared_ptr<RibWriterServices> w(createRibWriter(out, opts)), w2(createRibWriter(out2, plain));
    bool again = false;
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if(a == "renderutil") w->addFilter(*createRenderUtilFilter(&cond));
        else if(a == "tee") w->addFilter(*createTeeFilter(w2->firstFilter()));
        else if(a == "reread") again = true;
        else if(a.compare(0, 7, "frames=") == 0) w->addFilter("framedrop", ParamListBuilder()("frames", a.c_str()+7));
        else if(a == "validate") w->addFilter("validate", ParamListBuilder());
    }
    std::stringstream in; in << std::cin.rdbuf();
    try { w->parseRib(in, "in", w->firstFilter()); } catch(std::exception& e) { std::cout << "exception " << e.what() << "\n"; }
    if(again) { std::istringstream is(out.str()); w2->parseRib(is, "again", w2->firstFilter()); std::cout << out2.str(); }
    else std::cout << out.str() << "--\n" << out2.str();
}
