// Renders RIB files: each line of standard input is "<directory> <rib> <log> <seconds>"; every one is rendered in a forked child.
#include <aqsis/aqsis.h>
#include <aqsis/core/corecontext.h>
#include <aqsis/riutil/ricxx.h>
#include <aqsis/ri/ri.h>
#include <aqsis/util/logging.h>
#include <aqsis/util/logging_streambufs.h>
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
int main() {
    std::string line;
    while(std::getline(std::cin, line)) {
        std::istringstream is(line); std::string dir, rib, log; int secs = 60; is >> dir >> rib >> log >> secs;
        pid_t p = fork();
        if(p == 0) {
            if(chdir(dir.c_str()) != 0) _exit(99);
            int fd = open(log.c_str(), O_CREAT|O_WRONLY|O_TRUNC, 0644); dup2(fd, 2); dup2(fd, 1); close(fd); int z = open("/dev/null", O_RDONLY); dup2(z, 0);
            alarm(secs);
            {
                Aqsis::show_level_buf sl(Aqsis::log());
                Aqsis::filter_by_level_buf fl(Aqsis::WARNING, Aqsis::log());
                int rc = 0;
                RiBegin(RI_NULL);
                try {
                    std::ifstream in(rib.c_str(), std::ios::binary);
                    Aqsis::cxxRenderContext()->parseRib(in, rib.c_str());
                } catch(const std::exception& e) { std::cerr << "EXCEPTION " << e.what() << "\n"; rc = 7; }
                catch(...) { std::cerr << "EXCEPTION unknown\n"; rc = 8; }
                RiEnd();
                std::cerr.flush(); std::cout.flush();
                _exit(rc);
            }
        }
        int st = 0; waitpid(p, &st, 0);
        std::cout << (WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)) << std::endl;
    }
    return 0;
}
