// one case per line: 0 level n values | 1 want iterations n values -> JSON list of one number
#include <bits/stdc++.h>
#include <sys/wait.h>
#include <unistd.h>
#include <pyclustering/cluster/ordering_analyser.hpp>
using namespace pyclustering::clst;
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::fflush(stdout);
        int fd[2]; if (pipe(fd)) return 1;
        pid_t pid = fork();
        if (!pid) {
            close(fd[0]); alarm(30);
            std::istringstream in(line); int what; in >> what;
            char b[100]; int w = 0;
            double lev; size_t want, iters, n;
            if (what == 0) in >> lev >> n; else in >> want >> iters >> n;
            ordering o(n); for (auto & x : o) in >> x;
            if (what == 0) w = std::snprintf(b, sizeof b, "[%zu]", ordering_analyser::extract_cluster_amount(o, lev));
            else w = std::snprintf(b, sizeof b, "[%.17g]", ordering_analyser::calculate_connvectivity_radius(o, want, iters));
            if (write(fd[1], b, w) != w) _exit(3);
            close(fd[1]); _exit(0);
        }
        close(fd[1]);
        std::string s; char b[4096]; ssize_t r; while ((r = read(fd[0], b, sizeof b)) > 0) s.append(b, r);
        close(fd[0]); int st; waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) printf("{\"crash\":%d}\n", st); else printf("%s\n", s.c_str());
    }
}
