// one case per line: threshold tolerance spikes steps n values -> {"ans":[[..]],"dead":[..]}
#include <bits/stdc++.h>
#include <sys/wait.h>
#include <unistd.h>
#include <pyclustering/nnet/dynamic_analyser.hpp>
using namespace pyclustering::nnet;
static std::string js(const std::vector<size_t> & v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::fflush(stdout);
        int fd[2]; if (pipe(fd)) return 1;
        pid_t pid = fork();
        if (!pid) {
            close(fd[0]); alarm(30);
            std::istringstream in(line); double thr, tol; size_t m, T, n; in >> thr >> tol >> m >> T >> n;
            std::vector<std::vector<double>> d(T, std::vector<double>(n)); for (auto & s : d) for (auto & x : s) in >> x;
            std::vector<std::vector<size_t>> ans; std::vector<size_t> dead;
            dynamic_analyser(thr, tol, m).allocate_sync_ensembles(d, ans, dead);
            std::string s = "{\"ans\":["; for (size_t i = 0; i < ans.size(); i++) s += (i ? "," : "") + js(ans[i]);
            s += "],\"dead\":" + js(dead) + "}";
            if (write(fd[1], s.data(), s.size()) != (ssize_t) s.size()) _exit(3);
            close(fd[1]); _exit(0);
        }
        close(fd[1]);
        std::string s; char b[4096]; ssize_t r; while ((r = read(fd[0], b, sizeof b)) > 0) s.append(b, r);
        close(fd[0]); int st; waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) printf("{\"crash\":%d}\n", st); else printf("%s\n", s.c_str());
    }
}
