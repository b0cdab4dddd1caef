// one case per line: dim n (coords)*n rule k cand state nidx (idx)* mode -> JSON list of runs; rule 0 random 1 kpp 2 farthest; mode 0 points 1 indexes 2 points with index range; each run twice on one object, on prefix data second
#include <bits/stdc++.h>
#include <sys/wait.h>
#include <unistd.h>
#include <pyclustering/cluster/kmeans_plus_plus.hpp>
#include <pyclustering/cluster/random_center_initializer.hpp>
using namespace pyclustering; using namespace pyclustering::clst;
static void out(std::ostream & o, const dataset & ds, const index_sequence & ix, const dataset & cs, bool first) {
    o << (first ? "" : ",") << "{\"ix\":[";
    for (size_t i = 0; i < ix.size(); i++) o << (i ? "," : "") << ix[i];
    o << "],\"raw\":[";
    for (size_t i = 0; i < cs.size(); i++) { o << (i ? "," : "") << "["; for (size_t k = 0; k < cs[i].size(); k++) o << (k ? "," : "") << (long) std::llround(cs[i][k]); o << "]"; }
    o << "]}";
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::fflush(stdout);
        int fd[2]; if (pipe(fd)) return 1;
        pid_t pid = fork();
        if (!pid) {
            close(fd[0]); alarm(30);
            std::istringstream in(line); std::ostringstream o;
            int dim, n, rule, k, mode, nidx, reps; long cand, state;
            in >> dim >> n;
            dataset data(n, point(dim)); for (auto & p : data) for (auto & x : p) in >> x;
            in >> rule >> k >> cand >> state >> nidx;
            index_sequence range(nidx); for (auto & x : range) in >> x;
            in >> mode >> reps;
            std::size_t c = rule == 2 ? kmeans_plus_plus::FARTHEST_CENTER_CANDIDATE : (std::size_t) cand;
            o << "[";
            for (int twin = 0; twin < 2; twin++) {
                kmeans_plus_plus kp(k, c, state); random_center_initializer rc(k, state);
                dataset big = data; for (int i = 0; i < 5; i++) { point p(dim, 1000.0 + i); big.push_back(p); }
                for (int r = 0; r < reps; r++) {
                    index_sequence ix; dataset cs;
                    if (rule == 0) { if (r == 1) { dataset t; rc.initialize(big, t); } rc.initialize(data, cs); }
                    else if (mode == 1) kp.initialize(data, ix);
                    else if (mode == 2) kp.initialize(data, range, cs);
                    else kp.initialize(data, cs);
                    out(o, data, ix, cs, twin == 0 && r == 0);
                }
            }
            o << "]";
            std::string s = o.str();
            size_t w = 0; while (w < s.size()) { ssize_t x = write(fd[1], s.data() + w, s.size() - w); if (x <= 0) break; w += x; }
            close(fd[1]); _exit(0);
        }
        close(fd[1]);
        std::string s; char b[65536]; ssize_t r; while ((r = read(fd[0], b, sizeof b)) > 0) s.append(b, r);
        close(fd[0]); int st; waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) printf("{\"crash\":%d}\n", st); else printf("%s\n", s.c_str());
    }
}
