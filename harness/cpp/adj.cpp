// one case per line: rep n fresh nops ( code i j w )*  -> JSON list of observations. rep 0 matrix 1 bits 2 list 3 weight list 4 weight matrix; fresh: start by the factory with structure fresh-1 and a weight generator
// codes: 1 set 2 erase 3 weight 4 structure i 5 grid type i, width j, height w 6 copy constructor 7 copy assignment 8 move assignment
#include <bits/stdc++.h>
#include <sys/wait.h>
#include <unistd.h>
#include <pyclustering/container/adjacency_matrix.hpp>
#include <pyclustering/container/adjacency_bit_matrix.hpp>
#include <pyclustering/container/adjacency_list.hpp>
#include <pyclustering/container/adjacency_weight_list.hpp>
#include <pyclustering/container/adjacency_connector.hpp>
#include <pyclustering/container/adjacency_factory.hpp>
using namespace pyclustering::container;
static bool first;
static void observe(std::ostream & o, const adjacency_collection & c, const adjacency_weight_collection * w, bool thrown, size_t n0) {
    size_t n = c.size();
    std::string has, wts; long zero = 0;
    for (size_t i = 0; i < n && i < n0; i++) for (size_t j = 0; j < n; j++) {
        long x = w ? std::lround(w->get_connection_weight(i, j)) : 0;
        if (c.has_connection(i, j)) { has += (has.empty() ? "[" : ",[") + std::to_string(i) + "," + std::to_string(j) + "]"; wts += (wts.empty() ? "" : ",") + std::to_string(x); }
        else if (x) zero++;
    }
    o << (first ? "" : ",") << "{\"thrown\":" << (thrown ? "true" : "false") << ",\"size\":" << n << ",\"has\":[" << has << "],\"wts\":[" << wts << "],\"zero\":" << zero << ",\"neigh\":[";
    first = false;
    std::vector<size_t> v = { 7, 7, 7 };
    for (size_t i = 0; i < n && i < n0; i++) { c.get_neighbors(i, v); o << (i ? ",[" : "["); for (size_t k = 0; k < v.size(); k++) o << (k ? "," : "") << v[k]; o << "]"; }
    o << "]}";
}
template <class C> static void play(std::istream & in, std::ostream & o, C c, size_t n, int nops, int weighted) {
    for (int k = 0; k < nops; k++) {
        int code; long i, j, w; in >> code >> i >> j >> w;
        bool thrown = false;
        auto * wc = dynamic_cast<adjacency_weight_collection *>(&c);
        auto * ac = static_cast<adjacency_collection *>(&c);
        try {
            adjacency_connector<adjacency_collection> con;
            if (code == 1) c.set_connection(i, j);
            else if (code == 2) c.erase_connection(i, j);
            else if (code == 3) wc->set_connection_weight(i, j, w);
            else if (code == 4) con.create_structure((connection_t) i, *ac);
            else if (code == 5) con.create_grid_structure((connection_t) i, j, w, *ac);
            else {
                C t(n);
                if (code == 6) { C u(c); t = std::move(u); } else if (code == 7) t = c; else { t = c; C u(n); u = std::move(t); t = std::move(u); }
                for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) if ((a + b) % 2) c.set_connection(a, b); else c.erase_connection(a, b);
                c = std::move(t);
            }
        } catch (std::exception &) { thrown = true; }
        observe(o, c, weighted ? wc : nullptr, thrown, n);
    }
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::fflush(stdout);
        int fd[2]; if (pipe(fd)) return 1;
        pid_t pid = fork();
        if (!pid) {
            close(fd[0]); alarm(30);
            std::istringstream in(line); std::ostringstream o;
            int rep, n, fresh, nops; in >> rep >> n >> fresh >> nops;
            first = true;
            o << "[";
            if (fresh) {
                double g = 1; bool thrown = false;
                std::shared_ptr<adjacency_weight_collection> c; std::shared_ptr<adjacency_collection> u;
                try {
                    if (rep >= 3) c = adjacency_weight_factory::create_collection(n, rep == 3 ? adjacency_weight_t::ADJACENCY_LIST : adjacency_weight_t::ADJACENCY_MATRIX, (connection_t) (fresh - 1), nops ? std::function<double()>([&g]() { return g += 1; }) : nullptr);
                    else u = adjacency_unweight_factory::create_collection(n, rep == 0 ? adjacency_unweight_t::ADJACENCY_MATRIX : rep == 1 ? adjacency_unweight_t::ADJACENCY_BIT_MATRIX : adjacency_unweight_t::ADJACENCY_LIST, (connection_t) (fresh - 1));
                } catch (std::exception &) { thrown = true; u = std::make_shared<adjacency_list>(n); c = nullptr; }
                adjacency_weight_list empty(n);
                if (c) observe(o, *c, c.get(), thrown, n); else if (thrown) observe(o, empty, &empty, thrown, n); else observe(o, *u, nullptr, thrown, n);
            }
            else if (rep == 0 || rep == 4) play(in, o, adjacency_matrix(n), n, nops, rep == 4);
            else if (rep == 1) play(in, o, adjacency_bit_matrix(n), n, nops, 0);
            else if (rep == 2) play(in, o, adjacency_list(n), n, nops, 0);
            else play(in, o, adjacency_weight_list(n), n, nops, 1);
            o << "]";
            std::string s = o.str();
            size_t w = 0; while (w < s.size()) { ssize_t x = write(fd[1], s.data() + w, s.size() - w); if (x <= 0) break; w += x; }
            close(fd[1]); _exit(0);
        }
        close(fd[1]);
        std::string s; char b[65536]; ssize_t r; while ((r = read(fd[0], b, sizeof b)) > 0) s.append(b, r);
        close(fd[0]); int st; waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) printf("{\"crash\":%d}\n", st); else printf("%s\n", s.c_str());
    }
}
