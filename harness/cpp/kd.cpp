// one case per line: dim ninit havepay (coords payload)*ninit mode nops ( code coords arg )*   -> one JSON line
// codes: 1 ins(w) 2 del 3 delw(w) 4 find 5 findw(w) 6 near(r2) 7 best(r2) 8 near through a user rule
#include <bits/stdc++.h>
#include <sys/wait.h>
#include <unistd.h>
#include <pyclustering/container/kdtree.hpp>
#include <pyclustering/container/kdtree_searcher.hpp>
using namespace pyclustering; using namespace pyclustering::container;
static std::map<const kdnode *, int> pos;
static void walk(const kdnode::ptr & n, std::vector<kdnode *> & v) {
    if (!n || v.size() > 1000) return;
    v.push_back(n.get()); pos[n.get()] = (int) v.size();
    walk(n->get_left(), v); walk(n->get_right(), v);
}
static int id(const kdnode::ptr & n) { return n ? (pos.count(n.get()) ? pos[n.get()] : -1) : 0; }
template <class T> static void dump(std::ostream & o, const T & t) {
    pos.clear(); std::vector<kdnode *> v; walk(t.get_root(), v);
    o << "\"size\":" << t.get_size() << ",\"nodes\":[";
    for (size_t i = 0; i < v.size(); i++) {
        o << (i ? "," : "") << "{\"p\":[";
        auto & p = v[i]->get_data();
        for (size_t k = 0; k < p.size(); k++) o << (k ? "," : "") << (long) std::llround(p[k]);
        o << "],\"w\":" << (long) (intptr_t) v[i]->get_payload() << ",\"d\":" << v[i]->get_discriminator() << ",\"l\":" << id(v[i]->get_left()) << ",\"r\":" << id(v[i]->get_right())
          << ",\"u\":" << id(v[i]->get_parent()) << "}";
    }
    o << "]";
}
template <class T> static void query(std::ostream & o, const T & t, int code, const point & p, long arg) {
    if (code == 4) o << "\"res\":" << id(t.find_node(p));
    else if (code == 5) o << "\"res\":" << id(t.find_node(p, (void *) (intptr_t) arg));
    else if (code == 6 || code == 8) {
        std::vector<double> d; std::vector<kdnode::ptr> ns;
        if (t.get_root()) {
            kdtree_searcher s(p, t.get_root(), arg / 2.0);
            if (code == 6) s.find_nearest_nodes(d, ns);
            else s.find_nearest([&](const kdnode::ptr n, const double x) { ns.push_back(n); d.push_back(x); });
        }
        o << "\"res\":["; for (size_t i = 0; i < ns.size(); i++) o << (i ? "," : "") << id(ns[i]);
        o << "],\"dist\":["; for (size_t i = 0; i < d.size(); i++) o << (i ? "," : "") << (long) std::llround(d[i]);
        o << "]";
    }
    else { kdnode::ptr n; if (t.get_root()) { kdtree_searcher s(p, t.get_root(), arg / 2.0); n = s.find_nearest_node(); } o << "\"res\":["; if (n) o << id(n); o << "]"; }
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::fflush(stdout);
        int fd[2]; if (pipe(fd)) return 1;
        pid_t pid = fork();
        if (!pid) {
            close(fd[0]); alarm(30);
            std::istringstream in(line); std::ostringstream o;
            int dim, n, hp; in >> dim >> n >> hp;
            auto rd = [&] { point p(dim); for (auto & x : p) in >> x; return p; };
            dataset data; std::vector<void *> pay;
            for (int i = 0; i < n; i++) { data.push_back(rd()); long w; in >> w; if (hp) pay.push_back((void *) (intptr_t) w); }
            int mode, no; in >> mode >> no;
            o << "[{";
            if (mode == 0) {
                kdtree t = n ? kdtree(data, pay) : kdtree();
                dump(o, t); o << "}";
                for (int k = 0; k < no; k++) {
                    int c; in >> c; point p = rd(); long a; in >> a;
                    o << ",{";
                    if (c == 1) { t.insert(p, (void *) (intptr_t) a); dump(o, t); }
                    else if (c == 2) { t.remove(p); dump(o, t); }
                    else if (c == 3) { t.remove(p, (void *) (intptr_t) a); dump(o, t); }
                    else query(o, t, c, p, a);
                    o << "}";
                }
            } else {
                kdtree_balanced t(data, pay);
                dump(o, t); o << "}";
                for (int k = 0; k < no; k++) { int c; in >> c; point p = rd(); long a; in >> a; o << ",{"; query(o, t, c, p, a); o << "}"; }
            }
            o << "]\n";
            std::string s = o.str(); size_t off = 0;
            while (off < s.size()) { ssize_t r = write(fd[1], s.data() + off, s.size() - off); if (r <= 0) break; off += (size_t) r; }
            _exit(0);
        }
        close(fd[1]); std::string s; char b[65536]; ssize_t r;
        while ((r = read(fd[0], b, sizeof b)) > 0) s.append(b, (size_t) r);
        close(fd[0]); int st; waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) std::printf("{\"crash\":%d}\n", WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st));
        else std::fputs(s.c_str(), stdout);
    }
}
