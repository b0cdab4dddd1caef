// one case per line, one JSON answer: 1 metric degnum degden plain dim n coordinates range num -> distance matrix, farthest, average to num nearest
// 2 op n a b x -> vector (op 1 a-b 2 a-x 3 a*b 4 a*x 5 a/b 6 a/x 7 sum 8 mean,var,std 9 heaviside, |a-b| of integers) 3 op rows cols m b -> matrix (1 m*b 2 sum axis 0 3 sum axis 1) 4 cmp n list -> index
#include <bits/stdc++.h>
#include <sys/wait.h>
#include <unistd.h>
#include <pyclustering/utils/metric.hpp>
#include <pyclustering/utils/linalg.hpp>
#include <pyclustering/utils/stats.hpp>
#include <pyclustering/utils/math.hpp>
#include <pyclustering/utils/algorithm.hpp>
using namespace pyclustering;
using namespace pyclustering::utils;
static long fx(double v) { return std::isnan(v) ? 2000000003L : std::isinf(v) ? (v > 0 ? 2000000001L : -2000000001L) : std::fabs(v) > 190000 ? 2000000000L : std::lround(v * 10000); }
static std::vector<double> seq(std::istream & in, int n) { std::vector<double> r(n); for (auto & x : r) in >> x; return r; }
static std::string vec(const std::vector<double> & v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(fx(v[i])); return s + "]"; }
template <class M> static std::string mat(const M & m) { std::string s = "["; for (size_t i = 0; i < m.size(); i++) s += (i ? "," : "") + vec(m[i]); return s + "]"; }
static void play(std::istream & in, std::ostream & o) {
    int mode, op; in >> mode >> op;
    if (mode == 1) {
        using F = metric::distance_metric_factory<point>;
        double a, b; int plain, dim, n, num; in >> a >> b >> plain >> dim >> n;
        std::vector<point> p(n); for (auto & x : p) x = seq(in, dim);
        point range = seq(in, dim); in >> num;
        metric::distance_metric<point> m = op == 1 ? F::euclidean() : op == 2 ? F::euclidean_square() : op == 3 ? F::manhattan() : op == 4 ? F::chebyshev() : op == 5 ? F::minkowski(a / b) : op == 6 ? F::canberra() :
            op == 7 ? F::chi_square() : op == 8 ? F::gower(range) : F::user_defined([](const point & x, const point & y) { double r = 0; for (size_t i = 0; i < x.size(); i++) r += (i + 1) * std::fabs(x[i] - y[i]); return r; });
        metric::distance_metric<point> copy = m, other = F::chebyshev();
        other = m; if (n % 3 == 1) m = copy; else if (n % 3 == 2) m = other;
        std::vector<point> keep = p, dm(2, point(7, 3.0));
        if (plain && op == 1) metric::distance_matrix(p, dm); else metric::distance_matrix(p, m, dm);
        o << "{\"dm\":" << mat(dm) << ",\"far\":" << fx(metric::farthest_distance(p, m)) << ",\"avg\":" << (num ? fx(metric::average_neighbor_distance(&p, num)) : 0) << ",\"same\":" << (keep == p ? "true" : "false") << "}";
    }
    else if (mode == 2) {
        int n; in >> n; auto a = seq(in, n), b = seq(in, n); double x; in >> x;
        std::vector<double> r;
        switch (op) {
            case 1: r = linalg::subtract(a, b); break; case 2: r = linalg::subtract(a, x); break; case 3: r = linalg::multiply(a, b); break; case 4: r = linalg::multiply(a, x); break;
            case 5: r = linalg::divide(a, b); break; case 6: r = linalg::divide(a, x); break; case 7: r = { linalg::sum(a) }; break;
            case 8: r = { stats::mean(a), stats::var(a), stats::std(a), stats::var(a, x), stats::std(a, x) }; break;
            case 9: r = { math::heaviside(x), (double) math::absolute_difference((size_t) (a[0] + 9), (size_t) (b[0] + 9)), math::absolute_difference(a[0], b[0]) }; break;
        }
        o << "{\"res\":" << vec(r) << "}";
    }
    else if (mode == 3) {
        int n, c; in >> n >> c; std::vector<std::vector<double>> m(n); for (auto & x : m) x = seq(in, c);
        auto b = seq(in, c);
        if (op == 1) o << "{\"res\":" << mat(linalg::multiply(m, b)) << "}"; else o << "{\"res\":" << vec(linalg::sum(m, op - 2)) << "}";
    }
    else {
        int n; in >> n; std::vector<int> s(n); for (auto & x : s) in >> x;
        auto it = op == 0 ? algorithm::find_left_element(s.begin(), s.end()) : algorithm::find_left_element(s.begin(), s.end(), [](int x, int y) { return x > y; });
        o << "{\"res\":" << it - s.begin() << "}";
    }
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::fflush(stdout);
        int fd[2]; if (pipe(fd)) return 1;
        pid_t pid = fork();
        if (!pid) {
            close(fd[0]); alarm(30);
            std::istringstream in(line); std::ostringstream o;
            play(in, o);
            std::string s = o.str();
            size_t w = 0; while (w < s.size()) { ssize_t x = write(fd[1], s.data() + w, s.size() - w); if (x <= 0) break; w += x; }
            close(fd[1]); _exit(0);
        }
        close(fd[1]);
        std::string s; char b[65536]; ssize_t r; while ((r = read(fd[0], b, sizeof b)) > 0) s.append(b, r);
        close(fd[0]); int st; waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) printf("{\"crash\":%d}\n", st); else printf("%s\n", s.c_str());
    }
}
