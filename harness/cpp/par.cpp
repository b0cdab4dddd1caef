// input lines: kind start end step threads ndfs bound nrandom seed      (kind: 0 parallel_for size_t, 1 int, 2 long, 3 for default threads,
// 4 for_each vector, 5 for_each deque, 6 for_each container default threads)
#include <pyclustering/parallel/parallel.hpp>
using namespace pyclustering::parallel;
static void body(long i) { vp::ev(1, (int) i); vp::S().point(); vp::ev(2, (int) i); }
int main() {
    int kind; long a, b, s, th; int nd, bd, nr; unsigned seed;
    while (std::scanf("%d %ld %ld %ld %ld %d %d %d %u", &kind, &a, &b, &s, &th, &nd, &bd, &nr, &seed) == 9) {
        std::fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            alarm(60);
            long count = 0;
            auto f = [&] {
                switch (kind) {
                case 0: parallel_for(std::size_t(a), std::size_t(b), std::size_t(s), [](std::size_t i) { body((long) i); }, std::size_t(th)); break;
                case 1: parallel_for(int(a), int(b), int(s), [](int i) { body(i); }, std::size_t(th)); break;
                case 2: parallel_for(a, b, s, [](long i) { body(i); }, std::size_t(th)); break;
                case 3: parallel_for(std::size_t(a), std::size_t(b), [](std::size_t i) { body((long) i); }); break;
                case 4: { std::vector<long> v; for (long i = a; i < b; i++) v.push_back(i); parallel_for_each(v.begin(), v.end(), [](long i) { body(i); }, std::size_t(th)); break; }
                case 5: { std::deque<long> v; for (long i = a; i < b; i++) v.push_back(i); parallel_for_each(v.cbegin(), v.cend(), [](long i) { body(i); }, std::size_t(th)); break; }
                case 6: { std::vector<long> v; for (long i = a; i < b; i++) v.push_back(i); parallel_for_each(v, [](long i) { body(i); }); break; }
                }
                vp::ev(3, 0);
                for (int k = 0; k < 50; k++) {          // whatever still runs may go on now
                    bool any = false;
                    for (auto & x : vp::S().t) if (x->id && !x->done) any = true;
                    if (!any) break;
                    std::this_thread::yield();
                }
            };
            auto runs = vp::explore(f, nd, bd, nr, seed, count, [&](const std::vector<std::array<int, 2>> & e) {
                vp::dump(stdout, std::vector<std::vector<std::array<int, 2>>>{e}, "stuck", count); _exit(0); });
            vp::dump(stdout, runs, "ok", count);
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { std::printf("{\"status\":\"crash\",\"count\":0,\"runs\":[],\"code\":%d}\n", WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st)); std::fflush(stdout); }
    }
}
