// input lines: size nclients wait ndfs bound nrandom seed ntasks(per client)... ; every client adds its tasks (program given by wait:
// 0 add all, then wait all in order; 1 add and wait one after the other; 2 wait in reverse order; 3 every task is waited for twice;
// 5 some through add_task_if_free; 7 all through add_task_if_free; 6 as 0, and every task waits until as many tasks as there are threads are running)
#include <pyclustering/parallel/thread_pool.hpp>
using namespace pyclustering::parallel;
int main() {
    int size, nc, w, nd, bd, nr; unsigned seed;
    while (std::scanf("%d %d %d %d %d %d %u", &size, &nc, &w, &nd, &bd, &nr, &seed) == 7) {
        std::vector<int> nt(nc);
        for (auto & x : nt) if (std::scanf("%d", &x) != 1) return 1;
        std::fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            alarm(60);
            long count = 0;
            auto f = [&] {
                {
                    std::unique_ptr<thread_pool> pool(new thread_pool((std::size_t) size));
                    if ((int) pool->size() != size) vp::ev(9, (int) pool->size());
                    std::mutex meet; std::condition_variable met; int here = 0, need = 0;
                    for (int x : nt) need += x;
                    need = std::min(need, size);
                    auto client = [&](int c, int base) {
                        std::vector<std::pair<int, task::ptr>> mine;
                        for (int k = 0; k < nt[c]; k++) {
                            int id = base + k;
                            auto fn = [id, w, need, &meet, &met, &here] {
                                vp::ev(1, id); vp::S().point();
                                if (w == 6) { std::unique_lock<std::mutex> lk(meet); here++; met.notify_all(); met.wait(lk, [&here, need] { return here >= need; }); }
                                vp::ev(2, id);
                            };
                            task::ptr t;
                            vp::ev(5, id);
                            if (w == 7 || (w == 5 && (k % 2 == 0))) { t = pool->add_task_if_free(fn); if (!t) { vp::ev(10, id); continue; } }
                            else t = pool->add_task(fn);
                            vp::ev((w == 7 || (w == 5 && (k % 2 == 0))) ? 12 : 11, id);
                            mine.push_back({id, t});
                            if (w == 1) { vp::ev(6, id); t->wait_ready(); vp::ev(7, id); }
                        }
                        if (w == 2) std::reverse(mine.begin(), mine.end());
                        if (w != 1) for (auto & p : mine) { vp::ev(6, p.first); p.second->wait_ready(); vp::ev(7, p.first); }
                        if (w == 3) for (auto & p : mine) { vp::ev(6, p.first); p.second->wait_ready(); vp::ev(7, p.first); }
                        return mine;
                    };
                    std::vector<std::thread> cl;
                    int base = nt[0];
                    for (int c = 1; c < nc; c++) { int b = base; cl.emplace_back([&client, c, b] { client(c, b); }); base += nt[c]; }
                    client(0, 0);
                    for (auto & t : cl) t.join();
                    vp::ev(8, 0);
                    pool.reset();
                }
                vp::ev(3, 0);
            };
            auto runs = vp::explore(f, nd, bd, nr, seed, count, [&](const std::vector<std::array<int, 2>> & e) {
                vp::dump(stdout, std::vector<std::vector<std::array<int, 2>>>{e}, "stuck", count); _exit(0); });
            vp::dump(stdout, runs, "ok", count);
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { std::printf("{\"status\":\"crash\",\"count\":0,\"runs\":[],\"code\":%d}\n", WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st)); std::fflush(stdout); }
    }
}
