// C22: operations in several threads at once, on own objects and on shared constant ones
#include "../engine/tasks.hpp"
#include <atomic>
#ifdef _OPENMP
#include <omp.h>
#endif
#include <thread>

template<typename T> void concurrent(Ctx& c) {
    World<T> w{c, cat(tname<T>(), ":"), 0}; size_t threads = 2 + c.below(5), groups = 1 + c.below(4);
    std::vector<Task<T>> all; for (size_t g = 0; g < groups; ++g) { w.draw(all, c.chance(1, 3) ? 1 : threads); }
    while (all.size() < threads) { w.draw(all, 1); }
    // tasks go round the threads; every thread repeats its own ones
    std::vector<std::vector<size_t>> plan(threads); for (size_t i = 0; i < all.size(); ++i) { plan[i % threads].push_back(i); }
#ifdef __SANITIZE_THREAD__
    size_t rounds = 2;
#else
    size_t rounds = std::max<size_t>(3, 4000 / (50 + w.work * 2));
#endif
    w.hist += cat(" in ", threads, " threads, ", rounds, " rounds"); c.note(w.hist); c.nontrivial(all.size() >= 2);
    std::vector<std::vector<T>> want(all.size()); bool first = c.chance(1, 3); c.label(first ? "before the sequential run" : "after the sequential run");
    auto sequential = [&] { for (size_t i = 0; i < all.size(); ++i) { want[i] = all[i].run(); for (auto x : want[i]) { PBT_CHECK(finite(x), w.hist, ": ", all[i].name, " yields ", x, " in one thread"); } } };
    if (!first) { sequential(); }
    struct Got { std::vector<std::vector<T>> r; std::string err; }; std::vector<Got> got(threads); std::atomic<size_t> ready{0};
    auto thread_body = [&](size_t t, size_t team) {
        auto& mine = got[t]; if (t < team) { ready.fetch_add(1); while (ready.load() < team) { std::this_thread::yield(); } }
        try { for (size_t q = 0; q < rounds; ++q) { for (auto i : plan[t]) { mine.r.push_back(all[i].run()); } } } catch (const std::exception& e) { mine.err = e.what(); } catch (...) { mine.err = "an exception of unknown type"; }
    };
    bool team_of_omp = false;
#ifdef _OPENMP
    team_of_omp = c.chance(1, 2);        // the user's threads may be those of an OpenMP region
    if (team_of_omp) {
        w.hist += " of an OpenMP region"; c.note("OpenMP region");
        #pragma omp parallel num_threads(static_cast<int>(threads))
        { auto team = static_cast<size_t>(omp_get_num_threads()); for (auto t = static_cast<size_t>(omp_get_thread_num()); t < threads; t += team) { thread_body(t, team); } }
    }
#endif
    if (!team_of_omp) { std::vector<std::thread> pool; for (size_t t = 0; t < threads; ++t) { pool.emplace_back([&, t] { thread_body(t, threads); }); } for (auto& t : pool) { t.join(); } }
    c.label(team_of_omp ? "threads of an OpenMP region" : "std::thread");
    if (first) { sequential(); }
    for (size_t t = 0; t < threads; ++t) {
        PBT_CHECK(got[t].err.empty(), w.hist, ": thread ", t, " failed with ", got[t].err, " where one thread alone does not");
        for (size_t q = 0; q < got[t].r.size(); ++q) {
            auto& task = all[plan[t][q % plan[t].size()]]; auto& ref = want[plan[t][q % plan[t].size()]]; auto& g = got[t].r[q]; PBT_CHECK(g.size() == ref.size(), w.hist, ": ", task.name, " in thread ", t, " yields ", g.size(), " values, alone ", ref.size());
            long double big = 0; for (auto x : ref) { big = std::max(big, amag(x)); } long double tol = task.exact ? -1.0L : (std::is_same_v<T, float> ? 1e-2L : 1e-7L) * (big + 1e-3L);
            for (size_t i = 0; i < g.size(); ++i) {
                // exact tasks: integer arithmetic and one square root (whose last bits a BLAS may round differently from call to call)
                PBT_CHECK(finite(g[i]) && std::fabs(static_cast<long double>(g[i]) - ref[i]) <= (tol < 0 ? 4 * U<T> * std::fabs(static_cast<long double>(ref[i])) : tol), w.hist, ": ", task.name, " in thread ", t, ", round ", q / plan[t].size(), ": value ", i, " is ", g[i], ", in one thread alone ", ref[i]);
            }
        }
    }
}
FACET_FD("concurrent", 500, concurrent);
