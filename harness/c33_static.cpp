// C33: the first use of a static singleton by several threads at once.
#include "vh.h"
#include "Awl/StaticSingleton.h"
#include <atomic>
#include <string>
#include <thread>
#include <vector>
using vh::Case;
namespace
{
    std::atomic<int> made{ 0 };
    template <int N> struct S { std::string text = std::string(40, 's') + std::to_string(N); int n = N; S() { ++made; std::this_thread::yield(); } };
    struct Seen { const void* p; bool good; };
    template <int N> Seen use() { auto& s = awl::static_singleton<S<N>>(); return { &s, s.n == N && s.text == std::string(40, 's') + std::to_string(N) }; }
    void one(Case& c, int N, Seen (*get)())
    {
        const int before = made; std::atomic<int> ready{ 0 }; std::atomic<bool> go{ false }; std::vector<const void*> seen(6); std::vector<std::thread> t; c.eval(); std::atomic<int> bad{ 0 };
        for (size_t i = 0; i < seen.size(); ++i) t.emplace_back([&, i] { ++ready; while (!go) { } const Seen s = get(); seen[i] = s.p; if (!s.good) ++bad; });
        while (ready < static_cast<int>(seen.size())) std::this_thread::yield(); go = true; for (auto& x : t) x.join();
        VH_CHECK(c, made == before + 1, "once", "%d instances of a static singleton", made - before); VH_CHECK(c, !bad, "value", "an instance is used before it is made"); for (auto p : seen) VH_CHECK(c, p == seen[0] && p == get().p, "shared", "another instance"); c.count("first uses"); c.distinct(static_cast<uint64_t>(N));
    }
    template <int N> void all(Case& c) { if constexpr (N > 0) { one(c, N, use<N>); all<N - 1>(c); } }
}
VH_CASE(first_use, 1) { c.iterate(1, [&](uint64_t) { all<60>(c); }); c.sample("6 threads, 60 types"); }
VH_MAIN()
