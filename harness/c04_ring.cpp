// C04: ring against a bounded deque, with lifetime ledger.
#include "vh.h"
#include "arena.h"
#include "Awl/Ring.h"

#include <deque>
#include <algorithm>
#include <numeric>
#include <string>

using vh::Case;

namespace
{
    struct Model
    {
        std::deque<int> d; size_t cap = 0;
        void pb(int v) { d.push_back(v); if (d.size() > cap) d.pop_front(); }
        void pf(int v) { d.push_front(v); if (d.size() > cap) d.pop_back(); }
    };

    int val(int x) { return x; }
    int val(const vh::Obj& o) { return o.get(); }
    int val(const std::string& s) { return atoi(s.c_str() + 20); }
    template <class T> T mk(int v) { return T(v); }
    template <> std::string mk<std::string>(int v) { return "a string, not small." + std::to_string(v); }

    template <class R>
    void check(Case& c, R& r, const Model& m, const char* w)
    {
        const int64_t cd = vh::ledger().countdown; vh::ledger().countdown = -1;
        const R& cr = r; const size_t n = m.d.size();
        VH_CHECK(c, cr.size() == n && cr.empty() == (n == 0), "size", "%s: size %zu, model %zu", w, cr.size(), n);
        VH_CHECK(c, cr.capacity() == m.cap && cr.full() == (n == m.cap), "capacity", "%s: capacity %zu, model %zu", w, cr.capacity(), m.cap);
        for (size_t i = 0; i < n; ++i) VH_CHECK(c, val(cr[i]) == m.d[i] && &r[i] == &cr[i] && &r.at(i) == &cr[i] && &cr.at(i) == &cr[i], "index", "%s: element %zu of %zu is %d, model %d", w, i, n, val(cr[i]), m.d[i]);
        for (size_t bad : { n, n + 1, n + 100 })
        {
            int t = 0; try { (void)r.at(bad); } catch (const std::out_of_range&) { ++t; } try { (void)cr.at(bad); } catch (const std::out_of_range&) { ++t; }
            VH_CHECK(c, t == 2, "at-range", "%s: at(%zu) of %zu elements does not throw", w, bad, n);
        }
        if (n) VH_CHECK(c, val(cr.front()) == m.d.front() && val(cr.back()) == m.d.back() && &r.front() == &r[0] && &r.back() == &r[n - 1], "front-back", "%s: front/back", w);
        size_t k = 0;
        for (auto& x : r) { VH_CHECK(c, k < n && &x == &r[k], "iterate", "%s: iteration at %zu", w, k); ++k; }
        VH_CHECK(c, k == n, "iterate", "%s: iteration yields %zu of %zu", w, k, n);
        k = 0; for (auto& x : cr) { VH_CHECK(c, k < n && &x == &cr[k], "iterate", "%s: const iteration at %zu", w, k); ++k; }
        k = n; for (auto i = r.rbegin(); i != r.rend(); ++i) { VH_CHECK(c, k > 0 && &*i == &r[k - 1], "reverse", "%s: reverse iteration at %zu", w, k); --k; }
        VH_CHECK(c, k == 0, "reverse", "%s: reverse iteration", w);
        k = n; for (auto i = cr.rbegin(); i != cr.rend(); ++i) { VH_CHECK(c, k > 0 && &*i == &cr[k - 1], "reverse", "%s: const reverse iteration", w); --k; }
        VH_CHECK(c, r.end() - r.begin() == static_cast<std::ptrdiff_t>(n) && cr.end() - cr.begin() == static_cast<std::ptrdiff_t>(n), "distance", "%s: end - begin", w);
        if (n)
        {
            auto i = r.begin(); i += n - 1; VH_CHECK(c, &*i == &r.back() && &*(r.begin() + (n - 1)) == &r.back() && &*(r.end() - 1) == &r.back(), "iterator-arithmetic", "%s: iterator arithmetic", w);
            i -= n - 1; VH_CHECK(c, i == r.begin() && (n < 2 || r.begin() < i + 1), "iterator-arithmetic", "%s: iterator arithmetic", w);
            auto e = r.end(); --e; VH_CHECK(c, &*e == &r.back(), "iterator-decrement", "%s: --end()", w); auto old = e--; VH_CHECK(c, &*old == &r.back(), "iterator-decrement", "%s: end--", w);
            auto f = r.begin(); auto fo = f++; VH_CHECK(c, &*fo == &r.front() && f - fo == 1, "iterator-increment", "%s: begin()++", w);
            typename R::const_iterator ci = r.begin(); VH_CHECK(c, &*ci == &cr.front(), "iterator-conversion", "%s", w);
        }
        VH_CHECK(c, !vh::ledger().bad, "ledger", "%s: %s", w, vh::ledger().what.c_str());
        vh::ledger().countdown = cd;
    }

    uint64_t h(const Model& m) { uint64_t x = vh::mix(m.cap * 64 + m.d.size()); for (int v : m.d) x = vh::mix(x ^ static_cast<uint64_t>(v)); return x; }

    void finish(Case& c)
    {
        VH_CHECK(c, !vh::ledger().bad, "ledger", "%s", vh::ledger().what.c_str());
        VH_CHECK(c, vh::ledger().live.empty(), "leaked-elements", "%zu elements were never destroyed", vh::ledger().live.size());
        VH_CHECK(c, blocks().empty(), "leaked-memory", "%zu blocks were never released", blocks().size());
    }

    template <class T>
    void history(Case& c, size_t ops)
    {
        vh::ledger().reset(); blocks().clear();
        {
            using R = awl::ring<T, ArenaAlloc<T>>;
            std::vector<std::unique_ptr<R>> r; std::vector<Model> m;
            auto fresh = [&](int arena) { size_t cap = c.rng.chance(1, 12) ? 0 : c.rng.pick({ 1, 2, 3, 4, 5, 8, 13 }); m.push_back({ {}, cap }); r.push_back(cap ? std::make_unique<R>(cap, ArenaAlloc<T>(arena)) : std::make_unique<R>(ArenaAlloc<T>(arena))); };
            for (int i = 0; i < 3; ++i) fresh(i + 1);
            int next = 1;
            for (size_t op = 0; op < ops; ++op)
            {
                const int a = static_cast<int>(c.rng.below(3)), b = static_cast<int>(c.rng.below(3));
                R& x = *r[a]; Model& mx = m[a]; const int v = next++;
                const char* w = "?";
                switch (c.rng.below(20))
                {
                case 0: case 1: case 2: case 3: w = "push_back(const&)"; if (mx.cap) { const T t = mk<T>(v); x.push_back(t); mx.pb(v); } break;
                case 4: w = "push_back(&&)"; if (mx.cap) { x.push_back(mk<T>(v)); mx.pb(v); } break;
                case 5: case 6: w = "push_front(const&)"; if (mx.cap) { const T t = mk<T>(v); x.push_front(t); mx.pf(v); } break;
                case 7: w = "push_front(&&)"; if (mx.cap) { x.push_front(mk<T>(v)); mx.pf(v); } break;
                case 8: w = "push_back(own element)"; if (!mx.d.empty()) { size_t i = c.rng.below(mx.d.size()); int q = mx.d[i]; x.push_back(x[i]); mx.pb(q); } break;
                case 9: w = "push_front(own element)"; if (!mx.d.empty()) { size_t i = c.rng.below(mx.d.size()); int q = mx.d[i]; x.push_front(x[i]); mx.pf(q); } break;
                case 10: w = "pop_front"; if (!mx.d.empty()) { x.pop_front(); mx.d.pop_front(); } break;
                case 11: w = "pop_back"; if (!mx.d.empty()) { x.pop_back(); mx.d.pop_back(); } break;
                case 12: w = "clear"; x.clear(); mx.d.clear(); break;
                case 13: { w = "copy construction"; auto n = std::make_unique<R>(*r[b]); check(c, *n, m[b], w); VH_CHECK(c, *n == *r[b], "equality", "copy differs"); if (!m[b].d.empty()) VH_CHECK(c, &(*n)[0] != &(*r[b])[0], "shared-element", "copy shares an element"); if (a != b) { r[a] = std::move(n); m[a] = m[b]; } break; }
                case 14: { w = "move construction"; auto n = std::make_unique<R>(std::move(*r[b])); Model mb = m[b]; m[b].d.clear(); check(c, *n, mb, w); 
                    // a moved-from ring may be assigned, reserved or destroyed
                    VH_CHECK(c, r[b]->empty() && r[b]->size() == 0 && r[b]->begin() == r[b]->end(), "moved-from", "moved-from ring is not empty");
                    *r[b] = *n; m[b] = mb; if (a != b) { r[a] = std::move(n); m[a] = mb; } break; }
                case 15: w = "copy assignment"; x = *r[b]; mx = m[b]; VH_CHECK(c, x == *r[b], "equality", "assigned copy differs"); break;
                case 16: { w = "move assignment"; if (a == b) break; Model mb = m[b]; x = std::move(*r[b]); VH_CHECK(c, r[b]->empty(), "moved-from", "moved-from ring is not empty"); mx = mb; m[b] = { {}, 3 }; r[b]->reserve(3); break; }
                case 17: { w = "swap"; if (a == b) break; std::swap(x, *r[b]); std::swap(mx, m[b]); break; }
                case 18: { w = "reserve"; size_t cap = 1 + c.rng.below(10); x.reserve(cap); mx.cap = cap; while (mx.d.size() > cap) mx.d.pop_front(); break; }
                default: { w = "in-place modification"; if (!mx.d.empty()) { size_t i = c.rng.below(mx.d.size()); x[i] = mk<T>(v); mx.d[i] = v; } break; }
                }
                c.count(w); c.eval(); c.distinct(h(m[a]) ^ vh::hash_str(w));
                for (int i = 0; i < 3; ++i) check(c, *r[i], m[i], w);
                for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) VH_CHECK(c, (*r[i] == *r[j]) == (m[i].d == m[j].d), "equality", "equality disagrees with contents after %s", w);
            }
            if (c.want_sample()) c.sample(vh::fmt("%zu operations on three rings, final sizes %zu/%zu %zu/%zu %zu/%zu", ops, m[0].d.size(), m[0].cap, m[1].d.size(), m[1].cap, m[2].d.size(), m[2].cap));
        }
        finish(c);
    }
}

VH_CASE(histories_obj, 4) { c.iterate(c.n(400, 8000), [&](uint64_t) { history<vh::Obj>(c, 80); }); }
VH_CASE(histories_int, 2) { c.iterate(c.n(300, 6000), [&](uint64_t) { history<int>(c, 120); }); }
VH_CASE(histories_string, 2) { c.iterate(c.n(200, 4000), [&](uint64_t) { history<std::string>(c, 100); }); }

// Every word of operations up to a length for small capacities.
VH_CASE(exhaustive_words, 6)
{
    const int len = c.thorough ? 9 : 7;
    uint64_t id = 0;
    for (int cap = 1; cap <= 4; ++cap)
    {
        uint64_t total = 1; for (int i = 0; i < len; ++i) total *= 4;
        for (uint64_t w = 0; w < total; ++w)
        {
            if (id++ % c.shards != c.shard) continue;
            vh::ledger().reset(); blocks().clear();
            c.begin(id);
            {
                awl::ring<int, ArenaAlloc<int>> r(cap, ArenaAlloc<int>(1)); Model m{ {}, static_cast<size_t>(cap) };
                uint64_t q = w; int v = 1; bool skip = false;
                for (int i = 0; i < len && !skip; ++i, q /= 4)
                {
                    switch (q % 4)
                    {
                    case 0: r.push_back(v); m.pb(v); ++v; break;
                    case 1: r.push_front(v); m.pf(v); ++v; break;
                    case 2: if (m.d.empty()) skip = true; else { r.pop_front(); m.d.pop_front(); } break;
                    default: if (m.d.empty()) skip = true; else { r.pop_back(); m.d.pop_back(); } break;
                    }
                    bool same = r.size() == m.d.size(); for (size_t j = 0; same && j < m.d.size(); ++j) same = r[j] == m.d[j];
                    VH_CHECK(c, same, "word", "capacity %d word %llu step %d", cap, static_cast<unsigned long long>(w), i);
                }
                if (!skip) { check(c, r, m, "word"); awl::ring<int, ArenaAlloc<int>> cp(r); check(c, cp, m, "copied word"); cp.push_back(99); Model mc = m; mc.pb(99); check(c, cp, mc, "copied word"); awl::ring<int, ArenaAlloc<int>> mv(std::move(r)); check(c, mv, m, "moved word"); c.eval(); c.distinct(vh::mix(w * 5 + cap)); }
            }
            finish(c);
        }
    }
    c.sample(vh::fmt("all words of %d push/pop operations for capacities 1..4", len));
}

// Every throw point of every constructing operation, in every rotation of the buffer.
VH_CASE(throw_points, 4)
{
    c.iterate(c.n(600, 8000), [&](uint64_t)
    {
        const size_t cap = 1 + c.rng.below(5); const size_t pre = c.rng.below(2 * cap + 1), pops = c.rng.below(cap + 1); const unsigned what = static_cast<unsigned>(c.rng.below(7)); const bool frontwards = c.rng.flip();
        static const char* names[] = { "push_back(const&)", "push_front(const&)", "push_back(own)", "push_front(own)", "copy construction", "copy assignment", "push_back(&&)" };
        for (int k = 0; k < 60; ++k)
        {
            vh::ledger().reset(); blocks().clear();
            bool threw = false;
            {
                using R = awl::ring<vh::Obj, ArenaAlloc<vh::Obj>>;
                R r(cap, ArenaAlloc<vh::Obj>(1)), o(2, ArenaAlloc<vh::Obj>(2)); Model m{ {}, cap }, mo{ {}, 2 };
                for (size_t i = 0; i < pre; ++i) { vh::Obj x(static_cast<int>(i)); if (frontwards) { r.push_front(x); m.pf(static_cast<int>(i)); } else { r.push_back(x); m.pb(static_cast<int>(i)); } }
                for (size_t i = 0; i < pops && !m.d.empty(); ++i) { r.pop_front(); m.d.pop_front(); }
                o.push_back(vh::Obj(70)); mo.pb(70);
                Model after = m; vh::Obj x(50);
                vh::ledger().countdown = k == 0 ? -1 : k;
                try
                {
                    switch (what)
                    {
                    case 0: after.pb(50); r.push_back(x); break;
                    case 1: after.pf(50); r.push_front(x); break;
                    case 2: if (!m.d.empty()) { after.pb(m.d.front()); r.push_back(r.front()); } break;
                    case 3: if (!m.d.empty()) { after.pf(m.d.back()); r.push_front(r.back()); } break;
                    case 4: { R cp(r); break; }
                    case 5: after = m; o = r; mo = m; break;
                    default: after.pb(50); r.push_back(std::move(x)); break;
                    }
                }
                catch (const vh::Ledger::Thrown&) { threw = true; after = m; }
                vh::ledger().countdown = -1;
                c.eval(); c.count("throws", threw); c.distinct(vh::mix(what * 64 + k) ^ h(m));
                check(c, r, after, names[what]);
                if (!(threw && what == 5)) check(c, o, mo, names[what]);
                r.push_back(vh::Obj(7)); after.pb(7); check(c, r, after, "push after an exception");
            }
            finish(c);
            if (k > 0 && !threw) break;
        }
        if (c.want_sample()) c.sample(vh::fmt("%s with capacity %zu after %zu pushes and %zu pops", names[what], cap, pre, pops));
    });
}

// Standard algorithms through the iterators.
VH_CASE(algorithms, 1)
{
    c.iterate(c.n(400, 4000), [&](uint64_t)
    {
        const size_t cap = 1 + c.rng.below(20), n = c.rng.below(3 * cap);
        awl::ring<int> r(cap); Model m{ {}, cap };
        for (size_t i = 0; i < n; ++i) { int v = static_cast<int>(c.rng.below(50)); r.push_back(v); m.pb(v); }
        VH_CHECK(c, std::accumulate(r.begin(), r.end(), 0) == std::accumulate(m.d.begin(), m.d.end(), 0), "accumulate", "sum differs");
        int k = static_cast<int>(c.rng.below(50));
        VH_CHECK(c, std::find(r.begin(), r.end(), k) - r.begin() == std::find(m.d.begin(), m.d.end(), k) - m.d.begin(), "find", "find differs");
        std::reverse(m.d.begin(), m.d.end()); std::reverse(r.begin(), r.end()); check(c, r, m, "reverse");
        awl::ring<int> e; VH_CHECK(c, e.empty() && e.size() == 0 && e.begin() == e.end(), "default", "default-constructed ring");
        awl::ring<int> e2(e); awl::ring<int> e3(std::move(e2)); e3 = e; VH_CHECK(c, e3 == e && e3.empty(), "default", "copy of a default-constructed ring");
        e3 = r; check(c, e3, m, "assign to default");
        c.eval(); c.distinct(h(m));
    });
    c.sample("std::accumulate, find, reverse over rotated rings");
}

// Capacities beyond 16 bits, pushes at both ends, own elements moved in.
VH_CASE(large, 2)
{
    c.iterate(c.n(4, 30), [&](uint64_t)
    {
        const size_t cap = c.rng.pick({ 65536, 66000, 100001 }); awl::ring<int> r(cap); Model m{ {}, cap }; const bool front = c.rng.flip();
        for (size_t i = 0, n = cap + c.rng.below(cap); i < n; ++i) { const int v = static_cast<int>(i); if (front) { r.push_front(v); m.pf(v); } else { r.push_back(v); m.pb(v); } }
        auto same = [&](awl::ring<int>& x, const char* w) { VH_CHECK(c, x.size() == m.d.size() && x.capacity() == cap && x.full() == (m.d.size() == cap), "size", "%s: size %zu of %zu", w, x.size(), m.d.size()); VH_CHECK(c, std::equal(x.begin(), x.end(), m.d.begin(), m.d.end()) && std::equal(x.rbegin(), x.rend(), m.d.rbegin(), m.d.rend()), "iterate", "%s of capacity %zu", w, cap); for (int q = 0; q < 200; ++q) { const size_t i = c.rng.below(m.d.size()); VH_CHECK(c, x[i] == m.d[i] && x.at(i) == m.d[i], "index", "%s: element %zu of %zu", w, i, m.d.size()); } c.eval(200); };
        same(r, "built"); for (size_t i = 0, n = c.rng.below(1000); i < n; ++i) { r.pop_front(); r.pop_back(); m.d.pop_front(); m.d.pop_back(); } same(r, "popped");
        awl::ring<int> cp(r); VH_CHECK(c, cp == r, "equality", "a copy of %zu elements differs", r.size()); cp.push_back(-5); m.pb(-5); same(cp, "copied"); r = cp; same(r, "assigned"); std::sort(r.begin(), r.end()); std::sort(m.d.begin(), m.d.end()); same(r, "sorted"); c.distinct(vh::mix(cap + front) ^ m.d.size());
    });
}

VH_MAIN()
