// C03: value semantics, element stability and resource safety of vector_set.
#include "vh.h"
#include "arena.h"
#include "Awl/VectorSet.h"

#include <set>

using vh::Case;

namespace
{
    struct ObjLess
    {
        using is_transparent = void;
        bool operator()(const vh::Obj& a, const vh::Obj& b) const { return a < b; }
        bool operator()(const vh::Obj& a, int b) const { vh::ledger().point(); return a.get() < b; }
        bool operator()(int a, const vh::Obj& b) const { vh::ledger().point(); return a < b.get(); }
    };

    using S = awl::vector_set<vh::Obj, ObjLess, ArenaAlloc<vh::Obj>>;
    using M = std::set<int>;

    // Contents, order, index answers and liveness, with throw points disarmed.
    void check(Case& c, const S& s, const M& m, const char* when)
    {
        const int64_t cd = vh::ledger().countdown; vh::ledger().countdown = -1;
        VH_CHECK(c, s.size() == m.size() && s.empty() == m.empty(), "contents", "%s: size %zu, expected %zu", when, s.size(), m.size());
        auto i = m.begin(); size_t k = 0;
        for (const vh::Obj& o : s)
        {
            VH_CHECK(c, i != m.end() && o.get() == *i, "contents", "%s: element %zu differs", when, k);
            VH_CHECK(c, &s[k] == &o && s.index_of(*i) == k, "contents", "%s: position %zu differs", when, k);
            ++i; ++k;
        }
        VH_CHECK(c, i == m.end(), "contents", "%s: iteration ends early", when);
        VH_CHECK(c, !vh::ledger().bad, "ledger", "%s: %s", when, vh::ledger().what.c_str());
        vh::ledger().countdown = cd;
    }

    void finish(Case& c, const char* when)
    {
        auto& l = vh::ledger(); l.countdown = -1;
        VH_CHECK(c, !l.bad, "ledger", "%s: %s", when, l.what.c_str());
        VH_CHECK(c, l.live.empty(), "leaked-elements", "%s: %zu elements were never destroyed", when, l.live.size());
        VH_CHECK(c, blocks().empty(), "leaked-memory", "%s: %zu blocks were never released", when, blocks().size());
    }

    void fill(vh::Rng& r, S& s, M& m, size_t n, int range)
    {
        for (size_t i = 0; i < n; ++i) { int k = static_cast<int>(r.below(range)); s.insert(vh::Obj(k)); m.insert(k); }
    }
}

// Copies, moves, assignments between sets with different arenas; addresses of elements never change.
VH_CASE(value_histories, 6)
{
    c.iterate(c.n(600, 12000), [&](uint64_t)
    {
        vh::ledger().reset(); blocks().clear();
        {
            const int range = c.rng.pick({ 4, 10, 40 });
            std::vector<std::unique_ptr<S>> s; std::vector<M> m;
            for (int i = 0; i < 3; ++i) { s.push_back(std::make_unique<S>(ObjLess{}, ArenaAlloc<vh::Obj>(i + 1))); m.emplace_back(); fill(c.rng, *s[i], m[i], c.rng.below(12), range); }
            std::vector<std::map<int, const vh::Obj*>> addr(3);
            auto remember = [&](int i) { addr[i].clear(); for (const vh::Obj& o : *s[i]) addr[i][o.get()] = &o; };
            auto stable = [&](int i, const char* w) { for (const vh::Obj& o : *s[i]) { auto a = addr[i].find(o.get()); VH_CHECK(c, a == addr[i].end() || a->second == &o, "moved-in-memory", "element %d moved in memory during %s", o.get(), w); } };
            for (int i = 0; i < 3; ++i) remember(i);
            const size_t ops = 10 + c.rng.below(30);
            for (size_t op = 0; op < ops; ++op)
            {
                const int a = static_cast<int>(c.rng.below(3)); int b = static_cast<int>(c.rng.below(3));
                const char* w = "?";
                switch (c.rng.below(12))
                {
                case 0: case 1: case 2: { w = "insert"; int k = static_cast<int>(c.rng.below(range)); bool f = c.rng.flip() ? s[a]->emplace(k).second : s[a]->insert(vh::Obj(k)).second; VH_CHECK(c, f == m[a].insert(k).second, "insert-result", "insert"); stable(a, w); break; }
                case 3: case 4: { w = "erase"; int k = static_cast<int>(c.rng.below(range)); VH_CHECK(c, s[a]->erase(k) == m[a].erase(k), "erase-result", "erase"); stable(a, w); break; }
                case 5: { w = "copy construction"; auto n = std::make_unique<S>(*s[b]); VH_CHECK(c, *n == *s[b] && n->get_allocator() == s[b]->get_allocator(), "copy", "copy differs from its source"); check(c, *n, m[b], w); stable(b, w);
                    for (const vh::Obj& o : *n) for (const vh::Obj& p : *s[b]) VH_CHECK(c, &o != &p, "shared-element", "copy shares an element");
                    if (a != b) { s[a] = std::move(n); m[a] = m[b]; } else { int k = range + 1; n->emplace(k); VH_CHECK(c, !s[b]->contains(k), "copy-independent", "changing a copy changes the source"); } break; }
                case 6: { w = "move construction"; const M mb = m[b]; auto n = std::make_unique<S>(std::move(*s[b])); check(c, *n, mb, w); m[b].clear(); check(c, *s[b], m[b], "moved-from set");
                    for (const vh::Obj& o : *n) VH_CHECK(c, addr[b][o.get()] == &o, "moved-in-memory", "element %d moved in memory during move construction", o.get());
                    if (c.rng.flip()) { s[b]->emplace(1); m[b].insert(1); } s[a] = std::move(n); m[a] = mb; break; }
                case 7: { w = "copy assignment"; *s[a] = *s[b]; m[a] = m[b]; VH_CHECK(c, *s[a] == *s[b], "copy-assign", "copy assignment differs from its source"); if (a == b) stable(a, w); break; }
                case 8: { w = "move assignment"; if (a == b) { b = (a + 1) % 3; } *s[a] = std::move(*s[b]); m[a] = m[b]; m[b].clear();
                    for (const vh::Obj& o : *s[a]) VH_CHECK(c, addr[b][o.get()] == &o, "moved-in-memory", "element %d moved in memory during move assignment", o.get()); break; }
                case 9: { w = "swap"; if (a == b) break; std::swap(*s[a], *s[b]); std::swap(m[a], m[b]); std::swap(addr[a], addr[b]); stable(a, w); stable(b, w); break; }
                case 10: { w = "clear"; s[a]->clear(); m[a].clear(); VH_CHECK(c, s[a]->begin() == s[a]->end(), "clear", "cleared set is not empty"); break; }
                default: { w = "destroy and recreate"; s[a] = std::make_unique<S>(ObjLess{}, ArenaAlloc<vh::Obj>(static_cast<int>(op) + 10)); m[a].clear(); break; }
                }
                for (int i = 0; i < 3; ++i) { check(c, *s[i], m[i], w); }
                remember(a); remember(b);
                for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) VH_CHECK(c, (*s[i] == *s[j]) == (m[i] == m[j]), "equality", "equality disagrees with contents after %s", w);
                c.eval(); c.count(w);
                c.distinct(vh::mix(m[0].size() * 10007 + m[1].size() * 101 + m[2].size()) ^ vh::hash_str(w) ^ vh::mix(m[a].empty() ? 0 : *m[a].rbegin() + 7 * *m[a].begin()));
            }
        }
        finish(c, "history");
        if (c.want_sample()) c.sample(vh::fmt("three sets in three arenas, %llu elements constructed, %llu destroyed", static_cast<unsigned long long>(vh::ledger().constructed), static_cast<unsigned long long>(vh::ledger().destroyed)));
    });
}

// Every throw point of every operation on sets of all small sizes.
VH_CASE(throw_points, 6)
{
    c.iterate(c.n(220, 3000), [&](uint64_t)
    {
        const int range = c.rng.pick({ 6, 12, 30 });
        const size_t n0 = c.rng.below(14), n1 = c.rng.below(8);
        const uint64_t fseed = c.rng.next();
        const int key = static_cast<int>(c.rng.below(range));
        const unsigned what = static_cast<unsigned>(c.rng.below(11));
        static const char* names[] = { "insert(const&)", "insert(&&)", "emplace", "emplace(Obj)", "erase(key)", "copy construction", "copy assignment", "initializer list", "range construction", "find/bounds", "equality" };
        uint64_t k = 0;
        for (;; ++k)
        {
            vh::ledger().reset(); blocks().clear();
            bool threw = false;
            {
                S s(ObjLess{}, ArenaAlloc<vh::Obj>(1)), o(ObjLess{}, ArenaAlloc<vh::Obj>(2)); M m, mo;
                vh::Rng fr(fseed); fill(fr, s, m, n0, range); fill(fr, o, mo, n1, range);
                vh::Obj val(key); std::vector<vh::Obj> vals; for (int i = 0; i < 4; ++i) vals.emplace_back((key * 7 + i * 5) % range);
                M after = m; bool strong = true;
                std::map<int, const vh::Obj*> addr; for (const vh::Obj& x : s) addr[x.get()] = &x;
                const size_t live0 = vh::ledger().live.size();
                vh::ledger().countdown = k == 0 ? -1 : static_cast<int64_t>(k);
                const uint64_t ops0 = vh::ledger().ops; (void)ops0;
                try
                {
                    switch (what)
                    {
                    case 0: s.insert(val); after.insert(key); break;
                    case 1: s.insert(std::move(val)); after.insert(key); break;
                    case 2: s.emplace(key); after.insert(key); break;
                    case 3: s.emplace(val); after.insert(key); break;
                    case 4: s.erase(key); after.erase(key); break;
                    case 5: { S cp(s); const auto cd = vh::ledger().countdown; vh::ledger().countdown = -1; VH_CHECK(c, cp == s, "copy", "copy differs"); vh::ledger().countdown = cd; break; }
                    case 6: strong = false; s = o; after = mo; break;
                    case 7: { S il({ vals[0], vals[1], vals[2] }, ObjLess{}, ArenaAlloc<vh::Obj>(3)); break; }
                    case 8: { S rg(vals.begin(), vals.end(), ObjLess{}, ArenaAlloc<vh::Obj>(4)); break; }
                    case 9: (void)s.find(key); (void)s.contains(key); (void)s.lower_bound(key); (void)s.upper_bound(key); (void)s.find2(key); break;
                    default: (void)(s == o); break;
                    }
                }
                catch (const vh::Ledger::Thrown&) { threw = true; }
                vh::ledger().countdown = -1;
                c.eval(); c.count("throw-points", threw); c.distinct(vh::mix(what * 1000 + k) ^ vh::mix(n0 * 31 + n1) ^ vh::mix(range * 64 + key));
                c.note(vh::fmt("%s throw point %llu", names[what], static_cast<unsigned long long>(k)));
                if (threw)
                {
                    if (strong) check(c, s, m, vh::fmt("%s throwing at point %llu", names[what], static_cast<unsigned long long>(k)).c_str());
                    else
                    {
                        // whatever is left must be a consistent set of the source's elements
                        M got; for (const vh::Obj& x : s) got.insert(x.get());
                        check(c, s, got, "copy assignment that threw");
                        for (int g : got) VH_CHECK(c, mo.count(g) || m.count(g), "contents", "copy assignment that threw left a foreign element");
                    }
                    if (strong) VH_CHECK(c, vh::ledger().live.size() == live0, "leaked-elements", "%s throwing at point %llu: %zu live elements, %zu before", names[what], static_cast<unsigned long long>(k), vh::ledger().live.size(), live0);
                    check(c, o, mo, "other set");
                }
                else check(c, s, after, names[what]);
                if (what != 6) for (const vh::Obj& x : s) { auto a = addr.find(x.get()); VH_CHECK(c, a == addr.end() || a->second == &x, "moved-in-memory", "element %d moved in memory during %s", x.get(), names[what]); }
                // still usable
                s.emplace(range + 3); VH_CHECK(c, s.contains(range + 3), "usable", "set unusable after %s", names[what]); s.erase(range + 3);
                if (k == 0) { } 
            }
            finish(c, names[what]);
            if (k > 0 && !threw) break;
            if (k > 400) break;
        }
        if (c.want_sample()) c.sample(vh::fmt("%s on %zu elements: %llu throw points", names[what], n0, static_cast<unsigned long long>(k ? k - 1 : 0)));
    });
}

// Throwing at random points throughout longer histories.
VH_CASE(throw_histories, 4)
{
    c.iterate(c.n(300, 6000), [&](uint64_t)
    {
        vh::ledger().reset(); blocks().clear();
        uint64_t thrown = 0;
        {
            const int range = c.rng.pick({ 8, 30, 100 });
            S s(ObjLess{}, ArenaAlloc<vh::Obj>(1)); M m;
            for (int op = 0; op < 250; ++op)
            {
                const int k = static_cast<int>(c.rng.below(range));
                M want = m;
                try
                {
                    vh::ledger().countdown = c.rng.chance(1, 3) ? static_cast<int64_t>(1 + c.rng.below(14)) : -1;
                    switch (c.rng.below(5))
                    {
                    case 0: { want.insert(k); s.insert(vh::Obj(k)); break; }
                    case 1: { vh::Obj o(k); want.insert(k); s.insert(o); break; }
                    case 2: { want.insert(k); s.emplace(k); break; }
                    case 3: { want.erase(k); s.erase(k); break; }
                    default: { S cp(s); S mv(std::move(cp)); if (c.rng.flip()) { s = std::move(mv); } break; }
                    }
                    vh::ledger().countdown = -1;
                    m = want;
                }
                catch (const vh::Ledger::Thrown&) { vh::ledger().countdown = -1; ++thrown; c.count("thrown"); }
                check(c, s, m, "history with throwing elements");
                c.eval();
            }
            c.distinct(vh::mix(thrown * 1009 + m.size()) ^ vh::mix(c.cur_iter));
        }
        finish(c, "history with throwing elements");
        if (c.want_sample()) c.sample(vh::fmt("250 operations, %llu of them threw", static_cast<unsigned long long>(thrown)));
    });
}

namespace
{
    // An order with state: keys rotated around a pivot, ascending or descending.
    struct Turned
    {
        int pivot = 0; bool down = false;
        bool operator()(int a, int b) const { const unsigned x = static_cast<unsigned>(a) - static_cast<unsigned>(pivot), y = static_cast<unsigned>(b) - static_cast<unsigned>(pivot); return down ? y < x : x < y; }
    };
}

// Copies, moves and assignments carry the order of their source along with its elements.
VH_CASE(orders, 3)
{
    c.iterate(c.n(3000, 100000), [&](uint64_t)
    {
        using T = awl::vector_set<int, Turned>; using R = std::set<int, Turned>;
        std::vector<std::unique_ptr<T>> s; std::vector<std::unique_ptr<R>> m;
        for (int i = 0; i < 3; ++i) { Turned t{ static_cast<int>(c.rng.below(20)), c.rng.flip() }; s.push_back(std::make_unique<T>(t)); m.push_back(std::make_unique<R>(t)); }
        auto same = [&](const T& a, const R& b, const char* w) { VH_CHECK(c, a.size() == b.size(), "order-size", "%s: %zu elements, expected %zu", w, a.size(), b.size()); size_t k = 0; for (int x : b) { VH_CHECK(c, k < a.size() && a[k] == x && a.index_of(x) == k, "order", "%s: element %zu is %d, expected %d", w, k, a[k], x); ++k; } };
        for (unsigned op = 0; op < 40; ++op)
        {
            const size_t a = c.rng.below(3), b = c.rng.below(3); const char* w = "insert"; const int k = static_cast<int>(c.rng.below(24));
            switch (c.rng.below(9))
            {
            case 0: w = "copy assignment"; *s[a] = *s[b]; if (a != b) m[a] = std::make_unique<R>(*m[b]); break;
            case 1: w = "move assignment"; if (a == b) break; *s[a] = std::move(*s[b]); m[a] = std::make_unique<R>(*m[b]); m[b]->clear(); break;
            case 2: w = "copy construction"; s[a] = std::make_unique<T>(*s[b]); m[a] = std::make_unique<R>(*m[b]); break;
            case 3: { w = "move construction"; auto n = std::make_unique<T>(std::move(*s[b])); auto r = std::make_unique<R>(*m[b]); m[b]->clear(); s[a] = std::move(n); m[a] = std::move(r); break; }
            case 4: { w = "swap"; if (a == b) break; using std::swap; swap(*s[a], *s[b]); std::swap(m[a], m[b]); break; }
            case 5: w = "erase"; VH_CHECK(c, s[a]->erase(k) == m[a]->erase(k), "order-erase", "erase"); break;
            default: VH_CHECK(c, s[a]->insert(k).second == m[a]->insert(k).second, "order-insert", "insert"); break;
            }
            for (size_t i = 0; i < 3; ++i) same(*s[i], *m[i], w);
            c.eval(); c.count(w);
        }
        c.distinct(vh::mix(m[0]->size() * 1000 + m[1]->size() * 30 + m[2]->size()) ^ vh::mix(c.cur_iter));
    });
}

VH_MAIN()
