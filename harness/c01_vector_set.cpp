// C01: vector_set against a sorted-vector model.
#include "vh.h"
#include <set>
#include "Awl/VectorSet.h"
#include "Awl/KeyCompare.h"
#include "Awl/Getters.h"
#include "Awl/ReverseCompare.h"

#include <algorithm>
#include <string>
#include <stdexcept>

using vh::Case;

namespace
{
    // The model: keys in the order of cmp.
    template <class K, class Cmp>
    struct Model
    {
        std::vector<K> v;
        Cmp cmp;
        size_t lb(const K& k) const { return std::lower_bound(v.begin(), v.end(), k, cmp) - v.begin(); }
        size_t ub(const K& k) const { return std::upper_bound(v.begin(), v.end(), k, cmp) - v.begin(); }
        bool has(const K& k) const { size_t i = lb(k); return i < v.size() && !cmp(k, v[i]); }
        bool ins(const K& k) { if (has(k)) return false; v.insert(v.begin() + lb(k), k); return true; }
        bool del(const K& k) { if (!has(k)) return false; v.erase(v.begin() + lb(k)); return true; }
    };

    template <class S> const S& as_const(const S& s) { return s; }

    // Compare everything that can be observed. `ident(elem)` gives the key of an element, `probe(key)` what is
    // passed to lookups, `probes` extra keys to look up.
    template <class S, class M, class Ident, class Probe, class Keys>
    void verify(Case& c, S& s, const M& m, Ident ident, Probe probe, const Keys& probes, bool deep)
    {
        const S& cs = s;
        const size_t n = m.v.size();
        VH_CHECK(c, cs.size() == n, "size", "size %zu, model %zu", cs.size(), n);
        VH_CHECK(c, cs.empty() == (n == 0), "empty", "empty() is wrong for %zu elements", n);
        size_t k = 0;
        for (auto i = cs.begin(); i != cs.end(); ++i, ++k) { VH_CHECK(c, k < n && ident(*i) == m.v[k], "forward", "forward iteration differs at %zu of %zu", k, n); }
        VH_CHECK(c, k == n, "forward", "forward iteration yields %zu of %zu", k, n);
        k = n;
        for (auto i = s.rbegin(); i != s.rend(); ++i) { VH_CHECK(c, k > 0 && ident(*i) == m.v[k - 1], "reverse", "reverse iteration differs at %zu of %zu", k, n); --k; }
        VH_CHECK(c, k == 0, "reverse", "reverse iteration stops %zu early", k);
        if (n) { VH_CHECK(c, ident(cs.front()) == m.v[0] && ident(cs.back()) == m.v[n - 1] && ident(s.front()) == m.v[0] && ident(s.back()) == m.v[n - 1], "front-back", "front/back differ"); }
        if (!deep) return;
        auto it = s.begin();
        for (size_t i = 0; i < n; ++i, ++it)
        {
            VH_CHECK(c, ident(cs[i]) == m.v[i], "at-index", "element at %zu of %zu differs", i, n);
            VH_CHECK(c, &s[i] == &*it && &s.at(i) == &*it && &cs.at(i) == &*it, "at-identity", "positional access and iteration give different elements at %zu", i);
            VH_CHECK(c, s.index_of(it) == i, "index-of-iter", "index_of(iterator) of element %zu is %zu", i, s.index_of(it));
            VH_CHECK(c, cs.find_by_index(i) != cs.end() && &*cs.find_by_index(i) == &*it && s.find_by_index(i) == it, "find-by-index", "find_by_index(%zu)", i);
            auto p = probe(m.v[i]);
            VH_CHECK(c, s.find(p) == it && cs.find(p) != cs.end() && &*cs.find(p) == &*it, "find", "find of element %zu", i);
            VH_CHECK(c, cs.index_of(p) == i, "index-of-key", "index_of(key) of element %zu is %zu", i, cs.index_of(p));
            auto [f, idx] = s.find2(p);
            VH_CHECK(c, f == it && idx == i, "find2", "find2 of element %zu gives %zu", i, idx);
            auto [cf, cidx] = cs.find2(p);
            VH_CHECK(c, cf != cs.end() && &*cf == &*it && cidx == i, "find2-const", "find2 of element %zu", i);
        }
        VH_CHECK(c, s.find_by_index(n) == s.end() && cs.find_by_index(n + 7) == cs.end(), "find-by-index-end", "find_by_index past the end");
        for (size_t bad : { n, n + 1, static_cast<size_t>(-1) })
        {
            bool thrown = false; try { (void)cs.at(bad); } catch (const std::out_of_range&) { thrown = true; }
            VH_CHECK(c, thrown, "at-range", "at(%zu) of %zu does not throw", bad, n);
            thrown = false; try { (void)s.at(bad); } catch (const std::out_of_range&) { thrown = true; }
            VH_CHECK(c, thrown, "at-range", "at(%zu) of %zu does not throw", bad, n);
        }
        for (auto& q : probes)
        {
            auto p = probe(q);
            const bool has = m.has(q);
            const size_t lb = m.lb(q), ub = m.ub(q);
            VH_CHECK(c, cs.contains(p) == has, "contains", "contains is %d", !has);
            VH_CHECK(c, (s.find(p) != s.end()) == has && (cs.find(p) != cs.end()) == has, "find", "find presence");
            auto l = cs.lower_bound(p); auto l2 = s.lower_bound(p);
            VH_CHECK(c, lb == n ? (l == cs.end() && l2 == s.end()) : (l != cs.end() && &*l == &cs[lb] && &*l2 == &cs[lb]), "lower-bound", "lower_bound, model position %zu of %zu", lb, n);
            auto u = cs.upper_bound(p); auto u2 = s.upper_bound(p);
            VH_CHECK(c, ub == n ? (u == cs.end() && u2 == s.end()) : (u != cs.end() && &*u == &cs[ub] && &*u2 == &cs[ub]), "upper-bound", "upper_bound, model position %zu of %zu", ub, n);
            if (!has)
            {
                bool thrown = false; try { (void)cs.index_of(p); } catch (const std::out_of_range&) { thrown = true; }
                VH_CHECK(c, thrown, "index-of-absent", "index_of of an absent key does not throw");
                auto [f, idx] = s.find2(p);
                VH_CHECK(c, f == s.end(), "find2-absent", "find2 finds an absent key at %zu", idx);
                VH_CHECK(c, s.erase(p) == 0 && s.size() == n, "erase-absent", "erasing an absent key changes the set");
            }
        }
        if (n)
        {
            // bidirectional walks from the ends
            auto e = s.end(); --e; VH_CHECK(c, ident(*e) == m.v[n - 1], "decrement", "--end() is not the last element");
            auto q = cs.end(); for (size_t i = n; i > 0; --i) { --q; VH_CHECK(c, ident(*q) == m.v[i - 1], "decrement", "walking back from end() at %zu", i); }
            VH_CHECK(c, q == cs.begin(), "decrement", "walking back does not reach begin()");
        }
    }

    template <class V> uint64_t shape_hash(const V& v, uint64_t salt) { uint64_t h = vh::mix(salt + v.size()); for (auto& x : v) h = vh::hash_bytes(&x, sizeof x, h); return h; }

    // Random histories over ints. Iterators and addresses of elements are kept from insertion until erasure.
    template <class Cmp, class S, class Make, class Ident, class Probe>
    void history(Case& c, Make make, Ident ident, Probe probe, int range, size_t ops, unsigned bias, S& s, Model<int, Cmp>& m, size_t deep_every)
    {
        using It = typename S::iterator;
        std::map<int, std::pair<It, const void*>> held;
        std::vector<int> probes;
        size_t grow = 1;
        for (size_t op = 0; op < ops; ++op)
        {
            c.eval(); c.count("operations");
            if (c.rng.chance(1, 64)) grow = c.rng.below(3);
            int k = static_cast<int>(c.rng.below(range));
            unsigned what = static_cast<unsigned>(c.rng.below(100));
            const unsigned ins = grow == 0 ? 30 : grow == 1 ? 50 : 70;
            if (what < ins)
            {
                auto r = [&]
                {
                    switch (c.rng.below(3))
                    {
                    case 0: { auto v = make(k); return s.insert(std::move(v)); }
                    case 1: { if constexpr (std::is_copy_constructible_v<typename S::value_type>) { const auto v = make(k); return s.insert(v); } else return s.emplace(make(k)); }
                    default: return s.emplace(make(k));
                    }
                }();
                const bool fresh = m.ins(k);
                VH_CHECK(c, r.second == fresh, "insert-result", "insert of %d reports %d", k, r.second);
                VH_CHECK(c, r.first != s.end() && ident(*r.first) == k, "insert-iterator", "insert of %d returns an iterator to another element", k);
                if (fresh) held[k] = { r.first, &*r.first };
                else VH_CHECK(c, held[k].first == r.first && held[k].second == &*r.first, "insert-existing", "insert of an existing key %d returns another element", k);
                c.count(fresh ? "inserted" : "duplicate");
            }
            else if (what < 90)
            {
                if (m.v.empty()) continue;
                if (c.rng.flip()) k = m.v[c.rng.below(m.v.size())];
                const bool had = m.has(k);
                if (had && c.rng.flip())
                {
                    auto i = s.find(probe(k)); VH_CHECK(c, i != s.end(), "find", "present key %d not found", k);
                    if (c.rng.flip()) i = held[k].first;
                    s.erase(i); m.del(k);
                }
                else
                {
                    const size_t n = s.erase(probe(k));
                    VH_CHECK(c, n == (m.del(k) ? 1u : 0u), "erase-result", "erase of %d reports %zu", k, n);
                }
                held.erase(k);
                c.count(had ? "erased" : "erase-absent");
            }
            else if (what < 97)
            {
                if (m.v.empty()) continue;
                // an iterator held since insertion still denotes its element and its neighbours
                const size_t i = c.rng.below(m.v.size());
                auto& h = held[m.v[i]];
                It it = h.first;
                VH_CHECK(c, &*it == h.second && ident(*it) == m.v[i], "held-iterator", "a held iterator changed its element");
                VH_CHECK(c, s.index_of(it) == i, "held-index", "index_of a held iterator is %zu, model %zu", s.index_of(it), i);
                It nx = it; ++nx; VH_CHECK(c, i + 1 == m.v.size() ? nx == s.end() : ident(*nx) == m.v[i + 1], "held-next", "successor of a held iterator");
                if (i) { It pv = it; --pv; VH_CHECK(c, ident(*pv) == m.v[i - 1], "held-prev", "predecessor of a held iterator"); }
                c.count("held-iterator-checks");
            }
            else if (what == 97 && c.rng.chance(1, 40)) { s.clear(); m.v.clear(); held.clear(); c.count("clears"); }
            if (m.v.size() <= 12 || op % deep_every == 0 || op + 1 == ops)
            {
                probes.clear();
                if (range <= 24) for (int q = -1; q <= range; ++q) probes.push_back(q);
                else for (int q = 0; q < 24; ++q) probes.push_back(static_cast<int>(c.rng.range(-2, range + 2)));
                verify(c, s, m, ident, probe, probes, true);
                c.distinct(shape_hash(m.v, bias));
                c.count("full-comparisons");
            }
        }
        if (c.want_sample()) c.sample(vh::fmt("%zu operations over %d keys, final size %zu, first keys %d %d", ops, range, m.v.size(), m.v.size() > 0 ? m.v[0] : -1, m.v.size() > 1 ? m.v[1] : -1));
    }

    struct Row
    {
        std::string payload; int id;
        int Id() const { return id; }
    };
    struct ById
    {
        using is_transparent = void;
        bool operator()(const Row& a, const Row& b) const { return a.id < b.id; }
        bool operator()(const Row& a, int b) const { return a.id < b; }
        bool operator()(int a, const Row& b) const { return a < b.id; }
    };
    // A comparator with state: order by distance from a pivot in a rotated ring.
    struct Rotated
    {
        int pivot = 0;
        unsigned key(int a) const { return static_cast<unsigned>(a) - static_cast<unsigned>(pivot); }
        bool operator()(int a, int b) const { return key(a) < key(b); }
    };

    int int_range(Case& c) { return c.rng.pick({ 3, 6, 10, 16, 24, 64, 300, 3000 }); }
    int idn(const int& x) { return x; }
    int mk(int x) { return x; }
}

VH_CASE(random_less, 8)
{
    c.iterate(c.n(260, 6000), [&](uint64_t)
    {
        const int range = int_range(c);
        awl::vector_set<int> s; Model<int, std::less<>> m;
        history(c, mk, idn, mk, range, range > 100 ? 1500 : 300, 1, s, m, range > 1000 ? 300 : 40);
    });
}

VH_CASE(random_comparers, 4)
{
    c.iterate(c.n(160, 3000), [&](uint64_t i)
    {
        const int range = int_range(c);
        const size_t ops = range > 100 ? 900 : 250;
        switch (i / c.shards % 6)
        {
        case 0: { awl::vector_set<int, std::greater<>> s; Model<int, std::greater<>> m; history(c, mk, idn, mk, range, ops, 2, s, m, 60); break; }
        case 1:
        {
            Rotated r{ static_cast<int>(c.rng.below(range)) };
            awl::vector_set<int, Rotated> s(r); Model<int, Rotated> m{ {}, r };
            history(c, mk, idn, mk, range, ops, 3, s, m, 60); break;
        }
        case 2:
        {
            awl::vector_set<Row, ById> s; Model<int, std::less<>> m;
            history(c, [](int k) { return Row{ "payload " + std::to_string(k), k }; }, [](const Row& r) { return r.payload == "payload " + std::to_string(r.id) ? r.id : -100; }, mk, range, ops, 4, s, m, 60); break;
        }
        case 3:
        {
            auto cmp = awl::make_compare<Row>(&Row::Id);
            awl::vector_set<Row, decltype(cmp)> s(cmp); Model<int, std::less<>> m;
            history(c, [](int k) { return Row{ "p", k }; }, [](const Row& r) { return r.id; }, mk, range, ops, 5, s, m, 60); break;
        }
        case 4:
        {
            auto cmp = awl::KeyCompare<std::unique_ptr<Row>, awl::field_getter<Row, int>>(&Row::id);
            awl::vector_set<std::unique_ptr<Row>, decltype(cmp)> s(cmp); Model<int, std::less<>> m;
            history(c, [](int k) { return std::make_unique<Row>(Row{ "p", k }); }, [](const std::unique_ptr<Row>& r) { return r->id; }, mk, range, ops, 6, s, m, 60); break;
        }
        default:
        {
            auto txt = [](int k) { return vh::fmt("%08d", k + 5); };
            awl::vector_set<std::string> s; Model<int, std::less<>> m;
            history(c, txt, [](const std::string& t) { return atoi(t.c_str()) - 5; }, txt, range, ops, 7, s, m, 60); break;
        }
        }
    });
}

// Every insertion order of n keys followed by every erasure order.
VH_CASE(exhaustive_small, 8)
{
    const int nmax = c.thorough ? 6 : 5;
    uint64_t id = 0;
    std::vector<int> all; for (int q = -1; q <= nmax; ++q) all.push_back(q);
    for (int n = 1; n <= nmax; ++n)
    {
        std::vector<int> ins(n); for (int i = 0; i < n; ++i) ins[i] = i;
        do
        {
            if (id++ % c.shards != c.shard) continue;
            c.begin(id);
            std::vector<int> del(n); for (int i = 0; i < n; ++i) del[i] = i;
            do
            {
                awl::vector_set<int> s; Model<int, std::less<>> m;
                for (int k : ins) { bool f = s.insert(k).second; VH_CHECK(c, f == m.ins(k), "insert-result", "insert %d", k); }
                verify(c, s, m, idn, mk, all, true);
                for (int k : del) { s.erase(s.find(k)); m.del(k); verify(c, s, m, idn, mk, all, true); c.eval(); c.distinct(shape_hash(m.v, shape_hash(ins, n) ^ shape_hash(del, 1))); }
                c.count("histories");
            } while (std::next_permutation(del.begin(), del.end()));
        } while (std::next_permutation(ins.begin(), ins.end()));
    }
    c.sample(vh::fmt("all insertion orders x all erasure orders of 1..%d keys", nmax));
}

// Every insertion order of 7 (8) keys, then random interleaved erase/insert with full checks.
VH_CASE(permuted_then_random, 8)
{
    const int n = c.thorough ? 8 : 7;
    std::vector<int> ins(n); for (int i = 0; i < n; ++i) ins[i] = i;
    std::vector<int> all; for (int q = -1; q <= n; ++q) all.push_back(q);
    uint64_t id = 0;
    do
    {
        if (id++ % c.shards != c.shard) continue;
        if (c.only_iter >= 0 && id != static_cast<uint64_t>(c.only_iter)) continue;
        c.begin(id);
        awl::vector_set<int> s; Model<int, std::less<>> m;
        for (int k : ins) { s.insert(k); m.ins(k); }
        verify(c, s, m, idn, mk, all, true);
        for (int op = 0; op < 10; ++op)
        {
            int k = static_cast<int>(c.rng.below(n));
            if (m.has(k)) { VH_CHECK(c, s.erase(k) == 1, "erase-result", "erase %d", k); m.del(k); }
            else { s.insert(k); m.ins(k); }
            verify(c, s, m, idn, mk, all, true);
            c.eval();
        }
        c.distinct(shape_hash(ins, 77) ^ shape_hash(m.v, 5));
    } while (std::next_permutation(ins.begin(), ins.end()));
    c.sample(vh::fmt("all insertion orders of %d keys, each with 10 random toggles", n));
}

// Big sets built and drained in adversarial orders.
VH_CASE(shapes, 8)
{
    c.iterate(c.n(48, 600), [&](uint64_t it)
    {
        const int n = c.rng.pick({ 100, 257, 700, 1500 });
        std::vector<int> order(n); for (int i = 0; i < n; ++i) order[i] = i;
        auto arrange = [&](std::vector<int>& v, unsigned how)
        {
            switch (how)
            {
            case 0: break;
            case 1: std::reverse(v.begin(), v.end()); break;
            case 2: { std::vector<int> w; for (size_t i = 0, j = v.size(); i < j;) { w.push_back(v[i++]); if (i < j) w.push_back(v[--j]); } v = w; break; }
            case 3: { std::vector<int> w; for (size_t i = 0, j = v.size(); i < j;) { w.push_back(v[i++]); if (i < j) w.push_back(v[--j]); } std::reverse(w.begin(), w.end()); v = w; break; }
            case 4: { std::vector<int> w; for (size_t st = 0; st < 7; ++st) for (size_t i = st; i < v.size(); i += 7) w.push_back(v[i]); v = w; break; }
            default: c.rng.shuffle(v); break;
            }
        };
        const unsigned hi = static_cast<unsigned>(c.rng.below(6)), hd = static_cast<unsigned>(c.rng.below(6));
        awl::vector_set<int> s; Model<int, std::less<>> m;
        auto ins = order; arrange(ins, hi);
        auto del = order; arrange(del, hd);
        std::vector<int> probes;
        size_t cnt = 0;
        auto tick = [&](const std::vector<int>&)
        {
            c.eval();
            if (++cnt % 101 == 0)
            {
                probes.clear(); for (int q = 0; q < 30; ++q) probes.push_back(static_cast<int>(c.rng.range(-1, n)));
                verify(c, s, m, idn, mk, probes, true);
                c.distinct(shape_hash(m.v, it));
                c.count("full-comparisons");
            }
            else if (!m.v.empty())
            {
                size_t i = c.rng.below(m.v.size());
                VH_CHECK(c, s[i] == m.v[i] && s.index_of(m.v[i]) == i && s.index_of(s.find(m.v[i])) == i, "at-index", "position %zu", i);
                VH_CHECK(c, s.size() == m.v.size(), "size", "size %zu model %zu", s.size(), m.v.size());
            }
        };
        for (int k : ins) { VH_CHECK(c, s.insert(k).second, "insert-result", "insert %d", k); m.ins(k); tick(m.v); }
        for (int k : del) { VH_CHECK(c, s.erase(k) == 1, "erase-result", "erase %d", k); m.del(k); tick(m.v); }
        VH_CHECK(c, s.empty() && s.size() == 0 && s.begin() == s.end(), "drained", "set is not empty after draining");
        if (c.want_sample()) c.sample(vh::fmt("%d keys inserted in order %u, erased in order %u", n, hi, hd));
    });
}

VH_CASE(construction_equality, 2)
{
    c.iterate(c.n(600, 12000), [&](uint64_t)
    {
        const int range = c.rng.pick({ 3, 8, 40 });
        std::vector<int> a; for (size_t i = c.rng.below(30); i > 0; --i) a.push_back(static_cast<int>(c.rng.below(range)));
        Model<int, std::less<>> m; for (int k : a) m.ins(k);
        std::vector<int> probes; for (int q = -1; q <= range; ++q) probes.push_back(q);
        awl::vector_set<int> r(a.begin(), a.end(), std::less<>{});
        verify(c, r, m, idn, mk, probes, true);
        awl::vector_set<int> il = a.size() < 3 ? awl::vector_set<int>{ 1, 2, 1 } : awl::vector_set<int>({ a[0], a[1], a[2] });
        Model<int, std::less<>> mi; if (a.size() < 3) { mi.ins(1); mi.ins(2); } else { mi.ins(a[0]); mi.ins(a[1]); mi.ins(a[2]); }
        verify(c, il, mi, idn, mk, probes, true);
        awl::vector_set<int> cp(r); verify(c, cp, m, idn, mk, probes, true);
        VH_CHECK(c, cp == r && !(cp != r) && r == cp, "equality", "copy differs from the original");
        VH_CHECK(c, (il == r) == (mi.v == m.v) && (il != r) == (mi.v != m.v), "equality", "equality disagrees with contents");
        // one element replaced: same size, different contents
        if (!m.v.empty())
        {
            awl::vector_set<int> d(r); int k = m.v[c.rng.below(m.v.size())]; d.erase(k); d.insert(range + 5);
            VH_CHECK(c, !(d == r) && d != r, "equality", "sets differing in one element compare equal");
            d.erase(range + 5); VH_CHECK(c, d != r, "equality", "sets of different sizes compare equal"); d.insert(k); VH_CHECK(c, d == r, "equality", "equal sets compare different");
        }
        awl::vector_set<int> as{ 100, 200 }; as = r; verify(c, as, m, idn, mk, probes, true);
        const int extra = range + 9; as.insert(extra); VH_CHECK(c, !r.contains(extra) && as.contains(extra), "copy-independent", "assigned copy shares contents"); 
        awl::vector_set<int> mv(std::move(as)); as.clear(); as.insert(1); VH_CHECK(c, as.size() == 1 && mv.size() == m.v.size() + 1, "move", "moved set");
        mv.erase(extra); verify(c, mv, m, idn, mk, probes, true);
        il = std::move(mv); verify(c, il, m, idn, mk, probes, true); VH_CHECK(c, mv.empty() && mv.size() == 0 && mv.begin() == mv.end(), "moved-from", "moved-from set is not empty");
        Rotated rot{ static_cast<int>(c.rng.below(range)) };
        Model<int, Rotated> mr{ {}, rot }; for (int k : a) mr.ins(k);
        awl::vector_set<int, Rotated> rs(a.begin(), a.end(), rot); verify(c, rs, mr, idn, mk, probes, true);
        awl::vector_set<int, Rotated> rc; rc = rs; verify(c, rc, mr, idn, mk, probes, true); rc.insert(range + 3); mr.ins(range + 3); verify(c, rc, mr, idn, mk, probes, true);
        awl::vector_set<int, Rotated> rm; rm = std::move(rc); verify(c, rm, mr, idn, mk, probes, true);
        c.eval(); c.distinct(shape_hash(a, 1));
        if (c.want_sample()) c.sample(vh::fmt("construction from %zu values, %zu distinct", a.size(), m.v.size()));
    });
}

namespace
{
    // Keys with storage of their own that remember being alive.
    struct HeapKey
    {
        std::unique_ptr<int> v; unsigned magic = 0xa11fe;
        HeapKey(int k) : v(new int(k)) {}
        HeapKey(const HeapKey& o) : v(new int(*o.v)) {}
        HeapKey(HeapKey&&) = default;
        ~HeapKey() { magic = 0xdead; }
        bool operator<(const HeapKey& o) const { if (magic != 0xa11fe || o.magic != 0xa11fe) abort(); return *v < *o.v; }
    };
}

// The argument of an operation is an element of the set itself.
VH_CASE(own_elements, 3)
{
    c.iterate(c.n(3000, 100000), [&](uint64_t)
    {
        const int range = c.rng.pick({ 3, 8, 20, 60 }); awl::vector_set<HeapKey> s; std::set<int> m;
        for (size_t i = 0, n = c.rng.below(40); i < n; ++i) { const int k = static_cast<int>(c.rng.below(range)); s.emplace(k); m.insert(k); }
        for (unsigned op = 0; op < 30; ++op)
        {
            const char* w = "emplace";
            if (m.empty()) { const int k = static_cast<int>(c.rng.below(range)); s.emplace(k); m.insert(k); }
            else
            {
                const size_t i = c.rng.below(m.size()); auto mi = std::next(m.begin(), static_cast<std::ptrdiff_t>(i)); const int k = *mi;
                switch (c.rng.below(7))
                {
                case 0: w = "erase(s[i])"; VH_CHECK(c, s.erase(s[i]) == 1, "own-erase", "erasing an element by a reference to itself"); m.erase(k); break;
                case 1: w = "erase(*find)"; VH_CHECK(c, s.erase(*s.find(s[i])) == 1, "own-erase", "erasing an element by a reference to itself"); m.erase(k); break;
                case 2: { w = "insert(s[i])"; auto r = s.insert(s[i]); VH_CHECK(c, !r.second && &*r.first == &s[i], "own-insert", "inserting an element again"); break; }
                case 3: w = "lookup"; VH_CHECK(c, s.index_of(s[i]) == i && s.contains(s[i]) && &*s.find(s[i]) == &s[i] && &*s.lower_bound(s[i]) == &s[i], "own-lookup", "looking an element up by itself"); { auto u = s.upper_bound(s[i]); VH_CHECK(c, i + 1 == m.size() ? u == s.end() : &*u == &s[i + 1], "own-lookup", "upper bound of an element"); } break;
                case 4: { w = "erase(front())"; VH_CHECK(c, s.erase(s.front()) == 1, "own-erase", "erasing front() by itself"); m.erase(m.begin()); break; }
                case 5: { w = "erase(back())"; VH_CHECK(c, s.erase(s.back()) == 1, "own-erase", "erasing back() by itself"); m.erase(std::prev(m.end())); break; }
                default: { w = "emplace"; const int q = static_cast<int>(c.rng.below(range)); s.emplace(q); m.insert(q); break; }
                }
            }
            VH_CHECK(c, s.size() == m.size(), "own-size", "%s: %zu elements, model %zu", w, s.size(), m.size());
            size_t i = 0; for (int k : m) { VH_CHECK(c, *s[i].v == k, "own-contents", "%s: element %zu is %d, model %d", w, i, *s[i].v, k); ++i; }
            c.eval(); c.count(w);
        }
        c.distinct(vh::mix(m.size()) ^ vh::mix(c.cur_iter));
    });
}

// More elements than 16 bits count.
VH_CASE(large, 2)
{
    c.iterate(c.n(2, 16), [&](uint64_t)
    {
        const int n = c.rng.pick({ 66000, 70001, 132000 }); std::vector<int> v(static_cast<size_t>(n)); for (int i = 0; i < n; ++i) v[static_cast<size_t>(i)] = i; if (c.rng.flip()) c.rng.shuffle(v);
        awl::vector_set<int> s; for (int x : v) s.insert(x);
        auto look = [&](size_t count, int step, const char* when)
        {
            VH_CHECK(c, s.size() == count, "size", "%s: size %zu, must be %zu", when, s.size(), count);
            size_t k = 0; for (int x : s) { VH_CHECK(c, x == static_cast<int>(k) * step, "forward", "%s: element %zu is %d", when, k, x); ++k; } VH_CHECK(c, k == count, "forward", "%s: %zu elements", when, k);
            for (int q = 0; q < 4000; ++q)
            {
                const size_t i = q < 4 ? (q % 2 ? count - 1 : 0) : c.rng.below(count); const int x = static_cast<int>(i) * step; c.eval();
                VH_CHECK(c, s[i] == x && s.at(i) == x && s.index_of(x) == i && s.index_of(s.find(x)) == i && std::get<1>(s.find2(x)) == i && *s.lower_bound(x) == x && *s.find_by_index(i) == x, "large", "%s: position %zu of %zu", when, i, count);
                VH_CHECK(c, step == 1 || !s.contains(x + 1), "contains", "%s: %d", when, x + 1);
            }
            VH_CHECK(c, s.find_by_index(count) == s.end(), "find-by-index-end", "%s", when);
        };
        look(static_cast<size_t>(n), 1, "built"); awl::vector_set<int> copy(s); VH_CHECK(c, copy == s && copy.size() == s.size() && copy.index_of(n - 1) == static_cast<size_t>(n - 1), "copy", "a copy of %d elements differs", n);
        c.rng.shuffle(v); for (int x : v) if (x % 2) s.erase(x);
        look(static_cast<size_t>((n + 1) / 2), 2, "half erased"); VH_CHECK(c, copy != s, "equality", "a set of half the elements equals the whole one");
        c.distinct(vh::mix(static_cast<uint64_t>(n)) ^ vh::mix(static_cast<uint64_t>(v[0]))); c.count("large sets"); if (c.want_sample()) c.sample(vh::fmt("%d elements", n));
    });
}

VH_MAIN()
