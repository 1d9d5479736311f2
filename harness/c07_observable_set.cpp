// C07: observable_set: the event log replayed into a model must equal the contents after every operation.
#include "vh.h"
#include "Awl/ObservableSet.h"

#include <algorithm>
#include <set>

using vh::Case;

namespace
{
    struct Row
    {
        int k = 0; int payload = 0;
        Row(int a, int b) : k(a), payload(b) {}
        bool operator==(const Row&) const = default;
    };
    struct ByK
    {
        using is_transparent = void;
        bool operator()(const Row& a, const Row& b) const { return a.k < b.k; }
        bool operator()(const Row& a, int b) const { return a.k < b; }
        bool operator()(int a, const Row& b) const { return a < b.k; }
    };
    struct TRow { using T = Row; using Compare = ByK; static T make(int k, int p) { return Row(k, p); } static int key(const T& t) { return t.k; } static int pay(const T& t) { return t.payload; } static int probe(int k) { return k; } template <class S> static auto emplace(S& s, int k, int p) { return s.emplace(k, p); } static constexpr bool asc = true; };
    struct TInt { using T = int; using Compare = std::greater<>; static T make(int k, int) { return k; } static int key(const T& t) { return t; } static int pay(const T&) { return 0; } static int probe(int k) { return k; } template <class S> static auto emplace(S& s, int k, int) { return s.emplace(k); } static constexpr bool asc = false; };
    struct TStr { using T = std::string; using Compare = std::less<>; static T make(int k, int) { return vh::fmt("a key long enough to live on the heap %03d", k); } static int key(const T& t) { return std::atoi(t.c_str() + t.size() - 3); } static int pay(const T&) { return 0; } static T probe(int k) { return make(k, 0); } template <class S> static auto emplace(S& s, int k, int) { return s.emplace(vh::fmt("a key long enough to live on the heap %03d", k)); } static constexpr bool asc = true; };

    enum Kind { Added, Removing, Clearing };
    struct Event { Kind kind; int key; int pay; bool operator==(const Event&) const = default; bool operator<(const Event& o) const { return std::tie(kind, key, pay) < std::tie(o.kind, o.key, o.pay); } };

    template <class K> struct Watch : public awl::Observer<awl::INotifySetChanged<typename K::T>>
    {
        using T = typename K::T;
        using Set = awl::observable_set<T, typename K::Compare>;
        const Set* set = nullptr;            // what it believes to be subscribed to
        std::map<int, int> replica;
        std::vector<Event> log;
        std::string bad;
        void err(const char* w) { if (bad.empty()) bad = w; }
        bool present(const T& v) { auto i = set->find(v); return i != set->end() && &*i == &v; }
        void OnAdded(const T& v) override
        {
            log.push_back({ Added, K::key(v), K::pay(v) });
            if (!present(v)) err("element announced as added is not in the set");
            if (!replica.emplace(K::key(v), K::pay(v)).second) err("element announced as added twice");
        }
        void OnRemoving(const T& v) override
        {
            log.push_back({ Removing, K::key(v), K::pay(v) });
            if (!present(v)) err("element announced as being removed is no longer in the set");
            auto i = replica.find(K::key(v));
            if (i == replica.end() || i->second != K::pay(v)) err("element announced as being removed was never announced");
            else replica.erase(i);
        }
        void OnClearing() override
        {
            log.push_back({ Clearing, 0, 0 });
            if (set->size() != replica.size()) err("the contents are gone or differ when clearing is announced");
            else for (auto& e : *set) { auto i = replica.find(K::key(e)); if (i == replica.end() || i->second != K::pay(e)) { err("the contents differ when clearing is announced"); break; } }
            replica.clear();
        }
    };

    template <class K> void history(Case& c)
    {
        using T = typename K::T; using Set = awl::observable_set<T, typename K::Compare>; using W = Watch<K>;
        const int ns = 3, range = static_cast<int>(c.rng.pick({ 4, 12, 60 }));
        struct Slot { std::unique_ptr<Set> set; std::map<int, int> model; std::vector<W*> subs; };
        std::vector<Slot> s(ns); std::vector<std::unique_ptr<W>> watch;
        int serial = 0;
        auto fresh = [&](Slot& x) { x.model.clear(); if (c.rng.chance(1, 3)) { int a = static_cast<int>(c.rng.below(range)), b = a + 1, p = ++serial; x.set = std::make_unique<Set>(std::initializer_list<T>{ K::make(a, p), K::make(b, p), K::make(a, p + 1) }); auto pp = K::pay(K::make(0, p)); x.model[a] = pp; x.model[b] = pp; } else x.set = std::make_unique<Set>(); };
        for (auto& x : s) fresh(x);
        std::vector<std::pair<W*, std::vector<Event>>> expect; // per observer of interest, order-free when flagged
        for (int op = 0; op < 60; ++op)
        {
            for (auto& w : watch) w->log.clear();
            std::map<W*, std::vector<Event>> ex;
            auto say = [&](Slot& x, Event e) { for (W* w : x.subs) ex[w].push_back(e); };
            auto retarget = [&](Slot& x) { for (W* w : x.subs) w->set = x.set.get(); };
            bool unordered = false;
            const char* what = "?"; size_t ai = c.rng.below(ns), bi = c.rng.below(ns); Slot& a = s[ai]; Slot& b = s[bi];
            const int k = static_cast<int>(c.rng.below(range)); const int p = ++serial; const int pp = K::pay(K::make(k, p));
            auto added = [&](auto r)
            {
                const bool isnew = !a.model.count(k);
                VH_CHECK(c, r.second == isnew, "insert-result", "%s: returned %d for a key that was %s", what, r.second, isnew ? "absent" : "present");
                if (isnew) { a.model[k] = pp; say(a, { Added, k, pp }); }
                VH_CHECK(c, r.first != a.set->end() && K::key(*r.first) == k && K::pay(*r.first) == a.model[k], "insert-iterator", "%s: iterator denotes another element", what);
            };
            switch (c.rng.below(18))
            {
            case 0: case 1: { what = "insert copy"; const T v = K::make(k, p); added(a.set->insert(v)); VH_CHECK(c, v == K::make(k, p), "argument", "the inserted value was changed"); break; }
            case 2: case 3: { what = "insert move"; added(a.set->insert(K::make(k, p))); break; }
            case 4: { what = "emplace"; added(K::emplace(*a.set, k, p)); break; }
            case 5: case 6: { what = "erase key"; const bool had = a.model.count(k); if (had) { say(a, { Removing, k, a.model[k] }); a.model.erase(k); } auto n = a.set->erase(K::probe(k)); VH_CHECK(c, n == (had ? 1u : 0u), "erase-result", "erase returned %zu", static_cast<size_t>(n)); break; }
            case 7: { what = "erase its own element"; if (a.model.empty()) break; size_t pos = c.rng.below(a.model.size()); const T& e = (*a.set)[pos]; const int ek = K::key(e); say(a, { Removing, ek, a.model[ek] }); a.model.erase(ek); a.set->erase(e); break; }
            case 8: { what = "erase iterator"; if (a.model.empty()) break; auto i = a.set->begin(); for (size_t n = c.rng.below(a.model.size()); n; --n) ++i; const int ek = K::key(*i); say(a, { Removing, ek, a.model[ek] }); a.model.erase(ek); a.set->erase(i); break; }
            case 9: { what = "clear"; if (!c.rng.chance(1, 3)) break; if (!a.model.empty()) say(a, { Clearing, 0, 0 }); a.model.clear(); a.set->clear(); break; }
            case 10: { what = "migrate"; if (ai == bi) break; unordered = true; if (!a.model.empty()) say(a, { Clearing, 0, 0 }); if (!b.model.empty()) say(b, { Clearing, 0, 0 }); for (auto& e : b.model) say(a, { Added, e.first, e.second }); a.model = b.model; b.model.clear(); a.set->migrate(std::move(*b.set)); break; }
            case 11: { what = "move construct"; auto n = std::make_unique<Set>(std::move(*a.set)); VH_CHECK(c, a.set->empty() && a.set->begin() == a.set->end(), "moved-from", "moved-from set is not empty"); a.set = std::move(n); retarget(a); break; }
            case 12: { what = "move assign"; if (ai == bi) break; if (!a.model.empty()) say(a, { Clearing, 0, 0 }); for (W* w : a.subs) ex[w]; *a.set = std::move(*b.set); for (W* w : a.subs) VH_CHECK(c, !w->IsSubscribed(), "still-subscribed", "observer of the overwritten set is still subscribed"); for (W* w : a.subs) { w->replica.clear(); } a.subs = b.subs; b.subs.clear(); a.model = b.model; b.model.clear(); retarget(a); VH_CHECK(c, b.set->empty(), "moved-from", "moved-from set is not empty"); break; }
            case 13: { what = "destroy and recreate"; if (!c.rng.chance(1, 3)) break; if (!a.model.empty()) say(a, { Clearing, 0, 0 }); auto subs = a.subs; a.subs.clear(); a.set.reset(); for (W* w : subs) { VH_CHECK(c, !w->IsSubscribed(), "still-subscribed", "observer of a destroyed set is still subscribed"); VH_CHECK(c, w->replica.empty(), "replica", "replica is not empty after the set was destroyed"); } fresh(a); break; }
            case 14: { what = "subscribe"; if (watch.size() < 5) { watch.push_back(std::make_unique<W>()); W* w = watch.back().get(); w->set = a.set.get(); w->replica = a.model; a.set->Subscribe(w); a.subs.push_back(w); } break; }
            case 15: { what = "unsubscribe"; if (a.subs.empty()) break; size_t i = c.rng.below(a.subs.size()); W* w = a.subs[i]; a.subs.erase(a.subs.begin() + i); if (c.rng.flip()) a.set->Unsubscribe(w); else { for (size_t j = 0; j < watch.size(); ++j) if (watch[j].get() == w) { VH_CHECK(c, w->bad.empty(), "event", "%s", w->bad.c_str()); watch.erase(watch.begin() + j); break; } } break; }
            case 16: { what = "compare"; bool eq = a.model.size() == b.model.size(); for (auto& e : a.model) eq = eq && b.model.count(e.first); /* equality is up to the comparator */ VH_CHECK(c, (*a.set == *b.set) == eq && (*a.set != *b.set) == !eq, "equality", "equality of sets of %zu and %zu elements", a.model.size(), b.model.size()); break; }
            default: { what = "insert copy"; const T v = K::make(k, p); added(a.set->insert(v)); break; }
            }
            for (auto& w : watch)
            {
                VH_CHECK(c, w->bad.empty(), "event", "%s: %s", what, w->bad.c_str());
                auto want = ex.count(w.get()) ? ex[w.get()] : std::vector<Event>{};
                auto got = w->log;
                if (unordered) { std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); }
                VH_CHECK(c, got == want, "announcements", "%s: %zu announcements, expected %zu (first: kind %d key %d)", what, got.size(), want.size(), got.empty() ? -1 : got[0].kind, got.empty() ? -1 : got[0].key);
                c.count("announcements", got.size());
            }
            uint64_t h = vh::hash_str(what);
            for (auto& x : s)
            {
                for (W* w : x.subs) { VH_CHECK(c, w->replica == x.model, "replica", "%s: replaying the announcements gives %zu elements, the set should have %zu", what, w->replica.size(), x.model.size()); VH_CHECK(c, w->IsSubscribed(), "still-subscribed", "%s: subscribed observer was dropped", what); }
                // contents and queries
                const Set& cs = *x.set; Set& ms = *x.set;
                std::vector<std::pair<int, int>> v(x.model.begin(), x.model.end()); if (!K::asc) std::reverse(v.begin(), v.end());
                VH_CHECK(c, cs.size() == v.size() && cs.empty() == v.empty(), "size", "%s: size %zu, model %zu", what, static_cast<size_t>(cs.size()), v.size());
                size_t n = 0;
                for (auto& e : cs) { VH_CHECK(c, n < v.size() && K::key(e) == v[n].first && K::pay(e) == v[n].second, "contents", "%s: element %zu differs", what, n); ++n; }
                VH_CHECK(c, n == v.size(), "contents", "%s: iteration gives %zu of %zu elements", what, n, v.size());
                for (auto i = cs.rbegin(); i != cs.rend(); ++i) { --n; VH_CHECK(c, n < v.size() && K::key(*i) == v[n].first, "contents", "%s: reverse element %zu differs", what, n); }
                VH_CHECK(c, n == 0, "contents", "%s: reverse iteration misses %zu", what, n);
                if (!v.empty()) VH_CHECK(c, &cs.front() == &*cs.begin() && &ms.front() == &*ms.begin() && K::key(cs.back()) == v.back().first && &ms.back() == &*ms.rbegin(), "front-back", "%s: front/back", what);
                for (int q = 0; q < 3; ++q)
                {
                    const int kk = static_cast<int>(c.rng.range(-1, range)); auto pr = K::probe(kk < 0 ? 0 : kk); const int kq = kk < 0 ? 0 : kk;
                    auto less = [&](const std::pair<int, int>& e, int y) { return K::asc ? e.first < y : e.first > y; };
                    auto lb = std::lower_bound(v.begin(), v.end(), kq, less); const bool has = lb != v.end() && lb->first == kq; auto ub = has ? lb + 1 : lb;
                    auto same = [&](auto it, auto e, auto mv) { return mv == v.end() ? it == e : it != e && K::key(*it) == mv->first; };
                    VH_CHECK(c, cs.contains(pr) == has && same(cs.find(pr), cs.end(), has ? lb : v.end()) && same(ms.find(pr), ms.end(), has ? lb : v.end()), "find", "%s: find/contains of %d", what, kq);
                    VH_CHECK(c, same(cs.lower_bound(pr), cs.end(), lb) && same(ms.lower_bound(pr), ms.end(), lb) && same(cs.upper_bound(pr), cs.end(), ub) && same(ms.upper_bound(pr), ms.end(), ub), "bounds", "%s: lower/upper bound of %d", what, kq);
                    bool miss = false; size_t at = 0; try { at = cs.index_of(pr); } catch (const std::out_of_range&) { miss = true; }
                    VH_CHECK(c, miss == !has && (miss || at == static_cast<size_t>(lb - v.begin())), "index_of", "%s: index_of %d", what, kq);
                    if (!v.empty()) { size_t pos = c.rng.below(v.size()); VH_CHECK(c, K::key(cs[pos]) == v[pos].first && K::key(ms[pos]) == v[pos].first && &cs.at(pos) == &cs[pos] && &ms.at(pos) == &cs[pos], "position", "%s: element at position %zu", what, pos); }
                    bool thrown = false; try { (void)cs.at(v.size()); } catch (const std::exception&) { thrown = true; } VH_CHECK(c, thrown, "at-range", "at(size()) did not throw");
                }
                h = vh::mix(h ^ (x.model.size() * 31 + x.subs.size())); for (auto& e : v) h = vh::mix(h ^ e.first);
            }
            c.eval(); c.count(what); c.distinct(h);
        }
        if (c.want_sample()) c.sample(vh::fmt("3 sets, %zu observers, final sizes %zu %zu %zu", watch.size(), s[0].model.size(), s[1].model.size(), s[2].model.size()));
        // any destruction order
        while (!s.empty()) { if (!watch.empty() && c.rng.flip()) { size_t i = c.rng.below(watch.size()); VH_CHECK(c, watch[i]->bad.empty(), "event", "%s", watch[i]->bad.c_str()); watch.erase(watch.begin() + i); } else s.erase(s.begin() + c.rng.below(s.size())); }
        for (auto& w : watch) { VH_CHECK(c, w->bad.empty(), "event", "teardown: %s", w->bad.c_str()); if (true) VH_CHECK(c, !w->IsSubscribed(), "still-subscribed", "subscribed to a destroyed set"); }
    }
}

VH_CASE(rows, 3) { c.iterate(c.n(700, 20000), [&](uint64_t) { history<TRow>(c); }); }
VH_CASE(ints_descending, 2) { c.iterate(c.n(500, 15000), [&](uint64_t) { history<TInt>(c); }); }
VH_CASE(strings, 2) { c.iterate(c.n(400, 10000), [&](uint64_t) { history<TStr>(c); }); }

namespace
{
    // an order and an allocator that carry state: x * mul modulo a prime
    struct Twist { int mul = 1; bool operator()(int a, int b) const { return f(a) < f(b); } int f(int x) const { return x * mul % 101; } };
    template <class T> struct Tagged
    {
        using value_type = T; int tag = 0;
        Tagged() = default; explicit Tagged(int t) : tag(t) {}
        template <class U> Tagged(const Tagged<U>& o) : tag(o.tag) {}
        T* allocate(size_t n) { return std::allocator<T>().allocate(n); }
        void deallocate(T* p, size_t n) { std::allocator<T>().deallocate(p, n); }
        template <class U> bool operator==(const Tagged<U>& o) const { return tag == o.tag; }
    };
    template <class S> std::string same(const S& s, const std::set<int>& model, int mul, int tag)
    {
        if (s.value_comp().mul != mul || s.key_comp().mul != mul) return vh::fmt("its comparer has lost its state: %d instead of %d", s.value_comp().mul, mul);
        if (s.get_allocator().tag != tag) return vh::fmt("its allocator has lost its state: %d instead of %d", s.get_allocator().tag, tag);
        std::vector<int> v(model.begin(), model.end()); std::sort(v.begin(), v.end(), Twist{ mul });
        if (s.size() != v.size()) return vh::fmt("%zu elements, should be %zu", static_cast<size_t>(s.size()), v.size());
        size_t n = 0; for (int x : s) if (x != v[n++]) return vh::fmt("element %zu is %d, should be %d", n - 1, x, v[n - 1]);
        for (size_t i = 0; i < v.size(); ++i) if (s[i] != v[i] || s.index_of(v[i]) != i || s.find(v[i]) == s.end()) return vh::fmt("position %zu", i);
        return "";
    }
}

// comparers and allocators given to the constructors are the ones that are used, and travel with the contents
VH_CASE(stateful, 2)
{
    using Set = awl::observable_set<int, Twist, Tagged<int>>;
    c.iterate(c.n(1500, 40000), [&](uint64_t)
    {
        struct One { std::unique_ptr<Set> set; std::set<int> model; int mul; int tag; };
        std::vector<One> s(2);
        auto fresh = [&](One& o)
        {
            o.mul = 1 + static_cast<int>(c.rng.below(100)); o.tag = static_cast<int>(c.rng.below(9)); o.model.clear();
            switch (c.rng.below(4))
            {
            case 0: o.set = std::make_unique<Set>(Twist{ o.mul }, Tagged<int>(o.tag)); break;
            case 1: o.set = std::make_unique<Set>(std::initializer_list<int>{ 5, 77, 30, 5 }, Twist{ o.mul }, Tagged<int>(o.tag)); o.model = { 5, 30, 77 }; break;
            case 2: o.mul = 1; o.set = std::make_unique<Set>(std::initializer_list<int>{ 9, 8 }, Tagged<int>(o.tag)); o.model = { 8, 9 }; break;
            default: o.tag = 0; o.set = std::make_unique<Set>(Twist{ o.mul }); break;
            }
        };
        for (auto& o : s) fresh(o);
        for (int op = 0; op < 60; ++op)
        {
            One& a = s[c.rng.below(2)]; One& b = &a == &s[0] ? s[1] : s[0]; const int k = static_cast<int>(c.rng.below(101)); const char* w = "?";
            switch (c.rng.below(12))
            {
            default: w = "insert"; VH_CHECK(c, a.set->insert(k).second == a.model.insert(k).second, "insert", "insert of %d", k); break;
            case 6: case 7: w = "erase"; VH_CHECK(c, a.set->erase(k) == a.model.erase(k), "erase", "erase of %d", k); break;
            case 8: w = "move-construct"; { auto n = std::make_unique<Set>(std::move(*a.set)); VH_CHECK(c, a.set->empty(), "moved-from", "a moved-from set is not empty"); a.set = std::move(n); } break;
            case 9: w = "move-assign"; *a.set = std::move(*b.set); a.model = std::move(b.model); a.mul = b.mul; a.tag = b.tag; fresh(b); break;
            case 10: w = "migrate"; a.set->migrate(std::move(*b.set)); a.model = std::move(b.model); a.mul = b.mul; a.tag = b.tag; fresh(b); break;
            case 11: w = "new"; if (c.rng.chance(1, 3)) fresh(a); break;
            }
            for (auto& o : s) { const std::string e = same(*o.set, o.model, o.mul, o.tag); VH_CHECK(c, e.empty(), "stateful", "%s: %s", w, e.c_str()); }
            c.eval(); c.count(w); c.distinct(vh::mix(vh::hash_str(w) ^ a.mul * 1009 ^ a.model.size()));
        }
        if (c.want_sample()) c.sample(vh::fmt("multipliers %d and %d", s[0].mul, s[1].mul));
    });
}

VH_MAIN()
