// C33: histories of guards, owning pointers, singletons and aggregators; a ledger tells how often each cleanup ran.
#include "vh.h"
#include "Awl/ScopeGuard.h"
#include "Awl/UniquePtr.h"
#include "Awl/SharedSingleton.h"
#include "Awl/Aggregator.h"
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>
using vh::Case;

namespace
{
    // What ran, and when: the driver clears `ran` before each step.
    struct Ledger { std::vector<int> ran; int next = 0; };
    // An action that knows when it was moved away.
    struct Act { Ledger* l; int id; Act(Ledger& ll, int i) : l(&ll), id(i) {} Act(Act&& o) noexcept : l(o.l), id(std::exchange(o.id, -1)) {} Act(const Act& o) = default; Act& operator=(Act&& o) noexcept { l = o.l; id = std::exchange(o.id, -1); return *this; } Act& operator=(const Act&) = default; void operator()() { l->ran.push_back(id); } };

    // A history of guards of one type. make(id) gives the action.
    template <class G, class Make> void guards(Case& c, const char* what, Make make)
    {
        Ledger l; struct Slot { std::optional<G> g; int duty = -1; }; std::vector<Slot> s(5); std::string h = what; c.eval(); const size_t steps = 3 + c.rng.below(14);
        auto expect = [&](std::vector<int> e, const char* op) { VH_CHECK(c, l.ran == e, "guard", "%s: %s: ran %zu actions, the first is %d; must run %zu, the first is %d", h.c_str(), op, l.ran.size(), l.ran.empty() ? -2 : l.ran[0], e.size(), e.empty() ? -2 : e[0]); c.count("actions", e.size()); l.ran.clear(); };
        auto due = [](const Slot& x) { return x.duty < 0 ? std::vector<int>() : std::vector<int>{ x.duty }; };
        for (size_t i = 0; i < steps; ++i)
        {
            Slot& a = s[c.rng.below(s.size())]; Slot& b = s[c.rng.below(s.size())]; const int id = l.next; const bool on = !c.rng.chance(1, 4);
            switch (c.rng.below(9))
            {
            case 0: case 1: case 2: { if (a.g) break; ++l.next; if (c.rng.flip()) a.g.emplace(make(l, id), on); else if constexpr (std::is_same_v<G, awl::virtual_guard>) { if (on && c.rng.flip()) a.g.emplace(awl::make_virtual_guard(make(l, id))); else a.g.emplace(std::function<void()>(make(l, id)), on); } else a.g.emplace(awl::make_scope_guard(make(l, id), on)); a.duty = on ? id : -1; h += on ? " make" : " make-off"; expect({}, "construction"); break; }
            case 3: if (!a.g) break; { h += " end"; auto e = due(a); a.duty = -1; a.g.reset(); expect(e, "end"); } break;
            case 4: if (!a.g) break; h += " release"; a.g->release(); a.duty = -1; expect({}, "release"); break;
            case 5: case 6: if (!a.g || b.g) break; h += " move"; b.g.emplace(std::move(*a.g)); b.duty = std::exchange(a.duty, -1); expect({}, "move"); c.count("moves"); break;
            case 7: if constexpr (std::is_same_v<G, awl::virtual_guard> || std::is_same_v<G, awl::scope_guard<Act>>) { if (!a.g || !b.g) break; h += &a == &b ? " self-assign" : " assign"; if (&a == &b) { *a.g = std::move(*b.g); expect({}, "self-assignment"); } else { auto e = due(b); *b.g = std::move(*a.g); b.duty = std::exchange(a.duty, -1); expect(e, "assignment"); c.count("assignments"); } } break;
            default: { ++l.next; h += " leave"; try { auto g = awl::make_scope_guard([&l, id] { l.ran.push_back(1000 + id); }, make(l, id), on); if (on) { VH_CHECK(c, l.ran.size() == 1 && l.ran[0] == 1000 + id, "init", "%s: the first action did not run once", h.c_str()); l.ran.clear(); } else expect({}, "construction of a disengaged guard"); if (c.rng.flip()) throw 1; } catch (int) { c.count("exceptions"); } expect(on ? std::vector<int>{ id } : std::vector<int>{}, "leaving the scope"); break; }
            }
        }
        for (auto& x : s) { auto e = due(x); x.g.reset(); expect(e, "end of all"); } c.distinct(vh::hash_str(h)); if (c.want_sample()) c.sample(h);
    }
}

VH_CASE(guards, 1)
{
    c.iterate(c.n(150000, 3000000), [&](uint64_t)
    {
        switch (c.rng.below(3)) { case 0: guards<awl::virtual_guard>(c, "virtual:", [](Ledger& l, int id) { return [&l, id, pad = std::string(50, 'x')] { l.ran.push_back(pad.size() == 50 ? id : -3); }; }); break; case 1: guards<awl::scope_guard<Act>>(c, "functor:", [](Ledger& l, int id) { return Act(l, id); }); break;
        default: { auto make = [](Ledger& l, int id) { return [&l, p = std::make_unique<int>(id)] { l.ran.push_back(p ? *p : -1); }; }; Ledger t; guards<awl::scope_guard<decltype(make(t, 0))>>(c, "closure:", make); } }
        { auto f = awl::make_fake_guard(); auto g(std::move(f)); f = awl::make_fake_guard(); }
    });
}

namespace
{
    struct World { Case& c; std::map<const void*, int> live; int made = 0, freed = 0; std::vector<int> order; };
    struct Base { World& w; int id; awl::unique_ptr<Base> next; Base(World& ww, int i) : w(ww), id(i) { if (i < 0) throw i; if (!w.live.emplace(this, id).second) abort(); ++w.made; } Base(const Base&) = delete; virtual ~Base() { auto i = w.live.find(this); if (i == w.live.end() || i->second != id) { fprintf(stderr, "VH-ABORT: an object was freed twice\n"); abort(); } w.live.erase(i); ++w.freed; w.order.push_back(id); } virtual int kind() const { return 0; } };
    struct Derived : Base { std::string s; Derived(World& ww, int i) : Base(ww, i), s(60, 'd') {} ~Derived() override { if (s.size() != 60) abort(); } int kind() const override { return 1; } };
    constexpr int compile_time() { awl::unique_ptr<int> a(new int(4)), b; b = std::move(a); awl::unique_ptr<int> e(std::move(b)); int r = *e * 10 + (a == nullptr) + (b.get() == nullptr); e.reset(new int(1)); int* p = e.release(); r += *p * 100; delete p; return r; }
    // Whether F() can be computed by the compiler, without an error if it can't.
    template <auto F> constexpr bool constant() { return requires { typename std::integral_constant<int, F()>; }; }
    struct Moved { std::vector<int> v; std::string s; Moved(std::vector<int> a, std::string&& b, const int& x, int& y) : v(std::move(a)), s(std::move(b)) { v.push_back(x); ++y; } };
}

VH_CASE(compile_time, 1)
{
    const int r = compile_time(); c.eval(); c.distinct(static_cast<uint64_t>(r)); VH_CHECK(c, r == 142, "run-time", "%d, must be 142", r);
    VH_CHECK(c, constant<[] { return compile_time(); }>(), "constant", "owning at compile time is not a constant expression (an object is left or freed twice)"); c.eval();
    // the arguments reach the object as they were given
    c.iterate(c.n(2000, 50000), [&](uint64_t) { const size_t n = c.rng.below(50); std::vector<int> v(n, 7); const int* data = n ? v.data() : nullptr; (void)data; std::string s(n, 'x'); int y = 3; const int x = static_cast<int>(n); const auto keep = v; c.eval();
        { auto p = awl::make_unique<Moved>(keep, std::string(s), x, y); VH_CHECK(c, p->v.size() == n + 1 && p->v.back() == x && p->s == s && y == 4 && keep.size() == n, "make-copied", "%zu", n); }
        { v.reserve(n + 1); data = v.data(); auto p = awl::make_unique<Moved>(std::move(v), std::move(s), 5, y); VH_CHECK(c, p->v.data() == data && p->v.size() == n + 1 && p->s.size() == n && s.empty() && v.empty() && y == 5, "make-moved", "a moved argument of %zu elements is copied", n); } c.count("made"); c.distinct(n); });
}

VH_CASE(pointers, 1)
{
    c.iterate(c.n(100000, 2000000), [&](uint64_t)
    {
        World w{ c }; c.eval(); std::string h; { std::vector<awl::unique_ptr<Base>> s(5); std::vector<Base*> model(5, nullptr), loose; int next = 0; const size_t steps = 4 + c.rng.below(24);
        auto gone = [&](Base* p) { return p && !w.live.count(static_cast<const void*>(p)); };
        for (size_t i = 0; i < steps; ++i)
        {
            const size_t a = c.rng.below(s.size()), b = c.rng.below(s.size()); Base* const old = model[a]; const int freed = w.freed; const int was = old ? old->id : 0; (void)was;
            auto fresh = [&]() -> Base* { return c.rng.flip() ? new Base(w, next++) : new Derived(w, next++); };
            switch (c.rng.below(11))
            {
            case 0: h += " new"; model[a] = fresh(); s[a].reset(model[a]); VH_CHECK(c, (!old || gone(old)) && w.freed - freed >= (old ? 1 : 0), "reset", "%s: the old object is left", h.c_str()); break;
            case 1: h += " null"; s[a].reset(nullptr); model[a] = nullptr; VH_CHECK(c, !old || gone(old), "reset", "%s: the old object is left", h.c_str()); break;
            case 2: h += " release"; { Base* p = s[a].release(); VH_CHECK(c, p == old && w.freed == freed && !s[a], "release", "%s", h.c_str()); if (p) loose.push_back(p); model[a] = nullptr; } break;
            case 3: if (loose.empty()) break; h += " adopt"; { Base* p = loose.back(); loose.pop_back(); s[a] = awl::unique_ptr<Base>(p); model[a] = p; VH_CHECK(c, (!old || gone(old)) && w.live.count(p), "assign", "%s: the old object is left", h.c_str()); } break;
            case 4: case 5: if (a == b) { h += " self"; awl::unique_ptr<Base>& alias = s[b]; s[a] = std::move(alias); VH_CHECK(c, w.freed == freed && s[a].get() == old, "self", "%s: assigning a pointer to itself loses its object", h.c_str()); break; } h += " move"; s[a] = std::move(s[b]); model[a] = model[b]; model[b] = nullptr; VH_CHECK(c, (!old || gone(old)) && (!model[a] || w.live.count(model[a])), "assign", "%s: a wrong object is freed", h.c_str()); break;
            case 6: h += " construct"; { awl::unique_ptr<Base> t(std::move(s[a])); VH_CHECK(c, t.get() == old && !s[a] && w.freed == freed, "move", "%s", h.c_str()); if (c.rng.flip()) s[a] = std::move(t); else model[a] = nullptr; } VH_CHECK(c, model[a] || !old || gone(old), "move", "%s: the object is left", h.c_str()); break;
            case 7: h += " throw"; { int e = 0; try { auto t = awl::make_unique<Base>(w, -5); } catch (int x) { e = x; } VH_CHECK(c, e == -5 && w.freed == freed, "make", "%s: exception %d", h.c_str(), e); } break;
            case 8: h += " make"; s[a] = awl::make_unique<Base>(w, next); model[a] = s[a].get(); VH_CHECK(c, model[a] && model[a]->id == next, "make", "%s", h.c_str()); ++next; break;
            case 9: if (!old || a == b || !model[b]) break; h += " chain"; { Base* t = old; while (t->next) t = t->next.get(); t->next = std::move(s[b]); model[b] = nullptr; VH_CHECK(c, w.freed == freed, "chain", "%s", h.c_str()); } break;
            default: if (!old || !old->next) break; h += " unchain"; { Base* n = old->next.get(); s[a] = std::move(s[a]->next); (void)n; model[a] = n; VH_CHECK(c, gone(old) && w.live.count(n) && w.freed == freed + 1, "unchain", "%s: %d objects are freed", h.c_str(), w.freed - freed); } break;
            }
            for (size_t k = 0; k < s.size(); ++k) { auto& p = s[k]; Base* m = model[k]; VH_CHECK(c, p.get() == m && (p == m) && !(p != m) && static_cast<bool>(p) == (m != nullptr) && (!m || (&*p == m && p->id == m->id && p->kind() == m->kind() && w.live.count(m))), "value", "%s: slot %zu", h.c_str(), k); for (size_t j = 0; j < s.size(); ++j) VH_CHECK(c, (p == s[j]) == (m == model[j]) && (p != s[j]) == (m != model[j]), "equal", "%s", h.c_str()); }
        }
        for (Base* p : loose) delete p; }
        VH_CHECK(c, w.live.empty() && w.made == w.freed, "leak", "%s: %d objects made, %d freed", h.c_str(), w.made, w.freed); c.count("objects", static_cast<uint64_t>(w.made)); c.distinct(vh::hash_str(h)); if (c.want_sample()) c.sample(h);
    });
}

namespace
{
    // N types of singletons, so that first uses are many.
    struct Control { int made = 0, live = 0; bool fail = false; };
    template <int N> struct Control_of { static Control c; }; template <int N> Control Control_of<N>::c;
    template <int N, int K> struct Single { int magic = N; std::string s = std::string(50, 's'); Single() { auto& x = Control_of<N * 2 + K>::c; if (x.fail) throw N; ++x.made; ++x.live; } Single(const Single&) = delete; ~Single() { --Control_of<N * 2 + K>::c.live; magic = -1; } };
    template <int N, int K> std::shared_ptr<void> get_single() { if constexpr (K) return awl::shared_singleton<Single<N, K>>(); else return awl::ondemand_singleton<Single<N, K>>(); }
    template <int N, int K> bool good_single(const void* p) { auto& s = *static_cast<const Single<N, K>*>(p); return s.magic == N && s.s.size() == 50; }
    struct Api { int n, once; Control* x; std::shared_ptr<void> (*get)(); bool (*good)(const void*); };
    void singles(Case& c, const Api& a)
    {
        auto& x = *a.x; std::vector<std::shared_ptr<void>> users; bool ever = false; const int once = a.once, N = a.n; const size_t steps = 1 + c.rng.below(20); c.eval(); VH_CHECK(c, x.made == 0, "first-use", "a singleton was made before its first use"); std::string h = once ? "shared" : "on demand";
        for (size_t i = 0; i < steps; ++i)
        {
            const int made = x.made;
            if (c.rng.chance(3, 5) || users.empty())
            {
                x.fail = c.rng.chance(1, 5); const bool create = users.empty() && (!once || !ever); std::shared_ptr<void> p; int e = 0; h += x.fail ? " fail" : " get"; try { p = a.get(); } catch (int v) { e = v; } const bool failed = x.fail; x.fail = false;
                if (create && failed) { VH_CHECK(c, e == N && !p && x.live == 0, "failed", "%s: the exception of the constructor is lost", h.c_str()); c.count("failed creations"); }
                else if (create) { VH_CHECK(c, p && x.made == made + 1 && x.live == 1 && !e, "create", "%s: %d instances are made", h.c_str(), x.made - made); ever = true; c.count("created"); }
                else if (users.empty()) { VH_CHECK(c, !p && x.made == made && !e, "not-recreated", "%s: it is made again", h.c_str()); c.count("not made again"); }
                else { VH_CHECK(c, p == users[0] && x.made == made && !e, "shared", "%s: another instance", h.c_str()); c.count("shared"); }
                if (p) { VH_CHECK(c, a.good(p.get()), "value", "%s: a dead instance", h.c_str()); users.push_back(std::move(p)); }
            }
            else { users.erase(users.begin() + static_cast<std::ptrdiff_t>(c.rng.below(users.size()))); h += " drop"; }
            VH_CHECK(c, x.live == (users.empty() ? 0 : 1), "lifetime", "%s: %zu users, %d instances", h.c_str(), users.size(), x.live);
        }
        users.clear(); VH_CHECK(c, x.live == 0, "lifetime", "%s: %d instances are left", h.c_str(), x.live); c.distinct(vh::hash_str(h)); if (c.want_sample()) c.sample(h);
    }
    template <int N> void all_singles(Case& c) { if constexpr (N > 0) { singles(c, Api{ N, 0, &Control_of<N * 2>::c, get_single<N, 0>, good_single<N, 0> }); singles(c, Api{ N, 1, &Control_of<N * 2 + 1>::c, get_single<N, 1>, good_single<N, 1> }); all_singles<N - 1>(c); } }
}

VH_CASE(singletons, 1) { c.iterate(1, [&](uint64_t) { all_singles<120>(c); }); }

namespace
{
    template <class A, class Set> void aggregate(Case& c, A& a, size_t n, size_t& calls, Set set)
    {
        // each argument may be set several times before the last one is set for the first time
        std::vector<bool> given(n, false); size_t left = n; bool cancelled = false; std::string h; c.eval();
        while (left)
        {
            if (c.rng.chance(1, 40)) { a.cancel(); cancelled = true; h += " cancel"; }
            const size_t i = c.rng.below(n); h += " " + std::to_string(i); if (!given[i]) { given[i] = true; --left; } VH_CHECK(c, calls == 0, "early", "%s: called before all are set", h.c_str()); set(i, left == 0); VH_CHECK(c, a.all() == (left == 0), "all", "%s: all", h.c_str());
        }
        VH_CHECK(c, calls == (cancelled ? 0u : 1u), "calls", "%s: called %zu times", h.c_str(), calls); c.count(cancelled ? "cancelled" : "called"); c.distinct(vh::hash_str(h)); if (c.want_sample()) c.sample(h);
    }
}

VH_CASE(aggregators, 1)
{
    c.iterate(c.n(100000, 2000000), [&](uint64_t it)
    {
        size_t calls = 0; int x = 0; std::string y; std::vector<int> z; bool same = false; auto rnd = [&] { return static_cast<int>(c.rng.below(1000)); };
        if (it % 3 == 0) { awl::aggregator<int, std::string, const std::vector<int>&> a([&](int i, std::string s, const std::vector<int>& v) { ++calls; same = i == x && s == y && v == z; }); aggregate(c, a, 3, calls, [&](size_t i, bool) { switch (i) { case 0: a.template set<0>(x = rnd()); break; case 1: y = std::to_string(rnd()) + std::string(c.rng.below(40), 'q'); a.template set<1>(y); break; default: z.assign(c.rng.below(5), rnd()); a.template set<2>(z); } }); }
        else if (it % 3 == 1) { auto a = awl::make_shared_aggregator(std::function<void(std::string, std::string)>([&](std::string s, std::string t) { ++calls; same = s == y && t == std::to_string(x); })); aggregate(c, *a, 2, calls, [&](size_t i, bool) { if (i == 0) { y = std::string(c.rng.below(50), 'k'); a->template set<0>(y); } else { x = rnd(); a->template set<1>(std::to_string(x)); } }); }
        else { int v[5] = {}; awl::aggregator<int, int, int, int, int> a([&](int p, int q, int r, int s, int t) { ++calls; same = p == v[0] && q == v[1] && r == v[2] && s == v[3] && t == v[4]; }); aggregate(c, a, 5, calls, [&](size_t i, bool) { v[i] = rnd(); switch (i) { case 0: a.template set<0>(v[0]); break; case 1: a.template set<1>(v[1]); break; case 2: a.template set<2>(v[2]); break; case 3: a.template set<3>(v[3]); break; default: a.template set<4>(v[4]); } }); }
        VH_CHECK(c, !calls || same, "arguments", "called with other arguments than those set");
    });
}
VH_MAIN()
