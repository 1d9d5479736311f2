// C31: generators run scripts; what the consumer sees, how far the body has run and which objects are alive are compared with a model of the script.
#include "co.h"
#include "Awl/Coro/Generator.h"
#include "Awl/Coro/AsyncGenerator.h"
#include <string>
using namespace co;

namespace
{
    enum Kind { YieldL, YieldR, Nest, TryNest, Throw, Ret, Pause };
    struct Op { Kind kind; int v = 0; std::vector<Op> sub; };
    using Script = std::vector<Op>;
    // What a script yields, and how it ends: 0, or the exception.
    struct Seq { std::vector<int> v; int err = 0; };
    int expand(const Script& s, std::vector<int>& out)
    {
        for (auto& o : s) switch (o.kind)
        {
        case YieldL: case YieldR: out.push_back(o.v); break;
        case Nest: if (const int e = expand(o.sub, out)) return e; break;
        case TryNest: if (const int e = expand(o.sub, out)) out.push_back(e * 100000); break;
        case Throw: return o.v; case Ret: return 0; case Pause: break;
        }
        return 0;
    }
    int counter;
    Script script(Case& c, int depth, bool async)
    {
        Script s; const size_t n = c.rng.below(depth == 0 ? 7 : 4);
        for (size_t i = 0; i < n; ++i) { Op o{ YieldL }; const uint64_t k = c.rng.below(16); if (k < 6) o = { YieldL, ++counter }; else if (k < 9) o = { YieldR, ++counter }; else if (k < 11 && depth < 3) o = { Nest, 0, script(c, depth + 1, async) }; else if (k < 12 && depth < 3) o = { TryNest, 0, script(c, depth + 1, async) }; else if (k == 12 && c.rng.chance(1, 2)) o = { Throw, 1 + static_cast<int>(c.rng.below(9)) }; else if (k == 13 && c.rng.chance(1, 3)) o = { Ret }; else if (async) o = { Pause, static_cast<int>(c.rng.below(3)) }; else o = { YieldL, ++counter }; s.push_back(std::move(o)); }
        return s;
    }
    std::string show(const Script& s) { std::string r = "["; for (auto& o : s) { r += o.kind == YieldL ? "y" : o.kind == YieldR ? "r" : o.kind == Nest ? "n" : o.kind == TryNest ? "t" : o.kind == Throw ? "!" : o.kind == Ret ? "." : "~"; if (!o.sub.empty()) r += show(o.sub); } return r + "]"; }

    struct Big { Probe p; std::string s; int v; Big(World& w, int x) : p(w), s(std::to_string(x) + " and a string that does not fit in the buffer of a short one"), v(x) {} };
    // values of a type: made from a number, and read back
    template <class T> struct Val;
    template <> struct Val<int> { static int make(World&, int v) { return v; } static int get(int v) { return v; } };
    template <> struct Val<std::string> { static std::string make(World&, int v) { return std::to_string(v) + std::string(40, 'x'); } static int get(const std::string& s) { return s.size() < 41 ? -1 : std::stoi(s); } };
    template <> struct Val<std::unique_ptr<int>> { static std::unique_ptr<int> make(World&, int v) { return std::make_unique<int>(v); } static int get(const std::unique_ptr<int>& p) { return p ? *p : -1; } };
    template <> struct Val<Big> { static Big make(World& w, int v) { return Big(w, v); } static int get(const Big& b) { b.p.check(); return std::stoi(b.s) == b.v ? b.v : -1; } };

    struct Run { World w; int64_t produced = 0, started = 0; const void* address = nullptr; int changed = 0; explicit Run(Case& c) : w(c) {} };

    template <class G, class T> G body(Run& r, const Script& s, Probe param)
    {
        Probe local(r.w); ++r.started;
        for (auto& o : s)
        {
            Probe in(r.w); param.check(); local.check();
            if (o.kind == YieldL) { T v = Val<T>::make(r.w, o.v); ++r.produced; r.address = &v; co_yield v; r.address = nullptr; if constexpr (std::is_same_v<T, int>) { if (v != o.v) ++r.changed; } param.check(); local.check(); in.check(); }
            else if (o.kind == YieldR) { ++r.produced; r.address = nullptr; if constexpr (std::is_constructible_v<decltype(std::declval<typename G::promise_type>().yield_value(std::declval<T&&>())), decltype(std::declval<typename G::promise_type>().yield_value(std::declval<T&&>()))>) { co_yield Val<T>::make(r.w, o.v); } }
            else if (o.kind == Nest) { G g = body<G, T>(r, o.sub, Probe(r.w)); for (auto&& x : g) co_yield x; }
            else if (o.kind == TryNest) { int e = 0; try { G g = body<G, T>(r, o.sub, Probe(r.w)); for (auto&& x : g) co_yield x; } catch (const Err& x) { e = x.id; } if (e) { T v = Val<T>::make(r.w, e * 100000); ++r.produced; r.address = &v; co_yield v; if constexpr (std::is_same_v<T, int>) { if (v != e * 100000) ++r.changed; } } }
            else if (o.kind == Throw) { Probe t(r.w); throw Err{ o.v }; }
            else if (o.kind == Ret) co_return;
        }
    }

    // Consumes g up to `stop` values, then leaves in the way `how`.
    template <class T, class G> void consume(Case& c, Run& r, const Script& s, const Seq& q, const char* what)
    {
        const std::string in = vh::fmt("%s of %s", what, show(s).c_str()); const size_t stop = c.rng.below(q.v.size() + 2); const int how = static_cast<int>(c.rng.below(8)); size_t n = 0; int err = 0; bool ended = false; c.eval();
        auto at = [&](auto& it, G& g)
        {
            // after begin() or ++: at the n-th value, or at the end
            if (n < q.v.size()) { VH_CHECK(c, !(it == g.end()) && it != g.end(), "end", "%s ends after %zu values of %zu", in.c_str(), n, q.v.size()); const int v = Val<T>::get(*it); VH_CHECK(c, v == q.v[n], "value", "%s: value %zu is %d, must be %d", in.c_str(), n, v, q.v[n]); VH_CHECK(c, r.produced == static_cast<int64_t>(n) + 1, "lazy", "%s: the body has reached %lld values when the consumer takes number %zu", in.c_str(), static_cast<long long>(r.produced), n + 1); VH_CHECK(c, r.address == nullptr || static_cast<const void*>(std::addressof(*it)) == r.address, "reference", "%s: value %zu is a copy", in.c_str(), n); VH_CHECK(c, std::addressof(*it) == it.operator->(), "arrow", "%s: operator ->", in.c_str()); c.count("values"); }
            else { VH_CHECK(c, it == g.end() && !(it != g.end()) && g.end() == it, "end", "%s does not end after %zu values", in.c_str(), n); ended = true; c.count("ends"); }
        };
        {
            G g = body<G, T>(r, s, Probe(r.w)); VH_CHECK(c, r.started == 0 && r.produced == 0, "lazy", "%s runs before it is iterated", in.c_str()); VH_CHECK(c, r.w.live == 1, "parameters", "%s: %lld objects before the first step", in.c_str(), static_cast<long long>(r.w.live));
            if (how == 7 && stop == 0) { c.count("never started"); return; }
            G other; VH_CHECK(c, other.begin() == other.end(), "empty", "an empty generator has values"); if (how == 5) { G t(std::move(g)); VH_CHECK(c, g.begin() == g.end(), "moved-from", "a generator that was moved has values"); g = std::move(t); }
            typename G::iterator it;
            try
            {
                it = g.begin(); at(it, g);
                while (!ended && n < stop)
                {
                    // a reference given out may be written to
                    if constexpr (std::is_same_v<T, int> && !std::is_const_v<std::remove_reference_t<decltype(*it)>>) { if (c.rng.chance(1, 8) && r.address) { *it += 7; ++n; const int before = r.changed; if (n >= q.v.size() && q.err) { --n; *it -= 7; } else { ++it; VH_CHECK(c, r.changed == before + 1, "reference", "%s: the body does not see what the consumer stored", in.c_str()); at(it, g); continue; } } }
                    if constexpr (std::is_same_v<T, std::unique_ptr<int>> && !std::is_const_v<std::remove_reference_t<decltype(*it)>>) { if (c.rng.flip()) { auto own = std::move(*it); VH_CHECK(c, *own == q.v[n], "moved", "%s: moved value", in.c_str()); } }
                    if (how == 1 && c.rng.chance(1, 3)) { G t(std::move(g)); g = std::move(t); c.count("moves"); } if (how == 2 && c.rng.chance(1, 3)) { g.swap(other); swap(g, other); other.swap(g); std::swap(other, g); c.count("moves"); }
                    ++n; if (c.rng.flip()) ++it; else it++; at(it, g);
                }
                if (!ended) { c.count("abandoned"); switch (how) { case 3: throw 1; case 4: { G t; if (c.rng.flip()) t = body<G, T>(r, Script{}, Probe(r.w)); const int64_t extra = r.w.live; g = std::move(t); VH_CHECK(c, t.begin() == t.end(), "moved-from", "a generator that was moved has values"); VH_CHECK(c, r.w.live <= 1 && r.w.live < extra, "assigned", "%s: %lld objects are left after another was moved to it", in.c_str(), static_cast<long long>(r.w.live)); } g = G(); VH_CHECK(c, r.w.live == 0, "assigned", "%s: %lld objects are left after it was assigned to", in.c_str(), static_cast<long long>(r.w.live)); break; case 6: { G t = std::move(g); } VH_CHECK(c, r.w.live == 0, "assigned", "%s: %lld objects are left", in.c_str(), static_cast<long long>(r.w.live)); break; default: break; } }
            }
            catch (const Err& e) { err = e.id; c.count("exceptions"); VH_CHECK(c, it == g.end(), "end", "%s: the iteration does not end with the exception", in.c_str()); VH_CHECK(c, q.err == err && n == q.v.size(), "exception", "%s: exception %d after %zu values, must be %d after %zu", in.c_str(), err, n, q.err, q.v.size()); VH_CHECK(c, r.w.live == 1, "unwinding", "%s: %lld objects are left by the exception", in.c_str(), static_cast<long long>(r.w.live)); }
            catch (int) { }
            if (ended) { VH_CHECK(c, q.err == 0, "exception", "%s: exception %d is lost", in.c_str(), q.err); VH_CHECK(c, r.w.live == 1, "unwinding", "%s: %lld objects are left by the finished body", in.c_str(), static_cast<long long>(r.w.live)); }
        }
        c.distinct(vh::hash_str(in) ^ vh::mix(stop * 8 + how)); if (c.want_sample()) c.sample(vh::fmt("%s: took %zu of %zu values, then %d; ends with exception %d", in.c_str(), n, q.v.size(), how, q.err));
    }
    template <class T, class G> void one(Case& c, const char* what)
    {
        counter = 0; const Script s = [&] { for (;;) { Script t = script(c, 0, false); if constexpr (std::is_reference_v<typename G::iterator::reference>) { } return t; } }(); Seq q; q.err = expand(s, q.v); Run r(c); consume<T, G>(c, r, s, q, what);
        VH_CHECK(c, r.w.live == 0, "leak", "%s of %s: %lld objects of the body are left", what, show(s).c_str(), static_cast<long long>(r.w.live)); c.count("objects of bodies", static_cast<uint64_t>(r.w.made));
    }
    // no temporaries for references
    void only_lvalues(Script& s) { for (auto& o : s) { if (o.kind == YieldR) o.kind = YieldL; only_lvalues(o.sub); } }
    awl::generator<int&> ref_body(Run& r, const Script& s, Probe param) { Probe local(r.w); for (auto& o : s) { Probe in(r.w); param.check(); if (o.kind == YieldL) { int v = o.v; r.address = &v; ++r.produced; co_yield v; if (v != o.v) ++r.changed; r.address = nullptr; } else if (o.kind == Nest) { auto g = ref_body(r, o.sub, Probe(r.w)); for (int& x : g) co_yield x; } else if (o.kind == Throw) throw Err{ o.v }; else if (o.kind == Ret) co_return; } }
    awl::generator<std::string&&> move_body(Run& r, const Script& s, Probe param) { Probe local(r.w); for (auto& o : s) { Probe in(r.w); param.check(); if (o.kind == YieldL) { std::string v = Val<std::string>::make(r.w, o.v); co_yield std::move(v); if (!v.empty()) ++r.changed; } else if (o.kind == Throw) throw Err{ o.v }; } }
    awl::generator<const std::string> const_body(Run& r, const Script& s, Probe param) { Probe local(r.w); for (auto& o : s) { const std::string v = Val<std::string>::make(r.w, o.v); if (o.kind == YieldL) { ++r.produced; r.address = &v; co_yield v; } else if (o.kind == YieldR) { r.address = nullptr; ++r.produced; co_yield Val<std::string>::make(r.w, o.v); } else if (o.kind == Throw) throw Err{ o.v }; } }
    void flatten(Script& s) { Script t; for (auto& o : s) if (o.kind == YieldL || o.kind == YieldR || o.kind == Throw) t.push_back(o); s = t; }
}

VH_CASE(sync, 2)
{
    c.iterate(c.n(200000, 4000000), [&](uint64_t) { switch (c.rng.below(4)) { case 0: one<int, awl::generator<int>>(c, "generator<int>"); break; case 1: one<std::string, awl::generator<std::string>>(c, "generator<string>"); break; case 2: one<std::unique_ptr<int>, awl::generator<std::unique_ptr<int>>>(c, "generator<unique_ptr>"); break; default: one<Big, awl::generator<Big>>(c, "generator<object>"); break; } });
}

VH_CASE(references, 1)
{
    c.iterate(c.n(120000, 2000000), [&](uint64_t i)
    {
        counter = 0; Script s = script(c, 0, false); Run r(c); Seq q; c.eval(); size_t n = 0; int err = 0; const size_t stop = c.rng.chance(1, 3) ? c.rng.below(5) : 1000;
        if (i % 3 == 0) { only_lvalues(s); for (auto& o : s) if (o.kind == TryNest) o.kind = Nest; std::function<void(Script&)> f = [&](Script& t) { for (auto& o : t) { if (o.kind == TryNest) o.kind = Nest; f(o.sub); } }; f(s); q.err = expand(s, q.v); int touched = 0; try { for (int& x : ref_body(r, s, Probe(r.w))) { VH_CHECK(c, n < q.v.size() && x == q.v[n] && &x == r.address && r.produced == static_cast<int64_t>(n) + 1, "reference", "generator<int&> of %s: value %zu", show(s).c_str(), n); x = -x - 1; ++n; if (n > stop) break; ++touched; } } catch (const Err& e) { err = e.id; if (touched) --touched; } if (n <= stop) VH_CHECK(c, r.changed == touched || r.changed == touched + 1, "reference", "generator<int&>: %d of %d stored values seen", r.changed, touched); }
        else if (i % 3 == 1) { flatten(s); only_lvalues(s); q.err = expand(s, q.v); try { for (std::string&& x : move_body(r, s, Probe(r.w))) { std::string t(std::move(x)); VH_CHECK(c, n < q.v.size() && Val<std::string>::get(t) == q.v[n], "value", "generator<string&&>: value %zu", n); if (++n > stop) break; } } catch (const Err& e) { err = e.id; } VH_CHECK(c, r.changed == 0, "reference", "generator<string&&>: the values were not given away"); }
        else { flatten(s); q.err = expand(s, q.v); try { for (const std::string& x : const_body(r, s, Probe(r.w))) { VH_CHECK(c, n < q.v.size() && Val<std::string>::get(x) == q.v[n] && r.produced == static_cast<int64_t>(n) + 1 && (!r.address || r.address == &x), "value", "generator<const string>: value %zu", n); if (++n > stop) break; } } catch (const Err& e) { err = e.id; } }
        if (n <= stop) VH_CHECK(c, n == q.v.size() && err == q.err, "sequence", "%s: %zu values and exception %d, must be %zu and %d", show(s).c_str(), n, err, q.v.size(), q.err); VH_CHECK(c, r.w.live == 0, "leak", "%lld objects left", static_cast<long long>(r.w.live)); c.count("values", n); c.count("exceptions", err != 0); c.distinct(vh::hash_str(show(s)) ^ i % 3 ^ vh::mix(stop));
    });
}

VH_CASE(mapped, 1)
{
    c.iterate(c.n(60000, 1000000), [&](uint64_t)
    {
        counter = 0; const Script s = script(c, 0, false); Seq q; q.err = expand(s, q.v); Run r(c); c.eval(); size_t n = 0, calls = 0; int err = 0; const size_t bomb = c.rng.chance(1, 4) ? c.rng.below(6) : 1000, stop = c.rng.chance(1, 3) ? c.rng.below(5) : 1000; auto src = body<awl::generator<int>, int>(r, s, Probe(r.w));
        auto f = [&, p = Probe(r.w)](int& x) { p.check(); if (calls++ == bomb) throw Err{ 77 }; return std::to_string(x * 2); };
        auto len = [](std::string& t) { return t.size() * 1000000 + std::stoul(t); };
        try { if (c.rng.flip()) { for (auto& x : awl::fmap(f, std::move(src))) { VH_CHECK(c, n < q.v.size() && x == std::to_string(q.v[n] * 2) && r.produced == static_cast<int64_t>(n) + 1, "mapped", "value %zu", n); if (++n > stop) break; } } else for (auto& x : awl::fmap(len, awl::fmap(f, std::move(src)))) { const std::string t = n < q.v.size() ? std::to_string(q.v[n] * 2) : ""; VH_CHECK(c, n < q.v.size() && x == t.size() * 1000000 + std::stoul(t) && r.produced == static_cast<int64_t>(n) + 1, "mapped", "value %zu", n); if (++n > stop) break; } }
        catch (const Err& e) { err = e.id; }
        if (n <= stop) { const bool boom = bomb < q.v.size(); VH_CHECK(c, n == (boom ? bomb : q.v.size()) && err == (boom ? 77 : q.err), "mapped", "%zu values and exception %d", n, err); } c.count("values", n); c.count("exceptions", err != 0); VH_CHECK(c, r.w.live == 1, "leak", "%lld objects left", static_cast<long long>(r.w.live) - 1); c.distinct(vh::hash_str(show(s)) ^ vh::mix(bomb * 1000 + stop));
        { awl::generator<int> none; size_t k = 0; for (auto& x : awl::fmap(f, std::move(none))) k += x.size() + 1; VH_CHECK(c, k == 0, "mapped", "an empty generator has values"); }
    });
}

namespace
{
    template <class T> awl::async_generator<T> abody(Run& r, const Script& s, Probe param)
    {
        Probe local(r.w); ++r.started;
        for (auto& o : s)
        {
            Probe in(r.w); param.check(); local.check();
            if (o.kind == YieldL) { T v = Val<T>::make(r.w, o.v); ++r.produced; r.address = &v; co_yield v; r.address = nullptr; if constexpr (std::is_same_v<T, int>) { if (v != o.v) ++r.changed; } param.check(); in.check(); }
            else if (o.kind == YieldR) { ++r.produced; r.address = nullptr; co_yield Val<T>::make(r.w, o.v); }
            else if (o.kind == Nest) { awl::async_generator<T> g = abody<T>(r, o.sub, Probe(r.w)); typename awl::async_generator<T>::iterator i = co_await g.begin(); while (i != g.end()) { T& x = *i; co_yield x; co_await ++i; } }
            else if (o.kind == TryNest) { int e = 0; try { awl::async_generator<T> g = abody<T>(r, o.sub, Probe(r.w)); typename awl::async_generator<T>::iterator i = co_await g.begin(); while (i != g.end()) { T& x = *i; co_yield x; co_await ++i; } } catch (const Err& x) { e = x.id; } if (e) { T v = Val<T>::make(r.w, e * 100000); ++r.produced; r.address = &v; co_yield v; if constexpr (std::is_same_v<T, int>) { if (v != e * 100000) ++r.changed; } } }
            else if (o.kind == Throw) { Probe t(r.w); throw Err{ o.v }; }
            else if (o.kind == Ret) co_return;
            else if (o.kind == Pause) { co_await Waiter(r.w, o.v == 0); param.check(); local.check(); in.check(); }
        }
    }
    struct Flow { std::shared_ptr<void> state; bool handed = false; Run* r; Script s; Seq q; std::string in; size_t n = 0, stop = 0; int how = 0, err = 0; bool ended = false, finished = false; };
    template <class T> struct Sink { using G = awl::async_generator<T>; std::optional<G> own; G other; std::optional<typename G::iterator> it; };
    // Consumes; may hand the generator over to another coroutine (how 6), which goes on from there.
    template <class T> Job consumer(Case& c, Flow& f)
    {
        Probe local(f.r->w); using G = awl::async_generator<T>; Run& r = *f.r;
        if (!f.state) { auto s = std::make_shared<Sink<T>>(); f.state = s; s->own.emplace(abody<T>(r, f.s, Probe(r.w))); VH_CHECK(c, r.started == 0, "lazy", "%s runs before it is iterated", f.in.c_str()); typename G::iterator e = co_await s->other.begin(); VH_CHECK(c, e == s->other.end(), "empty", "an empty generator has values"); }
        Sink<T>& sink = *static_cast<Sink<T>*>(f.state.get()); G& other = sink.other; G* g = sink.own ? &*sink.own : &other; f.handed = false;
        auto at = [&](auto& it) { if (f.n < f.q.v.size()) { VH_CHECK(c, it != g->end() && !(it == g->end()), "end", "%s ends after %zu values of %zu", f.in.c_str(), f.n, f.q.v.size()); const int v = Val<T>::get(*it); VH_CHECK(c, v == f.q.v[f.n] && r.produced == static_cast<int64_t>(f.n) + 1, "value", "%s: value %zu is %d, must be %d", f.in.c_str(), f.n, v, f.q.v[f.n]); VH_CHECK(c, !r.address || static_cast<const void*>(std::addressof(*it)) == r.address, "reference", "%s: value %zu is a copy", f.in.c_str(), f.n); c.count("values"); } else { VH_CHECK(c, it == g->end() && !(it != g->end()), "end", "%s does not end after %zu values", f.in.c_str(), f.n); f.ended = true; c.count("ends"); } };
        try
        {
            if (!sink.it)
            {
                if (f.how == 5) { G t(std::move(*g)); { typename G::iterator e = co_await g->begin(); VH_CHECK(c, e == g->end(), "moved-from", "a generator that was moved has values"); } *g = std::move(t); typename G::iterator e = co_await t.begin(); VH_CHECK(c, e == t.end(), "moved-from", "a generator that was moved has values"); }
                typename G::iterator i = co_await g->begin(); sink.it.emplace(i); at(*sink.it);
            }
            typename G::iterator& it = *sink.it;
            while (!f.ended && f.n < f.stop)
            {
                if (c.rng.chance(1, 6)) { co_await Waiter(r.w, false); local.check(); if (f.n < f.q.v.size()) VH_CHECK(c, Val<T>::get(*it) == f.q.v[f.n] && r.produced == static_cast<int64_t>(f.n) + 1, "value", "%s: value %zu changed while the consumer was waiting", f.in.c_str(), f.n); }
                if (f.how == 6 && c.rng.chance(1, 2)) { f.handed = true; c.count("handed over"); co_return; }
                if constexpr (std::is_same_v<T, int>) { if (r.address && f.n + 1 < f.q.v.size() && c.rng.chance(1, 6)) { const int before = r.changed; *it += 3; ++f.n; co_await ++it; VH_CHECK(c, r.changed == before + 1, "reference", "%s: the body does not see what the consumer stored", f.in.c_str()); at(it); continue; } }
                if (f.how == 1 && c.rng.chance(1, 3)) { G t(std::move(*g)); *g = std::move(t); } if (f.how == 2 && c.rng.chance(1, 3)) { g->swap(other); swap(*g, other); }
                ++f.n; typename G::iterator& same = co_await ++it; VH_CHECK(c, &same == &it, "increment", "%s: ++ returned another iterator", f.in.c_str()); at(it);
            }
            if (!f.ended) { c.count("abandoned"); const int64_t left = 1; switch (f.how) { case 3: sink.own.reset(); g = &other; VH_CHECK(c, r.w.live == left, "assigned", "%s: %lld objects are left", f.in.c_str(), static_cast<long long>(r.w.live - left)); break; case 4: { G t; if (c.rng.flip()) t = abody<T>(r, Script{}, Probe(r.w)); const int64_t before = r.w.live; *g = std::move(t); typename G::iterator e = co_await t.begin(); VH_CHECK(c, e == t.end(), "moved-from", "a generator that was moved has values"); VH_CHECK(c, r.w.live <= left + 1 && r.w.live < before, "assigned", "%s: %lld objects are left after another was moved to it", f.in.c_str(), static_cast<long long>(r.w.live - left)); } *g = G(); VH_CHECK(c, r.w.live == left, "assigned", "%s: %lld objects are left", f.in.c_str(), static_cast<long long>(r.w.live - left)); break; default: break; } if (c.rng.flip()) co_await Waiter(r.w, false); }
        }
        catch (const Err& e) { f.err = e.id; if (sink.it) VH_CHECK(c, *sink.it == g->end(), "end", "%s: the iteration does not end with the exception", f.in.c_str()); }
        if (f.err) { c.count("exceptions"); VH_CHECK(c, f.err == f.q.err && f.n == f.q.v.size(), "exception", "%s: exception %d after %zu values, must be %d after %zu", f.in.c_str(), f.err, f.n, f.q.err, f.q.v.size()); }
        if (f.ended) VH_CHECK(c, f.q.err == 0, "exception", "%s: exception %d is lost", f.in.c_str(), f.q.err);
        local.check(); f.finished = true;
    }
    template <class T> void async(Case& c, const char* what)
    {
        const size_t k = 1 + c.rng.below(3); std::vector<std::unique_ptr<Run>> runs; std::vector<std::unique_ptr<Flow>> flows; std::vector<Job> jobs;
        for (size_t i = 0; i < k; ++i) { runs.push_back(std::make_unique<Run>(c)); auto f = std::make_unique<Flow>(); f->r = runs.back().get(); counter = 0; f->s = script(c, 0, true); f->q.err = expand(f->s, f->q.v); f->in = vh::fmt("%s of %s", what, show(f->s).c_str()); f->stop = c.rng.flip() ? 1000 : c.rng.below(f->q.v.size() + 2); f->how = static_cast<int>(c.rng.below(7)); flows.push_back(std::move(f)); }
        for (size_t i = 0; i < k; ++i) { c.eval(); jobs.push_back(consumer<T>(c, *flows[i])); jobs.back().rethrow(); }
        auto hand = [&](size_t i) { while (jobs[i].h && jobs[i].done() && flows[i]->handed) { jobs[i].drop(); jobs[i] = consumer<T>(c, *flows[i]); jobs[i].rethrow(); } };
        for (size_t i = 0; i < k; ++i) hand(i);
        for (;;)
        {
            std::vector<size_t> w; for (size_t i = 0; i < k; ++i) if (!runs[i]->w.waits.empty()) w.push_back(i); if (w.empty()) break; const size_t i = c.rng.pick(w);
            if (c.rng.chance(1, 25)) { jobs[i].drop(); flows[i]->state.reset(); c.count("destroyed while suspended"); VH_CHECK(c, runs[i]->w.waits.empty() && runs[i]->w.live == 0, "destroyed", "%s: destroyed after %zu values: %lld objects and %zu waits are left", flows[i]->in.c_str(), flows[i]->n, static_cast<long long>(runs[i]->w.live), runs[i]->w.waits.size()); continue; }
            VH_CHECK(c, runs[i]->w.waits.size() == 1, "waits", "%s waits twice", flows[i]->in.c_str()); runs[i]->w.step(); c.count("resumptions"); jobs[i].rethrow(); hand(i);
        }
        for (size_t i = 0; i < k; ++i) { Flow& f = *flows[i]; if (jobs[i].h) VH_CHECK(c, f.finished && jobs[i].done(), "stuck", "%s: the consumer was not continued after %zu values of %zu", f.in.c_str(), f.n, f.q.v.size()); jobs[i].drop(); f.state.reset(); VH_CHECK(c, runs[i]->w.live == 0, "leak", "%s: %lld objects are left", f.in.c_str(), static_cast<long long>(runs[i]->w.live)); c.count("objects of bodies", static_cast<uint64_t>(runs[i]->w.made)); c.distinct(vh::hash_str(f.in) ^ vh::mix(f.stop * 8 + f.how)); if (c.want_sample()) c.sample(vh::fmt("%s: took %zu of %zu values in %lld resumptions", f.in.c_str(), f.n, f.q.v.size(), static_cast<long long>(runs[i]->w.resumed))); }
    }
}

VH_CASE(async, 2)
{
    c.iterate(c.n(120000, 3000000), [&](uint64_t) { switch (c.rng.below(4)) { case 0: async<int>(c, "async_generator<int>"); break; case 1: async<std::string>(c, "async_generator<string>"); break; case 2: async<std::unique_ptr<int>>(c, "async_generator<unique_ptr>"); break; default: async<Big>(c, "async_generator<object>"); break; } });
}
VH_MAIN()
