// C32: trees of tasks run scripts under a scheduler of the harness; what each await delivers, who runs and who is alive are compared with a model.
#include "co.h"
#include "Awl/Coro/ProcessTask.h"
#include "Awl/Coro/UpdateTask.h"
#include "Awl/Testing/TimeQueue.h"
#include <algorithm>
#include <string>
#include <variant>
#include <vector>
using namespace co;

namespace
{
    struct Big { Probe p; std::string s; int v; Big(World& w, int x) : p(w), s(std::to_string(x) + " and a string that does not fit in the buffer of a short one"), v(x) {} };
    template <class T> struct Val;
    template <> struct Val<int> { static int make(World&, int v) { return v; } static int get(int v) { return v; } };
    template <> struct Val<std::string> { static std::string make(World&, int v) { return std::to_string(v) + std::string(40, 'x'); } static int get(const std::string& s) { return s.size() < 41 ? -1 : std::stoi(s); } };
    template <> struct Val<std::unique_ptr<int>> { static std::unique_ptr<int> make(World&, int v) { return std::make_unique<int>(v); } static int get(const std::unique_ptr<int>& p) { return p ? *p : -1; } };
    template <> struct Val<Big> { static Big make(World& w, int v) { return Big(w, v); } static int get(const Big& b) { b.p.check(); return std::stoi(b.s) == b.v ? b.v : -1; } };

    enum Type { TInt, TStr, TPtr, TBig, TVoid, TUpdate, Types };
    enum Kind { Wait, Ready, Start, Await, TryAwait, Now, TryNow, Drop, Move, Peek, Release };
    const char* const kinds = "wrsaAnNdmp^"; const char* const types = "isqbvu";
    struct Op { Kind kind; size_t k = 0; int how = 0; };
    struct Node
    {
        int id = 0; Type type = TInt; std::vector<Op> ops; std::vector<std::unique_ptr<Node>> kids; int err = 0;
        int started = 0, finished = 0, destroyed = 0, resumed = 0; Node* awaiting = nullptr; bool released = false;
        // What it ends with: 0, or its exception.
        int outcome() const { for (auto& o : ops) if (o.kind == Await || o.kind == Now) { const Node& k = *kids[o.k]; if (const int e = k.outcome()) return e; } return err; }
        int value() const { return type == TVoid || type == TUpdate ? 0 : id * 10 + 1; }
        std::string show() const { std::string s(1, types[type]); s += '['; for (auto& o : ops) { s += kinds[o.kind]; if (o.kind >= Start) s += std::to_string(o.k); if (o.kind == Start || o.kind == Now || o.kind == TryNow) s += kids[o.k]->show(); } s += ']'; if (err) s += '!'; return s; }
        template <class F> void each(F f) { f(*this); for (auto& k : kids) k->each(f); }
    };
    int counter;
    std::unique_ptr<Node> tree(Case& c, int depth)
    {
        auto n = std::make_unique<Node>(); n->id = ++counter; n->type = static_cast<Type>(c.rng.below(Types)); const bool safe = n->type == TUpdate; if (!safe && c.rng.chance(1, 6)) n->err = n->id * 10 + 2; const size_t kids = depth >= 4 ? 0 : c.rng.below(depth == 0 ? 4 : 3);
        auto wait = [&] { while (c.rng.chance(2, 5)) n->ops.push_back({ c.rng.chance(1, 4) ? Ready : Wait }); };
        std::vector<size_t> open; auto use = [&] { if (open.empty()) return; const size_t at = c.rng.below(open.size()), k = open[at]; Node& kid = *n->kids[k]; if (c.rng.chance(1, 4)) { n->ops.push_back({ Move, k, static_cast<int>(c.rng.below(3)) }); return; } if (c.rng.chance(1, 4)) { n->ops.push_back({ Peek, k }); return; }
            Kind w = safe ? TryAwait : c.rng.flip() ? Await : TryAwait; if (c.rng.chance(1, 6)) w = Drop; else if (kid.type == TUpdate && c.rng.chance(1, 3)) w = Release; n->ops.push_back({ w, k, static_cast<int>(c.rng.below(4)) }); open.erase(open.begin() + static_cast<std::ptrdiff_t>(at)); };
        for (size_t i = 0; i < kids; ++i) { wait(); n->kids.push_back(tree(c, depth + 1)); if (c.rng.chance(1, 3)) n->ops.push_back({ safe || c.rng.flip() ? TryNow : Now, i }); else { n->ops.push_back({ Start, i }); open.push_back(i); } wait(); while (c.rng.chance(1, 2)) { use(); wait(); } }
        while (!open.empty() && c.rng.chance(4, 5)) { use(); wait(); } wait(); return n;
    }

    // A violation seen in the body of a task is kept, and reported by the driver.
    struct Ctx { Case& c; World w; int64_t frames = 0; std::string key, msg; void soft(const char* k, std::string m) { if (key.empty()) { key = k; msg = std::move(m); } } void report() { if (!key.empty()) c.fail(key, msg); } explicit Ctx(Case& cc) : c(cc), w(cc) {} };
    // The parameter of every task: its second copy lives in the frame, and tells when the frame goes.
    struct Life { Probe p; Ctx* x; Node* n; int depth = 0; Life(Ctx& xx, Node& nn) : p(xx.w), x(&xx), n(&nn) {} Life(const Life& o) : p(o.p), x(o.x), n(o.n), depth(o.depth + 1) { if (depth == 2) ++x->frames; } ~Life() { if (depth == 2) { ++n->destroyed; n->awaiting = nullptr; --x->frames; } } void check() const { p.check(); } };

#define SOFT(x, cond, key, ...) do { if (!(cond)) (x).soft(key, vh::fmt(__VA_ARGS__)); } while (0)
    using PInt = awl::ProcessTask<int>; using PStr = awl::ProcessTask<std::string>; using PPtr = awl::ProcessTask<std::unique_ptr<int>>; using PBig = awl::ProcessTask<Big>; using PVoid = awl::ProcessTask<void>; using awl::UpdateTask;
    using Slot = std::variant<std::monostate, PInt, PStr, PPtr, PBig, PVoid, UpdateTask>;
    PInt run_int(Ctx&, Node&, Life); PStr run_str(Ctx&, Node&, Life); PPtr run_ptr(Ctx&, Node&, Life); PBig run_big(Ctx&, Node&, Life); PVoid run_void(Ctx&, Node&, Life); UpdateTask run_update(Ctx&, Node&, Life);
    void start(Ctx& x, Node& n, Slot& s)
    {
        Life p(x, n); switch (n.type) { case TInt: s = run_int(x, n, p); break; case TStr: s = run_str(x, n, p); break; case TPtr: s = run_ptr(x, n, p); break; case TBig: s = run_big(x, n, p); break; case TVoid: s = run_void(x, n, p); break; default: s = run_update(x, n, p); break; }
        SOFT(x, n.started == 1, "eager", "%s has not begun when it is started", n.show().c_str());
    }
    template <class F> void with(Slot& s, F f) { std::visit([&](auto& t) { if constexpr (!std::is_same_v<std::decay_t<decltype(t)>, std::monostate>) f(t); }, s); }
    void move(Slot& s, int how) { switch (how) { case 0: { Slot t(std::move(s)); s = std::move(t); break; } case 1: with(s, [](auto& t) { auto u(std::move(t)); t = std::move(u); }); break; default: with(s, [](auto& t) { std::decay_t<decltype(t)> u; u = std::move(t); t = std::move(u); }); break; } }
    void drop(Ctx& x, Node& n, Slot& s, int how)
    {
        const bool alive = n.destroyed == 0; switch (how) { case 0: s = std::monostate(); break; case 1: with(s, [](auto& t) { t.free(); t.free(); }); break; case 2: with(s, [](auto& t) { t = std::decay_t<decltype(t)>(); }); break; default: { Slot t(std::move(s)); break; } }
        SOFT(x, alive && n.destroyed == 1, "destroyed", "%s: destroyed %d times by the destruction of its task", n.show().c_str(), n.destroyed);
    }
    // What the interface tells about a task from outside.
    void peek(Ctx& x, Node& n, Slot& s, bool take)
    {
        auto value = [&](auto& t) { int e = 0; bool r = false; try { r = t.is_ready(); } catch (const Err& err) { e = err.id; } const int o = n.outcome(); x.c.count("polled"); if (!n.finished) SOFT(x, !e && !r, "ready", "%s is ready before its end", n.show().c_str()); else SOFT(x, o ? e == o : r, "ready", "%s has ended with %d and is not ready", n.show().c_str(), o);
            if (n.finished && take) { int v = 0; e = 0; try { auto got = t.get(); v = Val<decltype(got)>::get(got); } catch (const Err& err) { e = err.id; } SOFT(x, e == o && (o || v == n.value()), "value", "%s: get gives %d and exception %d, must be %d and %d", n.show().c_str(), v, e, n.value(), o); } };
        switch (n.type) { case TInt: value(std::get<PInt>(s)); break; case TStr: value(std::get<PStr>(s)); break; case TPtr: value(std::get<PPtr>(s)); break; case TBig: value(std::get<PBig>(s)); break; case TVoid: break; default: { auto& t = std::get<UpdateTask>(s); SOFT(x, t && t.done() == (n.finished != 0), "done", "%s: done", n.show().c_str()); } }
    }
    void release(Ctx& x, Node& n, Slot& s) { auto& t = std::get<UpdateTask>(s); const bool done = n.finished; n.released = true; t.release(); t.release(); SOFT(x, !t, "release", "a released task is still held"); if (done) SOFT(x, n.destroyed == 1, "released", "%s had finished when it was released: its state is left", n.show().c_str()); else SOFT(x, n.destroyed == 0, "released", "%s was destroyed when it was released", n.show().c_str()); x.c.count("released"); x.c.count(done ? "released after their end" : "released before their end"); }
    void delivered(Ctx& x, Node& n, Node& k, int v, int e) { n.awaiting = nullptr; x.c.count("awaits"); if (e) x.c.count("exceptions"); SOFT(x, k.finished == 1, "continued", "%s continues before %s has finished", n.show().c_str(), k.show().c_str()); const int o = k.outcome(); SOFT(x, e == o && (o || v == k.value()), "value", "%s gives %d and exception %d, must be %d and %d", k.show().c_str(), v, e, k.value(), o); }

#define VALUE(T, EXPR) { T got = co_await EXPR; v = Val<T>::get(got); } break
#define BODY(NAME, RET, RETURN) RET NAME(Ctx& x, Node& n, Life param) \
    { \
        Probe local(x.w); ++n.started; std::vector<Slot> slots(n.kids.size()); \
        for (const Op o : n.ops) \
        { \
            Probe in(x.w); param.check(); local.check(); int v = 0, e = 0; \
            switch (o.kind) \
            { \
            case Wait: co_await Waiter(x.w, false); ++n.resumed; break; \
            case Ready: co_await Waiter(x.w, true); break; \
            case Start: start(x, *n.kids[o.k], slots[o.k]); break; \
            case Move: move(slots[o.k], o.how); break; \
            case Drop: drop(x, *n.kids[o.k], slots[o.k], o.how); break; \
            case Peek: peek(x, *n.kids[o.k], slots[o.k], false); break; \
            case Release: release(x, *n.kids[o.k], slots[o.k]); break; \
            case Await: case TryAwait: \
            { \
                Node& k = *n.kids[o.k]; Slot& s = slots[o.k]; n.awaiting = &k; x.c.count(k.finished ? "awaited after their end" : "awaited before their end"); \
                try { switch (k.type) { case TInt: VALUE(int, std::get<PInt>(s)); case TStr: VALUE(std::string, std::get<PStr>(s)); case TPtr: VALUE(std::unique_ptr<int>, std::get<PPtr>(s)); case TBig: VALUE(Big, std::get<PBig>(s)); case TVoid: co_await std::get<PVoid>(s); break; default: co_await std::get<UpdateTask>(s); break; } } catch (const Err& err) { e = err.id; } \
                delivered(x, n, k, v, e); if (e && o.kind == Await) { ++n.finished; throw Err{ e }; } break; \
            } \
            case Now: case TryNow: \
            { \
                Node& k = *n.kids[o.k]; Life p(x, k); n.awaiting = &k; \
                try { switch (k.type) { case TInt: VALUE(int, run_int(x, k, p)); case TStr: VALUE(std::string, run_str(x, k, p)); case TPtr: VALUE(std::unique_ptr<int>, run_ptr(x, k, p)); case TBig: VALUE(Big, run_big(x, k, p)); case TVoid: co_await run_void(x, k, p); break; default: co_await run_update(x, k, p); break; } } catch (const Err& err) { e = err.id; } \
                delivered(x, n, k, v, e); SOFT(x, k.destroyed == 1, "destroyed", "%s: the state of a temporary task is left", k.show().c_str()); if (e && o.kind == Now) { ++n.finished; throw Err{ e }; } break; \
            } \
            } \
            param.check(); local.check(); in.check(); \
        } \
        ++n.finished; if (n.err) throw Err{ n.err }; RETURN; \
    }
    BODY(run_int, PInt, co_return Val<int>::make(x.w, n.value()))
    BODY(run_str, PStr, co_return Val<std::string>::make(x.w, n.value()))
    BODY(run_ptr, PPtr, co_return Val<std::unique_ptr<int>>::make(x.w, n.value()))
    BODY(run_big, PBig, co_return Val<Big>::make(x.w, n.value()))
    BODY(run_void, PVoid, co_return)
    BODY(run_update, UpdateTask, co_return)
}

VH_CASE(trees, 3)
{
    c.iterate(c.n(150000, 4000000), [&](uint64_t)
    {
        Ctx x(c); counter = 0; c.eval(); struct Root { std::unique_ptr<Node> n; Slot s; Job job; bool awaited = false, dropped = false, gone = false, continued = false; std::string text; }; std::vector<std::unique_ptr<Root>> roots; const size_t k = 1 + c.rng.below(3);
        auto await = [&](Root& r) -> Job
        {
            // a coroutine of another kind waits for the task
            Node& n = *r.n; int v = 0, e = 0; Slot& s = r.s;
            try { switch (n.type) { case TInt: VALUE(int, std::get<PInt>(s)); case TStr: VALUE(std::string, std::get<PStr>(s)); case TPtr: VALUE(std::unique_ptr<int>, std::get<PPtr>(s)); case TBig: VALUE(Big, std::get<PBig>(s)); case TVoid: co_await std::get<PVoid>(s); break; default: co_await std::get<UpdateTask>(s); break; } } catch (const Err& err) { e = err.id; }
            SOFT(x, !r.dropped && !r.continued && n.finished == 1, "continued", "what awaits %s continues at a wrong time", r.text.c_str()); const int o = n.outcome(); SOFT(x, e == o && (o || v == n.value()), "value", "%s gives %d and exception %d, must be %d and %d", r.text.c_str(), v, e, n.value(), o); r.continued = true; c.count("awaits");
        };
        for (size_t i = 0; i < k; ++i) { auto r = std::make_unique<Root>(); r->n = tree(c, 0); r->text = r->n->show(); start(x, *r->n, r->s); roots.push_back(std::move(r)); }
        // who awaits a task that has finished is stuck
        auto stuck = [&] { x.report(); for (auto& r : roots) { r->n->each([&](Node& n) { if (n.awaiting) VH_CHECK(c, n.awaiting->finished == 0, "stuck", "%s is not continued by the end of %s", n.show().c_str(), n.awaiting->show().c_str()); VH_CHECK(c, n.started <= 1 && n.destroyed <= n.started && n.finished <= n.started, "once", "%s: started %d times, finished %d times, destroyed %d times", n.show().c_str(), n.started, n.finished, n.destroyed); }); if (r->awaited && r->n->finished && !r->dropped) VH_CHECK(c, r->continued, "stuck", "what awaits %s is not continued", r->text.c_str()); } };
        stuck();
        for (;;)
        {
            Root& r = *roots[c.rng.below(k)]; const uint64_t what = c.rng.below(24);
            if (what == 0 && !r.dropped && c.rng.chance(1, 3)) { c.count("destroyed"); if (!r.n->finished) c.count("destroyed while suspended"); if (!std::get_if<UpdateTask>(&r.s) && c.rng.flip()) r.job.drop(); const bool was = r.n->finished; if (r.gone) { }
                // a task that is let go goes on, and so does what awaits it
                else if (std::get_if<UpdateTask>(&r.s) && c.rng.chance(1, 2)) { const bool job = static_cast<bool>(r.job.h); release(x, *r.n, r.s); r.gone = true; if (!job) r.dropped = true; c.count(r.awaited ? "let go while awaited" : "let go"); } else { drop(x, *r.n, r.s, static_cast<int>(c.rng.below(4))); r.dropped = true; VH_CHECK(c, was == (r.n->finished != 0), "resumed", "%s ran when it was destroyed", r.text.c_str()); r.job.drop(); } }
            else if (what == 1 && !r.dropped && !r.gone) { move(r.s, static_cast<int>(c.rng.below(3))); c.count("moves"); }
            else if (what == 2 && !r.dropped && !r.gone) peek(x, *r.n, r.s, false);
            else if (what == 3 && !r.dropped && !r.awaited && !r.gone) { r.awaited = true; r.job = await(r); }
            else { if (x.w.waits.empty()) break; x.w.step(); c.count("resumptions"); }
            stuck();
        }
        for (auto& p : roots) { Root& r = *p; if (r.dropped) continue; VH_CHECK(c, r.n->finished == 1, "stuck", "%s has not finished and nothing is waiting", r.text.c_str()); if (r.gone) { VH_CHECK(c, r.continued && r.n->destroyed == 1, "stuck", "what awaits %s is not continued", r.text.c_str()); r.job.drop(); continue; } if (!r.awaited) peek(x, *r.n, r.s, true); drop(x, *r.n, r.s, static_cast<int>(c.rng.below(4))); r.job.drop(); }
        x.report(); for (auto& p : roots) { p->n->each([&](Node& n) { VH_CHECK(c, n.destroyed == n.started, "leak", "%s in %s: started %d times, destroyed %d times%s", n.show().c_str(), p->text.c_str(), n.started, n.destroyed, n.released ? ", released" : ""); if (n.started) { c.count("tasks"); if (n.outcome()) c.count("tasks with an exception"); } if (n.finished) c.count("finished tasks"); }); c.distinct(vh::hash_str(p->text) ^ vh::mix(static_cast<uint64_t>(x.w.resumed))); if (c.want_sample()) c.sample(vh::fmt("%s: ends with %d after %lld resumptions", p->text.c_str(), p->n->finished ? p->n->outcome() : -1, static_cast<long long>(x.w.resumed))); }
        VH_CHECK(c, x.w.live == 0 && x.frames == 0, "leak", "%lld objects and %lld frames are left", static_cast<long long>(x.w.live), static_cast<long long>(x.frames));
    });
}

// Long chains of tasks, each awaiting the next one.
namespace
{
    PInt chain(World& w, int n, bool fail) { Probe p(w); if (n == 0) { co_await Waiter(w, false); if (fail) throw Err{ 5 }; co_return 0; } PInt next = chain(w, n - 1, fail); if (n % 7 == 0) co_await Waiter(w, n % 2 == 0); const int v = co_await next; co_return v + 1; }
    UpdateTask links(World& w, int n, int& ended) { Probe p(w); if (n == 0) co_await Waiter(w, false); else { UpdateTask next = links(w, n - 1, ended); if (n % 5 == 0) co_await Waiter(w, n % 2 == 0); co_await next; } ++ended; }
}
VH_CASE(chains, 1)
{
    c.iterate(c.n(2000, 40000), [&](uint64_t i)
    {
        World w(c); c.eval(); const int n = 1 + static_cast<int>(c.rng.below(300)); const bool fail = c.rng.chance(1, 4), abandon = c.rng.chance(1, 4); size_t left = abandon ? c.rng.below(static_cast<uint64_t>(n) / 4 + 1) : 1000000;
        if (i % 2) { { PInt t = chain(w, n, fail); while (!w.waits.empty() && left--) w.step(); if (w.waits.empty()) { int v = -1, e = 0; try { v = t.get(); } catch (const Err& x) { e = x.id; } VH_CHECK(c, fail ? e == 5 : v == n && !e, "chain", "a chain of %d tasks gives %d and exception %d", n, v, e); c.count("chains ended"); } else c.count("chains abandoned"); } }
        else { int ended = 0; { UpdateTask t = links(w, n, ended); while (!w.waits.empty() && left--) w.step(); if (w.waits.empty()) { VH_CHECK(c, ended == n + 1 && t.done(), "chain", "%d of %d tasks of a chain have finished", ended, n + 1); c.count("chains ended"); } else c.count("chains abandoned"); } }
        VH_CHECK(c, w.live == 0 && w.waits.empty(), "leak", "%lld objects of a chain of %d are left", static_cast<long long>(w.live), n); c.distinct(vh::mix(static_cast<uint64_t>(n) * 4 + (i % 2) * 2 + fail) ^ left);
    });
}

// The queue of timers: real time, small delays.
namespace
{
    using Clock = std::chrono::steady_clock; using std::chrono::nanoseconds; using awl::testing::operator co_await; using awl::operator co_await;
    struct Timer { Clock::time_point lo, hi; bool waiting = false; };
    struct Bench { Case& c; std::string key, msg; void soft(const char* k, std::string m) { if (key.empty()) { key = k; msg = std::move(m); } }  std::vector<Timer> t; uint64_t resumed = 0; World w; explicit Bench(Case& cc) : c(cc), w(cc) {} };
    // What is resumed: not before its time, and nothing that is due earlier is left waiting behind it.
    void fired(Bench& b, size_t i) { const auto now = Clock::now(); Timer& t = b.t[i]; SOFT(b, t.waiting, "timer-once", "a timer is resumed twice"); t.waiting = false; ++b.resumed; SOFT(b, now >= t.lo, "timer-early", "a timer is resumed %lld ns before its time", static_cast<long long>((t.lo - now).count())); for (auto& o : b.t) SOFT(b, !o.waiting || o.hi >= t.lo, "timer-order", "a timer is resumed before another that is due %lld ns earlier", static_cast<long long>((t.lo - o.hi).count())); }
    struct Sleep { Bench& b; awl::testing::TimeAwaitable a; nanoseconds d; size_t i = 0; bool asleep = false; Sleep(Bench& bb, nanoseconds dd) : b(bb), a(awl::testing::timeQueue, dd), d(dd) {} bool await_ready() { return a.await_ready(); } void await_suspend(std::coroutine_handle<> h) { i = b.t.size(); b.t.push_back({}); asleep = true; const auto before = Clock::now(); a.await_suspend(h); b.t[i].lo = before + d; b.t[i].hi = Clock::now() + d; b.t[i].waiting = true; } void await_resume() { if (asleep) fired(b, i); a.await_resume(); } };
    PInt sleeper(Bench& b, int depth) { Probe p(b.w); const nanoseconds d(static_cast<int64_t>(b.c.rng.below(b.c.rng.flip() ? 300000 : 3000000)) - 20000); co_await Sleep(b, d); if (depth < 4 && b.c.rng.chance(1, 2)) { PInt x = sleeper(b, depth + 1), y = sleeper(b, depth + 1); co_await nanoseconds(static_cast<int64_t>(b.c.rng.below(100000))); co_return co_await y + co_await x; } co_return 1; }
}
VH_CASE(timers, 1)
{
    c.iterate(c.n(300, 10000), [&](uint64_t)
    {
        Bench b(c); c.eval(); { std::vector<PInt> all; const size_t n = 1 + c.rng.below(12); for (size_t i = 0; i < n; ++i) all.push_back(sleeper(b, 0)); awl::testing::timeQueue.loop(); if (!b.key.empty()) c.fail(b.key, b.msg); for (auto& t : all) { VH_CHECK(c, t.is_ready(), "timer-lost", "a task that waits for a timer was not resumed"); if (t.is_ready()) { const int v = t.get(); VH_CHECK(c, v >= 1 && v <= 16, "value", "%d", v); } } for (auto& t : b.t) VH_CHECK(c, !t.waiting, "timer-lost", "a timer is lost"); c.count("timers", b.t.size()); c.distinct(vh::mix(b.t.size() * 16 + n)); } VH_CHECK(c, b.w.live == 0, "leak", "%lld objects left", static_cast<long long>(b.w.live));
    });
}
VH_MAIN()
