// C13: stop_token/stop_source/stop_callback: state-machine monitor per callback, model of the token algebra, and
// schedule fuzzing at every basic block of the header.
#include "vh_pc.h"
#include "stop_token.hpp"

#include <algorithm>
#include <set>
#include <optional>
#include <thread>

using vh::Case;

namespace
{
    using Fn = std::function<void()>;
    using Callback = std::stop_callback<Fn>;

    struct State { bool requested = false; int sources = 0; };
    struct MSource { std::optional<std::stop_source> s; State* st; };
    struct MToken { std::optional<std::stop_token> t; State* st; };
}

// Random single-threaded histories against a model, including callbacks that act on the objects while they run.
VH_CASE(algebra, 5)
{
    vh::g_pc.every = 0;
    c.iterate(c.n(2500, 60000), [&](uint64_t)
    {
        std::vector<std::unique_ptr<State>> states; std::vector<MSource> src; std::vector<MToken> tok;
        struct Cb { std::unique_ptr<Callback> cb; State* st; int runs = 0; bool expected = false; int action = 0; bool alive = true; bool running = false; };
        std::vector<std::unique_ptr<Cb>> cbs; std::string bad; auto err = [&](const std::string& w) { if (bad.empty()) bad = w; };
        std::vector<std::pair<std::unique_ptr<Callback>, State*>> grave;
        auto new_source = [&]() { states.push_back(std::make_unique<State>()); states.back()->sources = 1; src.push_back({ std::stop_source(), states.back().get() }); };
        new_source();
        auto drop_source = [&](size_t i) { if (src[i].st) --src[i].st->sources; src.erase(src.begin() + i); };
        std::function<void(Cb*)> run;
        auto add_cb = [&](MToken& t, bool rvalue, int action)
        {
            auto o = std::make_unique<Cb>(); Cb* p = o.get(); p->st = t.st; p->action = action; cbs.push_back(std::move(o));
            State* st = t.st; const bool now = st && st->requested; p->expected = now;
            if (rvalue) { std::stop_token x = *t.t; p->cb = std::make_unique<Callback>(std::move(x), [p, &run]() { run(p); }); }
            else { std::stop_token& x = *t.t; p->cb = std::make_unique<Callback>(x, [p, &run]() { run(p); }); }
            if (now && p->runs != 1) err("callback registered after the stop request ran " + std::to_string(p->runs) + " times");
            if (!now && p->runs != 0) err("callback ran although no stop was requested");
        };
        run = [&](Cb* p)
        {
            if (!p->alive) err("callback ran after it was deregistered");
            ++p->runs; if (!p->st || !p->st->requested) err("callback ran without a stop request");
            if (p->running) err("callback re-entered"); p->running = true;
            const int a = p->action; p->action = 0;
            switch (a)
            {
            case 1: if (p->cb) { p->alive = false; p->cb.reset(); } break;                                    // destroys its own registration
            case 2: for (auto& o : cbs) if (o.get() != p && o->cb && !o->running) { o->alive = false; o->expected = o->runs > 0; o->cb.reset(); break; } break; // another one
            case 3: for (auto& t : tok) if (t.st == p->st) { MToken cp{ t.t, t.st }; add_cb(cp, true, 0); break; } break;      // registers a new one
            case 4: for (auto& s : src) if (s.st == p->st) { if (s.s->request_stop()) err("a second stop request succeeded"); break; } break;
            case 5: tok.clear(); break;
            default: break;
            }
            p->running = false;
        };
        for (int op = 0; op < 50; ++op)
        {
            const char* what = "?";
            const size_t a = src.empty() ? 0 : c.rng.below(src.size()), b = src.empty() ? 0 : c.rng.below(src.size());
            const size_t x = tok.empty() ? 0 : c.rng.below(tok.size()), y = tok.empty() ? 0 : c.rng.below(tok.size());
            switch (c.rng.below(22))
            {
            case 0: what = "new source"; if (src.size() < 8) { if (c.rng.chance(1, 4)) src.push_back({ std::stop_source(std::nostopstate), nullptr }); else new_source(); } break;
            case 1: what = "copy source"; if (!src.empty() && src.size() < 8) { MSource n{ src[a].s, src[a].st }; if (n.st) ++n.st->sources; src.push_back(std::move(n)); } break;
            case 2: what = "move source"; if (!src.empty() && src.size() < 8) { MSource n{ std::stop_source(std::move(*src[a].s)), src[a].st }; src[a].st = nullptr; src.push_back(std::move(n)); } break;
            case 3: what = "assign source"; if (!src.empty()) { if (src[b].st) ++src[b].st->sources; if (src[a].st) --src[a].st->sources; src[a].st = src[b].st; *src[a].s = *src[b].s; } break;
            case 4: what = "move-assign source"; if (!src.empty() && a != b) { if (src[a].st) --src[a].st->sources; src[a].st = src[b].st; src[b].st = nullptr; *src[a].s = std::move(*src[b].s); } break;
            case 5: what = "swap sources"; if (!src.empty()) { src[a].s->swap(*src[b].s); std::swap(src[a].st, src[b].st); } break;
            case 6: what = "drop source"; if (!src.empty()) drop_source(a); break;
            case 7: case 8: what = "get token"; if (!src.empty() && tok.size() < 8) tok.push_back({ src[a].s->get_token(), src[a].st }); break;
            case 9: what = "copy token"; if (!tok.empty() && tok.size() < 8) { MToken n{ tok[x].t, tok[x].st }; tok.push_back(n); } break;
            case 10: what = "move token"; if (!tok.empty() && tok.size() < 8) { MToken n{ std::stop_token(std::move(*tok[x].t)), tok[x].st }; tok[x].st = nullptr; tok.push_back(std::move(n)); } break;
            case 11: what = "assign token"; if (!tok.empty()) { *tok[x].t = *tok[y].t; tok[x].st = tok[y].st; } break;
            case 12: what = "move-assign token"; if (!tok.empty() && x != y) { *tok[x].t = std::move(*tok[y].t); tok[x].st = tok[y].st; tok[y].st = nullptr; } break;
            case 13: what = "swap tokens"; if (!tok.empty()) { tok[x].t->swap(*tok[y].t); std::swap(tok[x].st, tok[y].st); } break;
            case 14: what = "drop token"; if (!tok.empty()) tok.erase(tok.begin() + x); break;
            case 15: case 16: what = "register"; if (!tok.empty() && cbs.size() < 12) add_cb(tok[x], c.rng.flip(), static_cast<int>(c.rng.below(9))); break;
            case 17: what = "deregister"; { std::vector<Cb*> l; for (auto& o : cbs) if (o->cb) l.push_back(o.get()); if (!l.empty()) { Cb* p = c.rng.pick(l); p->expected = p->expected || p->runs > 0; p->cb.reset(); p->alive = false; } } break;
            case 18: case 19: what = "request stop"; if (!src.empty() && c.rng.flip())
            {
                State* st = src[a].st; const bool first = st && !st->requested; std::vector<Cb*> reg; for (auto& o : cbs) if (o->cb && o->st == st && st && o->runs == 0) reg.push_back(o.get());
                if (st) st->requested = true; std::stop_source keep = *src[a].s; if (st) ++st->sources;
                const bool r = keep.request_stop(); if (st) --st->sources;
                VH_CHECK(c, r == first, "request-result", "request_stop returned %d, expected %d", r, first);
                for (Cb* p : reg) if (first) { if (p->alive) VH_CHECK(c, p->runs == 1, "callback-once", "callback registered at the stop request ran %d times", p->runs); else VH_CHECK(c, p->runs <= 1, "callback-once", "callback ran %d times", p->runs); p->expected = p->runs > 0; }
            } break;
            case 20: what = "dead token"; if (tok.size() < 8) tok.push_back({ std::stop_token(), nullptr }); break;
            default: what = "query"; break;
            }
            VH_CHECK(c, bad.empty(), "callback", "%s: %s", what, bad.c_str());
            uint64_t h = vh::hash_str(what);
            for (auto& s : src)
            {
                VH_CHECK(c, s.s->stop_possible() == (s.st != nullptr) && s.s->stop_requested() == (s.st && s.st->requested), "source-query", "%s: source possible %d requested %d", what, s.s->stop_possible(), s.s->stop_requested());
                for (auto& s2 : src) VH_CHECK(c, (*s.s == *s2.s) == (s.st == s2.st) && (*s.s != *s2.s) == (s.st != s2.st), "equality", "%s: source equality", what);
                h = vh::mix(h ^ (s.st ? 1 + s.st->requested + s.st->sources * 4 : 0));
            }
            for (auto& t : tok)
            {
                VH_CHECK(c, t.t->stop_requested() == (t.st && t.st->requested), "token-requested", "%s: token requested %d", what, t.t->stop_requested());
                VH_CHECK(c, t.t->stop_possible() == (t.st && (t.st->requested || t.st->sources > 0)), "token-possible", "%s: token possible %d with %d sources", what, t.t->stop_possible(), t.st ? t.st->sources : -1);
                for (auto& t2 : tok) VH_CHECK(c, (*t.t == *t2.t) == (t.st == t2.st) && (*t.t != *t2.t) == (t.st != t2.st), "equality", "%s: token equality", what);
                h = vh::mix(h ^ (t.st ? 7 + t.st->requested + t.st->sources * 8 : 3));
            }
            for (auto& o : cbs) VH_CHECK(c, o->runs == (o->expected ? 1 : 0), "callback-once", "%s: callback ran %d times, expected %d", what, o->runs, o->expected);
            c.eval(); c.count(what); c.distinct(h);
        }
        if (c.rng.flip()) { src.clear(); tok.clear(); } 
        while (!cbs.empty()) { size_t i = c.rng.below(cbs.size()); cbs[i]->cb.reset(); cbs.erase(cbs.begin() + i); }
        VH_CHECK(c, bad.empty(), "callback", "teardown: %s", bad.c_str());
    });
}

namespace
{
    // A callback with a lifetime monitor; the payload is freed right after deregistration returns.
    struct Live
    {
        std::atomic<int> started{ 0 }, finished{ 0 }, dead{ 0 }; int plain = 0;
        std::unique_ptr<int> heap = std::make_unique<int>(42);
    };
    struct Log { std::atomic<uint32_t> n{ 0 }; std::vector<std::atomic<uint8_t>> ev; Log() : ev(512) { for (auto& e : ev) e = 0; } void add(uint8_t k) { uint32_t i = n++; if (i < ev.size()) ev[i] = k; } uint64_t hash() { uint64_t h = 1; for (uint32_t i = 0; i < n && i < ev.size(); ++i) h = vh::mix(h ^ ev[i]); return h; } };
}

VH_CASE(races, 8)
{
    c.iterate(c.n(1200, 30000), [&](uint64_t)
    {
        vh::g_pc.seed = c.rng.next() | 1; vh::g_pc.every = static_cast<unsigned>(c.rng.pick({ 0, 3, 8, 20, 60 }));
        const unsigned nreq = 1 + c.rng.below(3), nreg = 1 + c.rng.below(4), rounds = 1 + c.rng.below(8); const uint64_t base = c.rng.next();
        std::string bad; std::mutex bm; auto err = [&](const char* w) { std::lock_guard<std::mutex> l(bm); if (bad.empty()) bad = w; };
        std::atomic<unsigned> wins{ 0 }, ready{ 0 }, callbacks{ 0 }, registered{ 0 }, overlapped{ 0 }, selfdestroyed{ 0 }; std::atomic<bool> go{ false }; Log log;
        {
            auto source = std::make_unique<std::stop_source>(); std::vector<std::thread> th; std::vector<std::stop_source> copies(nreq, *source); std::vector<std::stop_token> tokens(nreg, source->get_token());
            const bool none = c.rng.chance(1, 8); // nobody requests: all sources just die
           
            int published = 0; // plain data published by the winning request when there is one requester
            for (unsigned k = 0; k < nreq; ++k) th.emplace_back([&, k]()
            {
                vh::Rng r(base + k); std::stop_source mine = std::move(copies[k]); ++ready; while (!go) sched_yield(); vh::jitter(r);
                if (none) return;
                if (nreq == 1) published = 77;
                std::stop_token t = mine.get_token(); log.add(1); const bool w = mine.request_stop(); log.add(w ? 2 : 3); if (w) ++wins;
                if (!t.stop_requested() || !mine.stop_requested()) err("stop was requested but the token does not say so");
                if (r.flip()) { std::stop_callback<Fn> late(std::move(t), [&]() { ++callbacks; log.add(4); }); }
            });
            for (unsigned k = 0; k < nreg; ++k) th.emplace_back([&, k]()
            {
                vh::Rng r(base + 100 + k); std::stop_token mine = std::move(tokens[k]); ++ready; while (!go) sched_yield();
                for (unsigned i = 0; i < rounds; ++i)
                {
                    vh::jitter(r);
                    const int mode = static_cast<int>(r.below(4)); auto live = std::make_unique<Live>(); Live* p = live.get(); p->plain = 5; const bool was = mine.stop_requested();
                    if (was && nreq == 1 && published != 77) err("data written before the stop request is not visible after seeing it");
                    const bool selfdestruct = mode == 3; const auto id = std::this_thread::get_id();
                    Fn f = [&, p]() { if (p->dead) err("callback ran after its deregistration"); if (p->started++) err("callback ran twice"); if (p->plain != 5 || *p->heap != 42) err("callback sees other data than it was registered with"); log.add(5); ++callbacks; vh::spin(200); vh::nap_us(p->plain); ++p->finished; };
                    ++registered; log.add(6);
                    if (selfdestruct)
                    {
                        // the callback destroys its own registration if it gets hold of it before the owner does
                        Callback* const unset = reinterpret_cast<Callback*>(1); std::atomic<Callback*> reg{ unset }; std::atomic<int> gone{ 0 };
                        Fn g = [&reg, &gone, &selfdestroyed, f, id, unset]()
                        {
                            f(); if (std::this_thread::get_id() == id) return;
                            while (reg == unset) sched_yield();
                            Callback* x = reg.exchange(nullptr); std::atomic<int>* g2 = &gone; std::atomic<unsigned>* n = &selfdestroyed;
                            if (x) { delete x; ++*n; *g2 = 1; } // nothing captured may be used after this
                        };
                        reg = new Callback(mine, g); log.add(7); vh::jitter(r); if (r.flip()) vh::nap_us(static_cast<unsigned>(r.below(200)));
                        if (Callback* x = reg.exchange(nullptr)) delete x;
                        else { const double t = vh::now_s(); while (!gone && vh::now_s() - t < 30) sched_yield(); if (!gone) err("a callback that destroys its own registration did not end"); }
                        if (was && p->finished != 1) err("callback registered after the stop did not run before its constructor returned");
                        if (p->started != p->finished) err("deregistration returned while the callback was running");
                        p->dead = 1; log.add(8);
                    }
                    else
                    {
                        const bool rv = r.flip(); std::stop_token cp = mine; auto cb = rv ? std::make_unique<Callback>(std::move(cp), f) : std::make_unique<Callback>(mine, f); log.add(7);
                        if (was && p->finished != 1) err("callback registered after the stop did not run before its constructor returned");
                        vh::jitter(r); if (mode == 1) vh::nap_us(static_cast<unsigned>(r.below(150)));
                        const bool seen = mine.stop_requested(); const int st = p->started; if (st && !p->finished) ++overlapped;
                        cb.reset(); log.add(8);
                        if (p->started != p->finished) err("deregistration returned while the callback was running");
                        p->dead = 1; (void)seen;
                    }
                    live.reset();
                }
            });
            // long-lived registrations made before anything starts: each must run exactly once iff stop is requested
            std::vector<std::unique_ptr<Live>> lives; std::vector<std::unique_ptr<Callback>> held; std::stop_token t0 = source->get_token();
            for (unsigned i = 0, n = static_cast<unsigned>(c.rng.below(5)); i < n; ++i) { lives.push_back(std::make_unique<Live>()); Live* p = lives.back().get(); held.push_back(std::make_unique<Callback>(t0, [p, &err, &log]() { if (p->started++) err("callback ran twice"); log.add(9); ++p->finished; })); }
            while (ready < nreq + nreg) sched_yield();
            go = true; if (c.rng.flip()) source.reset();
            for (auto& t : th) t.join();
            vh::g_pc.every = 0;
            for (auto& l : lives) { const int want = none ? 0 : 1; if (l->finished != want) err(none ? "callback ran without a stop request" : "registered callback did not run although stop was requested"); }
            const bool alive = source != nullptr; source.reset(); 
            VH_CHECK(c, t0.stop_requested() == !none, "requested", "token reports %d", t0.stop_requested());
            VH_CHECK(c, t0.stop_possible() == !none, "possible", "token says stop is possible: %d (source alive before: %d)", t0.stop_possible(), alive);
            VH_CHECK(c, wins == (none ? 0u : 1u), "one-winner", "%u stop requests succeeded", wins.load());
            held.clear();
        }
        VH_CHECK(c, bad.empty(), "callback", "%s", bad.c_str());
        c.eval(registered); c.count("callbacks run", callbacks); c.count("registrations", registered); c.count("deregistered while running", overlapped); c.count("destroyed by their own callback", selfdestroyed); c.count("injected delays", vh::g_pc.delays.exchange(0)); c.distinct(log.hash());
        if (c.want_sample()) c.sample(vh::fmt("%u requesters, %u registering threads x %u rounds, %u callbacks ran, %u events", nreq, nreg, rounds, callbacks.load(), log.n.load()));
    });
    vh::g_pc.every = 0;
}

// Nothing but the stop state itself orders the threads that drop their last references to it.
VH_CASE(last_reference, 4)
{
    c.iterate(c.n(600, 12000), [&](uint64_t)
    {
        vh::g_pc.seed = c.rng.next() | 1; vh::g_pc.every = static_cast<unsigned>(c.rng.pick({ 0, 3, 20 }));
        const unsigned n = 2 + c.rng.below(4); std::vector<std::stop_token> tok(n); std::vector<std::stop_source> src(n, std::stop_source(std::nostopstate)); std::vector<int> kind(n);
        const bool stop = c.rng.chance(1, 3);
        {
            std::stop_source s; for (unsigned i = 0; i < n; ++i) { kind[i] = static_cast<int>(c.rng.below(5)); if (kind[i] >= 3) src[i] = s; else tok[i] = s.get_token(); }
            if (stop) s.request_stop();
        }
        std::atomic<unsigned> ready{ 0 }; std::atomic<unsigned> wrong{ 0 }; std::vector<std::thread> th;
        for (unsigned i = 0; i < n; ++i) th.emplace_back([&, i]()
        {
            std::stop_token t = std::move(tok[i]); std::stop_source q = std::move(src[i]);
            ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) sched_yield();
            switch (kind[i])
            {
            case 0: break;
            case 1: if (t.stop_requested() != stop) wrong.fetch_add(1, std::memory_order_relaxed); break;
            case 4: if (q.stop_requested() != stop) wrong.fetch_add(1, std::memory_order_relaxed); break;
            case 2: { int ran = 0; { std::stop_callback cb(t, [&]() { ++ran; }); if (ran != stop) wrong.fetch_add(1, std::memory_order_relaxed); } break; }
            default: { std::stop_token u = q.get_token(); q = std::stop_source(std::nostopstate); if (u.stop_requested() != stop) wrong.fetch_add(1, std::memory_order_relaxed); break; }
            }
            t = std::stop_token();
        });
        for (auto& t : th) t.join(); vh::g_pc.every = 0;
        VH_CHECK(c, wrong == 0, "state", "%u tokens report another state than the one requested", wrong.load());
        uint64_t h = stop; for (int k : kind) h = h * 5 + static_cast<uint64_t>(k); c.eval(n); c.distinct(h); c.count("references dropped at once", n);
    });
}

VH_MAIN()
