// C24: persistent and optional objects restore exactly what was stored. Histories of open/load/save/close/remove, of damage to
// the closed files, and of stores written in other formats and versions, on real files in a scratch directory.
#include "vh.h"
#include "sv.h"
#include "Awl/Io/PersistentObject.h"
#include "Awl/Io/OptionalStorage.h"
#include <mutex>
#include <set>
#include <filesystem>
#include <fstream>
#include <dirent.h>
#include <unistd.h>
using vh::Case;
namespace io = awl::io; namespace fs = std::filesystem;
using Bytes = std::vector<uint8_t>;

namespace
{
    struct Log : awl::Logger { void log(awl::LogLevel, awl::LogString) override {} };
    Log g_log;

    struct Settings
    {
        int64_t id = 0; std::string name = "default"; std::vector<int> v; std::map<std::string, std::vector<bool>> m; std::optional<double> o;
        AWL_REFLECT(id, name, v, m, o)
        bool operator==(const Settings&) const = default;
    };
    Settings make(Case& c)
    {
        Settings s; s.id = static_cast<int64_t>(c.rng.next());
        auto str = [&](size_t n) { std::string t(n, 0); for (auto& q : t) q = static_cast<char>(c.rng.next()); return t; };
        if (c.rng.chance(1, 8)) { s.name.clear(); return s; }
        s.name = str(c.rng.pick({ size_t(0), size_t(5), size_t(c.rng.below(300)) })); s.v.resize(c.rng.pick({ size_t(0), size_t(3), size_t(c.rng.below(2000)), size_t(c.rng.chance(1, 12) ? 15000 + c.rng.below(40000) : 7) })); for (auto& q : s.v) q = static_cast<int>(c.rng.next());
        for (size_t i = c.rng.below(4); i; --i) { std::vector<bool> b(c.rng.below(40)); for (size_t k = 0; k < b.size(); ++k) b[k] = c.rng.flip(); s.m[str(c.rng.below(10))] = b; }
        if (c.rng.flip()) s.o = static_cast<double>(c.rng.range(-1000, 1000)) / 7;
        return s;
    }
    std::string show(const Settings& s) { return vh::fmt("id %llx, name of %zu, %zu ints, %zu entries", (unsigned long long)s.id, s.name.size(), s.v.size(), s.m.size()); }

    Bytes slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(f), {}); }
    void spit(const std::string& p, const Bytes& b) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(reinterpret_cast<const char*>(b.data()), static_cast<std::streamsize>(b.size())); }
    // Descriptors of the stores: other threads of the harness open and close files of their own.
    size_t descriptors() { size_t n = 0; DIR* d = opendir("/proc/self/fd"); while (dirent* e = readdir(d)) { char b[4096]; const ssize_t k = readlinkat(dirfd(d), e->d_name, b, sizeof b - 1); if (k <= 0) continue; b[k] = 0; const std::string t(b); n += t.ends_with(".dat") || t.ends_with(".bak"); } closedir(d); return n; }

    struct Dir { std::string p; Dir(Case& c, const char* n) { p = c.tmp + "/" + n + std::to_string(getpid()) + "_" + std::to_string(c.shard); fs::create_directories(p); } ~Dir() { std::error_code e; fs::remove_all(p, e); } std::string operator()(int i) const { return p + "/object" + std::to_string(i); } };

    template <class Obj> struct Maker { size_t block; size_t version = 2; std::string format = "settings"; std::unique_ptr<Obj> operator()() const { return std::make_unique<Obj>(g_log, io::Header{ format, version }, block); } };

    template <class Obj> bool load(Case& c, Obj& o, const char* what)
    {
        try { return o.load(); } catch (const std::exception& e) { c.fail("load-exception", vh::fmt("%s: load threw %s", what, vh::type_name(typeid(e)).c_str())); }
    }

    template <class Obj> void history(Case& c, const Dir& dir)
    {
        constexpr int N = 2; Maker<Obj> mk{ static_cast<size_t>(c.rng.pick({ 32, 64, 100, 4096, 65536 })) };
        for (int i = 0; i < N; ++i) { fs::remove(dir(i) + ".dat"); fs::remove(dir(i) + ".bak"); }
        struct M { std::optional<Settings> saved; bool exists = false; }; M m[N]; std::unique_ptr<Obj> o[N]; Settings cur[N]; bool open[N] = {}; size_t base = descriptors(); uint64_t h = 0;
        for (int i = 0; i < N; ++i) { o[i] = mk(); cur[i] = o[i]->value(); VH_CHECK(c, cur[i] == Settings{} && !o[i]->is_open(), "fresh", "a new object is not in its default state"); }
        for (int op = 0; op < 50; ++op)
        {
            const int i = static_cast<int>(c.rng.below(N)); Obj& x = *o[i]; const char* what = "?"; c.eval();
            switch (c.rng.below(14))
            {
            case 0: case 1: what = "open"; if (!open[i]) { bool e = x.open(dir(i)); VH_CHECK(c, e == m[i].exists && x.is_open(), "open", "open of a store that %s returned %d (opened %d)", m[i].exists ? "exists" : "does not exist", e, x.is_open()); open[i] = true; m[i].exists = true; } break;
            case 2: case 3: case 4: what = "save"; if (open[i]) { if (c.rng.chance(3, 4)) { x.value() = make(c); if (c.rng.flip()) { x->id = 7; (*x).name += "!"; } cur[i] = x.value(); } x.save(); m[i].saved = cur[i]; } break;
            case 5: case 6: what = "load"; if (open[i]) { if (c.rng.flip()) { x.value() = make(c); cur[i] = x.value(); } const bool ok = load(c, x, what); VH_CHECK(c, ok == m[i].saved.has_value(), "load", "load returned %d, a value %s saved", ok, m[i].saved ? "was" : "was not"); if (ok) { VH_CHECK(c, x.value() == *m[i].saved, "value", "loaded %s, saved %s", show(x.value()).c_str(), show(*m[i].saved).c_str()); cur[i] = *m[i].saved; c.count("values restored"); } } break;
            case 7: what = "change"; x.value() = make(c); cur[i] = x.value(); break;
            case 8: what = "close"; x.close(); open[i] = false; VH_CHECK(c, !x.is_open(), "open", "open after close"); break;
            case 9: what = "another object"; o[i] = mk(); cur[i] = o[i]->value(); open[i] = false; VH_CHECK(c, cur[i] == Settings{}, "fresh", "a new object is not in its default state"); break;
            case 10: what = "remove"; x.remove(dir(i)); open[i] = false; m[i] = {}; VH_CHECK(c, !fs::exists(dir(i) + ".dat") && !fs::exists(dir(i) + ".bak") && !x.is_open(), "remove", "files remain after remove"); break;
            case 11: what = "only one file left"; if (!open[i] && m[i].exists)
                {
                    // what an interrupted save, copy or cleanup leaves: the value is in the backup file only, or one of the files is gone
                    const std::string d = dir(i) + ".dat", b = dir(i) + ".bak"; const bool value_in_backup = fs::exists(b) && fs::file_size(b) != 0;
                    switch (c.rng.below(4))
                    {
                    case 0: if (fs::exists(d) && !value_in_backup) { fs::remove(b); fs::rename(d, b); } break;
                    case 1: if (!value_in_backup) fs::remove(b); m[i].exists = fs::exists(d) || fs::exists(b); break;
                    case 2: if (fs::exists(d) && !value_in_backup) { fs::remove(b); fs::copy(d, b); std::ofstream(d, std::ios::binary | std::ios::in).put('\x7'); } break;
                    default: fs::remove(d); if (!value_in_backup) m[i].saved = {}; m[i].exists = fs::exists(b); break;
                    }
                }
                break;
            default: what = "copy the store"; if (!open[i] && !open[1 - i] && m[i].exists) { for (auto e : { ".dat", ".bak" }) { fs::remove(dir(1 - i) + e); if (fs::exists(dir(i) + e)) fs::copy(dir(i) + e, dir(1 - i) + e); } m[1 - i] = m[i]; } break;
            }
            VH_CHECK(c, o[i]->value() == cur[i], "value", "%s changed the value to %s", what, show(o[i]->value()).c_str()); VH_CHECK(c, descriptors() == base + 2 * (open[0] + open[1]), "descriptors", "after %s %zu descriptors, expected %zu more than %zu", what, descriptors(), size_t(2 * (open[0] + open[1])), base);
            c.count(what); h = vh::mix(h ^ vh::hash_str(what) ^ static_cast<uint64_t>(cur[i].id)); if (op % 10 == 9) c.distinct(h);
        }
        if (c.want_sample()) c.sample(vh::fmt("block %zu, 50 operations; object 0: %s", mk.block, show(cur[0]).c_str()));
    }

    // The closed files are damaged; whatever happens, the load says so and the value is the old one, or the intact file is used.
    template <class Obj> void damage(Case& c, const Dir& dir)
    {
        Maker<Obj> mk{ static_cast<size_t>(c.rng.pick({ 64, 100, 4096, 65536 })) }; const std::string d = dir(0) + ".dat", b = dir(0) + ".bak";
        for (int round = 0; round < 6; ++round)
        {
            fs::remove(d); fs::remove(b); Settings s1 = make(c), s2 = make(c); Bytes f1, f2;
            { auto o = mk(); o->open(dir(0)); o->value() = s1; o->save(); o->close(); f1 = slurp(d); o->open(dir(0)); o->value() = s2; o->save(); o->close(); f2 = slurp(d); VH_CHECK(c, slurp(b).empty(), "residue", "the backup file is not empty after a save"); }
            auto spoil = [&](Bytes v) { const size_t n = v.size(); switch (c.rng.below(6)) { case 0: v[c.rng.below(n)] ^= static_cast<uint8_t>(1u << c.rng.below(8)); break; case 1: v.resize(c.rng.below(n)); break; case 2: v.clear(); break; case 3: { const size_t p = c.rng.below(n), e = p + 1 + c.rng.below(n - p); bool ch = false; for (size_t k = p; k < e; ++k) { ch = ch || v[k]; v[k] = 0; } if (!ch) v[p] ^= 1; } break; case 4: v.erase(v.begin() + c.rng.below(n)); break; default: { for (auto& q : v) q = static_cast<uint8_t>(c.rng.next()); if (c.rng.flip()) v.resize(1 + c.rng.below(n)); } break; } return v; };
            // (master, backup): the backup wins if it is intact, the master is the next
            const unsigned kind = static_cast<unsigned>(c.rng.below(9)); std::optional<Settings> want; const char* what = "?";
            switch (kind)
            {
            case 0: what = "damaged master"; spit(d, spoil(f2)); break;
            case 1: what = "damaged master, intact backup"; spit(d, spoil(f1)); spit(b, f2); want = s2; break;
            case 2: what = "intact master, damaged backup"; spit(d, f1); spit(b, spoil(f2)); want = s1; break;
            case 3: what = "both damaged"; spit(d, spoil(f1)); spit(b, spoil(f2)); break;
            case 4: what = "missing master"; fs::remove(d); break;
            case 5: what = "missing master, intact backup"; fs::remove(d); spit(b, f2); want = s2; break;
            case 6: what = "missing backup"; spit(d, f2); fs::remove(b); want = s2; break;
            case 7: what = "both intact"; spit(d, f1); spit(b, f2); want = s2; break;
            default: what = "empty files"; spit(d, {}); spit(b, {}); break;
            }
            auto o = mk(); Settings old = make(c); o->value() = old; o->open(dir(0)); const bool ok = load(c, *o, what); c.eval(); c.count(what);
            VH_CHECK(c, ok == want.has_value(), "damaged", "%s: load returned %d", what, ok); VH_CHECK(c, o->value() == (want ? *want : old), "damaged-value", "%s: load returned %d and the value is %s, expected %s", what, ok, show(o->value()).c_str(), show(want ? *want : old).c_str());
            o->value() = old; o->save(); o->close(); auto p = mk(); VH_CHECK(c, p->open(dir(0)) && load(c, *p, what) && p->value() == old, "resave", "%s: a value saved afterwards is not restored", what);
            c.distinct(vh::mix(kind * 1000003 + f1.size()) ^ f2.size());
        }
    }

    // Another format or version in the store: refused, and the value is untouched.
    template <class Obj> void headers(Case& c, const Dir& dir)
    {
        Maker<Obj> a{ 256 }, b{ 256 }; const char* names[] = { "", "settings", "settingt", "setting", "settings ", "Settings", "x" }; const size_t versions[] = { 0, 1, 2, 3, 1ull << 32, (1ull << 32) + 2, ~size_t(0), 1ull << 63 };
        for (int k = 0; k < 12; ++k)
        {
            a.format = names[c.rng.below(7)]; a.version = versions[c.rng.below(8)]; b.format = c.rng.flip() ? a.format : names[c.rng.below(7)]; b.version = c.rng.flip() ? a.version : versions[c.rng.below(8)];
            fs::remove(dir(0) + ".dat"); fs::remove(dir(0) + ".bak"); Settings s = make(c), old = make(c); { auto o = a(); o->open(dir(0)); o->value() = s; o->save(); }
            auto o = b(); o->value() = old; o->open(dir(0)); const bool ok = load(c, *o, "header"), want = a.format == b.format && a.version == b.version; c.eval(); c.count(want ? "same headers" : "other headers");
            VH_CHECK(c, ok == want && o->value() == (want ? s : old), "header", "stored '%s' %zu, expected '%s' %zu: load returned %d, value %s", a.format.c_str(), a.version, b.format.c_str(), b.version, ok, o->value() == s ? "replaced" : "kept");
            o.reset(); auto p = a(); p->open(dir(0)); VH_CHECK(c, load(c, *p, "header") && p->value() == s, "header-intact", "a refused load damaged the store"); c.distinct(vh::mix(vh::hash_str(a.format) + a.version) ^ vh::hash_str(b.format) ^ b.version);
        }
    }

    // What is stored under the same header is another structure: types that the object does not know, or fields of another type.
    struct Retyped { std::string id; std::string name = "default"; std::vector<int> v; AWL_REFLECT(id, name, v) };
    struct Unknown { int64_t id = 0; std::string name; std::set<float> v; AWL_REFLECT(id, name, v) };
    struct Added { int64_t id = 0; std::string name; std::vector<int> v; std::map<std::string, std::vector<bool>> m; std::optional<double> o; std::optional<float> extra; AWL_REFLECT(id, name, v, m, o, extra) };
    template <template <class> class Obj> void structures(Case& c, const Dir& dir)
    {
        const io::Header head{ "settings", 1 }; const std::string d = dir(0) + ".dat", b = dir(0) + ".bak"; Settings s = make(c), old = make(c); old.id = s.id + 1;
        auto put = [&]<class T>(T v) { fs::remove(d); fs::remove(b); Obj<T> o(g_log, head, 100); o.open(dir(0)); o.value() = v; o.save(); o.close(); return slurp(d); };
        const Bytes good = put(s); Bytes bad; const char* what = "?"; switch (c.rng.below(3)) { case 0: what = "a field of another type"; bad = put(Retyped{ "x", s.name, s.v }); break; case 1: what = "an unknown type"; bad = put(Unknown{ 1, s.name, { 1, 2 } }); break; default: what = "an unknown type in an added field"; bad = put(Added{ s.id, s.name, s.v, s.m, s.o, 1.0f }); break; }
        for (int k = 0; k < 3; ++k)
        {
            spit(d, k == 2 ? good : bad); if (k == 1) spit(b, good); else if (k == 2) spit(b, bad); else spit(b, {});
            Obj<Settings> o(g_log, head, 100); o.value() = old; o.open(dir(0)); const bool ok = load(c, o, what), want = k != 0; c.eval(); c.count(what);
            VH_CHECK(c, ok == want && o.value() == (want ? s : old), "structure", "%s in the %s file: load returned %d, the value was %s", what, k == 2 ? "backup" : "main", ok, o.value() == old ? "kept" : "changed");
            if (k == 0) VH_CHECK(c, slurp(d) == bad, "structure-intact", "%s: a refused load changed the store", what);
        }
        c.distinct(vh::mix(static_cast<uint64_t>(s.id)) ^ vh::hash_str(what));
    }

    // An optional object whose store cannot be opened keeps its value and refuses nothing; a persistent one reports it.
    void unopenable(Case& c, const Dir& dir)
    {
        const std::string bad = c.rng.pick({ dir.p + "/no/such/object", dir.p + "/blocked", dir.p + "/half" }); std::error_code e; fs::create_directories(dir.p + "/blocked.dat", e); fs::create_directories(dir.p + "/half.bak", e); const size_t base = descriptors();
        io::OptionalObject<Settings> o(g_log, { "settings", 1 }); Settings s = make(c); o.value() = s; bool r = true, l = true;
        try { r = o.open(bad); l = o.load(); o.save(); } catch (const std::exception& x) { c.fail("optional", vh::fmt("an optional object that could not be opened threw %s", vh::type_name(typeid(x)).c_str())); }
        VH_CHECK(c, !r && !l && !o.is_open() && o.value() == s, "optional", "an optional object that could not be opened: open %d, load %d, is_open %d", r, l, o.is_open()); VH_CHECK(c, descriptors() == base, "descriptors", "descriptors left open");
        io::PersistentObject<Settings> p(g_log, { "settings", 1 }); p.value() = s; bool thrown = false; try { p.open(bad); } catch (const io::IoException&) { thrown = true; }
        VH_CHECK(c, thrown && !p.is_open() && p.value() == s && descriptors() == base, "unopenable", "a persistent object that cannot be opened: thrown %d, is_open %d", thrown, p.is_open());
        // and both work once there is a place
        VH_CHECK(c, !o.open(dir(1)) || true, "optional", "?"); o.save(); o.close(); p.open(dir(1)); p.value() = {}; VH_CHECK(c, p.load() && p.value() == s, "optional", "what an optional object saves is not what a persistent one loads"); p.remove(dir(1)); c.eval(); c.distinct(vh::hash_str(bad) ^ c.cur_iter);
    }

    // Storages are handed on: a move, into a new storage or over one that has files open, takes the open files with it, closes the
    // files of the overwritten one and leaves the source closed, ready to open the same files or others.
    template <class Storage> void storages(Case& c, const Dir& dir)
    {
        constexpr int F = 4, S = 3; const size_t block = static_cast<size_t>(c.rng.pick({ 64, 100, 4096 })), base = descriptors();
        auto d = [&](int f) { return dir(f) + ".dat"; }; auto b = [&](int f) { return dir(f) + ".bak"; };
        struct M { std::optional<Settings> saved; bool exists = false; } m[F]; std::unique_ptr<Storage> s[S]; int at[S]; uint64_t h = 0;
        for (int f = 0; f < F; ++f) { fs::remove(d(f)); fs::remove(b(f)); }
        for (int i = 0; i < S; ++i) { s[i] = std::make_unique<Storage>(g_log); at[i] = -1; }
        for (int op = 0; op < 60; ++op)
        {
            const int i = static_cast<int>(c.rng.below(S)), k = static_cast<int>((i + 1 + c.rng.below(S - 1)) % S), f = static_cast<int>(c.rng.below(F)); const char* what = "?"; Settings val = make(c), old = val; io::HeaderedSerializable<Settings> ser({ "settings", 3 }, val, block); c.eval();
            try
            {
                switch (c.rng.below(13))
                {
                case 0: case 1: case 2: what = "storage opened"; if (at[i] < 0 && std::find(at, at + S, f) == at + S) { const bool by_ctor = c.rng.chance(1, 4); bool e = m[f].exists; if (by_ctor) s[i] = std::make_unique<Storage>(g_log, d(f), b(f)); else e = s[i]->Open(d(f), b(f)); VH_CHECK(c, e == m[f].exists, "storage-open", "opening the files of a store that %s returned %d", m[f].exists ? "exists" : "does not exist", e); at[i] = f; m[f].exists = true; } break;
                case 3: case 4: what = "saved by storage"; if (at[i] >= 0) { if (c.rng.chance(1, 4)) { std::recursive_mutex mu; awl::MutexWrapper<std::recursive_mutex> w(mu); s[i]->Save(ser, &w); } else s[i]->Save(ser); m[at[i]].saved = val; VH_CHECK(c, val == old, "storage-save", "a save changed the value"); } break;
                case 5: case 6: what = "loaded by storage"; if (at[i] >= 0) { const bool ok = s[i]->Load(ser); const auto& w = m[at[i]].saved; VH_CHECK(c, ok == w.has_value() && val == (w ? *w : old), "storage-load", "a storage loaded %d, %s; a value %s saved in its files", ok, show(val).c_str(), w ? show(*w).c_str() : "was not"); c.count("values restored by storages"); } break;
                case 7: what = "storage closed"; s[i]->Close(); at[i] = -1; break;
                case 8: what = "storage moved into a new one"; { auto n = std::make_unique<Storage>(std::move(*s[i])); VH_CHECK(c, !s[i]->IsOpened(), "storage-moved-from", "a storage is open after it was moved from"); if (c.rng.flip()) { s[k] = std::move(s[i]); at[k] = -1; s[i] = std::move(n); } else s[i] = std::move(n); } break;
                case 9: case 10: what = at[i] >= 0 && at[k] >= 0 ? "storage moved over an open one" : "storage moved over another"; *s[k] = std::move(*s[i]); VH_CHECK(c, !s[i]->IsOpened(), "storage-moved-from", "a storage is open after it was assigned to another"); at[k] = at[i]; at[i] = -1; break;
                case 11: what = "value left in the backup file only"; if (std::find(at, at + S, f) == at + S && m[f].saved && fs::exists(b(f)) && fs::file_size(b(f)) == 0) { fs::remove(b(f)); fs::rename(d(f), b(f)); if (c.rng.flip()) spit(d(f), {}); } break;
                default: what = "storage destroyed"; s[i] = std::make_unique<Storage>(g_log); at[i] = -1; break;
                }
            }
            catch (const std::exception& x) { c.fail("storage-exception", vh::fmt("%s: %s thrown", what, vh::type_name(typeid(x)).c_str())); }
            size_t open = 0;
            for (int q = 0; q < S; ++q)
            {
                VH_CHECK(c, s[q]->IsOpened() == (at[q] >= 0), "storage-opened", "after '%s' storage %d of %d is %s", what, q, i, s[q]->IsOpened() ? "open" : "closed");
                if (at[q] >= 0) { ++open; VH_CHECK(c, s[q]->IsEmpty() == !m[at[q]].saved, "storage-empty", "after '%s' a storage says IsEmpty %d, a value %s saved", what, s[q]->IsEmpty(), m[at[q]].saved ? "was" : "was not"); }
            }
            VH_CHECK(c, descriptors() == base + 2 * open, "descriptors", "after '%s' %zu descriptors are open, expected %zu", what, descriptors() - base, 2 * open);
            c.count(what); h = vh::mix(h ^ vh::hash_str(what) ^ static_cast<uint64_t>(i * 8 + f)); if (op % 10 == 9) c.distinct(h);
        }
        if (c.want_sample()) c.sample(vh::fmt("block %zu, %d storages over %d pairs of files, 60 operations", block, S, F));
    }

    // A known weakness: bytes appended exactly at a block boundary make the load report failure after replacing the value.
    void trailing(Case& c, const Dir& dir)
    {
        Maker<io::PersistentObject<Settings>> mk{ 64 }; const std::string d = dir(0) + ".dat"; Settings s; for (s.name = "";; s.name += "x") { fs::remove(d); fs::remove(dir(0) + ".bak"); auto o = mk(); o->open(dir(0)); o->value() = s; o->save(); o->close(); if (slurp(d).size() % 64 == 0) break; }
        Bytes f = slurp(d); f.resize(f.size() + 20, 0x55); spit(d, f); auto o = mk(); Settings old = make(c); o->value() = old; o->open(dir(0)); const bool ok = load(c, *o, "trailing"); c.eval(); c.distinct(1);
        VH_CHECK(c, !ok, "trailing-accepted", "bytes after the end of the stored value were accepted"); VH_CHECK(c, o->value() == old, "value_replaced", "20 bytes appended at a block boundary: the load returned false but replaced the value");
    }
}

using P = io::PersistentObject<Settings>; using O = io::OptionalObject<Settings>;
VH_CASE(persistent, 2) { Dir d(c, "p"); c.iterate(c.n(250, 10000), [&](uint64_t) { history<P>(c, d); }); }
VH_CASE(optional, 2) { Dir d(c, "o"); c.iterate(c.n(250, 10000), [&](uint64_t) { history<O>(c, d); }); }
VH_CASE(damaged, 2) { Dir d(c, "d"); c.iterate(c.n(250, 10000), [&](uint64_t i) { if (i & 1) damage<O>(c, d); else damage<P>(c, d); }); }
VH_CASE(headers, 1) { Dir d(c, "h"); c.iterate(c.n(60, 2000), [&](uint64_t i) { if (i & 1) headers<O>(c, d); else headers<P>(c, d); }); }
VH_CASE(structures, 1) { Dir d(c, "r"); c.iterate(c.n(120, 6000), [&](uint64_t i) { if (i & 1) structures<io::OptionalObject>(c, d); else structures<io::PersistentObject>(c, d); }); }
VH_CASE(unopenable, 1) { Dir d(c, "u"); c.iterate(c.n(60, 2000), [&](uint64_t) { unopenable(c, d); }); }
VH_CASE(storages, 1) { Dir d(c, "s"); c.iterate(c.n(160, 8000), [&](uint64_t i) { if (i & 1) storages<io::OptionalStorage>(c, d); else storages<io::AtomicStorage>(c, d); }); }
VH_CASE(trailing_fixed, 1) { Dir d(c, "t"); c.iterate(1, [&](uint64_t) { trailing(c, d); }); }

VH_MAIN()
