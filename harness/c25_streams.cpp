// C25: native streams act on files exactly as asked and own their descriptors. Histories over several streams on shared real
// files are compared with byte arrays; opens and closes of descriptors are tracked at the system call boundary.
#include "vfs.h"
#include "Awl/Io/NativeStream.h"
#include <sys/resource.h>
#include <signal.h>
#include <filesystem>
#include <optional>
#include <set>
using vh::Case;
namespace io = awl::io; namespace fs = std::filesystem;
using vfs::Bytes;

namespace
{
    template <class F> std::optional<std::string> raises(Case& c, F f)
    {
        try { f(); } catch (const io::IoException& e) { return std::string(e.What()); }
        catch (const std::exception& e) { c.fail("exception-type", "a system error was raised as " + vh::type_name(typeid(e))); }
        return std::nullopt;
    }
    int code(const std::string& what) { size_t i = what.rfind("Error code: "); return i == std::string::npos ? -1 : atoi(what.c_str() + i + 12); }
    void expect_error(Case& c, const std::optional<std::string>& w, std::initializer_list<int> codes, const char* what)
    {
        VH_CHECK(c, w, "no-error", "%s raised nothing", what); const int k = code(*w); bool ok = false; for (int e : codes) ok = ok || e == k; VH_CHECK(c, ok, "error-code", "%s: '%s'", what, w->c_str()); c.count("system errors raised");
    }
    Bytes slurp(const std::string& p) { Bytes b; int fd = __real_open(p.c_str(), O_RDONLY, 0); if (fd < 0) return b; char t[65536]; ssize_t n; while ((n = __real_read(fd, t, sizeof t)) > 0) b.insert(b.end(), t, t + n); __real_close(fd); return b; }

    struct Dir
    {
        std::string p; Dir(Case& c, const char* n) { p = c.tmp + "/" + n + std::to_string(getpid()) + "_" + std::to_string(c.shard); fs::create_directories(p); }
        ~Dir() { std::error_code e; fs::remove_all(p, e); }
        std::string operator()(int i) const { return p + "/file " + std::to_string(i) + ".bin"; }
    };

    struct Model { bool open = false, writable = false; int file = 0; uint64_t pos = 0; };

    void history(Case& c, const Dir& dir)
    {
        constexpr int F = 3, N = 5; std::map<int, Bytes> files; for (int i = 0; i < F; ++i) fs::remove(dir(i));
        auto& t = vfs::fs(); t.real.clear(); t.real_bad = 0;
        std::vector<std::unique_ptr<io::UniqueStream>> s(N); std::vector<Model> m(N); for (auto& x : s) x = std::make_unique<io::UniqueStream>();
        uint64_t h = 0;
        for (int op = 0; op < 80; ++op)
        {
            const int i = static_cast<int>(c.rng.below(N)); auto& x = *s[i]; auto& y = m[i]; const char* what = "?"; const unsigned k = static_cast<unsigned>(c.rng.below(20)); c.eval();
            if (k < 3)
            {
                what = "create"; const int f = static_cast<int>(c.rng.below(F)); const bool existed = files.count(f);
                x = io::UniqueStream(io::CreateUniqueFile(dir(f))); VH_CHECK(c, io::OpenedExisting() == existed, "existing", "create on a file that %s said %d", existed ? "exists" : "does not exist", io::OpenedExisting()); files[f]; y = { true, true, f, 0 };
            }
            else if (k == 3)
            {
                what = "open for reading"; const int f = static_cast<int>(c.rng.below(F)); if (files.count(f)) { x = io::UniqueStream(io::OpenUniqueFile(dir(f))); y = { true, false, f, 0 }; } else expect_error(c, raises(c, [&] { x = io::UniqueStream(io::OpenUniqueFile(dir(f))); }), { ENOENT }, "opening a missing file");
            }
            else if (k == 4) { what = "move construct"; const int j = static_cast<int>(c.rng.below(N)); if (j != i) { s[j] = std::make_unique<io::UniqueStream>(std::move(x)); m[j] = y; y = {}; } }
            else if (k == 5) { what = "move assign"; const int j = static_cast<int>(c.rng.below(N)); if (j != i) { *s[j] = std::move(x); m[j] = y; y = {}; } }
            else if (k == 6) { what = "destroy"; s[i] = std::make_unique<io::UniqueStream>(); y = {}; }
            else if (!y.open)
            {
                what = "closed stream"; Bytes b(8); VH_CHECK(c, x == io::UniqueStream{}, "moved-from", "a stream that owns nothing does not equal an empty one");
                std::optional<std::string> w; switch (c.rng.below(7)) { case 0: w = raises(c, [&] { x.Read(b.data(), 8); }); break; case 1: w = raises(c, [&] { x.Write(b.data(), 8); }); break; case 2: w = raises(c, [&] { x.Seek(0); }); break; case 3: w = raises(c, [&] { x.GetLength(); }); break; case 4: w = raises(c, [&] { x.GetPosition(); }); break; case 5: w = raises(c, [&] { x.Truncate(); }); break; default: w = raises(c, [&] { x.Flush(); }); }
                expect_error(c, w, { EBADF }, "an operation on a stream that owns nothing");
            }
            else
            {
                Bytes& b = files[y.file]; const uint64_t len = b.size();
                switch (k)
                {
                case 7: case 8: { what = "read"; const size_t n = c.rng.pick({ size_t(0), size_t(1), size_t(c.rng.below(64)), size_t(c.rng.below(5000)) }); Bytes v(n + 16, 0xcd); const size_t got = x.Read(v.data() + 8, n); const size_t want = y.pos >= len ? 0 : std::min<uint64_t>(n, len - y.pos);
                    VH_CHECK(c, got == want, "read", "reading %zu bytes at %llu of %llu returned %zu", n, (unsigned long long)y.pos, (unsigned long long)len, got); VH_CHECK(c, want == 0 || !memcmp(v.data() + 8, b.data() + y.pos, want), "read", "reading %zu bytes at %llu gave other bytes", n, (unsigned long long)y.pos);
                    for (size_t q = 0; q < 8; ++q) VH_CHECK(c, v[q] == 0xcd && v[n + 8 + q] == 0xcd, "read", "read outside the buffer"); y.pos += got; } break;
                case 9: case 10: case 11: { what = "write"; const size_t n = c.rng.pick({ size_t(0), size_t(1), size_t(c.rng.below(64)), size_t(c.rng.below(5000)) }); Bytes v(n); for (auto& q : v) q = static_cast<uint8_t>(c.rng.next());
                    if (!y.writable) { if (n) expect_error(c, raises(c, [&] { x.Write(v.data(), n); }), { EBADF }, "writing to a stream opened for reading"); break; }
                    x.Write(v.data(), n); if (n) { if (b.size() < y.pos + n) b.resize(y.pos + n); memcpy(b.data() + y.pos, v.data(), n); y.pos += n; } } break;
                case 12: { what = "seek"; const uint64_t p = c.rng.pick({ uint64_t(0), len, c.rng.below(len + 1), len + c.rng.below(200) }); x.Seek(p); y.pos = p; } break;
                case 13: { what = "seek from the end"; const int64_t d = c.rng.pick({ int64_t(0), int64_t(c.rng.below(100)), -static_cast<int64_t>(c.rng.below(len + 1)) }); x.Seek(static_cast<size_t>(d), false); y.pos = len + d; } break;
                case 14: { what = "move"; const int64_t d = c.rng.range(-static_cast<int64_t>(y.pos), 100); x.Move(d); y.pos += d; } break;
                case 15: { what = "move before the beginning"; expect_error(c, raises(c, [&] { x.Move(-static_cast<std::ptrdiff_t>(y.pos) - 1 - static_cast<std::ptrdiff_t>(c.rng.below(9))); }), { EINVAL }, "moving before the beginning"); } break;
                case 16: { what = "truncate"; if (!y.writable) { expect_error(c, raises(c, [&] { x.Truncate(); }), { EINVAL, EBADF }, "truncating a stream opened for reading"); break; } x.Truncate(); b.resize(y.pos); } break;
                case 17: what = "flush"; x.Flush(); break;
                case 18: what = "length"; VH_CHECK(c, x.GetLength() == len, "length", "length %zu of %llu", x.GetLength(), (unsigned long long)len); break;
                default: what = "end"; if (y.pos <= len) VH_CHECK(c, x.End() == (y.pos == len), "end", "End is %d at %llu of %llu", x.End(), (unsigned long long)y.pos, (unsigned long long)len); break;
                }
                VH_CHECK(c, x.GetPosition() == y.pos, "position", "after %s the position is %zu, expected %llu", what, x.GetPosition(), (unsigned long long)y.pos);
                const Bytes real = slurp(dir(y.file)); VH_CHECK(c, real == files[y.file], "content", "after %s the file holds %zu bytes, expected %zu (or other bytes)", what, real.size(), files[y.file].size()); c.count("bytes compared", real.size());
            }
            size_t owned = 0; for (auto& q : m) owned += q.open;
            VH_CHECK(c, t.real.size() == owned && t.real_bad == 0, "descriptors", "after %s: %zu descriptors open, %zu streams own one, %llu closes of a descriptor that is not open", what, t.real.size(), owned, (unsigned long long)t.real_bad);
            c.count(what); h = vh::mix(h ^ vh::hash_str(what) ^ y.pos); if (op % 20 == 19) c.distinct(h);
        }
        s.clear(); VH_CHECK(c, t.real.empty() && t.real_bad == 0, "descriptors", "at the end %zu descriptors are open, %llu bad closes", t.real.size(), (unsigned long long)t.real_bad);
        for (auto& [f, b] : files) VH_CHECK(c, slurp(dir(f)) == b, "content", "file %d at the end", f);
        if (c.want_sample()) c.sample(vh::fmt("80 operations over %d streams on %zu files, the last of %llu positions", N, files.size(), (unsigned long long)m[0].pos));
    }

    void handles(Case& c)
    {
        auto& t = vfs::fs(); t.real.clear(); t.real_bad = 0; auto dup_fd = [&] { int fd = __real_open("/dev/null", O_RDONLY, 0); t.real[fd] = "null"; return fd; };
        std::vector<io::UniqueHandle> v; std::vector<int> model; // fd or -1
        for (int op = 0; op < 60; ++op)
        {
            c.eval(); const size_t i = v.empty() ? 0 : c.rng.below(v.size());
            switch (c.rng.below(8))
            {
            case 0: case 1: { int fd = dup_fd(); v.emplace_back(fd); model.push_back(fd); } break; // reallocation moves handles
            case 2: if (!v.empty()) { v.erase(v.begin() + i); model.erase(model.begin() + i); } break;
            case 3: if (!v.empty()) { v[i].Close(); model[i] = -1; v[i].Close(); } break;
            case 4: if (v.size() > 1) { size_t j = c.rng.below(v.size()); if (j != i) { v[j] = std::move(v[i]); model[j] = model[i]; model[i] = -1; } } break;
            case 5: if (!v.empty()) { io::UniqueHandle h(std::move(v[i])); VH_CHECK(c, static_cast<int>(h) == model[i], "handle", "move construction lost the descriptor"); if (c.rng.flip()) { v[i] = std::move(h); } else model[i] = -1; } break;
            case 6: if (!v.empty()) { io::NonOwningHandle n(v[i]); io::NonOwningHandle n2 = n; VH_CHECK(c, static_cast<int>(n2) == model[i] && static_cast<bool>(n2) == (model[i] != -1), "handle", "non-owning copy"); } break;
            default: if (v.size() > 1) { size_t j = c.rng.below(v.size()); std::swap(v[i], v[j]); std::swap(model[i], model[j]); if (i == j) {} } break;
            }
            std::set<int> owned; for (size_t k = 0; k < v.size(); ++k) { VH_CHECK(c, static_cast<int>(v[k]) == model[k] && static_cast<bool>(v[k]) == (model[k] != -1), "handle", "handle %zu is %d, expected %d", k, static_cast<int>(v[k]), model[k]); if (model[k] != -1) owned.insert(model[k]); }
            VH_CHECK(c, owned.size() == t.real.size() && t.real_bad == 0, "descriptors", "%zu descriptors open, %zu owned, %llu bad closes", t.real.size(), owned.size(), (unsigned long long)t.real_bad);
            for (int fd : owned) VH_CHECK(c, fcntl(fd, F_GETFD) != -1, "descriptors", "descriptor %d was closed while owned", fd);
        }
        v.clear(); VH_CHECK(c, t.real.empty() && !t.real_bad, "descriptors", "%zu descriptors left open", t.real.size()); c.distinct(c.cur_iter);
    }

    void errors(Case& c, const Dir& dir)
    {
        auto& t = vfs::fs(); t.real.clear(); t.real_bad = 0; c.eval(20);
        for (int noise : { 0, EINTR, 99 })
        {
            fs::remove(dir(0)); errno = noise; expect_error(c, raises(c, [&] { io::OpenUniqueFile(dir(0)); }), { ENOENT }, "opening a missing file"); VH_CHECK(c, !fs::exists(dir(0)), "created", "opening for reading created the file");
            expect_error(c, raises(c, [&] { io::CreateUniqueFile(dir.p); }), { EISDIR }, "creating over a directory"); expect_error(c, raises(c, [&] { io::CreateUniqueFile(dir.p + "/no/such"); }), { ENOENT }, "creating in a missing directory");
            { io::UniqueStream w(io::CreateUniqueFile(dir(0))); Bytes b(100, 1); w.Write(b.data(), 100); expect_error(c, raises(c, [&] { io::CreateUniqueFile(dir(0) + "/x"); }), { ENOTDIR }, "a file used as a directory"); expect_error(c, raises(c, [&] { w.Seek(static_cast<size_t>(-5)); }), { EINVAL }, "seeking before the beginning"); VH_CHECK(c, w.GetPosition() == 100, "position", "a refused seek moved the position to %zu", w.GetPosition()); expect_error(c, raises(c, [&] { w.Seek(static_cast<size_t>(-101), false); }), { EINVAL }, "seeking before the beginning, from the end"); }
            VH_CHECK(c, slurp(dir(0)).size() == 100, "content", "the file lost its content");
            { io::UniqueStream w(io::CreateUniqueFile(dir(0))); VH_CHECK(c, io::OpenedExisting() && w.GetLength() == 100 && w.GetPosition() == 0, "content", "opening for updating changed the content"); }
            { io::UniqueStream w(io::CreateUniqueFile("/dev/full")); Bytes b(10, 1); expect_error(c, raises(c, [&] { w.Write(b.data(), 10); }), { ENOSPC }, "writing to a full device"); }
            VH_CHECK(c, t.real.empty() && !t.real_bad, "descriptors", "%zu descriptors left open after errors", t.real.size());
        }
        // the file size limit: a write that crosses it is cut short by the system, the next is refused
        struct rlimit old; getrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, SIG_IGN); const size_t lim = 1 + c.rng.below(3000); const size_t first = c.rng.below(lim), over = lim - first + 1 + c.rng.below(100);
        { fs::remove(dir(1)); io::UniqueStream w(io::CreateUniqueFile(dir(1))); Bytes b(first + over); for (auto& q : b) q = static_cast<uint8_t>(c.rng.next()); struct rlimit l = { lim, old.rlim_max }; setrlimit(RLIMIT_FSIZE, &l); std::optional<std::string> w1, w2, w3; std::string bad;
            try { w.Write(b.data(), first); w1 = raises(c, [&] { w.Write(b.data() + first, over); }); w2 = raises(c, [&] { w.Seek(lim); w.Write(b.data(), 1); }); w3 = raises(c, [&] { w.Seek(lim + 5); w.Truncate(); }); } catch (const std::exception& e) { bad = vh::type_name(typeid(e)); }
            setrlimit(RLIMIT_FSIZE, &old); VH_CHECK(c, bad.empty(), "exception-type", "%s", bad.c_str()); VH_CHECK(c, w1, "short-write", "a short write was not reported"); expect_error(c, w2, { EFBIG }, "writing at the size limit"); expect_error(c, w3, { EFBIG }, "extending over the size limit");
            Bytes r = slurp(dir(1)); VH_CHECK(c, r.size() == lim && !memcmp(r.data(), b.data(), lim), "content", "after a short write %zu bytes", r.size()); c.count("short writes"); }
        // beyond 32 bits
        { fs::remove(dir(2)); io::UniqueStream w(io::CreateUniqueFile(dir(2))); const uint64_t p = (1ull << 33) + c.rng.below(1ull << 20); uint8_t q = 7, z = 9; w.Seek(p); w.Write(&q, 1); VH_CHECK(c, w.GetPosition() == p + 1 && w.GetLength() == p + 1 && w.End(), "large", "position %zu length %zu", w.GetPosition(), w.GetLength()); w.Seek(size_t(0) - 1, false); VH_CHECK(c, w.Read(&z, 1) == 1 && z == 7, "large", "reading the last byte"); w.Move(-static_cast<std::ptrdiff_t>(p) - 1); VH_CHECK(c, w.GetPosition() == 0 && w.Read(&z, 1) == 1 && z == 0, "large", "moving back"); w.Seek(5ull << 30); w.Truncate(); VH_CHECK(c, w.GetLength() == 5ull << 30, "large", "truncating to 5 GiB gives %zu", w.GetLength()); w.Seek(0); w.Truncate(); c.count("offsets beyond 32 bits"); }
        VH_CHECK(c, t.real.empty() && !t.real_bad, "descriptors", "%zu descriptors left open", t.real.size()); c.distinct(vh::mix(lim * 4096 + first));
    }

    // The error of the system arrives in the exception, whatever the operation and the error.
    void injected(Case& c)
    {
        vfs::reset(); io::UniqueStream s(io::CreateUniqueFile("vfs:x")); Bytes b(64, 5); s.Write(b.data(), 64);
        for (int e : { EIO, ENOSPC, EDQUOT, EINTR, EAGAIN, EPERM, ESTALE, ENXIO, 133 }) for (int k = 0; k < 9; ++k)
        {
            s.Seek(10); vfs::fs().fault = [&](vfs::Kind, const std::string&, size_t) { return e; }; errno = static_cast<int>(c.rng.below(40));
            auto w = raises(c, [&] { switch (k) { case 0: s.Read(b.data(), 5); break; case 1: s.Write(b.data(), 5); break; case 2: s.Seek(3); break; case 3: s.Move(2); break; case 4: s.GetLength(); break; case 5: s.GetPosition(); break; case 6: s.Truncate(); break; case 7: s.Flush(); break; default: s.End(); } });
            vfs::fs().fault = nullptr; expect_error(c, w, { e }, vh::fmt("operation %d failing with %d", k, e).c_str()); c.eval();
            VH_CHECK(c, s.GetPosition() == 10 && s.GetLength() == 64, "failed-effect", "a failed operation %d moved the position to %zu or changed the length to %zu", k, s.GetPosition(), s.GetLength()); c.distinct(e * 16 + k);
        }
        for (size_t part : { 0, 1, 4 }) { s.Seek(0); vfs::fs().fault = [&](vfs::Kind k, const std::string&, size_t) { return k == vfs::WRITE ? -1 - static_cast<int>(part) : 0; }; auto w = raises(c, [&] { s.Write(b.data(), 5); }); vfs::fs().fault = nullptr; VH_CHECK(c, w, "short-write", "writing %zu of 5 bytes was not reported", part); VH_CHECK(c, s.GetPosition() == part, "position", "position %zu after a short write of %zu", s.GetPosition(), part); c.eval(); }
        vfs::fs().fault = [&](vfs::Kind, const std::string&, size_t) { return EMFILE; }; expect_error(c, raises(c, [&] { io::CreateUniqueFile("vfs:y"); }), { EMFILE }, "creating with no descriptors left"); expect_error(c, raises(c, [&] { io::OpenUniqueFile("vfs:x"); }), { EMFILE }, "opening with no descriptors left"); vfs::fs().fault = nullptr;
        s = {}; VH_CHECK(c, vfs::fs().fds.empty() && !vfs::fs().closed_twice, "descriptors", "descriptors after errors");
    }
}

VH_CASE(histories, 4) { Dir d(c, "h"); c.iterate(c.n(1200, 40000), [&](uint64_t) { history(c, d); }); }
VH_CASE(histories_low_descriptors, 1) { __real_close(0); Dir d(c, "l"); c.iterate(c.n(150, 5000), [&](uint64_t) { history(c, d); handles(c); }); }
VH_CASE(handles, 1) { c.iterate(c.n(2000, 60000), [&](uint64_t) { handles(c); }); }
VH_CASE(errors, 1) { Dir d(c, "e"); c.iterate(c.n(40, 600), [&](uint64_t) { errors(c, d); }); }
VH_CASE(injected_errors, 1) { c.iterate(c.n(20, 200), [&](uint64_t) { injected(c); }); }

VH_MAIN()
