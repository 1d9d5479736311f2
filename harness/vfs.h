// A simulated file system behind the POSIX calls of the code under test (the harness is linked with -Wl,--wrap=...).
// Paths starting with "vfs:" live here; every other path goes to the real call. Each file keeps its cached content (what a
// reader sees), its durable content (what is certainly on the medium) and the operations between them. Every mutating call is
// an event; before it takes effect, a monitor can record the state of the disk, from which the images that a crash of the
// process or of the machine at that instant may leave are derived. Faults are injected per call.
#pragma once
#include "vh.h"
#include <fcntl.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <unistd.h>

namespace vfs
{
    using Bytes = std::vector<uint8_t>;
    enum Kind { OPEN, READ, WRITE, SEEK, STAT, TRUNC, SYNC, CLOSE, KINDS };
    inline const char* kind_name(int k) { static const char* n[] = { "open", "read", "write", "lseek", "fstat", "ftruncate", "fsync", "close" }; return n[k]; }

    struct Op { bool trunc; size_t off; Bytes data; }; // truncate to off, or write data at off
    inline void put(Bytes& b, const Op& o, size_t from = 0, size_t to = ~size_t(0))
    {
        if (o.trunc) { b.resize(o.off); return; }
        to = std::min(to, o.data.size()); if (from >= to) return;
        if (b.size() < o.off + to) b.resize(o.off + to);
        memcpy(b.data() + o.off + from, o.data.data() + from, to - from);
    }
    struct File { Bytes cache, durable; std::vector<Op> pending; };
    using Disk = std::map<std::string, File>;

    struct Capture { Disk disk; std::string file; Op op; bool has_op = false; uint64_t event = 0; };

    struct Fs
    {
        Disk disk;
        struct Fd { std::string path; size_t pos = 0; int flags = 0; };
        std::map<int, Fd> fds; int next = 1000000;
        uint64_t events = 0, calls[KINDS] = {}, failed = 0, closed_twice = 0;
        std::map<int, std::string> real; uint64_t real_opened = 0, real_bad = 0; // real descriptors opened and not closed by the code under test
        bool record = false; std::vector<Capture> captures;
        // decides the fate of a call: 0 = normal, >0 = errno, <0 = for a write: only -r-1 bytes are written (short write)
        std::function<int(Kind, const std::string&, size_t)> fault;
        void event(const std::string& f, const Op* o) { ++events; if (record) { captures.push_back({ disk, f, o ? *o : Op{}, o != nullptr, events }); } }
        int decide(Kind k, const std::string& f, size_t n) { ++calls[k]; if (!fault) return 0; int r = fault(k, f, n); if (r) ++failed; return r; }
    };
    inline Fs& fs() { static Fs f; return f; }
    inline bool mine(const char* p) { return p && strncmp(p, "vfs:", 4) == 0; }
    inline Fs::Fd* get(int fd) { auto i = fs().fds.find(fd); return i == fs().fds.end() ? nullptr : &i->second; }
    inline bool ours(int fd) { return fd >= 1000000; }

    inline void reset(Disk d = {}) { Fs& f = fs(); f.disk = std::move(d); f.fds.clear(); f.record = false; f.captures.clear(); f.fault = nullptr; f.failed = 0; }

    // What a crash may leave. The in-flight write (if any) has reached `part` bytes of the cache.
    inline Disk process_crash(const Capture& c, size_t part)
    {
        Disk d = c.disk;
        if (c.has_op) { File& f = d[c.file]; Op o = c.op; if (!o.trunc) o.data.resize(std::min(part, o.data.size())); if (o.trunc ? part > 0 : !o.data.empty()) { put(f.cache, o); f.pending.push_back(o); } }
        return d;
    }
    // Every unsynchronised write may have reached the medium completely, partly (by sectors) or not at all, in any order; the
    // size changes are ordered before the writes that follow them, as file systems keep freed blocks from old files.
    inline Disk machine_crash(const Disk& in, vh::Rng& r)
    {
        Disk d; const size_t sector = r.pick({ size_t(1), size_t(8), size_t(16), size_t(64), size_t(512), size_t(4096) });
        for (auto& [name, f] : in)
        {
            Bytes b = f.durable; const unsigned mode = static_cast<unsigned>(r.below(5));
            if (mode == 0) {}
            else if (mode == 1) for (auto& o : f.pending) put(b, o);
            else if (mode == 2) { size_t n = r.below(f.pending.size() + 1); for (size_t i = 0; i < n; ++i) put(b, f.pending[i]); if (n < f.pending.size() && !f.pending[n].trunc) put(b, f.pending[n], 0, r.below(f.pending[n].data.size() + 1)); }
            else
            {
                size_t last_trunc = 0; for (size_t i = 0; i < f.pending.size(); ++i) if (f.pending[i].trunc && r.flip()) last_trunc = i + 1;
                for (size_t i = 0; i < f.pending.size(); ++i)
                {
                    const Op& o = f.pending[i];
                    if (o.trunc) { if (i < last_trunc) put(b, o); else break; continue; }
                    for (size_t p = 0; p < o.data.size(); ) { size_t e = std::min(o.data.size(), (o.off + p) / sector * sector + sector - o.off); if (r.chance(mode == 3 ? 1 : 3, 4)) put(b, o, p, e); p = e; }
                }
            }
            d[name] = { b, b, {} };
        }
        return d;
    }
}

extern "C"
{
    int __real_open(const char*, int, ...); int __real_close(int); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
    off_t __real_lseek(int, off_t, int); int __real_ftruncate(int, off_t); int __real_fsync(int); int __real_fdatasync(int); int __real_fstat(int, struct stat*); int __real_access(const char*, int);
    ssize_t __real_pread(int, void*, size_t, off_t); ssize_t __real_pwrite(int, const void*, size_t, off_t); int __real_stat(const char*, struct stat*); int __real_rename(const char*, const char*); int __real_unlink(const char*);

    int __wrap_open(const char* p, int flags, ...)
    {
        va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
        if (!vfs::mine(p)) { int r = __real_open(p, flags, mode); if (r >= 0) { vfs::fs().real[r] = p; ++vfs::fs().real_opened; } return r; }
        auto& f = vfs::fs();
        if (int e = f.decide(vfs::OPEN, p, 0)) { errno = e > 0 ? e : EIO; return -1; }
        auto i = f.disk.find(p);
        if (i == f.disk.end()) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } f.event(p, nullptr); f.disk[p]; }
        else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        if (flags & O_TRUNC) { vfs::Op o{ true, 0, {} }; f.event(p, &o); auto& x = f.disk[p]; vfs::put(x.cache, o); x.pending.push_back(o); }
        f.fds[f.next] = { p, 0, flags }; return f.next++;
    }
    int __wrap_access(const char* p, int m) { if (!vfs::mine(p)) return __real_access(p, m); if (vfs::fs().disk.count(p)) return 0; errno = ENOENT; return -1; }
    int __wrap_close(int fd)
    {
        if (!vfs::ours(fd)) { if (!vfs::fs().real.erase(fd)) ++vfs::fs().real_bad; return __real_close(fd); }
        auto& f = vfs::fs(); ++f.calls[vfs::CLOSE]; if (!f.fds.erase(fd)) { ++f.closed_twice; errno = EBADF; return -1; } return 0;
    }
    static ssize_t vfs_read(int fd, void* b, size_t n, off_t at, bool move)
    {
        auto* d = vfs::get(fd); if (!d) { errno = EBADF; return -1; } auto& f = vfs::fs();
        if (int e = f.decide(vfs::READ, d->path, n)) { errno = e > 0 ? e : EIO; return -1; }
        auto& c = f.disk[d->path].cache; size_t pos = static_cast<size_t>(at); size_t k = pos >= c.size() ? 0 : std::min(n, c.size() - pos);
        if (k) memcpy(b, c.data() + pos, k); if (move) d->pos = pos + k; return static_cast<ssize_t>(k);
    }
    static ssize_t vfs_write(int fd, const void* b, size_t n, off_t at, bool move)
    {
        auto* d = vfs::get(fd); if (!d) { errno = EBADF; return -1; } auto& f = vfs::fs();
        const int e = f.decide(vfs::WRITE, d->path, n); const std::string path = d->path;
        if (e > 0) { errno = e; return -1; }
        size_t k = e < 0 ? std::min(n, static_cast<size_t>(-e - 1)) : n;
        vfs::Op o{ false, static_cast<size_t>(at), vfs::Bytes(static_cast<const uint8_t*>(b), static_cast<const uint8_t*>(b) + k) };
        if (k) { f.event(path, &o); auto& x = f.disk[path]; vfs::put(x.cache, o); x.pending.push_back(o); }
        if (move) d->pos = static_cast<size_t>(at) + k; return static_cast<ssize_t>(k);
    }
    ssize_t __wrap_read(int fd, void* b, size_t n) { if (!vfs::ours(fd)) return __real_read(fd, b, n); auto* d = vfs::get(fd); return vfs_read(fd, b, n, d ? static_cast<off_t>(d->pos) : 0, true); }
    ssize_t __wrap_pread(int fd, void* b, size_t n, off_t at) { if (!vfs::ours(fd)) return __real_pread(fd, b, n, at); return vfs_read(fd, b, n, at, false); }
    ssize_t __wrap_write(int fd, const void* b, size_t n) { if (!vfs::ours(fd)) return __real_write(fd, b, n); auto* d = vfs::get(fd); return vfs_write(fd, b, n, d ? static_cast<off_t>(d->pos) : 0, true); }
    ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t at) { if (!vfs::ours(fd)) return __real_pwrite(fd, b, n, at); return vfs_write(fd, b, n, at, false); }
    off_t __wrap_lseek(int fd, off_t off, int wh)
    {
        if (!vfs::ours(fd)) return __real_lseek(fd, off, wh);
        auto* d = vfs::get(fd); if (!d) { errno = EBADF; return -1; } auto& f = vfs::fs();
        if (int e = f.decide(vfs::SEEK, d->path, 0)) { errno = e > 0 ? e : EIO; return -1; }
        off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? static_cast<off_t>(d->pos) : static_cast<off_t>(f.disk[d->path].cache.size());
        if (base + off < 0) { errno = EINVAL; return -1; } d->pos = static_cast<size_t>(base + off); return base + off;
    }
    int __wrap_ftruncate(int fd, off_t n)
    {
        if (!vfs::ours(fd)) return __real_ftruncate(fd, n);
        auto* d = vfs::get(fd); if (!d) { errno = EBADF; return -1; } auto& f = vfs::fs(); const std::string path = d->path;
        if (int e = f.decide(vfs::TRUNC, path, static_cast<size_t>(n))) { errno = e > 0 ? e : EIO; return -1; }
        auto& x = f.disk[path]; if (x.cache.size() == static_cast<size_t>(n)) return 0;
        vfs::Op o{ true, static_cast<size_t>(n), {} }; f.event(path, &o); auto& y = f.disk[path]; vfs::put(y.cache, o); y.pending.push_back(o); return 0;
    }
    static int vfs_sync(int fd)
    {
        auto* d = vfs::get(fd); if (!d) { errno = EBADF; return -1; } auto& f = vfs::fs(); const std::string path = d->path;
        if (int e = f.decide(vfs::SYNC, path, 0)) { errno = e > 0 ? e : EIO; return -1; }
        f.event(path, nullptr); auto& x = f.disk[path]; x.durable = x.cache; x.pending.clear(); return 0;
    }
    int __wrap_fsync(int fd) { return vfs::ours(fd) ? vfs_sync(fd) : __real_fsync(fd); }
    int __wrap_fdatasync(int fd) { return vfs::ours(fd) ? vfs_sync(fd) : __real_fdatasync(fd); }
    int __wrap_fstat(int fd, struct stat* st)
    {
        if (!vfs::ours(fd)) return __real_fstat(fd, st);
        auto* d = vfs::get(fd); if (!d) { errno = EBADF; return -1; } auto& f = vfs::fs();
        if (int e = f.decide(vfs::STAT, d->path, 0)) { errno = e > 0 ? e : EIO; return -1; }
        memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0600; st->st_size = static_cast<off_t>(f.disk[d->path].cache.size()); return 0;
    }
    int __wrap_stat(const char* p, struct stat* st) { if (!vfs::mine(p)) return __real_stat(p, st); auto i = vfs::fs().disk.find(p); if (i == vfs::fs().disk.end()) { errno = ENOENT; return -1; } memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0600; st->st_size = static_cast<off_t>(i->second.cache.size()); return 0; }
    // Renaming and removing are durable at once here (an open descriptor follows neither).
    int __wrap_rename(const char* a, const char* b) { if (!vfs::mine(a)) return __real_rename(a, b); auto& f = vfs::fs(); auto i = f.disk.find(a); if (i == f.disk.end()) { errno = ENOENT; return -1; } f.event(a, nullptr); auto x = std::move(f.disk[a]); f.disk.erase(a); f.disk[b] = std::move(x); return 0; }
    int __wrap_unlink(const char* p) { if (!vfs::mine(p)) return __real_unlink(p); auto& f = vfs::fs(); if (!f.disk.count(p)) { errno = ENOENT; return -1; } f.event(p, nullptr); f.disk.erase(p); return 0; }
}
