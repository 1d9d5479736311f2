// Allocator that keeps a ledger of every block: which arena supplied it and with what size.
#pragma once
#include "vh.h"
struct Block { int arena; size_t bytes; };
inline std::map<const void*, Block>& blocks() { static std::map<const void*, Block> m; return m; }
template <class T>
struct ArenaAlloc
{
    using value_type = T;
    int arena = 0;
    ArenaAlloc(int a = 0) : arena(a) {}
    template <class Q> ArenaAlloc(const ArenaAlloc<Q>& o) : arena(o.arena) {}
    T* allocate(size_t n)
    {
        vh::ledger().point();
        T* p = static_cast<T*>(::operator new(n * sizeof(T)));
        blocks()[p] = { arena, n * sizeof(T) };
        return p;
    }
    void deallocate(T* p, size_t n)
    {
        auto i = blocks().find(p);
        if (i == blocks().end()) vh::ledger().err("released memory the allocator did not supply");
        else
        {
            if (i->second.arena != arena) vh::ledger().err("memory released through another allocator");
            if (i->second.bytes != n * sizeof(T)) vh::ledger().err("memory released with another size");
            blocks().erase(i);
        }
        ::operator delete(p);
    }
    template <class Q> bool operator==(const ArenaAlloc<Q>& o) const { return arena == o.arena; }
    template <class Q> bool operator!=(const ArenaAlloc<Q>& o) const { return arena != o.arena; }
};
