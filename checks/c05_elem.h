#pragma once
#include "pbt.h"
#include <memory>
#include <set>
#include <unordered_set>

// Element whose construction and destruction are accounted for.
struct Ledger
{
    std::mutex m;
    std::unordered_set<const void*> live;
    uint64_t constructed = 0, destroyed = 0;
    std::string error;
    void ctor(const void* p)
    {
        std::lock_guard g(m);
        ++constructed;
        if (!live.insert(p).second && error.empty()) error = "object constructed over a live object";
    }
    void dtor(const void* p)
    {
        std::lock_guard g(m);
        ++destroyed;
        if (!live.erase(p) && error.empty()) error = "object destroyed that was not live";
    }
    void use(const void* p)
    {
        std::lock_guard g(m);
        if (!live.count(p) && error.empty()) error = "dead object used";
    }
    void reset() { std::lock_guard g(m); live.clear(); constructed = destroyed = 0; error.clear(); }
};
inline Ledger& ledger() { static Ledger l; return l; }

template<bool Default>
struct Elem
{
    uint64_t v = 0;
    std::unique_ptr<uint64_t> box;
    explicit Elem(uint64_t x) : v(x), box(new uint64_t(x)) { ledger().ctor(this); }
    Elem() requires Default { ledger().ctor(this); }
    Elem(Elem&& o) noexcept : v(o.v), box(std::move(o.box)) { ledger().use(&o); o.v = 0; ledger().ctor(this); }
    Elem& operator=(Elem&& o) noexcept
    {
        ledger().use(this);
        ledger().use(&o);
        if (this != &o) { v = o.v; box = std::move(o.box); o.v = 0; }
        return *this;
    }
    Elem(const Elem&) = delete;
    ~Elem() { ledger().dtor(this); }
    bool intact(uint64_t x) const { return v == x && box && *box == x; }
};
