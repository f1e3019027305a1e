// C01: BytesMut against a std::string model.
#include "kio/core/bytes_mut.h"
#include "pbt.h"
using kio::BytesMut;

static void check_view(const BytesMut& b, const std::string& model, const char* after)
{
    auto r = b.readable_span();
    REQUIRE(b.remaining() == model.size(), "remaining", "after {}: remaining {} model {}", after, b.remaining(), model.size());
    REQUIRE(r.size() == model.size(), "readable-size", "after {}: readable {} model {}", after, r.size(), model.size());
    REQUIRE(b.is_empty() == model.empty(), "is-empty", "after {}", after);
    if (!model.empty() && std::memcmp(r.data(), model.data(), model.size()) != 0)
    {
        size_t i = 0;
        while (r[i] == model[i]) ++i;
        pbt::fail("content", std::format("after {}: byte {} of {} differs", after, i, model.size()));
    }
}

static void prop(pbt::Case& c)
{
    // many buffers start from capacities around the auto-compaction thresholds
    bool dflt = c.chance(1, 4);
    size_t cap0 = dflt ? 0 : (c.coin() ? c.small(64) : c.small(6000));
    BytesMut b = dflt ? BytesMut() : BytesMut(cap0);
    std::string model;
    unsigned char next = 1;
    auto fresh = [&](size_t n) {
        std::string s(n, 0);
        for (auto& ch: s) { ch = static_cast<char>(next); next = static_cast<unsigned char>(next * 5 + 3); }
        return s;
    };
    c.note("BytesMut({})", dflt ? std::string("") : std::to_string(cap0));
    const size_t maxn = c.coin() ? 40 : 5000;
    bool grew_with_prefix = false, rejected = false;
    size_t n = c.steps(60);
    check_view(b, model, "construction");
    if (!dflt) REQUIRE(b.writable() >= cap0, "initial-space", "constructed with {} but writable {}", cap0, b.writable());
    for (size_t i = 0; i < n; ++i)
    {
        switch (c.weighted({4, 5, 5, 5, 2, 2, 1, 1, 1, 1}))
        {
            case 0:
            {
                size_t add = c.small(maxn);
                bool prefix = b.consumed() > 0 && b.writable() < add;
                c.note("reserve({})", add);
                b.reserve(add);
                REQUIRE(b.writable() >= add, "reserve-space", "reserve({}) left writable {}", add, b.writable());
                if (prefix && !model.empty()) grew_with_prefix = true;
                check_view(b, model, "reserve");
                break;
            }
            case 1:  // write into the writable span and commit
            {
                auto w = b.writable_span();
                REQUIRE(w.size() == b.writable(), "writable-size", "span {} writable {}", w.size(), b.writable());
                size_t k = w.empty() ? 0 : (c.chance(1, 4) ? w.size() : c.small(std::min(w.size(), maxn)));
                auto s = fresh(k);
                // scribble over the whole writable span: it must not alias readable data
                if (!w.empty()) std::memset(w.data(), 0xEE, w.size());
                check_view(b, model, "scribbling over writable space");
                if (k) std::memcpy(w.data(), s.data(), k);
                c.note("commit_write({} of {})", k, w.size());
                const size_t before = b.writable();
                b.commit_write(k);
                model += s;
                REQUIRE(b.writable() == before - k, "writable-after-commit", "writable {} -> {} after commit {}", before, b.writable(), k);
                check_view(b, model, "commit_write");
                break;
            }
            case 2:
            {
                size_t k = c.small(maxn);
                auto s = fresh(k);
                bool prefix = b.consumed() > 0 && b.writable() < k;
                c.note("extend_from_slice({})", k);
                b.extend_from_slice(std::span<const char>(s.data(), s.size()));
                model += s;
                if (prefix && model.size() > k) grew_with_prefix = true;
                check_view(b, model, "extend_from_slice");
                break;
            }
            case 3:
            {
                size_t k = c.chance(1, 4) ? model.size() : c.small(model.size());
                const size_t cons = b.consumed();
                c.note("advance({})", k);
                b.advance(k);
                model.erase(0, k);
                check_view(b, model, "advance");
                REQUIRE(b.consumed() >= cons, "consumed", "consumed went from {} to {} on advance", cons, b.consumed());
                break;
            }
            case 4:
            {
                size_t k = c.small(model.size());
                c.note("peek({})", k);
                auto p = b.peek(k);
                REQUIRE(p.size() == k, "peek-size", "peek({}) gave {}", k, p.size());
                if (k) REQUIRE(std::memcmp(p.data(), model.data(), k) == 0, "peek-content", "peek({})", k);
                check_view(b, model, "peek");
                break;
            }
            case 5:
            {
                c.note("compact()");
                if (b.consumed() > 0 && !model.empty()) grew_with_prefix = true;
                const size_t total = b.consumed() + b.remaining() + b.writable();
                b.compact();
                REQUIRE(b.consumed() == 0, "compact-consumed", "consumed {} after compact", b.consumed());
                REQUIRE(b.remaining() + b.writable() == total, "compact-total", "space changed from {} to {}", total, b.remaining() + b.writable());
                check_view(b, model, "compact");
                break;
            }
            case 6:
            {
                if (!c.chance(1, 3)) break;
                c.note("clear()");
                const size_t cap = b.capacity();
                const size_t total = b.consumed() + b.remaining() + b.writable();
                b.clear();
                model.clear();
                REQUIRE(b.capacity() == cap, "clear-capacity", "capacity {} -> {}", cap, b.capacity());
                REQUIRE(b.writable() == total, "clear-space", "writable {} of {}", b.writable(), total);
                check_view(b, model, "clear");
                break;
            }
            case 7:  // rejected calls change nothing
            {
                uint64_t how = c.draw(3);
                // far beyond, or just beyond
                uint64_t over = c.coin() ? 1 + c.small(1000) : ~0ULL - c.small(10000);
                auto beyond = [&](size_t have) { return over > 10001 ? over : have + over; };
                bool threw = false;
                const size_t wr = b.writable(), co = b.consumed();
                try
                {
                    if (how == 0) { c.note("advance({}) beyond", beyond(model.size())); b.advance(beyond(model.size())); }
                    else if (how == 1) { c.note("peek({}) beyond", beyond(model.size())); (void) b.peek(beyond(model.size())); }
                    else { c.note("commit_write({}) beyond", beyond(wr)); b.commit_write(beyond(wr)); }
                }
                catch (const std::exception&) { threw = true; }
                REQUIRE(threw, "beyond-accepted", "{} beyond the available data was accepted", how == 0 ? "advance" : how == 1 ? "peek" : "commit_write");
                REQUIRE(b.writable() == wr && b.consumed() == co, "beyond-changed", "a rejected call moved a cursor");
                check_view(b, model, "a rejected call");
                rejected = true;
                break;
            }
            case 8:  // a request that cannot be satisfied
            {
                size_t huge = (1ULL << 63) + c.draw(1ULL << 62) * 2 + c.draw(2);
                if (c.coin()) huge = ~0ULL - c.small(20000);
                bool threw = false;
                c.note("reserve({}) impossible", huge);
                try { b.reserve(huge); }
                catch (const std::exception&) { threw = true; }
                REQUIRE(threw || b.writable() >= huge, "reserve-space", "reserve({}) returned with writable {}", huge, b.writable());
                check_view(b, model, "an impossible reserve");
                rejected = true;
                break;
            }
            case 9:  // copies are independent
            {
                c.note("copy");
                BytesMut d = b;
                check_view(d, model, "copy construction");
                if (auto w = d.writable_span(); !w.empty()) { w[0] = 'X'; d.commit_write(1); }
                d.advance(d.remaining());
                check_view(b, model, "changing a copy");
                break;
            }
        }
        // the advisory compaction predicate is harmless to follow
        if (c.chance(1, 8) && b.should_compact()) { b.compact(); check_view(b, model, "advised compact"); }
    }
    if (grew_with_prefix) { c.nontrivial(); c.label("growth-or-compaction-with-consumed-prefix"); }
    if (rejected) c.label("rejected-call");
}
PBT_MAIN(prop)
