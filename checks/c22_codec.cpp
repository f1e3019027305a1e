// C22: store entries encode and decode without loss, and damage is noticed.
#include <cstdint>
#include <cstring>
#include <memory>
#include <syscall.h>
#include "bitcask/include/entry.h"
#include "pbt.h"

using namespace bitcask;

namespace
{
    // CRC-32C, bit by bit (the documented checksum)
    uint32_t crc32c_ref(std::string_view s)
    {
        uint32_t c = ~0u;
        for (unsigned char b: s)
        {
            c ^= b;
            for (int k = 0; k < 8; ++k) c = (c >> 1) ^ ((c & 1) ? 0x82F63B78u : 0);
        }
        return ~c;
    }
    template<typename T> T le(const char* p)
    {
        T v = 0;
        for (size_t i = 0; i < sizeof(T); ++i) v |= static_cast<T>(static_cast<unsigned char>(p[i])) << (8 * i);
        return v;
    }
    // exactly sized storage, so that a read past the end is noticed
    struct Exact
    {
        std::unique_ptr<char[]> p;
        size_t n;
        explicit Exact(std::string_view s) : p(new char[s.size()]), n(s.size()) { if (n) std::memcpy(p.get(), s.data(), n); }
        std::span<const char> span() const { return {p.get(), n}; }
    };
    size_t len(pbt::Case& c)
    {
        switch (c.weighted({8, 4, 1}))
        {
            case 0: return c.small(300);
            case 1: return c.pick<size_t>({0, 1, 127, 128, 254, 255, 256, 257, 1000});
            default: return c.pick<size_t>({32768, 65534, 65535, 65536, 65537, 70000});
        }
    }
    DataEntry gen(pbt::Case& c)
    {
        DataEntry e;
        e.key = c.bytes(len(c));
        auto v = c.bytes(len(c));
        e.value.assign(v.begin(), v.end());
        e.flag = static_cast<uint8_t>(c.pick<uint64_t>({0, 1, 2, 255, c.draw(256)}));
        e.timestamp_ns = c.pick<uint64_t>({0, 1, ~0ULL, 1ULL << 63, c.draw(0), 1'700'000'000'000'000'000ULL});
        return e;
    }
    std::string enc(const DataEntry& e)
    {
        auto v = e.serialize();
        return {v.begin(), v.end()};
    }
    bool same(const DataEntry& a, const DataEntry& b) { return a.timestamp_ns == b.timestamp_ns && a.flag == b.flag && a.key == b.key && a.value == b.value && a.is_tombstone() == ((b.flag & 1) != 0); }
    std::string show(const DataEntry& e) { return std::format("ts {} flag {} key {} bytes value {} bytes", e.timestamp_ns, e.flag, e.key.size(), e.value.size()); }

    void must_fail(pbt::Case& c, std::string_view s, const char* what)
    {
        Exact x(s);
        auto r = DataEntry::deserialize(x.span());
        (void) c;
        REQUIRE(!r.has_value(), "damage-accepted", "{}: decoded {} from {} bytes", what, show(r->first), s.size());
    }

    void hints(pbt::Case& c)
    {
        size_t n = 1 + c.draw(5);
        std::vector<HintEntry> es;
        std::string all;
        std::vector<size_t> lens;
        for (size_t i = 0; i < n; ++i)
        {
            HintEntry h(c.pick<uint64_t>({0, ~0ULL, c.draw(0)}), c.pick<uint64_t>({0, ~0ULL, c.draw(0), c.draw(100000)}), static_cast<uint32_t>(c.pick<uint64_t>({0, 0xFFFFFFFF, c.draw(1ULL << 32)})), c.bytes(len(c)));
            auto v = h.serialize();
            std::string s(v.begin(), v.end());
            Exact x(s);
            auto r = HintEntry::deserialize(x.span());
            REQUIRE(r.has_value(), "hint-round-trip", "decoding an encoded hint failed");
            REQUIRE(r->timestamp_ns == h.timestamp_ns && r->entry_pos == h.entry_pos && r->total_sz == h.total_sz && r->key == h.key, "hint-round-trip", "fields differ");
            REQUIRE(struct_pack::get_needed_size(h) == s.size(), "hint-length", "{} != {}", static_cast<size_t>(struct_pack::get_needed_size(h)), s.size());
            es.push_back(std::move(h));
            lens.push_back(s.size());
            all += s;
        }
        std::string_view rest = all;
        for (size_t i = 0; i < n; ++i)
        {
            Exact x(rest);
            auto r = HintEntry::deserialize(x.span());
            REQUIRE(r.has_value(), "hint-concat", "hint {} of {}", i, n);
            REQUIRE(r->timestamp_ns == es[i].timestamp_ns && r->entry_pos == es[i].entry_pos && r->total_sz == es[i].total_sz && r->key == es[i].key, "hint-concat", "hint {} of {} differs", i, n);
            rest.remove_prefix(lens[i]);
        }
        // cut
        std::string_view first = std::string_view(all).substr(0, c.draw(lens[0]));
        Exact x(first);
        REQUIRE(!HintEntry::deserialize(x.span()).has_value(), "hint-cut", "{} of {} bytes decoded", first.size(), lens[0]);
        // any bytes
        std::string junk = c.coin() ? c.bytes(c.small(80)) : all.substr(0, lens[0]);
        for (size_t k = c.draw(4); k-- && !junk.empty();) junk[c.draw(junk.size())] = static_cast<char>(c.draw(256));
        Exact y(junk);
        (void) HintEntry::deserialize(y.span());
        if (n > 1) c.nontrivial();
        c.label("hints");
    }

    void round_trips(pbt::Case& c)
    {
        size_t n = 1 + c.draw(5);
        std::vector<DataEntry> es;
        std::vector<std::string> encs;
        std::string all;
        for (size_t i = 0; i < n; ++i)
        {
            es.push_back(gen(c));
            encs.push_back(enc(es.back()));
            all += encs.back();
            const std::string& s = encs.back();
            c.note("entry {}: {} -> {} bytes", i, show(es.back()), s.size());
            REQUIRE(s.size() > 12, "layout", "{} bytes", s.size());
            REQUIRE(le<uint64_t>(s.data() + 4) == s.size() - 12, "layout-size", "size field {} for {} bytes", le<uint64_t>(s.data() + 4), s.size());
            REQUIRE(le<uint32_t>(s.data()) == crc32c_ref(std::string_view(s).substr(12)), "layout-crc", "checksum field");
        }
        if (c.coin()) all += c.bytes(c.small(60));  // other bytes behind the last entry
        std::string_view rest = all;
        for (size_t i = 0; i < n; ++i)
        {
            Exact x(rest);
            auto r = DataEntry::deserialize(x.span());
            REQUIRE(r.has_value(), "round-trip", "entry {} of {}: error {}", i, n, r.error().value);
            REQUIRE(same(r->first, es[i]), "round-trip", "entry {}: {} became {}", i, show(es[i]), show(r->first));
            REQUIRE(r->second == encs[i].size(), "length", "entry {}: {} bytes reported, {} encoded", i, r->second, encs[i].size());
            // what was decoded encodes to the same bytes
            REQUIRE(enc(r->first) == encs[i], "re-encode", "entry {}", i);
            rest.remove_prefix(encs[i].size());
        }
        // the constructor keeps what it is given
        DataEntry k(std::string(es[0].key), std::vector<char>(es[0].value), es[0].flag);
        REQUIRE(k.key == es[0].key && k.value == es[0].value && k.flag == es[0].flag, "constructor", "fields differ");
        REQUIRE(&k.get_key() == &k.key || k.get_key() == k.key, "constructor", "get_key");
        if (n > 1) { c.nontrivial(); c.label("concatenated"); }
    }

    void cuts(pbt::Case& c)
    {
        auto e = gen(c);
        auto s = enc(e);
        for (int i = 0; i < 4; ++i)
        {
            size_t at = c.coin() ? c.draw(s.size()) : std::min<size_t>(s.size() - 1, c.draw(16));
            if (c.chance(1, 6)) at = s.size() - 1 - c.draw(std::min<size_t>(4, s.size()));
            Exact x(std::string_view(s).substr(0, at));
            auto r = DataEntry::deserialize(x.span());
            REQUIRE(!r.has_value(), "cut-accepted", "{} of {} bytes decoded", at, s.size());
            REQUIRE(r.error().value == kio::kIoNeedMoreData, "cut-error", "{} of {} bytes: error {}", at, s.size(), r.error().value);
        }
        c.nontrivial();
        c.label("cut");
    }

    void damage(pbt::Case& c)
    {
        auto e = gen(c);
        auto s = enc(e);
        std::string t = s;
        size_t k = 1 + c.draw(3);
        size_t first = s.size();
        for (size_t i = 0; i < k; ++i)
        {
            size_t at = c.coin() ? c.draw(s.size()) : c.draw(40) % s.size();
            if (c.chance(1, 4)) at = s.size() - 1 - c.draw(std::min<size_t>(s.size(), 16));
            if (c.coin()) t[at] = static_cast<char>(t[at] ^ (1 << c.draw(8)));
            else t[at] = static_cast<char>(c.draw(256));
            first = std::min(first, at);
        }
        if (t == s) return;
        std::string follow = c.coin() ? enc(gen(c)) : std::string();
        bool size_changed = std::memcmp(s.data() + 4, t.data() + 4, 8) != 0;
        Exact x(t + follow);
        auto r = DataEntry::deserialize(x.span());
        REQUIRE(!r.has_value(), "damage-accepted", "byte {} altered: decoded {}", first, show(r->first));
        if (!size_changed) { REQUIRE(r.error().value == kio::kIoDataCorrupted || r.error().value == kio::kIoDeserialization, "damage-error", "byte {} altered: error {}", first, r.error().value); }
        c.nontrivial();
        c.label(size_changed ? "size altered" : first < 4 ? "checksum altered" : "payload altered");
    }

    void junk(pbt::Case& c)
    {
        // arbitrary bytes, mostly with a header that looks right
        std::string body;
        switch (c.draw(3))
        {
            case 0: body = c.bytes(c.small(200)); break;
            case 1: body = enc(gen(c)).substr(12); break;
            default:
                body = enc(gen(c)).substr(12);
                for (size_t k = 1 + c.draw(6); k--;) body[c.coin() ? c.draw(body.size()) : c.draw(20) % body.size()] = static_cast<char>(c.draw(256));
                if (c.coin()) body.resize(c.draw(body.size() + 1));
                if (c.coin()) body += c.bytes(c.small(40));
                break;
        }
        uint64_t size;
        switch (c.draw(5))
        {
            case 0: size = body.size(); break;
            case 1: size = body.size() + static_cast<uint64_t>(c.range(-20, 20)); break;
            case 2: size = 0 - c.draw(40); break;
            case 3: size = c.draw(body.size() + 1); break;
            default: size = c.draw(0); break;
        }
        uint32_t crc = c.chance(1, 4) ? static_cast<uint32_t>(c.draw(1ULL << 32)) : crc32c_ref(std::string_view(body).substr(0, std::min<uint64_t>(size, body.size())));
        std::string s(12, 0);
        std::memcpy(s.data(), &crc, 4);
        std::memcpy(s.data() + 4, &size, 8);
        s += body;
        if (c.chance(1, 8)) s = c.bytes(c.small(64));
        c.note("{} bytes, size field {}, body {}", s.size(), size, body.size());
        Exact x(s);
        auto r = DataEntry::deserialize(x.span());
        if (r.has_value())
        {
            REQUIRE(r->second <= s.size(), "length-beyond-buffer", "{} of {} bytes consumed", r->second, s.size());
            uint64_t f = le<uint64_t>(s.data() + 4);
            REQUIRE(f <= s.size() - 12, "size-ignored", "size field {} in {} bytes", f, s.size());
            REQUIRE(le<uint32_t>(s.data()) == crc32c_ref(std::string_view(s).substr(12, f)), "checksum-ignored", "accepted with a wrong checksum");
            c.label("junk accepted");
        }
        else
        {
            // a complete entry never asks for more data
            if (s.size() > 12)
            {
                uint64_t f = le<uint64_t>(s.data() + 4);
                if (f <= s.size() - 12) { REQUIRE(r.error().value != kio::kIoNeedMoreData, "asks-for-more", "size field {} in {} bytes", f, s.size()); }
                else { REQUIRE(r.error().value == kio::kIoNeedMoreData || r.error().value == kio::kIoDataCorrupted || r.error().value == kio::kIoDeserialization, "error", "error {}", r.error().value); }
            }
        }
        c.nontrivial();
        c.label("junk");
    }

    void prop(pbt::Case& c)
    {
        static bool q = [] { kio::alog::configure(4, kio::LogLevel::Disabled); return true; }();
        (void) q;
        switch (c.weighted({4, 2, 4, 3, 3}))
        {
            case 0: round_trips(c); break;
            case 1: hints(c); break;
            case 2: damage(c); break;
            case 3: cuts(c); break;
            default: junk(c); break;
        }
    }
}  // namespace
PBT_MAIN(prop)
