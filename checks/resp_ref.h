// Reference model of RESP3 framing, written from the protocol description, plus
// generators of frames, streams and damaged frames.
#pragma once
#include "kio/resp/parser.h"
#include "pbt.h"
#include <cmath>
#include <optional>

namespace rr
{
    using kio::resp::FrameHeader;
    using kio::resp::FrameType;
    using kio::resp::ParseError;
    using kio::resp::Parser;
    using kio::resp::ParserConfig;

    // The set of answers the property allows for some bytes.
    struct Verdict
    {
        bool ok = false;    // a complete frame may be returned (then exactly size/count)
        bool more = false;  // "need more data" may be answered
        bool err = false;   // any other error may be answered
        size_t size = 0, count = 0;
        char type = 0;
        size_t header = 0;                // bytes up to and including the first CRLF
        bool null_bulk = false;
        std::vector<Verdict> kids;
    };

    inline bool digits(std::string_view s)
    {
        if (s.empty()) return false;
        for (char c: s) if (c < '0' || c > '9') return false;
        return true;
    }
    // decimal digits -> saturating value
    inline unsigned __int128 dec(std::string_view s)
    {
        unsigned __int128 v = 0;
        for (char c: s) { v = v * 10 + static_cast<unsigned>(c - '0'); if (v > (static_cast<unsigned __int128>(1) << 100)) v = static_cast<unsigned __int128>(1) << 100; }
        return v;
    }
    inline bool int64_text(std::string_view s)
    {
        bool neg = false;
        if (!s.empty() && (s[0] == '+' || s[0] == '-')) { neg = s[0] == '-'; s.remove_prefix(1); }
        if (!digits(s)) return false;
        return dec(s) <= (static_cast<unsigned __int128>(1) << 63) - (neg ? 0 : 1);
    }
    // 1 = must be accepted, 0 = must be rejected, -1 = spellings on which implementations differ
    inline int double_text(std::string_view s)
    {
        if (s == "inf" || s == "-inf" || s == "nan") return 1;
        if (s == "+inf") return -1;
        std::string_view t = s;
        if (!t.empty() && (t[0] == '+' || t[0] == '-')) t.remove_prefix(1);
        size_t i = 0;
        while (i < t.size() && isdigit(static_cast<unsigned char>(t[i]))) ++i;
        size_t ip = i, fp = 0;
        bool dot = false, e = false;
        size_t ep = 0;
        if (i < t.size() && t[i] == '.')
        {
            dot = true;
            ++i;
            size_t b = i;
            while (i < t.size() && isdigit(static_cast<unsigned char>(t[i]))) ++i;
            fp = i - b;
        }
        if (i < t.size() && (t[i] == 'e' || t[i] == 'E') && ip + fp > 0)
        {
            e = true;
            ++i;
            if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
            size_t b = i;
            while (i < t.size() && isdigit(static_cast<unsigned char>(t[i]))) ++i;
            ep = i - b;
        }
        if (i == t.size() && ip + fp > 0 && (!e || ep > 0))
        {
            if (ip == 0 || (dot && fp == 0)) return -1;  // ".5", "5."
            double v = strtod(std::string(t).c_str(), nullptr);
            bool zero = true;
            for (char ch: t) { if (ch == 'e' || ch == 'E') break; if (ch >= '1' && ch <= '9') zero = false; }
            if (std::isinf(v) || (!zero && std::fabs(v) < 3e-308)) return -1;  // out of range
            return 1;
        }
        // spellings of infinities and NaNs other than the protocol's
        if (t.size() >= 3 && (t[0] == 'i' || t[0] == 'I' || t[0] == 'n' || t[0] == 'N')) return -1;
        return 0;
    }

    inline Verdict err() { Verdict v; v.err = true; return v; }

    inline Verdict parse(std::string_view d, size_t depth, const ParserConfig& cfg)
    {
        Verdict v;
        const size_t nl = d.find("\r\n");
        if (depth > cfg.max_aggregate_depth)
        {
            v.err = true;
            v.more = nl == std::string_view::npos;
            return v;
        }
        if (d.empty()) { v.more = true; return v; }
        const char t = d[0];
        v.type = t;
        const bool known = std::string_view("+-:_#,($!=*%~>|").find(t) != std::string_view::npos;
        if (nl == std::string_view::npos)
        {
            // the line may already be hopeless; both answers are allowed (see C03 for valid prefixes)
            v.more = true;
            v.err = true;
            return v;
        }
        if (nl == 0 || !known) return err();
        const auto line = d.substr(1, nl - 1);
        v.header = nl + 2;
        v.size = nl + 2;
        const bool lone = line.find('\r') != std::string_view::npos || line.find('\n') != std::string_view::npos;
        switch (t)
        {
            case '+':
            case '-':
                v.ok = true;
                v.err = lone;
                return v;
            case '_':
                v.ok = true;
                v.err = !line.empty();
                return v;
            case '#': v.ok = line == "t" || line == "f"; v.err = !v.ok; return v;
            case ':': v.ok = int64_text(line); v.err = !v.ok; return v;
            case '(':
            {
                auto s = line;
                if (!s.empty() && (s[0] == '+' || s[0] == '-')) s.remove_prefix(1);
                v.ok = digits(s);
                v.err = !v.ok;
                return v;
            }
            case ',':
            {
                int k = double_text(line);
                v.ok = k != 0;
                v.err = k != 1;
                return v;
            }
            default: break;
        }
        // length-prefixed and counted frames
        bool neg = false, odd = false;
        auto s = line;
        if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; odd = s[0] == '+'; s.remove_prefix(1); }
        if (!digits(s)) return err();
        if (s.size() > 1 && s[0] == '0') odd = true;
        auto n128 = dec(s);
        if (neg && n128 == 0) odd = true;  // "-0"
        const bool bulk = t == '$' || t == '!' || t == '=';
        if (neg && n128 == 1)
        {
            v.ok = true;
            v.null_bulk = true;
            v.err = odd || t != '$';
            return v;
        }
        if (neg && n128 != 0) return err();
        if (n128 > static_cast<unsigned __int128>(INT64_MAX)) return err();
        const uint64_t n = static_cast<uint64_t>(n128);
        if (bulk)
        {
            if (n > cfg.max_size) return err();
            const uint64_t have = d.size() - v.header;
            v.err = odd;
            if (have < n + 2)
            {
                v.more = true;
                if (have == n + 1 && d[v.header + n] != '\r') v.err = true;
                return v;
            }
            if (d[v.header + n] != '\r' || d[v.header + n + 1] != '\n') return err();
            v.ok = true;
            v.size = v.header + n + 2;
            // a verbatim string starts with a three-letter format and a colon
            if (t == '=' && (n < 4 || d[v.header + 3] != ':')) v.err = true;
            return v;
        }
        v.count = n;
        unsigned __int128 kids = (t == '%' || t == '|') ? static_cast<unsigned __int128>(n) * 2 : n;
        size_t off = v.header;
        v.err = odd;
        for (unsigned __int128 i = 0; i < kids; ++i)
        {
            Verdict k = parse(d.substr(off), depth + 1, cfg);
            v.err |= k.err;
            v.more |= k.more;
            if (!k.ok) return v;
            off += k.size;
            v.kids.push_back(std::move(k));
        }
        v.ok = true;
        v.size = off;
        return v;
    }

    inline std::string describe(const Verdict& v)
    {
        std::string s;
        if (v.ok) s += std::format("frame '{}' size {} count {}; ", v.type, v.size, v.count);
        if (v.more) s += "need-more; ";
        if (v.err) s += "error; ";
        return s;
    }
    inline std::string describe(const std::expected<FrameHeader, ParseError>& r)
    {
        if (r) return std::format("frame '{}' size {} count {}", static_cast<char>(r->type), r->size, r->element_count);
        const char* n[] = {"NeedMoreData", "MalformedFrame", "Atoi", "MaxDepthReached", "SizeOverflow", "EoIter", "Unknown"};
        return n[static_cast<int>(r.error())];
    }

    // ---- generators ------------------------------------------------------
    struct Gen
    {
        pbt::Case& c;
        ParserConfig cfg;
        bool saw_crlf_payload = false, saw_agg = false, saw_at_limit = false, saw_nested = false;

        std::string text()
        {
            static const char* words[] = {"", "OK", "ERR something bad", "PONG", "a", "QUEUED", "x y z"};
            if (c.coin()) return words[c.draw(7)];
            std::string s = c.bytes(c.small(40));
            for (auto& ch: s) if (ch == '\r' || ch == '\n') ch = '_';
            return s;
        }
        std::string payload(size_t max)
        {
            switch (c.weighted({3, 2, 2, 1}))
            {
                case 0: return c.bytes(c.small(std::min<size_t>(max, 60)));
                case 1:
                {
                    // bytes that look like protocol
                    std::string s;
                    size_t n = c.draw(8);
                    for (size_t i = 0; i < n; ++i)
                        s += c.pick<const char*>({"\r\n", "\r", "\n", "$5\r\n", "*1\r\n", ":1\r\n", "\r\n\r\n", "+OK\r\n", "$-1\r\n"});
                    if (s.size() > max) s.resize(max);
                    saw_crlf_payload |= s.find("\r\n") != std::string::npos;
                    return s;
                }
                case 2: return std::string(std::min<size_t>(max, c.draw(5)), '\r');
                default:
                    saw_at_limit |= max <= 5000;
                    return c.bytes(std::min<size_t>(max, 5000));
            }
        }
        std::string integer()
        {
            switch (c.draw(6))
            {
                case 0: return std::to_string(c.range(-1000, 1000));
                case 1: return c.pick<const char*>({"9223372036854775807", "-9223372036854775808", "0", "-1", "+1", "+9223372036854775807"});
                case 2: return std::to_string(static_cast<int64_t>(c.draw(0)));
                default: return std::to_string(c.draw(100000));
            }
        }
        std::string dbl()
        {
            switch (c.draw(6))
            {
                case 0: return c.pick<const char*>({"inf", "-inf", "nan", "0", "-0", "3.14", "1e10", "1E-5", "+2.5", "-1.5e+3", "10.0", "1e300", "123456789.000001"});
                case 1: return std::format("{}", static_cast<double>(c.range(-1000000, 1000000)) / 1000);
                case 2: return std::format("{:e}", static_cast<double>(c.range(-1000000, 1000000)) * 1.37);
                default: return std::format("{}.{}", c.range(-500, 500), c.draw(1000));
            }
        }
        std::string bulk(char t)
        {
            if (t == '$' && c.chance(1, 10)) return "$-1\r\n";
            std::string p = t == '=' ? std::string(c.pick<const char*>({"txt:", "mkd:"})) : "";
            if (p.size() > cfg.max_size) return "_\r\n";
            p += payload(cfg.max_size - p.size());
            return std::format("{}{}\r\n{}\r\n", t, p.size(), p);
        }
        std::string leaf()
        {
            switch (c.weighted({5, 3, 2, 2, 2, 2, 2, 1, 1}))
            {
                case 0: return bulk('$');
                case 1: return ":" + integer() + "\r\n";
                case 2: return "+" + text() + "\r\n";
                case 3: return "," + dbl() + "\r\n";
                case 4: return c.pick<const char*>({"_\r\n", "#t\r\n", "#f\r\n"});
                case 5: return bulk(c.coin() ? '!' : '=');
                case 6: return "-" + text() + "\r\n";
                case 7: return "(" + std::string(c.pick<const char*>({"", "-", "+"})) + std::to_string(c.draw(0)) + std::to_string(c.draw(0)) + "\r\n";
                default: return ":" + integer() + "\r\n";
            }
        }
        std::string frame(size_t depth, size_t& budget)
        {
            if (budget) --budget;
            if (depth >= cfg.max_aggregate_depth || budget == 0 || !c.chance(2, depth == 0 ? 3 : 5)) return leaf();
            saw_agg = true;
            if (depth > 0) saw_nested = true;
            const char t = c.pick<char>({'*', '%', '~', '>', '|', '*'});
            const size_t n = c.weighted({1, 3, 3, 2, 1, 1});
            std::string s = std::format("{}{}\r\n", t, n);
            size_t kids = (t == '%' || t == '|') ? 2 * n : n;
            for (size_t i = 0; i < kids; ++i) s += frame(depth + 1, budget);
            return s;
        }
        // a chain nested exactly to the depth limit
        std::string deep()
        {
            std::string open, close;
            size_t d = 0;
            while (d < cfg.max_aggregate_depth)
            {
                switch (c.draw(4))
                {
                    case 0: open += "*1\r\n"; break;
                    case 1: open += "%1\r\n+k\r\n"; break;
                    case 2: open += ">2\r\n_\r\n"; break;
                    default: open += "*2\r\n"; close = ":7\r\n" + close; break;
                }
                ++d;
            }
            saw_nested = saw_agg = true;
            return open + leaf() + close;
        }
        std::string any()
        {
            if (cfg.max_aggregate_depth < 100 && c.chance(1, 12)) return deep();
            size_t budget = 1 + c.steps(40);
            return frame(0, budget);
        }
        // damage a valid encoding, or invent bytes
        std::string damaged()
        {
            std::string s = any();
            size_t edits = 1 + c.draw(3);
            for (size_t e = 0; e < edits; ++e)
            {
                size_t p = c.draw(s.size() + 1);
                // bias edits to header characters: just after a CRLF
                if (c.coin())
                {
                    std::vector<size_t> starts{0};
                    for (size_t q = s.find("\r\n"); q != std::string::npos; q = s.find("\r\n", q + 1)) starts.push_back(q + 2);
                    p = std::min(s.size(), c.pick_from(starts) + c.draw(3));
                }
                switch (c.weighted({4, 3, 3, 3, 2, 2, 1}))
                {
                    case 0: if (p < s.size()) s[p] = static_cast<char>(c.coin() ? c.draw(256) : "+-:_#,($!=*%~>|0123456789\r\ntfxe."[c.draw(32)]); break;
                    case 1: if (p < s.size()) s.erase(p, 1 + c.draw(3)); break;
                    case 2: s.insert(std::min(p, s.size()), c.pick<const char*>({"\r", "\n", "\r\n", "-", "+", "0", "9", "1", " ", "$1\r\n", "*1\r\n", "99999999999999999999", "e", "."})); break;
                    case 3:  // replace the number of a header
                    {
                        if (p >= s.size()) break;
                        size_t q = p;
                        while (q < s.size() && (isdigit(static_cast<unsigned char>(s[q])) || s[q] == '-')) ++q;
                        s.replace(p, q - p, c.pick<const char*>({"-1", "-2", "0", "1", "2", "3", "+1", "-0", "01", "9223372036854775807", "9223372036854775808",
                                                                 "18446744073709551615", "18446744073709551614", "-9223372036854775808", "1 ", "", "0x1", "1e3", "4294967296",
                                                                 "9223372036854775805", "4611686018427387904"}));
                        break;
                    }
                    case 4: s.resize(c.draw(s.size() + 1)); break;
                    case 5: s += any(); break;
                    default:
                    {
                        size_t n = c.small(24);
                        s = c.bytes(n);
                        if (c.coin()) s += "\r\n";
                    }
                }
            }
            return s;
        }
    };

    inline ParserConfig config(pbt::Case& c)
    {
        ParserConfig cfg;
        if (c.chance(2, 3)) cfg.max_aggregate_depth = c.pick<size_t>({0, 1, 2, 3, 4, 7, 32});
        if (c.chance(2, 3)) cfg.max_size = c.pick<size_t>({0, 1, 5, 16, 64, 300, 4096});
        return cfg;
    }

    // checks one answer against the reference
    inline void compare(const std::expected<FrameHeader, ParseError>& r, const Verdict& v, std::string_view data, const char* base, const char* what)
    {
        auto ctx = [&] { return std::format("{}: {} answered '{}', allowed: {}", what, pbt::show(data, 300), describe(r), describe(v)); };
        if (r)
        {
            if (!v.ok) pbt::fail("accepts-bad-frame", ctx());
            if (static_cast<char>(r->type) != v.type) pbt::fail("frame-type", ctx());
            if (r->data != base) pbt::fail("frame-start", ctx());
            if (r->size != v.size) pbt::fail("frame-extent", ctx());
            if (r->element_count != v.count) pbt::fail("element-count", ctx());
        }
        else if (r.error() == ParseError::NeedMoreData)
        {
            if (!v.more) pbt::fail(v.ok ? "complete-frame-not-returned" : "hopeless-input-waits", ctx());
        }
        else
        {
            if (!v.err) pbt::fail(v.ok ? "rejects-good-frame" : "rejects-good-prefix", ctx());
        }
    }
}  // namespace rr
