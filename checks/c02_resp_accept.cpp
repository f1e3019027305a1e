// C02: verdict, type, extent and count of the parser against the reference.
#include "resp_ref.h"
using namespace rr;

static void prop(pbt::Case& c)
{
    Gen g{c, config(c)};
    const size_t kind = c.weighted({3, 5, 1, 1});
    std::string d;
    switch (kind)
    {
        case 0: d = g.any(); break;
        case 1: d = g.damaged(); break;
        case 2:  // one level too deep, or one byte too long
            if (c.coin() && g.cfg.max_size <= 4096)
            {
                std::string p(g.cfg.max_size + 1 + (c.coin() ? 0 : c.draw(3)), 'x');
                d = std::format("{}{}\r\n{}\r\n", c.pick<char>({'$', '!', '='}), p.size(), p);
                if (c.coin()) d = "*1\r\n" + d;
            }
            else
            {
                size_t n = g.cfg.max_aggregate_depth + 1 + (c.coin() ? 0 : c.draw(200));
                for (size_t i = 0; i < n; ++i) d += c.pick<const char*>({"*1\r\n", "~1\r\n", ">1\r\n"});
                d += g.leaf();
            }
            break;
        default: d = g.any() + g.damaged(); break;
    }
    // single-edit neighbourhood of short frames is searched more densely: number texts
    if (kind == 1 && c.chance(1, 4))
    {
        std::string num = c.bytes(c.draw(6));
        static const char al[] = "0123456789+-.eEinfatINF xt";
        for (auto& ch: num) ch = al[static_cast<unsigned char>(ch) % (sizeof al - 1)];
        if (c.coin()) num = c.pick<const char*>({"", "+", "-"}) + std::to_string(c.draw(0)) + num;
        d = std::string(1, c.pick<char>({':', ',', '(', '#', '$', '*', '_'})) + num + "\r\n";
        if (c.coin()) d += "abc\r\n";
    }
    const Verdict v = parse(d, 0, g.cfg);
    c.note("depth<={} size<={} input {} -> {}", g.cfg.max_aggregate_depth, g.cfg.max_size, pbt::show(d, 200), describe(v));

    // exact-size storage: any byte read past the data is a heap overflow
    g.cfg.initial_buffer = d.size();
    Parser p(g.cfg);
    if (!d.empty()) std::memcpy(p.buffer().writable_span().data(), d.data(), d.size());
    p.buffer().commit_write(d.size());
    auto r = p.next_frame();
    compare(r, v, d, p.buffer().readable_span().data(), "exact buffer");
    REQUIRE(p.buffer().remaining() == d.size(), "next_frame-consumes", "{} left of {}", p.buffer().remaining(), d.size());
    REQUIRE(std::memcmp(p.buffer().readable_span().data(), d.data(), d.size()) == 0, "buffer-changed", "next_frame changed the buffer");
    auto again = p.next_frame();
    REQUIRE(again.has_value() == r.has_value() && (!r || again->size == r->size), "not-repeatable", "second next_frame differs");

    // the same bytes with slack behind them that would complete or break the frame
    static const char* slack[] = {"\r\n\r\n\r\n", "0000000000", "\n", "$3\r\nabc\r\n:1\r\n"};
    std::string sl = slack[c.draw(4)];
    ParserConfig cfg2 = g.cfg;
    cfg2.initial_buffer = d.size() + sl.size();
    Parser q(cfg2);
    auto w = q.buffer().writable_span();
    std::memcpy(w.data(), d.data(), d.size());
    std::memcpy(w.data() + d.size(), sl.data(), sl.size());
    q.buffer().commit_write(d.size());  // the slack is not part of the data
    compare(q.next_frame(), v, d, q.buffer().readable_span().data(), "stale bytes behind the data");

    // bytes that follow a complete frame do not matter
    if (r)
    {
        std::string tail = c.coin() ? g.any() : c.bytes(c.draw(10));
        std::string full = d + tail;
        ParserConfig cfg3 = g.cfg;
        cfg3.initial_buffer = full.size();
        Parser t(cfg3);
        std::memcpy(t.buffer().writable_span().data(), full.data(), full.size());
        t.buffer().commit_write(full.size());
        auto r3 = t.next_frame();
        REQUIRE(r3 && r3->size == r->size && r3->element_count == r->element_count && r3->type == r->type, "depends-on-following-bytes",
                "{} followed by {} gives {}", pbt::show(d, 200), pbt::show(tail), describe(r3));
        c.label("accepted");
    }
    else c.label(r.error() == ParseError::NeedMoreData ? "need-more" : "rejected");
    if (v.ok && v.kids.size() > 0) c.label("aggregate accepted");
    if (v.err && !v.ok && !v.more) c.label("must reject");
    if (v.ok && !v.err) c.label("must accept");
    if ((v.ok && (!v.kids.empty() || g.saw_crlf_payload)) || (v.err && !v.ok && !v.more)) c.nontrivial();
}
PBT_MAIN(prop)
