// C04: walking accepted frames against the reference tree; hostile input under sanitizers.
#include "resp_ref.h"
using namespace rr;
using kio::resp::FrameIterator;
using kio::resp::get_bulk_payload;
using kio::resp::get_simple_payload;

static size_t visited;

static void walk(Parser& p, const FrameHeader& f, const Verdict& v, std::string_view d)
{
    ++visited;
    switch (v.type)
    {
        case '+': case '-': case ':': case ',': case '#': case '(': case '_':
        {
            auto s = get_simple_payload(f);
            REQUIRE(s == d.substr(1, v.header - 3), "simple-payload", "{} gives {}", pbt::show(d.substr(0, v.size), 100), pbt::show(s, 100));
            REQUIRE(s.empty() || (s.data() >= f.data && s.data() + s.size() <= f.data + f.size), "payload-outside", "payload outside the frame");
            return;
        }
        case '$': case '!': case '=':
        {
            auto s = get_bulk_payload(f);
            auto want = v.null_bulk ? std::string_view{} : d.substr(v.header, v.size - v.header - 2);
            REQUIRE(s == want, "bulk-payload", "{} gives {}", pbt::show(d.substr(0, v.size), 100), pbt::show(s, 100));
            REQUIRE(s.empty() || (s.data() >= f.data && s.data() + s.size() <= f.data + f.size), "payload-outside", "payload outside the frame");
            return;
        }
        default: break;
    }
    FrameIterator it(f, p);
    size_t off = v.header;
    for (size_t i = 0; i < v.kids.size(); ++i)
    {
        REQUIRE(it.has_next(), "iterator-ends-early", "child {} of {}", i, v.kids.size());
        REQUIRE(it.remaining() == v.kids.size() - i, "iterator-remaining", "remaining {} at child {} of {}", it.remaining(), i, v.kids.size());
        auto k = it.next();
        if (!k) pbt::fail("iterator-error", std::format("child {} of {}: {}", i, v.kids.size(), describe(k)));
        const auto& kv = v.kids[i];
        REQUIRE(k->data == f.data + off, "child-position", "child {} at offset {} expected {}", i, k->data - f.data, off);
        REQUIRE(k->size == kv.size && static_cast<char>(k->type) == kv.type && k->element_count == kv.count, "child-frame", "child {}: {} expected {}", i, describe(k),
                describe(kv));
        REQUIRE(k->data + k->size <= f.data + f.size, "child-outside", "child {} leaves its parent", i);
        walk(p, *k, kv, d.substr(off, kv.size));
        off += kv.size;
    }
    REQUIRE(off == v.size, "children-do-not-fill", "children end at {} frame size {}", off, v.size);
    REQUIRE(!it.has_next() && it.remaining() == 0, "iterator-overruns", "has_next after the last child");
    for (int i = 0; i < 2; ++i)
    {
        auto e = it.next();
        REQUIRE(!e && e.error() == ParseError::EoIter, "no-end-of-iteration", "after the last child: {}", describe(e));
    }
}

static void prop(pbt::Case& c)
{
    Gen g{c, config(c)};
    visited = 0;
    const bool hostile = c.chance(2, 5);
    std::string d = hostile ? g.damaged() : g.any();
    if (hostile && c.chance(1, 40))
    {
        d.clear();
        const char* o = c.pick<const char*>({"*1\r\n", "%1\r\n", "|1\r\n", "~9\r\n"});
        size_t n = c.draw(100000);
        for (size_t i = 0; i < n; ++i) d += o;
        g.cfg.max_aggregate_depth = 32;
    }
    const Verdict v = parse(d, 0, g.cfg);
    c.note("depth<={} size<={} input {} -> {}", g.cfg.max_aggregate_depth, g.cfg.max_size, pbt::show(d, 200), describe(v));
    g.cfg.initial_buffer = d.size();
    Parser p(g.cfg);
    if (!d.empty()) std::memcpy(p.buffer().writable_span().data(), d.data(), d.size());
    p.buffer().commit_write(d.size());
    auto r = p.next_frame();
    compare(r, v, d, p.buffer().readable_span().data(), "next_frame");
    if (!r) { c.label(hostile ? "hostile rejected or incomplete" : "incomplete"); if (v.err && !v.ok) c.nontrivial(); return; }
    walk(p, *r, v, d);
    // iterating a frame that has no children
    if (v.kids.empty() && v.count == 0)
    {
        FrameIterator it(*r, p);
        auto e = it.next();
        REQUIRE(!it.has_next() && !e && e.error() == ParseError::EoIter, "leaf-iterates", "iterating a leaf: {}", describe(e));
    }
    if (hostile) c.label("hostile accepted");
    if (visited > 3) c.label("more than 3 frames visited");
    if (g.saw_nested) c.label("nested aggregates");
    if (visited > 2) c.nontrivial();
}
PBT_MAIN(prop)
