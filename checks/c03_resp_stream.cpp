// C03: chunked feeding against the known sequence of frames.
#include "resp_ref.h"
using namespace rr;

static void prop(pbt::Case& c)
{
    Gen g{c, config(c)};
    if (g.cfg.max_aggregate_depth < 2) g.cfg.max_aggregate_depth = 3;
    size_t n = c.steps(12);
    std::vector<std::string> frames;
    std::string all;
    for (size_t i = 0; i < n; ++i)
    {
        frames.push_back(g.any());
        all += frames.back();
    }
    g.cfg.initial_buffer = c.pick<size_t>({0, 1, 7, 64, 1024, 65536});
    Parser p(g.cfg);
    size_t fed = 0, got = 0, got_bytes = 0, end_of_fed_frames = 0;
    const size_t mode = c.draw(4);
    bool cut_inside = false;
    // frame boundaries
    std::vector<size_t> ends;
    for (auto& f: frames) ends.push_back((ends.empty() ? 0 : ends.back()) + f.size());
    (void) end_of_fed_frames;
    c.note("{} frames, {} bytes, initial buffer {}, chunk mode {}", n, all.size(), g.cfg.initial_buffer, mode);
    while (fed < all.size() || got < n)
    {
        if (fed < all.size())
        {
            size_t left = all.size() - fed;
            size_t k = mode == 0 ? 1 : mode == 1 ? left : mode == 2 ? 1 + c.draw(std::min<size_t>(left, 8)) : 1 + c.small(left - 1);
            if (c.chance(1, 3))  // cut around a CRLF
            {
                size_t q = all.find("\r\n", fed);
                if (q != std::string::npos) k = std::max<size_t>(1, std::min(left, q + c.draw(3) - fed));
            }
            k = std::min(k, left);
            // mode 0 on long streams would be quadratic
            if (mode == 0 && left > 600) k = std::min<size_t>(left, 37);
            c.note("feed {}", pbt::show(std::string_view(all).substr(fed, k), 40));
            if (c.coin())
                p.buffer().extend_from_slice(std::span<const char>(all.data() + fed, k));
            else
            {
                p.buffer().reserve(k);
                auto w = p.buffer().writable_span();
                REQUIRE(w.size() >= k, "reserve", "writable {} after reserve({})", w.size(), k);
                std::memcpy(w.data(), all.data() + fed, k);
                p.buffer().commit_write(k);
            }
            fed += k;
            if (got < n && fed != ends[got] && fed > (got ? ends[got - 1] : 0)) cut_inside = true;
        }
        // drain everything that is complete (sometimes leave frames for the next round)
        while (true)
        {
            if (fed < all.size() && c.chance(1, 6)) break;
            auto r = p.next_frame();
            const bool complete = got < n && ends[got] <= fed;
            if (!complete)
            {
                REQUIRE(!r, "early-or-extra-frame", "frame {} of {} returned with {} of {} bytes fed: {}", got, n, fed, all.size(), describe(r));
                if (r.error() != ParseError::NeedMoreData)
                    pbt::fail("prefix-error", std::format("{} on prefix {}", describe(r), pbt::show(std::string_view(all).substr(got_bytes, fed - got_bytes), 200)));
                auto rs = p.buffer().readable_span();
                REQUIRE(rs.size() == fed - got_bytes && std::string_view(rs.data(), rs.size()) == std::string_view(all).substr(got_bytes, fed - got_bytes),
                        "prefix-consumed", "buffer holds {} bytes, expected {}", rs.size(), fed - got_bytes);
                break;
            }
            if (!r) pbt::fail("frame-lost", std::format("frame {} {} complete in the buffer but answer is {}", got, pbt::show(frames[got], 200), describe(r)));
            const auto& f = frames[got];
            REQUIRE(r->size == f.size(), "frame-extent", "frame {} {} returned with size {}", got, pbt::show(f, 200), r->size);
            REQUIRE(std::string_view(r->data, r->size) == f, "frame-bytes", "frame {} returned as {}", pbt::show(f, 200), pbt::show({r->data, r->size}, 200));
            REQUIRE(static_cast<char>(r->type) == f[0], "frame-type", "frame {}", pbt::show(f, 100));
            c.coin() ? p.consume(*r) : p.consume(r->size);
            got_bytes = ends[got++];
            if (c.chance(1, 5)) { if (p.buffer().should_compact() || c.coin()) p.buffer().compact(); }
        }
    }
    REQUIRE(p.buffer().is_empty(), "left-over", "{} bytes left", p.buffer().remaining());
    if (cut_inside) c.label("cut inside a frame");
    if (g.saw_nested) c.label("nested aggregates");
    if (g.saw_crlf_payload) c.label("payload containing CRLF");
    if (cut_inside && n > 1) c.nontrivial();
}
PBT_MAIN(prop)
