// C15: the exposition text is parsed by the format's rules and compared with the data.
#include <cstdint>
#include <syscall.h>
#include <atomic>
#include "kio/metrics/registry.h"
#include "kio/metrics/utils.h"
#include "pbt.h"
#include <cmath>
#include <limits>
#include <map>
#include <set>

namespace
{
    struct Sample
    {
        std::map<std::string, std::string> labels;
        double value;
    };
    struct Family
    {
        std::string name, help, type;
        std::vector<Sample> samples;
        bool has_help = false, has_type = false;
    };
    bool name_ok(std::string_view s, bool colon)
    {
        if (s.empty()) return false;
        for (size_t i = 0; i < s.size(); ++i)
        {
            char c = s[i];
            bool a = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (colon && c == ':');
            bool d = c >= '0' && c <= '9';
            if (!(a || (d && i > 0))) return false;
        }
        return true;
    }
    // the exposition format, https://prometheus.io/docs/instrumenting/exposition_formats/
    std::map<std::string, Family> parse(const std::string& t)
    {
        std::map<std::string, Family> out;
        std::string current;
        std::set<std::string> closed;
        auto bad = [&](const std::string& line, const char* why) { pbt::fail("invalid-exposition", std::format("{}: {}", why, pbt::show(line, 200))); };
        auto enter = [&](const std::string& n, const std::string& line) {
            if (n == current) return;
            if (!current.empty()) closed.insert(current);
            if (closed.count(n)) pbt::fail("family-split", std::format("metric {} appears in two places: {}", n, pbt::show(line, 120)));
            current = n;
        };
        if (!t.empty() && t.back() != '\n') bad(t.substr(t.size() > 60 ? t.size() - 60 : 0), "last line has no end");
        for (size_t p = 0; p < t.size();)
        {
            size_t e = t.find('\n', p);
            std::string line = t.substr(p, e - p);
            p = e + 1;
            if (line.empty()) continue;
            if (line[0] == '#')
            {
                if (line.rfind("# HELP ", 0) == 0)
                {
                    size_t sp = line.find(' ', 7);
                    std::string n = line.substr(7, sp == std::string::npos ? std::string::npos : sp - 7);
                    if (!name_ok(n, true)) bad(line, "metric name");
                    enter(n, line);
                    auto& f = out[n];
                    f.name = n;
                    if (f.has_help) pbt::fail("announced-twice", std::format("second HELP for {}", n));
                    if (!f.samples.empty()) bad(line, "HELP after samples");
                    f.has_help = true;
                    std::string raw = sp == std::string::npos ? "" : line.substr(sp + 1);
                    for (size_t i = 0; i < raw.size(); ++i)
                    {
                        if (raw[i] != '\\') { f.help += raw[i]; continue; }
                        ++i;
                        if (i < raw.size() && raw[i] == 'n') f.help += '\n';
                        else if (i < raw.size() && raw[i] == '\\') f.help += '\\';
                        else bad(line, "escape in help text");
                    }
                }
                else if (line.rfind("# TYPE ", 0) == 0)
                {
                    size_t sp = line.find(' ', 7);
                    if (sp == std::string::npos) bad(line, "TYPE without type");
                    std::string n = line.substr(7, sp - 7), ty = line.substr(sp + 1);
                    if (!name_ok(n, true)) bad(line, "metric name");
                    if (ty != "counter" && ty != "gauge" && ty != "untyped") bad(line, "type");
                    enter(n, line);
                    auto& f = out[n];
                    f.name = n;
                    if (f.has_type) pbt::fail("announced-twice", std::format("second TYPE for {}", n));
                    if (!f.samples.empty()) bad(line, "TYPE after samples");
                    f.has_type = true;
                    f.type = ty;
                }
                continue;
            }
            size_t i = 0;
            while (i < line.size() && line[i] != '{' && line[i] != ' ') ++i;
            std::string n = line.substr(0, i);
            if (!name_ok(n, true)) bad(line, "metric name");
            enter(n, line);
            Sample s;
            if (i < line.size() && line[i] == '{')
            {
                ++i;
                bool first = true;
                for (;;)
                {
                    if (i >= line.size()) bad(line, "unterminated labels");
                    if (line[i] == '}') { ++i; break; }
                    if (!first)
                    {
                        if (line[i] != ',') bad(line, "label separator");
                        ++i;
                        if (i < line.size() && line[i] == '}') { ++i; break; }
                    }
                    first = false;
                    size_t b = i;
                    while (i < line.size() && line[i] != '=') ++i;
                    std::string k = line.substr(b, i - b);
                    if (!name_ok(k, false)) bad(line, "label name");
                    ++i;
                    if (i >= line.size() || line[i] != '"') bad(line, "label value");
                    ++i;
                    std::string v;
                    for (;;)
                    {
                        if (i >= line.size()) bad(line, "unterminated label value");
                        if (line[i] == '"') { ++i; break; }
                        if (line[i] == '\\')
                        {
                            ++i;
                            if (i >= line.size()) bad(line, "escape");
                            if (line[i] == 'n') v += '\n';
                            else if (line[i] == '\\' || line[i] == '"') v += line[i];
                            else bad(line, "escape in label value");
                            ++i;
                            continue;
                        }
                        v += line[i++];
                    }
                    if (!s.labels.emplace(k, v).second) bad(line, "duplicate label name");
                }
            }
            if (i >= line.size() || line[i] != ' ') bad(line, "no space before the value");
            std::string val = line.substr(i + 1);
            std::string low;
            for (char ch: val) low += static_cast<char>(tolower(ch));
            if (low == "nan") s.value = std::nan("");
            else if (low == "inf" || low == "+inf") s.value = std::numeric_limits<double>::infinity();
            else if (low == "-inf") s.value = -std::numeric_limits<double>::infinity();
            else
            {
                if (val.empty() || val.find_first_not_of("0123456789+-.eE") != std::string::npos) bad(line, "value");
                char* end;
                s.value = strtod(val.c_str(), &end);
                if (*end) bad(line, "value");
            }
            auto& f = out[n];
            f.name = n;
            f.samples.push_back(std::move(s));
        }
        return out;
    }

    struct Proxy : kio::IMetricsCollector
    {
        std::function<void(kio::MetricSnapshot&)> fn;
        void Collect(kio::MetricSnapshot& s) override { if (fn) fn(s); }
    };
    std::vector<std::shared_ptr<Proxy>> proxies()
    {
        static std::vector<std::shared_ptr<Proxy>> p = [] {
            std::vector<std::shared_ptr<Proxy>> v;
            for (int i = 0; i < 5; ++i)
            {
                v.push_back(std::make_shared<Proxy>());
                kio::MetricsRegistry<>::Instance().Register(v.back());
            }
            return v;
        }();
        return p;
    }
    std::string text(pbt::Case& c, size_t max)
    {
        std::string s;
        size_t n = c.small(max);
        for (size_t i = 0; i < n; ++i)
        {
            if (c.chance(1, 3)) s += c.pick<const char*>({"\\", "\"", "\n", "\\n", "{", "}", ",", "=", "#", " ", "\r", "\t", "\xc3\xa9", "\\\\", "\"\n"});
            else s += static_cast<char>(' ' + c.draw(95));
        }
        return s;
    }
    double value(pbt::Case& c)
    {
        switch (c.weighted({2, 3, 3, 2, 2}))
        {
            case 0: return c.pick<double>({0.0, -0.0, 1.0, -1.0, 0.1, 1e-9, 123456.789, 1e100, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308});
            case 1: return static_cast<double>(c.draw(1ULL << 53));
            case 2: return static_cast<double>(c.range(-100000000, 100000000)) / 1000.0;
            case 3: return c.pick<double>({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::nan(""), -std::nan("")});
            default:
            {
                uint64_t b = c.draw(0);
                double d;
                std::memcpy(&d, &b, 8);
                return d;
            }
        }
    }
}  // namespace

static void prop(pbt::Case& c)
{
    auto ps = proxies();
    const size_t ncol = 1 + c.draw(ps.size());
    static const char* names[] = {"kio_worker_bytes_read_total", "a", "_x:y", "http_requests_total", "m1", "A_b_C", ":c", "m2", "m3", "m4", "m5", "m6", "m7"};
    struct Fam { std::string name, help; kio::MetricType type; size_t max; std::vector<Sample> samples; };
    std::vector<std::vector<Fam>> plan(ncol);
    std::vector<std::vector<size_t>> order(ncol);
    // help and type are a function of the name, so that contributions agree
    std::map<std::string, std::pair<std::string, kio::MetricType>> meta;
    size_t odd_text = 0, big = 0, nsamples = 0, shared = 0;
    std::set<std::string> seen;
    for (size_t k = 0; k < ncol; ++k)
    {
        size_t nf = c.draw(1 + static_cast<size_t>(c.size) / 12 + 1);
        std::set<std::string> mine;
        for (size_t f = 0; f < nf; ++f)
        {
            Fam fam;
            fam.name = names[c.draw(13)];
            if (!mine.insert(fam.name).second) continue;
            if (!seen.insert(fam.name).second) ++shared;
            if (!meta.count(fam.name)) meta[fam.name] = {text(c, 40), c.coin() ? kio::MetricType::Gauge : kio::MetricType::Counter};
            fam.help = meta[fam.name].first;
            fam.type = meta[fam.name].second;
            fam.max = kio::kMetricsMaxSamples;
            if (fam.help.find_first_of("\\\n") != std::string::npos) ++odd_text;
            size_t ns = c.draw(5);
            for (size_t i = 0; i < ns; ++i)
            {
                Sample s;
                size_t nl = c.draw(4);
                std::set<std::string> clean;
                for (size_t l = 0; l < nl; ++l)
                {
                    std::string key = c.coin() ? std::string(c.pick<const char*>({"worker_id", "le", "path", "a", "B", "_z9"})) : text(c, 6);
                    // two keys that become the same label name are outside the property
                    if (!clean.insert(kio::SanitizeLabelKey(key)).second) continue;
                    s.labels[key] = text(c, 30);
                    if (s.labels[key].find_first_of("\\\"\n") != std::string::npos) ++odd_text;
                }
                s.value = value(c);
                if (std::fabs(s.value) > 1e6 || s.value != std::floor(s.value)) ++big;
                fam.samples.push_back(std::move(s));
                ++nsamples;
            }
            plan[k].push_back(std::move(fam));
        }
    }
    const bool interleave = c.coin();
    for (size_t k = 0; k < ps.size(); ++k) ps[k]->fn = nullptr;
    for (size_t k = 0; k < ncol; ++k)
        ps[k]->fn = [&plan, k, interleave](kio::MetricSnapshot& snap) {
            if (!interleave)
            {
                for (auto& f: plan[k])
                {
                    auto& fam = snap.BuildFamily(f.name, f.help, f.type);
                    for (auto& s: f.samples) fam.Add(s.labels, s.value);
                }
                return;
            }
            // the documented contract: samples can be added to the returned reference
            std::vector<kio::MetricFamily*> refs;
            for (auto& f: plan[k]) refs.push_back(&snap.BuildFamily(f.name, f.help, f.type));
            for (size_t i = 0; i < plan[k].size(); ++i)
                for (auto& s: plan[k][i].samples) refs[i]->Add(s.labels, s.value);
        };
    const std::string out = kio::MetricsRegistry<>::Instance().Scrape();
    for (auto& p: ps) p->fn = nullptr;
    c.note("{} collectors, {} families ({} shared), {} samples -> {}", ncol, seen.size(), shared, nsamples, pbt::show(out, 400));
    auto got = parse(out);
    // expected families by name
    std::map<std::string, Family> want;
    for (auto& pl: plan)
        for (auto& f: pl)
        {
            auto& w = want[f.name];
            w.name = f.name;
            w.help = f.help;
            w.type = f.type == kio::MetricType::Counter ? "counter" : "gauge";
            for (auto& s: f.samples)
            {
                Sample t;
                for (auto& [k, v]: s.labels)
                {
                    // the documented sanitising rule: every character outside the label alphabet becomes '_'
                    std::string nk;
                    for (size_t i = 0; i < k.size(); ++i)
                    {
                        char ch = k[i];
                        bool a = (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || ch == '_';
                        nk += a || (i > 0 && ch >= '0' && ch <= '9') ? ch : '_';
                    }
                    if (nk.empty()) nk = "_";
                    t.labels[nk] = v;
                }
                t.value = s.value;
                w.samples.push_back(std::move(t));
            }
        }
    for (auto& [n, w]: want)
    {
        auto it = got.find(n);
        REQUIRE(it != got.end(), "family-missing", "{} not announced", n);
        auto& g = it->second;
        REQUIRE(g.has_type && g.type == w.type, "family-type", "{}: type {} expected {}", n, g.type, w.type);
        REQUIRE(g.has_help && g.help == w.help, "help-text", "{}: help {} expected {}", n, pbt::show(g.help), pbt::show(w.help));
        REQUIRE(g.samples.size() == w.samples.size(), "sample-count", "{}: {} samples expected {}", n, g.samples.size(), w.samples.size());
        auto gs = g.samples;
        for (auto& s: w.samples)
        {
            bool found = false;
            bool labels = false;
            double seen_v = 0;
            for (size_t i = 0; i < gs.size(); ++i)
            {
                if (gs[i].labels != s.labels) continue;
                labels = true;
                seen_v = gs[i].value;
                if (gs[i].value == s.value || (std::isnan(gs[i].value) && std::isnan(s.value)))
                {
                    gs.erase(gs.begin() + static_cast<long>(i));
                    found = true;
                    break;
                }
            }
            if (!found) pbt::fail(labels ? "sample-value" : "sample-labels", std::format("{}: sample with value {} {} {}", n, s.value, labels ? "has value" : "is missing; labels differ", labels ? seen_v : 0.0));
        }
    }
    for (auto& [n, g]: got) REQUIRE(want.count(n), "invented-family", "{}", n);
    if (odd_text) c.label("text needing escapes");
    if (shared) c.label("family shared by collectors");
    if (big) c.label("large or fractional values");
    if (interleave) c.label("references kept across BuildFamily");
    if (nsamples > 2 && odd_text && big) c.nontrivial();
}
PBT_MAIN(prop)
