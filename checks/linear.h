// Linearizability of one register (put, delete, get) by exhaustive search with memory.
#pragma once
#include <cstdint>
#include <algorithm>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace lin
{
    using Value = std::optional<std::string>;
    struct Op
    {
        int kind = 0;             // 0 write (put, or delete when the value is absent), 1 read
        Value v;
        uint64_t inv = 0, res = UINT64_MAX;   // res UINT64_MAX: it may or may not have taken effect
        std::string what;
    };
    struct Search
    {
        std::vector<Op> ops;
        std::set<std::pair<std::vector<bool>, int>> seen;
        uint64_t budget = 2'000'000;
        bool out_of_budget = false;

        // state: index of the write in effect, -1: nothing
        bool go(std::vector<bool>& done, int state, size_t left)
        {
            if (left == 0) return true;
            if (budget == 0) { out_of_budget = true; return true; }
            --budget;
            if (!seen.insert({done, state}).second) return false;
            uint64_t min_res = UINT64_MAX;
            for (size_t i = 0; i < ops.size(); ++i)
                if (!done[i]) min_res = std::min(min_res, ops[i].res);
            for (size_t i = 0; i < ops.size(); ++i)
            {
                if (done[i] || ops[i].inv > min_res) continue;
                int next = state;
                if (ops[i].kind == 0) next = static_cast<int>(i);
                else if (ops[i].v != (state < 0 ? Value() : ops[static_cast<size_t>(state)].v)) continue;
                done[i] = true;
                if (go(done, next, left - (ops[i].res != UINT64_MAX ? 1 : 0))) return true;
                done[i] = false;
            }
            return false;
        }
        bool ok()
        {
            // pending reads mean nothing
            std::erase_if(ops, [](const Op& o) { return o.kind == 1 && o.res == UINT64_MAX; });
            std::vector<bool> done(ops.size());
            size_t need = 0;
            for (auto& o: ops) need += o.res != UINT64_MAX;
            return go(done, -1, need);
        }
    };
    inline bool linearizable(std::vector<Op> ops)
    {
        std::sort(ops.begin(), ops.end(), [](const Op& a, const Op& b) { return a.inv < b.inv; });
        Search s;
        s.ops = std::move(ops);
        return s.ok();
    }
}  // namespace lin
