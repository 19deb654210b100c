// Linearizability: does some sequential order, respecting real time, explain the results?
#ifndef VERIF_LIN_H
#define VERIF_LIN_H
#include "mc.h"
#include <functional>
#include <vector>
template <class Op>
struct History
{
    struct E { Op op; int inv, ret; };
    std::vector<E> ev;
    int clock{0};
    std::size_t begin(const Op& o) { mc::ghost(this); ev.push_back({o, clock++, -1}); return ev.size() - 1; }
    void end(std::size_t i, const Op& done) { mc::ghost(this); ev[i].op = done; ev[i].ret = clock++; }
    // step(state, op) returns false if the op with its recorded result is impossible in this state, and advances state.
    template <class State>
    bool linearizable(const State& init, const std::function<bool(State&, const Op&)>& step) const
    {
        std::vector<char> used(ev.size(), 0);
        std::function<bool(const State&, std::size_t)> go = [&](const State& s, std::size_t n) {
            if (n == ev.size()) return true;
            int first_ret = 1 << 30;
            for (std::size_t i = 0; i < ev.size(); ++i) if (!used[i] && ev[i].ret >= 0 && ev[i].ret < first_ret) first_ret = ev[i].ret;
            for (std::size_t i = 0; i < ev.size(); ++i)
            {
                if (used[i] || ev[i].inv > first_ret) continue;
                State t = s;
                if (!step(t, ev[i].op)) continue;
                used[i] = 1;
                if (go(t, n + 1)) { used[i] = 0; return true; }
                used[i] = 0;
            }
            return false;
        };
        return go(init, 0);
    }
};
#endif
