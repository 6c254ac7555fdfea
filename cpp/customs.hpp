// Explorations that are not histories of one state: random outcomes of default moves (C06), interleavings of
// several states (C11), iterator walks (C16).
#pragma once
#include "engine.hpp"
#include "scenarios.hpp"

namespace vp {

struct Ctx {
    int tier = 0;
    Shared* sh = nullptr;
    Stats st;
    std::vector<Failure> fails;
    std::string cur;
    std::set<std::string> sigs;
    void hist(const std::string& h) {
        cur = h;
        if (sh) {
            size_t n = std::min(h.size(), sizeof(sh->hist) - 1);
            memcpy((void*)sh->hist, h.data(), n);
            sh->hist[n] = 0;
            sh->states = st.states;
            sh->transitions = st.transitions;
        }
    }
    void fail(unsigned p, const std::string& kind, const std::string& rec, const std::string& detail) {
        if (!sigs.insert(kind + rec).second) return;
        fails.push_back({p, kind, rec, detail, cur});
    }
    bool stop() const { return fails.size() >= 3; }
};

struct Custom {
    std::string name;
    unsigned props;
    std::function<void(Ctx&)> run;
};

std::vector<Custom> customs(int tier);
void removal_customs(std::vector<Custom>& out, int tier);
__attribute__((weak)) void utils_customs(std::vector<Custom>& out, int tier);

}  // namespace vp
