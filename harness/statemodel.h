// A model of a state machine with named settings and an attribute stack; checked after every step.
#pragma once
#include "vh.h"
struct Setting {
    std::string name; int group;                         // group bit saved by push (0: none)
    std::function<void(int64_t)> set; std::function<int64_t()> get;
    std::vector<int64_t> valid, invalid; std::vector<std::function<int64_t()>> aliases; bool stacked = true; ILenum bad_err = 0;
};
struct StateModel {
    std::vector<Setting> s; int depth_max; ILenum e_over, e_under; int all_bits; std::vector<int> groupbits;
    std::function<void(int)> push; std::function<void()> pop;
    std::vector<std::pair<std::string, std::function<void()>>> noise;     // operations that must not change any setting
    std::vector<std::pair<std::string, std::function<void()>>> badops;    // unknown modes: one error, no change
    std::vector<std::vector<int64_t>> saved; std::vector<int64_t> cur;
    std::string trace;
    std::vector<int64_t> read() { std::vector<int64_t> v; for (auto &x : s) v.push_back(x.get()); return v; }
    void noerr(const char *what) { ILenum e = ilGetError(); if (e != IL_NO_ERROR) vh_fail("state-error", "error 0x%x after a valid %s; trace:%s", e, what, trace.c_str()); }
    void verify(const char *key) {
        for (size_t i = 0; i < s.size(); i++) {
            int64_t g = s[i].get(); vh_count("readbacks");
            if (g != cur[i]) vh_fail((std::string(key) + ":" + s[i].name).c_str(), "%s reads %lld, the model says %lld; trace:%s", s[i].name.c_str(), (long long)g, (long long)cur[i], trace.c_str());
            for (auto &al : s[i].aliases) { int64_t h = al(); if (h != cur[i]) vh_fail((std::string(key) + "-alias:" + s[i].name).c_str(), "%s read another way gives %lld, the model says %lld; trace:%s", s[i].name.c_str(), (long long)h, (long long)cur[i], trace.c_str()); }
        }
        noerr("query");
    }
    void run(Rng &r, int n) {
        while (ilGetError() != IL_NO_ERROR) {}
        while (true) { pop(); if (ilGetError() != IL_NO_ERROR) break; }   // back to the bottom
        while (ilGetError() != IL_NO_ERROR) {}
        cur = read(); saved.clear(); trace.clear(); uint64_t h = 7; int maxd = 0;
        noerr("initial query");
        int ppush = r.pick({3, 10, 25, 45}), ppop = r.pick({3, 10, 25});
        for (int k = 0; k < n; k++) {
            int z = r.below(100); char b[200];
            if (z < ppush) {
                int bits = r.chance(30) ? all_bits : 0; if (!bits) for (int g : groupbits) if (r.chance(50)) bits |= g;
                vh_phase("push"); push(bits); snprintf(b, 200, " push(0x%x)", bits); trace += b; h = vh_mix(h, bits + 5);
                if ((int)saved.size() >= depth_max) {
                    vh_count("overflows"); ILenum e = ilGetError(); if (e != e_over) vh_fail("push-overflow", "push at full depth raised 0x%x", e);
                    verify("overflow-changed");
                } else {
                    noerr("push"); saved.push_back(cur); std::vector<int64_t> now = read(); vh_count("pushes");
                    for (size_t i = 0; i < s.size(); i++) if ((!s[i].stacked || (s[i].group & bits)) && now[i] != cur[i])
                        vh_fail(("push-lost:" + s[i].name).c_str(), "%s was %lld before the push that saves it, %lld after; trace:%s", s[i].name.c_str(), (long long)cur[i], (long long)now[i], trace.c_str());
                    cur = now; noerr("query after push");
                }
                if ((int)saved.size() > maxd) maxd = saved.size();
            } else if (z < ppush + ppop) {
                vh_phase("pop"); pop(); trace += " pop"; h = vh_mix(h, 3);
                if (saved.empty()) { vh_count("underflows"); ILenum e = ilGetError(); if (e != e_under) vh_fail("pop-underflow", "pop at the bottom raised 0x%x", e); verify("underflow-changed"); }
                else { noerr("pop"); std::vector<int64_t> now = cur; cur = saved.back(); saved.pop_back(); for (size_t i = 0; i < s.size(); i++) if (!s[i].stacked) cur[i] = now[i]; verify("pop-restore"); vh_count("pops"); }
            } else {
                int q = r.below(100);
                if (q < 70) {
                    size_t i = r.below(s.size()); int64_t v = r.pick(s[i].valid); vh_phase("set-%s", s[i].name.c_str());
                    snprintf(b, 200, " %s=%lld", s[i].name.c_str(), (long long)v); trace += b; h = vh_mix(h, i * 1000 + v);
                    s[i].set(v); cur[i] = v; noerr("set"); verify("set"); vh_count("valid_sets");
                } else if (q < 88) {
                    size_t i = r.below(s.size()); if (s[i].invalid.empty()) continue; int64_t v = r.pick(s[i].invalid); vh_phase("badset-%s", s[i].name.c_str());
                    snprintf(b, 200, " %s=BAD %lld", s[i].name.c_str(), (long long)v); trace += b; h = vh_mix(h, i * 1000 + v);
                    s[i].set(v); ILenum e = ilGetError(); if (e == IL_NO_ERROR) vh_fail(("accepted:" + s[i].name).c_str(), "%s accepted the invalid value %lld; trace:%s", s[i].name.c_str(), (long long)v, trace.c_str());
                    if (s[i].bad_err && e != s[i].bad_err) vh_fail(("wrong-error:" + s[i].name).c_str(), "%s raised 0x%x for the invalid value %lld", s[i].name.c_str(), e, (long long)v);
                    if (ilGetError() != IL_NO_ERROR) vh_fail(("two-errors:" + s[i].name).c_str(), "%s raised more than one error for the invalid value %lld", s[i].name.c_str(), (long long)v);
                    verify("invalid-changed"); vh_count("invalid_sets");
                } else if (q < 93 && badops.size()) {
                    auto &o = badops[r.below(badops.size())]; vh_phase("%s", o.first.c_str()); trace += " " + o.first; o.second();
                    if (ilGetError() == IL_NO_ERROR) vh_fail(("no-error:" + o.first).c_str(), "%s raised no error", o.first.c_str());
                    if (ilGetError() != IL_NO_ERROR) vh_fail(("two-errors:" + o.first).c_str(), "%s raised two errors", o.first.c_str());
                    verify("badop-changed"); vh_count("unknown_modes");
                } else if (noise.size()) {
                    auto &o = noise[r.below(noise.size())]; vh_phase("%s", o.first.c_str()); trace += " " + o.first; h = vh_mix(h, 99);
                    o.second(); while (ilGetError() != IL_NO_ERROR) {} verify("noise-changed"); vh_count("operations_between");
                }
            }
            if (trace.size() > 3000) trace = "..." + trace.substr(trace.size() - 1500);
        }
        while (!saved.empty()) { pop(); noerr("pop"); std::vector<int64_t> now = cur; cur = saved.back(); saved.pop_back(); for (size_t i = 0; i < s.size(); i++) if (!s[i].stacked) cur[i] = now[i]; verify("final-pop"); vh_count("pops"); }
        vh_count("sequences"); if (n > 3) vh_distinct(h); if (maxd >= depth_max) vh_count("full_depth_sequences");
        vh_sample("%d steps, depth %d:%s", n, maxd, trace.substr(0, 400).c_str());
    }
};
