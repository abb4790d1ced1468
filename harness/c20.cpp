// C20: an operation gives the same whatever memory held before and whatever happened before
#include "ops.h"
void vh_setup() { vmem_install(); ilInit(); iluInit(); }
struct Res { std::string out; std::vector<Node> img; std::vector<std::string> extra; bool ok; };
static std::string extra(const ILimage *I) { char b[200]; snprintf(b, 200, "dxtc %x %u %llx cube %x", I->DxtcFormat, I->DxtcSize, I->DxtcData ? (unsigned long long)vh_hash(I->DxtcData, I->DxtcSize) : 0, I->CubeFlags); return b; }
static Res perform(uint64_t wseed, const Settings &set, const std::vector<Op> &ops, int fill, int stack) {
    Res q; vmem.fill = fill; reset_settings(); srand(1); World w; { Rng r(wseed); w = world_new(r); } ILuint start = ilGetInteger(IL_CUR_IMAGE); set.apply(); clear_errors(); Out u; (void)start;
    for (auto &o : ops) { scribble_stack(stack); u.f("%s", o.name.c_str()); o.run(w, u); u.errors(); vio_off(); vio_reset(); }
    q.out = u.s; q.ok = u.ok; q.extra.push_back(extra(ilGetCurImage())); q.img.push_back(snap(ilGetCurImage())); for (int i = 0; i < SLOTS; i++) { ilBindImage(w.slot[i]); q.img.push_back(snap(ilGetCurImage())); q.extra.push_back(extra(ilGetCurImage())); } world_free(w); reset_settings(); return q;
}
void vh_case(Rng &r, uint64_t) {
    vmem.fail_after = -1; vmem_sticky = true; vio_off(); vio_reset(); clear_errors(); uint64_t wseed = r.next(); Settings set = rnd_settings(r, r.chance(40) ? 0 : r.range(1, 4)); int fams = F_LOAD | F_SAVE | F_CONV | F_IMG | F_ILU | F_DXT | F_PAL | F_QUERY; if (const char *f = vh_arg("fams", NULL)) fams = atoi(f); std::vector<Op> ops; int n = r.chance(60) ? 1 : r.range(2, 4); for (int i = 0; i < n; i++) ops.push_back(rnd_op(r, fams));
    std::string names; for (auto &o : ops) names += " | " + o.name; std::string key = ops[0].name.substr(0, ops[0].name.find_first_of(" 0123456789")); if (ops[0].fam == F_LOAD) key = "load-" + ops[0].name.substr(5, ops[0].name.find(' ', 5) - 5); if (ops[0].fam == F_SAVE) { key = ops[0].name.substr(0, ops[0].name.find(" to ")); std::replace(key.begin(), key.end(), ' ', '-'); }
    vh_phase("%s", key.c_str()); vh_context("settings:%s; %s", set.str().c_str(), names.c_str()); if (ops[0].in.size()) vh_input(ops[0].in.data(), ops[0].in.size());
    Res a = perform(wseed, set, ops, 0xA5, 0x5A);
    // another history
    int hist = r.below(4); std::string hs; if (hist) { vmem.fill = r.pick({0x00, 0xff, 0x7f}); Rng q(r.next()); World w = world_new(q); int k = r.range(1, 8); for (int i = 0; i < k; i++) { Op o = rnd_op(q, hist == 1 ? F_LOAD : hist == 2 ? F_LOAD | F_SAVE | F_ILU | F_PAL | F_DXT : 0x3ff); bool fault = !o.nofault && q.chance(15); if (fault) { vmem.fail_after = q.below(10); } Out u; vh_phase("history %s", o.name.substr(0, o.name.find(' ')).c_str()); o.run(w, u); vmem.fail_after = -1; vio_off(); vio_reset(); if (hist != 3 || q.chance(70)) clear_errors(); world_trim(w, q); hs += " | " + o.name; } for (int i = 0; i < 40; i++) ilPopAttrib(); clear_errors(); world_free(w); vh_count("histories"); vh_phase("%s", key.c_str()); }
    Res b = perform(wseed, set, ops, r.pick({0x3C, 0x00, 0xff, 0x01}), r.pick({0x00, 0xC3, 0xff, 0x01})); vmem.fill = 0xA5;
    auto say = [&](const char *k, const std::string &d) { vh_fail((std::string(k) + "-" + key).c_str(), "%s; settings:%s;%s; in between:%s", d.c_str(), set.str().c_str(), names.c_str(), hs.c_str()); };
    for (size_t i = 0; i < a.img.size(); i++) { std::string d = nodediff(a.img[i], b.img[i]); if (!d.empty()) say("pixels", (i ? "image " + std::to_string(i - 1) : std::string("the bound image")) + " differs the second time: " + d); if (a.extra[i] != b.extra[i]) say("state", a.extra[i] + " becomes " + b.extra[i]); }
    if (a.out != b.out) { size_t i = 0; while (i < a.out.size() && i < b.out.size() && a.out[i] == b.out[i]) i++; size_t from = i > 60 ? i - 60 : 0; say("output", "\"..." + a.out.substr(from, 160) + "\" the second time is \"..." + b.out.substr(from, 160) + "\""); }
    uint64_t h = vh_hash(a.out.data(), a.out.size()); for (auto &x : a.img) h = vh_mix(h, nodehash(x)); vh_distinct(h); vh_count("repeated"); vh_count(a.ok ? "ok" : "failed"); vh_count(("op_" + key).c_str()); vh_sample("%s", names.c_str());
}
