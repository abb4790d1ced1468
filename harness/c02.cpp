// C02: whatever is called, everything reachable from every image stays well formed
#include "ops.h"
void vh_setup() { vmem_install(); ilInit(); iluInit(); }
static void check(World &w, const std::string &trace, const char *op, bool all) {
    ILimage *I = ilGetCurImage(); if (!I) vh_fail((std::string("nobound-") + op).c_str(), "no image is bound; %s", trace.c_str()); int n = 0; std::string s = wellformed(I, 0, &n); if (!s.empty()) vh_fail((std::string("malformed-") + op).c_str(), "the bound image: %s; %s", s.c_str(), trace.c_str()); vh_count("images_checked", n);
    if (all) { // every image by its name, and what the queries say about the bound one
        ILuint cur = ilGetInteger(IL_CUR_IMAGE); bool base = false; for (int i = 0; i < SLOTS; i++) { n = 0; if (!ilIsImage(w.slot[i])) vh_fail("lostname", "name %u is no image; %s", w.slot[i], trace.c_str()); if (w.slot[i] == cur) base = true; }
        if (!base) vh_fail((std::string("binding-") + op).c_str(), "name %u is bound; %s", cur, trace.c_str());
        size_t sz = (size_t)ilGetInteger(IL_IMAGE_WIDTH) * ilGetInteger(IL_IMAGE_HEIGHT) * ilGetInteger(IL_IMAGE_DEPTH) * ilGetInteger(IL_IMAGE_BPP); if (sz != (size_t)ilGetInteger(IL_IMAGE_SIZE_OF_DATA) || ilGetInteger(IL_IMAGE_BPP) != ilGetInteger(IL_IMAGE_CHANNELS) * ilGetInteger(IL_IMAGE_BPC) || !ilGetData()) vh_fail((std::string("queries-") + op).c_str(), "the queries say %d bytes for %zu; %s", ilGetInteger(IL_IMAGE_SIZE_OF_DATA), sz, trace.c_str());
        for (int i = 0; i < SLOTS; i++) { ilBindImage(w.slot[i]); n = 0; s = wellformed(ilGetCurImage(), 0, &n); if (!s.empty()) vh_fail((std::string("malformed-") + op).c_str(), "image %d: %s; %s", i, s.c_str(), trace.c_str()); vh_count("images_checked", n); } w.bind(w.cur); }
}
void vh_case(Rng &r, uint64_t) {
    vmem.fail_after = -1; vmem_sticky = true; vio_off(); vio_reset(); clear_errors(); reset_settings(); World w = world_new(r); int n = r.range(4, 40), fams = r.chance(60) ? 0x3ff : (r.below(0x400) | F_IMG | F_NAME); std::string trace; uint64_t h = 1; bool faults = r.chance(30);
    for (int i = 0; i < n; i++) {
        Op o = rnd_op(r, fams); std::string line = " | " + o.name; std::string key = o.name.substr(0, o.name.find_first_of(" 0123456789"));
        if (o.fam == F_LOAD) key = "load-" + o.name.substr(5, o.name.find(' ', 5) - 5); if (o.fam == F_SAVE) { key = o.name.substr(0, o.name.find(" to ")); std::replace(key.begin(), key.end(), ' ', '-'); }
        bool fault = faults && !o.nofault && r.chance(30); if (fault) { vmem.fail_after = r.below(r.chance(60) ? 4 : 30); vmem_sticky = r.chance(50); char b[60]; snprintf(b, 60, " (allocation %ld fails%s)", vmem.fail_after, vmem_sticky ? " and later ones" : ""); line += b; }
        trace += line; if (trace.size() > 3000) trace = trace.substr(trace.size() - 3000); vh_context("%s; bound: %s", trace.c_str() + (trace.size() > 700 ? trace.size() - 700 : 0), ilGetCurImage() ? from_struct(ilGetCurImage()).str().c_str() : "none"); vh_phase("%s", key.c_str()); if (o.in.size()) vh_input(o.in.data(), o.in.size());
        Out u; bool threw = false; try { o.run(w, u); } catch (CaseAbort &) { threw = true; } vmem.fail_after = -1; vio_off(); vio_reset(); if (threw) throw CaseAbort(); h = vh_mix(h, vh_hash(o.name.data(), o.name.size())); vh_phase("after-%s", key.c_str()); u.errors();
        vh_count("ops"); vh_count(("op_" + key).c_str()); if (!u.ok) vh_count("failed_ops"); if (fault) vh_count("fault_ops");
        check(w, trace, key.c_str(), r.chance(35)); clear_errors(); if (r.chance(30)) w.bind(w.cur); world_trim(w, r);
    }
    check(w, trace, "end", true); vh_distinct(h); vh_sample("%s", trace.substr(0, 900).c_str()); reset_settings(); for (int i = 0; i < 20; i++) ilPopAttrib(); clear_errors(); world_free(w);
}
