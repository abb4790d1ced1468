// C18: what the library obtains it gives back, once
#include "ops.h"
#include <dirent.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
static void warm() { vmem.fail_after = -1; ilInit(); iluInit(); reset_settings(); ILuint n[64]; ilGenImages(64, n); ilDeleteImages(64, n); ilBindImage(0); clear_errors(); }
void vh_setup() { vmem_install_tracked(); warm(); }
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) vh_error("cannot list descriptors"); while (readdir(d)) n++; closedir(d); return n; }
static ILenum ILAPIENTRY nothing(ILconst_string) { return IL_FALSE; }
static std::string base_key(const Op &o) { std::string key = o.name.substr(0, o.name.find_first_of(" 0123456789")); if (o.fam == F_LOAD || o.name.substr(0, 5) == "load ") key = "load-" + o.name.substr(5, o.name.find(' ', 5) - 5); if (o.fam == F_SAVE) { key = o.name.substr(0, o.name.find(" to ")); std::replace(key.begin(), key.end(), ' ', '-'); } return key; }
void vh_case(Rng &r, uint64_t) {
    vmem_sticky = true; vio_off(); vio_reset(); int fams = 0x3ff; if (const char *f = vh_arg("fams", NULL)) fams = atoi(f); else if (r.chance(30)) fams = F_LOAD | F_SAVE; std::vector<Op> ops; int n = r.chance(50) ? 1 : r.range(2, 8); struct Flt { long k; bool sticky; }; std::vector<Flt> flt; bool faults = r.chance(45); std::string names;
    bool vf = r.chance(10); long vfk = r.below(20); (void)vf; (void)vfk;
    for (int i = 0; i < n; i++) { ops.push_back(rnd_op(r, fams)); Flt f = {-1, false}; if (faults && !ops[i].nofault && r.chance(60)) { f.k = r.below(r.chance(60) ? 5 : 40); f.sticky = r.chance(50); } flt.push_back(f); names += " | " + ops[i].name; if (f.k >= 0) names += " (allocation " + std::to_string(f.k) + " fails" + (f.sticky ? " and later ones)" : ")"); }
    std::string key = base_key(ops[n - 1]); bool down = r.chance(25), keep = down && r.chance(50), handlers = r.chance(10); uint64_t wseed = r.next(); int pend = r.chance(20);
    vh_phase("%s", key.c_str()); vh_context("%s%s", names.size() > 2500 ? names.c_str() + names.size() - 2500 : names.c_str(), down ? " | shut down" : ""); if (ops[n - 1].in.size()) vh_input(ops[n - 1].in.data(), ops[n - 1].in.size());
    auto round = [&](bool judge) {
        long live0 = vmem.live, ser = vmem_serial(); vmem_foreign = 0;
        {   World w; { Rng q(wseed); w = world_new(q); } if (handlers) { ilRegisterLoad("zzq", nothing); ilRegisterSave("zzq", nothing); ilRegisterLoad("zzr", nothing); } { Out u;
            for (int i = 0; i < n; i++) { vmem.fail_after = flt[i].k; vmem_sticky = flt[i].sticky; ops[i].run(w, u); vmem.fail_after = -1; vio_off(); vio_reset(); if (!pend) u.errors(); else u.s.clear(); Rng q(1); world_trim(w, q); } if (judge) { vh_count("ops", n); vh_count(u.ok ? "ok" : "failed"); } }
            if (faults && names.find("load mng") != std::string::npos) { long c = vmem_drop(ser, "mng_init_rowproc"); if (c) vh_count("lost_by_libmng", c); } // libmng does not give back the first of two rows when there is no memory for the second
            if (handlers) { ilRemoveLoad("zzq"); ilRemoveSave("zzq"); ilRemoveLoad("zzr"); }
            if (keep) { iluRegioniv(NULL, 0); /* ILU's own, has no shutdown */ ilShutDown(); } else { ilBindImage(0); ilDeleteImages(SLOTS, w.slot); } clear_errors(); }
        if (!keep) { for (int i = 0; i < 20; i++) ilPopAttrib(); reset_settings();
            if (judge && (vmem.live > live0 || (vmem.live < live0 && !faults))) /* short of memory a name may not be kept for reuse */ { std::string k, l = vmem_leaks(ser, 6, &k); vh_fail((std::string(vmem.live > live0 ? "kept:" : "lost:") + (vmem.live > live0 ? k : key)).c_str(), "%ld blocks before, %ld after; new ones: %s;%s", live0, vmem.live, l.c_str(), names.c_str()); }
            if (down) ilShutDown(); }
        if (judge && vmem_foreign) vh_fail(("foreign:" + key).c_str(), "a block was released that was never obtained;%s", names.c_str());
        if (down) { if (judge) vh_count("shut_down"); if (vmem.live) { std::string k, l = vmem_leaks(0, 6, &k); if (judge) vh_fail(("shutdown:" + k).c_str(), "%ld blocks are still there after ilShutDown: %s;%s", vmem.live, l.c_str(), names.c_str()); } warm(); }
    };
    int f0 = fds(); round(true); int f1 = fds(); if (f1 != f0) vh_fail(("descriptors:" + key).c_str(), "%d open files become %d;%s", f0, f1, names.c_str());
    // memory that does not come from the registered functions: it must not grow each time
    if (__sanitizer_get_current_allocated_bytes) { size_t b0 = __sanitizer_get_current_allocated_bytes(); round(false); size_t b1 = __sanitizer_get_current_allocated_bytes(); if (b1 > b0) { round(false); size_t b2 = __sanitizer_get_current_allocated_bytes(); round(false); size_t b3 = __sanitizer_get_current_allocated_bytes(); if (b2 > b1 && b3 > b2) vh_fail(("grows:" + key).c_str(), "each time %zu, %zu, %zu bytes more;%s", b1 - b0, b2 - b1, b3 - b2, names.c_str()); } vh_count("repeated"); }
    uint64_t h = vh_hash(names.data(), names.size()); vh_distinct(vh_mix(h, wseed)); vh_count(("op_" + key).c_str()); if (faults) vh_count("faults"); vh_sample("%s", names.substr(0, 900).c_str());
}
