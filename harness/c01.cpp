// C01: loading any bytes is memory safe, terminates and leaves everything usable
#include "wild.h"
#include "hostile.h"
#include "ops.h"
static long live0;
void vh_setup() { vmem_install(); vmem.cap = 16u << 20; ilInit(); iluInit(); reset_settings(); ILuint n[8]; ilGenImages(8, n); ilDeleteImages(8, n); ilBindImage(0); clear_errors(); }
static FileGen source(Rng &r, bool &valid) {
    valid = true; int k = r.below(100); const char *f = vh_arg("fmt", ""); if (*f) { for (auto &g : WILDGENS) if (!strcmp(f, g.name)) return gen_wild(r, f); return gen_file(r, f); } if (k < 33) return gen_file(r); if (k < 88) return gen_wild(r); FileGen g;
    if (k < 96) { const SaveDef &s = SAVES[r.below(sizeof SAVES / sizeof *SAVES)]; vh_phase("saver"); Img m = save_img(r, s); ILuint id = ilGenImage(); ilBindImage(id); put(m); Bytes b(300000); size_t n = ilSaveL(s.t, b.data(), (ILuint)b.size()); ilBindImage(0); ilDeleteImage(id); clear_errors(); if (n && n <= b.size()) { b.resize(n); g.b = b; } g.type = s.t; g.ext = s.ext; g.name = std::string("saved-") + s.n; return g; }
    valid = false; g.type = 0x420 + r.below(0x34); g.ext = "bin"; g.name = "bytes"; g.b.resize(r.chance(20) ? r.below(4) : r.below(r.chance(20) ? 4000 : 120)); int c = r.chance(30) ? r.below(256) : -1; for (auto &x : g.b) x = c < 0 ? r.u32() : c; return g;
}
void vh_case(Rng &r, uint64_t) {
    vmem.fail_after = -1; vio_off(); vio_reset(); clear_errors(); reset_settings(); bool valid; FileGen g = source(r, valid), o; if (r.chance(25)) { bool v; o = source(r, v); if (r.chance(50)) o.b.clear(); } Bytes b = g.b; bool pal = r.chance(6); std::string ext = g.ext, mut; if (pal) { b = rnd_palette_file(r, ext); g.name = "palette"; if (r.chance(10)) ext = r.pick({"pal", "act", "col", "plt", "pcx"}); }
    if (o.b.empty()) o.b = b; mut = hostile(r, b, o.b); if (b.size() > 8 && b[1] == 'P' && b[2] == 'N' && b[3] == 'G' && r.chance(80)) png_crcs(b); if (b.size() > 8 && b[0] == 0x8a && b[1] == 'M' && r.chance(80)) png_crcs(b);
    std::string fam = g.name.substr(0, g.name.find(' ')), path = std::string(vh_tmpdir()) + "/h." + ext; Settings st = rnd_settings(r, r.chance(60) ? 0 : r.range(1, 3)); st.apply(); clear_errors(); bool fault = r.chance(6); vh_input(b.data(), b.size()); bool any = false, filew = false; auto need = [&] { if (!filew) write_file(path, b); filew = true; };
    live0 = vmem.live; long failed0 = vmem.failed; ILuint id = ilGenImage(); auto fresh = [&] { ilBindImage(id); ilTexImage(2, 2, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL); clear_errors(); };
    static const char *HOW[] = {"memory", "handle", "name", "callback-handle", "auto-memory", "auto-name", "auto-handle", "other-type", "valid", "determine", "palette", "ilu"}; std::vector<int> hows = {0}; if (pal) hows = {10}; for (int i = r.range(1, 3); i > 0; i--) hows.push_back(r.below(12)); ILenum other = r.chance(95) ? 0x420 + r.below(0x34) : r.u32();
    for (int how : hows) {
        const char *H = HOW[how]; vh_phase("%s-%s", fam.c_str(), H); vh_context("%s%s, %zu bytes, %s%s%s", g.name.c_str(), mut.c_str(), b.size(), H, st.v.empty() ? "" : ", settings", st.str().c_str()); fresh(); bool ok = false, load = true; Bytes c(b); char dummy; void *p = c.empty() ? (void *)&dummy : c.data(); ILuint n = (ILuint)c.size(); if (fault) { vmem.fail_after = r.below(r.chance(50) ? 4 : 20); vmem_sticky = r.chance(50); } ILuint cur = id;
        switch (how) {
        case 0: ok = ilLoadL(g.type, p, n); break;
        case 1: case 6: { need(); FILE *f = fopen(path.c_str(), "rb"); if (!f) vh_error("cannot open %s", path.c_str()); if (r.chance(20)) fseek(f, r.below(c.size() + 20), SEEK_SET); ok = ilLoadF(how == 1 ? g.type : IL_TYPE_UNKNOWN, f); fclose(f); break; }
        case 2: need(); ok = ilLoad(g.type, path.c_str()); break;
        case 3: { vio_on(); vread_garbage = r.chance(30); VFile *f = vhandle(b, r.chance(20) ? r.below(c.size() + 1) : 0); ok = ilLoadF(r.chance(70) ? g.type : IL_TYPE_UNKNOWN, f); vio_off(); if (!vmisuse.empty()) vh_fail(("handles-" + fam).c_str(), "%s", vmisuse.c_str()); vio_reset(); break; }
        case 4: ok = ilLoadL(IL_TYPE_UNKNOWN, p, n); break;
        case 5: need(); ok = r.chance(50) ? ilLoadImage(path.c_str()) : ilLoad(IL_TYPE_UNKNOWN, path.c_str()); break;
        case 7: vh_phase("type%x-%s", other, H); ok = ilLoadL(other, p, n); break;
        case 8: { load = false; ILenum t = r.chance(60) ? g.type : other; vh_phase("type%x-%s", t, H); ILenum a = ilIsValidL(t, p, n); need(); ilIsValid(t, path.c_str()); FILE *f = fopen(path.c_str(), "rb"); ilIsValidF(t, f); long at = ftell(f); fclose(f); if (at) vh_soft("valid-position", "ilIsValidF leaves the handle at %ld", at); vh_count(a ? "valid" : "invalid"); break; }
        case 9: { load = false; ILenum t = ilDetermineTypeL(p, n); need(); ilDetermineType(path.c_str()); FILE *f = fopen(path.c_str(), "rb"); ilDetermineTypeF(f); fclose(f); vh_count(t ? "determined" : "undetermined"); break; }
        case 10: { load = false; need(); bool k = ilLoadPal(path.c_str()); ILenum e = ilGetError(); if (!k && e == IL_NO_ERROR) vh_fail(("silent-palette-" + ext).c_str(), "ilLoadPal fails without an error"); vh_count(k ? "palette_loaded" : "palette_refused"); break; }
        case 11: { load = false; need(); ILuint q = iluLoadImage(path.c_str()); if (q) { std::string w = wellformed(ilGetCurImage(), 0); if (!w.empty()) vh_fail(("malformed-" + fam).c_str(), "iluLoadImage: %s", w.c_str()); if (q != id) ilDeleteImage(q); } ilBindImage(id); break; } }
        vmem.fail_after = -1; ILenum e = ilGetError(); clear_errors();
        if (load) {
            if (ilGetInteger(IL_CUR_IMAGE) != (ILint)cur) vh_fail(("bound-" + fam).c_str(), "another image is bound afterwards"); if (!ok && e == IL_NO_ERROR) vh_fail(("silent-" + fam + "-" + H).c_str(), "%s: fails without an error", g.name.c_str());
            int k = 0; std::string w = wellformed(ilGetCurImage(), 0, &k); if (!w.empty()) vh_fail(("malformed-" + fam + "-" + H).c_str(), "%s, after %s: %s", g.name.c_str(), ok ? "success" : "failure", w.c_str()); vh_count("images_checked", k);
            if (ok && !too_big(ilGetCurImage())) { // usable: every byte of it can be read, and it can be worked with
                volatile uint64_t h = nodehash(snap(ilGetCurImage())); (void)h; if (r.chance(25)) { vh_phase("%s-%s-use", fam.c_str(), H); switch (r.below(5)) { case 0: ilConvertImage(IL_RGBA, IL_UNSIGNED_BYTE); break; case 1: iluFlipImage(); break; case 2: { Bytes q(200000); ilSaveL(IL_TGA, q.data(), (ILuint)q.size()); break; } case 3: iluScale(5, 7, 1); break; default: ilActiveMipmap(1); iluRotate(90); ilBindImage(id); } clear_errors(); vh_count("used"); } }
            vh_count(ok ? "loaded" : "refused"); if (ok) any = true; if (how == 0) vh_count(((ok ? "loaded_" : "refused_") + fam).c_str()); if (fault) vh_count("faults"); }
        vh_count((std::string("via_") + H).c_str()); }
    ilBindImage(0); ilDeleteImage(id); if (filew) unlink(path.c_str()); vio_reset(); clear_errors(); reset_settings();
    if (vmem.live > live0 && !(vmem.failed > failed0 && b.size() > 3 && (b[0] == 0x8a || b[0] == 0x8b))) /* libmng loses blocks when short of memory */ vh_fail(("kept-" + fam).c_str(), "%ld blocks more after the image is deleted", vmem.live - live0);
    if (r.chance(12)) { // the library still works
        vh_phase("afterwards"); FileGen k; do k = gen_file(r); while (k.frames.empty()); ILuint x = ilGenImage(); ilBindImage(x); if (!load_mem(k.type, k.b)) vh_fail(("afterwards-refused-" + fam).c_str(), "after %s%s: %s does not load", g.name.c_str(), mut.c_str(), k.name.c_str()); std::string ek, d = filediff(x, k, ek); if (!d.empty()) vh_fail(("afterwards-wrong-" + fam).c_str(), "after %s%s: %s: %s", g.name.c_str(), mut.c_str(), k.name.c_str(), d.c_str()); ilBindImage(0); ilDeleteImage(x); clear_errors(); vh_count("afterwards"); }
    vh_count("cases"); if (mut.empty()) vh_count("undamaged"); vh_distinct(vh_hash(b.data(), b.size(), vh_mix(7, g.type))); vh_sample("%s%s, %zu bytes: %s", g.name.c_str(), mut.c_str(), b.size(), any ? "loaded" : "refused");
}
