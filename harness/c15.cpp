// C15: the same bytes load the same from every source
#include "io.h"
#include "wild.h"
#include <unistd.h>
void vh_setup() { vmem_install(); ilInit(); iluInit(); }
static std::string upcase(Rng &r, std::string s) { int m = r.below(3); for (char &c : s) if (m == 1 || (m == 2 && r.chance(50))) c = toupper(c); return s; }
void vh_case(Rng &r, uint64_t) {
    vmem.fail_after = -1; vio_off(); vio_reset(); clear_errors(); bool wild = atoi(vh_arg("wild", "0")); FileGen g; do g = wild ? gen_wild(r, vh_arg("fmt", "")) : gen_file(r, vh_arg("fmt", "")); while (g.ext.empty()); Bytes b = g.b; std::string mut; bool whole = r.chance(60); if (!whole) mut = mutate(r, b); else if (r.chance(5)) { b.clear(); mut = " empty"; whole = false; }
    std::string fam = g.name.substr(0, g.name.find(' ')); vh_context("%s %dx%d%s", g.name.c_str(), g.w(), g.h(), mut.c_str()); vh_input(b.data(), b.size()); vh_phase("memory");
    ilSetInteger(IL_PCD_PICNUM, g.picnum); ILuint ids[2]; ilGenImages(2, ids); auto fresh = [&](int i) { ilBindImage(ids[i]); ilTexImage(1, 1, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL); clear_errors(); };
    if (r.chance(8)) { // headerless data
        int w = r.range(1, 12), h = r.range(1, 12), d = r.range(1, 3), bpp = r.pick({1, 3, 4}); size_t need = (size_t)w * h * d * bpp; Bytes q(std::max<long>(0, (long)need + r.range(-3, 3))); for (auto &x : q) x = r.u32(); std::string nm = std::string(vh_tmpdir()) + "/raw.bin"; write_file(nm, q); vh_phase("raw"); fresh(0); bool o[3]; Node t[3]; Bytes c(q); o[0] = ilLoadDataL(c.data(), c.size(), w, h, d, bpp); t[0] = snap(ilGetCurImage());
        fresh(1); o[1] = ilLoadData(nm.c_str(), w, h, d, bpp); t[1] = snap(ilGetCurImage()); fresh(1); FILE *f = fopen(nm.c_str(), "rb"); o[2] = ilLoadDataF(f, w, h, d, bpp); t[2] = snap(ilGetCurImage()); fclose(f);
        for (int i = 0; i < 3; i++) { if (o[i] != (q.size() >= need)) vh_fail("raw-result", "headerless data of %zu bytes for %dx%dx%dx%d: source %d gives %d", q.size(), w, h, d, bpp, i, o[i]); if (o[i]) { std::string df = nodediff(t[0], t[i]); if (!df.empty()) vh_fail("raw-differs", "headerless data: source %d differs: %s", i, df.c_str()); if (memcmp(t[i].img.data.data(), q.data(), need)) vh_fail("raw-data", "headerless data: source %d has other bytes than given", i); } }
        vh_count("raw"); ilBindImage(0); ilDeleteImages(2, ids); unlink(nm.c_str()); return;
    }
    fresh(0); bool ok0; { Bytes c(b); ok0 = ilLoadL(g.type, c.data(), (ILuint)c.size()); } ILenum err0 = ilGetError(); ilBindImage(ids[0]); Node ref = snap(ilGetCurImage());
    auto check = [&](const char *how, bool ok) { ilBindImage(ids[1]); if (!!ok != ok0) vh_fail((std::string("result-") + how + "-" + fam).c_str(), "%s%s (%zu bytes): memory gives %d (%s), %s gives %d (%s)", g.name.c_str(), mut.c_str(), b.size(), ok0, ilerr(err0), how, ok, ilerr(ilGetError())); if (ok) { std::string d = nodediff(ref, snap(ilGetCurImage())); if (!d.empty()) vh_fail((std::string("differs-") + how + "-" + fam).c_str(), "%s%s: from %s: %s", g.name.c_str(), mut.c_str(), how, d.c_str()); } vh_count((std::string("via_") + how).c_str()); };
    auto misuse = [&](const char *how) { if (!vmisuse.empty()) vh_fail((std::string("handles-") + how).c_str(), "%s%s: loading from %s: %s", g.name.c_str(), mut.c_str(), how, vmisuse.c_str()); };
    std::string nm = std::string(vh_tmpdir()) + "/f." + (r.chance(15) ? "dat" : upcase(r, g.ext)); bool byext = nm.substr(nm.size() - 3) != "dat" && g.type != IL_DOOM && g.type != IL_DOOM_FLAT && g.type != IL_RAW;
    Bytes padded(r.chance(60) ? r.range(1, 3000) : 0); for (auto &x : padded) x = r.u32(); long off = padded.size(); padded.insert(padded.end(), b.begin(), b.end());
    for (int src = 0; src < 9; src++) { if (!r.chance(60)) continue; fresh(1); vio_reset(); switch (src) {
        case 0: { vh_phase("name"); write_file(nm, b); bool ok = ilLoad(g.type, nm.c_str()); unlink(nm.c_str()); check("name", ok); break; }
        case 1: { if (!whole) break; vh_phase("auto-name"); if (!byext && !g.sniff) break; write_file(nm, b); bool ok = r.chance(50) ? ilLoadImage(nm.c_str()) : ilLoad(IL_TYPE_UNKNOWN, nm.c_str()); unlink(nm.c_str()); check("auto-name", ok); break; }
        case 2: { vh_phase("handle"); write_file(nm, padded); FILE *f = fopen(nm.c_str(), "rb"); fseek(f, off, SEEK_SET); if (r.chance(30)) { fgetc(f); fseek(f, off, SEEK_SET); } bool ok = ilLoadF(g.type, f); long p = ftell(f); if (p != off) { fclose(f); vh_soft("position", "%s%s: loading from a handle at %ld leaves it at %ld", g.name.c_str(), mut.c_str(), off, p); } else fclose(f); unlink(nm.c_str()); check("handle", ok); vh_count("handle_offsets", off > 0); break; }
        case 3: { if (!whole || !g.sniff) break; vh_phase("auto-memory"); Bytes c(b); check("auto-memory", ilLoadL(IL_TYPE_UNKNOWN, c.data(), (ILuint)c.size())); break; }
        case 4: { if (!whole || !g.sniff) break; vh_phase("auto-handle"); write_file(nm, padded); FILE *f = fopen(nm.c_str(), "rb"); fseek(f, off, SEEK_SET); bool ok = ilLoadF(IL_TYPE_UNKNOWN, f); fclose(f); unlink(nm.c_str()); check("auto-handle", ok); break; }
        case 5: { vh_phase("callback-name"); vio_on(); vdisk["some/where." + g.ext] = b; bool ok = ilLoad(g.type, ("some/where." + g.ext).c_str()); vio_off(); misuse("callback-name"); if (vfiles.size() != 1 || vfiles[0]->closes != 1) vh_fail("close-callback-name", "%s%s: loading by name through callbacks opens %zu files and closes the first %d times", g.name.c_str(), mut.c_str(), vfiles.size(), vfiles.empty() ? 0 : vfiles[0]->closes); check("callback-name", ok); break; }
        case 6: { vh_phase("callback-handle"); vio_on(); vread_garbage = r.chance(30); VFile *f = vhandle(padded, off); bool ok = ilLoadF(g.type, f); vio_off(); misuse("callback-handle"); if (f->closes || !f->open) vh_fail("close-callback-handle", "%s%s: the handle given is closed", g.name.c_str(), mut.c_str()); if (vfiles.size() != 1) vh_fail("open-callback-handle", "%s: a file is opened while loading from a handle", g.name.c_str()); if (f->pos != off) vh_soft("position", "%s%s: loading from a handle at %ld leaves it at %ld", g.name.c_str(), mut.c_str(), off, f->pos); check("callback-handle", ok); break; }
        case 8: { if (!whole || (!byext && !g.sniff)) break; vh_phase("ilu-name"); write_file(nm, b); ILuint q = iluLoadImage(nm.c_str()); unlink(nm.c_str()); if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != ids[1]) vh_fail("ilu-binding", "%s: iluLoadImage leaves another image bound", g.name.c_str()); if (q) { ilDeleteImage(ids[1]); ids[1] = q; } check("ilu-name", q != 0); break; }
        case 7: { if (!whole || !(byext || g.sniff)) break; vh_phase("callback-auto"); vio_on(); std::string n = byext ? "a." + g.ext : "noext"; vdisk[n] = b; bool ok = ilLoadImage(n.c_str()); vio_off(); misuse("callback-auto"); for (auto *f : vfiles) if (f->closes != 1) vh_fail("close-callback-auto", "%s: a file opened is closed %d times", g.name.c_str(), f->closes); check("callback-auto", ok); break; } } }
    ilBindImage(0); ilDeleteImages(2, ids); vio_reset(); vh_count(ok0 ? whole ? "whole_loaded" : "damaged_loaded" : whole ? "whole_refused" : "damaged_refused"); if (whole && !ok0 && !g.frames.empty()) vh_fail(("refused-" + fam).c_str(), "%s does not load: %s", g.name.c_str(), ilerr(err0)); vh_distinct(vh_hash(b.data(), b.size())); vh_sample("%s%s, %zu bytes: %s", g.name.c_str(), mut.c_str(), b.size(), ok0 ? ref.img.str().c_str() : ilerr(err0));
}
