// C03: lossless formats give back what was saved
#include "save.h"
#include <unistd.h>
void vh_setup() { vmem_install(); ilInit(); iluInit(); }
static Frame toframe(const Img &m, int z) { Frame f; f.size(m.w, m.h); for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) f.at(x, y) = m.rgba(x, uly(m, y), z); return f; }
void vh_case(Rng &r, uint64_t) {
    vmem.fail_after = -1; vio_off(); vio_reset(); clear_errors(); static ILuint id = 0; if (!id) id = ilGenImage(); ilBindImage(id); const SaveDef &s = pick_save(r, vh_arg("fmt", "bmp,tga,png,tif,sgi,pcx,ppm,pgm,psd,raw,vtf")); SaveSet set = rnd_set(r); set.apply(); Img m = save_img(r, s); std::string key = s.n; auto K = [&](const char *k) { static std::string t; t = std::string(k) + "-" + key; return t.c_str(); };
    int sink; do sink = r.below(SINKS); while (!sink_for(s, sink)); Bytes prefix(r.chance(40) ? r.below(200) : 0), old(r.chance(30) ? r.below(20000) : 0); for (auto &b : prefix) b = r.u32(); for (auto &b : old) b = r.u32();
    vh_context("%s as %s to %s%s", m.str().c_str(), s.n, SINKNAME[sink], set.text().c_str()); put(m); FileModel fm = file_model(s, m, set); vh_phase("save"); Saved o = save_by(s, sink, vh_tmpdir(), prefix, old); vh_distinct(vh_mix(m.hash(), s.t * 16 + set.rle + set.inter * 2 + set.comp * 4 + sink * 1000));
    if (!fm.fmt) { if (o.ok) vh_fail(K("accepted"), "%s is saved as %s", m.str().c_str(), s.n); vh_count("refused"); return; }
    if (!o.ok) vh_fail(K("failed"), "%s is not saved as %s to %s: %s", m.str().c_str(), s.n, SINKNAME[sink], ilerr(o.err)); if (!o.bad.empty()) vh_fail(K("sink"), "%s", o.bad.c_str()); vh_input(o.b.data(), o.b.size());
    // loading into an image that held something else
    vh_phase("load"); static ILuint id2 = 0; if (!id2) id2 = ilGenImage(); ilBindImage(id2); if (r.chance(50)) { ImgOpt oo; put(rnd_img(r, oo)); } bool ok; ILenum lt = s.t; int how = r.below(key == "raw" ? 2 : 3); std::string nm = std::string(vh_tmpdir()) + "/l." + s.ext;
    if (how == 0) ok = load_mem(lt, o.b); else { write_file(nm, o.b); ok = how == 1 ? ilLoad(lt, nm.c_str()) : ilLoadImage(nm.c_str()); unlink(nm.c_str()); }
    if (!ok) vh_fail(K("reload"), "the file of %s does not load: %s", m.str().c_str(), ilerr(ilGetError())); ILenum e = ilGetError(); if (e != IL_NO_ERROR) vh_fail(K("reload-error"), "loading leaves %s", ilerr(e)); std::string w = wellformed(ilGetCurImage()); if (!w.empty()) vh_fail(K("malformed"), "%s", w.c_str());
    Img g = grab("loaded"); int nz = fm.only_first ? 1 : m.d; if (g.d != nz) vh_fail(K("depth"), "%s comes back as %s", m.str().c_str(), g.str().c_str()); if (ilGetInteger(IL_NUM_IMAGES) || ilGetInteger(IL_NUM_MIPMAPS) || ilGetInteger(IL_NUM_FACES)) vh_fail(K("sub"), "%s comes back with sub-images", m.str().c_str());
    if (key == "raw" && (m.type == IL_FLOAT || m.type == IL_HALF)) m.type = fm.type = m.type == IL_FLOAT ? IL_UNSIGNED_INT : IL_UNSIGNED_SHORT; // (the file has the number of bytes of a sample only: its bits come back)
    bool exact = exact_model(m, fm); for (int z = 0; z < nz; z++) { std::string d = modeldiff(m, fm, toframe(g, z), z); if (!d.empty()) vh_fail(K("wrong"), "%s comes back as %s: %s", m.str().c_str(), g.str().c_str(), d.c_str()); }
    if (exact) { if (tsz(g.type) != tsz(fm.fmt == IL_COLOUR_INDEX ? IL_UNSIGNED_BYTE : fm.type) || isflt(g.type) != isflt(fm.type)) vh_fail(K("type"), "%s comes back as %s", m.str().c_str(), g.str().c_str()); vh_count("exact"); } vh_count(("as_" + key).c_str());
    // the loaded picture saved again comes back the same
    if (r.chance(40)) { vh_phase("again"); Node one = snap(ilGetCurImage()); SaveSet set2 = rnd_set(r); set2.apply(); FileModel f2 = file_model(s, g, set2); Saved o2 = save_by(s, sink_for(s, SINK_MEM) ? SINK_MEM : SINK_NAME, vh_tmpdir()); if (!f2.fmt) { if (o2.ok) vh_fail(K("accepted"), "%s is saved as %s", g.str().c_str(), s.n); return; } if (!o2.ok) vh_fail(K("again-failed"), "what was loaded (%s) is not saved again: %s", g.str().c_str(), ilerr(o2.err)); if (!exact_model(g, f2)) return; ilBindImage(id); write_file(nm, o2.b); ok = ilLoad(lt, nm.c_str()); unlink(nm.c_str()); if (!ok) vh_fail(K("again-reload"), "the second file of %s does not load: %s", g.str().c_str(), ilerr(ilGetError())); Node two = snap(ilGetCurImage()); std::string d = nodediff(one, two); if (!d.empty()) { for (int z = 0; z < 1; z++) { std::string q = modeldiff(g, f2, toframe(grab("again"), z), z); if (!q.empty()) vh_fail(K("again"), "what was loaded (%s) comes back differently: %s", g.str().c_str(), q.c_str()); } } vh_count("again"); }
    vh_sample("%s as %s to %s%s", m.str().c_str(), s.n, SINKNAME[sink], set.text().c_str());
}
