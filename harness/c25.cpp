// C25: origin, format, type and palette modes on loading; the origin does not matter for saving
#include "io.h"
#include "conv.h"
#include "wild.h"
#include <unistd.h>
void vh_setup() { vmem_install(); ilInit(); iluInit(); }
static void modes_off() { ilDisable(IL_ORIGIN_SET); ilDisable(IL_FORMAT_SET); ilDisable(IL_TYPE_SET); ilDisable(IL_CONV_PAL); ilSetInteger(IL_ORIGIN_MODE, IL_ORIGIN_LOWER_LEFT); ilSetInteger(IL_FORMAT_MODE, IL_BGRA); ilSetInteger(IL_TYPE_MODE, IL_UNSIGNED_BYTE); clear_errors(); }
static void flat(const Node &n, const std::string &path, std::vector<std::pair<std::string, const Img *>> &o) { o.push_back({path, &n.img}); int k = 0; static const char *nm[] = {"frame", "face", "level", "layer"}; for (auto *v : {&n.next, &n.faces, &n.mips, &n.layers}) { for (size_t i = 0; i < v->size(); i++) flat((*v)[i], path + " " + nm[k] + std::to_string(i + 1), o); k++; } }
static Img flipped(const Img &m, ILenum origin) { if (m.origin == origin) return m; Img o = m; o.origin = origin; for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) memcpy(o.px(0, y, z), m.px(0, m.h - 1 - y, z), (size_t)m.w * m.bpp()); return o; }
// integers cut off values outside 0..1; for a conversion to grey the library may do that before or after
static bool cutoff(Img &m, const Img &to) { if (!isflt(m.type) || isflt(to.type)) return true; size_t n = m.data.size() / tsz(m.type); bool any = false; for (size_t i = 0; i < n; i++) { uint8_t *p = m.data.data() + i * tsz(m.type); double v = rawval(p, m.type); if (!(v >= 0 && v <= 1)) { any = true; putraw(p, m.type, v > 1 ? 1 : 0); } } return !(any && iscol(m.fmt) && islum(to.fmt)); }
static void save_side(Rng &r) {
    static const struct { ILenum t; const char *n; } S[] = {{IL_BMP, "bmp"}, {IL_TGA, "tga"}, {IL_PNG, "png"}, {IL_TIF, "tif"}, {IL_SGI, "sgi"}, {IL_PCX, "pcx"}, {IL_PNM, "pnm"}, {IL_PSD, "psd"}, {IL_RAW, "raw"}, {IL_JPG, "jpg"}, {IL_HDR, "hdr"}, {IL_DDS, "dds"}, {IL_WBMP, "wbmp"}, {IL_CHEAD, "h"}, {IL_VTF, "vtf"}};
    auto s = S[r.below(sizeof S / sizeof *S)]; ImgOpt o; o.maxw = o.maxh = 17; o.wide = false; if (s.t == IL_DDS || s.t == IL_VTF) { o.maxw = o.maxh = 16; } o.fmts.assign(std::begin(ALLFMT), std::end(ALLFMT)); o.types = {IL_UNSIGNED_BYTE, IL_UNSIGNED_BYTE, IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT};
    Img m = rnd_img(r, o); if (s.t == IL_VTF) { int w = 1 << r.below(5), h = 1 << r.below(5); ImgOpt p = o; p.maxw = 1; p.maxh = 1; m = rnd_img(r, p); m.w = w; m.h = h; Bytes px = m.data; m.data.resize(m.size()); for (size_t i = 0; i < m.data.size(); i++) m.data[i] = m.fmt == IL_COLOUR_INDEX ? r.below(m.npal()) : isflt(m.type) ? px[i % px.size()] : r.u32(); }
    vh_context("save %s %s", s.n, m.str().c_str()); vh_phase("save-%s", s.n); bool rle = r.chance(50); ilSetInteger(IL_TGA_RLE, rle); ilSetInteger(IL_SGI_RLE, rle); ilSetInteger(IL_DXTC_FORMAT, r.pick({IL_DXT1, IL_DXT3, IL_DXT5})); std::string nm = std::string(vh_tmpdir()) + "/s." + s.n; Bytes f[2]; bool ok[2]; Img back[2]; bool lb[2] = {false, false}; ILuint id = ilGenImage(); ILenum er[2];
    for (int k = 0; k < 2; k++) { Img q = flipped(m, k ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT); ilBindImage(id); put(q); unlink(nm.c_str()); clear_errors(); ok[k] = ilSave(s.t, nm.c_str()); er[k] = ilGetError(); clear_errors(); ilBindImage(id); if (!grab().same(q)) vh_fail((std::string("save-changes-") + s.n).c_str(), "saving %s as %s changes the image: %s", m.str().c_str(), s.n, imgdiff(grab(), q).c_str()); if (ok[k]) { if (!read_file(nm, f[k])) vh_fail("save-nofile", "saving as %s reports success without a file", s.n); if (s.t != IL_CHEAD && s.t != IL_WBMP) { ilTexImage(1, 1, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL); lb[k] = ilLoad(s.t, nm.c_str()); if (lb[k]) back[k] = flipped(grab(), IL_ORIGIN_LOWER_LEFT); } } unlink(nm.c_str()); }
    if (ok[0] != ok[1]) vh_fail((std::string("save-result-") + s.n).c_str(), "saving %s as %s gives %d (%s) when it is held in the upper left origin, %d (%s) in the lower left", m.str().c_str(), s.n, ok[0], ilerr(er[0]), ok[1], ilerr(er[1]));
    if (lb[0] != lb[1]) vh_fail((std::string("save-reload-") + s.n).c_str(), "%s saved as %s loads back from one origin only", m.str().c_str(), s.n);
    if (lb[0] && !back[0].same(back[1])) vh_fail((std::string("save-picture-") + s.n).c_str(), "%s saved as %s from the two origins loads as different pictures: %s", m.str().c_str(), s.n, imgdiff(back[0], back[1]).c_str());
    if ((s.t == IL_CHEAD || s.t == IL_WBMP) && ok[0] && f[0] != f[1]) vh_fail((std::string("save-bytes-") + s.n).c_str(), "%s saved as %s differs with the origin", m.str().c_str(), s.n);
    vh_count(ok[0] ? "saved" : "save_refused"); if (lb[0]) vh_count("saved_reloaded"); vh_distinct(vh_mix(m.hash(), s.t)); ilBindImage(0); ilDeleteImages(1, &id);
}
void vh_case(Rng &r, uint64_t) {
    modes_off(); vio_reset(); clear_errors(); if (r.chance(35)) return save_side(r);
    FileGen g; do g = gen_any(r, vh_arg("fmt", "")); while (g.frames.empty()); ilSetInteger(IL_PCD_PICNUM, g.picnum); std::string fam = g.name.substr(0, g.name.find(' ')); vh_context("%s %dx%d", g.name.c_str(), g.w(), g.h()); vh_input(g.b.data(), g.b.size());
    ILuint id = ilGenImage(); ilBindImage(id); vh_phase("plain"); if (!load_mem(g.type, g.b)) vh_fail(("refused-" + fam).c_str(), "%s does not load", g.name.c_str()); ilBindImage(id); Node ref = snap(ilGetCurImage()); std::vector<std::pair<std::string, const Img *>> a, b; flat(ref, "image", a);
    ilTexImage(1, 1, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL); bool so = r.chance(60), sf = r.chance(45), st = r.chance(40), sp = r.chance(40); ILenum origin = r.chance(50) ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT, fmt = r.pick({IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA}), type = r.pick({IL_UNSIGNED_BYTE, IL_BYTE, IL_UNSIGNED_SHORT, IL_SHORT, IL_UNSIGNED_INT, IL_INT, IL_FLOAT, IL_DOUBLE}); if (r.chance(40)) type = IL_UNSIGNED_BYTE;
    if (so) { ilEnable(IL_ORIGIN_SET); } if (sf) ilEnable(IL_FORMAT_SET); if (st) ilEnable(IL_TYPE_SET); if (sp) ilEnable(IL_CONV_PAL); if (r.chance(50)) { ilOriginFunc(origin); ilFormatFunc(fmt); ilTypeFunc(type); } else { ilSetInteger(IL_ORIGIN_MODE, origin); ilSetInteger(IL_FORMAT_MODE, fmt); ilSetInteger(IL_TYPE_MODE, type); } if (ilGetError() != IL_NO_ERROR) vh_fail("setting", "the modes cannot be set"); bool pushed = r.chance(25); if (pushed) { ilPushAttrib((so ? IL_ORIGIN_BIT : 0) | (sf ? IL_FORMAT_BIT : 0) | (st ? IL_TYPE_BIT : 0) | (sp ? IL_PAL_BIT : 0) | IL_FORMAT_SPECIFIC_BIT | (r.chance(50) ? r.u32() & IL_ALL_ATTRIB_BITS : 0)); vh_count("pushed"); }
    char what[200]; snprintf(what, 200, "%s with%s%s%s%s%s%s%s", g.name.c_str(), so ? " origin " : "", so ? origin == IL_ORIGIN_LOWER_LEFT ? "lower" : "upper" : "", sf ? " format " : "", sf ? fname(fmt) : "", st ? " type " : "", st ? tname(type) : "", sp ? " palettes converted" : ""); vh_context("%s", what); vh_phase("modes");
    bool can = true; // is every conversion asked for one the library has?
    for (auto &p : a) { const Img &s = *p.second; ILenum T = st ? type : s.type, F = sf ? fmt : s.fmt; if (!convertible(s.fmt, F) || (F == IL_COLOUR_INDEX && tsz(T) != 1)) can = false; }
    int way = r.below(3); bool ok; std::string nm = std::string(vh_tmpdir()) + "/m." + g.ext; if (way == 0) ok = load_mem(g.type, g.b); else { write_file(nm, g.b); if (way == 1) ok = ilLoad(g.type, nm.c_str()); else { FILE *f = fopen(nm.c_str(), "rb"); ok = ilLoadF(g.type, f); fclose(f); } unlink(nm.c_str()); }
    ILenum err = ilGetError(); if (pushed) ilPopAttrib(); modes_off(); ilBindImage(id);
    if (!ok) { if (err == IL_NO_ERROR) vh_fail(("silent-" + fam).c_str(), "%s fails without an error", what); if (can) vh_fail(("failed-" + fam).c_str(), "%s does not load: %s", what, ilerr(err)); vh_count("refused"); }
    else { Node got = snap(ilGetCurImage()); flat(got, "image", b); if (a.size() != b.size()) vh_fail(("shape-" + fam).c_str(), "%s: %zu images instead of %zu", what, b.size(), a.size());
        for (size_t i = 0; i < a.size(); i++) { const Img &s0 = *a[i].second, &m = *b[i].second; const char *at = b[i].first.c_str(); if (a[i].first != b[i].first) vh_fail("shape", "%s: another structure", what);
            if (so && m.origin != origin) vh_fail(("origin-" + fam).c_str(), "%s: %s has the other origin", what, at); if (!so && m.origin != s0.origin) vh_fail(("origin-" + fam).c_str(), "%s: %s changed origin", what, at);
            if (sf && m.fmt != fmt) vh_fail(("format-" + fam).c_str(), "%s: %s is %s", what, at, m.str().c_str()); if (st && m.type != type && !(m.fmt == IL_COLOUR_INDEX && tsz(type) == 1)) vh_fail(("type-" + fam).c_str(), "%s: %s is %s", what, at, m.str().c_str()); if (sp && (!sf || fmt != IL_COLOUR_INDEX) && m.fmt == IL_COLOUR_INDEX) vh_fail(("palette-" + fam).c_str(), "%s: %s is still indexed", what, at);
            if (!sf && !(s0.fmt == IL_COLOUR_INDEX) && m.fmt != s0.fmt) vh_fail(("format-" + fam).c_str(), "%s: %s became %s from %s", what, at, m.str().c_str(), s0.str().c_str()); if (!st && s0.fmt != IL_COLOUR_INDEX && m.type != s0.type) vh_fail(("type-" + fam).c_str(), "%s: %s became %s", what, at, m.str().c_str());
            Img s = flipped(s0, m.origin); if (m.dur != s.dur || m.offx != s.offx || m.offy != s.offy) vh_fail(("info-" + fam).c_str(), "%s: %s has other durations or offsets", what, at);
            if (m.fmt == s.fmt && m.type == s.type) { if (!m.same(s)) vh_fail(("picture-" + fam).c_str(), "%s: %s: %s", what, at, imgdiff(m, s).c_str()); vh_count("same_format"); } else if (valuedef(s.type, m.type) && cutoff(s, m) && !(sp && fam.substr(0, 4) == "doom" && s.fmt == IL_COLOUR_INDEX)) /* converting the palette of a DOOM picture makes its transparent colour transparent */ { std::string d = convdiff(s, m); if (!d.empty()) vh_fail(("colours-" + fam).c_str(), "%s: %s: %s", what, at, d.c_str()); vh_count("converted"); } if (i) vh_count("sub_images"); }
        if (so) vh_count("origin_mode"); if (sf) vh_count("format_mode"); if (st) vh_count("type_mode"); if (sp) vh_count("palette_mode"); }
    ilBindImage(0); ilDeleteImages(1, &id); vh_distinct(vh_mix(vh_hash(g.b.data(), g.b.size()), vh_hash(what, strlen(what)))); vh_sample("%s", what);
}
