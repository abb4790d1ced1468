// Random operations of the public interface: an Op holds all its input, so that it can be run again and give the same.
#pragma once
#include "save.h"
#include "wild.h"
#include "tree.h"
#include <unistd.h>
#include <memory>
#include <lcms2.h>
#include <algorithm>
#include <stdarg.h>
#include <time.h>
// the date in TGA and TIFF files
extern "C" time_t time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
enum { F_LOAD = 1, F_SAVE = 2, F_CONV = 4, F_IMG = 8, F_ILU = 16, F_NAME = 32, F_STATE = 64, F_DXT = 128, F_PAL = 256, F_QUERY = 512 };
struct Out { std::string s; bool ok = true; // the last result
    void f(const char *fm, ...) { char b[400]; va_list a; va_start(a, fm); vsnprintf(b, sizeof b, fm, a); va_end(a); s += b; s += ';'; }
    bool r(const char *n, bool v) { ok = v; f("%s=%d", n, v); return v; }
    void bytes(const char *n, const void *p, size_t k) { f("%s=%zu:%llx", n, k, (unsigned long long)vh_hash(p, k)); }
    void errors() { for (int i = 0; i < 40; i++) { ILenum e = ilGetError(); if (e == IL_NO_ERROR) break; f("err %s", ilerr(e)); } } };
static const int SLOTS = 3;
struct World { ILuint slot[SLOTS]; std::string dir; int cur = 0;
    void bind(int k) { cur = k; ilBindImage(slot[k]); } };
struct Op { std::string name; int fam = 0; std::function<void(World &, Out &)> run; Bytes in; bool binds = false, nofault = false, sets = false; };
inline Img small_img(Rng &r, int mx = 16) { ImgOpt o; o.maxw = o.maxh = mx; o.maxd = r.chance(10) ? 3 : 1; o.wide = false; return rnd_img(r, o); }
inline float rf(Rng &r, float lo, float hi) { return r.chance(10) ? (r.chance(50) ? lo : hi) : (float)(lo + r.unit() * (hi - lo)); }
inline int edge(Rng &r, int n) { return r.chance(8) ? r.pick<int>({-1, -1000, 0x7fffffff, (int)0x80000000, 1 << 20}) : r.range(-3, n + 3); }
static const ILenum SOMETYPES[] = {IL_BMP, IL_TGA, IL_PNG, IL_TIF, IL_SGI, IL_PCX, IL_PNM, IL_PSD, IL_RAW, IL_HDR, IL_JPG, IL_WBMP, IL_VTF, IL_DDS, IL_CHEAD, IL_GIF, IL_ICO, IL_SUN};
// ---- settings: every one that has a value; returned as a closure ----
inline void reset_settings() {
    for (ILenum e : {IL_ORIGIN_SET, IL_FORMAT_SET, IL_TYPE_SET, IL_FILE_OVERWRITE, IL_CONV_PAL, IL_DEFAULT_ON_FAIL, IL_USE_KEY_COLOUR, IL_SAVE_INTERLACED, IL_JPG_PROGRESSIVE, IL_NVIDIA_COMPRESS, IL_SQUISH_COMPRESS}) ilDisable(e);
    ilEnable(IL_BLIT_BLEND); ilOriginFunc(IL_ORIGIN_LOWER_LEFT); ilFormatFunc(IL_BGRA); ilTypeFunc(IL_UNSIGNED_BYTE);
    ilDisable(IL_ORIGIN_SET); ilDisable(IL_FORMAT_SET); ilDisable(IL_TYPE_SET);
    struct { ILenum m; ILint v; } iv[] = {{IL_DXTC_FORMAT, IL_DXT1}, {IL_JPG_SAVE_FORMAT, IL_JFIF}, {IL_JPG_QUALITY, 99}, {IL_PNG_INTERLACE, 0}, {IL_PNG_ALPHA_INDEX, -1}, {IL_PCD_PICNUM, 2}, {IL_SGI_RLE, 0}, {IL_TGA_RLE, 0}, {IL_BMP_RLE, 0}, {IL_TGA_CREATE_STAMP, 0}, {IL_VTF_COMP, IL_DXT_NO_COMP}, {IL_KEEP_DXTC_DATA, 0}, {IL_MAX_QUANT_INDICES, 256}, {IL_NEU_QUANT_SAMPLE, 15}, {IL_QUANTIZATION_MODE, IL_WU_QUANT}};
    for (auto &x : iv) ilSetInteger(x.m, x.v);
    ilHint(IL_MEM_SPEED_HINT, IL_FASTEST); ilHint(IL_COMPRESSION_HINT, IL_USE_COMPRESSION); ilClearColour(0, 0, 0, 1); ilKeyColour(0, 0, 0, 0);
    for (ILenum e : SaveSet::STR) ilSetString(e, "");
    iluImageParameter(ILU_FILTER, ILU_NEAREST); iluImageParameter(ILU_PLACEMENT, ILU_CENTER); iluRegioniv(NULL, 0); clear_errors();
}
struct Settings { std::vector<std::pair<std::string, std::function<void()>>> v; void apply() const { for (auto &x : v) x.second(); } std::string str() const { std::string s; for (auto &x : v) s += " " + x.first; return s; } };
inline std::pair<std::string, std::function<void()>> rnd_setting(Rng &r) {
    char b[120]; auto S = [&](std::function<void()> f) { return std::make_pair(std::string(b), f); };
    switch (r.below(14)) {
    case 0: { ILenum e = r.pick({IL_FILE_OVERWRITE, IL_CONV_PAL, IL_DEFAULT_ON_FAIL, IL_USE_KEY_COLOUR, IL_SAVE_INTERLACED, IL_JPG_PROGRESSIVE, IL_SQUISH_COMPRESS, IL_NVIDIA_COMPRESS, IL_BLIT_BLEND}); bool on = r.chance(60); snprintf(b, 120, "%s(%x)", on ? "on" : "off", e); return S([=] { if (on) ilEnable(e); else ilDisable(e); }); }
    case 1: { ILenum o = r.pick({IL_ORIGIN_LOWER_LEFT, IL_ORIGIN_UPPER_LEFT}); snprintf(b, 120, "origin=%x", o); return S([=] { ilEnable(IL_ORIGIN_SET); ilOriginFunc(o); }); }
    case 2: { ILenum o = r.pick({IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_COLOUR_INDEX, IL_LUMINANCE_ALPHA}); snprintf(b, 120, "format=%x", o); return S([=] { ilEnable(IL_FORMAT_SET); ilFormatFunc(o); }); }
    case 3: { ILenum o = r.pick({IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE, IL_BYTE, IL_SHORT, IL_INT}); snprintf(b, 120, "type=%x", o); return S([=] { ilEnable(IL_TYPE_SET); ilTypeFunc(o); }); }
    case 4: { struct { ILenum m; std::vector<ILint> v; } iv[] = {{IL_DXTC_FORMAT, {IL_DXT1, IL_DXT2, IL_DXT3, IL_DXT4, IL_DXT5, IL_3DC, IL_RXGB, IL_ATI1N, IL_DXT1A, 77}}, {IL_JPG_SAVE_FORMAT, {IL_JFIF, IL_EXIF}}, {IL_JPG_QUALITY, {0, 10, 50, 99, 100, -1}}, {IL_PNG_INTERLACE, {0, 1}}, {IL_PNG_ALPHA_INDEX, {-1, 0, 3, 255, 256}}, {IL_PCD_PICNUM, {0, 1, 2, 3}}, {IL_SGI_RLE, {0, 1}}, {IL_TGA_RLE, {0, 1}}, {IL_BMP_RLE, {0, 1}}, {IL_TGA_CREATE_STAMP, {0, 1}}, {IL_VTF_COMP, {IL_DXT_NO_COMP, IL_DXT1, IL_DXT3, IL_DXT5}}, {IL_KEEP_DXTC_DATA, {0, 1, 1}}, {IL_MAX_QUANT_INDICES, {2, 3, 16, 255, 256, 1, 257}}, {IL_NEU_QUANT_SAMPLE, {1, 15, 30, 0, 31}}, {IL_QUANTIZATION_MODE, {IL_WU_QUANT, IL_NEU_QUANT}}}; auto &x = iv[r.below(15)]; ILenum m = x.m; ILint v = r.pick(x.v); snprintf(b, 120, "int(%x)=%d", m, v); return S([=] { ilSetInteger(m, v); }); }
    case 5: { ILenum h = r.pick({IL_MEM_SPEED_HINT, IL_COMPRESSION_HINT}), v = h == IL_MEM_SPEED_HINT ? r.pick({IL_FASTEST, IL_LESS_MEM, IL_DONT_CARE}) : r.pick({IL_USE_COMPRESSION, IL_NO_COMPRESSION, IL_DONT_CARE}); snprintf(b, 120, "hint(%x)=%x", h, v); return S([=] { ilHint(h, v); }); }
    case 6: { float c[4]; for (float &x : c) x = rf(r, 0, 1); snprintf(b, 120, "clear=%.2f %.2f %.2f %.2f", c[0], c[1], c[2], c[3]); float c0 = c[0], c1 = c[1], c2 = c[2], c3 = c[3]; return S([=] { ilClearColour(c0, c1, c2, c3); }); }
    case 7: { float c0 = rf(r, 0, 1), c1 = rf(r, 0, 1), c2 = rf(r, 0, 1), c3 = rf(r, 0, 1); snprintf(b, 120, "key=%.2f %.2f %.2f %.2f", c0, c1, c2, c3); return S([=] { ilKeyColour(c0, c1, c2, c3); }); }
    case 8: { ILenum e = SaveSet::STR[r.below(10)]; std::string t; int n = r.chance(20) ? r.pick<int>({40, 41, 254, 255, 300}) : r.below(20); for (int i = 0; i < n; i++) t += (char)r.range(33, 126); snprintf(b, 120, "string(%x)=%zu", e, t.size()); return S([=] { ilSetString(e, t.c_str()); }); }
    case 9: { ILenum f = r.pick({ILU_NEAREST, ILU_LINEAR, ILU_BILINEAR, ILU_SCALE_BOX, ILU_SCALE_TRIANGLE, ILU_SCALE_BELL, ILU_SCALE_BSPLINE, ILU_SCALE_LANCZOS3, ILU_SCALE_MITCHELL}); snprintf(b, 120, "filter=%x", f); return S([=] { iluImageParameter(ILU_FILTER, f); }); }
    case 10: { ILenum f = r.pick({ILU_LOWER_LEFT, ILU_LOWER_RIGHT, ILU_UPPER_LEFT, ILU_UPPER_RIGHT, ILU_CENTER}); snprintf(b, 120, "placement=%x", f); return S([=] { iluImageParameter(ILU_PLACEMENT, f); }); }
    case 11: { auto p = std::make_shared<std::vector<ILpointi>>(); int n = r.range(1, 5); for (int i = 0; i < n; i++) { ILpointi q; q.x = r.range(-2, 20); q.y = r.range(-2, 20); p->push_back(q); } snprintf(b, 120, "region of %d", n); return S([=] { iluRegioniv(p->data(), (ILuint)p->size()); }); }
    case 12: { auto p = std::make_shared<std::vector<ILpointf>>(); int n = r.range(1, 5); for (int i = 0; i < n; i++) { ILpointf q; q.x = rf(r, -0.2f, 1.2f); q.y = rf(r, -0.2f, 1.2f); p->push_back(q); } snprintf(b, 120, "regionf of %d", n); return S([=] { iluRegionfv(p->data(), (ILuint)p->size()); }); }
    default: snprintf(b, 120, "no region"); return S([] { iluRegioniv(NULL, 0); });
    }
}
inline Settings rnd_settings(Rng &r, int n) { Settings s; for (int i = 0; i < n; i++) s.v.push_back(rnd_setting(r)); return s; }
// ---- the operations ----
inline Bytes rnd_palette_file(Rng &r, std::string &ext) {
    Bytes b; int k = r.below(6); char t[100]; auto txt = [&](const char *s) { b.insert(b.end(), s, s + strlen(s)); };
    if (k == 0) { ext = "pal"; int n = r.range(1, 256); snprintf(t, 100, "JASC-PAL\n0100\n%d\n", r.chance(15) ? r.range(0, 300) : n); txt(t); for (int i = 0; i < n; i++) { snprintf(t, 100, "%d %d %d\n", r.below(256), r.below(256), r.below(256)); txt(t); } }
    else if (k == 1) { ext = "act"; b.resize(768); for (auto &x : b) x = r.u32(); }
    else if (k == 2) { ext = "col"; b.resize(r.chance(50) ? 768 : 776); for (auto &x : b) x = r.u32(); if (b.size() == 776) { b[0] = 8; b[1] = 3; b[2] = b[3] = 0; b[4] = 0x23; b[5] = 0xb1; b[6] = b[7] = 0; } }
    else if (k == 3) { ext = "plt"; int n = r.range(1, 256); b.resize(4 + n * 3); for (auto &x : b) x = r.u32(); b[0] = n; b[1] = n >> 8; b[2] = b[3] = 0; }
    else { ext = "pcx"; Rng q(r.next()); for (int i = 0; i < 20; i++) { FileGen g = gen_pcx(q); b = g.b; if (g.name.find("256") != std::string::npos) break; } }
    if (r.chance(30)) mutate(r, b); return b;
}
inline Op op_load(Rng &r) {
    Op o; o.fam = F_LOAD; FileGen g = gen_any(r); Bytes b = g.b; std::string mut; if (r.chance(40)) mut = mutate(r, b); int how = r.below(13); ILenum t = r.chance(4) ? r.pick(SOMETYPES) : g.type; std::string ext = g.ext; char nm[300]; static const char *H[] = {"memory", "memory, type unknown", "name", "image name", "handle", "callback name", "callback handle", "callback image", "own name", "pal of the file", "validity", "headerless", "type of the file"};
    snprintf(nm, 300, "load %s%s %dx%d from %s", g.name.c_str(), mut.c_str(), g.w(), g.h(), H[how]); o.name = nm; o.in = b; int a = r.range(1, 9), c = r.range(1, 9), d = r.range(1, 2), bp = r.pick({1, 3, 4, 2, 0}), src = r.below(3); bool cm = r.chance(30);
    o.run = [=](World &w, Out &u) {
        std::string n = w.dir + "/l." + ext; Bytes x(b);
        switch (how) {
        case 0: u.r("load", ilLoadL(t, x.data(), (ILuint)x.size())); break; case 1: u.r("load", ilLoadL(IL_TYPE_UNKNOWN, x.data(), (ILuint)x.size())); break;
        case 2: write_file(n, x); u.r("load", ilLoad(t, n.c_str())); unlink(n.c_str()); break; case 3: write_file(n, x); u.r("load", ilLoadImage(n.c_str())); unlink(n.c_str()); break;
        case 4: { write_file(n, x); FILE *f = fopen(n.c_str(), "rb"); u.r("load", ilLoadF(cm ? IL_TYPE_UNKNOWN : t, f)); fclose(f); unlink(n.c_str()); break; }
        case 5: vio_on(); vdisk["d/x." + ext] = x; u.r("load", ilLoad(t, ("d/x." + ext).c_str())); vio_off(); break;
        case 6: { vio_on(); VFile *f = vhandle(x); u.r("load", ilLoadF(cm ? IL_TYPE_UNKNOWN : t, f)); vio_off(); break; }
        case 7: vio_on(); vdisk["x." + ext] = x; u.r("load", ilLoadImage(("x." + ext).c_str())); vio_off(); break;
        case 8: { write_file(n, x); ILuint id = iluLoadImage(n.c_str()); u.r("own", id != 0); unlink(n.c_str()); if (id) { ilBindImage(id); u.f("%llx", (unsigned long long)nodehash(snap(ilGetCurImage()))); ilDeleteImage(id); } w.bind(w.cur); break; }
        case 9: { write_file(n, x); u.r("pal", ilLoadPal(n.c_str())); unlink(n.c_str()); break; }
        case 10: { write_file(n, x); u.r("valid", ilIsValidL(t, x.data(), (ILuint)x.size())); u.r("valid", ilIsValid(t, n.c_str())); FILE *f = fopen(n.c_str(), "rb"); u.r("valid", ilIsValidF(t, f)); fclose(f); unlink(n.c_str()); break; }
        case 11: { size_t q = (size_t)a * c * d * bp; if (src == 0) u.r("data", ilLoadDataL(x.data(), (ILuint)x.size(), a, c, d, bp)); else { write_file(n, x); if (src == 1) u.r("data", ilLoadData(n.c_str(), a, c, d, bp)); else { FILE *f = fopen(n.c_str(), "rb"); u.r("data", ilLoadDataF(f, a, c, d, bp)); fclose(f); } unlink(n.c_str()); } (void)q; break; }
        case 12: { write_file(n, x); u.f("type %x %x %x", ilDetermineTypeL(x.data(), (ILuint)x.size()), ilDetermineType(n.c_str()), ilTypeFromExt(n.c_str())); FILE *f = fopen(n.c_str(), "rb"); u.f("%x", ilDetermineTypeF(f)); fclose(f); unlink(n.c_str()); break; } } };
    if (how >= 9 && how != 11) o.fam = how == 9 ? F_PAL : F_QUERY; return o;
}
inline Op op_save(Rng &r) {
    Op o; const SaveDef &s = pick_save(r, ""); int k = r.below(11); o.fam = F_SAVE;
    if (k < 8) { int sink; do sink = r.below(SINKS); while (!sink_for(s, sink)); SaveSet set = rnd_set(r); bool ap = r.chance(40); o.sets = ap; Bytes pre(r.chance(30) ? 17 : 0); o.name = std::string("save ") + s.n + " to " + SINKNAME[sink]; const SaveDef *sp = &s; o.run = [=](World &w, Out &u) { if (ap) set.apply(); u.errors(); Saved q = save_by(*sp, sink, w.dir, pre, Bytes()); vio_off(); u.r("save", q.ok); if (q.ok) u.bytes("file", q.b.data(), q.b.size()); u.f("%s", q.bad.c_str()); if (q.err != IL_NO_ERROR) u.f("err %s", ilerr(q.err)); }; }
    else if (k == 8) { o.name = "save palette"; o.fam = F_PAL; std::string e = r.pick<const char *>({"pal", "PAL", "xyz", "act"}); o.run = [=](World &w, Out &u) { std::string n = w.dir + "/p." + e; unlink(n.c_str()); u.r("savepal", ilSavePal(n.c_str())); Bytes b; if (read_file(n, b)) u.bytes("pal", b.data(), b.size()); unlink(n.c_str()); }; }
    else if (k == 9) { o.name = "save data"; o.run = [=](World &w, Out &u) { std::string n = w.dir + "/d.bin"; unlink(n.c_str()); u.r("savedata", ilSaveData(n.c_str())); Bytes b; if (read_file(n, b)) u.bytes("data", b.data(), b.size()); unlink(n.c_str()); }; }
    else { size_t n = r.below(4000); ILenum t = s.t; o.name = std::string("save ") + s.n + " to a small buffer"; o.run = [=](World &, Out &u) { Bytes b(n, 0); ILuint k = ilSaveL(t, b.data(), (ILuint)n); u.r("save", k != 0); u.f("%u", k); }; }
    return o;
}
inline Op op_dxt(Rng &r) {
    Op o; o.fam = F_DXT; ILenum D = r.chance(5) ? 0x77 : r.pick({IL_DXT1, IL_DXT1A, IL_DXT3, IL_DXT5, IL_DXT2, IL_DXT4, IL_3DC, IL_ATI1N, IL_RXGB}); char nm[100]; int k = r.below(9); snprintf(nm, 100, "dxt %d %x", k, D); o.name = nm;
    int w = r.range(1, 20), h = r.range(1, 20); Bytes px((size_t)w * h * 4); for (auto &x : px) x = r.u32(); Bytes bl((size_t)((w + 3) / 4) * ((h + 3) / 4) * 16); for (auto &x : bl) x = r.u32(); int cut = r.chance(30) ? r.range(-20, 20) : 0; (void)cut;
    switch (k) {
    case 0: case 1: o.run = [=](World &, Out &u) { ILuint n = ilGetDXTCData(NULL, 0, D); u.f("dxtc %u", n); if (n && n < 1u << 24) { Bytes b(n + 8, 0x5a); ILuint q = ilGetDXTCData(b.data(), n, D); u.f("%u", q); u.bytes("blocks", b.data(), n); for (int i = 0; i < 8; i++) if (b[n + i] != 0x5a) vh_fail("overrun-dxtc", "ilGetDXTCData writes beyond the buffer"); Bytes t(n / 2); if (n > 1) u.f("%u", ilGetDXTCData(t.data(), n / 2, D)); } }; break;
    case 2: o.run = [=](World &, Out &u) { Bytes c(px); ILuint n = 0; ILubyte *p = ilCompressDXT(c.data(), w, h, 1, D, &n); u.r("compress", p != NULL); if (p) { u.bytes("blocks", p, n); vmem_free(p); } }; break;
    case 3: o.run = [=](World &, Out &u) { u.r("texdxt", ilTexImageDxtc(w, h, 1, D, bl.data())); }; break;
    case 4: o.run = [=](World &, Out &u) { u.r("todxt", ilImageToDxtcData(D)); u.r("fromdxt", ilDxtcDataToImage()); }; break;
    case 5: o.run = [=](World &, Out &u) { u.r("surfto", ilSurfaceToDxtcData(D)); }; break;
    case 6: o.run = [=](World &, Out &u) { u.r("surffrom", ilDxtcDataToSurface()); }; break;
    case 7: o.run = [=](World &, Out &u) { u.r("texdxt", ilTexImageDxtc(w, h, 1, D, bl.data())); ilFlipSurfaceDxtcData(); u.r("fromdxt", ilDxtcDataToSurface()); }; break;
    default: o.run = [=](World &, Out &u) { u.r("surfto", ilSurfaceToDxtcData(D)); u.r("invert", ilInvertSurfaceDxtcDataAlpha()); u.r("surffrom", ilDxtcDataToSurface()); }; break; }
    return o;
}
// colour profiles in files: 0 sRGB, 1 grey, 2 another RGB space, 3 none
inline std::string icc_file(const std::string &dir, int k) {
    std::string n = dir + "/p" + std::to_string(k) + ".icc"; if (k == 3 || !access(n.c_str(), R_OK)) return n; cmsToneCurve *g = cmsBuildGamma(NULL, 1.6), *gs[3] = {g, g, g}; cmsCIExyY wp = {0.3457, 0.3585, 1}; cmsCIExyYTRIPLE pr = {{0.7, 0.29, 1}, {0.2, 0.7, 1}, {0.15, 0.05, 1}};
    cmsHPROFILE h = k == 0 ? cmsCreate_sRGBProfile() : k == 1 ? cmsCreateGrayProfile(&wp, g) : cmsCreateRGBProfile(&wp, &pr, gs); if (!h || !cmsSaveProfileToFile(h, n.c_str())) vh_error("no profile"); cmsCloseProfile(h); cmsFreeToneCurve(g); return n;
}
inline Op op_pal(Rng &r) {
    Op o; o.fam = F_PAL; std::string ext; Bytes b = rnd_palette_file(r, ext); int k = r.below(6); ILenum p = r.chance(5) ? 0x55 : r.pick(PALTYPES); Bytes q(r.chance(80) && palbpp(p) ? palbpp(p) * r.range(1, 256) : r.below(300)); for (auto &x : q) x = r.u32();
    switch (k) {
    case 0: o.name = "load palette ." + ext; o.in = b; o.run = [=](World &w, Out &u) { std::string n = w.dir + "/q." + ext; write_file(n, b); u.r("loadpal", ilLoadPal(n.c_str())); unlink(n.c_str()); }; break;
    case 1: o.name = "apply palette ." + ext; o.in = b; o.run = [=](World &w, Out &u) { std::string n = w.dir + "/q." + ext; write_file(n, b); u.r("applypal", ilApplyPal(n.c_str())); unlink(n.c_str()); }; break;
    case 2: o.name = "convert palette"; o.run = [=](World &, Out &u) { u.r("convpal", ilConvertPal(p)); }; break;
    case 3: o.name = "register palette"; o.run = [=](World &, Out &u) { Bytes c(q); ilRegisterPal(c.data(), (ILuint)c.size(), p); u.ok = true; }; break;
    case 4: { int a = r.below(4), c = r.below(4); o.name = "apply profile"; o.run = [=](World &w, Out &u) { std::string n = icc_file(w.dir, a), q = icc_file(w.dir, c); u.r("profile", ilApplyProfile(a == 3 ? NULL : (ILstring)n.c_str(), (ILstring)q.c_str())); }; break; }
    default: o.name = "load palette of a missing file"; o.run = [=](World &w, Out &u) { u.r("loadpal", ilLoadPal((w.dir + "/missing." + ext).c_str())); }; }
    return o;
}
// whoever makes an image indexed has to give it a palette
inline void need_pal() { if (ilGetInteger(IL_IMAGE_FORMAT) == IL_COLOUR_INDEX && !ilGetPalette()) { Bytes p(768); for (int i = 0; i < 768; i++) p[i] = i * 7; ilRegisterPal(p.data(), 768, IL_PAL_RGB24); } }
inline Op op_img(Rng &r) {
    Op o; o.fam = F_IMG; char nm[200]; Img m = small_img(r); int k = r.below(24), s = r.below(SLOTS); auto P = std::make_shared<Img>(m); auto set = [&](const char *n, std::function<void(World &, Out &)> f) { o.name = n; o.run = f; };
    int x = edge(r, 16), y = edge(r, 16), z = r.chance(80) ? 0 : edge(r, 2), X = edge(r, 16), Y = edge(r, 16), W = r.range(0, 18), H = r.range(0, 18), Z = r.chance(80) ? 0 : edge(r, 2), Dp = r.chance(90) ? 1 : r.range(0, 3); ILenum sub = r.pick({IL_SUB_NEXT, IL_SUB_MIPMAP, IL_SUB_LAYER, 0x99}); int num = r.chance(6) ? r.pick<int>({0, 300, 70}) : r.range(0, 4); ILenum f = r.chance(5) ? 0x44 : r.pick(ALLFMT), t = r.chance(5) ? 0x44 : r.pick(ALLTYPE);
    switch (k) {
    case 0: case 1: o.nofault = true; set("image", [=](World &, Out &u) { clear_errors(); put(*P); u.ok = true; }); break;
    case 2: { int a = r.range(0, 20), c = r.range(0, 20), d = r.range(0, 2), ch = r.chance(70) ? nch(f) : r.below(6); if (r.chance(8)) a = r.pick<int>({-1, 1 << 30, 70000, 65536}), c = r.pick<int>({-1, 1 << 30, 70000, 65536, 1}); snprintf(nm, 200, "teximage %d %d %d %d %x %x", a, c, d, ch, f, t); bool sf = r.chance(30); o.nofault = f == IL_COLOUR_INDEX; set(nm, [=](World &, Out &u) { if (sf) u.r("surface", ilTexImageSurface(a, c, d, ch, f, t, NULL)); else u.r("teximage", ilTexImage(a, c, d, ch, f, t, NULL)); if (u.ok) need_pal(); if (u.ok) { ILubyte *p = ilGetData(); if (p) memset(p, 0x11, ilGetInteger(IL_IMAGE_SIZE_OF_DATA)); } }); break; }
    case 3: set("setdata", [=](World &, Out &u) { size_t n = ilGetInteger(IL_IMAGE_SIZE_OF_DATA); Bytes b(n); Rng q(n); for (auto &v : b) v = q.u32() & (isflt(ilGetInteger(IL_IMAGE_TYPE)) ? 0x3f : 0xff); u.r("setdata", n && n < 1u << 24 ? ilSetData(b.data()) : false); }); break;
    case 4: case 5: { Bytes b((size_t)W * H * Dp * nch(f) * tsz(t) + 8); for (auto &v : b) v = r.u32() & (isflt(t) ? 0x3f : 0xff); snprintf(nm, 200, "setpixels %d %d %d %dx%dx%d %x %x", x, y, z, W, H, Dp, f, t); set(nm, [=](World &, Out &u) { Bytes c(b); c.resize(c.size() - 8); ilSetPixels(x, y, z, W, H, Dp, f, t, c.data()); u.ok = true; }); break; }
    case 6: case 7: { snprintf(nm, 200, "copypixels %d %d %d %dx%dx%d %x %x", X, Y, Z, W, H, Dp, f, t); set(nm, [=](World &, Out &u) { size_t n = (size_t)W * H * Dp * nch(f) * tsz(t); Bytes b(n + 16, 0x3c); ILuint q = ilCopyPixels(X, Y, Z, W, H, Dp, f, t, b.data()); u.f("copied %u", q); u.bytes("px", b.data(), b.size()); for (int i = 0; i < 16; i++) if (b[n + i] != 0x3c) vh_fail("overrun-copypixels", "ilCopyPixels writes beyond the buffer"); if (q > n) vh_fail("copypixels-size", "ilCopyPixels reports %u of %zu bytes", q, n); }); break; }
    case 8: snprintf(nm, 200, "overlay %d at %d %d %d", s, x, y, z); set(nm, [=](World &w, Out &u) { u.r("overlay", ilOverlayImage(w.slot[s], x, y, z)); }); break;
    case 9: snprintf(nm, 200, "blit %d at %d %d %d from %d %d %d %dx%dx%d", s, x, y, z, X, Y, Z, W, H, Dp); set(nm, [=](World &w, Out &u) { u.r("blit", ilBlit(w.slot[s], x, y, z, X, Y, Z, W, H, Dp)); }); break;
    case 10: snprintf(nm, 200, "copy of %d", s); set(nm, [=](World &w, Out &u) { u.r("copy", ilCopyImage(w.slot[s])); }); break;
    case 11: set("clone", [=](World &w, Out &u) { ILuint id = ilCloneCurImage(); u.r("clone", id != 0); if (id) { ilBindImage(id); u.f("%llx", (unsigned long long)nodehash(snap(ilGetCurImage()))); ilDeleteImage(id); } w.bind(w.cur); }); break;
    case 12: set("default image", [=](World &, Out &u) { u.r("default", ilDefaultImage()); }); break;
    case 13: snprintf(nm, 200, "create %d of %x", num, sub); set(nm, [=](World &, Out &u) { u.f("created %u", ilCreateSubImage(sub, num)); }); break;
    case 14: { int q = r.below(3); snprintf(nm, 200, "register %d of %d", num, q); set(nm, [=](World &, Out &u) { u.r("register", q == 0 ? ilRegisterNumImages(num) : q == 1 ? ilRegisterMipNum(num) : ilRegisterNumFaces(num)); }); break; }
    case 15: { int q = r.below(4); ILenum a = r.pick({IL_ORIGIN_LOWER_LEFT, IL_ORIGIN_UPPER_LEFT, 0x7}); o.nofault = q == 0; snprintf(nm, 200, "register format/type/origin %d %x %x %x", q, f, t, a); set(nm, [=](World &, Out &u) { if (q == 0) { ilRegisterFormat(f); need_pal(); } else if (q == 1) ilRegisterType(t); else if (q == 2) ilRegisterOrigin(a); else u.r("duration", ilSetDuration(num)); }); break; }
    case 16: case 17: { int q = r.below(4), n = r.chance(8) ? 1000 : r.below(4); snprintf(nm, 200, "activate %d %d", q, n); o.binds = true; set(nm, [=](World &, Out &u) { u.r("active", q == 0 ? ilActiveImage(n) : q == 1 ? ilActiveMipmap(n) : q == 2 ? ilActiveFace(n) : ilActiveLayer(n)); }); break; }
    case 18: snprintf(nm, 200, "get alpha %x", t); set(nm, [=](World &, Out &u) { ILubyte *p = ilGetAlpha(t); u.r("alpha", p != NULL); if (p) { size_t n = (size_t)ilGetInteger(IL_IMAGE_WIDTH) * ilGetInteger(IL_IMAGE_HEIGHT) * ilGetInteger(IL_IMAGE_DEPTH) * tsz(t); u.bytes("a", p, n); vmem_free(p); } }); break;
    case 19: { double a = rf(r, 0, 1); set("set alpha", [=](World &, Out &u) { u.r("setalpha", ilSetAlpha(a)); }); break; }
    case 20: set("clamp ntsc", [=](World &, Out &u) { u.r("ntsc", ilClampNTSC()); }); break;
    case 21: set("clear", [=](World &, Out &u) { u.r("clear", ilClearImage()); }); break;
    case 22: { uint64_t sd = r.next(); set("scribble", [=](World &, Out &u) { Rng q(sd); Img g = from_struct(ilGetCurImage()); ILubyte *p = ilGetData(); if (p && g.data.size() == g.size()) for (size_t i = 0; i + tsz(g.type) <= g.data.size(); i += tsz(g.type)) putnorm(p + i, g.type, q.unit()); u.ok = true; }); break; }
    default: { uint64_t sd = r.next(); o.nofault = true; set("tree", [=](World &w, Out &u) { Rng q(sd); w.bind(w.cur); rnd_tree(q, 1); u.ok = true; }); } }
    return o;
}
inline Op op_conv(Rng &r) { Op o; o.fam = F_CONV; ILenum f = r.chance(4) ? 0x44 : r.pick(ALLFMT), t = r.chance(4) ? 0x44 : r.pick(ALLTYPE); char nm[80]; snprintf(nm, 80, "convert to %s/%s", fname(f), tname(t)); o.name = nm; o.run = [=](World &, Out &u) { u.r("convert", ilConvertImage(f, t)); }; return o; }
inline Op op_ilu(Rng &r) {
    Op o; o.fam = F_ILU; char nm[160]; int k = r.below(40); auto set = [&](const char *n, std::function<ILboolean()> f) { o.name = n; std::string s = n; s = s.substr(0, s.find(' ')); o.run = [=](World &, Out &u) { srand(1); u.r(s.c_str(), f()); }; }; int it = r.below(4); float a = rf(r, -2, 3), c = rf(r, 0, 2), d = rf(r, 0, 1), e = rf(r, 0, 1); int W = r.chance(5) ? 0 : r.range(1, 30), H = r.chance(5) ? 0 : r.range(1, 30), D = r.chance(85) ? 1 : r.range(0, 3), X = r.below(8), Y = r.below(8), Z = r.chance(85) ? 0 : r.below(2); int sl = r.below(SLOTS);
    switch (k) {
    case 0: set("alienify", [] { return iluAlienify(); }); break; case 1: snprintf(nm, 160, "bluravg %d", it); set(nm, [=] { return iluBlurAvg(it); }); break; case 2: snprintf(nm, 160, "blurgauss %d", it); set(nm, [=] { return iluBlurGaussian(it); }); break;
    case 3: case 4: set("mipmaps", [] { return iluBuildMipmaps(); }); break; case 5: o.name = "coloursused"; o.run = [](World &, Out &u) { u.f("colours %u", iluColoursUsed()); }; break;
    case 6: o.name = "compare"; o.run = [=](World &w, Out &u) { u.r("compare", iluCompareImage(w.slot[sl])); }; break; case 7: snprintf(nm, 160, "contrast %g", c); set(nm, [=] { return iluContrast(c); }); break;
    case 8: case 9: snprintf(nm, 160, "crop %d %d %d %dx%dx%d", X, Y, Z, W / 2, H / 2, D); set(nm, [=] { return iluCrop(X, Y, Z, W / 2, H / 2, D); }); break;
    case 10: set("edgee", [] { return iluEdgeDetectE(); }); break; case 11: set("edgep", [] { return iluEdgeDetectP(); }); break; case 12: set("edges", [] { return iluEdgeDetectS(); }); break; case 13: set("emboss", [] { return iluEmboss(); }); break;
    case 14: case 15: snprintf(nm, 160, "canvas %dx%dx%d", W, H, D); set(nm, [=] { return iluEnlargeCanvas(W, H, D); }); break; case 16: { float g = rf(r, 0, 2.5f), h = rf(r, 0, 2.5f); snprintf(nm, 160, "enlarge %g %g", g, h); set(nm, [=] { return iluEnlargeImage(g, h, 1); }); break; }
    case 17: set("equalize", [] { return iluEqualize(); }); break; case 18: set("equalize2", [] { return iluEqualize2(); }); break; case 19: set("flip", [] { return iluFlipImage(); }); break; case 20: snprintf(nm, 160, "gamma %g", c); set(nm, [=] { return iluGammaCorrect(c); }); break;
    case 21: set("invertalpha", [] { return iluInvertAlpha(); }); break; case 22: set("mirror", [] { return iluMirror(); }); break; case 23: set("negative", [] { return iluNegative(); }); break; case 24: snprintf(nm, 160, "noisify %g", d); set(nm, [=] { return iluNoisify(d); }); break;
    case 25: { int p = r.chance(10) ? r.pick<int>({0, 1000, -1}) : r.range(1, 9); snprintf(nm, 160, "pixelize %d", p); set(nm, [=] { return iluPixelize(p); }); break; } case 26: { int q = r.below(256), q2 = r.below(256), q3 = r.below(256); snprintf(nm, 160, "replacecolour %d %d %d %g", q, q2, q3, d); set(nm, [=] { return iluReplaceColour(q, q2, q3, d); }); break; }
    case 27: case 28: { float g = r.chance(40) ? r.pick<int>({0, 90, 180, 270, 360, -90, 450}) : rf(r, -400, 400); snprintf(nm, 160, "rotate %g", g); set(nm, [=] { return iluRotate(g); }); break; } case 29: snprintf(nm, 160, "saturate1 %g", a); set(nm, [=] { return iluSaturate1f(a); }); break;
    case 30: snprintf(nm, 160, "saturate4 %g %g %g %g", d, e, c, a); set(nm, [=] { return iluSaturate4f(d, e, c, a); }); break; case 31: case 32: case 33: snprintf(nm, 160, "scale %dx%dx%d", W, H, D); set(nm, [=] { return iluScale(W, H, D); }); break;
    case 34: snprintf(nm, 160, "scalealpha %g", c); set(nm, [=] { return iluScaleAlpha(c); }); break; case 35: snprintf(nm, 160, "scalecolours %g %g %g", c, d, e); set(nm, [=] { return iluScaleColours(c, d, e); }); break; case 36: set("sepia", [] { return iluSepia(); }); break;
    case 37: snprintf(nm, 160, "sharpen %g %d", a, it); set(nm, [=] { return iluSharpen(a, it); }); break; case 38: { if (r.chance(50)) set("swapcolours", [] { return iluSwapColours(); }); else { float g = rf(r, -200, 200); snprintf(nm, 160, "wave %g", g); set(nm, [=] { return iluWave(g); }); } break; }
    default: { if (r.chance(30)) { set("rotate3d", [=] { return iluRotate3D(c, d, e, a); }); break; } auto mt = std::make_shared<std::vector<ILint>>(9); for (auto &v : *mt) v = r.range(-4, 4); int sc = r.range(-8, 8), bi = r.range(-100, 100); snprintf(nm, 160, "convolution /%d+%d", sc, bi); set(nm, [=] { return iluConvolution(mt->data(), sc, bi); }); } }
    return o;
}
inline Op op_query(Rng &r) {
    Op o; o.fam = F_QUERY; o.name = "queries"; o.run = [=](World &w, Out &u) {
        for (ILenum e : {IL_IMAGE_WIDTH, IL_IMAGE_HEIGHT, IL_IMAGE_DEPTH, IL_IMAGE_SIZE_OF_DATA, IL_IMAGE_BPP, IL_IMAGE_BITS_PER_PIXEL, IL_IMAGE_FORMAT, IL_IMAGE_TYPE, IL_PALETTE_TYPE, IL_PALETTE_SIZE, IL_PALETTE_BPP, IL_PALETTE_NUM_COLS, IL_PALETTE_BASE_TYPE, IL_NUM_FACES, IL_NUM_IMAGES, IL_NUM_MIPMAPS, IL_NUM_LAYERS, IL_ACTIVE_IMAGE, IL_ACTIVE_MIPMAP, IL_ACTIVE_LAYER, IL_ACTIVE_FACE, IL_IMAGE_DURATION, IL_IMAGE_PLANESIZE, IL_IMAGE_BPC, IL_IMAGE_OFFX, IL_IMAGE_OFFY, IL_IMAGE_CUBEFLAGS, IL_IMAGE_ORIGIN, IL_IMAGE_CHANNELS, IL_DXTC_DATA_FORMAT}) u.f("%d", ilGetInteger(e));
        ILinfo I; memset(&I, 0, sizeof I); iluGetImageInfo(&I); u.f("%u %u %u %x %x %u %u", I.Width, I.Height, I.Depth, I.Format, I.Type, I.SizeOfData, I.NumMips); ILubyte *p = ilGetPalette(); int n = ilGetInteger(IL_PALETTE_NUM_COLS) * ilGetInteger(IL_PALETTE_BPP); if (p && n > 0) u.bytes("pal", p, n); u.f("%d", ilIsImage(w.slot[0])); ilGetString(IL_VERSION_NUM); iluErrorString(IL_OUT_OF_MEMORY); };
    return o;
}
inline Op op_name(Rng &r) {
    Op o; o.fam = F_NAME; int k = r.below(4), s = r.below(SLOTS); uint64_t sd = r.next(); o.binds = true;
    switch (k) {
    case 0: case 1: o.name = "bind " + std::to_string(s); o.run = [=](World &w, Out &u) { w.bind(s); u.ok = true; }; break;
    case 2: o.nofault = true; o.name = "delete " + std::to_string(s); o.run = [=](World &w, Out &u) { ilBindImage(w.slot[s]); ilDeleteImage(w.slot[s]); ILuint q[2]; ilGenImages(2, q); ilDeleteImage(q[1]); w.slot[s] = q[0]; w.bind(s); u.ok = true; }; break;
    default: o.nofault = true; o.name = "delete others"; o.run = [=](World &w, Out &u) { int a = (w.cur + 1) % SLOTS, b = (w.cur + 2) % SLOTS; ILuint v[2] = {w.slot[a], w.slot[b]}; ilDeleteImages(2, v); ilGenImages(2, v); w.slot[a] = v[0]; w.slot[b] = v[1]; Rng q(sd); clear_errors(); w.bind(a); put(small_img(q, 6)); w.bind(b); rnd_tree(q, 1); w.bind((a + 2) % SLOTS); u.ok = true; }; }
    return o;
}
inline Op op_state(Rng &r) { Op o; o.fam = F_STATE; if (r.chance(20)) { bool ps = r.chance(60); int bits = r.chance(50) ? IL_ALL_ATTRIB_BITS : r.below(64); o.name = ps ? "push" : "pop"; o.run = [=](World &, Out &) { if (ps) ilPushAttrib(bits); else ilPopAttrib(); }; return o; } auto s = rnd_setting(r); o.name = s.first; o.run = [=](World &, Out &) { s.second(); }; return o; }
inline Op rnd_op(Rng &r, int fams) {
    struct { int fam, w; Op (*g)(Rng &); } G[] = {{F_LOAD, 20, op_load}, {F_SAVE, 14, op_save}, {F_DXT, 6, op_dxt}, {F_PAL, 6, op_pal}, {F_IMG, 22, op_img}, {F_CONV, 12, op_conv}, {F_ILU, 24, op_ilu}, {F_QUERY, 2, op_query}, {F_NAME, 5, op_name}, {F_STATE, 8, op_state}};
    int tot = 0; for (auto &g : G) if (g.fam & fams) tot += g.w; int k = r.below(tot); for (auto &g : G) if (g.fam & fams) { if (k < g.w) return g.g(r); k -= g.w; } return op_img(r);
}
// ---- the images the operations work on ----
inline void world_build(World &w, Rng &r) { for (int i = 0; i < SLOTS; i++) { w.bind(i); ImgOpt o; o.maxw = o.maxh = r.chance(70) ? 20 : 50; o.maxd = r.chance(15) ? 3 : 1; o.wide = false; if (r.chance(40)) { rnd_tree(r, 1); } else put(rnd_img(r, o)); } w.bind(r.below(SLOTS)); clear_errors(); }
inline World world_new(Rng &r) { World w; w.dir = vh_tmpdir(); ilGenImages(SLOTS, w.slot); world_build(w, r); return w; }
inline void world_free(World &w) { ilBindImage(0); ilDeleteImages(SLOTS, w.slot); vio_off(); vio_reset(); clear_errors(); }
// images that have become large make everything slow
inline bool too_big(const ILimage *I) { size_t n = 0; int k = 0; std::function<void(const ILimage *, int)> f = [&](const ILimage *p, int d) { for (; p && k < 300 && d < 6; p = p->Next) { k++; n += p->SizeOfData; for (const ILimage *q : {p->Mipmaps, p->Faces, p->Layers}) if (q) f(q, d + 1); } }; f(I, 0); return n > 300000 || k > 150 || I->Width > 4000 || I->Height > 4000; }
inline void world_trim(World &w, Rng &r) { int c = w.cur; for (int i = 0; i < SLOTS; i++) { ilBindImage(w.slot[i]); if (ilGetCurImage() && too_big(ilGetCurImage())) { Rng q(7); clear_errors(); put(small_img(q)); vh_count("trimmed"); } } w.bind(c); (void)r; }
// what the stack held before
__attribute__((noinline)) inline void scribble_stack(int v) { volatile char b[60000]; for (size_t i = 0; i < sizeof b; i++) b[i] = (char)v; }
