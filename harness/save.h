// Images saved in every format: what the file has to hold.
#pragma once
#include "decode.h"
#include "conv.h"
#include "io.h"
struct SaveDef { const char *n; ILenum t; const char *ext; };
static const SaveDef SAVES[] = {{"bmp", IL_BMP, "bmp"}, {"tga", IL_TGA, "tga"}, {"png", IL_PNG, "png"}, {"tif", IL_TIF, "tif"}, {"sgi", IL_SGI, "sgi"}, {"pcx", IL_PCX, "pcx"}, {"ppm", IL_PNM, "ppm"}, {"pgm", IL_PNM, "pgm"}, {"pbm", IL_PNM, "pbm"}, {"psd", IL_PSD, "psd"}, {"raw", IL_RAW, "raw"}, {"hdr", IL_HDR, "hdr"}, {"jpg", IL_JPG, "jpg"}, {"wbmp", IL_WBMP, "wbmp"}, {"vtf", IL_VTF, "vtf"}, {"dds", IL_DDS, "dds"}, {"chead", IL_CHEAD, "h"}};
inline const SaveDef &pick_save(Rng &r, const char *only) { std::vector<const SaveDef *> v; for (auto &s : SAVES) if (!*only || strstr(only, s.n)) v.push_back(&s); return *v[r.below(v.size())]; }
// the settings of the writers
struct SaveSet {
    bool rle = false, inter = false, prog = false, comp = false; int quality = 99; ILenum dxt = IL_DXT1, vtf = IL_DXT_NO_COMP; std::map<ILenum, std::string> str;
    static void off(ILenum e) { ilSetString(e, ""); }
    void apply() const { for (ILenum e : {IL_TGA_RLE, IL_SGI_RLE, IL_BMP_RLE}) ilSetInteger(e, rle); ilSetInteger(IL_PNG_INTERLACE, inter); if (prog) ilEnable(IL_JPG_PROGRESSIVE); else ilDisable(IL_JPG_PROGRESSIVE); ilSetInteger(IL_JPG_QUALITY, quality); ilHint(IL_COMPRESSION_HINT, comp ? IL_USE_COMPRESSION : IL_NO_COMPRESSION); ilSetInteger(IL_DXTC_FORMAT, dxt); ilSetInteger(IL_VTF_COMP, vtf); for (ILenum e : STR) { auto i = str.find(e); ilSetString(e, i == str.end() ? "" : i->second.c_str()); } }
    static constexpr ILenum STR[10] = {IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_DESCRIPTION_STRING, IL_PNG_TITLE_STRING, IL_TIF_DESCRIPTION_STRING, IL_TIF_HOSTCOMPUTER_STRING, IL_TIF_DOCUMENTNAME_STRING, IL_TIF_AUTHNAME_STRING};
    std::string text() const { char s[120]; snprintf(s, 120, "%s%s%s%s q%d", rle ? " rle" : "", inter ? " interlaced" : "", prog ? " progressive" : "", comp ? " compressed" : "", quality); return s; }
};
constexpr ILenum SaveSet::STR[10];
inline SaveSet rnd_set(Rng &r) { SaveSet s; s.rle = r.chance(60); s.inter = r.chance(40); s.prog = r.chance(40); s.comp = r.chance(50); s.quality = r.chance(30) ? r.pick<int>({0, 1, 50, 75, 90, 95, 99}) : r.range(0, 99); s.dxt = r.pick({IL_DXT1, IL_DXT3, IL_DXT5}); for (ILenum e : SaveSet::STR) if (r.chance(15)) { int n = r.chance(20) ? r.pick<int>({40, 41, 42, 254, 255, 254, 253, 100}) : r.range(1, 30); std::string t; for (int i = 0; i < n; i++) t += (char)r.range(33, 126); s.str[e] = t; } return s; }
// what the file of an image holds: format and type of the samples; fmt 0: the image has to be refused
struct FileModel { ILenum fmt = 0, type = IL_UNSIGNED_BYTE; bool pal = false, alpha = true; bool only_first = true; };
inline FileModel file_model(const SaveDef &s, const Img &m, const SaveSet &set) {
    FileModel f; ILenum F = m.fmt, T = m.type; bool b1 = tsz(T) == 1; auto is = [&](const char *n) { return !strcmp(s.n, n); };
    if (is("bmp")) { f.fmt = F == IL_COLOUR_INDEX || F == IL_BGRA ? F : F == IL_RGBA ? IL_BGRA : IL_BGR; f.alpha = false; }
    else if (is("tga")) { if (F != IL_ALPHA && F != IL_LUMINANCE_ALPHA) f.fmt = F == IL_RGB ? IL_BGR : F == IL_RGBA ? IL_BGRA : F; if (F == IL_COLOUR_INDEX) f.alpha = false; }
    else if (is("png")) { f.fmt = F == IL_ALPHA ? IL_RGBA : F; f.type = b1 ? T : tsz(T) == 2 && T != IL_HALF ? T : IL_UNSIGNED_SHORT; }
    else if (is("tif") || is("raw")) { f.fmt = F == IL_COLOUR_INDEX ? palbpp(m.palType) == 4 ? IL_RGBA : IL_RGB : F == IL_BGR ? IL_RGB : F == IL_BGRA || F == IL_ALPHA ? IL_RGBA : F; f.type = F == IL_COLOUR_INDEX && is("tif") ? IL_UNSIGNED_BYTE : T == IL_HALF && is("tif") ? IL_FLOAT : T; if (is("raw")) f.only_first = false; }
    else if (is("sgi")) { f.fmt = F == IL_LUMINANCE || F == IL_RGB || F == IL_RGBA ? F : F == IL_BGRA || F == IL_LUMINANCE_ALPHA ? IL_RGBA : IL_RGB; f.type = b1 || T == IL_SHORT || T == IL_UNSIGNED_SHORT ? T : T == IL_INT ? IL_SHORT : IL_UNSIGNED_SHORT; }
    else if (is("pcx")) { f.fmt = F == IL_BGR ? IL_RGB : F == IL_BGRA || F == IL_LUMINANCE_ALPHA || F == IL_ALPHA ? IL_RGBA : F; if (F == IL_COLOUR_INDEX) f.alpha = false; }
    else if (s.t == IL_PNM) { bool pbm = is("pbm"); if (T == IL_UNSIGNED_BYTE || T == IL_UNSIGNED_SHORT) { f.fmt = is("ppm") ? IL_RGB : IL_LUMINANCE; f.type = pbm ? IL_UNSIGNED_BYTE : T; if (F == IL_ALPHA && f.fmt == IL_LUMINANCE) f.fmt = 0; } }
    else if (is("psd")) { f.fmt = F == IL_COLOUR_INDEX || F == IL_LUMINANCE ? F : F == IL_RGB || F == IL_BGR ? IL_RGB : IL_RGBA; f.type = b1 || T == IL_SHORT ? T : IL_UNSIGNED_SHORT; if (F == IL_COLOUR_INDEX) { f.alpha = false; if (T != IL_UNSIGNED_BYTE) f.fmt = 0; } }
    else if (is("hdr")) { f.fmt = IL_RGB; f.type = IL_FLOAT; }
    else if (is("jpg")) f.fmt = F == IL_LUMINANCE && b1 ? IL_LUMINANCE : IL_RGB;
    else if (is("wbmp")) f.fmt = IL_LUMINANCE;
    else if (is("vtf")) { auto p2 = [](int v) { return (v & (v - 1)) == 0; }; if (p2(m.w) && p2(m.h)) { f.fmt = F == IL_COLOUR_INDEX ? IL_BGRA : F; f.type = F == IL_RGBA && T == IL_UNSIGNED_SHORT ? T : IL_UNSIGNED_BYTE; } }
    else if (is("chead")) { f.fmt = F; f.type = IL_UNSIGNED_BYTE; f.only_first = false; }
    else if (is("dds")) f.fmt = IL_RGBA;
    return f;
}
inline bool lossless(const SaveDef &s) { for (const char *n : {"hdr", "jpg", "wbmp", "dds", "pbm"}) if (!strcmp(n, s.n)) return false; return true; }
// does the file keep every bit of the picture?
inline bool exact_model(const Img &m, const FileModel &f) { if (m.fmt == IL_COLOUR_INDEX) return !islum(f.fmt) && (f.fmt == IL_COLOUR_INDEX || f.type == IL_UNSIGNED_BYTE) ; return (m.type == f.type || (tsz(m.type) == tsz(f.type) && !isflt(m.type) && !isflt(f.type))) && !(iscol(m.fmt) && islum(f.fmt)); }
// "" or how a picture (slice z, top row first) differs from what the file has to hold
inline std::string modeldiff(const Img &m, const FileModel &fm, const Frame &f, int z, double extra = 0) {
    char s[300]; if (f.w != m.w || f.h != m.h) { snprintf(s, 300, "%s is %dx%d", m.str().c_str(), f.w, f.h); return s; } if (m.fmt != IL_COLOUR_INDEX && !valuedef(m.type, fm.type)) return "";
    bool exact = exact_model(m, fm), ha = fm.alpha && (hasalpha(fm.fmt) || (fm.fmt == IL_COLOUR_INDEX && palalpha(m.palType))); ILenum df = fm.fmt == IL_COLOUR_INDEX ? IL_RGBA : fm.fmt; int bad = 0; std::string first; static const char *cn[] = {"red", "green", "blue", "alpha"};
    for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { RGBAd q = m.rgba(x, uly(m, y), z), g = f.at(x, y); double v[4], got[4] = {g.r, g.g, g.b, g.a}, want[4]; expchan(q, m.fmt, df, v); if (df == IL_ALPHA) { want[0] = want[1] = want[2] = 0; want[3] = v[0]; } else if (islum(df)) { want[0] = want[1] = want[2] = v[0]; want[3] = df == IL_LUMINANCE_ALPHA ? v[1] : 1; } else { bool bgr = df == IL_BGR || df == IL_BGRA; want[0] = v[bgr ? 2 : 0]; want[1] = v[1]; want[2] = v[bgr ? 0 : 2]; want[3] = hasalpha(df) ? v[3] : 1; }
        for (int k = 0; k < 4; k++) { if (k == 3 && !fm.alpha) continue; if (k == 3 && !ha) want[3] = 1; double w = want[k], t = exact ? (m.type == IL_FLOAT ? fabs(w) * 1e-6 : fabs(w) * 1e-12) + 1e-12 : convtol(m, df, fm.type, w); if (!isflt(fm.type)) w = w < 0 ? 0 : w > 1 ? 1 : w; if (fm.fmt == IL_COLOUR_INDEX) t = 1e-9; t += extra; if (!(fabs(got[k] - w) <= t)) { if (!bad++) { snprintf(s, 300, "the %s of pixel (%d,%d) from the top left is %.9g, should be %.9g +- %.2g; ", cn[k], x, y, got[k], w, t); first = s; } break; } } }
    if (!bad) return ""; snprintf(s, 300, "%d of %d pixels wrong (%s)", bad, m.w * m.h, m.str().c_str()); return first + s;
}
// images for saving: sizes, contents with runs, any format and type
inline Img save_img(Rng &r, const SaveDef &s) {
    ImgOpt o; o.maxw = o.maxh = 30; o.maxd = 2; o.wide = true; o.types = {IL_UNSIGNED_BYTE, IL_UNSIGNED_BYTE, IL_UNSIGNED_BYTE, IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_SHORT, IL_BYTE, IL_SHORT, IL_INT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE, IL_HALF}; if (!strcmp(s.n, "jpg")) o.types = {IL_UNSIGNED_BYTE, IL_UNSIGNED_BYTE, IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_FLOAT};
    Img m; if (!strcmp(s.n, "vtf") && r.chance(85)) { m = rnd_img(r, o); Img q = m; q.w = 1 << r.below(6); q.h = 1 << r.below(6); q.data.assign(q.size(), 0); for (int z = 0; z < q.d; z++) for (int y = 0; y < q.h; y++) for (int x = 0; x < q.w; x++) memcpy(q.px(x, y, z), m.px(x % m.w, y % m.h, z), m.bpp()); m = q; } else m = rnd_img(r, o);
    if (r.chance(35)) { int bp = m.bpp(), left = 0, kind = r.below(3); size_t n = m.data.size() / bp, src = 0; for (size_t i = 0; i < n; i++) { if (left-- <= 0) { left = r.chance(40) ? 0 : r.below(kind == 0 ? 6 : kind == 1 ? 140 : 400); src = i; } else if (kind != 2 || !r.chance(2)) memcpy(&m.data[i * bp], &m.data[src * bp], bp); } }
    if (!strcmp(s.n, "wbmp") && r.chance(70)) { bool two = r.chance(80); for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) memcpy(m.px(x, y, z), m.px(two && r.chance(50) ? m.w - 1 : 0, 0, 0), m.bpp()); }
    return m;
}
// the ways to save the bound image
enum { SINK_MEM, SINK_BIG, SINK_NAME, SINK_HANDLE, SINK_CBNAME, SINK_CBHANDLE, SINK_EXT, SINKS };
static const char *SINKNAME[] = {"memory", "a large buffer", "a name", "a handle", "a name through callbacks", "a handle through callbacks", "a name of that extension"};
struct Saved { bool ok = false; Bytes b; ILenum err = IL_NO_ERROR; std::string bad; };
inline bool sink_for(const SaveDef &s, int k) { if (s.t == IL_CHEAD) return k == SINK_NAME || k == SINK_EXT; if (s.t == IL_PNM && strcmp(s.n, "ppm")) return k == SINK_NAME || k == SINK_CBNAME || k == SINK_EXT; return true; }
// prefix: what the handle or the callbacks' file holds before
inline Saved save_by(const SaveDef &s, int sink, const std::string &dir, const Bytes &prefix = Bytes(), const Bytes &old = Bytes()) {
    Saved o; clear_errors(); std::string nm = dir + "/s." + s.ext; switch (sink) {
    case SINK_MEM: { ILuint n = ilSaveL(s.t, NULL, 0); o.ok = n > 0; if (!n) break; o.b.resize(n); ILuint k = ilSaveL(s.t, o.b.data(), n); o.ok = k > 0; if (k > n) o.bad = "more bytes are written than the buffer has"; else if (k && k != n) o.bad = "the size asked for (" + std::to_string(n) + ") is not what is written (" + std::to_string(k) + ")"; o.b.resize(std::min(k, n)); break; }
    case SINK_BIG: { ILuint n = ilSaveL(s.t, NULL, 0); o.ok = n > 0; if (!n) break; Bytes big(n + 300, 0xa5); ILuint k = ilSaveL(s.t, big.data(), (ILuint)big.size()); o.ok = k > 0; if (k > big.size()) { o.bad = "more bytes are written than the buffer has"; break; } for (size_t i = k; i < big.size(); i++) if (big[i] != 0xa5) o.bad = "bytes beyond those reported are written"; o.b.assign(big.begin(), big.begin() + k); break; }
    case SINK_NAME: case SINK_EXT: { remove(nm.c_str()); if (old.size()) write_file(nm, old); if (old.size()) ilEnable(IL_FILE_OVERWRITE); o.ok = sink == SINK_NAME ? ilSave(s.t, nm.c_str()) : ilSaveImage(nm.c_str()); ilDisable(IL_FILE_OVERWRITE); if (!read_file(nm, o.b) && o.ok) o.bad = "there is no file"; remove(nm.c_str()); break; }
    case SINK_HANDLE: { write_file(nm, prefix); FILE *f = fopen(nm.c_str(), "r+b"); if (!f) vh_error("open %s", nm.c_str()); fseek(f, (long)prefix.size(), SEEK_SET); ILuint k = ilSaveF(s.t, f); o.ok = k > 0; fseek(f, 0, SEEK_END); fclose(f); Bytes q; read_file(nm, q); remove(nm.c_str()); if (q.size() < prefix.size() || memcmp(q.data(), prefix.data(), prefix.size())) { o.bad = "what stands before the position of the handle changes"; break; } o.b.assign(q.begin() + prefix.size(), q.end()); if (o.ok && k != o.b.size()) o.bad = std::to_string(k) + " bytes are reported, " + std::to_string(o.b.size()) + " are written"; break; }
    case SINK_CBNAME: { vio_reset(); vio_on(); std::string n = std::string("some/where.") + s.ext; o.ok = ilSave(s.t, n.c_str()); vio_off(); o.bad = vmisuse; if (o.ok && (vfiles.size() != 1 || vfiles[0]->closes != 1)) o.bad = "files stay open"; for (auto *f : vfiles) if (f->closes != 1) o.bad = "a file is not closed once"; if (vdisk.count(n)) o.b = vdisk[n]; break; }
    case SINK_CBHANDLE: { vio_reset(); vio_on(); VFile *f = vhandle(prefix, (long)prefix.size()); f->wr = true; ILuint k = ilSaveF(s.t, f); o.ok = k > 0; vio_off(); o.bad = vmisuse; if (f->closes) o.bad = "the handle given is closed"; if (vfiles.size() != 1) o.bad = "another file is opened"; if (f->b.size() < prefix.size() || memcmp(f->b.data(), prefix.data(), prefix.size())) { o.bad = "what stands before the position of the handle changes"; break; } o.b.assign(f->b.begin() + prefix.size(), f->b.end()); if (o.ok && k != o.b.size()) o.bad = std::to_string(k) + " bytes are reported, " + std::to_string(o.b.size()) + " are written"; break; } }
    o.err = ilGetError(); return o;
}
