// Loading and comparing files.
#pragma once
#include "codec.h"
static const char *ilerr(ILenum e) { static char b[20]; switch (e) { case IL_NO_ERROR: return "no error"; case IL_INVALID_ENUM: return "INVALID_ENUM"; case IL_OUT_OF_MEMORY: return "OUT_OF_MEMORY"; case IL_FORMAT_NOT_SUPPORTED: return "FORMAT_NOT_SUPPORTED"; case IL_INTERNAL_ERROR: return "INTERNAL_ERROR"; case IL_INVALID_PARAM: return "INVALID_PARAM"; case IL_INVALID_VALUE: return "INVALID_VALUE"; case IL_BAD_DIMENSIONS: return "BAD_DIMENSIONS"; case IL_ILLEGAL_OPERATION: return "ILLEGAL_OPERATION"; case IL_ILLEGAL_FILE_VALUE: return "ILLEGAL_FILE_VALUE"; case IL_INVALID_FILE_HEADER: return "INVALID_FILE_HEADER"; case IL_COULD_NOT_OPEN_FILE: return "COULD_NOT_OPEN_FILE"; case IL_INVALID_EXTENSION: return "INVALID_EXTENSION"; case IL_FILE_ALREADY_EXISTS: return "FILE_ALREADY_EXISTS"; case IL_FILE_READ_ERROR: return "FILE_READ_OR_WRITE_ERROR"; case IL_INVALID_CONVERSION: return "INVALID_CONVERSION"; } snprintf(b, 20, "0x%x", e); return b; }
inline int uly(const Img &m, int y) { return m.origin == IL_ORIGIN_UPPER_LEFT ? y : m.h - 1 - y; } // data row of the y-th row from the top
inline bool nearp(double a, double b, double tol) { return fabs(a - b) <= tol; }
// "" or how the image differs from the frame
inline std::string framediff(const Img &m, const Frame &f, double tol, bool alpha, bool rel = false, int z = 0, bool flip = false) {
    char s[300]; if (m.w != f.w || m.h != f.h) { snprintf(s, 300, "is %s, the file defines %dx%d", m.str().c_str(), f.w, f.h); return s; }
    int bad = 0; std::string first; for (int y = 0; y < f.h; y++) for (int x = 0; x < f.w; x++) { RGBAd a = m.rgba(x, uly(m, flip ? f.h - 1 - y : y), z), b = f.at(x, y); double t = tol; if (rel) t = tol * std::max(b.r, std::max(b.g, b.b)) + 1e-30; if (b.r == ANYV) { a.r = b.r; a.g = b.g; } if (b.b == ANYV) a.b = b.b; if (!nearp(a.r, b.r, t) || !nearp(a.g, b.g, t) || !nearp(a.b, b.b, t) || (alpha && !nearp(a.a, b.a, tol))) { if (!bad++) { snprintf(s, 300, "pixel (%d,%d) from the top left is (%.5g %.5g %.5g %.5g), the file defines (%.5g %.5g %.5g %.5g); ", x, y, a.r, a.g, a.b, a.a, b.r, b.g, b.b, b.a); first = s; } } }
    if (!bad) return ""; snprintf(s, 300, "%d of %d pixels wrong (%s)", bad, f.w * f.h, m.str().c_str()); return first + s;
}
// Selects face/mipmap of the bound image
inline bool sel_sub(ILuint id, int face, int mip) { ilBindImage(id); return (!face || ilActiveFace(face)) && (!mip || ilActiveMipmap(mip)); }
// "" or how the bound image (id) differs from what the file defines in its first frame, with slices, faces and mipmaps; e: key of the difference
inline std::string filediff1(ILuint id, const FileGen &g, std::string &e, bool flip) {
    char s[200]; ilBindImage(id); e = "wrong"; auto cmp = [&](const Img &m, const Frame &f0, const Frame *rest, size_t n, const char *what) -> std::string { if (m.d != (int)n + 1) { snprintf(s, 200, "%s has depth %d instead of %zu", what, m.d, n + 1); return s; } for (size_t z = 0; z <= n; z++) { std::string d = framediff(m, z ? rest[z - 1] : f0, g.tol, g.alpha, g.rel, z, flip); if (!d.empty()) { snprintf(s, 200, "%s slice %zu: ", what, z); return n || *what ? s + d : d; } } return ""; };
    std::string d = cmp(grab("load"), g.frames[0], g.slices.data(), g.slices.size(), ""); if (!d.empty() || !g.mipped) return d;
    int nf = 0; std::map<int, int> nm; for (auto &q : g.subs) { nf = std::max(nf, q.face); nm[q.face] = std::max(nm[q.face], q.mip); } e = "faces"; if (ilGetInteger(IL_NUM_FACES) != nf) { snprintf(s, 200, "has %d more faces instead of %d", (int)ilGetInteger(IL_NUM_FACES), nf); return s; }
    for (int f = 0; f <= nf; f++) { if (!sel_sub(id, f, 0)) return "a face cannot be selected"; e = "mips"; int n = ilGetInteger(IL_NUM_MIPMAPS); if (n != nm[f]) { snprintf(s, 200, "face %d has %d mipmaps instead of %d", f, n, nm[f]); return s; } }
    e = "wrongsub"; for (auto &q : g.subs) { if (!sel_sub(id, q.face, q.mip)) return "a level cannot be selected"; char w[60]; snprintf(w, 60, "face %d level %d", q.face, q.mip); d = cmp(grab("sub"), q.slices[0], q.slices.data() + 1, q.slices.size() - 1, w); if (!d.empty()) return d; } ilBindImage(id); return "";
}
inline std::string filediff(ILuint id, const FileGen &g, std::string &e) { std::string d = filediff1(id, g, e, false); if (!d.empty() && g.anyflip) { std::string e2; if (filediff1(id, g, e2, true).empty()) return ""; } return d; }
inline bool load_mem(ILenum type, const Bytes &b) { Bytes c(b); return ilLoadL(type, c.data(), (ILuint)c.size()); }
struct FmtGen { const char *name; FileGen (*gen)(Rng &); int weight; };
static FileGen gen_pcx_(Rng &r) { return gen_pcx(r); }
static const FmtGen FILEGENS[] = {{"bmp", gen_bmp, 3}, {"tga", gen_tga, 3}, {"png", gen_png, 3}, {"tif", gen_tif, 3}, {"sgi", gen_sgi, 2}, {"pnm", gen_pnm, 2}, {"pcx", gen_pcx_, 2}, {"dcx", gen_dcx, 1}, {"psd", gen_psd, 2}, {"hdr", gen_hdr, 2}, {"dds", gen_dds, 2}, {"wbmp", gen_wbmp, 1}, {"gif", gen_gif, 2}, {"ico", gen_ico, 2}, {"sun", gen_sun, 2}, {"jpg", gen_jpg, 1}};
inline FileGen gen_file(Rng &r, const char *only = "") { int tot = 0; for (auto &g : FILEGENS) { if (*only && !strstr(only, g.name)) continue; tot += g.weight; } int k = r.below(tot); for (auto &g : FILEGENS) { if (*only && !strstr(only, g.name)) continue; if ((k -= g.weight) < 0) return g.gen(r); } vh_error("no generator"); return FileGen(); }
