// Image model: build, put into and grab from the library, snapshot chains, well-formedness.
#pragma once
#include "vh.h"
#include <IL/devil_internal_exports.h>
#include <math.h>

static const ILenum ALLFMT[] = {IL_COLOUR_INDEX, IL_ALPHA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_RGB, IL_BGR, IL_RGBA, IL_BGRA};
static const ILenum DIRFMT[] = {IL_ALPHA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_RGB, IL_BGR, IL_RGBA, IL_BGRA};
static const ILenum COLFMT[] = {IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_RGB, IL_BGR, IL_RGBA, IL_BGRA};
static const ILenum ALLTYPE[] = {IL_BYTE, IL_UNSIGNED_BYTE, IL_SHORT, IL_UNSIGNED_SHORT, IL_INT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE, IL_HALF};
static const ILenum VALTYPE[] = {IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE, IL_HALF};
static const ILenum PALTYPES[] = {IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32};

inline int nch(ILenum f) { switch (f) { case IL_COLOUR_INDEX: case IL_ALPHA: case IL_LUMINANCE: return 1; case IL_LUMINANCE_ALPHA: return 2; case IL_RGB: case IL_BGR: return 3; case IL_RGBA: case IL_BGRA: return 4; } return 0; }
inline int tsz(ILenum t) { switch (t) { case IL_BYTE: case IL_UNSIGNED_BYTE: return 1; case IL_SHORT: case IL_UNSIGNED_SHORT: case IL_HALF: return 2; case IL_INT: case IL_UNSIGNED_INT: case IL_FLOAT: return 4; case IL_DOUBLE: return 8; } return 0; }
inline bool isflt(ILenum t) { return t == IL_FLOAT || t == IL_DOUBLE || t == IL_HALF; }
inline bool hasalpha(ILenum f) { return f == IL_ALPHA || f == IL_LUMINANCE_ALPHA || f == IL_RGBA || f == IL_BGRA; }
inline int palbpp(ILenum p) { switch (p) { case IL_PAL_RGB24: case IL_PAL_BGR24: return 3; case IL_PAL_RGB32: case IL_PAL_RGBA32: case IL_PAL_BGR32: case IL_PAL_BGRA32: return 4; } return 0; }
inline bool palbgr(ILenum p) { return p == IL_PAL_BGR24 || p == IL_PAL_BGR32 || p == IL_PAL_BGRA32; }
inline bool palalpha(ILenum p) { return p == IL_PAL_RGBA32 || p == IL_PAL_BGRA32; }
inline const char *fname(ILenum f) { switch (f) { case IL_COLOUR_INDEX: return "INDEX"; case IL_ALPHA: return "ALPHA"; case IL_LUMINANCE: return "LUM"; case IL_LUMINANCE_ALPHA: return "LUMA"; case IL_RGB: return "RGB"; case IL_BGR: return "BGR"; case IL_RGBA: return "RGBA"; case IL_BGRA: return "BGRA"; } return "?"; }
inline const char *tname(ILenum t) { switch (t) { case IL_BYTE: return "byte"; case IL_UNSIGNED_BYTE: return "ubyte"; case IL_SHORT: return "short"; case IL_UNSIGNED_SHORT: return "ushort"; case IL_INT: return "int"; case IL_UNSIGNED_INT: return "uint"; case IL_FLOAT: return "float"; case IL_DOUBLE: return "double"; case IL_HALF: return "half"; } return "?"; }
inline const char *pname(ILenum p) { switch (p) { case IL_PAL_NONE: return "none"; case IL_PAL_RGB24: return "RGB24"; case IL_PAL_RGB32: return "RGB32"; case IL_PAL_RGBA32: return "RGBA32"; case IL_PAL_BGR24: return "BGR24"; case IL_PAL_BGR32: return "BGR32"; case IL_PAL_BGRA32: return "BGRA32"; } return "?"; }

inline float half2f(uint16_t h) { int s = h >> 15, e = (h >> 10) & 31, m = h & 1023; double v; if (e == 31) v = m ? NAN : INFINITY; else if (!e) v = ldexp(m, -24); else v = ldexp(1024 + m, e - 25); return (float)(s ? -v : v); }
inline uint16_t f2half(float f) { // round to nearest, ties to even; enough for [0,65504]
    if (f != f) return 0x7e00; int s = signbit(f) ? 0x8000 : 0; double a = fabs((double)f); if (a >= 65520) return s | 0x7c00; if (a == 0) return s;
    int e; frexp(a, &e); e -= 1; if (e < -14) e = -14; double q = nearbyint(ldexp(a, 10 - e)); if (q >= 2048) { q /= 2; e++; if (e > 15) return s | 0x7c00; }
    if (q < 1024) return (uint16_t)(s | (int)q); return (uint16_t)(s | ((e + 15) << 10) | ((int)q - 1024)); }

// One sample as a number in the units of its type: integers 0..max, floats as they are.
inline double rawval(const uint8_t *p, ILenum t) {
    switch (t) { case IL_BYTE: case IL_UNSIGNED_BYTE: return *p; case IL_SHORT: case IL_UNSIGNED_SHORT: { uint16_t v; memcpy(&v, p, 2); return v; } case IL_INT: case IL_UNSIGNED_INT: { uint32_t v; memcpy(&v, p, 4); return v; } case IL_FLOAT: { float v; memcpy(&v, p, 4); return v; } case IL_DOUBLE: { double v; memcpy(&v, p, 8); return v; } case IL_HALF: { uint16_t v; memcpy(&v, p, 2); return half2f(v); } } return 0; }
inline double tmax(ILenum t) { switch (tsz(t) + (isflt(t) ? 100 : 0)) { case 1: return 255; case 2: return 65535; case 4: return 4294967295.0; } return 1.0; }
inline void putraw(uint8_t *p, ILenum t, double v) {
    if (!isflt(t)) { if (v < 0) v = 0; if (v > tmax(t)) v = tmax(t); }
    switch (t) { case IL_BYTE: case IL_UNSIGNED_BYTE: *p = (uint8_t)v; break; case IL_SHORT: case IL_UNSIGNED_SHORT: { uint16_t x = (uint16_t)v; memcpy(p, &x, 2); break; } case IL_INT: case IL_UNSIGNED_INT: { uint32_t x = (uint32_t)v; memcpy(p, &x, 4); break; } case IL_FLOAT: { float x = (float)v; memcpy(p, &x, 4); break; } case IL_DOUBLE: memcpy(p, &v, 8); break; case IL_HALF: { uint16_t x = f2half((float)v); memcpy(p, &x, 2); break; } } }
inline double normval(const uint8_t *p, ILenum t) { return rawval(p, t) / tmax(t); }
inline void putnorm(uint8_t *p, ILenum t, double n) { if (isflt(t)) putraw(p, t, n); else putraw(p, t, floor(n * tmax(t) + 0.5)); }

struct RGBAd { double r, g, b, a; };

struct Img {
    int w = 1, h = 1, d = 1; ILenum fmt = IL_RGB, type = IL_UNSIGNED_BYTE, origin = IL_ORIGIN_LOWER_LEFT; Bytes data;
    ILenum palType = IL_PAL_NONE; Bytes pal; ILuint dur = 0, offx = 0, offy = 0;
    int bpp() const { return nch(fmt) * tsz(type); }
    size_t size() const { return (size_t)w * h * d * bpp(); }
    const uint8_t *px(int x, int y, int z = 0) const { return &data[(((size_t)z * h + y) * w + x) * bpp()]; }
    uint8_t *px(int x, int y, int z = 0) { return &data[(((size_t)z * h + y) * w + x) * bpp()]; }
    int npal() const { return palbpp(palType) ? (int)(pal.size() / palbpp(palType)) : 0; }
    double nv(int x, int y, int z, int c) const { return normval(px(x, y, z) + c * tsz(type), type); }
    double rv(int x, int y, int z, int c) const { return rawval(px(x, y, z) + c * tsz(type), type); }
    void setn(int x, int y, int z, int c, double v) { putnorm(px(x, y, z) + c * tsz(type), type, v); }
    RGBAd palent(int i) const { RGBAd o = {0, 0, 0, 1}; int b = palbpp(palType); if (!b || i < 0 || (size_t)(i + 1) * b > pal.size()) return o; const uint8_t *p = &pal[(size_t)i * b]; o.r = p[0] / 255.; o.g = p[1] / 255.; o.b = p[2] / 255.; if (palbgr(palType)) std::swap(o.r, o.b); if (palalpha(palType)) o.a = p[3] / 255.; return o; }
    // colour of a pixel as the formats define it
    RGBAd rgba(int x, int y, int z = 0) const {
        RGBAd o = {0, 0, 0, 1};
        switch (fmt) {
        case IL_COLOUR_INDEX: return palent((int)rv(x, y, z, 0));
        case IL_ALPHA: o.a = nv(x, y, z, 0); break;
        case IL_LUMINANCE: o.r = o.g = o.b = nv(x, y, z, 0); break;
        case IL_LUMINANCE_ALPHA: o.r = o.g = o.b = nv(x, y, z, 0); o.a = nv(x, y, z, 1); break;
        case IL_RGB: case IL_RGBA: o.r = nv(x, y, z, 0); o.g = nv(x, y, z, 1); o.b = nv(x, y, z, 2); if (fmt == IL_RGBA) o.a = nv(x, y, z, 3); break;
        case IL_BGR: case IL_BGRA: o.b = nv(x, y, z, 0); o.g = nv(x, y, z, 1); o.r = nv(x, y, z, 2); if (fmt == IL_BGRA) o.a = nv(x, y, z, 3); break;
        }
        return o;
    }
    std::string str() const { char b[200]; snprintf(b, sizeof b, "%dx%dx%d %s/%s org=%s pal=%s:%d", w, h, d, fname(fmt), tname(type), origin == IL_ORIGIN_UPPER_LEFT ? "UL" : origin == IL_ORIGIN_LOWER_LEFT ? "LL" : "?", pname(palType), npal()); return b; }
    uint64_t hash() const { uint64_t x = vh_hash(data.data(), data.size()); x = vh_hash(pal.data(), pal.size(), x); int v[] = {w, h, d, (int)fmt, (int)type, (int)origin, (int)palType, (int)dur, (int)offx, (int)offy}; return vh_hash(v, sizeof v, x); }
    bool same(const Img &o, bool attr = true) const { return w == o.w && h == o.h && d == o.d && fmt == o.fmt && type == o.type && origin == o.origin && data == o.data && palType == o.palType && pal == o.pal && (!attr || (dur == o.dur && offx == o.offx && offy == o.offy)); }
};
inline std::string imgdiff(const Img &a, const Img &b) { // first difference, for messages
    char s[300]; if (a.w != b.w || a.h != b.h || a.d != b.d || a.fmt != b.fmt || a.type != b.type || a.origin != b.origin) { snprintf(s, 300, "got %s, want %s", a.str().c_str(), b.str().c_str()); return s; }
    if (a.palType != b.palType || a.pal != b.pal) { snprintf(s, 300, "palette differs: got %s:%zu bytes want %s:%zu", pname(a.palType), a.pal.size(), pname(b.palType), b.pal.size()); return s; }
    if (a.dur != b.dur || a.offx != b.offx || a.offy != b.offy) { snprintf(s, 300, "attributes differ: got %u %u %u want %u %u %u", a.dur, a.offx, a.offy, b.dur, b.offx, b.offy); return s; }
    size_t n = 0, first = ~(size_t)0; for (size_t i = 0; i < a.data.size() && i < b.data.size(); i++) if (a.data[i] != b.data[i]) { if (first == ~(size_t)0) first = i; n++; }
    if (a.data.size() != b.data.size()) { snprintf(s, 300, "data sizes %zu %zu", a.data.size(), b.data.size()); return s; }
    if (!n) return "same"; int bp = a.bpp(); size_t p = first / bp;
    snprintf(s, 300, "%zu bytes differ, first at pixel (%d,%d,%d) byte %d: got %d want %d (%s)", n, (int)(p % a.w), (int)(p / a.w % a.h), (int)(p / ((size_t)a.w * a.h)), (int)(first % bp), a.data[first], b.data[first], a.str().c_str()); return s;
}

// ---- the library's side ----
inline void clear_errors() { for (int i = 0; i < 100 && ilGetError() != IL_NO_ERROR; i++) {} }
inline Img from_struct(const ILimage *I) {
    Img m; m.w = I->Width; m.h = I->Height; m.d = I->Depth; m.fmt = I->Format; m.type = I->Type; m.origin = I->Origin; m.palType = I->Pal.PalType;
    if (I->Pal.Palette && I->Pal.PalSize) m.pal.assign(I->Pal.Palette, I->Pal.Palette + I->Pal.PalSize); else m.palType = IL_PAL_NONE;
    if (I->Data) m.data.assign(I->Data, I->Data + I->SizeOfData); m.dur = I->Duration; m.offx = I->OffX; m.offy = I->OffY; return m;
}
// the bound image through the public queries
inline Img grab(const char *who = "grab") {
    Img m; m.w = ilGetInteger(IL_IMAGE_WIDTH); m.h = ilGetInteger(IL_IMAGE_HEIGHT); m.d = ilGetInteger(IL_IMAGE_DEPTH); m.fmt = ilGetInteger(IL_IMAGE_FORMAT); m.type = ilGetInteger(IL_IMAGE_TYPE); m.origin = ilGetInteger(IL_IMAGE_ORIGIN);
    size_t n = (size_t)ilGetInteger(IL_IMAGE_SIZE_OF_DATA), want = m.size();
    if (n != want || !n) vh_fail("malformed", "%s: %s reports %zu bytes of data, should be %zu", who, m.str().c_str(), n, want);
    ILubyte *p = ilGetData(); if (!p) vh_fail("malformed", "%s: no data", who); m.data.assign(p, p + n);
    m.palType = ilGetInteger(IL_PALETTE_TYPE); size_t ps = (size_t)ilGetInteger(IL_PALETTE_NUM_COLS) * ilGetInteger(IL_PALETTE_BPP); ILubyte *q = ilGetPalette(); if (ps && q) m.pal.assign(q, q + ps); if (m.pal.empty()) m.palType = IL_PAL_NONE;
    m.dur = ilGetInteger(IL_IMAGE_DURATION); m.offx = ilGetInteger(IL_IMAGE_OFFX); m.offy = ilGetInteger(IL_IMAGE_OFFY);
    return m;
}
// makes the bound image equal to m (drops sub-images)
inline void put(const Img &m) {
    if (!ilTexImage(m.w, m.h, m.d, nch(m.fmt), m.fmt, m.type, (void *)m.data.data())) vh_error("ilTexImage refused %s: %x", m.str().c_str(), ilGetError());
    if (m.palType != IL_PAL_NONE) ilRegisterPal((void *)m.pal.data(), (ILuint)m.pal.size(), m.palType);
    ilRegisterOrigin(m.origin); if (m.dur) ilSetDuration(m.dur);
    ILenum e = ilGetError(); if (e != IL_NO_ERROR) vh_error("put %s raised %x", m.str().c_str(), e);
}
struct Node { Img img; Bytes profile; std::vector<Node> next, faces, mips, layers; };
// whole tree; each chain is a list whose elements may have own sub-images
inline Node snap(const ILimage *I, int depth = 0);
inline void snapchain(std::vector<Node> &v, const ILimage *I, ILimage *ILimage::*link, int depth) { int n = 0; for (const ILimage *p = I->*link; p && n < 100000; p = p->*link, n++) { v.push_back(Node()); Node &k = v.back(); k.img = from_struct(p); if (depth < 4) { if (link != &ILimage::Next) snapchain(k.next, p, &ILimage::Next, depth + 1); if (link != &ILimage::Faces) snapchain(k.faces, p, &ILimage::Faces, depth + 1); if (link != &ILimage::Mipmaps) snapchain(k.mips, p, &ILimage::Mipmaps, depth + 1); if (link != &ILimage::Layers) snapchain(k.layers, p, &ILimage::Layers, depth + 1); } } }
inline Node snap(const ILimage *I, int depth) { Node n; n.img = from_struct(I); if (I->Profile && I->ProfileSize) n.profile.assign((uint8_t *)I->Profile, (uint8_t *)I->Profile + I->ProfileSize); snapchain(n.next, I, &ILimage::Next, depth); snapchain(n.faces, I, &ILimage::Faces, depth); snapchain(n.mips, I, &ILimage::Mipmaps, depth); snapchain(n.layers, I, &ILimage::Layers, depth); return n; }
inline uint64_t nodehash(const Node &n) { uint64_t h = n.img.hash(); h = vh_hash(n.profile.data(), n.profile.size(), h); int k = 1; for (auto *v : {&n.next, &n.faces, &n.mips, &n.layers}) { h = vh_mix(h, v->size() * 7 + k++); for (auto &c : *v) h = vh_mix(h, nodehash(c)); } return h; }
inline std::string nodestr(const Node &n) { std::string s = n.img.str(); int k = 0; for (auto *v : {&n.next, &n.faces, &n.mips, &n.layers}) { static const char *nm[] = {"next", "face", "mip", "layer"}; for (auto &c : *v) s += std::string(" ") + nm[k] + "{" + nodestr(c) + "}"; k++; } return s; }
inline std::string nodediff(const Node &a, const Node &b, const std::string &path = "base") {
    if (!a.img.same(b.img)) return path + ": " + imgdiff(a.img, b.img); if (a.profile != b.profile) return path + ": profile differs";
    const std::vector<Node> *va[] = {&a.next, &a.faces, &a.mips, &a.layers}, *vb[] = {&b.next, &b.faces, &b.mips, &b.layers}; static const char *nm[] = {"next", "face", "mip", "layer"};
    for (int k = 0; k < 4; k++) { if (va[k]->size() != vb[k]->size()) return path + ": " + std::to_string(va[k]->size()) + " instead of " + std::to_string(vb[k]->size()) + " in the " + nm[k] + " chain"; for (size_t i = 0; i < va[k]->size(); i++) { std::string s = nodediff((*va[k])[i], (*vb[k])[i], path + "/" + nm[k] + std::to_string(i + 1)); if (!s.empty()) return s; } }
    return "";
}

// ---- well-formedness of everything reachable from I; returns "" or what is wrong ----
inline std::string wellformed(const ILimage *I, int depth = 0, int *count = NULL) {
    char s[300]; if (!I) return "no image"; if (count) ++*count;
    int fc = nch(I->Format), tc = tsz(I->Type);
    if (!fc) { snprintf(s, 300, "unknown format 0x%x", I->Format); return s; }
    if (!tc) { snprintf(s, 300, "unknown type 0x%x", I->Type); return s; }
    if (I->Bpp != fc) { snprintf(s, 300, "%d channels but format %s", I->Bpp, fname(I->Format)); return s; }
    if (I->Bpc != tc) { snprintf(s, 300, "%d bytes per channel but type %s", I->Bpc, tname(I->Type)); return s; }
    if (!I->Width || !I->Height || !I->Depth) { snprintf(s, 300, "size %ux%ux%u", I->Width, I->Height, I->Depth); return s; }
    uint64_t want = (uint64_t)I->Width * I->Height * I->Depth * fc * tc;
    if (I->SizeOfData != want) { snprintf(s, 300, "%ux%ux%u %s/%s has SizeOfData %u, not %llu", I->Width, I->Height, I->Depth, fname(I->Format), tname(I->Type), I->SizeOfData, (unsigned long long)want); return s; }
    if (I->Bps != (uint64_t)I->Width * fc * tc) { snprintf(s, 300, "Bps %u", I->Bps); return s; }
    if (I->SizeOfPlane != (uint64_t)I->Bps * I->Height) { snprintf(s, 300, "SizeOfPlane %u", I->SizeOfPlane); return s; }
    if (!I->Data) return "no data";
    { Bytes t(I->Data, I->Data + want); if (I->SizeOfData) { uint8_t *p = (uint8_t *)I->Data; p[0] = t[0]; p[want - 1] = t[want - 1]; } } // read all, write both ends
    if (I->Origin != IL_ORIGIN_LOWER_LEFT && I->Origin != IL_ORIGIN_UPPER_LEFT) { snprintf(s, 300, "origin 0x%x", I->Origin); return s; }
    int pb = palbpp(I->Pal.PalType);
    if (I->Pal.Palette && I->Pal.PalSize) { if (!pb) { snprintf(s, 300, "palette of type 0x%x", I->Pal.PalType); return s; } if (I->Pal.PalSize % pb) { snprintf(s, 300, "palette size %u of entries of %d bytes", I->Pal.PalSize, pb); return s; } Bytes t(I->Pal.Palette, I->Pal.Palette + I->Pal.PalSize); }
    else if (I->Pal.PalSize) return "palette size without palette";
    if (I->Format == IL_COLOUR_INDEX) { if (!I->Pal.Palette || !I->Pal.PalSize || !pb) return "indexed without palette"; }
    if (I->Profile && I->ProfileSize) { Bytes t((uint8_t *)I->Profile, (uint8_t *)I->Profile + I->ProfileSize); }
    if (I->DxtcData && I->DxtcSize) { Bytes t(I->DxtcData, I->DxtcData + I->DxtcSize); }
    if (depth < 6) {
        ILimage *ILimage::*links[] = {&ILimage::Next, &ILimage::Faces, &ILimage::Mipmaps, &ILimage::Layers}; static const char *nm[] = {"next", "face", "mip", "layer"};
        for (int k = 0; k < 4; k++) { int n = 0; for (const ILimage *p = I->*links[k]; p; p = p->*links[k]) { if (++n > 200000) return std::string("endless chain of ") + nm[k]; ILimage tmp = *p; std::string e;
            // elements of a chain: check the element, then its other chains
            ILimage c = *p; c.*links[k] = NULL; e = wellformed(&c, depth + 1, count); if (!e.empty()) return std::string(nm[k]) + std::to_string(n) + ": " + e; } } }
    return "";
}

// ---- random images ----
struct ImgOpt { int maxw = 20, maxh = 20, maxd = 1; std::vector<ILenum> fmts{std::begin(ALLFMT), std::end(ALLFMT)}; std::vector<ILenum> types{std::begin(ALLTYPE), std::end(ALLTYPE)}; int content = -1; int colours = 0; bool palcover = true; bool wide = true; };
inline int rnd_dim(Rng &r, int mx) { int k = r.below(10); if (k == 0) return 1; if (k == 1) return std::min(mx, 2); if (k == 2) return std::min(mx, 3); if (k == 3) return std::min(mx, 1 << r.below(6)); if (k == 4) return std::max(1, std::min(mx, (1 << r.below(6)) + r.range(-1, 1))); return r.range(1, mx); }
inline Img rnd_img(Rng &r, const ImgOpt &o = ImgOpt()) {
    Img m; m.w = rnd_dim(r, o.maxw); m.h = rnd_dim(r, o.maxh); m.d = o.maxd > 1 && r.chance(50) ? r.range(1, o.maxd) : 1; m.fmt = r.pick(o.fmts);
    if (o.wide && o.maxw >= 10 && o.maxh >= 10 && r.below(200) == 0) { int big = r.pick({260, 520, 1030, 1370, 2050, 4100, 4200, 4200, 16400}), few = r.range(1, 3); if (r.chance(60)) m.w = big + r.range(-6, 6), m.h = few; else m.h = big / 4 + r.range(-6, 6), m.w = few; m.d = o.maxd > 1 && m.d > 1 ? 2 : 1; }
    do m.type = r.pick(o.types); while (m.fmt == IL_COLOUR_INDEX && tsz(m.type) != 1 && [&] { for (ILenum t : o.types) if (tsz(t) == 1) return true; m.type = IL_UNSIGNED_BYTE; return false; }());
    m.origin = r.chance(50) ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT; m.data.resize(m.size());
    int c = o.content >= 0 ? o.content : (int)r.below(7), ch = nch(m.fmt), ts = tsz(m.type);
    int ncol = 256;
    if (m.fmt == IL_COLOUR_INDEX) { m.type = m.type == IL_BYTE ? IL_BYTE : IL_UNSIGNED_BYTE; ncol = o.colours ? o.colours : r.pick<int>({2, 3, 16, 17, 100, 255, 256, 256, 256}); m.palType = r.pick(PALTYPES); m.pal.resize(ncol * palbpp(m.palType)); for (auto &b : m.pal) b = r.u32(); if (r.chance(20)) for (int i = 0; i < ncol; i++) for (int k = 0; k < 3; k++) m.pal[i * palbpp(m.palType) + k] = i * 255 / std::max(1, ncol - 1); }
    double base[4]; for (double &b : base) b = r.unit(); std::vector<double> few; for (int i = 0; i < 8; i++) few.push_back(r.unit());
    for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) for (int k = 0; k < ch; k++) {
        double v; switch (c) { case 0: v = base[k]; break; case 1: v = (x + y + z + k) / (double)(m.w + m.h + m.d + 3); break; case 2: v = r.below(2); break; case 3: v = few[r.below(8)]; break; case 4: v = (x / 3 + y / 2 + k) % 4 / 3.0; break; default: v = r.unit(); if (r.chance(5)) v = r.below(2); }
        uint8_t *p = m.px(x, y, z) + k * ts;
        if (m.fmt == IL_COLOUR_INDEX) *p = (uint8_t)(v * (ncol - 1) + 0.5); else if (isflt(m.type)) putraw(p, m.type, v); else if (c >= 5) { uint64_t q = r.next(); memcpy(p, &q, ts); if (r.chance(5)) memset(p, r.chance(50) ? 255 : 0, ts); } else putnorm(p, m.type, v);
    }
    return m;
}
