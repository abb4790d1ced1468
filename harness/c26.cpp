// C26: block-compressed data decodes and encodes as DXT defines
#include "file.h"
#include "conv.h"
ILubyte *ILAPIENTRY ilGetDxtcData();
void vh_setup() { vmem_install(); ilInit(); iluInit(); }
struct Fmt { ILenum f; int kind; const char *n; };
static const Fmt FMTS[] = {{IL_DXT1, 1, "DXT1"}, {IL_DXT1A, 1, "DXT1A"}, {IL_DXT3, 3, "DXT3"}, {IL_DXT5, 5, "DXT5"}, {IL_ATI1N, 6, "ATI1N"}, {IL_3DC, 8, "3DC"}, {IL_RXGB, 7, "RXGB"}};
static size_t bsize(int w, int h, int d, int kind) { return (size_t)d * bc_size(w, h, kind == 8 ? 5 : kind); }
static Frame decode(const uint8_t *b, int w, int h, int kind) {
    if (kind != 8) return bc_decode(b, w, h, kind);
    Frame f; f.size(w, h); for (int y = 0; y < h; y += 4) for (int x = 0; x < w; x += 4) { double g[16], rr[16]; bc_alpha(b, g); bc_alpha(b + 8, rr); b += 16; for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) if (x + i < w && y + j < h) f.px[(y + j) * w + x + i] = RGBAd{rr[j * 4 + i], g[j * 4 + i], 0, 1}; } return f;
}
// is this compressed picture of one slice of the image as good as the format allows?
static std::string quality(const Img &m, int z, const uint8_t *b, int kind, bool squish, int content) {
    Frame f = decode(b, m.w, m.h, kind); char s[300]; const double U = 1 / 255.;
    for (int y0 = 0; y0 < m.h; y0 += 4) for (int x0 = 0; x0 < m.w; x0 += 4) {
        RGBAd lo = {9, 9, 9, 9}, hi = {-9, -9, -9, -9}; std::set<std::vector<int>> cols, alphas; bool rep = true, repa = true, transp = false; int n = 0;
        auto src = [&](int x, int y) { RGBAd q = m.rgba(x, uly(m, y), z); if (kind == 6) { double l = m.fmt == IL_ALPHA ? q.a : islum(m.fmt) ? q.r : q.r * LUMW[0] + q.g * LUMW[1] + q.b * LUMW[2]; q = RGBAd{l, l, l, 1}; } return q; };
        for (int y = y0; y < std::min(y0 + 4, m.h); y++) for (int x = x0; x < std::min(x0 + 4, m.w); x++) { RGBAd q = src(x, y); n++; lo = RGBAd{std::min(lo.r, q.r), std::min(lo.g, q.g), std::min(lo.b, q.b), std::min(lo.a, q.a)}; hi = RGBAd{std::max(hi.r, q.r), std::max(hi.g, q.g), std::max(hi.b, q.b), std::max(hi.a, q.a)};
            int c[4] = {(int)floor(q.r * 255 + .5), (int)floor(q.g * 255 + .5), (int)floor(q.b * 255 + .5), (int)floor(q.a * 255 + .5)}; cols.insert({c[0], c[1], c[2]}); alphas.insert({c[3]}); for (int k = 0; k < 3; k++) { int t = k == 1 ? c[k] >> 2 << 2 | c[k] >> 6 : c[k] >> 3 << 3 | c[k] >> 5; double v = k == 0 ? q.r : k == 1 ? q.g : q.b; if (t != c[k] || fabs(v * 255 - c[k]) > 1e-3) rep = false; } if (fabs(q.a * 255 - c[3]) > 1e-3 || (kind == 3 && c[3] % 17)) repa = false; if (c[3] < 128) transp = true; }
        bool exactc = rep && cols.size() <= 2 && !squish && kind != 6 && kind != 8, exacta = repa && alphas.size() <= 2 && !squish;
        for (int y = y0; y < std::min(y0 + 4, m.h); y++) for (int x = x0; x < std::min(x0 + 4, m.w); x++) {
            RGBAd q = src(x, y), g = f.at(x, y); const double a[4] = {q.r, q.g, q.b, q.a}, v[4] = {g.r, g.g, g.b, g.a}, l[4] = {lo.r, lo.g, lo.b, lo.a}, h[4] = {hi.r, hi.g, hi.b, hi.a}; bool hidden = false;
            if (kind == 1) { bool tr = v[3] < .5, amb = fabs(a[3] * 255 - 127.5) < 1.1; if (!amb && tr != (a[3] * 255 < 127.5)) { snprintf(s, 300, "texel (%d,%d,%d) with alpha %.4g decodes with alpha %.4g", x, y, z, a[3], v[3]); return s; } hidden = tr || amb; }
            for (int k = 0; k < 4; k++) { double t, e = fabs(a[k] - v[k]), rg = h[k] - l[k]; bool al;
                if (k == 3) { if (kind != 3 && kind != 5) continue; al = true; } else if (kind == 6) al = true; else if (kind == 7) al = k == 0; else if (kind == 8) { if (k == 2) continue; al = true; } else { if (hidden) continue; al = false; }
                if (al) { if (kind == 3) t = (squish ? 9 : 16) * U; else t = rg / 10 + (kind == 6 ? 3.1 : 2) * U; if (squish) t += 3 * U; if (kind != 6 && kind != 8 && exacta && k == 3) t = 0.01 * U; if (m.type == IL_HALF || isflt(m.type)) t += U; if (e > t) { snprintf(s, 300, "texel (%d,%d,%d) channel %d is %.4g and decodes as %.4g (the block has values from %.4g to %.4g)", x, y, z, k, a[k], v[k], l[k], h[k]); return s; } continue; }
                t = rg + (kind == 7 ? 9 : 6) * U; if (content == 1) t = rg * (kind == 1 && transp ? .25 : 1 / 6.) + (kind == 7 ? 14 : 10) * U; if (squish) t = rg * (content == 1 ? .4 : 1) + 16 * U; if (exactc) t = 0.75 * U; if (m.type == IL_HALF) t += U;
                if (e > t) { snprintf(s, 300, "texel (%d,%d,%d) channel %d is %.4g and decodes as %.4g (%zu colours in the block, values from %.4g to %.4g)", x, y, z, k, a[k], v[k], cols.size(), l[k], h[k]); return s; } } }
        vh_count(exactc ? "exact_blocks" : "close_blocks"); if (transp && kind == 1) vh_count("transparent_blocks"); if (n < 16) vh_count("partial_blocks"); }
    return "";
}
static double rep5(int v) { return (v << 3 | v >> 2) / 255.; } static double rep6(int v) { return (v << 2 | v >> 4) / 255.; }
// content 0: at most two representable colours and alphas in each block, 1: colours on a line in each block, 2: anything
static Img source(Rng &r, int content, int kind) {
    ImgOpt o; o.maxw = o.maxh = 14; o.maxd = 3; if (content < 2) { o.fmts = {IL_RGB, IL_BGR, IL_RGBA, IL_BGRA}; o.types = {IL_UNSIGNED_BYTE, IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_FLOAT, IL_BYTE}; } Img m = rnd_img(r, o); if (content == 2) return m;
    auto chan = [&](int x, int y, int z, RGBAd q) { y = uly(m, y); bool bgr = m.fmt == IL_BGR || m.fmt == IL_BGRA; m.setn(x, y, z, 0, bgr ? q.b : q.r); m.setn(x, y, z, 1, q.g); m.setn(x, y, z, 2, bgr ? q.r : q.b); if (nch(m.fmt) == 4) m.setn(x, y, z, 3, q.a); };
    for (int z = 0; z < m.d; z++) for (int y0 = 0; y0 < m.h; y0 += 4) for (int x0 = 0; x0 < m.w; x0 += 4) {
        RGBAd c[2]; int am = r.below(4); for (int k = 0; k < 2; k++) { int v[3] = {(int)r.below(32), (int)r.below(64), (int)r.below(32)}; if (r.chance(30)) for (int &t : v) t = r.chance(50) ? 0 : 63; if (r.chance(20)) v[0] = v[2] = v[1] = r.pick({0, 8, 31}); c[k] = RGBAd{rep5(v[0] & 31), rep6(v[1]), rep5(v[2] & 31), am == 0 ? 1. : kind == 3 ? r.below(16) * 17 / 255. : r.below(256) / 255.}; }
        if (content == 0 && r.chance(25)) { c[1] = RGBAd{c[0].b, c[0].g, c[0].r, c[1].a}; } // as bright as each other
        if (content == 1) { RGBAd a = c[0]; double q = r.unit(); c[1] = RGBAd{a.r + (1 - a.r) * q * r.unit(), a.g + (1 - a.g) * q * r.unit(), a.b + (1 - a.b) * q * r.unit(), c[1].a}; }
        for (int y = y0; y < std::min(y0 + 4, m.h); y++) for (int x = x0; x < std::min(x0 + 4, m.w); x++) { double t = content == 1 ? r.unit() : r.below(2), ta = r.chance(50) ? t : content == 1 ? r.unit() : r.below(2); RGBAd q = {c[0].r + (c[1].r - c[0].r) * t, c[0].g + (c[1].g - c[0].g) * t, c[0].b + (c[1].b - c[0].b) * t, c[0].a + (c[1].a - c[0].a) * ta}; chan(x, y, z, q); } }
    return m;
}
static uint32_t u32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static std::string compressed(const Img &m, const Bytes &b, int kind, bool squish, int content) { if (b.size() != bsize(m.w, m.h, m.d, kind)) return "has " + std::to_string(b.size()) + " bytes instead of " + std::to_string(bsize(m.w, m.h, m.d, kind)); for (int z = 0; z < m.d; z++) { std::string e = quality(m, z, b.data() + bsize(m.w, m.h, z, kind), kind, squish && m.d == 1 && kind <= 5, content); if (!e.empty()) return e; } return ""; }
static std::string decoded(const Img &m, const Bytes &b, int kind) { for (int z = 0; z < m.d; z++) { std::string e = framediff(m, decode(b.data() + bsize(m.w, m.h, z, kind), m.w, m.h, kind), 1.6 / 255, true, false, z); if (!e.empty()) return "slice " + std::to_string(z) + ": " + e; } return ""; }
static void wf(const char *what) { std::string e = wellformed(ilGetCurImage()); if (!e.empty()) vh_fail("malformed", "after %s: %s", what, e.c_str()); }
static void noerr(const char *what) { ILenum e = ilGetError(); if (e != IL_NO_ERROR) vh_fail("spurious-error", "%s raised %s", what, ilerr(e)); }
void vh_case(Rng &r, uint64_t) {
    vmem.fail_after = -1; clear_errors(); ilDisable(IL_ORIGIN_SET); bool squish = r.chance(30); squish ? ilEnable(IL_SQUISH_COMPRESS) : ilDisable(IL_SQUISH_COMPRESS); ilDisable(IL_NVIDIA_COMPRESS);
    static ILuint id = 0; if (!id) id = ilGenImage(); ilBindImage(id); const Fmt &f = FMTS[r.below(7)]; int op = vh_arg("op", "")[0] ? 5 + (int)r.below(2) : (int)r.below(7); uint64_t sig = op;
    if (op <= 1) { // decoding data fed through the API
        int w = rnd_dim(r, 18), h = rnd_dim(r, 18), d = r.chance(30) ? r.range(1, 3) : 1; int kind = f.kind; Bytes b; for (int z = 0; z < d; z++) { Bytes t = rnd_blocks(r, w, h, kind == 8 ? 5 : kind); b.insert(b.end(), t.begin(), t.end()); } vh_context("feed %s %dx%dx%d", f.n, w, h, d); vh_input(b.data(), b.size()); sig = vh_hash(b.data(), b.size(), sig);
        { Img m = rnd_img(r); put(m); } Bytes c(b); if (!ilTexImageDxtc(w, h, d, f.f, c.data())) vh_fail("tex-refused", "%s %dx%dx%d is refused: %s", f.n, w, h, d, ilerr(ilGetError())); noerr("ilTexImageDxtc"); wf("ilTexImageDxtc");
        if (ilGetInteger(IL_IMAGE_WIDTH) != w || ilGetInteger(IL_IMAGE_HEIGHT) != h || ilGetInteger(IL_IMAGE_DEPTH) != d) vh_fail("tex-size", "%dx%dx%d became %dx%dx%d", w, h, d, ilGetInteger(IL_IMAGE_WIDTH), ilGetInteger(IL_IMAGE_HEIGHT), ilGetInteger(IL_IMAGE_DEPTH));
        if ((ILenum)ilGetInteger(IL_DXTC_DATA_FORMAT) != f.f) vh_fail("tex-format", "fed %s, the format is reported as 0x%x", f.n, ilGetInteger(IL_DXTC_DATA_FORMAT)); ILubyte *p = ilGetDxtcData(); if (!p || memcmp(p, b.data(), b.size())) vh_fail("tex-data", "%s: the data kept is not the data given", f.n);
        { Bytes q(b.size()); ILuint n = ilGetDXTCData(q.data(), q.size(), f.f); if (n != b.size() || q != b) vh_fail("tex-get", "%s: reading the data back gives %u bytes of %zu, %s", f.n, n, b.size(), q == b ? "equal" : "different"); if (r.chance(30)) { Bytes part(r.below((int)b.size()) + 1); n = ilGetDXTCData(part.data(), part.size(), f.f); if (n != part.size() || memcmp(part.data(), b.data(), n)) vh_fail("tex-part", "%s: into a buffer of %zu of %zu bytes %u are read", f.n, part.size(), b.size(), n); } }
        int inv = r.below(4); Bytes exp(b); double tol = 1.6 / 255; std::vector<Frame> fr; if (kind <= 5) for (int z = 0; z < d; z++) fr.push_back(decode(b.data() + bsize(w, h, z, kind), w, h, kind));
        if (inv == 1 && kind <= 5) { bool can = kind != 1, ok = ilInvertSurfaceDxtcDataAlpha(); if (ok != can) vh_fail("invert-result", "inverting the alpha of %s %s", f.n, ok ? "succeeds" : "fails"); clear_errors(); if (can) { for (auto &q : fr) for (auto &c : q.px) c.a = 1 - c.a; tol = 2.6 / 255; vh_count("inverted"); } }
        if (inv == 2 && kind <= 5 && f.f != IL_DXT1A && (h % 4 == 0 || h == 1)) { ilFlipSurfaceDxtcData(); if (h > 1) for (auto &q : fr) for (int y = 0; y < h / 2; y++) for (int x = 0; x < w; x++) std::swap(q.px[y * w + x], q.px[(h - 1 - y) * w + x]); if (h > 1) vh_count("flipped"); else { fr.clear(); } clear_errors(); }
        bool om = r.chance(30); if (om) { ilEnable(IL_ORIGIN_SET); ilOriginFunc(r.chance(50) ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT); } bool whole = r.chance(40), ok = whole ? ilDxtcDataToImage() : ilDxtcDataToSurface(); ilDisable(IL_ORIGIN_SET); bool can = kind <= 5;
        if (ok != can) vh_fail("decode-result", "decompressing %s %s: %s", f.n, ok ? "succeeds" : "fails", ilerr(ilGetError())); wf("decompressing"); if (can) { noerr("decompressing"); Img m = grab("decompressed"); if (m.w != w || m.h != h || m.d != d) vh_fail("decode-size", "became %s", m.str().c_str()); for (size_t z = 0; z < fr.size(); z++) { std::string e = framediff(m, fr[z], tol, true, false, z); if (!e.empty()) vh_fail("decode", "%s %dx%dx%d slice %zu%s: %s", f.n, w, h, d, z, inv == 1 ? " inverted" : inv == 2 ? " flipped" : "", e.c_str()); } vh_count("decoded", fr.size()); }
    } else if (op == 2) { // bad requests
        Img m = rnd_img(r); put(m); Node before = snap(ilGetCurImage()); int k = r.below(6); bool ok; ILubyte t[64] = {0}; vh_context("bad request %d", k);
        switch (k) { case 0: ok = ilTexImageDxtc(r.pick({0, -4, 8}), r.pick({0, -1}), 1, IL_DXT5, t); break; case 1: ok = ilTexImageDxtc(4, 4, 1, r.pick({IL_RGB, 0, IL_DXT_NO_COMP}), t); break; case 2: ok = ilTexImageDxtc(0x7fffffff, 0x7fffffff, 0x7fffffff, IL_DXT1, t); break; case 3: ok = ilDxtcDataToSurface(); break; case 4: ok = ilGetDXTCData(t, 64, r.pick({IL_DXT2, IL_DXT4, IL_RGB, 0})) != 0; break; default: { ILuint n; ok = ilCompressDXT(r.chance(50) ? NULL : t, r.pick({0, 4}), 0, 1, IL_DXT1, &n) != NULL; break; } }
        if (ok) vh_fail("accepted", "bad request %d succeeds", k); if (ilGetError() == IL_NO_ERROR) vh_fail("silent", "bad request %d fails without an error", k); std::string e = nodediff(before, snap(ilGetCurImage())); if (!e.empty()) vh_fail("bad-changed", "bad request %d changed the image: %s", k, e.c_str()); vh_count("refused"); sig = vh_mix(before.img.hash(), k);
    } else if (op <= 4) { // compressing
        int content = r.below(3); Img m = source(r, content, f.kind); if (m.fmt == IL_ALPHA && (f.kind == 7 || f.kind == 8)) m.fmt = IL_LUMINANCE; vh_context("compress %s to %s%s content %d", m.str().c_str(), f.n, squish ? " (squish)" : "", content); put(m); Node before = snap(ilGetCurImage()); sig = vh_mix(vh_mix(m.hash(), f.f), squish);
        ILuint n = ilGetDXTCData(NULL, 0, f.f); if (n != bsize(m.w, m.h, m.d, f.kind)) vh_fail("size", "%s as %s needs %u bytes, should be %zu", m.str().c_str(), f.n, n, bsize(m.w, m.h, m.d, f.kind)); Bytes b; int how = r.below(3);
        if (how == 0) { b.resize(n); ILuint k = ilGetDXTCData(b.data(), n, f.f); if (k != n) vh_fail("written", "%s as %s: the size is %u, %u bytes are written (%s)", m.str().c_str(), f.n, n, k, ilerr(ilGetError())); if (r.chance(20)) { Bytes part(r.range(1, n - 1)); ILuint q = ilGetDXTCData(part.data(), part.size(), f.f); if (q != part.size() || memcmp(part.data(), b.data(), q)) vh_fail("part", "into a buffer of %zu of %u bytes %u are written", part.size(), n, q); } }
        else if (how == 1) { if (!ilSurfaceToDxtcData(f.f)) vh_fail("to-data", "%s does not become %s: %s", m.str().c_str(), f.n, ilerr(ilGetError())); if ((ILenum)ilGetInteger(IL_DXTC_DATA_FORMAT) != f.f || !ilGetDxtcData()) vh_fail("to-data-format", "compressed data of format 0x%x", ilGetInteger(IL_DXTC_DATA_FORMAT)); b.assign(ilGetDxtcData(), ilGetDxtcData() + n); if (f.kind <= 5 && r.chance(50)) { if (!ilDxtcDataToSurface()) vh_fail("back", "compressed data does not decompress: %s", ilerr(ilGetError())); wf("decompressing"); Img q = grab("back"); std::string e = decoded(q, b, f.kind); if (!e.empty()) vh_fail("back-decode", "%s", e.c_str()); before = snap(ilGetCurImage()); vh_count("round_trips"); } }
        else { Img g = m; if (f.kind > 5) { vh_distinct(sig); return; } g.fmt = IL_RGBA; g.type = IL_UNSIGNED_BYTE; g.origin = IL_ORIGIN_UPPER_LEFT; g.palType = IL_PAL_NONE; g.pal.clear(); g.data.resize(g.size()); for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { RGBAd q = m.rgba(x, y, z); for (int c = 0; c < 3; c++) g.setn(x, y, z, c, q.g); g.setn(x, y, z, 3, q.a); } ILuint sz = 0; if (r.chance(30)) ilBindImage(0); ILubyte *p = ilCompressDXT(g.data.data(), g.w, g.h, g.d, f.f, &sz); if (!p) vh_fail("compress", "%s is not compressed to %s: %s", g.str().c_str(), f.n, ilerr(ilGetError())); ilBindImage(id); b.assign(p, p + sz); vmem_free(p); m = g; content = 2; vh_count("buffers"); }
        std::string e = compressed(m, b, f.kind, squish, content); if (!e.empty()) vh_fail(squish && f.kind <= 5 && m.d == 1 ? "encode-squish" : "encode", "%s as %s: %s", m.str().c_str(), f.n, e.c_str()); noerr("compressing"); e = nodediff(before, snap(ilGetCurImage())); if (!e.empty()) vh_fail("changed", "compressing changed the image: %s", e.c_str()); vh_count("compressed"); vh_count((std::string("as_") + f.n).c_str());
    } else { // files
        bool vtf = op == 6 && r.chance(40), cube = !vtf && r.chance(25); int content = r.below(3); const Fmt &ff = vtf ? FMTS[r.pick({0, 2, 3})] : f; Img m = source(r, content, ff.kind); if (m.fmt == IL_ALPHA) m.fmt = IL_LUMINANCE;
        if (vtf || cube) { ImgOpt o; o.maxw = o.maxh = 1; Img q = m; q.w = 1 << r.below(5); q.h = cube ? q.w : 1 << r.below(5); q.d = 1; q.data.assign(q.size(), 0); for (int y = 0; y < q.h; y++) for (int x = 0; x < q.w; x++) memcpy(q.px(x, y), m.px(x % m.w, y % m.h), m.bpp()); m = q; content = 2; }
        bool mips = !vtf && r.chance(50); vh_context("save %s as %s %s%s%s", m.str().c_str(), vtf ? "VTF" : "DDS", ff.n, cube ? " cube map" : "", mips ? " with mipmaps" : ""); put(m); sig = vh_mix(vh_mix(m.hash(), ff.f), squish * 2 + mips);
        std::vector<std::vector<Img>> lv(1); static const ILenum CF[6] = {IL_CUBEMAP_POSITIVEX, IL_CUBEMAP_NEGATIVEX, IL_CUBEMAP_POSITIVEY, IL_CUBEMAP_NEGATIVEY, IL_CUBEMAP_POSITIVEZ, IL_CUBEMAP_NEGATIVEZ};
        if (cube) { ilRegisterNumFaces(5); lv.resize(6); std::vector<int> ord = {0, 1, 2, 3, 4, 5}; for (int i = 5; i > 0; i--) std::swap(ord[i], ord[r.below(i + 1)]); for (int i = 0; i < 6; i++) { ilBindImage(id); if (i) { ilActiveFace(i); Img q = m; for (auto &c : q.data) if (q.fmt != IL_COLOUR_INDEX && !isflt(q.type)) c = r.u32(); ilTexImageSurface(q.w, q.h, 1, nch(q.fmt), q.fmt, q.type, q.data.data()); if (q.palType != IL_PAL_NONE) ilRegisterPal(q.pal.data(), q.pal.size(), q.palType); ilRegisterOrigin(q.origin); } ilSetInteger(IL_IMAGE_CUBEFLAGS, CF[ord[i]]); if (mips && !iluBuildMipmaps()) vh_fail("build", "mipmaps fail"); int f6 = ord[i]; ilBindImage(id); if (i) ilActiveFace(i); int nm = ilGetInteger(IL_NUM_MIPMAPS); for (int k = 0; k <= nm; k++) { ilBindImage(id); if (i) ilActiveFace(i); if (k) ilActiveMipmap(k); lv[f6].push_back(grab("level")); } } ilBindImage(id); content = 2; }
        else { if (mips && !iluBuildMipmaps()) vh_fail("build", "mipmaps fail"); int nm = ilGetInteger(IL_NUM_MIPMAPS); for (int k = 0; k <= nm; k++) { ilBindImage(id); if (k) ilActiveMipmap(k); lv[0].push_back(grab("level")); } ilBindImage(id); }
        clear_errors(); ilSetInteger(vtf ? IL_VTF_COMP : IL_DXTC_FORMAT, ff.f); Node before = snap(ilGetCurImage()); ILuint n = ilSaveL(vtf ? IL_VTF : IL_DDS, NULL, 0); if (!n) vh_fail("no-size", "%s: no size: %s", m.str().c_str(), ilerr(ilGetError())); Bytes b(n); ILuint k = ilSaveL(vtf ? IL_VTF : IL_DDS, b.data(), n); if (!k || k > n) vh_fail("save", "%s: size %u, %u bytes written: %s", m.str().c_str(), n, k, ilerr(ilGetError())); b.resize(k); ilSetInteger(IL_VTF_COMP, IL_DXT_NO_COMP); noerr("saving"); { std::string e = nodediff(before, snap(ilGetCurImage())); if (!e.empty()) vh_fail("save-changed", "saving changed the image: %s", e.c_str()); }
        vh_input(b.data(), b.size()); size_t pos; int kind = ff.kind; if (vtf) { pos = 80; if (b.size() < 80 || memcmp(b.data(), "VTF", 4) || (b[16] | b[17] << 8) != m.w || (b[18] | b[19] << 8) != m.h) vh_fail("vtf-header", "the header is wrong"); uint32_t want = ff.f == IL_DXT1 ? 20 : ff.f == IL_DXT3 ? 14 : 15; if (u32(&b[52]) != want) vh_fail("vtf-format", "format %u", u32(&b[52])); }
        else { pos = 128; static const char *cc[] = {"", "DXT1", "", "DXT3", "", "DXT5", "ATI1", "RXGB", "ATI2"}; if (b.size() < 128 || memcmp(b.data(), "DDS ", 4) || u32(&b[4]) != 124 || u32(&b[76]) != 32) vh_fail("dds-header", "the header is wrong"); if ((int)u32(&b[12]) != m.h || (int)u32(&b[16]) != m.w) vh_fail("dds-size", "%s is saved as %ux%u", m.str().c_str(), u32(&b[16]), u32(&b[12])); if (memcmp(&b[84], cc[kind], 4) || !(u32(&b[80]) & 4)) vh_fail("dds-fourcc", "%s is saved as %.4s", ff.n, &b[84]); if (u32(&b[20]) != bsize(m.w, m.h, m.d, kind)) vh_fail("dds-linear", "the first level has %zu bytes, the header says %u", bsize(m.w, m.h, m.d, kind), u32(&b[20])); if (m.d > 1 ? !(u32(&b[112]) & 0x200000) || (int)u32(&b[24]) != m.d : (u32(&b[112]) & 0x200000) != 0) vh_fail("dds-depth", "%s: caps %x depth %u", m.str().c_str(), u32(&b[112]), u32(&b[24])); if (u32(&b[28]) != lv[0].size()) vh_fail("dds-mips", "%zu levels, the header says %u", lv[0].size(), u32(&b[28])); if (cube ? (u32(&b[112]) & 0xfe00) != 0xfe00 : (u32(&b[112]) & 0xfe00) != 0) vh_fail("dds-cube", "%scube map with caps %x", cube ? "" : "not a ", u32(&b[112])); }
        for (size_t fc = 0; fc < lv.size(); fc++) for (size_t l = 0; l < lv[fc].size(); l++) { const Img &q = lv[fc][l]; size_t sz = bsize(q.w, q.h, q.d, kind); if (pos + sz > b.size()) vh_fail("short", "face %zu level %zu ends at %zu of %zu", fc, l, pos + sz, b.size()); Bytes part(b.begin() + pos, b.begin() + pos + sz); std::string e = compressed(q, part, kind, squish, l ? 2 : content); if (!e.empty()) vh_fail("file-encode", "face %zu level %zu: %s", fc, l, e.c_str()); pos += sz; }
        if (pos != b.size()) vh_fail("long", "the file has %zu bytes, its pictures end at %zu", b.size(), pos);
        ilBindImage(id); bool keep = r.chance(40); ilSetInteger(IL_KEEP_DXTC_DATA, keep); if (!load_mem(vtf ? IL_VTF : IL_DDS, b)) vh_fail("reload", "the file does not load: %s", ilerr(ilGetError())); ilSetInteger(IL_KEEP_DXTC_DATA, IL_FALSE); noerr("reloading"); wf("reloading"); Img q = grab("reloaded"); Bytes first(b.begin() + (vtf ? 80 : 128), b.begin() + (vtf ? 80 : 128) + bsize(m.w, m.h, m.d, kind)); if (kind <= 7 && !cube) { if (q.w != m.w || q.h != m.h || q.d != m.d) vh_fail("reload-size", "%s reloads as %s", m.str().c_str(), q.str().c_str()); std::string e = decoded(q, first, kind); if (!e.empty()) vh_fail("reload-decode", "%s", e.c_str()); }
        if (keep && (kind <= 5 || kind == 7) && !cube) { if (!ilGetDxtcData()) vh_fail("kept", "no data is kept of %s", ff.n); if (memcmp(ilGetDxtcData(), first.data(), first.size())) vh_fail("kept-data", "the data kept is not what the file holds"); vh_count("kept"); }
        vh_count(vtf ? "vtf_files" : "dds_files"); if (cube) vh_count("cube_maps"); if (mips) vh_count("mip_chains");
    }
    vh_sample("operation %d on %s", op, f.n);
    vh_distinct(sig);
}
