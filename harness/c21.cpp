// C21: geometric operations
#include "ilu.h"
void vh_setup() { ilu_setup(); }
static bool isclear(const uint8_t *p, const Img &g, const RGBAd &c) { double v[4]; if (g.fmt == IL_COLOUR_INDEX) return p[0] == 0; clearchan(c, g.fmt, v); for (int k = 0; k < nch(g.fmt); k++) { double q = normval(p + k * tsz(g.type), g.type), tol = isflt(g.type) ? (g.type == IL_HALF ? 2e-3 : 1e-5) : 1.6 / tmax(g.type) + 2e-7; if (islum(g.fmt) && k == 0) tol = std::max(tol, 1.6 / 255); if (fabs(q - v[k]) > tol) return false; } return true; }
static void shape(const char *what, const Img &g, const Img &m, int w, int h, int d) { if (g.w != w || g.h != h || g.d != d) vh_fail("size", "%s made %s from %s, should be %dx%dx%d", what, g.str().c_str(), m.str().c_str(), w, h, d); if (g.fmt != m.fmt || g.type != m.type || g.origin != m.origin || g.palType != m.palType || g.pal != m.pal) vh_fail("kind", "%s made %s from %s", what, g.str().c_str(), m.str().c_str()); }
template <class F> static void moved(const char *what, const Img &g, const Img &m, F src) { for (int z = 0; z < g.d; z++) for (int y = 0; y < g.h; y++) for (int x = 0; x < g.w; x++) { int X = x, Y = y, Z = z; src(X, Y, Z); if (memcmp(g.px(x, y, z), m.px(X, Y, Z), m.bpp())) vh_fail("value", "%s: pixel (%d,%d,%d) is not pixel (%d,%d,%d) of %s", what, x, y, z, X, Y, Z, m.str().c_str()); } vh_count("pixels", (uint64_t)g.w * g.h * g.d); }
void vh_case(Rng &r, uint64_t) {
    ilu_begin(r); static const char *nm[] = {"flip", "mirror", "crop", "canvas", "swap", "turn", "rotate", "wave", "badcrop", "badcanvas"}; int op = r.below(10);
    ImgOpt o; o.maxw = o.maxh = r.chance(8) ? 70 : 14; o.maxd = 4; Img m = rnd_img(r, o); if (op == 6 && m.fmt == IL_COLOUR_INDEX) { o.fmts.assign(std::begin(DIRFMT), std::end(DIRFMT)); m = rnd_img(r, o); }
    put(m); RGBAd clr = {r.below(256) / 255., r.below(256) / 255., r.below(256) / 255., r.below(256) / 255.}; ilClearColour(clr.r, clr.g, clr.b, clr.a); vh_phase("%s", nm[op]); vh_context("%s %s", nm[op], m.str().c_str()); uint64_t sig = vh_mix(m.hash(), op);
    switch (op) {
    case 0: { if (!iluFlipImage()) vh_fail("refused", "flip of %s failed with 0x%x", m.str().c_str(), ilGetError()); Img g = ilu_take("flip"); shape("flip", g, m, m.w, m.h, m.d); moved("flip", g, m, [&](int &, int &y, int &) { y = m.h - 1 - y; }); if (!iluFlipImage() || !grab().same(m)) vh_fail("twice", "flipping %s twice does not restore it", m.str().c_str()); break; }
    case 1: { if (!iluMirror()) vh_fail("refused", "mirror of %s failed with 0x%x", m.str().c_str(), ilGetError()); Img g = ilu_take("mirror"); shape("mirror", g, m, m.w, m.h, m.d); moved("mirror", g, m, [&](int &x, int &, int &) { x = m.w - 1 - x; }); if (!iluMirror() || !grab().same(m)) vh_fail("twice", "mirroring %s twice does not restore it", m.str().c_str()); break; }
    case 2: { int w = r.range(1, m.w), h = r.range(1, m.h), d = r.range(1, m.d), x0 = r.range(0, m.w - w), y0 = r.range(0, m.h - h), z0 = r.range(0, m.d - d); int za = z0, da = d; if (m.d == 1 && r.chance(30)) { za = r.below(2); da = r.pick<int>({0, 1}); } vh_context("crop %s by %d,%d,%d %dx%dx%d", m.str().c_str(), x0, y0, za, w, h, da); if (!iluCrop(x0, y0, za, w, h, da)) vh_fail("refused", "crop of %s by (%d,%d,%d %dx%dx%d) failed with 0x%x", m.str().c_str(), x0, y0, za, w, h, da, ilGetError()); Img g = ilu_take("crop"); shape("crop", g, m, w, h, d); moved("crop", g, m, [&](int &x, int &y, int &z) { x += x0; y += y0; z += z0; }); sig = vh_mix(sig, w * 77 + h + x0 * 991 + y0 * 31); break; }
    case 3: { int w = m.w + r.below(6), h = m.h + r.below(6), d = m.d + (r.chance(30) ? r.below(3) : 0); static const ILenum P[] = {ILU_LOWER_LEFT, ILU_LOWER_RIGHT, ILU_UPPER_LEFT, ILU_UPPER_RIGHT, ILU_CENTER}; ILenum pl = r.pick(P); iluImageParameter(ILU_PLACEMENT, pl); vh_context("canvas %s to %dx%dx%d placement %x", m.str().c_str(), w, h, d, pl); bool ok = iluEnlargeCanvas(w, h, d); ILenum e = ilGetError(); iluImageParameter(ILU_PLACEMENT, ILU_CENTER); if (!ok) vh_fail("refused", "canvas of %s to %dx%dx%d failed with 0x%x", m.str().c_str(), w, h, d, e);
        Img g = ilu_take("canvas"); shape("canvas", g, m, w, h, d); bool up = pl == ILU_UPPER_LEFT || pl == ILU_UPPER_RIGHT, right = pl == ILU_LOWER_RIGHT || pl == ILU_UPPER_RIGHT, first = up == (m.origin == IL_ORIGIN_UPPER_LEFT); int ax = pl == ILU_CENTER ? (w - m.w) / 2 : right ? w - m.w : 0, ay = pl == ILU_CENTER ? (h - m.h) / 2 : first ? 0 : h - m.h;
        for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int X = x - ax, Y = y - ay; if (z < m.d && X >= 0 && X < m.w && Y >= 0 && Y < m.h) { if (memcmp(g.px(x, y, z), m.px(X, Y, z), m.bpp())) vh_fail("value", "canvas of %s to %dx%dx%d placement %x: pixel (%d,%d,%d) is not pixel (%d,%d)", m.str().c_str(), w, h, d, pl, x, y, z, X, Y); } else { vh_count("outside_pixels"); if (!isclear(g.px(x, y, z), g, clr)) vh_fail("clear", "canvas of %s to %dx%dx%d placement %x: pixel (%d,%d,%d) outside is not the clear colour (%g %g %g %g)", m.str().c_str(), w, h, d, pl, x, y, z, clr.r, clr.g, clr.b, clr.a); } } sig = vh_mix(sig, w * 77 + h + pl * 31); break; }
    case 4: { bool can = iscol(m.fmt); bool ok = iluSwapColours(); if (!can) { ilu_refused("swap colours", ok, m); break; } if (!ok) vh_fail("refused", "swapping the colours of %s failed with 0x%x", m.str().c_str(), ilGetError()); Img g = ilu_take("swap"), want = m;
        if (m.fmt == IL_COLOUR_INDEX) { static const ILenum A[] = {IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32}; for (int i = 0; i < 6; i++) if (A[i] == m.palType) { want.palType = A[(i + 3) % 6]; break; } int b = palbpp(m.palType); for (size_t i = 0; i + b <= want.pal.size(); i += b) std::swap(want.pal[i], want.pal[i + 2]); if (g.pal.size() == want.pal.size() && (m.palType == IL_PAL_RGB32 || m.palType == IL_PAL_BGR32)) for (size_t i = 3; i < want.pal.size(); i += 4) want.pal[i] = g.pal[i]; }
        else { want.fmt = m.fmt == IL_RGB ? IL_BGR : m.fmt == IL_BGR ? IL_RGB : m.fmt == IL_RGBA ? IL_BGRA : IL_RGBA; int ts = tsz(m.type); for (size_t i = 0; i < want.data.size(); i += m.bpp()) for (int k = 0; k < ts; k++) std::swap(want.data[i + k], want.data[i + 2 * ts + k]); }
        if (!g.same(want)) vh_fail("value", "swapping the colours of %s: %s", m.str().c_str(), imgdiff(g, want).c_str()); break; }
    case 5: { int q = r.below(4), k = r.range(-2, 2); float a = q * 90 + 360 * k; vh_context("turn %s by %g", m.str().c_str(), a); if (!iluRotate(a)) vh_fail("refused", "rotating %s by %g failed with 0x%x", m.str().c_str(), a, ilGetError()); Img g = ilu_take("turn"); shape("turn", g, m, q & 1 ? m.h : m.w, q & 1 ? m.w : m.h, m.d);
        moved("turn", g, m, [&](int &x, int &y, int &) { int X = x, Y = y; if (q == 1) { x = Y; y = m.h - 1 - X; } else if (q == 2) { x = m.w - 1 - X; y = m.h - 1 - Y; } else if (q == 3) { x = m.w - 1 - Y; y = X; } }); sig = vh_mix(sig, q); break; }
    case 6: { float a = (float)(r.unit() * 720 - 360); if (r.chance(20)) a = r.pick<int>({1, 45, 135, 30, -45, 89, 91}); vh_context("rotate %s by %g", m.str().c_str(), a); if (!iluRotate(a)) vh_fail("refused", "rotating %s by %g failed with 0x%x", m.str().c_str(), a, ilGetError()); Img g = ilu_take("rotate"); double c = cos(a * M_PI / 180), s = sin(a * M_PI / 180), ew = fabs(m.w * c) + fabs(m.h * s), eh = fabs(m.h * c) + fabs(m.w * s); if (fabs(g.w - ew) > 2.01 || fabs(g.h - eh) > 2.01 || g.d != m.d) vh_fail("size", "rotating %s by %g made %s, should be about %.1fx%.1f", m.str().c_str(), a, g.str().c_str(), ew, eh); shape("rotate", g, m, g.w, g.h, m.d);
        for (int z = 0; z < g.d; z++) for (int y = 0; y < g.h; y++) for (int x = 0; x < g.w; x++) { // back into the source
            double cx = x + 0.5 - ew / 2, cy = y + 0.5 - eh / 2, sx = cx * c + cy * s + m.w / 2.0, sy = cy * c - cx * s + m.h / 2.0; bool ok = false; for (int Y = (int)floor(sy) - 3; !ok && Y <= sy + 3; Y++) for (int X = (int)floor(sx) - 3; !ok && X <= sx + 3; X++) { if (X < 0 || Y < 0 || X >= m.w || Y >= m.h) { if (isclear(g.px(x, y, z), g, clr)) ok = true; } else if (!memcmp(g.px(x, y, z), m.px(X, Y, z), m.bpp())) ok = true; }
            if (!ok) vh_fail("value", "rotating %s by %g: pixel (%d,%d,%d) is not one of those around (%.1f,%.1f)", m.str().c_str(), a, x, y, z, sx, sy); } sig = vh_mix(sig, (int)(a * 100)); vh_count("pixels", (uint64_t)g.w * g.h * g.d); break; }
    case 7: { float a = (float)(r.unit() * 80 - 40); if (!iluWave(a)) vh_fail("refused", "wave of %s failed with 0x%x", m.str().c_str(), ilGetError()); Img g = ilu_take("wave"); shape("wave", g, m, m.w, m.h, m.d);
        for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) { double dd = 30 * sin((10 * a + y) * M_PI / 180) + 15 * sin((7 * a + 3 * y) * M_PI / 180); bool any = false; for (int e = -1; e <= 1 && !any; e++) { int D = (int)dd + e; bool ok = true; for (int x = 0; x < m.w && ok; x++) { int X = (((x - D) % m.w) + m.w) % m.w; ok = !memcmp(g.px(x, y, z), m.px(X, y, z), m.bpp()); } any = ok; } if (!any) vh_fail("value", "wave(%g) of %s: row %d is not row %d shifted by about %.2f", a, m.str().c_str(), y, y, dd); } vh_count("pixels", (uint64_t)g.w * g.h * g.d); break; }
    case 8: { ILuint big[] = {0x7fffffffu, 0xffffffffu, 0xfffffff0u, 0x80000000u}; ILuint x = r.below(m.w), y = r.below(m.h), z = r.below(m.d), w = m.w - x, h = m.h - y, d = m.d - z; switch (r.below(8)) { case 0: w = 0; break; case 1: h = 0; break; case 2: x = m.w + r.below(3); w = 1; break; case 3: y = m.h + r.below(3); h = 1; break; case 4: w += r.range(1, 3); break; case 5: h += r.range(1, 3); break; case 6: (r.chance(50) ? x : y) = r.pick(big); break; case 7: (r.chance(50) ? w : h) = r.pick(big); break; } if (m.d > 1 && r.chance(30)) { z = r.below(m.d); d = m.d - z + 1 + r.below(2); } vh_context("crop %s by %u,%u,%u %ux%ux%u", m.str().c_str(), x, y, z, w, h, d); ilu_refused("impossible crop", iluCrop(x, y, z, w, h, d), m); break; }
    case 9: { int w = m.w, h = m.h, d = m.d; switch (r.below(3)) { case 0: w = r.below(m.w); break; case 1: h = r.below(m.h); break; case 2: d = r.below(m.d); break; } vh_context("canvas %s to %dx%dx%d", m.str().c_str(), w, h, d); ilu_refused("impossible canvas", iluEnlargeCanvas(w, h, d), m); break; }
    }
    ilu_end(nm[op]); vh_count("cases"); vh_count((std::string("op_") + nm[op]).c_str()); vh_distinct(sig); vh_sample("%s %s", nm[op], m.str().c_str());
}
