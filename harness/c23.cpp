// C23: scaling
#include "ilu.h"
void vh_setup() { ilu_setup(); }
typedef double (*Kern)(double);
static double kbox(double t) { return t > -0.5 && t <= 0.5 ? 1 : 0; }
static double ktri(double t) { t = fabs(t); return t < 1 ? 1 - t : 0; }
static double kbell(double t) { t = fabs(t); if (t < .5) return .75 - t * t; if (t < 1.5) { t -= 1.5; return .5 * t * t; } return 0; }
static double kbsp(double t) { t = fabs(t); if (t < 1) return .5 * t * t * t - t * t + 2. / 3; if (t < 2) { t = 2 - t; return t * t * t / 6; } return 0; }
static double ksinc(double x) { x *= M_PI; return x != 0 ? sin(x) / x : 1; }
static double klan(double t) { t = fabs(t); return t < 3 ? ksinc(t) * ksinc(t / 3) : 0; }
static double kmit(double t) { const double B = 1. / 3, C = 1. / 3; double q = t * t; t = fabs(t); if (t < 1) return ((12 - 9 * B - 6 * C) * t * q + (-18 + 12 * B + 6 * C) * q + 6 - 2 * B) / 6; if (t < 2) return ((-B - 6 * C) * t * q + (6 * B + 30 * C) * q + (-12 * B - 48 * C) * t + 8 * B + 24 * C) / 6; return 0; }
struct Adv { ILenum f; Kern k; double s; bool pos; const char *n; };
static const Adv ADV[] = {{ILU_SCALE_BOX, kbox, .5, true, "box"}, {ILU_SCALE_TRIANGLE, ktri, 1, true, "triangle"}, {ILU_SCALE_BELL, kbell, 1.5, true, "bell"}, {ILU_SCALE_BSPLINE, kbsp, 2, true, "bspline"}, {ILU_SCALE_LANCZOS3, klan, 3, false, "lanczos"}, {ILU_SCALE_MITCHELL, kmit, 2, false, "mitchell"}};
static int mirror(long i, int n) { long j = i % (2L * n); if (j < 0) j += 2 * n; return (int)(j < n ? j : 2L * n - j - 1); }
// one bilinear sample of channel c, normalised
static double bil(const Img &m, double X, double Y, int c, double *lo = NULL, double *hi = NULL) { int x = std::min((int)floor(X), m.w - 1), y = std::min((int)floor(Y), m.h - 1), x1 = std::min(x + 1, m.w - 1), y1 = std::min(y + 1, m.h - 1); double fx = X - x, fy = Y - y, a = m.nv(x, y, 0, c), b = m.nv(x1, y, 0, c), d = m.nv(x, y1, 0, c), e = m.nv(x1, y1, 0, c); if (lo) { *lo = std::min(std::min(a, b), std::min(d, e)); *hi = std::max(std::max(a, b), std::max(d, e)); } return (1 - fx) * (1 - fy) * a + fx * (1 - fy) * b + (1 - fx) * fy * d + fx * fy * e; }
static Img bilinear8(const Img &m, int w, int h) { Img g = m; g.w = w; g.h = h; g.data.assign(g.size(), 0); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int c = 0; c < nch(m.fmt); c++) g.px(x, y)[c] = (uint8_t)(bil(m, x * (double)m.w / w, y * (double)m.h / h, c) * 255 + 0.5 + 1e-9); return g; }
void vh_case(Rng &r, uint64_t) {
    ilu_begin(r); ImgOpt o; o.maxw = o.maxh = r.chance(10) ? 40 : 12; o.maxd = 4; bool adv = r.chance(40); if (adv || r.chance(30)) o.types = {IL_UNSIGNED_BYTE}; if (adv && r.chance(85)) { o.fmts.assign(std::begin(DIRFMT), std::end(DIRFMT)); o.maxd = 1; } if (r.chance(20)) o.content = 0; Img m = rnd_img(r, o); bool idx = m.fmt == IL_COLOUR_INDEX; put(m);
    static const ILenum F[] = {ILU_NEAREST, ILU_LINEAR, ILU_BILINEAR}; const Adv *a = adv ? &ADV[r.below(6)] : NULL; ILenum flt = a ? a->f : r.pick(F); iluImageParameter(ILU_FILTER, flt);
    int w = rnd_dim(r, 40), h = rnd_dim(r, 40), d = m.d; if (r.chance(15)) w = m.w; if (r.chance(15)) h = m.h; if (r.chance(m.d > 1 ? 50 : 10)) d = r.range(1, 5); if (r.chance(5)) { w = m.w; h = m.h; d = m.d; } int aw = w, ah = h, ad = d; if (r.chance(4)) { (r.chance(50) ? w : h) = 1; aw = w == 1 ? 0 : w; ah = h == 1 ? 0 : h; } bool ratio = r.chance(12); const char *name = a ? a->n : flt == ILU_NEAREST ? "nearest" : flt == ILU_LINEAR ? "linear" : "bilinear"; vh_phase("%s", name); bool ok;
    if (ratio) { float q[3] = {(float)(0.3 + r.unit() * 2.5), (float)(0.3 + r.unit() * 2.5), m.d > 1 ? (float)(0.5 + r.unit()) : 1.0f}; if (r.chance(10)) { q[r.below(3)] = r.chance(50) ? 0.0f : -1.0f; vh_context("enlarge %s by %g %g %g", m.str().c_str(), q[0], q[1], q[2]); bool k = iluEnlargeImage(q[0], q[1], q[2]); iluImageParameter(ILU_FILTER, ILU_NEAREST); ilu_refused("enlarging by nothing", k, m); ilu_end(name); vh_count("cases"); vh_distinct(vh_mix(m.hash(), 99)); return; }
        w = std::max(1, (int)(m.w * q[0])); h = std::max(1, (int)(m.h * q[1])); d = std::max(1, (int)(m.d * q[2])); vh_context("enlarge %s by %g %g %g (%s)", m.str().c_str(), q[0], q[1], q[2], name); ok = iluEnlargeImage(q[0], q[1], q[2]); vh_count("ratios"); }
    else { vh_context("scale %s to %dx%dx%d (%s)", m.str().c_str(), aw, ah, ad, name); ok = iluScale(aw, ah, ad); }
    iluImageParameter(ILU_FILTER, ILU_NEAREST); bool same = w == m.w && h == m.h && d == m.d, grows = w > m.w || h > m.h; uint64_t sig = vh_mix(m.hash(), w * 1009 + h * 31 + d + flt);
    if (a && grows && !same && (m.type != IL_UNSIGNED_BYTE || idx || m.d > 1)) { ilu_refused("scaling with an unsupported filter", ok, m); ilu_end(name); vh_count("cases"); vh_distinct(sig); return; }
    if (!ok) vh_fail("refused", "scaling %s to %dx%dx%d (%s) failed with 0x%x", m.str().c_str(), w, h, d, name, ilGetError());
    Img g = ilu_take(name); if (a && grows) d = 1; if (g.w != w || g.h != h || g.d != d) vh_fail("size", "scaling %s to %dx%dx%d (%s) made %s", m.str().c_str(), w, h, d, name, g.str().c_str()); if (g.fmt != m.fmt || (idx ? tsz(g.type) != 1 : g.type != m.type) || g.origin != m.origin) vh_fail("kind", "scaling %s (%s) made %s", m.str().c_str(), name, g.str().c_str());
    if (same) { if (!g.same(m)) vh_fail("identity", "scaling %s to its own size (%s): %s", m.str().c_str(), name, imgdiff(g, m).c_str()); vh_count("identities"); }
    else if (idx) { // through its colours and back
        if (g.palType != m.palType) vh_fail("kind", "scaling %s made the palette %s", m.str().c_str(), pname(g.palType)); std::map<int, int> cells; bool apart = true; for (uint8_t v : m.data) { RGBAd c = m.palent(v); int R = (int)(c.r * 255 + .5), G = (int)(c.g * 255 + .5), B = (int)(c.b * 255 + .5), k = (R >> 3) << 10 | (G >> 3) << 5 | B >> 3, col = R << 16 | G << 8 | B; auto it = cells.find(k); if (it == cells.end()) cells[k] = col; else if (it->second != col) apart = false; }
        if (apart && cells.size() <= 200 && (flt == ILU_NEAREST || cells.size() == 1)) { vh_count("indexed_exact"); for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { RGBAd q = g.rgba(x, y, z); bool hit = false; for (int e = -1; e <= 1 && !hit; e++) for (int f = -1; f <= 1 && !hit; f++) { int X = std::min((int)floor(x * (double)m.w / w + e * 1e-9), m.w - 1), Y = std::min((int)floor(y * (double)m.h / h + f * 1e-9), m.h - 1), Z = std::min((int)(z * (double)m.d / d + 1e-9), m.d - 1); if (X < 0 || Y < 0) continue; RGBAd k = m.rgba(X, Y, Z); hit = fabs(k.r - q.r) + fabs(k.g - q.g) + fabs(k.b - q.b) < 1e-6; } if (!hit) vh_fail("value", "scaling %s to %dx%dx%d (%s): pixel (%d,%d,%d) is (%g,%g,%g), not the colour there", m.str().c_str(), w, h, d, name, x, y, z, q.r * 255, q.g * 255, q.b * 255); } }
    } else if (a && grows) { // the separable resampler; a shrinking side is done before, bilinearly
        Img s = m; if (w < m.w) s = bilinear8(m, w, m.h); else if (h < m.h) s = bilinear8(m, m.w, h); int n = nch(m.fmt);
        for (int c = 0; c < n; c++) for (int x = 0; x < w; x++) { std::vector<double> col(s.h); double cx = x * (double)s.w / w; for (int y = 0; y < s.h; y++) { double v = 0; bool flat = true; int f0 = -1; for (int j = (int)ceil(cx - a->s); j <= floor(cx + a->s); j++) { int p = s.px(mirror(j, s.w), y)[c]; if (f0 < 0) f0 = p; else if (p != f0) flat = false; v += p * a->k(cx - j); } if (flat) v = f0; col[y] = std::min(255.0, std::max(0.0, floor(v + .5))); }
            for (int y = 0; y < h; y++) { double cy = y * (double)s.h / h, v = 0; bool flat = true; double f0 = -1; for (int j = (int)ceil(cy - a->s); j <= floor(cy + a->s); j++) { double p = col[mirror(j, s.h)]; if (f0 < 0) f0 = p; else if (p != f0) flat = false; v += p * a->k(cy - j); } if (flat) v = f0; v = std::min(255.0, std::max(0.0, floor(v + .5))); double edge = a->f == ILU_SCALE_BOX ? 1 : 0; bool amb = edge && (fabs(cx - floor(cx) - .5) < 1e-6 || fabs(cy - floor(cy) - .5) < 1e-6); if (!amb && fabs(g.px(x, y)[c] - v) > 2.01) vh_fail("value", "scaling %s to %dx%d (%s): pixel (%d,%d) channel %d is %d, should be %g", m.str().c_str(), w, h, name, x, y, c, g.px(x, y)[c], v); } }
        bool flat = true; for (size_t i = m.bpp(); i < m.data.size(); i++) if (m.data[i] != m.data[i - m.bpp()]) flat = false; if (flat) { vh_count("constants"); for (size_t i = 0; i < g.data.size(); i++) if (g.data[i] != m.data[i % m.bpp()]) vh_fail("constant", "scaling a constant %s to %dx%d (%s) made %d of %d", m.str().c_str(), w, h, name, g.data[i], m.data[i % m.bpp()]); }
        vh_count("resampled_pixels", (uint64_t)w * h);
    } else {
        int n = nch(m.fmt); bool bi = flt != ILU_NEAREST && flt != ILU_LINEAR && m.d == 1 && d == 1;
        for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { double X = x * (double)m.w / w, Y = y * (double)m.h / h, Z = z * (double)m.d / d; const uint8_t *q = g.px(x, y, z);
            if (flt == ILU_NEAREST) { bool hit = false; for (int e = -1; e <= 1 && !hit; e += 2) for (int f = -1; f <= 1 && !hit; f += 2) for (int k = -1; k <= 1 && !hit; k += 2) { int xi = (int)floor(X + e * 1e-9), yi = (int)floor(Y + f * 1e-9), zi = (int)floor(Z + k * 1e-9); if (xi < 0 || yi < 0 || zi < 0 || xi >= m.w || yi >= m.h || zi >= m.d) continue; hit = !memcmp(q, m.px(xi, yi, zi), m.bpp()); } if (!hit) vh_fail("value", "scaling %s to %dx%dx%d (nearest): pixel (%d,%d,%d) is not pixel (%g,%g,%g)", m.str().c_str(), w, h, d, x, y, z, X, Y, Z); continue; }
            for (int c = 0; c < n; c++) { double v = normval(q + c * tsz(m.type), m.type), tol = isflt(m.type) ? (m.type == IL_HALF ? 1.5e-3 : 2e-6) : (tsz(m.type) == 4 ? 3e-7 : 0) + 1.001 / tmax(m.type); if (bi) { double e = bil(m, X, Y, c); if (fabs(v - e) > tol) vh_fail("value", "scaling %s to %dx%d (bilinear): pixel (%d,%d) channel %d is %g, should be %g", m.str().c_str(), w, h, x, y, c, v * tmax(m.type), e * tmax(m.type)); }
                else { double lo = 1e30, hi = -1e30; for (int k = (int)floor(Z - 1e-9); k <= floor(Z + 1e-9) + 1; k++) for (int j = (int)floor(Y - 1e-9); j <= floor(Y + 1e-9) + 1; j++) for (int i = (int)floor(X - 1e-9); i <= floor(X + 1e-9) + 1; i++) { if (i < 0 || j < 0 || k < 0) continue; double e = m.nv(std::min(i, m.w - 1), std::min(j, m.h - 1), std::min(k, m.d - 1), c); lo = std::min(lo, e); hi = std::max(hi, e); } if (v < lo - tol || v > hi + tol) vh_fail("range", "scaling %s to %dx%dx%d (%s): pixel (%d,%d,%d) channel %d is %g, not between %g and %g", m.str().c_str(), w, h, d, name, x, y, z, c, v * tmax(m.type), lo * tmax(m.type), hi * tmax(m.type)); } } }
        bool flat = true; for (size_t i = m.bpp(); i < m.data.size(); i++) if (m.data[i] != m.data[i - m.bpp()]) flat = false; if (flat && (tsz(m.type) < 4)) { vh_count("constants"); for (size_t i = 0; i < g.data.size(); i++) if (g.data[i] != m.data[i % m.bpp()]) vh_fail("constant", "scaling a constant %s to %dx%dx%d (%s) made %d of %d", m.str().c_str(), w, h, d, name, g.data[i], m.data[i % m.bpp()]); }
        vh_count("pixels", (uint64_t)w * h * d);
    }
    ilu_end(name); vh_count("cases"); vh_count((std::string("op_") + name).c_str()); vh_distinct(sig); vh_sample("%s %s to %dx%dx%d", name, m.str().c_str(), w, h, d);
}
