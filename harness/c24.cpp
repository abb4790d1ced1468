// C24: neighbourhood filters
#include "ilu.h"
void vh_setup() { ilu_setup(); }
static const int AVG[9] = {1, 1, 1, 1, 1, 1, 1, 1, 1}, GAU[9] = {1, 2, 1, 2, 4, 2, 1, 2, 1}, HS[9] = {1, 2, 1, 0, 0, 0, -1, -2, -1}, VS[9] = {1, 0, -1, 2, 0, -2, 1, 0, -1}, HP[9] = {1, 1, 1, 0, 0, 0, -1, -1, -1}, VP[9] = {1, 0, -1, 1, 0, -1, 1, 0, -1}, EM[9] = {-1, 0, 1, -1, 0, 1, -1, 0, 1};
// One pass over bytes. quirks: the last weight of inner pixels goes to the lower left, the right column reads on in memory (known findings); otherwise the nine neighbours.
static Img pass(const Img &m, const int *k, double scale, double bias, const Region *reg, bool quirks) {
    Img g = m; int n = nch(m.fmt), LX = m.w - 1, LY = m.h - 1;
    for (int z = 0; z < m.d; z++) for (int y = 0; y <= LY; y++) for (int x = 0; x <= LX; x++) {
        if (((x == 0 || x == LX) && (y == 0 || y == LY)) || (reg && reg->at(x, y) == 0)) continue;
        const uint8_t *t[9]; for (int i = 0; i < 9; i++) { int X = std::min(std::max(x + i % 3 - 1, 0), LX), Y = std::min(std::max(y + i / 3 - 1, 0), LY); t[i] = m.px(X, Y, z); if (quirks && x == LX && LX >= 2) { long o = (long)(y + i / 3 - 1) * m.w + x + i % 3; if (y + i / 3 - 1 >= 0 && o < (long)m.w * m.h) t[i] = m.px((int)(o % m.w), (int)(o / m.w), z); } }
        if (quirks && x != 0 && x != LX) t[8] = t[6];
        for (int c = 0; c < n; c++) { double s = 0; for (int i = 0; i < 9; i++) s += (double)t[i][c] * k[i]; s = fabs(s / scale + bias); g.px(x, y, z)[c] = s > 255 ? 255 : (uint8_t)s; } }
    return g;
}
static Img combine(const Img &a, const Img &b) { Img g = a; for (size_t i = 0; i < g.data.size(); i++) { double v = sqrt((double)a.data[i] * a.data[i] + (double)b.data[i] * b.data[i]); g.data[i] = v > 255 ? 255 : (uint8_t)(v + 1e-9); } return g; }
enum { BA, BG, EE, EP, ES, EMB, CONV, SHARP, PIX };
struct Op { int op; int iter; int k[9]; int scale, bias; };
static Img model(const Op &p, const Img &m, const Region *reg, bool q) {
    Img g = m; switch (p.op) { case BA: for (int i = 0; i < p.iter; i++) g = pass(g, AVG, 9, 1, reg, q); break; case BG: for (int i = 0; i < p.iter; i++) g = pass(g, GAU, 16, 1, reg, q); break; case EE: g = pass(m, EM, 1, 0, reg, q); break; case EP: g = combine(pass(m, HP, 1, 0, reg, q), pass(m, VP, 1, 0, reg, q)); break; case ES: g = combine(pass(m, HS, 1, 0, reg, q), pass(m, VS, 1, 0, reg, q)); break; case EMB: g = pass(m, EM, 1, 128, reg, q); break; case CONV: g = pass(m, p.k, p.scale, p.bias, reg, q); break; }
    return g;
}
static bool run(const Op &p) { switch (p.op) { case BA: return iluBlurAvg(p.iter); case BG: return iluBlurGaussian(p.iter); case EE: return iluEdgeDetectE(); case EP: return iluEdgeDetectP(); case ES: return iluEdgeDetectS(); case EMB: return iluEmboss(); case CONV: return iluConvolution((ILint *)p.k, p.scale, p.bias); } return false; }
static Img conv(ILenum f, ILenum t) { if (!ilConvertImage(f, t)) vh_error("conversion to %s/%s failed 0x%x", fname(f), tname(t), ilGetError()); return grab(); }
static ILenum palbase(ILenum p) { switch (p) { case IL_PAL_RGB24: return IL_RGB; case IL_PAL_RGB32: case IL_PAL_RGBA32: return IL_RGBA; case IL_PAL_BGR24: return IL_BGR; } return IL_BGRA; }
static void kind(const char *name, const Img &g, Img m) { if (m.fmt == IL_COLOUR_INDEX && tsz(g.type) == 1) m.type = g.type; if (g.w != m.w || g.h != m.h || g.d != m.d || g.fmt != m.fmt || g.type != m.type || g.origin != m.origin) vh_fail("kind", "%s made %s from %s", name, g.str().c_str(), m.str().c_str()); }
static void channels(const char *name, const Img &m, const Img &g, const std::vector<double> &want, double tol, const Region &reg) { int n = nch(m.fmt); size_t i = 0; for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { int at = reg.at(x, y); for (int c = 0; c < n; c++, i++) { if (at < 0) continue; if (!at) { if (memcmp(g.px(x, y, z), m.px(x, y, z), m.bpp())) vh_fail("outside", "%s of %s changed pixel (%d,%d,%d) outside of the region %s", name, m.str().c_str(), x, y, z, reg.str().c_str()); continue; } double q = g.nv(x, y, z, c); if (!(fabs(q - want[i]) <= tol + (isflt(m.type) ? fabs(want[i]) * (m.type == IL_HALF ? 2e-3 : 1e-6) : 0))) vh_fail("value", "%s of %s: pixel (%d,%d,%d) channel %d is %.9g, should be %.9g", name, m.str().c_str(), x, y, z, c, q * tmax(m.type), want[i] * tmax(m.type)); } } vh_count("pixels", (uint64_t)m.w * m.h * m.d); }
void vh_case(Rng &r, uint64_t) {
    ilu_begin(r); static const char *nm[] = {"bluravg", "blurgauss", "edgee", "edgep", "edges", "emboss", "convolve", "sharpen", "pixelize"}; Op p; p.op = r.below(9); p.iter = 1; const char *name = nm[p.op];
    ImgOpt o; o.maxw = o.maxh = r.chance(8) ? 40 : 10; o.maxd = 3; if (r.chance(50)) o.types = {IL_UNSIGNED_BYTE}; if (r.chance(20)) o.content = 0; if (r.chance(80)) o.fmts.assign(std::begin(DIRFMT), std::end(DIRFMT)); Img m = rnd_img(r, o); put(m); vh_phase("%s", name); Region reg; bool idx = m.fmt == IL_COLOUR_INDEX;
    if (!idx && p.op != SHARP && r.chance(30) && m.w > 4 && m.h > 4) { reg = rnd_region(r, m.w, m.h); set_region(reg); vh_count("regions"); }
    if (p.op == BA || p.op == BG) p.iter = reg.p.empty() ? r.below(4) : 1; if (p.op == CONV) { for (int &k : p.k) k = r.chance(20) ? 0 : r.range(-5, 5); p.scale = r.chance(50) ? 1 : r.range(1, 12); if (r.chance(10)) p.scale = -p.scale; p.bias = r.chance(50) ? 0 : r.range(-100, 200); }
    vh_context("%s (%d) of %s %s", name, p.iter, m.str().c_str(), reg.str().c_str()); uint64_t sig = vh_mix(m.hash(), p.op * 7 + p.iter); const Region *rp = reg.p.empty() ? NULL : &reg;
    if (p.op == PIX) {
        int b = r.chance(10) ? 0 : r.chance(10) ? 1000000 + (int)r.below(1000) : r.range(1, 7); vh_context("pixelize %d of %s %s", b, m.str().c_str(), reg.str().c_str()); if (!iluPixelize(b)) vh_fail("refused", "pixelize(%d) of %s failed with 0x%x", b, m.str().c_str(), ilGetError()); Img g = ilu_take(name); if (idx) { put(m); m = conv(palbase(m.palType), IL_UNSIGNED_BYTE); } kind(name, g, m); if (!b) b = 1; int n = nch(m.fmt); std::vector<double> want((size_t)m.w * m.h * m.d * n);
        for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) for (int c = 0; c < n; c++) { int x0 = x / b * b, y0 = y / b * b, z0 = z / b * b, k = 0; double s = 0; for (int Z = z0; Z < std::min(m.d, z0 + b); Z++) for (int Y = y0; Y < std::min(m.h, y0 + b); Y++) for (int X = x0; X < std::min(m.w, x0 + b); X++) s += m.nv(X, Y, Z, c), k++; want[(((size_t)z * m.h + y) * m.w + x) * n + c] = s / k; }
        channels(name, m, g, want, isflt(m.type) ? 1e-6 : 0.51 / tmax(m.type) + (tsz(m.type) == 4 ? 3e-7 : 1e-9), reg); sig = vh_mix(sig, b);
    } else if (p.op == SHARP) {
        float a = r.chance(20) ? 1.0f : (float)(r.unit() * 3.2 - 0.3); p.iter = r.below(3); vh_context("sharpen %g x%d of %s", a, p.iter, m.str().c_str()); if (!iluSharpen(a, p.iter)) vh_fail("refused", "sharpen of %s failed with 0x%x", m.str().c_str(), ilGetError()); Img g = ilu_take(name); if (idx) { kind(name, g, m); vh_count("indexed_sharpened"); }
        else { kind(name, g, m); if (a == 1.0f && tsz(m.type) < 4 && !g.same(m)) vh_fail("identity", "sharpen(1, %d) changed the image: %s", p.iter, imgdiff(g, m).c_str()); put(m); if (!iluBlurGaussian(1)) vh_fail("refused", "blur of %s failed", m.str().c_str()); Img bl = grab(); int n = nch(m.fmt); std::vector<double> want(m.data.size() / tsz(m.type)); size_t i = 0; double tol = 0, f = 1; for (int k = 0; k < p.iter; k++, f *= fabs(a)) tol += f; tol *= isflt(m.type) ? (m.type == IL_HALF ? 4e-3 : 2e-6) : 1.01 / tmax(m.type) + (tsz(m.type) == 4 ? 1e-6 : 1e-6);
            for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) for (int c = 0; c < n; c++, i++) { double v = m.nv(x, y, z, c); for (int k = 0; k < p.iter; k++) { v = (1 - (double)a) * bl.nv(x, y, z, c) + (double)a * v; if (!isflt(m.type)) v = std::max(0.0, std::min(1.0, v)); } want[i] = v; } channels(name, m, g, want, tol, reg); } sig = vh_mix(sig, (int)(a * 1000));
    } else {
        if (!run(p)) vh_fail("refused", "%s of %s failed with 0x%x", name, m.str().c_str(), ilGetError()); Img g = ilu_take(name);
        // the bytes that get filtered: other types and palettes are converted and back (conversions are C07's and C08's concern)
        Img src = m; bool back = false; if (idx) { put(m); src = conv(palbase(m.palType), IL_UNSIGNED_BYTE); back = true; } else if (m.type > IL_UNSIGNED_BYTE) { put(m); src = conv(m.fmt, IL_UNSIGNED_BYTE); back = true; }
        Img act = model(p, src, rp, true), ide = model(p, src, rp, false); Img ra = act, ri = ide; if (back) { iluRegioniv(NULL, 0); put(act); ra = conv(m.fmt, m.type); put(ide); ri = conv(m.fmt, m.type); }
        kind(name, g, m); if (idx && (g.palType != ra.palType || g.pal != ra.pal) && (g.palType != ri.palType || g.pal != ri.pal)) vh_fail("value", "%s of %s: palette %s:%d instead of %s:%d", name, m.str().c_str(), pname(g.palType), g.npal(), pname(ra.palType), ra.npal());
        bool k1 = false, k2 = false; int slack = p.op == EP || p.op == ES ? 1 : 0; for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { if (reg.at(x, y) < 0) continue; const uint8_t *q = g.px(x, y, z); bool e1 = !memcmp(q, ra.px(x, y, z), m.bpp()), e2 = !memcmp(q, ri.px(x, y, z), m.bpp()); if (!back && tsz(m.type) == 1 && slack) { if (!e1) { e1 = true; for (int c = 0; c < m.bpp(); c++) if (abs(q[c] - ra.px(x, y, z)[c]) > slack) e1 = false; } if (!e2) { e2 = true; for (int c = 0; c < m.bpp(); c++) if (abs(q[c] - ri.px(x, y, z)[c]) > slack) e2 = false; } }
            if (!e1 && !e2) { double a = normval(q, m.type) * tmax(m.type), b = normval(ra.px(x, y, z), m.type) * tmax(m.type), c = normval(ri.px(x, y, z), m.type) * tmax(m.type); vh_fail(reg.at(x, y) ? "value" : "outside", "%s x%d of %s: pixel (%d,%d,%d) is %g.., should be %g.. (ideally %g..)", name, p.iter, m.str().c_str(), x, y, z, a, b, c); }
            if (!e2) (x == m.w - 1 && m.w >= 3 && p.iter == 1 ? k2 : k1) = true; }
        if (k1) vh_soft("last-weight", "%s of %s gives the last weight to the lower left pixel", name, m.str().c_str()); if (k2) vh_soft("right-column", "%s of %s filters the right column with the pixels of the next row", name, m.str().c_str());
        // averaging keeps constants, edge filters give nothing on them
        bool flat = true; for (size_t i = src.bpp(); i < src.data.size(); i++) if (src.data[i] != src.data[i - src.bpp()]) flat = false;
        if (flat && !back) { vh_count("constants"); for (size_t i = 0; i < g.data.size(); i++) { int x = (int)(i / m.bpp() % m.w), y = (int)(i / m.bpp() / m.w % m.h); bool corner = (x == 0 || x == m.w - 1) && (y == 0 || y == m.h - 1); if (corner || reg.at(x, y) != 1) continue; int v = g.data[i], w = m.data[i]; if ((p.op == BA || p.op == BG) && abs(v - w) > p.iter) vh_fail("constant", "%s x%d turned a constant %d into %d", name, p.iter, w, v); if ((p.op == EE || p.op == EP || p.op == ES) && v != 0) vh_fail("constant", "%s finds an edge of %d in a constant image", name, v); if (p.op == EMB && v != 128) vh_fail("constant", "emboss of a constant image is %d", v); } }
        vh_count("pixels", (uint64_t)m.w * m.h * m.d); sig = vh_mix(sig, vh_hash(p.k, p.op == CONV ? sizeof p.k : 0));
    }
    ilu_end(name); vh_count("cases"); vh_count((std::string("op_") + name).c_str()); vh_distinct(sig); vh_sample("%s %s", name, m.str().c_str());
}
