// C22: operations on single pixels
#include "ilu.h"
void vh_setup() { ilu_setup(); }
static double chan_tol(ILenum t, double v) { return isflt(t) ? (t == IL_HALF ? fabs(v) / 900 + 1e-6 : t == IL_FLOAT ? fabs(v) * 1e-6 + 2e-7 : 1e-9 + fabs(v) * 2e-7) : (tsz(t) == 4 ? 2.0e-7 : 0) + 1.0 / tmax(t) + 1e-9; }
typedef std::function<void(const double *in, double *out)> PixFn; // n channels, normalised
// every pixel of got is fn of the same pixel of m; -1 in the region: either
static void every(const char *what, const Img &m, const Img &g, const Region *reg, PixFn fn, double extra = 0) {
    if (g.w != m.w || g.h != m.h || g.d != m.d || g.fmt != m.fmt || g.type != m.type || g.origin != m.origin) vh_fail("kind", "%s made %s from %s", what, g.str().c_str(), m.str().c_str());
    if (m.fmt == IL_COLOUR_INDEX) { // the colours are in the palette
        if (g.palType != m.palType || g.pal.size() != m.pal.size()) vh_fail("kind", "%s made %s from %s", what, g.str().c_str(), m.str().c_str()); if (g.data != m.data) vh_fail("value", "%s changed the indices of %s", what, m.str().c_str()); int b = palbpp(m.palType);
        for (size_t i = 0; i + b <= m.pal.size(); i += b) { double in[4], out[4]; for (int k = 0; k < b; k++) in[k] = m.pal[i + k] / 255.; fn(in, out); for (int k = 0; k < b; k++) { if (k == 3 && !palalpha(m.palType)) continue; double q = g.pal[i + k] / 255., w = std::max(0.0, std::min(1.0, out[k])); if (fabs(q - w) > (extra < 0 ? 1e-9 : 1.001 / 255) + std::max(extra, 0.0)) vh_fail("value", "%s of %s: palette entry %d byte %d is %g, should be %g", what, m.str().c_str(), (int)(i / b), k, q * 255, w * 255); } }
        vh_count("entries", m.npal()); return; }
    if (g.pal != m.pal) vh_fail("kind", "%s changed the palette", what);
    int n = nch(m.fmt); uint64_t in_ = 0, out_ = 0;
    for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { int at = reg ? reg->at(x, y) : 1; if (at < 0) continue;
        if (!at) { out_++; if (memcmp(g.px(x, y, z), m.px(x, y, z), m.bpp())) vh_fail("outside", "%s of %s changed pixel (%d,%d,%d) outside of the region %s", what, m.str().c_str(), x, y, z, reg->str().c_str()); continue; }
        in_++; double in[4], out[4]; for (int k = 0; k < n; k++) in[k] = m.nv(x, y, z, k); fn(in, out);
        for (int k = 0; k < n; k++) { double q = g.nv(x, y, z, k), w = isflt(m.type) ? out[k] : std::max(0.0, std::min(1.0, out[k])); if (!(fabs(q - w) <= (extra < 0 && !isflt(m.type) ? 2e-11 : chan_tol(m.type, w) + std::max(extra, 0.0)))) vh_fail("value", "%s of %s: pixel (%d,%d,%d) channel %d is %.9g, should be %.9g (from %.9g)", what, m.str().c_str(), x, y, z, k, q * tmax(m.type), w * tmax(m.type), in[k] * tmax(m.type)); } }
    vh_count("pixels", in_); vh_count("outside", out_);
}
static void exact(const char *what, const Img &g, const Img &m) { if (!g.same(m)) vh_fail("identity", "%s changed the image: %s", what, imgdiff(g, m).c_str()); }
static int rpos(ILenum f) { return f == IL_BGR || f == IL_BGRA ? 2 : 0; }
static bool rgblike(ILenum f) { return f == IL_RGB || f == IL_BGR || f == IL_RGBA || f == IL_BGRA; }
static void ok_or(const char *what, bool ok, const Img &m) { if (!ok) vh_fail("refused", "%s of %s failed with 0x%x", what, m.str().c_str(), ilGetError()); }
// the colour bytes (r,g,b) of pixel or palette entry i of a byte image
struct Bytes3 { uint8_t *p; int stride; int n; int r; int b; };
static Bytes3 colours(Img &m) { Bytes3 q; if (m.fmt == IL_COLOUR_INDEX) { q.p = m.pal.data(); q.stride = palbpp(m.palType); q.n = m.npal(); q.r = palbgr(m.palType) ? 2 : 0; } else { q.p = m.data.data(); q.stride = m.bpp(); q.n = m.w * m.h * m.d; q.r = rpos(m.fmt); } q.b = 2 - q.r; return q; }
void vh_case(Rng &r, uint64_t) {
    ilu_begin(r); static const char *nm[] = {"negative", "invertalpha", "gamma", "contrast", "saturate", "alienify", "sepia", "scalealpha", "scalecolours", "equalize", "replace", "noisify", "equalize2", "identity", "ntsc"}; int op = r.below(15); const char *name = nm[op];
    ImgOpt o; o.maxw = o.maxh = r.chance(10) ? 60 : 16; o.maxd = 3; if (r.chance(50)) o.types = {IL_UNSIGNED_BYTE}; if (op == 1 || op == 7) { if (r.chance(80)) o.fmts = {IL_RGBA, IL_BGRA, IL_LUMINANCE_ALPHA, IL_COLOUR_INDEX}; } if (op == 4 || op == 5 || op == 6 || op == 12) { if (r.chance(80)) o.fmts = {IL_RGB, IL_BGR, IL_RGBA, IL_BGRA}; }
    if ((op == 4 || op == 6 || op == 9 || op == 10 || op == 12 || op == 14) && r.chance(70)) o.types = {IL_UNSIGNED_BYTE};
    Img m = rnd_img(r, o); put(m); vh_phase("%s", name); uint64_t sig = vh_mix(m.hash(), op); Region reg; bool ub = tsz(m.type) == 1, idx = m.fmt == IL_COLOUR_INDEX;
    if ((op == 0 || op == 11) && r.chance(45) && m.w > 4 && m.h > 4) { reg = rnd_region(r, m.w, m.h); set_region(reg); vh_count("regions"); }
    vh_context("%s of %s %s", name, m.str().c_str(), reg.str().c_str());
    switch (op) {
    case 0: { bool ok = iluNegative(); if (idx && !reg.p.empty()) { ilu_refused(name, ok, m); break; } ok_or(name, ok, m); Img g = ilu_take(name); every(name, m, g, &reg, [&](const double *i, double *q) { for (int k = 0; k < 4; k++) q[k] = 1 - i[k]; }, -1); if (!isflt(m.type)) { if (!iluNegative() || !grab().same(m)) vh_fail("twice", "two negatives of %s do not restore it", m.str().c_str()); } break; }
    case 1: { bool ok = iluInvertAlpha(); bool can = m.fmt == IL_RGBA || m.fmt == IL_BGRA || m.fmt == IL_LUMINANCE_ALPHA; if (!can) { ilu_refused(name, ok, m); break; } ok_or(name, ok, m); Img g = ilu_take(name); int n = nch(m.fmt); every(name, m, g, NULL, [&](const double *i, double *q) { for (int k = 0; k < n; k++) q[k] = k == n - 1 ? 1 - i[k] : i[k]; }, -1);
        for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) if (memcmp(g.px(x, y, z), m.px(x, y, z), (n - 1) * tsz(m.type))) vh_fail("colour", "inverting alpha changed the colour of pixel (%d,%d,%d) of %s", x, y, z, m.str().c_str()); break; }
    case 2: { float ga = r.chance(15) ? 1.0f : (float)(0.2 + r.unit() * 3); vh_context("gamma %g of %s", ga, m.str().c_str()); ok_or(name, iluGammaCorrect(ga), m); Img g = ilu_take(name); if (ga == 1.0f && !isflt(m.type) && (ub || idx)) exact("gamma 1.0", g, m); every(name, m, g, NULL, [&](const double *i, double *q) { for (int k = 0; k < 4; k++) q[k] = i[k] > 0 ? pow(i[k], 1.0 / ga) : i[k]; }, tsz(m.type) >= 4 ? 1e-6 : 0); sig = vh_mix(sig, (int)(ga * 1000)); break; }
    case 3: { float a = r.chance(15) ? 1.0f : (float)(r.unit() * 2.4 - 0.5); vh_context("contrast %g of %s", a, m.str().c_str()); ok_or(name, iluContrast(a), m); Img g = ilu_take(name); if (a == 1.0f && !isflt(m.type) && (ub || idx)) exact("contrast 1.0", g, m); every(name, m, g, NULL, [&](const double *i, double *q) { for (int k = 0; k < 4; k++) q[k] = (1 - a) * 127.0 / 255 + a * i[k]; }, tsz(m.type) >= 4 ? 1e-6 : 0); sig = vh_mix(sig, (int)(a * 1000)); break; }
    case 4: { float w[3] = {0.3086f, 0.6094f, 0.0820f}, s = r.chance(15) ? 1.0f : (float)(r.unit() * 3 - 1); bool four = r.chance(50); if (four) for (float &x : w) x = (float)r.unit(); bool ok = four ? iluSaturate4f(w[0], w[1], w[2], s) : iluSaturate1f(s); vh_context("saturate %g of %s", s, m.str().c_str()); if (!rgblike(m.fmt) || !ub) { ilu_refused(name, ok, m); break; } ok_or(name, ok, m); Img g = ilu_take(name); if (s == 1.0f) exact("saturation 1.0", g, m);
        int R = rpos(m.fmt), B = 2 - R; every(name, m, g, NULL, [&](const double *i, double *q) { double l = w[0] * i[R] + w[1] * i[1] + w[2] * i[B]; for (int k = 0; k < 3; k++) q[k] = (1 - s) * l + s * i[k]; q[3] = i[3]; }, 1e-5); sig = vh_mix(sig, (int)(s * 1000)); break; }
    case 5: { bool ok = iluAlienify(); if (!rgblike(m.fmt)) { ilu_refused(name, ok, m); break; } ok_or(name, ok, m); Img g = ilu_take(name), want = m; int ts = tsz(m.type), R = rpos(m.fmt); for (size_t i = 0; i < want.data.size(); i += m.bpp()) memcpy(&want.data[i + R * ts], &m.data[i + (2 - R) * ts], ts); if (!g.same(want)) vh_fail("value", "alienify of %s: %s", m.str().c_str(), imgdiff(g, want).c_str()); break; }
    case 6: { bool ok = iluSepia(); if (!rgblike(m.fmt) || m.type != IL_UNSIGNED_BYTE) { clear_errors(); if (ok) vh_fail("accepted", "sepia succeeded on %s", m.str().c_str()); exact("failed sepia", ilu_take(name), m); break; } ok_or(name, ok, m); Img g = ilu_take(name); int R = rpos(m.fmt), B = 2 - R; every(name, m, g, NULL, [&](const double *i, double *q) { q[R] = i[R] * .393 + i[1] * .769 + i[B] * .189; q[1] = i[R] * .349 + i[1] * .686 + i[B] * .168; q[B] = i[R] * .272 + i[1] * .534 + i[B] * .131; q[3] = i[3]; }); break; }
    case 7: { float s = r.chance(15) ? 1.0f : (float)(r.unit() * 3 - 0.2); vh_context("scalealpha %g of %s", s, m.str().c_str()); bool ok = iluScaleAlpha(s); bool can = idx ? palalpha(m.palType) : ub && (m.fmt == IL_RGBA || m.fmt == IL_BGRA); if (!can) { ilu_refused(name, ok, m); break; } ok_or(name, ok, m); Img g = ilu_take(name); if (s == 1.0f) exact("alpha scale 1.0", g, m); every(name, m, g, NULL, [&](const double *i, double *q) { for (int k = 0; k < 3; k++) q[k] = i[k]; q[3] = i[3] * s; }); break; }
    case 8: { float s[3]; for (float &x : s) x = r.chance(15) ? 1.0f : (float)(r.unit() * 3 - 0.2); if (r.chance(10)) s[0] = s[1] = s[2] = 1.0f; vh_context("scalecolours %g %g %g of %s", s[0], s[1], s[2], m.str().c_str()); bool ok = iluScaleColours(s[0], s[1], s[2]); bool can = idx || (ub && m.fmt != IL_ALPHA); if (!can) { ilu_refused(name, ok, m); break; } ok_or(name, ok, m); Img g = ilu_take(name); if (s[0] == 1 && s[1] == 1 && s[2] == 1) exact("colour scale 1.0", g, m);
        bool lum = islum(m.fmt), bgr = idx ? palbgr(m.palType) : rpos(m.fmt) == 2; every(name, m, g, NULL, [&](const double *i, double *q) { if (lum) { q[0] = i[0] * s[0]; q[1] = i[1]; return; } for (int k = 0; k < 3; k++) q[k] = i[k] * s[bgr ? 2 - k : k]; q[3] = i[3]; }); sig = vh_mix(sig, (int)(s[0] * 1000)); break; }
    case 9: { bool ok = iluEqualize(); bool can = ub && m.fmt != IL_ALPHA; if (m.fmt == IL_ALPHA) { clear_errors(); ilu_take(name); break; } if (!can) { ilu_refused(name, ok, m); break; } ok_or(name, ok, m); Img g = ilu_take(name);
        if (g.w != m.w || g.h != m.h || g.d != m.d || g.fmt != m.fmt || g.type != m.type || g.palType != m.palType || g.pal.size() != m.pal.size()) vh_fail("kind", "equalise made %s from %s", g.str().c_str(), m.str().c_str()); if (idx && g.data != m.data) vh_fail("value", "equalise changed the indices");
        // luminances as bytes may be off by one in the library, so the histogram is taken with both bounds
        Img t = m, u = g; Bytes3 a = colours(t), b = colours(u); std::vector<double> L(a.n); bool lum = islum(m.fmt); for (int i = 0; i < a.n; i++) { uint8_t *p = a.p + (size_t)i * a.stride; L[i] = lum ? p[0] : p[a.r] * LUMW[0] + p[1] * LUMW[1] + p[a.b] * LUMW[2]; }
        std::vector<uint64_t> use(a.n, idx ? 0 : 1); if (idx) for (uint8_t v : m.data) if (v < a.n) use[v]++; uint64_t tot = (uint64_t)m.w * m.h * m.d; double e = lum ? 0 : 1.6; std::vector<std::pair<double, uint64_t>> so; for (int i = 0; i < a.n; i++) so.push_back({L[i], use[i]}); std::sort(so.begin(), so.end()); std::vector<double> key; std::vector<uint64_t> cum(1, 0); for (auto &q : so) { key.push_back(q.first); cum.push_back(cum.back() + q.second); }
        auto below = [&](double v) { return cum[std::lower_bound(key.begin(), key.end(), v) - key.begin()]; };
        for (int i = 0; i < a.n; i++) { uint8_t *p = a.p + (size_t)i * a.stride, *q = b.p + (size_t)i * b.stride; double lo, hi, sl, sh; if (lum) { lo = hi = below(L[i]); sl = sh = L[i]; } else { lo = below(L[i] - e); hi = below(L[i] + e); sl = std::max(1.0, L[i] - 1.0); sh = L[i] + 1.0; }
            double n0 = floor(lo * 256 / tot), n1 = floor(hi * 256 / tot), s0 = L[i] < 1.1 && !lum ? 0 : n0 / std::max(sh, 1e-9), s1 = n1 / std::max(sl, 1e-9); if (lum && L[i] == 0) s0 = s1 = 0; if (!lum && L[i] < 1.1) s1 = std::max(s1, n1);
            for (int k = 0; k < a.stride; k++) { if (k == 3 || (lum && k == 1)) { if (p[k] != q[k] && !(idx && !palalpha(m.palType))) vh_fail("value", "equalise of %s changed the alpha of %d", m.str().c_str(), i); continue; } double w0 = std::min(255.0, floor(p[k] * s0 - 1e-4) - (lum ? 0 : 1)), w1 = std::min(255.0, floor(p[k] * s1 + 1e-4) + (lum ? 0 : 1)); if (q[k] < w0 || q[k] > w1) vh_fail("value", "equalise of %s: colour %d byte %d (%d) became %d, should be %g..%g", m.str().c_str(), i, k, p[k], q[k], w0, w1); } }
        vh_count("pixels", a.n); break; }
    case 10: { uint8_t c[3] = {(uint8_t)r.below(256), (uint8_t)r.below(256), (uint8_t)r.below(256)}; float tol = r.chance(10) ? 0 : r.chance(15) ? 1.0f : (float)(r.unit() * 0.8); RGBAd k; if (!idx && r.chance(80)) k = m.rgba(r.below(m.w), r.below(m.h), r.below(m.d)); else k = {r.unit(), r.unit(), r.unit(), 1}; ilClearColour(k.r, k.g, k.b, k.a); vh_context("replace colour near (%g %g %g) tolerance %g in %s", k.r * 255, k.g * 255, k.b * 255, tol, m.str().c_str()); bool ok = iluReplaceColour(c[0], c[1], c[2], tol);
        if (!ub) { ilu_refused(name, ok, m); break; } ok_or(name, ok, m); Img g = ilu_take(name); if (idx || m.fmt == IL_ALPHA || tol == 0) { exact("replacing no colour", g, m); break; } Img want = m; int R = rpos(m.fmt), n = nch(m.fmt); double T = floor(fabs(tol) * 255);
        for (size_t i = 0; i < want.data.size(); i += n) { const uint8_t *p = &m.data[i]; double d = islum(m.fmt) ? fabs(p[0] - k.r * 255) : sqrt(pow(p[R] - k.r * 255, 2) + pow(p[1] - k.g * 255, 2) + pow(p[2 - R] - k.b * 255, 2)); double edge = islum(m.fmt) ? T + 0.5 : T + 1; Bytes rep(p, p + n), old(p, p + n), got(&g.data[i], &g.data[i] + n); if (islum(m.fmt)) rep[0] = c[2]; else { rep[R] = c[0]; rep[1] = c[1]; rep[2 - R] = c[2]; }
            bool in = d <= edge; if (fabs(d - edge) < 2.1) { if (got != rep && got != old) vh_fail("value", "replace colour made something else of pixel %zu of %s", i / n, m.str().c_str()); continue; } vh_count(in ? "replaced" : "kept"); if (got != (in ? rep : old)) vh_fail("value", "replace colour (tolerance %g) in %s: pixel %zu at distance %.2f was %s", tol, m.str().c_str(), i / n, d, in ? "not replaced" : "changed"); } vh_count("pixels", m.w * m.h * m.d); break; }
    case 11: { if (idx) { ok_or(name, iluNoisify(0), m); exact("no noise", ilu_take(name), m); break; } float t = r.chance(15) ? 0 : (float)r.unit(); vh_context("noisify %g of %s %s", t, m.str().c_str(), reg.str().c_str()); ok_or(name, iluNoisify(t), m); Img g = ilu_take(name); if (t == 0) { exact("no noise", g, m); break; } int n = nch(m.fmt); bool fl = isflt(m.type); double lim = t / 2 + 1.5 / tmax(m.type) + (fl ? 2e-3 : 0); bool any = false; uint64_t in = 0;
        if (g.w != m.w || g.h != m.h || g.d != m.d || g.fmt != m.fmt || g.type != m.type || g.origin != m.origin) vh_fail("kind", "noisify made %s from %s", g.str().c_str(), m.str().c_str());
        for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { int at = reg.at(x, y); if (at == 0) { vh_count("outside"); if (memcmp(g.px(x, y, z), m.px(x, y, z), m.bpp())) vh_fail("outside", "noisify of %s changed pixel (%d,%d,%d) outside of the region %s", m.str().c_str(), x, y, z, reg.str().c_str()); continue; } in += at > 0; double lo = -2, hi = 2; // the noise that explains all channels
                for (int k = 0; k < n; k++) { double a = m.nv(x, y, z, k), b = g.nv(x, y, z, k); if (fabs(b - a) > lim) vh_fail("value", "noise of %g on pixel (%d,%d,%d) of %s, tolerance %g", b - a, x, y, z, m.str().c_str(), t); if (a != b) any = true; double e = m.type == IL_HALF ? 3e-3 : fl || tsz(m.type) == 4 ? 1e-6 : 1e-9; if (b < 1) hi = std::min(hi, b - a + e); if (b > 0) lo = std::max(lo, b - a - e); }
                if (lo > hi && !fl) vh_fail("value", "the noise on the channels of pixel (%d,%d,%d) of %s differs", x, y, z, m.str().c_str()); }
        if (!any && in > 60 && t > 0.3 && m.type != IL_HALF) { bool flat = true; for (uint8_t b : m.data) if (b != m.data[0]) flat = false; (void)flat; vh_fail("value", "noisify(%g) of %s changed nothing", t, m.str().c_str()); } vh_count("pixels", in); break; }
    case 12: { bool ok = iluEqualize2(); clear_errors(); Img g = ilu_take(name); if (g.w != m.w || g.h != m.h || g.d != m.d || g.fmt != m.fmt || g.type != m.type || g.origin != m.origin || g.pal != m.pal) vh_fail("kind", "equalise2 made %s from %s", g.str().c_str(), m.str().c_str()); if (!ok) { exact("failed equalise2", g, m); break; } int n = nch(m.fmt); if (!rgblike(m.fmt) || !ub) vh_fail("accepted", "equalise2 succeeded on %s", m.str().c_str());
        // each channel is stretched over the whole range, in order
        for (int k = 0; k < n; k++) { if (k == 3) { for (size_t i = 3; i < m.data.size(); i += n) if (g.data[i] != m.data[i]) vh_fail("value", "equalise2 changed alpha"); continue; } int lo = 255, hi = 0; for (size_t i = k; i < m.data.size(); i += n) { lo = std::min<int>(lo, m.data[i]); hi = std::max<int>(hi, m.data[i]); } for (size_t i = k; i < m.data.size(); i += n) { double want = (m.data[i] - lo) * 255.0 / (hi - lo); if (hi == lo || fabs(g.data[i] - want) > 1.01) vh_fail("value", "equalise2 of %s: channel %d value %d (range %d..%d) became %d, should be %.1f", m.str().c_str(), k, m.data[i], lo, hi, g.data[i], want); } } vh_count("equalize2"); vh_count("pixels", m.w * m.h * m.d); break; }
    case 13: { bool ok = true; const char *w = ""; bool can = true; switch (r.below(7)) { case 0: ok = iluGammaCorrect(1.0f); w = "gamma 1.0"; break; case 1: ok = iluContrast(1.0f); w = "contrast 1.0"; break; case 2: can = rgblike(m.fmt) && ub; ok = iluSaturate1f(1.0f); w = "saturation 1.0"; break; case 3: can = idx ? palalpha(m.palType) : ub && (m.fmt == IL_RGBA || m.fmt == IL_BGRA); ok = iluScaleAlpha(1.0f); w = "alpha scale 1.0"; break; case 4: can = idx || (ub && m.fmt != IL_ALPHA); ok = iluScaleColours(1, 1, 1); w = "colour scale 1.0"; break; case 5: can = ub; ok = iluReplaceColour(1, 2, 3, 0); w = "replacing with tolerance 0"; break; case 6: ok = iluNoisify(0); w = "noise 0"; break; } if (!can) { ilu_refused(w, ok, m); break; } ok_or(w, ok, m); exact(w, ilu_take(w), m); vh_count("identities"); break; }
    case 14: { bool ok = ilClampNTSC(); if (m.type != IL_UNSIGNED_BYTE) { ilu_refused(name, ok, m); break; } ok_or(name, ok, m); Img g = ilu_take(name); every(name, m, g, NULL, [&](const double *i, double *q) { for (int k = 0; k < 4; k++) q[k] = idx && k == 3 ? i[k] : std::max(16 / 255., std::min(235 / 255., i[k])); }, -1); if (!ilClampNTSC() || !grab().same(g)) vh_fail("twice", "clamping %s twice is not clamping once", m.str().c_str()); break; }
    }
    ilClearColour(0, 0, 0, 0); ilu_end(name); vh_count("cases"); vh_count((std::string("op_") + name).c_str()); vh_distinct(sig); vh_sample("%s %s", name, m.str().c_str());
}
