// C04: lossy formats stay within their error bound
#include "save.h"
void vh_setup() { vmem_install(); ilInit(); iluInit(); }
static const int QL[64] = {16, 11, 12, 14, 12, 10, 16, 14, 13, 14, 18, 17, 16, 19, 24, 40, 26, 24, 22, 22, 24, 49, 35, 37, 29, 40, 58, 51, 61, 60, 57, 51, 56, 55, 64, 72, 92, 78, 64, 68, 87, 69, 55, 56, 80, 109, 81, 87, 95, 98, 103, 104, 103, 62, 77, 113, 121, 112, 100, 120, 92, 101, 103, 99};
static const int QC[64] = {17, 18, 18, 24, 21, 24, 47, 26, 26, 47, 99, 66, 56, 66, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99};
static std::vector<int> scaled(const int *base, int q) { if (q < 1) q = 1; int s = q < 50 ? 5000 / q : 200 - 2 * q; std::vector<int> t; for (int i = 0; i < 64; i++) { int v = (base[i] * s + 50) / 100; t.push_back(std::min(255, std::max(1, v))); } return t; }
struct Loaded { Frame f; bool grey; };
static Bytes save_l(ILenum t, const char *n) { ILuint k = ilSaveL(t, NULL, 0); if (!k) vh_fail((std::string("refused-") + n).c_str(), "not saved as %s: %s", n, ilerr(ilGetError())); Bytes b(k); ILuint w = ilSaveL(t, b.data(), k); if (!w || w > k) vh_fail((std::string("size-") + n).c_str(), "size %u, written %u", k, w); b.resize(w); return b; }
static Frame fr(const Img &m, int z = 0) { Frame f; f.size(m.w, m.h); for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) f.at(x, y) = m.rgba(x, uly(m, y), z); return f; }
static double mse(const Frame &a, const Frame &b) { double s = 0; for (size_t i = 0; i < a.px.size(); i++) for (int k = 0; k < 3; k++) { double d = 255 * ((&a.px[i].r)[k] - (&b.px[i].r)[k]); s += d * d; } return s / a.px.size() / 3; }
static double luma(const RGBAd &c) { return 255 * (c.r * .299 + c.g * .587 + c.b * .114); }
static void jpeg(Rng &r, ILuint id) {
    Img m; m.fmt = r.pick({IL_LUMINANCE, IL_RGB, IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE_ALPHA, IL_COLOUR_INDEX}); m.type = r.chance(80) ? IL_UNSIGNED_BYTE : r.pick({IL_UNSIGNED_SHORT, IL_FLOAT}); if (m.fmt == IL_COLOUR_INDEX) m.type = IL_UNSIGNED_BYTE; m.w = r.range(1, 70); m.h = r.range(1, 70); if (r.chance(20)) { m.w = r.range(1, 9); m.h = r.range(1, 9); } m.origin = r.chance(50) ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT; m.data.resize(m.size()); int content = r.below(4); bool idx = m.fmt == IL_COLOUR_INDEX;
    if (idx) { m.palType = r.pick(PALTYPES); m.pal.resize(256 * palbpp(m.palType)); for (int i = 0; i < 256; i++) for (int k = 0; k < palbpp(m.palType); k++) m.pal[i * palbpp(m.palType) + k] = i; }
    int ch = nch(m.fmt); double base[4], sx[4], sy[4]; for (int k = 0; k < 4; k++) base[k] = r.below(256) / 255., sx[k] = (r.unit() * 2 - 1) * 2 / 255, sy[k] = (r.unit() * 2 - 1) * 2 / 255;
    for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) for (int k = 0; k < ch; k++) { double v = content == 0 ? base[k] : content == 1 ? base[k] + sx[k] * x + sy[k] * y : content == 2 ? .5 + .35 * sin(x * sx[k] * 60 + base[k] * 6) * cos(y * sy[k] * 60) : .25 + .5 * r.unit(); v = v < 0 ? 0 : v > 1 ? 1 : v; if (idx) *m.px(x, y) = (uint8_t)(v * 255 + .5); else m.setn(x, y, 0, k, floor(v * 255 + .5) / 255); }
    int q = r.chance(30) ? r.pick({0, 1, 10, 25, 49, 50, 51, 75, 90, 98, 99}) : r.range(0, 99); bool prog = r.chance(30); ilSetInteger(IL_JPG_QUALITY, q); if (prog) ilEnable(IL_JPG_PROGRESSIVE); else ilDisable(IL_JPG_PROGRESSIVE); put(m); vh_context("%s content %d at quality %d%s", m.str().c_str(), content, q, prog ? " progressive" : ""); vh_distinct(vh_mix(m.hash(), q * 2 + prog));
    Bytes b = save_l(IL_JPG, "jpg"); vh_input(b.data(), b.size()); JpegInfo ji; Decoded d; try { d = dec_jpg(b, &ji); } catch (const BadFile &e) { vh_fail("invalid-jpg", "%s", e.why.c_str()); } bool grey = m.fmt == IL_LUMINANCE && tsz(m.type) == 1; auto ql = scaled(QL, q), qc = scaled(QC, q); if (ji.q.empty() || ji.q[0] != ql || (!grey && (ji.q.size() < 2 || ji.q[1] != qc))) vh_fail("quality-jpg", "the quantisation tables (luminance starts %d %d) are not those of quality %d (%d %d)", ji.q.empty() ? 0 : ji.q[0][0], ji.q.empty() ? 0 : ji.q[0][1], q, ql[0], ql[1]);
    // what the library loads is what the file holds
    vh_phase("load"); if (!load_mem(IL_JPG, b)) vh_fail("reload-jpg", "%s", ilerr(ilGetError())); Img g = grab("jpg"); if (g.w != m.w || g.h != m.h || g.d != 1 || g.type != IL_UNSIGNED_BYTE || g.fmt != (grey ? IL_LUMINANCE : IL_RGB)) vh_fail("shape-jpg", "%s comes back as %s", m.str().c_str(), g.str().c_str()); Frame lf = fr(g), sf = fr(m); for (size_t i = 0; i < lf.px.size(); i++) for (int k = 0; k < 3; k++) if (fabs((&lf.px[i].r)[k] - (&d.f().px[i].r)[k]) > 2.01 / 255) vh_fail("decode-jpg", "channel %d of pixel %zu loads as %.4g, the file holds %.4g", k, i, (&lf.px[i].r)[k], (&d.f().px[i].r)[k]);
    // no more error than the quantisation allows, block by block
    double worst = 0; bool clipped = false; double sq = 0; for (int v : ql) sq += v * v / 4.; for (int by = 0; by < m.h; by += 8) for (int bx = 0; bx < m.w; bx += 8) { double sse = 0; int n = 0; bool clip = false; for (int y = by; y < std::min(by + 8, m.h); y++) for (int x = bx; x < std::min(bx + 8, m.w); x++) { double e = luma(lf.at(x, y)) - luma(sf.at(x, y)); sse += e * e; n++; for (int k = 0; k < 3; k++) { double v = (&lf.at(x, y).r)[k] * 255; if (v < .5 || v > 254.5) clip = true; } } clipped |= clip; if (clip && !grey) continue; double lim = sqrt(sq) + sqrt(n) * 2; if (sqrt(sse) > lim) vh_fail("quantisation-jpg", "the block at (%d,%d) differs by %.4g (root of the sum of squares), quality %d allows %.4g", bx, by, sqrt(sse), q, lim); worst = std::max(worst, sqrt(sse) / lim); vh_count("blocks"); }
    double mx = 0; for (size_t i = 0; i < lf.px.size(); i++) for (int k = 0; k < 3; k++) mx = std::max(mx, 255 * fabs((&lf.px[i].r)[k] - (&sf.px[i].r)[k]));
    if (content == 0) { double lim = grey ? ql[0] / 16. + 2 : ql[0] / 16. + 1.8 * qc[0] / 16. + 4; if (mx > lim) vh_fail("flat-jpg", "a flat picture is off by %.4g/255, quality %d allows %.4g", mx, q, lim); vh_count("flat"); } (void)clipped;
    if (content == 1 && q >= 85) { if (mx > 12) vh_fail("smooth-jpg", "a smooth picture is off by %.4g/255 at quality %d", mx, q); static double W = 0; if (getenv("C04_VERBOSE") && mx > W) { W = mx; fprintf(stderr, "smooth q %d max %g %s\n", q, mx, m.str().c_str()); } vh_count("smooth"); }
    // progressive or not: the same picture; a higher quality is no worse
    if (r.chance(50)) { vh_phase("other mode"); ilBindImage(id); put(m); if (prog) ilDisable(IL_JPG_PROGRESSIVE); else ilEnable(IL_JPG_PROGRESSIVE); Bytes c = save_l(IL_JPG, "jpg"); if (c == b && m.w * m.h > 0) vh_fail("mode-jpg", "progressive or not: the same file"); if (!load_mem(IL_JPG, c)) vh_fail("reload-jpg", "%s", ilerr(ilGetError())); Img h = grab("jpg"); if (h.data != g.data) vh_fail("progressive-jpg", "progressive and sequential files of %s differ: %s", m.str().c_str(), imgdiff(h, g).c_str()); vh_count("modes"); }
    if (q < 95 && r.chance(60)) { vh_phase("better"); int q2 = r.range(q + 1, 99); ilBindImage(id); put(m); ilSetInteger(IL_JPG_QUALITY, q2); Bytes c = save_l(IL_JPG, "jpg"); if (!load_mem(IL_JPG, c)) vh_fail("reload-jpg", "%s", ilerr(ilGetError())); double e1 = mse(lf, sf), e2 = mse(fr(grab("jpg")), sf); auto l2 = scaled(QL, q2), c2 = scaled(QC, q2); double al = l2[0] / 16. + 1.8 * c2[0] / 16. + 3; if (e2 > e1 * 2 + al * al) vh_fail("worse-jpg", "quality %d has mean square error %.4g, quality %d %.4g", q, e1, q2, e2); vh_count("qualities"); static double W = 0; if (getenv("C04_VERBOSE") && e2 - e1 * 1.5 > W) { W = e2 - e1 * 1.5; fprintf(stderr, "worse q %d %g, q %d %g content %d\n", q, e1, q2, e2, content); } }
    ilDisable(IL_JPG_PROGRESSIVE); ilSetInteger(IL_JPG_QUALITY, 99); vh_count("jpg"); vh_sample("JPEG %s content %d quality %d: worst %.3g of the bound", m.str().c_str(), content, q, worst);
}
static void hdr(Rng &r, ILuint id) {
    ImgOpt o; o.maxw = 40; o.maxh = 20; Img m = rnd_img(r, o); if (m.fmt == IL_COLOUR_INDEX) m.type = IL_UNSIGNED_BYTE; else if (issigned(m.type)) m.type = IL_FLOAT, m.data.assign(m.size(), 0); int kind = r.below(5); bool flt = isflt(m.type) && m.type != IL_HALF && m.fmt != IL_COLOUR_INDEX; bool exact = false; size_t n = m.data.size() / tsz(m.type);
    if (flt) { for (size_t i = 0; i < n; i++) { double v = kind == 0 ? ldexp(r.unit(), r.range(-90, 120)) : kind == 1 ? r.unit() * 1000 : kind == 2 ? (r.chance(30) ? 0 : ldexp(1, r.range(-10, 10))) : kind == 3 ? (r.unit() * 2 - 1) * 3 : r.below(3) * .25; putraw(&m.data[i * tsz(m.type)], m.type, v); } if (kind == 4 && (m.fmt == IL_RGB || m.fmt == IL_BGR)) { exact = true; for (size_t i = 0; i < n / 3; i++) { int e = r.range(-20, 20), big = r.range(128, 255), at = r.below(3); for (int k = 0; k < 3; k++) putraw(&m.data[(i * 3 + k) * tsz(m.type)], m.type, ldexp(k == at ? big : r.below(big + 1), e)); } } if (r.chance(30)) { int bp = m.bpp(), left = 0; size_t np = m.data.size() / bp, src = 0; for (size_t i = 0; i < np; i++) { if (left-- <= 0) { left = r.below(150); src = i; } else memcpy(&m.data[i * bp], &m.data[src * bp], bp); } } }
    put(m); vh_context("%s kind %d as HDR", m.str().c_str(), kind); vh_distinct(m.hash()); Bytes b = save_l(IL_HDR, "hdr"); vh_input(b.data(), b.size()); vh_phase("load"); if (!load_mem(IL_HDR, b)) vh_fail("reload-hdr", "%s", ilerr(ilGetError())); Img g = grab("hdr"); if (g.w != m.w || g.h != m.h || g.d != 1 || g.type != IL_FLOAT || (g.fmt != IL_RGB && g.fmt != IL_BGR)) vh_fail("shape-hdr", "%s comes back as %s", m.str().c_str(), g.str().c_str()); const double TOP = 255 / 256. * ldexp(1, 127);
    for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { RGBAd c = m.rgba(x, uly(m, y)), v = g.rgba(x, uly(g, y)); if (m.fmt == IL_ALPHA) c = RGBAd{0, 0, 0, 1}; double mxv = 0; for (int k = 0; k < 3; k++) { double &q = (&c.r)[k]; q = q < 0 ? 0 : q > TOP ? TOP : q; mxv = std::max(mxv, q); } for (int k = 0; k < 3; k++) { double want = (&c.r)[k], got = (&v.r)[k], t = exact ? 1e-9 * mxv : mxv / 127.9 + 1e-31; if (!(fabs(want - got) <= t)) vh_fail(exact ? "exact-hdr" : "error-hdr", "channel %d of pixel (%d,%d) comes back as %.9g, should be %.9g (brightest %.9g)", k, x, y, got, want, mxv); } vh_count("hdr_pixels"); }
    vh_phase("again"); Bytes b2 = save_l(IL_HDR, "hdr"); if (!load_mem(IL_HDR, b2)) vh_fail("reload-hdr", "%s", ilerr(ilGetError())); Img h = grab("hdr"); if (h.data != g.data) vh_fail("again-hdr", "what was loaded does not come back the same: %s", imgdiff(h, g).c_str()); vh_count("hdr"); vh_count("hdr_exact", exact); vh_sample("HDR %s kind %d", m.str().c_str(), kind); (void)id;
}
void vh_case(Rng &r, uint64_t) { vmem.fail_after = -1; clear_errors(); static ILuint id = 0; if (!id) id = ilGenImage(); ilBindImage(id); if (r.chance(60)) jpeg(r, id); else hdr(r, id); ILenum e = ilGetError(); if (e != IL_NO_ERROR) vh_fail("error", "an error is left: %s", ilerr(e)); }
