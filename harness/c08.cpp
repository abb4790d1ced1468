// C08: palettes
#include "conv.h"
#include <algorithm>
#include <array>
#include <unistd.h>
static ILuint name;
void vh_setup() { vmem_install(); ilInit(); name = ilGenImage(); }
static Img cur() { std::string w = wellformed(ilGetCurImage()); if (!w.empty()) vh_fail("malformed", "%s", w.c_str()); return grab(); }
static void queries(const Img &m) {
    int bpp = palbpp(m.palType), n = m.npal(); int q[5] = {ilGetInteger(IL_PALETTE_TYPE), ilGetInteger(IL_PALETTE_BPP), ilGetInteger(IL_PALETTE_NUM_COLS), ilGetInteger(IL_PALETTE_BASE_TYPE), 0};
    ILenum base = m.palType == IL_PAL_RGB24 || m.palType == IL_PAL_RGB32 ? IL_RGB : m.palType == IL_PAL_RGBA32 ? IL_RGBA : m.palType == IL_PAL_BGRA32 ? IL_BGRA : IL_BGR;
    if (q[0] != (int)m.palType || q[1] != bpp || q[2] != n) vh_fail("query", "palette %s of %d entries is reported as type 0x%x, %d bytes, %d entries", pname(m.palType), n, q[0], q[1], q[2]);
    if (m.palType == IL_PAL_RGB24 || m.palType == IL_PAL_BGR24 || palalpha(m.palType)) if (q[3] != (int)base) vh_fail("query", "base type of palette %s is reported as 0x%x", pname(m.palType), q[3]);
    if (!ilGetPalette() || memcmp(ilGetPalette(), m.pal.data(), m.pal.size())) vh_fail("query", "ilGetPalette differs from the registered palette"); vh_count("queries");
}
static void filewrite(const std::string &p, const Bytes &b) { FILE *f = fopen(p.c_str(), "wb"); if (!f || fwrite(b.data(), 1, b.size(), f) != b.size()) vh_error("cannot write %s", p.c_str()); fclose(f); }
static void checkpal(const char *what, const std::vector<std::array<int, 3>> &want) {
    Img m; m.palType = ilGetInteger(IL_PALETTE_TYPE); int n = ilGetInteger(IL_PALETTE_NUM_COLS), b = palbpp(m.palType); ILubyte *p = ilGetPalette(); if (!p || n != (int)want.size() || !b) vh_fail("pal-file", "%s: %d entries of type 0x%x instead of %zu", what, n, m.palType, want.size()); m.pal.assign(p, p + n * b);
    for (int i = 0; i < n; i++) { RGBAd c = m.palent(i); int g[3] = {(int)(c.r * 255 + .5), (int)(c.g * 255 + .5), (int)(c.b * 255 + .5)}; for (int k = 0; k < 3; k++) if (g[k] != want[i][k]) vh_fail("pal-file", "%s: entry %d is (%d,%d,%d), should be (%d,%d,%d)", what, i, g[0], g[1], g[2], want[i][0], want[i][1], want[i][2]); } vh_count("palette_files"); }
static Img quantsrc(Rng &r, int &ncol, bool &sep) {
    ImgOpt o; o.fmts = {IL_RGB, IL_BGR, IL_RGBA, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA}; o.types = {IL_UNSIGNED_BYTE}; if (r.chance(20)) o.types.assign(std::begin(VALTYPE), std::end(VALTYPE)); o.maxw = o.maxh = r.chance(20) ? 60 : 16; o.maxd = 2; Img m = rnd_img(r, o); sep = false; ncol = 0;
    if (r.chance(50) && m.type == IL_UNSIGNED_BYTE && nch(m.fmt) >= 3) { // few colours, each in its own cell
        ncol = r.range(1, r.chance(50) ? 8 : 64); std::set<int> cells; std::vector<std::array<int, 3>> cols; while ((int)cols.size() < ncol) { int c[3] = {(int)r.below(256), (int)r.below(256), (int)r.below(256)}; int cell = (c[0] >> 3) << 10 | (c[1] >> 3) << 5 | c[2] >> 3; if (cells.insert(cell).second) cols.push_back({c[0], c[1], c[2]}); }
        for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { auto &c = cols[r.below(ncol)]; for (int k = 0; k < 3; k++) m.px(x, y, z)[k] = c[k]; } sep = true; }
    return m;
}
void vh_case(Rng &r, uint64_t idx) {
    clear_errors(); ilBindImage(name); ilDisable(IL_USE_KEY_COLOUR); ilEnable(IL_FILE_OVERWRITE); ilSetInteger(IL_MAX_QUANT_INDICES, 256); int kind = r.below(8); ImgOpt o; o.fmts = {IL_COLOUR_INDEX}; o.maxw = o.maxh = r.chance(10) ? 50 : 10; o.maxd = 2; Img m = rnd_img(r, o); uint64_t h = m.hash();
    if (kind <= 1) { // to direct colours
        if (r.chance(20)) for (auto &x : m.data) x = r.u32(); put(m); queries(m); ILenum f = r.pick(DIRFMT), t = r.pick(ALLTYPE); if (!valuedef(IL_UNSIGNED_BYTE, t)) t = IL_UNSIGNED_BYTE; vh_phase("expand"); vh_context("%s to %s/%s", m.str().c_str(), fname(f), tname(t)); Img g = m; Img s = m; s.type = IL_UNSIGNED_BYTE; std::string e;
        if (kind == 0 || r.chance(40)) { if (!ilConvertImage(f, t)) vh_fail("refused", "conversion of %s to %s/%s failed with 0x%x", m.str().c_str(), fname(f), tname(t), ilGetError()); g = cur(); if (g.fmt != f || g.type != t) vh_fail("shape", "conversion of %s to %s/%s gave %s", m.str().c_str(), fname(f), tname(t), g.str().c_str()); if (!g.pal.empty()) vh_fail("shape", "a palette is left after conversion"); }
        else if (r.chance(50)) { g.fmt = f; g.type = t; g.data.assign(g.size(), 0); if (!ilCopyPixels(0, 0, 0, m.w, m.h, m.d, f, t, g.data.data())) vh_fail("refused", "ilCopyPixels of %s failed with 0x%x", m.str().c_str(), ilGetError()); }
        else { ILpal p; memset(&p, 0, sizeof p); p.Palette = m.pal.data(); p.PalSize = m.pal.size(); p.PalType = m.palType; void *q = ilConvertBuffer(m.data.size(), IL_COLOUR_INDEX, f, IL_UNSIGNED_BYTE, t, &p, m.data.data()); if (!q) vh_fail("refused", "ilConvertBuffer of %s failed with 0x%x", m.str().c_str(), ilGetError()); g.fmt = f; g.type = t; g.data.assign((uint8_t *)q, (uint8_t *)q + g.size()); ifree(q); }
        e = convdiff(s, g); if (!e.empty()) vh_fail("expand-value", "%s: %s", m.str().c_str(), e.c_str()); vh_count("expansions"); h = vh_mix(h, f * 99 + t);
    } else if (kind == 2) { // palette layouts
        put(m); queries(m); Img was = m; int n = r.range(1, 4); for (int i = 0; i < n; i++) { ILenum p = r.pick(PALTYPES); vh_phase("convpal"); vh_context("palette %s to %s", pname(was.palType), pname(p)); if (!ilConvertPal(p)) vh_fail("refused", "ilConvertPal from %s to %s failed with 0x%x", pname(was.palType), pname(p), ilGetError()); Img g = cur(); if (g.palType != p || g.npal() != was.npal() || g.data != m.data || g.fmt != m.fmt) vh_fail("layout", "ilConvertPal from %s:%d to %s gave %s", pname(was.palType), was.npal(), pname(p), g.str().c_str());
            for (int k = 0; k < g.npal(); k++) { RGBAd a = was.palent(k), b = g.palent(k); if (a.r != b.r || a.g != b.g || a.b != b.b || (palalpha(was.palType) && palalpha(p) && a.a != b.a)) vh_fail("layout", "ilConvertPal from %s to %s changed entry %d of %d", pname(was.palType), pname(p), k, g.npal()); if (!palalpha(was.palType) && palbpp(was.palType) == 3 && palalpha(p) && b.a != 1) vh_fail("layout", "ilConvertPal from %s to %s: entry %d is not opaque", pname(was.palType), pname(p), k); } was = g; queries(g); vh_count("layouts"); }
        if (ilConvertPal(0x1234) || ilGetError() == IL_NO_ERROR) vh_fail("layout", "an unknown palette layout was accepted"); { Img g = cur(); if (!g.same(was)) vh_fail("layout", "a failed ilConvertPal changed the image"); }
    } else if (kind == 3) { // registering
        ILenum p = r.pick(PALTYPES); Bytes b(palbpp(p) * r.range(1, 256)); for (auto &x : b) x = r.u32(); put(m); vh_phase("register"); ilRegisterPal(b.data(), b.size(), p); Img w = m; w.pal = b; w.palType = p; Img g = cur(); if (!g.same(w)) vh_fail("register", "ilRegisterPal: %s", imgdiff(g, w).c_str()); for (auto &x : b) x ^= 0x55; if (!cur().same(w)) vh_fail("register", "the palette is not a copy"); queries(w); if (ilGetError() != IL_NO_ERROR) vh_fail("spurious-error", "pending"); ilRegisterPal(NULL, 3, p); ilRegisterPal(b.data(), 0, p); if (ilGetError() == IL_NO_ERROR) vh_fail("register", "an impossible palette raised no error"); clear_errors(); if (!cur().same(w)) vh_fail("register", "an impossible palette changed the image"); vh_count("registers");
    } else if (kind <= 5) { // quantising
        int ncol; bool sep; m = quantsrc(r, ncol, sep); h = m.hash(); int N = r.chance(40) ? 256 : r.chance(50) ? r.range(2, 256) : 1 << r.range(1, 7); bool neu = r.chance(40); if (neu && N < 32) N = 32; put(m); ilSetInteger(IL_MAX_QUANT_INDICES, N); ilSetInteger(IL_QUANTIZATION_MODE, neu ? IL_NEU_QUANT : IL_WU_QUANT); if (ilGetError() != IL_NO_ERROR) vh_error("quant settings refused"); vh_phase(neu ? "neuquant" : "wu"); vh_context("%s to %d colours by %s", m.str().c_str(), N, neu ? "NeuQuant" : "Wu");
        if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE)) vh_fail("refused", "quantising %s to %d colours failed with 0x%x", m.str().c_str(), N, ilGetError()); Img g = cur(); if (g.fmt != IL_COLOUR_INDEX || g.w != m.w || g.h != m.h || g.d != m.d || g.origin != m.origin) vh_fail("shape", "quantising %s gave %s", m.str().c_str(), g.str().c_str());
        size_t n = g.data.size(); std::map<int, std::vector<size_t>> by; for (size_t i = 0; i < n; i++) { if (g.data[i] >= g.npal()) vh_fail("index", "index %d of %d entries", g.data[i], g.npal()); by[g.data[i]].push_back(i); } bool ident = m.fmt == IL_LUMINANCE && N == 256; if ((int)by.size() > N) vh_fail("colours", "%zu colours used, %d requested", by.size(), N); if (!ident && !neu && !by.empty() && by.rbegin()->first >= N) vh_fail("index", "index %d used although %d colours were requested", by.rbegin()->first, N);
        std::vector<std::array<double, 3>> src(n); double mean[3] = {0, 0, 0}, var = 0, mse = 0; for (size_t i = 0; i < n; i++) { RGBAd c = m.rgba(i % m.w, i / m.w % m.h, i / ((size_t)m.w * m.h)); src[i] = {c.r * 255, c.g * 255, c.b * 255}; for (int k = 0; k < 3; k++) mean[k] += src[i][k] / n; }
        auto err = [&](size_t i, int e) { RGBAd p = g.palent(e); double d[3] = {src[i][0] - p.r * 255, src[i][1] - p.g * 255, src[i][2] - p.b * 255}; return d[0] * d[0] + d[1] * d[1] + d[2] * d[2]; };
        for (size_t i = 0; i < n; i++) { mse += err(i, g.data[i]) / n; for (int k = 0; k < 3; k++) var += (src[i][k] - mean[k]) * (src[i][k] - mean[k]) / n; }
        if (ident) { for (size_t i = 0; i < n; i++) if (err(i, g.data[i]) > 3.1) vh_fail("grey", "a grey pixel changed by more than rounding when quantised"); vh_count("identity"); }
        else if (sep && ncol <= N && !neu) { for (size_t i = 0; i < n; i++) if (err(i, g.data[i]) > 0.01) { RGBAd p = g.palent(g.data[i]); vh_fail("not-exact", "%d colours quantised to %d: pixel %zu (%g,%g,%g) became (%g,%g,%g)", ncol, N, i, src[i][0], src[i][1], src[i][2], p.r * 255, p.g * 255, p.b * 255); } vh_count("exact"); }
        if (!ident && !neu) for (auto &b : by) { double lo[3] = {1e9, 1e9, 1e9}, hi[3] = {-1e9, -1e9, -1e9}, av[3] = {0, 0, 0}; for (size_t i : b.second) for (int k = 0; k < 3; k++) { lo[k] = std::min(lo[k], src[i][k]); hi[k] = std::max(hi[k], src[i][k]); av[k] += src[i][k] / b.second.size(); } RGBAd p = g.palent(b.first); double q[3] = {p.r * 255, p.g * 255, p.b * 255}; for (int k = 0; k < 3; k++) if (fabs(q[k] - av[k]) > 2.02) vh_fail("wu-mean", "entry %d is (%g,%g,%g) but its %zu pixels average (%g,%g,%g)", b.first, q[0], q[1], q[2], b.second.size(), av[0], av[1], av[2]); vh_count("wu_entries"); }
        if (!ident && neu) for (size_t i = 0; i < n; i += 1 + n / 40) { auto l1 = [&](int e) { RGBAd p = g.palent(e); return fabs(src[i][0] - p.r * 255) + fabs(src[i][1] - p.g * 255) + fabs(src[i][2] - p.b * 255); }; double best = 1e9; for (int e = 0; e < g.npal(); e++) best = std::min(best, l1(e)); if (l1(g.data[i]) > best + 6.1) vh_fail("neu-nearest", "pixel %zu gets an entry at distance %g, the nearest is at %g", i, l1(g.data[i]), best); vh_count("neu_pixels"); }
        if (!neu && mse > var * (N >= 8 ? 0.75 : 1.0) + 20) vh_fail("mse", "mean square error %g of variance %g with %d colours", mse, var, N); if (neu && n >= 200 && mse > var + 600) vh_fail("mse", "NeuQuant mean square error %g of variance %g with %d colours", mse, var, N); vh_count(neu ? "neuquant" : "wu"); h = vh_mix(h, N * 2 + neu);
    } else if (kind == 6) { // palette files
        std::string dir = vh_tmpdir(), p = dir + "/p" + std::to_string(idx % 7); put(m); vh_phase("palfile"); std::vector<std::array<int, 3>> ent; Bytes b; int fk = r.below(5); vh_context("palette file kind %d", fk);
        if (fk == 0) { p += r.chance(50) ? ".pal" : ".PAL"; unlink(p.c_str()); if (!ilSavePal(p.c_str())) vh_fail("pal-save", "ilSavePal of %s failed with 0x%x", m.str().c_str(), ilGetError()); if (!cur().same(m)) vh_fail("pal-save", "ilSavePal changed the image"); for (int i = 0; i < 256; i++) { RGBAd c = m.palent(i); if (i >= m.npal()) c = {0, 0, 0, 1}; ent.push_back({(int)(c.r * 255 + .5), (int)(c.g * 255 + .5), (int)(c.b * 255 + .5)}); } }
        else { int n = fk == 1 ? 256 : fk == 4 ? r.range(1, 256) : 256; for (int i = 0; i < n; i++) ent.push_back({(int)r.below(256), (int)r.below(256), (int)r.below(256)});
            if (fk == 4 && r.chance(50)) { p += ".pal"; std::string s = "JASC-PAL\r\n0100\r\n" + std::to_string(n) + "\r\n"; for (auto &e : ent) s += std::to_string(e[0]) + " " + std::to_string(e[1]) + " " + std::to_string(e[2]) + "\r\n"; b.assign(s.begin(), s.end()); }
            else { if (fk == 2) { b = {0x08, 0x03, 0, 0, 0x23, 0xB1, 0, 0}; p += ".col"; } else if (fk == 1) p += r.chance(50) ? ".act" : ".col"; else if (fk == 3) { p += ".pal"; b = {'A', 'H', 0xe3, 0}; b.resize(4); uint16_t hd[20] = {0}; (void)hd; } else { p += ".plt"; uint32_t s = n * 3; b.assign((uint8_t *)&s, (uint8_t *)&s + 4); }
                if (fk == 3) { p.replace(p.size() - 3, 3, "act"); b.clear(); } for (auto &e : ent) for (int k = 0; k < 3; k++) b.push_back(e[k]); } filewrite(p, b); }
        put(rnd_img(r, o)); Img before = cur(); if (r.chance(70)) { if (!ilLoadPal(p.c_str())) vh_fail("pal-load", "ilLoadPal of %s (kind %d) failed with 0x%x", p.c_str(), fk, ilGetError()); checkpal(p.c_str(), ent); if (cur().data != before.data) vh_fail("pal-load", "ilLoadPal changed the pixels"); }
        else { ImgOpt q; q.maxw = q.maxh = 9; q.types = {IL_UNSIGNED_BYTE}; q.fmts = {IL_RGB, IL_BGR, IL_RGBA, IL_LUMINANCE, IL_COLOUR_INDEX}; Img s = rnd_img(r, q); put(s); if (!ilApplyPal(p.c_str())) vh_fail("apply", "ilApplyPal failed with 0x%x", ilGetError()); Img g = cur(); if (g.fmt != IL_COLOUR_INDEX || g.w != s.w || g.h != s.h || g.origin != s.origin) vh_fail("apply", "ilApplyPal made %s of %s", g.str().c_str(), s.str().c_str()); checkpal("applied", ent);
            for (size_t i = 0; i < g.data.size(); i++) { RGBAd c = s.rgba(i % s.w, i / s.w % s.h, i / ((size_t)s.w * s.h)); auto d2 = [&](int e) { double a = c.r * 255 - ent[e][0], b = c.g * 255 - ent[e][1], k = c.b * 255 - ent[e][2]; return a * a + b * b + k * k; }; double best = 1e9; for (size_t e = 0; e < ent.size(); e++) best = std::min(best, d2(e)); if (g.data[i] >= ent.size() || d2(g.data[i]) > best + 0.01) vh_fail("apply", "ilApplyPal: pixel %zu gets entry %d at %g, the nearest is at %g", i, g.data[i], d2(g.data[i]), best); } vh_count("applied"); }
        unlink(p.c_str()); h = vh_mix(h, fk);
    } else { // junk palette files are refused and change nothing
        std::string p = std::string(vh_tmpdir()) + "/j." + r.pick<const char *>({"pal", "col", "act", "plt"}); Bytes b(r.below(40)); for (auto &x : b) x = r.u32(); if (r.chance(40)) { const char *s = "JASC-PAL\n0100\n99999\n1 2 3\n"; b.assign(s, s + r.below(strlen(s) + 1)); } filewrite(p, b); put(m); vh_phase("junkpal"); bool ok = ilLoadPal(p.c_str()); ILenum e = ilGetError(); if (!ok && e == IL_NO_ERROR) vh_fail("junk", "ilLoadPal failed without an error"); Img g = cur(); if (!ok && g.data != m.data) vh_fail("junk", "a failed ilLoadPal changed the pixels"); if (ilLoadPal((std::string(vh_tmpdir()) + "/missing.pal").c_str()) || ilGetError() == IL_NO_ERROR) vh_fail("junk", "a missing palette file was loaded"); unlink(p.c_str()); vh_count("junk"); clear_errors();
    }
    if (ilGetError() != IL_NO_ERROR) vh_fail("spurious-error", "an error is pending"); vh_count("cases"); vh_distinct(vh_mix(h, kind)); vh_sample("kind %d %s", kind, m.str().c_str());
}
