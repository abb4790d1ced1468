// C14: reading and writing boxes of pixels
#include "conv.h"
void vh_setup() { vmem_install(); ilInit(); }
static int pickoff(Rng &r, int size) { switch (r.below(8)) { case 0: return 0; case 1: return size - 1; case 2: return size; case 3: return size + r.range(1, 5); case 4: return r.chance(50) ? 0x7ffffff0 : 0x40000000; default: return r.range(0, size); } }
static int pickext(Rng &r, int size) { switch (r.below(7)) { case 0: return 1; case 1: return size; case 2: return size + r.range(1, 6); case 3: return 2 * size + 3; default: return r.range(1, size); } }
void vh_case(Rng &r, uint64_t) {
    clear_errors(); ilDisable(IL_ORIGIN_SET); static ILuint name = 0; if (!name) name = ilGenImage(); ilBindImage(name);
    ImgOpt o; o.maxw = o.maxh = r.chance(10) ? 40 : 10; o.maxd = 4; Img m = rnd_img(r, o); put(m);
    bool mode = r.chance(15); ILenum org = r.chance(50) ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT; if (mode) { ilEnable(IL_ORIGIN_SET); ilOriginFunc(org); } bool flip = mode && org != m.origin;
    auto row = [&](int y) { return flip ? m.h - 1 - y : y; };
    int w = pickext(r, m.w), h = pickext(r, m.h), d = r.chance(60) ? 1 : pickext(r, m.d);
    if (r.chance(50)) { // read
        ILuint x0 = pickoff(r, m.w), y0 = pickoff(r, m.h), z0 = r.chance(60) ? 0 : pickoff(r, m.d); if (r.chance(50)) x0 %= m.w, y0 %= m.h, z0 %= m.d; if (r.chance(5)) x0 = 0xFFFFFFF0u + r.below(16);
        ILenum f, t; do { f = r.chance(30) ? m.fmt : r.pick(DIRFMT); t = r.chance(30) ? m.type : r.pick(ALLTYPE); } while (f == IL_COLOUR_INDEX ? 0 : !convertible(m.fmt, f) || !valuedef(m.fmt == IL_COLOUR_INDEX ? IL_UNSIGNED_BYTE : m.type, t));
        vh_phase("copy"); vh_context("ilCopyPixels(%u,%u,%u %dx%dx%d %s/%s) of %s", x0, y0, z0, w, h, d, fname(f), tname(t), m.str().c_str());
        int bp = nch(f) * tsz(t); size_t n = (size_t)w * h * d * bp; uint8_t *buf = (uint8_t *)malloc(n); memset(buf, 0xC7, n); ILuint got = ilCopyPixels(x0, y0, z0, w, h, d, f, t, buf);
        if (f == IL_COLOUR_INDEX) { if (got != 0) { for (size_t i = 0; i < n; i++) ; } free(buf); clear_errors(); }
        else {
            if (got != n) vh_fail("copy-result", "ilCopyPixels(%u,%u,%u %dx%dx%d %s/%s) of %s returned %u, not the %zu bytes of the box (error 0x%x)", x0, y0, z0, w, h, d, fname(f), tname(t), m.str().c_str(), got, n, ilGetError());
            uint64_t in = 0; for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { uint64_t X = (uint64_t)x0 + x, Y = (uint64_t)y0 + y, Z = (uint64_t)z0 + z; if (X >= (uint64_t)m.w || Y >= (uint64_t)m.h || Z >= (uint64_t)m.d) continue; in++; std::string e = pixdiff(m, X, row(Y), Z, buf + (((size_t)z * h + y) * w + x) * bp, f, t); if (!e.empty()) vh_fail("copy-value", "ilCopyPixels(%u,%u,%u %dx%dx%d %s/%s) of %s, box position (%d,%d,%d): %s", x0, y0, z0, w, h, d, fname(f), tname(t), m.str().c_str(), x, y, z, e.c_str()); }
            free(buf); vh_count("reads"); vh_count("read_pixels", in); if (in && in < (uint64_t)w * h * d) vh_count("clipped_reads"); if (!in) vh_count("outside_reads");
            if (ilGetError() != IL_NO_ERROR) vh_fail("spurious-error", "an error is pending after a successful ilCopyPixels"); vh_distinct(vh_mix(m.hash(), x0 * 31 + y0 * 17 + w * 7 + h + d));
        }
        Img g = grab(); if (!g.same(m)) vh_fail("copy-changed", "ilCopyPixels changed the image: %s", imgdiff(g, m).c_str());
    } else {
        ILint x0 = pickoff(r, m.w), y0 = pickoff(r, m.h), z0 = r.chance(60) ? 0 : pickoff(r, m.d); if (r.chance(35)) x0 = -r.range(0, w + 2); if (r.chance(35)) y0 = -r.range(0, h + 2); if (r.chance(15)) z0 = -r.range(0, d + 1); if (r.chance(3)) x0 = INT32_MIN + (int)r.below(3);
        ImgOpt b; b.maxw = b.maxh = 1; if (m.fmt == IL_COLOUR_INDEX) b.fmts.assign(1, m.fmt); else b.fmts.assign(std::begin(DIRFMT), std::end(DIRFMT)); if (m.fmt == IL_COLOUR_INDEX) b.types.assign(1, m.type); else if (r.chance(30)) { b.fmts.assign(1, m.fmt); b.types.assign(1, m.type); }
        Img box; do box = rnd_img(r, b); while (!convertible(box.fmt, m.fmt) || !valuedef(box.type, m.type)); box.w = w; box.h = h; box.d = d; box.data.resize(box.size()); if (isflt(box.type)) for (size_t i = 0; i < box.data.size() / tsz(box.type); i++) putraw(&box.data[i * tsz(box.type)], box.type, r.unit()); else for (auto &x : box.data) x = r.u32(); if (m.fmt == IL_COLOUR_INDEX) for (auto &x : box.data) x %= m.npal();
        vh_phase("set"); vh_context("ilSetPixels(%d,%d,%d %dx%dx%d %s/%s) into %s", x0, y0, z0, w, h, d, fname(box.fmt), tname(box.type), m.str().c_str());
        uint8_t *buf = (uint8_t *)malloc(box.size()); memcpy(buf, box.data.data(), box.size()); ilSetPixels(x0, y0, z0, w, h, d, box.fmt, box.type, buf);
        if (memcmp(buf, box.data.data(), box.size())) vh_fail("set-buffer", "ilSetPixels changed the caller's buffer"); free(buf); ILenum e = ilGetError(); if (e != IL_NO_ERROR) vh_fail("spurious-error", "ilSetPixels raised 0x%x", e);
        Img g = grab(); if (g.w != m.w || g.h != m.h || g.d != m.d || g.fmt != m.fmt || g.type != m.type || g.origin != m.origin || g.pal != m.pal) vh_fail("set-changed", "ilSetPixels changed the image to %s from %s", g.str().c_str(), m.str().c_str());
        uint64_t in = 0; for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { int64_t X = (int64_t)x - x0, Y = (int64_t)row(y) - y0, Z = (int64_t)z - z0; const uint8_t *p = g.px(x, y, z); std::string er;
            if (X < 0 || Y < 0 || Z < 0 || X >= w || Y >= h || Z >= d) { if (memcmp(p, m.px(x, y, z), m.bpp())) er = "a pixel outside the box changed"; } else { in++; er = pixdiff(box, X, Y, Z, p, m.fmt, m.type); } if (!er.empty()) vh_fail("set-value", "ilSetPixels(%d,%d,%d %dx%dx%d %s/%s) into %s, image position (%d,%d,%d): %s", x0, y0, z0, w, h, d, fname(box.fmt), tname(box.type), m.str().c_str(), x, y, z, er.c_str()); }
        vh_count("writes"); vh_count("written_pixels", in); if (in && in < (uint64_t)w * h * d) vh_count("clipped_writes"); if (!in) vh_count("outside_writes"); vh_distinct(vh_mix(m.hash(), x0 * 31 + y0 * 17 + w * 7 + h + d + 1));
    }
    if (r.chance(10)) { // impossible requests change nothing
        Img before = grab(); uint8_t b[64]; int k = r.below(6); vh_phase("bad"); if (k == 0) ilCopyPixels(0, 0, 0, 1, 1, 1, 0x1234, IL_UNSIGNED_BYTE, b); else if (k == 1) ilCopyPixels(0, 0, 0, 1, 1, 1, IL_RGB, 0x1234, b); else if (k == 2) ilCopyPixels(0, 0, 0, 1, 1, 1, IL_RGB, IL_UNSIGNED_BYTE, NULL); else if (k == 3) ilSetPixels(0, 0, 0, 1, 1, 1, IL_RGB, IL_UNSIGNED_BYTE, NULL); else if (k == 4) ilSetPixels(0, 0, 0, 1, 1, 1, 0x1234, IL_UNSIGNED_BYTE, b); else { ilCopyPixels(0, 0, 0, 0, 0, 0, IL_RGB, IL_UNSIGNED_BYTE, b); ilSetPixels(0, 0, 0, 0, 0, 0, m.fmt, m.type, b); }
        Img g = grab(); if (!g.same(before)) vh_fail("bad-changed", "an impossible request changed the image: %s", imgdiff(g, before).c_str()); clear_errors(); vh_count("bad_requests"); }
    vh_count("cases"); vh_sample("%s box %dx%dx%d", m.str().c_str(), w, h, d);
}
