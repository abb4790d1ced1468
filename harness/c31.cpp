// C31: blitting and overlaying
#include "conv.h"
void vh_setup() { vmem_install(); ilInit(); }
void vh_case(Rng &r, uint64_t) {
    clear_errors(); static ILuint dn = 0, sn = 0, on = 0; if (!dn) { dn = ilGenImage(); sn = ilGenImage(); on = ilGenImage(); }
    ImgOpt o; o.maxw = o.maxh = r.chance(10) ? 40 : 9; o.maxd = 3; bool idx = r.chance(8); if (!idx) o.fmts.assign(std::begin(DIRFMT), std::end(DIRFMT)); else o.fmts.assign(1, IL_COLOUR_INDEX);
    if (r.chance(50)) o.types.assign(std::begin(VALTYPE), std::end(VALTYPE));
    Img d = rnd_img(r, o), s; do { ImgOpt so = o; if (!idx && r.chance(10)) so.fmts.assign(1, IL_COLOUR_INDEX); s = rnd_img(r, so); } while (!convertible(s.fmt, d.fmt) || !valuedef(s.fmt == IL_COLOUR_INDEX ? IL_UNSIGNED_BYTE : s.type, d.type));
    if (idx) { s.palType = d.palType; s.pal = d.pal; s.type = d.type; for (auto &x : s.data) x %= d.npal(); }
    bool blend = r.chance(60), alias = r.chance(4); if (alias) s = d; Img other = rnd_img(r, o);
    ilBindImage(on); put(other); if (!alias) { ilBindImage(sn); put(s); } ilBindImage(dn); put(d); ILuint src = alias ? dn : sn; if (blend) ilEnable(IL_BLIT_BLEND); else ilDisable(IL_BLIT_BLEND);
    int dx, dy, dz = 0; auto off = [&](int ds, int ss) { switch (r.below(6)) { case 0: return 0; case 1: return -r.range(0, ss + 1); case 2: return r.range(0, ds + 1); case 3: return ds - ss; case 4: return r.chance(20) ? (r.chance(50) ? 0x7ffffff0 : -0x7ffffff0) : r.range(-ss, ds); default: return r.range(-ss / 2, ds / 2); } };
    dx = off(d.w, s.w); dy = off(d.h, s.h); if (r.chance(40)) dz = off(d.d, s.d); int sx = 0, sy = 0, sz = 0, w = s.w, h = s.h, dd = s.d; bool over = r.chance(35); bool ok;
    if (!over) { sx = r.range(0, s.w); sy = r.range(0, s.h); if (r.chance(40)) sz = r.range(0, s.d); w = r.range(0, s.w + 3); h = r.range(0, s.h + 3); dd = r.chance(60) ? 1 : r.range(0, s.d + 1); if (r.chance(3)) w = 0x7fffffff; }
    vh_phase(over ? "overlay" : "blit"); vh_context("%s %s (%d,%d,%d %dx%dx%d) onto %s at (%d,%d,%d) blend=%d", over ? "overlay" : "blit", s.str().c_str(), sx, sy, sz, w, h, dd, d.str().c_str(), dx, dy, dz, blend);
    ok = over ? ilOverlayImage(src, dx, dy, dz) : ilBlit(src, dx, dy, dz, sx, sy, sz, w, h, dd); ILenum e = ilGetError();
    if (!ok) vh_fail("refused", "failed with 0x%x: %s onto %s", e, s.str().c_str(), d.str().c_str()); if (e != IL_NO_ERROR) vh_fail("spurious-error", "raised 0x%x", e);
    if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != dn) vh_fail("bound", "the bound image is now %d", ilGetInteger(IL_CUR_IMAGE));
    Img g = grab(); if (g.w != d.w || g.h != d.h || g.d != d.d || g.fmt != d.fmt || g.type != d.type || g.origin != d.origin || g.pal != d.pal) vh_fail("shape", "the destination became %s from %s", g.str().c_str(), d.str().c_str());
    bool bl = blend && d.fmt != IL_ALPHA && (s.fmt == IL_RGBA || s.fmt == IL_BGRA || s.fmt == IL_LUMINANCE_ALPHA); uint64_t in = 0; int dc = nch(d.fmt);
    for (int z = 0; z < d.d; z++) for (int ty = 0; ty < d.h; ty++) for (int x = 0; x < d.w; x++) { // ty counts from the top
        int y = d.origin == IL_ORIGIN_UPPER_LEFT ? ty : d.h - 1 - ty; int64_t X = (int64_t)x - dx, Y = (int64_t)ty - dy, Z = (int64_t)z - dz; bool cov = X >= 0 && Y >= 0 && Z >= 0 && X < w && Y < h && Z < dd && X + sx < s.w && Y + sy < s.h && Z + sz < s.d; const uint8_t *p = g.px(x, y, z); std::string er;
        if (!cov) { if (memcmp(p, d.px(x, y, z), d.bpp())) er = "a pixel that is not covered changed"; }
        else { in++; int ssy = (int)Y + sy; if (s.origin == IL_ORIGIN_LOWER_LEFT) ssy = s.h - 1 - ssy; int ssx = (int)X + sx, ssz = (int)Z + sz;
            if (!bl) er = pixdiff(s, ssx, ssy, ssz, p, d.fmt, d.type);
            else { double v[4]; RGBAd c = s.rgba(ssx, ssy, ssz); expchan(c, s.fmt, d.fmt, v); bool ha = hasalpha(d.fmt); for (int k = 0; k < dc; k++) { double old = d.nv(x, y, z, k), got = normval(p + k * tsz(d.type), d.type), want = ha && k == dc - 1 ? old : v[k] * c.a + old * (1 - c.a), tol = convtol(s, d.fmt, d.type, want, std::max(fabs(c.r), std::max(fabs(c.g), fabs(c.b)))) + (isflt(d.type) ? 1e-5 : 1.01 / tmax(d.type) + 1e-6); if (d.type == IL_HALF) tol += fabs(want) / 500 + 1e-4; if (ha && k == dc - 1) tol = 0; if (issigned(s.type) || issigned(d.type)) continue; if (!close1(got, want, tol)) { char b[200]; snprintf(b, 200, "blended channel %d is %.7g, should be %.7g (source %.7g, alpha %.7g, below %.7g)", k, got, want, v[k], c.a, old); er = b; break; } } vh_count("blended_pixels"); } }
        if (!er.empty() && !alias) vh_fail("value", "%s %s (%d,%d,%d %dx%dx%d) onto %s at (%d,%d,%d) blend=%d: pixel (%d,%d,%d): %s", over ? "overlay" : "blit", s.str().c_str(), sx, sy, sz, w, h, dd, d.str().c_str(), dx, dy, dz, blend, x, y, z, er.c_str()); }
    if (!alias) { ilBindImage(sn); Img g2 = grab(); if (!g2.same(s)) vh_fail("source", "the source image changed: %s", imgdiff(g2, s).c_str()); } ilBindImage(on); { Img g3 = grab(); if (!g3.same(other)) vh_fail("other", "an unrelated image changed"); } ilBindImage(dn);
    if (r.chance(5)) { Img b4 = grab(); if (ilBlit(99999, 0, 0, 0, 0, 0, 0, 1, 1, 1) || ilGetError() == IL_NO_ERROR) vh_fail("unknown", "blitting from an unknown name succeeded"); if (ilOverlayImage(99999, 0, 0, 0) || ilGetError() == IL_NO_ERROR) vh_fail("unknown", "overlaying an unknown name succeeded"); if (!grab().same(b4)) vh_fail("unknown", "an impossible blit changed the image"); vh_count("bad_requests"); }
    vh_count("cases"); vh_count("covered_pixels", in); if (in && in < (uint64_t)w * h * dd) vh_count("clipped"); if (!in) vh_count("outside"); if (s.origin != d.origin) vh_count("mixed_origins"); vh_distinct(vh_mix(vh_mix(s.hash(), d.hash()), dx * 131 + dy)); vh_sample("%s onto %s at (%d,%d,%d)", s.str().c_str(), d.str().c_str(), dx, dy, dz);
}
