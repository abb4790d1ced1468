// C30: mipmap chains
#include "ilu.h"
void vh_setup() { ilu_setup(); }
static Img level(int k) { ilBindImage(workName); if (k && !ilActiveMipmap(k)) vh_fail("missing", "mipmap %d cannot be selected (0x%x)", k, ilGetError()); Img g = grab("level"); ilBindImage(workName); return g; }
void vh_case(Rng &r, uint64_t) {
    ilu_begin(r); ImgOpt o; o.maxw = o.maxh = r.chance(15) ? 70 : 17; o.maxd = 6; if (r.chance(20)) o.content = 0; Img m = rnd_img(r, o); bool idx = m.fmt == IL_COLOUR_INDEX; put(m); if (r.chance(30)) { int nx = r.range(1, 3); ilCreateSubImage(IL_SUB_NEXT, nx); vh_count("with_frames"); } bool had = r.chance(30); if (had) ilCreateSubImage(IL_SUB_MIPMAP, r.range(1, 4)); clear_errors();
    static const ILenum F[] = {ILU_NEAREST, ILU_LINEAR, ILU_BILINEAR, ILU_SCALE_BOX, ILU_SCALE_LANCZOS3}; ILenum flt = r.pick(F); iluImageParameter(ILU_FILTER, flt); vh_phase("mipmaps"); vh_context("mipmaps of %s filter %x", m.str().c_str(), flt); Node before = snap(ilGetCurImage()); int oom = r.chance(15) ? (int)r.below(10) : -1; if (oom >= 0) { vmem_sticky = r.chance(50); vmem.fail_after = oom; } long f0 = vmem.failed; bool ok = iluBuildMipmaps(); bool hit = vmem.failed != f0; vmem.fail_after = -1; iluImageParameter(ILU_FILTER, ILU_NEAREST);
    int n = ilGetInteger(IL_NUM_MIPMAPS); Img b = ilu_take("mipmaps"); if (!b.same(m)) vh_fail("base", "building mipmaps changed the base: %s", imgdiff(b, m).c_str()); Node after = snap(ilGetCurImage()); if (before.next.size() != after.next.size() || before.faces.size() != after.faces.size() || before.layers.size() != after.layers.size()) vh_fail("base", "building mipmaps changed the other sub-images"); for (size_t i = 0; i < before.next.size(); i++) { std::string s = nodediff(after.next[i], before.next[i]); if (!s.empty()) vh_fail("base", "building mipmaps changed frame %zu: %s", i + 1, s.c_str()); }
    if (!ok) { if (!hit) vh_fail("refused", "building mipmaps of %s failed with 0x%x", m.str().c_str(), ilGetError()); if (ilGetError() == IL_NO_ERROR) vh_fail("silent", "building mipmaps failed without an error"); clear_errors(); if (n) vh_fail("partial", "%d mipmaps are left after a failure", n); vh_count("short_of_memory"); }
    else {
        if (hit) clear_errors(); int want = 0; for (int w = m.w, h = m.h, d = m.d; w > 1 || h > 1 || d > 1; want++) { w = std::max(1, w / 2); h = std::max(1, h / 2); d = std::max(1, d / 2); } if (n != want) vh_fail("count", "%d mipmaps of %s instead of %d", n, m.str().c_str(), want); Img p = m; bool bi = flt != ILU_NEAREST && flt != ILU_LINEAR; bool flat = true; for (size_t i = m.bpp(); i < m.data.size(); i++) if (m.data[i] != m.data[i - m.bpp()]) flat = false;
        for (int k = 1; k <= n; k++) { Img g = level(k); int w = std::max(1, p.w / 2), h = std::max(1, p.h / 2), d = std::max(1, p.d / 2); if (g.w != w || g.h != h || g.d != d) vh_fail("size", "level %d of %s is %s, should be %dx%dx%d", k, m.str().c_str(), g.str().c_str(), w, h, d); if (!idx && (g.fmt != m.fmt || g.type != m.type)) vh_fail("kind", "level %d of %s is %s", k, m.str().c_str(), g.str().c_str()); if (g.origin != m.origin) vh_fail("kind", "level %d of %s is %s", k, m.str().c_str(), g.str().c_str()); int c0 = nch(g.fmt);
            for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int c = 0; c < c0; c++) { double v, lo = 1e30, hi = -1e30, mid = 0, tol = isflt(g.type) ? (g.type == IL_HALF ? 1.5e-3 : 2e-6) : (tsz(g.type) == 4 ? 3e-7 : 0) + 1.001 / tmax(g.type); v = g.nv(x, y, z, c); double X = x * (double)p.w / w, Y = y * (double)p.h / h, Z = z * (double)p.d / d; (void)mid;
                auto at = [&](int i, int j, int l) -> double { if (p.fmt != IL_COLOUR_INDEX) return p.nv(i, j, l, c); RGBAd q = p.rgba(i, j, l); double e[4]; expchan(q, IL_RGBA, g.fmt, e); return e[c]; };
                for (int l = (int)floor(Z - 1e-9); l <= floor(Z + 1e-9) + 1; l++) for (int j = (int)floor(Y - 1e-9); j <= floor(Y + 1e-9) + 1; j++) for (int i = (int)floor(X - 1e-9); i <= floor(X + 1e-9) + 1; i++) { if (i < 0 || j < 0 || l < 0) continue; double e = at(std::min(i, p.w - 1), std::min(j, p.h - 1), std::min(l, p.d - 1)); lo = std::min(lo, e); hi = std::max(hi, e); }
                if (v < lo - tol || v > hi + tol) vh_fail("range", "level %d of %s: pixel (%d,%d,%d) channel %d is %g, not between %g and %g of the pixels it covers", k, m.str().c_str(), x, y, z, c, v, lo, hi);
                if (bi && p.d == 1) { int i = (int)floor(X + 1e-9), j = (int)floor(Y + 1e-9), i1 = std::min(i + 1, p.w - 1), j1 = std::min(j + 1, p.h - 1); double fx = std::max(0.0, X - i), fy = std::max(0.0, Y - j), e = (1 - fy) * ((1 - fx) * at(i, j, 0) + fx * at(i1, j, 0)) + fy * ((1 - fx) * at(i, j1, 0) + fx * at(i1, j1, 0)); if (fabs(v - e) > tol) vh_fail("value", "level %d of %s (filter %x): pixel (%d,%d) channel %d is %g, should be %g", k, m.str().c_str(), flt, x, y, c, v, e); } }
            if (flat && !idx && tsz(m.type) < 4) { vh_count("constant_levels"); for (size_t i = 0; i < g.data.size(); i++) if (g.data[i] != m.data[i % m.bpp()]) vh_fail("constant", "level %d of a constant %s has %d instead of %d", k, m.str().c_str(), g.data[i], m.data[i % m.bpp()]); }
            vh_count("levels"); p = g; }
        if (ilActiveMipmap(n + 1)) vh_fail("count", "a mipmap beyond the last can be selected"); clear_errors(); ilBindImage(workName);
        if (r.chance(20)) { put(m); if (ilGetInteger(IL_NUM_MIPMAPS) != 0) vh_fail("kept", "the mipmaps survive a new image"); }
    }
    ilu_end("mipmaps"); vh_count("cases"); vh_distinct(vh_mix(m.hash(), flt)); vh_sample("%s filter %x", m.str().c_str(), flt);
}
