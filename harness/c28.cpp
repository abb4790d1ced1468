// C28: alpha access and the colour key
#include "conv.h"
void vh_setup() { vmem_install(); ilInit(); }
void vh_case(Rng &r, uint64_t) {
    clear_errors(); static ILuint name = 0; if (!name) name = ilGenImage(); ilBindImage(name); ilDisable(IL_USE_KEY_COLOUR); int kind = r.below(3);
    ImgOpt o; o.maxw = o.maxh = r.chance(10) ? 40 : 9; o.maxd = 3; Img m = rnd_img(r, o); vh_context("%s", m.str().c_str());
    if (kind == 0) { // read
        vh_phase("get"); put(m); ILenum t; do t = r.chance(30) ? m.type : r.pick(ALLTYPE); while (!valuedef(m.fmt == IL_COLOUR_INDEX ? IL_UNSIGNED_BYTE : m.type, t)); ILubyte *a = ilGetAlpha(t); if (!a) vh_fail("get-refused", "ilGetAlpha(%s) of %s failed with 0x%x", tname(t), m.str().c_str(), ilGetError());
        size_t n = (size_t)m.w * m.h * m.d; Bytes got(a, a + n * tsz(t)); ifree(a); for (size_t i = 0; i < n; i++) { int x = i % m.w, y = i / m.w % m.h, z = i / ((size_t)m.w * m.h); double want = m.fmt == IL_COLOUR_INDEX ? 1 : m.rgba(x, y, z).a, g = normval(&got[i * tsz(t)], t); bool exact = t == m.type && hasalpha(m.fmt); if (exact ? memcmp(&got[i * tsz(t)], m.px(x, y, z) + (nch(m.fmt) - 1) * tsz(t), tsz(t)) != 0 : !close1(g, want, convtol(m, IL_ALPHA, t, want))) vh_fail("get-value", "ilGetAlpha(%s) of %s: pixel (%d,%d,%d) gives %.8g, should be %.8g", tname(t), m.str().c_str(), x, y, z, g, want); }
        Img g = grab(); if (!g.same(m)) vh_fail("get-changed", "ilGetAlpha changed the image: %s", imgdiff(g, m).c_str()); vh_count("gets"); vh_count("values", n);
        if (r.chance(5) && (ilGetAlpha(0x1234) || ilGetError() == IL_NO_ERROR)) vh_fail("get-bad", "ilGetAlpha of an unknown type succeeded");
    } else if (kind == 1) { // write
        vh_phase("set"); if (m.fmt == IL_COLOUR_INDEX && r.chance(70)) { o.fmts.assign(std::begin(DIRFMT), std::end(DIRFMT)); m = rnd_img(r, o); } put(m); bool mod = r.chance(30); if (mod) vh_phase("mod"); double a = r.chance(20) ? 0 : r.chance(20) ? 1 : r.chance(10) ? 1.7 : r.chance(10) ? -0.5 : r.unit(), ac = a < 0 ? 0 : a > 1 ? 1 : a; if (mod) ilModAlpha(a); else if (!ilSetAlpha(a)) vh_fail("set-refused", "ilSetAlpha(%g) of %s failed with 0x%x", a, m.str().c_str(), ilGetError()); std::string wf = wellformed(ilGetCurImage()); if (!wf.empty()) vh_fail("malformed", "after ilSetAlpha: %s", wf.c_str()); Img g = grab(); if (mod && hasalpha(m.fmt)) { if (!g.same(m)) vh_fail("mod-changed", "ilModAlpha(%g) changed %s: %s", a, m.str().c_str(), imgdiff(g, m).c_str()); vh_count("mods_kept"); return; }
        ILenum wantf = m.fmt == IL_RGB || m.fmt == IL_COLOUR_INDEX ? IL_RGBA : m.fmt == IL_BGR ? IL_BGRA : m.fmt == IL_LUMINANCE ? IL_LUMINANCE_ALPHA : m.fmt; if (g.fmt != wantf || g.type != m.type || g.w != m.w || g.h != m.h || g.d != m.d || g.origin != m.origin) vh_fail("set-shape", "ilSetAlpha made %s from %s", g.str().c_str(), m.str().c_str());
        for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { RGBAd p = m.rgba(x, y, z), q = g.rgba(x, y, z); if (p.r != q.r || p.g != q.g || p.b != q.b) vh_fail("set-colour", "ilSetAlpha(%g) of %s changed the colour of (%d,%d,%d)", a, m.str().c_str(), x, y, z); double tol = isflt(g.type) ? (g.type == IL_HALF ? 6e-4 : 1e-7) : 1.001 / tmax(g.type); if (!close1(q.a, ac, tol)) vh_fail("set-value", "ilSetAlpha(%g) of %s: alpha of (%d,%d,%d) is %.8g", a, m.str().c_str(), x, y, z, q.a); }
        if (ac == 1 && !isflt(g.type)) for (int i = 0; i < tsz(g.type); i++) if (g.data[g.bpp() - tsz(g.type) + i] != 255) vh_fail("set-value", "alpha 1 is not the largest %s", tname(g.type)); vh_count(mod ? "mods" : "sets");
    } else { // colour key
        vh_phase("key"); ILenum F[] = {IL_RGB, IL_BGR, IL_COLOUR_INDEX, IL_RGBA, IL_LUMINANCE}; o.fmts.assign(1, r.pick(F)); o.types = {IL_UNSIGNED_BYTE}; o.content = r.chance(70) ? 3 : 4; m = rnd_img(r, o); int kx = r.below(m.w), ky = r.below(m.h); RGBAd k = m.rgba(kx, ky, 0); bool absent = r.chance(15); if (absent) k.r = k.r > 0.5 ? 20 / 255.0 : 240 / 255.0;
        put(m); int ki = m.fmt == IL_COLOUR_INDEX ? (int)m.rv(kx, ky, 0, 0) : 255; if (m.fmt == IL_COLOUR_INDEX) ilKeyColour(0.3f, 0.2f, 0.1f, ki / 255.0f); else ilKeyColour((float)k.r, (float)k.g, (float)k.b, 1.0f); ilEnable(IL_USE_KEY_COLOUR); ILenum df = r.chance(50) ? IL_RGBA : IL_BGRA; if (m.fmt == df) df = df == IL_RGBA ? IL_BGRA : IL_RGBA; bool ok = ilConvertImage(df, IL_UNSIGNED_BYTE); ilDisable(IL_USE_KEY_COLOUR); if (!ok) vh_fail("key-refused", "conversion of %s with a key colour failed with 0x%x", m.str().c_str(), ilGetError()); std::string wf = wellformed(ilGetCurImage()); if (!wf.empty()) vh_fail("malformed", "after keying: %s", wf.c_str()); Img g = grab(); if (g.fmt != df || g.type != IL_UNSIGNED_BYTE || g.w != m.w || g.h != m.h || g.d != m.d || g.origin != m.origin) vh_fail("key-shape", "keying made %s from %s", g.str().c_str(), m.str().c_str());
        bool keyed = m.fmt == IL_RGB || m.fmt == IL_BGR || m.fmt == IL_COLOUR_INDEX; auto near = [](double a, double b) { return fabs(a - b) < 0.4 / 255; };
        for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { RGBAd p = m.rgba(x, y, z), q = g.rgba(x, y, z); bool is = m.fmt == IL_COLOUR_INDEX ? (int)m.rv(x, y, z, 0) == ki : keyed && near(p.r, k.r) && near(p.g, k.g) && near(p.b, k.b); double want = is ? 0 : m.fmt == IL_COLOUR_INDEX ? p.a : p.a; if (!near(q.a, want)) vh_fail("key-value", "key colour (%g,%g,%g): pixel (%d,%d,%d) of %s with colour (%g,%g,%g) has alpha %g, should be %g", k.r, k.g, k.b, x, y, z, m.str().c_str(), p.r, p.g, p.b, q.a, want); if (!is && !(near(p.r, q.r) && near(p.g, q.g) && near(p.b, q.b))) vh_fail("key-colour", "the colour of (%d,%d,%d) changed when keying %s", x, y, z, m.str().c_str()); if (is) vh_count("keyed_pixels"); }
        vh_count("keys");
    }
    if (ilGetError() != IL_NO_ERROR) vh_fail("spurious-error", "an error is pending"); vh_count("cases"); vh_distinct(vh_mix(m.hash(), kind)); vh_sample("%s %s", kind == 0 ? "get" : kind == 1 ? "set" : "key", m.str().c_str());
}
