// C07: conversion between direct formats and types
#include "conv.h"
void vh_setup() { vmem_install(); ilInit(); }
static Img conv_img(const Img &m, ILenum f, ILenum t) { put(m); ILboolean ok = ilConvertImage(f, t); ILenum e = ilGetError(); if (!ok) vh_fail("refused", "ilConvertImage from %s to %s/%s failed with 0x%x", m.str().c_str(), fname(f), tname(t), e); if (e != IL_NO_ERROR) vh_fail("spurious-error", "ilConvertImage raised 0x%x", e); std::string w = wellformed(ilGetCurImage()); if (!w.empty()) vh_fail("malformed", "after converting %s to %s/%s: %s", m.str().c_str(), fname(f), tname(t), w.c_str()); Img g = grab("converted"); if (g.fmt != f || g.type != t) vh_fail("wrong-format", "converted %s to %s/%s gives %s", m.str().c_str(), fname(f), tname(t), g.str().c_str()); if (!g.pal.empty()) vh_fail("palette", "a direct image has a palette"); return g; }
void vh_case(Rng &r, uint64_t) {
    clear_errors(); ilBindImage(0); static ILuint name = 0; if (!name) name = ilGenImage(); ilBindImage(name);
    ImgOpt o; o.fmts.assign(std::begin(DIRFMT), std::end(DIRFMT)); o.maxw = o.maxh = r.chance(10) ? 70 : 17; o.maxd = 3; if (r.chance(50)) o.content = 6; Img m = rnd_img(r, o);
    if (r.chance(25) && !isflt(m.type)) for (size_t i = 0; i < m.data.size(); i++) m.data[i] = m.data.size() < 300 ? r.u32() : (uint8_t)(tsz(m.type) == 1 ? i : i * 7);
    ILenum f, t; do { f = r.pick(DIRFMT); t = r.pick(ALLTYPE); } while (!convertible(m.fmt, f) || !valuedef(m.type, t)); vh_phase("%s/%s-%s/%s", fname(m.fmt), tname(m.type), fname(f), tname(t)); vh_context("convert %s to %s/%s", m.str().c_str(), fname(f), tname(t));
    int kind = r.below(6);
    if (kind == 0) { // a buffer
        void *q = ilConvertBuffer(m.data.size(), m.fmt, f, m.type, t, NULL, m.data.data()); if (!q) vh_fail("refused", "ilConvertBuffer from %s to %s/%s failed with 0x%x", m.str().c_str(), fname(f), tname(t), ilGetError()); Img g = m; g.fmt = f; g.type = t; g.data.assign((uint8_t *)q, (uint8_t *)q + g.size()); std::string e = convdiff(m, g); if (!e.empty()) vh_fail("value", "buffer: %s", e.c_str()); if (q == m.data.data()) vh_fail("alias", "ilConvertBuffer returned its argument"); ifree(q); vh_count("buffers");
    } else if (kind == 1) { // reading with conversion
        put(m); Img g = m; g.fmt = f; g.type = t; g.data.assign(g.size(), 0); if (ilCopyPixels(0, 0, 0, m.w, m.h, m.d, f, t, g.data.data()) == 0) vh_fail("refused", "ilCopyPixels of %s to %s/%s failed with 0x%x", m.str().c_str(), fname(f), tname(t), ilGetError()); std::string e = convdiff(m, g); if (!e.empty()) vh_fail("value", "ilCopyPixels: %s", e.c_str()); Img s = grab(); if (!s.same(m)) vh_fail("source", "reading pixels changed the image: %s", imgdiff(s, m).c_str()); vh_count("reads");
    } else if (kind == 2) { // all frames
        put(m); int n = r.range(1, 3); ilCreateSubImage(IL_SUB_NEXT, n); std::vector<Img> fr{m}; for (int i = 1; i <= n; i++) { ilBindImage(name); ilActiveImage(i); o.maxw = o.maxh = 9; o.fmts.assign(1, m.fmt); o.types.assign(1, m.type); Img k = rnd_img(r, o); ilTexImageSurface(k.w, k.h, k.d, nch(k.fmt), k.fmt, k.type, k.data.data()); ilRegisterOrigin(k.origin); fr.push_back(k); }
        ilBindImage(name); if (!ilConvertImage(f, t)) vh_fail("refused", "converting a chain of frames failed with 0x%x", ilGetError()); for (int i = 0; i <= n; i++) { ilBindImage(name); ilActiveImage(i); Img g = grab("frame"); if (g.fmt != f || g.type != t) vh_fail("frames", "frame %d is %s after converting to %s/%s", i, g.str().c_str(), fname(f), tname(t)); std::string e = convdiff(fr[i], g); if (!e.empty()) vh_fail("value", "frame %d: %s", i, e.c_str()); } vh_count("frames", n); ilBindImage(name);
    } else {
        Img g = conv_img(m, f, t); std::string e = convdiff(m, g); if (!e.empty()) vh_fail(("value:" + std::string(fname(m.fmt)) + ":" + fname(f) + ":" + tname(t)).c_str(), "%s", e.c_str()); vh_count("images");
        bool fw = f == m.fmt || (m.fmt != IL_ALPHA && !(iscol(m.fmt) && islum(f)) && f != IL_ALPHA && (hasalpha(f) || !hasalpha(m.fmt))) || (m.fmt == IL_ALPHA && hasalpha(f));
        if (fw && valuedef(t, m.type) && widens(m.type, t) && !(islum(m.fmt) && iscol(f) && tsz(t) >= 4) && !(islum(m.fmt) && iscol(f) && t == IL_HALF)) { // coming back is exact
            bool nan = false; if (isflt(m.type)) for (int i = 0; i < (int)m.data.size() / tsz(m.type); i++) { double v = rawval(&m.data[i * tsz(m.type)], m.type); if (!(v >= 0 && v <= 1)) nan = true; }
            Img b = conv_img(g, m.fmt, m.type); if (!nan && b.data != m.data) vh_fail("not-exact", "%s to %s/%s and back: %s", m.str().c_str(), fname(f), tname(t), imgdiff(b, m).c_str()); vh_count("round_trips"); }
    }
    if (ilGetError() != IL_NO_ERROR) vh_fail("spurious-error", "an error is pending after a successful conversion");
    vh_count("cases"); vh_count("pixels", (uint64_t)m.w * m.h * m.d); vh_distinct(vh_hash(&f, 4, vh_hash(&t, 4, m.hash()))); vh_sample("%s to %s/%s", m.str().c_str(), fname(f), tname(t));
}
