// C32: comparison and statistics
#include "ilu.h"
void vh_setup() { ilu_setup(); }
static ILuint third = 0;
void vh_case(Rng &r, uint64_t) {
    ilu_begin(r); if (!third) { ilGenImages(1, &third); ilBindImage(workName); } ImgOpt o; o.maxw = o.maxh = 12; o.maxd = 3; Img m = rnd_img(r, o), n = m; put(m); int op = r.below(3); vh_phase("%s", op == 0 ? "compare" : op == 1 ? "colours" : "info"); uint64_t sig = vh_mix(m.hash(), op);
    if (op == 0) {
        int d = r.below(10); const char *what = "the same"; bool same = true; switch (d) { case 0: case 1: break; case 2: case 3: { size_t i = r.below((uint32_t)n.data.size()); if (r.chance(20)) i = n.data.size() - 1; n.data[i] ^= 1 << r.below(8); same = false; what = "one byte changed"; break; } case 4: n.origin = n.origin == IL_ORIGIN_LOWER_LEFT ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT; same = false; what = "other origin"; break;
        case 5: { ImgOpt q = o; q.fmts = {m.fmt}; q.types = {m.type}; n = rnd_img(r, q); n.pal = m.pal; n.palType = m.palType; n.origin = m.origin; same = n.w == m.w && n.h == m.h && n.d == m.d && n.data == m.data; what = "other picture"; break; }
        case 6: if (m.w == m.h) { break; } std::swap(n.w, n.h); same = false; what = "transposed sizes"; break; case 7: { n.type = m.type == IL_BYTE ? IL_UNSIGNED_BYTE : m.type == IL_UNSIGNED_BYTE ? IL_BYTE : m.type == IL_SHORT ? IL_HALF : m.type == IL_HALF ? IL_UNSIGNED_SHORT : m.type == IL_INT ? IL_FLOAT : m.type == IL_FLOAT ? IL_UNSIGNED_INT : m.type; if (m.fmt == IL_COLOUR_INDEX) n.type = m.type; same = n.type == m.type; what = "other type"; break; }
        case 8: if (nch(m.fmt) == 1 || m.fmt == IL_LUMINANCE_ALPHA) break; n.fmt = m.fmt == IL_RGB ? IL_BGR : m.fmt == IL_BGR ? IL_RGB : m.fmt == IL_RGBA ? IL_BGRA : IL_RGBA; same = false; what = "other channel order"; break; case 9: if (m.fmt == IL_COLOUR_INDEX) break; if (m.h % 2 == 0 && m.d == 1) { n.h = m.h / 2; n.d = 2; same = false; what = "other depth"; } break; }
        ilBindImage(third); put(n); ilBindImage(workName); vh_context("comparing %s with %s (%s)", m.str().c_str(), n.str().c_str(), what); int sub = 0; if (r.chance(15)) { ilCreateSubImage(IL_SUB_NEXT, 1); if (ilActiveImage(1)) { sub = 1; put(m); } clear_errors(); vh_count("from_frame"); }
        ILimage *cur = ilGetCurImage(); bool got = iluCompareImage(third); if (ilGetCurImage() != cur) vh_fail("bound", "comparing changed the current image"); if (got != same) vh_fail("compare", "comparing %s with %s (%s) says %s", m.str().c_str(), n.str().c_str(), what, got ? "equal" : "different"); vh_count(same ? "equal" : "different"); if (iluCompareImage(workName) != (sub ? iluCompareImage(workName) : IL_TRUE)) vh_fail("compare", "%s differs from itself", m.str().c_str()); ilBindImage(third); Img g = grab(); if (!g.same(n)) vh_fail("changed", "comparing changed the other image: %s", imgdiff(g, n).c_str()); ilBindImage(workName); if (ilGetError() != IL_NO_ERROR) vh_fail("spurious-error", "comparing raised an error");
        if (r.chance(10)) { if (iluCompareImage(1000000 + r.below(1000))) vh_fail("compare", "equal to an image that does not exist"); if (ilGetError() == IL_NO_ERROR) vh_fail("silent", "no error for comparing with an image that does not exist"); clear_errors(); }
        if (sub) { put(m); ilBindImage(workName); } sig = vh_mix(sig, n.hash());
    } else if (op == 1) { std::set<Bytes> s; for (size_t i = 0; i < m.data.size(); i += m.bpp()) s.insert(Bytes(&m.data[i], &m.data[i] + m.bpp())); ILuint k = iluColoursUsed(); if (k != s.size()) vh_fail("colours", "%s has %zu distinct pixels, counted %u", m.str().c_str(), s.size(), k); vh_count("counted"); }
    else { ILinfo I; memset(&I, r.u32(), sizeof I); int nn = r.below(3), nm = r.below(3); if (nn) ilCreateSubImage(IL_SUB_NEXT, nn); if (nm) ilCreateSubImage(IL_SUB_MIPMAP, nm); clear_errors(); iluGetImageInfo(&I); if (I.Id != workName || I.Data != ilGetData() || (int)I.Width != m.w || (int)I.Height != m.h || (int)I.Depth != m.d || I.Bpp != nch(m.fmt) || I.SizeOfData != m.data.size() || I.Format != m.fmt || I.Type != m.type || I.Origin != m.origin || (m.palType != IL_PAL_NONE && (I.PalType != m.palType || I.PalSize != m.pal.size() || I.Palette != ilGetPalette())) || I.CubeFlags != 0 || (int)I.NumNext != nn || (int)I.NumMips != nm || I.NumLayers != 0) vh_fail("info", "iluGetImageInfo on %s with %d frames and %d mipmaps: id %u %ux%ux%u bpp %d size %u format %x type %x origin %x pal %x:%u cube %x next %u mips %u layers %u", m.str().c_str(), nn, nm, I.Id, I.Width, I.Height, I.Depth, I.Bpp, I.SizeOfData, I.Format, I.Type, I.Origin, I.PalType, I.PalSize, I.CubeFlags, I.NumNext, I.NumMips, I.NumLayers); vh_count("infos"); }
    Img g = ilu_take("analysis"); if (!g.same(m)) vh_fail("changed", "analysis changed the image: %s", imgdiff(g, m).c_str()); ilu_end("analysis"); vh_count("cases"); vh_distinct(sig); vh_sample("%d %s", op, m.str().c_str());
}
