// Random image trees in the bound image, and edits of them.
#pragma once
#include "img.h"
inline void surf(Rng &r, int mx = 8) { ImgOpt o; o.maxw = o.maxh = mx; o.maxd = 2; Img m = rnd_img(r, o); if (!ilTexImageSurface(m.w, m.h, m.d, nch(m.fmt), m.fmt, m.type, m.data.data())) vh_error("ilTexImageSurface failed %x", ilGetError()); if (m.palType != IL_PAL_NONE) ilRegisterPal(m.pal.data(), m.pal.size(), m.palType); ilRegisterOrigin(m.origin); if (r.chance(40)) ilSetDuration(r.below(1000)); if (r.chance(30)) ilSetInteger(IL_IMAGE_OFFX, r.below(999)); if (r.chance(30)) ilSetInteger(IL_IMAGE_OFFY, r.below(999)); }
// fills the bound (base) image; complexity 0: a single image
inline void rnd_tree(Rng &r, int complexity) {
    ILuint name = ilGetInteger(IL_CUR_IMAGE); surf(r); if (complexity == 0) return; int nf = 0, nm = 0, nn = 0, nl = 0;
    if (r.chance(50)) ilRegisterNumImages(nn = r.range(1, 4)); if (r.chance(35)) ilRegisterMipNum(nm = r.range(1, 3)); if (r.chance(35)) ilRegisterNumFaces(nf = r.range(1, 5)); if (r.chance(35)) ilCreateSubImage(IL_SUB_LAYER, nl = r.range(1, 3));
    for (int i = 1; i <= nn; i++) { ilBindImage(name); if (ilActiveImage(i)) { surf(r, 5); if (complexity > 1 && r.chance(40)) { ilCreateSubImage(IL_SUB_MIPMAP, 2); if (ilActiveMipmap(1)) surf(r, 4); } } }
    for (int i = 1; i <= nm; i++) { ilBindImage(name); if (ilActiveMipmap(i)) surf(r, 5); }
    for (int i = 1; i <= nf; i++) { ilBindImage(name); if (ilActiveFace(i)) { surf(r, 5); if (complexity > 1 && r.chance(40)) { ilCreateSubImage(IL_SUB_MIPMAP, 2); if (ilActiveMipmap(2)) surf(r, 4); } } }
    for (int i = 1; i <= nl; i++) { ilBindImage(name); if (ilActiveLayer(i)) surf(r, 5); }
    if (r.chance(30)) { ilBindImage(name); ILubyte p[40]; for (auto &x : p) x = r.u32(); ILimage *I = ilGetCurImage(); (void)I; }
    ilBindImage(name); clear_errors();
}
inline std::string tree_edit(Rng &r) {
    ILuint name = ilGetInteger(IL_CUR_IMAGE); std::string s; switch (r.below(5)) { case 0: ilActiveImage(r.range(1, 4)); break; case 1: ilActiveMipmap(r.range(1, 3)); break; case 2: ilActiveFace(1); break; case 3: ilActiveLayer(1); break; }
    clear_errors();
    switch (r.below(7)) {
    case 0: surf(r); s = "surf"; break; case 1: { Img m = rnd_img(r); put(m); s = "put"; break; } case 2: { ILubyte *d = ilGetData(); size_t n = ilGetInteger(IL_IMAGE_SIZE_OF_DATA); if (ilGetInteger(IL_IMAGE_FORMAT) != IL_COLOUR_INDEX) for (size_t i = 0; i < n; i++) d[i] = r.u32(); else memset(d, 0, n); s = "scribble"; break; }
    case 3: { ILubyte *p = ilGetPalette(); int n = ilGetInteger(IL_PALETTE_NUM_COLS) * ilGetInteger(IL_PALETTE_BPP); if (p) for (int i = 0; i < n; i++) p[i] = r.u32(); s = "palette"; break; }
    case 4: iluFlipImage(); s = "flip"; break; case 5: ilSetDuration(r.below(1000)); ilSetInteger(IL_IMAGE_OFFX, r.below(500)); ilSetInteger(IL_IMAGE_OFFY, r.below(500)); s = "duration"; break; case 6: ilCreateSubImage(IL_SUB_NEXT, 2); s = "frames"; break; }
    ilBindImage(name); return s;
}
