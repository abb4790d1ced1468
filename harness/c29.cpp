// C29: ILUT and ILU settings
#include "statemodel.h"
#include <IL/ilut.h>
static StateModel M;
void vh_setup() {
    vmem_install(); ilInit(); iluInit(); ilutInit();
    M.depth_max = 31; M.e_over = ILUT_STACK_OVERFLOW; M.e_under = ILUT_STACK_UNDERFLOW; M.all_bits = ILUT_ALL_ATTRIB_BITS; M.groupbits = {ILUT_OPENGL_BIT, ILUT_D3D_BIT};
    M.push = [](int b) { ilutPushAttrib(b); }; M.pop = [] { ilutPopAttrib(); };
    auto flag = [&](const char *n, ILenum m, int g) { Setting s; s.name = n; s.group = g; s.set = [m](int64_t v) { if (v) ilutEnable(m); else ilutDisable(m); }; s.get = [m] { return (int64_t)ilutIsEnabled(m); }; s.valid = {0, 1};
        s.aliases.push_back([m] { return (int64_t)!ilutIsDisabled(m); }); s.aliases.push_back([m] { return (int64_t)ilutGetInteger(m); }); s.aliases.push_back([m] { return (int64_t)ilutGetBoolean(m); }); M.s.push_back(s); };
    flag("PALETTE_MODE", ILUT_PALETTE_MODE, ILUT_OPENGL_BIT); flag("FORCE_INTEGER", ILUT_FORCE_INTEGER_FORMAT, ILUT_OPENGL_BIT); flag("OPENGL_CONV", ILUT_OPENGL_CONV, ILUT_OPENGL_BIT); flag("GL_USE_S3TC", ILUT_GL_USE_S3TC, ILUT_OPENGL_BIT); flag("GL_GEN_S3TC", ILUT_GL_GEN_S3TC, ILUT_OPENGL_BIT); flag("GL_AUTODETECT", ILUT_GL_AUTODETECT_TEXTURE_TARGET, ILUT_OPENGL_BIT);
    auto integer = [&](const char *n, ILenum m, int g, std::vector<int64_t> ok, std::vector<int64_t> bad) { Setting s; s.name = n; s.group = g; s.set = [m](int64_t v) { ilutSetInteger(m, (ILint)v); }; s.get = [m] { return (int64_t)ilutGetInteger(m); }; s.valid = ok; s.invalid = bad; s.bad_err = IL_INVALID_PARAM;
        s.aliases.push_back([m] { ILint v = -77; ilutGetIntegerv(m, &v); return (int64_t)v; }); M.s.push_back(s); };
    integer("MAXTEX_WIDTH", ILUT_MAXTEX_WIDTH, ILUT_OPENGL_BIT, {1, 64, 4096}, {0, -1}); integer("MAXTEX_HEIGHT", ILUT_MAXTEX_HEIGHT, ILUT_OPENGL_BIT, {1, 64, 4096}, {0, -1}); integer("MAXTEX_DEPTH", ILUT_MAXTEX_DEPTH, ILUT_OPENGL_BIT, {1, 64, 4096}, {0, -1});
    integer("S3TC_FORMAT", ILUT_S3TC_FORMAT, ILUT_OPENGL_BIT, {IL_DXT1, IL_DXT2, IL_DXT3, IL_DXT4, IL_DXT5}, {1, -1, IL_DXT5 + 1000, 200000});
    integer("D3D_MIPLEVELS", ILUT_D3D_MIPLEVELS, ILUT_D3D_BIT, {0, 1, 12}, {-1, -100}); integer("D3D_ALPHA_KEY_COLOR", ILUT_D3D_ALPHA_KEY_COLOR, ILUT_D3D_BIT, {-1, 0, 0xff00ff}, {}); integer("D3D_POOL", ILUT_D3D_POOL, ILUT_D3D_BIT, {0, 1, 2}, {-1, 3});
    // the same flags, settable as integers
    for (auto &x : {std::pair<const char *, ILenum>{"GL_USE_S3TC", ILUT_GL_USE_S3TC}, {"GL_GEN_S3TC", ILUT_GL_GEN_S3TC}, {"GL_AUTODETECT", ILUT_GL_AUTODETECT_TEXTURE_TARGET}}) { ILenum m = x.second; for (auto &s : M.s) if (s.name == x.first) { s.set = [m](int64_t v) { static int k; if (v != 0 && v != 1) ilutSetInteger(m, (ILint)v); else if (k++ & 1) { if (v) ilutEnable(m); else ilutDisable(m); } else ilutSetInteger(m, (ILint)v); }; s.invalid = {2, -1, 256}; s.bad_err = IL_INVALID_PARAM; } }
    auto ilu = [&](const char *n, ILenum m, std::vector<int64_t> ok, std::vector<int64_t> bad) { Setting s; s.name = n; s.group = 0; s.stacked = false; s.set = [m](int64_t v) { iluImageParameter(m, (ILenum)v); }; s.get = [m] { return (int64_t)iluGetInteger(m); }; s.valid = ok; s.invalid = bad; s.bad_err = ILU_INVALID_ENUM; s.aliases.push_back([m] { ILint v = -77; iluGetIntegerv(m, &v); return (int64_t)v; }); M.s.push_back(s); };
    ilu("ILU_FILTER", ILU_FILTER, {ILU_NEAREST, ILU_LINEAR, ILU_BILINEAR, ILU_SCALE_BOX, ILU_SCALE_TRIANGLE, ILU_SCALE_BELL, ILU_SCALE_BSPLINE, ILU_SCALE_LANCZOS3, ILU_SCALE_MITCHELL}, {0, ILU_CENTER, 0xffff}); ilu("ILU_PLACEMENT", ILU_PLACEMENT, {ILU_LOWER_LEFT, ILU_LOWER_RIGHT, ILU_UPPER_LEFT, ILU_UPPER_RIGHT, ILU_CENTER}, {0, ILU_NEAREST, 0xffff});
    M.noise.push_back({"scale", [] { iluScale(5, 7, 1); iluEnlargeCanvas(8, 8, 1); iluCrop(1, 1, 0, 2, 2, 1); }}); M.noise.push_back({"il push/pop", [] { ilPushAttrib(IL_ALL_ATTRIB_BITS); ilPopAttrib(); }}); M.noise.push_back({"ilInit", [] { ilInit(); }}); M.noise.push_back({"mipmaps", [] { iluBuildMipmaps(); iluRotate(30); }}); M.noise.push_back({"language", [] { iluSetLanguage(ILU_GERMAN); iluSetLanguage(ILU_ENGLISH); }});
    M.badops = {{"ilutEnable(bad)", [] { if (ilutEnable(0xBAD)) vh_fail("enable-true", "ilutEnable of an unknown mode returned true"); }}, {"ilutDisable(bad)", [] { if (ilutDisable(0xBAD)) vh_fail("enable-true", "true"); }}, {"ilutIsEnabled(bad)", [] { ilutIsEnabled(0xBAD); }}, {"ilutGetInteger(bad)", [] { ilutGetInteger(0xBAD); }}, {"ilutGetBoolean(bad)", [] { ilutGetBoolean(0xBAD); }}, {"ilutSetInteger(bad)", [] { ilutSetInteger(0xBAD, 1); }}, {"ilutGetString(bad)", [] { ilutGetString(0xBAD); }}, {"iluGetInteger(bad)", [] { iluGetInteger(0xBAD); }}, {"iluImageParameter(bad)", [] { iluImageParameter(0xBAD, ILU_NEAREST); }}, {"iluGetString(bad)", [] { iluGetString(0xBAD); }}, {"ilutRenderer(bad)", [] { if (ilutRenderer(1000)) vh_fail("renderer", "unknown renderer accepted"); }}};
}
void vh_case(Rng &r, uint64_t idx) {
    ILuint id = ilGenImage(); ilBindImage(id); ILubyte d[48] = {0}; ilTexImage(4, 4, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, d);
    M.run(r, r.chance(25) ? r.range(60, 160) : r.range(2, 60));
    if (iluGetInteger(ILU_VERSION_NUM) != ILU_VERSION || ilutGetInteger(ILUT_VERSION_NUM) != ILUT_VERSION || !ilutGetString(ILUT_VENDOR) || !iluGetString(ILU_VENDOR)) vh_fail("version", "wrong version");
    ilDeleteImage(id); while (ilGetError() != IL_NO_ERROR) {}
}
