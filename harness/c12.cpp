// C12: settings read back; attribute stack restores
#include "statemodel.h"
static StateModel M;
static const char *STR[] = {"", "a", "hello world", "0123456789012345678901234567890123456789", NULL, NULL, NULL};
static std::string longs[3];
static const int NSTR = 7;
static int64_t stridx(const char *p) { if (!p) return -1; for (int i = 0; i < NSTR; i++) if (!strcmp(p, STR[i])) return i; return -2; }
void vh_setup() {
    vmem_install(); ilInit(); iluInit();
    longs[0] = std::string(254, 'x'); longs[1] = std::string(255, 'y'); longs[2] = std::string(1000, 'z');
    for (int i = 0; i < 3; i++) STR[4 + i] = longs[i].c_str();
    M.depth_max = 31; M.e_over = IL_STACK_OVERFLOW; M.e_under = IL_STACK_UNDERFLOW; M.all_bits = IL_ALL_ATTRIB_BITS;
    M.groupbits = {IL_ORIGIN_BIT, IL_FILE_BIT, IL_PAL_BIT, IL_FORMAT_BIT, IL_TYPE_BIT, IL_COMPRESS_BIT, IL_LOADFAIL_BIT, IL_FORMAT_SPECIFIC_BIT};
    M.push = [](int b) { ilPushAttrib(b); }; M.pop = [] { ilPopAttrib(); };
    auto flag = [&](const char *n, ILenum m, int g, ILenum alias) { Setting s; s.name = n; s.group = g; s.set = [m](int64_t v) { if (v) ilEnable(m); else ilDisable(m); }; s.get = [m] { return (int64_t)ilIsEnabled(m); }; s.valid = {0, 1};
        s.aliases.push_back([m] { return (int64_t)!ilIsDisabled(m); }); if (alias) { s.aliases.push_back([alias] { return (int64_t)ilGetInteger(alias); }); s.aliases.push_back([alias] { return (int64_t)ilGetBoolean(alias); }); s.aliases.push_back([alias] { ILboolean b = 77; ilGetBooleanv(alias, &b); return (int64_t)b; }); } M.s.push_back(s); };
    flag("ORIGIN_SET", IL_ORIGIN_SET, IL_ORIGIN_BIT, IL_ORIGIN_SET); flag("FORMAT_SET", IL_FORMAT_SET, IL_FORMAT_BIT, IL_FORMAT_SET); flag("TYPE_SET", IL_TYPE_SET, IL_TYPE_BIT, IL_TYPE_SET);
    flag("FILE_OVERWRITE", IL_FILE_OVERWRITE, IL_FILE_BIT, IL_FILE_MODE); flag("CONV_PAL", IL_CONV_PAL, IL_PAL_BIT, IL_CONV_PAL); flag("DEFAULT_ON_FAIL", IL_DEFAULT_ON_FAIL, IL_LOADFAIL_BIT, IL_DEFAULT_ON_FAIL);
    flag("USE_KEY_COLOUR", IL_USE_KEY_COLOUR, 0, IL_USE_KEY_COLOUR); flag("BLIT_BLEND", IL_BLIT_BLEND, 0, IL_BLIT_BLEND); flag("SAVE_INTERLACED", IL_SAVE_INTERLACED, 0, IL_INTERLACE_MODE);
    flag("JPG_PROGRESSIVE", IL_JPG_PROGRESSIVE, IL_FORMAT_SPECIFIC_BIT, IL_JPG_PROGRESSIVE); flag("NVIDIA_COMPRESS", IL_NVIDIA_COMPRESS, 0, IL_NVIDIA_COMPRESS); flag("SQUISH_COMPRESS", IL_SQUISH_COMPRESS, 0, IL_SQUISH_COMPRESS);
    auto integer = [&](const char *n, ILenum m, int g, std::vector<int64_t> ok, std::vector<int64_t> bad) { Setting s; s.name = n; s.group = g; s.set = [m](int64_t v) { ilSetInteger(m, (ILint)v); }; s.get = [m] { return (int64_t)ilGetInteger(m); }; s.valid = ok; s.invalid = bad; s.bad_err = IL_INVALID_PARAM;
        s.aliases.push_back([m] { ILint v = -77; ilGetIntegerv(m, &v); return (int64_t)v; }); M.s.push_back(s); };
    integer("FORMAT_MODE", IL_FORMAT_MODE, IL_FORMAT_BIT, {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA}, {0, -1, IL_RGB - 100, 0x7fffffff});
    integer("ORIGIN_MODE", IL_ORIGIN_MODE, IL_ORIGIN_BIT, {IL_ORIGIN_LOWER_LEFT, IL_ORIGIN_UPPER_LEFT}, {0, -1, IL_ORIGIN_UPPER_LEFT + 1, IL_RGB});
    integer("TYPE_MODE", IL_TYPE_MODE, IL_TYPE_BIT, {IL_BYTE, IL_UNSIGNED_BYTE, IL_SHORT, IL_UNSIGNED_SHORT, IL_INT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE}, {0, -1, IL_BYTE - 1, IL_RGB});
    integer("KEEP_DXTC_DATA", IL_KEEP_DXTC_DATA, 0, {0, 1}, {2, -1, 256});
    integer("MAX_QUANT_INDICES", IL_MAX_QUANT_INDICES, 0, {2, 3, 17, 255, 256}, {1, 0, -5, 257, 100000});
    integer("NEU_QUANT_SAMPLE", IL_NEU_QUANT_SAMPLE, 0, {1, 2, 15, 30}, {0, 31, -1, 1000});
    integer("QUANTIZATION_MODE", IL_QUANTIZATION_MODE, 0, {IL_WU_QUANT, IL_NEU_QUANT}, {0, -1, IL_NEU_QUANT + 1, IL_WU_QUANT - 1});
    integer("BMP_RLE", IL_BMP_RLE, IL_FORMAT_SPECIFIC_BIT, {0, 1}, {2, -1, 256}); integer("PNG_INTERLACE", IL_PNG_INTERLACE, IL_FORMAT_SPECIFIC_BIT, {0, 1}, {2, -1, 256});
    integer("SGI_RLE", IL_SGI_RLE, IL_FORMAT_SPECIFIC_BIT, {0, 1}, {2, -1, 256}); integer("TGA_RLE", IL_TGA_RLE, IL_FORMAT_SPECIFIC_BIT, {0, 1}, {2, -1, 256}); integer("TGA_CREATE_STAMP", IL_TGA_CREATE_STAMP, IL_FORMAT_SPECIFIC_BIT, {0, 1}, {2, -1, 256});
    integer("DXTC_FORMAT", IL_DXTC_FORMAT, IL_FORMAT_SPECIFIC_BIT, {IL_DXT1, IL_DXT2, IL_DXT3, IL_DXT4, IL_DXT5, IL_3DC, IL_RXGB, IL_ATI1N, IL_DXT1A}, {0, -1, IL_DXT1 - 100, IL_RGB});
    integer("JPG_SAVE_FORMAT", IL_JPG_SAVE_FORMAT, IL_FORMAT_SPECIFIC_BIT, {IL_JFIF, IL_EXIF}, {0, 1, -1});
    integer("JPG_QUALITY", IL_JPG_QUALITY, IL_FORMAT_SPECIFIC_BIT, {0, 1, 50, 98, 99}, {-1, 100, 1000, -100000});
    integer("PCD_PICNUM", IL_PCD_PICNUM, IL_FORMAT_SPECIFIC_BIT, {0, 1, 2}, {-1, 3, 100});
    integer("PNG_ALPHA_INDEX", IL_PNG_ALPHA_INDEX, IL_FORMAT_SPECIFIC_BIT, {-1, 0, 7, 255}, {-2, 256, 100000});
    integer("VTF_COMP", IL_VTF_COMP, IL_FORMAT_SPECIFIC_BIT, {IL_DXT1, IL_DXT3, IL_DXT5, IL_DXT1A, IL_DXT_NO_COMP}, {0, -1, IL_RGB});
    { Setting s; s.name = "COMPRESS_MODE"; s.group = IL_COMPRESS_BIT; s.set = [](int64_t v) { ilCompressFunc((ILenum)v); }; s.get = [] { return (int64_t)ilGetInteger(IL_COMPRESS_MODE); }; s.valid = {IL_COMPRESS_NONE, IL_COMPRESS_RLE, IL_COMPRESS_ZLIB}; s.invalid = {0, 0xffff, IL_RGB}; M.s.push_back(s); }
    auto image = [&](const char *n, ILenum m) { Setting s; s.name = n; s.group = 0; s.stacked = false; s.set = [m](int64_t v) { ilSetInteger(m, (ILint)v); }; s.get = [m] { return (int64_t)ilGetInteger(m); }; s.valid = {0, 1, 77, 100000}; M.s.push_back(s); };
    image("IMAGE_OFFX", IL_IMAGE_OFFX); image("IMAGE_OFFY", IL_IMAGE_OFFY); image("IMAGE_DURATION", IL_IMAGE_DURATION); image("IMAGE_CUBEFLAGS", IL_IMAGE_CUBEFLAGS);
    struct { const char *n; ILenum m; } ss[] = {{"TGA_ID", IL_TGA_ID_STRING}, {"TGA_AUTHNAME", IL_TGA_AUTHNAME_STRING}, {"TGA_AUTHCOMMENT", IL_TGA_AUTHCOMMENT_STRING}, {"PNG_AUTHNAME", IL_PNG_AUTHNAME_STRING}, {"PNG_TITLE", IL_PNG_TITLE_STRING}, {"PNG_DESCRIPTION", IL_PNG_DESCRIPTION_STRING}, {"TIF_DESCRIPTION", IL_TIF_DESCRIPTION_STRING}, {"TIF_HOSTCOMPUTER", IL_TIF_HOSTCOMPUTER_STRING}, {"TIF_DOCUMENTNAME", IL_TIF_DOCUMENTNAME_STRING}, {"TIF_AUTHNAME", IL_TIF_AUTHNAME_STRING}, {"CHEAD_HEADER", IL_CHEAD_HEADER_STRING}};
    for (auto &x : ss) { ILenum m = x.m; Setting s; s.name = x.n; s.group = IL_FORMAT_SPECIFIC_BIT; s.set = [m](int64_t v) { if (v < 0) ilSetString(m, NULL); else if (v == 1000) ilSetString(m, ilGetString(m)); else { std::string copy = STR[v]; ilSetString(m, copy.c_str()); } }; s.get = [m] { return stridx(ilGetString(m)); }; for (int i = 0; i < NSTR; i++) s.valid.push_back(i); s.invalid = {-5}; s.bad_err = IL_INVALID_PARAM; M.s.push_back(s); }
    M.noise.push_back({"load+save", [] { static ILubyte b[65536]; ILenum t[] = {IL_BMP, IL_TGA, IL_PNG, IL_JPG, IL_PNM, IL_SGI, IL_PCX, IL_TIF, IL_PSD, IL_DDS}; static int k = 0; ILenum T = t[k++ % 10];
        ILint v[4] = {ilGetInteger(IL_IMAGE_OFFX), ilGetInteger(IL_IMAGE_OFFY), ilGetInteger(IL_IMAGE_DURATION), ilGetInteger(IL_IMAGE_CUBEFLAGS)};
        ILuint cur = ilGetInteger(IL_CUR_IMAGE), id = ilGenImage(); ilBindImage(id); ILubyte d[4 * 4 * 3]; memset(d, 50, sizeof d); ilTexImage(4, 4, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, d); ILuint n = ilSaveL(T, b, sizeof b); if (n) ilLoadL(T, b, n); ilBindImage(cur); ilDeleteImage(id); (void)v; }});
    M.noise.push_back({"junk load", [] { ILuint cur = ilGetInteger(IL_CUR_IMAGE), id = ilGenImage(); ilBindImage(id); ILubyte junk[64]; for (int i = 0; i < 64; i++) junk[i] = i * 37; ilLoadL(IL_TYPE_UNKNOWN, junk, 64); ilBindImage(cur); ilDeleteImage(id); }});
    M.noise.push_back({"convert", [] { ILuint cur = ilGetInteger(IL_CUR_IMAGE), id = ilGenImage(); ilBindImage(id); ILubyte d[4 * 4 * 3]; memset(d, 50, sizeof d); ilTexImage(4, 4, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, d); ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE); ilConvertImage(IL_BGRA, IL_FLOAT); iluScale(3, 3, 1); ilBindImage(cur); ilDeleteImage(id); }});
    M.noise.push_back({"reinit", [] { ilInit(); }});
    M.noise.push_back({"hint", [] { ilHint(IL_MEM_SPEED_HINT, IL_LESS_MEM); ilHint(IL_MEM_SPEED_HINT, IL_DONT_CARE); ilHint(IL_COMPRESSION_HINT, IL_USE_COMPRESSION); ilHint(IL_COMPRESSION_HINT, IL_DONT_CARE); }});
    M.badops = {{"enable(bad)", [] { if (ilEnable(0xBAD)) vh_fail("enable-true", "ilEnable of an unknown mode returned true"); }}, {"disable(bad)", [] { if (ilDisable(0xBAD)) vh_fail("enable-true", "ilDisable of an unknown mode returned true"); }}, {"setint(bad)", [] { ilSetInteger(0xBAD, 0); }}, {"setstring(bad)", [] { ilSetString(0xBAD, "x"); }}, {"getint(bad)", [] { ilGetInteger(0xBAD); }}, {"getstring(bad)", [] { ilGetString(0xBAD); }}, {"hint(bad)", [] { ilHint(IL_MEM_SPEED_HINT, 1); }}, {"hint(bad target)", [] { ilHint(1, IL_FASTEST); }}, {"isenabled(bad)", [] { ilIsEnabled(0xBAD); }}};
}
void vh_case(Rng &r, uint64_t idx) {
    ILuint id = ilGenImage(); ilBindImage(id); ILubyte d[12] = {0}; ilTexImage(2, 2, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, d);
    // self-assignment of strings
    if (r.chance(20)) { for (ILenum m : {IL_TGA_ID_STRING, IL_PNG_TITLE_STRING, IL_TIF_AUTHNAME_STRING, IL_CHEAD_HEADER_STRING}) { ilSetString(m, "self assigned"); ilSetString(m, ilGetString(m)); if (!ilGetString(m) || strcmp(ilGetString(m), "self assigned")) vh_fail("self-assign", "setting a string to itself changed it"); ilSetString(m, ""); } vh_count("self_assignments"); }
    M.run(r, r.chance(25) ? r.range(60, 160) : r.range(2, 60));
    // version and constant queries
    if (ilGetInteger(IL_VERSION_NUM) != IL_VERSION) vh_fail("version", "version is %d", ilGetInteger(IL_VERSION_NUM));
    ilDeleteImage(id); while (ilGetError() != IL_NO_ERROR) {}
}
