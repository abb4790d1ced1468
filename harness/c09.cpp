// C09: image names
#include "img.h"
#include <unistd.h>
struct Live { Img img; };
static std::map<ILuint, Img> live; static ILuint cur; static std::set<ILuint> known; static std::string trace;
void vh_setup() { vmem_install(); ilInit(); iluInit(); }
static Img blank() { Img m; m.fmt = IL_LUMINANCE; m.data.assign(1, 0); return m; }
static Img rndsmall(Rng &r) { ImgOpt o; o.maxw = o.maxh = 6; o.maxd = 2; return rnd_img(r, o); }
static Img grabraw() { ILimage *I = ilGetCurImage(); if (!I) vh_fail("no-image", "no image is bound; trace:%s", trace.c_str()); std::string w = wellformed(I); if (!w.empty()) vh_fail("malformed", "%s; trace:%s", w.c_str(), trace.c_str()); return from_struct(I); }
static void check_cur(const char *op) {
    if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != cur) vh_fail("cur-name", "after %s the current image is %d, the model says %u; trace:%s", op, ilGetInteger(IL_CUR_IMAGE), cur, trace.c_str());
    Img g = grabraw(), &w = live[cur]; if (!g.same(w)) vh_fail("cur-content", "after %s image %u: %s; trace:%s", op, cur, imgdiff(g, w).c_str(), trace.c_str()); vh_count("content_checks");
}
static void check_names(Rng &r, const char *op) {
    for (ILuint n : known) { bool is = ilIsImage(n), want = n != 0 && live.count(n); if (is != want) vh_fail("isimage", "after %s ilIsImage(%u)=%d, the model says %d; trace:%s", op, n, is, want, trace.c_str()); vh_count("name_checks"); }
}
static void check_all(const char *op) {
    ILuint c = cur; for (auto &x : live) { ilBindImage(x.first); cur = x.first; check_cur(op); } ilBindImage(c); cur = c; check_cur(op);
}
static void fresh_name(ILuint n, const char *op) { if (n == 0 || live.count(n)) vh_fail("dup-name", "%s returned the %s name %u; trace:%s", op, n ? "live" : "zero", n, trace.c_str()); live[n] = blank(); known.insert(n); }
void vh_case(Rng &r, uint64_t) {
    ilShutDown(); clear_errors(); ilInit(); iluInit(); vmem.fail_after = -1;
    live.clear(); known = {0, 1, 2, 3}; trace.clear(); cur = ilGetInteger(IL_CUR_IMAGE);
    ilBindImage(1); live[1] = from_struct(ilGetCurImage()); ilBindImage(0); live[0] = from_struct(ilGetCurImage()); ilBindImage(cur);
    int n = r.chance(10) ? r.range(80, 300) : r.range(3, 60); uint64_t h = 0; int maxlive = 0; size_t hugew = r.chance(15);
    for (int i = 0; i < n; i++) {
        int op = r.below(16); char b[120]; ILuint name = r.chance(70) ? *std::next(known.begin(), r.below(known.size())) : r.chance(80) ? r.below(40) : hugew ? r.below(3000) * 37 : r.below(3000);
        h = vh_mix(h, op * 1000003 + name);
        switch (op) {
        case 0: { bool u = r.chance(50); ILuint x = u ? iluGenImage() : ilGenImage(); if (u) trace += " ilu"; snprintf(b, 120, " gen=%u", x); trace += b; vh_phase("gen"); fresh_name(x, "ilGenImage"); if (u) cur = x; break; }
        case 1: { int k = r.chance(10) ? r.range(50, 1300) : r.range(1, 8); std::vector<ILuint> v(k, 77); ilGenImages(k, v.data()); snprintf(b, 120, " gens(%d)", k); trace += b; for (ILuint x : v) fresh_name(x, "ilGenImages"); if (r.chance(60)) { ilDeleteImages(k, v.data()); trace += " del-all"; for (ILuint x : v) live.erase(x); if (!live.count(cur)) cur = 0; if (known.size() > 400) for (ILuint x : v) known.erase(x); } break; }
        case 2: case 3: case 4: { vh_phase("bind"); ilBindImage(name); snprintf(b, 120, " bind(%u)", name); trace += b; if (!live.count(name)) live[name] = blank(); cur = name; known.insert(name); vh_count("binds"); break; }
        case 5: case 6: { vh_phase("delete"); int how = r.below(3); if (how == 0) ilDeleteImage(name); else if (how == 1) iluDeleteImage(name); else { ILuint l[3] = {name, (ILuint)r.below(20), name}; ilDeleteImages(3, l); if (l[1]) { live.erase(l[1]); known.insert(l[1]); if (cur == l[1]) cur = 0; } snprintf(b, 120, " +del(%u)", l[1]); trace += b; } snprintf(b, 120, " del(%u)", name); trace += b; if (name) { live.erase(name); if (cur == name) cur = 0; } known.insert(name); vh_count("deletes"); break; }
        case 7: case 8: case 9: { Img m = rndsmall(r); put(m); live[cur] = from_struct(ilGetCurImage()); if (!live[cur].same(m)) vh_fail("put", "stored image differs: %s; trace:%s", imgdiff(live[cur], m).c_str(), trace.c_str()); snprintf(b, 120, " put[%u]", cur); trace += b; vh_count("modifications"); break; }
        case 10: { if (live[cur].palType == IL_PAL_NONE || live[cur].fmt == IL_COLOUR_INDEX) { ilConvertImage(IL_RGBA, IL_UNSIGNED_BYTE); } iluFlipImage(); ilSetAlpha(0.5); live[cur] = from_struct(ilGetCurImage()); trace += " edit"; clear_errors(); break; }
        case 11: { ILuint x = ilCloneCurImage(); if (x == 0 || live.count(x)) vh_fail("dup-name", "ilCloneCurImage returned %u; trace:%s", x, trace.c_str()); live[x] = live[cur]; known.insert(x); snprintf(b, 120, " clone=%u", x); trace += b; break; }
        case 12: { // calls that must fail or do nothing
            int k = r.below(5); trace += " bad"; clear_errors();
            if (k == 0) { ilGenImages(0, NULL); ilGenImages(3, NULL); } else if (k == 1) { ilDeleteImage(0); ilDeleteImage(0xFFFFFFFFu); ilDeleteImage(0x7FFFFFFF); ilDeleteImages(0, NULL); }
            else if (k == 2) { ilBindImage(r.chance(50) ? 0xFFFFFFFFu : 0x70000000u); if (ilGetError() == IL_NO_ERROR) vh_fail("huge-bind", "binding an impossible name raised no error"); }
            else if (k == 3) { if (ilIsImage(0) || ilIsImage(0xFFFFFFFFu) || ilIsImage(0x40000000)) vh_fail("isimage", "0 or an unknown name is reported as an image"); }
            else { ILubyte junk[64] = {0}; if (ilLoadL(IL_PNG, junk, 64)) vh_fail("junk", "junk loaded"); ILuint no = 0x12345 + r.below(1000); while (live.count(no)) no++; if (ilCopyImage(no)) vh_fail("copy-unknown", "copied from an unknown name"); if (ilIsImage(no)) vh_fail("copy-creates", "copying from an unknown name created it"); }
            clear_errors(); break; }
        case 13: { // memory runs short
            if (!r.chance(30)) { i--; h++; continue; } vmem.fail_after = r.below(3); vmem_sticky = true; ILuint v[4] = {9, 9, 9, 9}; int k = r.below(3); ILuint was = cur; trace += " oom"; vh_phase("oom");
            if (k == 0) { ilGenImages(4, v); vmem.fail_after = -1; for (ILuint x : v) if (x) { if (live.count(x)) vh_fail("dup-name", "ilGenImages short of memory returned live name %u; trace:%s", x, trace.c_str()); if (ilIsImage(x)) { live[x] = blank(); known.insert(x); } } }
            else if (k == 1) { ilBindImage(name); vmem.fail_after = -1; ILuint now = ilGetInteger(IL_CUR_IMAGE); if (now == name) { if (!live.count(name)) live[name] = blank(); cur = name; known.insert(name); } else if (now != was) vh_fail("oom-bind", "a failed bind changed the bound name from %u to %u; trace:%s", was, now, trace.c_str()); }
            else { ilDeleteImage(name); vmem.fail_after = -1; if (name) { live.erase(name); if (cur == name) cur = 0; } known.insert(name); }
            clear_errors(); vh_count("short_of_memory"); break; }
        case 15: { // a file into a name of its own
            vh_phase("iluLoadImage"); int w = r.range(1, 6), h2 = r.range(1, 6); bool good = r.chance(70); std::string f = std::string(vh_tmpdir()) + "/n.ppm", d = "P6\n" + std::to_string(w) + " " + std::to_string(h2) + "\n255\n"; for (int j = 0; j < w * h2 * 3; j++) d += (char)r.below(256); if (!good) d.resize(r.chance(50) ? d.size() - 1 : 3); FILE *o = fopen(f.c_str(), "wb"); fwrite(d.data(), 1, d.size(), o); fclose(o); ILuint x = iluLoadImage(f.c_str()); unlink(f.c_str()); snprintf(b, 120, " load(%d)=%u", good, x); trace += b; vh_count("ilu_loads");
            if (!good) { if (x) vh_fail("ilu-load", "iluLoadImage gives name %u for a file that is cut; trace:%s", x, trace.c_str()); if (ilGetError() == IL_NO_ERROR) vh_fail("ilu-load-silent", "iluLoadImage fails without an error; trace:%s", trace.c_str()); clear_errors(); break; }
            fresh_name(x, "iluLoadImage"); if (!ilIsImage(x)) vh_fail("ilu-load-name", "the name %u iluLoadImage returns is none; trace:%s", x, trace.c_str()); check_cur("iluLoadImage"); ilBindImage(x); Img q = grabraw(); ilBindImage(cur); bool same = q.w == w && q.h == h2 && q.fmt == IL_RGB && q.type == IL_UNSIGNED_BYTE && q.data.size() == (size_t)w * h2 * 3; size_t hd = d.size() - q.data.size(); for (int y = 0; same && y < h2; y++) same = !memcmp(q.data.data() + (size_t)(q.origin == IL_ORIGIN_LOWER_LEFT ? h2 - 1 - y : y) * w * 3, d.data() + hd + (size_t)y * w * 3, w * 3); if (!same) vh_fail("ilu-load-content", "the image iluLoadImage returns is not the one in the file; trace:%s", trace.c_str()); live[x] = q; clear_errors(); break; }
        case 14: { // a frame, mipmap or layer is selected when names are bound or deleted
            vh_phase("select"); ILenum ty = r.pick({IL_SUB_NEXT, IL_SUB_MIPMAP, IL_SUB_LAYER}); if (ilCreateSubImage(ty, 2) != 2) vh_fail("sub-image", "sub-images cannot be created; trace:%s", trace.c_str());
            int k = r.range(1, 2); bool ok = ty == IL_SUB_NEXT ? ilActiveImage(k) : ty == IL_SUB_MIPMAP ? ilActiveMipmap(k) : ilActiveLayer(k); if (!ok) vh_fail("sub-image", "a sub-image cannot be selected; trace:%s", trace.c_str());
            if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != cur) vh_fail("cur-name", "selecting a sub-image changed the bound name; trace:%s", trace.c_str());
            int how = r.below(4); snprintf(b, 120, " sub%d[%u]-then-%d(%u)", k, cur, how, name); trace += b; vh_count("with_sub_image_selected");
            if (r.chance(30)) { Img m = rndsmall(r); put(m); if (!from_struct(ilGetCurImage()).same(m)) vh_fail("put", "the sub-image does not hold what was stored; trace:%s", trace.c_str()); }
            if (how == 0) { ILuint v = cur; if (r.chance(50)) ilDeleteImage(v); else { ILuint l[2] = {0, v}; ilDeleteImages(2, l); ilGetError(); } if (v) { live.erase(v); cur = 0; } else { ilBindImage(0); } }
            else if (how == 1) { ilBindImage(name); if (!live.count(name)) live[name] = blank(); cur = name; known.insert(name); }
            else if (how == 2) { ilDeleteImage(name); if (name) { live.erase(name); if (cur == name) cur = 0; } known.insert(name); if (cur != 0 || live.count(cur)) ilBindImage(cur); }
            else { ILuint x = ilGenImage(); fresh_name(x, "ilGenImage"); ilBindImage(x); cur = x; }
            clear_errors(); break; }
        }
        if ((int)live.size() > maxlive) maxlive = live.size();
        check_cur("the last call"); check_names(r, "the last call"); if (r.chance(12)) check_all("the last call");
        ILenum e = ilGetError(); if (e != IL_NO_ERROR && op != 10) vh_fail("spurious-error", "error 0x%x raised; trace:%s", e, trace.c_str()); clear_errors();
        if (trace.size() > 3000) trace.erase(0, 1500);
    }
    check_all("the whole sequence");
    if (ilGetInteger(IL_NUM_IMAGES) < 0) vh_fail("num", "x");
    if (maxlive > 4) vh_distinct(h);
    vh_count("sequences"); vh_sample("%d calls, at most %d live names:%s", n, maxlive, trace.substr(0, 300).c_str());
}
