// C13: sub-image navigation
#include "img.h"
struct N { Img img; N *next = 0, *face = 0, *mip = 0, *layer = 0; };
static std::vector<N *> pool; static N *newn() { N *n = new N; n->img.fmt = IL_LUMINANCE; n->img.data.assign(1, 0); pool.push_back(n); return n; }
typedef N *N::*Link; static const Link LINK[4] = {&N::next, &N::face, &N::mip, &N::layer}; static const char *LN[4] = {"image", "face", "mip", "layer"};
static const ILenum NUM[4] = {IL_NUM_IMAGES, IL_NUM_FACES, IL_NUM_MIPMAPS, IL_NUM_LAYERS}, ACT[4] = {IL_ACTIVE_IMAGE, IL_ACTIVE_FACE, IL_ACTIVE_MIPMAP, IL_ACTIVE_LAYER};
static N *root[3]; static ILuint names[3]; static int cur; static N *sel; static std::string trace;
void vh_setup() { vmem_install(); ilInit(); iluInit(); }
static void check_sel(const char *op) {
    std::string w = wellformed(ilGetCurImage()); if (!w.empty()) vh_fail("malformed", "%s; trace:%s", w.c_str(), trace.c_str());
    Img g = grab(op); if (!g.same(sel->img)) vh_fail("selected", "[bound %d struct pal %x %u] after %s the selected sub-image: %s; trace:%s", cur, ilGetCurImage()->Pal.PalType, ilGetCurImage()->Pal.PalSize, op, imgdiff(g, sel->img).c_str(), trace.c_str());
    if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != names[cur]) vh_fail("name", "bound name changed; trace:%s", trace.c_str());
    for (int k = 0; k < 4; k++) { int n = 0; for (N *p = sel->*LINK[k]; p; p = p->*LINK[k]) n++; if (ilGetInteger(NUM[k]) != n) vh_fail("count", "after %s the number of %ss is reported as %d, should be %d; trace:%s", op, LN[k], ilGetInteger(NUM[k]), n, trace.c_str());
        int a = 0, i = 0; for (N *p = root[cur]->*LINK[k]; p; p = p->*LINK[k]) { i++; if (p == sel) { a = i; break; } } if (ilGetInteger(ACT[k]) != a) vh_fail("active", "after %s the active %s is reported as %d, should be %d; trace:%s", op, LN[k], ilGetInteger(ACT[k]), a, trace.c_str()); }
    vh_count("selection_checks");
}
static void walk(const ILimage *I, N *n, const std::string &path, int depth) {
    if (!I != !n) vh_fail("tree", "%s is %s; trace:%s", path.c_str(), I ? "there, should not be" : "missing", trace.c_str()); if (!n) return;
    Img g = from_struct(I); if (!g.same(n->img)) vh_fail("tree-content", "%s: %s; trace:%s", path.c_str(), imgdiff(g, n->img).c_str(), trace.c_str());
    if (depth > 60) return; walk(I->Next, n->next, path + "/next", depth + 1); walk(I->Faces, n->face, path + "/face", depth + 1); walk(I->Mipmaps, n->mip, path + "/mip", depth + 1); walk(I->Layers, n->layer, path + "/layer", depth + 1);
}
static void check_trees() { for (int i = 0; i < 3; i++) { ilBindImage(names[i]); walk(ilGetCurImage(), root[i], "image" + std::to_string(i), 0); } ilBindImage(names[cur]); sel = root[cur]; vh_count("tree_checks"); }
static int treesize(N *n, int d = 0) { if (!n || d > 60) return 0; int s = 1; for (Link l : LINK) s += treesize(n->*l, d + 1); return s; }
void vh_case(Rng &r, uint64_t) {
    for (N *n : pool) delete n; pool.clear(); ilShutDown(); clear_errors(); ilInit(); trace.clear();
    ilGenImages(3, names); for (int i = 0; i < 3; i++) root[i] = newn(); cur = 0; ilBindImage(names[0]); sel = root[0];
    int n = r.range(5, 60); uint64_t h = 0; bool moved = false;
    for (int i = 0; i < n; i++) {
        int op = r.below(14), k = r.below(4); char b[80]; clear_errors(); h = vh_mix(h, op * 7 + k);
        switch (op) {
        case 0: { cur = r.below(3); ilBindImage(names[cur]); sel = root[cur]; snprintf(b, 80, " bind%d", cur); trace += b; break; }
        case 1: case 2: { if (k == 1) k = 2; int m = r.chance(10) ? r.range(5, 20) : r.range(0, 4); static const ILenum T[4] = {IL_SUB_NEXT, 0, IL_SUB_MIPMAP, IL_SUB_LAYER}; if (treesize(root[cur]) > 60) break;
            ILuint got = ilCreateSubImage(T[k], m); snprintf(b, 80, " create(%s,%d)", LN[k], m); trace += b; if ((int)got != m) vh_fail("create", "ilCreateSubImage(%s,%d) returned %u; trace:%s", LN[k], m, got, trace.c_str()); if (m) { N *p = sel; p->*LINK[k] = NULL; for (int j = 0; j < m; j++) { p->*LINK[k] = newn(); p = p->*LINK[k]; } } vh_count("creates"); break; }
        case 3: { if (k == 3) k = 0; int m = r.range(0, 5); bool ok = k == 0 ? ilRegisterNumImages(m) : k == 1 ? ilRegisterNumFaces(m) : ilRegisterMipNum(m); snprintf(b, 80, " register(%s,%d)", LN[k], m); trace += b; if (!ok) vh_fail("create", "registering %d %ss failed; trace:%s", m, LN[k], trace.c_str()); sel = root[cur]; sel->*LINK[k] = NULL; N *p = sel; for (int j = 0; j < m; j++) { p->*LINK[k] = newn(); p = p->*LINK[k]; } vh_count("creates"); break; }
        case 4: case 5: case 6: case 7: case 8: { int cnt = 0; for (N *p = sel->*LINK[k]; p; p = p->*LINK[k]) cnt++; if (!cnt && r.chance(60)) { for (int j = 0; j < 4; j++) if (sel->*LINK[j]) k = j; for (N *p = sel->*LINK[k]; p; p = p->*LINK[k]) cnt++; }
            int m = r.chance(75) && cnt ? r.range(1, cnt) : r.chance(70) ? cnt + r.range(1, 3) : r.chance(50) ? 0x7fffffff : 0; if (m == 0 && sel != root[cur]) m = cnt + 1;
            bool ok = k == 0 ? ilActiveImage(m) : k == 1 ? ilActiveFace(m) : k == 2 ? ilActiveMipmap(m) : ilActiveLayer(m); snprintf(b, 80, " %s(%d of %d)", LN[k], m, cnt); trace += b; ILenum e = ilGetError();
            if (ok != (m <= cnt)) vh_fail("select", "selecting %s %d of %d %s; trace:%s", LN[k], m, cnt, ok ? "succeeded" : "failed", trace.c_str()); if (!ok && e == IL_NO_ERROR) vh_fail("select-error", "failed selection raised no error; trace:%s", trace.c_str()); if (ok && e != IL_NO_ERROR) vh_fail("select-error", "selection raised 0x%x", e);
            if (ok) for (int j = 0; j < m; j++) sel = sel->*LINK[k]; if (ok && m > 1) moved = true; vh_count(ok ? "selections" : "bad_selections"); break; }
        case 9: case 10: { ImgOpt o; o.maxw = o.maxh = 7; o.maxd = 2; Img m = rnd_img(r, o); if (!ilTexImageSurface(m.w, m.h, m.d, nch(m.fmt), m.fmt, m.type, m.data.data())) vh_error("ilTexImageSurface failed %x", ilGetError()); if (m.palType != IL_PAL_NONE) ilRegisterPal(m.pal.data(), m.pal.size(), m.palType); ilRegisterOrigin(m.origin); ilSetDuration(m.dur = r.below(100)); sel->img = m; trace += " set"; vh_count("edits"); break; }
        case 11: { for (auto &x : sel->img.data) x = r.u32(); if (sel->img.fmt == IL_COLOUR_INDEX) for (auto &x : sel->img.data) x = 0; ilSetData(sel->img.data.data()); trace += " data"; vh_count("edits"); break; }
        case 12: { Img m; m.w = r.range(1, 3); m.h = r.range(1, 3); m.fmt = IL_LUMINANCE; m.data.assign(m.size(), 0); m.data[0] = r.u32(); m.origin = IL_ORIGIN_LOWER_LEFT; if (r.chance(70)) break; put(m); sel->img = m; sel->next = sel->face = sel->mip = sel->layer = NULL; trace += " put"; break; }
        case 13: { if (ilCreateSubImage(r.chance(50) ? 0x1234 : 0, 3) != 0 || ilGetError() == IL_NO_ERROR) vh_fail("bad-type", "creating sub-images of an unknown kind succeeded"); break; }
        }
        ILenum e = ilGetError(); if (e != IL_NO_ERROR && op != 13) vh_fail("spurious-error", "error 0x%x; trace:%s", e, trace.c_str());
        check_sel("the last call"); if (r.chance(6)) check_trees();
    }
    check_trees(); if (moved) vh_distinct(h); vh_count("sequences"); vh_sample("%d calls:%s", n, trace.substr(0, 300).c_str());
}
