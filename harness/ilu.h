// Shared by the monitors of the utility library: two images, one of them worked on, the other has to stay as it is.
#pragma once
#include "conv.h"
static ILuint workName = 0, otherName = 0; static Img otherImg;
inline void ilu_setup() { vmem_install(); ilInit(); iluInit(); }
inline void ilu_begin(Rng &r) {
    clear_errors(); if (!workName) { workName = ilGenImage(); otherName = ilGenImage(); }
    iluRegioniv(NULL, 0); ilBindImage(otherName); ImgOpt o; o.maxw = o.maxh = 5; otherImg = rnd_img(r, o); put(otherImg); ilBindImage(workName); ilDisable(IL_USE_KEY_COLOUR);
}
inline Img ilu_take(const char *what) { // the result, after checking that it is well formed
    if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != workName) vh_fail("bound", "%s: the bound image is now %d", what, ilGetInteger(IL_CUR_IMAGE));
    std::string wf = wellformed(ilGetCurImage()); if (!wf.empty()) vh_fail("malformed", "after %s: %s", what, wf.c_str()); return grab(what);
}
inline void ilu_end(const char *what) {
    ILenum e = ilGetError(); if (e != IL_NO_ERROR) vh_fail("spurious-error", "%s raised 0x%x", what, e);
    iluRegioniv(NULL, 0); ilBindImage(otherName); Img g = grab(); if (!g.same(otherImg)) vh_fail("other", "%s changed another image: %s", what, imgdiff(g, otherImg).c_str()); ilBindImage(workName);
}
// after a request that has to fail: an error is pending, nothing changed
inline void ilu_refused(const char *what, bool ok, const Img &m) {
    ILenum e = ilGetError(); if (ok) vh_fail("accepted", "%s succeeded on %s", what, m.str().c_str()); if (e == IL_NO_ERROR) vh_fail("silent", "%s failed on %s without an error", what, m.str().c_str());
    clear_errors(); Img g = ilu_take(what); if (!g.same(m)) vh_fail("failed-changed", "%s failed but changed the image: %s", what, imgdiff(g, m).c_str()); vh_count("refused");
}
// ---- regions: a polygon with corners inside the image ----
struct Region { std::vector<ILpointi> p; bool fl = false; int w = 1, h = 1; // fl: given in parts of the size
    // 1 inside, 0 outside, -1 too close to the border to tell
    int at(double x, double y) const { if (p.empty()) return 1; bool in = false; double best = 1e9; size_t n = p.size();
        for (size_t i = 0, j = n - 1; i < n; j = i++) { double ax = p[i].x, ay = p[i].y, bx = p[j].x, by = p[j].y; if ((ay > y) != (by > y) && x < (bx - ax) * (y - ay) / (by - ay) + ax) in = !in; double dx = bx - ax, dy = by - ay, l = dx * dx + dy * dy, t = l ? ((x - ax) * dx + (y - ay) * dy) / l : 0; t = t < 0 ? 0 : t > 1 ? 1 : t; best = std::min(best, hypot(ax + t * dx - x, ay + t * dy - y)); }
        return best <= 1.6 ? -1 : in; }
    std::string str() const { std::string s = fl ? "float" : ""; for (auto &q : p) { char b[40]; snprintf(b, 40, "(%d,%d)", q.x, q.y); s += b; } return s; } };
inline Region rnd_region(Rng &r, int w, int h) { Region g; int k = r.below(4); g.fl = r.chance(35); g.w = w; g.h = h;
    if (k == 0) { int x0 = r.below(w), x1 = r.range(x0, w - 1), y0 = r.below(h), y1 = r.range(y0, h - 1); g.p = {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}}; }
    else if (k == 1) { for (int i = 0; i < 3; i++) g.p.push_back({(ILint)r.below(w), (ILint)r.below(h)}); }
    else { double cx = r.unit() * (w - 1), cy = r.unit() * (h - 1), a = r.unit() * 6.28; int n = r.range(3, 7); for (int i = 0; i < n; i++, a += 6.28 / n) { double q = (0.5 + r.unit()) * std::max(w, h) / 2.5; int x = (int)(cx + q * cos(a)), y = (int)(cy + q * sin(a)); g.p.push_back({std::max(0, std::min(w - 1, x)), std::max(0, std::min(h - 1, y))}); } }
    return g; }
inline void set_region(const Region &g) { if (g.p.empty()) return; if (!g.fl) { iluRegioniv((ILpointi *)g.p.data(), g.p.size()); return; } std::vector<ILpointf> f; for (auto &q : g.p) f.push_back({(q.x + 0.5f) / g.w, (q.y + 0.5f) / g.h}); iluRegionfv(f.data(), (ILuint)f.size()); vh_count("float_regions"); }
// colour the library clears with, as the channels of a format; tol is what truncation may lose
inline void clearchan(const RGBAd &c, ILenum fmt, double v[4]) { expchan(c, IL_RGBA, fmt, v); }
