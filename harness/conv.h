// What converting a pixel between formats and types has to give.
#pragma once
#include "img.h"
static const double LUMW[3] = {(double)0.212671f, (double)0.715160f, (double)0.072169f};
inline bool iscol(ILenum f) { return f == IL_RGB || f == IL_RGBA || f == IL_BGR || f == IL_BGRA || f == IL_COLOUR_INDEX; }
inline bool islum(ILenum f) { return f == IL_LUMINANCE || f == IL_LUMINANCE_ALPHA; }
inline bool convertible(ILenum sf, ILenum df) { if (df == IL_COLOUR_INDEX) return sf == IL_COLOUR_INDEX; return !(sf == IL_ALPHA && df == IL_LUMINANCE); }
inline bool issigned(ILenum t) { return t == IL_BYTE || t == IL_SHORT || t == IL_INT; }
// is the value of this conversion defined? (signed numbers become floats with their sign, but come from unsigned ones bit by bit)
inline bool valuedef(ILenum st, ILenum dt) { return !(issigned(st) && isflt(dt)); }
inline void expchan(const RGBAd &c, ILenum sf, ILenum df, double v[4]) {
    double l = islum(sf) || sf == IL_ALPHA ? c.r : c.r * LUMW[0] + c.g * LUMW[1] + c.b * LUMW[2];
    switch (df) { case IL_ALPHA: v[0] = c.a; break; case IL_LUMINANCE: v[0] = l; break; case IL_LUMINANCE_ALPHA: v[0] = l; v[1] = c.a; break; case IL_RGB: case IL_RGBA: v[0] = c.r; v[1] = c.g; v[2] = c.b; v[3] = c.a; break; case IL_BGR: case IL_BGRA: v[0] = c.b; v[1] = c.g; v[2] = c.r; v[3] = c.a; break; }
}
inline double convtol(const Img &s, ILenum df, ILenum dt, double v, double mag = 0) { // mag: the largest of the terms v is the sum of
    if (!std::isfinite(mag)) mag = 0;
    bool toluma = iscol(s.fmt) && islum(df); double t = isflt(dt) ? 0 : 1.0001 / tmax(dt);
    if (toluma) { if (!isflt(dt)) t *= 2; if (s.type != dt && !isflt(dt)) t *= 1.5; if (s.fmt == IL_COLOUR_INDEX) t += isflt(dt) || tmax(dt) > 255 ? 0.51 / 255 : 0; }
    if (s.type == IL_HALF || dt == IL_HALF) t += fabs(v) / 1000 + 1e-6; if (s.type == IL_FLOAT || dt == IL_FLOAT || toluma) t += (toluma ? std::max(mag, fabs(v)) : fabs(v)) * 5e-7 + 1e-9; t += fabs(v) * 1e-12; return t;
}
inline bool close1(double got, double want, double tol) { return fabs(got - want) <= tol; }
// compares one converted pixel; p points at the result
inline std::string pixdiff(const Img &s, int x, int y, int z, const uint8_t *p, ILenum df, ILenum dt) {
    char b[300];
    if (df == s.fmt && dt == s.type) { if (memcmp(p, s.px(x, y, z), s.bpp())) { snprintf(b, 300, "pixel (%d,%d,%d) is not copied exactly (%s/%s)", x, y, z, fname(df), tname(dt)); return b; } return ""; }
    if (df == IL_COLOUR_INDEX) { if (p[0] != s.px(x, y, z)[0]) { snprintf(b, 300, "index (%d,%d,%d) is %d not %d", x, y, z, p[0], s.px(x, y, z)[0]); return b; } return ""; }
    double v[4]; RGBAd in = s.rgba(x, y, z); double mag = std::max(fabs(in.r), std::max(fabs(in.g), fabs(in.b))); expchan(in, s.fmt, df, v);
    for (int c = 0; c < nch(df); c++) { double g = normval(p + c * tsz(dt), dt), t = convtol(s, df, dt, v[c], mag); if (!close1(g, v[c], t)) { snprintf(b, 300, "pixel (%d,%d,%d) channel %d converted from %s/%s to %s/%s is %.9g, should be %.9g +- %.3g", x, y, z, c, fname(s.fmt), tname(s.type), fname(df), tname(dt), g, v[c], t); return b; } }
    return "";
}
inline std::string convdiff(const Img &s, const Img &d) {
    if (s.w != d.w || s.h != d.h || s.d != d.d || s.origin != d.origin) return "converted " + s.str() + " became " + d.str();
    for (int z = 0; z < s.d; z++) for (int y = 0; y < s.h; y++) for (int x = 0; x < s.w; x++) { std::string e = pixdiff(s, x, y, z, d.px(x, y, z), d.fmt, d.type); if (!e.empty()) return e; }
    return "";
}
// does going from type a to b and back lose nothing?
inline bool widens(ILenum a, ILenum b) { if (a == b) return true; if (isflt(a)) { if (a == IL_HALF) return b == IL_FLOAT || b == IL_DOUBLE; return a == IL_FLOAT && b == IL_DOUBLE; } int n = tsz(a); if (!isflt(b)) return tsz(b) >= n; return b == IL_DOUBLE ? true : b == IL_FLOAT ? n <= 2 : n == 1; }
