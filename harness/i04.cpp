// I04: colour arithmetic of the PNG and SVG headers (-DSVG_ selects the latter) against exact arithmetic
#include <bits/stdc++.h>
#include "mc.h"
#ifdef SVG_
#include "visualizer_svg.h"
constexpr int CH = 3;
#else
#include "visualizer_png.h"
constexpr int CH = 4;
#endif
using mc::u64; using std::string;
static Color mk(int a, int b, int c, int d) {
#ifdef SVG_
	return Color((std::uint8_t)a, (std::uint8_t)b, (std::uint8_t)c);
#else
	return Color((std::uint8_t)a, (std::uint8_t)b, (std::uint8_t)c, (std::uint8_t)d);
#endif
}
static string cs(const Color& c) { string s; for (int k = 0; k < CH; k++) s += (k ? "," : "") + std::to_string((int)c[k]); return "(" + s + ")"; }
static int clampi(int v) { return v < 0 ? 0 : v > 255 ? 255 : v; }
int main(int argc, char** argv) {
	mc::init(argc, argv); mc::hangCpu = 20;
	// construction: all 2^24 values of the combined form; bits above are ignored
	mc::parallel(256, [&](u64 r) {
		mc::current("construct", std::to_string(r)); mc::state(mc::comb(r, 1));
		for (unsigned gb = 0; gb < 65536; gb++) {
			std::uint32_t v = r << 16 | gb; Color c(v), d(v | 0xa5000000u); mc::step(2); mc::trace();
			if (c.r != r || c.g != gb >> 8 || c.b != (gb & 255) || c[0] != c.r || c[1] != c.g || c[2] != c.b || d != c || !(c == mk(r, gb >> 8, gb & 255, 255)) || (c != mk(r, gb >> 8, gb & 255, 255))) { mc::violation("construct", "Color(" + std::to_string(v) + ") is " + cs(c)); return; }
#ifndef SVG_
			if (c.a != 255 || c[3] != 255 || Color(v, (std::uint8_t)gb).a != (gb & 255) || Color((std::uint8_t)r, (std::uint8_t)gb, (std::uint8_t)(gb >> 8)).a != 255) { mc::violation("construct", "alpha of Color(" + std::to_string(v) + ")"); return; }
#endif
		}
#ifdef SVG_
		if (Color((std::uint8_t)r) != mk(r, r, r, 0)) mc::violation("construct", "gray " + std::to_string(r));
#endif
		if (Color() != Color(std::uint32_t(0))) mc::violation("construct", "default colour");
		Color c = mk(1, 2, 3, 4); const Color k = c;
		for (int i = 0; i < CH; i++) { c[i] = r; if (c[i] != r || std::as_const(c)[i] != r || Color(c)[i] != r || (c == k) != (r == (u64)i + 1) || (c != k) != (r != (u64)i + 1)) mc::violation("access", "channel " + std::to_string(i) + " value " + std::to_string(r)); c = k; mc::trace(); }
		for (size_t i : std::initializer_list<size_t>{CH, CH + 1, 100 + (size_t)r, ~(size_t)0}) { int t = 0; try { (void)c[i]; } catch (std::out_of_range&) { t++; } try { (void)k[i]; } catch (std::out_of_range&) { t++; } try { (void)Color(c)[i]; } catch (std::out_of_range&) { t++; } if (t != 3) mc::violation("access", "channel " + std::to_string(i) + " is not refused"); }
	});
	// a+b, a-b: all pairs of bytes in every channel, the other channels holding other pairs
	mc::parallel(256, [&](u64 a) { for (int b = 0; b < 256; b++) for (int ch = 0; ch < CH; ch++) {
		int x[4] = {(int)(255 - a), b, (int)a / 2, 200}, y[4] = {(int)a, 255 - b, 90, b / 3}; x[ch] = a; y[ch] = b;
		Color p = mk(x[0], x[1], x[2], x[3]), q = mk(y[0], y[1], y[2], y[3]), s = p + q, d = p - q, s2 = p, d2 = p; mc::step(4); mc::trace(); mc::state(mc::comb(a * 256 + b, ch + 10));
		Color& rs = (s2 += q); Color& rd = (d2 -= q); bool ok = s2 == s && d2 == d && &rs == &s2 && &rd == &d2; for (int k = 0; k < CH; k++) ok = ok && s[k] == clampi(x[k] + y[k]) && d[k] == clampi(x[k] - y[k]);
		Color self = p; self += self; Color z = p; z -= z; for (int k = 0; k < CH; k++) ok = ok && self[k] == clampi(2 * x[k]) && z[k] == 0;
		if (!ok) mc::violation("add-sub", cs(p) + " and " + cs(q) + ": sum " + cs(s) + " difference " + cs(d));
	} });
	// c*f: every byte in every channel, factors around all fractions k/12, powers of two and extremes; within half a unit of the clamped product
	std::vector<Real> f; for (int k = -24; k <= 60; k++) f.push_back(k / 12.0L); for (int e = -70; e <= 70; e++) { f.push_back(std::ldexp((Real)1, e)); f.push_back(-std::ldexp((Real)1, e)); } for (int k = 0; k <= 255; k++) { f.push_back(k / 255.0L); if (k) f.push_back(255.0L / k); f.push_back((k + 0.5L) / 255); }
	for (Real x : {1e18L, 3.7e16L, 1e30L, -1e30L, 1e300L, -1e300L, 1e4000L, -1e4000L, -0.0L}) f.push_back(x);
	mc::parallel(f.size(), [&](u64 i) { Real g = f[i]; for (int a = 0; a < 256; a++) for (int ch = 0; ch < CH; ch++) {
		int x[4] = {255 - a, 3, a / 2, 200}; x[ch] = a; Color p = mk(x[0], x[1], x[2], x[3]), r = p * g, l = g * p, m = p; m *= g; mc::step(3); mc::trace(); mc::state(mc::comb(i * 256 + a, ch + 20));
		bool ok = r == l && r == m; for (int k = 0; k < CH; k++) { Real e = std::clamp<Real>(x[k] * g, 0, 255); ok = ok && std::fabs(r[k] - e) <= 0.5L + 1e-12L; }
		if (!ok) { mc::violation("mul", cs(p) + " * " + mc::str(g) + " is " + cs(r) + ", " + cs(l) + ", " + cs(m)); return; }
	} });
	// lerp: within one unit of the exact value, exact at both ends
	mc::parallel(256, [&](u64 a) { for (int b = 0; b < 256; b++) for (int k = 0; k <= 48; k++) {
		Real g = k / 48.0L; Color p = mk(a, b, 255 - a, 7), q = mk(b, a, b, 250), r = lerp(p, q, g); mc::step(); mc::trace(); bool ok = (k || r == q) && (k < 48 || r == p); if (k % 24 == 0) mc::state(mc::comb(a * 256 + b, k + 30));
		for (int c = 0; c < CH; c++) ok = ok && std::fabs(r[c] - (p[c] * g + q[c] * (1 - g))) <= 1.0L + 1e-12L;
		if (!ok) { mc::violation("lerp", "lerp(" + cs(p) + "," + cs(q) + "," + mc::str(g) + ") is " + cs(r)); return; }
	} });
	mc::parallel(1, [&](u64) {
		struct N { const char* n; Color c; unsigned v; } named[] = {{"BLACK", BLACK, 0}, {"DARKGRAY", DARKGRAY, 0x404040}, {"GRAY", GRAY, 0x808080}, {"LIGHTGRAY", LIGHTGRAY, 0xC0C0C0}, {"WHITE", WHITE, 0xFFFFFF}, {"RED", RED, 0xFF0000}, {"GREEN", GREEN, 0xFF00}, {"BLUE", BLUE, 0xFF}, {"YELLOW", YELLOW, 0xFFFF00}, {"MAGENTA", MAGENTA, 0xFF00FF}, {"CYAN", CYAN, 0xFFFF}};
		for (auto& x : named) { mc::step(); mc::trace(); mc::state(mc::hashStr(x.n)); if (x.c != mk(x.v >> 16, x.v >> 8 & 255, x.v & 255, 255)) mc::violation("named", string(x.n) + " is " + cs(x.c)); }
#ifndef SVG_
		if (TRANSPARENT != mk(0, 0, 0, 0)) mc::violation("named", "TRANSPARENT is " + cs(TRANSPARENT));
#endif
	});
#ifndef SVG_
	// blend: "upper over lower". With straight alpha the premultiplied result u*ua + l*la*(255-ua)/255 is met up to rounding in each step
	std::vector<int> V{0, 1, 2, 127, 128, 253, 254, 255}; for (int k = 0; k < 255; k += mc::thorough ? 5 : 23) V.push_back(k);
	mc::parallel(256, [&](u64 ua) { for (int la = 0; la < 256; la++) { mc::state(mc::comb(ua * 256 + la, 40)); for (int u : V) for (int l : V) {
		Color lo = mk(l, 255 - l, u, la), up = mk(u, l, 255 - u, ua), r = blend(lo, up); mc::step(); mc::trace();
		Real A = ua + la * (255 - (Real)ua) / 255; bool ok = std::fabs(r.a - A) <= 1;
		if (ua == 255) ok = r == up; else if (ua == 0) ok = r == lo;
		else for (int c = 0; c < 3; c++) { Real pm = up[c] * (Real)ua + lo[c] * la * (255 - (Real)ua) / 255, got = r[c] * (Real)r.a; ok = ok && std::fabs(got - pm) <= 255 + r.a && r[c] + 1 >= std::min(lo[c], up[c]) && r[c] <= std::max(lo[c], up[c]); }
		if (!ok) { mc::violation("blend", "blend(" + cs(lo) + "," + cs(up) + ") is " + cs(r)); return; }
	} } });
#endif
	return mc::finish();
}
