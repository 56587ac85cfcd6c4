// I01: drawing operations of PNG images against a per-pixel model
#include <bits/stdc++.h>
#include "mc.h"
#include "visualizer_png.h"
using mc::u64; using std::string; using std::vector;
typedef vector<vector<Color>> Grid; // [y][x]
static string cs(const Color& c) { char b[16]; snprintf(b, sizeof b, "%02x%02x%02x%02x", c.r, c.g, c.b, c.a); return b; }
static Color mix(int mode, const Color& lo, const Color& up) {
	auto cl = [](int v) { return (std::uint8_t)(v < 0 ? 0 : v > 255 ? 255 : v); };
	switch (mode) {
		case 0: return up;
		case 1: return blend(lo, up); // the formula itself: property I04
		case 2: return Color(cl(lo.r + up.r), cl(lo.g + up.g), cl(lo.b + up.b), cl(lo.a + up.a));
		default: return Color(cl(lo.r - up.r), cl(lo.g - up.g), cl(lo.b - up.b), cl(lo.a - up.a));
	}
}
struct Op { int kind, mode; int ax, ay, bx, by; Color border, fill; };
static const char* KN[] = {"rect", "rectBorder", "flood", "line", "pixel", "clear"};
static const char* MN[] = {"ASSIGN", "BLEND", "ADD", "SUBTRACT"};
static string name(const Op& o) { std::ostringstream s; s << KN[o.kind] << "<" << MN[o.mode] << ">((" << o.ax << "," << o.ay << "),(" << o.bx << "," << o.by << ")," << (o.kind == 1 ? cs(o.border) + "," : "") << cs(o.fill) << ")"; return s.str(); }
template<BlendMode M> static void callM(PNG& p, const Op& o) {
	Point a(o.ax, o.ay), b(o.bx, o.by);
	if (o.kind == 0) p.fillRectangle<M>(a, b, o.fill);
	if (o.kind == 1) p.fillRectangle<M>(a, b, o.border, o.fill);
	if (o.kind == 2) p.floodFill<M>(a, o.fill);
	if (o.kind == 3) p.drawLine<M>(a, b, o.fill);
}
static void call(PNG& p, const Op& o, bool plain) {
	mc::step();
	if (o.kind == 4) { p(o.ax, o.ay) = o.fill; return; }
	if (o.kind == 5) { p.clear(o.ax, o.ay, o.fill); return; }
	if (plain && o.mode == 0) { // the overloads without a blend mode
		Point a(o.ax, o.ay), b(o.bx, o.by);
		if (o.kind == 0) p.fillRectangle(a, b, o.fill);
		if (o.kind == 1) p.fillRectangle(a, b, o.border, o.fill);
		if (o.kind == 2) p.floodFill(a, o.fill);
		if (o.kind == 3) p.drawLine(a, b, o.fill);
		return;
	}
	switch (o.mode) { case 0: callM<ASSIGN>(p, o); break; case 1: callM<BLEND>(p, o); break; case 2: callM<ADD>(p, o); break; default: callM<SUBTRACT>(p, o); }
}
// pixels of the line, as painted on an empty image in counting mode; checked separately
static vector<std::pair<int, int>> linePixels(int w, int h, int ax, int ay, int bx, int by) {
	PNG p; p.clear(w, h); p.drawLine<ADD>({ax, ay}, {bx, by}, Color(1, 0, 0, 0));
	vector<std::pair<int, int>> r;
	for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (p(x, y).r) r.push_back({x, y});
	return r;
}
static void model(Grid& g, const Op& o) {
	int h = g.size(), w = h ? g[0].size() : 0;
	auto paint = [&](int x, int y, const Color& c) { g[y][x] = mix(o.mode, g[y][x], c); };
	int x0 = std::min(o.ax, o.bx), x1 = std::max(o.ax, o.bx), y0 = std::min(o.ay, o.by), y1 = std::max(o.ay, o.by);
	if (o.kind <= 1) for (int y = y0; y <= y1; y++) for (int x = x0; x <= x1; x++) paint(x, y, o.kind == 1 && (x == x0 || x == x1 || y == y0 || y == y1) ? o.border : o.fill);
	if (o.kind == 3) for (auto q : linePixels(w, h, o.ax, o.ay, o.bx, o.by)) paint(q.first, q.second, o.fill);
	if (o.kind == 4) g[o.ay][o.ax] = o.fill;
	if (o.kind == 5) g.assign(o.ay, vector<Color>(o.ax, o.fill));
	if (o.kind == 2) { // the connected region, found by closure
		vector<vector<char>> in(h, vector<char>(w)); in[o.ay][o.ax] = 1; Color old = g[o.ay][o.ax];
		for (bool ch = true; ch;) { ch = false; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (!in[y][x] && g[y][x] == old && ((x && in[y][x - 1]) || (x + 1 < w && in[y][x + 1]) || (y && in[y - 1][x]) || (y + 1 < h && in[y + 1][x]))) in[y][x] = 1, ch = true; }
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (in[y][x]) paint(x, y, o.fill);
	}
}
static string dump(const Grid& g) { string s; for (auto& r : g) { for (auto& c : r) s += cs(c) + " "; s += "/ "; } return s; }
static Grid read(const PNG& p) { Grid g(p.height(), vector<Color>(p.width())); for (int y = 0; y < p.height(); y++) for (int x = 0; x < p.width(); x++) g[y][x] = p(x, y); return g; }
static PNG make(const Grid& g) { PNG p; p.clear(g[0].size(), g.size()); for (size_t y = 0; y < g.size(); y++) for (size_t x = 0; x < g[0].size(); x++) p(x, y) = g[y][x]; return p; }
static bool same(const PNG& p, const Grid& g, const char* key, const string& what) {
	mc::trace();
	if ((size_t)p.height() != g.size() || (g.size() && (size_t)p.width() != g[0].size()) || read(p) != g) { mc::violation(key, what + ": image is " + dump(read(p)) + ", expected " + dump(g)); return false; }
	return true;
}
static const Color A0(10, 200, 30, 255), A1(40, 50, 60, 128), A2(255, 1, 128, 0), F(100, 90, 80, 100), B(7, 77, 177, 255);
static const Color PAL[] = {A0, A1, A2};
static void one(Grid g, const Op& o, const string& before) {
	PNG p = make(g); string w = name(o) + " on " + before; mc::current(KN[o.kind], w);
	call(p, o, (o.ax + o.by) % 2 == 0); model(g, o); same(p, g, KN[o.kind], w);
}
int main(int argc, char** argv) {
	mc::init(argc, argv); mc::hangCpu = 8;
	// rectangles: every size, every pair of corners, every mode
	int R = mc::thorough ? 6 : 5;
	mc::parallel(R * R, [&](u64 i) {
		int w = i / R + 1, h = i % R + 1; Grid g(h, vector<Color>(w)); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) g[y][x] = Color(20 * x, 30 * y, 5 * x * y, 40 * (x + y));
		mc::state(mc::comb(w, h));
		for (int ax = 0; ax < w; ax++) for (int ay = 0; ay < h; ay++) for (int bx = 0; bx < w; bx++) for (int by = 0; by < h; by++) for (int m = 0; m < 4; m++) for (int k = 0; k < 2; k++) one(g, {k, m, ax, ay, bx, by, B, F}, std::to_string(w) + "x" + std::to_string(h));
	});
	// lines: exactly one pixel per step along the longer axis, within half a pixel of the ideal line, each painted once
	int L = mc::thorough ? 40 : 26;
	mc::parallel(L * L, [&](u64 i) {
		int ax = i / L, ay = i % L;
		for (int bx = 0; bx < L; bx++) for (int by = 0; by < L; by++) {
			string w = "line (" + std::to_string(ax) + "," + std::to_string(ay) + ")-(" + std::to_string(bx) + "," + std::to_string(by) + ")"; mc::current("line", w); mc::step(); mc::trace();
			PNG p; p.clear(L, L); p.drawLine<ADD>({ax, ay}, {bx, by}, Color(1, 2, 3, 4));
			int dx = std::abs(bx - ax), dy = std::abs(by - ay), D = std::max(dx, dy), n = 0; bool ok = true; mc::state(mc::comb(mc::comb(dx, dy), 77));
			for (int y = 0; y < L; y++) for (int x = 0; x < L; x++) {
				Color c = p(x, y); if (c == Color(0, 0, 0, 0)) continue;
				n++; if (c != Color(1, 2, 3, 4)) ok = false; // painted twice or wrong colour
				if (x < std::min(ax, bx) || x > std::max(ax, bx) || y < std::min(ay, by) || y > std::max(ay, by)) ok = false;
				long cr = (long)(x - ax) * (by - ay) - (long)(y - ay) * (bx - ax); if (2 * std::labs(cr) > D) ok = false; // |distance along the shorter axis| <= 1/2
			}
			if (n != D + 1 || p(ax, ay).r != 1 || p(bx, by).r != 1) ok = false;
			if (!ok) mc::violation("line", w + ": wrong pixels");
		}
	});
	// far lines on one-row, one-column and long images
	mc::parallel(64, [&](u64 i) {
		int n = 3000 + i, o = i % 7; mc::current("line-long", std::to_string(n));
		for (int v = 0; v < 3; v++) {
			int W = v == 1 ? 1 + o : n, H = v == 0 ? 1 + o : v == 1 ? n : 12; PNG p; p.clear(W, H); p.drawLine<ADD>({0, H - 1}, {W - 1, 0}, Color(1, 1, 1, 1)); mc::step(); mc::trace();
			int cnt = 0, D = std::max(W, H) - 1; bool ok = true; for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) if (p(x, y).r) { cnt++; if (p(x, y).r != 1) ok = false; long cr = (long)x * -(H - 1) - (long)(y - (H - 1)) * (W - 1); if (2 * std::labs(cr) > D) ok = false; }
			if (!ok || cnt != D + 1) mc::violation("line-long", "line across " + std::to_string(W) + "x" + std::to_string(H) + " has wrong pixels");
		}
	});
	mc::parallel(36 * 16, [&](u64 i) { // modes of lines
		int w = i % 6 + 1, h = i / 6 % 6 + 1, m = i / 36 % 4, c = i / 144; Grid g(h, vector<Color>(w, PAL[c % 3])); if (c == 3) g[0][0] = A1;
		for (int ax = 0; ax < w; ax++) for (int ay = 0; ay < h; ay++) for (int bx = 0; bx < w; bx++) for (int by = 0; by < h; by++) one(g, {3, m, ax, ay, bx, by, B, F}, std::to_string(w) + "x" + std::to_string(h) + " colour " + std::to_string(c));
	});
	// flood fill: every image over two (three) colours, every start, fill colours incl. those of the image
	struct Sh { int w, h, k; }; vector<Sh> sh{{1, 1, 3}, {2, 1, 3}, {1, 2, 3}, {2, 2, 3}, {3, 1, 3}, {1, 4, 3}, {5, 1, 2}, {3, 2, 3}, {2, 3, 3}, {3, 3, 2}, {4, 3, 2}, {3, 4, 2}, {5, 2, 2}};
	if (mc::thorough) { sh.push_back({3, 3, 3}); sh.push_back({4, 4, 2}); sh.push_back({5, 3, 2}); sh.push_back({2, 7, 2}); }
	for (auto s : sh) {
		int n = s.w * s.h; u64 tot = mc::ipow(s.k, n), chunk = std::min<u64>(tot, 64);
		mc::parallel(chunk, [&](u64 c) { for (u64 i = c; i < tot; i += chunk) {
			auto d = mc::digits(i, s.k, n); Grid g(s.h, vector<Color>(s.w)); for (int j = 0; j < n; j++) g[j / s.w][j % s.w] = PAL[d[j]];
			string w = dump(g); mc::state(mc::hashStr(w));
			for (int y = 0; y < s.h; y++) for (int x = 0; x < s.w; x++) for (int m = 0; m < 4; m++) for (const Color& f : {A0, A1, F, Color(0, 0, 0, 0)}) { if (m && f == A0 && n > 9) continue; one(g, {2, m, x, y, 0, 0, B, f}, w); }
		} });
	}
	mc::parallel(8, [&](u64 i) { // large regions
		int w = i < 4 ? 300 : 1, h = i < 4 ? 250 : 5000; if (i % 4 == 1) std::swap(w, h); mc::current("flood-large", std::to_string(i)); PNG p; p.clear(w, h, A0);
		// comb walls leaving a winding path
		bool comb = i % 4 >= 2 && w > 3 && h > 3; if (comb) for (int x = 1; x < w; x += 2) for (int y = 0; y < h; y++) if (y != (x % 4 == 1 ? h - 1 : 0)) p(x, y) = A1;
		p.floodFill({0, 0}, F); mc::step(); mc::trace(); long bad = 0; for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) { Color want = comb && x % 2 == 1 && y != (x % 4 == 1 ? h - 1 : 0) ? A1 : F; if (p(x, y) != want) bad++; }
		if (bad) mc::violation("flood-large", std::to_string(bad) + " wrong pixels after filling a region of " + std::to_string(w) + "x" + std::to_string(h));
	});
	mc::parallel(8, [&](u64 i) { // long lines and long branching regions
		static const int WH[][2] = {{2, 70000}, {3, 33000}, {16383, 2}, {16383, 40}, {1, 100000}, {40, 40000}, {16383, 1}, {7, 66000}}; int W = WH[i][0], H = WH[i][1];
		for (int v = 0; v < 4; v++) {
			int ax = v & 1 ? W - 1 : 0, bx = W - 1 - ax, ay = v & 2 ? H - 1 : 0, by = H - 1 - ay; PNG p; p.clear(W, H); mc::current("line-long", std::to_string(W) + "x" + std::to_string(H)); p.drawLine<ADD>({ax, ay}, {bx, by}, Color(1, 1, 1, 1)); mc::step(); mc::trace();
			int cnt = 0, D = std::max(W, H) - 1; bool ok = true; for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) if (p(x, y).r) { cnt++; if (p(x, y).r != 1) ok = false; long cr = (long)(x - ax) * (by - ay) - (long)(y - ay) * (bx - ax); if (2 * std::labs(cr) > D) ok = false; }
			if (!ok || cnt != D + 1) mc::violation("line-long", "line across " + std::to_string(W) + "x" + std::to_string(H) + " has wrong pixels");
		}
		// a spine with a tooth at every second pixel on one side or the other; the fill starts at either end
		for (int v = 0; v < 4; v++) {
			int n = 16001, w = i < 4 ? n : 9, h = i < 4 ? 9 : n; PNG p; p.clear(w, h, A0); mc::current("flood-long", std::to_string(i) + " " + std::to_string(v)); auto at = [&](int s, int t) -> Color& { return i < 4 ? p(s, t) : p(t, s); };
			for (int s = 0; s < n; s++) for (int t = 0; t < 9; t++) if (t != 4 && (s % 2 || (t > 4) != ((i + s / 2) % 4 < 2))) at(s, t) = A1;
			vector<char> open(n * 9); for (int s = 0; s < n; s++) for (int t = 0; t < 9; t++) open[s * 9 + t] = at(s, t) == A0;
			int from = v == 0 ? 0 : v == 1 ? n - 1 : v == 2 ? n / 2 : 17; p.floodFill(i < 4 ? Point(from, 4) : Point(4, from), F); mc::step(); mc::trace(); long bad = 0; for (int s = 0; s < n; s++) for (int t = 0; t < 9; t++) bad += at(s, t) != (open[s * 9 + t] ? F : A1);
			if (bad) mc::violation("flood-long", std::to_string(bad) + " wrong pixels after filling a branching region of length " + std::to_string(n));
		}
	});
	// the colour argument may be a pixel of the image itself
	mc::parallel(4 * 4 * 9, [&](u64 i) {
		int m = i % 4, k = i / 4 % 4, px = i / 16 % 3, py = i / 48; Grid g(3, vector<Color>(3, A0)); g[py][px] = A1; g[1][2] = A1; PNG p = make(g); Color c = g[py][px];
		Op o{k, m, 0, 0, 2, 2, B, c}; string w = name(o) + " with the colour given as reference to pixel (" + std::to_string(px) + "," + std::to_string(py) + ")"; mc::current("alias", w); mc::state(mc::hashStr(w)); mc::step();
		auto go = [&](auto M) { constexpr BlendMode X = decltype(M)::value; Point a(0, 0), b(2, 2); Color& f = p(px, py); if (k == 0) p.fillRectangle<X>(a, b, f); if (k == 1) p.fillRectangle<X>(a, b, B, f); if (k == 2) p.floodFill<X>(a, f); if (k == 3) p.drawLine<X>(a, b, f); };
		if (m == 0) go(std::integral_constant<BlendMode, ASSIGN>()); if (m == 1) go(std::integral_constant<BlendMode, BLEND>()); if (m == 2) go(std::integral_constant<BlendMode, ADD>()); if (m == 3) go(std::integral_constant<BlendMode, SUBTRACT>());
		model(g, o); same(p, g, "alias", w);
	});
	// histories: all sequences of operations on a small image, with copies and moves in between
	vector<Op> ops;
	for (int m = 0; m < 4; m++) for (const Color& f : {F, A0}) { ops.push_back({0, m, 0, 0, 1, 1, B, f}); ops.push_back({1, m, 2, 2, 0, 0, B, f}); ops.push_back({2, m, 1, 1, 0, 0, B, f}); ops.push_back({3, m, 0, 2, 2, 1, B, f}); }
	ops.push_back({4, 0, 1, 1, 0, 0, B, A2}); ops.push_back({4, 0, 2, 0, 0, 0, B, A0}); ops.push_back({5, 0, 3, 3, 0, 0, B, A1}); ops.push_back({5, 0, 3, 4, 0, 0, B, A0}); ops.push_back({5, 0, 4, 3, 0, 0, B, TRANSPARENT});
	int N = ops.size() + 4, D = mc::thorough ? 4 : 3;
	mc::parallel(mc::ipow(N, D) / (D == 4 ? N : 1), [&](u64 i) { for (int last = 0; last < (D == 4 ? N : 1); last++) {
		auto d = mc::digits(D == 4 ? i * N + last : i, N, D); Grid g(3, vector<Color>(3, A0)), keepG = g; PNG p; p.clear(3, 3, A0); PNG keep = p; string h;
		for (int x : d) {
			if (x < (int)ops.size()) { h += name(ops[x]) + "; "; mc::current("history", h); call(p, ops[x], true); model(g, ops[x]); }
			else if (x == (int)ops.size()) { h += "keep=p; "; keep = p; keepG = g; }
			else if (x == (int)ops.size() + 1) { h += "p=keep; "; p = keep; g = keepG; }
			else if (x == (int)ops.size() + 2) { h += "q=move(p),p=move(q); "; PNG q = std::move(p); p = std::move(q); }
			else { h += "swap(p,keep); "; std::swap(p, keep); std::swap(g, keepG); }
			mc::state(mc::hashStr(dump(g), mc::hashStr(dump(keepG))));
			if (!same(p, g, "history", h) || !same(keep, keepG, "history-copy", h)) break;
		}
	} });
	return mc::finish();
}
