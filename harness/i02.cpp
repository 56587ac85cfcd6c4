// I02: written PNG files against an independent decoder; file life cycle against a model
#include <bits/stdc++.h>
#include "mc.h"
#include "visualizer_png.h"
#include "proc.h"
using mc::u64; using std::string; using std::vector;
namespace dec { // PNG (RFC 2083) and inflate (RFC 1951) decoder for 8-bit RGBA, not interlaced
typedef unsigned char u8;
struct Bad { string why; };
[[noreturn]] static void bad(const string& s) { throw Bad{s}; }
struct Bits {
	const u8* p; size_t n, pos = 0; unsigned bit = 0;
	unsigned get(int k) { unsigned r = 0; for (int i = 0; i < k; i++) { if (pos >= n) bad("compressed data ends early"); r |= unsigned(p[pos] >> bit & 1) << i; if (++bit == 8) bit = 0, pos++; } return r; }
};
struct Huff {
	int count[16] = {}; vector<int> sym;
	Huff(const vector<int>& len) { for (int l : len) count[l]++; count[0] = 0; int off[17] = {}; for (int i = 1; i < 16; i++) off[i + 1] = off[i] + count[i]; sym.resize(len.size()); for (size_t s = 0; s < len.size(); s++) if (len[s]) sym[off[len[s]]++] = s; }
	int read(Bits& b) const { int code = 0, first = 0, idx = 0; for (int l = 1; l < 16; l++) { code |= b.get(1); if (code - count[l] < first) return sym[idx + code - first]; idx += count[l]; first = (first + count[l]) << 1; code <<= 1; } bad("invalid code"); }
};
static vector<u8> inflate(const u8* p, size_t n, size_t& used) {
	static const int LB[] = {3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258}, LE[] = {0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0};
	static const int DB[] = {1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577}, DE[] = {0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13};
	Bits b{p, n}; vector<u8> o;
	for (bool last = false; !last;) {
		last = b.get(1); unsigned type = b.get(2);
		if (type == 3) bad("invalid block type");
		if (type == 0) {
			if (b.bit) { b.bit = 0; b.pos++; }
			unsigned len = b.get(16), nlen = b.get(16); if ((len ^ nlen) != 0xffff) bad("stored block length and its complement differ");
			if (b.pos + len > n) bad("stored block exceeds the data");
			o.insert(o.end(), p + b.pos, p + b.pos + len); b.pos += len; continue;
		}
		vector<int> ll(288), dd(30, 5);
		if (type == 1) for (int i = 0; i < 288; i++) ll[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8;
		else {
			static const int ord[] = {16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15}; int nl = b.get(5) + 257, nd = b.get(5) + 1, nc = b.get(4) + 4; vector<int> cl(19); for (int i = 0; i < nc; i++) cl[ord[i]] = b.get(3);
			Huff h(cl); vector<int> a; while ((int)a.size() < nl + nd) { int s = h.read(b); if (s < 16) a.push_back(s); else { int r = s == 16 ? 3 + b.get(2) : s == 17 ? 3 + b.get(3) : 11 + b.get(7), v = s == 16 ? (a.empty() ? (bad("repeat without value"), 0) : a.back()) : 0; while (r--) a.push_back(v); } }
			ll.assign(a.begin(), a.begin() + nl); dd.assign(a.begin() + nl, a.begin() + nl + nd);
		}
		Huff hl(ll), hd(dd);
		for (;;) { int s = hl.read(b); if (s == 256) break; if (s < 256) { o.push_back(s); continue; } s -= 257; if (s > 28) bad("invalid length"); int len = LB[s] + b.get(LE[s]), d = hd.read(b); if (d > 29) bad("invalid distance"); size_t dist = DB[d] + b.get(DE[d]); if (dist > o.size()) bad("distance too far"); while (len--) o.push_back(o[o.size() - dist]); }
	}
	if (b.bit) b.pos++;
	used = b.pos; return o;
}
static const std::array<unsigned, 256>& crcTab() { static const auto t = [] { std::array<unsigned, 256> t{}; for (unsigned i = 0; i < 256; i++) { unsigned c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; t[i] = c; } return t; }(); return t; }
static unsigned crc(const u8* p, size_t n) { unsigned c = ~0u; for (size_t i = 0; i < n; i++) c = crcTab()[(c ^ p[i]) & 255] ^ (c >> 8); return ~c; }
// pixels of the file, top row first
static vector<vector<Color>> png(const string& f) {
	const u8* p = (const u8*)f.data(); size_t n = f.size(), at = 8; auto u32 = [&](size_t i) { if (i + 4 > n) bad("file ends early"); return unsigned(p[i]) << 24 | p[i + 1] << 16 | p[i + 2] << 8 | p[i + 3]; };
	if (n < 8 || memcmp(p, "\x89PNG\r\n\x1a\n", 8)) bad("wrong signature");
	unsigned w = 0, h = 0; vector<u8> z; bool hdr = false, end = false, data = false, dataEnd = false;
	while (!end) {
		unsigned len = u32(at); string type = f.substr(at + 4, 4); if (at + 12ull + len > n) bad("chunk " + type + " exceeds the file");
		if (u32(at + 8 + len) != crc(p + at + 4, len + 4)) bad("wrong checksum of chunk " + type);
		const u8* d = p + at + 8;
		if (!hdr && type != "IHDR") bad("first chunk is not IHDR");
		if (data && type != "IDAT") dataEnd = true;
		if (type == "IHDR") { if (hdr || len != 13) bad("bad IHDR"); hdr = true; w = u32(at + 8); h = u32(at + 12); if (d[8] != 8 || d[9] != 6 || d[10] || d[11] || d[12]) bad("unexpected format in IHDR"); if (!w || !h || w >> 31 || h >> 31) bad("bad size"); }
		else if (type == "IDAT") { if (dataEnd) bad("IDAT chunks not consecutive"); data = true; z.insert(z.end(), d, d + len); }
		else if (type == "IEND") { if (len) bad("IEND not empty"); end = true; }
		else if (!(type[0] & 32)) bad("unknown critical chunk " + type);
		at += 12 + len;
	}
	if (at != n) bad("data after IEND");
	if (!data) bad("no IDAT");
	if (z.size() < 6 || (z[0] & 15) != 8 || z[0] >> 4 > 7 || (z[0] * 256 + z[1]) % 31 || z[1] & 32) bad("bad zlib header");
	size_t used; vector<u8> raw = inflate(z.data() + 2, z.size() - 2, used);
	unsigned a = 1, b = 0; for (u8 x : raw) { a = (a + x) % 65521; b = (b + a) % 65521; }
	if (z.size() != used + 6) bad("trailing data in the zlib stream");
	const u8* ad = z.data() + 2 + used; if ((unsigned(ad[0]) << 24 | ad[1] << 16 | ad[2] << 8 | ad[3]) != (b << 16 | a)) bad("wrong adler checksum");
	if (raw.size() != h * (4ull * w + 1)) bad("wrong amount of pixel data");
	vector<vector<Color>> r(h, vector<Color>(w)); vector<u8> prev(4 * w), cur(4 * w);
	for (unsigned y = 0; y < h; y++) {
		const u8* s = &raw[y * (4ull * w + 1)]; if (s[0] > 4) bad("bad filter");
		for (unsigned i = 0; i < 4 * w; i++) { int l = i >= 4 ? cur[i - 4] : 0, u = prev[i], c = i >= 4 ? prev[i - 4] : 0, pr = 0; if (s[0] == 1) pr = l; if (s[0] == 2) pr = u; if (s[0] == 3) pr = (l + u) / 2; if (s[0] == 4) { int q = l + u - c, pa = abs(q - l), pb = abs(q - u), pc = abs(q - c); pr = pa <= pb && pa <= pc ? l : pb <= pc ? u : c; } cur[i] = s[1 + i] + pr; }
		for (unsigned x = 0; x < w; x++) r[y][x] = Color(cur[4 * x], cur[4 * x + 1], cur[4 * x + 2], cur[4 * x + 3]);
		prev = cur;
	}
	return r;
}
}
typedef vector<vector<Color>> Grid; // [y][x] with y upwards (the header default)
static string path(const string& s) { proc::setup(); return proc::dir + "/" + s; }
static void drop(const string& s) { unlink((proc::dir + "/" + s).c_str()); }
// "" or what is wrong with the file compared with the grid
static string compare(const string& file, const Grid& g) {
	string f = proc::get(file); if (f == "<none>") return "no file";
	try {
		auto r = dec::png(f); std::reverse(r.begin(), r.end());
		if (r.size() != g.size() || r[0].size() != g[0].size()) return "decoded size " + std::to_string(r[0].size()) + "x" + std::to_string(r.size());
		for (size_t y = 0; y < g.size(); y++) for (size_t x = 0; x < g[0].size(); x++) if (r[y][x] != g[y][x]) { char b[120]; snprintf(b, sizeof b, "pixel (%zu,%zu) is %02x%02x%02x%02x, expected %02x%02x%02x%02x", x, y, r[y][x].r, r[y][x].g, r[y][x].b, r[y][x].a, g[y][x].r, g[y][x].g, g[y][x].b, g[y][x].a); return b; }
		return "";
	} catch (dec::Bad& b) { return b.why; }
}
static void fill(PNG& p, const Grid& g) { p.clear(g[0].size(), g.size()); for (size_t y = 0; y < g.size(); y++) for (size_t x = 0; x < g[0].size(); x++) p(x, y) = g[y][x]; }
static void check(const Grid& g, const char* key, const string& what) {
	mc::current(key, what); mc::step(); string f = path("a.png"); drop("a.png");
	{ PNG p(f); fill(p, g); }
	mc::trace(); string e = compare("a.png", g); if (!e.empty()) mc::violation(key, what + ": " + e);
}
static Grid pattern(int w, int h, int kind) {
	Grid g(h, vector<Color>(w));
	for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { u64 k = mc::mix(x * 100003ull + y * 7 + kind); g[y][x] = kind == 0 ? Color(x * 16 + y, y * 16 + x, x ^ y, 255 - x - y) : kind == 1 ? Color(255, 255, 255, 255) : kind == 2 ? Color(0, 0, 0, 0) : Color(k, k >> 8, k >> 16, k >> 24); }
	return g;
}
static string sz(int w, int h) { return std::to_string(w) + "x" + std::to_string(h); }
int main(int argc, char** argv) {
	mc::init(argc, argv); mc::hangCpu = 20;
	int S = mc::thorough ? 40 : 20;
	mc::parallel(S * S, [&](u64 i) { int w = i / S + 1, h = i % S + 1; mc::state(mc::comb(w, h)); for (int k = 0; k < 4; k++) check(pattern(w, h, k), "size", sz(w, h) + " pattern " + std::to_string(k)); });
	mc::parallel(1024, [&](u64 i) { Color c(9, 8, 7, 6); c[i / 256] = i % 256; mc::state(mc::comb(i, 5)); check(Grid(1, {c}), "value", "one pixel with byte " + std::to_string(i % 256) + " in channel " + std::to_string(i / 256)); check(Grid(2, {c, Color(c.a, c.b, c.g, c.r)}), "value", "four pixels with byte " + std::to_string(i)); });
	for (auto s : vector<std::array<int, 2>>{{3, 3}, {1, 9}, {9, 1}, {2, 4}, {4, 2}, {2, 5}, {5, 2}, {4, 3}, {3, 4}}) {
		if (s[0] * s[1] > 9 && !mc::thorough) continue;
		u64 n = 1ull << (s[0] * s[1]); mc::parallel(64, [&](u64 c) { for (u64 i = c; i < n; i += 64) { Grid g(s[1], vector<Color>(s[0])); for (int j = 0; j < s[0] * s[1]; j++) g[j / s[0]][j % s[0]] = i >> j & 1 ? RED : TRANSPARENT; mc::state(mc::comb(mc::comb(s[0], s[1]), i + 99)); check(g, "two-colour", sz(s[0], s[1]) + " mask " + std::to_string(i)); } });
	}
	// wide and high images: row length up to the limit of a stored block, total data beyond 2^16 and 2^20, checksum wrap-around
	vector<std::array<int, 3>> big; for (int w : {1, 2, 255, 256, 257, 4095, 4096, 4097, 8191, 8192, 16382, 16383}) for (int h : {1, 2, 3, 17}) for (int k : {1, 3}) big.push_back({w, h, k});
	for (int h : {255, 256, 257, 4096, 13106, 13107, 13108, 16383, 16384, 65535, 65536, 70000}) for (int w : {1, 2}) for (int k : {1, 3}) big.push_back({w, h, k});
	for (int w = 16300; w <= 16383; w += mc::thorough ? 1 : 7) big.push_back({w, 1, 3});
	if (mc::thorough) { big.push_back({2000, 2000, 3}); big.push_back({16383, 300, 1}); big.push_back({3000, 1000, 1}); } else big.push_back({700, 600, 3});
	mc::parallel(big.size(), [&](u64 i) { auto b = big[i]; mc::state(mc::comb(b[0], mc::comb(b[1], b[2] + 5))); check(pattern(b[0], b[1], b[2]), "large", sz(b[0], b[1]) + " pattern " + std::to_string(b[2])); });
	// life cycle: when is which image written to which file
	const int N = 13; int D = mc::thorough ? 6 : 5;
	mc::parallel(mc::ipow(N, 2), [&](u64 hd) { for (u64 tl = 0; tl < mc::ipow(N, D - 2); tl++) {
		auto d = mc::digits(hd * mc::ipow(N, D - 2) + tl, N, D);
		struct M { bool live = false, named = false; int file = -1; Grid g; }; std::map<int, Grid> disk; // file number -> content
		for (int k = 0; k < 3; k++) drop("f" + std::to_string(k) + ".png");
		auto name = [&](int k) { return path("f" + std::to_string(k) + ".png"); };
		string h; int c = 0; M m[2]; mc::current("lifecycle", "");
		{
			std::optional<PNG> p[2]; auto wr = [&](int i) { if (m[i].file >= 0 && !m[i].g.empty()) disk[m[i].file] = m[i].g; };
			auto kill = [&](int i) { if (!m[i].live) return; wr(i); p[i].reset(); m[i] = M(); };
			static const char* ON[] = {"p0=PNG(f0)", "p0=PNG()", "p1=PNG(f1)", "draw p0", "draw p1", "p0.write", "p1.write", "destroy p0", "destroy p1", "p1 copied from p0", "p0=p1", "p0=move(p1)", "clear p0"};
			for (int o : d) {
				h += ON[o]; h += "; "; mc::current("lifecycle", h); mc::step(); c++;
				auto draw = [&](int i) { if (!m[i].live) return; Grid g(1 + c % 2, vector<Color>(1 + c % 3, Color(c * 20, 1, 2, 3))); fill(*p[i], g); m[i].g = g; };
				switch (o) {
					case 0: kill(0); p[0].emplace(name(0)); m[0].live = true; m[0].file = 0; break;
					case 1: kill(0); p[0].emplace(); m[0].live = true; break;
					case 2: kill(1); p[1].emplace(name(1)); m[1].live = true; m[1].file = 1; break;
					case 3: draw(0); break; case 4: draw(1); break;
					case 5: if (m[0].live) p[0]->write(), wr(0); break;
					case 6: if (m[1].live) p[1]->write(), wr(1); break;
					case 7: kill(0); break; case 8: kill(1); break;
					case 9: if (m[0].live) { kill(1); p[1].emplace(*p[0]); m[1] = m[0]; } break;
					case 10: if (m[0].live && m[1].live) { *p[0] = *p[1]; m[0] = m[1]; } break;
					case 11: if (m[0].live && m[1].live) { *p[0] = std::move(*p[1]); m[0] = m[1]; p[1].reset(); m[1] = M(); } break;
					case 12: if (m[0].live) { p[0]->clear(2, 1, GREEN); m[0].g = Grid(1, vector<Color>(2, GREEN)); } break;
				}
			}
			kill(0); kill(1);
		}
		mc::trace(); mc::state(mc::hashStr(h));
		for (int k = 0; k < 3; k++) { string f = "f" + std::to_string(k) + ".png", e; if (disk.count(k)) e = compare(f, disk[k]); else if (proc::get(f) != "<none>") e = "file written although nothing was drawn for it"; if (!e.empty()) { mc::violation("lifecycle", h + ": file " + std::to_string(k) + ": " + e); break; } }
	} });
	// the program frame: Visualizer::init NAME reads NAME.in and NAME.ans, draws, and leaves NAME.png
	mc::parallel(2 * 2 * 3 * 4, [&](u64 i) {
		proc::setup(); string nm = i % 2 ? "case.1" : "t"; bool ans = i / 2 % 2; int extra = i / 4 % 3, draw = i / 12; string h = "name " + nm + " ans " + std::to_string(ans) + " extra args " + std::to_string(extra) + " drawing " + std::to_string(draw); mc::current("program", h); mc::state(mc::hashStr(h)); mc::step();
		for (string s : {".in", ".ans", ".png"}) drop(nm + s);
		proc::put(nm + ".in", "3 2\n"); if (ans) proc::put(nm + ".ans", "7\n");
		int rc = proc::run("", [&] {
			vector<string> a{"vis", proc::dir + "/" + nm}; for (int k = 0; k < extra; k++) a.push_back("--x"); proc::Args A(a); Visualizer::init(A.argc(), A.argv());
			Integer w = 0, hh = 0, x = 0; Visualizer::testIn >> w >> hh; bool got = bool(Visualizer::testAns >> x);
			if (w != 3 || hh != 2) std::exit(3); if (got != ans || (ans && x != 7)) std::exit(4);
			if (draw) { Visualizer::image.clear(w, hh, WHITE); if (draw > 1) Visualizer::image.drawLine({0, 0}, {2, 0}, BLACK); if (draw > 2) { Visualizer::image.write(); Visualizer::image(1, 1) = RED; } }
		});
		Grid g(2, vector<Color>(3, WHITE)); if (draw > 1) g[0].assign(3, BLACK); if (draw > 2) g[1][1] = RED;
		string e = rc ? "exit " + std::to_string(rc) : draw ? compare(nm + ".png", g) : proc::get(nm + ".png") == "<none>" ? "" : "file written for an empty image"; mc::trace();
		if (!e.empty()) mc::violation("program", h + ": " + e);
	});
	return mc::finish();
}
