// E01: Xoshiro256ss against the published recurrence; jump against the exact power of the step matrix
#include "mc.h"
#include "rng.h"
#include <random>
#include <type_traits>
using mc::u64;
using std::string;
typedef std::array<std::uint64_t, 4> St;
namespace ref {
inline u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
inline u64 next(St& s) { // published algorithm
	u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
	s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
	return r;
}
typedef std::vector<St> Mat; // image of every basis state
inline St mapply(const Mat& m, const St& v) {
	St r{0, 0, 0, 0};
	for (int b = 0; b < 256; b++) if (v[b / 64] >> (b % 64) & 1) for (int k = 0; k < 4; k++) r[k] ^= m[b][k];
	return r;
}
inline Mat stepMatrix() { Mat m(256); for (int b = 0; b < 256; b++) { St s{0, 0, 0, 0}; s[b / 64] = 1ull << (b % 64); next(s); m[b] = s; } return m; }
inline Mat jumpMatrix() { Mat m = stepMatrix(); for (int i = 0; i < 128; i++) { Mat n(256); for (int b = 0; b < 256; b++) n[b] = mapply(m, m[b]); m = n; } return m; }
}
static ref::Mat J;
struct Model {
	St s;
	explicit Model(const St& a) : s(a) {}
	explicit Model(u64 seed) : s{0x3243F6A8885A308Dull, 0x313198A2E0370734ull, 0x4A4093822299F31Dull, 0x0082EFA98EC4E6C8ull} { for (auto& x : s) x ^= seed; jump(); }
	u64 operator()() { return ref::next(s); }
	void jump() { s = ref::mapply(J, s); }
};
static string hex(const St& s) { string r; char b[32]; for (u64 x : s) { snprintf(b, sizeof b, "%016llx.", x); r += b; } return r; }
// the next n outputs identify the 256-bit state (n >= 8)
template<class E> static bool agree(E g, Model m, int n, const string& key, const string& what) {
	for (int i = 0; i < n; i++) {
		u64 a = g(), b = m(); mc::step();
		if (a != b) { char t[200]; snprintf(t, sizeof t, " draw %d gives %016llx, expected %016llx", i, a, b); mc::violation(key, what + t); return false; }
	}
	mc::trace(); mc::nontrivial();
	return true;
}
static void one(const St& s) {
	string w = "state " + hex(s); mc::current("state", w); mc::state(mc::hashBytes(s.data(), 32));
	Xoshiro256ss g(s); Model m(s);
	agree(g, m, 12, "recurrence", w);
	g.jump(); m.jump();
	agree(g, m, 12, "jump", w + " after jump():");
	g(); m(); g.jump(); m.jump();
	agree(g, m, 8, "jump:again", w + " after jump, draw, jump:");
}
static void seeded(u64 x, int n) { mc::current("seed", std::to_string(x)); mc::state(mc::comb(x, 77)); agree(Xoshiro256ss(std::uint64_t(x)), Model(x), n, "seed", "seed " + std::to_string(x)); }
int main(int argc, char** argv) {
	mc::init(argc, argv);
	J = ref::jumpMatrix();
	static_assert(std::is_same<Xoshiro256ss::result_type, std::uint64_t>::value, "");
	static_assert(Xoshiro256ss::min() == 0 && Xoshiro256ss::max() == ~std::uint64_t(0), "");
	// all basis states, all sums of two (thorough: three), all complements of one and two
	mc::parallel(256, [&](u64 i) {
		auto bit = [](St& s, u64 b) { s[b / 64] ^= 1ull << (b % 64); };
		for (u64 j = i; j < 256; j++) {
			St s{0, 0, 0, 0}; bit(s, i); if (j != i) bit(s, j);
			one(s); for (auto& x : s) x = ~x; one(s);
			if (mc::thorough) for (u64 k = j + 1; k < 256; k++) { St t{0, 0, 0, 0}; bit(t, i); bit(t, j); bit(t, k); one(t); }
		}
	});
	// every combination of boundary words
	u64 W[] = {0, 1, 2, 1ull << 63, ~0ull, 0x7fffffffffffffffull, 0xffffffffull, 0xffffffff00000000ull, 0x5555555555555555ull, 1ull << 46, 1ull << 47};
	const int NW = 11;
	mc::parallel(NW * NW, [&](u64 i) { for (u64 j = 0; j < NW * NW; j++) one({W[i / NW], W[i % NW], W[j / NW], W[j % NW]}); });
	// seeds
	u64 S = mc::thorough ? 1 << 20 : 1 << 16;
	mc::parallel(256, [&](u64 i) { for (u64 x = i; x < S; x += 256) { seeded(x, 8); seeded(~x, 8); seeded(x << 40, 8); } });
	mc::parallel(64, [&](u64 i) { for (u64 j = i; j < 64; j++) { u64 x = (1ull << i) | (1ull << j); seeded(x, 40); seeded(~x, 40); } });
	// operation histories: d = draw, j = jump, c = copy (both continue, the copy takes over), a = copy assignment
	int D = mc::thorough ? 8 : 6;
	u64 seeds[] = {0, 1, 123456789, ~0ull};
	mc::parallel(4 * mc::ipow(4, D), [&](u64 i) {
		auto ops = mc::digits(i / 4, 4, D); u64 sd = seeds[i % 4];
		std::vector<std::pair<Xoshiro256ss, Model>> all{{Xoshiro256ss(std::uint64_t(sd)), Model(sd)}};
		string h = "seed " + std::to_string(sd) + " ops ";
		Xoshiro256ss other(std::uint64_t(99));
		for (int o : ops) {
			h += "djca"[o]; mc::current("history", h); mc::state(mc::hashStr(h));
			if (o == 0) { u64 a = all.back().first(), b = all.back().second(); mc::step(); if (a != b) { mc::violation("history", h + ": wrong draw"); return; } }
			if (o == 1) all.back().first.jump(), all.back().second.jump();
			if (o == 2) { auto c = all.back(); all.push_back(c); }
			if (o == 3) { other = all.back().first; all.emplace_back(other, all.back().second); all.back().first(); all.back().second(); }
		}
		for (auto& p : all) if (!agree(p.first, p.second, 8, "history", h)) return;
	});
	// long streams
	mc::parallel(16, [&](u64 i) { agree(Xoshiro256ss(std::uint64_t(i)), Model(i), mc::thorough ? 20000000 : 2000000, "stream", "seed " + std::to_string(i)); });
	// drop-in engine for the standard library
	mc::parallel(64, [&](u64 i) { Xoshiro256ss g(std::uint64_t(i * 7)); Model m(i * 7); std::uniform_int_distribution<std::uint64_t> d; for (int k = 0; k < 100; k++) if (d(g) != m()) { mc::violation("urbg", "uniform_int_distribution over the full range does not return the draws"); return; } mc::trace(); });
	mc::sample("basis state 0: jump() vs. step matrix ^ (2^128)"); mc::sample("seed 123456789 ops djcadj");
	return mc::finish();
}
