// E02: AES against an independent AES-256 (computed S-box, FIPS-197 structure) and AES_RNG against counter mode
#include "mc.h"
#include "secure_rng.h"
#include <random>
using mc::u64;
using std::string;
namespace ref { // written from FIPS-197, nothing tabulated
typedef std::array<unsigned char, 16> Bl;
inline unsigned xt(unsigned a) { return ((a << 1) ^ (a & 128 ? 0x11b : 0)) & 255; }
inline unsigned mul(unsigned a, unsigned b) { unsigned r = 0; for (; b; b >>= 1, a = xt(a)) if (b & 1) r ^= a; return r; }
struct Box { unsigned char s[256]; Box() { for (int x = 0; x < 256; x++) { unsigned inv = 0; for (int y = 1; y < 256 && x; y++) if (mul(x, y) == 1) inv = y; unsigned r = 0x63; for (int k = 0; k < 5; k++) r ^= ((inv << k) | (inv >> (8 - k))) & 255; s[x] = r; } } };
static const Box box;
struct Aes {
	unsigned char w[60][4];
	template<class K> explicit Aes(const K& key) {
		for (int i = 0; i < 32; i++) w[i / 4][i % 4] = key[i];
		unsigned rc = 1;
		for (int i = 8; i < 60; i++) {
			unsigned char t[4]; for (int k = 0; k < 4; k++) t[k] = w[i - 1][k];
			if (i % 8 == 0) { unsigned char f = t[0]; t[0] = box.s[t[1]] ^ rc; t[1] = box.s[t[2]]; t[2] = box.s[t[3]]; t[3] = box.s[f]; rc = xt(rc); }
			else if (i % 8 == 4) for (auto& x : t) x = box.s[x];
			for (int k = 0; k < 4; k++) w[i][k] = w[i - 8][k] ^ t[k];
		}
	}
	template<class B> B operator()(const B& in) const {
		unsigned char c[4][4]; // c[column][row]
		for (int i = 0; i < 16; i++) c[i / 4][i % 4] = in[i] ^ w[i / 4][i % 4];
		for (int r = 1; r <= 14; r++) {
			unsigned char d[4][4];
			for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) d[j][i] = box.s[c[(j + i) % 4][i]];
			for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) {
				unsigned x = r == 14 ? d[j][i] : xt(d[j][i]) ^ xt(d[j][(i + 1) % 4]) ^ d[j][(i + 1) % 4] ^ d[j][(i + 2) % 4] ^ d[j][(i + 3) % 4];
				c[j][i] = x ^ w[4 * r + j][i];
			}
		}
		B out{}; for (int i = 0; i < 16; i++) out[i] = c[i / 4][i % 4]; return out;
	}
};
}
template<class A> static string hex(const A& a) { string r; char b[4]; for (unsigned x : a) { snprintf(b, sizeof b, "%02x", x); r += b; } return r; }
template<class A> static A unhex(const char* s) { A a{}; for (size_t i = 0; i < a.size(); i++) { unsigned x; sscanf(s + 2 * i, "%2x", &x); a[i] = x; } return a; }
typedef AES::Key Key; typedef AES::Block Block;
static void enc(const Key& k, const Block& b) {
	mc::step(); mc::state(mc::hashBytes(k.data(), 32, mc::hashBytes(b.data(), 16)));
	Block g = AES(k)(b), w = ref::Aes(k)(b); mc::trace();
	if (g != w) mc::violation("cipher", "key " + hex(k) + " block " + hex(b) + " -> " + hex(g) + ", expected " + hex(w));
}
struct Model { // counter: little-endian 128-bit number, advanced before each block; output: xor of the two halves
	ref::Aes a; Block iv;
	Model(const Key& k, const Block& i) : a(k), iv(i) {}
	explicit Model(u64 seed) : a(unhex<Key>("3243f6a8885a308d313198a2e03707344a4093822299f31d0082efa98ec4e6c8")), iv(unhex<Block>("9452821e638d01377be5466cf34e90c6")) { for (int i = 0; i < 8; i++) iv[i] ^= seed >> (8 * i) & 255; }
	u64 operator()() {
		u64 lo = 0, hi = 0; for (int i = 7; i >= 0; i--) lo = lo << 8 | iv[i], hi = hi << 8 | iv[8 + i];
		if (++lo == 0) hi++;
		for (int i = 0; i < 8; i++) iv[i] = lo >> (8 * i), iv[8 + i] = hi >> (8 * i);
		Block o = a(iv); u64 r = 0; for (int i = 0; i < 16; i++) r ^= u64(o[i]) << (8 * (i % 8));
		return r;
	}
};
static bool agree(AES_RNG g, Model m, int n, const string& key, const string& what) {
	for (int i = 0; i < n; i++) { u64 a = g(), b = m(); mc::step(); if (a != b) { char t[100]; snprintf(t, sizeof t, ": draw %d is %016llx, expected %016llx", i, a, b); mc::violation(key, what + t); return false; } }
	mc::trace(); mc::nontrivial(); return true;
}
// usable at compile time, as documented
constexpr AES::Block CE = AES(AES::Key{1, 2, 3})(AES::Block{4, 5, 6});
int main(int argc, char** argv) {
	mc::init(argc, argv);
	static_assert(std::is_same<AES_RNG::result_type, std::uint64_t>::value && AES_RNG::min() == 0 && AES_RNG::max() == ~std::uint64_t(0), "");
	// published vectors (FIPS-197 C.3, SP 800-38A F.1.5) bind both implementations to the standard
	const char* vec[][3] = {{"000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f", "00112233445566778899aabbccddeeff", "8ea2b7ca516745bfeafc49904b496089"},
		{"603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4", "6bc1bee22e409f96e93d7e117393172a", "f3eed1bdb5d2a03c064b5a7e3db181f8"},
		{"603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4", "ae2d8a571e03ac9c9eb76fac45af8e51", "591ccb10d410ed26dc5ba74a31362870"},
		{"603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4", "30c81c46a35ce411e5fbc1191a0a52ef", "b6ed21b99ca6f4f9f153e7b1beafed1d"},
		{"603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4", "f69f2445df4f9b17ad2b417be66c3710", "23304b7a39f9f3ff067d8d8f9e24ecc7"}};
	mc::parallel(5, [&](u64 i) {
		Key k = unhex<Key>(vec[i][0]); Block b = unhex<Block>(vec[i][1]), w = unhex<Block>(vec[i][2]);
		if (ref::Aes(k)(b) != w) { fprintf(stderr, "reference wrong\n"); abort(); }
		if (AES(k)(b) != w) mc::violation("vector", "published vector " + std::to_string(i) + " gives " + hex(AES(k)(b)));
		enc(k, b); mc::sample(string("key ") + vec[i][0] + " block " + vec[i][1]);
	});
	if (CE != ref::Aes(Key{1, 2, 3})(Block{4, 5, 6})) mc::violation("constexpr", "compile-time encryption differs");
	// every byte value in every position of key and block, on two backgrounds; all pairs of single bits
	mc::parallel(256, [&](u64 v) {
		for (int bg = 0; bg < 3; bg++) {
			Key k; Block b; for (int i = 0; i < 32; i++) k[i] = bg == 0 ? 0 : bg == 1 ? 255 : i * 37 + 11; for (int i = 0; i < 16; i++) b[i] = bg == 0 ? 0 : bg == 1 ? 255 : i * 91 + 5;
			for (int i = 0; i < 32; i++) { Key c = k; c[i] = v; enc(c, b); }
			for (int i = 0; i < 16; i++) { Block c = b; c[i] = v; enc(k, c); }
			Key c; c.fill(v); for (int w = 0; w < 256; w++) { Block d; d.fill(w); enc(c, d); }
		}
		Key k{}; k[v / 8] = 1 << (v % 8); for (int j = 0; j < 256; j++) { Key c = k; c[j / 8] ^= 1 << (j % 8); enc(c, Block{}); }
		for (int j = 0; j < 128; j++) { Block b{}; b[j / 8] = 1 << (j % 8); enc(k, b); if (v < 128) { b[v / 8] ^= 1 << (v % 8); enc(Key{}, b); } }
	});
	// chained encryption: every output fed back as key half and block
	mc::parallel(64, [&](u64 i) { Key k{}; Block b{}; k[0] = i; for (int n = 0; n < (mc::thorough ? 20000 : 1500); n++) { enc(k, b); Block o = ref::Aes(k)(b); for (int x = 0; x < 16; x++) k[(n % 2) * 16 + x] ^= o[x]; b = o; } });
	// counter carries: every run length of 0xff bytes (all 16 carry chains and the wrap), every byte before/after the carry
	mc::parallel(17, [&](u64 c) {
		for (int nxt : {0, 1, 0x7f, 0x80, 0xfe, 0xff}) for (int top : {0, 1, 0x80, 0xff}) for (int low = 0xf8; low <= 0xff; low++) for (int kk : {0, 1}) {
			Block iv; iv.fill(top); for (u64 i = 0; i < c; i++) iv[i] = 255; if (c) iv[0] = low; if (c < 16) iv[c] = nxt;
			Key k{}; k[3] = kk; string w = "key[3]=" + std::to_string(kk) + " iv " + hex(iv); mc::current("carry", w); mc::state(mc::hashStr(w));
			agree(AES_RNG(k, iv), Model(k, iv), 20, "carry", w);
		}
	});
	mc::parallel(256, [&](u64 v) { for (int p = 0; p < 16; p++) for (int bg : {0, 255}) { Block iv; iv.fill(bg); iv[p] = v; Key k{}; k[31] = 9; string w = "iv " + hex(iv); mc::state(mc::hashStr(w)); agree(AES_RNG(k, iv), Model(k, iv), 6, "counter", w); } });
	// two-byte pairs: a full period of the low 17 bits crosses every 1- and 2-byte carry
	mc::parallel(8, [&](u64 i) { Block iv{}; iv[3] = i; Key k{}; agree(AES_RNG(k, iv), Model(k, iv), mc::thorough ? 1 << 20 : 1 << 17, "stream", "iv[3]=" + std::to_string(i)); });
	// seeds
	u64 S = mc::thorough ? 1 << 18 : 1 << 15;
	mc::parallel(128, [&](u64 i) { for (u64 x = i; x < S; x += 128) for (u64 y : {x, ~x, x << 32, x << 48}) { mc::state(mc::comb(y, 3)); agree(AES_RNG(std::uint64_t(y)), Model(y), 2, "seed", "seed " + std::to_string(y)); } });
	mc::parallel(64, [&](u64 i) { for (u64 j = i; j < 64; j++) { u64 x = (1ull << i) | (1ull << j); agree(AES_RNG(std::uint64_t(x)), Model(x), 20, "seed", "seed " + std::to_string(x)); agree(AES_RNG(std::uint64_t(~x)), Model(~x), 20, "seed", "seed " + std::to_string(~x)); } });
	// histories: draw, 255 draws, copy and continue both, copy assignment
	int D = mc::thorough ? 7 : 5; u64 seeds[] = {0, 1, 0x0123456789abcdefull, ~0ull};
	mc::parallel(4 * mc::ipow(4, D), [&](u64 i) {
		auto ops = mc::digits(i / 4, 4, D); u64 sd = seeds[i % 4]; string h = "seed " + std::to_string(sd) + " ops ";
		std::vector<std::pair<AES_RNG, Model>> all{{AES_RNG(std::uint64_t(sd)), Model(sd)}}; AES_RNG other(std::uint64_t(5));
		for (int o : ops) {
			h += "d2ca"[o]; mc::current("history", h); mc::state(mc::hashStr(h));
			if (o < 2) for (int n = o ? 255 : 1; n--;) { mc::step(); if (all.back().first() != all.back().second()) { mc::violation("history", h + ": wrong draw"); return; } }
			if (o == 2) { auto c = all.back(); all.push_back(c); }
			if (o == 3) { other = all.back().first; all.emplace_back(other, all.back().second); all.back().first(); all.back().second(); }
		}
		for (auto& p : all) if (!agree(p.first, p.second, 3, "history", h)) return;
	});
	mc::parallel(16, [&](u64 i) { AES_RNG g(std::uint64_t(i * 7)); Model m(i * 7); std::uniform_int_distribution<std::uint64_t> d; for (int k = 0; k < 100; k++) if (d(g) != m()) { mc::violation("urbg", "uniform_int_distribution over the full range does not return the draws"); return; } mc::trace(); });
	return mc::finish();
}
