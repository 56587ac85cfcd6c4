// M01: modular arithmetic against portable exact arithmetic
#include "vh.h"
#include "v_num.h"
using std::string;
static string T(const char* f, std::initializer_list<Integer> a) { string r = string(f) + "("; bool c = false; for (Integer x : a) { r += (c ? "," : "") + std::to_string(x); c = true; } return r + ")"; }
static void mm(Integer a, Integer b, Integer m) {
	mc::step(); mc::trace(); mc::current("mulMod", T("mulMod", {a, b, m}));
	if (m <= 0) { if (!vh::refuses([&] { mulMod(a, b, m); })) mc::violation("mulMod:refuse", T("mulMod", {a, b, m}) + " accepted"); return; }
	Integer w = ref::mulmod(ref::mod(a, m), ref::mod(b, m), m), g = mulMod(a, b, m);
	if (g != w) mc::violation("mulMod:value", T("mulMod", {a, b, m}) + " = " + std::to_string(g) + ", expected " + std::to_string(w));
}
static void pm(Integer a, Integer e, Integer m) {
	mc::step(); mc::trace(); mc::current("powMod", T("powMod", {a, e, m}));
	if (m <= 0 || e < 0) { if (!vh::refuses([&] { powMod(a, e, m); })) mc::violation("powMod:refuse", T("powMod", {a, e, m}) + " accepted"); return; }
	Integer w = ref::powmod(ref::mod(a, m), e, m), g = powMod(a, e, m);
	if (g != w) mc::violation(m == 1 ? "powMod:mod1" : "powMod:value", T("powMod", {a, e, m}) + " = " + std::to_string(g) + ", expected " + std::to_string(w));
}
static void am(Integer a, Integer m) { if (m <= 0) return; mc::step(); mc::trace(); mc::current("applyMod", T("applyMod", {a, m})); Integer g = applyMod(a, m); if (g != (Integer)ref::mod(a, m)) mc::violation("applyMod:value", T("applyMod", {a, m}) + " = " + std::to_string(g)); }
static void mi(Integer n, Integer m) {
	mc::step(); mc::trace(); mc::current("multInv", T("multInv", {n, m}));
	if (m <= 0) { if (!vh::refuses([&] { multInv(n, m); })) mc::violation("multInv:refuse", T("multInv", {n, m}) + " accepted"); return; }
	Integer g = multInv(n, m); bool ex = ref::gcd(ref::mod(n, m), m) == 1; mc::state(mc::comb(n, m));
	if (ex) mc::nontrivial();
	bool ok = ex ? g >= 0 && g < m && ref::mulmod(ref::mod(n, m), g, m) == 1 % (ref::U)m : g == -1;
	if (!ok) mc::violation(n < 0 ? "multInv:negative" : "multInv:value", T("multInv", {n, m}) + " = " + std::to_string(g) + (ex ? " (inverse exists)" : " (no inverse)"));
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	const Integer MX = std::numeric_limits<Integer>::max(), MN = std::numeric_limits<Integer>::min();
	int B = mc::thorough ? 40 : 20;
	mc::parallel(2 * B + 1, [&](u64 i) { Integer a = (Integer)i - B; for (Integer b = -B; b <= B; b++) for (Integer m = -2; m <= B + 5; m++) { mm(a, b, m); pm(a, b, m); if (b == 0) am(a, m); mc::state(mc::comb(mc::comb(a, b), m)); } });
	int N = mc::thorough ? 700 : 300;
	mc::parallel(N + 3, [&](u64 i) { Integer m = (Integer)i - 2; for (Integer n = -N; n <= N; n++) mi(n, m); });
	std::set<Integer> gs = {0, 1, 2, 3, 7, -1, -2, -3, -7, MX, MX - 1, MX - 2, MX - 24, MN, MN + 1, MN + 2, 1000000007, 998244353, 4294967291ll, 1000000000039ll, 1000000000000000003ll};
	for (int b : {31, 32, 33, 62, 63}) for (int d = -2; d <= 2; d++) { u64 x = (1ull << b) + d; if (x <= (u64)MX) gs.insert((Integer)x), gs.insert(-(Integer)x); }
	if (mc::thorough) for (int b = 16; b < 63; b += 3) for (int d = -1; d <= 1; d++) gs.insert((Integer(1) << b) + d), gs.insert(-(Integer(1) << b) + d);
	std::vector<Integer> g(gs.begin(), gs.end());
	mc::parallel(g.size(), [&](u64 i) {
		Integer a = g[i];
		for (Integer b : g) { am(a, b); mi(a, b); for (Integer m : g) { mm(a, b, m); pm(a, b, m); mc::state(mc::comb(mc::comb(a, b), m)); } }
	});
	// all pairs of residues around the half and the end of a large modulus
	mc::parallel(g.size(), [&](u64 i) { Integer m = g[i]; if (m < 1000) return; std::vector<Integer> r; for (int d = 0; d < 6; d++) { r.push_back(d); r.push_back(m - 1 - d); r.push_back(m / 2 - 3 + d); r.push_back(m / 3 + d); } for (Integer a : r) { mi(a, m); mi(-a, m); for (Integer b : r) { mm(a, b, m); mm(-a, b, m); pm(a, b, m); } } });
	mc::sample("powMod(-9223372036854775808, 9223372036854775807, 9223372036854775807)"); mc::sample("multInv(-3, 7) = 2");
	return mc::finish();
}
