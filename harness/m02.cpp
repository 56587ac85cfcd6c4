// M02: primality, prime enumeration, sign, dist
#include "vh.h"
#include "v_num.h"
static void one(Integer n) { bool w = ref::prime(n); mc::step(); mc::trace(); mc::current("isPrime", std::to_string(n)); if (isPrime(n) != w) mc::violation("isPrime:value", "isPrime(" + std::to_string(n) + ") = " + (w ? "false" : "true")); }
static void win(Integer lo, Integer hi) {
	std::string w = "primes(" + std::to_string(lo) + "," + std::to_string(hi) + ")"; mc::current("primes", w); mc::step(); mc::trace();
	if (lo >= hi) { if (!vh::refuses([&] { primes(lo, hi); })) mc::violation("primes:refuse", w + " accepted"); return; }
	std::vector<Integer> want; for (Integer x = std::max<Integer>(lo, 2); x < hi; x++) if (ref::prime(x)) want.push_back(x);
	auto got = primes(lo, hi); mc::state(w); if (want.size()) mc::nontrivial();
	if (got != want) mc::violation("primes:value", w + " = " + (got.size() < 30 ? mc::show(got) : std::to_string(got.size()) + " values") + ", expected " + (want.size() < 30 ? mc::show(want) : std::to_string(want.size()) + " values"));
	if (lo == 0 && primes(hi) != want) mc::violation("primes:1", "primes(" + std::to_string(hi) + ") differs from " + w);
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	const Integer MX = std::numeric_limits<Integer>::max(), MN = std::numeric_limits<Integer>::min();
	const bool wide = sizeof(void*) == 8;
	// every small n against a sieve
	int N = mc::thorough ? 40000000 : wide ? 4000000 : 200000; int blk = N / 64;
	std::vector<char> comp(N, 0); comp[0] = comp[1] = 1; for (long long i = 2; i * i < N; i++) if (!comp[i]) for (long long j = i * i; j < N; j += i) comp[j] = 1;
	mc::parallel(64, [&](u64 b) { for (int n = b * blk; n < (int)(b + 1) * blk; n++) { if (isPrime(n) != !comp[n]) mc::violation("isPrime:small", "isPrime(" + std::to_string(n) + ") wrong"); mc::step(); } mc::trace(blk); mc::state(mc::comb(77, b)); });
	// whole neighbourhoods of the boundaries
	std::vector<Integer> c = {0, MX - 2000, MN + 2000, -1000}; for (int b : {16, 31, 32, 33, 40, 48, 53, 61, 62}) c.push_back(Integer(1) << b);
	for (Integer x : {1000000000ll, 1000000000000ll, 1000000000000000000ll, 3215031751ll, 3474749660383ll, 341550071728321ll, 3825123056546413051ll, 4759123141ll, 2152302898747ll}) c.push_back(x);
	mc::parallel(c.size() * 8, [&](u64 i) { int W = wide ? 250 : 20; Integer o = c[i / 8] - 4 * W + (Integer)(i % 8) * W; for (Integer n = o; n < o + W; n++) one(n); mc::state(mc::comb(78, i)); });
	// composites built to fool probabilistic tests: p*(k(p-1)+1), Carmichael (6k+1)(12k+1)(18k+1), prime squares, Fermat/Mersenne-like
	std::vector<Integer> ps; for (int n = 3; n < N; n++) if (!comp[n]) ps.push_back(n);
	u64 lim = std::min<u64>(ps.size(), mc::thorough ? 2500000 : wide ? 280000 : 1500); u64 chunk = (lim + 255) / 256;
	mc::parallel(256, [&](u64 b) {
		for (u64 i = b * chunk; i < std::min(lim, (b + 1) * chunk); i++) {
			Integer p = ps[i]; for (Integer k = 2; k <= 14; k++) { Integer q = k * (p - 1) + 1; if (q > MX / p || !ref::prime(q)) continue; one(p * q); mc::nontrivial(); }
			one(p * p); if (i + 1 < lim) one(p * ps[i + 1]); mc::state(mc::comb(79, p));
		}
		for (Integer k = b; k < (mc::thorough ? 1000000 : wide ? 100000 : 2000); k += 256) { Integer x = 6 * k + 1, y = 12 * k + 1, z = 18 * k + 1; if (k && (__float128)x * y * z < 9.2e18 && ref::prime(x) && ref::prime(y) && ref::prime(z)) one(x * y * z); }
		// large primes p near 2^31 and products of two of them
		Integer base = 2147483648ll - 4000 + b * 16; for (Integer p = base; p < base + 16; p++) if (ref::prime(p)) { one(p); one(p * p < 0 ? p : p * p); for (Integer k = 2; k <= 2; k++) { Integer q = k * (p - 1) + 1; if (q <= MX / p) one(p * q); } }
	});
	// windows
	int W = mc::thorough ? 260 : 130; mc::parallel(W + 3, [&](u64 i) { Integer lo = (Integer)i - 3; for (Integer hi = lo - 1; hi <= W; hi++) win(lo, hi); });
	std::vector<Integer> wc = {1000, 10000, 65536, 1000000, 2147483648ll, 4294967296ll, 1000000000000ll, 1000000000000000000ll, Integer(1) << 62}; if (!wide) wc.resize(6);
	mc::parallel(wc.size() * 40, [&](u64 i) { Integer o = wc[i / 40] - 20 + (Integer)(i % 40); for (Integer len : {0, 1, 2, 3, 5, 8, 13, 40, 100}) win(o, o + len); if (i % 40 == 0) { win(o, o + (wide ? 3000 : 300)); win(o - 1, o + (wide ? 3000 : 300)); } });
	if (wide) mc::parallel(60, [&](u64 i) { Integer lo = MX - 2 * (Integer)i - (i & 1); if (lo < MX) win(lo, MX); win(MX - 5 * (Integer)i - 1000, MX - (Integer)(i % 7)); win(MN, (Integer)i); win(-(Integer)i, (Integer)i + 1); win(0, 20000 + 37 * i); win(0, i + 1); });
	mc::parallel(60, [&](u64 i) {
		std::vector<Integer> g = {0, 1, 2, 3, -1, -2, -3, 1000, -1000, MX / 2, -(MX / 2), MX, MN, MX - 1, MN + 1}; Integer a = i < g.size() ? g[i] : (Integer)i * 1000003;
		if (sign(a) != (a > 0) - (a < 0) || sign((int)(i) - 30) != ((int)i > 30) - ((int)i < 30) || sign((Real)a) != (Real)((a > 0) - (a < 0)) || sign((double)a / 7) != (a > 0) - (a < 0)) mc::violation("sign", "sign(" + std::to_string(a) + ")");
		for (Integer b : g) { __float128 d = (__float128)a - b; if (d < 0) d = -d; if (d <= (__float128)MX) { if ((__float128)dist(a, b) != d) mc::violation("dist", "dist(" + std::to_string(a) + "," + std::to_string(b) + ")"); } UInteger x = a, y = b, z = x > y ? x - y : y - x; if (dist(x, y) != z) mc::violation("dist:unsigned", "dist of unsigned"); if (dist((Real)a, (Real)b) != std::abs((Real)a - (Real)b)) mc::violation("dist:real", "dist of reals"); mc::step(5); }
		for (int q = -9; q <= 9; q++) for (int r = -9; r <= 9; r++) if (dist(q, r) != std::abs(q - r) || dist(q * 0.5, r * 0.5) != std::abs(q - r) * 0.5) mc::violation("dist", "dist small");
		mc::trace();
	});
	// wide windows far from zero: every prime of the sieve strikes out its multiples
	std::vector<std::pair<Integer, Integer>> ww = {{1000000000, 60000}, {1ll << 31, 100000}, {1000000007ll * 5, 70001}, {20000000, 9000}, {900000001, 50001}}; if (wide) { ww.push_back({1ll << 40, 150000}); ww.push_back({10000000000ll, 200000}); ww.push_back({(1ll << 36) - 7, 300000}); }
	mc::parallel(ww.size(), [&](u64 i) { win(ww[i].first, ww[i].first + ww[i].second); win(ww[i].first - 99, ww[i].first + ww[i].second / 3); });
	// a window wider than the internal 2^30 limit (pi(1.2e9) = 60454705, computed independently by a plain sieve)
	if (wide) mc::parallel(1, [&](u64) { mc::current("primes", "primes(0, 1200000000)"); auto p = primes(0, 1200000000); mc::step(); mc::trace(); if (p.size() != 60454705 || p.back() != 1199999993 || p.front() != 2 || !areIncreasing(p)) mc::violation("primes:wide", "primes(0,1.2e9) gives " + std::to_string(p.size()) + " values"); });
	mc::sample("isPrime(p*(k(p-1)+1)) for all primes p below the sieve limit, k=2..14; primes(2^63-1-2i, 2^63-1)");
	return mc::finish();
}
