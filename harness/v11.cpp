// V11: floatEqual/floatLess/floatGreater against an exact reference (113-bit arithmetic on values with
// short mantissas: every difference and product below is exact, so boundary cases are decided exactly).
#include "vh.h"
#include <cmath>
#include <limits>
using R = long double; using Q = __float128;
static Q qabs(Q x) { return x < 0 ? -x : x; }
// 1 equal, 0 different, -1 too close to a rounding boundary to be decided by a rounding implementation
static int ref(R g, R e, R at, R rt) {
	bool gn = g != g, en = e != e;
	if (gn || en) return gn && en;
	R inf = std::numeric_limits<R>::infinity();
	bool gi = g == inf || g == -inf, ei = e == inf || e == -inf;
	if (gi || ei) return gi && ei && g == e;
	Q d = qabs(Q(g) - Q(e)), lim = Q(rt) * qabs(Q(e));
	if (d <= Q(at)) return 1;
	if (e == 0) return d == 0;
	if (d == lim) return 1;
	if (lim > 0 && qabs(d - lim) <= lim * Q(1e-17L)) return -1;
	if (at > 0 && qabs(d - Q(at)) <= Q(at) * Q(1e-17L)) return -1;
	return d <= lim;
}
static std::string hex(R x) { char b[64]; snprintf(b, sizeof b, "%La", x); return b; }
int main(int argc, char** argv) {
	mc::init(argc, argv);
	std::vector<R> v = {0.0L, 1, 2, 3, 0.5L, 0.25L, 1.5L, 1 + 0x1p-10L, 1 - 0x1p-10L, 1 + 0x1p-20L, 1 - 0x1p-20L, 1 + 0x1p-21L, 1 + 0x1p-19L, 1 + 3 * 0x1p-20L,
		1 + 0x1p-63L, 1 - 0x1p-64L, 1000, 1001, 1000 + 0x1p-10L, 1e6L, 1e6L + 1, 1e6L - 1, 1e6L + 2, 0x1p40L, 0x1p40L + 0x1p20L, 0x1p40L + 0x1p21L, 0x1p40L - 0x1p20L,
		0x1p-20L, 0x1p-19L, 0x1p-21L, 0x1p-40L, 0x1p-10L, 3 * 0x1p-20L, 7, 7.5L, 1e9L, 1e9L + 1, 1e18L, 1e18L + 1,
		std::numeric_limits<R>::max(), std::numeric_limits<R>::max() / 2, std::numeric_limits<R>::min(), std::numeric_limits<R>::denorm_min(), std::numeric_limits<R>::infinity(), std::numeric_limits<R>::quiet_NaN()};
	if (mc::thorough) for (int i = 1; i < 64; i++) { v.push_back(1 + i * 0x1p-10L); v.push_back(i * 0x1p-20L); v.push_back(i * 128 + 3); }
	size_t h = v.size();
	for (size_t i = 0; i < h; i++) v.push_back(-v[i]);
	std::vector<R> tol = {0, 0x1p-20L, 0x1p-21L, 3 * 0x1p-20L, 0x1p-10L, 3 * 0x1p-10L, 0.25L, 0.5L, 1e-6L, 1e-9L, 0x1p-63L};
	size_t T = tol.size();
	mc::parallel(v.size(), [&](u64 item) {
		using namespace vh;
		R e = v[item];
		for (R g : v) for (size_t t = 0; t < T * T; t++) {
			R at = tol[t / T], rt = tol[t % T];
			mc::current("floatEqual", hex(g) + " vs " + hex(e) + " abs " + hex(at) + " rel " + hex(rt));
			int r = ref(g, e, at, rt);
			bool q = InputValidator::floatEqual(g, e, at, rt), l = InputValidator::floatLess(g, e, at, rt), k = InputValidator::floatGreater(g, e, at, rt);
			mc::step(3); mc::trace();
			if (r < 0) continue;
			mc::state(mc::hashStr(hex(g) + hex(e) + hex(at) + hex(rt)));
			std::string w = "given " + hex(g) + " expected " + hex(e) + " abs " + hex(at) + " rel " + hex(rt);
			if (r) mc::nontrivial();
			if (q != (r == 1)) mc::violation("floatEqual:value", "floatEqual is " + mc::str(q) + " for " + w);
			if (l != (r == 1 || g < e)) mc::violation("floatLess:value", "floatLess is " + mc::str(l) + " for " + w);
			if (k != (r == 1 || g > e)) mc::violation("floatGreater:value", "floatGreater is " + mc::str(k) + " for " + w);
			if (r == 1 && g != e && e == 1000 && at > 0) mc::sample(w + " -> equal");
		}
		// defaulted tolerances come from the settings
		for (size_t t = 0; t < T * T; t += 3) {
			R at = tol[t / T], rt = tol[t % T];
			ValidateBase::floatAbsTol = at; ValidateBase::floatRelTol = rt;
			for (R g : v) {
				R fixedAbs = 0.5L;
				int r = ref(g, e, at, rt), r2 = ref(g, e, fixedAbs, rt);
				mc::step(6); mc::trace();
				if (r >= 0) {
					if (OutputValidator::floatEqual(g, e) != (r == 1)) mc::violation("floatEqual:settings", "floatEqual ignores the settings: " + hex(g) + " " + hex(e) + " abs " + hex(at) + " rel " + hex(rt));
					if (OutputValidator::floatLess(g, e) != (r == 1 || g < e)) mc::violation("floatLess:settings", "floatLess ignores the settings: " + hex(g) + " " + hex(e));
					if (OutputValidator::floatGreater(g, e) != (r == 1 || g > e)) mc::violation("floatGreater:settings", "floatGreater ignores the settings: " + hex(g) + " " + hex(e));
				}
				if (r2 >= 0) {
					if (OutputValidator::floatEqual(g, e, fixedAbs) != (r2 == 1)) mc::violation("floatEqual:settings2", "floatEqual(g,e,abs) ignores floatRelTol: " + hex(g) + " " + hex(e));
					if (OutputValidator::floatLess(g, e, fixedAbs) != (r2 == 1 || g < e)) mc::violation("floatLess:settings2", "floatLess(g,e,abs): " + hex(g) + " " + hex(e));
					if (OutputValidator::floatGreater(g, e, fixedAbs) != (r2 == 1 || g > e)) mc::violation("floatGreater:settings2", "floatGreater(g,e,abs): " + hex(g) + " " + hex(e));
				}
			}
		}
		for (R bad : {-1.0L, -0x1p-60L, -std::numeric_limits<R>::denorm_min(), std::numeric_limits<R>::quiet_NaN(), -std::numeric_limits<R>::infinity()}) for (R g : v) {
			mc::step(2); mc::trace();
			if (!refuses([&] { InputValidator::floatEqual(g, e, bad, 0); })) mc::violation("floatEqual:negabs", "negative absolute tolerance accepted for " + hex(g) + " " + hex(e));
			if (!refuses([&] { InputValidator::floatEqual(g, e, 0, bad); })) mc::violation("floatEqual:negrel", "negative relative tolerance accepted for " + hex(g) + " " + hex(e));
		}
	});
	return mc::finish();
}
