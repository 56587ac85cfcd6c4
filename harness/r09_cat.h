// catalogue of seeded calls: each appends everything it returned to a flat value list
#pragma once
#include <functional>
#include <vector>
#include <string>
namespace cat {
typedef std::vector<long long> Out;
struct Call { const char* name; std::function<void(Out&)> f; };
inline void put(Out& o, const std::vector<Integer>& v) { o.push_back(v.size()); o.insert(o.end(), v.begin(), v.end()); }
inline void put(Out& o, const std::string& s) { o.push_back(s.size()); for (unsigned char c : s) o.push_back(c); }
inline void put(Out& o, Real r) { int e; Real m = std::frexp(r, &e); o.push_back(e); m = std::ldexp(m, 32); o.push_back((long long)m); m -= (long long)m; o.push_back((long long)std::ldexp(m, 32)); }
template<class P> void putPts(Out& o, const P& v) { o.push_back(v.size()); for (auto& p : v) o.push_back(p.first), o.push_back(p.second); }
inline std::vector<Call> calls() {
	const Integer MX = std::numeric_limits<Integer>::max(), MN = std::numeric_limits<Integer>::min();
	using std::vector;
#define V(name, expr) {name, [=](Out& o) { (void)MX; (void)MN; o.push_back(expr); }}
#define P(name, expr) {name, [=](Out& o) { put(o, expr); }}
#define B(name, ...) {name, [=](Out& o) { __VA_ARGS__; }}
	return {
		V("bit()", Random::bit()), V("integer()", Random::integer()), V("integer(7)", Random::integer(7)), V("integer(-5,6)", Random::integer(-5, 6)),
		V("integer(MIN,MAX)", Random::integer(MN, MX)), V("integer(0,2^62+1)", Random::integer(0, (1ll << 62) + 1)),
		P("real()", Random::real()),
		V("discrete<3,1,4>()", (Random::discrete<3, 1, 4>())),
		V("geometric(0.3)", Random::geometric(0.3_real)), V("geometric(2,9,0.1)", Random::geometric(2, 9, 0.1_real)),
		V("binomial(10,0.4)", Random::binomial(10, 0.4_real)), V("binomial(100000,0.5)", Random::binomial(100000, 0.5_real)), V("binomial(1,8,20,0.2)", Random::binomial(1, 8, 20, 0.2_real)),
		V("maximum(0,100,3)", Random::maximum(0, 100, 3)), V("minimum(-50,50,4)", Random::minimum(-50, 50, 4)), V("minmax(50,3)", Random::minmax(50, 3)), V("minmax(-10,40,-2)", Random::minmax(-10, 40, -2)),
		V("prime(100)", Random::prime(100)), V("prime(10^12,10^12+1000)", Random::prime(1000000000000ll, 1000000001000ll)),
		B("select(vector)", vector<Integer> v{5, 6, 7}; o.push_back(Random::select(v))), B("select(array)", int a[5] = {1, 2, 3, 4, 5}; o.push_back(Random::select(a))), B("select(pair)", o.push_back(Random::select(std::pair<int, int>(3, 9)))),
		B("shuffle(6)", vector<Integer> v{1, 2, 3, 4, 5, 6}; Random::shuffle(v); put(o, v)), B("shuffle(pair)", std::pair<int, int> p(1, 2); Random::shuffle(p); o.push_back(p.first)),
		B("rotate(7)", vector<Integer> v{1, 2, 3, 4, 5, 6, 7}; o.push_back(Random::rotate(v)); put(o, v)),
		P("distinct(4,0,9)", Random::distinct(4, 0, 9)), P("distinct(3,10^18)", Random::distinct(3, 1000000000000000000ll)),
		P("perm(6)", Random::perm(6)), P("perm({1,2,3},5)", Random::perm(vector<Integer>{1, 2, 3}, 5)), P("perm(6,{1,3})", Random::perm(6, vector<Integer>{1, 3})),
		P("multiple(4,-3,3)", Random::multiple(4, -3, 3)), P("increasing(3,0,12)", Random::increasing(3, 0, 12)), P("decreasing(3,20)", Random::decreasing(3, 20)),
		P("nonDecreasing(4,0,5)", Random::nonDecreasing(4, 0, 5)), P("nonIncreasing(3,7)", Random::nonIncreasing(3, 7)), P("partition(20,4)", Random::partition(20, 4)), P("partition(9,4,0)", Random::partition(9, 4, 0)),
		P("string(8)", Random::string(8)), P("string(5,LETTER)", Random::string(5, LETTER)), P("bracketSequence(6)", Random::bracketSequence(6)),
		B("convex(6,50)", putPts(o, Random::convex(6, 50))), B("nonCollinearPoints(4,20)", putPts(o, Random::nonCollinearPoints(4, 20))),
	};
#undef V
#undef P
#undef B
}
inline unsigned long long hash(const Out& o) { unsigned long long h = 0x9e3779b97f4a7c15ull; for (long long x : o) { h = (h ^ (unsigned long long)x) * 0x100000001b3ull; h ^= h >> 29; } return h; }
}
