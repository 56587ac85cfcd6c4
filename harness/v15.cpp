// V15: OutputStream and join against a reference printer
#include "vh.h"
#include <list>
#include <deque>
#include <forward_list>
#include <fstream>
using std::string; using std::vector;
static string R(int x) { return std::to_string(x); }
static string R(Integer x) { return std::to_string(x); }
static string R(char c) { return string(1, c); }
static string R(bool b) { return b ? "true" : "false"; }
static string R(const string& s) { return s; }
static string R(const char* s) { return s; }
static string R(double d) { char b[400]; snprintf(b, 400, "%.6f", d); return b; }
static string R(long double d) { char b[6000]; snprintf(b, 6000, "%.6Lf", d); return b; }
template<class A, class B> string R(const std::pair<A, B>& p);
template<class T> string R(const vector<T>& c);
template<class T> string R(const std::list<T>& c);
template<class T> string R(const std::set<T>& c);
template<class K, class T> string R(const std::map<K, T>& c);
template<class T, size_t N> string R(const std::array<T, N>& c);
template<class... A> string R(const std::tuple<A...>& t);
template<class A, class B> string R(const std::pair<A, B>& p) { return R(p.first) + " " + R(p.second); }
template<class... A> string R(const std::tuple<A...>& t);
template<class C> string RJ(const C& c, char sep) { string r; bool f = true; for (auto&& x : c) { if (!f && sep) r += sep; f = false; using X = std::decay_t<decltype(x)>; if constexpr (std::is_same_v<X, std::vector<bool>::reference>) r += R(bool(x)); else r += R(x); } return r; }
template<class T> string R(const vector<T>& c) { return RJ(c, ' '); }
template<class T> string R(const std::list<T>& c) { return RJ(c, ' '); }
template<class T> string R(const std::set<T>& c) { return RJ(c, ' '); }
template<class K, class T> string R(const std::map<K, T>& c) { return RJ(c, ' '); }
template<class T, size_t N> string R(const std::array<T, N>& c) { return RJ(c, ' '); }
template<class Tu, size_t... I> string RT(const Tu& t, char sep, std::index_sequence<I...>) { string r; (((I && sep ? r += sep : r), r += R(std::get<I>(t))), ...); return r; }
template<class... A> string R(const std::tuple<A...>& t) { return RT(t, ' ', std::index_sequence_for<A...>()); }
template<class T> static string out(const T& x) { std::ostringstream o; OutputStream s(o); s << "<" << x << ">"; return o.str(); }
static void eq(const char* key, const string& got, const string& want, const string& what) {
	mc::step(); mc::trace(); mc::state(mc::hashStr(key + want));
	if (got != want) mc::violation(key, what + ": printed \"" + mc::esc(got) + "\", expected \"" + mc::esc(want) + "\"");
}
static const char seps[] = {' ', '\n', ',', '\0', '0', '\xff'};
template<class T> static string outJ(const T& w) { std::ostringstream o; OutputStream s(o); s << w; return o.str(); }
// every form for one container
template<class C> static void cont(const char* name, const C& c) {
	string n = name; mc::current(name, n);
	eq((n + ":<<").c_str(), out(c), "<" + R(c) + ">", "os << " + n);
	for (char sep : seps) {
		string want = RJ(c, sep), w = "join(" + n + ", '" + mc::esc(string(1, sep)) + "')";
		eq((n + ":join").c_str(), outJ(join(c, sep)), want, w);
		eq((n + ":joinIt").c_str(), outJ(join(c.begin(), c.end(), sep)), want, w + " iterators");
		eq((n + ":asString").c_str(), join(c, sep).asString(), want, w + ".asString()");
		eq((n + ":string").c_str(), string(join(c, sep)), want, "string(" + w + ")");
		C copy = c; auto j = join(std::move(copy), sep); { C junk = c; copy = C(); } // printed after the temporary is gone
		vector<char> noise(4096, 'x');
		eq((n + ":temporary").c_str(), outJ(j), want, w + " of a temporary, printed later"); eq((n + ":twice").c_str(), outJ(j), want, w + " printed twice");
		auto j2 = [&] { C local = c; return join(C(local), sep); }(); eq((n + ":escaped").c_str(), outJ(j2), want, w + " of a temporary of an inner scope");
		C named = c; auto jn = join(named, sep); eq((n + ":named").c_str(), outJ(jn), want, w);
	}
	eq((n + ":joindef").c_str(), outJ(join(c)), RJ(c, ' '), "join(" + n + ")"); eq((n + ":joindefIt").c_str(), outJ(join(c.begin(), c.end())), RJ(c, ' '), "join(" + n + ")");
}
template<class T> static void tup(const char* name, const T& t) {
	string n = name; constexpr size_t N = std::tuple_size_v<T>; auto is = std::make_index_sequence<N>{};
	eq((n + ":<<").c_str(), out(t), "<" + RT(t, ' ', is) + ">", "os << " + n);
	for (char sep : seps) {
		string want = RT(t, sep, is); eq((n + ":join").c_str(), outJ(join(t, sep)), want, "join(" + n + ")"); eq((n + ":asString").c_str(), join(t, sep).asString(), want, "join(" + n + ").asString");
		auto j = [&] { T local = t; return join(T(local), sep); }(); eq((n + ":temporary").c_str(), outJ(j), want, "join of temporary " + n);
		T named = t; eq((n + ":named").c_str(), outJ(join(named, sep)), want, "join(" + n + ")");
	}
	eq((n + ":joindef").c_str(), outJ(join(t)), RT(t, ' ', is), "join(" + n + ")");
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	vector<int> vals = {0, -7, 123}; vector<string> sv = {"", "a", string("b c\0\n\xff d", 8)}; vector<double> dv = {0.5, -1e-7, 1e15 / 3};
	int L = mc::thorough ? 6 : 4; vector<vector<int>> idx; for (int l = 0; l <= L; l++) for (u64 i = 0; i < mc::ipow(3, l); i++) idx.push_back(mc::digits(i, 3, l));
	mc::parallel(idx.size(), [&](u64 item) {
		auto& d = idx[item]; size_t n = d.size();
		vector<int> vi; vector<string> vs; vector<double> vd; vector<bool> vb; vector<vector<int>> vv; vector<std::pair<int, string>> vp; std::list<int> li; std::set<int> st; std::map<int, string> mp; vector<std::list<vector<int>>> v3; vector<std::tuple<int, bool, vector<int>>> vt; vector<char> vc; vector<Real> vr; vector<std::array<int, 2>> va;
		for (int x : d) { vi.push_back(vals[x]); vs.push_back(sv[x]); vd.push_back(dv[x]); vb.push_back(x & 1); vv.push_back(vector<int>(x, vals[x])); vp.push_back({vals[x], sv[x]}); li.push_back(vals[x]); st.insert(vals[x]); mp[x] = sv[x]; v3.push_back({vector<int>(x, 4), {}, vector<int>(1, x)}); vt.push_back({x, x & 1, vector<int>(x, 9)}); vc.push_back("x \n"[x]); vr.push_back(dv[x] * 3); va.push_back({{x, -x}}); }
		cont("vector<int>", vi); cont("vector<string>", vs); cont("vector<double>", vd); cont("vector<Real>", vr); cont("vector<char>", vc); cont("vector<vector<int>>", vv); cont("vector<pair>", vp); cont("list<int>", li); cont("set<int>", st); cont("map", mp); cont("vector<list<vector>>", v3); cont("vector<tuple>", vt); cont("vector<bool>", vb); cont("vector<array>", va);
		if (n > 1) mc::nontrivial();
		if (n == 4) {
			std::array<int, 4> a; std::array<vector<int>, 2> av; for (int i = 0; i < 4; i++) a[i] = vi[i]; av[0] = vv[0]; av[1] = vv[1];
			tup("array<int,4>", a); tup("array<vector,2>", av); std::array<int, 1> a1 = {vi[0]}; tup("array<int,1>", a1); std::array<int, 0> a0{}; tup("array<int,0>", a0);
			tup("pair", vp[0]); tup("pair<vector,pair>", std::make_pair(vv[0], vp[1])); tup("tuple0", std::tuple<>()); tup("tuple1", std::tuple<vector<int>>(vv[3])); tup("tuple4", std::make_tuple(vi[0], vs[1], vd[2], bool(d[3] & 1)));
			tup("tuple nested", std::make_tuple(std::make_tuple(vi[0], vs[0]), vv[1], std::make_pair(vc[2], vp[3])));
			int c4[4] = {vi[0], vi[1], vi[2], vi[3]}; eq("int[4]:<<", out(c4), "<" + R(vi) + ">", "os << int[4]"); for (char s : seps) eq("int[4]:join", outJ(join(c4, s)), RJ(vi, s), "join(int[4])");
			int c22[2][2] = {{vi[0], vi[1]}, {vi[2], vi[3]}}; eq("int[2][2]:<<", out(c22), "<" + R(vi) + ">", "os << int[2][2]"); for (char s : seps) eq("int[2][2]:join", outJ(join(c22, s)), R(vi[0]) + " " + R(vi[1]) + (s ? string(1, s) : "") + R(vi[2]) + " " + R(vi[3]), "join(int[2][2])");
			for (char s : seps) {
				string S1 = s ? string(1, s) : "";
				eq("brace:int", outJ(join({vi[0], vi[1], vi[2], vi[3]}, s)), RJ(vi, s), "join({int,...})"); eq("brace:mixed", outJ(join({vi[0], vs[1], vd[2], vv[3]}, s)), R(vi[0]) + S1 + vs[1] + S1 + R(vd[2]) + S1 + R(vv[3]), "join({int,string,double,vector})");
				eq("brace:one", join({vs[0], vi[1]}, s).asString(), vs[0] + S1 + R(vi[1]), "join({string,int})");
				char cs[] = "abc"; eq("cstring:join", outJ(join(cs, s)), "a" + S1 + "b" + S1 + "c", "join(char[4])"); const char cs1[] = "z"; eq("cstring:join1", outJ(join(cs1, s)), "z", "join(char[2])"); eq("cstring:join0", outJ(join("", s)), "", "join(\"\")"); eq("cstring:literal", join("xy", s).asString(), "x" + S1 + "y", "join(\"xy\")");
			}
			eq("brace:default", outJ(join({vi[0], vi[1]})), R(vi[0]) + " " + R(vi[1]), "join({int,int})");
		}
	});
	// long and awkward values
	const vector<int> LN = {127, 129, 256, 257, 1000, 4097, 33000, mc::thorough ? 1000000 : 70000};
	mc::parallel(LN.size() * 9, [&](u64 it) {
		int n = LN[it / 9];
		switch (it % 9) {
		case 0: { vector<int> v; for (int i = 0; i < n; i++) v.push_back(i * 7919 - 5000); cont("long vector<int>", v); break; }
		case 1: { vector<string> v; for (int i = 0; i < n; i++) v.push_back(string(i % 5, char(i))); cont("long vector<string>", v); break; }
		case 2: { vector<string> v = {string(n, 'a'), "", string(n, '\0'), "x"}; cont("vector of long strings", v); break; }
		case 3: { vector<vector<int>> v; for (int i = 0; i < n; i++) v.push_back(vector<int>(i % 4, i)); cont("long vector<vector<int>>", v); break; }
		case 4: { vector<bool> v; for (int i = 0; i < n; i++) v.push_back(i * i % 7 < 3); cont("long vector<bool>", v); break; }
		case 5: { std::list<int> v; for (int i = 0; i < n; i++) v.push_back(-i); cont("long list", v); break; }
		case 6: { std::map<int, string> v; for (int i = 0; i < n; i++) v[i * 3] = string(i % 3, 'm'); cont("long map", v); break; }
		case 7: { vector<Real> v; for (int i = 0; i < n; i++) v.push_back(i * 0.375L); cont("long vector<Real>", v); break; }
		default: { string s; for (int i = 0; i < n; i++) s += char(i); eq("long string", out(s), "<" + s + ">", "a string of " + R(n) + " bytes"); eq("long view", out(std::string_view(s)), "<" + s + ">", "a view of " + R(n) + " bytes"); std::ostringstream o; OutputStream os(o); string w; for (int i = 0; i < n; i++) { os << i << vector<int>{i, 1} << (i % 2 == 0) << 0.5 << '\n'; w += R(i) + R(i) + " 1" + (i % 2 ? "false" : "true") + "0.500000\n"; } eq("long chain", o.str(), w, R(n) + " lines on one stream"); }
		}
	});
	mc::parallel(1, [&](u64) {
		char cs[] = "a b"; const char* p = "ptr x"; std::string_view v = "view"; string s = "str";
		eq("scalar:char[]", out(cs), "<a b>", "char[]"); eq("scalar:literal", out("lit"), "<lit>", "literal"); eq("scalar:char*", out(p), "<ptr x>", "char*"); eq("scalar:view", out(v), "<view>", "string_view"); eq("scalar:string", out(s), "<str>", "string"); eq("scalar:char", out('c'), "<c>", "char"); eq("scalar:bool", out(true) + out(false), "<true><false>", "bool");
		for (Real x : {0.0L, -0.0L, 1.0L, 0.5L, 1.0L / 3, 2e-7L, 5e-7L, 4.9e-7L, 1e18L, 123456789.123456789L, -1e-9L, 1e30L}) { eq("scalar:Real", out(x), "<" + R(x) + ">", "Real"); eq("scalar:double", out(double(x)), "<" + R(double(x)) + ">", "double"); }
		for (Integer x : {Integer(0), std::numeric_limits<Integer>::max(), std::numeric_limits<Integer>::min()}) eq("scalar:Integer", out(x), "<" + R(x) + ">", "Integer");
		std::ostringstream o; OutputStream os(o); os << 1 << std::endl << std::setprecision(2) << 0.123 << std::setprecision(6) << " " << vector<int>{1, 2} << '\n' << std::make_pair(true, 0.25); eq("manipulators", o.str(), "1\n0.12 1 2\ntrue 0.250000", "manipulators and chaining");
		OutputStream moved(std::move(os)); moved << "|" << 2.5; eq("moved", o.str(), "1\n0.12 1 2\ntrue 0.250000|2.500000", "moved stream");
		OutputStream null; null << 1 << vector<int>{1, 2} << std::endl; // discards
		string dir = getenv("MC_WD") ? getenv("MC_WD") : "."; string f = dir + "/o.txt";
		{ OutputStream fs(std::filesystem::path(f), std::ios::out); fs << vector<double>{1, 2} << "\n" << true; } std::ifstream in(f); std::stringstream got; got << in.rdbuf(); eq("file", got.str(), "1.000000 2.000000\ntrue", "file stream");
		if (!vh::refuses([&] { OutputStream bad(std::filesystem::path(dir + "/no/such/dir/x"), std::ios::out); })) mc::violation("file:bad", "an OutputStream on a path that cannot be opened was created");
		std::ostringstream e; OutputStream es(e); es.join(vals.begin(), vals.end(), ';'); eq("memberjoin", e.str(), "0;-7;123", "OutputStream::join");
	});
	mc::sample("join(vector<vector<int>>{{},{-7},{123,123}}, ',') -> \",-7,123 123\"; nested containers use the default separator");
	return mc::finish();
}
