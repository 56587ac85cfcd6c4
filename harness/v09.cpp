// V09: constraint log == aggregate of all logged events
#include "vh.h"
using namespace std;
struct Ev { int name, kind; Integer l, u, v; }; // kind 0 integer, 1 real (eighths), 2 string length, 3 vector size
struct Agg { int kind; bool hmin = false, hmax = false; Real mn, mx, lo, hi; };
static string file;
static vector<string> words(const string& s) { istringstream i(s); vector<string> r; string w; while (i >> w) r.push_back(w); return r; }
static string evs(const vector<Ev>& e) { string r; for (auto& x : e) r += string(1, "ab"[x.name]) + ":" + "irsv"[x.kind] + "[" + to_string(x.l) + "," + to_string(x.u) + ")=" + to_string(x.v) + " "; return r; }
static void check(const vector<Ev>& ev, int via) {
	mc::current("log", evs(ev));
	vector<int> order; map<int, Agg> agg; bool refused = false; size_t at = 0;
	for (auto& e : ev) {
		auto it = agg.find(e.name);
		Real s = e.kind == 1 ? 8.0L : 1.0L;
		Real l = e.l / s, u = e.u / s, v = e.v / s; if (e.kind != 1) u -= 1;
		if (it != agg.end() && it->second.kind != e.kind) { refused = true; break; }
		if (it == agg.end()) { order.push_back(e.name); it = agg.emplace(e.name, Agg{e.kind, false, false, v, v, l, u}).first; }
		Agg& a = it->second;
		a.hmin |= v == l; a.hmax |= v == u; a.mn = min(a.mn, v); a.mx = max(a.mx, v); a.lo = min(a.lo, l); a.hi = max(a.hi, u);
		at++;
	}
	bool gotRefused = false;
	{
		ConstraintsLogger lg(file);
		lg["unused"];
		size_t i = 0;
		try {
			for (auto& e : ev) {
				Constraint& c = lg[string(1, "ab"[e.name])];
				mc::step();
				bool inside = e.l <= e.v && e.v < e.u;
				if (via && inside) {
					string tok; ostringstream o;
					if (e.kind == 0) tok = to_string(e.v);
					else if (e.kind == 1) { o << fixed << setprecision(6) << e.v / 8.0L; tok = o.str(); }
					else tok = string(e.v, 'q');
					if (!(tok.empty() || e.kind == 3)) {
						ostringstream msg; OutputStream os(msg); istringstream in(tok); InputStream is(in, true, true, os, Verdicts::WA);
						bool same = true;
						if (e.kind == 0) same = is.integer(e.l, e.u, c) == e.v;
						else if (e.kind == 1) same = (via == 1 ? is.real(e.l / 8.0L, e.u / 8.0L, c) : is.realStrict(e.l / 8.0L, e.u / 8.0L, 0, 9, c)) == e.v / 8.0L;
						else { static const regex QS("q*", REGEX_OPTIONS); same = (via == 2 ? is.string(QS, e.l, e.u, c) : is.string(e.l, e.u, c)) == tok; }
						if (!same) mc::violation("value-changed", evs(ev));
						i++; continue;
					}
				}
				if (e.kind == 0) { if (via == 2) c.log(e.l, e.u, int(e.v)); else c.log(e.l, e.u, e.v); }
				else if (e.kind == 1) { if (via == 2) c.log(e.l / 8.0L, e.u / 8.0L, double(e.v / 8.0)); else c.log(e.l / 8.0L, e.u / 8.0L, e.v / 8.0L); }
				else if (e.kind == 2) c.log(e.l, e.u, string(e.v, 'x'));
				else c.log(e.l, e.u, vector<int>(e.v));
				i++;
			}
		} catch (const std::exception&) { gotRefused = true; }
		if (gotRefused != refused || i != at) { mc::violation("kind-change", string(gotRefused ? "refused" : "not refused") + " at event " + to_string(i) + ": " + evs(ev)); }
	}
	FILE* f = fopen(file.c_str(), "r"); string s; if (f) { char b[2000]; size_t k = fread(b, 1, sizeof b, f); s.assign(b, k); fclose(f); }
	unlink(file.c_str());
	mc::trace(); mc::state(mc::hashStr(evs(ev), via));
	vector<string> lines; { istringstream i(s); string l; while (getline(i, l)) lines.push_back(l); }
	bool ok = lines.size() == order.size();
	for (size_t i = 0; ok && i < lines.size(); i++) {
		auto w = words(lines[i]); const Agg& a = agg[order[i]]; string n(1, "ab"[order[i]]);
		if (w.size() != 8) { ok = false; break; }
		ok = w[1] == n && w[0].size() > n.size() && w[0].substr(w[0].size() - n.size() - 1) == ":" + n && w[2] == to_string(a.hmin) && w[3] == to_string(a.hmax);
		Real ref[] = {a.mn, a.mx, a.lo, a.hi};
		for (int q = 0; q < 4 && ok; q++) {
			if (a.kind == 1) ok = fabsl(strtold(w[4 + q].c_str(), 0) - ref[q]) < 1e-6L && w[4 + q].find('e') == string::npos;
			else ok = w[4 + q] == to_string((Integer)ref[q]);
		}
	}
	if (!ok) mc::violation("file", "events " + evs(ev) + " via " + to_string(via) + ": file \"" + mc::esc(s, 600) + "\"");
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	string base = getenv("MC_WD") ? getenv("MC_WD") : "/tmp";
	vector<Ev> A;
	for (int n = 0; n < 2; n++) {
		for (auto b : vector<array<Integer, 2>>{{0, 4}, {1, 7}, {2, 3}}) for (Integer v : {0, 2, 3, 6}) if (n == 0 || v != 3) A.push_back({n, 0, b[0], b[1], v});
		for (auto b : vector<array<Integer, 2>>{{0, 8}, {4, 24}}) for (Integer v : {4, 8, 13}) A.push_back({n, 1, b[0], b[1], v});
		if (n == 0) for (Integer v : {1, 3}) { A.push_back({n, 2, 1, 4, v}); A.push_back({n, 3, 0, 3, v}); }
	}
	size_t K = A.size();
	int D = mc::thorough ? 4 : 3;
	mc::parallel(K, [&](mc::u64 it) {
		file = base + "/c" + to_string(it);
		for (int len = 0; len < D; len++) for (mc::u64 k = 0; k < mc::ipow(K, len); k++) {
			vector<Ev> e = {A[it]}; for (int x : mc::digits(k, K, len)) e.push_back(A[x]);
			if (len == 3 && (k % 3)) { check(e, k % 3 == 1 ? 0 : 2); continue; }
			for (int via = 0; via < (len < 3 ? 3 : 1); via++) check(e, via + (len == 3 ? 1 : 0));
			if (it == 3 && k == 40) mc::sample(evs(e));
		}
	});
	// repeating one name with many values: all 5-sequences of integer events
	vector<Ev> B; for (auto b : vector<array<Integer, 2>>{{0, 4}, {-3, 2}}) for (Integer v : {-3, 0, 3}) B.push_back({0, 0, b[0], b[1], v});
	mc::parallel(B.size(), [&](mc::u64 it) {
		file = base + "/d" + to_string(it);
		int len = mc::thorough ? 5 : 4;
		for (mc::u64 k = 0; k < mc::ipow(B.size(), len); k++) { vector<Ev> e = {B[it]}; for (int x : mc::digits(k, B.size(), len)) e.push_back(B[x]); check(e, k % 2 ? 0 : 2); }
	});
	// many names, long histories: names in several orders, references kept from the beginning, loggers moved or written early
	const vector<int> LN = {9, 21, 65, 130, 257, 300, 1025, mc::thorough ? 70000 : 5000};
	mc::parallel(LN.size() * 12, [&](mc::u64 it) {
		int n = LN[it / 12], order = it / 4 % 3, mode = it % 4; string f = base + "/m" + to_string(it); string what = to_string(n) + " names, order " + to_string(order) + ", mode " + to_string(mode); mc::current("many", what); mc::state(mc::hashStr(what)); mc::trace();
		auto name = [&](int i) { mc::u64 q = order == 0 ? i : order == 1 ? n - 1 - i : (mc::u64)i * 7919 % 1000003; string r = to_string(q); if (i % 7 == 3) r = "v:[" + r + "]\xc3\xa4"; if (i % 11 == 5) r = string(n == 130 ? 3000 : 40, 'n') + r; if (i % 13 == 6) r = "-" + r + "%s\\"; return r; };
		struct A { bool used = false; Real mn, mx, lo, hi; bool hmin = false, hmax = false; int kind; }; vector<A> a(n);
		auto expect = [&](int cnt) { string r; for (int i = 0; i < cnt; i++) if (a[i].used) { char b[400]; string nm = name(i); if (a[i].kind == 1) snprintf(b, 400, " %d %d %.6Lf %.6Lf %.6Lf %.6Lf\n", a[i].hmin, a[i].hmax, a[i].mn, a[i].mx, a[i].lo, a[i].hi); else snprintf(b, 400, " %d %d %.0Lf %.0Lf %.0Lf %.0Lf\n", a[i].hmin, a[i].hmax, a[i].mn, a[i].mx, a[i].lo, a[i].hi); r += nm + b; } return r; };
		auto read = [&] { ifstream in(f); string l, r; while (getline(in, l)) { auto w = words(l); if (w.size() != 8 || w[0].size() <= w[1].size() || w[0].substr(w[0].size() - w[1].size()) != w[1]) { r += "<" + l + ">\n"; continue; } r += w[1]; for (int q = 2; q < 8; q++) r += " " + w[q]; r += "\n"; } return r; };
		auto cmp = [&](const char* key, int cnt) { string g = read(), e = expect(cnt); if (g != e) { size_t d = 0; while (d < g.size() && d < e.size() && g[d] == e[d]) d++; mc::violation(key, what + ": file has ..." + mc::esc(g.substr(d > 30 ? d - 30 : 0, 90)) + ", expected ..." + mc::esc(e.substr(d > 30 ? d - 30 : 0, 90))); } };
		{
			auto lg = make_unique<ConstraintsLogger>(f); vector<Constraint*> ref;
			for (int i = 0; i < n; i++) { ref.push_back(&(*lg)[name(i)]); mc::step(); if (mode == 1 && i == n / 2) { auto l2 = make_unique<ConstraintsLogger>(std::move(*lg)); lg.reset(); unlink(f.c_str()); lg = std::move(l2); } }
			int rounds = n == 9 ? 3000 : 3;
			for (int r = 0; r < rounds; r++) for (int i = 0; i < n; i++) { if (i % 5 == 4 && n > 9) continue; int k = (i + order) % 4; Integer v = (r * 31 + i * 17) % 50, l = -(r * 7 % 13) + v % 3, u = l + 60 + i % 9; if (r == 1 && i % 3 == 0) v = l; if (r == 1 && i % 3 == 1 && k != 1) v = u - 1; if (r == 1 && k == 1 && i % 3 == 1) v = u; if (k > 1 && v < 0) v = 0;
				Constraint& c = (r + i) % 2 ? *ref[i] : (*lg)[name(i)]; mc::step(); A& x = a[i]; Real up = k == 1 ? u : u - 1;
				if (k == 0) c.log(l, u, v); else if (k == 1) c.log((Real)l, (Real)u, (Real)v); else if (k == 2) c.log(l, u, string(v, 's')); else c.log(l, u, vector<string>(v, "x"));
				if (!x.used) { x.used = true; x.kind = k; x.mn = x.mx = v; x.lo = l; x.hi = up; } x.mn = min<Real>(x.mn, v); x.mx = max<Real>(x.mx, v); x.lo = min<Real>(x.lo, l); x.hi = max(x.hi, up); x.hmin |= v == l; x.hmax |= (Real)v == up; }
			if (mode == 2) { lg->write(); cmp("many:early", n); }
			if (mode == 3) { ConstraintsLogger x; x["old"].log(0, 5, 1); x = std::move(*lg); lg.reset(); unlink(f.c_str()); }
		}
		cmp("many:file", n);
		// every pair of kinds of values on one name
		if (it < 12) { for (int p = 0; p < 7; p++) for (int q = 0; q < 7; q++) { ConstraintsLogger lg; Constraint& c = lg["k"]; auto put = [&](int k) { switch (k) { case 0: c.log(0, 9, Integer(3)); break; case 1: c.log(0, 9, 2.5); break; case 2: c.log(0, 9, string("abc")); break; case 3: c.log(0, 9, vector<int>(3)); break; case 4: c.log(0, 9, vector<string>(3)); break; case 5: c.log(0, 9, vector<Real>(3)); break; default: c.log(0, 9, vector<vector<string>>(3)); } };
			auto group = [](int k) { return k > 3 ? 3 : k; }; for (int rep = 0; rep < 2; rep++) { put(p); } bool ref = vh::refuses([&] { put(q); }); mc::step(3); mc::trace();
			if (p == q && ref) mc::violation("kind-change", "logging the same kind again is refused: kind " + to_string(p)); if (group(p) != group(q) && !ref) mc::violation("kind-change", "kind " + to_string(q) + " logged after kind " + to_string(p) + " is not refused"); if (ref && vh::refuses([&] { put(p); })) mc::violation("kind-change", "after a refused event of kind " + to_string(q) + " kind " + to_string(p) + " is refused as well"); } }
		unlink(f.c_str());
	});
	// extremes
	mc::parallel(1, [&](mc::u64) {
	file = base + "/e";
	Integer MX = numeric_limits<Integer>::max(), MN = numeric_limits<Integer>::min();
	for (Integer v : {MN, MN + 1, Integer(0), MX - 1}) {
		{ ConstraintsLogger lg(file); lg["a"].log(MN, MX, v); mc::step(); }
		ifstream f(file); string l; getline(f, l); auto w = words(l); mc::trace();
		if (w.size() != 8 || w[4] != to_string(v) || w[5] != to_string(v) || w[6] != to_string(MN) || w[7] != to_string(MX - 1) || w[2] != to_string(v == MN) || w[3] != to_string(v == MX - 1)) mc::violation("extremes", l);
	}
	unlink(file.c_str());
	});
	mc::parallel(1, [&](mc::u64) {
	for (string bad : {"", " ", "a b", "a\n", "\t"}) { ConstraintsLogger lg; mc::step(); mc::trace(); if (!vh::refuses([&] { lg[bad]; })) mc::violation("name", "constraint name \"" + mc::esc(bad) + "\" not refused"); }
	});
	return mc::finish();
}
