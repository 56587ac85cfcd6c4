// I03: SVG documents against an independent reader and a model of what was drawn
#include <bits/stdc++.h>
#include "mc.h"
#include "visualizer_svg.h"
#include "proc.h"
using mc::u64; using std::string; using std::vector;
struct El { string tag; std::map<string, string> at; vector<El> kids; string text; }; // comments: tag "!", text
namespace xml { // a small strict reader for the subset of XML without DTDs
struct Bad { string why; };
struct Rd {
	const string& s; size_t p = 0; explicit Rd(const string& t) : s(t) {}
	[[noreturn]] void bad(const string& w) { throw Bad{w + " at offset " + std::to_string(p) + " near \"" + s.substr(p, 30) + "\""}; }
	bool at(const char* c) { return s.compare(p, strlen(c), c) == 0; }
	void ws() { while (p < s.size() && strchr(" \t\r\n", s[p])) p++; }
	string name() { size_t b = p; while (p < s.size() && (isalnum((unsigned char)s[p]) || strchr("_:-.", s[p]))) p++; if (b == p || isdigit((unsigned char)s[b]) || s[b] == '-' || s[b] == '.') bad("name expected"); return s.substr(b, p - b); }
	string unent(const string& v) { string r; for (size_t i = 0; i < v.size(); i++) { if (v[i] == '<') bad("raw <"); if (v[i] != '&') { r += v[i]; continue; } size_t e = v.find(';', i); if (e == string::npos) bad("raw &"); string n = v.substr(i + 1, e - i - 1); if (n == "amp") r += '&'; else if (n == "lt") r += '<'; else if (n == "gt") r += '>'; else if (n == "quot") r += '"'; else if (n == "apos") r += '\''; else bad("unknown entity"); i = e; } return r; }
	std::map<string, string> attrs() {
		std::map<string, string> r;
		for (;;) { size_t b = p; ws(); if (p >= s.size()) bad("tag not closed"); if (at("/>") || at(">") || at("?>")) return r; if (b == p) bad("blank expected"); string n = name(); ws(); if (!at("=")) bad("= expected"); p++; ws(); if (p >= s.size() || (s[p] != '"' && s[p] != '\'')) bad("quote expected"); char q = s[p++]; size_t e = s.find(q, p); if (e == string::npos) bad("attribute not closed"); if (!r.emplace(n, unent(s.substr(p, e - p))).second) bad("attribute " + n + " twice"); p = e + 1; }
	}
	El comment() { p += 4; size_t e = s.find("--", p); if (e == string::npos || s.compare(e, 3, "-->")) bad("-- inside a comment"); El r; r.tag = "!"; r.text = s.substr(p, e - p); p = e + 3; return r; }
	El elem() {
		El r; p++; r.tag = name(); r.at = attrs();
		if (at("/>")) { p += 2; return r; }
		if (at("?>")) bad("?>"); p++;
		for (;;) {
			if (p >= s.size()) bad("element " + r.tag + " not closed");
			if (at("<!--")) { r.kids.push_back(comment()); continue; }
			if (at("</")) { p += 2; if (name() != r.tag) bad("wrong end tag"); ws(); if (!at(">")) bad("> expected"); p++; return r; }
			if (at("<")) { r.kids.push_back(elem()); continue; }
			size_t b = p; while (p < s.size() && s[p] != '<') p++; string t = unent(s.substr(b, p - b)); if (t.find("]]>") != string::npos) bad("]]>"); r.text += t;
		}
	}
	El doc() {
		if (!at("<?xml ")) bad("no XML declaration"); p += 5; auto d = attrs(); if (!at("?>")) bad("?> expected"); p += 2;
		if (d["version"] != "1.0") bad("version"); string enc; for (char c : d["encoding"]) if (c != '-') enc += tolower(c); if (d.count("encoding") && enc != "utf8") bad("encoding");
		ws(); while (at("<!--")) { comment(); ws(); } if (!at("<")) bad("no root element"); El r = elem(); ws(); while (at("<!--")) { comment(); ws(); } if (p != s.size()) bad("text after the root element"); return r;
	}
};
}
static bool num(const string& s, Real& v) { if (s.empty() || strchr(" \t\n", s[0])) return false; char* e; v = strtold(s.c_str(), &e); return !*e && std::isfinite((double)v); }
static bool close(Real a, Real b) { return std::fabs(a - b) <= 1e-5L * std::max<Real>(1e-30L, std::max(std::fabs(a), std::fabs(b))); } // six significant digits
static string dec(Real v) { std::ostringstream o; o << v; return o.str(); }
// ---- model: what is drawn
struct Pen { int stroke, fill; }; // indices below
struct Shp { int kind; vector<Real> c; Pen pen; }; // kinds: 0 rect x y w h, 1 circle x y r, 2 ellipse x y rx ry, 3 polygon, 4 line, 5 polyline
static const char* TAG[] = {"rect", "circle", "ellipse", "polygon", "line", "polyline"};
struct Box { Real x0 = 0, x1 = 0, y0 = 0, y1 = 0; void add(Real x, Real y) { x0 = std::min(x0, x); x1 = std::max(x1, x); y0 = std::min(y0, y); y1 = std::max(y1, y); } };
static void addBox(Box& b, const Shp& s) {
	auto& c = s.c;
	if (s.kind == 0) b.add(c[0], c[1]), b.add(c[0] + c[2], c[1] + c[3]);
	else if (s.kind == 1) b.add(c[0] - c[2], c[1] - c[2]), b.add(c[0] + c[2], c[1] + c[2]);
	else if (s.kind == 2) b.add(c[0] - c[2], c[1] - c[3]), b.add(c[0] + c[2], c[1] + c[3]);
	else for (size_t i = 0; i + 1 < c.size(); i += 2) b.add(c[i], c[i + 1]);
}
static const Real SW = 0.25L;
static std::optional<Stroke> strokeOf(int k) {
	if (k == 0) return {};
	Stroke s(k % 2 ? RED : Color(0x01, 0x0a, 0x10), SW * k, k < 3);
	if (k == 2) s.linecap = Linecap::BUTT; if (k == 3) s.linecap = Linecap::ROUND, s.linejoin = Linejoin::BEVEL; if (k == 4) s.linecap = Linecap::SQUARE, s.linejoin = Linejoin::MITER; if (k == 5) s.linejoin = Linejoin::ROUND;
	return s;
}
static std::map<string, string> strokeAt(int k) {
	std::map<string, string> r; if (k == 0) { r["stroke"] = "none"; return r; }
	r["stroke"] = k % 2 ? "#ff0000" : "#010a10"; r["stroke-width"] = dec(SW * k); if (k >= 3) r["vector-effect"] = "non-scaling-stroke";
	if (k == 2) r["stroke-linecap"] = "butt"; if (k == 3) r["stroke-linecap"] = "round", r["stroke-linejoin"] = "bevel"; if (k == 4) r["stroke-linecap"] = "square", r["stroke-linejoin"] = "miter"; if (k == 5) r["stroke-linejoin"] = "round";
	return r;
}
static std::optional<Fill> fillOf(int k) { if (k == 0) return {}; return Fill(k == 1 ? CYAN : k == 2 ? Color(7_c) : Color(std::uint32_t(0xabcdef))); }
static string fillAt(int k) { return k == 0 ? "none" : k == 1 ? "#00ffff" : k == 2 ? "#070707" : "#abcdef"; }
template<class F> static void with(const Shp& s, F f) { // call f with the real object; constructor forms vary
	auto pen = [&](auto x) { x.stroke = strokeOf(s.pen.stroke); x.fill = fillOf(s.pen.fill); f(x); };
	auto& c = s.c; vector<Point> pts; if (s.kind == 3 || s.kind == 5) for (size_t i = 0; i + 1 < c.size(); i += 2) pts.emplace_back(c[i], c[i + 1]);
	bool alt = s.pen.fill % 2;
	switch (s.kind) {
		case 0: if (alt) pen(Rectangle(Point(c[0], c[1]), Dimension(c[2], c[3]))); else if (s.pen.stroke % 2) pen(Rectangle(c[0], c[1], Dimension(c[2], c[3]))); else if (s.pen.stroke % 4) pen(Rectangle(Point(c[0], c[1]), c[2], c[3])); else pen(Rectangle(c[0], c[1], c[2], c[3])); break;
		case 1: if (alt) pen(Circle(Point(c[0], c[1]), c[2])); else pen(Circle(c[0], c[1], c[2])); break;
		case 2: if (alt) pen(Ellipse(Point(c[0], c[1]), c[2], c[3])); else pen(Ellipse(c[0], c[1], c[2], c[3])); break;
		case 3: if (alt) { Polygon p; p.points = pts; pen(p); } else pen(Polygon(pts)); break;
		case 4: if (alt) pen(Line(Point(c[0], c[1]), Point(c[2], c[3]))); else pen(Line(c[0], c[1], c[2], c[3])); break;
		default: if (alt) { Polyline p; for (auto q : pts) p.points.push_back(q); pen(p); } else pen(Polyline(pts));
	}
}
static Real fy(Real y, Real h = 0) { return -(y + h); }
static string elemDiff(const El& e, const Shp& s) {
	if (e.tag != TAG[s.kind]) return "element " + e.tag + " instead of " + TAG[s.kind];
	if (!e.kids.empty() || e.text.find_first_not_of(" \t\n") != string::npos) return "element with content";
	auto a = e.at; std::map<string, string> ex = strokeAt(s.pen.stroke); ex["fill"] = fillAt(s.pen.fill);
	vector<std::pair<string, Real>> n; auto& c = s.c;
	if (s.kind == 0) n = {{"x", c[0]}, {"y", fy(c[1], c[3])}, {"width", c[2]}, {"height", c[3]}};
	if (s.kind == 1) n = {{"cx", c[0]}, {"cy", fy(c[1])}, {"r", c[2]}};
	if (s.kind == 2) n = {{"cx", c[0]}, {"cy", fy(c[1])}, {"rx", c[2]}, {"ry", c[3]}};
	if (s.kind == 4) n = {{"x1", c[0]}, {"y1", fy(c[1])}, {"x2", c[2]}, {"y2", fy(c[3])}};
	for (auto& q : n) { Real v; if (!a.count(q.first)) return "no attribute " + q.first; if (!num(a[q.first], v) || !close(v, q.second)) return q.first + "=\"" + a[q.first] + "\" instead of " + dec(q.second); a.erase(q.first); }
	if (s.kind == 3 || s.kind == 5) {
		if (!a.count("points")) return "no points"; string t = a["points"]; for (char& x : t) if (x == ',') x = ' '; std::istringstream i(t); vector<Real> g; string w; while (i >> w) { Real v; if (!num(w, v)) return "bad number in points"; g.push_back(v); }
		if (g.size() != c.size()) return std::to_string(g.size()) + " coordinates instead of " + std::to_string(c.size()); for (size_t k = 0; k < c.size(); k++) if (!close(g[k], k % 2 ? fy(c[k]) : c[k])) return "points=\"" + a["points"] + "\""; a.erase("points");
	}
	for (auto& q : ex) { Real v, w; if (!a.count(q.first)) return "no attribute " + q.first; string got = a[q.first]; if (q.first == "stroke-width" ? !(num(got, v) && num(q.second, w) && close(v, w)) : got != q.second) return q.first + "=\"" + got + "\" instead of " + q.second; a.erase(q.first); }
	if (!a.empty()) return "unexpected attribute " + a.begin()->first;
	return "";
}
struct Item { int shape = -1; string comment, raw; }; // shape index into all, comment or raw text
struct Model { vector<Item> items; Box box; };
static vector<Shp> ALL;
static string docDiff(const string& f, const Model& m) {
	try {
		El r = xml::Rd(f).doc(); if (r.tag != "svg") return "root element " + r.tag; if (r.at["xmlns"] != "http://www.w3.org/2000/svg") return "wrong namespace";
		std::istringstream vb(r.at["viewBox"]); vector<Real> v; string w; while (vb >> w) { Real x; if (!num(w, x)) return "bad viewBox"; v.push_back(x); }
		const Box& b = m.box; Real want[] = {b.x0, -b.y1, b.x1 - b.x0, b.y1 - b.y0};
		if (v.size() != 4) return "viewBox=\"" + r.at["viewBox"] + "\""; for (int k = 0; k < 4; k++) if (std::fabs(v[k] - want[k]) > 1e-6L + 1e-12L * std::fabs(want[k])) return "viewBox=\"" + r.at["viewBox"] + "\", expected " + dec(want[0]) + " " + dec(want[1]) + " " + dec(want[2]) + " " + dec(want[3]);
		size_t k = 0; string raw, text; for (auto& i : m.items) {
			if (!i.raw.empty()) { raw += i.raw; continue; }
			if (k >= r.kids.size()) return "only " + std::to_string(k) + " elements in the document";
			El& e = r.kids[k++];
			if (i.shape >= 0) { string d = elemDiff(e, ALL[i.shape]); if (!d.empty()) return "element " + std::to_string(k) + ": " + d; }
			else { if (e.tag != "!") return "element " + std::to_string(k) + ": no comment"; string a, c; for (char x : e.text) if (!strchr(" \n-", x)) a += x; for (char x : i.comment) if (!strchr(" \n-", x)) c += x; if (a != c) return "comment \"" + e.text + "\""; }
		}
		if (k != r.kids.size()) return std::to_string(r.kids.size() - k) + " additional elements, e.g. " + r.kids[k].tag;
		for (char x : r.text) if (!strchr(" \t\n", x)) text += x; if (text != raw) return "text \"" + text + "\" instead of \"" + raw + "\"";
		return "";
	} catch (xml::Bad& b) { return "not well formed: " + b.why; }
}
static string show(const Shp& s) { string r = TAG[s.kind]; for (Real v : s.c) r += " " + dec(v); return r + " pen " + std::to_string(s.pen.stroke) + "/" + std::to_string(s.pen.fill); }
static string fname() { proc::setup(); return proc::dir + "/i.svg"; }
static void wipe() { unlink(fname().c_str()); }
static string slurp() { return proc::get("i.svg"); }
int main(int argc, char** argv) {
	mc::init(argc, argv); mc::hangCpu = 20;
	// every shape over a coordinate alphabet, each pen
	vector<Real> A{-2.5L, -1, 0, 0.125L, 3}; if (mc::thorough) { A.push_back(100); A.push_back(-0.5L); A.push_back(1.0L / 3); }
	vector<Real> E{0, -1000000007.0L, 123456, 999999.5L, 1e9L, 1e-4L, -3e12L};
	vector<Real> P{0, 1, 0.5L, 7}; // lengths
	for (int al = 0; al < 2; al++) { auto& X = al ? E : A; auto LN = al ? vector<Real>{0, 1, 1e6L, 2e9L} : P;
		for (Real x : X) for (Real y : X) { int pen = ALL.size();
			auto pn = [&] { pen++; return Pen{pen % 6, pen / 6 % 4}; };
			for (Real l : LN) ALL.push_back({1, {x, y, l}, pn()});
			for (Real l : LN) for (Real k : LN) { ALL.push_back({0, {x, y, l, k}, pn()}); ALL.push_back({2, {x, y, l, k}, pn()}); }
			for (Real u : X) for (Real v : X) { ALL.push_back({4, {x, y, u, v}, pn()}); ALL.push_back({3, {x, y, u, v, v, y}, pn()}); ALL.push_back({5, {x, y, u, v}, pn()}); }
			ALL.push_back({3, {x, y}, pn()}); ALL.push_back({5, {x, y}, pn()}); }
	}
	for (int k = 0; k < 6; k++) { ALL.push_back({3, {}, {k, 1}}); ALL.push_back({5, {}, {k, 0}}); }
	for (int s = 0; s < 6; s++) for (int f = 0; f < 4; f++) { Pen p{s, f}; ALL.push_back({0, {1, 2, 3, 4}, p}); ALL.push_back({1, {-5, 1, 2}, p}); ALL.push_back({2, {1, -5, 2, 1}, p}); ALL.push_back({3, {0, 0, 1, 5, 2, 0}, p}); ALL.push_back({4, {-1, -1, 8, 2}, p}); ALL.push_back({5, {3, 3, -3, 3, -3, -3}, p}); }
	u64 nA = ALL.size();
	mc::parallel(64, [&](u64 c) { for (u64 i = c; i < nA; i += 64) {
		mc::current("shape", show(ALL[i])); mc::step(); mc::state(mc::hashStr(show(ALL[i]))); wipe(); Model m; m.items.push_back({(int)i}); addBox(m.box, ALL[i]);
		{ SVG g(fname()); with(ALL[i], [&](auto& s) { g << s; }); }
		mc::trace(); string d = docDiff(slurp(), m); if (!d.empty()) { mc::violation(string("shape:") + TAG[ALL[i].kind], show(ALL[i]) + ": " + d); }
		std::ostringstream o; with(ALL[i], [&](auto& s) { o << s; }); try { El e = xml::Rd(o.str()).elem(); d = elemDiff(e, ALL[i]); } catch (xml::Bad& b) { d = b.why; } if (!d.empty()) mc::violation(string("print:") + TAG[ALL[i].kind], show(ALL[i]) + " printed to a string: " + d);
	} });
	// colours: every byte per channel, printed with every state of the stream, without changing that state
	mc::parallel(256, [&](u64 v) { for (int ch = 0; ch < 3; ch++) for (int st = 0; st < 6; st++) {
		Color c(18, 52, 86); c[ch] = v; char want[16]; snprintf(want, sizeof want, "#%02x%02x%02x", c.r, c.g, c.b); std::ostringstream o, ref; mc::current("colour", want); mc::step(); mc::state(mc::comb(v * 3 + ch, st));
		for (auto* s : {&o, &ref}) { if (st == 1) *s << std::hex; if (st == 2) *s << std::setprecision(3) << std::fixed; if (st == 3) *s << std::setfill('*'); if (st == 4) *s << std::oct; if (st == 5) *s << std::boolalpha << std::showpos; }
		o << c; ref << want; for (auto* s : {&o, &ref}) *s << std::setw(6) << 17 << " " << std::setw(7) << 2.5L << " " << true;
		mc::trace(); if (o.str() != ref.str()) mc::violation("colour", string(want) + " with stream state " + std::to_string(st) + ": got \"" + o.str() + "\", expected \"" + ref.str() + "\"");
	} });
	// histories of drawing: shapes, comments, text, manipulators, explicit points, moves; chained in one expression or separate
	vector<int> pick; int base0 = nA - 24 * 6; for (int s = 0; s < 6; s++) { pick.push_back(base0 + 6 * 13 + s); } // one of each kind
	vector<Shp> extra{{4, {-7, 0, 0, 9}, {1, 0}}, {0, {20, 20, 1, 1}, {0, 1}}, {1, {0, 0, 0.5L}, {2, 2}}}; for (auto& s : extra) { pick.push_back(ALL.size()); ALL.push_back(s); }
	int NS = pick.size(), N = NS + 8, D = mc::thorough ? 4 : 3;
	static const char* ON[] = {"comment", "comment2", "endl", "text", "includeInBB(-4,11)", "enlarge", "move-assign", "write"};
	mc::parallel(mc::ipow(N, 2) * 2, [&](u64 hd) { int chained = hd % 2; for (u64 tl = 0; tl < mc::ipow(N, D - 2); tl++) {
		auto d = mc::digits(hd / 2 * mc::ipow(N, D - 2) + tl, N, D); string h; Model m; wipe(); bool any = false;
		if (chained && std::any_of(d.begin(), d.end(), [&](int o) { return o >= NS + 4; })) continue;
		auto apply = [&](int o) { if (o < NS) { m.items.push_back({pick[o]}); addBox(m.box, ALL[pick[o]]); any = true; } else if (o < NS + 2) { m.items.push_back({-1, o == NS ? "a comment" : "x -- y -> <&\" --> z-"}); any = true; } else if (o == NS + 2) any = true; else if (o == NS + 3) { m.items.push_back({-1, "", "txt&amp;"}); m.items.back().raw = "txt&"; any = true; } };
		for (int o : d) h += (o < NS ? show(ALL[pick[o]]) : string(ON[o - NS])) + (chained ? " << " : "; ");
		mc::current(chained ? "chained" : "history", h); mc::state(mc::hashStr(h));
		{
			std::optional<SVG> g; g.emplace(fname());
			if (chained) { // one expression: every prefix keeps the type the library gives it
				// first << second << rest, all combinations of static types through visitors
				auto put = [&](auto& os, int o, auto&& next) { mc::step(); apply(o); if (o < NS) with(ALL[pick[o]], [&](auto& s) { next(os << s); }); else if (o < NS + 2) next(os << Comment(o == NS ? "a comment" : "x -- y -> <&\" --> z-")); else if (o == NS + 2) next(os << std::endl); else next(os << "txt&amp;"); };
				put(*g, d[0], [&](auto& a) { put(a, d[1], [&](auto& b) { put(b, d[2], [&](auto& c) { if (d.size() > 3) put(c, d[3], [](auto&) {}); }); }); });
			} else for (int o : d) {
				mc::step(); apply(o);
				if (o < NS) with(ALL[pick[o]], [&](auto& s) { *g << s; });
				else if (o == NS) *g << Comment("a comment"); else if (o == NS + 1) *g << Comment("x -- y -> <&\" --> z-");
				else if (o == NS + 2) *g << std::endl; else if (o == NS + 3) *g << "txt&amp;";
				else if (o == NS + 4) { g->includeInBB(Point(-4, 11)); m.box.add(-4, 11); }
				else if (o == NS + 5) { g->origin -= {3, 2}; g->dimension += {6, 4}; m.box.x0 -= 3; m.box.y0 -= 2; m.box.x1 += 3; m.box.y1 += 2; }
				else if (o == NS + 6) { SVG t("/dev/null"); t = std::move(*g); g.reset(); wipe(); g.emplace("/dev/null"); *g = std::move(t); }
				else { g->write(); string f = slurp(); string e = any ? docDiff(f, m) : f == "<none>" ? "" : "file written although nothing was drawn"; if (!e.empty()) { mc::violation("write", h + ": after write(): " + e); break; } }
			}
		}
		mc::trace(); string f = slurp(), e = any ? docDiff(f, m) : f == "<none>" ? "" : "file written although nothing was drawn"; if (!e.empty()) mc::violation(chained ? "chained" : "history", h + ": " + e);
	} });
	// long shapes and long documents
	const vector<int> LN = {50, 101, 129, 257, 300, 1025, 1100, mc::thorough ? 70000 : 5000};
	vector<Shp> LS; for (int n : LN) for (int kind : {3, 5}) for (int v = 0; v < 4; v++) { Shp s{kind, {}, {v, (v + n) % 4}}; for (int i = 0; i < n; i++) { Real x = (i * 7919 % 1009) / 8.0L, y = (i * 104729 % 997) / 4.0L - 80; s.c.push_back(v % 2 ? x - 60 : x + 1); s.c.push_back(y); } int f = v < 2 ? n - 1 : n * 2 / 3; s.c[2 * f] = v % 2 ? -777.5L : 888.25L; s.c[2 * f + 1] = v < 2 ? 512.75L : -640.125L; LS.push_back(s); }
	int lb = ALL.size(); for (auto& s : LS) ALL.push_back(s);
	mc::parallel(LS.size(), [&](u64 i) { const Shp& s = LS[i]; string h = string(TAG[s.kind]) + " of " + std::to_string(s.c.size() / 2) + " points, variant " + std::to_string(i % 4); mc::current("long-shape", h); mc::step(); mc::trace(); mc::state(mc::hashStr(h)); wipe();
		Model m; m.items.push_back({lb + (int)i}); addBox(m.box, s); m.items.push_back({pick[0]}); addBox(m.box, ALL[pick[0]]); { SVG g(fname()); with(s, [&](auto& x) { g << x; }); with(ALL[pick[0]], [&](auto& x) { g << x; }); } string d = docDiff(slurp(), m); if (!d.empty()) mc::violation(string("long-shape:") + TAG[s.kind], h + ": " + d.substr(0, 300));
	});
	mc::parallel(LN.size() * 6, [&](u64 it) { int n = LN[it / 6], mul = it % 6 + 1; string h = std::to_string(n) + " shapes, every " + std::to_string(mul) + "th of the catalogue"; mc::current("long-document", h); mc::state(mc::hashStr(h)); wipe(); Model m;
		{ SVG g(fname()); for (int k = 0; k < n; k++) { if (k % 50 == 49) { g << Comment("number " + std::to_string(k)); m.items.push_back({-1, "number " + std::to_string(k)}); continue; } int i = (int)((u64)k * mul * 131 % nA); mc::step(); m.items.push_back({i}); addBox(m.box, ALL[i]); with(ALL[i], [&](auto& s) { g << s; }); if (k % 3 == 2) g << std::endl; if (k % 97 == 96) { g.includeInBB(Point(k / 8.0L, -k)); m.box.add(k / 8.0L, -k); } } }
		mc::trace(); string d = docDiff(slurp(), m); if (!d.empty()) mc::violation("long-document", h + ": " + d.substr(0, 300));
	});
	// comments: all short strings over a hostile alphabet stay inside one comment
	string CA = "-><!& a"; int CL = mc::thorough ? 6 : 5;
	mc::parallel(CA.size() * CA.size(), [&](u64 i) { for (int len = 2; len <= CL; len++) for (u64 t = 0; t < mc::ipow(CA.size(), len - 2); t++) {
		string c{CA[i / CA.size()], CA[i % CA.size()]}; u64 x = t; for (int k = 2; k < len; k++, x /= CA.size()) c += CA[x % CA.size()];
		mc::current("comment", c); mc::step(); mc::trace(); mc::state(mc::hashStr(c)); std::ostringstream o; o << "<g>" << Comment(c) << "<b/></g>"; string err;
		try { xml::Rd r(o.str()); string doc = o.str(); El e = xml::Rd(doc).elem(); if (e.kids.size() != 2 || e.kids[0].tag != "!" || e.kids[1].tag != "b") err = "comment does not stay one comment"; else { string a, b; for (char y : e.kids[0].text) if (!strchr(" -", y)) a += y; for (char y : c) if (!strchr(" -", y)) b += y; if (a != b) err = "text changed"; } } catch (xml::Bad& b) { err = b.why; }
		if (!err.empty()) mc::violation("comment", "Comment(\"" + c + "\") gives " + o.str() + ": " + err);
	} });
	mc::parallel(2 * 3 * 3, [&](u64 i) { // the program frame
		proc::setup(); string nm = i % 2 ? "case.1" : "t"; int extra = i / 2 % 3, draw = i / 6; string h = "name " + nm + " extra args " + std::to_string(extra) + " drawing " + std::to_string(draw); mc::current("program", h); mc::state(mc::hashStr(h)); mc::step(); unlink((proc::dir + "/" + nm + ".svg").c_str());
		proc::put(nm + ".in", "3 2\n"); proc::put(nm + ".ans", "7\n");
		Model m; if (draw > 0) m.items.push_back({pick[0]}), addBox(m.box, ALL[pick[0]]); if (draw > 1) m.items.push_back({pick[1]}), addBox(m.box, ALL[pick[1]]);
		int rc = proc::run("", [&] { vector<string> a{"vis", proc::dir + "/" + nm}; for (int k = 0; k < extra; k++) a.push_back("--x"); proc::Args Ar(a); Visualizer::init(Ar.argc(), Ar.argv()); Integer w = 0, x = 0; Visualizer::testIn >> w; Visualizer::testAns >> x; if (w != 3 || x != 7) std::exit(3); for (int k = 0; k < draw; k++) with(ALL[pick[k]], [&](auto& s) { Visualizer::image << s << std::endl; }); });
		string f = proc::get(nm + ".svg"), e = rc ? "exit " + std::to_string(rc) : draw ? docDiff(f, m) : f == "<none>" ? "" : "file written for an empty image"; mc::trace(); if (!e.empty()) mc::violation("program", h + ": " + e);
	});
	return mc::finish();
}
