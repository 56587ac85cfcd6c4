// V17: a read depends only on the remaining bytes: delivery in chunks through a non-seekable source,
// from a file, through moved streams, and interleaved with reads on another stream, must not matter.
#include "vh.h"
using namespace std;
struct ChunkBuf : streambuf { // hands out the bytes chunk by chunk, cannot seek
	vector<string> ch; size_t i = 0; string cur;
	explicit ChunkBuf(const string& s, unsigned cuts) {
		string c;
		for (size_t k = 0; k < s.size(); k++) { c += s[k]; if (cuts >> k & 1) { ch.push_back(c); c.clear(); } }
		if (!c.empty()) ch.push_back(c);
	}
	int_type underflow() override {
		if (i == ch.size()) return traits_type::eof();
		cur = ch[i++]; setg(&cur[0], &cur[0], &cur[0] + cur.size());
		return traits_type::to_int_type(cur[0]);
	}
};
static const int NOPS = 9;
static const char* NAME[] = {"string", "integer", "space", "newline", "eof", "real", "expectString(a)", "expectInt(1)", "strings(2)"};
static string op(InputStream& is, int o) {
	return vh::outcome([&]() -> string {
		switch (o) {
		case 0: return is.string();
		case 1: return to_string(is.integer());
		case 2: is.space(); return ".";
		case 3: is.newline(); return ".";
		case 4: is.eof(); return ".";
		case 5: { Real r = is.real(); ostringstream s; s << r; return s.str(); }
		case 6: is.expectString("a"); return ".";
		case 7: is.expectInt(1); return ".";
		case 8: { auto v = is.strings(2); return v[0] + "|" + v[1]; }
		}
		return "?";
	});
}
// the remaining reading operations (batches with both separators, ranges, patterns, constraints, expectations)
static const int NEXT = 36;
template<class V> static string joined(const V& v) { ostringstream s; for (auto& x : v) s << x << "|"; return s.str(); }
static string xop(InputStream& is, int o) {
	if (o < NOPS) return op(is, o);
	return vh::outcome([&]() -> string {
		ostringstream s; Constraint c;
		switch (o) {
		case 9: return joined(is.strings(2, NEWLINE));
		case 10: return joined(is.integers(2));
		case 11: return joined(is.integers(2, NEWLINE));
		case 12: return joined(is.integers(0, 2, 2, SPACE));
		case 13: return joined(is.integers(0, 9, 2, NEWLINE));
		case 14: return joined(is.reals(2));
		case 15: return joined(is.reals(2, NEWLINE));
		case 16: return joined(is.reals(0, 2, 2, SPACE));
		case 17: return joined(is.reals(0, 9, 2, NEWLINE));
		case 18: return to_string(is.integer(0, 2));
		case 19: return to_string(is.integer(0, 9));
		case 20: return is.string(1, 2);
		case 21: return is.string(1, 3);
		case 22: return is.string(regex("a|1"));
		case 23: return is.string(regex("[^x]*"));
		case 24: return joined(is.strings(regex("[aA1]"), 2, SPACE));
		case 25: return joined(is.strings(regex("[^x]*"), 1, 2, 2, NEWLINE));
		case 26: s << is.real(0, 1); return s.str();
		case 27: s << is.real(0, 9); return s.str();
		case 28: s << is.realStrict(0, 2, 0, 1); return s.str();
		case 29: s << is.realStrict(0, 9, 1, 3); return s.str();
		case 30: return joined(is.realsStrict(0, 9, 0, 1, 2, NEWLINE));
		case 31: is.expectString("B"); return ".";
		case 32: is.expectInt(2); return ".";
		case 33: is.expectReal(0.5); return ".";
		case 34: s << is.integer(0, 9, c); return s.str();
		case 35: return joined(is.integers(0, 9, c, 2, NEWLINE));
		}
		return "?";
	});
}
static bool failed(const string& r) { return r.rfind("verdict", 0) == 0 || r.rfind("EXC", 0) == 0; }
static string alone(const string& s, bool sp, bool cs, const vector<int>& ops, vector<string>* steps = nullptr) {
	ostringstream m; OutputStream os(m); istringstream in(s); InputStream is(in, sp, cs, os, Verdicts::WA);
	string r;
	for (int o : ops) { string x = op(is, o); mc::step(); r += x + ";"; if (steps) steps->push_back(x); if (failed(x)) break; }
	return r;
}
static string opsName(const vector<int>& ops) { string r; for (int o : ops) r += string(NAME[o]) + " "; return r; }
int main(int argc, char** argv) {
	mc::init(argc, argv);
	const string A("aB1 \n.", 6);
	int L = mc::thorough ? 6 : 5;
	string wd = getenv("MC_WD") ? getenv("MC_WD") : ".";
	mc::parallel(36, [&](mc::u64 it) {
		string pre = {A[it / 6], A[it % 6]};
		for (int len = 0; len <= L - 2; len++) for (mc::u64 k = 0; k < mc::ipow(6, len); k++) {
			string s = pre; for (int x : mc::digits(k, 6, len)) s += A[x];
			for (int mode = 0; mode < 4; mode++) for (int seq = 0; seq < NOPS * NOPS * NOPS; seq++) {
				vector<int> ops = mc::digits(seq, NOPS, 3);
				if (ops[0] == 4) continue;
				if ((mode == 1 || mode == 2) && s.size() > 4) continue;
				vector<string> st; string want = alone(s, mode & 1, mode & 2, ops, &st);
				// skip scripts which only differ after the failing operation
				if (st.size() < 3) { bool zero = true; for (size_t q = st.size(); q < 3; q++) zero &= ops[q] == 0; if (!zero) continue; }
				mc::current("chunks", "input \"" + mc::esc(s) + "\" ops " + opsName(ops));
				for (unsigned cuts = 0; cuts < (1u << (s.size() - 1)); cuts++) {
					if (s.size() > 4 && __builtin_popcount(cuts) > 1 && cuts != (1u << (s.size() - 1)) - 1) continue;
					ChunkBuf b(s, cuts); istream in(&b);
					ostringstream m; OutputStream os(m); InputStream is(in, mode & 1, mode & 2, os, Verdicts::WA);
					string got;
					for (int o : ops) { string x = op(is, o); mc::step(); got += x + ";"; if (failed(x)) break; }
					mc::trace(); mc::state(mc::comb(mc::hashStr(s), mc::comb(cuts, seq * 4 + mode)));
					if (got != want) mc::violation("chunked-delivery", "input \"" + mc::esc(s) + "\" cut mask " + to_string(cuts) + " ops [" + opsName(ops) + "] mode " + to_string(mode) + ": got " + mc::esc(got) + " expected " + mc::esc(want));
				}
			}
			if (it == 8 && k == 5) mc::sample("input \"" + mc::esc(s) + "\": all chunkings x all 3-operation scripts");
		}
	});
	// files, and streams moved between operations
	mc::parallel(6, [&](mc::u64 it) {
		string path = wd + "/in" + to_string(it);
		for (int len = 0; len <= 3; len++) for (mc::u64 k = 0; k < mc::ipow(6, len); k++) {
			string s(1, A[it]); for (int x : mc::digits(k, 6, len)) s += A[x];
			{ FILE* f = fopen(path.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
			for (int mode = 0; mode < 4; mode++) for (int seq = 0; seq < NOPS * NOPS; seq++) {
				vector<int> ops = mc::digits(seq, NOPS, 2);
				mc::current("file", "file \"" + mc::esc(s) + "\" ops " + opsName(ops));
				string want = alone(s, mode & 1, mode & 2, ops);
				ostringstream m; OutputStream os(m);
				auto is = make_unique<InputStream>(std::filesystem::path(path), mode & 1, mode & 2, os, Verdicts::WA);
				string got;
				for (int o : ops) { string x = op(*is, o); got += x + ";"; mc::step(); if (failed(x)) break; auto n = make_unique<InputStream>(std::move(*is)); is = move(n); }
				mc::trace(); mc::state(mc::comb(mc::hashStr("file" + s), seq * 4 + mode));
				if (got != want) mc::violation("file-or-moved", "file \"" + mc::esc(s) + "\" ops [" + opsName(ops) + "]: got " + mc::esc(got) + " expected " + mc::esc(want));
			}
		}
		unlink(path.c_str());
	});
	// two streams with different settings, all interleavings of two scripts
	const vector<string> IN = {"a 1\n", "A\n1\n", "1 a", "0.5\na\n", " 1", "1  1\n", "aB a", ""};
	vector<vector<int>> SC; for (int a = 0; a < NOPS; a++) for (int b = 0; b < NOPS; b++) SC.push_back({a, b});
	mc::parallel(IN.size() * IN.size(), [&](mc::u64 it) {
		const string &x = IN[it / IN.size()], &y = IN[it % IN.size()];
		for (auto& sx : SC) for (auto& sy : SC) for (int mode = 0; mode < 2; mode++) {
			vector<string> wx, wy; alone(x, mode, mode, sx, &wx); alone(y, !mode, !mode, sy, &wy);
			for (int mask : {3, 5, 6, 9, 10, 12}) {
				mc::current("interleaved", mc::esc(x) + " / " + mc::esc(y));
				ostringstream m; OutputStream os(m); istringstream ia(x), ib(y);
				InputStream a(ia, mode, mode, os, Verdicts::WA), b(ib, !mode, !mode, os, Verdicts::WA);
				size_t pa = 0, pb = 0; bool stop = false;
				for (int q = 0; q < 4 && !stop; q++) {
					bool first = mask >> q & 1;
					string got = first ? op(a, sx[pa]) : op(b, sy[pb]); mc::step();
					string want = first ? wx[pa] : wy[pb];
					if (got != want) { mc::violation("interleaved", "two streams \"" + mc::esc(x) + "\", \"" + mc::esc(y) + "\" mask " + to_string(mask) + ": got " + got + " expected " + want); stop = true; }
					if (failed(want)) stop = true; // the program ends here
					(first ? pa : pb)++;
				}
				mc::trace();
			}
		}
	});
	// pairs and triples of all reading operations on two streams: a read on one stream (or an earlier
	// one on the same stream) must not change what a later read on the other stream does
	const vector<string> IN2 = {"a\nB\n", "1 2\n3", "2\n1\n", "1\n9 1", "0.5 1 2", "0.5\n2.0\n1", "A 1", "b\na"};
	auto one = [](const string& s, int mode, int o) {
		ostringstream m; OutputStream os(m); istringstream in(s); InputStream is(in, mode, mode, os, Verdicts::WA);
		return xop(is, o);
	};
	mc::parallel(IN2.size() * IN2.size(), [&](mc::u64 it) {
		const string &x = IN2[it / IN2.size()], &y = IN2[it % IN2.size()];
		for (int mode = 0; mode < 2; mode++) {
			vector<string> wx(NEXT), wy(NEXT); for (int o = 0; o < NEXT; o++) { wx[o] = one(x, mode, o); wy[o] = one(y, !mode, o); }
			for (int p = 0; p < NEXT; p++) {
				if (failed(wx[p])) continue; // the program ends here
				// what the first stream does next if nothing else happens
				vector<string> wr(NEXT); for (int r = 0; r < NEXT; r++) {
					ostringstream m; OutputStream os(m); istringstream in(x); InputStream is(in, mode, mode, os, Verdicts::WA);
					xop(is, p); wr[r] = xop(is, r);
				}
				for (int q = 0; q < NEXT; q++) {
					for (int r = 0; r < NEXT; r++) {
						mc::current("pairs", mc::esc(x) + " / " + mc::esc(y) + " ops " + to_string(p) + "," + to_string(q) + "," + to_string(r));
						ostringstream m; OutputStream os(m); istringstream ia(x), ib(y);
						InputStream a(ia, mode, mode, os, Verdicts::WA), b(ib, !mode, !mode, os, Verdicts::WA);
						xop(a, p); string got = xop(b, q); mc::step(2); mc::trace();
						if (got != wy[q]) { mc::violation("interleaved-batch", "first stream \"" + mc::esc(x) + "\" operation " + to_string(p) + ", second stream \"" + mc::esc(y) + "\" operation " + to_string(q) + " mode " + to_string(mode) + ": got " + mc::esc(got) + " expected " + mc::esc(wy[q])); break; }
						if (failed(got)) break;
						string g2 = xop(a, r); mc::step();
						if (g2 != wr[r]) mc::violation("interleaved-batch", "first stream \"" + mc::esc(x) + "\" operations " + to_string(p) + "," + to_string(r) + ", between them second stream \"" + mc::esc(y) + "\" operation " + to_string(q) + " mode " + to_string(mode) + ": got " + mc::esc(g2) + " expected " + mc::esc(wr[r]));
						mc::state(mc::comb(mc::hashStr(x + "/" + y), (p * NEXT + q) * NEXT + r));
						if (mode && !mc::thorough && (p + q) % 3) break;
					}
				}
			}
		}
	});
	// long tokens and long runs of whitespace, delivered in pieces of any size or at once
	struct PieceBuf : streambuf { string s; size_t p = 0, k; PieceBuf(string s_, size_t k_) : s(std::move(s_)), k(k_) {} int_type underflow() override { if (p >= s.size()) return traits_type::eof(); size_t n = min(k, s.size() - p); setg(&s[p], &s[p], &s[p] + n); p += n; return traits_type::to_int_type(*gptr()); } };
	vector<pair<size_t, size_t>> lt; for (size_t n : {1, 80, 255, 256, 1000, 1023, 1024, 1025, 4096, 8191, 8192, 32768, 65535, 65536, 65537, 100000, 1000000, 3000000}) for (size_t w : {1, 2, 300, 5000, 70000, 300000}) if (n + w < 400000 || w < 3) lt.push_back({n, w});
	mc::parallel(lt.size(), [&](mc::u64 it) {
		auto [n, w] = lt[it]; string tok; for (size_t i = 0; i < n; i++) tok += char('!' + (i * 7 + i / 90) % 90);
		string low = tok; for (char& c : low) if (c >= 'A' && c <= 'Z') c += 32;
		string d = getenv("MC_WD") ? getenv("MC_WD") : "/tmp", path = d + "/long" + to_string(getpid()); mc::state(mc::comb(n, w));
		for (int strict = 0; strict < 2; strict++) for (int cs = 0; cs < 2; cs++) for (int del = 0; del < 6; del++) {
			string gap = strict ? "\n" : string(w / 2, ' ') + string(w - w / 2, '\n'), text = (strict ? "" : gap) + tok + gap + "12" + (strict ? " " : gap) + tok + (strict ? "" : gap);
			mc::current("long", "token of " + to_string(n) + " characters, gaps of " + to_string(gap.size()) + ", delivery " + to_string(del));
			ostringstream m; OutputStream os(m); istringstream si(text); PieceBuf pb(text, del == 1 ? 1 : del == 2 ? 7 : del == 3 ? 4096 : 65536); istream pi(&pb); ifstream fi; if (del == 5) { ofstream(path) << text; fi.open(path); }
			istream& in = del == 0 ? (istream&)si : del == 5 ? (istream&)fi : pi; InputStream is(in, strict, cs, os, Verdicts::WA);
			string got = vh::outcome([&]() -> string { string a = is.string(); is.newline(); Integer x = is.integer(); is.space(); string b = is.string(Integer(n), Integer(n) + 1); is.eof(); const string& want = cs ? tok : low; return string(a == want ? "" : "first token of " + to_string(a.size()) + " characters differs; ") + (x == 12 ? "" : "integer differs; ") + (b == want ? "ok" : "last token differs"); });
			mc::step(6); mc::trace(); if (got != "ok") mc::violation("long", "token of " + to_string(n) + " characters, gaps of " + to_string(gap.size()) + ", strict " + to_string(strict) + ", delivery " + to_string(del) + ": " + got);
		}
		unlink(path.c_str());
	});
	return mc::finish();
}
