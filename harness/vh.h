// vh.h -- validate.h with the documented Settings overrides used by the in-process harnesses:
// verdicts become exceptions (they must still be the *only* thing that leaves a read), and the
// random engine is an environment whose every output is chosen by the explorer.
#pragma once
#include "mc.h"
#include <memory>
struct VerdictExit { int code; };
namespace env {
	inline std::function<mc::u64()>* source = nullptr; // answers of the engine
	inline mc::u64 draws = 0;
	inline mc::u64 lastSeed = 0, seeds = 0;
}
struct EnvEngine {
	using result_type = std::uint64_t;
	static constexpr result_type min() { return 0; }
	static constexpr result_type max() { return ~std::uint64_t(0); }
	EnvEngine() {}
	explicit EnvEngine(result_type s) { env::lastSeed = s; }
	void seed(result_type s = 0) { env::lastSeed = s; env::seeds++; }
	result_type operator()() { env::draws++; if (!env::source) throw std::runtime_error("engine used without source"); return (*env::source)(); }
	void discard(unsigned long long n) { while (n--) (*this)(); }
};
namespace Settings {
#ifndef VH_DEFAULT_ENGINE
	using RandomEngine = EnvEngine;
#endif
	[[noreturn]] inline void exitVerdict(int exitCode) { throw VerdictExit{exitCode}; }
}
#include "validate.h"

using mc::u64;
namespace vh {
using mc::u64;
// outcome of a piece of code: value text, or verdict code, or exception type
template<class F> std::string outcome(F f) {
	try { return f(); }
	catch (const VerdictExit& v) { return "verdict" + std::to_string(v.code); }
	catch (const std::invalid_argument& e) { return "refused"; }
	catch (const std::domain_error& e) { return "refused"; }
	catch (const std::out_of_range& e) { return "EXC out_of_range"; }
	catch (const std::logic_error& e) { return "EXC logic_error"; }
	catch (const std::exception& e) { return std::string("EXC ") + e.what(); }
	catch (...) { return "EXC unknown"; }
}
template<class F> bool refuses(F f) { // documented way of refusing: an exception derived from std::exception
	try { f(); return false; } catch (const VerdictExit&) { return false; } catch (const std::exception&) { return true; }
}
// the k-th of D equally spaced engine words: hits every bucket [i*2^64/s,(i+1)*2^64/s) of every
// divisor s of D exactly D/s times, always at least 2^64/(2D) away from every bucket boundary
inline u64 gridWord(u64 k, u64 D) {
	// floor((2k+1) * 2^64 / (2D))
	u64 a = 2 * k + 1, b = 2 * D; // a < b, long division without 128 bit
	u64 q = 0, r = a;
	for (int i = 0; i < 64; i++) { r <<= 1; q <<= 1; if (r >= b) { r -= b; q |= 1; } }
	return q + 0x10000000001ull; // off the exact bucket centres: their products with small ranges have no low bits and would be rejected
}
// run body under every sequence of grid words (complete choice tree). first: fix the first choices.
// body() is called once per leaf. Returns number of leaves.
inline bool gridCapped = false; // the tree was larger than any tree of the expected draws
template<class Body> u64 exploreGrid(u64 D, Body body, const std::vector<unsigned>& first = {}) {
	std::vector<u64> words(D);
	for (u64 k = 0; k < D; k++) words[k] = gridWord(k, D);
	mc::Chooser c; u64 leaves = 0; gridCapped = false; const u64 cap = mc::thorough ? 900000000 : 60000000;
	for (unsigned f : first) { c.pre.push_back(f); c.n.push_back(D); }
	u64 extra = 0; std::function<u64()> src = [&]() -> u64 { if (c.pos >= 24) return mc::mix(++extra); return words[c.choose((unsigned)D)]; };
	env::source = &src;
	for (;;) {
		c.pos = 0;
		body();
		leaves++; mc::trace(); mc::step(c.pos);
		if (c.pos < first.size()) { c.pos = c.pos; }
		if (!c.next()) break;
		if (leaves >= cap) { gridCapped = true; break; }
		bool stop = c.pre.size() <= first.size() && !first.empty();
		if (stop) break;
	}
	env::source = nullptr;
	return leaves;
}
// fixed script of engine words; beyond its end a fallback stream (splitmix) is used
struct Script {
	std::vector<u64> w; size_t pos = 0; u64 fb = 0x1234567; std::function<u64()> fn;
	explicit Script(std::vector<u64> w_, u64 fb_ = 0x1234567) : w(std::move(w_)), fb(fb_) {
		fn = [this]() -> u64 { if (pos < w.size()) return w[pos++]; pos++; if (pos > limit) throw std::runtime_error("draw limit"); fb += 0x9e3779b97f4a7c15ull; return mc::mix(fb); };
		env::source = &fn;
	}
	size_t limit = 1u << 22;
	~Script() { env::source = nullptr; }
};
}
