// portable exact modular arithmetic used as reference (no 128-bit types)
#pragma once
namespace ref {
typedef unsigned long long U; typedef long long I;
inline U mulmod(U a, U b, U m) { // schoolbook 64x64->128 in 32-bit limbs, then shift-subtract
	U a0 = a & 0xffffffffu, a1 = a >> 32, b0 = b & 0xffffffffu, b1 = b >> 32;
	U p00 = a0 * b0, p01 = a0 * b1, p10 = a1 * b0, p11 = a1 * b1;
	U mid = (p00 >> 32) + (p01 & 0xffffffffu) + (p10 & 0xffffffffu);
	U lo = (p00 & 0xffffffffu) | (mid << 32), hi = p11 + (p01 >> 32) + (p10 >> 32) + (mid >> 32);
#ifdef __SIZEOF_INT128__
	return (U)((((unsigned __int128)hi << 64) | lo) % m);
#else
	U r = 0;
	for (int i = 127; i >= 0; i--) { bool top = r >> 63; r = (r << 1) | ((i >= 64 ? hi >> (i - 64) : lo >> i) & 1); if (top || r >= m) r -= m; }
	return r;
#endif
}
inline U powmod(U b, U e, U m) { U r = 1 % m; b %= m; while (e) { if (e & 1) r = mulmod(r, b, m); b = mulmod(b, b, m); e >>= 1; } return r; }
inline U mod(I x, U m) { U a = x < 0 ? 0 - (U)x : (U)x; a %= m; return x < 0 && a ? m - a : a; }
inline U gcd(U a, U b) { while (b) { U t = a % b; a = b; b = t; } return a; }
inline bool prime(I n) { // Miller-Rabin with the first 12 primes: proven for n < 3.3e24
	if (n < 2) return false; static const int p[12] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37};
	for (int q : p) if (n % q == 0) return n == q;
	U d = (U)n - 1; int s = 0; while (d % 2 == 0) d /= 2, s++;
	for (int q : p) { U v = powmod(q, d, n); if (v == 1 || v == (U)n - 1) continue; bool ok = false; for (int i = 1; i < s && !ok; i++) { v = mulmod(v, v, n); ok = v == (U)n - 1; } if (!ok) return false; }
	return true;
}
}
