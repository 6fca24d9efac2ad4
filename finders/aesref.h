#pragma once
// independent AES-256 (FIPS-197), tables computed from the definition
namespace aesref {
using u8 = unsigned char;
inline u8 gmul(u8 a, u8 b) { u8 r = 0; for (; b; b >>= 1) { if (b & 1) r ^= a; a = (u8)(a << 1) ^ (a & 0x80 ? 0x1b : 0); } return r; }
inline u8 sb(u8 a) { u8 b = 0; if (a) for (int x = 1; x < 256; x++) if (gmul(a, (u8)x) == 1) b = (u8)x; u8 r = 0x63; for (int k = 0; k < 5; k++) r ^= (u8)(b << k | b >> (8 - k)); return r; }
inline const std::array<u8, 256>& S() { static const auto t = [] { std::array<u8, 256> t{}; for (int i = 0; i < 256; i++) t[i] = sb((u8)i); return t; }(); return t; }
inline std::array<u8, 240> expand(const std::array<u8, 32>& k) {
	std::array<u8, 240> w{}; std::copy(k.begin(), k.end(), w.begin()); u8 rc = 1;
	for (int i = 8; i < 60; i++) { u8 t[4]; for (int j = 0; j < 4; j++) t[j] = w[4 * (i - 1) + j];
		if (i % 8 == 0) { u8 z = t[0]; t[0] = S()[t[1]] ^ rc; t[1] = S()[t[2]]; t[2] = S()[t[3]]; t[3] = S()[z]; rc = gmul(rc, 2); } else if (i % 8 == 4) for (auto& x : t) x = S()[x];
		for (int j = 0; j < 4; j++) w[4 * i + j] = w[4 * (i - 8) + j] ^ t[j]; }
	return w;
}
inline std::array<u8, 16> enc(const std::array<u8, 240>& w, std::array<u8, 16> s) {
	for (int i = 0; i < 16; i++) s[i] ^= w[i];
	for (int r = 1; r <= 14; r++) { std::array<u8, 16> t; for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) t[4 * c + i] = S()[s[4 * ((c + i) % 4) + i]];
		if (r < 14) { auto q = t; for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) t[4 * c + i] = gmul(2, q[4 * c + i]) ^ gmul(3, q[4 * c + (i + 1) % 4]) ^ q[4 * c + (i + 2) % 4] ^ q[4 * c + (i + 3) % 4]; }
		for (int i = 0; i < 16; i++) s[i] = t[i] ^ w[16 * r + i]; }
	return s;
}
template<std::size_t N> std::string hex(const std::array<u8, N>& a) { std::string r; char b[3]; for (u8 x : a) snprintf(b, 3, "%02x", x), r += b; return r; }
}
