#ifndef REF_UTF8_H
#define REF_UTF8_H
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
typedef unsigned char u8;
/*--- Reference codec, from the documented format ---*/
static inline int ref_first_len(u8 c) { return c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF8 ? 4 : c < 0xFC ? 5 : 6; }
static inline bool ref_cont(u8 c) { return c >= 0x80 && c < 0xC0; }
static inline bool ref_illegal(uint32_t c) { return (c >= 0x80000000u && c <= 0x800000FFu) || c == 0xFFFFFFFFu; }
static inline int ref_encode(uint32_t c, u8* out)
{
	if (ref_illegal(c)) { out[0] = c & 0xFF; return 1; }
	int n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6;
	if (n == 1) { out[0] = c; return 1; }
	static const u8 lead[] = {0,0,0xC0,0xE0,0xF0,0xF8,0xFC};
	for (int i = n-1; i > 0; i--) { out[i] = 0x80 | (c & 0x3F); c >>= 6; }
	out[0] = lead[n] | c;
	return n;
}
// Decode at s (of which n bytes are left); returns length
static inline int ref_decode(const u8* s, size_t n, uint32_t& ch)
{
	int	len = ref_first_len(s[0]);
	bool	ok = len > 0 && (size_t)len <= n;
	for (int i = 1; ok && i < len; i++) ok = ref_cont(s[i]);
	if (!ok) { ch = 0x80000000u | s[0]; return 1; }
	static const u8 mask[] = {0, 0x7F, 0x1F, 0x0F, 0x07, 0x03, 0x03};
	ch = s[0] & mask[len];
	for (int i = 1; i < len; i++) ch = ch << 6 | (s[i] & 0x3F);
	return len;
}
static inline std::string hex(const u8* s, size_t n) { std::string o; char b[4]; for (size_t i = 0; i < n; i++) { snprintf(b, sizeof b, "%02X ", s[i]); o += b; } return o; }

typedef std::vector<uint32_t> Chars;
// The byte offsets at which the characters of s start, and its end
static inline std::vector<size_t> ref_offsets(const std::string& s, Chars* chars = 0)
{
	std::vector<size_t> o;
	size_t i = 0;
	while (i < s.size()) { uint32_t ch; o.push_back(i); i += ref_decode((const u8*)s.data()+i, s.size()-i, ch); if (chars) chars->push_back(ch); }
	o.push_back(s.size());
	return o;
}
static inline Chars ref_chars(const std::string& s) { Chars c; ref_offsets(s, &c); return c; }
static inline std::string ref_utf8(uint32_t ch) { u8 b[8]; int n = ref_encode(ch, b); return std::string((char*)b, n); }
static inline std::string ref_utf8(const Chars& c) { std::string s; for (uint32_t ch : c) s += ref_utf8(ch); return s; }
// len characters from character at
static inline std::string ref_sub(const std::string& s, size_t at, size_t len) { auto o = ref_offsets(s); return s.substr(o[at], o[at+len]-o[at]); }
static inline std::string show(const std::string& s)
{
	std::string o = "\""; char b[8];
	for (u8 ch : s) if (ch < 32 || ch >= 127 || ch == '"' || ch == '\\') { snprintf(b, sizeof b, "\\x%02X", ch); o += b; } else o += ch;
	return o + "\"";
}
// White space, as char_encoding.h lists it
static inline bool ref_white(uint32_t c)
{
	return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == 0xA0 || (c >= 0x2000 && c <= 0x200B) || c == 0x2028 || c == 0x2029 || c == 0x3000;
}

#endif
