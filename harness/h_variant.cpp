/*
 * C16: every sequence of construction, assignment, conversion and change of several Variants, compared
 * after each one with plain values. C11: the JSON of every nested value of bounded size, parsed back.
 */
#define MC_MAIN
#include "mc.h"
#include <climits>
#include <cassert>
#include <exception>
#include <memory>

typedef mc_refused Refused;		// An assertion refuses what is asked for, see throwing/assert.h

#define printf(...) ((void)0)		// must_be() announces what it refuses
#include <variant.h>
#undef printf

using mc::Ctx;
typedef std::string S;

struct MV {
	Variant::VariantType t;
	long long n;
	S s;
	std::vector<MV> a;		// of either kind of array
	std::map<S, MV> m;
	MV(Variant::VariantType t_ = Variant::None, long long n_ = 0) : t(t_), n(n_) {}
	bool operator==(const MV& o) const { return t == o.t && n == o.n && s == o.s && a == o.a && m == o.m; }
};
static MV str(const S& s) { MV v(Variant::String); v.s = s; return v; }

static S bytes(const StrVal& v) { StrValIndex n; const char* p = v.asUTF8(n); return S(p, n); }
static StrVal strval(const S& s) { return StrVal(s.data(), (StrValIndex)s.size()); }

static S show(const MV& v)
{
	S r;
	switch (v.t) {
	case Variant::None:	return "None";
	case Variant::Integer:	return std::to_string(v.n);
	case Variant::Long:	return std::to_string(v.n)+"L";
	case Variant::LongLong:	return std::to_string(v.n)+"LL";
	case Variant::String:
		for (unsigned char ch : v.s) { char b[8]; if (ch < 32 || ch > 126 || ch == '"') snprintf(b, sizeof b, "\\x%02X", ch); else snprintf(b, sizeof b, "%c", ch); r += b; }
		return "\""+r+"\"";
	case Variant::StrArray:	for (auto& e : v.a) r += (r.size() ? "," : "")+show(e); return "S["+r+"]";
	case Variant::VarArray:	for (auto& e : v.a) r += (r.size() ? "," : "")+show(e); return "["+r+"]";
	default:		for (auto& e : v.m) r += (r.size() ? "," : "")+show(str(e.first))+":"+show(e.second); return "{"+r+"}";
	}
}

// The value of a variant, through the accessors of its type
static MV value(const Variant& v)
{
	MV r(v.type());
	switch (v.type()) {
	case Variant::None:	break;
	case Variant::Integer:	r.n = v.as_int(); break;
	case Variant::Long:	r.n = v.as_long(); break;
	case Variant::LongLong:	r.n = v.as_longlong(); break;
	case Variant::String:	r.s = bytes(v.as_strval()); break;
	case Variant::StrArray:	{ const StringArray a = v.as_string_array(); for (unsigned i = 0; i < a.length(); i++) r.a.push_back(str(bytes(a[i]))); break; }
	case Variant::VarArray:	{ const VariantArray a = v.as_variant_array(); for (unsigned i = 0; i < a.length(); i++) r.a.push_back(value(a[i])); break; }
	case Variant::StrVarMap: { const StrVariantMap m = v.as_variant_map(); for (auto i = m.begin(); i != m.end(); i++) r.m[bytes(i->first)] = value(i->second); break; }
	}
	return r;
}

// The same value, made as a new variant
static Variant make(const MV& v)
{
	switch (v.t) {
	case Variant::None:	return Variant();
	case Variant::Integer:	return Variant((int)v.n);
	case Variant::Long:	return Variant((long)v.n);
	case Variant::LongLong:	return Variant((long long)v.n);
	case Variant::String:	return Variant(strval(v.s));
	case Variant::StrArray:	{ StringArray a; for (auto& e : v.a) a.append(strval(e.s)); return Variant(a); }
	case Variant::VarArray:	{ VariantArray a; for (auto& e : v.a) a.append(make(e)); return Variant(a); }
	default:		{ StrVariantMap m; for (auto& e : v.m) m.put(strval(e.first), make(e.second)); return Variant(m); }
	}
}

/*--- C16 ---*/
static const int NV = 3;
struct World {
	Variant v[NV]; MV m[NV];
	void check(Ctx& c) {
		static const char* names[] = {"None", "Integer", "Long", "LongLong", "String", "StrArray", "VarArray", "StrVarMap"};
		for (int i = 0; i < NV; i++) {
			if (v[i].type() != m[i].t || strcmp(v[i].type_name(), names[m[i].t]) || v[i].is_null() != (m[i].t == Variant::None))
				c.fail("variant %d has type %s, expected %s", i, v[i].type_name(), show(m[i]).c_str());
			MV g = value(v[i]);
			if (!(g == m[i])) c.fail("variant %d holds %s, expected %s", i, show(g).c_str(), show(m[i]).c_str());
		}
	}
};
static const long long NUMS[] = { 42, -1, INT_MAX, INT_MIN, (long long)INT_MAX+1, (long long)INT_MIN-1, LLONG_MAX, LLONG_MIN, 0 };
static const char* const TEXTS[] = { "42", "", "-7", "abc", "2147483647", "-2147483648", "2147483648", "9223372036854775807", "\xC3\xA9", "0", "12a", "0x1F", " 5 ", "-", "99999999999999999999" };
// Texts that are the decimal form of an int must convert, others that are not numbers must not
static bool decimal(const S& s, long long& n)
{
	if (s.empty() || s.size() > 20) return false;
	n = 0; size_t i = s[0] == '-';
	if (i == s.size() || (s[i] == '0' && s.size() > i+1)) return false;
	__int128 x = 0;
	for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; x = x*10 + (s[i]-'0'); }
	if (s[0] == '-') x = -x;
	if (x > LLONG_MAX || x < LLONG_MIN) return false;
	n = x; return true;
}
static bool refused;
template<class F> static bool refuses(F f) { try { f(); } catch (Refused&) { return true; } return false; }

static void convert(Ctx& c, World& w, int i)
{
	static const Variant::VariantType to[] = { Variant::Integer, Variant::Long, Variant::LongLong, Variant::String, Variant::StrArray, Variant::VarArray, Variant::StrVarMap };
	Variant::VariantType t = to[c.choose(7)];
	Variant& v = w.v[i]; MV& m = w.m[i]; MV was = m;
	bool cp = c.flip();		// convert the value itself, or only a copy
	c.note("variant %d, %s, %sas %s\n", i, show(m).c_str(), cp ? "copied, " : "", Variant::type_names[t]); c.setkey("%s as %s", Variant::type_names[m.t], Variant::type_names[t]);
	Variant copy(v); Variant& u = cp ? copy : v;
	const Variant& cu = u;
	enum { MUST, MUST_NOT, MAY } want = MUST_NOT;
	long long n = m.n; S s = m.s;
	bool isnum = m.t == Variant::Integer || m.t == Variant::Long || m.t == Variant::LongLong;
	bool tonum = t == Variant::Integer || t == Variant::Long || t == Variant::LongLong;
	bool fits = false;
	if (t == m.t) want = MUST;
	else if (isnum && t == Variant::String) { want = MUST; s = std::to_string(n); }
	else if (isnum && tonum) { fits = t != Variant::Integer || (n <= INT_MAX && n >= INT_MIN); want = fits ? MUST : MUST_NOT; }
	else if (m.t == Variant::String && tonum) {
		if (decimal(m.s, n)) {
			bool small = n <= INT_MAX && n >= INT_MIN;
			want = small ? MUST : t == Variant::Integer ? MUST_NOT : MAY;	// only small ones are converted so far
		}
		else if (m.s == "0x1F") { want = MAY; n = 31; }
		else if (m.s == " 5 ") { want = MAY; n = 5; }
	}
	// A const reference can't convert
	bool cr = refuses([&] {
		switch (t) {
		case Variant::Integer:	(void)cu.as_int(); break;
		case Variant::Long:	(void)cu.as_long(); break;
		case Variant::LongLong:	(void)cu.as_longlong(); break;
		case Variant::String:	(void)cu.as_strval(); break;
		case Variant::StrArray:	(void)cu.as_string_array(); break;
		case Variant::VarArray:	(void)cu.as_variant_array(); break;
		default:		(void)cu.as_variant_map(); break;
		} });
	if (cr != (t != m.t)) c.fail("%s as const %s %s", show(was).c_str(), Variant::type_names[t], cr ? "refused" : "not refused");
	long long got = 0; S gots; MV whole;
	bool r = refuses([&] {
		switch (t) {
		case Variant::Integer:	got = u.as_int(); break;
		case Variant::Long:	got = u.as_long(); break;
		case Variant::LongLong:	got = u.as_longlong(); break;
		case Variant::String:	gots = bytes(u.as_strval()); break;
		case Variant::StrArray:	whole = value(Variant(u.as_string_array())); break;
		case Variant::VarArray:	whole = value(Variant(u.as_variant_array())); break;
		default:		whole = value(Variant(u.as_variant_map())); break;
		} });
	if (r) {
		if (want == MUST) c.fail("%s as %s refused", show(was).c_str(), Variant::type_names[t]);
		refused = true; return;		// a refusal ends the program
	}
	if (want == MUST_NOT) c.fail("%s as %s gives %lld \"%s\" instead of being refused", show(was).c_str(), Variant::type_names[t], got, gots.c_str());
	if (tonum && got != n) c.fail("%s as %s gives %lld, expected %lld", show(was).c_str(), Variant::type_names[t], got, n);
	if (t == Variant::String && gots != s) c.fail("%s as String gives \"%s\", expected \"%s\"", show(was).c_str(), gots.c_str(), s.c_str());
	if (!tonum && t != Variant::String && !(whole == m)) c.fail("%s returned as %s", show(was).c_str(), show(whole).c_str());
	MV now = m;
	if (t != m.t) { now = MV(t, tonum ? n : 0); if (!tonum) now.s = s; }
	MV g = value(u);
	if (!(g == now)) c.fail("%s converted to %s is now %s %s", show(was).c_str(), Variant::type_names[t], u.type_name(), show(g).c_str());
	if (!cp) m = now;
}

static void set(Ctx& c, World& w, int i, int nnums, int ntexts)
{
	Variant& v = w.v[i]; MV n;
	switch (c.choose(9)) {
	case 0: n = MV(); v = Variant(); break;
	case 1: { int k = c.choose(nnums); if (NUMS[k] != (int)NUMS[k]) { c.prune(); return; } n = MV(Variant::Integer, NUMS[k]); v = (int)NUMS[k]; break; }
	case 2: { int k = c.choose(nnums); n = MV(Variant::Long, NUMS[k]); v = (long)NUMS[k]; break; }
	case 3: { int k = c.choose(nnums); n = MV(Variant::LongLong, NUMS[k]); v = NUMS[k]; break; }
	case 4: { int k = c.choose(ntexts); n = str(TEXTS[k]); if (c.flip()) v = TEXTS[k]; else v = StrVal(TEXTS[k]); break; }
	case 5: { int how = c.choose(3); n = MV(Variant::StrArray);
		StrVal e[2] = { StrVal("one"), StrVal("\xC3\xA9") };
		if (how == 0) v = Variant(StringArray());
		else if (how == 1) v = Variant(e, 2);
		else { StringArray a; a.append(e[0]); a.append(e[1]); v = Variant(a); a.append(StrVal("not here")); }
		if (how) { n.a.push_back(str("one")); n.a.push_back(str("\xC3\xA9")); }
		break; }
	case 6: { int how = c.choose(3), j = c.choose(NV), k = c.choose(NV); n = MV(Variant::VarArray);
		if (how == 0 && (j || k)) { c.prune(); return; }
		if (how) { n.a.push_back(w.m[j]); n.a.push_back(w.m[k]); }
		if (how == 0) v = Variant(VariantArray());
		else if (how == 1) { Variant e[2] = { w.v[j], w.v[k] }; v = Variant(e, 2); }
		else v = Variant(w.v[j] << w.v[k]);
		break; }
	case 7: { int how = c.choose(3), j = c.choose(NV), k = c.choose(NV); n = MV(Variant::StrVarMap);
		if (how == 0 && (j || k)) { c.prune(); return; }
		if (how) { n.m["b"] = w.m[j]; n.m["a"] = w.m[k]; }
		StrVal keys[2] = { StrVal("b"), StrVal("a") };
		Variant values[2] = { w.v[j], w.v[k] };
		if (how == 0) v = Variant(StrVariantMap());
		else if (how == 1) v = Variant(keys, values, 2);
		else { StrVariantMap map(keys, values, 2); v = Variant(map); map.put("c", 3); map.remove("a"); }
		break; }
	case 8: { Variant::VariantType t = (Variant::VariantType)c.choose(8); n = MV(t); v = Variant(t); break; }
	}
	w.m[i] = n;
	c.note("variant %d set to %s\n", i, show(n).c_str()); c.setkey("set %s", Variant::type_names[n.t]);
}

static void variants(Ctx& c)
{
	World w; int depth = c.param("depth", 3), nn = c.param("nums", 4), nt = c.param("texts", 3);
	refused = false;
	for (int d = 0; d < depth && !refused; d++) {
		int i = c.choose(NV);
		switch (c.choose(6)) {
		case 0: set(c, w, i, nn, nt); break;
		case 1: convert(c, w, i); break;
		case 2: { int j = c.choose(NV); c.note("variant %d = variant %d\n", i, j); c.setkey("assign"); w.v[i] = w.v[j]; w.m[i] = w.m[j]; break; }
		case 3: { int j = c.choose(NV); c.note("variant %d = copy of variant %d\n", i, j); c.setkey("copy");
			Variant t(w.v[j]); { Variant t2 = t; t = 5; t = t2; } w.v[i] = t; w.m[i] = w.m[j]; break; }
		case 4: { c.note("variant %d: changed through what its accessor returns\n", i); c.setkey("change");
			switch (w.m[i].t) {
			case Variant::Integer:	w.v[i].as_int() = 7; w.m[i].n = 7; break;
			case Variant::Long:	w.v[i].as_long() = 1L<<40; w.m[i].n = 1L<<40; break;
			case Variant::LongLong:	w.v[i].as_longlong() = -(1LL<<50); w.m[i].n = -(1LL<<50); break;
			case Variant::String:	{ StrVal s = w.v[i].as_strval(); s += "more"; break; }	// these are copies
			case Variant::StrArray:	{ StringArray a = w.v[i].as_string_array(); a.append(StrVal("more")); break; }
			case Variant::VarArray:	{ VariantArray a = w.v[i].as_variant_array(); if (a.length()) a.delete_at(0); a.append(Variant(3)); break; }
			case Variant::StrVarMap: { StrVariantMap m = w.v[i].as_variant_map(); m.put("a", Variant("more")); m.remove("b"); break; }
			default: c.prune(); return;
			} break; }
		case 5: { c.note("variant %d: put back changed\n", i); c.setkey("put back");
			switch (w.m[i].t) {
			case Variant::String:	{ StrVal s = w.v[i].as_strval(); s += "9"; w.v[i] = s; w.m[i].s += "9"; break; }
			case Variant::StrArray:	{ StringArray a = w.v[i].as_string_array(); a.append(StrVal("more")); w.v[i] = a; w.m[i].a.push_back(str("more")); break; }
			case Variant::VarArray:	{ VariantArray a = w.v[i].as_variant_array(); a.append(w.v[i]); w.v[i] = a; { MV t = w.m[i]; w.m[i].a.push_back(t); } break; }
			case Variant::StrVarMap: { StrVariantMap m = w.v[i].as_variant_map(); m.put("a", w.v[i]); w.v[i] = m; { MV t = w.m[i]; w.m[i].m["a"] = t; } break; }
			default: c.prune(); return;
			} break; }
		}
		if (!refused) w.check(c);
	}
	if (!refused) c.state(mc::hstr(show(w.m[0])+"|"+show(w.m[1])+"|"+show(w.m[2])));
}
MC_CONFIG(variants, "variant_ops", variants, 4);

// Every pair of conversions of every value
static void conversions(Ctx& c)
{
	World w; refused = false;
	int k = c.choose(4); MV m;
	int n = k < 3 ? c.choose(sizeof NUMS/sizeof *NUMS) : c.choose(sizeof TEXTS/sizeof *TEXTS);
	if (k == 0) { if (NUMS[n] != (int)NUMS[n]) { c.prune(); return; } m = MV(Variant::Integer, NUMS[n]); }
	else if (k == 1) m = MV(Variant::Long, NUMS[n]); else if (k == 2) m = MV(Variant::LongLong, NUMS[n]); else m = str(TEXTS[n]);
	for (int i = 0; i < NV; i++) { w.v[i] = i ? w.v[0] : make(m); w.m[i] = m; }
	for (int d = 0; d < (int)c.param("depth", 3) && !refused; d++) { convert(c, w, 0); if (!refused) w.check(c); }
	c.state(mc::hstr(show(w.m[0])));
}
MC_CONFIG(conversions, "variant_conversions", conversions, 2);

/*--- C11 ---*/
struct Json {
	const S& s; size_t i; bool bad; S why;
	Json(const S& t) : s(t), i(0), bad(false) {}
	void err(const char* w) { if (!bad) { bad = true; why = S(w)+" at byte "+std::to_string(i); } }
	void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) i++; }
	static void utf8(S& o, unsigned u) {
		if (u < 0x80) o += u;
		else if (u < 0x800) { o += 0xC0|u>>6; o += 0x80|(u&63); }
		else if (u < 0x10000) { o += 0xE0|u>>12; o += 0x80|(u>>6&63); o += 0x80|(u&63); }
		else { o += 0xF0|u>>18; o += 0x80|(u>>12&63); o += 0x80|(u>>6&63); o += 0x80|(u&63); }
	}
	unsigned hex4() { unsigned v = 0; for (int k = 0; k < 4; k++, i++) { int d = i < s.size() && isxdigit((unsigned char)s[i]) ? (isdigit((unsigned char)s[i]) ? s[i]-'0' : (s[i]|32)-'a'+10) : -1; if (d < 0) { err("bad \\u"); return 0; } v = v<<4|d; } return v; }
	S string() {
		S o; if (i >= s.size() || s[i] != '"') { err("string expected"); return o; }
		i++;
		for (;;) {
			if (bad) return o;
			if (i >= s.size()) { err("string does not end"); return o; }
			unsigned char ch = s[i++];
			if (ch == '"') return o;
			if (ch < 0x20) { err("control character in string"); return o; }
			if (ch != '\\') { o += ch; continue; }
			if (i >= s.size()) { err("backslash at end"); return o; }
			switch (s[i++]) {
			case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
			case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break;
			case 'r': o += '\r'; break; case 't': o += '\t'; break;
			case 'u': { unsigned u = hex4();
				if (u >= 0xDC00 && u < 0xE000) { err("lone low surrogate"); return o; }
				if (u >= 0xD800 && u < 0xDC00) { if (s.compare(i, 2, "\\u")) { err("lone high surrogate"); return o; } i += 2; unsigned l = hex4(); if (l < 0xDC00 || l > 0xDFFF) { err("bad low surrogate"); return o; } u = 0x10000 + ((u-0xD800)<<10) + (l-0xDC00); }
				utf8(o, u); break; }
			default: err("bad escape"); return o;
			}
		}
	}
	MV value() {
		ws();
		if (bad) return MV();
		if (i >= s.size()) { err("value expected"); return MV(); }
		if (s[i] == '"') return str(string());
		if (s[i] == '[') {
			MV v(Variant::VarArray); i++; ws();
			if (i < s.size() && s[i] == ']') { i++; return v; }
			for (;;) { v.a.push_back(value()); ws(); if (bad) return v;
				if (i < s.size() && s[i] == ',') { i++; continue; }
				if (i < s.size() && s[i] == ']') { i++; return v; }
				err("comma or ] expected"); return v; }
		}
		if (s[i] == '{') {
			MV v(Variant::StrVarMap); i++; ws();
			if (i < s.size() && s[i] == '}') { i++; return v; }
			for (;;) { ws(); S k = string(); ws(); if (bad) return v;
				if (i >= s.size() || s[i] != ':') { err("colon expected"); return v; }
				i++; if (v.m.count(k)) { err("duplicate key"); return v; }
				v.m[k] = value(); ws(); if (bad) return v;
				if (i < s.size() && s[i] == ',') { i++; continue; }
				if (i < s.size() && s[i] == '}') { i++; return v; }
				err("comma or } expected"); return v; }
		}
		if (!s.compare(i, 4, "null")) { i += 4; return MV(); }
		size_t b = i; if (i < s.size() && s[i] == '-') i++;
		size_t d = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++;
		if (i == d || (s[d] == '0' && i > d+1)) { err("value expected"); return MV(); }
		long long n; if (!decimal(s.substr(b, i-b), n)) { err("number too big"); return MV(); }
		return MV(Variant::LongLong, n);
	}
};
// What JSON keeps of a value
static MV plain(const MV& v)
{
	MV r = v;
	if (r.t == Variant::Integer || r.t == Variant::Long) r.t = Variant::LongLong;
	if (r.t == Variant::StrArray) r.t = Variant::VarArray;
	for (auto& e : r.a) e = plain(e);
	for (auto& e : r.m) e.second = plain(e.second);
	return r;
}
static MV gen(Ctx& c, int depth, int wide)
{
	static const char* const STR[] = { "a", "\"\\,[ ]", "", "\xC3\xA9\n", "\xF0\x9F\x98\x80", "{: }", " " };
	static const char* const KEY[] = { "k", "", "\",\n", "\xE2\x82\xAC" };
	static const long long N[] = { 0, -1, INT_MIN };
	int ns = c.param("strings", 3), nk = c.param("keys", 3);
	int k = c.choose(depth > 0 ? 8 : 5);
	switch (k) {
	case 0: return MV();
	case 1: return MV(Variant::Integer, N[c.choose(c.param("ints", 2))]);
	case 2: return MV(Variant::Long, c.flip() ? LONG_MIN : LONG_MAX);
	case 3: return MV(Variant::LongLong, c.flip() ? LLONG_MIN : LLONG_MAX);
	case 4: return str(STR[c.choose(ns)]);
	case 5: { MV v(Variant::StrArray); int n = c.choose(wide+1); for (int i = 0; i < n; i++) v.a.push_back(str(STR[c.choose(ns)])); return v; }
	case 6: { MV v(Variant::VarArray); int n = c.choose(wide+1); for (int i = 0; i < n; i++) v.a.push_back(gen(c, depth-1, wide)); return v; }
	default: { MV v(Variant::StrVarMap); int from = 0, n = c.choose(wide+1); for (int i = 0; i < n && from < nk; i++) { int q = from+c.choose(nk-from); v.m[KEY[q]] = gen(c, depth-1, wide); from = q+1; } return v; }
	}
}
static void json_of(Ctx& c, const MV& m)
{
	Variant v = make(m);
	MV want = plain(m);
	if (show(m).size() < 2000) c.note("%s\n", show(m).c_str());
	static const int IND[] = { -2, -1, 0, 1, 3 };
	S first;
	for (int k = 0; k < 5; k++) {
		int ind = IND[k]; c.setkey("as_json(%d)", ind);
		S s = bytes(v.as_json(ind));
		Json j(s); MV g = j.value(); j.ws();
		if (!j.bad && j.i != s.size()) j.err("something after the value");
		if (j.bad) c.fail("as_json(%d) of %s is not JSON, %s: %s", ind, show(m).c_str(), j.why.c_str(), s.c_str());
		if (!(g == want)) c.fail("as_json(%d) of %s parses as %s: %s", ind, show(m).c_str(), show(g).c_str(), s.c_str());
		// Layout: what remains without the white space outside strings is always the same
		S t; bool in = false; int level = 0; bool start = false; int blanks = 0;
		for (size_t i = 0; i < s.size(); i++) {
			char ch = s[i];
			if (in) { t += ch; if (ch == '\\') t += s[++i]; else if (ch == '"') in = false; continue; }
			if (ch == '\n') { if (ind < 0) c.fail("as_json(%d) has several lines", ind); start = true; blanks = 0; continue; }
			if (ch == ' ' || ch == '\t') { if (ind == -2) c.fail("as_json(-2) of %s has spaces: %s", show(m).c_str(), s.c_str()); blanks++; continue; }
			if (ch == ']' || ch == '}') level--;
			if (start) { if (blanks != 2*(ind+level)) c.fail("as_json(%d) of %s has a line indented by %d at level %d:\n%s", ind, show(m).c_str(), blanks, level, s.c_str()); start = false; }
			if (ch == '[' || ch == '{') level++;
			if (ch == '"') in = true;
			t += ch;
		}
		if (k == 0) first = t;
		else if (t != first) c.fail("as_json(%d) of %s differs from as_json(-2) in more than white space:\n%s\n%s", ind, show(m).c_str(), s.c_str(), first.c_str());
	}
	if (bytes(v.as_json()) != bytes(v.as_json(-1))) c.fail("as_json() is not the single-line layout");
	if (!(value(v) == m)) c.fail("as_json changed %s to %s", show(m).c_str(), show(value(v)).c_str());
	c.state(mc::hstr(first));
}
static void json(Ctx& c) { json_of(c, gen(c, c.param("depth", 2), c.param("wide", 2))); }
MC_CONFIG(json, "variant_json", json, 4);

// Large values: many elements or keys, deep nesting, long strings, numbers about each power of 2 and 10
static std::vector<long long> magnitudes()
{
	std::vector<long long> r;
	auto add = [&](__int128 v) { for (int d = -1; d <= 1; d++) for (int s = -1; s <= 1; s += 2) { __int128 x = s*(v+d); if (x >= LLONG_MIN && x <= LLONG_MAX) r.push_back(x); } };
	for (int e = 0; e < 64; e++) add((__int128)1 << e);
	__int128 p = 1; for (int e = 0; e < 20; e++, p *= 10) { add(p); add(5*p); }
	return r;
}
static void json_sizes(Ctx& c)
{
	static const std::vector<long long> nums = magnitudes();
	int what = c.choose(7), n = c.choose(c.param("n", 40)+1), k = c.choose(5);
	static const MV leaf[] = { MV(), MV(Variant::Integer, -7), str("a\"\xC3\xA9"), MV(Variant::VarArray), MV(Variant::StrVarMap) };
	MV m;
	auto key = [](int i) { return S(1, 'a'+i%26) + std::to_string(i) + (i%3 ? "" : "\"\xE2\x82\xAC"); };
	switch (what) {
	case 0: m = MV(Variant::VarArray); for (int i = 0; i < n; i++) m.a.push_back(i % 3 ? leaf[k] : MV(Variant::Integer, i)); break;
	case 1: m = MV(Variant::StrVarMap); for (int i = 0; i < n; i++) m.m[key(i*7%n)] = i % 3 ? leaf[k] : MV(Variant::Long, i); break;
	case 2: m = MV(Variant::StrArray); for (int i = 0; i < n; i++) m.a.push_back(str(k == 0 ? S() : k == 1 ? S(i, 'x') : key(i))); break;
	case 3: m = leaf[k]; for (int i = 0; i < n; i++) { MV o(i % 3 == 1 ? Variant::StrVarMap : Variant::VarArray); if (i % 3 == 1) o.m[key(i)] = m; else o.a.push_back(m); if (i % 3 == 2) o.a.push_back(leaf[(k+i)%5]); m = o; } break;
	case 4: { MV o(k % 2 ? Variant::VarArray : Variant::StrVarMap); S t; for (int i = 0; i < n; i++) t += i % 5 == 4 ? S("\\\"") : i % 7 == 6 ? S("\n") : k > 2 ? S("\xC3\xA9") : S(1, 'a'+i%26); if (k % 2) o.a.push_back(str(t)); else o.m[t] = str(t); m = o; break; }
	case 5: m = MV(Variant::VarArray); for (size_t i = n*10; i < n*10+10u && i < nums.size(); i++) { long long x = nums[i]; m.a.push_back(k == 0 && x == (int)x ? MV(Variant::Integer, x) : MV(k % 2 ? Variant::Long : Variant::LongLong, x)); } break;
	case 6: m = MV(Variant::StrVarMap); for (int i = 0; i < n; i++) { MV a(i % 2 ? Variant::VarArray : Variant::StrVarMap); for (int j = 0; j < i % 5; j++) if (i % 2) a.a.push_back(leaf[(k+j) % 5]); else a.m[key(j)] = leaf[(k+j) % 5]; m.m[key(i)] = a; } break;
	}
	c.note("large value %d of size %d with %d\n", what, n, k);
	json_of(c, m);
}
MC_CONFIG(jsonsizes, "variant_json_sizes", json_sizes, 3);

static void variant_sizes(Ctx& c)
{
	static const std::vector<long long> nums = magnitudes();
	refused = false;
	int k = c.choose(3); long long x = nums[c.choose(nums.size())]; MV m;
	if (k == 0) { if (x != (int)x) { c.prune(); return; } m = MV(Variant::Integer, x); } else m = MV(k == 1 ? Variant::Long : Variant::LongLong, x);
	World w; for (int i = 0; i < NV; i++) { w.v[i] = i ? w.v[0] : make(m); w.m[i] = m; }
	if (c.flip()) { w.v[0] = std::to_string(x).c_str(); w.m[0] = str(std::to_string(x)); }	// from its decimal form
	for (int d = 0; d < (int)c.param("depth", 3) && !refused; d++) { convert(c, w, 0); if (!refused) w.check(c); }
	c.state(mc::hstr(show(w.m[0]), k));
}
MC_CONFIG(variantsizes, "variant_magnitudes", variant_sizes, 3);

// Variants of many elements, changed through copies
static void variant_many(Ctx& c)
{
	int what = c.choose(4), n = c.choose(c.param("n", 40)+1), ch = c.choose(5), to = c.choose(3);
	World w; MV m(what == 0 ? Variant::StrArray : what == 1 ? Variant::VarArray : what == 2 ? Variant::StrVarMap : Variant::String);
	for (int i = 0; i < n; i++) switch (what) { case 0: m.a.push_back(str(std::to_string(i))); break; case 1: m.a.push_back(i % 3 ? MV(Variant::Integer, i) : str(S(i, 'q'))); break; case 2: m.m["k"+std::to_string(i)] = i % 3 ? MV(Variant::Long, i) : str("v"); break; case 3: m.s += "a\xC3\xA9"; break; }
	w.v[0] = make(m); w.m[0] = m; w.v[1] = w.v[0]; w.m[1] = m; w.v[2] = Variant(w.v[0] << w.v[0]); w.m[2] = MV(Variant::VarArray); w.m[2].a.push_back(m); w.m[2].a.push_back(m);
	c.note("a variant of kind %d with %d elements, changed in way %d, assigned over by %d\n", what, n, ch, to);
	switch (what) {
	case 0: { StringArray a = w.v[0].as_string_array(); if (ch == 0) { a.append(StrVal("x")); m.a.push_back(str("x")); } else if (ch == 1) { a.insert(0, StrVal("x")); m.a.insert(m.a.begin(), str("x")); } else if (ch == 2 && n) { a.set(n/2, StrVal("x")); m.a[n/2] = str("x"); } else if (ch == 3 && n) { a.remove(n/2, 1); m.a.erase(m.a.begin()+n/2); } else if (ch == 4) { a.clear(); m.a.clear(); } w.check(c); w.v[0] = a; break; }
	case 1: { VariantArray a = w.v[0].as_variant_array(); if (ch == 0) { a.append(w.v[1]); m.a.push_back(w.m[1]); } else if (ch == 1) { a.unshift(w.v[1]); m.a.insert(m.a.begin(), w.m[1]); } else if (ch == 2 && n) { a.set(n-1, w.v[1]); m.a[n-1] = w.m[1]; } else if (ch == 3 && n) { a.shift(); m.a.erase(m.a.begin()); } else if (ch == 4) { a.reverse(); std::reverse(m.a.begin(), m.a.end()); } w.check(c); w.v[0] = a; break; }
	case 2: { StrVariantMap a = w.v[0].as_variant_map(); if (ch == 0) { a.put("k5", w.v[1]); m.m["k5"] = w.m[1]; } else if (ch == 1) { a.put("", Variant(1)); m.m[""] = MV(Variant::Integer, 1); } else if (ch == 2) { a.remove("k0"); m.m.erase("k0"); } else if (ch == 3) { a.clear(); m.m.clear(); } else { a.insert("k3", Variant(9)); m.m.insert(std::make_pair(S("k3"), MV(Variant::Integer, 9))); } w.check(c); w.v[0] = a; break; }
	case 3: { StrVal a = w.v[0].as_strval(); if (ch == 0) { a += "x"; m.s += "x"; } else if (ch == 1) { a.insert(0, "x"); m.s = "x"+m.s; } else if (ch == 2) { a.insert(n, "x"); m.s.insert(n/2*3 + n%2, "x"); } else if (ch == 3) { a.toUpper(); for (size_t i = 0; i < m.s.size(); i++) if (m.s[i] == 'a') m.s[i] = 'A'; else if (m.s[i] == '\xA9') m.s[i] = '\x89'; } else { a = a.substr(n); m.s = m.s.substr(n/2*3 + (n % 2 ? 1 : 0)); } w.check(c); w.v[0] = a; break; }
	}
	w.m[0] = m; w.check(c);
	if (to == 1) { w.v[0] = 5; w.m[0] = MV(Variant::Integer, 5); } else if (to == 2) { w.v[1] = w.v[2]; w.m[1] = w.m[2]; w.v[2] = Variant(); w.m[2] = MV(); }
	w.check(c);
	c.state(mc::mix(mc::mix(what, n), ch*3+to));
}
MC_CONFIG(variantmany, "variant_sizes", variant_many, 3);
