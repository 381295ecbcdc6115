/*
 * C15: every sequence of operations on several CowMap variables that may share storage, compared after
 * each one with ordinary maps.
 */
#define MC_MAIN
#include "mc.h"
#include <climits>
#include <cassert>
#include <array.h>
#include <cowmap.h>

using mc::Ctx;
typedef std::map<int,int> M;

// A value that notices being used before construction or after destruction
struct E {
	unsigned	magic; int v;
	enum { LIVE = 0xA11E0001u };
	void	ok() const { if (magic != LIVE) { fprintf(stderr, "ERROR: value used when not alive\n"); abort(); } }
	E() : magic(LIVE), v(-1) {}
	E(int n) : magic(LIVE), v(n) {}
	E(const E& o) : magic(LIVE), v((o.ok(), o.v)) {}
	E& operator=(const E& o) { ok(); o.ok(); v = o.v; return *this; }
	~E() { ok(); magic = 0xDEAD; }
	bool operator<(const E& o) const { ok(); o.ok(); return v < o.v; }
};

struct IntTraits {
	typedef E K; typedef E V; typedef CowMap<E, E> Map;
	static K key(int i) { return E(i); }
	static V val(int i) { return E(i); }
	static int unkey(const K& k) { k.ok(); return k.v; }
	static int unval(const V& v) { v.ok(); return v.v; }
};
struct StrTraits {
	typedef StrVal K; typedef StrVal V; typedef CowMap<StrVal> Map;
	static const char* P(int i) { static const char* p[] = {"", "a", "a\xC3\xA9", "b", "\xE2\x82\xAC", "\xF0\x9F\x98\x80"}; return p[i]; }
	static K key(int i) { return StrVal(P(i)); }
	static V val(int i) { char b[12]; snprintf(b, sizeof b, "%d", i); return i < 0 ? StrVal() : StrVal(b); }
	static int unkey(const K& k) { std::string s(StrVal(k).asUTF8()); for (int i = 0; i < 6; i++) if (s == P(i)) return i; return -2; }
	static int unval(const V& v) { std::string s(StrVal(v).asUTF8()); return s.empty() ? -1 : atoi(s.c_str()); }
};

static std::string show(const M& m)
{
	std::string s = "{";
	for (auto& p : m) s += std::to_string(p.first) + ":" + std::to_string(p.second) + " ";
	return s + "}";
}

template<class T> struct World {
	typedef typename T::Map Map;
	typedef typename T::K K;
	typedef typename T::V V;
	static const int NV = 3;
	Map v[NV]; M m[NV];
	int nk; bool core;

	// Everything that can be seen of one map without changing it
	void same(Ctx& c, int i, bool full) {
		Map& a = v[i]; const Map& ca = a; const M& w = m[i];
		M g; size_t n = 0; std::vector<int> order;
		for (typename Map::Iter it = ca.begin(); it != ca.end(); it++, n++) {
			g[T::unkey(it->first)] = T::unval(it->second); order.push_back(T::unkey(it->first));
			if (n > 50) c.fail("map %d: enumeration does not end", i);
		}
		if (g != w || n != w.size()) c.fail("map %d enumerates %s, expected %s", i, show(g).c_str(), show(w).c_str());
		for (size_t j = 1; j < order.size(); j++) if (order[j-1] >= order[j]) c.fail("map %d not in key order", i);
		if (ca.size() != w.size()) c.fail("map %d has size %zu, expected %zu", i, ca.size(), w.size());
		for (int k = 0; k < nk; k++) {
			bool has = w.count(k);
			if (a.contains(T::key(k)) != has) c.fail("map %d contains(%d) is %d, expected %s", i, k, !has, show(w).c_str());
			auto it = a.find(T::key(k));
			if ((it != a.end()) != has || (has && (T::unkey(it->first) != k || T::unval(it->second) != w.at(k))))
				c.fail("map %d find(%d), expected %s", i, k, show(w).c_str());
			if (T::unval(a[T::key(k)]) != (has ? w.at(k) : -1)) c.fail("map %d [%d], expected %s", i, k, show(w).c_str());
		}
		if (ca.size() != w.size()) c.fail("map %d changed size when looked at", i);
		if (!full) return;
		auto keys = ca.keys(); auto values = ca.values();
		if (keys.length() != w.size() || values.length() != w.size()) c.fail("map %d has %u keys, %u values, expected %zu", i, keys.length(), values.length(), w.size());
		size_t j = 0;
		for (auto& p : w) {
			if (T::unkey(keys[j]) != p.first || T::unval(values[j]) != p.second) c.fail("map %d keys or values, expected %s", i, show(w).c_str());
			j++;
		}
		std::vector<std::pair<int,int>> want(w.begin(), w.end()), seen;
		ca.each([&](const K& k, const V& x) { seen.push_back(std::make_pair(T::unkey(k), T::unval(x))); });
		if (seen != want) c.fail("map %d each() visits other than %s", i, show(w).c_str());
		long acc = 7, wacc = 7;
		for (auto& p : want) wacc = wacc*31 + p.first*5 + p.second;
		acc = ca.template inject<long>(7, [&](long& s, const K& k, const V& x) -> long { return s*31 + T::unkey(k)*5 + T::unval(x); });
		if (acc != wacc) c.fail("map %d inject() gave %ld, expected %ld from %s", i, acc, wacc, show(w).c_str());
		// Mapping to other types
		auto other = ca.template map<int, int>([&](const K& k, const V& x) -> std::pair<int, int> { return std::pair<int, int>(-T::unkey(k), T::unval(x)*2); });
		M wo, go; for (auto& p : want) wo[-p.first] = p.second*2;
		for (auto it = other.begin(); it != other.end(); it++) go[it->first] = it->second;
		if (go != wo) c.fail("map %d map() gave %s, expected %s", i, show(go).c_str(), show(wo).c_str());
		for (int mask = 0; mask < 1<<nk; mask++) {
			size_t hits = 0; for (auto& p : want) hits += mask>>p.first & 1;
			auto f = [&](const K& k, const V& x) -> bool { (void)x; return mask>>T::unkey(k) & 1; };
			if (ca.all(f) != (hits == w.size()) || ca.any(f) != (hits > 0) || ca.one(f) != (hits == 1))
				c.fail("map %d all/any/one for keys %x: %d %d %d with %s", i, mask, ca.all(f), ca.any(f), ca.one(f), show(w).c_str());
			// By value too
			size_t vh = 0; for (auto& p : want) vh += mask>>(p.second % nk) & 1;
			auto fv = [&](const K& k, const V& x) -> bool { (void)k; return mask>>(T::unval(x) % nk) & 1; };
			if (ca.all(fv) != (vh == w.size()) || ca.any(fv) != (vh > 0) || ca.one(fv) != (vh == 1))
				c.fail("map %d all/any/one for values %x with %s", i, mask, show(w).c_str());
		}
	}
	void all_same(Ctx& c, bool full) { for (int i = 0; i < NV; i++) same(c, i, full); }

	// One operation, chosen
	void op(Ctx& c, int step) {
		int a = c.choose(NV), b, k, k2, val = 10*step + 10;
		switch (c.choose(core ? 5 : 15)) {
		case 0: k = c.choose(nk); c.note("map%d.insert(%d, %d)\n", a, k, val); c.setkey("insert");
			v[a].insert(T::key(k), T::val(val)); m[a].insert(std::make_pair(k, val)); break;
		case 1: { k = c.choose(nk); c.note("map%d.put(%d, %d)\n", a, k, val); c.setkey("put");
			if (T::unkey(v[a].put(T::key(k), T::val(val))) != k) c.fail("put returned a different key");
			m[a][k] = val; break; }
		case 2: k = c.choose(nk); c.note("map%d.remove(%d)\n", a, k); c.setkey("remove");
			v[a].remove(T::key(k)); m[a].erase(k); break;
		case 3: c.note("map%d.clear()\n", a); c.setkey("clear"); v[a].clear(); m[a].clear(); break;
		case 4: b = c.choose(NV); c.note("map%d = map%d\n", a, b); c.setkey("assign"); v[a] = v[b]; m[a] = m[b]; break;
		case 5: b = c.choose(NV); c.note("map%d = copy of map%d, then changed\n", a, b); c.setkey("copy");
			{ Map n(v[b]); M w(m[b]); n.put(T::key(0), T::val(val)); w[0] = val; v[a] = n; m[a] = w; n.insert(T::key(1), T::val(99)); n.remove(T::key(0)); } break;
		case 6: k = c.choose(nk); k2 = c.choose(nk); b = c.choose(NV); c.note("map%d.put(%d, map%d[%d])\n", a, k, b, k2); c.setkey("put from map");
			{ int x = m[b].count(k2) ? m[b][k2] : -1; v[a].put(T::key(k), v[b][T::key(k2)]); m[a][k] = x; } break;
		case 7: c.note("map%d: put of a reference to a key of its own\n", a); c.setkey("put own key");
			b = c.choose(NV);
			{ if (!m[b].size()) { c.prune(); return; }
			  int kk = m[b].begin()->first; typename Map::Iter it = v[b].begin(); v[a].put(it->first, T::val(val)); m[a][kk] = val; } break;
		case 8: c.note("map%d: remove of a reference to a key\n", a); c.setkey("remove own key");
			b = c.choose(NV);
			{ if (!m[b].size()) { c.prune(); return; }
			  int kk = m[b].rbegin()->first; typename Map::Iter it = v[b].find(T::key(kk)); v[a].remove(it->first); m[a].erase(kk); } break;
		case 9: { b = c.choose(NV); int mask = c.choose(1<<nk); c.note("map%d = map%d.select(keys %x)\n", a, b, mask); c.setkey("select");
			M w; for (auto& p : m[b]) if (mask>>p.first & 1) w.insert(p);
			const Map& s = v[b];
			Map n = s.select([&](const K& kk, const V& x) -> bool { (void)x; return mask>>T::unkey(kk) & 1; });
			same(c, b, false); v[a] = n; m[a] = w; break; }
		case 10: { b = c.choose(NV); k = c.choose(nk); c.note("map%d = map%d.map(key+%d)\n", a, b, k); c.setkey("map");
			M w; for (auto& p : m[b]) w[(p.first+k) % nk] = p.second+1;
			const Map& s = v[b];
			Map n = s.template map<V, K>([&](const K& kk, const V& x) -> std::pair<K, V> { return std::pair<K, V>(T::key((T::unkey(kk)+k) % nk), T::val(T::unval(x)+1)); });
			same(c, b, false); v[a] = n; m[a] = w; break; }
		case 11: { k = c.choose(nk); k2 = c.choose(nk); c.note("map%d from keys %d, %d\n", a, k, k2); c.setkey("from arrays");
			K ks[3] = { T::key(k), T::key(k2), T::key(k) }; V vs[3] = { T::val(val), T::val(val+1), T::val(val+2) };
			int n = c.choose(4);
			M w; for (int i = 0; i < n; i++) w.insert(std::make_pair(i == 1 ? k2 : k, val+i));
			v[a] = Map(ks, vs, n); m[a] = w; break; }
		case 12: { k = c.choose(nk); c.note("map%d: %d changed while enumerated\n", a, k); c.setkey("changed while enumerated");
			// Changing a map while enumerating a copy must leave the enumeration alone
			Map keep(v[a]); std::vector<std::pair<int,int>> seen, want(m[a].begin(), m[a].end());
			for (typename Map::Iter it = keep.begin(); it != keep.end(); it++) {
				seen.push_back(std::make_pair(T::unkey(it->first), T::unval(it->second)));
				v[a].put(T::key(k), T::val(val)); m[a][k] = val;
				v[a].remove(it->first); m[a].erase(seen.back().first);
			}
			if (seen != want) c.fail("enumeration of a copy changed");
			break; }
		case 13: { b = c.choose(NV); c.note("map%d built from map%d's entries\n", a, b); c.setkey("rebuild");
			if (a == b) { c.prune(); return; }
			v[a].clear(); m[a].clear();
			v[b].each([&](const K& kk, const V& x) { v[a].insert(kk, x); }); m[a] = m[b];
			break; }
		case 14: { c.note("map%d: each() changes the map itself, held twice\n", a); c.setkey("change in each");
			Map keep(v[a]); M w = m[a];
			keep.each([&](const K& kk, const V& x) { (void)x; v[a].put(kk, T::val(val)); m[a][T::unkey(kk)] = val; });
			M g; for (typename Map::Iter it = keep.begin(); it != keep.end(); it++) g[T::unkey(it->first)] = T::unval(it->second);
			if (g != w) c.fail("a copy changed to %s from %s", show(g).c_str(), show(w).c_str());
			break; }
		}
	}
	uint64_t hash() const {
		uint64_t h = 1;
		for (int i = 0; i < NV; i++) for (auto& p : m[i]) h = mc::mix(h, i*1000 + p.first*100 + p.second);
		return h;
	}
};

template<class T> static void ops(Ctx& c)
{
	World<T> w; w.nk = c.param("keys", 3);
	w.core = c.param("core", 0);
	int depth = c.param("depth", 3), shape = c.choose(w.nk+2);
	c.note("%s, %d entries\n", shape == 0 ? "empty maps" : shape <= w.nk ? "one map held three times" : "map 0 and 1 shared, 2 apart", shape <= w.nk ? shape : w.nk-1);
	if (shape) {
		typename World<T>::Map s; M sm;
		for (int k = 0; k < (shape <= w.nk ? shape : w.nk-1); k++) { s.put(T::key(k), T::val(k+1)); sm[k] = k+1; }
		for (int i = 0; i < 3; i++) { w.v[i] = s; w.m[i] = sm; }
		if (shape > w.nk) { w.v[2].put(T::key(w.nk-1), T::val(9)); w.m[2][w.nk-1] = 9; }
	}
	for (int i = 0; i < depth; i++) { w.op(c, i); w.all_same(c, false); }
	w.all_same(c, true);
	c.state(w.hash());
}
static void ops_int(Ctx& c) { ops<IntTraits>(c); }
static void ops_str(Ctx& c) { ops<StrTraits>(c); }
MC_CONFIG(mapi, "map_ops", ops_int, 4);
MC_CONFIG(maps, "map_ops_strings", ops_str, 4);

// Maps of every size to a bound, built in several orders, then changed while shared
static void sizes(Ctx& c)
{
	typedef World<IntTraits>::Map Map;
	int n = c.choose(c.param("n", 60)+1), order = c.choose(4), op = c.choose(9), k = c.choose(4), share = c.choose(2);
	c.note("a map of %d entries built in order %d, operation %d at %d%s\n", n, order, op, k, share ? ", shared" : ""); c.setkey("n %d order %d op %d", n, order, op);
	int step = 1; if (order == 2) for (step = n/2+1; std::__gcd(step, n) != 1; step++);
	Map a; M m; std::vector<E> ks, vs;
	auto keyno = [&](int i) { return 3*(order == 0 ? i : order == 1 ? n-1-i : order == 2 ? (int)((long)i*step%n) : i); };
	for (int i = 0; i < n; i++) { int q = keyno(i); ks.push_back(E(q)); vs.push_back(E(q+1)); m[q] = q+1; if (order != 3) { if (i % 2) a.put(E(q), E(q+1)); else a.insert(E(q), E(q+1)); } }
	if (order == 3) a = Map(ks.data(), vs.data(), n);
	Map copy; M copym; if (share) { copy = a; copym = m; }
	int at = k == 0 ? -3 : k == 1 ? 0 : k == 2 ? n/2*3 : 3*n-3;
	Map b = a; M bm = m;
	switch (op) {
	case 0: a.put(E(at), E(7)); m[at] = 7; break;
	case 1: a.insert(E(at), E(7)); m.insert(std::make_pair(at, 7)); break;
	case 2: a.remove(E(at)); m.erase(at); break;
	case 3: for (int i = 0; i < n; i += 2) { a.remove(E(3*i)); m.erase(3*i); } break;
	case 4: for (int i = 0; i < n; i++) { a.put(E(3*i+1), a[E(3*i)]); m[3*i+1] = m[3*i]; } break;
	case 5: { Map s = ((const Map&)a).select([&](const E& x, const E&) { return x.v >= at; }); a = s; M t; for (auto& p : m) if (p.first >= at) t.insert(p); m = t; break; }
	case 6: a.clear(); m.clear(); a.put(E(at), E(1)); m[at] = 1; break;
	case 7: { Map s = ((const Map&)a).map<E, E>([&](const E& x, const E& y) { return std::pair<E, E>(E(x.v/2), E(y.v-1)); }); M t; for (auto& p : m) t[p.first/2] = p.second-1; int seen = 0; for (auto it = s.begin(); it != s.end(); it++, seen++) if (!t.count(it->first.v)) c.fail("map gives key %d", it->first.v); if (seen != (int)t.size()) c.fail("map gives %d entries, expected %zu", seen, t.size()); break; }
	case 8: for (int i = n; --i >= 0;) { a.remove(E(keyno(i))); m.erase(keyno(i)); if (a.size() != m.size()) c.fail("size %zu after a removal, expected %zu", a.size(), m.size()); } break;
	}
	auto check = [&](Map& x, const M& w, const char* what) {
		const Map& cx = x; size_t j = 0; auto q = w.begin();
		for (auto it = cx.begin(); it != cx.end(); it++, q++, j++) if (q == w.end() || it->first.v != q->first || it->second.v != q->second) c.fail("%s: entry %zu is %d:%d", what, j, it->first.v, it->second.v);
		if (q != w.end() || cx.size() != w.size()) c.fail("%s has %zu entries, expected %zu", what, j, w.size());
		auto keys = cx.keys(); auto values = cx.values(); if (keys.length() != w.size() || values.length() != w.size()) c.fail("%s has %u keys and %u values, expected %zu", what, keys.length(), values.length(), w.size());
		j = 0; for (auto& p : w) { if (keys[j].v != p.first || values[j].v != p.second) c.fail("%s: key or value %zu", what, j); j++; }
		for (int i = -3; i <= 3*n+1; i++) { bool has = w.count(i); if (x.contains(E(i)) != has || (x.find(E(i)) != x.end()) != has || x[E(i)].v != (has ? w.at(i) : -1)) c.fail("%s: key %d", what, i); }
		int visits = 0; cx.each([&](const E&, const E&) { visits++; }); if (visits != (int)w.size()) c.fail("%s: each visits %d", what, visits);
		long sum = 0; for (auto& p : w) sum = sum*3 + p.second;
		if (cx.inject<long>(0, [&](long& s, const E&, const E& y) -> long { return s*3 + y.v; }) != sum) c.fail("%s: inject", what);
		size_t t = 0; if (cx.all([&](const E& x2, const E&) { return x2.v != at; }) != !w.count(at) || cx.any([&](const E& x2, const E&) { return x2.v == at; }) != !!w.count(at) || cx.one([&](const E& x2, const E&) { return x2.v == at; }) != !!w.count(at)) c.fail("%s: all, any, one", what);
		if (cx.all([&](const E&, const E&) { return ++t < w.size(); }) != w.empty()) c.fail("%s: all but the last", what);
		t = 0; if (cx.any([&](const E&, const E&) { return ++t == w.size(); }) != !w.empty()) c.fail("%s: any at the last", what);
	};
	check(a, m, "the map"); check(copy, copym, "the copy"); check(b, bm, "the map before");
	c.state(mc::mix(mc::mix(n, order), op*8+k*2+share));
}
MC_CONFIG(mapsizes, "map_sizes", sizes, 3);
