/*
 * C13, C14: every sequence of operations on several Array variables that may share storage, compared
 * after each one with plain lists; every search, comparison and functional method on every small slice.
 */
#define MC_MAIN
#include "mc.h"
#include <climits>
#include <cassert>
#include <array.h>

using mc::Ctx;
typedef std::vector<int> List;

// An element that notices being used before construction or after destruction
struct E {
	unsigned	magic; int v;
	enum { LIVE = 0xA11E0001u };
	void	ok() const { if (magic != LIVE) { fprintf(stderr, "ERROR: element used when not alive\n"); abort(); } }
	E() : magic(LIVE), v(-1) {}
	E(int n) : magic(LIVE), v(n) {}
	E(const E& o) : magic(LIVE), v((o.ok(), o.v)) {}
	E& operator=(const E& o) { ok(); o.ok(); v = o.v; return *this; }
	~E() { ok(); magic = 0xDEAD; }
	bool operator==(const E& o) const { ok(); o.ok(); return v == o.v; }
	bool operator<(const E& o) const { ok(); o.ok(); return v < o.v; }
};
typedef Array<E> A;
typedef ArrayBody<E> AB;

static std::string show(const List& l)
{
	std::string s = "[";
	for (size_t i = 0; i < l.size(); i++) s += (i ? "," : "") + std::to_string(l[i]);
	return s + "]";
}
static List list_of(const A& a)
{
	List l;
	for (unsigned i = 0; i < a.length(); i++) l.push_back(a[i].v);
	return l;
}
static void same(Ctx& c, const A& a, const List& l, const char* what)
{
	if (a.length() != l.size() || a.isEmpty() != l.empty())
		c.fail("%s: length %u, expected %s", what, a.length(), show(l).c_str());
	List g = list_of(a);
	if (g != l) c.fail("%s holds %s, expected %s", what, show(g).c_str(), show(l).c_str());
	const E* p = a.asElements();
	for (size_t i = 0; i < l.size(); i++) if (p[i].v != l[i] || a.elem(i).v != l[i] || a.elem_ref(i).v != l[i])
		c.fail("%s: element %zu seen differently by different accessors", what, i);
	if (l.size() && a.last_ref().v != l.back()) c.fail("%s: last_ref", what);
}

static const int NV = 3;
struct World {
	E	data[6];
	AB	statbody;
	A	v[NV]; List m[NV];
	int	next;
	World() : data{E(91), E(92), E(93), E(94), E(95), E(96)}, statbody(data, false, 6), next(1) {}
};
static List sub(const List& l, size_t at, size_t len) { return List(l.begin()+at, l.begin()+at+len); }

static int fill(World& w, int i, int n)
{
	std::vector<E> e; List l;
	for (int k = 0; k < n; k++) { e.push_back(E(w.next)); l.push_back(w.next++); }
	w.v[i] = A(e.data(), n); w.m[i] = l;
	return n;
}
// Starting arrangements of shared storage
static const int NSHAPE = 12;
static void shape(Ctx& c, World& w, int s)
{
	auto sl = [&](int to, int from, int at, int len) { w.v[to] = w.v[from].slice(at, len); w.m[to] = sub(w.m[from], at, len); };
	switch (s) {
	case 0: c.note("all empty"); break;
	case 1: fill(w, 0, 3); w.v[1] = w.v[0]; w.m[1] = w.m[0]; sl(2, 0, 1, 1); c.note("a=[3] b=a c=a.slice(1,1)"); break;
	case 2: fill(w, 0, 4); sl(1, 0, 0, 2); sl(2, 0, 2, 2); c.note("a=[4] b=first half c=second half"); break;
	case 3: fill(w, 0, 4); sl(1, 0, 1, 2); w.v[0] = A(); w.m[0].clear(); c.note("b=the middle of an array of 4 that is gone"); break;
	case 4: fill(w, 0, 8); sl(1, 0, 5, 3); c.note("a=[8], all its room used, b=a.slice(5,3)"); break;
	case 5: fill(w, 0, 1); fill(w, 1, 2); w.v[2] = w.v[1]; w.m[2] = w.m[1]; c.note("a=[1] b=[2] c=b"); break;
	case 6: w.v[0] = A(&w.statbody); w.m[0] = List{91,92,93,94,95,96}; sl(1, 0, 2, 2); c.note("a over static elements, b=a.slice(2,2)"); break;
	case 7: fill(w, 0, 4); sl(1, 0, 0, 1); w.v[0] = A(); w.m[0].clear(); fill(w, 0, 2); c.note("b=the start of an array of 4 that is gone, a=[2]"); break;
	case 8: fill(w, 0, 4); w.v[0].pull(); w.m[0].pop_back(); w.v[0].remove(0, 1); w.m[0].erase(w.m[0].begin()); w.v[1] = w.v[0]; w.m[1] = w.m[0]; c.note("a=[4] less its ends, b=a"); break;
	case 9: fill(w, 0, 3); w.v[1] = w.v[0]; w.m[1] = w.m[0]; w.v[2] = w.v[0]; w.m[2] = w.m[0]; w.v[1].clear(); w.m[1].clear(); c.note("a=[3] b=a, cleared, c=a"); break;
	case 10: fill(w, 0, 5); sl(1, 0, 1, 3); sl(2, 1, 1, 1); c.note("slice of a slice"); break;
	case 11: w.v[0] = A(&w.statbody); w.m[0] = List{91,92,93,94,95,96}; w.v[0].clear(); w.m[0].clear(); fill(w, 1, 2); c.note("a over static elements, cleared, b=[2]"); break;
	}
}
enum Op { ASSIGN, SLICE, PUSH, INSERT, REMOVE, PULL, SHIFT, UNSHIFT, SET, REVERSE, CLEAR, DELIF, ADD, ADDE, APPENDA,	// representative
	PLUSEQ_A, PLUSEQ_E, SHL, APPEND_E, DELETE_AT, ELEM_MUT, LAST_MUT, DROP, HEAD, TAIL, SHORTER, RENEW, ALLOC, ONE, NOPS, NREP = PLUSEQ_A };

static void step(Ctx& c, World& w, int nops)
{
	int t = c.choose(NV), op = c.choose(nops);
	A& v = w.v[t]; List& m = w.m[t];
	int n = m.size();
	char tn = 'a'+t;
	auto src = [&](const char* f) { int s = c.choose(NV); c.note("; %c.%s(%c", tn, f, 'a'+s); return s; };
	int s, i, k;
	switch (op) {
	case ASSIGN: s = src("="); { A& r = (A&)(v = w.v[s]); if (&r != &v) c.fail("= returns something else"); } { List x = w.m[s]; m = x; } break;
	case SLICE: s = src("=slice"); n = w.m[s].size(); i = c.choose(n+2); k = (int)c.choose(n+3-(i < n ? i : n))-1;
		c.note(",%d,%d", i, k);
		v = w.v[s].slice(i, k); { List x; if (i < n) x = sub(w.m[s], i, k < 0 || k > n-i ? n-i : k); m = x; } break;
	case PUSH: c.note("; %c.push(", tn); v.push(E(w.next)); m.push_back(w.next++); break;
	case PLUSEQ_E: c.note("; %c+=(", tn); v += E(w.next); m.push_back(w.next++); break;
	case SHL: c.note("; %c<<(", tn); v << E(w.next) << E(w.next+1); m.push_back(w.next++); m.push_back(w.next++); break;
	case APPEND_E: c.note("; %c.append(", tn); v.append(E(w.next)); m.push_back(w.next++); break;
	case UNSHIFT: c.note("; %c.unshift(", tn); v.unshift(E(w.next)); m.insert(m.begin(), w.next++); break;
	case INSERT: s = src("insert"); i = c.choose(n+1); c.note(",at %d", i); v.insert(i, w.v[s]); { List x = w.m[s]; m.insert(m.begin()+i, x.begin(), x.end()); } break;
	case APPENDA: s = src("append"); v.append(w.v[s]); { List x = w.m[s]; m.insert(m.end(), x.begin(), x.end()); } break;
	case PLUSEQ_A: s = src("+="); v += w.v[s]; { List x = w.m[s]; m.insert(m.end(), x.begin(), x.end()); } break;
	case ADD: { s = src("=+"); int u = c.choose(NV); c.note(",%c", 'a'+u); A r = w.v[s] + w.v[u]; v = r; List x = w.m[s]; x.insert(x.end(), w.m[u].begin(), w.m[u].end()); m = x; break; }
	case ADDE: { s = src("=+E"); A r = w.v[s] + E(w.next); v = r; List x = w.m[s]; x.push_back(w.next++); m = x; break; }
	case REMOVE: i = c.choose(n+1); k = (int)c.choose(n-i+2)-1; c.note("; %c.remove(%d,%d", tn, i, k); v.remove(i, k); m.erase(m.begin()+i, k < 0 ? m.end() : m.begin()+i+k); break;
	case DELETE_AT: if (!n) c.prune(); i = c.choose(n); c.note("; %c.delete_at(%d", tn, i); { E e = v.delete_at(i); if (e.v != m[i]) c.fail("delete_at(%d) gives %d, expected %d", i, e.v, m[i]); } m.erase(m.begin()+i); break;
	case PULL: if (!n) c.prune(); c.note("; %c.pull(", tn); { E e = v.pull(); if (e.v != m.back()) c.fail("pull gives %d, expected %d", e.v, m.back()); } m.pop_back(); break;
	case SHIFT: if (!n) c.prune(); c.note("; %c.shift(", tn); { E e = v.shift(); if (e.v != m[0]) c.fail("shift gives %d, expected %d", e.v, m[0]); } m.erase(m.begin()); break;
	case SET: if (!n) c.prune(); i = c.choose(n); c.note("; %c.set(%d", tn, i); { const E& e = v.set(i, E(w.next)); if (e.v != w.next) c.fail("set gives %d", e.v); } m[i] = w.next++; break;
	case ELEM_MUT: if (!n) c.prune(); i = c.choose(n); c.note("; %c.elem_mut(%d)=(", tn, i); v.elem_mut(i) = E(w.next); m[i] = w.next++; break;
	case LAST_MUT: if (!n) c.prune(); c.note("; %c.last_mut()=(", tn); if (v.last().v != m.back()) c.fail("last"); v.last_mut() = E(w.next); m.back() = w.next++; break;
	case REVERSE: c.note("; %c.reverse(", tn); v.reverse(); std::reverse(m.begin(), m.end()); break;
	case CLEAR: c.note("; %c.clear(", tn); v.clear(); m.clear(); break;
	case DELIF: { int mask = c.choose(1 << (n > 4 ? 4 : n)); c.note("; %c.delete_if(mask %x", tn, mask); int at = 0; List order;
		v.delete_if([&](const E& e) { order.push_back(e.v); return (mask >> (at++ % 4)) & 1; });
		if (order != m) c.fail("delete_if looked at %s, not %s", show(order).c_str(), show(m).c_str());
		List x; for (int j = 0; j < n; j++) if (!((mask >> (j%4)) & 1)) x.push_back(m[j]); m = x; break; }
	case DROP: s = src("=drop"); n = w.m[s].size(); i = c.choose(n+1); c.note(",%d", i); { A r = w.v[s].drop(i); v = r; List x = sub(w.m[s], i, n-i); m = x; } break;
	case HEAD: s = src("=head"); n = w.m[s].size(); i = c.choose(n+2); c.note(",%d", i); v = w.v[s].head(i); { List x = sub(w.m[s], 0, std::min(i, n)); m = x; } break;
	case TAIL: s = src("=tail"); n = w.m[s].size(); i = c.choose(n+1); c.note(",%d", i); v = w.v[s].tail(i); { List x = sub(w.m[s], n-i, i); m = x; } break;
	case SHORTER: s = src("=shorter"); n = w.m[s].size(); i = c.choose(n+3); c.note(",%d", i); v = w.v[s].shorter(i); { List x = sub(w.m[s], 0, i < n ? n-i : 0); m = x; } break;
	case RENEW: c.note("; %c=A(", tn); v = A(); m.clear(); break;
	case ALLOC: c.note("; %c=prealloc(", tn); { E e[2] = {E(w.next), E(w.next+1)}; v = A(e, 2, 20); m = List{w.next, w.next+1}; w.next += 2; } break;
	case ONE: c.note("; %c=one(", tn); { E e(w.next); v = A(e); } m = List{w.next++}; break;
	}
	c.note(")");
}
static void ops(Ctx& c)
{
	int nshape = c.param("shapes", NSHAPE), depth = c.param("depth", 2), all = c.param("all", 1);
	World w;
	int s = c.choose(nshape);
	c.setkey("shape %d", s);
	shape(c, w, s);
	uint64_t h = s;
	for (int d = 0; d < depth; d++) {
		step(c, w, all ? NOPS : NREP);
		h = 7;
		for (int i = 0; i < NV; i++) {
			char nm[2] = {(char)('a'+i), 0};
			same(c, w.v[i], w.m[i], nm);
			h = mc::mix(h, w.m[i].size() << 1 | w.v[i].isShared());
			for (int x : w.m[i]) h = mc::mix(h, x);
			for (int j = 0; j < i; j++) {
				bool eq = w.m[i] == w.m[j];
				if ((w.v[i] == w.v[j]) != eq || (w.v[i] != w.v[j]) == eq) c.fail("equality of %c and %c", 'a'+j, 'a'+i);
				if (w.m[i].size() && w.m[j].size()) h = mc::mix(h, w.v[i].asElements() - w.v[j].asElements() < 64 && w.v[j].asElements() - w.v[i].asElements() < 64);
			}
		}
		c.state(h);
	}
	for (int i = 0; i < 6; i++) if (w.data[i].v != 91+i) c.fail("static element %d was changed to %d", i, w.data[i].v);
	c.outcome(h);
	c.note("\n");
}
MC_CONFIG(ops, "array_ops", ops, 3);

// The same with arrays of strings-like heap elements is what the string checks do; here long runs that make bodies grow
static void growth(Ctx& c)
{
	int len = c.param("len", 40);
	int size = c.choose(len+1), alloc = c.choose(4), how = c.choose(4), at = c.choose(3), n = c.choose(3);
	c.setkey("size %d alloc %d how %d at %d n %d", size, alloc, how, at, n);
	c.note("array of %d with room for %d more, grown by %s at the %s\n", size, alloc*8, how == 0 ? "push" : how == 1 ? "insert" : how == 2 ? "unshift" : "+=", at == 0 ? "start" : at == 1 ? "middle" : "end");
	List m; std::vector<E> e;
	for (int i = 0; i < size; i++) { m.push_back(i); e.push_back(E(i)); }
	A a(e.data(), size, size+alloc*8), b(e.data(), n ? (n == 1 ? std::min(1, size) : size) : 0);
	List bm = list_of(b);
	A keep = c.flip() ? a : A(); List keepm = list_of(keep);
	for (int r = 0; r < 3; r++) {
		int pos = at == 0 ? 0 : at == 1 ? m.size()/2 : m.size();
		if (how == 0) { a.push(E(100+r)); m.push_back(100+r); }
		else if (how == 1) { a.insert(pos, b); m.insert(m.begin()+pos, bm.begin(), bm.end()); }
		else if (how == 2) { a.unshift(E(100+r)); m.insert(m.begin(), 100+r); }
		else { a += b; m.insert(m.end(), bm.begin(), bm.end()); }
		same(c, a, m, "a"); same(c, keep, keepm, "the copy");
	}
	c.state(mc::mix(mc::mix(size, alloc), how*16+at*4+n));
}
MC_CONFIG(growth, "array_growth", growth, 2);

/*--- C14 ---*/
// A slice holding l, made in different ways: its neighbours in the body would match too
static A make(const List& l, int how, A& hold)
{
	std::vector<E> e;
	int pad = how == 0 ? 0 : 3;
	if (how == 3 && l.empty()) return A();		// no body at all
	for (int i = 0; i < pad; i++) e.push_back(E(i));
	for (int x : l) e.push_back(E(x));
	for (int i = 0; i < pad; i++) e.push_back(E(i));
	A all(e.data(), e.size());
	A s = l.empty() ? A(all).remove(0, pad).remove(0, pad) : all.slice(pad, l.size());
	if (how == 2) hold = all;
	return s;
}
static void unchanged(Ctx& c, const A& a, const List& l, const E* p, const char* what)
{
	if (list_of(a) != l || a.asElements() != p) c.fail("%s changed the array", what);
}
static void search(Ctx& c)
{
	int vals = c.param("values", 3), maxlen = c.param("len", 4);
	int n = c.choose(maxlen+1);
	List l;
	for (int i = 0; i < n; i++) l.push_back(c.choose(vals));
	int how = c.choose(4);
	A hold, a = make(l, how, hold);
	c.setkey("%s made in way %d", show(l).c_str(), how); c.note("%s made in way %d\n", show(l).c_str(), how);
	same(c, a, l, "a");
	const E* p = a.asElements();
	uint64_t h = 0;
	for (int x = 0; x <= vals; x++) {
		for (int after = -1; after <= n; after++) {
			int want = -1, got;
			for (int i = after+1; i < n; i++) if (l[i] == x) { want = i; break; }
			if ((got = a.find(E(x), after)) != want) c.fail("find(%d, after %d) gives %d, expected %d", x, after, got, want);
			got = a.find([&](const E& e) { return e.v == x; }, after);
			if (got != want) c.fail("find(match %d, after %d) gives %d, expected %d", x, after, got, want);
			want = -1;
			for (int i = (after < 0 ? n : after)-1; i >= 0; i--) if (l[i] == x) { want = i; break; }
			if ((got = a.rfind(E(x), after)) != want) c.fail("rfind(%d, before %d) gives %d, expected %d", x, after, got, want);
			got = a.rfind([&](const E& e) { return e.v == x; }, after);
			if (got != want) c.fail("rfind(match %d, before %d) gives %d, expected %d", x, after, got, want);
			h = mc::mix(h, got);
		}
		if (a.find(E(x)) != a.find(E(x), -1) || a.rfind(E(x)) != a.rfind(E(x), -1)) c.fail("defaults of find/rfind");
	}
	unchanged(c, a, l, p, "searching");
	for (int set = 0; set < (1 << vals); set++) {		// every predicate on these values
		int seen = 0; bool stopped = false;
		auto pred = [&](const E& e) { return (set >> e.v & 1) != 0; };
		List want; int first = -1;
		for (int i = 0; i < n; i++) if (set >> l[i] & 1) { want.push_back(l[i]); if (first < 0) first = i; }
		if (a.all(pred) != ((int)want.size() == n)) c.fail("all(%x) gives %d", set, a.all(pred));
		if (a.any(pred) != !want.empty()) c.fail("any(%x) gives %d", set, a.any(pred));
		if (a.one(pred) != (want.size() == 1)) c.fail("one(%x) gives %d", set, a.one(pred));
		if (a.detect(pred) != first) c.fail("detect(%x) gives %d, expected %d", set, a.detect(pred), first);
		List got = list_of(a.select(pred));
		if (got != want) c.fail("select(%x) gives %s, expected %s", set, show(got).c_str(), show(want).c_str());
		(void)seen; (void)stopped;
		h = mc::mix(h, first);
	}
	unchanged(c, a, l, p, "all/any/one/detect/select");
	List visited;
	const A& r = a.each([&](const E& e) { visited.push_back(e.v); });
	if (visited != l || &r != &a) c.fail("each visits %s", show(visited).c_str());
	List want; for (int x : l) want.push_back(10-x);
	visited.clear();
	std::function<E(const E&)> map1 = [&](const E& e) -> E { visited.push_back(e.v); return E(10-e.v); };
	List got = list_of(a.map(map1));
	if (got != want || visited != l) c.fail("map gives %s", show(got).c_str());
	auto other = a.map<Array<long>, long>([](const E& e) -> long { return 100L*e.v; });
	if ((int)other.length() != n) c.fail("map to another type gives %u elements", other.length());
	for (int i = 0; i < n; i++) if (other[i] != 100L*l[i]) c.fail("map to another type gives %ld at %d", other[i], i);
	long fold = 1; for (int x : l) fold = fold*5 + x;
	long g = a.inject<long>(1L, [](long& acc, const E& e) -> long { return acc*5 + e.v; });
	if (g != fold) c.fail("inject gives %ld, expected %ld", g, fold);
	unchanged(c, a, l, p, "each/map/inject");
	c.state(mc::hstr(show(l), how+1)); c.outcome(h);
}
MC_CONFIG(search, "array_search", search, 3);

static void bsearch_(Ctx& c)
{
	int maxlen = c.param("len", 12);
	// sorted lists: each element steps up by 0 (a duplicate), 1 or 2
	int n = c.choose(maxlen+1);
	List l; int v = 0;
	for (int i = 0; i < n; i++) { v += c.choose(3); l.push_back(v); }
	int how = c.choose(4);
	A hold, a = make(l, how, hold);
	c.setkey("bsearch %s", show(l).c_str()); c.note("bsearch %s\n", show(l).c_str());
	const E* p = a.asElements();
	for (int x = -1; x <= v+1; x++) {
		int calls = 0;
		int got = a.bsearch([&](const E& e) { calls++; return e.v < x ? -1 : e.v > x ? 1 : 0; });
		bool in = std::find(l.begin(), l.end(), x) != l.end();
		if (in ? got < 0 || got >= n || l[got] != x : got != -1) c.fail("bsearch for %d in %s gives %d", x, show(l).c_str(), got);
		if (calls > n) c.fail("bsearch in %d elements made %d comparisons", n, calls);
	}
	unchanged(c, a, l, p, "bsearch");
	c.state(mc::hstr(show(l), how+1));
}
MC_CONFIG(bs, "array_bsearch", bsearch_, 4);

static void compare(Ctx& c)
{
	int vals = c.param("values", 3), maxlen = c.param("len", 3);
	List l[3]; A h[3], a[3];
	int nl = c.param("lists", 2);
	for (int k = 0; k < nl; k++) {
		int n = c.choose(maxlen+1);
		for (int i = 0; i < n; i++) l[k].push_back(c.choose(vals));
		a[k] = make(l[k], c.choose(nl > 2 ? 1 : 4), h[k]);
	}
	auto sgn = [](int x) { return x < 0 ? -1 : x > 0; };
	c.setkey("%s %s %s", show(l[0]).c_str(), show(l[1]).c_str(), show(l[2]).c_str());
	c.note("%s %s %s\n", show(l[0]).c_str(), show(l[1]).c_str(), show(l[2]).c_str());
	for (int i = 0; i < nl; i++) for (int j = 0; j < nl; j++) {
		int want = l[i] < l[j] ? -1 : l[j] < l[i] ? 1 : 0, got = a[i].compare(a[j]);
		if (sgn(got) != want) c.fail("%s compare %s gives %d", show(l[i]).c_str(), show(l[j]).c_str(), got);
		if ((a[i] == a[j]) != (want == 0) || (a[i] != a[j]) != (want != 0)) c.fail("%s ==/!= %s", show(l[i]).c_str(), show(l[j]).c_str());
	}
	// slices of the same body
	for (int i = 0; i <= (int)l[0].size(); i++) for (int j = i; j <= (int)l[0].size(); j++) {
		List s = sub(l[0], i, j-i);
		A x = a[0].slice(i, j-i);
		int want = s < l[0] ? -1 : l[0] < s ? 1 : 0;
		if (sgn(x.compare(a[0])) != want || sgn(a[0].compare(x)) != -want || (x == a[0]) != (want == 0)) c.fail("slice %d,%d of %s compared with the whole", i, j-i, show(l[0]).c_str());
	}
	c.state(mc::hstr(show(l[0])+show(l[1])+show(l[2])));
}
MC_CONFIG(cmp, "array_compare", compare, 4);

/*--- Sizes: one or a few operations on arrays of every length to a bound, and about larger powers of 2 ---*/
static int size_of(Ctx& c, int upto, int big)
{
	static const int BIG[] = {63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4096, 65535, 65536, 70000};
	int n = c.choose(upto+1+big);
	return n <= upto ? n : BIG[n-upto-1];
}
static List numbers(int n, int from) { List l; for (int i = 0; i < n; i++) l.push_back(from+i); return l; }
static A array_of(const List& l) { std::vector<E> e; for (int x : l) e.push_back(E(x)); return A(e.data(), e.size()); }
static void same_long(Ctx& c, const A& a, const List& l, const char* what)
{
	if (l.size() <= 100) { same(c, a, l, what); return; }
	if (a.length() != l.size()) c.fail("%s has %u elements, expected %zu", what, a.length(), l.size());
	const E* p = a.asElements();
	for (size_t i = 0; i < l.size(); i++) if (p[i].v != l[i]) c.fail("%s: element %zu of %zu is %d, expected %d", what, i, l.size(), p[i].v, l[i]);
	for (size_t i = 0; i < l.size(); i += 1+l.size()/64) if (a[i].v != l[i] || a.elem(i).v != l[i]) c.fail("%s: element %zu of %zu", what, i, l.size());
}
static void sizes(Ctx& c)
{
	int n = size_of(c, c.param("n", 20), c.param("bign", 0)), k = size_of(c, c.param("k", 20), c.param("bigk", 0));
	int how = c.choose(5), op = c.choose(17), where = c.choose(4);
	int at = where == 0 ? 0 : where == 1 ? n/2 : where == 2 ? std::max(n-1, 0) : n;
	if (n+k > 2000 && where % 2) return;
	c.setkey("n %d k %d how %d op %d at %d", n, k, how, op, at);
	List m = numbers(n, 1000), x = numbers(k, 5), around = m;
	// Its own, a slice of more, the last slice, a copy, with room
	A hold, a, b = array_of(x);
	if (how == 1 || how == 2) { around.insert(around.begin(), 3, 7); around.push_back(8); around.push_back(9); A all = array_of(around); a = all.slice(3, n); if (how == 1) hold = all; else around.clear(); }
	else if (how == 4) { std::vector<E> e; for (int v : m) e.push_back(E(v)); a = A(e.data(), n, n+k+3); around.clear(); }
	else { a = array_of(m); if (how == 3) hold = a; else around.clear(); }
	A copy; List copym; if (how != 2 && how != 4) { copy = a.slice(n/3); copym = sub(m, n ? n/3 : 0, n-n/3); }
	List want = m; int q = std::min(k, n), rest = n-at;
	switch (op) {
	case 0: a.insert(at, b); want.insert(want.begin()+at, x.begin(), x.end()); break;
	case 1: a.insert(at, a); want.insert(want.begin()+at, m.begin(), m.end()); break;
	case 2: a += b; want.insert(want.end(), x.begin(), x.end()); break;
	case 3: a = b + a; want = x; want.insert(want.end(), m.begin(), m.end()); break;
	case 4: for (int i = 0; i < k; i++) { a.push(E(i)); want.push_back(i); } break;
	case 5: for (int i = 0; i < k && i < 300; i++) { a.unshift(E(i)); want.insert(want.begin(), i); } break;
	case 6: q = std::min(k, rest); a.remove(at, q); want.erase(want.begin()+at, want.begin()+at+q); break;
	case 7: for (int i = 0; i < q && i < 300; i++) { a.shift(); want.erase(want.begin()); } a.push(E(77)); want.push_back(77); break;
	case 8: for (int i = 0; i < q; i++) { a.pull(); want.pop_back(); } a.unshift(E(77)); want.insert(want.begin(), 77); break;
	case 9: a.reverse(); std::reverse(want.begin(), want.end()); break;
	case 10: { int at2 = 0, every = 1+k%7; a.delete_if([&](const E& e) { return at2++ % every == every/2; }); want.clear(); for (int i = 0; i < n; i++) if (i % every != every/2) want.push_back(m[i]); break; }
	case 11: a = a.drop(q); want = sub(m, q, n-q); a.push(E(77)); want.push_back(77); break;
	case 12: a = a.head(q); want = sub(m, 0, q); a += b; want.insert(want.end(), x.begin(), x.end()); break;
	case 13: a = a.tail(q); want = sub(m, n-q, q); a.insert(0, b); want.insert(want.begin(), x.begin(), x.end()); break;
	case 14: for (int i = 0; i < n; i += 1+n/9) { a.set(i, E(i)); want[i] = i; } break;
	case 15: { A s = a.slice(at, q); a.insert(n, s); List t = at < n ? sub(m, at, std::min(q, rest)) : List(); want.insert(want.end(), t.begin(), t.end()); break; }
	case 16: { std::function<E(const E&)> f = [](const E& e) { return E(e.v+1); }; A t = a.map(f); a = t; for (int& v : want) v++; t.push(E(1)); break; }
	}
	c.note("%d elements held in way %d, operation %d with %d at %d\n", n, how, op, k, at);
	same_long(c, a, want, "the result"); same_long(c, hold, around, "what it was part of"); same_long(c, copy, copym, "a slice taken before"); same_long(c, b, x, "the argument");
	a.push(E(4)); want.push_back(4); same_long(c, a, want, "the result and one more"); same_long(c, hold, around, "what it was part of");
	c.state(mc::mix(mc::mix(n, k), mc::mix(how*32+op, at)));
}
MC_CONFIG(sizes, "array_sizes", sizes, 4);

static void sizes_search(Ctx& c)
{
	int n = size_of(c, c.param("n", 70), c.param("bign", 0)), period = 1+c.choose(8), how = c.choose(4);
	List l; for (int i = 0; i < n; i++) l.push_back(period == 8 ? i : i % period);
	c.setkey("n %d period %d how %d", n, period, how); c.note("%d elements repeating after %d, made in way %d: searched, compared, searched by bisection\n", n, period == 8 ? n : period, how);
	A hold, a = make(l, how, hold);
	same_long(c, a, l, "a");
	List points{-1, 0, 1, n/2, n-2, n-1, n}; if (n > 130) for (int p : {63, 64, 127, 128, n-64}) points.push_back(p);
	for (int x : {0, 1, period-1, period, n-1, n/2}) for (int from : points) if (from >= -1 && from <= n) {
		int f = -1, r = -1;
		for (int i = n-1; i > from; i--) if (l[i] == x) f = i;
		for (int i = 0; i < (from < 0 ? n : from); i++) if (l[i] == x) r = i;
		int got = a.find(E(x), from); if (got != f) c.fail("find(%d, after %d) gives %d, expected %d", x, from, got, f);
		got = a.rfind(E(x), from); if (got != r) c.fail("rfind(%d, before %d) gives %d, expected %d", x, from, got, r);
		got = a.find([&](const E& e) { return e.v == x; }, from); if (got != f) c.fail("find(match %d, after %d) gives %d, expected %d", x, from, got, f);
		got = a.rfind([&](const E& e) { return e.v == x; }, from); if (got != r) c.fail("rfind(match %d, before %d) gives %d, expected %d", x, from, got, r);
	}
	for (int t : {0, 1, n/2, n-1, n}) if (t >= 0) {	// a condition on the first t, on the last t, on all but one
		int i = 0; size_t sel = std::max(0, std::min(t, n));
		auto firsts = [&](const E&) { return i++ < t; };
		bool r = a.all(firsts); if (r != (t >= n)) c.fail("all of the first %d", t);
		i = 0; r = a.any(firsts); if (r != (t > 0 && n > 0)) c.fail("any of the first %d", t);
		i = 0; r = a.one(firsts); if (r != (sel == 1)) c.fail("one of the first %d", t);
		i = 0; A s = a.select(firsts); same_long(c, s, sub(l, 0, sel), "the first selected");
		i = 0; int d = a.detect([&](const E&) { return i++ == t; }); if (d != (t >= 0 && t < n ? t : -1)) c.fail("detect of %d gives %d", t, d);
		i = 0; r = a.any([&](const E&) { return i++ == t; }); if (r != (t >= 0 && t < n)) c.fail("any at %d", t);
		i = 0; r = a.all([&](const E&) { return i++ != t; }); if (r != !(t >= 0 && t < n)) c.fail("all but at %d", t);
		i = 0; r = a.one([&](const E&) { int j = i++; return j == t || j == n-1; }); if (r != (n > 0 && !(t >= 0 && t < n-1))) c.fail("one at %d or the last", t);
	}
	long fold = 1, want = 1; List seen; for (int x : l) want = want*5 + x;
	fold = a.inject<long>(1L, [](long& acc, const E& e) -> long { return acc*5 + e.v; }); if (fold != want) c.fail("inject");
	a.each([&](const E& e) { seen.push_back(e.v); }); if (seen != l) c.fail("each");
	auto other = a.map<Array<long>, long>([](const E& e) -> long { return 100L*e.v; });
	if ((int)other.length() != n) c.fail("map gives %u elements", other.length());
	for (int i = 0; i < n; i++) if (other[i] != 100L*l[i]) c.fail("map gives %ld at %d", other[i], i);
	// compared with the same but for one element, or one more or less
	auto sgn = [](int x) { return x < 0 ? -1 : x > 0; };
	for (int at : {0, n/2, n-1}) for (int d = -1; d <= 2; d++) {
		List o = l; if (d < 2 && (at < 0 || at >= n)) continue;
		if (d < 2) o[at] += d; else if (at == 0) o.push_back(0); else if (n) o.pop_back();
		A b = array_of(o); int w = l < o ? -1 : o < l ? 1 : 0;
		if (sgn(a.compare(b)) != w || sgn(b.compare(a)) != -w || (a == b) != !w || (a != b) != !!w) c.fail("comparison with one that differs at %d by %d", at, d);
	}
	if (period == 8) for (int step = 1; step <= 3; step++) {	// bisection in multiples of step
		A s = a.map<A, E>([&](const E& e) { return E(e.v*step); });
		for (int x = -1; x <= n*step; x += n > 200 ? 1+n/100 : 1) {
			int calls = 0, got = s.bsearch([&](const E& e) { calls++; return e.v < x ? -1 : e.v > x ? 1 : 0; });
			int w = x >= 0 && x % step == 0 && x/step < n ? x/step : -1, most = 1; for (int z = n; z; z /= 2) most++;
			if (got != w) c.fail("bsearch for %d among %d multiples of %d gives %d, expected %d", x, n, step, got, w);
			if (calls > most) c.fail("bsearch of %d elements makes %d comparisons", n, calls);
		}
	}
	c.state(mc::mix(mc::mix(n, period), how));
}
MC_CONFIG(sizes_search, "array_sizes_search", sizes_search, 3);
