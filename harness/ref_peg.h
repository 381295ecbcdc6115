#ifndef REF_PEG_H
#define REF_PEG_H
/*
 * A reference reading of prefix-operator expressions, written from the documented grammar: parse to a tree,
 * then evaluate the tree as a parsing expression. Anything the grammar does not define (an operator without
 * operand, an empty alternate that is not the last one, characters beyond ASCII in the pattern, an
 * incomplete escape...) is "not defined", and no claim is made about it.
 */
#include "ref_utf8.h"
#include <map>
#include <set>
#include <functional>

struct PegNode {
	enum Kind { LIT, ANY, CLASS, BOL, EOL, OPT, STAR, PLUS, AND, NOT, GROUP, ALT, CALL };
	struct Range { uint32_t lo, hi; char prop; };
	Kind			kind;
	size_t			at, end;		// Where in the pattern
	uint32_t		ch;			// LIT
	bool			negated;		// CLASS
	std::vector<Range>	ranges;			// CLASS, or escaped property
	std::vector<std::vector<PegNode>> seqs;		// ALT: the alternates; others: one sequence
	std::string		name;			// CALL
	std::string		label;			// Capture, if any
	bool			labelled;
	bool			escape;			// LIT written as an escape, or a property
	PegNode(Kind k, size_t a) : kind(k), at(a), end(a), ch(0), negated(false), labelled(false), escape(false) {}
};
typedef std::vector<PegNode> PegSeq;

struct PegParser {
	const std::string& p; size_t i; bool calls; bool bad; bool lookahead_label; bool bytes;	// bytes: the pattern may have bytes beyond ASCII, for text taken by the byte
	PegParser(const std::string& s, bool c) : p(s), i(0), calls(c), bad(false), lookahead_label(false), bytes(false) {}
	char cur() const { return i < p.size() ? p[i] : 0; }
	char next() const { return i+1 < p.size() ? p[i+1] : 0; }
	static int hexd(char c) { return c >= '0' && c <= '9' ? c-'0' : c >= 'a' && c <= 'f' ? c-'a'+10 : c >= 'A' && c <= 'F' ? c-'A'+10 : -1; }
	static bool word(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
	bool parse(PegSeq& s) {
		for (char c : p) if (((c & 0x80) && !bytes) || !c) return false;
		sequence(s, false);
		if (i < p.size()) bad = true;		// An extra )
		return !bad;
	}
	bool at_end() const { return i >= p.size() || p[i] == ')'; }
	void sequence(PegSeq& s, bool alternate) {
		while (!bad && !at_end() && !(alternate && cur() == '|')) s.push_back(atom());
	}
	uint32_t escape() {		// After the backslash; not a property
		char c = cur(); i++;
		if (c >= '0' && c <= '7') {
			uint32_t v = c-'0';
			for (int n = 0; n < 2 && cur() >= '0' && cur() <= '7'; n++, i++) v = v*8 + cur()-'0';
			return v;
		}
		if (c == 'x' || c == 'u') {
			bool braces = cur() == '{';
			if (braces) i++;
			uint32_t v = 0; int n = 0, max = c == 'x' ? 2 : braces ? 8 : 4;
			for (; n < max && i < p.size() && hexd(cur()) >= 0; n++, i++) v = v*16 + hexd(cur());
			if (n == 0) bad = true;
			if (braces) { if (cur() == '}') i++; else bad = true; }
			return v;
		}
		switch (c) { case 'n': return '\n'; case 't': return '\t'; case 'r': return '\r'; case 'b': return '\b'; case 'e': return 27; case 'f': return '\f'; case 0: bad = true; }
		return (u8)c;
	}
	static bool property(char c) { return c && strchr("adhLUsw", c); }
	PegNode atom() {
		PegNode n(PegNode::LIT, i);
		char c = cur(); i++;
		switch (c) {
		case ':': bad = true; return n;		// A label of nothing
		case '^': n.kind = PegNode::BOL; break;
		case '$': n.kind = PegNode::EOL; break;
		case '.': n.kind = PegNode::ANY; break;
		case '?': case '*': case '+': case '&': case '!':
			n.kind = c == '?' ? PegNode::OPT : c == '*' ? PegNode::STAR : c == '+' ? PegNode::PLUS : c == '&' ? PegNode::AND : PegNode::NOT;
			if (at_end()) { bad = true; return n; }
			n.seqs.resize(1); n.seqs[0].push_back(atom());
			break;
		case '(':
			n.kind = PegNode::GROUP; n.seqs.resize(1);
			sequence(n.seqs[0], false);
			if (cur() == ')') i++; else bad = true;
			break;
		case '|':
			n.kind = PegNode::ALT;
			i--;
			while (cur() == '|' && i < p.size()) {
				i++;
				n.seqs.push_back(PegSeq());
				sequence(n.seqs.back(), true);
				if (n.seqs.back().empty() && !at_end()) bad = true;	// Only the last alternate may be empty
				if (bad) return n;
			}
			break;
		case '[': {
			n.kind = PegNode::CLASS;
			if (cur() == '^') { n.negated = true; i++; }
			while (i < p.size() && cur() != ']') {
				PegNode::Range r; r.prop = 0;
				if (cur() == '\\' && property(next())) { r.prop = next(); r.lo = r.hi = 0; i += 2; n.ranges.push_back(r); continue; }
				if (cur() == '\\') { i++; r.lo = escape(); } else r.lo = (u8)p[i++];
				r.hi = r.lo;
				if (cur() == '-') {
					i++;
					if (cur() == ']' || i >= p.size() || (cur() == '\\' && property(next()))) { bad = true; return n; }
					if (cur() == '\\') { i++; r.hi = escape(); } else r.hi = (u8)p[i++];
				}
				n.ranges.push_back(r);
				if (bad) return n;
			}
			if (cur() == ']') i++; else bad = true;
			break; }
		case '\\':
			n.escape = true;
			if (property(cur())) { n.kind = PegNode::CLASS; PegNode::Range r; r.prop = cur(); r.lo = r.hi = 0; n.ranges.push_back(r); i++; }
			else n.ch = escape();
			break;
		case '<':
			if (calls) {
				size_t e = p.find('>', i);
				if (e == std::string::npos) { bad = true; return n; }
				n.kind = PegNode::CALL; n.name = p.substr(i, e-i); i = e+1;
				break;
			}
			// fall through
		default:
			n.ch = (u8)c;
		}
		n.end = i;
		if (cur() == ':' && i < p.size()) {
			i++;
			size_t s = i;
			while (i < p.size() && word(cur())) i++;
			n.label = p.substr(s, i-s);
			if (n.label.empty()) bad = true;
			if (cur() == ':' && i < p.size()) i++;
			n.labelled = true;
			if (n.kind == PegNode::AND || n.kind == PegNode::NOT) lookahead_label = true;
		}
		return n;
	}
};

// The text: characters, and the byte offset, line and column of each position
struct PegText {
	std::string bytes; Chars ch; std::vector<size_t> off; std::vector<int> line, col;
	PegText(const std::string& s, bool by_byte = false) : bytes(s) {
		if (by_byte) { for (size_t i = 0; i <= s.size(); i++) { off.push_back(i); if (i < s.size()) ch.push_back((uint32_t)(int)(char)s[i]); } }
		else off = ref_offsets(s, &ch);
		int l = 1, c = 1;
		for (size_t i = 0; i <= ch.size(); i++) {
			line.push_back(l); col.push_back(c);
			if (i < ch.size() && ch[i] == '\n') { l++; c = 1; } else c++;
		}
	}
	size_t size() const { return ch.size(); }
};

struct PegCap { std::string name; size_t from, to; bool rep; int value;	// value: what a rule returned
	bool operator==(const PegCap& o) const { return name == o.name && from == o.from && to == o.to && rep == o.rep; } };

typedef bool (*PegProp)(char, uint32_t);

struct PegRun {
	const PegText&	t;
	PegProp		prop;
	bool		by_byte;
	std::vector<PegCap> caps;
	int		look, rep;
	bool		unclear;	// Captures of an iteration that consumed nothing: not defined whether it counts
	long		fuel;
	// Hooks for grammars
	std::function<bool(const PegNode&, size_t&)> call;
	std::function<void(const PegNode&, size_t)> failed;

	PegRun(const PegText& _t, PegProp p, bool b = false) : t(_t), prop(p), by_byte(b), look(0), rep(0), unclear(false), fuel(100000000) {}
	bool in_class(const PegNode& n, uint32_t c) const {
		bool in = false;
		for (auto& r : n.ranges)
			in |= r.prop ? prop(r.prop, c) : by_byte ? (signed char)c >= (signed char)r.lo && (signed char)c <= (signed char)r.hi : c >= r.lo && c <= r.hi;
		return in != n.negated;
	}
	bool seq(const PegSeq& s, size_t& pos) {
		size_t p = pos, n = caps.size();
		for (auto& a : s) if (!atom(a, p)) { caps.resize(n); return false; }
		pos = p;
		return true;
	}
	bool one(const PegNode& n, size_t& pos) {
		switch (n.kind) {
		case PegNode::LIT:	if (pos < t.size() && (by_byte ? (u8)t.ch[pos] == (u8)n.ch : t.ch[pos] == n.ch)) { pos++; return true; } return false;
		case PegNode::ANY:	if (pos < t.size()) { pos++; return true; } return false;
		case PegNode::CLASS:	if (pos < t.size() && in_class(n, t.ch[pos])) { pos++; return true; } return false;
		case PegNode::BOL:	return t.col[pos] == 1;
		case PegNode::EOL:	return pos == t.size() || t.ch[pos] == '\n';
		case PegNode::GROUP:	return seq(n.seqs[0], pos);
		case PegNode::ALT:	for (auto& s : n.seqs) if (seq(s, pos)) return true; return false;
		case PegNode::CALL:	return call(n, pos);
		case PegNode::AND: case PegNode::NOT: {
			size_t p = pos, c = caps.size();
			look++; bool ok = seq(n.seqs[0], p); look--;
			caps.resize(c);
			return ok == (n.kind == PegNode::AND); }
		case PegNode::OPT: {
			size_t p = pos, c = caps.size();
			if (seq(n.seqs[0], pos) && pos == p && caps.size() != c) unclear = true;
			return true; }
		case PegNode::STAR: case PegNode::PLUS: {
			int count = 0;
			rep++;
			for (;;) {
				size_t p = pos, c = caps.size();
				if (!seq(n.seqs[0], p)) break;
				count++;
				if (p == pos) { if (caps.size() != c) unclear = true; break; }
				pos = p;
			}
			rep--;
			return count > 0 || n.kind == PegNode::STAR; }
		}
		return false;
	}
	bool atom(const PegNode& n, size_t& pos) {
		size_t p = pos, c = caps.size();
		if (--fuel < 0) return false;
		if (!one(n, p)) { caps.resize(c); if (failed) failed(n, pos); return false; }
		if (n.labelled && n.kind != PegNode::CALL && !look) { PegCap k = { n.label, t.off[pos], t.off[p], rep > 0, -1 }; caps.push_back(k); }
		pos = p;
		return true;
	}
	// First position from "start" where the expression matches
	bool search(const PegSeq& s, size_t start, size_t& from, size_t& to) {
		for (from = start; from <= t.size(); from++) {
			to = from; caps.clear();
			if (seq(s, to)) return true;
		}
		return false;
	}
};
#endif
