#include "expr.h"
ExprPool pool;

uint64_t foldBin(Kind k, uint64_t a, uint64_t b, unsigned w) {
	uint64_t m = maskOf(w);
	switch (k) {
	case K_ADD: return (a + b) & m;
	case K_SUB: return (a - b) & m;
	case K_MUL: return (a * b) & m;
	case K_UDIV: return b ? a / b : m;
	case K_UREM: return b ? a % b : a;
	case K_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
	case K_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
	case K_AND: return a & b;
	case K_OR: return a | b;
	case K_XOR: return a ^ b;
	case K_SHL: return b >= w ? 0 : (a << b) & m;
	case K_LSHR: return b >= w ? 0 : a >> b;
	case K_ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? (w < 64 ? w : 63) : b)) & m;
	case K_EQ: return a == b;
	case K_ULT: return a < b;
	case K_ULE: return a <= b;
	case K_SLT: return sx(a, w) < sx(b, w);
	case K_SLE: return sx(a, w) <= sx(b, w);
	default: abort();
	}
}

static bool constTree(EP e, int d = 300) { return e->k == K_CONST || (e->k == K_ITE && d > 0 && constTree(e->a == nullptr ? e : e->b, d - 1) && constTree(e->c, d - 1)); }
static unsigned bitsOf(uint64_t v) { return v ? 64 - __builtin_clzll(v) : 1; }
static bool isCmp(Kind k) { return k >= K_EQ && k <= K_SLE; }
static bool commut(Kind k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ; }

EP mkNot(EP a) {
	if (isC(a)) return mkc(~a->val, a->w);
	if (a->k == K_NOT) return a->a;
	if (a->w == 1) {
		if (a->k == K_ULT) return mkBin(K_ULE, a->b, a->a);
		if (a->k == K_ULE) return mkBin(K_ULT, a->b, a->a);
		if (a->k == K_SLT) return mkBin(K_SLE, a->b, a->a);
		if (a->k == K_SLE) return mkBin(K_SLT, a->b, a->a);
	}
	return pool.mk(K_NOT, a->w, 0, a);
}

// Pushes a comparison with a constant into an ITE whose leaves are all constants (or one arm constant).
static EP pushCmp(Kind k, EP ite, EP c, bool left) {
	EP t = ite->b->k == K_ITE && constTree(ite->b) ? pushCmp(k, ite->b, c, left) : left ? mkBin(k, ite->b, c) : mkBin(k, c, ite->b);
	EP f = ite->c->k == K_ITE && constTree(ite->c) ? pushCmp(k, ite->c, c, left) : left ? mkBin(k, ite->c, c) : mkBin(k, c, ite->c);
	return mkIte(ite->a, t, f);
}

// Sums of multiples: terms that occur on both sides of an addition or subtraction are merged, so that, for example,
// (x - q * c) + q * c becomes x.
namespace {
struct Linear { static const unsigned MAX = 24; EP atom[MAX]; uint64_t coef[MAX]; unsigned n = 0, merged = 0, seen = 0; uint64_t rest = 0; bool full = false; };
void addTerms(Linear &l, EP e, uint64_t c) {
	if (l.full) return;
	if (isC(e)) { l.rest += c * e->val; return; }
	if (e->k == K_ADD) { addTerms(l, e->a, c); addTerms(l, e->b, c); return; }
	if (e->k == K_SUB) { addTerms(l, e->a, c); addTerms(l, e->b, 0 - c); return; }
	if (e->k == K_MUL && isC(e->b)) { addTerms(l, e->a, c * e->b->val); return; }
	if (++l.seen > 48) { l.full = true; return; }
	for (unsigned i = 0; i < l.n; i++) if (l.atom[i] == e) { l.coef[i] += c; l.merged++; return; }
	if (l.n == Linear::MAX) { l.full = true; return; }
	l.atom[l.n] = e; l.coef[l.n++] = c;
}
EP linear(Kind k, EP a, EP b) {
	Linear l; unsigned w = a->w; addTerms(l, a, 1); addTerms(l, b, k == K_ADD ? 1 : ~0ull);
	if (l.full || !l.merged) return nullptr;
	EP r = nullptr; uint64_t m = maskOf(w);
	for (int neg = 0; neg < 2; neg++) for (unsigned i = 0; i < l.n; i++) {
		uint64_t c = l.coef[i] & m; if (!c || ((c == m) != (neg == 1))) continue;
		EP t = c == 1 || c == m ? l.atom[i] : mkBin(K_MUL, l.atom[i], mkc(c, w));
		r = !r ? (neg ? pool.mk(K_SUB, w, 0, mkc(0, w), t) : t) : neg ? pool.mk(K_SUB, w, 0, r, t) : pool.mk(K_ADD, w, 0, r->id < t->id ? r : t, r->id < t->id ? t : r);
	}
	if (!r) return mkc(l.rest, w);
	return (l.rest & m) ? mkBin(K_ADD, r, mkc(l.rest, w)) : r;
}
}

EP mkBin(Kind k, EP a, EP b) {
	assert(a->w == b->w);
	unsigned w = a->w;
	if (isC(a) && isC(b)) return mkc(foldBin(k, a->val, b->val, w), isCmp(k) ? 1 : w);
	if (commut(k) && isC(a)) std::swap(a, b); // constants to the right
	else if (commut(k) && !isC(b) && a->id > b->id) std::swap(a, b);
	uint64_t m = maskOf(w);
	switch (k) {
	case K_ADD:
		if (isC(b, 0)) return a;
		if (w == 64 && !isC(b)) if (EP r = linear(k, a, b)) return r;
		if (isC(b) && a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkc(a->b->val + b->val, w));
		if (isC(b) && a->k == K_ITE && constTree(a)) return mkIte(a->a, mkBin(K_ADD, a->b, b), mkBin(K_ADD, a->c, b));
		break;
	case K_SUB:
		if (a == b) return mkc(0, w);
		if (w == 64 && !isC(b)) if (EP r = linear(k, a, b)) return r;
		if (isC(b)) return mkBin(K_ADD, a, mkc(0 - b->val, w));
		if (a->k == K_ADD && isC(a->b) && a->a == b) return a->b;
		break;
	case K_MUL:
		if (isC(b, 0)) return b;
		if (isC(b, 1)) return a;
		break;
	case K_UDIV: case K_SDIV:
		if (isC(b, 1)) return a;
		break;
	case K_AND:
		if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZext(mkBin(k, a->a, b->a), w);
		if (isC(b, 0)) return b;
		if (isC(b, m)) return a;
		if (a == b) return a;
		if (w == 1) { if ((a->k == K_NOT && a->a == b) || (b->k == K_NOT && b->a == a)) return F(); }
		if (isC(b) && a->k == K_ZEXT) {
			uint64_t im = maskOf(a->a->w);
			if ((b->val & im) == im) return a;
			return mkZext(mkBin(K_AND, a->a, mkc(b->val, a->a->w)), w);
		}
		if (isC(b) && a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkc(a->b->val & b->val, w));
		if (isC(b) && (b->val & (b->val + 1)) == 0) { unsigned n = __builtin_popcountll(b->val); return mkZext(mkExtract(a, 0, n), w); }
		break;
	case K_OR:
		if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZext(mkBin(k, a->a, b->a), w);
		if (isC(b, 0)) return a;
		if (isC(b, m)) return b;
		if (a == b) return a;
		if (w == 1) { if ((a->k == K_NOT && a->a == b) || (b->k == K_NOT && b->a == a)) return T(); }
		break;
	case K_XOR:
		if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZext(mkBin(k, a->a, b->a), w);
		if (isC(b, 0)) return a;
		if (a == b) return mkc(0, w);
		if (isC(b, m)) return mkNot(a);
		break;
	case K_SHL:
		if (isC(b, 0)) return a;
		if (isC(b)) { if (b->val >= w) return mkc(0, w); return mkConcat(mkExtract(a, 0, w - b->val), mkc(0, b->val)); }
		break;
	case K_LSHR:
		if (isC(b, 0)) return a;
		if (isC(b)) { if (b->val >= w) return mkc(0, w); return mkZext(mkExtract(a, b->val, w - b->val), w); }
		break;
	case K_ASHR:
		if (isC(b, 0)) return a;
		if (isC(b) && b->val < w) return mkSext(mkExtract(a, b->val, w - b->val), w);
		break;
	case K_EQ:
		if (a == b) return T();
		if (w == 1 && isC(b)) return b->val ? a : mkNot(a);
		if (isC(b)) {
			if (a->k == K_ZEXT) return b->val >> a->a->w ? F() : mkEq(a->a, mkc(b->val, a->a->w));
			if (a->k == K_SEXT) { unsigned iw = a->a->w; return (uint64_t)(sx(b->val, iw) & (int64_t)m) == b->val ? mkEq(a->a, mkc(b->val, iw)) : F(); }
			if (a->k == K_ADD && isC(a->b)) return mkEq(a->a, mkc(b->val - a->b->val, w));
			if (a->k == K_NOT) return mkEq(a->a, mkc(~b->val, w));
			if (a->k == K_CONCAT) return mkAnd(mkEq(a->a, mkc(b->val >> a->b->w, a->a->w)), mkEq(a->b, mkc(b->val, a->b->w)));
			if (a->k == K_ITE && (isC(a->b) || isC(a->c) || constTree(a->b) || constTree(a->c))) return pushCmp(K_EQ, a, b, true);
		} else if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
		break;
	case K_ULT:
		if (a == b || isC(b, 0) || isC(a, m)) return F();
		if (isC(b, 1)) return mkEq(a, mkc(0, w));
		if (isC(a, 0)) return mkNot(mkEq(b, a));
		if (isC(b) && a->k == K_ZEXT) return b->val > maskOf(a->a->w) ? T() : mkBin(K_ULT, a->a, mkc(b->val, a->a->w));
		if (isC(a) && b->k == K_ZEXT) return a->val > maskOf(b->a->w) ? F() : mkBin(K_ULT, mkc(a->val, b->a->w), b->a);
		if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_ULT, a->a, b->a);
		if (isC(b) && a->k == K_ITE && constTree(a)) return pushCmp(k, a, b, true);
		if (isC(a) && b->k == K_ITE && constTree(b)) return pushCmp(k, b, a, false);
		break;
	case K_ULE:
		if (a == b || isC(a, 0) || isC(b, m)) return T();
		if (isC(b, 0)) return mkEq(a, b);
		if (isC(b) && a->k == K_ZEXT) return b->val >= maskOf(a->a->w) ? T() : mkBin(K_ULE, a->a, mkc(b->val, a->a->w));
		if (isC(a) && b->k == K_ZEXT) return a->val > maskOf(b->a->w) ? F() : mkBin(K_ULE, mkc(a->val, b->a->w), b->a);
		if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_ULE, a->a, b->a);
		if (isC(b) && a->k == K_ITE && constTree(a)) return pushCmp(k, a, b, true);
		if (isC(a) && b->k == K_ITE && constTree(b)) return pushCmp(k, b, a, false);
		break;
	case K_SLT: case K_SLE:
		if (a == b) return k == K_SLE ? T() : F();
		if (a->k == K_ZEXT && isC(b)) { if (sx(b->val, w) < 0) return F(); return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b); }
		if (b->k == K_ZEXT && isC(a)) { if (sx(a->val, w) < 0) return T(); return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b); }
		if (a->k == K_ZEXT && b->k == K_ZEXT) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
		if (a->k == K_SEXT && isC(b)) {
			unsigned iw = a->a->w; int64_t v = sx(b->val, w), lo = -(1LL << (iw - 1)), hi = (1LL << (iw - 1)) - 1;
			if (v > hi) return T();
			if (v < lo) return F();
			return mkBin(k, a->a, mkc(v, iw));
		}
		if (b->k == K_SEXT && isC(a)) {
			unsigned iw = b->a->w; int64_t v = sx(a->val, w), lo = -(1LL << (iw - 1)), hi = (1LL << (iw - 1)) - 1;
			if (v < lo) return T();
			if (v > hi) return F();
			return mkBin(k, mkc(v, iw), b->a);
		}
		if (isC(b) && a->k == K_ITE && constTree(a)) return pushCmp(k, a, b, true);
		if (isC(a) && b->k == K_ITE && constTree(b)) return pushCmp(k, b, a, false);
		break;
	default: break;
	}
	// range-based simplification
	uint64_t half = m >> 1, t;
	switch (k) {
	case K_SLT: case K_SLE: if (a->hi <= half && b->hi <= half) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b); if (a->hi <= half && b->lo > half) return F(); if (a->lo > half && b->hi <= half) return T(); break;
	case K_ULT: if (a->hi < b->lo) return T(); if (a->lo >= b->hi) return F(); break;
	case K_ULE: if (a->hi <= b->lo) return T(); if (a->lo > b->hi) return F(); break;
	case K_EQ: if (a->hi < b->lo || b->hi < a->lo) return F(); break;
	case K_SDIV: case K_SREM: if (a->hi <= half && b->hi <= half && b->lo > 0) return mkBin(k == K_SDIV ? K_UDIV : K_UREM, a, b); break;
	case K_UDIV: if (b->lo > 0 && a->hi < b->lo) return mkc(0, w); if (b->lo > 0) { unsigned nb = bitsOf(a->hi | b->hi); if (nb < w) return mkZext(mkBin(k, mkExtract(a, 0, nb), mkExtract(b, 0, nb)), w); } break;
	case K_UREM: if (b->lo > 0 && a->hi < b->lo) return a; if (b->lo > 0) { unsigned nb = bitsOf(a->hi | b->hi); if (nb < w) return mkZext(mkBin(k, mkExtract(a, 0, nb), mkExtract(b, 0, nb)), w); } break;
	case K_MUL: if (!__builtin_mul_overflow(a->hi, b->hi, &t) && t <= m) { unsigned nb = bitsOf(t); if (nb < w) return mkZext(mkBin(k, mkExtract(a, 0, nb), mkExtract(b, 0, nb)), w); } break;
	case K_ADD: if ((a->arith || b->arith) && !__builtin_add_overflow(a->hi, b->hi, &t) && t <= m) { unsigned nb = bitsOf(t); if (nb < w) return mkZext(mkBin(k, mkExtract(a, 0, nb), mkExtract(b, 0, nb)), w); } break;
	default: break;
	}
	if ((k == K_EQ || k == K_ULT || k == K_ULE) && w > 8 && (a->arith || b->arith)) {
		unsigned nb = bitsOf(a->hi | b->hi);
		if (nb < w) return mkBin(k, mkExtract(a, 0, nb), mkExtract(b, 0, nb));
	}
	return pool.mk(k, isCmp(k) ? 1 : w, 0, a, b);
}

EP mkIte(EP c, EP a, EP b) {
	if (isC(c)) return c->val ? a : b;
	if (a == b) return a;
	if (c->k == K_NOT) return mkIte(c->a, b, a);
	if (a->w == 1) {
		if (isC(a)) return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
		if (isC(b)) return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
	}
	if (a->w > 1 && isC(a, 1) && isC(b, 0)) return mkZext(c, a->w);
	if (a->w > 1 && isC(a, 0) && isC(b, 1)) return mkZext(mkNot(c), a->w);
	if (a->k == K_ITE && a->a == c) return mkIte(c, a->b, b);
	if (b->k == K_ITE && b->a == c) return mkIte(c, a, b->c);
	return pool.mk(K_ITE, a->w, 0, c, a, b);
}

EP mkExtract(EP a, unsigned off, unsigned w) {
	if (off == 0 && w == a->w) return a;
	assert(off + w <= a->w);
	switch (a->k) {
	case K_CONST: return mkc(a->val >> off, w);
	case K_EXTRACT: return mkExtract(a->a, off + a->val, w);
	case K_CONCAT:
		if (off >= a->b->w) return mkExtract(a->a, off - a->b->w, w);
		if (off + w <= a->b->w) return mkExtract(a->b, off, w);
		return mkConcat(mkExtract(a->a, 0, off + w - a->b->w), mkExtract(a->b, off, a->b->w - off));
	case K_ZEXT:
		if (off >= a->a->w) return mkc(0, w);
		if (off + w <= a->a->w) return mkExtract(a->a, off, w);
		return mkZext(mkExtract(a->a, off, a->a->w - off), w);
	case K_SEXT:
		if (off + w <= a->a->w) return mkExtract(a->a, off, w);
		if (off == 0) return mkSext(a->a, w);
		break;
	case K_ITE: return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
	case K_AND: case K_OR: case K_XOR: return mkBin(a->k, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
	case K_NOT: return mkNot(mkExtract(a->a, off, w));
	case K_ADD: case K_SUB: case K_MUL: if (off == 0 && !a->arith) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
	default: break;
	}
	return pool.mk(K_EXTRACT, w, off, a);
}

// A byte of a stored value, not simplified any further, so that reading the whole value back gives the same expression again.
EP mkByte(EP a, unsigned off) {
	switch (a->k) {
	case K_CONST: case K_SYM: return mkExtract(a, off, 8);
	case K_EXTRACT: if ((a->val & 7) == 0) return pool.mk(K_EXTRACT, 8, a->val + off, a->a); break;
	case K_CONCAT: if (off >= a->b->w) return a->a->w == 8 ? a->a : mkByte(a->a, off - a->b->w); if (off + 8 <= a->b->w) return a->b->w == 8 ? a->b : mkByte(a->b, off); return mkExtract(a, off, 8);
	case K_ZEXT: if (off >= a->a->w) return mkc(0, 8); if (off + 8 <= a->a->w) return a->a->w == 8 ? a->a : mkByte(a->a, off); return mkExtract(a, off, 8);
	default: break;
	}
	return a->w == 8 ? a : pool.mk(K_EXTRACT, 8, off, a);
}

EP mkConcat(EP hi, EP lo) {
	unsigned w = hi->w + lo->w;
	assert(w <= 64);
	if (isC(hi) && isC(lo)) return mkc((hi->val << lo->w) | lo->val, w);
	if (isC(hi, 0)) return mkZext(lo, w);
	if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->w) return mkExtract(hi->a, lo->val, w);
	if (hi->k == K_EXTRACT && hi->a == lo && hi->val == lo->w) return mkExtract(hi->a, 0, w);
	if (hi->k == K_ZEXT) return mkZext(mkConcat(hi->a, lo), w);
	if (hi->k == K_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo)); // right-leaning
	return pool.mk(K_CONCAT, w, 0, hi, lo);
}

EP mkZext(EP a, unsigned w) {
	if (w == a->w) return a;
	if (isC(a)) return mkc(a->val, w);
	if (a->k == K_ZEXT) return mkZext(a->a, w);
	return pool.mk(K_ZEXT, w, 0, a);
}

EP mkSext(EP a, unsigned w) {
	if (w == a->w) return a;
	if (isC(a)) return mkc((uint64_t)sx(a->val, a->w), w);
	if (a->k == K_ZEXT) return mkZext(a, w);
	if (a->k == K_SEXT) return mkSext(a->a, w);
	if (a->k == K_ITE && constTree(a)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
	return pool.mk(K_SEXT, w, 0, a);
}

uint64_t evalExpr(EP e, const std::vector<uint64_t> &model) {
	if (e->k == K_CONST) return e->val;
	if (e->k == K_SYM) return e->val < model.size() ? model[e->val] & maskOf(e->w) : 0;
	if (e->epoch == pool.epoch) return e->cached;
	uint64_t r;
	switch (e->k) {
	case K_NOT: r = ~evalExpr(e->a, model) & maskOf(e->w); break;
	case K_ITE: r = evalExpr(evalExpr(e->a, model) ? e->b : e->c, model); break;
	case K_EXTRACT: r = (evalExpr(e->a, model) >> e->val) & maskOf(e->w); break;
	case K_CONCAT: r = (evalExpr(e->a, model) << e->b->w) | evalExpr(e->b, model); break;
	case K_ZEXT: r = evalExpr(e->a, model); break;
	case K_SEXT: r = (uint64_t)sx(evalExpr(e->a, model), e->a->w) & maskOf(e->w); break;
	default: r = foldBin(e->k, evalExpr(e->a, model), evalExpr(e->b, model), e->a->w);
	}
	e->epoch = pool.epoch; e->cached = r;
	return r;
}

const Dom &truthTable(EP e) {
	if (e->tt) return *e->tt;
	Dom *d = new Dom;
	uint32_t s = e->syms->ids[0];
	static std::vector<uint64_t> m;
	if (m.size() <= s) m.resize(s + 1);
	for (unsigned v = 0; v < 256; v++) { m[s] = v; newEval(); if (evalExpr(e, m)) d->set(v); }
	e->tt = d;
	return *d;
}

std::string exprStr(EP e, int depth) {
	static const char *names[] = { "", "s", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>", ">>s", "==", "<u", "<=u", "<s", "<=s", "++", "extract", "zext", "sext", "ite", "!" };
	if (e->k == K_CONST) return std::to_string(e->val);
	if (e->k == K_SYM) return "s" + std::to_string(e->val);
	if (depth <= 0) return "...";
	std::string r = std::string("(") + names[e->k];
	if (e->k == K_EXTRACT) r += "@" + std::to_string(e->val) + ":" + std::to_string(e->w);
	for (EP x : { e->a, e->b, e->c }) if (x) r += " " + exprStr(x, depth - 1);
	return r + ")";
}
