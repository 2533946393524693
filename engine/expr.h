// Hash-consed bit-vector expressions (width 1..64), simplification, evaluation and truth tables.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <bitset>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

enum Kind : uint8_t { K_CONST, K_SYM, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
	K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE, K_NOT };

struct SymSet { std::vector<uint32_t> ids; };
typedef std::bitset<256> Dom;

struct Expr {
	Kind k; uint8_t w; uint32_t id; uint64_t val; // val: constant, symbol id, or extract offset
	const Expr *a, *b, *c;
	const SymSet *syms;
	mutable uint32_t epoch; mutable uint64_t cached;
	mutable Z3_ast z;
	mutable Dom *tt;
	uint64_t lo, hi; // unsigned range that holds for every value of the symbols
	bool arith;      // contains a product or quotient (worth narrowing)
	bool divides;    // contains a division by a constant
};
typedef const Expr *EP;

inline uint64_t maskOf(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct ExprHash { size_t operator()(const Expr *e) const {
	uint64_t h = e->k * 0x9E3779B97F4A7C15ULL ^ (uint64_t(e->w) << 56) ^ e->val * 0xC2B2AE3D27D4EB4FULL;
	h ^= (uint64_t)e->a * 0x165667B19E3779F9ULL; h = (h << 13) | (h >> 51); h ^= (uint64_t)e->b * 0x27D4EB2F165667C5ULL; h = (h << 17) | (h >> 47); h ^= (uint64_t)e->c * 0x85EBCA77C2B2AE63ULL;
	return h ^ (h >> 29); } };
struct ExprEq { bool operator()(const Expr *x, const Expr *y) const { return x->k == y->k && x->w == y->w && x->val == y->val && x->a == y->a && x->b == y->b && x->c == y->c; } };

struct ExprPool {
	std::unordered_set<Expr *, ExprHash, ExprEq> table;
	std::vector<SymSet *> single;
	SymSet empty;
	uint32_t nextId = 1, epoch = 1;

	EP mk(Kind k, unsigned w, uint64_t val, EP a = nullptr, EP b = nullptr, EP c = nullptr) {
		Expr key; key.k = k; key.w = w; key.val = val; key.a = a; key.b = b; key.c = c;
		auto it = table.find(&key);
		if (it != table.end()) return *it;
		Expr *e = new Expr(key);
		e->id = nextId++; e->epoch = 0; e->z = nullptr; e->tt = nullptr;
		if (k == K_CONST) e->syms = &empty;
		else if (k == K_SYM) { while (single.size() <= val) { auto *s = new SymSet; s->ids.push_back(single.size()); single.push_back(s); } e->syms = single[val]; }
		else { e->syms = a->syms; if (b) e->syms = join(e->syms, b->syms); if (c) e->syms = join(e->syms, c->syms); }
		range(e);
		e->divides = (k >= K_UDIV && k <= K_SREM && b->k == K_CONST) || (a && a->divides) || (b && b->divides) || (c && c->divides);
		table.insert(e);
		return e;
	}
	static void range(Expr *e) {
		uint64_t m = e->w >= 64 ? ~0ULL : ((1ULL << e->w) - 1), al = e->a ? e->a->lo : 0, ah = e->a ? e->a->hi : 0, bl = e->b ? e->b->lo : 0, bh = e->b ? e->b->hi : 0, t;
		e->lo = 0; e->hi = m; e->arith = false;
		switch (e->k) {
		case K_CONST: e->lo = e->hi = e->val; break;
		case K_ZEXT: e->lo = al; e->hi = ah; e->arith = e->a->arith; break;
		case K_EXTRACT: if (e->val == 0 && ah <= m) { e->lo = al; e->hi = ah; } else if ((ah >> e->val) <= m) { e->lo = al >> e->val; e->hi = ah >> e->val; } e->arith = e->a->arith; break;
		case K_CONCAT: e->lo = (al << e->b->w) | bl; e->hi = (ah << e->b->w) | bh; break;
		case K_ITE: e->lo = bl < e->c->lo ? bl : e->c->lo; e->hi = bh > e->c->hi ? bh : e->c->hi; e->arith = e->b->arith || e->c->arith; break;
		case K_AND: e->hi = ah < bh ? ah : bh; break;
		case K_OR: case K_XOR: t = ah | bh; while (t & (t + 1)) t |= t >> 1; e->hi = t; if (e->k == K_OR) e->lo = al > bl ? al : bl; break;
		case K_ADD: if (!__builtin_add_overflow(ah, bh, &t) && t <= m) { e->lo = al + bl; e->hi = t; } e->arith = e->a->arith || e->b->arith; break;
		case K_SUB: if (al >= bh) { e->lo = al - bh; e->hi = ah - bl; } e->arith = e->a->arith || e->b->arith; break;
		case K_MUL: if (!__builtin_mul_overflow(ah, bh, &t) && t <= m) { e->lo = al * bl; e->hi = t; } e->arith = true; break;
		case K_UDIV: if (bl > 0) { e->lo = al / bh; e->hi = ah / bl; } e->arith = true; break;
		case K_UREM: if (bl > 0) { e->hi = ah < bh - 1 ? ah : bh - 1; } e->arith = true; break;
		case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: e->hi = 1; break;
		default: break;
		}
	}
	const SymSet *join(const SymSet *x, const SymSet *y) {
		if (x == y || y->ids.empty()) return x;
		if (x->ids.empty()) return y;
		std::vector<uint32_t> r; size_t i = 0, j = 0;
		while (i < x->ids.size() || j < y->ids.size()) {
			if (j >= y->ids.size() || (i < x->ids.size() && x->ids[i] < y->ids[j])) r.push_back(x->ids[i++]);
			else if (i >= x->ids.size() || y->ids[j] < x->ids[i]) r.push_back(y->ids[j++]);
			else { r.push_back(x->ids[i]); i++; j++; }
		}
		if (r.size() == x->ids.size()) return x;
		if (r.size() == y->ids.size()) return y;
		auto *s = new SymSet; s->ids.swap(r); return s; // (leaked; sets are small)
	}
	EP cst(uint64_t v, unsigned w) { return mk(K_CONST, w, v & maskOf(w)); }
	EP sym(uint64_t id, unsigned w) { return mk(K_SYM, w, id); }
};
extern ExprPool pool;

inline bool isC(EP e) { return e->k == K_CONST; }
inline bool isC(EP e, uint64_t v) { return e->k == K_CONST && e->val == v; }
inline EP mkc(uint64_t v, unsigned w) { return pool.cst(v, w); }
inline EP T() { static EP t = mkc(1, 1); return t; }
inline EP F() { static EP f = mkc(0, 1); return f; }

uint64_t foldBin(Kind k, uint64_t a, uint64_t b, unsigned w);
EP mkBin(Kind k, EP a, EP b);
EP mkNot(EP a);
EP mkIte(EP c, EP a, EP b);
EP mkExtract(EP a, unsigned off, unsigned w);
EP mkByte(EP a, unsigned off);
EP mkConcat(EP hi, EP lo);
EP mkZext(EP a, unsigned w);
EP mkSext(EP a, unsigned w);
inline EP mkEq(EP a, EP b) { return mkBin(K_EQ, a, b); }
inline EP mkAnd(EP a, EP b) { return mkBin(K_AND, a, b); }
inline EP mkOr(EP a, EP b) { return mkBin(K_OR, a, b); }
uint64_t evalExpr(EP e, const std::vector<uint64_t> &model); // caller bumps pool.epoch via newEval()
inline void newEval() { if (++pool.epoch == 0) pool.epoch = 1; }
const Dom &truthTable(EP e); // for 1-bit expressions over a single symbol of width <= 8
std::string exprStr(EP e, int depth = 6);
