// The same formulas over unbounded integers (exact: every wrap-around, division and bit field gets its own variables and linear
// constraints). Used for arithmetic with large constants (times in nanoseconds), which bit-blasting decides badly.
// Throws NotInt for an operation without a linear meaning; the caller then falls back to bit vectors.
struct NotInt {};
struct IntEnc {
	std::unordered_map<EP, Z3_ast> ints, bools; std::unordered_map<EP, vector<Z3_ast> > side; unsigned fresh = 0;
	static Z3_sort I() { static Z3_sort s; if (!s) s = Z3_mk_int_sort(zc); return s; }
	static Z3_ast num(uint64_t v) { return Z3_mk_unsigned_int64(zc, v, I()); }
	static Z3_ast pow2(unsigned n) { return n < 64 ? num(1ULL << n) : Z3_mk_numeral(zc, "18446744073709551616", I()); }
	static Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[] = { a, b }; return Z3_mk_add(zc, 2, x); }
	static Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[] = { a, b }; return Z3_mk_sub(zc, 2, x); }
	static Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast x[] = { a, b }; return Z3_mk_mul(zc, 2, x); }
	static Z3_ast both(Z3_ast a, Z3_ast b) { Z3_ast x[] = { a, b }; return Z3_mk_and(zc, 2, x); }
	Z3_ast var(EP e, const char *n, Z3_sort s = nullptr) { return Z3_mk_const(zc, Z3_mk_string_symbol(zc, (string(n) + std::to_string(e->id) + "_" + std::to_string(fresh++)).c_str()), s ? s : I()); }
	void range(EP e, Z3_ast v, Z3_ast below) { side[e].push_back(both(Z3_mk_ge(zc, v, num(0)), Z3_mk_lt(zc, v, below))); }
	Z3_ast toSigned(Z3_ast a, unsigned w) { return Z3_mk_ite(zc, Z3_mk_ge(zc, a, pow2(w - 1)), sub(a, pow2(w)), a); }
	Z3_ast field(EP e, Z3_ast a, unsigned off, unsigned w, uint64_t hi) { // bits off .. off+w-1 of a value of at most hi
		if (off == 0 && (w >= 64 || hi < 1ULL << w)) return a;
		Z3_ast v = var(e, "f"), s = mul(pow2(off), v); range(e, v, pow2(w));
		if (off) { Z3_ast l = var(e, "l"); range(e, l, pow2(off)); s = add(s, l); }
		if (off + w < 64 && hi >> (off + w)) { Z3_ast h = var(e, "h"); range(e, h, num((hi >> (off + w)) + 1)); s = add(s, mul(pow2(off + w), h)); }
		side[e].push_back(Z3_mk_eq(zc, a, s)); return v;
	}
	Z3_ast wrap(EP e, Z3_ast x) { Z3_ast v = var(e, "w"), k = var(e, "k"); range(e, v, pow2(e->w)); side[e].push_back(Z3_mk_eq(zc, x, add(v, mul(pow2(e->w), k)))); return v; }
	Z3_ast wrap1(EP e, Z3_ast x, bool up) { Z3_ast v = var(e, "w"), k = var(e, "k", Z3_mk_bool_sort(zc)), d = Z3_mk_ite(zc, k, pow2(e->w), num(0)); range(e, v, pow2(e->w)); side[e].push_back(Z3_mk_eq(zc, v, up ? add(x, d) : sub(x, d))); return v; }
	Z3_ast quotient(EP e, Z3_ast x, uint64_t c, uint64_t hi) { Z3_ast q = var(e, "q"), p = mul(num(c), q); range(e, q, add(num(hi / c), num(1))); side[e].push_back(both(Z3_mk_le(zc, p, x), Z3_mk_lt(zc, x, add(p, num(c))))); return q; }
	Z3_ast toInt(EP e) {
		auto it = ints.find(e); if (it != ints.end()) return it->second;
		Z3_ast r = make(e); ints[e] = r; return r;
	}
	Z3_ast make(EP e) {
		unsigned w = e->w; uint64_t m = maskOf(w), t;
		switch (e->k) {
		case K_CONST: return num(e->val);
		case K_SYM: { Z3_ast v = Z3_mk_const(zc, Z3_mk_string_symbol(zc, ("s" + std::to_string(e->val) + "_" + std::to_string(w)).c_str()), I()); range(e, v, pow2(w)); return v; }
		case K_ADD: if (w == 1) throw NotInt(); { Z3_ast s = add(toInt(e->a), toInt(e->b)); if (!__builtin_add_overflow(e->a->hi, e->b->hi, &t) && t <= m) return s; return wrap1(e, s, false); }
		case K_SUB: if (w == 1) throw NotInt(); { Z3_ast s = sub(toInt(e->a), toInt(e->b)); if (e->a->lo >= e->b->hi) return s; return wrap1(e, s, true); }
		case K_MUL: { EP a = e->a, b = e->b; if (a->k == K_CONST) std::swap(a, b); if (b->k != K_CONST) throw NotInt();
			if (!__builtin_mul_overflow(a->hi, b->val, &t) && t <= m) return mul(num(b->val), toInt(a));
			int64_t c = sx(b->val, w); return wrap(e, mul(Z3_mk_int64(zc, c, I()), toInt(a))); }
		case K_UDIV: case K_UREM: { if (e->b->k != K_CONST || !e->b->val) throw NotInt(); Z3_ast x = toInt(e->a), q = quotient(e, x, e->b->val, e->a->hi); return e->k == K_UDIV ? q : sub(x, mul(num(e->b->val), q)); }
		case K_SDIV: case K_SREM: { if (e->b->k != K_CONST || !e->b->val || sx(e->b->val, w) < 0) throw NotInt();
			Z3_ast x = toInt(e->a), neg = Z3_mk_ge(zc, x, pow2(w - 1)), ab = Z3_mk_ite(zc, neg, sub(pow2(w), x), x), q = quotient(e, ab, e->b->val, 1ULL << (w - 1)), v = e->k == K_SDIV ? q : sub(ab, mul(num(e->b->val), q));
			return Z3_mk_ite(zc, both(neg, Z3_mk_gt(zc, v, num(0))), sub(pow2(w), v), v); }
		case K_ZEXT: return toInt(e->a);
		case K_SEXT: { Z3_ast a = toInt(e->a); return Z3_mk_ite(zc, Z3_mk_ge(zc, a, pow2(e->a->w - 1)), add(a, sub(pow2(w), pow2(e->a->w))), a); }
		case K_EXTRACT: return field(e, toInt(e->a), e->val, w, e->a->hi);
		case K_CONCAT: return add(mul(pow2(e->b->w), toInt(e->a)), toInt(e->b));
		case K_ITE: return Z3_mk_ite(zc, toBool(e->a), toInt(e->b), toInt(e->c));
		case K_NOT: return w == 1 ? Z3_mk_ite(zc, toBool(e), num(1), num(0)) : sub(num(m), toInt(e->a));
		case K_AND: { if (w == 1) return Z3_mk_ite(zc, toBool(e), num(1), num(0)); EP a = e->a, b = e->b; if (a->k == K_CONST) std::swap(a, b); if (b->k != K_CONST || !b->val) throw NotInt();
			unsigned lo = 0; while (!(b->val >> lo & 1)) lo++; unsigned n = 0; while (lo + n < w && (b->val >> (lo + n) & 1)) n++; if (lo + n < 64 && b->val >> (lo + n)) throw NotInt();
			return mul(pow2(lo), field(e, toInt(a), lo, n, a->hi)); }
		case K_SHL: if (e->b->k != K_CONST || e->b->val >= w) throw NotInt(); return wrap(e, mul(pow2(e->b->val), toInt(e->a)));
		case K_LSHR: if (e->b->k != K_CONST || e->b->val >= w) throw NotInt(); return field(e, toInt(e->a), e->b->val, w - e->b->val, e->a->hi);
		case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: return Z3_mk_ite(zc, toBool(e), num(1), num(0));
		case K_OR: case K_XOR: if (w == 1) return Z3_mk_ite(zc, toBool(e), num(1), num(0)); throw NotInt();
		default: throw NotInt();
		}
	}
	Z3_ast toBool(EP e) {
		auto it = bools.find(e); if (it != bools.end()) return it->second;
		Z3_ast r; unsigned aw = e->a ? e->a->w : 0;
		switch (e->k) {
		case K_CONST: r = e->val ? Z3_mk_true(zc) : Z3_mk_false(zc); break;
		case K_EQ: r = aw == 1 ? Z3_mk_iff(zc, toBool(e->a), toBool(e->b)) : Z3_mk_eq(zc, toInt(e->a), toInt(e->b)); break;
		case K_ULT: r = Z3_mk_lt(zc, toInt(e->a), toInt(e->b)); break;
		case K_ULE: r = Z3_mk_le(zc, toInt(e->a), toInt(e->b)); break;
		case K_SLT: r = Z3_mk_lt(zc, toSigned(toInt(e->a), aw), toSigned(toInt(e->b), aw)); break;
		case K_SLE: r = Z3_mk_le(zc, toSigned(toInt(e->a), aw), toSigned(toInt(e->b), aw)); break;
		case K_AND: r = both(toBool(e->a), toBool(e->b)); break;
		case K_OR: { Z3_ast x[] = { toBool(e->a), toBool(e->b) }; r = Z3_mk_or(zc, 2, x); break; }
		case K_XOR: r = Z3_mk_xor(zc, toBool(e->a), toBool(e->b)); break;
		case K_NOT: r = Z3_mk_not(zc, toBool(e->a)); break;
		case K_ITE: r = Z3_mk_ite(zc, toBool(e->a), toBool(e->b), toBool(e->c)); break;
		default: r = Z3_mk_eq(zc, toInt(e), num(1));
		}
		bools[e] = r; return r;
	}
	void collect(EP e, std::unordered_set<EP> &seen, Z3_solver to) {
		if (!e || !seen.insert(e).second) return;
		auto it = side.find(e); if (it != side.end()) for (Z3_ast x : it->second) Z3_solver_assert(zc, to, x);
		collect(e->a, seen, to); collect(e->b, seen, to); collect(e->c, seen, to);
	}
	Z3_solver solver(const vector<EP> &es, unsigned ms) { // a solver with the conjunction of es (nothing when it cannot be expressed)
		vector<Z3_ast> top; try { for (EP e : es) top.push_back(toBool(e)); } catch (NotInt) { return nullptr; }
		Z3_solver s = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_LIA")); Z3_solver_inc_ref(zc, s);
		Z3_params pr = Z3_mk_params(zc); Z3_params_inc_ref(zc, pr); Z3_params_set_uint(zc, pr, Z3_mk_string_symbol(zc, "timeout"), ms); Z3_solver_set_params(zc, s, pr); Z3_params_dec_ref(zc, pr);
		std::unordered_set<EP> seen; for (Z3_ast t : top) Z3_solver_assert(zc, s, t); for (EP e : es) collect(e, seen, s);
		return s;
	}
};
