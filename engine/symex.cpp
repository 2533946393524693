// Path-forking symbolic executor over LLVM IR with Z3 as the deciding procedure.
#include "symex.h"
#include <llvm/ADT/APInt.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <deque>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;
using std::string;
using std::vector;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ globals
static LLVMContext ctx;
static std::unique_ptr<Module> mod;
static const DataLayout *DL;
static vector<Func *> funcs;
static std::unordered_map<const Function *, Func *> funcOf;
static std::unordered_map<string, Func *> funcByName;
static std::unordered_map<const GlobalVariable *, uint64_t> gaddr;
static std::unordered_map<uint64_t, const GlobalVariable *> gvarAt;
static const uint32_t FUNC_ID0 = 0x7F000000;
static Mem baseMem;
static bool anyHookTerminate = false;
struct Config { string entry; std::map<string, string> params; string label; };
static vector<Config> configs;
static string outFile, srcPrefix = "/repo/src";
static double maxTime = 600; static uint64_t maxSteps = 200000000ULL; static unsigned maxProcs = 8; static unsigned z3timeout = 20000; static bool verbose = false;
static bool keepGoing = false; static double grace = 0; // seconds to go on after the first violation (0: no limit)
static double startTime;
struct Shared { std::atomic<int> active; std::atomic<int> stop; std::atomic<long> paths; std::atomic<long> firstViolation; };
static Shared *sh;

// coverage
struct LineInfo { string file; unsigned line; };
static vector<LineInfo> lineTab(1);
static std::map<std::pair<string, unsigned>, uint32_t> lineIdx;
static vector<uint8_t> lineHit;

// statistics
struct Stats { long paths = 0, pruned = 0, ended = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, domDecided = 0, modelHits = 0, asserts = 0, assertsSym = 0, assertQueries = 0, assertUnsat = 0, forks = 0; long witnesses = 0, witnessesZ3 = 0, certified = 0, hard = 0, asIntegers = 0; double solverTime = 0, maxQuery = 0; uint64_t steps = 0; long incomplete = 0; };
static Stats st;
static std::map<string, long> covers;
static std::map<string, long> assertIds; // symbolic discharges per message
static std::set<string> unsupported;
static std::set<string> problems;
static vector<string> violations;
static std::map<string, std::pair<int, size_t>> violationKeys;

struct PathEnd {};
struct Unsupported { string what; };

// ------------------------------------------------------------------ solver
static Z3_context zc; static Z3_solver zs;
static Z3_sort zsort(unsigned w) { static Z3_sort s[65]; if (!s[w]) s[w] = Z3_mk_bv_sort(zc, w); return s[w]; }
static Z3_ast zb(Z3_ast b) { return Z3_mk_ite(zc, b, Z3_mk_unsigned_int64(zc, 1, zsort(1)), Z3_mk_unsigned_int64(zc, 0, zsort(1))); }
// A division by a constant c becomes a fresh quotient q with q*c <= x and x - q*c < c (exactly one such q exists), which is
// far easier to decide than a divider circuit. quotients[] holds these constraints; query() asserts them where they are used.
static std::unordered_map<EP, Z3_ast> quotients;
static Z3_ast divide(EP e, Z3_ast a) {
	unsigned w = e->w; uint64_t c = e->b->val; bool sg = e->k == K_SDIV || e->k == K_SREM;
	Z3_ast zero = Z3_mk_unsigned_int64(zc, 0, zsort(w)), neg = Z3_mk_bvslt(zc, a, zero), x = sg ? Z3_mk_ite(zc, neg, Z3_mk_bvneg(zc, a), a) : a;
	uint64_t hi = (sg ? 1ULL << (w - 1) : maskOf(w)); if (!sg && e->a->hi < hi) hi = e->a->hi; hi /= c;
	unsigned n = 1; while (n < 64 && hi >> n) n++;
	Z3_ast qs = Z3_mk_const(zc, Z3_mk_string_symbol(zc, ("q" + std::to_string(e->id)).c_str()), zsort(n)), q = n < w ? Z3_mk_zero_ext(zc, w - n, qs) : qs, cc = Z3_mk_unsigned_int64(zc, c, zsort(w));
	Z3_ast p = Z3_mk_bvmul(zc, q, cc), r = Z3_mk_bvsub(zc, x, p);
	Z3_ast side[] = { Z3_mk_bvule(zc, q, Z3_mk_unsigned_int64(zc, hi, zsort(w))), Z3_mk_bvule(zc, p, x), Z3_mk_bvult(zc, r, cc) };
	quotients[e] = Z3_mk_and(zc, 3, side);
	Z3_ast v = e->k == K_SDIV || e->k == K_UDIV ? q : r;
	return sg ? Z3_mk_ite(zc, neg, Z3_mk_bvneg(zc, v), v) : v;
}
static bool byConstant(EP e) { return e->k >= K_UDIV && e->k <= K_SREM && e->b->k == K_CONST && e->b->val > 1 && (e->b->val & (e->b->val - 1)) && e->w > 8 && (e->k == K_UDIV || e->k == K_UREM || e->b->val < 1ULL << (e->w - 1)); }
static Z3_ast toZ3(EP e) {
	if (e->z) return e->z;
	Z3_ast r;
	Z3_ast a = e->a ? toZ3(e->a) : nullptr, b = e->b ? toZ3(e->b) : nullptr, c = e->c ? toZ3(e->c) : nullptr;
	if (byConstant(e)) { r = divide(e, a); const_cast<Expr *>(e)->z = r; return r; }
	switch (e->k) {
	case K_CONST: r = Z3_mk_unsigned_int64(zc, e->val, zsort(e->w)); break;
	case K_SYM: r = Z3_mk_const(zc, Z3_mk_int_symbol(zc, (int)e->val * 128 + e->w), zsort(e->w)); break;
	case K_ADD: r = Z3_mk_bvadd(zc, a, b); break;
	case K_SUB: r = Z3_mk_bvsub(zc, a, b); break;
	case K_MUL: r = Z3_mk_bvmul(zc, a, b); break;
	case K_UDIV: r = Z3_mk_bvudiv(zc, a, b); break;
	case K_SDIV: r = Z3_mk_bvsdiv(zc, a, b); break;
	case K_UREM: r = Z3_mk_bvurem(zc, a, b); break;
	case K_SREM: r = Z3_mk_bvsrem(zc, a, b); break;
	case K_AND: r = Z3_mk_bvand(zc, a, b); break;
	case K_OR: r = Z3_mk_bvor(zc, a, b); break;
	case K_XOR: r = Z3_mk_bvxor(zc, a, b); break;
	case K_SHL: r = Z3_mk_bvshl(zc, a, b); break;
	case K_LSHR: r = Z3_mk_bvlshr(zc, a, b); break;
	case K_ASHR: r = Z3_mk_bvashr(zc, a, b); break;
	case K_EQ: r = zb(Z3_mk_eq(zc, a, b)); break;
	case K_ULT: r = zb(Z3_mk_bvult(zc, a, b)); break;
	case K_ULE: r = zb(Z3_mk_bvule(zc, a, b)); break;
	case K_SLT: r = zb(Z3_mk_bvslt(zc, a, b)); break;
	case K_SLE: r = zb(Z3_mk_bvsle(zc, a, b)); break;
	case K_CONCAT: r = Z3_mk_concat(zc, a, b); break;
	case K_EXTRACT: r = Z3_mk_extract(zc, e->val + e->w - 1, e->val, a); break;
	case K_ZEXT: r = Z3_mk_zero_ext(zc, e->w - e->a->w, a); break;
	case K_SEXT: r = Z3_mk_sign_ext(zc, e->w - e->a->w, a); break;
	case K_ITE: r = Z3_mk_ite(zc, Z3_mk_eq(zc, a, Z3_mk_unsigned_int64(zc, 1, zsort(1))), b, c); break;
	case K_NOT: r = Z3_mk_bvnot(zc, a); break;
	default: abort();
	}
	const_cast<Expr *>(e)->z = r;
	return r;
}
static Z3_ast zTrue(EP e) { return Z3_mk_eq(zc, toZ3(e), Z3_mk_unsigned_int64(zc, 1, zsort(1))); }

static void collectQuotients(EP e, std::unordered_set<EP> &seen, Z3_solver to) {
	if (!e || !e->divides || !seen.insert(e).second) return;
	auto it = quotients.find(e); if (it != quotients.end()) Z3_solver_assert(zc, to, it->second);
	collectQuotients(e->a, seen, to); collectQuotients(e->b, seen, to); collectQuotients(e->c, seen, to);
}
static void assertAll(Z3_solver to, const vector<EP> &es) { std::unordered_set<EP> seen; for (EP e : es) { Z3_solver_assert(zc, to, zTrue(e)); collectQuotients(e, seen, to); } }

#include "intenc.h"
static IntEnc intEnc;

typedef vector<std::pair<uint32_t, uint64_t> > Delta;
enum SatRes { R_UNSAT, R_SAT, R_UNKNOWN };
struct VecHash { size_t operator()(const vector<uint32_t> &v) const { uint64_t h = 1469598103934665603ULL; for (auto x : v) h = (h ^ x) * 1099511628211ULL; return h; } };
static std::unordered_map<vector<uint32_t>, std::pair<SatRes, Delta>, VecHash> qcache;

static Z3_solver tacticSolver() {
	static Z3_tactic tac = nullptr; if (!tac) { tac = Z3_mk_tactic(zc, "qfbv"); Z3_tactic_inc_ref(zc, tac); }
	Z3_solver q = Z3_mk_solver_from_tactic(zc, tac); Z3_solver_inc_ref(zc, q);
	Z3_params pr = Z3_mk_params(zc); Z3_params_inc_ref(zc, pr); Z3_params_set_uint(zc, pr, Z3_mk_string_symbol(zc, "timeout"), z3timeout); Z3_solver_set_params(zc, q, pr); Z3_params_dec_ref(zc, pr); return q;
}

static SatRes query(State &s, EP cond, Delta &d, bool isAssert) {
	// slice of the path condition that shares symbols with cond
	static vector<uint8_t> in; in.assign(s.model.size(), 0);
	for (auto id : cond->syms->ids) in[id] = 1;
	vector<uint8_t> used(s.pc.size(), 0); vector<EP> sel; bool ch = true;
	while (ch) {
		ch = false;
		for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) {
			bool hit = false;
			for (auto id : s.pc[i]->syms->ids) if (in[id]) { hit = true; break; }
			if (hit) { used[i] = 1; sel.push_back(s.pc[i]); if (s.pc[i]->syms->ids.size() > 1) { for (auto id : s.pc[i]->syms->ids) in[id] = 1; ch = true; } }
		}
	}
	vector<uint32_t> key; for (EP e : sel) key.push_back(e->id);
	std::sort(key.begin(), key.end()); key.push_back(cond->id);
	if (!isAssert) { auto it = qcache.find(key); if (it != qcache.end()) { st.cacheHits++; d = it->second.second; return it->second.first; } }
	double t = now();
	sel.push_back(cond); bool divides = false; for (EP e : sel) divides |= e->divides;
	Z3_lbool r = Z3_L_UNDEF; Z3_solver by = nullptr; bool ints = false;
	auto asInts = [&](unsigned ms) { Z3_solver i = intEnc.solver(sel, ms); if (!i) return; r = Z3_solver_check(zc, i); if (r == Z3_L_UNDEF) Z3_solver_dec_ref(zc, i); else { by = i; ints = true; st.asIntegers++; } };
	bool wide = false; for (size_t id = 0; id < in.size(); id++) wide |= in[id] && s.symW[id] >= 32;
	if (divides || wide) asInts(divides ? 3000 : 1000);
	bool pushed = false;
	if (r == Z3_L_UNDEF) { pushed = true; Z3_solver_push(zc, zs); assertAll(zs, sel); by = zs; r = Z3_solver_check(zc, zs); }
	if (r == Z3_L_UNDEF) { st.hard++; by = nullptr; asInts(5000); }
	if (r == Z3_L_UNDEF) { // a harder one: the bit-blasting tactic in a solver of its own
		by = tacticSolver(); assertAll(by, sel); r = Z3_solver_check(zc, by); st.hard++;
	}
	if (r == Z3_L_UNDEF && getenv("DUMPQ")) { Z3_solver i = intEnc.solver(sel, 100); if (i) fprintf(stderr, "INTQ\n%s\nENDQ\n", Z3_solver_to_string(zc, i)); else fprintf(stderr, "NOTINT\n"); for (EP e : sel) fprintf(stderr, "EXPR %s\n", exprStr(e, 14).c_str()); }
	SatRes res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
	if (res == R_SAT) {
		Z3_model m = Z3_solver_get_model(zc, by); Z3_model_inc_ref(zc, m);
		for (size_t id = 0; id < in.size(); id++) if (in[id]) {
			Z3_ast v; uint64_t u = 0;
			EP y = pool.sym(id, s.symW[id]); if (Z3_model_eval(zc, m, ints ? intEnc.toInt(y) : toZ3(y), true, &v)) Z3_get_numeral_uint64(zc, v, (uint64_t *)&u);
			d.push_back({(uint32_t)id, u});
		}
		Z3_model_dec_ref(zc, m);
	}
	if (pushed) Z3_solver_pop(zc, zs, 1); if (by && by != zs) Z3_solver_dec_ref(zc, by);
	t = now() - t; st.solverTime += t; if (t > st.maxQuery) st.maxQuery = t;
	st.queries++; (res == R_SAT ? st.sat : res == R_UNSAT ? st.unsat : st.unknown)++;
	if (isAssert) { st.assertQueries++; if (res == R_UNSAT) st.assertUnsat++; }
	if (res == R_UNKNOWN && verbose) fprintf(stderr, "unknown: %s\n", exprStr(cond, 12).c_str());
	qcache[key] = {res, d};
	return res;
}

static uint64_t evalM(State &s, EP e) { newEval(); return evalExpr(e, s.model); }

// Is cond possible on this path? (model delta in d when it is)
static SatRes feasible(State &s, EP cond, Delta &d) {
	if (isC(cond)) return cond->val ? R_SAT : R_UNSAT;
	if (!s.pc.empty()) { EP n = mkNot(cond); for (size_t i = s.pc.size(), k = 0; i-- > 0 && k < 8; k++) { if (s.pc[i] == n) { st.modelHits++; return R_UNSAT; } } }
	if (evalM(s, cond)) { st.modelHits++; return R_SAT; }
	// single free byte
	uint32_t fr = 0; int nf = 0;
	for (auto id : cond->syms->ids) { if (s.symW[id] > 8) { nf = 99; break; } if (s.dom[id].count() != 1) { nf++; fr = id; if (nf > 1) break; } }
	if (nf == 0) { st.domDecided++; return R_UNSAT; } // constant under the path condition, and the model says false
	if (nf == 1) {
		Dom t;
		if (cond->syms->ids.size() == 1) t = truthTable(cond);
		else { vector<uint64_t> m = s.model; for (unsigned v = 0; v < 256; v++) if (s.dom[fr][v]) { m[fr] = v; newEval(); if (evalExpr(cond, m)) t.set(v); } }
		t &= s.dom[fr];
		if (t.none()) { if (++st.domDecided % 2003 == 0) { Delta x; SatRes r = query(s, cond, x, false); if (r == R_SAT) problems.insert("domain table and Z3 disagree"); else if (r == R_UNSAT) st.certified++; } return R_UNSAT; }
		if (!s.entangled[fr]) { st.domDecided++; unsigned v = 0; while (!t[v]) v++; d.push_back({fr, v}); return R_SAT; }
	}
	return query(s, cond, d, false);
}
static void applyDelta(State &s, const Delta &d) { for (auto &x : d) s.model[x.first] = x.second; }
static void addConstraint(State &s, EP c) {
	if (isC(c)) return;
	if (c->k == K_AND && c->w == 1) { addConstraint(s, c->a); addConstraint(s, c->b); return; }
	s.pc.push_back(c);
	if (c->syms->ids.size() == 1 && s.symW[c->syms->ids[0]] <= 8) s.dom[c->syms->ids[0]] &= truthTable(c);
	else {
		uint32_t fr = 0; int nf = 0;
		for (auto id : c->syms->ids) if (s.symW[id] > 8 || s.dom[id].count() != 1) { nf++; fr = id; }
		if (nf == 1 && s.symW[fr] <= 8) { vector<uint64_t> m = s.model; for (unsigned v = 0; v < 256; v++) if (s.dom[fr][v]) { m[fr] = v; newEval(); if (!evalExpr(c, m)) s.dom[fr].reset(v); } }
		else if (nf) for (auto id : c->syms->ids) s.entangled[id] = 1;
	}
}

static EP newSym(State &s, unsigned w, const char *name) {
	uint32_t id = s.model.size();
	s.model.push_back(0); s.symW.push_back(w); s.entangled.push_back(0); s.symName.push_back(name);
	Dom d; if (w <= 8) for (unsigned i = 0; i < (1u << w); i++) d.set(i);
	s.dom.push_back(d);
	return pool.sym(id, w);
}

// ------------------------------------------------------------------ worklist
static std::deque<State *> work;
static vector<pid_t> kids;
static void pushFork(State *s) { st.forks++; s->wit = false; work.push_back(s); }

static string jstr(const string &s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static string lineOf(uint32_t l) { return l ? lineTab[l].file + ":" + std::to_string(lineTab[l].line) : "?"; }
static string where(State &s) {
	string r; int n = 0;
	for (size_t i = s.frames.size(); i-- > 0 && n < 14; n++) { Frame &f = s.frames[i]; r += (n ? " < " : "") + f.f->name + "@" + lineOf(f.f->code[f.pc].line); }
	return r;
}
static void appendOut(const string &s) { int fd = open(outFile.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644); if (write(fd, s.data(), s.size()) < 0) perror("out"); close(fd); }
static void violation(State &s, const string &msg, const Delta *d = nullptr) {
	vector<uint64_t> m = s.model;
	if (d) for (auto &x : *d) m[x.first] = x.second;
	auto &k = violationKeys[std::to_string(s.cfg) + ":" + msg]; // a few examples per run and assertion, and each shorter one
	if (k.first++ >= (keepGoing ? 16 : 1) && m.size() >= k.second) return;
	k.second = k.first == 1 ? m.size() : std::min(k.second, m.size());
	string o = "{\"type\":\"violation\",\"cfg\":" + std::to_string(s.cfg) + ",\"msg\":" + jstr(msg) + ",\"where\":" + jstr(where(s)) + ",\"inputs\":[";
	for (size_t i = 0; i < m.size(); i++) o += (i ? "," : "") + string("[") + jstr(s.symName[i]) + "," + std::to_string(s.symW[i]) + "," + std::to_string(m[i]) + "]";
	o += "]}\n";
	appendOut(o);
	if (!keepGoing) sh->stop = 1;
	long none = 0; sh->firstViolation.compare_exchange_strong(none, long(now() * 1000));
}
static void checkGrace() { long f = sh->firstViolation.load(); if (grace && f && now() * 1000 > f + grace * 1000) sh->stop = 1; }

// ------------------------------------------------------------------ builtins
enum { B_NONE = -1, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWARR, B_DEL, B_DELARR, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP,
	B_THROW, B_ALLOCEXC, B_FREEEXC, B_BEGINCATCH, B_ENDCATCH, B_RETHROW, B_GETEXCPTR, B_GUARDACQ, B_GUARDREL, B_NOP0, B_TYPEIDFOR,
	B_SYMU, B_ASSUME, B_ASSERT, B_END, B_COVER, B_CHOOSE, B_CONCRETE, B_PARAM, B_ISSYM, B_FAIL, B_MINMAX, B_OVF, B_ABS, B_CTLZ, B_CTTZ, B_CTPOP, B_BSWAP, B_FSH, B_SATOP,
	B_UNSUP, B_MEMEQ, B_BYTES, B_PRINT, B_EXPECT, B_ISCONST, B_OBJSIZE, B_TERMINATE, B_READABLE, B_HEAPOPS, B_SPAWN, B_SWITCH, B_UNCAUGHT };
static const std::unordered_map<string, int> builtins = {
	{"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"_Znwm", B_NEW}, {"_Znam", B_NEWARR}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEWARR}, {"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdlPvRKSt9nothrow_t", B_DEL}, {"_ZdaPv", B_DELARR}, {"_ZdaPvm", B_DELARR},
	{"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP},
	{"__cxa_throw", B_THROW}, {"_ZSt18uncaught_exceptionv", B_UNCAUGHT}, {"_ZSt19uncaught_exceptionsv", B_UNCAUGHT}, {"__cxa_allocate_exception", B_ALLOCEXC}, {"__cxa_free_exception", B_FREEEXC}, {"__cxa_begin_catch", B_BEGINCATCH}, {"__cxa_end_catch", B_ENDCATCH}, {"__cxa_rethrow", B_RETHROW}, {"__cxa_get_exception_ptr", B_GETEXCPTR},
	{"__cxa_guard_acquire", B_GUARDACQ}, {"__cxa_guard_release", B_GUARDREL}, {"__cxa_guard_abort", B_NOP0}, {"__cxa_atexit", B_NOP0},
	{"sym_u8", B_SYMU}, {"sym_u16", B_SYMU}, {"sym_u32", B_SYMU}, {"sym_u64", B_SYMU}, {"sym_bool", B_SYMU}, {"sym_bytes", B_BYTES}, {"sym_assume", B_ASSUME}, {"sym_assert", B_ASSERT}, {"sym_end", B_END}, {"sym_cover", B_COVER}, {"sym_choose", B_CHOOSE}, {"sym_concretize", B_CONCRETE}, {"sym_param", B_PARAM}, {"sym_is_symbolic", B_ISSYM}, {"sym_fail", B_FAIL}, {"sym_equal", B_MEMEQ}, {"sym_print", B_PRINT}, {"sym_readable", B_READABLE}, {"sym_heap_ops", B_HEAPOPS}, {"sym_spawn", B_SPAWN}, {"sym_switch", B_SWITCH},
};

// A finished path's inputs, for native replay; its path condition must hold in the model and be satisfiable for Z3.
static std::map<int, int> witPerRun;
static void witness(State &s) {
	if (!s.wit && witPerRun[s.cfg]) return;
	witPerRun[s.cfg]++; st.witnesses++;
	for (EP e : s.pc) if (!evalM(s, e)) { problems.insert("a path's model does not satisfy its path condition"); return; }
	Z3_solver_push(zc, zs); assertAll(zs, s.pc);
	double t = now(); Z3_lbool r = Z3_solver_check(zc, zs); Z3_solver_pop(zc, zs, 1); st.solverTime += now() - t; st.queries++;
	if (r == Z3_L_FALSE) { problems.insert("Z3 refutes an explored path's condition"); st.unsat++; return; }
	if (r == Z3_L_TRUE) { st.sat++; st.witnessesZ3++; } else st.unknown++;
	string o = "{\"type\":\"witness\",\"cfg\":" + std::to_string(s.cfg) + ",\"inputs\":[";
	for (size_t i = 0; i < s.model.size(); i++) o += (i ? "," : "") + string("[") + jstr(s.symName[i]) + "," + std::to_string(s.symW[i]) + "," + std::to_string(s.model[i]) + "]";
	appendOut(o + "]}\n");
}
[[noreturn]] static void endPath(bool counted) { if (counted) st.ended++; else st.pruned++; throw PathEnd(); }
[[noreturn]] static void fail(State &s, const string &msg) { violation(s, msg); throw PathEnd(); }

// ------------------------------------------------------------------ program loading
static unsigned bitsOf(Type *t) {
	if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) throw Unsupported{"integer width " + std::to_string(w)}; return w; }
	if (t->isPointerTy()) return 64;
	if (t->isFloatTy()) return 32;
	if (t->isDoubleTy()) return 64;
	string n; raw_string_ostream os(n); t->print(os);
	throw Unsupported{"type " + os.str()};
}
static void flatten(Type *t, uint64_t off, MemTy &m) {
	if (auto *stt = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(stt); for (unsigned i = 0; i < stt->getNumElements(); i++) flatten(stt->getElementType(i), off + sl->getElementOffset(i), m); }
	else if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, m); }
	else m.parts.push_back({(uint32_t)off, (uint8_t)bitsOf(t)});
}
static unsigned slotsOf(Type *t) { if (t->isVoidTy()) return 0; MemTy m; flatten(t, 0, m); return m.parts.size(); }

static uint64_t constScalar(const Constant *c);
static void constSlots(const Constant *c, vector<Val> &out) {
	Type *t = c->getType();
	if (t->isStructTy() || t->isArrayTy()) {
		unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
		for (unsigned i = 0; i < n; i++) {
			if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(); for (unsigned k = slotsOf(et); k-- > 0;) out.push_back(cv(0)); }
			else constSlots(c->getAggregateElement(i), out);
		}
	} else out.push_back(cv(constScalar(c)));
}
static uint64_t constScalar(const Constant *c) {
	if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw Unsupported{"wide constant"}; return ci->getZExtValue(); }
	if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
	if (auto *f = dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().getZExtValue();
	if (auto *fn = dyn_cast<Function>(c)) return funcOf[fn]->addr;
	if (auto *g = dyn_cast<GlobalVariable>(c)) return gaddr[g];
	if (auto *al = dyn_cast<GlobalAlias>(c)) return constScalar(al->getAliasee());
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		unsigned op = ce->getOpcode();
		if (op == Instruction::GetElementPtr) { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"}; return constScalar(ce->getOperand(0)) + off.getZExtValue(); }
		if (op == Instruction::BitCast || op == Instruction::IntToPtr || op == Instruction::PtrToInt || op == Instruction::AddrSpaceCast) return constScalar(ce->getOperand(0)) & maskOf(bitsOf(ce->getType()));
		if (op == Instruction::Trunc) return constScalar(ce->getOperand(0)) & maskOf(bitsOf(ce->getType()));
		uint64_t a = constScalar(ce->getOperand(0)), b = ce->getNumOperands() > 1 ? constScalar(ce->getOperand(1)) : 0;
		if (op == Instruction::Add) return a + b;
		if (op == Instruction::Sub) return a - b;
		if (op == Instruction::ICmp) { switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; default: break; } }
	}
	string n; raw_string_ostream os(n); c->print(os);
	throw Unsupported{"constant " + os.str().substr(0, 200)};
}
static void initBytes(const Constant *c, uint8_t *p) {
	Type *t = c->getType();
	if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { memset(p, 0, DL->getTypeAllocSize(t)); return; }
	if (auto *cds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cds->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
	if (auto *stt = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(stt); for (unsigned i = 0; i < stt->getNumElements(); i++) initBytes(c->getAggregateElement(i), p + sl->getElementOffset(i)); return; }
	if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) initBytes(c->getAggregateElement(i), p + i * es); return; }
	uint64_t v = constScalar(c); memcpy(p, &v, DL->getTypeStoreSize(t));
}

static Func *resolve(Func *f) {
	if (f->redirect) return f->redirect == f ? f : f->redirect;
	f->redirect = f;
	if (f->isDecl) { auto it = funcByName.find("__wrap_" + f->name); if (it != funcByName.end() && !it->second->isDecl) return f->redirect = it->second; }
	return f;
}
static void loadProgram(const char *file) {
	SMDiagnostic err;
	mod = parseIRFile(file, err, ctx);
	if (!mod) { err.print("symex", errs()); exit(3); }
	DL = &mod->getDataLayout();
	funcs.push_back(nullptr);
	for (Function &f : *mod) {
		Func *fn = new Func; fn->name = f.getName().str(); fn->ll = &f; fn->index = funcs.size(); fn->addr = ((uint64_t)(FUNC_ID0 + fn->index) << OBJ_SHIFT) | OBJ_BASE; fn->isDecl = f.isDeclaration();
		funcs.push_back(fn); funcOf[&f] = fn; funcByName[fn->name] = fn;
		auto it = builtins.find(fn->name); if (it != builtins.end()) fn->bi = it->second;
		if (auto *sp = f.getSubprogram()) { string path = (sp->getDirectory() + "/" + sp->getFilename()).str(); string fnm = sp->getFilename().str(); fn->inRepo = fnm.compare(0, srcPrefix.size(), srcPrefix) == 0 || path.compare(0, srcPrefix.size(), srcPrefix) == 0; }
	}
	for (GlobalVariable &g : mod->globals()) {
		uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8;
		if (g.isDeclaration() && sz < 64) sz = 64; // external vtables and the like
		Obj *o = new Obj(sz, OK_GLOBAL); memset(o->bytes, 0, sz);
		uint32_t id = baseMem.add(o); gaddr[&g] = Mem::addr(id); gvarAt[Mem::addr(id)] = &g;
	}
	for (GlobalVariable &g : mod->globals()) if (g.hasInitializer()) {
		Obj *o = baseMem.getW((uint32_t)(gaddr[&g] >> OBJ_SHIFT));
		try { initBytes(g.getInitializer(), o->bytes); } catch (Unsupported &u) { if (verbose) fprintf(stderr, "global %s: %s\n", g.getName().str().c_str(), u.what.c_str()); }
		o->ro = g.isConstant();
	}
	anyHookTerminate = funcByName.count("verif_on_terminate") && !funcByName["verif_on_terminate"]->isDecl;
}

struct Decoder {
	Func *fn; Function *f;
	std::unordered_map<const Value *, int32_t> slot; std::unordered_map<const BasicBlock *, uint32_t> bbPc; std::map<std::pair<uint64_t, uint64_t>, int32_t> constIdx;
	vector<std::pair<uint32_t, std::pair<const BasicBlock *, const BasicBlock *> > > fix; // edge index -> blocks
	int32_t konst(uint64_t v) { auto it = constIdx.find({v, 0}); if (it != constIdx.end()) return it->second; fn->consts.push_back(cv(v)); return constIdx[{v, 0}] = -(int32_t)fn->consts.size(); }
	int32_t op(const Value *v) {
		if (auto *c = dyn_cast<Constant>(v)) {
			if (c->getType()->isStructTy() || c->getType()->isArrayTy()) { vector<Val> vs; constSlots(c, vs); int32_t first = -(int32_t)fn->consts.size() - 1; for (auto it = vs.begin(); it != vs.end(); ++it) fn->consts.push_back(*it); return first; }
			return konst(constScalar(c));
		}
		if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return konst(0);
		auto it = slot.find(v); if (it == slot.end()) throw Unsupported{"operand"}; return it->second;
	}
	// operand slot k of an aggregate
	static int32_t at(int32_t base, unsigned k) { return base >= 0 ? base + (int32_t)k : base - (int32_t)k; }
	int edge(const BasicBlock *from, const BasicBlock *to) { fn->edges.push_back(Edge()); fix.push_back({(uint32_t)fn->edges.size() - 1, {from, to}}); return fn->edges.size() - 1; }
	uint32_t lineId(const Instruction &i) {
		const DILocation *l = i.getDebugLoc().get();
		if (!l) return 0;
		string file = l->getFilename().str();
		if (file.empty() || file[0] != '/') file = l->getDirectory().str() + "/" + file;
		auto k = std::make_pair(file, l->getLine()); auto it = lineIdx.find(k);
		if (it != lineIdx.end()) return it->second;
		lineTab.push_back({file, l->getLine()}); if (lineHit.size() < lineTab.size()) lineHit.resize(lineTab.size() * 2);
		return lineIdx[k] = lineTab.size() - 1;
	}
	static Op binOp(unsigned o) { switch (o) { case Instruction::Add: return O_ADD; case Instruction::Sub: return O_SUB; case Instruction::Mul: return O_MUL; case Instruction::UDiv: return O_UDIV; case Instruction::SDiv: return O_SDIV; case Instruction::URem: return O_UREM; case Instruction::SRem: return O_SREM; case Instruction::And: return O_AND; case Instruction::Or: return O_OR; case Instruction::Xor: return O_XOR; case Instruction::Shl: return O_SHL; case Instruction::LShr: return O_LSHR; case Instruction::AShr: return O_ASHR; default: return O_NOP; } }
	void decodeCall(const CallBase *cb, DI &d) {
		Call c; c.fn = nullptr; c.bi = B_NONE; c.target = 0; c.dst = -1; c.nret = 0; c.wret = 0; c.edgeN = c.edgeU = c.lpad = -1;
		const Value *cal = cb->getCalledOperand()->stripPointerCasts();
		if (auto *al = dyn_cast<GlobalAlias>(cal)) cal = al->getAliaseeObject();
		if (!cb->getType()->isVoidTy()) { c.nret = slotsOf(cb->getType()); c.dst = slot[cb]; if (c.nret == 1) { MemTy m; flatten(cb->getType(), 0, m); c.wret = m.parts[0].second; } }
		if (auto *tf = dyn_cast<Function>(cal)) {
			c.fn = resolve(funcOf[tf]); c.name = tf->getName().str(); c.bi = c.fn->isDecl ? c.fn->bi : B_NONE;
			if (c.bi == B_FREE || c.bi == B_MALLOC) {}
			if (tf->isIntrinsic()) {
				string n = c.name; auto is = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
				if (is("llvm.memcpy")) c.bi = B_MEMCPY; else if (is("llvm.memmove")) c.bi = B_MEMMOVE; else if (is("llvm.memset")) c.bi = B_MEMSET;
				else if (is("llvm.eh.typeid.for")) c.bi = B_TYPEIDFOR; else if (is("llvm.umax") || is("llvm.umin") || is("llvm.smax") || is("llvm.smin")) c.bi = B_MINMAX;
				else if (n.find(".with.overflow.") != string::npos) c.bi = B_OVF; else if (is("llvm.abs")) c.bi = B_ABS; else if (is("llvm.ctlz")) c.bi = B_CTLZ; else if (is("llvm.cttz")) c.bi = B_CTTZ; else if (is("llvm.ctpop")) c.bi = B_CTPOP; else if (is("llvm.bswap")) c.bi = B_BSWAP; else if (is("llvm.fsh")) c.bi = B_FSH;
				else if (n.find(".sat.") != string::npos) c.bi = B_SATOP; else if (is("llvm.expect")) c.bi = B_EXPECT; else if (is("llvm.is.constant")) c.bi = B_ISCONST; else if (is("llvm.objectsize")) c.bi = B_OBJSIZE; else if (is("llvm.trap")) c.bi = B_FAIL;
				else if (is("llvm.lifetime") || is("llvm.dbg") || is("llvm.assume") || is("llvm.experimental.noalias") || is("llvm.stackrestore") || is("llvm.invariant") || is("llvm.prefetch") || is("llvm.donothing")) { d.op = O_NOP; return; }
				else c.bi = B_UNSUP;
			} else if (c.fn->isDecl && c.bi == B_NONE) c.bi = B_UNSUP;
		} else if (isa<InlineAsm>(cal)) { c.bi = B_UNSUP; c.name = "inline asm"; auto *ia = cast<InlineAsm>(cal); if (ia->getAsmString().empty()) { d.op = O_NOP; return; } }
		else c.target = op(cal);
		for (unsigned i = 0; i < cb->arg_size(); i++) {
			const Value *a = cb->getArgOperand(i);
			if (isa<MetadataAsValue>(a)) { continue; }
			Arg g; g.op = op(a); MemTy m; flatten(a->getType(), 0, m); g.nslots = m.parts.size(); g.w = m.parts.empty() ? 0 : m.parts[0].second; g.byval = cb->isByValArgument(i) ? (uint32_t)DL->getTypeAllocSize(cb->getParamByValType(i)) : 0;
			c.args.push_back(g);
		}
		if (auto *iv = dyn_cast<InvokeInst>(cb)) {
			d.op = O_INVOKE; c.edgeN = edge(iv->getParent(), iv->getNormalDest()); c.edgeU = edge(iv->getParent(), iv->getUnwindDest());
			const LandingPadInst *lp = iv->getLandingPadInst();
			LPad L; L.cleanup = lp->isCleanup(); L.dst = slot[lp];
			for (unsigned i = 0; i < lp->getNumClauses(); i++) {
				if (lp->isCatch(i)) L.clauses.push_back({false, constScalar(lp->getClause(i))});
				else L.clauses.push_back({true, 0});
			}
			fn->lpads.push_back(L); c.lpad = fn->lpads.size() - 1;
		} else d.op = O_CALL;
		fn->calls.push_back(c); d.aux = fn->calls.size() - 1;
	}
	void decode(Func *fnp) {
		fn = fnp; f = (Function *)fn->ll; fn->decoded = true;
		uint32_t n = 0;
		for (Argument &a : f->args()) { fn->argSlot.push_back(n); slot[&a] = n; n += slotsOf(a.getType()); }
		fn->nargs = n;
		for (Instruction &i : instructions(*f)) if (!i.getType()->isVoidTy()) { unsigned k; try { k = slotsOf(i.getType()); } catch (Unsupported &) { k = 1; } slot[&i] = n; n += k; }
		for (BasicBlock &bb : *f) {
			bbPc[&bb] = fn->code.size();
			for (Instruction &i : bb) {
				if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) continue;
				DI d; memset(&d, 0, sizeof d); d.line = lineId(i); d.dst = slot.count(&i) ? slot[&i] : -1;
				try { decodeInst(i, d); }
				catch (Unsupported &u) { Call c; c.fn = nullptr; c.bi = B_UNSUP; c.name = u.what; c.target = 0; c.dst = -1; c.nret = 0; c.wret = 0; c.edgeN = c.edgeU = c.lpad = -1; fn->calls.push_back(c); d.op = O_CALL; d.aux = fn->calls.size() - 1; }
				if (d.op != O_NOP) fn->code.push_back(d);
			}
		}
		for (auto &x : fix) {
			Edge &e = fn->edges[x.first]; e.target = bbPc[x.second.second];
			for (const PHINode &p : x.second.second->phis()) { const Value *v = p.getIncomingValueForBlock(x.second.first); int32_t src = op(v); unsigned k = slotsOf(p.getType()); for (unsigned q = 0; q < k; q++) e.copies.push_back({slot[&p] + (int32_t)q, at(src, q)}); }
		}
		fn->nregs = n;
	}
	void decodeInst(Instruction &i, DI &d) {
		unsigned o = i.getOpcode(); Op b = binOp(o);
		if (b != O_NOP) { d.op = b; d.w = bitsOf(i.getType()); d.a = op(i.getOperand(0)); d.b = op(i.getOperand(1)); d.c = 0; return; }
		switch (o) {
		case Instruction::ICmp: d.op = O_ICMP; d.sub = cast<ICmpInst>(i).getPredicate(); d.w = bitsOf(i.getOperand(0)->getType()); d.a = op(i.getOperand(0)); d.b = op(i.getOperand(1)); break;
		case Instruction::FCmp: d.op = O_FCMP; d.sub = cast<FCmpInst>(i).getPredicate(); d.w = bitsOf(i.getOperand(0)->getType()); d.a = op(i.getOperand(0)); d.b = op(i.getOperand(1)); break;
		case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: d.op = O_FBIN; d.sub = o; d.w = bitsOf(i.getType()); d.a = op(i.getOperand(0)); d.b = op(i.getOperand(1)); break;
		case Instruction::Load: { MemTy m; flatten(i.getType(), 0, m); d.op = O_LOAD; d.a = op(i.getOperand(0)); d.w = m.parts.size() == 1 ? m.parts[0].second : 0; if (!d.w) { fn->mtys.push_back(m); d.aux = fn->mtys.size() - 1; } break; }
		case Instruction::Store: { MemTy m; flatten(i.getOperand(0)->getType(), 0, m); d.op = O_STORE; d.a = op(i.getOperand(1)); d.b = op(i.getOperand(0)); d.w = m.parts.size() == 1 ? m.parts[0].second : 0; if (!d.w) { fn->mtys.push_back(m); d.aux = fn->mtys.size() - 1; } break; }
		case Instruction::GetElementPtr: {
			auto &g = cast<GetElementPtrInst>(i); Gep gp; gp.off = 0; d.op = O_GEP; d.a = op(g.getPointerOperand());
			for (auto it = gep_type_begin(g); it != gep_type_end(g); ++it) {
				Value *ix = it.getOperand();
				if (StructType *stt = it.getStructTypeOrNull()) gp.off += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
				else { uint64_t sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) gp.off += (uint64_t)ci->getSExtValue() * sz; else gp.ix.push_back({op(ix), (uint8_t)bitsOf(ix->getType()), sz}); }
			}
			fn->geps.push_back(gp); d.aux = fn->geps.size() - 1; break; }
		case Instruction::Alloca: { auto &a = cast<AllocaInst>(i); d.op = O_ALLOCA; uint64_t sz = DL->getTypeAllocSize(a.getAllocatedType()); fn->allocas.push_back({sz, 0}); d.aux = fn->allocas.size() - 1; d.a = op(a.getArraySize()); break; }
		case Instruction::Br: { auto &br = cast<BranchInst>(i); if (br.isConditional()) { d.op = O_CBR; d.a = op(br.getCondition()); d.b = edge(i.getParent(), br.getSuccessor(0)); d.c = edge(i.getParent(), br.getSuccessor(1)); } else { d.op = O_BR; d.b = edge(i.getParent(), br.getSuccessor(0)); } break; }
		case Instruction::Switch: { auto &sw = cast<SwitchInst>(i); SwitchT t; d.op = O_SWITCH; d.a = op(sw.getCondition()); d.w = bitsOf(sw.getCondition()->getType()); t.def = edge(i.getParent(), sw.getDefaultDest()); for (auto &cs : sw.cases()) t.cases.push_back({cs.getCaseValue()->getZExtValue(), edge(i.getParent(), cs.getCaseSuccessor())}); fn->switches.push_back(t); d.aux = fn->switches.size() - 1; break; }
		case Instruction::Ret: { d.op = O_RET; Value *v = cast<ReturnInst>(i).getReturnValue(); d.w2 = v ? slotsOf(v->getType()) : 0; d.a = v && d.w2 ? op(v) : 0; break; }
		case Instruction::Call: case Instruction::Invoke: decodeCall(cast<CallBase>(&i), d); break;
		case Instruction::LandingPad: d.op = O_NOP; break; // value set by the unwinder
		case Instruction::Resume: d.op = O_RESUME; d.a = op(i.getOperand(0)); break;
		case Instruction::Unreachable: d.op = O_UNREACH; break;
		case Instruction::ZExt: d.op = O_ZEXT; d.w = bitsOf(i.getType()); d.w2 = bitsOf(i.getOperand(0)->getType()); d.a = op(i.getOperand(0)); break;
		case Instruction::SExt: d.op = O_SEXT; d.w = bitsOf(i.getType()); d.w2 = bitsOf(i.getOperand(0)->getType()); d.a = op(i.getOperand(0)); break;
		case Instruction::Trunc: d.op = O_TRNC; d.w = bitsOf(i.getType()); d.w2 = bitsOf(i.getOperand(0)->getType()); d.a = op(i.getOperand(0)); break;
		case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: {
			unsigned k = slotsOf(i.getType()), w1 = bitsOf(i.getType()), w0 = bitsOf(i.getOperand(0)->getType());
			if (w1 < w0) { d.op = O_TRNC; d.w = w1; d.w2 = w0; } else if (w1 > w0) { d.op = O_ZEXT; d.w = w1; d.w2 = w0; } else d.op = O_COPY;
			(void)k; d.a = op(i.getOperand(0)); if (d.op == O_COPY) d.w2 = 1; break; }
		case Instruction::Select: d.op = O_SELECT; d.a = op(i.getOperand(0)); d.b = op(i.getOperand(1)); d.c = op(i.getOperand(2)); d.w2 = slotsOf(i.getType()); d.w = d.w2 == 1 ? bitsOf(i.getType()) : 0; d.sub = i.getType()->isPointerTy(); break;
		case Instruction::ExtractValue: { auto &e = cast<ExtractValueInst>(i); d.op = O_COPY; d.a = at(op(e.getAggregateOperand()), aggOff(e.getAggregateOperand()->getType(), e.getIndices())); d.w2 = slotsOf(i.getType()); break; }
		case Instruction::InsertValue: { auto &e = cast<InsertValueInst>(i); d.op = O_INSERT; d.a = op(e.getAggregateOperand()); d.b = op(e.getInsertedValueOperand()); d.c = aggOff(e.getAggregateOperand()->getType(), e.getIndices()); d.w = slotsOf(i.getType()); d.w2 = slotsOf(e.getInsertedValueOperand()->getType()); break; }
		case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: d.op = O_FCAST; d.sub = o; d.w = bitsOf(i.getType()); d.w2 = bitsOf(i.getOperand(0)->getType()); d.a = op(i.getOperand(0)); break;
		case Instruction::AtomicRMW: { auto &r = cast<AtomicRMWInst>(i); d.op = O_RMW; d.sub = r.getOperation(); d.w = bitsOf(r.getType()); d.a = op(r.getPointerOperand()); d.b = op(r.getValOperand()); break; }
		case Instruction::AtomicCmpXchg: { auto &r = cast<AtomicCmpXchgInst>(i); d.op = O_CMPXCHG; d.w = bitsOf(r.getCompareOperand()->getType()); d.a = op(r.getPointerOperand()); d.b = op(r.getCompareOperand()); d.c = op(r.getNewValOperand()); break; }
		case Instruction::Fence: d.op = O_NOP; break;
		default: throw Unsupported{string("instruction ") + i.getOpcodeName()};
		}
	}
	unsigned aggOff(Type *t, ArrayRef<unsigned> ix) {
		unsigned off = 0;
		for (unsigned k : ix) {
			if (auto *stt = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < k; q++) off += slotsOf(stt->getElementType(q)); t = stt->getElementType(k); }
			else { t = t->getArrayElementType(); off += k * slotsOf(t); }
		}
		return off;
	}
};
static inline void ensure(Func *f) { if (!f->decoded) { Decoder d; d.decode(f); } }

// ------------------------------------------------------------------ execution
struct Exec {
	State *sp;
	Func *fn; uint32_t pc; Val *R; const Val *K;
	void sync() { sp->frames.back().pc = pc; }
	void load() { Frame &f = sp->frames.back(); fn = f.f; pc = f.pc; R = sp->regs.data() + f.regBase; K = fn->consts.data(); }
	inline const Val &V(int32_t o) const { return o >= 0 ? R[o] : K[-o - 1]; }
	inline EP E(int32_t o, unsigned w) const { const Val &v = V(o); return v.e ? v.e : mkc(v.c, w); }
	static Val mkv(EP e) { return isC(e) ? cv(e->val) : Val{0, e}; }

	// fork helpers -------------------------------------------------
	State *cloneHere() { sync(); return new State(*sp); }
	// Decide a symbolic condition; forks the other side (which re-executes the current instruction).
	bool decide(EP c) {
		State &s = *sp;
		if (isC(c)) return c->val;
		bool v = evalM(s, c);
		EP other = v ? mkNot(c) : c, mine = v ? c : mkNot(c);
		Delta d; SatRes r = feasible(s, other, d);
		if (r == R_SAT) { State *n = cloneHere(); applyDelta(*n, d); addConstraint(*n, other); n->depth++; pushFork(n); addConstraint(s, mine); s.depth++; }
		else if (r == R_UNKNOWN) { st.incomplete++; problems.insert("solver gave no answer at " + where(s)); addConstraint(s, mine); }
		return v;
	}
	uint64_t concretize(EP e) {
		if (isC(e)) return e->val;
		State &s = *sp; uint64_t v = evalM(s, e); EP eq = mkEq(e, mkc(v, e->w));
		if (isC(eq)) return v;
		EP ne = mkNot(eq); Delta d; SatRes r = feasible(s, ne, d);
		if (r == R_SAT) { State *n = cloneHere(); applyDelta(*n, d); addConstraint(*n, ne); pushFork(n); addConstraint(s, eq); }
		else if (r == R_UNKNOWN) { st.incomplete++; problems.insert("solver gave no answer at " + where(s)); addConstraint(s, eq); }
		return v;
	}
	uint64_t conc(const Val &v, unsigned) { return v.e ? concretize(v.e) : v.c; }

	// memory -------------------------------------------------------
	[[noreturn]] void memErr(const char *what, uint64_t addr, uint64_t n) {
		sync(); char b[160]; uint32_t id = addr >> OBJ_SHIFT; Obj *o = sp->mem.get(id);
		snprintf(b, sizeof b, "memory error: %s of %llu bytes at offset %lld of object of %lld bytes", what, (unsigned long long)n, (long long)(int64_t)((addr & 0xffffffffULL) - OBJ_BASE), o ? (long long)o->size : -1LL);
		string m = id == 0 ? string("memory error: null pointer ") + what : !o ? string("memory error: use of freed or invalid memory in ") + what : string(b);
		fail(*sp, m);
	}
	inline Obj *rd(uint64_t addr, uint64_t n, uint64_t &off, const char *what = "read") {
		uint32_t id = addr >> OBJ_SHIFT; Obj *o = sp->mem.get(id);
		off = (addr & 0xffffffffULL) - OBJ_BASE;
		if (!o || off > o->size || n > o->size - off) memErr(what, addr, n);
		return o;
	}
	inline Obj *wr(uint64_t addr, uint64_t n, uint64_t &off) {
		Obj *o = rd(addr, n, off, "write");
		if (o->ro) { sync(); fail(*sp, "memory error: write to constant data"); }
		return sp->mem.getW(addr >> OBJ_SHIFT);
	}
	Val loadC(uint64_t addr, unsigned w) {
		uint64_t off, n = (w + 7) / 8; Obj *o = rd(addr, n, off);
		if (o->sym.empty() || !o->anySym(off, n)) { uint64_t v = 0; memcpy(&v, o->bytes + off, n); return cv(v & maskOf(w)); }
		EP e = nullptr; // runs of bytes of one stored value become that value again
		for (uint64_t i = 0; i < n;) {
			EP x = o->byteAt(off + i++);
			if (x->k == K_EXTRACT && x->w == 8) { EP base = x->a; unsigned at = x->val, k = 8; for (; i < n; i++, k += 8) { EP y = o->byteAt(off + i); if (y->k != K_EXTRACT || y->w != 8 || y->a != base || y->val != at + k) break; } x = mkExtract(base, at, k); }
			e = e ? mkConcat(x, e) : x;
		}
		if (e->w > w) e = mkExtract(e, 0, w);
		return mkv(e);
	}
	void storeC(uint64_t addr, const Val &v, unsigned w) {
		uint64_t off, n = (w + 7) / 8; Obj *o = wr(addr, n, off);
		if (!v.e) { o->clearSym(off, n); memcpy(o->bytes + off, &v.c, n); return; }
		EP e = v.e; if (e->w < n * 8) e = mkZext(e, n * 8);
		for (uint64_t i = 0; i < n; i++) o->setByte(off + i, n == 1 ? e : mkByte(e, i * 8));
	}
	Val loadSym(EP a, unsigned w) {
		State &s = *sp; uint64_t v = evalM(s, a); uint32_t id = v >> OBJ_SHIFT; Obj *o = s.mem.get(id); uint64_t n = (w + 7) / 8;
		if (!o) memErr("read", v, n);
		EP off = mkBin(K_SUB, a, mkc(Mem::addr(id), 64));
		if (o->size < n) memErr("read", v, n);
		EP inb = mkBin(K_ULE, off, mkc(o->size - n, 64));
		if (!decide(inb)) memErr("read", v, n); // the out-of-bounds side is reported
		// read-only table: if-then-else over runs of equal bytes
		if (o->size <= 1024 && n <= 8) {
			EP r = nullptr; // built from the end
			vector<std::pair<uint64_t, EP> > runs;
			uint64_t step = 1;
			if (n > 1) { bool al = true; for (uint64_t k = 0; k < 8 && al; k++) {} step = alignStep(off, n); }
			for (uint64_t p = 0; p + n <= o->size; p += step) { Val x = loadC(Mem::addr(id) + p, w); EP e = x.e ? x.e : mkc(x.c, w); if (runs.empty() || runs.back().second != e) runs.push_back({p, e}); }
			// restrict to feasible values of a single byte symbol
			for (size_t i = runs.size(); i-- > 0;) r = r ? mkIte(mkBin(K_ULT, off, mkc(runs[i + 1].first, 64)), runs[i].second, r) : runs[i].second;
			return mkv(r);
		}
		return loadC(concretize(a), w);
	}
	static uint64_t alignStep(EP off, uint64_t n) { // offset provably a multiple of n?
		uint64_t z = 0; EP e = off;
		while (e->k == K_ZEXT || e->k == K_SEXT) e = e->a;
		if (e->k == K_CONCAT) { EP l = e; while (l->k == K_CONCAT) l = l->b; if (l->k == K_CONST && l->val == 0) z = l->w; }
		else if (e->k == K_MUL && isC(e->b)) { uint64_t c = e->b->val; while (c && !(c & 1)) { z++; c >>= 1; } }
		return z >= 6 ? n : ((1ULL << z) % n == 0 ? n : 1);
	}
	void copyMem(uint64_t dst, uint64_t src, uint64_t n) {
		if (!n) return;
		uint64_t so, dof; rd(src, n, so); Obj *d = wr(dst, n, dof); Obj *s = rd(src, n, so);
		vector<SB> t; if (!s->sym.empty()) { size_t i = s->lb(so); for (; i < s->sym.size() && s->sym[i].off < so + n; i++) t.push_back({(uint32_t)(s->sym[i].off - so + dof), s->sym[i].e}); }
		memmove(d->bytes + dof, s->bytes + so, n);
		d->clearSym(dof, n);
		if (!t.empty()) d->sym.insert(d->sym.begin() + d->lb(dof), t.begin(), t.end());
	}
	uint64_t allocate(uint64_t n, ObjKind k, int fill = 0xBE) {
		if (n > (1ULL << 30)) { sync(); fail(*sp, "allocation of an absurd size (" + std::to_string(n) + ")"); }
		Obj *o = new Obj(n, k); memset(o->bytes, fill, n); return Mem::addr(sp->mem.add(o));
	}
	void release(uint64_t a, int kind) {
		if (!a) return;
		uint64_t off = (a & 0xffffffffULL) - OBJ_BASE; uint32_t id = a >> OBJ_SHIFT; Obj *o = sp->mem.get(id);
		if (!o || off) { sync(); fail(*sp, "memory error: double or invalid free"); }
		if (o->kind != kind) { sync(); fail(*sp, "memory error: mismatched or invalid deallocation"); }
		sp->mem.remove(id);
	}
	// control ------------------------------------------------------
	void takeEdge(int ei) {
		const Edge &e = fn->edges[ei];
		size_t n = e.copies.size();
		if (n == 1) R[e.copies[0].first] = V(e.copies[0].second);
		else if (n) { static vector<Val> tmp; tmp.resize(n); for (size_t i = 0; i < n; i++) tmp[i] = V(e.copies[i].second); for (size_t i = 0; i < n; i++) R[e.copies[i].first] = tmp[i]; }
		pc = e.target;
	}
	void popFrame() {
		Frame &f = sp->frames.back();
		for (auto id : f.allocas) sp->mem.remove(id);
		sp->regs.resize(f.regBase); sp->frames.pop_back();
	}
	void enter(Func *f, const Call *c) {
		ensure(f); sync();
		if (sp->frames.size() > 4000) fail(*sp, "stack overflow (unbounded recursion)");
		uint32_t base = sp->regs.size();
		Frame nf; nf.f = f; nf.pc = 0; nf.regBase = base;
		static vector<Val> args; args.clear();
		if (c) for (auto &a : c->args) {
			if (a.byval) { uint64_t src = conc(V(a.op), 64); uint64_t o = allocate(a.byval, OK_STACK); nf.allocas.push_back(o >> OBJ_SHIFT); copyMem(o, src, a.byval); args.push_back(cv(o)); }
			else for (unsigned k = 0; k < a.nslots; k++) args.push_back(V(Decoder::at(a.op, k)));
		}
		sp->regs.resize(base + f->nregs, cv(0));
		for (size_t i = 0; i < f->nargs && i < args.size(); i++) sp->regs[base + i] = args[i];
		sp->frames.push_back(std::move(nf)); f->hits++;
		load();
	}
	void setRet(const Call &c, Val v) { if (c.dst >= 0 && c.nret) R[c.dst] = v; }
	void after(const Call &c) { if (c.edgeN >= 0) takeEdge(c.edgeN); else pc++; }

	// exceptions ---------------------------------------------------
	static std::map<uint64_t, uint32_t> &tiIdx() { static std::map<uint64_t, uint32_t> m; return m; }
	static uint32_t typeIdx(uint64_t ti) { if (!ti) return 1; auto &m = tiIdx(); auto it = m.find(ti); if (it != m.end()) return it->second; uint32_t v = m.size() + 2; m[ti] = v; return v; }
	static const Constant *strip(const Constant *c) { return c ? cast<Constant>(c->stripPointerCasts()) : nullptr; }
	static bool derives(uint64_t ti, uint64_t base, int depth = 0) {
		if (ti == base) return true;
		if (depth > 20) return false;
		auto it = gvarAt.find(ti); if (it == gvarAt.end()) return false;
		const GlobalVariable *g = it->second; auto bt = gvarAt.find(base);
		if (bt != gvarAt.end() && bt->second->getName() == g->getName()) return true;
		if (!g->hasInitializer()) return false;
		auto *cs = dyn_cast<ConstantStruct>(g->getInitializer());
		if (!cs || cs->getNumOperands() < 3) return false;
		string vt; if (auto *ce = dyn_cast<Constant>(cs->getOperand(0))) { const Value *v = ce->stripInBoundsOffsets(); if (auto *vg = dyn_cast<GlobalVariable>(v)) vt = vg->getName().str(); }
		if (vt.find("__si_class_type_info") != string::npos) return derives(constScalar(cs->getOperand(2)), base, depth + 1);
		if (vt.find("__vmi_class_type_info") != string::npos) for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) if (derives(constScalar(cs->getOperand(i)), base, depth + 1)) return true;
		return false;
	}
	// >0: selector of the matching clause, 0: cleanup only, -1: nothing
	int matchPad(const LPad &l, uint64_t ti) {
		for (auto &c : l.clauses) { if (c.isFilter) continue; if (!c.ti || derives(ti, c.ti)) return typeIdx(c.ti); }
		return l.cleanup ? 0 : -1;
	}
	// Unwinds from the current frames for exception object exc.
	void unwind(uint64_t exc, bool search) {
		State &s = *sp; sync(); uint64_t ti = s.exc[exc].ti;
		if (search) {
			bool found = false;
			for (size_t i = s.frames.size(); i-- > 0 && !found;) { Frame &f = s.frames[i]; DI &d = f.f->code[f.pc]; if (d.op == O_INVOKE) { Call &c = f.f->calls[d.aux]; if (matchPad(f.f->lpads[c.lpad], ti) > 0) found = true; } }
			if (!found) { terminateHook("uncaught exception"); return; }
		}
		for (;;) {
			if (s.frames.empty()) throw Unsupported{"unwound past the entry"};
			Frame &f = s.frames.back(); DI &d = f.f->code[f.pc];
			if (d.op == O_INVOKE) {
				Call &c = f.f->calls[d.aux]; LPad &l = f.f->lpads[c.lpad]; int m = matchPad(l, ti);
				if (m >= 0) { load(); R[l.dst] = cv(exc); R[l.dst + 1] = cv(m); takeEdge(c.edgeU); return; }
			}
			popFrame();
		}
	}
	void terminateHook(const char *why) {
		State &s = *sp;
		if (!anyHookTerminate || s.terminating) fail(s, why);
		s.terminating = true; Func *h = funcByName["verif_on_terminate"];
		enter(h, nullptr);
	}
	// builtin calls; returns true when control was transferred already
	bool builtin(const Call &c);
	void step();
	void run(uint64_t budget);
};

static string cstr(Exec &x, uint64_t a) { string r; for (int i = 0; i < 300; i++) { Val v = x.loadC(a + i, 8); if (v.e || !v.c) break; r += (char)v.c; } return r; }
static const char *intern(const string &s) { static std::set<string> t; return t.insert(s).first->c_str(); }

bool Exec::builtin(const Call &c) {
	State &s = *sp;
	auto A = [&](unsigned i) -> const Val & { return V(c.args[i].op); };
	auto C = [&](unsigned i) { return conc(A(i), c.args[i].w); };
	switch (c.bi) {
	case B_NOP0: setRet(c, cv(0)); break;
	case B_EXPECT: setRet(c, A(0)); break;
	case B_ISCONST: setRet(c, cv(0)); break;
	case B_OBJSIZE: setRet(c, cv(~0ULL & maskOf(c.wret))); break;
	case B_HEAPOPS: setRet(c, cv(s.heapOps)); break;
	case B_MALLOC: { s.heapOps++; uint64_t n = C(0); setRet(c, cv(allocate(n, OK_HEAP))); break; }
	case B_CALLOC: { s.heapOps++; uint64_t n = C(0), m = C(1); setRet(c, cv(allocate(n * m, OK_HEAP, 0))); break; }
	case B_REALLOC: { s.heapOps++; uint64_t p = C(0), n = C(1); uint64_t q = allocate(n, OK_HEAP); if (p) { Obj *o = s.mem.get(p >> OBJ_SHIFT); if (!o) memErr("realloc", p, n); copyMem(q, p, std::min(n, o->size)); release(p, OK_HEAP); } setRet(c, cv(q)); break; }
	case B_NEW: { s.heapOps++; uint64_t n = C(0); setRet(c, cv(allocate(n, OK_NEW))); break; }
	case B_NEWARR: { s.heapOps++; uint64_t n = C(0); setRet(c, cv(allocate(n, OK_NEWARR))); break; }
	case B_FREE: s.heapOps++; release(C(0), OK_HEAP); break;
	case B_DEL: s.heapOps++; release(C(0), OK_NEW); break;
	case B_DELARR: s.heapOps++; release(C(0), OK_NEWARR); break;
	case B_MEMCPY: case B_MEMMOVE: { uint64_t d = C(0), p = C(1), n = C(2); copyMem(d, p, n); setRet(c, cv(d)); break; }
	case B_MEMSET: {
		uint64_t d = C(0), n = C(2); Val v = A(1); if (n) { uint64_t off; Obj *o = wr(d, n, off); if (v.e) { EP b = mkExtract(v.e, 0, 8); for (uint64_t i = 0; i < n; i++) o->setByte(off + i, b); } else { o->clearSym(off, n); memset(o->bytes + off, (int)v.c, n); } }
		setRet(c, cv(d)); break; }
	case B_MEMCMP: {
		uint64_t a = C(0), b = C(1), n = C(2); uint64_t ao, bo; Val r = cv(0);
		if (n) {
			Obj *x = rd(a, n, ao), *y = rd(b, n, bo);
			if (!x->anySym(ao, n) && !y->anySym(bo, n)) { int k = memcmp(x->bytes + ao, y->bytes + bo, n); r = cv((uint64_t)(k < 0 ? -1 : k > 0) & 0xffffffffULL); }
			else {
				EP e = mkc(0, 32);
				for (uint64_t i = n; i-- > 0;) { EP p = x->byteAt(ao + i), q = y->byteAt(bo + i); if (p == q) continue; EP eq = mkEq(p, q); EP lt = mkBin(K_ULT, p, q); e = mkIte(eq, e, mkIte(lt, mkc(0xffffffffu, 32), mkc(1, 32))); }
				r = mkv(e);
			}
		}
		setRet(c, r); break; }
	case B_MEMEQ: { // sym_equal(a, b, n) -> 1-bit result as int, no forking
		uint64_t a = C(0), b = C(1), n = C(2), ao, bo; EP e = T();
		if (n) { Obj *x = rd(a, n, ao), *y = rd(b, n, bo);
			if (!x->anySym(ao, n) && !y->anySym(bo, n)) e = memcmp(x->bytes + ao, y->bytes + bo, n) ? F() : T();
			else for (uint64_t i = 0; i < n; i++) e = mkAnd(mkEq(x->byteAt(ao + i), y->byteAt(bo + i)), e); }
		setRet(c, mkv(mkZext(e, c.wret))); break; }
	case B_READABLE: { uint64_t a = C(0), n = C(1), off; rd(a, n, off); break; }
	case B_ALLOCEXC: { uint64_t a = allocate(C(0), OK_EXC); s.exc[a] = ExcInfo{0, 0, 0}; setRet(c, cv(a)); break; }
	case B_FREEEXC: { uint64_t a = C(0); s.exc.erase(a); release(a, OK_EXC); break; }
	case B_THROW: { uint64_t a = C(0); s.exc[a].ti = C(1); s.exc[a].dtor = C(2); unwind(a, true); return true; }
	case B_BEGINCATCH: { uint64_t a = C(0); s.exc[a].handlers++; s.caught.push_back(a); setRet(c, cv(a)); break; }
	case B_GETEXCPTR: setRet(c, cv(C(0))); break;
	case B_ENDCATCH: {
		if (s.caught.empty()) throw Unsupported{"__cxa_end_catch"};
		uint64_t a = s.caught.back(); s.caught.pop_back(); ExcInfo &x = s.exc[a];
		if (x.handlers < 0) { x.handlers++; } // rethrown: stays alive
		else if (--x.handlers == 0) { s.exc.erase(a); s.mem.remove(a >> OBJ_SHIFT); }
		break; }
	case B_RETHROW: {
		if (s.caught.empty()) { terminateHook("rethrow without an exception"); return true; }
		uint64_t a = s.caught.back(); s.exc[a].handlers = -s.exc[a].handlers; unwind(a, true); return true; }
	case B_UNCAUGHT: { uint64_t n = 0; for (auto &x : s.exc) if (x.second.ti && x.second.handlers <= 0) n++; setRet(c, cv(c.name[5] == '8' ? n != 0 : n)); break; }
	case B_TYPEIDFOR: setRet(c, cv(typeIdx(C(0)))); break;
	case B_GUARDACQ: { uint64_t g = C(0); Val v = loadC(g, 8); setRet(c, cv(v.c ? 0 : 1)); break; }
	case B_GUARDREL: { uint64_t g = C(0); storeC(g, cv(1), 8); break; }
	case B_MINMAX: {
		unsigned w = c.wret; bool sg = c.name[5] == 's', mx = c.name.compare(6, 3, "max") == 0; EP a = E(c.args[0].op, w), b = E(c.args[1].op, w);
		EP lt = mkBin(sg ? K_SLT : K_ULT, a, b); setRet(c, mkv(mx ? mkIte(lt, b, a) : mkIte(lt, a, b))); break; }
	case B_OVF: {
		unsigned w = c.args[0].w; EP a = E(c.args[0].op, w), b = E(c.args[1].op, w); string n = c.name.substr(5, 4); EP r, o;
		if (n == "uadd") { r = mkBin(K_ADD, a, b); o = mkBin(K_ULT, r, a); }
		else if (n == "usub") { r = mkBin(K_SUB, a, b); o = mkBin(K_ULT, a, b); }
		else if (n == "sadd") { r = mkBin(K_ADD, a, b); EP z = mkc(0, w); EP an = mkBin(K_SLT, a, z), bn = mkBin(K_SLT, b, z), rn = mkBin(K_SLT, r, z); o = mkAnd(mkEq(an, bn), mkNot(mkEq(an, rn))); }
		else if (n == "ssub") { r = mkBin(K_SUB, a, b); EP z = mkc(0, w); EP an = mkBin(K_SLT, a, z), bn = mkBin(K_SLT, b, z), rn = mkBin(K_SLT, r, z); o = mkAnd(mkNot(mkEq(an, bn)), mkNot(mkEq(an, rn))); }
		else { // multiplication
			r = mkBin(K_MUL, a, b);
			if (isC(a) && isC(b)) { __int128 x; if (n == "umul") { unsigned __int128 u = (unsigned __int128)a->val * b->val; o = mkc(u > maskOf(w), 1); } else { x = (__int128)sx(a->val, w) * sx(b->val, w); o = mkc(x != (__int128)sx((uint64_t)x & maskOf(w), w), 1); } }
			else if (w <= 32) { if (n == "umul") { EP p = mkBin(K_MUL, mkZext(a, 64), mkZext(b, 64)); o = mkNot(mkEq(mkExtract(p, w, 64 - w), mkc(0, 64 - w))); } else { EP p = mkBin(K_MUL, mkSext(a, 64), mkSext(b, 64)); o = mkNot(mkEq(p, mkSext(mkExtract(p, 0, w), 64))); } }
			else { if (isC(a)) std::swap(a, b); if (!isC(b)) throw Unsupported{"symbolic 64-bit multiplication overflow"};
				if (n == "umul") o = b->val ? mkBin(K_ULT, mkc(maskOf(w) / b->val, w), a) : F();
				else { int64_t k = sx(b->val, w), mx = (int64_t)(maskOf(w) >> 1), mn = -mx - 1; if (k > 0) o = mkOr(mkBin(K_SLT, mkc(mx / k, w), a), mkBin(K_SLT, a, mkc(mn / k, w))); else if (k == 0) o = F(); else throw Unsupported{"negative multiplication overflow"}; } }
		}
		R[c.dst] = mkv(r); R[c.dst + 1] = mkv(o); break; }
	case B_ABS: { unsigned w = c.wret; EP a = E(c.args[0].op, w); setRet(c, mkv(mkIte(mkBin(K_SLT, a, mkc(0, w)), mkBin(K_SUB, mkc(0, w), a), a))); break; }
	case B_CTLZ: case B_CTTZ: case B_CTPOP: {
		unsigned w = c.wret; EP a = E(c.args[0].op, w); EP r;
		if (isC(a)) { uint64_t v = a->val; unsigned n = 0; if (c.bi == B_CTPOP) n = __builtin_popcountll(v); else if (!v) n = w; else if (c.bi == B_CTTZ) n = __builtin_ctzll(v); else n = __builtin_clzll(v) - (64 - w); r = mkc(n, w); }
		else if (c.bi == B_CTPOP) { r = mkc(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K_ADD, r, mkZext(mkExtract(a, i, 1), w)); }
		else { r = mkc(w, w); if (c.bi == B_CTTZ) for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(a, i, 1), mkc(i, w), r); else for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a, i, 1), mkc(w - 1 - i, w), r); }
		setRet(c, mkv(r)); break; }
	case B_BSWAP: { unsigned w = c.wret; EP a = E(c.args[0].op, w); EP r = mkExtract(a, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(a, i, 8)); setRet(c, mkv(r)); break; }
	case B_FSH: {
		unsigned w = c.wret; EP a = E(c.args[0].op, w), b = E(c.args[1].op, w); uint64_t k = C(2) % w; bool l = c.name.compare(0, 9, "llvm.fshl") == 0; EP r;
		if (l) r = k ? mkBin(K_OR, mkBin(K_SHL, a, mkc(k, w)), mkBin(K_LSHR, b, mkc(w - k, w))) : a; else r = k ? mkBin(K_OR, mkBin(K_LSHR, b, mkc(k, w)), mkBin(K_SHL, a, mkc(w - k, w))) : b;
		setRet(c, mkv(r)); break; }
	case B_SATOP: {
		unsigned w = c.wret; EP a = E(c.args[0].op, w), b = E(c.args[1].op, w); string n = c.name.substr(5, 4); EP r;
		if (n == "uadd") { EP q = mkBin(K_ADD, a, b); r = mkIte(mkBin(K_ULT, q, a), mkc(~0ULL, w), q); } else if (n == "usub") r = mkIte(mkBin(K_ULT, a, b), mkc(0, w), mkBin(K_SUB, a, b)); else throw Unsupported{c.name};
		setRet(c, mkv(r)); break; }
	// --- harness interface
	case B_SYMU: { string nm = cstr(*this, C(0)); unsigned w = c.name == "sym_bool" ? 1 : atoi(c.name.c_str() + 5); EP e = newSym(s, w, intern(nm)); setRet(c, mkv(mkZext(e, c.wret))); break; }
	case B_BYTES: { uint64_t p = C(0), n = C(1); string nm = cstr(*this, C(2)); uint64_t off; Obj *o = wr(p, n, off); for (uint64_t i = 0; i < n; i++) o->setByte(off + i, newSym(s, 8, intern(nm))); break; }
	case B_CHOOSE: {
		uint64_t n = C(0); string nm = cstr(*this, C(1)); if (n == 0) throw Unsupported{"sym_choose(0)"}; if (n > 256) throw Unsupported{"sym_choose too large"};
		EP e = newSym(s, 8, intern(nm)); uint32_t id = e->val;
		// the chosen value: a fresh symbol constrained to [0, n), split into its cases here
		auto fix = [&](State &t, uint64_t v) { t.model[id] = v; t.dom[id].reset(); t.dom[id].set(v); t.pc.push_back(mkEq(e, mkc(v, 8))); };
		pc = pc; sync();
		for (uint64_t v = n; v-- > 1;) {
			State *t = new State(s); fix(*t, v); Exec x; x.sp = t; x.load(); x.setRet(c, cv(v)); x.after(c); x.sync(); pushFork(t);
		}
		fix(s, 0); setRet(c, cv(0)); break; }
	case B_ASSUME: {
		EP e = E(c.args[0].op, c.args[0].w); EP b = mkNot(mkEq(e, mkc(0, e->w)));
		Delta d; SatRes r = feasible(s, b, d);
		if (r == R_UNSAT) endPath(false);
		if (r == R_UNKNOWN) { st.incomplete++; problems.insert("solver gave no answer on an assumption"); endPath(false); }
		applyDelta(s, d); addConstraint(s, b); break; }
	case B_ASSERT: {
		EP e = E(c.args[0].op, c.args[0].w); EP b = mkNot(mkEq(e, mkc(0, e->w))); string msg = cstr(*this, C(1)); st.asserts++;
		if (isC(b)) { assertIds[msg] += 0; if (!b->val) { sync(); fail(s, msg); } break; }
		st.assertsSym++; assertIds[msg]++;
		Delta d; EP nb = mkNot(b); SatRes r = query(s, nb, d, true);
		if (r == R_SAT) { sync(); violation(s, msg, &d); Delta d2; if (feasible(s, b, d2) != R_SAT) throw PathEnd(); applyDelta(s, d2); addConstraint(s, b); }
		else if (r == R_UNKNOWN) { st.incomplete++; problems.insert("solver gave no answer on assertion: " + msg); }
		if (getenv("K8V_SLOW")) fprintf(stderr, "assert %s: %s\n", msg.c_str(), exprStr(b, 14).c_str());
		break; }
	case B_FAIL: { sync(); string msg = c.args.empty() ? "trap" : cstr(*this, C(0)); fail(s, msg); }
	case B_END: witness(s); endPath(true);
	case B_COVER: if (covers[cstr(*this, C(0))]++ == 0) s.wit = true; break;
	case B_CONCRETE: { uint64_t v = C(0); setRet(c, cv(v)); break; }
	case B_ISSYM: setRet(c, cv(A(0).e ? 1 : 0)); break;
	case B_PARAM: { string n = cstr(*this, C(0)); uint64_t def = C(1); auto &p = configs[s.cfg].params; auto it = p.find(n); setRet(c, cv((it == p.end() ? def : strtoull(it->second.c_str(), nullptr, 0)) & maskOf(c.wret))); break; }
	case B_PRINT: if (verbose) { Val v = A(1); fprintf(stderr, "[%d] %s %s\n", s.cfg, cstr(*this, C(0)).c_str(), v.e ? exprStr(v.e, 20).c_str() : std::to_string((int64_t)v.c).c_str()); } break;
	// a second line of execution that runs only when switched to; its function must not return
	case B_SPAWN: {
		uint64_t a = C(0); uint32_t id = (uint32_t)(a >> OBJ_SHIFT); if (id <= FUNC_ID0 || id - FUNC_ID0 >= funcs.size() || !s.altFrames.empty()) throw Unsupported{"sym_spawn"};
		Func *f = resolve(funcs[id - FUNC_ID0]); ensure(f); Frame nf; nf.f = f; nf.pc = 0; nf.regBase = 0; s.altRegs.assign(f->nregs, cv(0)); s.altFrames.push_back(std::move(nf)); f->hits++; break; }
	case B_SWITCH: if (s.altFrames.empty()) throw Unsupported{"sym_switch"}; after(c); sync(); std::swap(s.frames, s.altFrames); std::swap(s.regs, s.altRegs); std::swap(s.caught, s.altCaught); std::swap(s.terminating, s.altTerminating); load(); return true;
	default: throw Unsupported{"external function " + c.name};
	}
	after(c);
	return true;
}

static uint64_t fbits(double d, unsigned w) { uint64_t r = 0; if (w == 32) { float f = (float)d; memcpy(&r, &f, 4); } else memcpy(&r, &d, 8); return r; }
static double fval(uint64_t v, unsigned w) { if (w == 32) { float f; memcpy(&f, &v, 4); return f; } double d; memcpy(&d, &v, 8); return d; }

static uint64_t *stepCounter;
void Exec::run(uint64_t budget) {
	State &s = *sp; load();
	uint64_t n = 0;
	for (;;) {
		if ((++n & 0xffff) == 0) { checkGrace(); if (now() - startTime > maxTime || sh->stop) { sync(); s.steps += n; st.steps += n; throw std::pair<int, int>(1, 1); } }
		if (n > budget) { sync(); s.steps += n; st.steps += n; fail(s, "does not terminate within the step bound (hang)"); }
		*stepCounter = n;
		const DI &d = fn->code[pc];
		lineHit[d.line] = 1;
		switch (d.op) {
		case O_ADD: case O_SUB: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR: {
			const Val &a = V(d.a), &b = V(d.b);
			if (!a.e && !b.e) {
				uint64_t m = maskOf(d.w), r;
				switch (d.op) { case O_ADD: r = (a.c + b.c) & m; break; case O_SUB: r = (a.c - b.c) & m; break; case O_MUL: r = (a.c * b.c) & m; break; case O_AND: r = a.c & b.c; break; case O_OR: r = a.c | b.c; break; case O_XOR: r = a.c ^ b.c; break;
				case O_SHL: r = b.c >= d.w ? 0 : (a.c << b.c) & m; break; case O_LSHR: r = b.c >= d.w ? 0 : a.c >> b.c; break; default: r = foldBin(K_ASHR, a.c, b.c, d.w); }
				R[d.dst] = cv(r);
			} else { static const Kind km[] = { K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR }; R[d.dst] = mkv(mkBin(km[d.op], E(d.a, d.w), E(d.b, d.w))); }
			pc++; break; }
		case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: {
			static const Kind km[] = { K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM };
			EP a = E(d.a, d.w), b = E(d.b, d.w);
			if (decide(mkEq(b, mkc(0, d.w)))) { sync(); fail(s, "division by zero"); }
			R[d.dst] = mkv(mkBin(km[d.op], a, b)); pc++; break; }
		case O_ICMP: {
			const Val &a = V(d.a), &b = V(d.b);
			if (!a.e && !b.e) {
				uint64_t x = a.c, y = b.c; int64_t p = sx(x, d.w), q = sx(y, d.w); bool r;
				switch (d.sub) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = p > q; break; case CmpInst::ICMP_SGE: r = p >= q; break; case CmpInst::ICMP_SLT: r = p < q; break; default: r = p <= q; }
				R[d.dst] = cv(r);
			} else {
				EP x = E(d.a, d.w), y = E(d.b, d.w), r;
				switch (d.sub) { case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break; case CmpInst::ICMP_UGT: r = mkBin(K_ULT, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(K_ULE, y, x); break; case CmpInst::ICMP_ULT: r = mkBin(K_ULT, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(K_ULE, x, y); break; case CmpInst::ICMP_SGT: r = mkBin(K_SLT, y, x); break; case CmpInst::ICMP_SGE: r = mkBin(K_SLE, y, x); break; case CmpInst::ICMP_SLT: r = mkBin(K_SLT, x, y); break; default: r = mkBin(K_SLE, x, y); }
				R[d.dst] = mkv(r);
			}
			pc++; break; }
		case O_LOAD: {
			const Val &a = V(d.a);
			if (d.w) { Val v = a.e ? loadSym(a.e, d.w) : loadC(a.c, d.w); R[d.dst] = v; }
			else { uint64_t ad = conc(a, 64); auto &m = fn->mtys[d.aux]; for (size_t k = 0; k < m.parts.size(); k++) R[d.dst + k] = loadC(ad + m.parts[k].first, m.parts[k].second); }
			pc++; break; }
		case O_STORE: {
			uint64_t ad = conc(V(d.a), 64);
			if (d.w) storeC(ad, V(d.b), d.w);
			else { auto &m = fn->mtys[d.aux]; for (size_t k = 0; k < m.parts.size(); k++) storeC(ad + m.parts[k].first, V(Decoder::at(d.b, k)), m.parts[k].second); }
			pc++; break; }
		case O_GEP: {
			const Gep &g = fn->geps[d.aux]; const Val &b = V(d.a);
			bool sym = b.e; for (auto &x : g.ix) sym |= V(x.op).e != nullptr;
			if (!sym) { uint64_t r = b.c + g.off; for (auto &x : g.ix) r += (uint64_t)sx(V(x.op).c, x.w) * x.scale; R[d.dst] = cv(r); }
			else { EP r = mkBin(K_ADD, E(d.a, 64), mkc(g.off, 64)); for (auto &x : g.ix) { EP i = mkSext(E(x.op, x.w), 64); if ((x.scale & (x.scale - 1)) == 0) i = mkBin(K_SHL, i, mkc(__builtin_ctzll(x.scale), 64)); else i = mkBin(K_MUL, i, mkc(x.scale, 64)); r = mkBin(K_ADD, r, i); } R[d.dst] = mkv(r); }
			pc++; break; }
		case O_ALLOCA: { uint64_t cnt = conc(V(d.a), 64); uint64_t a = allocate(fn->allocas[d.aux].first * cnt, OK_STACK); s.frames.back().allocas.push_back(a >> OBJ_SHIFT); R[d.dst] = cv(a); pc++; break; }
		case O_BR: takeEdge(d.b); break;
		case O_CBR: { const Val &c = V(d.a); bool t = c.e ? decide(c.e) : c.c; takeEdge(t ? d.b : d.c); break; }
		case O_SWITCH: {
			const Val &v = V(d.a); const SwitchT &t = fn->switches[d.aux]; int e = t.def;
			if (!v.e) { for (auto &c : t.cases) if (c.first == v.c) { e = c.second; break; } }
			else { // pick the model's side; other feasible targets are forked and re-execute
				uint64_t mv = evalM(s, v.e); for (auto &c : t.cases) if (c.first == mv) { e = c.second; break; }
				EP in = F(); if (e == t.def) { in = T(); for (auto &c : t.cases) in = mkAnd(in, mkNot(mkEq(v.e, mkc(c.first, d.w)))); } else { EP x = F(); for (auto &c : t.cases) if (fn->edges[c.second].target == fn->edges[e].target && c.second == e) x = mkOr(x, mkEq(v.e, mkc(c.first, d.w))); in = x; }
				if (!decide(in)) { sync(); throw Unsupported{"switch"}; }
			}
			takeEdge(e); break; }
		case O_RET: {
			uint8_t k = d.w2; Val tmp[64]; for (unsigned i = 0; i < k && i < 64; i++) tmp[i] = V(Decoder::at(d.a, i));
			popFrame();
			if (s.frames.empty()) { st.steps += n; endPath(true); }
			load(); { const DI &cd = fn->code[pc]; const Call &c = fn->calls[cd.aux]; if (c.dst >= 0) for (unsigned i = 0; i < c.nret && i < k; i++) R[c.dst + i] = tmp[i]; after(c); }
			break; }
		case O_CALL: case O_INVOKE: {
			const Call &c = fn->calls[d.aux];
			if (c.bi == B_UNSUP) { throw Unsupported{"external function or instruction: " + c.name}; }
			if (c.bi != B_NONE) { builtin(c); break; }
			Func *t = c.fn;
			if (!t) {
				uint64_t a = conc(V(c.target), 64); uint32_t id = (uint32_t)(a >> OBJ_SHIFT);
				if (id < FUNC_ID0 || id - FUNC_ID0 >= funcs.size() || id == FUNC_ID0) { sync(); fail(s, "call through an invalid function pointer"); }
				t = resolve(funcs[id - FUNC_ID0]);
				if (t->isDecl) { if (t->bi != B_NONE) { Call c2 = c; c2.bi = t->bi; c2.name = t->name; builtin(c2); break; } throw Unsupported{"external function " + t->name}; }
			}
			enter(t, &c); break; }
		case O_RESUME: { uint64_t exc = conc(V(d.a), 64); popFrame(); if (s.frames.empty()) throw Unsupported{"resume past entry"}; load(); unwind(exc, false); break; }
		case O_UNREACH: sync(); fail(s, "reached code marked unreachable");
		case O_ZEXT: { const Val &a = V(d.a); R[d.dst] = a.e ? mkv(mkZext(a.e, d.w)) : a; pc++; break; }
		case O_SEXT: { const Val &a = V(d.a); R[d.dst] = a.e ? mkv(mkSext(a.e, d.w)) : cv((uint64_t)sx(a.c, d.w2) & maskOf(d.w)); pc++; break; }
		case O_TRNC: { const Val &a = V(d.a); R[d.dst] = a.e ? mkv(mkExtract(a.e, 0, d.w)) : cv(a.c & maskOf(d.w)); pc++; break; }
		case O_COPY: if (d.w2 == 1) R[d.dst] = V(d.a); else { Val t[32]; for (unsigned k = 0; k < d.w2; k++) t[k] = V(Decoder::at(d.a, k)); for (unsigned k = 0; k < d.w2; k++) R[d.dst + k] = t[k]; } pc++; break;
		case O_SELECT: {
			const Val &c = V(d.a);
			if (!c.e) { int32_t o = c.c ? d.b : d.c; for (unsigned k = 0; k < d.w2; k++) R[d.dst + k] = V(Decoder::at(o, k)); }
			else if (d.sub || d.w2 != 1) { bool t = decide(c.e); int32_t o = t ? d.b : d.c; for (unsigned k = 0; k < d.w2; k++) R[d.dst + k] = V(Decoder::at(o, k)); }
			else R[d.dst] = mkv(mkIte(c.e, E(d.b, d.w), E(d.c, d.w)));
			pc++; break; }
		case O_INSERT: { Val t[32]; for (unsigned k = 0; k < d.w; k++) t[k] = V(Decoder::at(d.a, k)); for (unsigned k = 0; k < d.w2; k++) t[d.c + k] = V(Decoder::at(d.b, k)); for (unsigned k = 0; k < d.w; k++) R[d.dst + k] = t[k]; pc++; break; }
		case O_FBIN: { if (V(d.a).e || V(d.b).e) throw Unsupported{"symbolic floating point"}; double a = fval(V(d.a).c, d.w), b = fval(V(d.b).c, d.w), r = 0; switch (d.sub) { case Instruction::FAdd: r = a + b; break; case Instruction::FSub: r = a - b; break; case Instruction::FMul: r = a * b; break; case Instruction::FDiv: r = a / b; break; default: r = __builtin_fmod(a, b); } R[d.dst] = cv(fbits(r, d.w)); pc++; break; }
		case O_FCMP: { if (V(d.a).e || V(d.b).e) throw Unsupported{"symbolic floating point"}; double a = fval(V(d.a).c, d.w), b = fval(V(d.b).c, d.w); bool un = a != a || b != b, r; unsigned p = d.sub; r = (un ? (p & 8) != 0 : ((p & 1) && a == b) || ((p & 2) && a > b) || ((p & 4) && a < b)); R[d.dst] = cv(r); pc++; break; }
		case O_FCAST: {
			if (V(d.a).e) throw Unsupported{"symbolic floating point"}; uint64_t a = V(d.a).c, r;
			switch (d.sub) { case Instruction::FPToSI: r = (uint64_t)(int64_t)fval(a, d.w2) & maskOf(d.w); break; case Instruction::FPToUI: r = (uint64_t)fval(a, d.w2) & maskOf(d.w); break; case Instruction::SIToFP: r = fbits((double)sx(a, d.w2), d.w); break; case Instruction::UIToFP: r = fbits((double)a, d.w); break; default: r = fbits(fval(a, d.w2), d.w); }
			R[d.dst] = cv(r); pc++; break; }
		case O_RMW: {
			uint64_t ad = conc(V(d.a), 64); Val old = loadC(ad, d.w); EP o = old.e ? old.e : mkc(old.c, d.w), b = E(d.b, d.w), r;
			switch (d.sub) { case AtomicRMWInst::Xchg: r = b; break; case AtomicRMWInst::Add: r = mkBin(K_ADD, o, b); break; case AtomicRMWInst::Sub: r = mkBin(K_SUB, o, b); break; case AtomicRMWInst::And: r = mkBin(K_AND, o, b); break; case AtomicRMWInst::Or: r = mkBin(K_OR, o, b); break; case AtomicRMWInst::Xor: r = mkBin(K_XOR, o, b); break; default: throw Unsupported{"atomicrmw"}; }
			storeC(ad, mkv(r), d.w); R[d.dst] = old; pc++; break; }
		case O_CMPXCHG: { uint64_t ad = conc(V(d.a), 64); Val old = loadC(ad, d.w); bool eq = decide(mkEq(old.e ? old.e : mkc(old.c, d.w), E(d.b, d.w))); if (eq) storeC(ad, V(d.c), d.w); R[d.dst] = old; R[d.dst + 1] = cv(eq); pc++; break; }
		default: throw Unsupported{"opcode"};
		}
	}
}

// ------------------------------------------------------------------ driver
static void writeStats(bool complete) {
	string o = "{\"type\":\"stats\",\"complete\":" + string(complete ? "true" : "false");
	auto num = [&](const char *k, double v) { char b[64]; snprintf(b, sizeof b, ",\"%s\":%.6g", k, v); o += b; };
	auto in = [&](const char *k, long v) { o += ",\"" + string(k) + "\":" + std::to_string(v); };
	in("paths", st.ended); in("pruned", st.pruned); in("forks", st.forks); in("steps", (long)st.steps); in("queries", st.queries); in("sat", st.sat); in("unsat", st.unsat); in("unknown", st.unknown); in("cache_hits", st.cacheHits); in("dom_decided", st.domDecided); in("model_hits", st.modelHits);
	in("witnesses", st.witnesses); in("witnesses_z3_sat", st.witnessesZ3); in("table_decisions_certified_by_z3", st.certified); in("asserts", st.asserts); in("asserts_symbolic", st.assertsSym); in("assert_queries", st.assertQueries); in("assert_unsat", st.assertUnsat); in("hard_queries", st.hard); in("decided_over_integers", st.asIntegers); in("incomplete", st.incomplete); num("solver_time", st.solverTime); num("max_query", st.maxQuery);
	o += ",\"covers\":{"; bool f = true; for (auto &c : covers) { o += (f ? "" : ",") + jstr(c.first) + ":" + std::to_string(c.second); f = false; }
	o += "},\"assertions\":{"; f = true; for (auto &c : assertIds) { o += (f ? "" : ",") + jstr(c.first) + ":" + std::to_string(c.second); f = false; }
	o += "},\"unsupported\":["; f = true; for (auto &u : unsupported) { o += (f ? "" : ",") + jstr(u); f = false; }
	o += "],\"problems\":["; f = true; for (auto &u : problems) { o += (f ? "" : ",") + jstr(u); f = false; }
	o += "],\"lines\":{"; f = true; std::map<string, vector<unsigned> > m;
	for (size_t i = 1; i < lineTab.size(); i++) if (lineHit[i] && lineTab[i].file.compare(0, srcPrefix.size(), srcPrefix) == 0) m[lineTab[i].file].push_back(lineTab[i].line);
	for (auto &x : m) { o += (f ? "" : ",") + jstr(x.first) + ":["; f = false; bool g = true; for (auto l : x.second) { o += (g ? "" : ",") + std::to_string(l); g = false; } o += "]"; }
	o += "},\"functions\":["; f = true; for (auto *fn : funcs) if (fn && fn->hits && fn->inRepo) { o += (f ? "" : ",") + jstr(fn->name); f = false; }
	o += "]}\n"; appendOut(o);
}
static void resetStats() { st = Stats(); covers.clear(); assertIds.clear(); unsupported.clear(); problems.clear(); std::fill(lineHit.begin(), lineHit.end(), 0); for (auto *f : funcs) if (f) f->hits = 0; }

static void maybeShare() {
	if (work.size() < 2) return;
	int a = sh->active.load();
	while (a < (int)maxProcs && work.size() >= 2) {
		if (!sh->active.compare_exchange_strong(a, a + 1)) continue;
		fflush(stdout); fflush(stderr);
		pid_t p = fork();
		if (p < 0) { sh->active--; return; }
		if (p == 0) { // child keeps every other pending state
			kids.clear(); resetStats();
			std::deque<State *> w; size_t i = 0; for (auto *s : work) { if (i++ % 2 == 0) w.push_back(s); }
			work.swap(w); return;
		}
		kids.push_back(p);
		std::deque<State *> w; size_t i = 0; for (auto *s : work) { if (i++ % 2 == 1) w.push_back(s); else delete s; }
		work.swap(w);
		a = sh->active.load();
	}
}

int main(int argc, char **argv) {
	const char *file = nullptr;
	for (int i = 1; i < argc; i++) {
		string a = argv[i];
		if (a == "--run") { // entry:label:k=v,k=v
			string r = argv[++i]; Config c; size_t p = r.find(':'); c.entry = r.substr(0, p); if (p != string::npos) { string k = r.substr(p + 1); c.label = k; size_t q = 0; while (q < k.size()) { size_t e = k.find(',', q); if (e == string::npos) e = k.size(); string kv = k.substr(q, e - q); size_t eq = kv.find('='); if (eq != string::npos) c.params[kv.substr(0, eq)] = kv.substr(eq + 1); q = e + 1; } }
			configs.push_back(c);
		}
		else if (a == "--out") outFile = argv[++i];
		else if (a == "--jobs") maxProcs = atoi(argv[++i]);
		else if (a == "--max-time") maxTime = atof(argv[++i]);
		else if (a == "--max-steps") maxSteps = strtoull(argv[++i], nullptr, 0);
		else if (a == "--z3-timeout") z3timeout = atoi(argv[++i]);
		else if (a == "--src-prefix") srcPrefix = argv[++i];
		else if (a == "--grace") grace = atof(argv[++i]);
		else if (a == "--keep-going") keepGoing = true;
		else if (a == "-v") verbose = true;
		else file = argv[i];
	}
	if (!file || outFile.empty() || configs.empty()) { fprintf(stderr, "usage: symex FILE.bc --out OUT --run entry[:k=v,...]...\n"); return 3; }
	unlink(outFile.c_str());
	startTime = now();
	lineHit.resize(1024);
	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (sh) Shared(); sh->active = 1; sh->stop = 0;
	stepCounter = new uint64_t(0);
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	Z3_config cfg = Z3_mk_config(); zc = Z3_mk_context(cfg); zs = Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc, zs);
	Z3_params pr = Z3_mk_params(zc); Z3_params_inc_ref(zc, pr); Z3_params_set_uint(zc, pr, Z3_mk_string_symbol(zc, "timeout"), std::min(z3timeout, 700u)); Z3_solver_set_params(zc, zs, pr);
	loadProgram(file);
	// global constructors
	vector<std::pair<uint64_t, Func *> > ctors;
	if (GlobalVariable *g = mod->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer())) for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto *cs = cast<ConstantStruct>(ca->getOperand(i)); ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), funcOf[cast<Function>(cs->getOperand(1)->stripPointerCasts())]}); }
	std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
	// A driver frame calls each constructor, then the entry point.
	for (size_t i = 0; i < configs.size(); i++) {
		auto it = funcByName.find(configs[i].entry);
		if (it == funcByName.end() || it->second->isDecl) { fprintf(stderr, "no entry %s\n", configs[i].entry.c_str()); return 3; }
		Func *drv = new Func; drv->name = "entry"; drv->decoded = true;
		auto addCall = [&](Func *f) { Call c; c.fn = f; c.bi = B_NONE; c.target = 0; c.dst = -1; c.nret = 0; c.wret = 0; c.edgeN = c.edgeU = c.lpad = -1; drv->calls.push_back(c); DI d; memset(&d, 0, sizeof d); d.op = O_CALL; d.aux = drv->calls.size() - 1; drv->code.push_back(d); };
		for (auto &c : ctors) addCall(c.second);
		addCall(it->second);
		DI r; memset(&r, 0, sizeof r); r.op = O_RET; drv->code.push_back(r);
		State *s = new State; s->mem = baseMem; s->cfg = i; Frame f; f.f = drv; f.pc = 0; f.regBase = 0; s->frames.push_back(f); work.push_back(s);
	}
	std::reverse(work.begin(), work.end());
	bool complete = true; double lastShare = 0; pid_t root = getpid();
	while (!work.empty()) {
		if (now() - startTime > maxTime) { complete = false; problems.insert("time bound reached"); st.incomplete++; break; }
		checkGrace(); if (sh->stop) { complete = false; break; }
		if (work.size() >= 2 && sh->active.load() < (int)maxProcs && now() - lastShare > 0.02) { maybeShare(); lastShare = now(); if (work.empty()) break; }
		State *s = work.back(); work.pop_back();
		Exec x; x.sp = s;
		try { x.run(maxSteps); }
		catch (PathEnd &) { st.steps += *stepCounter; st.paths++; }
		catch (Unsupported &u) { x.sync(); string w; if (!s->frames.empty()) w = " at " + where(*s); unsupported.insert(u.what + w); st.incomplete++; }
		catch (std::pair<int, int> &) { complete = false; if (!sh->stop) { problems.insert("time bound reached"); st.incomplete++; } delete s; break; }
		delete s;
	}
	writeStats(complete);
	sh->active--;
	int stt;
	while (waitpid(-1, &stt, 0) > 0 || errno == EINTR) if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) appendOut("{\"type\":\"stats\",\"complete\":false,\"problems\":[\"worker process ended abnormally (" + std::to_string(stt) + ")\"]}\n");
	if (getpid() == root && verbose) fprintf(stderr, "done in %.2fs\n", now() - startTime);
	_exit(0);
}
