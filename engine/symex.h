// Symbolic executor for LLVM IR: program representation, memory and state.
#pragma once
#include "expr.h"
#include <map>
#include <memory>
#include <set>

struct Val { uint64_t c; EP e; };
inline Val cv(uint64_t v) { return Val{v, nullptr}; }

// ---------------------------------------------------------------- memory
static const uint64_t OBJ_SHIFT = 32, OBJ_BASE = 0x1000;
enum ObjKind : uint8_t { OK_GLOBAL, OK_STACK, OK_HEAP, OK_NEW, OK_NEWARR, OK_EXC, OK_FUNC };
struct SB { uint32_t off; EP e; };
struct Obj {
	int ref; uint64_t size; ObjKind kind; bool ro, freed; uint8_t *bytes; std::vector<SB> sym;
	Obj(uint64_t sz, ObjKind k) : ref(1), size(sz), kind(k), ro(false), freed(false), bytes((uint8_t *)malloc(sz ? sz : 1)) {}
	Obj(const Obj &o) : ref(1), size(o.size), kind(o.kind), ro(o.ro), freed(o.freed), bytes((uint8_t *)malloc(o.size ? o.size : 1)), sym(o.sym) { memcpy(bytes, o.bytes, size); }
	~Obj() { free(bytes); }
	size_t lb(uint64_t off) const { size_t lo = 0, hi = sym.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (sym[m].off < off) lo = m + 1; else hi = m; } return lo; }
	EP symAt(uint64_t off) const { if (sym.empty()) return nullptr; size_t i = lb(off); return i < sym.size() && sym[i].off == off ? sym[i].e : nullptr; }
	bool anySym(uint64_t off, uint64_t n) const { if (sym.empty()) return false; size_t i = lb(off); return i < sym.size() && sym[i].off < off + n; }
	void clearSym(uint64_t off, uint64_t n) { if (sym.empty()) return; size_t i = lb(off), j = i; while (j < sym.size() && sym[j].off < off + n) j++; if (j > i) sym.erase(sym.begin() + i, sym.begin() + j); }
	void setSym(uint64_t off, EP e) { size_t i = lb(off); if (i < sym.size() && sym[i].off == off) sym[i].e = e; else sym.insert(sym.begin() + i, SB{(uint32_t)off, e}); }
	EP byteAt(uint64_t off) const { EP e = symAt(off); return e ? e : mkc(bytes[off], 8); }
	void setByte(uint64_t off, EP e) { if (isC(e)) { clearSym(off, 1); bytes[off] = e->val; } else setSym(off, e); }
};
struct Chunk { int ref; int live; Obj *o[64]; Chunk() : ref(1), live(0) { memset(o, 0, sizeof(o)); } };
struct Mem {
	std::vector<Chunk *> top;
	uint32_t next = 1;
	Mem() {}
	Mem(const Mem &m) : top(m.top), next(m.next) { for (auto c : top) if (c) c->ref++; }
	Mem &operator=(const Mem &m) { for (auto c : m.top) if (c) c->ref++; clear(); top = m.top; next = m.next; return *this; }
	~Mem() { clear(); }
	static void unref(Obj *o) { if (o && --o->ref == 0) delete o; }
	static void unrefC(Chunk *c) { if (c && --c->ref == 0) { for (auto o : c->o) unref(o); delete c; } }
	void clear() { for (auto c : top) unrefC(c); top.clear(); }
	Obj *get(uint32_t id) const { uint32_t t = id >> 6; if (t >= top.size() || !top[t]) return nullptr; return top[t]->o[id & 63]; }
	Chunk *chunkW(uint32_t t) {
		if (t >= top.size()) top.resize(t + 1, nullptr);
		Chunk *&c = top[t];
		if (!c) c = new Chunk;
		else if (c->ref > 1) { Chunk *n = new Chunk; n->live = c->live; for (int i = 0; i < 64; i++) if ((n->o[i] = c->o[i])) n->o[i]->ref++; c->ref--; c = n; }
		return c;
	}
	Obj *getW(uint32_t id) {
		Chunk *c = chunkW(id >> 6); Obj *&o = c->o[id & 63];
		if (o && o->ref > 1) { Obj *n = new Obj(*o); o->ref--; o = n; }
		return o;
	}
	uint32_t add(Obj *o) { uint32_t id = next++; Chunk *c = chunkW(id >> 6); c->o[id & 63] = o; c->live++; return id; }
	void remove(uint32_t id) {
		Chunk *c = chunkW(id >> 6); unref(c->o[id & 63]); c->o[id & 63] = nullptr;
		if (--c->live == 0 && (id >> 6) != (next >> 6)) { unrefC(c); top[id >> 6] = nullptr; }
	}
	static uint64_t addr(uint32_t id) { return ((uint64_t)id << OBJ_SHIFT) | OBJ_BASE; }
};

// ---------------------------------------------------------------- program
enum Op : uint8_t { O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
	O_ICMP, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_INVOKE, O_LPAD, O_RESUME, O_UNREACH,
	O_ZEXT, O_SEXT, O_TRNC, O_COPY, O_SELECT, O_EXTRACT, O_INSERT, O_FBIN, O_FCMP, O_FCAST, O_RMW, O_CMPXCHG, O_NOP };
struct DI { Op op; uint8_t w, w2, sub; int32_t dst, a, b, c; uint32_t line; uint32_t aux; };
struct Edge { uint32_t target; std::vector<std::pair<int32_t, int32_t> > copies; };
struct Gep { uint64_t off; struct Ix { int32_t op; uint8_t w; uint64_t scale; }; std::vector<Ix> ix; };
struct Clause { bool isFilter; uint64_t ti; };
struct LPad { bool cleanup; std::vector<Clause> clauses; int32_t dst; };
struct Func;
typedef int Builtin;
struct Arg { int32_t op; uint8_t nslots; uint8_t w; uint32_t byval; };
struct Call { Func *fn; Builtin bi; int32_t target; std::vector<Arg> args; int32_t dst; uint8_t nret, wret; int edgeN, edgeU; int lpad; std::string name; };
struct SwitchT { std::vector<std::pair<uint64_t, int> > cases; int def; };
struct MemTy { std::vector<std::pair<uint32_t, uint8_t> > parts; }; // (byte offset, bit width) of each scalar
struct Func {
	std::string name; bool decoded = false; void *ll = nullptr;
	uint32_t nregs = 0, nargs = 0, index = 0; uint64_t addr = 0; bool isDecl = false; Builtin bi = -1; Func *redirect = nullptr;
	std::vector<uint32_t> argSlot; std::vector<DI> code; std::vector<Val> consts; std::vector<Edge> edges; std::vector<Gep> geps; std::vector<Call> calls;
	std::vector<SwitchT> switches; std::vector<LPad> lpads; std::vector<MemTy> mtys; std::vector<std::pair<uint64_t, uint64_t> > allocas;
	bool inRepo = false; uint64_t hits = 0;
};

struct Frame { Func *f; uint32_t pc, regBase; std::vector<uint32_t> allocas; };
struct ExcInfo { uint64_t ti, dtor; int handlers; };
struct State {
	std::vector<Frame> frames, altFrames; std::vector<Val> regs, altRegs; Mem mem; // alt: a second line of execution (sym_spawn)
	std::vector<EP> pc; std::vector<Dom> dom; std::vector<uint8_t> entangled; std::vector<uint8_t> symW; std::vector<uint64_t> model;
	std::vector<const char *> symName;
	std::map<uint64_t, ExcInfo> exc; std::vector<uint64_t> caught, altCaught;
	uint64_t steps = 0, heapOps = 0; uint32_t depth = 0; int cfg = 0; bool terminating = false, altTerminating = false, wit = false;
};
