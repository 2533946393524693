// Shared by the harnesses of the client and server side of a session: message format, property-gated assertions.
#pragma once
#include <string>
#include <vector>
#include <unordered_map>
#include <sys/wait.h>
#include "Configuration.hxx"
#include "Process.hxx"
#include "Socket.hxx"
#include "Utilities.hxx"
#include "world.h"
#include "hlp.h"
using k8psh::Configuration; using k8psh::Process; using k8psh::Socket; using k8psh::Utilities;
#ifndef P
#define P 0
#endif
// An assertion of another property only ends the path: that property's own check reports it.
#define CK(prop, cond, what) do { bool k8v_c = (cond); if (P == (prop)) sym_assert(k8v_c, what); else sym_assume(k8v_c); } while (0)
#define CK2(p1, p2, cond, what) do { bool k8v_c = (cond); if (P == (p1) || P == (p2)) sym_assert(k8v_c, what); else sym_assume(k8v_c); } while (0)
static constexpr bool anyOf() { return false; }
template <class... T> static constexpr bool anyOf(int a, T... r) { return P == a || anyOf(r...); }
#define CKS(cond, what, ...) do { bool k8v_c = (cond); if (anyOf(__VA_ARGS__)) sym_assert(k8v_c, what); else sym_assume(k8v_c); } while (0)
// messages (the protocol documented in Process.cxx)
enum { M_DIR, M_ENV, M_ARG, M_START, M_STDIN, M_STDOUT, M_STDERR, M_TERM, M_EXIT };
static uint8_t *in_; static size_t inN, inCap;   // bytes the peer sends to the code under test
static size_t inAt, inAvail;                      // consumed, arrived
static size_t cut_[16], cuts;                    // ends of messages
static void inInit(size_t cap) { in_ = (uint8_t *)malloc(cap); inCap = cap; inN = inAt = inAvail = 0; cuts = 0; }
static void inPut(const void *p, size_t n) { if (inN + n > inCap) sym_fail("harness: input too long"); memcpy(in_ + inN, p, n); inN += n; }
static void message(unsigned type, const void *data, size_t n, bool value = false) {
	uint8_t h[5] = { (uint8_t)type, (uint8_t)n, (uint8_t)(n >> 8), (uint8_t)(n >> 16), (uint8_t)(n >> 24) };
	inPut(h, 5); if (!value && n) inPut(data, n);
	if (cuts < 16) cut_[cuts++] = inN;
}
static void message(unsigned type, const char *s) { message(type, s, strlen(s)); }
// checks a stream of messages as it is produced, whatever the pieces
struct Parser { uint8_t head[5]; unsigned have; uint32_t left; bool in; };
