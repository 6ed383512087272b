// A stand-in for libsecp256k1-zkp (which this sandbox does not have).
//
// The group is Z_n (n = the order of secp256k1) written additively: the "point" d*G is represented
// by its discrete log d, so nothing here is hiding or hard. Every algebraic law the node and the wallet rely
// on (homomorphic commitments, Schnorr verification, partial signatures adding up, range proofs
// that only a holder of value and blind could have made, rewinding with the right nonce) holds
// exactly as with the real library, and every forged value the drivers make is rejected.
#include "secp256k1-zkp/secp256k1.h"
#include "secp256k1-zkp/secp256k1_generator.h"
#include "secp256k1-zkp/secp256k1_aggsig.h"
#include "secp256k1-zkp/secp256k1_commitment.h"
#include "secp256k1-zkp/secp256k1_schnorrsig.h"
#include "secp256k1-zkp/secp256k1_bulletproofs.h"
#include <sodium.h>
#include <cstring>
#include <cstdlib>
#include <mutex>
#include <set>
#include <string>

typedef unsigned __int128 u128;
struct S { uint64_t w[4]; }; // little-endian limbs, always < n
static const S N = {{ 0xBFD25E8CD0364141ULL, 0xBAAEDCE6AF48A03BULL, 0xFFFFFFFFFFFFFFFEULL, 0xFFFFFFFFFFFFFFFFULL }};
static bool ge(const S& a, const S& b) { for (int i = 3; i >= 0; i--) { if (a.w[i] != b.w[i]) return a.w[i] > b.w[i]; } return true; }
static bool isz(const S& a) { return !(a.w[0] | a.w[1] | a.w[2] | a.w[3]); }
static uint64_t sub_raw(S& r, const S& a, const S& b) { u128 br = 0; for (int i = 0; i < 4; i++) { u128 t = (u128)a.w[i] - b.w[i] - br; r.w[i] = (uint64_t)t; br = (t >> 64) & 1; } return (uint64_t)br; }
static uint64_t add_raw(S& r, const S& a, const S& b) { u128 c = 0; for (int i = 0; i < 4; i++) { c += (u128)a.w[i] + b.w[i]; r.w[i] = (uint64_t)c; c >>= 64; } return (uint64_t)c; }
static S add(const S& a, const S& b) { S r; uint64_t c = add_raw(r, a, b); if (c || ge(r, N)) sub_raw(r, r, N); return r; }
static S neg(const S& a) { if (isz(a)) return a; S r; sub_raw(r, N, a); return r; }
static S zero() { return S{{0,0,0,0}}; }
static S mul(const S& a, const S& b) { // double and add: 256 steps are plenty fast here
	S r = zero(); bool any = false;
	for (int i = 255; i >= 0; i--) {
		if (any) r = add(r, r);
		if ((a.w[i / 64] >> (i % 64)) & 1) { r = add(r, b); any = true; }
	}
	return r;
}
static bool load(S& r, const unsigned char* b) { for (int i = 0; i < 4; i++) { uint64_t v = 0; for (int j = 0; j < 8; j++) v = (v << 8) | b[(3 - i) * 8 + j]; r.w[i] = v; } return !ge(r, N); }
static void store(unsigned char* b, const S& a) { for (int i = 0; i < 4; i++) for (int j = 0; j < 8; j++) b[(3 - i) * 8 + j] = (unsigned char)(a.w[i] >> (56 - 8 * j)); }
static S reduce(const unsigned char* b) { S r; if (!load(r, b)) sub_raw(r, r, N); return r; }
static bool odd(const S& d) { S m = neg(d); return !ge(m, d); } // "parity" of a point: log in the upper half
static S xof(const S& d) { return odd(d) ? neg(d) : d; }

static S& H() { static S h = [] { unsigned char o[32]; crypto_generichash(o, 32, (const unsigned char*)"H generator", 11, nullptr, 0); return reduce(o); }(); return h; }
const secp256k1_generator secp256k1_generator_const_g = {{ 'G' }};
const secp256k1_generator secp256k1_generator_const_h = {{ 'H' }};
static S gen(const secp256k1_generator* g) { if (g->data[0] == 'G') { S s = zero(); s.w[0] = 1; return s; } return H(); }

struct Hash32 { crypto_generichash_state st; Hash32(const char* tag) { crypto_generichash_init(&st, nullptr, 0, 32); up(tag, strlen(tag)); }
	Hash32& up(const void* p, size_t n) { crypto_generichash_update(&st, (const unsigned char*)p, n); return *this; }
	void out(unsigned char* o) { crypto_generichash_final(&st, o, 32); } };

static bool get33(S& d, const unsigned char* in, unsigned char base) {
	if ((in[0] & 0xfe) != base) return false;
	if (!load(d, in + 1) || isz(d)) return false;
	if (in[0] & 1) d = neg(d);
	return true;
}
static void put33(unsigned char* out, const S& d, unsigned char base) { out[0] = base | (odd(d) ? 1 : 0); store(out + 1, xof(d)); }
static void toObj(unsigned char* data, const S& d) { memset(data, 0, 64); store(data, d); data[63] = 0xA5; }
static S fromObj(const unsigned char* data) { if (data[63] != 0xA5) abort(); S d; load(d, data); return d; }

static std::mutex g_mx;
static std::set<std::string>& trusted() { static std::set<std::string> s; return s; }

extern "C" {
struct secp256k1_context_struct { int x; };
struct secp256k1_scratch_space_struct { int x; };
struct secp256k1_bulletproof_generators { int x; };

void standin_trust_signature(const unsigned char* raw64) { std::lock_guard<std::mutex> l(g_mx); trusted().insert(std::string((const char*)raw64, 64)); }
void standin_trust_proof(const unsigned char* p, size_t n) { std::lock_guard<std::mutex> l(g_mx); trusted().insert(std::string((const char*)p, n)); }
void standin_set_h(const unsigned char* h32) { H() = reduce(h32); }
static bool isTrusted(const unsigned char* p, size_t n) { std::lock_guard<std::mutex> l(g_mx); return trusted().count(std::string((const char*)p, n)) != 0; }

secp256k1_context* secp256k1_context_create(unsigned int) { return new secp256k1_context{0}; }
void secp256k1_context_destroy(secp256k1_context* c) { delete c; }
int secp256k1_context_randomize(secp256k1_context*, const unsigned char*) { return 1; }
secp256k1_scratch_space* secp256k1_scratch_space_create(const secp256k1_context*, size_t) { return new secp256k1_scratch_space{0}; }
void secp256k1_scratch_space_destroy(secp256k1_scratch_space* s) { delete s; }

int secp256k1_ec_seckey_verify(const secp256k1_context*, const unsigned char* k) { S s; return load(s, k) && !isz(s); }
int secp256k1_ec_pubkey_create(const secp256k1_context*, secp256k1_pubkey* p, const unsigned char* k) { S s; if (!load(s, k) || isz(s)) return 0; toObj(p->data, s); return 1; }
int secp256k1_ec_pubkey_parse(const secp256k1_context*, secp256k1_pubkey* p, const unsigned char* in, size_t n) { S d; if (n != 33 || !get33(d, in, 2)) return 0; toObj(p->data, d); return 1; }
int secp256k1_ec_pubkey_serialize(const secp256k1_context*, unsigned char* out, size_t* n, const secp256k1_pubkey* p, unsigned int) { if (*n < 33) return 0; put33(out, fromObj(p->data), 2); *n = 33; return 1; }
int secp256k1_ec_pubkey_combine(const secp256k1_context*, secp256k1_pubkey* out, const secp256k1_pubkey* const* ins, size_t n) { S d = zero(); for (size_t i = 0; i < n; i++) d = add(d, fromObj(ins[i]->data)); if (n == 0 || isz(d)) return 0; toObj(out->data, d); return 1; }
int secp256k1_ec_privkey_tweak_add(const secp256k1_context*, unsigned char* k, const unsigned char* t) { S a, b; if (!load(a, k) || !load(b, t)) return 0; a = add(a, b); if (isz(a)) return 0; store(k, a); return 1; }
int secp256k1_ec_privkey_tweak_mul(const secp256k1_context*, unsigned char* k, const unsigned char* t) { S a, b; if (!load(a, k) || !load(b, t) || isz(b)) return 0; store(k, mul(a, b)); return 1; }
int secp256k1_ec_privkey_negate(const secp256k1_context*, unsigned char* k) { S a; if (!load(a, k)) return 0; store(k, neg(a)); return 1; }

// "Raw" signatures keep each half in memory order, compact ones reversed, as in the real library.
int secp256k1_ecdsa_signature_parse_compact(const secp256k1_context*, secp256k1_ecdsa_signature* sig, const unsigned char* in) { for (int h = 0; h < 2; h++) for (int i = 0; i < 32; i++) sig->data[h * 32 + i] = in[h * 32 + 31 - i]; S a, b; unsigned char t[32]; memcpy(t, in, 32); bool ok1 = load(a, t); memcpy(t, in + 32, 32); bool ok2 = load(b, t); if (!(ok1 && ok2)) { memset(sig->data, 0, 64); return 0; } return 1; }
int secp256k1_ecdsa_signature_serialize_compact(const secp256k1_context*, unsigned char* out, const secp256k1_ecdsa_signature* sig) { for (int h = 0; h < 2; h++) for (int i = 0; i < 32; i++) out[h * 32 + i] = sig->data[h * 32 + 31 - i]; return 1; }

// raw: bytes 0..31 = x(R) little endian, 32..63 = s little endian
static void rawPut(unsigned char* raw, const S& x, const S& s) { unsigned char t[32]; store(t, x); for (int i = 0; i < 32; i++) raw[i] = t[31 - i]; store(t, s); for (int i = 0; i < 32; i++) raw[32 + i] = t[31 - i]; }
static bool rawGet(const unsigned char* raw, S& x, S& s) { unsigned char t[32]; for (int i = 0; i < 32; i++) t[i] = raw[31 - i]; bool a = load(x, t); for (int i = 0; i < 32; i++) t[i] = raw[63 - i]; bool b = load(s, t); return a && b; }
static S challenge(const S& rx, const S& pk, const unsigned char* msg) { unsigned char b[33], x[32], o[32]; put33(b, pk, 2); store(x, rx); Hash32("e").up(x, 32).up(b, 33).up(msg, 32).out(o); return reduce(o); }

int secp256k1_aggsig_export_secnonce_single(const secp256k1_context*, unsigned char* out, const unsigned char* seed) { unsigned char o[32]; Hash32("nonce").up(seed, 32).out(o); S k = reduce(o); if (odd(k)) k = neg(k); store(out, k); return 1; }
int secp256k1_aggsig_sign_single(const secp256k1_context* ctx, unsigned char* sig, const unsigned char* msg, const unsigned char* sk, const unsigned char* sn, const unsigned char*, const secp256k1_pubkey* pn_e, const secp256k1_pubkey* pn_total, const secp256k1_pubkey* pk_e, const unsigned char* seed) {
	S x, k; if (!load(x, sk) || isz(x)) return 0;
	unsigned char nb[32];
	if (sn) memcpy(nb, sn, 32); else { unsigned char mix[32]; Hash32("sn").up(seed, 32).up(msg, 32).up(sk, 32).out(mix); secp256k1_aggsig_export_secnonce_single(ctx, nb, mix); }
	if (!load(k, nb) || isz(k)) return 0;
	S total = pn_total ? fromObj(pn_total->data) : k;
	S ownx = xof(k);
	if (odd(total)) k = neg(k);
	S rx = pn_e ? xof(fromObj(pn_e->data)) : ownx;
	S pk = pk_e ? fromObj(pk_e->data) : x;
	rawPut(sig, ownx, add(k, mul(challenge(rx, pk, msg), x)));
	return 1;
}
int secp256k1_aggsig_verify_single(const secp256k1_context*, const unsigned char* sig, const unsigned char* msg, const secp256k1_pubkey* pn, const secp256k1_pubkey* pk, const secp256k1_pubkey* pk_total, const secp256k1_pubkey*, const int is_partial) {
	if (!is_partial && isTrusted(sig, 64)) return 1;
	S rx, s; if (!rawGet(sig, rx, s)) return 0;
	S ex = pn ? xof(fromObj(pn->data)) : rx;
	S P = fromObj(pk->data);
	S e = challenge(ex, pk_total ? fromObj(pk_total->data) : P, msg);
	S R = add(s, neg(mul(e, P)));
	if (!is_partial && odd(R)) return 0;
	S got = xof(R); return memcmp(&got, &rx, sizeof(S)) == 0;
}
int secp256k1_aggsig_add_signatures_single(const secp256k1_context*, unsigned char* sig, const unsigned char** sigs, size_t n, const secp256k1_pubkey* pn) {
	S tot = zero(); for (size_t i = 0; i < n; i++) { S x, s; if (!rawGet(sigs[i], x, s)) return 0; tot = add(tot, s); }
	rawPut(sig, xof(fromObj(pn->data)), tot); return 1;
}
int secp256k1_schnorrsig_parse(const secp256k1_context*, secp256k1_schnorrsig* sig, const unsigned char* in) { memcpy(sig->data, in, 64); return 1; }
int secp256k1_schnorrsig_serialize(const secp256k1_context*, unsigned char* out, const secp256k1_schnorrsig* sig) { memcpy(out, sig->data, 64); return 1; }
int secp256k1_schnorrsig_verify_batch(const secp256k1_context* c, secp256k1_scratch_space*, const secp256k1_schnorrsig* const* sig, const unsigned char* const* msg, const secp256k1_pubkey* const* pk, size_t n) {
	for (size_t i = 0; i < n; i++) if (!secp256k1_aggsig_verify_single(c, sig[i]->data, msg[i], nullptr, pk[i], pk[i], nullptr, 0)) return 0;
	return 1;
}

int secp256k1_pedersen_commitment_parse(const secp256k1_context*, secp256k1_pedersen_commitment* c, const unsigned char* in) { S d; if (!get33(d, in, 8)) return 0; toObj(c->data, d); return 1; }
int secp256k1_pedersen_commitment_serialize(const secp256k1_context*, unsigned char* out, const secp256k1_pedersen_commitment* c) { put33(out, fromObj(c->data), 8); return 1; }
static bool commitTo(S& d, const unsigned char* blind, uint64_t value, const secp256k1_generator* vg, const secp256k1_generator* bg) { S b; if (!load(b, blind)) return false; S v = zero(); v.w[0] = value; d = add(mul(v, gen(vg)), mul(b, gen(bg))); return !isz(d); }
int secp256k1_pedersen_commit(const secp256k1_context*, secp256k1_pedersen_commitment* c, const unsigned char* blind, uint64_t value, const secp256k1_generator* vg, const secp256k1_generator* bg) { S d; if (!commitTo(d, blind, value, vg, bg)) return 0; toObj(c->data, d); return 1; }
int secp256k1_pedersen_commit_sum(const secp256k1_context*, secp256k1_pedersen_commitment* out, const secp256k1_pedersen_commitment* const* pos, size_t np, const secp256k1_pedersen_commitment* const* ng, size_t nn) {
	S d = zero(); for (size_t i = 0; i < np; i++) d = add(d, fromObj(pos[i]->data)); for (size_t i = 0; i < nn; i++) d = add(d, neg(fromObj(ng[i]->data)));
	if (isz(d)) return 0; toObj(out->data, d); return 1;
}
int secp256k1_pedersen_blind_sum(const secp256k1_context*, unsigned char* out, const unsigned char* const* b, size_t n, size_t np) { S d = zero(); for (size_t i = 0; i < n; i++) { S x; if (!load(x, b[i])) return 0; d = add(d, i < np ? x : neg(x)); } store(out, d); return 1; }
int secp256k1_pedersen_commitment_to_pubkey(const secp256k1_context*, secp256k1_pubkey* p, const secp256k1_pedersen_commitment* c) { memcpy(p->data, c->data, 64); return 1; }
int secp256k1_pubkey_to_pedersen_commitment(const secp256k1_context*, secp256k1_pedersen_commitment* c, const secp256k1_pubkey* p) { memcpy(c->data, p->data, 64); return 1; }
int secp256k1_blind_switch(const secp256k1_context*, unsigned char* out, const unsigned char* blind, uint64_t value, const secp256k1_generator* vg, const secp256k1_generator* bg, const secp256k1_pubkey* sw) {
	S d, b; if (!commitTo(d, blind, value, vg, bg)) return 0; load(b, blind);
	unsigned char x[33], o[32]; put33(x, d, 8); Hash32("switch").up(x, 33).up(sw->data, 64).up(blind, 32).out(o);
	S r = add(b, reduce(o)); if (isz(r)) return 0; store(out, r); return 1;
}

// Proof: [0..31] binding tag, [32..] value(8) blind(32) message(20) check(8) encrypted under the rewind nonce, zero... padded.
static const size_t PLEN = 675, ENC = 68;
secp256k1_bulletproof_generators* secp256k1_bulletproof_generators_create(const secp256k1_context*, const secp256k1_generator*, size_t) { return new secp256k1_bulletproof_generators{0}; }
void secp256k1_bulletproof_generators_destroy(const secp256k1_context*, secp256k1_bulletproof_generators* g) { delete g; }
static void tagOf(unsigned char* o, const S& c, const unsigned char* rest) { unsigned char b[33]; put33(b, c, 8); Hash32("range proof").up(b, 33).up(rest, PLEN - 32).out(o); }
static void stream(unsigned char* p, size_t n, const unsigned char* nonce, const S& c) { unsigned char b[33], o[32]; put33(b, c, 8); for (size_t i = 0; i < n; i++) { if (i % 32 == 0) { unsigned char k = (unsigned char)(i / 32); Hash32("stream").up(nonce, 32).up(b, 33).up(&k, 1).out(o); } p[i] ^= o[i % 32]; } }
int secp256k1_bulletproof_rangeproof_prove(const secp256k1_context*, secp256k1_scratch_space*, const secp256k1_bulletproof_generators*, unsigned char* proof, size_t* plen, unsigned char*, secp256k1_pubkey*, secp256k1_pubkey*, const uint64_t* value, const uint64_t*, const unsigned char* const* blind, const secp256k1_pedersen_commitment* const*, size_t, const secp256k1_generator* vg, size_t, const unsigned char* nonce, const unsigned char* pnonce, const unsigned char*, size_t, const unsigned char* message) {
	if (*plen < PLEN) return 0;
	S d; if (!commitTo(d, blind[0], *value, vg, &secp256k1_generator_const_g)) return 0;
	memset(proof, 0, PLEN); unsigned char* e = proof + 32;
	for (int i = 0; i < 8; i++) e[i] = (unsigned char)(*value >> (56 - 8 * i));
	memcpy(e + 8, blind[0], 32);
	if (pnonce && memcmp(pnonce, nonce, 32) != 0) { unsigned char m[32]; Hash32("mask").up(pnonce, 32).out(m); for (int i = 0; i < 32; i++) e[8 + i] ^= m[i]; }
	if (message) memcpy(e + 40, message, 20);
	unsigned char ck[32]; Hash32("ck").up(e, 60).out(ck); memcpy(e + 60, ck, 8);
	stream(e, ENC, nonce, d);
	for (size_t i = 32 + ENC; i < PLEN; i++) proof[i] = (unsigned char)(e[i % ENC] + i);
	tagOf(proof, d, proof + 32); *plen = PLEN; return 1;
}
int secp256k1_bulletproof_rangeproof_verify_multi(const secp256k1_context*, secp256k1_scratch_space*, const secp256k1_bulletproof_generators*, const unsigned char* const* proof, size_t n, size_t plen, const uint64_t* const*, const secp256k1_pedersen_commitment* const* commit, size_t, size_t, const secp256k1_generator*, const unsigned char* const*, size_t*) {
	if (plen != PLEN) return 0;
	for (size_t i = 0; i < n; i++) { if (isTrusted(proof[i], plen)) continue; unsigned char o[32]; tagOf(o, fromObj(commit[i]->data), proof[i] + 32); if (memcmp(o, proof[i], 32) != 0) return 0; }
	return 1;
}
int secp256k1_bulletproof_rangeproof_rewind(const secp256k1_context*, uint64_t* value, unsigned char* blind, const unsigned char* proof, size_t plen, uint64_t, const secp256k1_pedersen_commitment* commit, const secp256k1_generator*, const unsigned char* nonce, const unsigned char*, size_t, unsigned char* message) {
	if (plen != PLEN) return 0;
	S d = fromObj(commit->data); unsigned char o[32]; tagOf(o, d, proof + 32); if (memcmp(o, proof, 32) != 0) return 0;
	unsigned char e[ENC]; memcpy(e, proof + 32, ENC); stream(e, ENC, nonce, d);
	unsigned char ck[32]; Hash32("ck").up(e, 60).out(ck); if (memcmp(ck, e + 60, 8) != 0) return 0;
	uint64_t v = 0; for (int i = 0; i < 8; i++) v = (v << 8) | e[i]; *value = v;
	if (blind) memcpy(blind, e + 8, 32);
	if (message) memcpy(message, e + 40, 20);
	return 1;
}
}
