/* Stand-in for libsecp256k1-zkp (absent from this sandbox): the interface GrinPlusPlus calls,
 * over a group in which discrete logs are visible. See ../secp.cpp. */
#ifndef STANDIN_SECP_H
#define STANDIN_SECP_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct secp256k1_context_struct secp256k1_context;
typedef struct secp256k1_scratch_space_struct secp256k1_scratch_space;
typedef struct { unsigned char data[64]; } secp256k1_pubkey;
typedef struct { unsigned char data[64]; } secp256k1_ecdsa_signature;
#define SECP256K1_CONTEXT_VERIFY 0x101
#define SECP256K1_CONTEXT_SIGN 0x201
#define SECP256K1_CONTEXT_NONE 0x1
#define SECP256K1_EC_COMPRESSED 0x102
#define SECP256K1_EC_UNCOMPRESSED 0x2
secp256k1_context* secp256k1_context_create(unsigned int flags);
void secp256k1_context_destroy(secp256k1_context* ctx);
int secp256k1_context_randomize(secp256k1_context* ctx, const unsigned char* seed32);
secp256k1_scratch_space* secp256k1_scratch_space_create(const secp256k1_context* ctx, size_t max_size);
void secp256k1_scratch_space_destroy(secp256k1_scratch_space* scratch);
int secp256k1_ec_seckey_verify(const secp256k1_context* ctx, const unsigned char* seckey);
int secp256k1_ec_pubkey_create(const secp256k1_context* ctx, secp256k1_pubkey* pubkey, const unsigned char* seckey);
int secp256k1_ec_pubkey_parse(const secp256k1_context* ctx, secp256k1_pubkey* pubkey, const unsigned char* input, size_t inputlen);
int secp256k1_ec_pubkey_serialize(const secp256k1_context* ctx, unsigned char* output, size_t* outputlen, const secp256k1_pubkey* pubkey, unsigned int flags);
int secp256k1_ec_pubkey_combine(const secp256k1_context* ctx, secp256k1_pubkey* out, const secp256k1_pubkey* const* ins, size_t n);
int secp256k1_ec_privkey_tweak_add(const secp256k1_context* ctx, unsigned char* seckey, const unsigned char* tweak);
int secp256k1_ec_privkey_tweak_mul(const secp256k1_context* ctx, unsigned char* seckey, const unsigned char* tweak);
int secp256k1_ec_privkey_negate(const secp256k1_context* ctx, unsigned char* seckey);
int secp256k1_ecdsa_signature_parse_compact(const secp256k1_context* ctx, secp256k1_ecdsa_signature* sig, const unsigned char* input64);
int secp256k1_ecdsa_signature_serialize_compact(const secp256k1_context* ctx, unsigned char* output64, const secp256k1_ecdsa_signature* sig);
/* Stand-in only: the signatures and proofs hard-coded in the genesis blocks are taken as valid. */
void standin_trust_signature(const unsigned char* raw64);
void standin_trust_proof(const unsigned char* proof, size_t len);
/* Stand-in only: choose the second generator (32 bytes, big endian). */
void standin_set_h(const unsigned char* h32);
#ifdef __cplusplus
}
#endif
#endif
