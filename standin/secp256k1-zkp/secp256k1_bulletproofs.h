#ifndef STANDIN_SECP_BULLETPROOFS_H
#define STANDIN_SECP_BULLETPROOFS_H
#include "secp256k1.h"
#include "secp256k1_generator.h"
#include "secp256k1_commitment.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct secp256k1_bulletproof_generators secp256k1_bulletproof_generators;
secp256k1_bulletproof_generators* secp256k1_bulletproof_generators_create(const secp256k1_context* ctx, const secp256k1_generator* blinding_gen, size_t n);
void secp256k1_bulletproof_generators_destroy(const secp256k1_context* ctx, secp256k1_bulletproof_generators* gen);
int secp256k1_bulletproof_rangeproof_prove(const secp256k1_context* ctx, secp256k1_scratch_space* scratch, const secp256k1_bulletproof_generators* gens, unsigned char* proof, size_t* plen, unsigned char* tau_x, secp256k1_pubkey* t_one, secp256k1_pubkey* t_two, const uint64_t* value, const uint64_t* min_value, const unsigned char* const* blind, const secp256k1_pedersen_commitment* const* commits, size_t n_commits, const secp256k1_generator* value_gen, size_t nbits, const unsigned char* nonce, const unsigned char* private_nonce, const unsigned char* extra_commit, size_t extra_commit_len, const unsigned char* message);
int secp256k1_bulletproof_rangeproof_verify_multi(const secp256k1_context* ctx, secp256k1_scratch_space* scratch, const secp256k1_bulletproof_generators* gens, const unsigned char* const* proof, size_t n_proofs, size_t plen, const uint64_t* const* min_value, const secp256k1_pedersen_commitment* const* commit, size_t n_commits, size_t nbits, const secp256k1_generator* value_gen, const unsigned char* const* extra_commit, size_t* extra_commit_len);
int secp256k1_bulletproof_rangeproof_rewind(const secp256k1_context* ctx, uint64_t* value, unsigned char* blind, const unsigned char* proof, size_t plen, uint64_t min_value, const secp256k1_pedersen_commitment* commit, const secp256k1_generator* value_gen, const unsigned char* nonce, const unsigned char* extra_commit, size_t extra_commit_len, unsigned char* message);
#ifdef __cplusplus
}
#endif
#endif
