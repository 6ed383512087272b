#ifndef STANDIN_SECP_COMMITMENT_H
#define STANDIN_SECP_COMMITMENT_H
#include "secp256k1.h"
#include "secp256k1_generator.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { unsigned char data[64]; } secp256k1_pedersen_commitment;
int secp256k1_pedersen_commitment_parse(const secp256k1_context* ctx, secp256k1_pedersen_commitment* commit, const unsigned char* input33);
int secp256k1_pedersen_commitment_serialize(const secp256k1_context* ctx, unsigned char* output33, const secp256k1_pedersen_commitment* commit);
int secp256k1_pedersen_commit(const secp256k1_context* ctx, secp256k1_pedersen_commitment* commit, const unsigned char* blind, uint64_t value, const secp256k1_generator* value_gen, const secp256k1_generator* blind_gen);
int secp256k1_pedersen_commit_sum(const secp256k1_context* ctx, secp256k1_pedersen_commitment* out, const secp256k1_pedersen_commitment* const* pos, size_t npos, const secp256k1_pedersen_commitment* const* neg, size_t nneg);
int secp256k1_pedersen_blind_sum(const secp256k1_context* ctx, unsigned char* out, const unsigned char* const* blinds, size_t n, size_t npositive);
int secp256k1_pedersen_commitment_to_pubkey(const secp256k1_context* ctx, secp256k1_pubkey* pubkey, const secp256k1_pedersen_commitment* commit);
int secp256k1_pubkey_to_pedersen_commitment(const secp256k1_context* ctx, secp256k1_pedersen_commitment* commit, const secp256k1_pubkey* pubkey);
int secp256k1_blind_switch(const secp256k1_context* ctx, unsigned char* blind_switch, const unsigned char* blind, uint64_t value, const secp256k1_generator* value_gen, const secp256k1_generator* blind_gen, const secp256k1_pubkey* switch_pubkey);
#ifdef __cplusplus
}
#endif
#endif
