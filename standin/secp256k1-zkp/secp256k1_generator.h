#ifndef STANDIN_SECP_GENERATOR_H
#define STANDIN_SECP_GENERATOR_H
#include "secp256k1.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { unsigned char data[64]; } secp256k1_generator;
extern const secp256k1_generator secp256k1_generator_const_g;
extern const secp256k1_generator secp256k1_generator_const_h;
#ifdef __cplusplus
}
#endif
#endif
