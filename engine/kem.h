// Generators and lane helpers for KEM-level checks.
#pragma once
#include "engine.h"
// secret keys: a target may store the secret compressed (Cortex-M4 option)
Bytes sk_to_target(const Target &T, const Bytes &model_sk);   // one lane, honest range of coefficients
Bytes sk_to_model(const Target &T, const u8 *target_sk);      // one lane
size_t lane_sk(const Target &T);
// one lane each
void relate_parts(Rng &r, Bytes &b, size_t parts);
Bytes gen_rnd(Rng &r, size_t draws);				 // 32-byte draws, partly structured
Bytes gen_pk(Rng &r, const Params &P, std::string *cls = nullptr);
// model-format secret key; matching public key inside unless the class says otherwise
Bytes gen_sk(Rng &r, const Params &P, std::string *cls = nullptr, bool honest_only = false);
Bytes gen_ct(Rng &r, const Params &P, const Bytes &sk, std::string *cls = nullptr);
Bytes honest_sk(Rng &r, const Params &P);
// A key whose public half is shifted in one coefficient just so far that the honest ciphertext made
// for it is still accepted, or is no longer: some coefficient lies next to a decision boundary.
void gen_boundary(Rng &r, const Params &P, Bytes &sk, Bytes &ct);
Bytes gen_target_sk(Rng &r, const Target &T, std::string *cls); // one lane in the target's format
struct Keys {
	Bytes pk, sk, ct, ss;
};
inline Bytes slice(const Bytes &b, size_t off, size_t n) { return Bytes(b.begin() + off, b.begin() + off + n); }
inline void append(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
// expected results over all lanes, in the target's formats
void expect_keypair(const Target &T, const Bytes &rnd, Bytes &pk, Bytes &sk);
void expect_enc(const Target &T, const Bytes &pk, const Bytes &rnd, Bytes &ct, Bytes &ss);
void expect_dec(const Target &T, const Bytes &ct, const Bytes &sk, Bytes &ss, int *accepted = nullptr);
// returns false (and sets o.fail) when the operation faulted or did not report success
bool ok(Out &o, const char *op, const OpResult &r);
bool draws_are(const Target &T, const OpResult &r, size_t per_lane_draws);
