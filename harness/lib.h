// Shared by the drivers: a node on a scratch directory, an ideal accumulator, builders of
// transactions and blocks whose content is described to the specification, and the trace log.
#pragma once
#include "mini.h"
#include <Core/Context.h>
#include <Core/Global.h>
#include <Core/Config.h>
#include <Core/Genesis.h>
#include <Core/Models/FullBlock.h>
#include <Core/Models/CompactBlock.h>
#include <Core/Models/BlockSums.h>
#include <Core/Exceptions/BadDataException.h>
#include <BlockChain/BlockChain.h>
#include <Database/Database.h>
#include <Database/BlockDb.h>
#include <PMMR/TxHashSetManager.h>
#include <PMMR/HeaderMMR.h>
#include <TxPool/TransactionPool.h>
#include <Crypto/Crypto.h>
#include <Crypto/Hasher.h>
#include <Consensus.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <cstdarg>

extern "C" {
void standin_trust_signature(const unsigned char* raw64);
void standin_trust_proof(const unsigned char* p, size_t n);
void standin_set_h(const unsigned char* h32);
int secp256k1_ec_privkey_negate(const void*, unsigned char* k);
int secp256k1_ec_privkey_tweak_mul(const void*, unsigned char* k, const unsigned char* t);
}

// ---------- context ----------
inline void addHexProof(const TransactionOutput& o) { const auto& b = o.GetRangeProof().GetProofBytes(); standin_trust_proof(b.data(), b.size()); }
inline void Setup(const fs::path& dir, Environment env = Environment::AUTOMATED_TESTING, const std::string& extra = "{}") {
	Json::Value json; Json::Reader().parse(extra, json);
	if (!json.isMember("P2P")) { json["P2P"]["MAX_PEERS"] = 60; json["P2P"]["MIN_PEERS"] = 10; }
	json["DATA_PATH"] = dir.string();
	if (!json.isMember("WALLET")) { json["WALLET"]["DATABASE"] = "SQLITE"; json["WALLET"]["MIN_CONFIRMATIONS"] = 10; }
	auto pConfig = Config::Load(json, env);
	Global::Init(Context::Create(env, pConfig));
	for (int sg : { SIGINT, SIGTERM, SIGABRT }) signal(sg, SIG_DFL);
}
// The genesis block's keys are not known here: take its signature and proof as given, and choose the
// stand-in's second generator so that its output commits to the reward under the coinbase kernel's excess.
inline void TrustGenesis() {
	const FullBlock& g = Global::GetGenesisBlock();
	for (const auto& k : g.GetKernels()) standin_trust_signature(k.GetExcessSignature().GetSignatureBytes().data());
	for (const auto& o : g.GetOutputs()) addHexProof(o);
	auto scalar = [](const Commitment& c) { std::vector<unsigned char> d(c.data() + 1, c.data() + 33); if (c.data()[0] & 1) secp256k1_ec_privkey_negate(nullptr, d.data()); return Hash(CBigInteger<32>(d.data())); };
	BlindingFactor out(scalar(g.GetOutputs().front().GetCommitment())), ker(scalar(g.GetKernels().front().GetExcessCommitment()));
	BlindingFactor diff = Crypto::AddBlindingFactors({ out }, { ker });
	// inverse of the reward modulo the group order: reward^(n-2)
	static const unsigned char NM2[32] = { 0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xfe,0xba,0xae,0xdc,0xe6,0xaf,0x48,0xa0,0x3b,0xbf,0xd2,0x5e,0x8c,0xd0,0x36,0x41,0x3f };
	unsigned char r[32] = { 0 }, acc[32] = { 0 }; acc[31] = 1;
	for (int i = 0; i < 8; i++) r[31 - i] = (unsigned char)((uint64_t)Consensus::REWARD >> (8 * i));
	for (int i = 0; i < 256; i++) { unsigned char t[32]; memcpy(t, acc, 32); secp256k1_ec_privkey_tweak_mul(nullptr, acc, t); if ((NM2[i / 8] >> (7 - i % 8)) & 1) secp256k1_ec_privkey_tweak_mul(nullptr, acc, r); }
	unsigned char h[32]; memcpy(h, diff.data(), 32); secp256k1_ec_privkey_tweak_mul(nullptr, h, acc);
	standin_set_h(h);
}

// ---------- a node ----------
struct Node {
	IDatabasePtr db; std::shared_ptr<Locked<TxHashSetManager>> ths; ITransactionPool::Ptr pool; std::shared_ptr<Locked<IHeaderMMR>> hmmr; IBlockChain::Ptr chain;
	static void MakeDirs() {
		const Config& c = Global::GetConfig();
		for (fs::path p : { c.GetChainPath(), c.GetDatabasePath(), c.GetTxHashSetPath(), c.GetTxHashSetPath() / "kernel", c.GetTxHashSetPath() / "output", c.GetTxHashSetPath() / "rangeproof", c.GetWalletPath() }) fs::create_directories(p);
	}
	void Open() {
		const Config& c = Global::GetConfig();
		db = DatabaseAPI::OpenDatabase(c);
		ths = std::make_shared<Locked<TxHashSetManager>>(std::make_shared<TxHashSetManager>(c));
		pool = TxPoolAPI::CreateTransactionPool(c);
		hmmr = HeaderMMRAPI::OpenHeaderMMR(c);
		chain = BlockChainAPI::OpenBlockChain(c, db->GetBlockDB(), ths, pool, hmmr);
	}
	void Close() { chain.reset(); hmmr.reset(); pool.reset(); ths.reset(); db.reset(); }
	static void Wipe() { const fs::path d = Global::GetConfig().GetDataDirectory(); std::error_code ec; fs::remove_all(d / "NODE", ec); }
};

// ---------- ideal accumulator: only counts leaves and keeps peaks ----------
struct IdealMMR {
	std::vector<std::pair<int, Hash>> peaks; uint64_t leaves = 0, size = 0;
	static Hash parent(uint64_t pos, const Hash& l, const Hash& r) { Serializer s; s.Append<uint64_t>(pos); s.AppendBigInteger<32>(l); s.AppendBigInteger<32>(r); return Hasher::Blake2b(s.GetBytes()); }
	void add(const std::function<std::vector<unsigned char>(uint64_t)>& ser) {
		Hash h = Hasher::Blake2b(ser(size)); size++; leaves++; int lv = 0;
		while (!peaks.empty() && peaks.back().first == lv) { h = parent(size, peaks.back().second, h); peaks.pop_back(); size++; lv++; }
		peaks.emplace_back(lv, h);
	}
	Hash root() const { if (peaks.empty()) return ZERO_HASH; Hash h = peaks.back().second; for (size_t i = peaks.size() - 1; i-- > 0;) h = parent(size, peaks[i].second, h); return h; }
};
struct Ideal { IdealMMR out, rp, ker, hdr; };

inline std::string sh(const CBigInteger<32>& h) { return h.ToHex().substr(0, 10); }
inline std::string sh(const Commitment& c) { return c.ToHex().substr(0, 12); }

// ---------- universe of outputs, transactions ----------
struct Out { int id; uint64_t value; bool cb; SecretKey blind; Commitment c; RangeProof proof; };
struct Ker { int id; int feat; uint64_t fee, lock; bool sigok; int shift; TransactionKernel k; };
struct Tx { int id; std::vector<int> in, out, ker; std::shared_ptr<Transaction> tx; BlindingFactor offset; };

static const uint64_t UNIT = 100000; // amounts are logged in these, so that they fit TLC's integers

struct World {
	std::vector<Out> outs; std::vector<Ker> kers; std::map<Commitment, int> byC; std::map<Hash, int> kerByHash; int genesisOut = 0;
	uint64_t salt;
	explicit World(uint64_t s) : salt(s) {}
	SecretKey key(const std::string& what) { return SecretKey(Hasher::Blake2b(std::vector<unsigned char>(what.begin(), what.end()))); }
	int NewOut(uint64_t value, bool cb, bool badProof = false) {
		int id = (int)outs.size();
		SecretKey b = key("blind" + std::to_string(salt) + ":" + std::to_string(id));
		Commitment c = Crypto::CommitBlinded(value, BlindingFactor(b.GetBytes()));
		SecretKey n = key("nonce" + std::to_string(id));
		RangeProof p = Crypto::GenerateRangeProof(value, b, n, n, ProofMessage(CBigInteger<20>()));
		if (badProof) { auto bytes = p.GetProofBytes(); bytes[300] ^= 0x40; p = RangeProof(std::move(bytes)); }
		outs.push_back(Out{ id, value, cb, b, c, p }); byC[c] = id;
		return id;
	}
	void Damage(int o, bool cut) { // an output's genuine proof is seen and verified before it is exchanged
		auto& x = outs[o]; Crypto::VerifyRangeProofs({ { x.c, x.proof } }); auto bytes = x.proof.GetProofBytes(); if (cut) bytes.pop_back(); else bytes[300] ^= 0x40; x.proof = RangeProof(std::move(bytes));
	}
	TransactionOutput TxOut(int id) { const Out& o = outs[id]; return TransactionOutput(o.cb ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT, o.c, o.proof); }
	TransactionInput TxIn(int id, bool flip = false) { const Out& o = outs[id]; return TransactionInput((o.cb != flip) ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT, o.c); }
	int NewKer(int feat, uint64_t fee, uint64_t lock, const BlindingFactor& excess, bool sigok = true, int shift = 0) {
		Commitment c = Crypto::CommitBlinded(0, excess);
		Fee f((uint8_t)shift, fee);
		Hash msg = TransactionKernel::GetSignatureMessage((EKernelFeatures)feat, f, lock);
		SecretKey sk{ CBigInteger<32>(excess.GetBytes()) };
		auto sig = Crypto::BuildCoinbaseSignature(sk, c, msg);
		Signature s = *sig;
		if (!sigok) { auto v = s.GetSignatureBytes(); std::vector<unsigned char> b(v.data(), v.data() + 64); b[40] ^= 1; s = Signature(CBigInteger<64>(b.data())); }
		int id = (int)kers.size();
		kers.push_back(Ker{ id, feat, fee, lock, sigok, shift, TransactionKernel((EKernelFeatures)feat, f, lock, c, s) });
		kerByHash[kers.back().k.GetHash()] = id;
		return id;
	}
	BlindingFactor blindOf(int o) const { return BlindingFactor(outs[o].blind.GetBytes()); }
	// One kernel transaction; the fee is whatever inputs and outputs leave, unless given.
	Tx MakeTx(const std::vector<int>& in, const std::vector<int>& out, int feat = 0, uint64_t lock = 0, bool sigok = true, int64_t feeDelta = 0, int shift = 0) {
		Tx t; t.id = -1; t.in = in; t.out = out;
		uint64_t a = 0, b = 0; std::vector<BlindingFactor> pos, neg;
		for (int i : in) { a += outs[i].value; neg.push_back(blindOf(i)); }
		for (int o : out) { b += outs[o].value; pos.push_back(blindOf(o)); }
		t.offset = BlindingFactor(key("offset" + std::to_string(salt) + ":" + std::to_string(kers.size())).GetBytes());
		neg.push_back(t.offset);
		BlindingFactor ex = Crypto::AddBlindingFactors(pos, neg);
		t.ker = { NewKer(feat, (uint64_t)((int64_t)(a - b) + feeDelta), lock, ex, sigok, shift) };
		Build(t);
		return t;
	}
	void Build(Tx& t, bool shuffled = false) {
		std::vector<TransactionInput> i; std::vector<TransactionOutput> o; std::vector<TransactionKernel> k;
		for (int x : t.in) i.push_back(TxIn(x)); for (int x : t.out) o.push_back(TxOut(x)); for (int x : t.ker) k.push_back(kers[x].k);
		t.tx = std::make_shared<Transaction>(BlindingFactor(t.offset), TransactionBody(std::move(i), std::move(o), std::move(k)));
	}
};
