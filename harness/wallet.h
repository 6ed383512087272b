// A pretended node and Tor process, and the bookkeeping of coins, for the drivers of wallets.
#pragma once
#include <Wallet/WalletManager.h>
#include <Wallet/NodeClient.h>
#include <Wallet/WalletDB/WalletDB.h>
#include <Wallet/Exceptions/SessionTokenException.h>
#include <Wallet/Keychain/Mnemonic.h>
#include <Wallet/SlateBuilder/CoinSelection.h>
#include <Net/Tor/TorProcess.h>
#include <Net/Tor/TorAddressParser.h>
#include <Crypto/ED25519.h>
#include <API/Wallet/Owner/Models/SendCriteria.h>
#include <API/Wallet/Owner/Models/ReceiveCriteria.h>
#include <API/Wallet/Owner/Models/FinalizeCriteria.h>
#include <API/Wallet/Owner/Models/EstimateFeeCriteria.h>
#include <API/Wallet/Foreign/Models/BuildCoinbaseCriteria.h>

inline std::string W(uint64_t x) { std::string s = "["; while (x) { s += (s.size() > 1 ? "," : "") + std::to_string(x % 10000); x /= 10000; } return s + "]"; }
struct Made { Commitment c; EOutputFeatures f; RangeProof p; };
struct FakeTor : ITorProcess {
	TorAddress AddListener(const ed25519_secret_key_t& k, const uint16_t) final { return TorAddressParser::FromPubKey(ED25519::CalculatePubKey(k)); }
	bool RemoveListener(const TorAddress&) final { return true; }
	std::shared_ptr<ITorConnection> Connect(const TorAddress&) final { return nullptr; }
	bool RetryInit() override { return false; }
};
struct FakeNode : INodeClient {
	struct Out { Made m; uint64_t leaf, h; }; struct Blk { std::vector<Commitment> added; std::vector<std::pair<Commitment, Out>> spent; };
	std::vector<Blk> blocks; std::map<Commitment, Out> utxo; uint64_t leaves = 0; std::vector<Hash> posts; mutable int failIn = -1; mutable bool failed = false; uint64_t batch = 7;
	void Tick() const { if (failIn == 0) { failIn = -1; failed = true; throw std::runtime_error("node gone"); } if (failIn > 0) failIn--; }
	uint64_t Height() const { return blocks.size() - 1; }
	void Add(const std::vector<Made>& adds, const std::vector<Commitment>& spends) { Blk b; for (auto& c : spends) { b.spent.push_back({ c, utxo.at(c) }); utxo.erase(c); } for (auto& m : adds) { utxo.emplace(m.c, Out{ m, leaves++, blocks.size() }); b.added.push_back(m.c); } blocks.push_back(b); }
	void Truncate(uint64_t h) { while (Height() > h) { auto& b = blocks.back(); for (auto& c : b.added) { utxo.erase(c); leaves--; } for (auto& [c, o] : b.spent) utxo.emplace(c, o); blocks.pop_back(); } }
	static BlockHeaderPtr Header(uint64_t h) { return std::make_shared<BlockHeader>(5, h, 1600000000 + 60 * h, Hash(), Hash(), Hash(), Hash(), Hash(), BlindingFactor(Hash()), 1, 1, 1, 1, 7, ProofOfWork(31, std::vector<uint64_t>(42))); }
	uint64_t GetChainHeight() const final { Tick(); return Height(); }
	BlockHeaderPtr GetTipHeader() const final { Tick(); return Header(Height()); }
	BlockHeaderPtr GetBlockHeader(const uint64_t h) const final { Tick(); return h <= Height() ? Header(h) : nullptr; }
	std::map<Commitment, OutputLocation> GetOutputsByCommitment(const std::vector<Commitment>& cs) const final { Tick(); std::map<Commitment, OutputLocation> r; for (auto& c : cs) { auto it = utxo.find(c); if (it != utxo.end()) r.insert({ c, OutputLocation(LeafIndex::At(it->second.leaf), it->second.h) }); } return r; }
	std::vector<BlockWithOutputs> GetBlockOutputs(const uint64_t, const uint64_t) const final { return {}; }
	std::unique_ptr<OutputRange> GetOutputsByLeafIndex(const uint64_t start, const uint64_t max) const final {
		Tick(); std::map<uint64_t, const Out*> by; for (auto& [c, o] : utxo) if (o.leaf >= start) by[o.leaf] = &o; std::vector<OutputDTO> v; uint64_t last = 0;
		for (auto& [l, o] : by) { if (v.size() >= std::min(max, batch)) break; v.emplace_back(OutputDTO(false, OutputIdentifier(o->m.f, Commitment(o->m.c)), OutputLocation(LeafIndex::At(l), o->h), o->m.p)); last = l; }
		return std::make_unique<OutputRange>(leaves > 0 ? leaves - 1 : 0, last, std::move(v));
	}
	bool PostTransaction(TransactionPtr tx, const EPoolType) final { Tick(); posts.push_back(tx->GetHash()); return true; }
};
struct WalletWorld {
	struct User { std::string name, password; SecureString words; SecureVector seed; int seedId = 0; SessionToken token{ 0, SecureVector() }; std::shared_ptr<KeyChain> keys; std::shared_ptr<Locked<Wallet>> wallet; };
	struct C { uint64_t amt; bool cb; int seed, path; };
	Trace t; Rng rng; std::shared_ptr<FakeNode> node; TorProcess::Ptr tor; IWalletManagerPtr manager; std::vector<User> users; int nSeeds = 0; uint64_t nKeys = 0, keySeed;
	std::map<Commitment, int> byCommit; std::map<int, C> coins; std::vector<int> fresh; std::map<std::pair<int, std::string>, int> paths;
	explicit WalletWorld(uint64_t s) : rng(s), keySeed(s) {}
	void Start() { node = std::make_shared<FakeNode>(); node->batch = rng.chance(0.5) ? 1000 : rng.range(3, 20); tor = std::make_shared<FakeTor>(); manager = WalletAPI::CreateWalletManager(Global::GetConfig(), node); }
	SecretKey Key() { std::string s = "outside " + std::to_string(keySeed) + " " + std::to_string(nKeys++); return SecretKey(Hasher::Blake2b(std::vector<unsigned char>(s.begin(), s.end()))); }
	int PathId(int seed, const std::string& p) { auto it = paths.find({ seed, p }); if (it == paths.end()) it = paths.insert({ { seed, p }, (int)paths.size() + 1 }).first; return it->second; }
	int Coin(const Commitment& c, uint64_t amt, bool cb, int seed, int path) { auto it = byCommit.find(c); if (it != byCommit.end()) return it->second; int id = (int)byCommit.size() + 1; byCommit[c] = id; coins[id] = { amt, cb, seed, path }; fresh.push_back(id); return id; }
	Made Outside(uint64_t amt, EOutputFeatures f) { SecretKey k = Key(); Commitment c = Crypto::CommitBlinded(amt, BlindingFactor(k.GetBytes())); SecretKey n = Key(); RangeProof p = Crypto::GenerateRangeProof(amt, k, n, n, ProofMessage(CBigInteger<20>(std::vector<unsigned char>(20, 9).data()))); Coin(c, amt, f == EOutputFeatures::COINBASE_OUTPUT, 0, 0); return { c, f, p }; }
};
