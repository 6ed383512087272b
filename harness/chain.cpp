// usage: chain OUT.ndjson SCRATCH SEED NTRACES [MODE]
// Random block trees delivered to a real node in random order; every call and the state after it is logged.
#include "blocks.h"

static const char* stName(EBlockChainStatus s) {
	switch (s) { case EBlockChainStatus::SUCCESS: return "SUCCESS"; case EBlockChainStatus::ALREADY_EXISTS: return "ALREADY_EXISTS"; case EBlockChainStatus::TRANSACTIONS_MISSING: return "TRANSACTIONS_MISSING"; case EBlockChainStatus::INVALID: return "INVALID"; case EBlockChainStatus::ORPHANED: return "ORPHANED"; default: return "UNKNOWN_ERROR"; }
}
template <class F> static std::string Call(F f) { try { return stName(f()); } catch (BadDataException&) { return "BAD_DATA"; } catch (std::exception&) { return "EXCEPTION"; } }

struct Run {
	Trace& t; Node n; Tree& T; Rng& rng; std::string lastU;
	Run(Trace& tr, Tree& tree) : t(tr), T(tree), rng(tree.rng) {}
	std::string State() {
		J s;
		auto c = n.chain->GetTipBlockHeader(EChainType::CONFIRMED), h = n.chain->GetTipBlockHeader(EChainType::CANDIDATE);
		s("c", c ? T.IdOf(c->GetHash()) : -1)("h", h ? T.IdOf(h->GetHash()) : -1);
		s("ch", n.chain->GetHeight(EChainType::CONFIRMED))("hh", n.chain->GetHeight(EChainType::CANDIDATE))("ctd", n.chain->GetTotalDifficulty(EChainType::CONFIRMED) - T.baseTd)("htd", n.chain->GetTotalDifficulty(EChainType::CANDIDATE) - T.baseTd);
		std::vector<int> orph, hdb, bdb, cby, hby, need;
		auto bdbr = n.db->GetBlockDB()->Read();
		for (auto& x : T.b) { if (x.id) { if (n.chain->HasOrphan(x.hash)) orph.push_back(x.id); if (bdbr->GetBlock(x.hash) != nullptr) bdb.push_back(x.id); } if (n.chain->GetBlockHeaderByHash(x.hash) != nullptr) hdb.push_back(x.id); }
		for (uint64_t i = 0; i <= n.chain->GetHeight(EChainType::CONFIRMED) + 1; i++) { auto p = n.chain->GetBlockHeaderByHeight(i, EChainType::CONFIRMED); if (p) cby.push_back(T.IdOf(p->GetHash())); }
		for (uint64_t i = 0; i <= n.chain->GetHeight(EChainType::CANDIDATE) + 1; i++) { auto p = n.chain->GetBlockHeaderByHeight(i, EChainType::CANDIDATE); if (p) hby.push_back(T.IdOf(p->GetHash())); }
		for (auto& p : n.chain->GetBlocksNeeded(100)) need.push_back(T.IdOf(p.second));
		s("orph", orph)("hdb", hdb)("bdb", bdb)("cby", cby)("hby", hby)("need", need);
		s("hroot", sh(n.hmmr->Read()->Root(n.chain->GetHeight(EChainType::CANDIDATE))));
		// unspent outputs as the database's index and as the accumulator have them
		auto ths = n.ths->Read()->GetTxHashSet();
		std::string pos = "[", set = "[", kern = "[";
		for (auto& o : T.w.outs) { auto l = bdbr->GetOutputPosition(o.c); if (l) pos += (pos.size() > 1 ? ",[" : "[") + J::v(o.id) + "," + J::v(l->GetLeafIndex().Get()) + "," + J::v(l->GetBlockHeight()) + "]"; }
		try {
			auto r = ths->GetOutputsByLeafIndex(bdbr.GetShared(), 0, 100000);
			for (auto& o : r.GetOutputs()) { auto it = T.w.byC.find(o.GetCommitment()); int id = it == T.w.byC.end() ? -1 : it->second; bool ok = id >= 0 && o.GetRangeProof().GetProofBytes() == T.w.outs[id].proof.GetProofBytes(); set += (set.size() > 1 ? ",[" : "[") + J::v(id) + "," + J::v(o.GetLeafIndex().Get()) + "," + J::v(o.GetBlockHeight()) + "," + J::v((int)o.GetFeatures()) + "," + J::v(ok) + "]"; }
		} catch (std::exception& e) { set += J::v(std::string("exception")); }
		std::map<Hash, int> kh; for (auto& k : T.w.kers) kh[k.k.GetHash()] = k.id; // kernel hashes are leaf data, the accumulator's are positional: compare roots and counts instead
		s("nk", ths->GetLastKernelHashes(1000000).size());
		std::string u = pos + "]|" + set + "]";
		raw(s, "pos", pos + "]"); raw(s, "set", set + "]");
		s("rv", c ? ths->ValidateRoots(*c) : false);
		auto fl = ths->GetFlushedBlockHeader(); s("fl", fl ? T.IdOf(fl->GetHash()) : -1);
		// running sums, compared with those the chain's own outputs and kernels give
		std::string got = "none"; if (c) { auto bs = bdbr->GetBlockSums(c->GetHash()); if (bs) got = sh(bs->GetOutputSum()) + "/" + sh(bs->GetKernelSum()); }
		s("sums", got);
		return s.str();
	}
	std::string IdealSums(int tip) { // outputs ever created minus those spent, minus supply; kernels plus offset
		std::vector<Commitment> outs, kers, neg; for (auto& kv : T.b[tip].utxo) outs.push_back(T.w.outs[kv.first].c);
		neg.push_back(Crypto::CommitTransparent((T.b[tip].height + 1) * Consensus::REWARD));
		for (int k : T.b[tip].kers) kers.push_back(T.w.kers[k].k.GetExcessCommitment());
		return sh(Crypto::AddCommitments(outs, neg)) + "/" + sh(Crypto::AddCommitments(kers, {}));
	}
	void Log(J& j) { raw(j, "s", State()); t.log(j); }
	void Define(int id) { std::string d = T.b[id].def; std::string isum; try { isum = IdealSums(id); } catch (...) { isum = "none"; } d.pop_back(); d += ",\"isums\":" + J::v(isum) + ",\"irr\":" + J::v(sh(T.b[id].ideal.hdr.root())) + "}"; fprintf(t.f, "%s\n", d.c_str()); t.n++; }
	void Block(int id) { std::string r = Call([&] { return n.chain->AddBlock(T.Fresh(id)); }); J j; j("e", "AddBlock")("b", id)("r", r); Log(j); }
	void Header(int id) { std::string r = Call([&] { return n.chain->AddBlockHeader(T.FreshHdr(id)); }); J j; j("e", "AddHeader")("b", id)("r", r); Log(j); }
	void Headers(const std::vector<int>& ids) { std::vector<BlockHeaderPtr> hs; for (int i : ids) hs.push_back(T.FreshHdr(i)); std::string r = Call([&] { return n.chain->AddBlockHeaders(hs); }); J j; j("e", "AddHeaders")("bs", ids)("r", r); Log(j); }
	void Compact(int id);
	bool Orphan() { bool r = n.chain->ProcessNextOrphanBlock(); J j; j("e", "Orphan")("r", r); Log(j); return r; }
	// A refused orphan ends one call; go on until nothing moves.
	void Drain() { int still = 0; while (still < 2) { size_t before = Waiting(); if (Orphan() || Waiting() != before) still = 0; else still++; } }
	size_t Waiting() { size_t k = 0; for (auto& x : T.b) if (x.id && n.chain->HasOrphan(x.hash)) k++; return k; }
	void Restart() { n.Close(); n.Open(); J j; j("e", "Restart"); Log(j); }
};
#include <BlockChain/CompactBlockFactory.h>
void Run::Compact(int id) {
	CompactBlock cb = CompactBlockFactory::CreateCompactBlock(T.Fresh(id));
	std::string r = Call([&] { return n.chain->AddCompactBlock(cb); }); J j; j("e", "AddCompact")("b", id)("r", r); Log(j);
}

static const std::vector<std::string> BODY{ "unknown-input", "spent-input", "other-fork-input", "immature", "immature-flip", "dup-unspent-output", "dup-output-same-block", "dup-input", "dup-kernel", "no-cut-through", "bad-proof", "bad-proof-seen", "proof-length", "bad-sig", "lock-height", "inflate-tx", "deflate-tx", "coinbase-more", "coinbase-less", "coinbase-nofees", "two-coinbases", "two-coinbases-bad", "no-coinbase-flag", "coinbase-offset", "missing-kernel", "bad-offset", "unsorted-outputs", "unsorted-kernels", "unsorted-inputs", "output-root", "proof-root", "kernel-root", "output-size", "kernel-size", "output-size-next", "output-size-less", "kernel-size-less", "overweight" };
static const std::vector<std::string> HEAD{ "header-root", "version", "height-skip", "ts-equal", "ts-before", "ts-future", "ts-near-future" };

static std::vector<int> g_flawOrder; 
static void Scenario(Trace& t, uint64_t seed, int idx, const std::string& mode, const fs::path& scratch, int trunk) {
	Tree T(seed * 1000003 + idx); Rng& rng = T.rng;
	Node::Wipe(); Node::MakeDirs();
	Run r(t, T);
	r.n.Open();
	{ J j; j("e", "Reset")("trace", idx); raw(j, "s", r.State()); t.log(j); }
	// trunk: mature coinbases to spend
	int tip = 0;
	for (int i = 0; i < trunk; i++) { tip = T.Mine(tip, {}, 1 + rng.below(3)); r.Define(tip); Call([&] { return r.n.chain->AddBlock(T.Fresh(tip)); }); }
	{ std::vector<int> ids; for (int i = 1; i <= trunk; i++) ids.push_back(i); J j; j("e", "Trunk")("bs", ids); r.Log(j); }
	bool fast = mode == "fast";
	// the tree
	int N = rng.range(7, 13); std::vector<int> nodes; std::vector<int> roots{ tip };
	double pFlaw = mode == "reject" ? 0.5 : mode == "reorg" ? 0.1 : 0.25;
	for (int i = 0; i < N; i++) {
		std::vector<int> cand; for (auto& x : T.b) if (x.height + 6 >= T.b[tip].height && (x.hdrGood || rng.chance(0.05)) && (x.good || rng.chance(0.25)) && x.id >= trunk - 3) cand.push_back(x.id);
		int p = rng.chance(0.55) && !nodes.empty() ? nodes.back() : rng.pick(cand);
		if (!T.b[p].good && rng.chance(0.7)) p = rng.pick(cand);
		std::vector<Tx> txs; std::vector<int> avail = T.Spendable(T.b[p]);
		std::string flaw;
		if (rng.chance(pFlaw)) { flaw = rng.chance(0.25) ? rng.pick(HEAD) : BODY[(idx * 7 + rng.below(7) + i) % BODY.size()]; if (rng.chance(0.3)) flaw = rng.pick(BODY); if (flaw == "overweight" && rng.chance(0.8)) flaw = "kernel-root"; }
		int ntx = rng.range(0, 2); for (int k = 0; k < ntx && !avail.empty(); k++) txs.push_back(T.RandomTx(avail, T.b[p].height + 1));
		int id = T.Mine(p, txs, 1 + rng.below(rng.chance(0.3) ? 8 : 3), flaw, 1 + (int)rng.below(90));
		if (id < 0) id = T.Mine(p, txs, 1 + rng.below(3), "", 60);
		nodes.push_back(id); r.Define(id);
	}
	// a cousin recreating an output another branch created (same commitment, both unspent on their own branch)
	if (rng.chance(0.5)) {
		for (int id : nodes) if (T.b[id].good && !T.b[id].txs.empty() && T.b[id].flaw.empty()) { int p = T.b[id].parent; int n2 = T.Mine(p, T.b[id].txs, 1 + rng.below(4), "", 61); nodes.push_back(n2); r.Define(n2); break; }
	}
	// deliveries
	std::vector<std::pair<int, int>> ops; // kind, id
	for (int id : nodes) { int c = rng.range(1, 2); for (int k = 0; k < c; k++) ops.push_back({ rng.chance(0.7) ? 0 : rng.chance(0.5) ? 1 : 2, id }); }
	int style = rng.range(0, 2); // 0 in order with local swaps, 1 headers first, 2 shuffled
	std::vector<std::pair<double, std::pair<int, int>>> ord; for (size_t i = 0; i < ops.size(); i++) { double key = (double)i; if (style == 0) key += rng.range(-4, 4) * 0.9; if (style == 2) key = (double)rng.below(100000); if (style == 1 && ops[i].first == 1) key -= 1000; ord.push_back({ key, ops[i] }); }
	std::sort(ord.begin(), ord.end());
	std::map<int, int> fixed;
	int cnt = 0;
	for (auto& o : ord) {
		int id = o.second.second;
		switch (o.second.first) {
		case 0: r.Block(id); break;
		case 1: if (rng.chance(0.4)) { std::vector<int> path; int q = id; int len = rng.range(1, 5); while (q > trunk && (int)path.size() < len) { path.insert(path.begin(), q); q = T.b[q].parent; } if (path.empty()) path = { id }; if (rng.chance(0.06) && path.size() > 1) std::swap(path[0], path[1]); r.Headers(path); } else r.Header(id); break;
		case 2: if (T.b[id].txs.empty() && T.b[id].in.empty() && T.b[id].flaw.compare(0, 8, "unsorted") != 0) r.Compact(id); else r.Block(id); break;
		}
		if (rng.chance(0.5)) r.Drain();
		if (rng.chance(mode == "restart" ? 0.25 : mode == "young" ? 0.4 : 0.03)) r.Restart();
	}
	r.Drain();
	{ J j; j("e", "Drained"); r.Log(j); }
	// everything once more, parents first
	for (int id : nodes) { r.Block(id); r.Drain(); }
	{ J j; j("e", "Quiesce"); r.Log(j); }
	r.Restart();
	{ // what a miner building on the tip with an empty body would commit to
		auto b = r.n.ths->BatchWrite(); auto d = r.n.db->GetBlockDB()->BatchWrite(); auto roots = b->GetTxHashSet()->GetRoots(d.GetShared(), TransactionBody()); b->Rollback(); d->Rollback();
		std::string s = "[" + J::v(sh(roots.GetOutputInfo().root)) + "," + J::v(sh(roots.GetRangeProofInfo().root)) + "," + J::v(sh(roots.GetKernelInfo().root)) + "," + J::v(roots.GetOutputInfo().size) + "," + J::v(roots.GetKernelInfo().size) + "]";
		J j; j("e", "Roots"); raw(j, "roots", s); t.log(j);
	}
	// and the node goes on
	auto c = r.n.chain->GetTipBlockHeader(EChainType::CONFIRMED);
	if (c) { int q = T.IdOf(c->GetHash()); if (q >= 0 && T.b[q].good) { for (int k = 0; k < 2; k++) { std::vector<Tx> txs; auto avail = T.Spendable(T.b[q]); if (!avail.empty()) txs.push_back(T.RandomTx(avail, T.b[q].height + 1)); q = T.Mine(q, txs, 30); r.Define(q); r.Block(q); } } }
	r.n.Close();
}

int main(int argc, char** argv) {
	Trace t; t.open(argv[1]); fs::path scratch = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10); int n = atoi(argv[4]); std::string mode = argc > 5 ? argv[5] : "mix";
	int first = argc > 6 ? atoi(argv[6]) : 0;
	fs::create_directories(scratch);
	Setup(scratch); TrustGenesis();
	for (int i = first; i < first + n; i++) Scenario(t, seed, i, mode, scratch, mode == "young" ? i % 4 : 27); // "young": the chain has hardly begun
	t.f && fclose(t.f); t.f = nullptr;
	Node::Wipe();
	return 0;
}
