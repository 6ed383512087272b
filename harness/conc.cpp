// usage: conc OUT.ndjson SCRATCH SEED NTRACES
// A tree of blocks delivered by several threads at once, while other threads look at the stores under shared
// locks: each look must be the state of exactly one valid block.
#define main chain_main
#include "chain.cpp"
#undef main
#include <thread>
static Trace t; static std::mutex lm; static std::atomic<uint64_t> beat{ 0 };
static void Put(J& j) { std::lock_guard<std::mutex> g(lm); t.log(j); beat++; }
static void Threads(std::vector<std::function<void(Rng&)>> fs, uint64_t seed, std::atomic<int>& busy) {
	std::vector<std::thread> th; std::atomic<int> left{ (int)fs.size() };
	for (size_t i = 0; i < fs.size(); i++) th.emplace_back([&, i] { Rng r(seed * 131 + i); fs[i](r); left--; });
	uint64_t last = beat; int idle = 0;
	while (left > 0) { usleep(2000); if (beat == last) { if (++idle > 30000) { J j; j("e", "Stuck"); Put(j); _exit(0); } } else { last = beat; idle = 0; } }
	for (auto& x : th) x.join();
}
static void Look(Run& r, int th, bool four) {
	Tree& T = r.T; J s; std::string pos = "[", set = "[";
	auto look = [&](const std::shared_ptr<const IBlockDB>& bdb, const TxHashSetManager& m, const IHeaderMMR* h) {
		auto ths = m.GetTxHashSet(); auto fl = ths->GetFlushedBlockHeader(); int id = fl ? T.IdOf(fl->GetHash()) : -1;
		s("c", id)("fl", id);
		for (auto& o : T.w.outs) { auto l = bdb->GetOutputPosition(o.c); if (l) pos += (pos.size() > 1 ? ",[" : "[") + J::v(o.id) + "," + J::v(l->GetLeafIndex().Get()) + "," + J::v(l->GetBlockHeight()) + "]"; }
		try { auto x = ths->GetOutputsByLeafIndex(bdb, 0, 100000); for (auto& o : x.GetOutputs()) { auto it = T.w.byC.find(o.GetCommitment()); int oid = it == T.w.byC.end() ? -1 : it->second; bool ok = oid >= 0 && o.GetRangeProof().GetProofBytes() == T.w.outs[oid].proof.GetProofBytes(); set += (set.size() > 1 ? ",[" : "[") + J::v(oid) + "," + J::v(o.GetLeafIndex().Get()) + "," + J::v(o.GetBlockHeight()) + "," + J::v((int)o.GetFeatures()) + "," + J::v(ok) + "]"; } } catch (std::exception&) { set += J::v(std::string("exception")); }
		s("nk", ths->GetLastKernelHashes(1000000).size())("rv", fl ? ths->ValidateRoots(*fl) : false);
		std::string got = "none"; if (fl) { auto bs = bdb->GetBlockSums(fl->GetHash()); if (bs) got = sh(bs->GetOutputSum()) + "/" + sh(bs->GetKernelSum()); }
		s("sums", got)("stored", id <= 0 || bdb->GetBlock(T.b[id].hash) != nullptr)("header", id >= 0 && bdb->GetBlockHeader(T.b[id].hash) != nullptr);
		// the header accumulator holds the candidate chain: its root at the genesis is always the same
		s("hm", h ? sh(h->Root(0)) : std::string("")); s("hl", h ? sh(h->Root(1)) : std::string(""));
	};
	if (four) { auto m = MultiLocker().LockShared(*r.n.db->GetBlockDB(), *r.n.ths, *r.n.hmmr); look(std::get<0>(m).GetShared(), *std::get<1>(m), &*std::get<2>(m)); }
	else { auto m = MultiLocker().LockShared(*r.n.ths, *r.n.db->GetBlockDB()); look(std::get<1>(m).GetShared(), *std::get<0>(m), nullptr); }
	raw(s, "pos", pos + "]"); raw(s, "set", set + "]");
	J j; j("e", "View")("th", th); raw(j, "s", s.str()); Put(j);
}
int main(int c, char** v) {
	t.open(v[1]); fs::path scratch = v[2]; uint64_t seed = strtoull(v[3], 0, 10); int n = atoi(v[4]);
	fs::create_directories(scratch); Setup(scratch); TrustGenesis();
	for (int idx = 0; idx < n; idx++) {
		Tree T(seed * 1000003 + idx); Rng& rng = T.rng; Node::Wipe(); Node::MakeDirs(); Run r(t, T); r.n.Open();
		{ J j; j("e", "Reset")("trace", idx); raw(j, "s", r.State()); t.log(j); }
		const int trunk = 27; int tip = 0;
		for (int i = 0; i < trunk; i++) { tip = T.Mine(tip, {}, 1 + rng.below(3)); r.Define(tip); Call([&] { return r.n.chain->AddBlock(T.Fresh(tip)); }); }
		{ std::vector<int> ids; for (int i = 1; i <= trunk; i++) ids.push_back(i); J j; j("e", "Trunk")("bs", ids); r.Log(j); }
		int N = rng.range(14, 24); std::vector<int> nodes;
		for (int i = 0; i < N; i++) {
			std::vector<int> cand; for (auto& x : T.b) if (x.height + 5 >= T.b[tip].height && x.hdrGood && (x.good || rng.chance(0.2))) cand.push_back(x.id);
			int p = rng.chance(0.6) && !nodes.empty() && T.b[nodes.back()].hdrGood ? nodes.back() : rng.pick(cand);
			std::vector<Tx> txs; auto avail = T.Spendable(T.b[p]); int ntx = rng.range(0, 2); for (int k = 0; k < ntx && !avail.empty(); k++) txs.push_back(T.RandomTx(avail, T.b[p].height + 1));
			std::string flaw = rng.chance(0.12) ? rng.pick(BODY) : ""; if (flaw == "overweight" || flaw.compare(0, 8, "unsorted") == 0) flaw = "kernel-root";
			int id = T.Mine(p, txs, 1 + rng.below(rng.chance(0.3) ? 8 : 3), flaw, 1 + (int)rng.below(90)); if (id < 0) id = T.Mine(p, txs, 1 + rng.below(3), "", 60);
			nodes.push_back(id); r.Define(id);
		}
		std::atomic<int> writers{ 3 };
		auto tips = [&](int th) { auto h = r.n.chain->GetTipBlockHeader(EChainType::CONFIRMED); auto k = r.n.chain->GetTotalDifficulty(EChainType::CONFIRMED); J j; j("e", "Tip")("th", th)("b", h ? T.IdOf(h->GetHash()) : -1)("td", k - T.baseTd); Put(j); };
		auto deliver = [&](int th, int share, Rng& g) {
			std::vector<int> mine; for (size_t i = 0; i < nodes.size(); i++) if (share < 0 || g.chance(0.7)) mine.push_back(nodes[i]);
			for (size_t i = 0; i < mine.size(); i++) { size_t k = std::min(mine.size() - 1, i + g.below(4)); std::swap(mine[i], mine[k]); }
			for (int id : mine) { if (g.chance(0.75)) { std::string x = Call([&] { return r.n.chain->AddBlock(T.Fresh(id)); }); J j; j("e", "Did")("th", th)("b", id)("r", x); Put(j); } else { Call([&] { return r.n.chain->AddBlockHeader(T.FreshHdr(id)); }); beat++; } if (g.chance(0.3)) r.n.chain->ProcessNextOrphanBlock(); if (g.chance(0.4)) tips(th); }
			writers--;
		};
		Threads({ [&](Rng& g) { deliver(1, -1, g); }, [&](Rng& g) { deliver(2, 0, g); }, [&](Rng& g) { deliver(3, 0, g); },
			[&](Rng& g) { while (writers > 0) { Look(r, 4, g.chance(0.5)); usleep(g.range(1, 3000)); } },
			[&](Rng& g) { while (writers > 0) { tips(5); if (g.chance(0.3)) r.n.chain->GetBlocksNeeded(50); if (g.chance(0.3)) Look(r, 5, g.chance(0.5)); usleep(g.range(1, 1500)); } } }, seed + idx, writers);
		{ int still = 0; while (still < 2) { size_t before = r.Waiting(); if (r.n.chain->ProcessNextOrphanBlock() || r.Waiting() != before) still = 0; else still++; } }
		for (int id : nodes) { Call([&] { return r.n.chain->AddBlock(T.Fresh(id)); }); while (r.n.chain->ProcessNextOrphanBlock()); }
		Look(r, 6, true);
		{ J j; j("e", "Quiesce"); r.Log(j); }
		r.n.Close();
	}
	fclose(t.f); t.f = nullptr; Node::Wipe();
}
