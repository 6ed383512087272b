// usage: pmmr OUT.ndjson SCRATCH SEED NTRACES [shapes|out|proof|kernel|header] [FLOOR]
// The accumulators, driven directly.  Hashes are interned; every hash the ideal tree needs is logged with
// what it is the hash of, so that the specification computes roots from structure alone.
#include "lib.h"
#include <PMMR/KernelMMR.h>
#include <PMMR/HeaderMMRImpl.h>
#include <PMMR/Common/PruneableMMR.h>
#include <PMMR/RangeProofPMMR.h>
#include <PMMR/OutputPMMR.h>

struct Intern { std::map<std::string, int> m; int operator()(const Hash& h) { if (h == ZERO_HASH) return 0; auto it = m.emplace(h.ToHex(), (int)m.size() + 1).first; return it->second; } };
static Intern H;
static int Hgt(uint64_t pos) { for (;;) { uint64_t n = 1; while (2 * n + 1 <= pos + 1) n = 2 * n + 1; if (pos + 1 == n) { int h = 0; while (n > 1) { n >>= 1; h++; } return h; } pos -= n; } }
static uint64_t PosOf(uint64_t leaf) { return 2 * leaf - __builtin_popcountll(leaf); }

struct Acc {
	virtual ~Acc() {}
	virtual void append(int d) = 0; virtual void remove(int) {} virtual void rewind(int n, const std::vector<uint64_t>& add) = 0;
	virtual void commit() = 0; virtual void rollback() = 0; virtual void reload() = 0; virtual int64_t size() { return -1; }
	virtual int root(uint64_t leaves) = 0; virtual int at(int) { return -2; } virtual int unspent(int) { return -1; } virtual int hashAt(uint64_t) { return -2; }
	virtual std::vector<int> last(int) { return {}; } virtual int ubmt(int) { return -1; } virtual bool spends() { return false; }
	virtual std::vector<unsigned char> bytes(int d) = 0;
};
template <size_t N, class T> struct Prun : Acc {
	fs::path dir; std::shared_ptr<PruneableMMR<N, T>> m; std::function<T(int)> make; std::map<std::string, int> ids;
	std::vector<unsigned char> bytes(int d) override { return make(d).Serialized(); }
	std::string key(const T& t) { auto b = t.Serialized(); return std::string(b.begin(), b.end()); }
	void reload() override { m.reset(); m = std::make_shared<PruneableMMR<N, T>>(HashFile::Load(dir / "pmmr_hash.bin"), LeafSet::Load(dir / "pmmr_leafset.bin"), PruneList::Load(dir / "pmmr_prun.bin"), DataFile<N>::Load(dir / "pmmr_data.bin")); }
	void append(int d) override { T x = make(d); ids[key(x)] = d; m->Append(x); }
	void remove(int i) override { m->Remove(LeafIndex::At(i)); }
	void rewind(int n, const std::vector<uint64_t>& add) override { m->Rewind(n, add); }
	void commit() override { m->Commit(); } void rollback() override { m->Rollback(); }
	int64_t size() override { return (int64_t)m->GetSize(); }
	int root(uint64_t leaves) override { return H(m->Root(PosOf(leaves))); }
	int at(int i) override { auto p = m->GetAt(LeafIndex::At(i)); if (!p) return -1; auto it = ids.find(key(*p)); return it == ids.end() ? -3 : it->second; }
	int unspent(int i) override { return m->IsUnpruned(LeafIndex::At(i)); }
	int hashAt(uint64_t p) override { auto h = m->GetHashAt(Index::At(p)); return h ? H(*h) : -1; }
	std::vector<int> last(int n) override { std::vector<int> r; for (auto& h : m->GetLastLeafHashes(n)) r.push_back(H(h)); return r; }
	int ubmt(int n) override { return H(m->UBMTRoot(n)); }
	bool spends() override { return true; }
};
struct KerAcc : Acc {
	fs::path dir; std::shared_ptr<KernelMMR> m; World& w; std::map<std::string, int> ids; std::map<int, int> kid;
	KerAcc(const fs::path& d, World& w_) : dir(d), w(w_) { fs::create_directories(d / "kernel"); }
	const TransactionKernel& ker(int d) { if (d == 1000) return Global::GetGenesisBlock().GetKernels().front(); if (!kid.count(d)) kid[d] = w.NewKer(0, 500000 + d, 0, BlindingFactor(w.key("k" + std::to_string(d)).GetBytes())); return w.kers[kid[d]].k; }
	std::vector<unsigned char> bytes(int d) override { auto b = ker(d).Serialized(); ids[std::string(b.begin(), b.end())] = d; return b; }
	void reload() override { m.reset(); m = KernelMMR::Load(dir); }
	void append(int d) override { bytes(d); m->ApplyKernel(ker(d)); }
	void rewind(int n, const std::vector<uint64_t>&) override { m->Rewind(n); }
	void commit() override { m->Commit(); } void rollback() override { m->Rollback(); }
	int64_t size() override { return (int64_t)m->GetSize(); }
	int root(uint64_t n) override { return H(m->Root(PosOf(n))); }
	int at(int i) override { if (i >= (int)m->GetNumKernels()) return -1; auto p = m->GetKernelAt(LeafIndex::At(i)); if (!p) return -1; auto b = p->Serialized(); auto it = ids.find(std::string(b.begin(), b.end())); return it == ids.end() ? -3 : it->second; }
	int hashAt(uint64_t p) override { auto h = m->GetHashAt(Index::At(p)); return h ? H(*h) : -1; }
	std::vector<int> last(int n) override { std::vector<int> r; for (auto& h : m->GetLastLeafHashes(n)) r.push_back(H(h)); return r; }
};
struct HdrAcc : Acc {
	std::shared_ptr<Locked<IHeaderMMR>> m; std::map<int, BlockHeaderPtr> hs; std::unique_ptr<Writer<IHeaderMMR>> wr;
	BlockHeaderPtr hdr(int d) { if (!hs.count(d)) { std::vector<uint64_t> n; for (int i = 0; i < 42; i++) n.push_back((uint64_t)d * 100 + i); auto g = Global::GetGenesisHeader(); hs[d] = std::make_shared<BlockHeader>(1, d, 1000 + d, Hash(g->GetHash()), Hash(g->GetHash()), Hash(g->GetHash()), Hash(g->GetHash()), Hash(g->GetHash()), BlindingFactor(g->GetOffset()), 1, 1, 10, 1, d, ProofOfWork(g->GetEdgeBits(), std::move(n))); } return hs[d]; }
	std::vector<unsigned char> bytes(int d) override { Serializer s; hdr(d)->GetProofOfWork().SerializeCycle(s); return s.vec(); }
	void need() { if (!wr) wr = std::make_unique<Writer<IHeaderMMR>>(m->BatchWrite()); }
	void reload() override { wr.reset(); m.reset(); m = HeaderMMRAPI::OpenHeaderMMR(Global::GetConfig()); }
	void append(int d) override { need(); (*wr)->AddHeader(*hdr(d)); }
	void rewind(int n, const std::vector<uint64_t>&) override { need(); (*wr)->Rewind(n); }
	void commit() override { if (wr) { (*wr)->Commit(); wr.reset(); } } void rollback() override { wr.reset(); }
	int root(uint64_t n) override { if (n == 0) return 0; return H(wr ? (*wr)->Root(n - 1) : m->Read()->Root(n - 1)); }
};

struct Run {
	Trace& t; Rng& rng; Acc& a; std::vector<int> leaf; std::vector<Hash> node; std::set<int> live; int floor = 0; int fresh = 0;
	struct Snap { std::vector<int> leaf; std::vector<Hash> node; std::set<int> live; } com;
	std::vector<std::vector<int>> hl, hn; std::vector<std::pair<std::vector<int>, int>> hc;
	Hash Leaf(uint64_t pos, int d) { Hash h = MMRHashless(pos, a.bytes(d)); hl.push_back({ (int)pos, d, H(h) }); return h; }
	static Hash MMRHashless(uint64_t pos, const std::vector<unsigned char>& b) { Serializer s; s.Append<uint64_t>(pos); s.AppendByteVector(b); return Hasher::Blake2b(s.GetBytes()); }
	Hash Node(uint64_t pos, const Hash& l, const Hash& r) { Hash h = IdealMMR::parent(pos, l, r); hn.push_back({ (int)pos, H(l), H(r), H(h) }); return h; }
	void Push(std::vector<Hash>& nd, Hash h) { nd.push_back(h); while (Hgt(nd.size()) > 0) { int k = Hgt(nd.size()); nd.push_back(Node(nd.size(), nd[nd.size() - (1ull << k)], nd[nd.size() - 1])); } }
	void Bag(const std::vector<Hash>& nd, uint64_t size) { std::vector<uint64_t> pk; uint64_t at = 0; while (at < size) { uint64_t n = 1; while (2 * n + 1 <= size - at) n = 2 * n + 1; at += n; pk.push_back(at - 1); } Hash h = ZERO_HASH; for (size_t i = pk.size(); i-- > 0;) h = h == ZERO_HASH ? nd[pk[i]] : Node(size, nd[pk[i]], h); }
	void Ideal(int d) { Push(node, Leaf(node.size(), d)); live.insert((int)leaf.size()); leaf.push_back(d); }
	void Log(J& j) {
		int n = (int)leaf.size(); std::vector<std::vector<int>> roots; std::vector<int> ks = { n }; if (n > floor) { ks.push_back(rng.range(floor, n)); ks.push_back(rng.range(floor, n)); }
		if (dynamic_cast<HdrAcc*>(&a)) ks.erase(std::remove(ks.begin(), ks.end(), 0), ks.end());
		for (int k : ks) { Bag(node, PosOf(k)); roots.push_back({ k, a.root(k) }); }
		j("size", a.size())("roots", roots);
		std::vector<std::vector<int>> at, hs; std::set<int> li; if (n <= 24) for (int i = 0; i < n + 3; i++) li.insert(i); else for (int i = 0; i < 20; i++) li.insert(rng.range(0, n + 2));
		for (int i : li) at.push_back({ i, a.at(i), a.unspent(i) });
		for (int i = 0; i < 8 && !node.empty(); i++) { int p = (int)rng.below(node.size()); hs.push_back({ p, a.hashAt(p) }); }
		j("at", at)("hs", hs);
		int ln = rng.range(1, 6); j("ln", ln)("last", a.last(ln));
		if (a.spends()) {
			std::vector<Hash> cm; std::string c = "["; int nc = (n + 1023) / 1024;
			for (int k = 0; k < nc; k++) { std::vector<unsigned char> b(128); for (int i : live) if (i / 1024 == k) b[(i % 1024) / 8] |= 1 << (7 - i % 8); Hash h = MMRHashless(cm.size(), b); std::string s; std::vector<int> set; for (int i : live) if (i / 1024 == k) set.push_back(i); if (k) c += ","; c += "{\"p\":" + J::v((int)cm.size()) + ",\"s\":" + J::v(set) + ",\"h\":" + J::v(H(h)) + "}"; Push(cm, h); }
			Bag(cm, cm.size()); raw(j, "hc", c + "]"); j("ub", n ? a.ubmt(n) : 0);
		}
		j("hl", hl)("hn", hn); t.log(j); hl.clear(); hn.clear();
	}
	void Begin(int n, std::vector<uint64_t> pruned, std::vector<int> spent, const std::vector<int>& ids) {
		J j; std::set<int> sp(spent.begin(), spent.end()); leaf.clear(); node.clear(); live.clear(); for (int i = 0; i < n; i++) Ideal(ids[i]); for (int s : spent) live.erase(s);
		com = { leaf, node, live };
		std::string ps = "["; j("e", "Reset")("n", n)("ids", ids)("spent", spent)("floor", floor)("pruned", pruned); Log(j);
	}
	void Op() {
		int n = (int)leaf.size(); int k = rng.range(0, 99); J j;
		if (k < 40 || n == 0) { int c = rng.chance(0.1) ? rng.range(5, 30) : 1; std::vector<int> ds; for (int i = 0; i < c; i++) { int d = ++fresh; if (d >= 1000 && d < 1002) d = fresh = 1002; ds.push_back(d); a.append(d); Ideal(d); } j("e", "Append")("ds", ds); }
		else if (k < 62 && a.spends()) { std::vector<int> v; for (int i = 0; i < n; i++) if (live.count(i) || rng.chance(0.1)) v.push_back(i); if (v.empty()) return; int i = rng.pick(v); std::string r = "ok"; try { a.remove(i); live.erase(i); } catch (std::exception&) { r = "refused"; } j("e", "Remove")("i", i)("r", r); }
		else if (k < 76 && n > floor) { int m = rng.chance(0.5) ? rng.range(std::max(floor, n - 4), n) : rng.range(floor, n); std::vector<uint64_t> add; std::vector<int> ai; for (int i = 0; i < n; i++) if (!live.count(i) && i >= floor && rng.chance(0.4)) { add.push_back(i); ai.push_back(i); } if (!a.spends()) { add.clear(); ai.clear(); }
			rng.shuffle(add); a.rewind(m, add); for (int i : ai) live.insert(i); live.erase(live.lower_bound(m), live.end()); leaf.resize(m); node.resize(PosOf(m)); j("e", "Rewind")("n", m)("add", ai); }
		else if (k < 88) { a.commit(); com = { leaf, node, live }; j("e", "Commit"); }
		else if (k < 95) { a.rollback(); leaf = com.leaf; node = com.node; live = com.live; j("e", "Rollback"); }
		else { a.reload(); leaf = com.leaf; node = com.node; live = com.live; j("e", "Reload"); }
		Log(j);
	}
};

// A pruned file set as a peer would send it: the nodes strictly inside pruned subtrees left out.
template <size_t N, class T> static void Prepare(Run& r, Prun<N, T>& a, int n, Trace& t, Rng& rng) {
	std::error_code ec; fs::remove_all(a.dir, ec); fs::create_directories(a.dir); a.ids.clear();
	r.floor = n ? rng.range(0, n) : 0; r.fresh = n; std::vector<int> ids, spent; std::set<int> sp; for (int i = 0; i < n; i++) ids.push_back(i + 1);
	double p = rng.chance(0.3) ? 0.95 : rng.chance(0.5) ? 0.7 : 0.3; for (int i = 0; i < n; i++) if (rng.chance(p)) sp.insert(i); if (rng.chance(0.1)) for (int i = 0; i < n; i++) sp.insert(i);
	spent.assign(sp.begin(), sp.end());
	std::vector<int> pr; for (int s : spent) if (s < r.floor) pr.push_back(s); if (!rng.chance(0.9)) pr.clear();
	std::vector<uint64_t> order(pr.begin(), pr.end()); rng.shuffle(order);
	// pruned: everything below a subtree of pruned leaves that ends before the floor
	uint64_t end = PosOf(r.floor); std::vector<char> full(PosOf(n) + 1, 0), inside(PosOf(n) + 1, 0); std::set<int> ps(pr.begin(), pr.end());
	for (uint64_t q = 0, li = 0; q < PosOf(n); q++) { int h = Hgt(q); if (h == 0) full[q] = ps.count((int)li++); else full[q] = full[q - 1] && full[q - (1ull << h)]; }
	for (uint64_t q = end; q-- > 0;) if (full[q] && Hgt(q) > 0) { int h = Hgt(q); inside[q - 1] = inside[q - (1ull << h)] = 1; }
	{ auto pl = PruneList::Load(a.dir / "pmmr_prun.bin"); for (uint64_t x : order) { Index i = LeafIndex::At(x).GetIndex(); pl->Add(i); } pl->Flush(); }
	auto pl = PruneList::Load(a.dir / "pmmr_prun.bin"); std::vector<std::vector<int>> rows; for (uint64_t q = 0; q < PosOf(n); q++) { Index i = Index::At(q); rows.push_back({ (int)pl->IsPruned(i), (int)pl->IsPrunedRoot(i), (int)pl->IsCompacted(i), (int)pl->GetShift(i), (int)pl->GetLeafShift(i) }); }
	J j; j("e", "Prune")("leaves", order)("n", n)("rows", rows)("total", pl->GetTotalShift()); t.log(j);
	auto hf = HashFile::Load(a.dir / "pmmr_hash.bin"); auto df = DataFile<N>::Load(a.dir / "pmmr_data.bin"); std::vector<Hash> nd;
	for (int i = 0; i < n; i++) { T x = a.make(i + 1); a.ids[a.key(x)] = i + 1; r.Push(nd, Run::MMRHashless(nd.size(), x.Serialized())); if (!inside[PosOf(i)]) df->AddData(x.Serialized()); }
	for (uint64_t q = 0; q < nd.size(); q++) if (!inside[q]) hf->AddData(nd[q]);
	hf->Commit(); df->Commit(); r.hn.clear(); auto ls = LeafSet::Load(a.dir / "pmmr_leafset.bin"); for (int i = 0; i < n; i++) if (!sp.count(i)) ls->Add(LeafIndex::At(i)); ls->Commit(); ls.reset();
	a.reload(); r.Begin(n, order, spent, ids);
}
static void Shapes(Trace& t, Rng& rng, int n) {
	auto row = [&](uint64_t p) { Index i = Index::At(p); bool lf = i.IsLeaf(); J j; j("e", "Pos")("p", p)("h", i.GetHeight())("leaf", lf)("li", lf ? (int64_t)i.GetLeafIndex() : -1)("par", i.GetParent().GetPosition())("parh", i.GetParent().GetHeight())("sib", i.GetSibling().GetPosition())("l", lf ? -1 : (int64_t)i.GetLeftChild().GetPosition())("r", lf ? -1 : (int64_t)i.GetRightChild().GetPosition())("peaks", MMRUtil::GetPeakIndices(p))("at", LeafIndex::AtPos(p).Get()); t.log(j); };
	auto lrow = [&](uint64_t i) { LeafIndex l = LeafIndex::At(i); J j; j("e", "Leaf")("i", i)("p", l.GetPosition())("next", l.Next().GetPosition())("prev", i ? (int64_t)l.Prev().GetPosition() : -1); t.log(j); };
	for (int i = 0; i < n; i++) { row(i); lrow(i); }
	for (int i = 0; i < n; i++) { int b = rng.range(8, 29); uint64_t x = (1ull << b) + rng.below(1ull << b) - 3; row(x); lrow(x); }
	for (int b = 3; b < 30; b++) for (int d = -3; d < 4; d++) { row((1ull << b) + d); lrow((1ull << b) + d); }
}
int main(int c, char** v) {
	if (c < 5) return 3; fs::path scratch = v[2]; uint64_t seed = strtoull(v[3], 0, 10); int traces = atoi(v[4]); std::string mode = c > 5 ? v[5] : "out";
	Trace t; t.open(v[1]); Rng rng(seed); fs::create_directories(scratch / "tmp"); setenv("TMPDIR", (scratch / "tmp").c_str(), 1); Setup(scratch); Node::MakeDirs(); World w(seed);
	if (mode == "shapes") { Shapes(t, rng, traces); return 0; }
	for (int k = 0; k < traces; k++) {
		int ops = rng.range(30, 60); int n = rng.chance(0.2) ? 0 : rng.chance(0.3) ? rng.range(1, 8) : rng.range(5, 70);
		if (mode == "out") { Prun<OUTPUT_SIZE, OutputIdentifier> a; a.dir = scratch / "acc"; a.make = [&](int d) { auto h = Hasher::Blake2b(Run::MMRHashless(d, {}).GetData()); std::vector<unsigned char> b(33); b[0] = 8; memcpy(b.data() + 1, h.data(), 32); return OutputIdentifier(d % 3 ? EOutputFeatures::DEFAULT : EOutputFeatures::COINBASE_OUTPUT, Commitment(CBigInteger<33>(b.data()))); }; Run r{ t, rng, a }; Prepare(r, a, n, t, rng); while (ops--) r.Op(); }
		else if (mode == "big") { Prun<OUTPUT_SIZE, OutputIdentifier> a; a.dir = scratch / "acc"; a.make = [&](int d) { auto h = Hasher::Blake2b(Run::MMRHashless(d, {}).GetData()); std::vector<unsigned char> b(33); b[0] = 8; memcpy(b.data() + 1, h.data(), 32); return OutputIdentifier(EOutputFeatures::DEFAULT, Commitment(CBigInteger<33>(b.data()))); }; Run r{ t, rng, a }; Prepare(r, a, rng.range(1000, 1060) + 1024 * rng.range(0, 1), t, rng); ops = 12; while (ops--) r.Op(); }
		else if (mode == "proof") { Prun<RANGE_PROOF_SIZE, RangeProof> a; a.dir = scratch / "acc"; a.make = [&](int d) { std::vector<unsigned char> b(675); for (size_t i = 0; i < b.size(); i++) b[i] = (unsigned char)(d * 31 + i * (d % 7 + 1)); b[0] = d; b[1] = d >> 8; return RangeProof(std::move(b)); }; Run r{ t, rng, a }; Prepare(r, a, n, t, rng); while (ops--) r.Op(); }
		else if (mode == "kernel") { std::error_code ec; fs::remove_all(scratch / "ker", ec); KerAcc a(scratch / "ker", w); a.reload(); a.bytes(1000); a.commit(); Run r{ t, rng, a }; r.floor = 1; r.Begin(1, {}, {}, { 1000 }); while (ops--) r.Op(); }
		else { std::error_code ec; fs::remove_all(Global::GetConfig().GetChainPath(), ec); fs::create_directories(Global::GetConfig().GetChainPath()); HdrAcc a; a.reload(); Run r{ t, rng, a }; r.Begin(0, {}, {}, {}); while (ops--) r.Op(); }
	}
}
