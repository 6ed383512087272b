// usage: store OUT.ndjson SCRATCH SEED NTRACES MODE[file|bitmap|db|chain]
// The stores beneath the node, driven directly: batches, plain writes, rollbacks, drops, reopenings and kills
// in the middle of a batch.  Every step logs all that can be read back.
#include "lib.h"
#include <Core/File/DataFile.h>
#include <Core/File/BitmapFile.h>
#include <Core/Traits/Lockable.h>
#include <Core/Models/SpentOutput.h>
#include <Core/Models/OutputLocation.h>
#include <BlockChain/Chain.h>
#include <BlockChain/BlockIndex.h>
#include <BlockChain/ChainStore.h>

static Trace t;
using Ints = std::vector<int>;
static std::vector<unsigned char> Bytes(int d, size_t n) { std::vector<unsigned char> b(n); for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(d * 31 + i * (d % 7 + 1)); b[0] = d; b[1] = d >> 8; return b; }
static int IdOf(const std::vector<unsigned char>& b) { if (b.size() < 2) return -1; int d = b[0] | b[1] << 8; return Bytes(d, b.size()) == b ? d : -3; }

struct Store {
	virtual ~Store() {}
	virtual void Open() = 0; virtual void Close() = 0; virtual void Begin(bool batch) = 0; virtual void Commit() = 0; virtual void Rollback() = 0; virtual void End() = 0;
	virtual bool Writing() = 0; virtual void Op(Rng&, J&) = 0; virtual void Content(J&) = 0;
	virtual void Single(Rng&) {}
};
template <class T> struct Lk { std::shared_ptr<Locked<T>> l; std::unique_ptr<Writer<T>> w; template <class F> void get(F f) { if (w) f((const T&)**w); else { auto r = l->Read(); f(*r); } } };

template <size_t N> struct FileStore : Store {
	Lk<DataFile<N>> f; fs::path p; FileStore(const fs::path& d) : p(d / "data.bin") {}
	void Open() override { f.l = std::make_shared<Locked<DataFile<N>>>(DataFile<N>::Load(p)); } void Close() override { f.w.reset(); f.l.reset(); }
	void Begin(bool b) override { f.w = std::make_unique<Writer<DataFile<N>>>(b ? f.l->BatchWrite() : f.l->Write()); }
	void Commit() override { (*f.w)->Commit(); } void Rollback() override { (*f.w)->Rollback(); } void End() override { f.w.reset(); } bool Writing() override { return !!f.w; }
	void Op(Rng& r, J& j) override {
		auto& w = *f.w; int n = (int)w->GetSize();
		if (r.chance(0.55)) { Ints ds; int c = r.chance(0.2) ? r.range(2, 40) : 1; for (int i = 0; i < c; i++) { int d = r.range(1, 60000); ds.push_back(d); if (N == 32 && r.chance(0.5)) w->AddData(Bytes(d, N)); else w->AddData(CBigInteger<N>(Bytes(d, N).data())); } j("e", "Append")("ds", ds); }
		else { int m = r.chance(0.1) ? n + r.range(1, 3) : r.chance(0.5) ? std::max(0, n - r.range(0, 4)) : r.range(0, n); std::string res = "ok"; try { w->Rewind(m); } catch (FileException&) { res = "refused"; } j("e", "Rewind")("n", m)("r", res); }
	}
	void Content(J& j) override { f.get([&](const DataFile<N>& d) { Ints v; for (uint64_t i = 0; i < d.GetSize(); i++) v.push_back(IdOf(d.GetDataAt(i))); j("log", v); }); }
};
struct BitStore : Store {
	Lk<BitmapFile> f; fs::path p; BitStore(const fs::path& d) : p(d / "bits" / "leaf.bin") { fs::create_directories(p.parent_path()); }
	void Open() override { f.l = std::make_shared<Locked<BitmapFile>>(BitmapFile::Load(p)); } void Close() override { f.w.reset(); f.l.reset(); }
	void Begin(bool b) override { f.w = std::make_unique<Writer<BitmapFile>>(b ? f.l->BatchWrite() : f.l->Write()); }
	void Commit() override { (*f.w)->Commit(); } void Rollback() override { (*f.w)->Rollback(); } void End() override { f.w.reset(); } bool Writing() override { return !!f.w; }
	static const int U = 120;
	void Op(Rng& r, J& j) override {
		auto& w = *f.w; int k = r.range(0, 99);
		if (k < 40) { int i = r.range(0, U); w->Set(i); j("e", "Set")("is", Ints{ i }); }
		else if (k < 65) { int i = r.range(0, U); w->Unset(i); j("e", "Unset")("is", Ints{ i }); }
		else if (k < 80) { Roaring b; Ints is; bool set = r.chance(0.6); int c = r.range(0, 20); std::set<int> s; while (c--) s.insert(r.range(0, U)); for (int i : s) { is.push_back(i); b.add((uint32_t)LeafIndex::At(i).GetPosition() + 1); if (r.chance(0.2)) { Index x = Index::At(LeafIndex::At(i).GetPosition()).GetParent(); b.add((uint32_t)x.GetPosition() + 1); } } if (set) w->Set(b); else w->Unset(b); j("e", set ? "Set" : "Unset")("is", is); }
		else { int n = r.range(0, U); Ints add; std::vector<uint64_t> a; for (int c = r.range(0, 6); c--;) { int i = r.range(0, U); add.push_back(i); a.push_back(i); } w->Rewind(n, a); j("e", "Keep")("n", n)("add", add); }
	}
	void Content(J& j) override { f.get([&](const BitmapFile& b) { Ints s, s2; for (int i = 0; i <= U + 20; i++) if (b.IsSet(i)) s.push_back(i); Roaring r = b.ToRoaring(); for (auto it = r.begin(); it != r.end(); it++) { Index x = Index::At(*it - 1); s2.push_back(x.IsLeaf() ? (int)x.GetLeafIndex() : -1); } j("set", s)("rset", s2); }); }
};
struct DbStore : Store {
	IDatabasePtr db; std::shared_ptr<Locked<IBlockDB>> l; std::unique_ptr<Writer<IBlockDB>> w; World& wd; fs::path dir; int bulk = 0;
	std::map<int, BlockHeaderPtr> hs; std::map<std::pair<int, int>, std::shared_ptr<FullBlock>> bs; static const int U = 7, BULK = 160;
	DbStore(const fs::path& d, World& x) : wd(x), dir(d) { for (int k = 0; k < U; k++) for (int v = 0; v < 3; v++) blk(k, v); }
	BlockHeaderPtr hdr(int d) { if (!hs.count(d)) { std::vector<uint64_t> n; for (int i = 0; i < 42; i++) n.push_back((uint64_t)d * 100 + i); auto g = Global::GetGenesisHeader(); hs[d] = std::make_shared<BlockHeader>(1, d * 3, 1000 + d, Hash(g->GetHash()), Hash(g->GetHash()), Hash(g->GetHash()), Hash(g->GetHash()), Hash(g->GetHash()), BlindingFactor(g->GetOffset()), 1, 1, 10 + d, 1, d, ProofOfWork(g->GetEdgeBits(), std::move(n))); } return hs[d]; }
	std::shared_ptr<FullBlock> blk(int d, int v) { auto& b = bs[{ d, v }]; fs::path pf = dir / ("blk" + std::to_string(d) + "_" + std::to_string(v)); std::ifstream in(pf, std::ios::binary); if (!b && in) { std::vector<uint8_t> y((std::istreambuf_iterator<char>(in)), {}); ByteBuffer bb(std::move(y)); b = std::make_shared<FullBlock>(FullBlock::Deserialize(bb)); } if (!b) { std::vector<TransactionInput> i; std::vector<TransactionOutput> o; std::vector<TransactionKernel> k; for (int x = 0; x <= v; x++) { o.push_back(wd.TxOut(wd.NewOut(1000 + d, false))); k.push_back(wd.kers[wd.NewKer(0, 500 + x, 0, BlindingFactor(wd.key("k" + std::to_string(d * 10 + x)).GetBytes()))].k); i.push_back(wd.TxIn(wd.NewOut(77 + d, v == 1))); } b = std::make_shared<FullBlock>(hdr(d), TransactionBody(std::move(i), std::move(o), std::move(k))); auto y = b->Serialized(); std::ofstream of(pf, std::ios::binary); of.write((const char*)y.data(), y.size()); } return b; }
	Hash hash(int d) { return hdr(d)->GetHash(); }
	Commitment com(int k) { auto b = Bytes(k + 1, 33); b[0] = 8; return Commitment(CBigInteger<33>(b.data())); }
	int comId(const Commitment& c) { for (int k = 0; k < 40; k++) if (com(k) == c) return k; return -1; }
	void Open() override { db = DatabaseAPI::OpenDatabase(Global::GetConfig()); l = db->GetBlockDB(); } void Close() override { w.reset(); l.reset(); db.reset(); }
	void Begin(bool b) override { w = std::make_unique<Writer<IBlockDB>>(b ? l->BatchWrite() : l->Write()); }
	void Commit() override { (*w)->Commit(); } void Rollback() override { (*w)->Rollback(); } void End() override { w.reset(); } bool Writing() override { return !!w; }
	void Op(Rng& r, J& j) override {
		IBlockDB& d = **w; int k = r.range(0, U - 1), v = r.range(0, 2);
		switch (r.range(0, 15)) {
		case 0: case 1: d.AddBlockHeader(hdr(k)); j("e", "Put")("t", "h")("k", k)("v", Ints{}); break;
		case 2: { std::vector<BlockHeaderPtr> v2; Ints ks; int a = r.range(0, BULK - 1), n = r.range(1, BULK - a); bool one = r.chance(0.3); for (int i = a; i < a + n; i++) { ks.push_back(100 + i); v2.push_back(hdr(100 + i)); } if (one) for (auto& h : v2) d.AddBlockHeader(h); else d.AddBlockHeaders(v2); j("e", "PutHeaders")("ks", ks); break; }
		case 3: case 4: d.AddBlock(*blk(k, v)); j("e", "Put")("t", "b")("k", k)("v", Ints{ v }); break;
		case 5: case 6: d.AddBlockSums(hash(k), BlockSums(com(v), com(v + 1))); j("e", "Put")("t", "s")("k", k)("v", Ints{ v, v + 1 }); break;
		case 7: case 8: case 9: { int lf = r.range(0, 5000), h = r.range(0, 5000); d.AddOutputPosition(com(k), OutputLocation(LeafIndex::At(lf), h)); j("e", "Put")("t", "p")("k", k)("v", Ints{ lf, h }); break; }
		case 10: { std::vector<Commitment> cs; Ints ks; for (int i = 0; i < U; i++) if (r.chance(0.3)) { ks.push_back(i); cs.push_back(com(i)); } r.shuffle(cs); d.RemoveOutputPositions(cs); j("e", "Del")("ks", ks); break; }
		case 11: case 12: { std::vector<SpentOutput> so; Ints flat; for (int i = 0; i < U; i++) if (r.chance(0.4)) { int lf = r.range(0, 900), h = r.range(0, 900); so.emplace_back(com(i), OutputLocation(LeafIndex::At(lf), h)); flat.push_back(i); flat.push_back(lf); flat.push_back(h); } d.AddSpentPositions(hash(k), so); j("e", "Put")("t", "x")("k", k)("v", flat); break; }
		case 13: { int ver = r.range(0, 5); d.SetVersion(ver); j("e", "Put")("t", "v")("k", 0)("v", Ints{ ver }); break; }
		default: { if (!r.chance(0.5)) { d.AddBlockHeader(hdr(k)); j("e", "Put")("t", "h")("k", k)("v", Ints{}); break; } int c = r.range(0, 3); if (c == 0) d.ClearBlocks(); else if (c == 1) d.ClearBlockSums(); else if (c == 2) d.ClearOutputPositions(); else d.ClearSpentPositions(); j("e", "Clear")("t", c == 0 ? "b" : c == 1 ? "s" : c == 2 ? "p" : "x"); }
		}
	}
	void Content(J& j) override {
		auto f = [&](const IBlockDB& d) {
			std::vector<std::vector<int>> c[5]; Ints hb; auto same = [&](const BlockHeaderPtr& h, int k) { return h->Serialized() == hdr(k)->Serialized(); };
			for (int k = 0; k < U; k++) { if (auto h = d.GetBlockHeader(hash(k))) c[0].push_back({ k, same(h, k) ? 0 : -3 });
				if (auto b = d.GetBlock(hash(k))) { int v = -3; for (int x = 0; x < 3; x++) if (b->Serialized() == blk(k, x)->Serialized()) v = x; c[1].push_back({ k, v }); }
				if (auto s = d.GetBlockSums(hash(k))) c[2].push_back({ k, comId(s->GetOutputSum()), comId(s->GetKernelSum()) });
				if (auto p = d.GetOutputPosition(com(k))) c[3].push_back({ k, (int)p->GetLeafIndex().Get(), (int)p->GetBlockHeight() });
				try { auto m = d.GetSpentPositions(hash(k)); Ints e{ k }; for (int i = 0; i < 40; i++) { auto it = m.find(com(i)); if (it != m.end()) { e.push_back(i); e.push_back((int)it->second.GetLeafIndex().Get()); e.push_back((int)it->second.GetBlockHeight()); } } if (e.size() != m.size() * 3 + 1) e.push_back(-3); c[4].push_back(e); } catch (std::exception&) {} }
			for (int i = 0; i < BULK; i++) if (auto h = d.GetBlockHeader(hash(100 + i))) hb.push_back(same(h, 100 + i) ? 100 + i : -3);
			j("h", c[0])("hb", hb)("b", c[1])("s", c[2])("p", c[3])("x", c[4])("ver", (int)d.GetVersion());
		};
		if (w) f(**w); else { auto r = l->Read(); f(*r); }
	}
	void Single(Rng& r) override { // drop blocks beyond the horizon of a long chain
		int H = r.chance(0.2) ? r.range(1, 10080) : 10080 + r.range(0, 25); fs::path p = dir / "long.chain"; { std::ofstream o(p, std::ios::binary | std::ios::trunc); std::string z(32, 'x'); for (int i = 0; i <= H; i++) { memcpy(&z[0], &i, 4); o.write(z.data(), 32); } }
		auto ch = Chain::Load(std::make_shared<BlockIndexAllocator>(), EChainType::CONFIRMED, p, std::make_shared<BlockIndex>(Hash(hash(0)), 0)); fs::remove(p);
		std::string m = "batch"; { auto b = l->BatchWrite(); b->Compact(ch); if (r.chance(0.8)) b->Commit(); else m = "drop"; }
		J j; j("e", "Compact")("H", H)("m", m); Content(j); t.log(j);
	}
};
struct ChStore : Store {
	std::shared_ptr<Locked<ChainStore>> l; std::unique_ptr<Writer<ChainStore>> w; static Hash hash(int d) { if (d == 0) return Global::GetGenesisBlock().GetHash(); return Hash(CBigInteger<32>(Bytes(d, 32).data())); }
	static int id(const Hash& h) { if (h == hash(0)) return 0; std::vector<unsigned char> b(h.data(), h.data() + 32); return ::IdOf(b); }
	void Open() override { l = ChainStore::Load(Global::GetConfig(), std::make_shared<BlockIndex>(hash(0), 0)); } void Close() override { w.reset(); l.reset(); }
	void Begin(bool b) override { w = std::make_unique<Writer<ChainStore>>(b ? l->BatchWrite() : l->Write()); }
	void Commit() override { (*w)->Commit(); } void Rollback() override { (*w)->Rollback(); } void End() override { w.reset(); } bool Writing() override { return !!w; }
	void Op(Rng& r, J& j) override {
		ChainStore& s = **w; EChainType T[2] = { EChainType::CONFIRMED, EChainType::CANDIDATE }; const char* nm[2] = { "conf", "cand" }; int c = r.range(0, 1); auto ch = s.GetChain(T[c]); int h = (int)ch->GetHeight(); std::string res = "ok"; int k = r.range(0, 99);
		auto tr = [&](std::function<void()> f) { try { f(); } catch (std::exception&) { res = "refused"; } };
		if (k < 40) { int d = r.range(1, 50000), at = r.chance(0.1) ? r.range(0, h + 3) : h + 1; tr([&] { ch->AddBlock(hash(d), at); }); j("e", "Add")("c", nm[c])("d", d)("h", at); }
		else if (k < 60) { int to = r.chance(0.1) ? h + r.range(1, 2) : r.chance(0.5) ? std::max(0, h - r.range(0, 3)) : r.range(0, h); tr([&] { ch->Rewind(to); }); j("e", "Cut")("c", nm[c])("h", to); }
		else if (k < 80) { int sh = (int)s.GetChain(T[1 - c])->GetHeight(); bool full = r.chance(0.5); int to = full ? sh : r.chance(0.15) ? sh + r.range(1, 2) : r.range(0, sh); tr([&] { if (full) s.ReorgChain(T[1 - c], T[c]); else s.ReorgChain(T[1 - c], T[c], to); }); j("e", "Follow")("c", nm[c])("h", to); }
		else { auto sc = s.GetChain(T[1 - c]); if (sc->GetHeight() > ch->GetHeight() && !sc->IsOnChain(h, ch->GetTipHash())) { ch->Rewind(0); j("e", "Cut")("c", nm[c])("h", 0)("r", res); return; } int at = r.chance(0.2) ? r.range(0, h + 3) : h + 1; tr([&] { s.AddBlock(T[1 - c], T[c], at); }); j("e", "Step")("c", nm[c])("h", at); }
		j("r", res);
	}
	void Content(J& j) override {
		auto f = [&](const ChainStore& s) { for (int c = 0; c < 2; c++) { auto ch = s.GetChain(c ? EChainType::CANDIDATE : EChainType::CONFIRMED); Ints v; bool ok = true; for (uint64_t h = 0; h <= ch->GetHeight(); h++) { auto x = ch->GetByHeight(h); v.push_back(x ? id(x->GetHash()) : -1); ok = ok && x && x->GetHeight() == h && ch->IsOnChain(h, x->GetHash()) && ch->GetHash(h) == x->GetHash() && !ch->IsOnChain(h, hash(60001)); }
			ok = ok && !ch->GetByHeight(ch->GetHeight() + 1) && !ch->GetByHeight(ch->GetHeight() + 7) && !ch->IsOnChain(ch->GetHeight() + 1, hash(v.back())) && ch->GetTipHash() == hash(v.back()) && ch->GetTip()->GetHeight() == ch->GetHeight(); j(c ? "cand" : "conf", v)(c ? "okc" : "okf", ok); }
			auto ci = s.FindCommonIndex(EChainType::CONFIRMED, EChainType::CANDIDATE); j("common", ci ? (int)ci->GetHeight() : -1); };
		if (w) f(**w); else { auto r = l->Read(); f(*r); }
	}
};

static void Phase(Store& s, Rng& r, bool first, bool last) {
	s.Open(); { J j; j("e", first ? "Reset" : "Open"); s.Content(j); t.log(j); }
	int ops = r.range(8, 30); bool batch = false;
	while (ops-- > 0) {
		if (!s.Writing()) { if (r.chance(0.1)) { s.Single(r); continue; } if (r.chance(0.1)) { s.Close(); s.Open(); J j; j("e", "Open"); s.Content(j); t.log(j); continue; } batch = r.chance(0.75); s.Begin(batch); J j; j("e", "Begin")("m", batch ? "batch" : "single"); s.Content(j); t.log(j); continue; }
		int k = r.range(0, 99); J j;
		if (k < 70) s.Op(r, j);
		else if (k < 80 && batch) { s.Commit(); j("e", "Commit"); }
		else if (k < 87 && batch) { s.Rollback(); j("e", "Rollback"); }
		else if (k < 92 && batch) { try { throw std::runtime_error("x"); } catch (std::exception&) { s.End(); } j("e", "End"); }
		else { s.End(); j("e", "End"); }
		s.Content(j); t.log(j);
	}
	if (!last && r.chance(0.7)) { fflush(t.f); _exit(0); } // killed wherever it was
	if (s.Writing()) { s.End(); J j; j("e", "End"); s.Content(j); t.log(j); } s.Close();
}
int main(int c, char** v) {
	if (c < 6) return 3; fs::path scratch = v[2]; uint64_t seed = strtoull(v[3], 0, 10); int traces = atoi(v[4]); std::string mode = v[5];
	{ Trace z; z.open(v[1]); }
	for (int k = 0; k < traces; k++) {
		fs::path d = scratch / "s"; std::error_code ec; fs::remove_all(d, ec); fs::create_directories(d); Rng pr(seed * 1000 + k); int phases = pr.range(1, 4);
		for (int p = 0; p < phases; p++) {
			fflush(nullptr); pid_t pid = fork(); if (pid < 0) return 3;
			if (pid == 0) {
				signal(SIGABRT, SIG_DFL); t.f = fopen(v[1], "a"); if (!t.f) _exit(3); Setup(d); Node::MakeDirs(); World w(seed); Rng r(seed * 100000 + k * 10 + p + 7);
				std::unique_ptr<Store> s; if (mode == "file") { if (k % 2) s.reset(new FileStore<32>(d)); else s.reset(new FileStore<33>(d)); } else if (mode == "bitmap") s.reset(new BitStore(d)); else if (mode == "db") s.reset(new DbStore(d, w)); else s.reset(new ChStore());
				try { Phase(*s, r, p == 0, p == phases - 1); } catch (std::exception& e) { fprintf(stderr, "%s\n", e.what()); _exit(1); }
				fflush(t.f); _exit(0);
			}
			int st; if (waitpid(pid, &st, 0) < 0) return 3; if (WIFSIGNALED(st)) { fprintf(stderr, "killed by signal %d\n", WTERMSIG(st)); raise(SIGABRT); } if (WEXITSTATUS(st)) return WEXITSTATUS(st);
		}
	}
}
