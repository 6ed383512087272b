// Blocks on an arbitrary tree, with ideal roots, described to the specification.
#pragma once
#include "lib.h"

struct Blk {
	int id = 0, parent = -1; uint64_t height = 0, td = 0; int64_t ts = 0; Hash hash; BlockHeaderPtr hdr; std::shared_ptr<FullBlock> fb;
	Ideal ideal; BlindingFactor offset; std::map<int, uint64_t> utxo; // out id -> height, on this branch
	std::vector<int> in, out, ker, kerSet; std::string flaw; bool good = true, hdrGood = true; std::vector<Tx> txs; std::string def;
	std::vector<int> kers; // all kernels on the branch
	std::string sums[2];
	BlindingFactor sumOut, sumKer; // accumulated blinds (see Sums)
};

struct Flaw { // what to get wrong
	std::string kind;
};

struct Tree {
	World w; std::vector<Blk> b; Rng rng; uint64_t nonceCounter = 0; uint64_t tagSalt; int64_t baseTs; uint64_t baseTd;
	std::vector<int> spareOuts; // outputs that are never created on any chain
	Tree(uint64_t seed) : w(seed), rng(seed), tagSalt(seed) { Genesis(); }

	void Genesis() {
		const FullBlock& g = Global::GetGenesisBlock();
		Blk x; x.id = 0; x.parent = -1; x.hdr = g.GetHeader(); x.hash = g.GetHash(); x.fb = std::make_shared<FullBlock>(g);
		x.td = g.GetTotalDifficulty(); x.ts = x.hdr->GetTimestamp(); x.offset = g.GetTotalKernelOffset();
		baseTs = x.ts; baseTd = x.td;
		const auto& o = g.GetOutputs().front();
		w.outs.push_back(Out{ 0, (uint64_t)Consensus::REWARD, true, SecretKey(), o.GetCommitment(), o.GetRangeProof() }); w.byC[o.GetCommitment()] = 0;
		const auto& k = g.GetKernels().front();
		w.kers.push_back(Ker{ 0, 1, 0, 0, true, 0, k }); w.kerByHash[k.GetHash()] = 0;
		x.out = { 0 }; x.ker = { 0 }; x.kers = { 0 };
		Append(x.ideal, x.fb->GetTransactionBody(), *x.hdr);
		x.utxo[0] = 0;
		auto dlog = [](const Commitment& c) { std::vector<unsigned char> d(c.data() + 1, c.data() + 33); if (c.data()[0] & 1) secp256k1_ec_privkey_negate(nullptr, d.data()); return BlindingFactor(Hash(CBigInteger<32>(d.data()))); };
		(void)dlog;
		b.push_back(x);
	}
	static void Append(Ideal& i, const TransactionBody& body, const BlockHeader& h) { AppendBody(i, body); AppendHdr(i, h); }
	static void AppendBody(Ideal& i, const TransactionBody& body) {
		for (const auto& o : body.GetOutputs()) {
			i.out.add([&](uint64_t p) { return OutputIdentifier::FromOutput(o).SerializeWithIndex(p); });
			i.rp.add([&](uint64_t p) { return o.GetRangeProof().SerializeWithIndex(p); });
		}
		for (const auto& k : body.GetKernels()) i.ker.add([&](uint64_t p) { return k.SerializeWithIndex(p); });
	}
	static void AppendHdr(Ideal& i, const BlockHeader& h) { i.hdr.add([&](uint64_t p) { return h.SerializeWithIndex(p); }); }

	ProofOfWork Pow() {
		std::vector<uint64_t> n = Global::GetGenesisHeader()->GetProofNonces();
		nonceCounter++; n[0] = 1 + (nonceCounter & 0xffff); n[1] = 70000 + (tagSalt % 60000); for (size_t i = 2; i < n.size(); i++) if (n[i] <= n[i - 1]) n[i] = n[i - 1] + 1;
		return ProofOfWork(Global::GetGenesisHeader()->GetEdgeBits(), std::move(n));
	}

	bool Mature(int o, uint64_t h, uint64_t nextHeight) { return !w.outs[o].cb || h <= (nextHeight > 25 ? nextHeight - 25 : 0); }
	std::vector<int> Spendable(const Blk& p, bool nonCbFirst = false) {
		std::vector<int> r; for (auto& kv : p.utxo) if (kv.first != 0 && Mature(kv.first, kv.second, p.height + 1)) r.push_back(kv.first);
		return r;
	}
	// A random valid transaction over the given spendable outputs (removes what it takes).
	Tx RandomTx(std::vector<int>& avail, uint64_t nextHeight, uint64_t feeUnits = 0, bool allowLock = true) {
		int nin = rng.range(1, std::min<int>(3, (int)avail.size())); std::vector<int> in; uint64_t sum = 0;
		for (int i = 0; i < nin; i++) { size_t k = rng.below(avail.size()); in.push_back(avail[k]); sum += w.outs[avail[k]].value; avail.erase(avail.begin() + k); }
		int nout = rng.range(1, 3); uint64_t fee = feeUnits ? feeUnits * UNIT : (uint64_t)rng.range(400, 900) * UNIT;
		if (sum <= fee + nout * UNIT) { fee = UNIT; nout = 1; }
		std::vector<int> out; uint64_t left = sum - fee;
		for (int i = 0; i < nout; i++) { uint64_t v = i == nout - 1 ? left : (1 + rng.below(left / UNIT - (nout - i) + 0)) * UNIT; if (v >= left && i != nout - 1) v = UNIT; if (v > left) v = left; out.push_back(w.NewOut(v, false)); left -= v; }
		int feat = 0; uint64_t lock = 0;
		if (allowLock && rng.chance(0.25)) { feat = 2; lock = rng.chance(0.5) ? nextHeight : (nextHeight > 3 ? nextHeight - rng.below(3) : nextHeight); }
		return w.MakeTx(in, out, feat, lock);
	}

	// Mines a block on `parent` from the given transactions, wrong in the way `flaw` says.
	int Mine(int parentId, std::vector<Tx> txs, uint64_t work, const std::string& flaw = "", int64_t dts = 60) {
		Blk p = b[parentId];
		Blk x; x.id = (int)b.size(); x.parent = parentId; x.height = p.height + 1; x.td = p.td + work; x.ts = p.ts + dts; x.flaw = flaw; x.txs = txs;
		std::vector<TransactionInput> ins; std::vector<TransactionOutput> outs; std::vector<TransactionKernel> kers;
		std::vector<std::array<int, 2>> jin; std::vector<std::array<int, 5>> jout; std::vector<std::array<int64_t, 5>> jker;
		uint64_t fees = 0; std::vector<BlindingFactor> offs{ p.offset };
		bool offOK = true, cbBlind = true, balanced = true;
		auto addOut = [&](int o, bool okProof = true, std::optional<RangeProof> rp = std::nullopt) { auto t = w.TxOut(o); if (rp) t = TransactionOutput(t.GetFeatures(), t.GetCommitment(), *rp); outs.push_back(t); x.out.push_back(o); jout.push_back({ o, w.outs[o].cb, (int)(w.outs[o].value / UNIT), okProof, 0 }); };
		auto addIn = [&](int o, bool flip = false) { ins.push_back(w.TxIn(o, flip)); x.in.push_back(o); jin.push_back({ o, (int)(w.outs[o].cb != flip) }); };
		auto addKer = [&](int k) { kers.push_back(w.kers[k].k); x.ker.push_back(k); jker.push_back({ k, w.kers[k].feat, (int64_t)(w.kers[k].fee / UNIT), (int64_t)w.kers[k].lock, w.kers[k].sigok }); fees += w.kers[k].fee; };
		auto addTx = [&](const Tx& t) { for (int i : t.in) addIn(i); for (int o : t.out) addOut(o); for (int k : t.ker) addKer(k); offs.push_back(t.offset); };
		for (size_t ti = 0; ti < txs.size(); ti++) addTx(txs[ti]);
		// --- body flaws that add a transaction of their own
		std::vector<int> avail = Spendable(p); { std::vector<int> a2; for (int o : avail) if (std::find(x.in.begin(), x.in.end(), o) == x.in.end()) a2.push_back(o); avail = a2; }
		auto change = [&](uint64_t v) { return w.NewOut(v, false); };
		const uint64_t F = 500 * UNIT;
		if (flaw == "unknown-input") { int o = w.NewOut(10000 * UNIT, false); addTx(w.MakeTx({ o }, { change(10000 * UNIT - F) })); }
		else if (flaw == "spent-input" || flaw == "other-fork-input") {
			int cand = -1;
			for (auto& y : b) for (int o : (flaw == "spent-input" ? y.in : y.out)) { bool onChain = false; for (int q = parentId; q > 0; q = b[q].parent) if (q == y.id) onChain = true; if (o != 0 && onChain == (flaw == "spent-input") && !p.utxo.count(o) && w.outs[o].value > 2 * F && (!w.outs[o].cb)) cand = o; }
			if (cand < 0) { cand = w.NewOut(10000 * UNIT, false); }
			addTx(w.MakeTx({ cand }, { change(w.outs[cand].value - F) }));
		}
		else if (flaw == "immature" || flaw == "immature-flip") { // the youngest coinbase that is just too young
			int cand = -1; for (auto& kv : p.utxo) if (kv.first && w.outs[kv.first].cb && !Mature(kv.first, kv.second, x.height) && (cand < 0 || kv.second < p.utxo[cand])) cand = kv.first;
			if (cand < 0) return -1;
			Tx t = w.MakeTx({ cand }, { change(w.outs[cand].value - F) }); 
			for (int i : t.in) addIn(i, flaw == "immature-flip"); for (int o : t.out) addOut(o); for (int k : t.ker) addKer(k); offs.push_back(t.offset);
		}
		else if (flaw == "dup-unspent-output") { int cand = -1; for (auto& kv : p.utxo) if (kv.first && !w.outs[kv.first].cb) cand = kv.first; if (cand < 0 || avail.empty()) return -1;
			std::vector<int> in; uint64_t s = 0; for (int o : avail) if (o != cand) { in.push_back(o); s += w.outs[o].value; if (s > w.outs[cand].value + 2 * F) break; } if (s <= w.outs[cand].value + F) return -1;
			addTx(w.MakeTx(in, { cand, change(s - w.outs[cand].value - F) })); }
		else if (flaw == "dup-output-same-block" || flaw == "dup-output-badproof") { if (avail.empty()) return -1; int i = avail[0]; uint64_t v = w.outs[i].value; if (v < 3 * F) return -1; uint64_t h = (v - F) / UNIT / 3 * UNIT; int o = change(h);
			addTx(w.MakeTx({ i }, { o, o, change(v - F - 2 * h + 0) })); if (w.outs[x.out.back()].value == 0) return -1; }
		else if (flaw == "dup-input") { // the same output spent twice, under the same or different features
			if (avail.empty()) return -1; int i = avail[0]; uint64_t v = w.outs[i].value; Tx t = w.MakeTx({ i, i }, { change(2 * v - F) });
			bool flip = rng.chance(0.5); addIn(i); addIn(i, flip); addOut(t.out[0]); addKer(t.ker[0]); offs.push_back(t.offset); }
		else if (flaw == "dup-kernel") { if (avail.size() < 1) return -1; // two transactions with one and the same kernel
			int i = avail[0]; uint64_t v = w.outs[i].value; if (v < 8 * F) return -1; uint64_t h = v / UNIT / 2 * UNIT; (void)h;
			// excess e twice: sum of blinds - offset = 2e
			int o1 = change(v - 2 * F); BlindingFactor e(w.key("dupk" + std::to_string(w.kers.size()) + ":" + std::to_string(w.salt)).GetBytes());
			int k = w.NewKer(0, F, 0, e); BlindingFactor off = Crypto::AddBlindingFactors({ w.blindOf(o1) }, { w.blindOf(i), e, e });
			addIn(i); addOut(o1); addKer(k); addKer(k); offs.push_back(off); }
		else if (flaw == "no-cut-through") { if (avail.empty()) return -1; int i = avail[0]; int o = change(w.outs[i].value - F); addTx(w.MakeTx({ i }, { o })); addTx(w.MakeTx({ o }, { change(w.outs[o].value - F) })); }
		else if (flaw == "bad-proof") { if (avail.empty()) return -1; int i = avail[0]; int o = w.NewOut(w.outs[i].value - F, false, true); Tx t = w.MakeTx({ i }, { o }); addIn(i); addOut(o, false); addKer(t.ker[0]); offs.push_back(t.offset); }
		else if (flaw == "bad-proof-seen" || flaw == "proof-length") { // an output whose genuine proof was verified before, now with a damaged one; a proof cut short
			if (avail.empty()) return -1; int i = avail[0]; int o = w.NewOut(w.outs[i].value - F, false); w.Damage(o, flaw == "proof-length"); Tx t = w.MakeTx({ i }, { o }); addIn(i); addOut(o, false); addKer(t.ker[0]); offs.push_back(t.offset); }
		else if (flaw == "bad-sig") { if (avail.empty()) return -1; int i = avail[0]; addTx(w.MakeTx({ i }, { change(w.outs[i].value - F) }, 0, 0, false)); }
		else if (flaw == "lock-height") { if (avail.empty()) return -1; int i = avail[0]; addTx(w.MakeTx({ i }, { change(w.outs[i].value - F) }, 2, x.height + 1)); }
		else if (flaw == "inflate-tx") { if (avail.empty()) return -1; int i = avail[0]; addTx(w.MakeTx({ i }, { change(w.outs[i].value + 7 * UNIT) }, 0, 0, true, (int64_t)F + 7 * (int64_t)UNIT)); }
		else if (flaw == "deflate-tx") { if (avail.empty()) return -1; int i = avail[0]; addTx(w.MakeTx({ i }, { change(w.outs[i].value - F - UNIT) }, 0, 0, true, -(int64_t)UNIT)); }
		else if (flaw == "overweight") { if (avail.empty()) return -1; int i = avail.back(); std::vector<int> os; uint64_t v = w.outs[i].value; if (v < 3000 * UNIT) return -1; for (int k = 0; k < 1904; k++) os.push_back(change(UNIT)); os.push_back(change(v - F - 1904 * UNIT)); addTx(w.MakeTx({ i }, os)); }
		// --- coinbase
		uint64_t reward = Consensus::REWARD + fees;
		if (flaw == "coinbase-more") reward += UNIT; else if (flaw == "coinbase-less") reward -= UNIT; else if (flaw == "coinbase-nofees") reward = Consensus::REWARD - 3 * UNIT;
		if (flaw == "two-coinbases" || flaw == "two-coinbases-bad") {
			uint64_t r1 = reward / UNIT / 3 * UNIT; int o1 = w.NewOut(r1, true), o2 = w.NewOut(reward - r1 + (flaw == "two-coinbases-bad" ? UNIT : 0), true);
			addOut(o1); addOut(o2); addKer(w.NewKer(1, 0, 0, w.blindOf(o1))); addKer(w.NewKer(1, 0, 0, w.blindOf(o2)));
		} else if (flaw == "no-coinbase-flag") { // the reward as a plain output under a plain kernel
			int o = w.NewOut(reward, false); addOut(o); addKer(w.NewKer(0, 0, 0, w.blindOf(o)));
		} else {
			int o = w.NewOut(reward, true);
			BlindingFactor e = w.blindOf(o);
			if (flaw == "coinbase-offset") { BlindingFactor d(w.key("cboff").GetBytes()); e = Crypto::AddBlindingFactors({ e }, { d }); offs.push_back(d); cbBlind = false; }
			addOut(o); addKer(w.NewKer(1, 0, 0, e));
		}
		if (flaw == "missing-kernel") { if (x.ker.size() < 2) return -1; kers.erase(kers.begin()); x.ker.erase(x.ker.begin()); jker.erase(jker.begin()); balanced = false; }
		BlindingFactor off = Crypto::AddBlindingFactors(offs, {});
		if (flaw == "bad-offset") { off = Crypto::AddBlindingFactors({ off, BlindingFactor(w.key("x").GetBytes()) }, {}); offOK = false; }
		x.offset = off;
		TransactionBody body(std::move(ins), std::move(outs), std::move(kers));
		bool sorted = true;
		if (flaw == "unsorted-outputs" || flaw == "unsorted-kernels" || flaw == "unsorted-inputs") {
			auto I = body.GetInputs(); auto O = body.GetOutputs(); auto K = body.GetKernels();
			if (flaw == "unsorted-outputs") { if (O.size() < 2) return -1; std::swap(O[0], O[O.size() - 1]); } else if (flaw == "unsorted-kernels") { if (K.size() < 2) return -1; std::swap(K[0], K[K.size() - 1]); } else { if (I.size() < 2) return -1; std::swap(I[0], I[I.size() - 1]); }
			sorted = false; body = TransactionBody::NoSort(I, O, K);
		}
		x.ideal = p.ideal; AppendBody(x.ideal, body);
		Hash oroot = x.ideal.out.root(), rroot = x.ideal.rp.root(), kroot = x.ideal.ker.root(), hroot = p.ideal.hdr.root();
		uint64_t osz = x.ideal.out.size, ksz = x.ideal.ker.size;
		std::string iroots = "[" + J::v(sh(oroot)) + "," + J::v(sh(rroot)) + "," + J::v(sh(kroot)) + "," + J::v(osz) + "," + J::v(ksz) + "]", ihroot = sh(hroot);
		auto other = [&](Hash& h) { auto v = h.GetData(); std::vector<unsigned char> d(h.data(), h.data() + 32); d[1] ^= 0x10; h = Hash(CBigInteger<32>(d.data())); };
		if (flaw == "output-root") other(oroot); if (flaw == "proof-root") other(rroot); if (flaw == "kernel-root") other(kroot); if (flaw == "header-root") other(hroot);
		if (flaw == "output-size") osz += 1; if (flaw == "kernel-size") ksz += 1;
		if (flaw == "output-size-next") { IdealMMR m = x.ideal.out; m.add([](uint64_t) { return std::vector<unsigned char>{ 1 }; }); osz = m.size; }
		if (flaw == "output-size-less") { osz = p.ideal.out.size; } if (flaw == "kernel-size-less") { ksz = p.ideal.ker.size; }
		uint16_t ver = 1; uint64_t h = x.height; uint64_t td = x.td; int64_t ts = x.ts; bool future = false;
		if (flaw == "version") ver = 2; if (flaw == "height-skip") h += 1; if (flaw == "ts-equal") ts = p.ts; if (flaw == "ts-before") ts = p.ts - 1;
		if (flaw == "ts-future") { ts = (int64_t)time(nullptr) + 5 * 60 + 120; future = true; }
		if (flaw == "ts-near-future") { ts = (int64_t)time(nullptr) + 3 * 60; }
		if (!future && ts > (int64_t)time(nullptr)) ts = std::min(ts, std::max((int64_t)time(nullptr) + 3 * 60, p.ts) + 1); // stay clear of the limit
		x.ts = ts; x.height = h; x.td = td;
		x.hdr = std::make_shared<BlockHeader>(ver, h, ts, Hash(p.hash), Hash(hroot), Hash(oroot), Hash(rroot), Hash(kroot), BlindingFactor(off), osz, ksz, td, 10, (uint64_t)x.id, Pow());
		x.hash = x.hdr->GetHash();
		x.fb = std::make_shared<FullBlock>(x.hdr, TransactionBody(body));
		AppendHdr(x.ideal, *x.hdr);
		x.utxo = p.utxo; for (int i : x.in) x.utxo.erase(i);
		// leaf order is body order
		x.kers = p.kers; x.out.clear(); x.kerSet.clear();
		for (const auto& o : body.GetOutputs()) { int oid = w.byC[o.GetCommitment()]; x.utxo[oid] = h; x.out.push_back(oid); }
		for (const auto& k : body.GetKernels()) { x.kerSet.push_back(w.kerByHash[k.GetHash()]); x.kers.push_back(w.kerByHash[k.GetHash()]); }
		static const std::set<std::string> hflaws{ "header-root", "version", "height-skip", "ts-equal", "ts-before", "ts-future" };
		x.hdrGood = p.hdrGood && !hflaws.count(flaw); x.good = p.good && (flaw.empty() || flaw == "two-coinbases" || flaw == "ts-near-future");
		// description
		std::map<int, std::array<int, 5>> od; for (auto& a : jout) od[a[0]] = a;
		std::string so = "["; for (size_t i = 0; i < x.out.size(); i++) { auto a = od[x.out[i]]; so += (i ? ",[" : "[") + J::v(a[0]) + "," + J::v(a[1]) + "," + J::v(a[2]) + "," + J::v(a[3]) + "]"; } so += "]";
		std::string si = "["; for (size_t i = 0; i < jin.size(); i++) si += (i ? ",[" : "[") + J::v(jin[i][0]) + "," + J::v(jin[i][1]) + "," + J::v((int)(w.outs[jin[i][0]].value / UNIT)) + "]"; si += "]";
		std::map<int, std::array<int64_t, 5>> kd; for (auto& a : jker) kd[(int)a[0]] = a;
		std::string sk = "["; for (size_t i = 0; i < x.kerSet.size(); i++) { auto a = kd[x.kerSet[i]]; sk += (i ? ",[" : "[") + J::v(a[0]) + "," + J::v(a[1]) + "," + J::v(a[2]) + "," + J::v(a[3]) + "," + J::v(a[4]) + "]"; } sk += "]";
		J j; j("e", "Block")("id", x.id)("parent", parentId)("height", h)("td", td - baseTd)("ts", ts - baseTs)("ver", (int)ver)("future", future)("flaw", flaw);
		raw(j, "in", si); raw(j, "out", so); raw(j, "ker", sk);
		j("sorted", sorted)("off", offOK)("cbb", cbBlind)("bal", balanced)("hroot", sh(hroot))("ihroot", ihroot);
		raw(j, "roots", "[" + J::v(sh(oroot)) + "," + J::v(sh(rroot)) + "," + J::v(sh(kroot)) + "," + J::v(osz) + "," + J::v(ksz) + "]"); raw(j, "iroots", iroots);
		x.def = j.str();
		b.push_back(x);
		return x.id;
	}
	// What the peer would send: the block decoded from its own encoding.
	// (Decoding puts a body in order, so an unsorted one is handed over as it is.)
	FullBlock Fresh(int id) { if (b[id].flaw.compare(0, 8, "unsorted") == 0) { const auto& y = b[id].fb->GetTransactionBody(); return FullBlock(b[id].hdr, TransactionBody::NoSort(y.GetInputs(), y.GetOutputs(), y.GetKernels())); } Serializer s; b[id].fb->Serialize(s); ByteBuffer bb(s.GetBytes()); return FullBlock::Deserialize(bb); }
	BlockHeaderPtr FreshHdr(int id) { Serializer s; b[id].hdr->Serialize(s); ByteBuffer bb(s.GetBytes()); return std::make_shared<BlockHeader>(BlockHeader::Deserialize(bb)); }
	int IdOf(const Hash& h) { for (auto& x : b) if (x.hash == h) return x.id; return -1; }
};
