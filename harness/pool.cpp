// usage: pool OUT.ndjson SCRATCH SEED NTRACES [STEMPROB]
// Transactions and blocks thrown at a real node and its pools; every call and the pools after it are logged.
#include "blocks.h"
#include "clock.h"
#include <BlockChain/CompactBlockFactory.h>
#include <Core/Util/TransactionUtil.h>
#include <Core/Validation/TransactionValidator.h>

static const char* stName(EBlockChainStatus s) {
	switch (s) { case EBlockChainStatus::SUCCESS: return "SUCCESS"; case EBlockChainStatus::ALREADY_EXISTS: return "ALREADY_EXISTS"; case EBlockChainStatus::TRANSACTIONS_MISSING: return "TRANSACTIONS_MISSING"; case EBlockChainStatus::INVALID: return "INVALID"; case EBlockChainStatus::ORPHANED: return "ORPHANED"; default: return "UNKNOWN_ERROR"; }
}
template <class F> static std::string Call(F f) { try { return stName(f()); } catch (BadDataException&) { return "BAD_DATA"; } catch (std::exception&) { return "EXCEPTION"; } }

struct Run {
	Trace& t; Node n; Tree& T; Rng& rng; int64_t t0; std::vector<std::pair<Tx, bool>> made; int stemProb;
	Run(Trace& tr, Tree& tree, int sp) : t(tr), T(tree), rng(tree.rng), t0(vclock::now() / 1000000000LL), stemProb(sp) {}
	int64_t Now() { return vclock::now() / 1000000000LL - t0; }
	std::string Proj(const Transaction& x) {
		std::vector<int> i, o, k; for (auto& a : x.GetInputs()) { auto it = T.w.byC.find(a.GetCommitment()); i.push_back(it == T.w.byC.end() ? -1 : it->second); } for (auto& a : x.GetOutputs()) { auto it = T.w.byC.find(a.GetCommitment()); o.push_back(it == T.w.byC.end() ? -1 : it->second); } for (auto& a : x.GetKernels()) { auto it = T.w.kerByHash.find(a.GetHash()); k.push_back(it == T.w.kerByHash.end() ? -1 : it->second); }
		J j; j("i", i)("o", o)("k", k); return j.str();
	}
	std::string Proj(const std::vector<TransactionPtr>& v) { std::string s = "["; for (auto& x : v) { if (s.size() > 1) s += ","; s += Proj(*x); } return s + "]"; }
	std::vector<TransactionPtr> Expired(int64_t later) { vclock::advance(later); auto e = n.pool->GetExpiredTransactions(); vclock::advance(-later); return e; }
	void Log(J& j) {
		std::set<TransactionKernel> ks; for (auto& k : T.w.kers) ks.insert(k.k);
		auto c = n.chain->GetTipBlockHeader(EChainType::CONFIRMED);
		j("now", Now())("c", T.IdOf(c->GetHash())); raw(j, "mp", Proj(n.pool->FindTransactionsByKernel(ks))); raw(j, "st", Proj(Expired(1000000)));
		t.log(j);
	}
	void Define(int id) {
		auto& b = T.b[id]; std::string so = "["; for (size_t i = 0; i < b.out.size(); i++) so += std::string(i ? ",[" : "[") + J::v(b.out[i]) + "," + J::v((int)T.w.outs[b.out[i]].cb) + "]";
		J j; j("e", "Block")("id", id)("parent", b.parent)("h", b.height)("td", b.td - T.baseTd)("in", b.in); raw(j, "out", so + "]"); int cbk = -1; for (int k : b.kerSet) if (T.w.kers[k].feat == 1) cbk = k; j("ker", b.kerSet)("cbk", cbk); t.log(j);
	}
	std::string Desc(const Tx& x, bool bal, bool badProof) {
		std::string i = "[", o = "[", k = "[";
		for (int a : x.in) i += (i.size() > 1 ? ",[" : "[") + J::v(a) + "," + J::v((int)(T.w.outs[a].value / UNIT)) + "]";
		for (int a : x.out) o += (o.size() > 1 ? ",[" : "[") + J::v(a) + "," + J::v((int)T.w.outs[a].cb) + "," + J::v((int)(T.w.outs[a].value / UNIT)) + "," + J::v(badProof ? 0 : 1) + "]";
		for (int a : x.ker) { auto& q = T.w.kers[a]; k += (k.size() > 1 ? ",[" : "[") + J::v(a) + "," + J::v(q.feat) + "," + J::v((int)(q.fee / UNIT)) + "," + J::v((int)q.lock) + "," + J::v((int)q.sigok) + "," + J::v(q.shift) + "]"; }
		J j; raw(j, "in", i + "]"); raw(j, "out", o + "]"); raw(j, "ker", k + "]"); j("bal", bal); return j.str();
	}
	void Submit(const Tx& x, bool bal, bool badProof, bool stem, const std::string& kind) {
		Serializer s; x.tx->Serialize(s); ByteBuffer bb(s.GetBytes()); TransactionPtr p = std::make_shared<const Transaction>(Transaction::Deserialize(bb));
		std::string r = Call([&] { return n.chain->AddTransaction(p, stem ? EPoolType::STEMPOOL : EPoolType::MEMPOOL); });
		J j; j("e", "Submit")("stem", stem)("r", r)("kind", kind); raw(j, "tx", Desc(x, bal, badProof)); Log(j);
	}
	std::vector<TransactionPtr> Pooled() { std::set<TransactionKernel> ks; for (auto& k : T.w.kers) ks.insert(k.k); return n.pool->FindTransactionsByKernel(ks); }
	// The transaction a pool entry is, as the world's builder describes it.
	Tx FromReal(const Transaction& x) { Tx r; r.id = -1; for (auto& a : x.GetInputs()) r.in.push_back(T.w.byC[a.GetCommitment()]); for (auto& a : x.GetOutputs()) r.out.push_back(T.w.byC[a.GetCommitment()]); for (auto& a : x.GetKernels()) r.ker.push_back(T.w.kerByHash[a.GetHash()]); r.offset = x.GetOffset(); return r; }
	Tx Agg(const std::vector<Tx>& v) { Tx r; r.id = -1; std::set<int> ins, outs; std::vector<BlindingFactor> offs; for (auto& x : v) { for (int i : x.in) ins.insert(i); for (int o : x.out) outs.insert(o); } for (auto& x : v) { for (int i : x.in) if (!outs.count(i)) r.in.push_back(i); for (int o : x.out) if (!ins.count(o)) r.out.push_back(o); for (int k : x.ker) r.ker.push_back(k); offs.push_back(x.offset); } r.offset = Crypto::AddBlindingFactors(offs, {}); return r; }
	void Block(int id, bool compact) {
		std::string r; bool same = true;
		if (compact) { Serializer s; CompactBlockFactory::CreateCompactBlock(T.Fresh(id)).Serialize(s); ByteBuffer bb(s.GetBytes()); CompactBlock cb = CompactBlock::Deserialize(bb); r = Call([&] { return n.chain->AddCompactBlock(cb); }); }
		else r = Call([&] { return n.chain->AddBlock(T.Fresh(id)); });
		if (r == "SUCCESS") { auto p = n.db->GetBlockDB()->Read()->GetBlock(T.b[id].hash); same = p && p->Serialized() == T.b[id].fb->Serialized(); }
		J j; j("e", compact ? "Compact" : "AddBlock")("b", id)("r", r)("same", same); Log(j);
		if (compact && r == "TRANSACTIONS_MISSING") Block(id, false);
	}
	template <class F> void Take(const char* name, F f) {
		TransactionPtr p; std::string r = "none";
		{ auto bdb = n.db->GetBlockDB()->Read(); auto ths = n.ths->Read(); p = f(bdb.GetShared(), ths->GetTxHashSet()); }
		J j; j("e", name)("got", p != nullptr); bool v = true; if (p) { try { TransactionValidator().Validate(*p, n.chain->GetHeight(EChainType::CONFIRMED) + 1); } catch (std::exception&) { v = false; } }
		j("valid", v); raw(j, "tx", p ? Proj(*p) : "{\"i\":[],\"o\":[],\"k\":[]}"); Log(j);
	}
};

static void Scenario(Trace& t, uint64_t seed, int idx, int stemProb, const std::string& focus) {
	Tree T(seed * 1000003 + idx); Rng& rng = T.rng; World& w = T.w;
	Node::Wipe(); Node::MakeDirs();
	vclock::frozenNs = 0; vclock::freeze();
	Run r(t, T, stemProb); r.n.Open();
	{ J j; j("e", "Reset")("trace", idx)("prob", stemProb); r.Log(j); }
	int tip = 0; const int trunk = 33;
	for (int i = 1; i <= trunk; i++) {
		std::vector<Tx> txs;
		if (i > 26) { auto av = T.Spendable(T.b[tip]); for (int c : av) if (w.outs[c].cb && txs.empty()) { std::vector<int> o; uint64_t v = w.outs[c].value - 1000 * UNIT; for (int k = 0; k < 4; k++) { uint64_t q = k == 3 ? v : v / UNIT / 3 * UNIT; o.push_back(w.NewOut(q, false)); v -= q; } txs.push_back(w.MakeTx({ c }, o)); } }
		tip = T.Mine(tip, txs, 1 + rng.below(3)); r.Define(tip); Call([&] { return r.n.chain->AddBlock(T.Fresh(tip)); });
	}
	{ J j; j("e", "Trunk"); r.Log(j); }
	std::vector<Tx> known; std::vector<std::pair<bool, bool>> kf; std::vector<std::string> kk;
	auto pickIn = [&](int p, int cnt) { auto av = T.Spendable(T.b[p]); rng.shuffle(av); if ((int)av.size() > cnt) av.resize(cnt); return av; };
	auto sum = [&](const std::vector<int>& v) { uint64_t s = 0; for (int o : v) s += w.outs[o].value; return s; };
	auto split = [&](uint64_t v, int nOut) { std::vector<int> o; for (int i = 0; i < nOut; i++) { uint64_t q = i == nOut - 1 ? v : v / UNIT / (nOut - i + rng.below(3)) * UNIT; if (q == 0 || q > v) q = v; o.push_back(w.NewOut(q, false)); v -= q; if (v == 0) break; } return o; };
	const int ops = rng.range(45, 70);
	for (int op = 0; op < ops; op++) {
		auto c = r.n.chain->GetTipBlockHeader(EChainType::CONFIRMED); tip = T.IdOf(c->GetHash());
		uint64_t nh = T.b[tip].height + 1; int what = rng.range(0, 99);
		if (focus == "stem" && what < 46 && what >= 40) what = 60;
		if (what < 46 || known.size() < 2 || op == ops - 1) { // a transaction
			Tx x; bool bal = true, badProof = false; std::string kind = "ok";
			int k = op == ops - 1 ? 27 : rng.range(0, 37); if (k == 27 && op != ops - 1) k = 35;
			auto in = pickIn(tip, rng.range(1, 2)); if (in.empty()) continue;
			uint64_t s = sum(in); int nOut = rng.range(1, 3); uint64_t fee = (uint64_t)rng.range(5 * 14, 5 * 30) * UNIT; int shift = 0;
			if (s < 2000 * UNIT) continue;
			if (k == 0) { kind = "low-fee"; fee = (uint64_t)std::max(1, 5 * (4 * nOut + 1 - (int)in.size()) - 1) * UNIT; if (nOut == 1 && in.size() > 1) fee = 14 * UNIT; x = w.MakeTx(in, split(s - fee, nOut)); }
			else if (k == 1) { kind = "min-fee"; auto o = split(s - 500 * UNIT, nOut); uint64_t f = 5 * (4 * o.size() + 1 - in.size()); w.outs.size(); std::vector<int> o2(o.begin(), o.end() - 1); uint64_t rest = s - f * UNIT; for (int q : o2) rest -= w.outs[q].value; o2.push_back(w.NewOut(rest, false)); x = w.MakeTx(in, o2); }
			else if (k == 2) { kind = "immature"; int cb = -1; for (auto& kv : T.b[tip].utxo) if (kv.first && w.outs[kv.first].cb && !T.Mature(kv.first, kv.second, nh) && (cb < 0 || kv.second < T.b[tip].utxo[cb])) cb = kv.first; if (cb < 0) continue; x = w.MakeTx({ cb }, split(w.outs[cb].value - fee, nOut)); }
			else if (k == 3) { kind = "locked"; x = w.MakeTx(in, split(s - fee, nOut), 2, nh + 1 + rng.below(2)); }
			else if (k == 4 || k == 14 || k == 15) { kind = "lock-now"; x = w.MakeTx(in, split(s - fee, nOut), 2, nh); }
			else if (k == 5) { kind = "bad-sig"; x = w.MakeTx(in, split(s - fee, nOut), 0, 0, false); }
			else if (k == 6) { kind = "bad-proof"; int o = w.NewOut(s - fee, false, true); x = w.MakeTx(in, { o }); badProof = true; }
			else if (k == 36) { kind = "bad-proof-seen"; int o = w.NewOut(s - fee, false); w.Damage(o, rng.chance(0.3)); x = w.MakeTx(in, { o }); badProof = true; }
			else if (k == 37) { kind = "no-outputs"; x = w.MakeTx(in, {}); }
			else if (k == 7) { kind = "unbalanced"; x = w.MakeTx(in, split(s - fee + 3 * UNIT, nOut), 0, 0, true, 3 * (int64_t)UNIT); bal = false; }
			else if (k == 8) { kind = "coinbase-out"; int o = w.NewOut(s - fee, true); x = w.MakeTx(in, { o }); }
			else if (k == 9) { kind = "coinbase-kernel"; x = w.MakeTx(in, split(s, nOut), 1, 0); }
			else if (k == 10) { kind = "unknown-input"; int o = w.NewOut(30000 * UNIT, false); x = w.MakeTx({ o }, split(30000 * UNIT - fee, nOut)); }
			else if (k == 11) { kind = "existing-output"; int e = -1; for (auto& kv : T.b[tip].utxo) if (kv.first && !w.outs[kv.first].cb && std::find(in.begin(), in.end(), kv.first) == in.end() && w.outs[kv.first].value + fee + 2 * UNIT < s) e = kv.first; if (e < 0) continue; x = w.MakeTx(in, { e, w.NewOut(s - fee - w.outs[e].value, false) }); }
			else if (k == 12) { kind = "dup-input"; x = w.MakeTx({ in[0], in[0] }, split(2 * w.outs[in[0]].value - fee, nOut)); }
			else if (k == 13) { kind = "bad-offset"; x = w.MakeTx(in, split(s - fee, nOut)); x.offset = Crypto::AddBlindingFactors({ x.offset, BlindingFactor(w.key("z").GetBytes()) }, {}); bal = false; }
			else if (k <= 17 && !known.empty()) { kind = "again"; size_t q = rng.below(known.size()); x = known[q]; bal = kf[q].first; badProof = kf[q].second; }
			else if (k <= 20) { kind = "chained"; auto pool = r.Pooled(); if (pool.empty()) continue; Tx y = r.FromReal(*pool[rng.below(pool.size())]); if (y.out.empty()) continue; int o = rng.pick(y.out); if (w.outs[o].value < 2 * fee) continue; x = w.MakeTx({ o }, split(w.outs[o].value - fee, nOut)); }
			else if (k <= 24) { kind = "conflict"; auto pool = r.Pooled(); if (pool.empty()) continue; Tx y = r.FromReal(*pool[rng.below(pool.size())]); int i = rng.pick(y.in); std::vector<int> in2{ i }; if (rng.chance(0.5) && !w.outs[i].cb && in[0] != i) in2.push_back(in[0]); uint64_t q = sum(in2); if (q < 3 * fee) continue; x = w.MakeTx(in2, split(q - fee, nOut)); }
			else if (k == 25) { kind = "same-output"; auto pool = r.Pooled(); if (pool.empty()) continue; Tx y = r.FromReal(*pool[rng.below(pool.size())]); if (y.out.empty()) continue; int o = rng.pick(y.out); if (w.outs[o].value + fee + 2 * UNIT > s || w.outs[o].cb) continue; x = w.MakeTx(in, { o, w.NewOut(s - fee - w.outs[o].value, false) }); }
			else if (k == 26) { kind = "shifted"; shift = rng.range(1, 2); auto o = split(s - 900 * UNIT, nOut); uint64_t need = 5 * (4 * o.size() + 1 - in.size()) << shift; uint64_t f = rng.chance(0.5) ? need : need - 1; std::vector<int> o2(o.begin(), o.end() - 1); uint64_t rest = s - f * UNIT; for (int q : o2) rest -= w.outs[q].value; o2.push_back(w.NewOut(rest, false)); x = w.MakeTx(in, o2, 0, 0, true, 0, shift); }
			else if (focus == "compact" && k >= 33 && k <= 35 && op != ops - 1) { // several in one, chained or side by side
				kind = "aggregate"; std::vector<Tx> v; std::set<int> ins(in.begin(), in.end()); v.push_back(w.MakeTx(in, split(s - fee, 2))); auto more = T.Spendable(T.b[tip]); rng.shuffle(more);
				for (int q = 0; q < 2; q++) {
					if (rng.chance(0.5)) { for (int o : v.back().out) if (!ins.count(o) && w.outs[o].value > 2000 * UNIT) { ins.insert(o); v.push_back(w.MakeTx({ o }, split(w.outs[o].value - 500 * UNIT, 2))); break; } }
					else for (int o : more) if (!ins.count(o) && w.outs[o].value > 2000 * UNIT) { ins.insert(o); v.push_back(w.MakeTx({ o }, split(w.outs[o].value - 500 * UNIT, rng.range(1, 2)))); break; }
				}
				for (auto& y : v) if (rng.chance(0.3)) { w.Build(y); known.push_back(y); kf.push_back({ true, false }); kk.push_back("part"); } // a part may turn up by itself
				x = r.Agg(v);
			}
			else if (op == ops - 1) { kind = "overweight"; std::vector<int> o; uint64_t v = s - 12000 * UNIT; if (v < 20000 * UNIT || v > s) continue; int cnt = rng.chance(0.5) ? 1904 : 1902; for (int q = 0; q < cnt - 1; q++) o.push_back(w.NewOut(UNIT, false)); o.push_back(w.NewOut(s - 40000 * UNIT - (uint64_t)(cnt - 1) * UNIT, false)); if (s < 45000 * UNIT) continue; x = w.MakeTx(in, o); }
			else x = w.MakeTx(in, split(s - fee, nOut), 0, 0);
			bool heavy = kind == "overweight";
			if (kind != "again") { w.Build(x); known.push_back(x); kf.push_back({ bal, badProof }); kk.push_back(kind); } else w.Build(x);
			r.Submit(x, bal, badProof, !heavy && rng.chance(focus == "stem" ? 0.6 : focus == "compact" ? 0.1 : 0.3), kind);
		}
		else if (what < 62) { // a block: some pooled transactions, some not, perhaps on a fork
			int depth = rng.chance(0.3) ? rng.range(1, 3) : 0; int p = tip; for (int i = 0; i < depth; i++) p = T.b[p].parent;
			std::vector<Tx> txs; std::set<int> used, outs; std::vector<Tx> cand; for (auto& x : r.Pooled()) cand.push_back(r.FromReal(*x));
			auto st = r.Expired(1000000); for (auto& x : st) if (rng.chance(0.3)) cand.push_back(r.FromReal(*x));
			for (size_t i = 0; i < known.size(); i++) if (kf[i].first && !kf[i].second && rng.chance(0.12) && kk[i] != "overweight") cand.push_back(known[i]);
			rng.shuffle(cand); double keep = rng.chance(0.4) ? 1.0 : 0.5;
			if (focus == "compact") keep = rng.chance(0.8) ? 1.0 : 0.5;
			std::set<int> usedK;
			for (auto& x : cand) { // only what makes a valid block there
				if (!rng.chance(keep) || txs.size() >= 5) continue; bool ok = true; 
				for (int i : x.in) if (used.count(i) || !T.b[p].utxo.count(i) || !T.Mature(i, T.b[p].utxo[i], T.b[p].height + 1)) ok = false;
				for (int o : x.out) if (outs.count(o) || T.b[p].utxo.count(o) || w.outs[o].cb) ok = false;
				std::set<int> si(x.in.begin(), x.in.end()); if (si.size() != x.in.size()) ok = false;
				for (int k : x.ker) if (!w.kers[k].sigok || w.kers[k].feat == 1 || w.kers[k].lock > T.b[p].height + 1 || usedK.count(k)) ok = false;
				if (!ok) continue;
				for (int i : x.in) used.insert(i); for (int o : x.out) outs.insert(o); for (int k : x.ker) usedK.insert(k); txs.push_back(x);
			}
			if (rng.chance(focus == "compact" ? 0.15 : 0.35)) { auto av = T.Spendable(T.b[p]); std::vector<int> a2; for (int o : av) if (!used.count(o) && w.outs[o].value > 3000 * UNIT) a2.push_back(o); if (!a2.empty()) { int i = rng.pick(a2); txs.push_back(w.MakeTx({ i }, split(w.outs[i].value - 500 * UNIT, 2))); 
				if (rng.chance(0.4)) { Tx y = txs.back(); txs.pop_back(); int o = y.out[0]; if (w.outs[o].value > 2000 * UNIT) { Tx z = w.MakeTx({ o }, split(w.outs[o].value - 400 * UNIT, 1)); y = r.Agg({ y, z }); } txs.push_back(y); } } } // two chained ones, cut through
			uint64_t work = depth == 0 ? 1 + rng.below(4) : rng.chance(0.5) ? T.b[tip].td - T.b[p].td + 1 + rng.below(3) : 1 + rng.below(3);
			int id = T.Mine(p, txs, work, "", 30 + rng.below(60)); r.Define(id);
			r.Block(id, rng.chance(focus == "compact" ? 0.85 : 0.3));
		}
		else if (what < 72) r.Take("ToStem", [&](auto b, auto h) { return r.n.pool->GetTransactionToStem(b, h); });
		else if (what < 80) r.Take("ToFluff", [&](auto b, auto h) { return r.n.pool->GetTransactionToFluff(b, h); });
		else if (what < 88) { // time passes; what expired is fluffed, as the relay monitor does
			vclock::advance(rng.pick(std::vector<int>{ 1, 40, 100, 150, 179, 181, 205, 230 }));
			auto e = r.n.pool->GetExpiredTransactions(); J j; j("e", "Expired"); raw(j, "txs", r.Proj(e)); r.Log(j);
			if (rng.chance(0.7)) for (auto& x : e) { std::string s = Call([&] { return r.n.chain->AddTransaction(x, EPoolType::MEMPOOL); }); J q; q("e", "Fluff")("r", s); raw(q, "tx", r.Proj(*x)); r.Log(q); }
		}
		else if (what < 93) { // a peer asks by kernel
			std::vector<int> ks; for (auto& x : r.Expired(1000000)) for (auto& k : x->GetKernels()) ks.push_back(w.kerByHash[k.GetHash()]); for (auto& x : r.Pooled()) for (auto& k : x->GetKernels()) ks.push_back(w.kerByHash[k.GetHash()]); ks.push_back((int)rng.below(w.kers.size()));
			int k = rng.pick(ks); auto p = r.n.chain->GetTransactionByKernelHash(w.kers[k].k.GetHash()); J j; j("e", "Lookup")("k", k)("got", p != nullptr); raw(j, "tx", p ? r.Proj(*p) : "{\"i\":[],\"o\":[],\"k\":[]}"); r.Log(j);
		}
		else { // aggregation of arbitrary transactions, chained ones among them
			std::vector<Tx> v; std::set<int> used; int cnt = rng.range(1, 5); std::vector<int> fresh; auto av = T.Spendable(T.b[tip]); rng.shuffle(av); size_t a = 0;
			for (int i = 0; i < cnt; i++) { std::vector<int> in; if (!fresh.empty() && rng.chance(0.6)) { size_t q = rng.below(fresh.size()); in.push_back(fresh[q]); fresh.erase(fresh.begin() + q); } else if (a < av.size()) in.push_back(av[a++]); else break; uint64_t s = sum(in); if (s < 1000 * UNIT) break; auto o = split(s - 300 * UNIT, rng.range(1, 3)); for (int x : o) fresh.push_back(x); v.push_back(w.MakeTx(in, o)); }
			if (v.empty()) continue; rng.shuffle(v);
			std::vector<TransactionPtr> ps; std::string parts = "["; for (auto& x : v) { ps.push_back(x.tx); if (parts.size() > 1) parts += ","; parts += r.Proj(*x.tx); }
			auto p = TransactionUtil::Aggregate(ps); bool valid = true; try { TransactionValidator().Validate(*p, nh); } catch (std::exception&) { valid = false; }
			std::vector<BlindingFactor> offs; for (auto& x : v) offs.push_back(x.offset);
			J j; j("e", "Aggregate")("valid", valid)("off", p->GetOffset() == Crypto::AddBlindingFactors(offs, {})); raw(j, "parts", parts + "]"); raw(j, "tx", r.Proj(*p)); r.Log(j);
		}
	}
	r.n.Close();
}

int main(int argc, char** argv) {
	Trace t; t.open(argv[1]); fs::path scratch = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10); int n = atoi(argv[4]);
	std::string focus = argc > 5 ? argv[5] : "mix"; int prob = argc > 6 ? atoi(argv[6]) : 50; int first = argc > 7 ? atoi(argv[7]) : 0;
	fs::create_directories(scratch);
	Setup(scratch, Environment::AUTOMATED_TESTING, "{\"DANDELION\":{\"RELAY_SECS\":600,\"EMBARGO_SECS\":180,\"PATIENCE_SECS\":10,\"STEM_PROBABILITY\":" + std::to_string(prob) + "}}"); TrustGenesis();
	for (int i = first; i < first + n; i++) Scenario(t, seed, i, prob, focus);
	fclose(t.f); t.f = nullptr;
	Node::Wipe();
	return 0;
}
