// usage: wallet OUT.ndjson SCRATCH SEED STEPS [MINCONF]
// Wallets of several users, and restorations of them, living through a history of payments, blocks and
// reorganizations served by a pretended node.
#include "lib.h"
#include "wallet.h"
using S = std::string;
struct Pay { int id; Slate send; int from; bool proof = false; bool mine = false; int to = -1; std::vector<std::pair<int, Slate>> resp; }; // from < 0: an outsider's
struct Run : WalletWorld {
	std::vector<Pay> pays; std::map<uuids::uuid, int> slates; int nResp = 0, nUsers = 0; uint64_t feeBase = 500000;
	explicit Run(uint64_t s) : WalletWorld(s) {}
	int SlateId(const uuids::uuid& u) { auto it = slates.find(u); return it == slates.end() ? -1 : it->second; }
	// ---------- what a wallet holds ----------
	S Fresh() { S s = "["; for (int o : fresh) { auto& c = coins[o]; s += (s.size() > 1 ? ",[" : "[") + J::v(o) + "," + W(c.amt) + "," + J::v(c.cb) + "," + J::v(c.seed) + "," + J::v(c.path) + "]"; } fresh.clear(); return s + "]"; }
	void View(J& j, int u) {
		User& x = users[u]; auto db = x.wallet->Read()->GetDatabase(); std::string o = "[", t = "[";
		auto outs = db.Read()->GetOutputs(x.seed); std::vector<std::pair<int, S>> rows;
		for (auto& d : outs) {
			int path = PathId(x.seedId, d.GetKeyChainPath().Format()); bool known = byCommit.count(d.GetCommitment());
			int id = Coin(d.GetCommitment(), d.GetAmount(), d.GetFeatures() == EOutputFeatures::COINBASE_OUTPUT, x.seedId, path); (void)known;
			bool key = d.GetBlindingFactor() == BlindingFactor(x.keys->DerivePrivateKey(d.GetKeyChainPath(), d.GetAmount()).GetBytes()) && Crypto::CommitBlinded(d.GetAmount(), BlindingFactor(d.GetBlindingFactor().GetBytes())) == d.GetCommitment() && d.GetAmount() == coins[id].amt && coins[id].seed == x.seedId && coins[id].path == path && coins[id].cb == (d.GetFeatures() == EOutputFeatures::COINBASE_OUTPUT);
			rows.push_back({ id, "[" + J::v(id) + "," + J::v(OutputStatus::ToString(d.GetStatus())) + "," + (d.GetBlockHeight() ? J::v(*d.GetBlockHeight()) : "-1") + "," + (d.GetWalletTxId() ? J::v(*d.GetWalletTxId()) : "-1") + "," + J::v(key) + "]" });
		}
		std::sort(rows.begin(), rows.end()); for (auto& r : rows) o += (o.size() > 1 ? "," : "") + r.second;
		for (auto& w : db.Read()->GetTransactions(x.seed)) t += (t.size() > 1 ? ",[" : "[") + J::v(w.GetId()) + "," + J::v(WalletTxType::ToKey(w.GetType())) + "," + J::v(w.GetSlateId() ? SlateId(*w.GetSlateId()) : -1) + "," + W(w.GetAmountCredited()) + "," + W(w.GetAmountDebited()) + "]";
		auto b = x.wallet->Read()->GetBalance();
		raw(j, "new", Fresh()); raw(j, "o", o + "]"); raw(j, "t", t + "]"); raw(j, "bal", "[" + W(b.GetUnconfirmed()) + "," + W(b.GetImmature()) + "," + W(b.GetLocked()) + "," + W(b.GetSpendable()) + "," + W(b.GetTotal()) + "]");
		j("rh", db.Read()->GetRefreshBlockHeight());
	}
	void Log(J& j, int u) { j("u", u + 1); View(j, u); t.log(j); }
	// ---------- users ----------
	void Join(const S& name, int seedOf) {
		User x; x.name = name; x.password = S("pw ") + name; SecureString words;
		if (seedOf < 0) { auto r = manager->InitializeNewWallet(CreateWalletCriteria(GrinStr(name), SecureString(x.password.c_str()), rng.chance(0.5) ? 24 : 12), tor); x.token = r.GetToken(); x.words = r.GetSeed(); x.seedId = ++nSeeds; }
		else {
			node->batch = rng.chance(0.4) ? 2 : rng.chance(0.5) ? rng.range(3, 5) : 1000; if (rng.chance(0.5)) { Coinbase(seedOf); Mine(); }
			x.words = users[seedOf].words; x.seedId = users[seedOf].seedId; auto r = manager->RestoreFromSeed(RestoreWalletCriteria(name, SecureString(x.password.c_str()), SecureString(x.words)), tor); x.token = r.GetToken(); }
		x.seed = Mnemonic::ToEntropy(x.words); x.keys = std::make_shared<KeyChain>(KeyChain::FromSeed(x.seed)); users.push_back(x); int u = (int)users.size() - 1;
		users[u].wallet = std::make_shared<Locked<Wallet>>(manager->GetWallet(users[u].token));
		{ J j; j("e", "Join")("seed", x.seedId)("u", u + 1); View(j, u); t.log(j); }
		if (seedOf >= 0) { J k; k("e", "Refresh")("full", true)("r", true); manager->CheckForOutputs(users[u].token, true); Log(k, u); }
	}
	void Restart() {
		for (auto& x : users) { manager->Logout(x.token); x.wallet.reset(); } manager.reset(); manager = WalletAPI::CreateWalletManager(Global::GetConfig(), node);
		for (int u = 0; u < (int)users.size(); u++) { auto& x = users[u]; x.token = manager->Login(LoginCriteria(x.name, SecureString(x.password.c_str())), tor).GetToken(); x.wallet = std::make_shared<Locked<Wallet>>(manager->GetWallet(x.token)); J j; j("e", "Refresh")("full", false)("r", true); Log(j, u); }
	}
	// ---------- chain ----------
	void Mine() {
		std::vector<Made> adds; std::vector<Commitment> spends; std::set<Commitment> used, made; std::vector<int> oids, sp;
		auto put = [&](const Commitment& c, EOutputFeatures f, const RangeProof& p) { adds.push_back({ c, f, p }); made.insert(c); };
		std::vector<size_t> ord(posted.size()); for (size_t i = 0; i < ord.size(); i++) ord[i] = i; rng.shuffle(ord);
		for (size_t i : ord) if (rng.chance(0.6)) { auto& x = posted[i]; bool ok = true;
			for (auto& in : x.GetInputs()) ok &= node->utxo.count(in.GetCommitment()) && !used.count(in.GetCommitment()); for (auto& o : x.GetOutputs()) ok &= !node->utxo.count(o.GetCommitment()) && !made.count(o.GetCommitment());
			if (!ok) continue; for (auto& in : x.GetInputs()) { used.insert(in.GetCommitment()); spends.push_back(in.GetCommitment()); } for (auto& o : x.GetOutputs()) put(o.GetCommitment(), o.GetFeatures(), o.GetRangeProof()); }
		for (auto& g : gifts) if (!node->utxo.count(g.c) && !made.count(g.c) && !spentEver.count(g.c) && rng.chance(0.4)) put(g.c, g.f, g.p);
		if (!bases.empty() && rng.chance(0.6)) { auto& b = rng.pick(bases); if (!node->utxo.count(b.c) && !made.count(b.c) && !spentEver.count(b.c)) { put(b.c, b.f, b.p); rng.shuffle(adds); AddBlock(adds, spends); return; } }
		Made o = Outside(60000000000ull, EOutputFeatures::COINBASE_OUTPUT); put(o.c, o.f, o.p); rng.shuffle(adds); AddBlock(adds, spends);
	}
	void AddBlock(const std::vector<Made>& adds, const std::vector<Commitment>& spends) {
		std::vector<int> a, s; for (auto& m : adds) a.push_back(Coin(m.c, 0, m.f == EOutputFeatures::COINBASE_OUTPUT, 0, 0)); for (auto& c : spends) { s.push_back(byCommit.at(c)); spentEver.insert(c); }
		node->Add(adds, spends); J j; j("e", "Block")("adds", a)("spends", s)("h", node->Height()); raw(j, "new", Fresh()); t.log(j);
	}
	void Reorg(int down) { uint64_t to = node->Height() - down; node->Truncate(to); spentEver.clear(); for (auto& b : node->blocks) for (auto& c : b.spent) spentEver.insert(c.first); J j; j("e", "Reorg")("h", to); t.log(j); }
	// ---------- refresh, cancel, coinbase ----------
	void Refresh(int u) {
		bool full = rng.chance(0.25); MaybeFail(); bool r = true; try { manager->CheckForOutputs(users[u].token, full); } catch (std::exception&) { r = false; } node->failIn = -1;
		J j; j("e", "Refresh")("full", full)("r", r); Log(j, u);
	}
	bool failing = false; void MaybeFail() { failing = rng.chance(0.06); if (failing) node->failIn = rng.range(0, 8); node->failed = false; }
	void Cancel(int u) {
		auto txs = users[u].wallet->Read()->GetDatabase().Read()->GetTransactions(users[u].seed); if (txs.empty()) return; auto& x = txs[rng.chance(0.5) ? rng.below(txs.size()) : txs.size() - 1 - rng.below(std::min<size_t>(3, txs.size()))];
		bool r = true; try { users[u].wallet->Write()->CancelTx(x.GetId()); } catch (std::exception&) { r = false; } J j; j("e", "Cancel")("tx", x.GetId())("r", r); Log(j, u);
	}
	void Coinbase(int u) {
		uint64_t fees = rng.below(5) * 1000000; auto r = users[u].wallet->Write()->BuildCoinbase(BuildCoinbaseCriteria(users[u].token, fees, std::nullopt)); uint64_t amt = Consensus::REWARD + fees;
		auto& o = r.GetOutput(); auto& k = r.GetKernel(); int path = PathId(users[u].seedId, r.GetPath().Format()); bool again = byCommit.count(o.GetCommitment());
		int id = Coin(o.GetCommitment(), amt, true, users[u].seedId, path); SecretKey key = users[u].keys->DerivePrivateKey(r.GetPath(), amt);
		bool ok = !again && Crypto::CommitBlinded(amt, BlindingFactor(key.GetBytes())) == o.GetCommitment() && o.GetFeatures() == EOutputFeatures::COINBASE_OUTPUT && Crypto::VerifyRangeProofs({ { o.GetCommitment(), o.GetRangeProof() } }) && k.GetFeatures() == EKernelFeatures::COINBASE_KERNEL && Crypto::AddCommitments({ o.GetCommitment() }, { Crypto::CommitTransparent(amt) }) == k.GetExcessCommitment() && KernelOk(k);
		bases.push_back({ o.GetCommitment(), o.GetFeatures(), o.GetRangeProof() }); J j; j("e", "Coinbase")("oid", id)("ok", ok); Log(j, u);
	}
	bool KernelOk(const TransactionKernel& k) { Hash m = k.GetSignatureMessage(); return Crypto::VerifyKernelSignatures({ &k.GetExcessSignature() }, { &k.GetExcessCommitment() }, { &m }); }
	// ---------- payments ----------
	SelectionStrategyDTO Strategy(int u, S& name, std::vector<int>& want) {
		double d = (double)rng.below(1000) / 1000; ESelectionStrategy st = d < 0.35 ? ESelectionStrategy::SMALLEST : d < 0.6 ? ESelectionStrategy::FEWEST_INPUTS : d < 0.75 ? ESelectionStrategy::ALL : ESelectionStrategy::CUSTOM; name = SelectionStrategy::ToString(st); std::set<Commitment> in;
		if (st == ESelectionStrategy::CUSTOM) for (auto& o : users[u].wallet->Read()->GetDatabase().Read()->GetOutputs(users[u].seed)) if (o.GetStatus() == EOutputStatus::SPENDABLE ? rng.chance(0.5) : rng.chance(0.05)) in.insert(o.GetCommitment());
		for (auto& c : in) want.push_back(byCommit.at(c)); std::sort(want.begin(), want.end()); return SelectionStrategyDTO(st, std::move(in));
	}
	uint64_t Amount(int u) { auto b = users[u].wallet->Read()->GetBalance(); uint64_t s = b.GetSpendable(); double d = (double)rng.below(1000) / 1000; if (d < 0.03) return 0; if (d < 0.06) return ~0ull - rng.below(100000000); if (d < 0.16) { uint64_t f = feeBase * rng.range(20, 80); return s > f ? s - f - rng.below(3) + 1 : 1; } if (d < 0.25) return s + rng.below(3); return rng.below(d < 0.7 ? s / 4 + 1 : s + 1); }
	std::vector<int> Oids(const std::vector<TransactionInput>& v) { std::vector<int> r; for (auto& x : v) r.push_back(byCommit.count(x.GetCommitment()) ? byCommit[x.GetCommitment()] : -1); std::sort(r.begin(), r.end()); return r; }
	std::vector<int> Oids(const std::vector<TransactionOutput>& v) { std::vector<int> r; for (auto& x : v) r.push_back(byCommit.count(x.GetCommitment()) ? byCommit[x.GetCommitment()] : -1); std::sort(r.begin(), r.end()); return r; }
	void Send(int u) {
		S name; std::vector<int> want; auto st = Strategy(u, name, want); bool all = rng.chance(0.08); uint64_t amt = Amount(u); int nchg = rng.chance(0.75) ? 1 : rng.range(0, 4); feeBase = rng.chance(0.7) ? 500000 : 1 + rng.below(3000000);
		if (flow) { all = false; if (rng.chance(0.9)) amt %= 40000000000ull; nchg = rng.chance(0.9) ? 1 + (int)rng.below(2) : nchg; } int to = rng.chance(flow ? 0.9 : 0.4) ? (int)rng.below(users.size()) : -1; std::optional<S> addr; if (to >= 0) addr = users[to].wallet->Read()->GetTorAddress()->ToString(); else if (rng.chance(0.2)) addr = S("somewhere");
		if (to >= 0 && rng.chance(flow ? 0.1 : 0.3)) addr = users[to].wallet->Read()->GetSlatepackAddress().ToString();
		bool proof = addr && TorAddressParser::Parse(*addr).has_value();
		if (rng.chance(0.5)) Estimate(u, all, amt, rng.chance(0.9) ? nchg : 255, name, want, st);
		MaybeFail(); J j; j("e", "Send")("all", all)("nchg", nchg)("strat", name)("want", want)("tip", node->Height()); raw(j, "amt", W(amt)); raw(j, "base", W(feeBase)); bool r = true; Pay p; p.from = u; p.proof = proof; p.to = to;
		try { p.send = manager->Send(SendCriteria(users[u].token, all ? std::nullopt : std::make_optional(amt), feeBase, (uint8_t)nchg, st, addr, std::nullopt)); } catch (std::exception&) { r = false; }
		node->failIn = -1; j("r", r)("fail", node->failed);
		if (r) {
			p.id = (int)pays.size() + 1; slates[p.send.GetId()] = p.id; J v; View(v, u); fresh.clear(); // names the change first
			auto tx = users[u].wallet->Read()->GetTransactionBySlateId(p.send.GetId(), EWalletTxType::SENDING_STARTED); j("slate", p.id)("tx", tx.GetId())("ins", Oids(p.send.GetInputs()))("chg", Oids(p.send.GetOutputs())); raw(j, "samt", W(p.send.GetAmount())); raw(j, "fee", W(p.send.GetFee().GetFee())); j("u", u + 1)("proof", (bool)p.send.GetPaymentProof()); RawView(j, v); t.log(j); pays.push_back(p);
			if (rng.chance(0.3)) RecvAny();
		} else Log(j, u);
	}
	void RawView(J& j, const J& v) { j.s += "," + v.s; }
	void Estimate(int u, bool all, uint64_t amt, int nchg, const S& name, const std::vector<int>& want, const SelectionStrategyDTO& st) {
		J j; j("e", "Estimate")("all", all)("nchg", nchg)("strat", name)("want", want); raw(j, "amt", W(amt)); raw(j, "base", W(feeBase)); bool r = true; S tail;
		try { auto e = users[u].wallet->Read()->EstimateFee(EstimateFeeCriteria(users[u].token, all ? std::nullopt : std::make_optional(amt), feeBase, (uint8_t)nchg, st)); auto js = e.ToJSON(); std::vector<int> ins; for (auto& i : js["inputs"]) ins.push_back(byCommit.at(JsonUtil::ConvertToCommitment(i["commitment"]))); std::sort(ins.begin(), ins.end()); j("ins", ins); raw(j, "fee", W(JsonUtil::ConvertToUInt64(js["fee"]))); raw(j, "samt", W(JsonUtil::ConvertToUInt64(js["amount"]))); } catch (std::exception&) { r = false; }
		j("r", r); Log(j, u);
	}
	Slate Wire(const Slate& s) { double d = (double)rng.below(100) / 100; if (d < 0.4) return s; if (d < 0.7) return Slate::FromJSON(s.ToJSON()); Serializer z; s.Serialize(z); ByteBuffer b(z.GetBytes()); return Slate::Deserialize(b); }
	void OutsidePay() {
		Pay p; p.from = -1; p.id = (int)pays.size() + 1; p.send.amount = rng.chance(0.5) ? (uint64_t)rng.range(1, 4) * 1000000000ull : rng.below(rng.chance(0.2) ? 1ull << 50 : 20000000000ull); p.send.fee = Fee::From(rng.below(50000000)); p.send.offset = BlindingFactor(Key().GetBytes());
		p.send.sigs.push_back(SlateSignature(Crypto::CalculatePublicKey(Key()), Crypto::CalculatePublicKey(Key()), std::nullopt)); slates[p.send.GetId()] = p.id; pays.push_back(p);
	}
	void RecvAny() { if (pays.empty()) return; Pay& p = pays[rng.chance(0.6) ? pays.size() - 1 - rng.below(std::min<size_t>(4, pays.size())) : rng.below(pays.size())]; Recv(p, (int)rng.below(users.size())); }
	void Recv(Pay& p, int u) {
		if (p.from >= 0 && u == p.from && rng.chance(0.7)) u = (int)rng.below(users.size());
		if (p.proof && p.to >= 0 && rng.chance(0.7)) u = p.to;
		Slate s = Wire(p.send); S kind = "good"; if (p.from >= 0 && rng.chance(flow ? 0.35 : 0.2)) { kind = rng.pick(std::vector<S>{ "amount", "fee", "feature", "sig", "sender", "shift", "paddr" }); if (s.GetPaymentProof() && rng.chance(flow ? 0.5 : 0.3)) kind = "paddr"; if (kind == "paddr" && !s.GetPaymentProof()) kind = "shift";
			if (kind == "shift") { if (s.fee.GetFee() < 2) kind = "amount"; else { uint64_t d = rng.chance(0.5) ? 1 : 1 + rng.below(s.fee.GetFee() - 1); s.fee = Fee::From(s.fee.GetFee() - d); s.amount += d; } } // the receiver pays himself from the fee
			if (kind == "paddr") { auto pf = *s.GetPaymentProof(); s.proofOpt = SlatePaymentProof::Create(users[rng.below(users.size())].keys->DeriveED25519Key(KeyChainPath::FromString("m/0/1/78")).public_key, pf.GetReceiverAddress()); } if (kind == "amount") s.amount += rng.chance(0.5) || s.amount == 0 ? 1 : -1; if (kind == "fee") s.fee = Fee::From(s.fee.GetFee() + 1); if (kind == "feature") s.featureArgsOpt = SlateFeatureArgs{}, s.featureArgsOpt->lockHeightOpt = 5, s.kernelFeatures = EKernelFeatures::HEIGHT_LOCKED; if (kind == "sig") s.sigs[0].nonce = Crypto::CalculatePublicKey(Key()); if (kind == "sender") s.sigs[0].excess = Crypto::CalculatePublicKey(Key()); }
		// a payment proof needs an address of the receiver's
		bool addressed = !s.GetPaymentProof() || s.GetPaymentProof()->GetReceiverAddress() == users[u].wallet->Read()->GetTorAddress()->GetPublicKey();
		MaybeFail(); J j; j("e", "Recv")("slate", p.id)("kind", kind)("addressed", addressed); raw(j, "amt", W(s.amount)); bool r = true; Slate out;
		try { out = manager->Receive(ReceiveCriteria(SessionToken(users[u].token), std::nullopt, Slate(s), std::nullopt)); } catch (std::exception&) { r = false; } node->failIn = -1; j("r", r);
		if (!r) { Log(j, u); return; }
		int rid = ++nResp; J v; View(v, u); fresh.clear(); auto extra = out.GetOutputs(); std::vector<TransactionOutput> mine; for (auto& o : extra) { bool old = false; for (auto& c : s.GetOutputs()) old |= c.GetCommitment() == o.GetCommitment(); if (!old) mine.push_back(o); }
		auto ids = Oids(mine); bool ok = mine.size() == 1 && out.sigs.size() == 1 && out.GetId() == s.GetId() && out.stage == ESlateStage::STANDARD_RECEIVED && out.amount == s.amount;
		if (ok) { // the receiver's share: output - amount = its excess + its part of the offset
			BlindingFactor off = Crypto::AddBlindingFactors({ out.offset }, { s.offset }); std::vector<Commitment> paid; if (s.amount) paid.push_back(Crypto::CommitTransparent(s.amount)); ok = Crypto::AddCommitments({ mine[0].GetCommitment() }, paid) == Crypto::AddCommitments({ Crypto::ToCommitment(out.sigs[0].excess), Crypto::CommitBlinded(0, off) }, {}) && Crypto::VerifyRangeProofs({ { mine[0].GetCommitment(), mine[0].GetRangeProof() } }); }
		j("resp", rid)("oid", ids.empty() ? -1 : ids[0])("ok", ok)("u", u + 1); RawView(j, v); t.log(j);
		if (ok && (p.from < 0)) { outsideResp.push_back({ p.id, u }); gifts.push_back({ mine[0].GetCommitment(), mine[0].GetFeatures(), mine[0].GetRangeProof() }); }
		Note(rid, kind, p, u, out);
	}
	std::set<int> done; struct Resp { int id; S kind; int slate, to; Slate s; }; std::vector<Resp> resps; std::vector<std::pair<int, int>> outsideResp;
	void Note(int rid, const S& kind, Pay& p, int u, const Slate& out) { resps.push_back({ rid, kind, p.id, u, out }); }
	void Fin() {
		std::vector<int> c; for (int i = 0; i < (int)resps.size(); i++) if (pays[resps[i].slate - 1].from >= 0 && !(flow && done.count(resps[i].slate) && rng.chance(0.85))) c.push_back(i); if (c.empty()) return; const Resp q = resps[rng.chance(0.7) ? c[c.size() - 1 - rng.below(std::min<size_t>(3, c.size()))] : rng.pick(c)]; Pay& p = pays[q.slate - 1];
		int u = rng.chance(flow ? 0.98 : 0.93) ? p.from : (int)rng.below(users.size()); Slate s = Wire(q.s); S kind = q.kind == "good" ? "good" : "bad", what = q.kind;
		double d = (double)rng.below(1000) / 1000; auto bad = [&](const char* w) { kind = "bad"; what = w; };
		bool pp = p.send.GetPaymentProof() && rng.chance(0.5); bool rc = flow && p.send.GetPaymentProof() && s.GetPaymentProof() && kind == "good" && !done.count(q.slate) && rng.chance(0.25); if (rc || d < 0.3 || (pp && d < 0.5)) switch (rc ? 8 : pp ? 7 + rng.below(2) : rng.chance(0.15) ? 11 : rng.below(13)) {
			case 0: if (s.sigs[0].partialOpt) { s.sigs[0].partialOpt = Crypto::CalculatePartialSignature(Key(), Key(), s.sigs[0].excess, s.sigs[0].nonce, Hash()); bad("partial"); } break;
			case 1: s.sigs[0].nonce = Crypto::CalculatePublicKey(Key()); bad("nonce"); break;
			case 2: s.sigs[0].excess = Crypto::CalculatePublicKey(Key()); bad("excess"); break;
			case 3: s.offset = rng.chance(0.3) ? BlindingFactor() : BlindingFactor(Key().GetBytes()); bad("offset"); break;
			case 4: case 5: { // another output, of the same or another amount
				Made m = Outside(s.amount + (rng.chance(0.5) ? 1 : 0), EOutputFeatures::DEFAULT); auto mine = resps[0]; std::set<Commitment> old; for (auto& o : p.send.GetOutputs()) old.insert(o.GetCommitment()); for (auto& o : p.send.GetInputs()) old.insert(o.GetCommitment());
				for (auto& o : s.commitments) if (o.proofOpt && !old.count(o.commitment)) { if (rng.chance(0.5)) { o.commitment = m.c; o.proofOpt = m.p; } else s.AddOutput(m.f, m.c, m.p); bad("output"); break; } break; }
			case 6: s.slateId = uuids::uuid_system_generator()(); bad("id"); break;
			case 7: if (p.send.GetPaymentProof()) { s.proofOpt = std::nullopt; bad("noproof"); } break;
			case 8: if (p.send.GetPaymentProof() && s.GetPaymentProof()) { auto& pf = *s.GetPaymentProof(); ed25519_public_key_t other = users[u].keys->DeriveED25519Key(KeyChainPath::FromString("m/0/1/77")).public_key; if (what != "shift" && (rc || rng.chance(0.5))) { // somebody else's receipt, in order in itself (or the receiver's own, for another amount)
				auto k = users[u].keys->DeriveED25519Key(KeyChainPath::FromString("m/0/1/77")); bool own = false; if (q.to >= 0 && rng.chance(0.35)) for (int i = 0; i < 40 && !own; i++) { auto o = users[q.to].keys->DeriveED25519Key(KeyChainPath::FromString("m/0/1").GetChild(i)); if (o.public_key == pf.GetReceiverAddress()) { k = o; own = true; s.amount++; } } Slate q2 = s; q2.sigs.push_back(p.send.sigs[0]); Serializer m; m.Append<uint64_t>(s.amount); Crypto::ToCommitment(q2.CalculateTotalExcess()).Serialize(m); m.AppendBigInteger(pf.GetSenderAddress().bytes);
				auto n = SlatePaymentProof::Create(pf.GetSenderAddress(), k.public_key); n.AddSignature(ED25519::Sign(k.secret_key, m.GetBytes())); s.proofOpt = n; bad(own ? "lesser" : "receipt"); break; }
			else if (rng.chance(0.3)) { s.proofOpt = SlatePaymentProof::Create(pf.GetSenderAddress(), pf.GetReceiverAddress()); } else if (rng.chance(0.5)) { auto k = users[u].keys->DeriveED25519Key(KeyChainPath::FromString("m/0/1/77")); auto n = SlatePaymentProof::Create(pf.GetSenderAddress(), pf.GetReceiverAddress()); n.AddSignature(ED25519::Sign(k.secret_key, std::vector<unsigned char>(32, 7))); s.proofOpt = n; } else { auto n = SlatePaymentProof::Create(rng.chance(0.5) ? other : pf.GetSenderAddress(), other); n.AddSignature(ed25519_signature_t(*pf.GetReceiverSignature())); s.proofOpt = n; } bad("proof"); } break;
			case 9: { std::vector<SlateCommitment> k; for (auto& o : s.commitments) if (!o.proofOpt) k.push_back(o); s.commitments = k; bad("drop"); break; }
			case 10: if (what == "shift") break; s.amount += 5; if (kind == "good") kind = "harmless"; break;
			case 11: if (what == "shift") break; s.fee = Fee::From(7); s.ttl = 3; if (kind == "good") kind = "harmless"; break;
			case 12: { std::vector<SlateCommitment> k; for (auto& o : s.commitments) if (o.proofOpt) k.push_back(o); s.commitments = k; if (kind == "good") kind = "harmless"; break; }
		}
		bool post = rng.chance(0.5); size_t before = node->posts.size(); MaybeFail(); J j; j("e", "Fin")("slate", what == "id" ? -1 : q.slate)("resp", q.id)("kind", kind)("what", what)("post", post); bool r = true; Slate out;
		try { out = manager->Finalize(FinalizeCriteria(users[u].token, std::nullopt, std::move(s), post ? std::make_optional(PostMethodDTO(EPostMethod::FLUFF, std::nullopt)) : std::nullopt), tor); } catch (std::exception&) { r = false; } node->failIn = -1; j("r", r)("fail", node->failed);
		if (r || node->posts.size() > before) {
			auto txs = users[u].wallet->Read()->GetDatabase().Read()->GetTransactions(users[u].seed); std::optional<Transaction> tx; int id = -1; for (auto& x : txs) if (x.GetSlateId() && SlateId(*x.GetSlateId()) == q.slate && x.GetType() == EWalletTxType::SENDING_FINALIZED) { tx = x.GetTransaction(); id = (int)x.GetId(); }
			bool valid = tx && Valid(*tx); j("tx", id)("valid", valid)("posted", node->posts.size() - before); raw(j, "tfee", tx ? W(tx->CalcFee()) : "[]"); j("tins", tx ? Oids(tx->GetInputs()) : std::vector<int>())("touts", tx ? Oids(tx->GetOutputs()) : std::vector<int>())("same", post ? node->posts.size() > before && tx && node->posts.back() == tx->GetHash() : true);
			if (tx && valid) posted.push_back(*tx);
			done.insert(q.slate);
		}
		Log(j, u);
	}
	bool Valid(const Transaction& x) {
		std::vector<Commitment> pos, neg; uint64_t fee = x.CalcFee(); for (auto& i : x.GetInputs()) neg.push_back(i.GetCommitment()); std::vector<std::pair<Commitment, RangeProof>> rp; for (auto& o : x.GetOutputs()) { pos.push_back(o.GetCommitment()); rp.push_back({ o.GetCommitment(), o.GetRangeProof() }); } if (fee) pos.push_back(Crypto::CommitTransparent(fee));
		if (x.GetKernels().size() != 1 || neg.empty() || rp.empty()) return false; std::vector<Commitment> k{ x.GetKernels()[0].GetExcessCommitment() }; if (!x.GetOffset().IsNull()) k.push_back(Crypto::CommitBlinded(0, x.GetOffset()));
		return Crypto::AddCommitments(pos, neg) == Crypto::AddCommitments(k, {}) && Crypto::VerifyRangeProofs(rp) && KernelOk(x.GetKernels()[0]);
	}
	bool flow = false; // many payments with proofs
	std::vector<Transaction> posted; std::vector<Made> gifts, bases; std::set<Commitment> spentEver;
	// ---------- a history ----------
	void Go(int steps) {
		{ J j; j("e", "Init")("minconf", Global::GetConfig().GetMinimumConfirmations())("maturity", 25); t.log(j); }
		for (int i = 0; i < 31; i++) Mine();
		Join("alice", -1); Join("bob", -1); for (int i = 0; i < (flow ? 12 : 4); i++) Coinbase(rng.below(2)); for (int i = 0; i < (flow ? 12 : 6); i++) { OutsidePay(); Recv(pays.back(), rng.below(2)); } for (int i = 0; i < 4; i++) Mine();
		if (flow || rng.chance(0.5)) for (int i = 0; i < 26; i++) Mine();
		if (flow) for (int u = 0; u < 2; u++) Refresh(u);
		for (int i = 0; i < steps; i++) {
			int d = rng.range(0, 99), u = (int)rng.below(users.size()); if (flow && rng.chance(0.6)) d = rng.pick(std::vector<int>{ 40, 40, 55, 55, 70, 70, 70, 85, 0 });
			if (d < 17) Mine(); else if (d < 21 && node->Height() > 34) { int k = rng.range(1, 3); Reorg(k); int b = rng.chance(0.8) ? k + rng.range(0, 2) : rng.range(0, k); for (int q = 0; q < b; q++) Mine(); } else if (d < 33) Refresh(u); else if (d < 50) Send(u); else if (d < 61) RecvAny(); else if (d < 65) { OutsidePay(); Recv(pays.back(), u); } else if (d < 82) Fin(); else if (d < 91) Cancel(u); else if (d < 95) Coinbase(u); else if (d < 97) { if (users.size() < 4) { int k = (int)rng.below(users.size()); if (rng.chance(0.6)) Join("user" + std::to_string(users.size()), k); else Join("user" + std::to_string(users.size()), -1); } } else if (d < 98 && rng.chance(0.4)) Restart(); else Refresh(u);
		}
		for (int u = 0; u < (int)users.size(); u++) Refresh(u);
	}
};
int main(int c, char** v) {
	Run r(strtoull(v[3], 0, 10)); r.t.open(v[1]); fs::create_directories(v[2]); setenv("TMPDIR", v[2], 1);
	int mc = c > 5 ? atoi(v[5]) : r.rng.pick(std::vector<int>{ 1, 2, 3, 10 });
	r.flow = r.rng.chance(0.05) || strtoull(v[3], 0, 10) % 5 == 1 || strtoull(v[3], 0, 10) % 5 == 3; Setup(v[2], Environment::AUTOMATED_TESTING, "{\"WALLET\":{\"DATABASE\":\"SQLITE\",\"MIN_CONFIRMATIONS\":" + std::to_string(mc) + "}}"); Node::MakeDirs(); r.Start(); r.Go(atoi(v[4])); fflush(stdout); _exit(0);
}
