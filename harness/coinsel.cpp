// usage: coinsel OUT.ndjson SCRATCH SEED N
// Coin selection on random purses: amounts around what is just enough, equal coins, dust, and fees of every size.
#include "lib.h"
#include "wallet.h"
int main(int c, char** v) {
	Trace t; t.open(v[1]); fs::create_directories(v[2]); Rng rng(strtoull(v[3], 0, 10)); int n = atoi(v[4]); Setup(v[2]);
	{ J j; j("e", "Start")("maturity", 25); t.log(j); }
	std::vector<Commitment> cs; for (int i = 0; i < 40; i++) cs.push_back(Crypto::CommitTransparent(1000 + i)); SecretKey key(Hasher::Blake2b(std::vector<unsigned char>(4, 1)));
	for (int i = 0; i < n; i++) {
		int k = rng.chance(0.1) ? rng.range(0, 1) : rng.range(1, rng.chance(0.1) ? 30 : 9); std::vector<uint64_t> a; std::vector<OutputDataEntity> coins; uint64_t scale = rng.pick(std::vector<uint64_t>{ 5, 1000, 60000000, 60000000000ull, 1ull << 52 });
		for (int q = 0; q < k; q++) { uint64_t x = rng.chance(0.2) && q ? a[rng.below(q)] : rng.chance(0.1) ? 60000000000ull : rng.below(scale); a.push_back(x); coins.emplace_back(KeyChainPath::FromString("m/0/0/" + std::to_string(q)), key, TransactionOutput(EOutputFeatures::DEFAULT, cs[q], RangeProof(std::vector<unsigned char>(675))), x, EOutputStatus::SPENDABLE, std::nullopt, std::nullopt, std::nullopt, std::vector<std::string>()); }
		ESelectionStrategy st = rng.pick(std::vector<ESelectionStrategy>{ ESelectionStrategy::SMALLEST, ESelectionStrategy::SMALLEST, ESelectionStrategy::FEWEST_INPUTS, ESelectionStrategy::FEWEST_INPUTS, ESelectionStrategy::ALL, ESelectionStrategy::CUSTOM, ESelectionStrategy::CUSTOM });
		std::set<Commitment> in; std::vector<int> want; if (st == ESelectionStrategy::CUSTOM) for (int q = 0; q < k + 1; q++) if (q < k ? rng.chance(0.6) : rng.chance(0.15)) { in.insert(cs[q]); want.push_back(q + 1); }
		uint64_t base = rng.pick(std::vector<uint64_t>{ 1, 7, 500000, 1000000, rng.below(scale) / 50 + 1 }); base = std::min<uint64_t>(base, 1ull << 40); int outs = rng.chance(0.9) ? rng.range(1, 5) : rng.range(1, 256);
		// about what some of the coins pay for
		uint64_t sum = 0; int m = k ? rng.range(1, k) : 0; auto s = a; std::sort(s.begin(), s.end()); if (rng.chance(0.4)) std::reverse(s.begin(), s.end()); if (st == ESelectionStrategy::CUSTOM || rng.chance(0.2)) { s.clear(); for (int w : want) if (w <= k) s.push_back(a[w - 1]); m = (int)s.size(); if (st != ESelectionStrategy::CUSTOM) { s = a; m = k; } } for (int q = 0; q < m; q++) sum += s[q];
		uint64_t fee = base * (m + 21 * outs + 3), amt = rng.chance(0.7) ? (sum >= fee ? sum - fee : 0) + rng.pick(std::vector<int>{ 0, 0, 1, -1, 2, (int)rng.below(1000) }) : rng.chance(0.1) ? ~0ull - rng.below(3) : rng.below(sum + 2); if (amt > ~0ull - 10 && sum < 100) amt = sum;
		J j; j("e", "Select")("strat", SelectionStrategy::ToString(st))("want", want)("outs", outs); std::string js = "["; for (auto x : a) js += (js.size() > 1 ? "," : "") + W(x); raw(j, "coins", js + "]"); raw(j, "amt", W(amt)); raw(j, "base", W(base)); bool r = true; std::vector<int> ins;
		try { for (auto& o : CoinSelection::SelectCoinsToSpend(coins, amt, base, st, in, outs, 1)) for (int q = 0; q < k; q++) if (cs[q] == o.GetCommitment()) ins.push_back(q + 1); } catch (std::exception&) { r = false; }
		std::sort(ins.begin(), ins.end()); j("r", r)("ins", ins); t.log(j);
	}
	fclose(t.f); fflush(stdout); _exit(0);
}
