// usage: consensus OUT.ndjson SCRATCH SEED NHEADERS ENV
// The schedules, the difficulty rules and the header validator over made-up header windows at any height.
// The five graph verifiers are replaced by stand-ins that accept when the header's nonce names them.
// LINK: -Wl,--wrap=_ZN8Cuckatoo8ValidateERK11BlockHeader -Wl,--wrap=_ZN8Cuckaroo8ValidateERK11BlockHeader -Wl,--wrap=_ZN9Cuckarood8ValidateERK11BlockHeader -Wl,--wrap=_ZN9Cuckaroom8ValidateERK11BlockHeader -Wl,--wrap=_ZN9Cuckarooz8ValidateERK11BlockHeader
#include "lib.h"
#include "clock.h"
#include <PoW/DifficultyCalculator.h>
#include <BlockChain/Validators/BlockHeaderValidator.h>
#include <Core/Util/FeeUtil.h>
extern "C" {
bool __wrap__ZN8Cuckatoo8ValidateERK11BlockHeader(const BlockHeader& h) { return h.GetNonce() & 1; }
bool __wrap__ZN8Cuckaroo8ValidateERK11BlockHeader(const BlockHeader& h) { return h.GetNonce() & 2; }
bool __wrap__ZN9Cuckarood8ValidateERK11BlockHeader(const BlockHeader& h) { return h.GetNonce() & 4; }
bool __wrap__ZN9Cuckaroom8ValidateERK11BlockHeader(const BlockHeader& h) { return h.GetNonce() & 8; }
bool __wrap__ZN9Cuckarooz8ValidateERK11BlockHeader(const BlockHeader& h) { return h.GetNonce() & 16; }
}
static const char* ALG[5] = { "cuckatoo", "cuckaroo", "cuckarood", "cuckaroom", "cuckarooz" };
static std::string W(unsigned __int128 x) { std::vector<int> d; while (x) { d.push_back((int)(x % 10000)); x /= 10000; } return J::v(d); }
struct Roots : IHeaderMMR { Hash r; void AddHeader(const BlockHeader&) override {} Hash Root(const uint64_t) const override { return r; } void Rewind(const uint64_t) override {} void Commit() override {} void Rollback() noexcept override {} };
struct Run {
	Trace t; Rng rng; Environment env; std::string name; IDatabasePtr db; std::shared_ptr<Roots> roots = std::make_shared<Roots>(); int64_t now = 0;
	Run(uint64_t s) : rng(s) {}
	Hash H() { std::vector<unsigned char> b(32); for (auto& x : b) x = (unsigned char)rng.next(); return Hash(CBigInteger<32>(b.data())); }
	uint64_t Height() {
		static const std::vector<uint64_t> f{ 0, 185040, 298080, 552960, 642240, 262080, 524160, 786240, 1048320, 524160 + 10080, 1440, 10080, 25, 524160 + 30 * 10080, 524160 + 31 * 10080, 11648, 11648 * 45ull, 11648 * 89ull, 11648 * 90ull, 2880 };
		uint64_t b = rng.chance(0.6) ? rng.pick(f) : rng.below(rng.chance(0.5) ? 1300000 : 5000); int d = rng.chance(0.8) ? rng.range(-2, 2) : rng.range(-100, 100); return (int64_t)b + d < 0 ? 0 : b + d;
	}
	void Sched() {
		uint64_t h = Height(); std::string g = "["; for (int eb : { 29, 31, 32, 33, 30 + (int)rng.below(12) }) g += (g.size() > 1 ? ",[" : "[") + J::v(eb) + "," + J::v(Consensus::GraphWeight(h, (uint8_t)eb)) + "]";
		J j; j("e", "Height")("env", name)("h", h)("version", (int)Consensus::GetHeaderVersion(h))("horizon", Consensus::GetHorizonHeight(h))("maxcb", Consensus::GetMaxCoinbaseHeight(h))("ratio", Consensus::SecondaryPOWRatio(h)); raw(j, "gw", g + "]"); t.log(j);
		int i = rng.range(0, 200), o = rng.range(0, 200), k = rng.range(0, 20); if (rng.chance(0.1)) { i = rng.range(0, 30000); o = rng.range(0, 3000); k = rng.range(0, 3000); } uint64_t base = rng.chance(0.5) ? 500000 : rng.below(1ull << rng.range(1, 40));
		J w; w("e", "Weights")("i", i)("o", o)("k", k)("v4", Consensus::CalculateWeightV4(i, o, k))("v5", Consensus::CalculateWeightV5(i, o, k)); raw(w, "base", W(base)); raw(w, "fee", W(FeeUtil::CalculateFee(base, i, o, k))); t.log(w);
	}
	ProofOfWork Pow(int eb) { std::vector<uint64_t> n(42); for (auto& x : n) x = rng.next() & ((1ull << eb) - 1); return ProofOfWork((uint8_t)eb, std::move(n)); }
	static uint64_t First(const Hash& h) { uint64_t x = 0; for (int i = 0; i < 8; i++) x = x << 8 | h.data()[i]; return x; }
	BlockHeaderPtr Make(uint16_t ver, uint64_t h, int64_t ts, Hash prev, Hash root, uint64_t td, uint32_t scal, uint64_t nonce, ProofOfWork p) { return std::make_shared<BlockHeader>(ver, h, ts, std::move(prev), std::move(root), H(), H(), H(), BlindingFactor(H()), 1, 1, td, scal, nonce, std::move(p)); }
	void Header() {
		roots->r = H(); now = vclock::now() / 1000000000LL;
		uint64_t h = std::max<uint64_t>(2, Height()); uint16_t ver = Consensus::GetHeaderVersion(h); if (rng.chance(0.04)) ver = (uint16_t)rng.range(1, 5); bool wtema = ver >= 5;
		int eb = rng.chance(0.5) ? 29 : rng.chance(0.6) ? rng.range(31, 34) : rng.range(10, 45); if (wtema && rng.chance(0.85)) eb = rng.range(31, 33);
		ProofOfWork pow = Pow(eb); uint64_t x = First(pow.GetHash()); if (x == 0) x = 1;
		// how the window goes: steady blocks at a difficulty near what this proof shows, or anything
		bool steady = rng.chance(0.5); int n = wtema ? rng.range(2, 3) : rng.chance(0.2) ? rng.range(1, 60) : 62; uint32_t scal = (uint32_t)rng.range(13, 3000);
		unsigned __int128 w = eb == 29 ? scal : eb >= 24 ? Consensus::GraphWeight(h, (uint8_t)eb) : 100; uint64_t shows = (uint64_t)std::min<unsigned __int128>((w << 64) / x, 1ull << 50);
		uint64_t d0 = steady ? std::max<int64_t>(1, (int64_t)shows + rng.range(-1, 1)) : rng.chance(0.5) ? 1 + rng.below(shows + 10) : 1 + rng.below(1ull << rng.range(1, 45)); if (d0 == 0) d0 = 1;
		double secs = rng.chance(0.5) ? 0.9 : (double)rng.below(101) / 100; int speed = rng.pick(std::vector<int>{ 1, 20, 30, 59, 60, 61, 119, 120, 300, 3600 }); bool jitter = !steady && rng.chance(0.7);
		std::vector<BlockHeaderPtr> c; uint64_t td = rng.below(1ull << 50); int64_t base = now - 400000, ts = base; Hash prev = H(); std::string ps;
		for (int i = 0; i < n; i++) {
			if (i > 0 || n < 61 || rng.chance(0.5)) {}
			uint64_t d = steady ? d0 : jitter ? 1 + rng.below(2 * d0) : d0; if (i == 0 && !wtema && n < 62) td = d; else td += d;
			ts += steady ? 60 : 1 + (jitter ? (int)rng.below(2 * speed) : speed);
			bool sec = rng.chance(secs); uint32_t s = steady && rng.chance(0.9) ? scal : (uint32_t)rng.range(0, rng.chance(0.9) ? 3000 : 100000);
			auto p = Make(ver, h - n + i, ts, prev, H(), td, s, 1, Pow(sec ? 29 : 31)); prev = p->GetHash(); c.push_back(p); if (sec) {}
		}
		if (wtema && rng.chance(0.3)) {} 
		db->GetBlockDB()->Write()->AddBlockHeaders(c); const BlockHeader& last = *c.back();
		auto cand = [&](uint64_t diff, uint32_t sc) {
			uint64_t nonce = (wtema || eb != 29) ? 1 : 1ull << std::min<int>(ver, 4); if (rng.chance(0.15)) nonce = rng.below(32);
			int64_t at = last.GetTimestamp() + rng.range(1, 100); if (rng.chance(0.06)) at = last.GetTimestamp() + rng.range(-3, 1); if (rng.chance(0.08)) at = now + rng.range(298, 303); if (rng.chance(0.02)) at = now + 1000000;
			bool bad = rng.chance(0.04); int k = bad ? rng.range(0, 2) : -1;
			auto p = Make(ver, k == 0 ? h + 1 : h, at, k == 1 ? H() : last.GetHash(), k == 2 ? H() : roots->r, last.GetTotalDifficulty() + diff, sc, nonce, pow);
			if (k == 1) return; // the difficulty rules look the parent up by its hash
			HeaderInfo ni = DifficultyCalculator(db->GetBlockDB()->Read().GetShared()).CalculateNextDifficulty(*p);
			bool ok = true; try { BlockHeaderValidator(db->GetBlockDB()->Read().GetShared(), roots).Validate(*p, last); } catch (std::exception&) { ok = false; }
			std::vector<std::string> cy; for (int i = 0; i < 5; i++) if (nonce >> i & 1) cy.push_back(ALG[i]);
			std::string pv = "["; for (size_t i = c.size(); i-- > 0;) pv += (pv.size() > 1 ? ",[" : "[") + J::v(c[i]->GetTimestamp() - base) + "," + W(c[i]->GetTotalDifficulty()) + "," + J::v(c[i]->GetScalingDifficulty()) + "," + J::v(c[i]->IsSecondaryPoW()) + "]";
			J j; j("e", "Header")("env", name)("h", p->GetHeight())("ver", (int)ver)("ts", at - base)("now", now - base)("scal", sc)("eb", eb)("cycles", cy)("linked", k < 0); raw(j, "td", W(p->GetTotalDifficulty())); raw(j, "x", W(x)); raw(j, "prev", pv + "]");
			raw(j, "ndiff", W(ni.GetDifficulty())); j("nscal", ni.GetSecondaryScaling())("valid", ok); t.log(j);
		};
		// what the real rules ask for, and its neighbours
		auto probe = Make(ver, h, last.GetTimestamp() + 60, last.GetHash(), roots->r, last.GetTotalDifficulty() + 1, 0, 0, pow);
		HeaderInfo ni = DifficultyCalculator(db->GetBlockDB()->Read().GetShared()).CalculateNextDifficulty(*probe);
		cand(ni.GetDifficulty(), ni.GetSecondaryScaling());
		int m = rng.range(0, 5); if (m == 0) cand(ni.GetDifficulty() + 1, ni.GetSecondaryScaling()); if (m == 1) cand(ni.GetDifficulty() - 1, ni.GetSecondaryScaling()); if (m == 2) cand(ni.GetDifficulty(), ni.GetSecondaryScaling() + (rng.chance(0.5) || ni.GetSecondaryScaling() == 0 ? 1 : -1)); if (m == 3) cand(0, ni.GetSecondaryScaling());
	}
};
int main(int c, char** v) {
	Run r(strtoull(v[3], 0, 10)); r.t.open(v[1]); fs::create_directories(v[2]); r.name = v[5]; r.env = r.name == "MAINNET" ? Environment::MAINNET : r.name == "FLOONET" ? Environment::FLOONET : Environment::AUTOMATED_TESTING;
	Setup(v[2], r.env); vclock::freeze(); Node::Wipe(); Node::MakeDirs(); r.db = DatabaseAPI::OpenDatabase(Global::GetConfig());
	{ J j; j("e", "Reward"); raw(j, "reward", W(Consensus::REWARD)); r.t.log(j); }
	for (int i = 0; i < atoi(v[4]); i++) { r.Sched(); if (r.name != "AUTOMATED_TESTING") { r.Header(); vclock::advance(rand() % 3); } }
	fflush(stdout); Node::Wipe(); _exit(0);
}
