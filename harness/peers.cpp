// usage: peers OUT.ndjson SCRATCH SEED NTRACES
// The real peer manager over a real peer database, under a clock the driver sets.
#include "lib.h"
#include "clock.h"
#include <P2P/Seed/PeerManager.h>
#include <Database/PeerDB.h>
static std::vector<std::string> lines; static bool surprised = false;
struct Trace2 { void log(J& j) { lines.push_back(j.str()); } } t;
// The peer manager tidies up in a thread of its own: its last act is to delete from the database.
struct Watched : IPeerDB {
	std::shared_ptr<Locked<IPeerDB>> d; static std::atomic<int> tidied; explicit Watched(std::shared_ptr<Locked<IPeerDB>> x) : d(x) {}
	std::vector<PeerPtr> LoadAllPeers() const override { return d->Read()->LoadAllPeers(); }
	std::optional<PeerPtr> GetPeer(const IPAddress& a, const std::optional<uint16_t>& p) const override { return d->Read()->GetPeer(a, p); }
	void SavePeers(const std::vector<PeerPtr>& p) override { d->Write()->SavePeers(p); }
	void Commit() override {} void Rollback() noexcept override {}
	void DeletePeers(const std::vector<PeerPtr>& p) override { d->Write()->DeletePeers(p); tidied++; }
};
std::atomic<int> Watched::tidied{ 0 };
static const int NP = 9;
struct Run {
	Rng rng; IDatabasePtr db; std::shared_ptr<Locked<PeerManager>> pm; int64_t t0; std::vector<IPAddress> ip; std::shared_ptr<Locked<IPeerDB>> store; int ticks = 0;
	explicit Run(uint64_t s) : rng(s) { for (int i = 0; i < NP; i++) ip.push_back(i % 4 == 3 ? IPAddress::CreateV6({ 0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, (uint8_t)(i / 4), (uint8_t)rng.below(250) }) : i == 0 ? IPAddress::CreateV4({ 127, 0, 0, 1 }) : IPAddress::CreateV4({ (uint8_t)rng.range(11, 120), (uint8_t)rng.below(250), (uint8_t)i, 7 })); }
	int Id(const IPAddress& a) { for (int i = 0; i < NP; i++) if (ip[i] == a) return i; return -1; }
	int64_t Now() { return vclock::now() / 1000000000LL - t0; }
	int64_t Rel(std::time_t x) { return x == 0 ? -1 : (int64_t)x - t0; }
	std::string Rec(const Peer& p) { return "[" + J::v(Id(p.GetIPAddress())) + "," + J::v(Rel(p.GetLastBanTime())) + "," + J::v(Rel(p.GetLastContactTime())) + "," + J::v((int)p.GetCapabilities().GetCapability()) + "," + J::v(p.GetVersion()) + "," + J::v(p.IsConnected()) + "," + J::v(p.IsBanned()) + "]"; }
	void Log(J& j) {
		std::string k = "[", a = "["; auto r = pm->Read();
		for (int i = 0; i < NP; i++) { auto p = r->GetPeer(ip[i]); if (p) k += (k.size() > 1 ? "," : "") + Rec(**p); }
		for (auto& p : r->GetAllPeers()) a += (a.size() > 1 ? "," : "") + J::v(Id(p->GetIPAddress()));
		j("now", Now()); raw(j, "known", k + "]"); raw(j, "all", a + "]"); t.log(j);
	}
	void Expect() { for (int i = 0; i < 3000 && Watched::tidied <= ticks; i++) usleep(100); if (Watched::tidied > ticks) ticks++; usleep(300); }
	void Open() { pm = PeerManager::Create(Global::GetContext(), store); Expect(); }
	void Close() { int was = Watched::tidied; pm.reset(); if (was != ticks) surprised = true; ticks = Watched::tidied; }
	void Tidy() { vclock::advance(16); { J j; j("e", "Advance")("dt", 16); Log(j); } Global::GetContext()->GetScheduler()->in(std::chrono::seconds(0), [] {}); Expect(); J j; j("e", "Tidy"); Log(j); }
	void Advance(int64_t s) { vclock::advance(s); J j; j("e", "Advance")("dt", s); Log(j); }
	std::vector<Capabilities::ECapability> caps{ Capabilities::UNKNOWN, Capabilities::FULL_HIST, Capabilities::TXHASHET_HIST, Capabilities::PEER_LIST, Capabilities::FAST_SYNC_NODE, Capabilities::ARCHIVE_NODE };
	void New(Capabilities::ECapability c) { auto p = pm->Write()->GetNewPeer(c); J j; j("e", "New")("cap", (int)c)("r", p ? Id(p->GetIPAddress()) : -1)("got", p != nullptr); Log(j); }
	void Step() {
		int k = rng.range(0, 99); int i = rng.range(0, NP - 1);
		if (k < 8) { std::vector<SocketAddress> a; std::vector<int> is; int n = rng.range(1, 4); while (n--) { int x = rng.range(0, NP - 1); is.push_back(x); a.emplace_back(ip[x], (uint16_t)rng.range(1, 60000)); } pm->Write()->AddFreshPeers(a); J j; j("e", "Fresh")("is", is); Log(j); }
		else if (k < 14) { auto p = pm->Write()->GetPeer(ip[i]); J j; j("e", "Get")("i", i); Log(j); }
		else if (k < 26) { pm->Write()->BanPeer(ip[i], rng.chance(0.5) ? EBanReason::ManualBan : EBanReason::BadBlock); J j; j("e", "Ban")("i", i); Log(j); }
		else if (k < 29) { pm->Write()->UnbanPeer(ip[i]); J j; j("e", "Unban")("i", i); Log(j); }
		else if (k < 50) { auto p = pm->Write()->GetPeer(ip[i]); int m = rng.range(0, 5); J j;
			if (m == 0) { p->SetConnected(true); j("e", "Connected")("i", i)("on", true); } else if (m == 1) { p->SetConnected(false); j("e", "Connected")("i", i)("on", false); }
			else if (m == 2) { p->UpdateLastContactTime(); j("e", "Contact")("i", i); } else if (m == 3) { auto c = rng.pick(caps); p->UpdateCapabilities(Capabilities(c)); j("e", "Caps")("i", i)("c", (int)c); }
			else if (m == 4) { int v = rng.range(1, 1000); p->UpdateVersion((uint32_t)v); j("e", "Version")("i", i)("v", v); } else { { J g; g("e", "Get")("i", i); Log(g); } p->Ban(EBanReason::BadBlockHeader); j("e", "Ban")("i", i); }
			Log(j); }
		else if (k < 66) New(rng.pick(caps));
		else if (k < 76) { auto c = rng.pick(caps); int max = rng.range(1, NP); auto ps = pm->Read()->GetPeers(c, (uint16_t)max); std::vector<int> r; for (auto& p : ps) r.push_back(Id(p->GetIPAddress())); J j; j("e", "Query")("cap", (int)c)("max", max)("r", r); Log(j); }
		else if (k < 96) { static const std::vector<int64_t> ds{ 1, 2, 60, 299, 300, 301, 3600, 10799, 10800, 10801, 10499, 5000, 86400, 6 * 86400 + 80000, 604799, 604800, 604801 }; int64_t d = rng.pick(ds); if (d > 20000 && rng.chance(0.6)) d = 7; Advance(d); }
		else if (k < 98) Tidy();
		else { Close(); Open(); J j; j("e", "Recreate"); Log(j); }
	}
	void Trace1(int idx) {
		Node::Wipe(); Node::MakeDirs(); db = DatabaseAPI::OpenDatabase(Global::GetConfig()); store = std::make_shared<Locked<IPeerDB>>(std::make_shared<Watched>(db->GetPeerDB())); Watched::tidied = 0; Open();
		t0 = vclock::now() / 1000000000LL - 1000; { J j; j("e", "Reset")("n", NP); Log(j); }
		int n = rng.range(30, 90); for (int i = 0; i < n; i++) Step();
		{ J j; j("e", "Spread")("on", true); Log(j); } auto c = rng.pick(caps); for (int i = 0; i < 200; i++) { vclock::advance(301); J j; j("e", "Advance")("dt", 301); Log(j); New(c); } { J j; j("e", "Spread")("on", false); Log(j); }
		for (int i = 0; i < 10; i++) Step();
		Close(); store.reset(); db.reset();
	}
};
int main(int c, char** v) {
	Trace f; f.open(v[1]); fs::create_directories(v[2]); Setup(v[2]); vclock::freeze(); vclock::advance(1000);
	uint64_t seed = strtoull(v[3], 0, 10); int n = atoi(v[4]);
	for (int i = 0; i < n; i++) { lines.clear(); surprised = false; Run r(seed * 100003 + i); r.Trace1(i); if (!surprised) for (auto& x : lines) fprintf(f.f, "%s\n", x.c_str()); else fprintf(stderr, "an unexpected tidying: trace left out\n"); }
	fclose(f.f); f.f = nullptr; Node::Wipe(); fflush(stdout); _exit(0);
}
