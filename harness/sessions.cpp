// usage: sessions OUT.ndjson SCRATCH SEED STEPS
// Wallets created, restored, opened, used, locked and deleted through the owner's API, with right and wrong
// passwords, good, stale and forged tokens, and names that are no names. SCRATCH holds everything, even what a
// name that leads out of the wallets' folder would reach.
#include "lib.h"
#include "wallet.h"
#include "API/Wallet/Owner/Handlers/CreateWalletHandler.h"
#include "API/Wallet/Owner/Handlers/RestoreWalletHandler.h"
#include "API/Wallet/Owner/Handlers/LoginHandler.h"
#include "API/Wallet/Owner/Handlers/LogoutHandler.h"
#include "API/Wallet/Owner/Handlers/DeleteWalletHandler.h"
#include "API/Wallet/Owner/Handlers/GetWalletSeedHandler.h"
#include "API/Wallet/Owner/Handlers/GetBalanceHandler.h"
#include "API/Wallet/Owner/Handlers/GetWalletAddressHandler.h"
#include "API/Wallet/Owner/Handlers/GetNewWalletAddressHandler.h"
#include "API/Wallet/Owner/Handlers/ListTxsHandler.h"
#include "API/Wallet/Owner/Handlers/ListOutputsHandler.h"
#include "API/Wallet/Owner/Handlers/ListWalletsHandler.h"
#include "API/Wallet/Owner/Handlers/ScanForOutputsHandler.h"
#include "API/Wallet/Owner/Handlers/SendHandler.h"
#include "API/Wallet/Owner/Handlers/EstimateFeeHandler.h"
#include "API/Wallet/Owner/Handlers/CancelTxHandler.h"
#include "API/Wallet/Owner/Handlers/RepostTxHandler.h"
#include "API/Wallet/Owner/Handlers/RetryTorHandler.h"
#include <sys/socket.h>
#include <sys/resource.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fstream>
using S = std::string;
struct Tor2 : FakeTor { bool RetryInit() final { return true; } };
struct Run : WalletWorld {
	struct Sess { int id; SessionToken tok; S name; bool open; };
	S root, data; std::vector<S> names{ "alice", "bob smith", "\xc3\xbcn\xc3\xaf", "carol" }; std::vector<S> pws{ "Secret 1", "secret 1", "Secret 1 ", "p\xc3\xa4ss\xe2\x82\xac", S(200, 'x'), "Secret" };
	std::vector<S> words; std::map<S, int> addr; std::vector<Sess> ss; std::map<int, S> ports; std::map<S, S> cur; std::vector<S> sentinels;
	explicit Run(uint64_t s) : WalletWorld(s) {}
	// ---------- what can be seen from outside ----------
	// does this process listen at a port (another's may have got the same one since)
	bool Alive(int port) {
		std::set<S> mine; for (auto& e : fs::directory_iterator("/proc/self/fd")) { char b[64]; ssize_t n = readlink(e.path().c_str(), b, 63); if (n > 0) mine.insert(S(b, n)); }
		for (auto f : { "/proc/self/net/tcp", "/proc/self/net/tcp6" }) { std::ifstream in(f); S l; std::getline(in, l); while (std::getline(in, l)) { char loc[80], rem[80]; unsigned st, x; unsigned long long ino = 0; unsigned p = 0; if (sscanf(l.c_str(), " %*d: %79s %79s %x %*s %*s %*s %u %*u %llu", loc, rem, &st, &x, &ino) == 5 && st == 10) { const char* c = strchr(loc, ':'); p = (unsigned)strtoul(c + 1, 0, 16); if (p == (unsigned)port && mine.count("socket:[" + std::to_string(ino) + "]")) return true; } } }
		return false;
	}
	S Http(int port, const S& body) {
		int f = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = inet_addr("127.0.0.1"); timeval tv{ 20, 0 }; setsockopt(f, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
		if (connect(f, (sockaddr*)&a, sizeof a)) { close(f); return "none"; }
		S q = "POST /v2/foreign HTTP/1.1\r\nHost: 127.0.0.1\r\nContent-Type: application/json\r\nConnection: close\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body; size_t n = 0; while (n < q.size()) { ssize_t k = ::send(f, q.data() + n, q.size() - n, MSG_NOSIGNAL); if (k <= 0) break; n += k; }
		S r; char b[4096]; ssize_t k; while ((k = recv(f, b, sizeof b, 0)) > 0) r.append(b, k); close(f); return r;
	}
	int NameId(const S& n) { for (size_t i = 0; i < names.size(); i++) if (names[i] == n) return (int)i + 1; return 99; }
	int PwId(const S& p) { if (p.empty()) return 0; for (size_t i = 0; i < pws.size(); i++) if (pws[i] == p) return (int)i + 1; return 99; }
	int SeedId(const S& w) { for (size_t i = 0; i < words.size(); i++) if (words[i] == w) return (int)i + 1; return 0; }
	int Words(const S& w) { int k = SeedId(w); if (k) return k; words.push_back(w); k = (int)words.size(); auto keys = KeyChain::FromSeed(Mnemonic::ToEntropy(SecureString(w))); for (int i = 0; i < 40; i++) addr[SlatepackAddress(ED25519::CalculatePubKey(keys.DeriveED25519Key(KeyChainPath::FromString("m/0/1").GetChild(i)).secret_key)).ToString()] = k; return k; }
	bool Safe() { for (auto& f : sentinels) { std::ifstream i(f); S x; if (!std::getline(i, x) || x != "keep") return false; } std::set<S> top; for (auto& e : fs::directory_iterator(root)) top.insert(e.path().filename().string()); if (top != std::set<S>{ "keep", "x" }) return false; top.clear(); for (auto& e : fs::directory_iterator(Global::GetConfig().GetWalletPath())) if (!e.is_directory()) top.insert(e.path().filename().string()); return top == std::set<S>{ "keep" }; }
	void Log(J& j) {
		std::vector<int> acc, live; for (auto& a : manager->GetAllAccounts()) acc.push_back(NameId(a)); std::sort(acc.begin(), acc.end()); for (auto& [p, u] : ports) if (Alive(p)) live.push_back(p);
		j("acc", acc)("live", live)("safe", Safe()); t.log(j);
	}
	// ---------- calling the API ----------
	template <class H> std::optional<Json::Value> Call(const H& h, const Json::Value& params) { try { auto r = h.Handle(RPC::Request::BuildRequest("m", params)); if (r.GetError()) return std::nullopt; return r.GetResult().value_or(Json::Value()); } catch (std::exception&) { return std::nullopt; } }
	S Case(S n) { if (rng.chance(0.4)) for (auto& c : n) if (isalpha((unsigned char)c) && (unsigned char)c < 128 && rng.chance(0.5)) c = (char)toupper(c); return n; }
	// names that are none: they lead elsewhere, or to a user's wallet by another way
	S Evil() { S n = rng.pick(names), o = rng.pick(names); return rng.pick(std::vector<S>{ "", ".", "..", "./" + n, n + "/", n + "/../" + o, "../" + n, "sub/" + n, n + "/wallet.db", "../..", root + "/abs", n + "/." }); }
	S Pick(bool& bad) { bad = rng.chance(0.12); return bad ? Evil() : rng.pick(names); }
	S Pw(const S& name) { auto it = cur.find(name); return it != cur.end() && rng.chance(0.65) ? it->second : rng.chance(0.06) ? S() : rng.pick(pws); }
	void Opened(J& j, const Json::Value& r, const S& name) {
		Sess s{ (int)ss.size() + 1, SessionToken::FromBase64(r["session_token"].asString()), name, true }; int port = r["listener_port"].asInt(); ports[port] = name; ss.push_back(s); auto a = addr.find(r["slatepack_address"].asString());
		j("tok", s.id)("port", port)("seed", a == addr.end() ? 0 : a->second);
	}
	void Create() {
		bool bad; S n = Pick(bad), raw_ = Case(n); if (!bad && rng.chance(0.2)) raw_ = " " + raw_ + " "; if (n.empty() && rng.chance(0.5)) raw_ = "  "; S p = rng.chance(0.08) ? S() : rng.pick(pws); int w = rng.chance(0.85) ? rng.pick(std::vector<int>{ 12, 15, 18, 21, 24 }) : rng.pick(std::vector<int>{ 0, 9, 11, 13, 23, 25, 27, 3 });
		Json::Value q; q["username"] = raw_; q["password"] = p; q["num_seed_words"] = w; auto r = Call(CreateWalletHandler(manager, tor), q);
		J j; j("e", "Create")("u", NameId(n))("bad", bad)("pw", PwId(p))("n", w)("r", r.has_value()); if (r) { int k = Words((*r)["wallet_seed"].asString()); j("words", k); Opened(j, *r, n); cur[n] = p; } Log(j);
	}
	void Restore() {
		bool bad; S n = Pick(bad), p = rng.chance(0.08) ? S() : rng.pick(pws); S w; int k = 0; if (!words.empty() && rng.chance(0.7)) { k = rng.range(1, (int)words.size()); w = words[k - 1]; } else if (rng.chance(0.5)) { auto e = CSPRNG::GenerateRandomBytes(rng.pick(std::vector<int>{ 16, 20, 24, 28, 32 })); w = S(Mnemonic::CreateMnemonic(e.data(), e.size()).c_str()); k = Words(w); }
		else { w = words.empty() ? S("abandon abandon") : rng.pick(words); int d = rng.range(0, 3); if (d == 0) w = w.substr(w.find(' ') + 1); else if (d == 1) w += " abandon"; else { auto f = w.find(' '); w = (d == 2 ? S("zzzz") : w.substr(0, f) == "ability" ? S("zoo") : S("ability")) + w.substr(f); if (d == 3) { bool ok = true; try { Mnemonic::ToEntropy(SecureString(w)); } catch (std::exception&) { ok = false; } if (ok) k = Words(w); } } }
		Json::Value q; q["username"] = Case(n); q["password"] = p; q["wallet_seed"] = w; auto r = Call(RestoreWalletHandler(manager, tor), q);
		J j; j("e", "Restore")("u", NameId(n))("bad", bad)("pw", PwId(p))("words", k)("r", r.has_value()); if (r) { Opened(j, *r, n); cur[n] = p; } Log(j);
	}
	void Login() {
		bool bad; S n = Pick(bad), p = Pw(n); bool fail = rng.chance(0.06); if (fail) node->failIn = 0; Json::Value q; q["username"] = Case(n); q["password"] = p; auto r = Call(LoginHandler(manager, tor), q); fail = fail && node->failIn < 0; node->failIn = -1;
		J j; j("e", "Login")("u", NameId(n))("bad", bad)("pw", PwId(p))("fail", fail)("r", r.has_value()); if (r) Opened(j, *r, n); Log(j);
	}
	// a token, good or not, and what it is: the open session it belongs to, or 0
	SessionToken Token(int& of, S& kind) {
		of = 0; std::vector<Sess*> open, shut; for (auto& s : ss) (s.open ? open : shut).push_back(&s);
		if (!open.empty() && rng.chance(0.6)) { auto* s = rng.pick(open); of = s->id; kind = "good"; return s->tok; }
		if (!shut.empty() && rng.chance(0.3)) { kind = "stale"; return rng.pick(shut)->tok; }
		if (open.empty()) { kind = "made up"; return SessionToken(rng.next(), CSPRNG::GenerateRandomBytes(rng.pick(std::vector<int>{ 0, 4, 20, 36 }))); }
		auto* s = rng.pick(open); auto k = s->tok.GetTokenKey(); int d = rng.range(0, 4);
		if (d == 0) { kind = "flipped"; size_t at = rng.below(k.size()); k[at] ^= (unsigned char)(1 << rng.below(8)); return SessionToken(s->tok.GetSessionId(), k); }
		if (d == 1) { kind = "short"; k.resize(rng.chance(0.3) ? 0 : rng.below(k.size())); return SessionToken(s->tok.GetSessionId(), k); }
		if (d == 2) { kind = "long"; for (int i = rng.range(1, 40); i; i--) k.push_back((unsigned char)rng.below(256)); return SessionToken(s->tok.GetSessionId(), k); }
		if (d == 3) { kind = "other id"; auto* o = rng.pick(open); uint64_t id = o->id != s->id ? o->tok.GetSessionId() : !shut.empty() && rng.chance(0.5) ? rng.pick(shut)->tok.GetSessionId() : s->tok.GetSessionId() + rng.range(1, 3); for (auto& x : ss) if (x.open && x.tok.GetSessionId() == id && x.tok.GetTokenKey() == k) id += 1000; return SessionToken(id, k); }
		kind = "no key"; return SessionToken(s->tok.GetSessionId(), std::vector<unsigned char>(k.size(), 0));
	}
	void Logout() { int of; S kind; auto tk = Token(of, kind); if (of && rng.chance(0.35)) return; Json::Value q; q["session_token"] = tk.ToBase64(); bool r = Call(LogoutHandler(manager), q).has_value(); if (of) ss[of - 1].open = false; J j; j("e", "Logout")("of", of)("kind", kind)("r", r); Log(j); }
	void Use() {
		int of; S kind; auto tk = Token(of, kind); S api = rng.pick(std::vector<S>{ "balance", "address", "txs", "outputs", "scan", "wallet", "send", "estimate", "cancel", "repost", "receive", "finalize", "new address", "tor", "index", "untor", "coinbase" }); Json::Value q; q["session_token"] = tk.ToBase64(); bool r = false; int seed = 0;
		auto who = [&](const std::optional<Json::Value>& v) { r = v.has_value(); if (r) { auto a = addr.find((*v)["slatepack"].asString()); seed = a == addr.end() ? 0 : a->second; } };
		auto ok = [&](std::function<void()> f) { try { f(); r = true; } catch (std::exception&) { r = false; } };
		if (api == "balance") r = Call(GetBalanceHandler(manager), q).has_value(); else if (api == "address") who(Call(GetWalletAddressHandler(manager), q)); else if (api == "new address") who(Call(GetNewWalletAddressHandler(manager, tor), q));
		else if (api == "txs") { q["statuses"] = Json::Value(Json::arrayValue); r = Call(ListTxsHandler(manager), q).has_value(); } else if (api == "outputs") r = Call(ListOutputsHandler(manager), q).has_value(); else if (api == "scan") { q["start_height"] = 0; r = Call(ScanForOutputsHandler(manager), q).has_value(); }
		else if (api == "wallet") ok([&] { auto w = manager->GetWallet(tk); auto a = addr.find(w.Read()->GetSlatepackAddress().ToString()); seed = a == addr.end() ? 0 : a->second; });
		else if (api == "send") { q["amount"] = 1000; q["fee_base"] = 500000; q["change_outputs"] = 1; q["selection_strategy"]["strategy"] = "SMALLEST"; r = Call(SendHandler(tor, manager), q).has_value(); }
		else if (api == "estimate") { q["amount"] = 1000; q["fee_base"] = 500000; q["change_outputs"] = 1; q["selection_strategy"]["strategy"] = "SMALLEST"; r = Call(EstimateFeeHandler(manager), q).has_value(); }
		else if (api == "cancel") { q["tx_id"] = 0; r = Call(CancelTxHandler(manager), q).has_value(); } else if (api == "repost") { q["tx_id"] = 0; q["method"] = "FLUFF"; r = Call(RepostTxHandler(tor, manager), q).has_value(); }
		else if (api == "tor") { auto v = Call(RetryTorHandler(tor, manager), q); r = v.has_value() && (*v)["status"].asString() == "SUCCESS"; }
		else if (api == "receive") ok([&] { manager->Receive(ReceiveCriteria(SessionToken(tk), std::nullopt, Given(), std::nullopt)); });
		else if (api == "finalize") ok([&] { manager->Finalize(FinalizeCriteria(SessionToken(tk), std::nullopt, Given(), std::nullopt), tor); });
		else if (api == "index") ok([&] { manager->IncreaseAddressKeyChainPathIndex(tk); }); else if (api == "untor") ok([&] { manager->RemoveCurrentTorListener(tk, tor); });
		else ok([&] { manager->GetWallet(tk).Write()->BuildCoinbase(BuildCoinbaseCriteria(tk, 0, std::nullopt)); });
		J j; j("e", "Use")("of", of)("kind", kind)("api", api)("r", r)("seed", seed); Log(j);
	}
	Slate Given() { Slate s; s.amount = 1000000000ull + rng.below(5); s.fee = Fee::From(rng.below(50000000)); s.offset = BlindingFactor(Key().GetBytes()); s.sigs.push_back(SlateSignature(Crypto::CalculatePublicKey(Key()), Crypto::CalculatePublicKey(Key()), std::nullopt)); return s; }
	// a payment sent to a user's listener
	void Post() {
		if (ports.empty()) return; auto it = ports.begin(); std::advance(it, rng.below(ports.size())); if (!Alive(it->first) && rng.chance(0.85)) for (auto k = ports.begin(); k != ports.end(); ++k) if (Alive(k->first) && (!Alive(it->first) || rng.chance(0.5))) it = k; if (!Alive(it->first) && rng.chance(0.7)) return; Json::Value p(Json::arrayValue); p.append(Given().ToJSON()); p.append(Json::Value()); p.append(Json::Value());
		Json::Value q; q["jsonrpc"] = "2.0"; q["id"] = 1; q["method"] = "receive_tx"; q["params"] = p; S r = Alive(it->first) ? Http(it->first, q.toStyledString()) : "none"; J j; j("e", "Post")("port", it->first)("r", r.find("\"Ok\"") != S::npos); if (getenv("SHOW")) fprintf(stderr, "%s\n", r.substr(0, 600).c_str()); Log(j);
	}
	void Seed() { bool bad; S n = Pick(bad), p = Pw(n); Json::Value q; q["username"] = Case(n); q["password"] = p; auto r = Call(GetWalletSeedHandler(manager), q); J j; j("e", "Seed")("u", NameId(n))("bad", bad)("pw", PwId(p))("r", r.has_value())("words", r ? SeedId((*r)["wallet_seed"].asString()) : 0); Log(j); }
	void Delete() { bool bad; S n = Pick(bad), p = Pw(n); if (bad) for (auto& [u, c] : cur) if (n.find(u) != S::npos && rng.chance(0.8)) p = c; Json::Value q; q["username"] = Case(n); q["password"] = p; bool r = Call(DeleteWalletHandler(manager), q).has_value(); if (r) cur.erase(n); J j; j("e", "Delete")("u", NameId(n))("bad", bad)("pw", PwId(p))("r", r); Log(j); }
	void Change() {
		bool bad; S n = Pick(bad), p = Pw(n), q = rng.pick(pws); bool full = rng.chance(0.2); rlimit old; if (full) { getrlimit(RLIMIT_FSIZE, &old); rlimit l = old; l.rlim_cur = rng.pick(std::vector<int>{ 0, 20, 150 }); setrlimit(RLIMIT_FSIZE, &l); }
		bool r = true; try { manager->ChangePassword(GrinStr(Case(n)), SecureString(p.c_str()), SecureString(q.c_str())); } catch (std::exception&) { r = false; } if (full) setrlimit(RLIMIT_FSIZE, &old);
		if (r) cur[n] = q; J j; j("e", "Change")("u", NameId(n))("bad", bad)("pw", PwId(p))("to", PwId(q))("full", full)("r", r); Log(j);
	}
	// two sessions of one user, of which the first is closed: the listener goes on for the other
	void Two() {
		Json::Value q; q["username"] = "carol"; q["password"] = pws[0]; q["num_seed_words"] = 12; int k = rng.range(2, 4); for (int i = 0; i < k; i++) { auto r = i ? Call(LoginHandler(manager, tor), q) : Call(CreateWalletHandler(manager, tor), q); J j; j("e", i ? "Login" : "Create")("u", 4)("bad", false)("pw", 1)("n", 12)("fail", false)("r", r.has_value()); if (r) { if (!i) j("words", Words((*r)["wallet_seed"].asString())); Opened(j, *r, "carol"); cur["carol"] = pws[0]; } Log(j); }
		if ((int)ss.size() != k) return; int keep = k == 2 ? 1 : (int)rng.below(k); std::vector<int> o; for (int i = 0; i < k; i++) if (i != keep) o.push_back(i); if (rng.chance(0.5)) std::reverse(o.begin(), o.end());
		for (int i : o) { q["session_token"] = ss[i].tok.ToBase64(); bool r = Call(LogoutHandler(manager), q).has_value(); ss[i].open = false; J j; j("e", "Logout")("of", i + 1)("kind", "good")("r", r); Log(j); if (rng.chance(0.6)) Post(); }
		Post();
	}
	void Restart() { manager.reset(); manager = WalletAPI::CreateWalletManager(Global::GetConfig(), node); for (auto& s : ss) s.open = false; J j; j("e", "Restart"); Log(j); }
	void Go(int steps) {
		node = std::make_shared<FakeNode>(); tor = std::make_shared<Tor2>(); manager = WalletAPI::CreateWalletManager(Global::GetConfig(), node); for (int i = 0; i < 3; i++) node->Add({ Outside(60000000000ull, EOutputFeatures::COINBASE_OUTPUT) }, {});
		for (fs::path d = Global::GetConfig().GetWalletPath(); d.string().size() >= root.size(); d = d.parent_path()) { sentinels.push_back((d / "keep").string()); std::ofstream(sentinels.back()) << "keep"; }
		Two(); for (int i = 0; i < steps; i++) { int d = rng.range(0, 99); if (d < 9) Create(); else if (d < 14) Restore(); else if (d < 32) Login(); else if (d < 45) Logout(); else if (d < 72) Use(); else if (d < 77) Seed(); else if (d < 84) Change(); else if (d < 91) Delete(); else if (d < 98) Post(); else Restart(); }
	}
};
int main(int c, char** v) {
	signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN);
	Run r(strtoull(v[3], 0, 10)); r.t.open(v[1]); r.root = fs::absolute(v[2]).string(); r.data = r.root + "/x/y/z"; fs::create_directories(r.data); setenv("TMPDIR", r.data.c_str(), 1);
	Setup(r.data, Environment::AUTOMATED_TESTING, "{\"WALLET\":{\"DATABASE\":\"SQLITE\",\"MIN_CONFIRMATIONS\":2}}"); Node::MakeDirs(); fs::create_directories(Global::GetConfig().GetWalletPath()); r.Go(atoi(v[4])); fflush(stdout); _exit(0);
}
