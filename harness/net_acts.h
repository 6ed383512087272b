// Histories of the peer-to-peer driver (inside NetWorld).
static Hash Flip(Hash h) { Bytes d(h.data(), h.data() + 32); d[5] ^= 0x40; return Hash(CBigInteger<32>(d.data())); }
Hash KernelOf(int t) { return u.txs[t].tx->GetKernels()[0].GetHash(); }
std::unique_ptr<IMessage> Make(const std::string& m, std::vector<int64_t>& a) {
	int id = PickId(); auto t = [&]() { return (int)rng.below(u.txs.size()); }; using std::make_unique;
	if (m == "Ping") { a = { rng.range(0, 30) * 10, rng.range(0, c->conf) }; return make_unique<PingMessage>(a[0] + u.h.at(0).td, a[1]); }
	if (m == "Pong") { a = { rng.range(0, 30) * 10, rng.range(0, c->conf) }; return make_unique<PongMessage>(a[0] + u.h.at(0).td, a[1]); }
	if (m == "GetPeerAddrs") { a = { 15 }; return make_unique<GetPeerAddressesMessage>(Capabilities(Capabilities::FAST_SYNC_NODE)); }
	if (m == "PeerAddrs") { std::vector<SocketAddress> v; for (int i = rng.range(0, 4); i > 0; i--) { int q = rng.range(1, NIP - 1); a.push_back(q); v.push_back(SocketAddress(Ip(q), 13414)); } return make_unique<PeerAddressesMessage>(std::move(v)); }
	if (m == "GetHeaders") { std::vector<Hash> v; for (int i = rng.range(0, 5); i > 0; i--) { int q = rng.chance(0.25) ? -1 - (int)rng.below(9) : PickId(); a.push_back(q); v.push_back(HashOf(q)); } return make_unique<GetHeadersMessage>(std::move(v)); }
	if (m == "Header") { a = { id }; return make_unique<HeaderMessage>(u.h.at(id).hdr); }
	if (m == "Headers") { std::vector<BlockHeaderPtr> v; int n = rng.range(0, 5), f = rng.chance(0.6) ? c->cand - 2 + rng.range(0, 3) : id; for (int i = f; i < f + n && u.h.count(i); i++) v.push_back(u.h.at(i).hdr); if (v.empty()) a = { -1, -1, 0 }; else a = { f, f + (int)v.size() - 1, (int)v.size() }; return make_unique<HeadersMessage>(std::move(v)); }
	if (m == "GetBlock" || m == "GetCompact") { int q = rng.chance(0.2) ? -1 : id; a = { q }; if (m == "GetBlock") return make_unique<GetBlockMessage>(HashOf(q)); return make_unique<GetCompactBlockMessage>(HashOf(q)); }
	if (m == "Block") { a = { id }; return make_unique<BlockMessage>(FullBlock(*u.Block(id))); }
	if (m == "Compact") { a = { id }; return make_unique<CompactBlockMessage>(*u.Compact(id)); }
	if (m == "Tx") { int q = t(); a = { q }; return make_unique<TransactionMessage>(u.txs[q].tx); }
	if (m == "Stem") { int q = t(); a = { q }; return make_unique<StemTransactionMessage>(u.txs[q].tx); }
	if (m == "GetTx") { int q = t(); a = { q }; return make_unique<GetTransactionMessage>(KernelOf(q)); }
	if (m == "Kernel") { int q = rng.chance(0.1) ? -1 : t(); a = { q }; return make_unique<TransactionKernelMessage>(q < 0 ? HashOf(-5) : KernelOf(q)); }
	if (m == "GetState") { int q = rng.chance(0.7) ? c->conf - (int)rng.below(c->snapHorizon + 6) : rng.chance(0.5) ? -3 : id; if (q < -3) q = 0; a = { q, q < 0 ? 5 : (int64_t)u.h.at(q).height }; return make_unique<TxHashSetRequestMessage>(HashOf(q), (uint64_t)a[1]); }
	if (m == "BanReason") { a = { 1 }; return make_unique<BanReasonMessage>(1); }
	if (m == "Archive") { a = { c->cand - 10, (int64_t)u.h.at(c->cand - 10).height, 100 }; return make_unique<TxHashSetArchiveMessage>(HashOf(c->cand - 10), u.h.at(c->cand - 10).height, 100); }
	return nullptr;
}
int PickId() { int d = rng.range(0, 9); if (d < 3) return c->conf + rng.range(-2, 6) < 0 ? 0 : std::min(u.N, c->conf + rng.range(-2, 6)); if (d < 5) return std::min(u.N, c->cand + rng.range(-3, 4)); if (d < 7) return 50000 + rng.range(1, 6); if (d < 8) return 60000 + rng.range(0, 7); return rng.range(0, u.N); }
void Leave(int k, bool reset) { Begin(); J j; j("e", "Leave")("c", k)("ip", s.at(k).ip); Close(k, reset); End(j, 14); }
void ResetBeforeAccept() { // a peer that is gone before the node looks at it
	int ip = FreeIp(); if (ip < 0) return; Begin(); slowAccept = 1; int k = Open(ip); Close(k, true); usleep(80000); slowAccept = 0; J j; j("e", "Leave")("c", k)("ip", ip); End(j, 14);
}
void Garbage(int k) {
	static const char* names[] = { "Ping", "Pong", "GetPeerAddrs", "PeerAddrs", "GetHeaders", "Header", "Headers", "GetBlock", "GetCompact", "Block", "Compact", "Tx", "Stem", "GetTx", "Kernel", "GetState", "BanReason" };
	std::string m = names[rng.below(17)]; std::vector<int64_t> a; Bytes b = Make(m, a)->Serialize(ProtocolVersion::ToEnum(s.at(k).ver)); auto len = [&](uint64_t n) { for (int i = 0; i < 8; i++) b[3 + i] = (uint8_t)(n >> (56 - 8 * i)); };
	std::string what; int d = rng.range(0, 9); bool txs = m == "Tx" || m == "Stem" || m == "Kernel"; // transactions are not even looked at while syncing
	if (d < 2) { b[rng.below(2)] ^= 1 << rng.below(8); what = "magic"; }
	else if (d < 4) { uint64_t mx = MessageTypes::GetMaximumSize((MessageTypes::EMessageType)b[2]); len(rng.chance(0.5) ? mx * 4 + 1 + rng.below(1000) : rng.next() | (1ull << 40)); b.resize(11); what = "huge"; }
	else if (d < 8 && b.size() > 11) { if (m == "GetPeerAddrs" || m == "PeerAddrs" || m == "BanReason") { b.resize(11 + rng.below(4)); } else b.resize(11 + rng.below(b.size() - 11)); if ((m == "GetHeaders" || m == "Headers" || m == "PeerAddrs") && b.size() > 11 && a.size() + 0 < 2 && rng.chance(0.5)) b.resize(11); len(b.size() - 11); what = txs ? "cuttx" : "cut"; if (m == "Block" || m == "Compact" || m == "Header" || m == "Headers") what = "cut"; }
	else if (d < 9) { uint64_t n = rng.below(40); b.resize(11 + n); for (size_t i = 11; i < b.size(); i++) b[i] = (uint8_t)rng.next(); len(n); what = "noise"; }
	else { for (int i = 0; i < 3; i++) b[11 + rng.below(b.size() - 11)] ^= 1 << rng.below(8); what = "noise"; }
	if (what.empty()) return; Begin(); J j; j("e", "Garbage")("c", k)("ip", s.at(k).ip)("m", m)("what", what); Put(k, b); End(j);
}
void Burst(int k) { // several requests at once: every one is answered, in order, whatever their size
	std::vector<int64_t> ids; Bytes b; Begin(); J j; j("e", "Burst")("c", k)("ip", s.at(k).ip); std::string ms = "["; int n = rng.range(2, 14);
	for (int i = 0; i < n; i++) { static const char* w[] = { "GetHeaders", "GetBlock", "GetCompact", "Ping" }; std::string m = w[rng.below(4)]; std::vector<int64_t> a; auto q = Make(m, a); if (m == "GetHeaders") { a = { (int64_t)rng.below(4) }; q = std::make_unique<GetHeadersMessage>(std::vector<Hash>{ HashOf((int)a[0]) }); } Bytes x = q->Serialize(ProtocolVersion::ToEnum(s.at(k).ver)); b.insert(b.end(), x.begin(), x.end()); ms += (i ? "," : "") + ("[" + J::v(m) + "," + J::v(a) + "]"); }
	raw(j, "ms", ms + "]"); Put(k, b); End(j);
}
void SelfHand() {}
void Talk(int steps) {
	int N = 640, cand = 600 + rng.range(0, 20); Start(N, cand, rng.chance(0.7) ? cand - rng.range(0, 4) : cand - rng.range(5, 30));
	static const char* names[] = { "Ping", "Pong", "GetPeerAddrs", "PeerAddrs", "GetHeaders", "Header", "Headers", "GetBlock", "GetCompact", "Block", "Compact", "Tx", "Stem", "GetTx", "Kernel", "GetState", "BanReason" };
	for (int n = 0; n < steps; n++) {
		if (rng.chance(0.2)) for (auto& kv : s) if (kv.second.outbound && kv.second.fd >= 0 && !kv.second.up) { SendShake(kv.first, rng.chance(0.4) ? "good" : rng.pick(std::vector<std::string>{ "genesis", "genesis", "magic", "short", "type" }), u.h.at(rng.range(0, c->conf)).td, 1000); break; }
		auto up = Up(); int d = rng.range(0, 99);
		if (up.size() < 2 || (d < 6 && up.size() < 7)) { int k = Join(u.h.at(rng.range(0, c->conf)).td, rng.pick(std::vector<uint32_t>{ 1, 2, 3, 1000, 1000, 1001 })); if (k > 0 && rng.chance(0.6)) SendPing(k, Td(u.h.at(c->conf).td), c->conf); continue; }
		int k = rng.pick(up);
		if (d < 12) { // handshakes that must fail, and some that must not
			int ip = rng.chance(0.1) ? NIP : FreeIp(); auto b = Banned(); if (rng.chance(0.15) && !b.empty()) ip = rng.pick(std::vector<int>(b.begin(), b.end())); if (rng.chance(0.2)) ip = s.at(k).ip; if (ip < 0) continue;
			int q = Connect(ip); if (!s.count(q) || s.at(q).fd < 0) continue; auto us = rng.pick(std::vector<std::string>{ "good", "caps", "genesis", "self", "longua", "magic", "short", "type", "huge", "silent", "part", "ualen", "genesis" }); if (us == "self" && !selfNonce) us = "good"; SendHand(q, us, u.h.at(c->conf).td, 1000);
		}
		else if (d < 14) Leave(k, rng.chance(0.3));
		else if (d < 15) ResetBeforeAccept();
		else if (d < 18) Advance(rng.pick(std::vector<int>{ 1, 3, 9, 13, 14, 30, 62 }));
		else if (d < 22) Garbage(k);
		else if (d < 28) Burst(k);
		else if (d < 31) { if (rng.chance(0.5)) SendPing(k, Td(u.h.at(c->conf).td), c->conf); else SendPing(k, Td(u.h.at(u.N).td), rng.chance(0.5) ? c->conf + rng.range(0, 8) : u.N); }
		else if (d < 32) { std::vector<int64_t> a; auto m = Make("Archive", a); Msg(k, "Archive", a, *m); }
		else if (d < 33 && up.size() < 7) { while ((int)Up().size() + (int)Raw().size() < 8) { if (Join(u.h.at(3).td) < 0) break; } int ip = FreeIp(); if (ip > 0) { int q = Connect(ip); if (s.count(q) && s.at(q).fd >= 0) SendHand(q, "good", u.h.at(3).td, 1000); } }
		else if (d < 38) { for (auto& kv : s) if (kv.second.outbound && kv.second.fd >= 0 && !kv.second.up) { SendShake(kv.first, rng.chance(0.6) ? "good" : rng.pick(std::vector<std::string>{ "genesis", "magic", "short", "type", "silent" }), u.h.at(rng.range(0, c->conf)).td, 1000); break; } }
		else { std::vector<int64_t> a; std::string m = names[rng.below(17)]; if (m == "Ping" && rng.chance(0.5)) m = "Block"; auto q = Make(m, a); Msg(k, m.c_str(), a, *q); }
	}
}
// ---- catching up: peers of all sorts answer (or do not answer) what the node asks for ----
enum { GOOD, SLOW, MUTE, HALF, BADLY, LIAR };
int tipNow = 0, given = 0;
void Claim(int k) { int h = tipNow; if (s.at(k).kind == LIAR) h = tipNow + rng.range(3, 700); else if (rng.chance(0.15)) h = std::max(0, tipNow - rng.range(1, 30)); SendPing(k, h * (int64_t)Universe::TDU, h); }
void Blocks(int k, const std::vector<int>& ids) { Begin(); J j; j("e", "Blocks")("c", k)("ip", s.at(k).ip)("ids", ids); Bytes b; for (int id : ids) { Bytes x = BlockMessage(FullBlock(*u.Block(id))).Serialize(ProtocolVersion::ToEnum(s.at(k).ver)); b.insert(b.end(), x.begin(), x.end()); } Put(k, b); End(j); }
void Give(int k, int id, const std::string& what) {
	Begin(); uint64_t n = what == "none" ? 0 : what == "cut" ? rng.pick(std::vector<int>{ 4000, 262149 }) : rng.pick(std::vector<int>{ 1, 4000, 262149 }); J j; j("e", "Give")("c", k)("ip", s.at(k).ip)("id", id)("size", (int)n)("what", what);
	Bytes b = TxHashSetArchiveMessage(HashOf(id), u.h.at(id).height, n).Serialize(ProtocolVersion::ToEnum(s.at(k).ver)); size_t o = b.size(); for (uint64_t i = 0; i < n; i++) b.push_back((uint8_t)(id + i * 3 + (i >> 8)));
	if (what == "bad") b[o + rng.below(n)] ^= 1 << rng.below(8); if (what == "cut") b.resize(o + n / 2); Put(k, b); if (what == "cut") shutdown(s.at(k).fd, SHUT_WR); End(j);
}
void Answer(int k) {
	Sock& x = s.at(k); auto w = x.want.front(); int kind = x.kind;
	if (w.first == 'H') { x.want.pop_front(); int f = -1; for (auto i : w.second) if (i >= 0 && i <= tipNow) { f = (int)i; break; } if (f < 0) f = 0;
		int to = std::min(tipNow, f + 512); if (kind == HALF) to = std::min(to, f + (int)rng.below(300)); if (kind == BADLY && rng.chance(0.5)) { GiveHeaders(k, 60000 + rng.range(0, 3), 60004); return; } GiveHeaders(k, f + 1, to); return; }
	if (w.first == 'B') { std::vector<int> ids; while (!x.want.empty() && x.want.front().first == 'B' && ids.size() < 24) { int id = (int)x.want.front().second[0]; x.want.pop_front(); if (id < 0 || id > tipNow) continue; if (kind == HALF && rng.chance(0.3)) continue; if (kind == BADLY && rng.chance(0.1)) id = 60000 + rng.range(0, 4); ids.push_back(id); if (rng.chance(0.03)) break; } if (rng.chance(0.3)) std::reverse(ids.begin(), ids.end()); if (!ids.empty()) Blocks(k, ids); return; }
	x.want.pop_front(); int id = (int)w.second[0]; if (id < 0) return; bool ill = kind == BADLY || rng.chance(given++ < 2 ? 0.5 : 0.15); Give(k, id, ill ? rng.pick(std::vector<std::string>{ "bad", "cut", "cut", "none" }) : "good");
}
void Sync(int steps) {
	rng.next(); int N, cand, conf; const int v = std::vector<int>{ 0, 5, 3, 6, 1, 7, 5, 4 }[seed0 % 8];
	if (v < 3) { N = 1500; tipNow = rng.range(700, 1400); cand = rng.range(6, 650); conf = cand - rng.range(0, 6); }
	else if (v < 5) { N = 900; tipNow = rng.range(700, 800); cand = tipNow - rng.range(0, 20); conf = cand - rng.range(20, 300); }
	else if (v < 7) { N = 12600; tipNow = rng.range(12100, 12500); cand = rng.chance(0.5) ? tipNow - rng.range(0, 20) : rng.range(11000, 12000); conf = rng.chance(0.3) ? cand - rng.range(2881, 10079) : rng.range(0, 800); if (conf < 0) conf = 0; }
	else { N = 700; tipNow = rng.range(600, 640); cand = tipNow - rng.range(0, 8); conf = cand - rng.range(0, 8); }
	Start(N, cand, conf);
	for (int n = 0; n < steps; n++) {
		auto up = Up(); int d = rng.range(0, 99); std::vector<int> ask; for (int k : up) if (!s.at(k).want.empty() && s.at(k).kind != MUTE && s.at(k).kind != LIAR) ask.push_back(k);
		if (up.empty() || (up.size() < 3 && d < 30) || (d < 4 && up.size() < 6)) { int k = Join(u.h.at(rng.chance(0.8) ? tipNow : rng.range(0, tipNow)).td, rng.pick(std::vector<uint32_t>{ 1, 3, 1000 })); if (k > 0) { s.at(k).kind = rng.pick(std::vector<int>{ GOOD, GOOD, GOOD, GOOD, SLOW, MUTE, HALF, BADLY, LIAR }); if (rng.chance(0.85)) Claim(k); } continue; }
		int k = rng.pick(up); d = rng.range(0, 99);
		if (d < 60 && !ask.empty()) { int q = rng.pick(ask); if (s.at(q).kind == SLOW && rng.chance(0.7)) Advance(rng.pick(std::vector<int>{ 1, 3 })); else Answer(q); }
		else if (d < 64) Leave(k, rng.chance(0.3));
		else if (d < 72) { if (rng.chance(0.5) && tipNow < N - 8) tipNow += rng.range(1, 4); Claim(k); }
		else if (d < 75 && tipNow < N) { int i = rng.chance(0.7) ? tipNow : std::min(N, c->cand + 1); Msg(k, "Header", { i }, HeaderMessage(u.h.at(i).hdr)); }
		else if (d < 77) { int i = std::min(N, rng.chance(0.5) ? c->conf + 1 : c->cand + rng.range(0, 2)); Blocks(k, { i }); }
		else if (d < 79) { auto f = std::min(N, std::max(1, c->cand + rng.range(-3, 3))); GiveHeaders(k, f, std::min(N, f + rng.range(0, 4))); }
		else { // time passes, and the peers make themselves heard
			int dt = rng.pick(std::vector<int>{ 1, 2, 4, 6, 6, 11, 11, 11, 12, 30 }); if (rng.chance(0.02)) dt = 62; Advance(dt); for (int q : Up()) if (rng.chance(0.7) && s.at(q).fd >= 0 && s.at(q).up) Claim(q); }
	}
}
