// Drives the node's peer-to-peer server over loopback sockets: fake peers talk to it, a scripted chain
// stands behind it, and every step records what was sent, what the chain was asked and what came back.
// usage: net OUT DIR SEED STEPS MODE(talk|sync|state)
#include "lib.h"
#include "clock.h"
#include <BlockChain/ICoinView.h>
#include <P2P/P2PServer.h>
#include <P2P/Messages/HandMessage.h>
#include <P2P/Messages/ShakeMessage.h>
#include <P2P/Messages/PingMessage.h>
#include <P2P/Messages/PongMessage.h>
#include <P2P/Messages/ErrorMessage.h>
#include <P2P/Messages/BanReasonMessage.h>
#include <P2P/Messages/GetPeerAddressesMessage.h>
#include <P2P/Messages/PeerAddressesMessage.h>
#include <P2P/Messages/GetHeadersMessage.h>
#include <P2P/Messages/HeaderMessage.h>
#include <P2P/Messages/HeadersMessage.h>
#include <P2P/Messages/BlockMessage.h>
#include <P2P/Messages/GetBlockMessage.h>
#include <P2P/Messages/CompactBlockMessage.h>
#include <P2P/Messages/GetCompactBlockMessage.h>
#include <P2P/Messages/TransactionMessage.h>
#include <P2P/Messages/StemTransactionMessage.h>
#include <P2P/Messages/GetTransactionMessage.h>
#include <P2P/Messages/TransactionKernelMessage.h>
#include <P2P/Messages/TxHashSetRequestMessage.h>
#include <P2P/Messages/TxHashSetArchiveMessage.h>
#include <P2P/Messages/SegmentRequestMessage.h>
#include <BlockChain/CompactBlockFactory.h>
#include <fstream>
#include <deque>
#include <dirent.h>
#include <dlfcn.h>
#include <netdb.h>
#include <poll.h>
#include <fcntl.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/epoll.h>

// ---------- what the node's system calls go through ----------
static const int NIP = 24;                         // peer i is seen by the node as 10.1.0.i
static std::atomic<int> nodePort{ 0 }, slowAccept{ 0 };
static std::atomic<int> listenPort[NIP + 1];       // 0: nobody listens there
static std::atomic<bool> refuse[NIP + 1];
static thread_local bool driver = false;
static std::mutex thMutex; struct Th { std::atomic<uint64_t> naps{ 0 }; std::atomic<bool> polling{ false }, epoll{ false }; std::atomic<uint64_t> epolls{ 0 }; int tid = 0; };
static std::vector<Th*> threads; static thread_local Th* me = nullptr;
static Th& Me() { if (!me) { me = new Th; me->tid = (int)syscall(SYS_gettid); std::lock_guard<std::mutex> l(thMutex); threads.push_back(me); } return *me; }
extern "C" {
int nanosleep(const struct timespec* t, struct timespec*) { struct timespec q = *t; if (!driver) { Me().naps++; q.tv_sec = 0; q.tv_nsec = 700000; } return (int)syscall(SYS_nanosleep, &q, nullptr); }
int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec* r) { return nanosleep(t, r); }
int bind(int fd, const struct sockaddr* a, socklen_t n) noexcept {
	if (driver || a->sa_family != AF_INET || ntohs(((const sockaddr_in*)a)->sin_port) != Global::GetConfig().GetP2PPort()) return (int)syscall(SYS_bind, fd, a, n);
	sockaddr_in b = *(const sockaddr_in*)a; b.sin_port = 0; b.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	int r = (int)syscall(SYS_bind, fd, &b, sizeof b); socklen_t l = sizeof b; syscall(SYS_getsockname, fd, &b, &l); nodePort = ntohs(b.sin_port); return r;
}
int connect(int fd, const struct sockaddr* a, socklen_t n) {
	if (driver || a->sa_family != AF_INET) return (int)syscall(SYS_connect, fd, a, n);
	sockaddr_in b = *(const sockaddr_in*)a; uint32_t ip = ntohl(b.sin_addr.s_addr); int i = (int)(ip & 255);
	b.sin_addr.s_addr = htonl(INADDR_LOOPBACK); b.sin_port = htons((ip >> 8) == 0x0a0100 && i <= NIP && !refuse[i] && listenPort[i] ? listenPort[i].load() : 1);
	return (int)syscall(SYS_connect, fd, &b, sizeof b);
}
int accept(int fd, struct sockaddr* a, socklen_t* n) { if (!driver && slowAccept) usleep(60000); return (int)syscall(SYS_accept, fd, a, n); }
int getpeername(int fd, struct sockaddr* a, socklen_t* n) noexcept {
	int r = (int)syscall(SYS_getpeername, fd, a, n);
	if (r == 0 && a->sa_family == AF_INET) { auto* s = (sockaddr_in*)a; uint32_t ip = ntohl(s->sin_addr.s_addr); if ((ip >> 8) == 0x7f0001) s->sin_addr.s_addr = htonl(0x0a010000 | (ip & 255)); }
	return r;
}
int getaddrinfo(const char*, const char*, const struct addrinfo*, struct addrinfo**) { return EAI_FAIL; }
int epoll_wait(int e, struct epoll_event* v, int m, int t) { Th& x = Me(); x.epolls++; x.epoll = true; int r = (int)syscall(SYS_epoll_wait, e, v, m, t); x.epoll = false; return r; }
ssize_t recv(int fd, void* b, size_t n, int f) { if (driver) return syscall(SYS_recvfrom, fd, b, n, f, nullptr, nullptr); Th& x = Me(); x.polling = true; ssize_t r = syscall(SYS_recvfrom, fd, b, n, f, nullptr, nullptr); x.polling = false; return r; }
ssize_t recvmsg(int fd, struct msghdr* h, int f) { if (driver) return syscall(SYS_recvmsg, fd, h, f); Th& x = Me(); x.polling = true; ssize_t r = syscall(SYS_recvmsg, fd, h, f); x.polling = false; return r; }
int poll(struct pollfd* p, nfds_t n, int t) { if (driver) return (int)syscall(SYS_poll, p, n, t); Th& x = Me(); x.polling = true; int r = (int)syscall(SYS_poll, p, n, t); x.polling = false; return r; }
}

// ---------- the chain behind the node ----------
struct Hd { int id; BlockHeaderPtr hdr; int parent; uint64_t height, td; bool bad; std::shared_ptr<FullBlock> fb; std::shared_ptr<CompactBlock> cb; };
struct Universe {
	std::map<int, Hd> h; std::map<Hash, int> byHash; std::vector<Tx> txs; std::vector<int> txKind; World w; std::shared_ptr<TransactionBody> body; uint64_t nonce = 0, salt; int N = 0;
	static const uint64_t TDU = 10;
	Universe(uint64_t seed) : w(seed), salt(seed) {}
	ProofOfWork Pow() { std::vector<uint64_t> n = Global::GetGenesisHeader()->GetProofNonces(); nonce++; n[0] = 1 + nonce; n[1] = 70000 + salt % 50000; for (size_t i = 2; i < n.size(); i++) if (n[i] <= n[i - 1]) n[i] = n[i - 1] + 1; return ProofOfWork(Global::GetGenesisHeader()->GetEdgeBits(), std::move(n)); }
	void Add(int id, int parent, uint64_t td, bool bad = false) {
		const Hd& p = h.at(parent); Hd x; x.id = id; x.parent = parent; x.height = p.height + 1; x.td = td; x.bad = bad;
		auto hash = [&](const char* s) { std::string t = s + std::to_string(id); return Hasher::Blake2b(std::vector<unsigned char>(t.begin(), t.end())); };
		x.hdr = std::make_shared<BlockHeader>(1, x.height, (int64_t)(Global::GetGenesisHeader()->GetTimestamp() + 60 * x.height), Hash(p.hdr->GetHash()), hash("h"), hash("o"), hash("r"), hash("k"), BlindingFactor(hash("b")), 1, 1, td, 10, (uint64_t)id, Pow());
		byHash[x.hdr->GetHash()] = id; h[id] = x;
	}
	std::shared_ptr<FullBlock> Block(int id) { Hd& x = h.at(id); if (!x.fb) { x.fb = std::make_shared<FullBlock>(x.hdr, TransactionBody(*body)); } return x.fb; }
	std::shared_ptr<CompactBlock> Compact(int id) { Hd& x = h.at(id); if (!x.cb) x.cb = std::make_shared<CompactBlock>(CompactBlockFactory::CreateCompactBlock(*Block(id))); return x.cb; }
	void Make(int n) {
		N = n; const FullBlock& g = Global::GetGenesisBlock(); Hd x; x.id = 0; x.hdr = g.GetHeader(); x.parent = -1; x.height = 0; x.td = x.hdr->GetTotalDifficulty(); x.bad = false; x.fb = std::make_shared<FullBlock>(g); h[0] = x; byHash[g.GetHash()] = 0;
		for (int i = 1; i <= n; i++) Add(i, i - 1, x.td + TDU * i);
		int o = w.NewOut(60 * 1000000000ull, true); int k = w.NewKer(1, 0, 0, w.blindOf(o));
		body = std::make_shared<TransactionBody>(TransactionBody({}, { w.TxOut(o) }, { w.kers[k].k }));
	}
	int Id(const Hash& x) { auto i = byHash.find(x); return i == byHash.end() ? -1 : i->second; }
};
static const char* Name(EBlockChainStatus s) { static const char* n[] = { "SUCCESS", "UNKNOWN_ERROR", "STORE_ERROR", "TRANSACTIONS_MISSING", "ALREADY_EXISTS", "NOT_FOUND", "INVALID", "ORPHANED" }; return n[(int)s]; }

struct FakeChain : IBlockChain {
	using S = EBlockChainStatus; Universe& u; mutable std::recursive_mutex m; fs::path dir;
	int cand = 0, conf = 0; std::set<int> side, bodies, orphans; std::set<int> pool, stem; uint64_t snapHorizon = 30; int snapSize = 0; uint8_t snapByte = 0; mutable std::vector<std::string> calls;
	FakeChain(Universe& U, const fs::path& d) : u(U), dir(d) {}
	void Call(const char* f, const std::vector<int>& a, const char* r) const { calls.push_back("[" + J::v(f) + "," + J::v(a) + "," + J::v(r) + "]"); }
#define LK std::lock_guard<std::recursive_mutex> lk(m)
	bool HasHdr(int id) const { return (id >= 0 && id <= cand) || side.count(id); }
	bool HasBody(int id) const { return (id >= 0 && id <= conf) || bodies.count(id); }
	void ResyncChain() override {}
	void UpdateSyncStatus(SyncStatus& s) const override { LK; auto& c = u.h.at(conf); auto& h = u.h.at(cand); s.UpdateBlockStatus(c.height, c.td, c.hdr->GetTimestamp()); s.UpdateHeaderStatus(h.height, h.td); }
	uint64_t GetHeight(const EChainType t) const override { LK; return t == EChainType::CONFIRMED ? conf : cand; }
	uint64_t GetTotalDifficulty(const EChainType t) const override { LK; return u.h.at(t == EChainType::CONFIRMED ? conf : cand).td; }
	S HeaderOne(int id) { if (id < 0) return S::ORPHANED; Hd& x = u.h.at(id); if (x.bad) return S::INVALID; if (HasHdr(id)) return S::ALREADY_EXISTS; if (!HasHdr(x.parent)) return S::ORPHANED; if (id == cand + 1) cand = id; else side.insert(id); return S::SUCCESS; }
	S BodyOne(int id) { if (id < 0) return S::UNKNOWN_ERROR; Hd& x = u.h.at(id); if (x.bad) return S::INVALID; if (HasBody(id)) return S::ALREADY_EXISTS; S r = HeaderOne(id); if (r == S::INVALID) return r; if (r == S::ORPHANED || (id != conf + 1 && id < 50000)) { orphans.insert(id); return S::ORPHANED; } if (id == conf + 1) { conf = id; orphans.erase(id); } else bodies.insert(id); return S::SUCCESS; }
	S AddBlock(const FullBlock& b) override { LK; int id = u.Id(b.GetHash()); S r = BodyOne(id); Call("AddBlock", { id }, Name(r)); return r; }
	std::set<int> compactMissing;
	S AddCompactBlock(const CompactBlock& b) override { LK; int id = u.Id(b.GetHash()); S r = compactMissing.count(id) && !HasBody(id) ? S::TRANSACTIONS_MISSING : BodyOne(id); if (r == S::INVALID) r = S::TRANSACTIONS_MISSING; Call("AddCompact", { id }, Name(r)); return r; }
	fs::path SnapshotTxHashSet(BlockHeaderPtr h) override { LK; int id = u.Id(h->GetHash()); bool ok = id <= conf && h->GetHeight() + snapHorizon >= (uint64_t)conf; Call("Snapshot", { id }, ok ? "SUCCESS" : "EXCEPTION"); if (!ok) throw std::runtime_error("beyond the horizon"); fs::path p = dir / ("snap" + std::to_string(id) + ".zip"); std::ofstream f(p, std::ios::binary); for (int i = 0; i < snapSize; i++) f.put((char)(snapByte + i * 7 + (i >> 8))); f.close(); return p; }
	uint64_t archiveSum = 0;
	S ProcessTransactionHashSet(const Hash& hash, const fs::path& p, SyncStatus& s) override { LK; int id = u.Id(hash); std::ifstream f(p, std::ios::binary); std::string d((std::istreambuf_iterator<char>(f)), {}); bool ok = !d.empty(); for (size_t i = 0; i < d.size() && ok; i++) ok = (uint8_t)d[i] == (uint8_t)(id + i * 3 + (i >> 8)); f.close(); fs::remove(p);
		if (ok && id > conf && id <= cand) { conf = id; UpdateSyncStatus(s); } Call("ProcessState", { id, (int)d.size() }, ok ? "SUCCESS" : "INVALID"); return ok ? S::SUCCESS : S::INVALID; }
	S AddTransaction(TransactionPtr t, const EPoolType p) override { LK; int id = TxId(t); S r = id < 0 || u.txKind[id] == 1 ? S::INVALID : u.txKind[id] == 2 || pool.count(id) || (stem.count(id) && p == EPoolType::STEMPOOL) ? S::UNKNOWN_ERROR : S::SUCCESS; if (r == S::SUCCESS) { if (p == EPoolType::STEMPOOL) stem.insert(id); else pool.insert(id); } Call(p == EPoolType::STEMPOOL ? "AddStem" : "AddTx", { id }, Name(r)); return r; }
	int TxId(const TransactionPtr& t) const { for (size_t i = 0; i < u.txs.size(); i++) if (u.txs[i].tx->GetHash() == t->GetHash()) return (int)i; return -1; }
	int TxByKernel(const Hash& k) const { for (size_t i = 0; i < u.txs.size(); i++) for (auto& x : u.txs[i].tx->GetKernels()) if (x.GetHash() == k) return (int)i; return -1; }
	TransactionPtr GetTransactionByKernelHash(const Hash& k) const override { LK; int i = TxByKernel(k); return i >= 0 && pool.count(i) ? u.txs[i].tx : nullptr; }
	S AddBlockHeader(BlockHeaderPtr h) override { LK; int id = u.Id(h->GetHash()); S r = HeaderOne(id); Call("AddHeader", { id }, Name(r)); return r; }
	S AddBlockHeaders(const std::vector<BlockHeaderPtr>& v) override { LK; std::vector<int> ids; S r = S::SUCCESS; for (auto& h : v) { int id = u.Id(h->GetHash()); ids.push_back(id); if (r == S::SUCCESS) { S q = HeaderOne(id); if (q == S::INVALID) r = q; else if (q == S::ORPHANED) r = S::UNKNOWN_ERROR; } }
		std::vector<int> a = ids.empty() ? std::vector<int>{ -1, -1, 0 } : std::vector<int>{ ids.front(), ids.back(), (int)ids.size() }; Call("AddHeaders", a, Name(r)); return r; }
	BlockHeaderPtr GetBlockHeaderByHeight(const uint64_t h, const EChainType t) const override { LK; return h <= (uint64_t)(t == EChainType::CONFIRMED ? conf : cand) ? u.h.at((int)h).hdr : nullptr; }
	BlockHeaderPtr GetBlockHeaderByHash(const Hash& h) const override { LK; int id = u.Id(h); return HasHdr(id) ? u.h.at(id).hdr : nullptr; }
	BlockHeaderPtr GetBlockHeaderByCommitment(const Commitment&) const override { return nullptr; }
	BlockHeaderPtr GetTipBlockHeader(const EChainType t) const override { LK; return u.h.at(t == EChainType::CONFIRMED ? conf : cand).hdr; }
	std::vector<BlockHeaderPtr> GetBlockHeadersByHash(const std::vector<Hash>& v) const override { std::vector<BlockHeaderPtr> r; for (auto& h : v) if (auto p = GetBlockHeaderByHash(h)) r.push_back(p); return r; }
	std::unique_ptr<CompactBlock> GetCompactBlockByHash(const Hash& h) const override { LK; int id = u.Id(h); return HasBody(id) ? std::make_unique<CompactBlock>(*u.Compact(id)) : nullptr; }
	std::unique_ptr<FullBlock> GetBlockByHeight(const uint64_t h) const override { LK; return h <= (uint64_t)conf ? std::make_unique<FullBlock>(*u.Block((int)h)) : nullptr; }
	std::unique_ptr<FullBlock> GetBlockByHash(const Hash& h) const override { LK; int id = u.Id(h); return HasBody(id) ? std::make_unique<FullBlock>(*u.Block(id)) : nullptr; }
	std::unique_ptr<FullBlock> GetBlockByCommitment(const Commitment&) const override { return nullptr; }
	bool HasBlock(const uint64_t, const Hash& h) const override { LK; return HasBody(u.Id(h)); }
	std::vector<BlockWithOutputs> GetOutputsByHeight(const uint64_t, const uint64_t) const override { return {}; }
	std::vector<std::pair<uint64_t, Hash>> GetBlocksNeeded(const uint64_t n) const override { LK; std::vector<std::pair<uint64_t, Hash>> r; for (int i = conf + 1; i <= cand && r.size() < n; i++) if (!orphans.count(i)) r.emplace_back(i, u.h.at(i).hdr->GetHash()); return r; }
	bool ProcessNextOrphanBlock() override { LK; if (orphans.count(conf + 1) && conf < cand) { conf++; orphans.erase(conf); return true; } return false; }
	bool HasOrphan(const Hash& h) const override { LK; return orphans.count(u.Id(h)) > 0; }
};

// ---------- the peers ----------
using Bytes = std::vector<unsigned char>;
struct Sock { int id, fd, ip; bool outbound = false, eof = false, mine = false /* closed by us */, up = false; Bytes in; uint32_t ver = 1000; uint64_t raw = 0; size_t rawPos = 0; bool rawOk = true; int archive = -1; uint64_t nonce = 0; int quiet = 0; std::deque<std::pair<char, std::vector<int64_t>>> want; int kind = 0; };
struct NetWorld {
	Universe u; std::shared_ptr<FakeChain> c; IP2PServerPtr srv; Rng rng; Trace tr; std::map<int, Sock> s; int next = 1; int lfd[NIP + 1]; int64_t t0 = 0; uint64_t selfNonce = 0; std::string mode; fs::path dir; std::set<int> dead;
	std::vector<std::string> out; std::vector<int> gone;
	uint64_t seed0 = 0;
	NetWorld(uint64_t seed, const std::string& mo, const fs::path& d) : u(seed), rng(seed), seed0(seed), mode(mo), dir(d) {}
	int Ms() { return (int)((vclock::now() - t0) / 1000000); }
	int64_t Td(uint64_t td) { return (int64_t)td - (int64_t)u.h.at(0).td; }

	// --- sockets
	int Open(int ip) {
		int fd = (int)syscall(SYS_socket, AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x7f000100 | ip); if (syscall(SYS_bind, fd, &a, sizeof a)) { perror("bind"); _exit(3); }
		a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(nodePort); if (syscall(SYS_connect, fd, &a, sizeof a)) { perror("connect"); _exit(3); }
		int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
		Sock x{ next, fd, ip }; s[next] = x; return next++;
	}
	void Put(int c, const Bytes& b) { size_t o = 0; Sock& x = s.at(c); while (o < b.size()) { ssize_t n = send(x.fd, b.data() + o, b.size() - o, MSG_NOSIGNAL | MSG_DONTWAIT); if (n > 0) o += n; else if (errno == EAGAIN) { Drain(); usleep(500); if (x.eof) break; } else break; } }
	void Send(int c, const IMessage& m) { Put(c, m.Serialize(ProtocolVersion::ToEnum(s.at(c).ver))); }
	void Close(int c, bool reset = false) { Sock& x = s.at(c); if (reset) { linger l{ 1, 0 }; setsockopt(x.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } close(x.fd); x.fd = -1; x.mine = true; }
	bool Drain() { // takes whatever has arrived
		bool any = false;
		for (int i = 1; i <= NIP; i++) if (lfd[i] >= 0) { int f = (int)syscall(SYS_accept4, lfd[i], nullptr, nullptr, SOCK_NONBLOCK); if (f >= 0) { Sock x{ next, f, i }; x.outbound = true; s[next] = x; out.push_back("[" + J::v(next) + ",\"Connect\",[" + J::v(i) + "]]"); next++; any = true; } }
		for (auto& kv : s) { Sock& x = kv.second; if (x.fd < 0 || x.eof) continue; unsigned char b[65536]; for (;;) { ssize_t n = recv(x.fd, b, sizeof b, MSG_DONTWAIT); if (n > 0) { x.in.insert(x.in.end(), b, b + n); any = true; continue; } if (n == 0 || (errno != EAGAIN && errno != EINTR)) { x.eof = true; gone.push_back(x.id); any = true; } break; } Parse(x); if (x.eof) { close(x.fd); x.fd = -1; } }
		return any;
	}
	void Note(Sock& x, const char* t, const std::vector<int64_t>& a) { out.push_back("[" + J::v(x.id) + "," + J::v(t) + "," + J::v(a) + "]"); }
	void Parse(Sock& x) {
		for (;;) {
			if (x.raw) { size_t n = std::min<size_t>(x.raw, x.in.size()); for (size_t i = 0; i < n; i++) if (x.in[i] != (uint8_t)(c->snapByte + (x.rawPos + i) * 7 + ((x.rawPos + i) >> 8))) x.rawOk = false; x.in.erase(x.in.begin(), x.in.begin() + n); x.raw -= n; x.rawPos += n; if (x.raw) return; Note(x, "State", { x.archive, x.rawOk }); }
			if (x.in.size() < 11) return;
			uint64_t n = 0; for (int i = 0; i < 8; i++) n = n << 8 | x.in[3 + i];
			if (x.in[0] != Global::GetMagicBytes()[0] || x.in[1] != Global::GetMagicBytes()[1] || n > 50000000) { Note(x, "Garbage", {}); x.in.clear(); return; }
			if (x.in.size() < 11 + n) return;
			Bytes p(x.in.begin() + 11, x.in.begin() + 11 + n); int t = x.in[2]; x.in.erase(x.in.begin(), x.in.begin() + 11 + n);
			try { Decode(x, t, p); } catch (std::exception& e) { Note(x, "Garbage", { t }); }
		}
	}
	void Decode(Sock& x, int t, const Bytes& p) {
		ByteBuffer b(p, ProtocolVersion::ToEnum(x.ver)); using namespace MessageTypes; auto genesis = [&](const Hash& h) { return (int64_t)(h == Global::GetGenesisHash()); };
		switch (t) {
		case Hand: { auto m = HandMessage::Deserialize(b); x.nonce = m.GetNonce(); selfNonce = m.GetNonce(); Note(x, "Hand", { m.GetVersion(), Td(m.GetTotalDifficulty()), genesis(m.GetHash()), (int64_t)m.GetCapabilities().GetCapability() }); break; }
		case Shake: { auto m = ShakeMessage::Deserialize(b); Note(x, "Shake", { m.GetVersion(), Td(m.GetTotalDifficulty()), genesis(m.GetHash()), (int64_t)m.GetCapabilities().GetCapability() }); break; }
		case Ping: { auto m = PingMessage::Deserialize(b); Note(x, "Ping", { Td(m.GetTotalDifficulty()), (int64_t)m.GetHeight() }); break; }
		case Pong: { auto m = PongMessage::Deserialize(b); Note(x, "Pong", { Td(m.GetTotalDifficulty()), (int64_t)m.GetHeight() }); break; }
		case GetPeerAddrs: { auto m = GetPeerAddressesMessage::Deserialize(b); Note(x, "GetPeerAddrs", { (int64_t)m.GetCapabilities().GetCapability() }); break; }
		case PeerAddrs: { auto m = PeerAddressesMessage::Deserialize(b); std::vector<int64_t> a; for (auto& q : m.GetPeerAddresses()) a.push_back(IpId(q)); std::sort(a.begin(), a.end()); Note(x, "PeerAddrs", a); break; }
		case GetHeaders: { auto m = GetHeadersMessage::Deserialize(b); std::vector<int64_t> a; for (auto& h : m.GetHashes()) a.push_back(u.Id(h)); x.want.push_back({ 'H', a }); Note(x, "GetHeaders", a); break; }
		case Header: { auto h = HeaderMessage::Deserialize(b).GetHeader(); Note(x, "Header", { u.Id(h->GetHash()) }); break; }
		case Headers: { auto m = HeadersMessage::Deserialize(b); std::vector<int64_t> a; for (auto& h : m.GetHeaders()) a.push_back(u.Id(h->GetHash()));
			int64_t k = a.empty(); for (size_t i = 0; i < a.size(); i++) { if (i && a[i] != a[i - 1] + 1) k = -1; } Note(x, "Headers", a.empty() ? std::vector<int64_t>{ -1, 0, 1 } : std::vector<int64_t>{ a[0], (int64_t)a.size(), k == -1 ? 0 : 1 }); break; }
		case GetBlock: { std::vector<int64_t> a{ u.Id(GetBlockMessage::Deserialize(b).GetHash()) }; x.want.push_back({ 'B', a }); Note(x, "GetBlock", a); break; }
		case GetCompactBlock: Note(x, "GetCompact", { u.Id(GetCompactBlockMessage::Deserialize(b).GetHash()) }); break;
		case Block: { auto m = BlockMessage::Deserialize(b); int id = u.Id(m.GetBlock().GetHash()); Note(x, "Block", { id, id >= 0 && Same(*u.Block(id), p, x) }); break; }
		case CompactBlockMsg: { auto m = CompactBlockMessage::Deserialize(b); int id = u.Id(m.GetCompactBlock().GetHash()); Note(x, "Compact", { id, id >= 0 && Same(*u.Compact(id), p, x) }); break; }
		case TransactionMsg: { auto m = TransactionMessage::Deserialize(b); int id = c->TxId(m.GetTransaction()); Note(x, "Tx", { id, id >= 0 && Same(*u.txs[id].tx, p, x) }); break; }
		case StemTransaction: { auto m = StemTransactionMessage::Deserialize(b); Note(x, "Stem", { c->TxId(m.GetTransaction()) }); break; }
		case GetTransactionMsg: Note(x, "GetTx", { c->TxByKernel(GetTransactionMessage::Deserialize(b).GetKernelHash()) }); break;
		case TransactionKernelMsg: Note(x, "Kernel", { c->TxByKernel(TransactionKernelMessage::Deserialize(b).GetKernelHash()) }); break;
		case TxHashSetRequest: { auto m = TxHashSetRequestMessage::Deserialize(b); int64_t h = 0; for (int i = 32; i < 40; i++) h = h << 8 | p[i]; x.want.push_back({ 'S', { u.Id(m.GetBlockHash()), h } }); Note(x, "GetState", { u.Id(m.GetBlockHash()), h }); break; }
		case TxHashSetArchive: { auto m = TxHashSetArchiveMessage::Deserialize(b); x.archive = u.Id(m.GetBlockHash()); x.raw = m.GetZippedSize(); x.rawPos = 0; x.rawOk = true; Note(x, "Archive", { x.archive, (int64_t)m.GetBlockHeight(), (int64_t)m.GetZippedSize() }); break; }
		default: Note(x, "Other", { t });
		}
	}
	template <class T> bool Same(const T& v, const Bytes& p, Sock& x) { Serializer q(ProtocolVersion::ToEnum(x.ver)); v.Serialize(q); return q.GetBytes() == p; }
	static int IpId(const SocketAddress& a) { std::string f = a.GetIPAddress().Format(); return f.compare(0, 7, "10.1.0.") == 0 ? atoi(f.c_str() + 7) : -1; }
	static IPAddress Ip(int i) { return IPAddress::CreateV4({ 10, 1, 0, (uint8_t)i }); }

	// --- waiting until the node has nothing left to do at this time
	bool RxEmpty() { // nothing unread at the node's end of any connection
		FILE* f = fopen("/proc/self/net/tcp", "r"); if (!f) return true; char l[512]; bool ok = true; std::set<int> ports; for (auto& kv : s) if (kv.second.fd >= 0) { sockaddr_in a{}; socklen_t n = sizeof a; if (syscall(SYS_getsockname, kv.second.fd, &a, &n) == 0) ports.insert(kv.second.outbound ? -(int)ntohs(a.sin_port) : (int)ntohs(a.sin_port)); }
		(void)fgets(l, sizeof l, f);
		while (fgets(l, sizeof l, f)) { unsigned la, lp, ra, rp, st, tx, rx; if (sscanf(l, " %*d: %x:%x %x:%x %x %x:%x", &la, &lp, &ra, &rp, &st, &tx, &rx) != 7) continue; if (st != 1 && st != 8) continue; bool nodeEnd = ((int)lp == nodePort && ports.count((int)rp)); if (!nodeEnd) for (int i = 1; i <= NIP; i++) if (listenPort[i] && (int)rp == listenPort[i] && lfd[i] >= 0) { nodeEnd = true; } if (nodeEnd && rx) { bool skip = false; for (auto& kv : s) if (kv.second.fd >= 0 && kv.second.quiet) { sockaddr_in a{}; socklen_t n = sizeof a; syscall(SYS_getsockname, kv.second.fd, &a, &n); if (ntohs(a.sin_port) == rp) skip = true; } if (!skip) ok = false; } }
		fclose(f); return ok;
	}
	bool Alive(int tid) { return syscall(SYS_tgkill, getpid(), tid, 0) == 0; }
	// lets every thread that polls the clock do so at least twice
	void Beat() {
		std::map<Th*, uint64_t> n; { std::lock_guard<std::mutex> l(thMutex); for (auto* t : threads) n[t] = t->naps; }
		int64_t lim = vclock::real() + 20000000000LL;
		for (;;) {
			bool ok = true;
			for (auto& kv : n) { Th* t = kv.first; if (kv.second == 0 || t->polling || t->epoll || t->naps >= kv.second + 2) continue; if (!Alive(t->tid)) continue; ok = false; }
			if (ok) return; usleep(300);
			if (vclock::real() > lim) { fprintf(stderr, "the node hangs\n"); Hang(); }
		}
	}
	bool AsioIdle() { std::lock_guard<std::mutex> l(thMutex); for (auto* t : threads) if (t->epolls && !t->epoll && Alive(t->tid)) return false; return true; }
	void WaitRead() { int64_t lim = vclock::real() + 20000000000LL; for (int q = 1;; q++) { if (RxEmpty() && AsioIdle()) return; Drain(); usleep(300); if (q % 8 == 0 && q < 4000) { vclock::frozenNs += 6000000; }  if (vclock::real() > lim) { fprintf(stderr, "the node stopped reading\n"); Hang(); } } }
	void Hang() { fprintf(stderr, "HANG\n"); J j; j("e", "Hang"); tr.log(j); _exit(0); }
	void Settle(int ticks = 30) {
		WaitRead();
		for (int i = 0; i < ticks; i++) { vclock::frozenNs += 12000000; Beat(); if (i % 6 == 5) { WaitRead(); Drain(); } }
		for (int q = 0; q < 40; q++) { WaitRead(); Beat(); bool any = Drain(); if (!any) break; }
	}
	// --- a step: what it was, then what came of it
	std::string stepJson; int stepT0 = 0;
	void Begin() { out.clear(); gone.clear(); { std::lock_guard<std::recursive_mutex> l(c->m); c->calls.clear(); } stepT0 = Ms(); }
	void End(J& j, int ticks = 30) {
		Settle(ticks);
		std::string o = "["; for (size_t i = 0; i < out.size(); i++) o += (i ? "," : "") + out[i]; o += "]";
		std::string k = "["; { std::lock_guard<std::recursive_mutex> l(c->m); for (size_t i = 0; i < c->calls.size(); i++) k += (i ? "," : "") + c->calls[i]; } k += "]";
		j("t0", stepT0)("t1", Ms()); raw(j, "out", o); raw(j, "calls", k); j("gone", gone); raw(j, "st", State()); tr.log(j);
	}
	std::string State() {
		J q; std::lock_guard<std::recursive_mutex> l(c->m); q("cand", c->cand)("conf", c->conf)("orph", c->orphans)("side", c->side)("bodies", c->bodies)("pool", c->pool);
		static const char* n[] = { "SYNCING_HEADERS", "SYNCING_TXHASHSET", "PROCESSING_TXHASHSET", "TXHASHSET_SYNC_FAILED", "SYNCING_BLOCKS", "WAITING_FOR_PEERS", "NOT_SYNCING" };
		q("status", n[(int)srv->GetSyncStatus()->GetStatus()]);
		std::set<int> ban, known, pc; for (auto& p : srv->GetAllPeers()) { int i = IpId(SocketAddress(p->GetIPAddress(), 1)); known.insert(i); if (p->IsBanned()) ban.insert(i); if (p->IsConnected()) pc.insert(i); } q("ban", ban)("known", known)("pc", pc);
		std::string cs = "["; std::vector<std::string> v; for (auto& p : srv->GetConnectedPeers()) { std::vector<int64_t> a{ IpId(SocketAddress(p.GetIPAddress(), 1)), Td(p.GetTotalDifficulty()), (int64_t)p.GetHeight(), (int64_t)p.GetProtocolVersion(), p.GetDirection() == EDirection::OUTBOUND }; v.push_back(J::v(a)); } for (size_t i = 0; i < v.size(); i++) cs += (i ? "," : "") + v[i]; raw(q, "conns", cs + "]");
		return q.str();
	}
	// --- what a peer can do
	std::vector<int> Up() { std::vector<int> r; for (auto& kv : s) if (kv.second.fd >= 0 && kv.second.up) r.push_back(kv.first); return r; }
	std::vector<int> Raw() { std::vector<int> r; for (auto& kv : s) if (kv.second.fd >= 0 && !kv.second.up) r.push_back(kv.first); return r; }
	std::set<int> UsedIps() { std::set<int> r; for (auto& kv : s) if (kv.second.fd >= 0) r.insert(kv.second.ip); return r; }
	std::set<int> Banned() { std::set<int> r; for (auto& p : srv->GetAllPeers()) if (p->IsBanned()) r.insert(IpId(SocketAddress(p->GetIPAddress(), 1))); return r; }
	int Connect(int ip) { Begin(); int c0 = Open(ip); J j; j("e", "Connect")("c", c0)("ip", ip); End(j, 12); return c0; }
	void SendHand(int k, const std::string& kind, uint64_t td, uint32_t ver) {
		Begin(); Sock& x = s.at(k); J j; j("e", "Hand")("c", k)("ip", x.ip)("kind", kind)("td", Td(td))("ver", ver);
		SocketAddress a(Ip(x.ip), 1234); Hash g = Global::GetGenesisHash(); if (kind == "genesis") { Bytes d(g.data(), g.data() + 32); d[3] ^= 1; g = Hash(CBigInteger<32>(d.data())); }
		HandMessage m(ver, kind == "caps" ? Capabilities(Capabilities::UNKNOWN) : Capabilities(Capabilities::FAST_SYNC_NODE), kind == "self" ? selfNonce : rng.next() | 1, Hash(g), td, SocketAddress(a), SocketAddress(a), kind == "longua" ? std::string(300, 'x') : "peer");
		Bytes b = m.Serialize(EProtocolVersion::V1);
		if (kind == "magic") b[1] ^= 1; if (kind == "short") { b.resize(b.size() - 20); b[10] -= 20; } if (kind == "type") { b = PingMessage(5, 5).Serialize(EProtocolVersion::V1); } if (kind == "huge") { for (int i = 3; i < 11; i++) b[i] = i == 7 ? 1 : 0; } if (kind == "silent") b.clear();
		if (kind == "part") b.resize(6);
		if (kind == "ualen") { size_t p = 11 + 4 + 4 + 8 + 8 + 7 + 7; for (int i = 0; i < 8; i++) b[p + i] = 0xff; }
		if (kind == "good" || kind == "caps" || kind == "ver") x.ver = std::min<uint32_t>(ver, 1000);
		Put(k, b); if (kind == "part") { x.quiet = 1; usleep(5000); }
		if (kind == "silent") { vclock::advance(11); }
		if (kind == "part") { Settle(5); Close(k); }
		End(j, 14);
		for (auto& o : out) if (o.find("[" + std::to_string(k) + ",\"Shake\"") == 0) x.up = true;
		if (x.fd >= 0 && !x.up) Close(k);
	}
	void SendShake(int k, const std::string& kind, uint64_t td, uint32_t ver) {
		Begin(); Sock& x = s.at(k); J j; j("e", "Shake")("c", k)("ip", x.ip)("kind", kind)("td", Td(td))("ver", ver);
		Hash g = Global::GetGenesisHash(); if (kind == "genesis") { Bytes d(g.data(), g.data() + 32); d[9] ^= 1; g = Hash(CBigInteger<32>(d.data())); }
		ShakeMessage m(ver, Capabilities(Capabilities::FAST_SYNC_NODE), Hash(g), td, "peer"); Bytes b = m.Serialize(EProtocolVersion::V1);
		if (kind == "magic") b[0] ^= 1; if (kind == "short") { b.resize(b.size() - 33); b[10] -= 33; } if (kind == "type") b = PingMessage(5, 5).Serialize(EProtocolVersion::V1); if (kind == "silent") b.clear(); if (kind == "good") x.ver = std::min<uint32_t>(ver, 1000);
		Put(k, b); if (kind == "silent") vclock::advance(11);
		End(j, 14);
		for (auto& o : out) if (o.find("[" + std::to_string(k) + ",\"GetPeerAddrs\"") == 0) x.up = true;
		if (x.fd >= 0 && !x.up) Close(k);
	}
	void Msg(int k, const char* type, const std::vector<int64_t>& a, const Bytes& b, bool ok = true) { Begin(); J j; j("e", "Msg")("c", k)("ip", s.at(k).ip)("m", type)("x", a)("ok", ok); Put(k, b); End(j); }
	void Msg(int k, const char* type, const std::vector<int64_t>& a, const IMessage& m) { Msg(k, type, a, m.Serialize(ProtocolVersion::ToEnum(s.at(k).ver))); }
	void Advance(int sec) { Begin(); J j; j("e", "Advance")("dt", sec); vclock::advance(sec); End(j, 30); }
	Hash HashOf(int id) { if (id < 0) { std::string t = "none" + std::to_string(id); return Hasher::Blake2b(Bytes(t.begin(), t.end())); } return u.h.at(id).hdr->GetHash(); }
	// hashes after which the peer wants headers
	void AskHeaders(int k, const std::vector<int>& ids) { std::vector<Hash> v; std::vector<int64_t> a; for (int i : ids) { v.push_back(HashOf(i)); a.push_back(i); } Msg(k, "GetHeaders", a, GetHeadersMessage(std::move(v))); }
	void GiveHeaders(int k, int from, int to) { std::vector<BlockHeaderPtr> v; for (int i = from; i <= to; i++) v.push_back(u.h.at(i).hdr); Msg(k, "Headers", v.empty() ? std::vector<int64_t>{ -1, -1, 0 } : std::vector<int64_t>{ from, to, (int64_t)v.size() }, HeadersMessage(std::move(v))); }
	void Start(int N, int cand, int conf) {
		driver = true; u.Make(N);
		for (int j = 1; j <= 6; j++) u.Add(50000 + j, j == 1 ? cand - 6 : 50000 + j - 1, u.h.at(cand - 6).td + 5 * j); // a lighter fork
		for (int j = 0; j < 8; j++) u.Add(60000 + j, cand - 4 + j > N ? N : cand - 4 + j, u.h.at(cand).td + 7 + j, true); // invalid ones
		for (int j = 0; j < 12; j++) { Tx t; std::vector<int> in{ u.w.NewOut(100000 * UNIT, false) }, ou{ u.w.NewOut((99000 - j) * UNIT, false) }; u.txs.push_back(u.w.MakeTx(in, ou)); u.txKind.push_back(j % 4 == 3 ? 1 : j % 6 == 4 ? 2 : 0); }
		c = std::make_shared<FakeChain>(u, dir); c->cand = cand; c->conf = conf; for (int j = 1; j <= 4; j++) c->side.insert(50000 + j); for (int j = 1; j <= 2; j++) c->bodies.insert(50000 + j); c->compactMissing = { conf + 2, conf + 5 }; c->snapByte = (uint8_t)rng.next();
		c->snapSize = rng.pick(std::vector<int>{ 1, 5000, 131072, 131073, 300001 });
		for (int i = 0; i <= NIP; i++) { lfd[i] = -1; listenPort[i] = 0; refuse[i] = false; }
		for (int i = 1; i <= NIP; i++) { lfd[i] = (int)syscall(SYS_socket, AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); syscall(SYS_bind, lfd[i], &a, sizeof a); syscall(SYS_listen, lfd[i], 16); socklen_t n = sizeof a; syscall(SYS_getsockname, lfd[i], &a, &n); listenPort[i] = ntohs(a.sin_port); }
		struct View : ICoinView { EOutputFeatures GetOutputType(const Commitment&) const override { return EOutputFeatures::DEFAULT; } }; Global::SetCoinView(std::make_shared<View>());
		static Node node; Node::MakeDirs(); node.db = DatabaseAPI::OpenDatabase(Global::GetConfig()); node.ths = std::make_shared<Locked<TxHashSetManager>>(std::make_shared<TxHashSetManager>(Global::GetConfig())); node.pool = TxPoolAPI::CreateTransactionPool(Global::GetConfig());
		vclock::freeze(); t0 = vclock::now();
		srv = P2PAPI::StartP2PServer(Global::GetContext(), c, node.ths, node.db, node.pool);
		for (int i = 0; i < 3000 && !nodePort; i++) usleep(2000); if (!nodePort) { fprintf(stderr, "no listener\n"); _exit(3); }
		usleep(100000);
		Begin(); J j; j("e", "Start")("td0", 0)("tdu", (int)Universe::TDU)("txk", u.txKind)("horizon", (int)c->snapHorizon)("size", c->snapSize)("max", Global::GetConfig().GetMaxPeers());
		std::string f = "["; bool first = true; for (auto& kv : u.h) if (kv.first >= 50000) { f += (first ? "" : ",") + J::v(std::vector<int64_t>{ kv.first, kv.second.parent, (int64_t)kv.second.height, Td(kv.second.td), kv.second.bad }); first = false; } raw(j, "side", f + "]"); j("cm", c->compactMissing);
		End(j);
	}
	int FreeIp() { auto us = UsedIps(); auto b = Banned(); std::vector<int> v; for (int i = 1; i <= NIP; i++) if (!us.count(i) && !b.count(i)) v.push_back(i); return v.empty() ? -1 : rng.pick(v); }
	int Join(uint64_t td, uint32_t ver = 1000) { int ip = FreeIp(); if (ip < 0) return -1; int k = Connect(ip); if (!s.count(k) || s.at(k).fd < 0) return -1; SendHand(k, "good", td, ver); return s.at(k).up ? k : -1; }
	void SendPing(int k, int64_t td, int64_t h) { Msg(k, "Ping", { td, h }, PingMessage(td + u.h.at(0).td, h)); }
	#include "net_acts.h"
};

int main(int argc, char** argv) {
	signal(SIGPIPE, SIG_IGN); fs::path dir = argv[2]; fs::create_directories(dir); std::string mode = argv[5]; setenv("TMPDIR", dir.c_str(), 1);
	uint64_t seed = strtoull(argv[3], nullptr, 10); int steps = atoi(argv[4]);
	int minPeers = mode == "talk" && seed % 3 == 0 ? 5 : 0;
	Setup(dir, Environment::AUTOMATED_TESTING, "{\"P2P\":{\"MAX_PEERS\":8,\"MIN_PEERS\":" + std::to_string(minPeers) + ",\"BLOCKED_PEERS\":[\"10.1.0.24\"]}}"); TrustGenesis();
	for (int sg : { SIGSEGV, SIGABRT }) signal(sg, SIG_DFL);
	NetWorld w(seed, mode, dir); w.tr.open(argv[1]);
	if (mode == "talk") w.Talk(steps); else w.Sync(steps);
	J j; j("e", "End"); w.tr.log(j); fflush(nullptr); fs::path d = dir; std::error_code ec; fs::remove_all(d, ec); _exit(0);
}
