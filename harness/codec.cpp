// usage: codec OUT.ndjson SCRATCH SEED N
// Random values of every encoded type through the real encoders and decoders, and damaged bytes into the latter.
#include "lib.h"
#include <new>
#include <BlockChain/ICoinView.h>
#include <Core/Models/ShortId.h>
#include <Core/Models/SpentOutput.h>
#include <Net/SocketAddress.h>
#include <P2P/Peer.h>
#include <PMMR/Common/Segment.h>
#include <PMMR/Common/BitmapSegment.h>
#include <Wallet/Models/Slate/Slate.h>
#include <Wallet/Models/Slatepack/Armor.h>
#include <Wallet/WalletTx.h>
#include <Wallet/WalletDB/Models/SlateContextEntity.h>
#include <Wallet/WalletDB/Models/EncryptedSeed.h>
#include <Wallet/WalletDB/UserMetadata.h>
#include <Wallet/Keychain/Mnemonic.h>
#include <Crypto/X25519.h>
#include <P2P/Messages/MessageHeader.h>
#include <P2P/Messages/HandMessage.h>
#include <P2P/Messages/ShakeMessage.h>
#include <P2P/Messages/PingMessage.h>
#include <P2P/Messages/PongMessage.h>
#include <P2P/Messages/ErrorMessage.h>
#include <P2P/Messages/BanReasonMessage.h>
#include <P2P/Messages/GetPeerAddressesMessage.h>
#include <P2P/Messages/PeerAddressesMessage.h>
#include <P2P/Messages/GetHeadersMessage.h>
#include <P2P/Messages/HeaderMessage.h>
#include <P2P/Messages/HeadersMessage.h>
#include <P2P/Messages/BlockMessage.h>
#include <P2P/Messages/GetBlockMessage.h>
#include <P2P/Messages/CompactBlockMessage.h>
#include <P2P/Messages/GetCompactBlockMessage.h>
#include <P2P/Messages/TransactionMessage.h>
#include <P2P/Messages/StemTransactionMessage.h>
#include <P2P/Messages/GetTransactionMessage.h>
#include <P2P/Messages/TransactionKernelMessage.h>
#include <P2P/Messages/TxHashSetRequestMessage.h>
#include <P2P/Messages/TxHashSetArchiveMessage.h>
#include <P2P/Messages/SegmentRequestMessage.h>
#include <P2P/Messages/SegmentResponseMessage.h>

// ---------- the largest piece of memory asked for ----------
static thread_local bool watching = false; static thread_local size_t largest = 0;
static void* Take(size_t n) { if (watching) { if (n > largest) largest = n; if (n > (1ull << 30)) throw std::bad_alloc(); } void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return Take(n); }
void* operator new[](size_t n) { return Take(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

using Bytes = std::vector<uint8_t>;
struct W { // canonical forms, written by hand
	Bytes b;
	W& n(uint64_t x, int w) { for (int i = w - 1; i >= 0; i--) b.push_back((uint8_t)(x >> (8 * i))); return *this; }
	W& r(const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); return *this; }
	template <class T> W& h(const T& x) { b.insert(b.end(), x.data(), x.data() + x.size()); return *this; }
	W& s(const std::string& x) { n(x.size(), 8); b.insert(b.end(), x.begin(), x.end()); return *this; }
};
static Bytes V(const TransactionInput& x) { return W().n(x.GetFeatures(), 1).r(x.GetCommitment().GetVec()).b; }
static Bytes V(const OutputIdentifier& x) { return W().n(x.GetFeatures(), 1).r(x.GetCommitment().GetVec()).b; }
static Bytes V(const RangeProof& x) { return W().n(x.GetProofBytes().size(), 8).r(x.GetProofBytes()).b; }
static Bytes V(const TransactionOutput& x) { return W().n(x.GetFeatures(), 1).r(x.GetCommitment().GetVec()).r(V(x.GetRangeProof())).b; }
static Bytes V(const Fee& x) { return W().n(0, 2).n(x.GetShift(), 1).n(x.GetFee(), 5).b; }
static Bytes V(const TransactionKernel& x) { return W().n(x.GetFeatures(), 1).n(0, 2).n(x.GetFeeShift(), 1).n(x.GetFee(), 5).n(x.GetLockHeight(), 8).r(x.GetExcessCommitment().GetVec()).h(x.GetExcessSignature().GetSignatureBytes()).b; }
static Bytes V(const TransactionBody& x) { W w; w.n(x.GetInputs().size(), 8).n(x.GetOutputs().size(), 8).n(x.GetKernels().size(), 8); for (auto& i : x.GetInputs()) w.r(V(i)); for (auto& o : x.GetOutputs()) w.r(V(o)); for (auto& k : x.GetKernels()) w.r(V(k)); return w.b; }
static Bytes V(const Transaction& x) { return W().h(x.GetOffset().GetBytes()).r(V(x.GetBody())).b; }
static Bytes Packed(const ProofOfWork& x) { int e = x.GetEdgeBits(); Bytes bits((e * 42 + 7) / 8, 0); auto& p = x.GetProofNonces(); for (size_t i = 0; i < p.size(); i++) for (int k = 0; k < e; k++) if ((p[i] >> k) & 1) bits[(i * e + k) / 8] |= 1 << ((i * e + k) % 8); return bits; }
static Bytes V(const BlockHeader& x) {
	return W().n(x.GetVersion(), 2).n(x.GetHeight(), 8).n((uint64_t)x.GetTimestamp(), 8).h(x.GetPreviousHash()).h(x.GetPreviousRoot()).h(x.GetOutputRoot()).h(x.GetRangeProofRoot()).h(x.GetKernelRoot()).h(x.GetTotalKernelOffset().GetBytes())
		.n(x.GetOutputMMRSize(), 8).n(x.GetKernelMMRSize(), 8).n(x.GetTotalDifficulty(), 8).n(x.GetScalingDifficulty(), 4).n(x.GetNonce(), 8).n(x.GetProofOfWork().GetEdgeBits(), 1).r(Packed(x.GetProofOfWork())).b;
}
static Bytes V(const FullBlock& x) { return W().r(V(*x.GetHeader())).r(V(x.GetTransactionBody())).b; }
static Bytes V(const CompactBlock& x) { W w; w.r(V(*x.GetHeader())).n(x.GetNonce(), 8).n(x.GetOutputs().size(), 8).n(x.GetKernels().size(), 8).n(x.GetShortIds().size(), 8); for (auto& o : x.GetOutputs()) w.r(V(o)); for (auto& k : x.GetKernels()) w.r(V(k)); for (auto& s : x.GetShortIds()) w.h(s.GetId()); return w.b; }
static Bytes V(const BlockSums& x) { return W().r(x.GetOutputSum().GetVec()).r(x.GetKernelSum().GetVec()).b; }
static Bytes V(const OutputLocation& x) { return W().n(x.GetPosition(), 8).n(x.GetBlockHeight(), 8).b; }
static Bytes V(const SpentOutputs& x) { W w; w.n(0, 1).n(x.GetSpentOutputs().size(), 2); for (auto& o : x.GetSpentOutputs()) w.r(o.GetCommitment().GetVec()).r(V(o.GetLocation())); return w.b; }
static Bytes V(const IPAddress& x) { W w; if (x.IsV4()) { auto a = x.GetAddress().to_v4().to_bytes(); w.n(0, 1).r(Bytes(a.begin(), a.end())); } else { auto a = x.GetAddress().to_v6().to_bytes(); w.n(1, 1).r(Bytes(a.begin(), a.end())); } return w.b; }
static Bytes V(const SocketAddress& x) { return W().r(V(x.GetIPAddress())).n(x.GetPortNumber(), 2).b; }
static Bytes V(const PeerPtr& x) { return W().r(V(x->GetIPAddress())).n(0, 2).n(x->GetVersion(), 4).n(x->GetCapabilities().GetCapability(), 4).s(x->GetUserAgent()).n(x->GetLastContactTime(), 8).n(x->GetLastBanTime(), 8).n((uint32_t)x->GetBanReason(), 4).b; }
static Bytes V(const HandMessage& x) { return W().n(x.GetVersion(), 4).n(x.GetCapabilities().GetCapability(), 4).n(x.GetNonce(), 8).n(x.GetTotalDifficulty(), 8).r(V(x.GetSenderAddress())).r(V(x.GetReceiverAddress())).s(x.GetUserAgent()).h(x.GetHash()).b; }
static Bytes V(const ShakeMessage& x) { return W().n(x.GetVersion(), 4).n(x.GetCapabilities().GetCapability(), 4).n(x.GetTotalDifficulty(), 8).s(x.GetUserAgent()).h(x.GetHash()).b; }
static Bytes V(const PingMessage& x) { return W().n(x.GetTotalDifficulty(), 8).n(x.GetHeight(), 8).b; }
static Bytes V(const PongMessage& x) { return W().n(x.GetTotalDifficulty(), 8).n(x.GetHeight(), 8).b; }
static Bytes V(const ErrorMessage& x) { return W().n(x.GetErrorCode(), 4).s(x.GetErrorMessage()).b; }
static Bytes V(const BanReasonMessage& x) { return W().n(x.GetBanReason(), 4).b; }
static Bytes V(const GetPeerAddressesMessage& x) { return W().n(x.GetCapabilities().GetCapability(), 4).b; }
static Bytes V(const PeerAddressesMessage& x) { W w; w.n(x.GetPeerAddresses().size(), 4); for (auto& a : x.GetPeerAddresses()) w.r(V(a)); return w.b; }
static Bytes V(const GetHeadersMessage& x) { W w; w.n(x.GetHashes().size(), 1); for (auto& a : x.GetHashes()) w.h(a); return w.b; }
static Bytes V(const HeaderMessage& x) { return V(*x.GetHeader()); }
static Bytes V(const HeadersMessage& x) { W w; w.n(x.GetHeaders().size(), 2); for (auto& a : x.GetHeaders()) w.r(V(*a)); return w.b; }
static Bytes V(const BlockMessage& x) { return V(x.GetBlock()); }
static Bytes V(const GetBlockMessage& x) { return W().h(x.GetHash()).b; }
static Bytes V(const GetCompactBlockMessage& x) { return W().h(x.GetHash()).b; }
static Bytes V(const CompactBlockMessage& x) { return V(x.GetCompactBlock()); }
static Bytes V(const StemTransactionMessage& x) { return V(*x.GetTransaction()); }
static Bytes V(const TransactionMessage& x) { return V(*x.GetTransaction()); }
static Bytes V(const GetTransactionMessage& x) { return W().h(x.GetKernelHash()).b; }
static Bytes V(const TransactionKernelMessage& x) { return W().h(x.GetKernelHash()).b; }
static Bytes V(const TxHashSetRequestMessage& x) { auto b = static_cast<const IMessage&>(x).Serialize(EProtocolVersion::V1); return W().h(x.GetBlockHash()).r(Bytes(b.end() - 8, b.end())).b; } // the height cannot be asked for
static Bytes V(const TxHashSetArchiveMessage& x) { return W().h(x.GetBlockHash()).n(x.GetBlockHeight(), 8).n(x.GetZippedSize(), 8).b; }
static Bytes V(const SegmentIdentifier& x) { return W().n(x.GetHeight(), 1).n(x.GetIndex(), 8).b; }
static Bytes V(const SegmentProof& x) { W w; w.n(x.GetHashes().size(), 8); for (auto& h : x.GetHashes()) w.h(h); return w.b; }
template <size_t N, class T> static Bytes V(const Segment<N, T>& x) { W w; w.r(V(x.GetIdentifier())).n(x.GetHashPositions().size(), 8); for (auto p : x.GetHashPositions()) w.n(p, 8); for (auto& h : x.GetHashes()) w.h(h); w.n(x.GetLeafPositions().size(), 8); for (auto p : x.GetLeafPositions()) w.n(p, 8); for (auto& y : x.GetLeaves()) w.r(V(y)); return w.r(V(x.GetProof())).b; }
template <MessageTypes::EMessageType M> static Bytes V(const SegmentRequestMessage<M>& x) { return W().h(x.GetBlockHash()).r(V(x.GetIdentifier())).b; }
template <MessageTypes::EMessageType M, size_t N, class T> static Bytes V(const SegmentResponseMessage<M, N, T>& x) { return W().h(x.GetBlockHash()).r(V(x.GetSegment())).b; }
static Bytes V(const OutputSegmentMessage& x) { return W().h(x.GetBlockHash()).r(V(x.GetSegment())).h(x.GetOutputBitmapRoot()).b; }
static Bytes V(const OutputBitmapSegmentMessage& x) {
	W w; w.h(x.GetBlockHash()).r(V(x.GetSegment().GetIdentifier())).n(x.GetSegment().GetBlocks().size(), 2);
	for (auto& b : x.GetSegment().GetBlocks()) { w.n(b.GetChunkCount(), 1).n((uint8_t)b.GetMode(), 1); if (b.GetMode() == BitmapSegmentBlock::ESerializationMode::Raw) w.r(b.GetBitmapBytes()); else { w.n(b.GetPositions().size(), 2); for (auto p : b.GetPositions()) w.n(p, 2); } }
	return w.r(V(x.GetSegment().GetProof())).h(x.GetOutputRoot()).b;
}

static void Opt(W& w, const std::optional<SlatePaymentProof>& p) { w.n(p.has_value(), 1); if (p) { w.h(p->GetSenderAddress().bytes).h(p->GetReceiverAddress().bytes).n(p->GetReceiverSignature().has_value(), 1); if (p->GetReceiverSignature()) w.h(p->GetReceiverSignature()->bytes); } }
static Bytes V(const Slate& x) {
	W w; auto id = x.slateId.as_bytes(); w.n(x.version, 2).n(x.blockVersion, 2); for (auto b : id) w.n((uint8_t)b, 1);
	w.n(x.stage.ToByte(), 1).h(x.offset.GetBytes()).n(x.numParticipants, 1).n(x.amount, 8).r(V(x.fee)).n(x.kernelFeatures, 1).n(x.ttl, 8).n(x.sigs.size(), 1);
	for (auto& s : x.sigs) { w.n(s.partialOpt.has_value(), 1).h(s.excess.GetCompressedBytes()).h(s.nonce.GetCompressedBytes()); if (s.partialOpt) w.h(Crypto::ParseCompactSignature(*s.partialOpt).GetSignatureBytes()); }
	w.n(x.commitments.size(), 2);
	for (auto& c : x.commitments) { w.n(c.proofOpt.has_value(), 1).n(c.features, 1).r(c.commitment.GetVec()); if (c.proofOpt) w.r(V(*c.proofOpt)); }
	Opt(w, x.proofOpt); return w.n(x.kernelFeatures == EKernelFeatures::HEIGHT_LOCKED ? x.GetLockHeight() : 0, 8).b;
}
static Bytes V(const UserMetadata& x) { return W().n(0, 1).n(x.GetNextTxId(), 4).n(x.GetRefreshBlockHeight(), 8).n(x.GetRestoreLeafIndex(), 8).b; }
static Bytes V(const EncryptedSeed& x) { return W().n(1, 1).h(x.GetIV()).h(x.GetSalt()).n(x.GetScryptParameters().N, 4).n(x.GetScryptParameters().r, 4).n(x.GetScryptParameters().p, 4).r(x.GetEncryptedSeedBytes()).b; }
static std::string Path(const KeyChainPath& p) { std::string s = "m"; for (auto i : p.GetKeyIndices()) s += "/" + std::to_string(i); return s; }
static Bytes V(const OutputDataEntity& x) { W w; w.n(1, 1).s(Path(x.GetKeyChainPath())).h(x.GetBlindingFactor().GetBytes()).r(V(x.GetOutput())).n(x.GetAmount(), 8).n(x.GetStatus(), 1).n(x.GetMMRIndex().value_or(0), 8).n(x.GetBlockHeight().value_or(0), 8).s(x.GetLabels().empty() ? "" : x.GetLabels()[0]); if (x.GetWalletTxId()) w.n(*x.GetWalletTxId(), 4); return w.b; }
static Bytes V(const SlateContextEntity& x) { W w; w.h(x.GetSecretKey().GetBytes()).h(x.GetSecretNonce().GetBytes()).n(x.GetInputs().size(), 8); for (auto& o : x.GetInputs()) w.r(V(o)); w.n(x.GetOutputs().size(), 8); for (auto& o : x.GetOutputs()) w.r(V(o)); return w.b; }
static Bytes V(const WalletTx& x) {
	W w; w.n(3, 1).n(x.GetId(), 4).n(x.GetType(), 1).s(x.GetSlateId() ? uuids::to_string(*x.GetSlateId()) : "").s(x.GetAddress().value_or("")).s(x.GetSlateMessage().value_or("")).n(TimeUtil::ToInt64(x.GetCreationTime()), 8).n(x.GetConfirmationTime() ? TimeUtil::ToInt64(*x.GetConfirmationTime()) : 0, 8)
		.n(x.GetConfirmationHeight().value_or(0), 8).n(x.GetAmountCredited(), 8).n(x.GetAmountDebited(), 8).n(x.GetFee().has_value(), 1); if (x.GetFee()) w.r(V(*x.GetFee())); Opt(w, x.GetPaymentProof()); if (x.GetTransaction()) w.r(V(*x.GetTransaction())); return w.b;
}

struct View : ICoinView { EOutputFeatures GetOutputType(const Commitment& c) const final { return (EOutputFeatures)(c.GetVec()[32] & 1); } };

struct Run {
	Trace t; Rng rng; int ver = 1, keep = 0;
	explicit Run(uint64_t s) : rng(s) {}
	static std::string J1(const Bytes& b) { return J::v(b); }

	// ----- random parts
	Bytes B(size_t n) { Bytes b(n); for (auto& x : b) x = (uint8_t)rng.next(); return b; }
	uint64_t U() { switch (rng.below(4)) { case 0: return rng.below(300); case 1: return rng.next(); case 2: return ~0ull - rng.below(3); default: return 1ull << rng.below(64); } }
	Hash H() { return Hash(CBigInteger<32>(B(32).data())); }
	Commitment Com() { return Commitment(CBigInteger<33>(B(33).data())); }
	BlindingFactor Bf() { return BlindingFactor(H()); }
	EOutputFeatures Ft() { return (EOutputFeatures)rng.below(2); }
	RangeProof Rp() { return RangeProof(B(rng.chance(0.1) ? 675 : rng.below(40))); }
	Fee Fe() { return Fee((uint8_t)rng.below(16), U() & 0xffffffffffull); }
	std::string Str() { auto b = B(rng.below(30)); return std::string(b.begin(), b.end()); }
	TransactionInput In() { auto c = Com(); EOutputFeatures f = (EOutputFeatures)(c.GetVec()[32] & 1); return TransactionInput(f, std::move(c)); }
	OutputIdentifier Id() { return OutputIdentifier(Ft(), Com()); }
	TransactionOutput Out() { return TransactionOutput(Ft(), Com(), Rp()); }
	TransactionKernel Ker() {
		int f = (int)rng.below(4); uint64_t lock = f == 2 ? U() : f == 3 ? (rng.chance(0.3) ? 10080 : 1 + rng.below(10080)) : 0;
		return TransactionKernel((EKernelFeatures)f, f == 1 ? Fee() : Fe(), lock, Com(), Signature(CBigInteger<64>(B(64).data())));
	}
	size_t Few(size_t m) { return rng.chance(0.3) ? 0 : rng.below(m + 1); }
	template <class F> auto Many(size_t n, F f) { std::vector<decltype(f())> v; for (size_t i = 0; i < n; i++) v.push_back(f()); return v; }
	TransactionBody Body() { return TransactionBody(Many(Few(4), [&] { return In(); }), Many(Few(4), [&] { return Out(); }), Many(Few(4), [&] { return Ker(); })); }
	std::shared_ptr<Transaction> Tx() { return std::make_shared<Transaction>(Bf(), Body()); }
	BlockHeaderPtr Hdr() {
		int e = rng.chance(0.5) ? rng.range(29, 32) : rng.range(1, 63); std::vector<uint64_t> n(42); for (auto& x : n) x = rng.next() & ((1ull << e) - 1);
		return std::make_shared<BlockHeader>((uint16_t)U(), U(), (int64_t)U(), H(), H(), H(), H(), H(), Bf(), U(), U(), U(), (uint32_t)U(), U(), ProofOfWork((uint8_t)e, std::move(n)));
	}
	FullBlock Blk() { return FullBlock(Hdr(), Body()); }
	CompactBlock Cmp() { return CompactBlock(Hdr(), U(), Many(Few(3), [&] { return Out(); }), Many(Few(3), [&] { return Ker(); }), Many(Few(5), [&] { return ShortId(CBigInteger<6>(B(6).data())); })); }
	IPAddress Ip() { if (rng.chance(0.6)) { std::array<uint8_t, 4> a; for (auto& x : a) x = (uint8_t)rng.next(); return IPAddress::CreateV4(a); } std::array<uint8_t, 16> a; for (auto& x : a) x = (uint8_t)rng.next(); if (rng.chance(0.3)) { a.fill(0); a[10] = a[11] = 0xff; a[15] = 9; } return IPAddress::CreateV6(a); }
	SocketAddress So() { return SocketAddress(Ip(), (uint16_t)U()); }
	Capabilities Ca() { return Capabilities((uint32_t)U()); }
	OutputLocation Loc() { return OutputLocation(LeafIndex::At(rng.chance(0.5) ? rng.below(100) : rng.next() >> rng.range(24, 60)), U()); }
	SegmentIdentifier Sid() { return SegmentIdentifier((uint8_t)U(), U()); }
	SegmentProof Spr() { return SegmentProof(Many(Few(4), [&] { return H(); })); }
	template <size_t N, class F> auto Seg(F leaf) { using T = decltype(leaf()); size_t a = Few(4), b = Few(4); return Segment<N, T>(Sid(), Many(a, [&] { return U(); }), Many(a, [&] { return H(); }), Many(b, [&] { return U(); }), Many(b, leaf), Spr()); }

	// ----- damage
	Bytes Damage(const Bytes& in, std::string& what, bool plain) {
		Bytes b = in; size_t n = b.size();
		switch (rng.below(plain ? 4 : 12)) {
			case 0: what = "exact"; break;
			case 1: what = "cut"; b.resize(n ? rng.below(n) : 0); break;
			case 2: what = "short"; if (n) b.pop_back(); break;
			case 3: { what = "long"; auto x = B(1 + rng.below(20)); b.insert(b.end(), x.begin(), x.end()); break; }
			case 4: what = "flip"; for (int k = rng.range(1, 3); k && n; k--) b[rng.below(n)] ^= 1 << rng.below(8); break;
			case 5: { what = "ones"; size_t p = rng.below(n + 1); for (size_t k = p; k < n && k < p + 8; k++) b[k] = 0xff; break; }
			case 6: { what = "number"; size_t p = rng.chance(0.7) ? 8 * rng.below(n / 8 + 1) + (rng.chance(0.3) ? 1 : 0) : rng.below(n + 1); uint64_t x = rng.chance(0.4) ? 0 - (uint64_t)rng.below(n + 40) : rng.chance(0.5) ? 1ull << rng.range(10, 63) : rng.below(n + 3); for (int k = 0; k < 8; k++) if (p + k < n) b[p + k] = (uint8_t)(x >> (8 * (7 - k))); break; }
			case 7: what = "byte"; if (n) b[rng.below(n)] = (uint8_t)rng.below(6); break;
			case 8: what = "noise"; b = B(rng.below(200)); break;
			case 9: { what = "drop"; if (n) { size_t p = rng.below(n), m = std::min(n - p, 1 + rng.below(40)); b.erase(b.begin() + p, b.begin() + p + m); } break; }
			case 10: { what = "insert"; auto x = B(1 + rng.below(9)); b.insert(b.begin() + rng.below(n + 1), x.begin(), x.end()); break; }
			case 11: { what = "low"; size_t p = rng.below(n + 1); if (rng.chance(0.5)) p = std::min<size_t>(p, 30); for (size_t k = p; k < n && k < p + 8; k++) b[k] = 0; if (p + 7 < n) b[p + 7] = (uint8_t)rng.below(4); break; }
		}
		return b;
	}
	// ----- one value
	template <class F> bool Watch(F f, size_t& big) { bool ok = true; largest = 0; watching = true; try { f(); } catch (...) { ok = false; } watching = false; big = largest; return ok; }
	static const Bytes Pre(const TransactionInput& x) { auto v = V(x); return Bytes(v.begin() + 1, v.end()); }
	void Hashes(const std::string& ty, const Bytes& v, const Bytes& pre, const Hash& h) { J j; j("e", "Hash")("t", ty)("v", v)("pre", pre)("same", Hasher::Blake2b(pre) == h); t.log(j); }
	template <class T> void HashOf(const std::string&, const T&) {}
	void HashOf(const std::string& ty, const TransactionInput& x) { Hashes(ty, V(x), x.GetCommitment().GetVec(), x.GetHash()); }
	void HashOf(const std::string& ty, const TransactionOutput& x) { Hashes(ty, V(x), W().n(x.GetFeatures(), 1).r(x.GetCommitment().GetVec()).b, x.GetHash()); }
	void HashOf(const std::string& ty, const TransactionKernel& x) { Hashes(ty, V(x), V(x), x.GetHash()); }
	void HashOf(const std::string&, const Transaction& x) { Hashes("tx", V(x), V(x), x.GetHash()); for (auto& k : x.GetKernels()) HashOf("kernel", k); for (auto& k : x.GetOutputs()) HashOf("output", k); for (auto& k : x.GetInputs()) HashOf("input", k); }
	void HashOf(const std::string&, const BlockHeader& x) { Hashes("header", V(x), Packed(x.GetProofOfWork()), x.GetHash()); }
	void HashOf(const std::string&, const FullBlock& x) { Hashes("header", V(*x.GetHeader()), Packed(x.GetHeader()->GetProofOfWork()), x.GetHash()); }
	void HashOf(const std::string&, const CompactBlock& x) { Hashes("header", V(*x.GetHeader()), Packed(x.GetHeader()->GetProofOfWork()), x.GetHash()); }

	template <class T> static Bytes Ser(const T& x, EProtocolVersion v) { Serializer s(v); x.Serialize(s); return s.GetBytes(); }
	static Bytes Ser(const PeerPtr& x, EProtocolVersion v) { Serializer s(v); x->Serialize(s); return s.GetBytes(); }
	template <class T, class D> void One(const std::string& ty, const T& x, D des, bool stored = false) {
		static const int vs[] = { 1, 2, 3, 1000 }; ver = stored ? 1 : keep ? keep : vs[rng.below(4)]; auto pv = ProtocolVersion::ToEnum(ver);
		Bytes bytes, frame; J j; j("e", "Enc")("t", ty)("ver", ver)("v", V(x));
		if constexpr (std::is_base_of_v<IMessage, T>) { bytes = static_cast<const IMessage&>(x).Serialize(pv); frame.assign(bytes.begin(), bytes.begin() + 11); bytes.erase(bytes.begin(), bytes.begin() + 11); auto m = Global::GetMagicBytes(); j("frame", frame)("magic", m); Frame(frame); }
		else bytes = Ser(x, pv);
		j("bytes", bytes); Bytes again{ 255 };
		try { ByteBuffer bb(bytes, pv); auto y = des(bb); again = V(y); } catch (const std::exception& e) { j("err", e.what()); }
		j("again", again); t.log(j); HashOf(ty, x);
		for (int k = rng.range(2, 5); k; k--) {
			std::string what; Bytes in = Damage(bytes, what, stored); Bytes v; size_t used = 0, big = 0;
			auto bb = std::make_unique<ByteBuffer>(in, pv); std::unique_ptr<std::decay_t<decltype(des(*bb))>> y;
			bool ok = Watch([&] { y = std::make_unique<std::decay_t<decltype(des(*bb))>>(des(*bb)); }, big); if (ok) { v = V(*y); used = in.size() - bb->GetRemainingSize(); }
			J d; d("e", "Dec")("t", ty)("ver", ver)("what", what)("in", in)("r", ok)("v", v)("used", used)("big", std::min<size_t>(big, 1u << 30)); t.log(d);
			if (ok && what != "exact") HashOf(ty, *y);
		}
	}
	template <class T> void One(const std::string& ty, const T& x, bool stored = false) { One(ty, x, [](ByteBuffer& b) { return T::Deserialize(b); }, stored); }
	void Frame(const Bytes& f) {
		for (int k = 0; k < 2; k++) {
			std::string what; Bytes in = k ? Damage(f, what, false) : f; if (k && rng.chance(0.6)) { in = f; in[2] = (uint8_t)rng.below(30); uint64_t x = MessageTypes::GetMaximumSize((MessageTypes::EMessageType)in[2]) * 4 + rng.below(3) - 1; if (rng.chance(0.2)) x = U(); for (int i = 0; i < 8; i++) in[3 + i] = (uint8_t)(x >> (8 * (7 - i))); }
			in.resize(std::min<size_t>(in.size(), 11)); Bytes v; bool ok = true; try { ByteBuffer bb(in); auto h = MessageHeader::Deserialize(bb); v = h.Serialized(); } catch (...) { ok = false; }
			J j; j("e", "Frame")("magic", Global::GetMagicBytes())("in", in)("r", ok)("v", v); t.log(j);
		}
	}
	// ----- what wallets keep and send
	template <class T> void Kept(const std::string& ty, const T& x, int force = 1) { keep = force; One(ty, x, [](ByteBuffer& b) { return T::Deserialize(b); }, force == 1); keep = 0; }
	PublicKey Pk() { return PublicKey(CBigInteger<33>(B(33).data())); }
	ed25519_public_key_t Ed() { SecretKey k(CBigInteger<32>(B(32).data())); return ED25519::CalculateKeypair(k).public_key; }
	std::optional<SlatePaymentProof> Pp() { if (rng.chance(0.5)) return std::nullopt; auto p = SlatePaymentProof::Create(Ed(), Ed()); if (rng.chance(0.5)) p.AddSignature(ed25519_signature_t{ CBigInteger<64>(B(64).data()) }); return p; }
	uuids::uuid Uuid() { std::array<uint8_t, 16> a; for (auto& x : a) x = (uint8_t)rng.next(); return uuids::uuid(a); }
	Slate Sl() {
		static const ESlateStage st[] = { ESlateStage::STANDARD_SENT, ESlateStage::STANDARD_RECEIVED, ESlateStage::STANDARD_FINALIZED, ESlateStage::INVOICE_SENT, ESlateStage::INVOICE_PAID, ESlateStage::INVOICE_FINALIZED };
		Slate s(Uuid()); s.stage = st[rng.below(6)]; if (rng.chance(0.4)) s.version = (uint16_t)U(), s.blockVersion = (uint16_t)U(); if (rng.chance(0.3)) s.numParticipants = (uint8_t)U(); if (rng.chance(0.3)) s.ttl = U(); if (rng.chance(0.7)) s.offset = Bf(); if (rng.chance(0.7)) s.amount = U(); if (rng.chance(0.7)) s.fee = Fe();
		if (rng.chance(0.5)) { s.kernelFeatures = (EKernelFeatures)rng.range(0, 3); if (s.kernelFeatures) { s.featureArgsOpt = SlateFeatureArgs(); if (s.kernelFeatures == 2) s.featureArgsOpt->lockHeightOpt = U(); } }
		for (size_t n = rng.below(4); n; n--) s.sigs.push_back(SlateSignature(Pk(), Pk(), rng.chance(0.5) ? std::make_optional(CompactSignature(CBigInteger<64>(B(64).data()))) : std::nullopt));
		for (size_t n = rng.below(4); n; n--) s.commitments.push_back(SlateCommitment{ Ft(), Com(), rng.chance(0.5) ? std::make_optional(RangeProof(B(675))) : std::nullopt });
		s.proofOpt = Pp(); return s;
	}
	KeyChainPath Kp() { std::vector<uint32_t> v; for (size_t n = rng.below(5); n; n--) v.push_back((uint32_t)(rng.chance(0.2) ? 0x80000000u + rng.below(10) : U())); return KeyChainPath(std::move(v)); }
	OutputDataEntity Od(bool id) {
		auto o = [&](uint64_t x) { return x ? std::make_optional(x) : std::optional<uint64_t>(); }; auto l = Str();
		return OutputDataEntity(Kp(), SecretKey(CBigInteger<32>(B(32).data())), Out(), U(), (EOutputStatus)rng.below(6), o(U()), o(U()), id || rng.chance(0.5) ? std::make_optional((uint32_t)U()) : std::nullopt, l.empty() ? std::vector<std::string>() : std::vector<std::string>{ l });
	}
	std::chrono::system_clock::time_point Tp() { return TimeUtil::ToTimePoint(1 + (int64_t)(U() % 4000000000000ull)); }
	WalletTx Wt() {
		auto str = [&]() { auto s = Str(); return s.empty() ? std::optional<std::string>() : std::make_optional(s); };
		return WalletTx((uint32_t)U(), (EWalletTxType)rng.below(8), rng.chance(0.7) ? std::make_optional(Uuid()) : std::nullopt, str(), str(), Tp(), rng.chance(0.5) ? std::make_optional(Tp()) : std::nullopt, rng.chance(0.5) ? std::make_optional(1 + rng.below(1 << 20)) : std::nullopt, U(), U(),
			rng.chance(0.5) ? std::make_optional(Fe()) : std::nullopt, rng.chance(0.5) ? std::make_optional(*Tx()) : std::nullopt, Pp());
	}
	// One value, read back some other way, or something that must not be read.
	template <class F> void Same(const std::string& ty, const Bytes& a, F f) { Bytes b{ 255 }; try { b = f(); } catch (const std::exception& e) { if (getenv("SHOW")) fprintf(stderr, "%s: %s\n", ty.c_str(), e.what()); } J j; j("e", "Same")("t", ty)("a", a)("b", b); t.log(j); }
	template <class F> void Bad(const std::string& ty, size_t n, F f) { size_t big = 0; bool ok = Watch(f, big); J j; j("e", "Bad")("t", ty)("r", ok)("big", std::min<size_t>(big, 1u << 30))("size", n); t.log(j); }
	static Bytes Of(const std::string& s) { return Bytes(s.begin(), s.end()); }
	void Texts() {
		{ auto s = Sl(); Same("slate's JSON", V(s), [&] { return V(Slate::FromJSON(s.ToJSON())); }); Same("slate's JSON text", V(s), [&] { Json::Value j; std::string e; auto txt = s.ToJSON().toStyledString(); std::unique_ptr<Json::CharReader> r(Json::CharReaderBuilder().newCharReader()); r->parse(txt.data(), txt.data() + txt.size(), &j, &e); return V(Slate::FromJSON(j)); }); }
		{ auto k = Ker(); Same("kernel's JSON", V(k), [&] { return V(TransactionKernel::FromJSON(k.ToJSON())); }); }
		{ auto p = RangeProof(B(675)); TransactionOutput o(Ft(), Com(), p); Same("output's JSON", V(o), [&] { return V(TransactionOutput::FromJSON(o.ToJSON())); }); }
		{ auto i = In(); Same("input's JSON", V(i), [&] { return V(TransactionInput::FromJSON(i.ToJSON())); }); }
		{ auto k = Kp(); Same("path", Of(Path(k)), [&] { return Of(Path(KeyChainPath::FromString(k.Format()))); }); Same("path's hex", Of(Path(k)), [&] { return Of(Path(KeyChainPath::FromHex(k.ToHex()))); }); }
		{ EncryptedSeed x(CBigInteger<16>(B(16).data()), CBigInteger<8>(B(8).data()), B(rng.below(60)), ScryptParameters((uint32_t)U(), (uint32_t)U(), (uint32_t)U())); Same("seed's JSON", V(x), [&] { return V(EncryptedSeed::FromJSON(x.ToJSON())); }); }
		{ auto e = B(16 + 4 * rng.below(5)); Same("mnemonic", e, [&] { auto v = Mnemonic::ToEntropy(Mnemonic::CreateMnemonic(e.data(), e.size())); return Bytes(v.begin(), v.end()); }); }
		{ auto b = B(rng.below(60)); Same("base 64", b, [&] { return Base64::DecodeUnpadded(Base64::EncodeUnpadded(b)); }); Same("base 58", b, [&] { return Base58::SimpleDecodeCheck(Base58::SimpleEncodeCheck(b)); }); Same("hexadecimal", b, [&] { return HexUtil::FromHex(HexUtil::ConvertToHex(b)); }); }
		for (int k = 0; k < 30; k++) { auto b = B(1 + rng.below(7)); if (rng.chance(0.1)) b[0] = 0; Same("base 58", b, [&] { return Base58::SimpleDecodeCheck(Base58::SimpleEncodeCheck(b)); }); }
		SlatepackAddress a(Ed()); std::string as = a.ToString();
		Same("address", a.GetEdwardsPubKey().vec(), [&] { return SlatepackAddress::Parse(as).GetEdwardsPubKey().vec(); });
		Same("onion address", a.GetEdwardsPubKey().vec(), [&] { return TorAddressParser::Parse(a.ToTorAddress().ToString())->GetPublicKey().vec(); });
		{ std::string d = as; size_t p = 5 + rng.below(d.size() - 5); static const std::string cs = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"; size_t q = cs.find(d[p]); if (q < 32) { d[p] = cs[(q + 1 + rng.below(31)) % 32]; Bad("address", d.size(), [&] { SlatepackAddress::Parse(d); }); } if (rng.chance(0.3)) { std::string x = as.substr(0, rng.below(as.size())); Bad("address", x.size(), [&] { SlatepackAddress::Parse(x); }); } }
	}
	void Packs() {
		auto s = Sl(); Serializer sz; s.Serialize(sz); Bytes body = sz.GetBytes(); std::vector<ed25519_keypair_t> who; for (int i = 0; i < 3; i++) who.push_back(ED25519::CalculateKeypair(SecretKey(CBigInteger<32>(B(32).data()))));
		auto x = [&](int i) { return Curve25519::ToX25519(who[i]); };
		std::vector<SlatepackAddress> to; int n = (int)rng.below(3); for (int i = 0; i < n; i++) to.push_back(SlatepackAddress(who[i].public_key));
		SlatepackAddress from(Ed()); std::string armor = Armor::Pack(from, s, to);
		auto open = [&](const std::string& a, int i) { auto m = Armor::Unpack(a, x(i)); ByteBuffer bb(m.m_payload); auto y = Slate::Deserialize(bb); return W().r(m.m_sender.GetEdwardsPubKey().vec()).n(m.m_mode, 1).r(V(y)).b; };
		Bytes want = W().r(from.GetEdwardsPubKey().vec()).n(n ? 1 : 0, 1).r(V(s)).b;
		for (int i = 0; i < std::max(n, 1); i++) Same("slatepack", want, [&] { return open(armor, i); });
		{ std::string a; for (char c : armor) { if (c == ' ' && rng.chance(0.3)) a += rng.chance(0.5) ? "\n" : "\t  "; else a += c; } Same("slatepack with other spaces", want, [&] { return open(a, 0); }); }
		if (n) Bad("slatepack for others", armor.size(), [&] { open(armor, 2); });
		for (int k = 0; k < 2; k++) { std::string a = armor; size_t p = 16 + rng.below(a.size() - 16 - 15); if (k) a.erase(p, 1 + rng.below(10)); else if (isalnum(a[p])) a[p] = a[p] == 'b' ? 'c' : 'b'; bool same = true; std::string u, v; for (char c : a) if (!isspace(c)) u += c; for (char c : armor) if (!isspace(c)) v += c; if (u != v) Bad("slatepack", a.size(), [&] { open(a, 0); }); }
		SlatepackMessage m(from, body); m.m_mode = n ? SlatepackMessage::ENCRYPTED : SlatepackMessage::PLAINTEXT; Bytes raw = m.Encrypt(to);
		{ Bytes cut(raw.begin(), raw.begin() + rng.below(raw.size())); Bad("cut slatepack", cut.size(), [&] { SlatepackMessage::Decrypt(cut, x(0)); }); }
		{ Bytes b = raw; b[2] = (uint8_t)(2 + rng.below(200)); Bad("slatepack of another mode", b.size(), [&] { SlatepackMessage::Decrypt(b, x(0)); }); }
		if (n) { Bytes b = raw; b[rng.chance(0.5) ? b.size() - 1 - rng.below(b.size() / 2) : b.size() - 1 - rng.below(200)] ^= 1 << rng.below(8); Bad("sealed slatepack", b.size(), [&] { SlatepackMessage::Decrypt(b, x(0)); }); }
	}
	void Value(int k) {
		switch (k) {
			case 37: Kept("slate", Sl(), 2); break;
			case 38: Kept("coin", Od(false)); break;
			case 39: Kept("paid", Wt()); break;
			case 40: { SecretKey a(CBigInteger<32>(B(32).data())), b(CBigInteger<32>(B(32).data())); Kept("ctx", SlateContextEntity(a, b, Many(Few(3), [&] { return Od(true); }), Many(Few(3), [&] { return Od(true); }))); break; }
			case 41: Kept("meta", UserMetadata((uint32_t)U(), U(), U())); Kept("seed", EncryptedSeed(CBigInteger<16>(B(16).data()), CBigInteger<8>(B(8).data()), B(rng.below(60)), ScryptParameters((uint32_t)U(), (uint32_t)U(), (uint32_t)U()))); break;
			case 42: Texts(); break;
			case 43: Packs(); break;
			case 0: One("fee", Fe()); break;
			case 1: One("input", In()); break;
			case 2: One("outid", Id()); break;
			case 3: One("output", Out()); break;
			case 4: case 5: One("kernel", Ker()); break;
			case 6: case 7: One("tx", *Tx()); break;
			case 8: case 9: One("header", *Hdr()); break;
			case 10: One("block", Blk()); break;
			case 11: One("compact", Cmp()); break;
			case 12: One("sums", BlockSums(Com(), Com()), true); One("place", Loc(), true); break;
			case 13: One("spent", SpentOutputs(Many(Few(5), [&] { return SpentOutput(Com(), Loc()); })), true); break;
			case 14: One("sock", So()); One("ip", Ip()); break;
			case 15: One("peer", std::make_shared<Peer>(Ip(), (uint32_t)U(), Ca(), Str(), (std::time_t)U(), (std::time_t)U(), (EBanReason)rng.below(8)), [](ByteBuffer& b) { return Peer::Deserialize(b); }, true); break;
			case 16: One("mhand", HandMessage((uint32_t)U(), Ca(), U(), H(), U(), So(), So(), Str())); break;
			case 17: One("mshake", ShakeMessage((uint32_t)U(), Ca(), H(), U(), Str())); break;
			case 18: One("mping", PingMessage(U(), U())); One("mpong", PongMessage(U(), U())); break;
			case 19: { std::string s = Str(); One("merror", ErrorMessage((uint32_t)U(), s)); break; }
			case 20: One("mban", BanReasonMessage((uint32_t)U())); One("mgetaddrs", GetPeerAddressesMessage(Ca())); break;
			case 21: One("maddrs", PeerAddressesMessage(Many(Few(6), [&] { return So(); }))); break;
			case 22: One("mgetheaders", GetHeadersMessage(Many(Few(6), [&] { return H(); }))); break;
			case 23: One("mheader", HeaderMessage(Hdr())); break;
			case 24: One("mheaders", HeadersMessage(Many(Few(3), [&] { return Hdr(); }))); break;
			case 25: One("mblock", BlockMessage(Blk())); break;
			case 26: One("mcompact", CompactBlockMessage(Cmp())); break;
			case 27: One("mgetblock", GetBlockMessage(H())); One("mgetcompact", GetCompactBlockMessage(H())); break;
			case 28: One("mtx", TransactionMessage(Tx())); break;
			case 29: One("mstem", StemTransactionMessage(Tx())); break;
			case 30: One("mgettx", GetTransactionMessage(H())); One("mkernel", TransactionKernelMessage(H())); break;
			case 31: One("mrequest", TxHashSetRequestMessage(H(), U())); One("marchive", TxHashSetArchiveMessage(H(), U(), U())); break;
			case 32: One("mgetbitmapseg", GetOutputBitmapSegmentMessage(H(), Sid())); One("mgetoutseg", GetOutputSegmentMessage(H(), Sid())); One("mgetproofseg", GetRangeProofSegmentMessage(H(), Sid())); One("mgetkernelseg", GetKernelSegmentMessage(H(), Sid())); break;
			case 33: One("moutseg", OutputSegmentMessage(H(), Seg<PIBD_OUTPUT_DATA_SIZE>([&] { return Id(); }), H())); break;
			case 34: One("mproofseg", RangeProofSegmentMessage(H(), Seg<PIBD_RANGE_PROOF_DATA_SIZE>([&] { return Rp(); }))); break;
			case 35: One("mkernelseg", KernelSegmentMessage(H(), Seg<PIBD_KERNEL_DATA_SIZE>([&] { return Ker(); }))); break;
			case 36: {
				auto block = [&] { int m = (int)rng.below(3); uint8_t c = (uint8_t)rng.below(3); return m == 0 ? BitmapSegmentBlock(c, BitmapSegmentBlock::ESerializationMode::Raw, {}, B(128 * c)) : BitmapSegmentBlock((uint8_t)U(), (BitmapSegmentBlock::ESerializationMode)m, Many(Few(5), [&] { return (uint16_t)U(); }), {}); };
				One("mbitmapseg", OutputBitmapSegmentMessage(H(), BitmapSegment(Sid(), Many(Few(4), block), Spr()), H())); break;
			}
		}
	}
	static constexpr int KINDS = 44;
};

int main(int argc, char** argv) {
	if (argc < 5) return 2;
	Setup(argv[2]); Global::SetCoinView(std::make_shared<View>());
	Run r(strtoull(argv[3], 0, 10)); r.t.open(argv[1]); int n = atoi(argv[4]);
	for (int i = 0; i < n; i++) r.Value((int)((i + strtoull(argv[3], 0, 10) * 7) % Run::KINDS));
	fflush(r.t.f); _exit(0);
}
