// usage: cycle OUT.ndjson SCRATCH SEED NGRAPHS
// Cycles found in small graphs, and lists of edges that nearly are cycles, given to the real verifiers.
#include "lib.h"
#include <PoW/Cuckatoo.h>
#include <PoW/Cuckaroo.h>
static uint64_t rotl(uint64_t x, int b) { return x << b | x >> (64 - b); }
struct Sip { // siphash whose state goes on from one number to the next
	uint64_t v0, v1, v2, v3; explicit Sip(const uint64_t k[4]) : v0(k[0]), v1(k[1]), v2(k[2]), v3(k[3]) {}
	void round() { v0 += v1; v2 += v3; v1 = rotl(v1, 13); v3 = rotl(v3, 16); v1 ^= v0; v3 ^= v2; v0 = rotl(v0, 32); v2 += v1; v0 += v3; v1 = rotl(v1, 17); v3 = rotl(v3, 21); v1 ^= v2; v3 ^= v0; v2 = rotl(v2, 32); }
	uint64_t operator()(uint64_t n) { v3 ^= n; round(); round(); v0 ^= n; v2 ^= 0xff; for (int i = 0; i < 4; i++) round(); return v0 ^ v1 ^ v2 ^ v3; }
};
struct Run {
	Trace t; Rng rng; std::string kind; int eb; uint64_t key[4]; std::vector<std::pair<int, int>> ends; std::vector<std::vector<uint64_t>> cycles;
	explicit Run(uint64_t s) : rng(s) {}
	Hash H() { std::vector<unsigned char> b(32); for (auto& x : b) x = (unsigned char)rng.next(); return Hash(CBigInteger<32>(b.data())); }
	BlockHeader hdr{ 1, 1, 1, Hash(), Hash(), Hash(), Hash(), Hash(), BlindingFactor(Hash()), 1, 1, 1, 1, 0, ProofOfWork(10, std::vector<uint64_t>(42)) };
	BlockHeader With(std::vector<uint64_t> n) { return BlockHeader(1, hdr.GetHeight(), hdr.GetTimestamp(), Hash(hdr.GetPreviousHash()), Hash(), Hash(), Hash(), Hash(), BlindingFactor(Hash()), 1, 1, 1, 1, 7, ProofOfWork((uint8_t)eb, std::move(n))); }
	void Graph(bool small = false) {
		kind = rng.chance(0.5) ? "cuckatoo" : "cuckaroo"; eb = small ? rng.range(10, 12) : rng.range(8, 11); hdr = BlockHeader(1, rng.below(1000), rng.below(1000000), H(), Hash(), Hash(), Hash(), Hash(), BlindingFactor(Hash()), 1, 1, 1, 1, 7, ProofOfWork((uint8_t)eb, std::vector<uint64_t>(42)));
		Hash k = Hasher::Blake2b(hdr.GetPreProofOfWork()); memcpy(key, k.data(), 32); uint64_t mask = (1ull << eb) - 1; int n = 1 << eb; int all = rng.chance(0.3) ? 2 * n : n; ends.assign(all, {});
		if (kind == "cuckatoo") for (int i = 0; i < all; i++) ends[i] = { (int)(Sip(key)(2ull * i) & mask), (int)(Sip(key)(2ull * i + 1) & mask) };
		else for (int b = 0; b < all; b += 64) { uint64_t s[64]; Sip sp(key); for (int i = 0; i < 64; i++) s[i] = sp(b + i); for (int i = 0; i < 63; i++) s[i] ^= s[63]; for (int i = 0; i < 64; i++) ends[b + i] = { (int)(s[i] & mask), (int)((s[i] >> 32) & mask) }; }
		// fundamental cycles of a random spanning forest
		if (small) return;
		int tries = 0, sh = kind == "cuckatoo" ? 1 : 0; cycles.clear(); int N = 2 << eb; std::vector<std::vector<std::pair<int, int>>> adj(N); std::vector<int> order(all), from(N), via(N), seen(N, -1); for (int i = 0; i < all; i++) order[i] = i; rng.shuffle(order);
		for (int i : order) {
			int a = (ends[i].first >> sh) * 2, b = (ends[i].second >> sh) * 2 + 1; std::vector<int> q{ a }; seen[a] = i; from[a] = -1;
			for (size_t x = 0; x < q.size() && seen[b] != i; x++) for (auto& [to, e] : adj[q[x]]) if (seen[to] != i) { seen[to] = i; from[to] = q[x]; via[to] = e; q.push_back(to); }
			if (seen[b] != i) { adj[a].push_back({ b, i }); adj[b].push_back({ a, i }); continue; }
			std::vector<uint64_t> c{ (uint64_t)i }; for (int x = b; x != a; x = from[x]) c.push_back(via[x]); if (c.size() <= 42 && (c.size() == 42 || cycles.size() < 40)) cycles.push_back(c);
			if (++tries > 400) break;
		}
	}
	// Cycles in the sense of the proof, by trimming edges that meet no other and following the rest.
	std::vector<std::vector<uint64_t>> Real(int limit) {
		int x = kind == "cuckatoo" ? 1 : 0; std::vector<char> live(limit, 1); std::vector<std::vector<uint64_t>> out;
		for (bool more = true; more;) { std::vector<int> cu(1 << eb), cv(1 << eb); for (int i = 0; i < limit; i++) if (live[i]) { cu[ends[i].first]++; cv[ends[i].second]++; } more = false; for (int i = 0; i < limit; i++) if (live[i] && (cu[ends[i].first ^ x] < 2 - x || cv[ends[i].second ^ x] < 2 - x)) { live[i] = 0; more = true; } }
		std::map<int, std::vector<int>> us, vs; for (int i = 0; i < limit; i++) if (live[i]) { us[ends[i].first].push_back(i); vs[ends[i].second].push_back(i); }
		int steps = 0; std::vector<int> path; std::set<int> bu, bv;
		std::function<void(int)> go = [&](int e) { // e was entered at its first end; leave at its second
			if (++steps > 20000 || path.size() >= 42) return; path.push_back(e); int v = ends[e].second; if (bv.insert(v >> x).second) {
				for (int f : vs[v ^ x]) if (f != e) { int u = ends[f].first; path.push_back(f);
					if (u == (ends[path[0]].first ^ x) && f > path[0]) { out.emplace_back(path.begin(), path.end()); } else if (bu.insert(u >> x).second) { for (int g : us[u ^ x]) if (g > path[0] && g != f && std::find(path.begin(), path.end(), g) == path.end()) go(g); bu.erase(u >> x); } path.pop_back(); }
				bv.erase(v >> x); } path.pop_back(); };
		for (int i = 0; i < limit && steps < 20000; i++) if (live[i]) { bu = { ends[i].first >> x }; bv.clear(); path.clear(); go(i); }
		return out;
	}
	void Mine() {
		for (int n = 0; n < 8; n++) { Graph(true); for (auto& c : Real(rng.chance(0.2) ? (int)ends.size() : 1 << eb)) if (c.size() == 42) { Try(c); auto d = c; std::swap(d[rng.below(42)], d[rng.below(42)]); Try(d, false); d = c; d[rng.below(42)] ^= 1; Try(d); d = c; std::sort(d.begin(), d.end()); std::rotate(d.begin(), d.begin() + 1, d.end()); Try(d, false); } else if (42 % c.size() == 0 && rng.chance(0.1)) { std::vector<uint64_t> d; while (d.size() < 42) d.insert(d.end(), c.begin(), c.end()); Try(d); Try(d, false); } }
	}
	void Try(std::vector<uint64_t> n, bool sort = true) {
		if (sort) std::sort(n.begin(), n.end()); n.resize(42); std::string e = "["; for (auto x : n) e += (e.size() > 1 ? ",[" : "[") + J::v(x < ends.size() ? ends[x].first : 0) + "," + J::v(x < ends.size() ? ends[x].second : 0) + "]";
		for (auto x : n) if (x >= ends.size()) return;
		BlockHeader h = With(n); bool ok = kind == "cuckatoo" ? Cuckatoo::Validate(h) : Cuckaroo::Validate(h);
		J j; j("e", "Proof")("kind", kind)("edges", 1 << eb)("nonces", n)("valid", ok)("how", ok ? "good" : "bad"); raw(j, "ends", e + "]"); t.log(j);
	}
	void Go() {
		Graph(); std::map<size_t, std::vector<size_t>> by; for (size_t i = 0; i < cycles.size(); i++) by[cycles[i].size()].push_back(i);
		for (size_t i : by[42]) { auto c = cycles[i]; Try(c); auto d = c; std::swap(d[rng.below(42)], d[rng.below(42)]); Try(d, false); d = c; d[rng.below(42)] = rng.below(ends.size()); Try(d); d = c; d[rng.below(42)] ^= 1; Try(d); }
		for (auto& [a, v] : by) if (a < 42 && 42 % a == 0 && rng.chance(0.2)) { std::vector<uint64_t> c; for (size_t k = 0; k < 42 / a; k++) { auto x = cycles[rng.pick(v)]; c.insert(c.end(), x.begin(), x.end()); } Try(c); }
		for (auto& [a, v] : by) if (a < 42 && a <= 21 && by.count(42 - a) && rng.chance(0.3)) { auto c = cycles[rng.pick(v)], d = cycles[rng.pick(by[42 - a])]; c.insert(c.end(), d.begin(), d.end()); Try(c); }
		Mine();
		if (rng.chance(0.05)) { std::vector<uint64_t> c(42); for (auto& x : c) x = rng.below(ends.size()); Try(c); }
	}
};
int main(int c, char** v) {
	Run r(strtoull(v[3], 0, 10)); r.t.open(v[1]); fs::create_directories(v[2]); Setup(v[2]);
	for (int i = 0; i < atoi(v[4]); i++) r.Go();
	// real blocks
	fflush(stdout); _exit(0);
}
