// usage: locks OUT.ndjson SCRATCH SEED NTRACES
// Threads taking the reader/writer wrappers in every combination.  An acquisition is logged after it was
// made and a release before it happens, so an overlap in the log is an overlap in fact.
#include "mini.h"
#include <Core/Traits/Lockable.h>
#include <Common/ConcurrentQueue.h>
#include <thread>
#include <random>

static Trace t; static std::mutex lm; static std::atomic<uint64_t> beat{ 0 };
static void Log(J& j) { std::lock_guard<std::mutex> g(lm); t.log(j); beat++; }
static thread_local int me = 0; static thread_local bool asked = false;
static thread_local Rng* rng = nullptr;
static void Nap() { int k = rng ? rng->range(0, 9) : 0; if (k < 4) std::this_thread::yield(); else if (k < 7) usleep(rng->range(1, 60)); }
using Ints = std::vector<int>;

struct Obj : Traits::IBatchable {
	int id; bool clears; Ints val{ 0, 0, 0 }, com{ 0, 0, 0 }; bool failCommit = false, failInit = false;
	Obj(int i, bool c) : id(i), clears(c) {}
	void OnInitWrite(const bool b) override { if (failInit) { failInit = false; J j; j("e", "WX")("th", me)("o", id); Log(j); throw std::runtime_error("init"); } J j; j("e", "WB")("th", me)("o", id)("b", b); Log(j); }
	void Commit() override { if (failCommit) { failCommit = false; val = com; J j; j("e", "CX")("th", me)("o", id)("auto", !asked); Log(j); throw std::runtime_error("commit"); } com = val; if (clears) SetDirty(false); J j; j("e", "Commit")("th", me)("o", id)("auto", !asked); Log(j); }
	void Rollback() noexcept override { val = com; if (clears) SetDirty(false); J j; j("e", "Rollback")("th", me)("o", id)("auto", !asked); Log(j); }
	void OnEndWrite() override { J j; j("e", "WE")("th", me)("o", id)("val", val)("com", com); Log(j); }
	void Set(int i, int v) { if (clears) SetDirty(true); J j; j("e", "Set")("th", me)("o", id)("i", i)("v", v); Log(j); val[i] = v; Nap(); }
};
struct Plain { virtual ~Plain() {} int id; Ints val{ 0, 0, 0 }; Plain(int i) : id(i) {} };

static const int NOBJ = 4;
struct World0 { std::vector<std::shared_ptr<Obj>> o; std::vector<Locked<Obj>> l; std::shared_ptr<Plain> p; std::unique_ptr<Locked<Plain>> lp; };

static void Look(const Obj& o) { Ints v; for (int i = 0; i < 3; i++) { v.push_back(o.val[i]); Nap(); } J j; j("e", "RD")("th", me)("o", o.id)("val", v); Log(j); }
static void RB(int o) { J j; j("e", "RB")("th", me)("o", o); Log(j); }
static void RE(int o) { J j; j("e", "RE")("th", me)("o", o); Log(j); }
static void Sets(Obj& o) { int n = rng->range(1, 4); static std::atomic<int> c{ 0 }; for (int i = 0; i < n; i++) o.Set(rng->range(0, 2), ++c); }
static void Ask(Writer<Obj>& w, bool commit) { asked = true; try { if (commit) w->Commit(); else w->Rollback(); } catch (...) { asked = false; throw; } asked = false; }
// within a writer's scope
static void Work(Writer<Obj>& w, bool batch) {
	if (batch) { int n = rng->range(0, 3); while (n--) { int k = rng->range(0, 9); if (k < 6) Sets(*w); else Ask(w, k < 8); if (rng->chance(0.2)) Look(*w); } if (rng->chance(0.6)) { Sets(*w); if (rng->chance(0.2)) w->failCommit = true; Ask(w, true); if (rng->chance(0.3)) Sets(*w); } }
	else { Sets(*w); if (rng->chance(0.1)) w->failCommit = true; }
	if (rng->chance(0.15)) throw std::runtime_error("caller");
}
static void One(World0& E) {
	int k = rng->range(0, 99); int a = rng->range(0, NOBJ - 1);
	if (k < 30) { auto r = E.l[a].Read(); RB(a); Look(*r); if (rng->chance(0.3)) { Reader<Obj> c(r); r = Reader<Obj>(); Nap(); Look(*c); RE(a); c = Reader<Obj>(); } else { Look(*r); RE(a); } }
	else if (k < 45) { auto w = E.l[a].Write(); try { if (rng->chance(0.2)) { Writer<Obj> c(w); w.Clear(); Work(c, false); } else { Work(w, false); w.Clear(); } } catch (std::exception&) { w.Clear(); } }
	else if (k < 60) { try { auto w = E.l[a].BatchWrite(); if (rng->chance(0.2)) { Writer<Obj> c(w); w.Clear(); Work(c, true); } else Work(w, true); } catch (std::exception&) {} }
	else if (k < 67) { auto r = E.lp->Read(); RB(NOBJ); Ints v; for (int i = 0; i < 3; i++) { v.push_back(r->val[i]); Nap(); } J j; j("e", "RD")("th", me)("o", NOBJ)("val", v); Log(j); RE(NOBJ); }
	else if (k < 71) { auto w = E.lp->Write(); { J j; j("e", "WB")("th", me)("o", NOBJ)("b", false); Log(j); } static std::atomic<int> c{ 500000 }; for (int i = 0; i < 2; i++) { int q = rng->range(0, 2), v = ++c; J j; j("e", "Set")("th", me)("o", NOBJ)("i", q)("v", v); Log(j); w->val[q] = v; Nap(); } J j; j("e", "PE")("th", me)("o", NOBJ)("val", w->val); Log(j); }
	else if (k < 73) { std::string r = "taken"; try { auto w = E.lp->BatchWrite(); } catch (std::exception&) { r = "refused"; } J j; j("e", "NoBatch")("r", r); Log(j); }
	else {
		Ints q{ 0, 1, 2, 3 }; rng->shuffle(q); int n = rng->range(2, 4); int kind = rng->range(0, 2); auto L = [&](int i) -> Locked<Obj>& { return E.l[q[i]]; };
		auto readers = [&](auto tup) { std::apply([&](auto&... r) { (RB(r->id), ...); (Look(*r), ...); (Look(*r), ...); (RE(r->id), ...); }, tup); };
		auto writers = [&](auto tup, bool b) { try { std::apply([&](auto&... w) { (Work(w, b), ...); }, tup); } catch (std::exception&) {} };
		if (kind == 0) { if (n == 2) readers(MultiLocker().LockShared(L(0), L(1))); else if (n == 3) readers(MultiLocker().LockShared(L(0), L(1), L(2))); else readers(MultiLocker().LockShared(L(0), L(1), L(2), L(3))); }
		else if (kind == 1) { auto f = [&](auto tup) { writers(std::move(tup), true); }; if (n == 2) f(MultiLocker().BatchLock(L(0), L(1))); else if (n == 3) f(MultiLocker().BatchLock(L(0), L(1), L(2))); else f(MultiLocker().BatchLock(L(0), L(1), L(2), L(3))); }
		else { auto f = [&](auto& tup) { writers(tup, false); }; if (n == 2) { auto x = MultiLocker().Lock(L(0), L(1)); f(x); } else if (n == 3) { auto x = MultiLocker().Lock(L(0), L(1), L(2)); f(x); } else { auto x = MultiLocker().Lock(L(0), L(1), L(2), L(3)); f(x); } }
	}
}
static void Guard(std::vector<std::thread>& th, std::atomic<int>& left) {
	uint64_t last = beat; int idle = 0;
	while (left > 0) { usleep(2000); if (beat == last) { if (++idle > 10000) { J j; j("e", "Stuck"); Log(j); fflush(t.f); _exit(0); } } else { last = beat; idle = 0; } }
	for (auto& x : th) x.join();
}
template <class F> static void Threads(int n, uint64_t seed, F f) {
	std::vector<std::thread> th; std::atomic<int> left{ n };
	for (int i = 1; i <= n; i++) th.emplace_back([&, i] { me = i; Rng r(seed * 131 + i); rng = &r; f(i); rng = nullptr; left--; });
	Guard(th, left);
}
int main(int c, char** v) {
	if (c < 5) return 3; t.open(v[1]); uint64_t seed = strtoull(v[3], 0, 10); int traces = atoi(v[4]);
	for (int k = 0; k < traces; k++) {
		World0 E; for (int i = 0; i < NOBJ; i++) { E.o.push_back(std::make_shared<Obj>(i, i % 2)); E.l.emplace_back(E.o[i]); } E.p = std::make_shared<Plain>(NOBJ); E.lp = std::make_unique<Locked<Plain>>(E.p);
		{ J j; j("e", "Reset")("n", NOBJ + 1); Log(j); }
		{ // any number may read together: each waits inside for the others
			std::atomic<int> in{ 0 }; Threads(4, seed + k, [&](int i) { auto f = [&] { in++; while (in < 4) usleep(50); }; if (i < 3) { auto r = E.l[0].Read(); RB(0); f(); Look(*r); RE(0); } else { auto m = MultiLocker().LockShared(E.l[1], E.l[0]); RB(0); f(); Look(*std::get<1>(m)); RE(0); } });
		}
		{ // a writer that cannot be opened leaves the object free
			me = 1; Rng r(seed); rng = &r; E.o[1]->failInit = true; try { auto w = E.l[1].BatchWrite(); } catch (std::exception&) {} rng = nullptr;
		}
		Threads(6, seed * 1000 + k, [&](int) { for (int i = 0; i < 25; i++) One(E); });
		{ // queue: several producers, one consumer
			ConcurrentQueue<int> q; const int P = 4, N = 60; std::atomic<int> done{ 0 }; { J j; j("e", "Queue")("p", P)("n", N); Log(j); }
			Threads(P + 1, seed * 77 + k, [&](int i) {
				if (i <= P) { for (int x = 0; x < N; x++) { { J j; j("e", "Push")("p", i)("x", x); Log(j); } q.push_back(i * 1000 + x); Nap(); } done++; }
				else { int got = 0; while (got < P * N) { int n = rng->range(1, 8); Ints f = q.copy_front((size_t)n); J j; j("e", "Front")("n", n)("f", f); Log(j); bool c2 = f.empty() || q.contains(f.back()); auto one = q.copy_front(); bool o2 = f.empty() || (one && *one == f.front()); q.pop_front(f.size()); J j2; j2("e", "Pop")("k", (int)f.size())("ok", c2 && o2 && (f.empty() || !q.contains(f.front()))); Log(j2); got += (int)f.size(); if (f.empty()) Nap(); } }
			});
			J j; j("e", "Empty")("size", q.size()); Log(j);
			ConcurrentQueue<int> u; std::function<bool(const int&, const int&)> same = [](const int& a, const int& b) { return a / 1000 == b / 1000; }; std::mutex m; Ints won; Threads(4, seed * 99 + k, [&](int i) { for (int x = 0; x < 12; x++) { if (u.push_back_unique(x * 1000 + i, same)) { std::lock_guard<std::mutex> g(m); won.push_back(x); } Nap(); beat++; } });
			Ints have; for (int x : u.copy_front(1000)) have.push_back(x / 1000); std::sort(won.begin(), won.end()); std::sort(have.begin(), have.end()); J j2; j2("e", "Unique")("n", 12)("won", won)("have", have); Log(j2);
		}
	}
}
