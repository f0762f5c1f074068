// C29: locks, condition variables, semaphores, barriers, once-only construction, atomics, threads and thread-local values.
// Monitors: exclusion and occupancy assertions inside of the protected regions, an offline checker of the recorded events of
// barriers and semaphores, a linearizability checker over recorded histories of atomics, exactly-once counters of constructions
// and destructions; lost wake-ups and missed releases show up as deadlocks of the controlled scheduler.
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/string/ToString.h>
#include "vsx.h"
#include "sk.h"
#include <stingraykit/PhoenixSingleton.h>
#include <stingraykit/SafeSingleton.h>
#include <stingraykit/Singleton.h>
#include <stingraykit/log/Logger.h>
#include <stingraykit/thread/Barrier.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/ConditionVariable.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/thread/SyncValue.h>
#include <stingraykit/thread/Thread.h>
#include <stingraykit/thread/ThreadOperation.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <stingraykit/thread/atomic.h>
#include <stingraykit/thread/atomic/AtomicFlag.h>
#include <stingraykit/thread/atomic/Spinlock.h>
#include <stingraykit/thread/call_once.h>
#include <stingraykit/thread/posix/ThreadLocal.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

using namespace stingray;

namespace {
	struct Quiet { LogLevel l; Quiet() : l(Logger::GetLogLevel()) { Logger::SetLogLevel(LogLevel::Error); } ~Quiet() { Logger::SetLogLevel(l); } };
	struct Silent { LogLevel l; Silent() : l(Logger::GetLogLevel()) { Logger::SetLogLevel((LogLevel::Enum)(LogLevel::Error + 1)); } ~Silent() { Logger::SetLogLevel(l); } };
	TimeDuration Ms(s64 v) { return TimeDuration::FromMilliseconds(v); }

	struct NullSink : public ILoggerSink { void Log(const LoggerMessage&) override { } };
}

// ---------------------------------------------------------------- mutexes
namespace {
	struct Region { Mutex m; int owner = -1, depth = 0; u64 entries = 0; };

	void Visit(Region* r, int count, int first, int me, vh::Rng& rng, int depth)
	{
		Region& g = r[first];
		MutexLock l(g.m);
		VH_CHECK(g.owner == -1 || g.owner == me, "mutex:exclusion", "entered by " << me << " while held by " << g.owner << " depth " << g.depth);
		g.owner = me; ++g.depth; ++g.entries;
		vs::Pause(rng);
		if (depth < 3 && rng.Chance(1, 3)) Visit(r, count, first, me, rng, depth + 1);                                          // recursion
		if (first + 1 < count && depth < 3 && rng.Chance(1, 3)) Visit(r, count, first + 1 + (int)rng.Below(count - first - 1), me, rng, depth + 1);
		if (rng.Chance(1, 4))
		{
			const int d = g.depth;
			if (d == 1) g.owner = -1;
			--g.depth;
			if (d > 1) { MutexUnlock u(l); VH_CHECK(g.owner == me, "mutex:recursive-unlock", "owner " << g.owner << " after the release of one of " << d << " levels by " << me); vs::Pause(rng); VH_CHECK(g.owner == me, "mutex:recursive-unlock", "owner " << g.owner << " while still held by " << me); }
			else { if (rng.Bool()) { MutexUnlock u(l); vs::Pause(rng); } else { MutexUnlock u(g.m); vs::Pause(rng); } }
			VH_CHECK(g.owner == -1 || (d > 1 && g.owner == me), "mutex:relock", "relocked by " << me << " while held by " << g.owner);
			g.owner = me; ++g.depth;
		}
		VH_CHECK(g.owner == me, "mutex:exclusion", "region of " << me << " entered by " << g.owner);
		if (--g.depth == 0) g.owner = -1;
	}

	struct Pair { int a, b; Pair(int x = 0) : a(x), b(x) { } };

	void Locks(vh::Rng& rng)
	{
		Quiet q;
		const int nt = (int)rng.Range(2, 4), nr = (int)rng.Range(1, 3);
		Region r[3];
		SyncValue<int> counter(0);
		SyncValue<Pair> pair{Pair(0)};
		AtomicFlag::Type flag = 0; int spun = 0; bool inSpin = false;
		int added = 0; std::vector<int> adds(nt);
		std::vector<vh::Rng> rngs; for (int i = 0; i < nt; ++i) rngs.push_back(vh::Rng(rng.Next()));
		{
			vs::Threads th;
			for (int t = 0; t < nt; ++t)
				th.Add([&, t]()
				{
					vh::Rng& g = rngs[t];
					const int n = (int)g.Range(1, 5);
					for (int i = 0; i < n; ++i)
						switch (g.Below(7))
						{
						case 0: case 1: case 2: Visit(r, nr, (int)g.Below(nr), t, g, 0); break;
						case 3:
							{
								SyncValue<int>::Lock l(counter);
								const int v = l;
								vs::Pause(g);
								if (g.Bool()) l = v + 1; else { SyncValue<int>::Lock l2(l); l2 = v + 1; }
								vs::Pause(g);
								VH_CHECK((int)l == v + 1, "sync-value:lock", "value changed under the lock: " << (int)l << " instead of " << v + 1);
								++adds[t];
							}
							break;
						case 4: { const int a = counter.Get(); vs::Pause(g); const int b = counter.Get(); VH_CHECK(a <= b && a >= 0, "sync-value:read", "counter went from " << a << " to " << b); } break;
						case 5:
							if (g.Bool()) { pair = Pair((int)g.Below(100)); }
							else if (g.Bool()) { SyncValue<Pair>::Lock l(pair); l->a = (int)g.Below(100); vs::Pause(g); l->b = l->a; }
							else { const Pair p = pair.Get(); VH_CHECK(p.a == p.b, "sync-value:torn", p.a << " and " << p.b); const SyncValue<Pair>& c = pair; SyncValue<Pair>::ConstLock l(c); const int a = l->a; vs::Pause(g); VH_CHECK(a == l->b && l->a == a, "sync-value:torn", a << " then " << l->a << " and " << l->b); }
							break;
						default:
							{
								Spinlock l(flag);
								VH_CHECK(!inSpin, "spinlock:exclusion", "two threads inside");
								inSpin = true; ++spun; vs::Pause(g); inSpin = false;
							}
							break;
						}
				});
		}
		for (int a : adds) added += a;
		VH_CHECK(counter.Get() == added, "sync-value:lost", counter.Get() << " instead of " << added);
		VH_CHECK(AtomicFlag::TestAndSet(flag), "spinlock:released", "still taken");
		VH_CHECK(!AtomicFlag::TestAndSet(flag), "flag:test-and-set", "taken twice");
		for (int i = 0; i < nr; ++i) { VH_CHECK(r[i].owner == -1 && r[i].depth == 0, "mutex:balance", r[i].owner << " " << r[i].depth); vh_count("lock_entries", r[i].entries); }
	}
}

// ---------------------------------------------------------------- semaphores
namespace {
	void Semaphores(vh::Rng& rng)
	{
		Quiet q;
		const int initial = (int)rng.Below(3);
		const bool region = initial > 0 && rng.Bool();
		Semaphore sem(initial);
		std::atomic<int> inside(0), took(0), gave(0);
		const int nt = (int)rng.Range(2, 4);
		std::vector<vh::Rng> rngs; for (int i = 0; i < nt + 1; ++i) rngs.push_back(vh::Rng(rng.Next()));
		if (region)
		{
			vs::Threads th;
			for (int t = 0; t < nt; ++t)
				th.Add([&, t]()
				{
					vh::Rng& g = rngs[t];
					for (int i = (int)g.Range(1, 4); i > 0; --i)
					{
						SemaphoreLock l(sem);
						const int in = ++inside;
						VH_CHECK(in <= initial, "semaphore:occupancy", in << " threads admitted by " << initial << " permits");
						vs::Pause(g);
						--inside;
					}
				});
		}
		else
		{
			std::atomic<int> waiting(nt);
			vs::Threads th;
			for (int t = 0; t < nt; ++t)
				th.Add([&, t]()
				{
					vh::Rng& g = rngs[t];
					for (int i = (int)g.Range(1, 3); i > 0; --i)
					{
						const u64 t0 = vs_now_ns();
						const s64 ms = g.Chance(1, 5) ? -(s64)g.Below(3) : (s64)g.Below(20);
						switch (g.Below(3))
						{
						case 0: sem.Wait(); ++took; break;
						case 1:
							if (sem.TimedWait(Ms(ms))) ++took;
							else { VH_CHECK((s64)(vs_now_ns() - t0) + 200000 >= ms * 1000000, "semaphore:early-timeout", "gave up after " << (vs_now_ns() - t0) / 1000 << " us of " << ms << " ms"); }
							break;
						default:
							if (sem.TimedWait(Time::Now() + Ms(ms))) ++took;
							else { VH_CHECK((s64)(vs_now_ns() - t0) + 1200000 >= ms * 1000000, "semaphore:early-timeout", "absolute: gave up after " << (vs_now_ns() - t0) / 1000 << " us of " << ms << " ms"); }
							break;
						}
						const int t1 = took; VH_CHECK(t1 <= initial + gave, "semaphore:conservation", t1 << " taken of " << initial << " + " << gave << " given or being given");
					}
					--waiting;
				});
			th.Add([&]()
			{
				vh::Rng& g = rngs[nt];
				while (waiting)
				{
					vs::Pause(g);
					if (g.Bool()) { ++gave; sem.Signal(); }
					else { const int n = (int)g.Range(0, 3); gave += n; sem.Signal(n); }
					vs_advance_ns(1000000 * g.Below(5));
				}
			});
		}
		// what is left must be what was given and not taken
		int left = 0;
		while (left < 1000 && sem.TimedWait(TimeDuration())) ++left;
		VH_CHECK(left == initial + gave - took, "semaphore:conservation", left << " left of " << initial << " + " << gave << " - " << took);
		vh_count("semaphore_waits", took);
	}
}

// ---------------------------------------------------------------- barriers
namespace {
	enum { EvArrive = 1, EvLeave };

	void Barriers(vh::Rng& rng)
	{
		Quiet q;
		const int count = (int)rng.Range(1, 4);
		const int nt = rng.Chance(2, 3) ? count : count * (int)rng.Range(2, 3);
		const int gens = nt == count ? (int)rng.Range(1, 4) : 1;   // (the last ones must not be left without a party)
		const bool spurious = vs_controlled() && rng.Bool();
		Barrier b(count);
		std::vector<vh::Rng> rngs; for (int i = 0; i < nt; ++i) rngs.push_back(vh::Rng(rng.Next()));
		vs::Mutex m; int arrived = 0, left = 0, elected = 0;
		std::vector<int> round(nt);
		int plain[8] = { };
		if (spurious) vs_spurious(3);
		{
			vs::Threads th;
			for (int t = 0; t < nt; ++t)
				th.Add([&, t]()
				{
					vh::Rng& g = rngs[t];
					for (int i = 0; i < gens; ++i)
					{
						vs::Pause(g);
						{ vs::Lock l(m); ++arrived; round[t] = i + 1; }
						if (nt == count) plain[t] = i + 1;
						const bool r = b.Wait();
						if (nt == count) for (int k = 0; k < nt; ++k) VH_CHECK(plain[k] >= i + 1, "barrier:visibility", "thread " << t << " left round " << i + 1 << " and sees thread " << k << " in " << plain[k]);
						{
							vs::Lock l(m); ++left; if (r) ++elected;
							VH_CHECK(left <= arrived / count * count, "barrier:early", left << " threads left after " << arrived << " arrivals at a barrier of " << count);
							if (nt == count)
								for (int k = 0; k < nt; ++k) VH_CHECK(round[k] >= i + 1, "barrier:early", "thread " << t << " left round " << i + 1 << " before thread " << k << " arrived, it is in " << round[k]);
							VH_CHECK(elected <= arrived / count, "barrier:elected", elected << " elected in " << arrived / count << " rounds");
						}
						// the next visit of this thread must not touch `plain` before all have looked
						if (nt == count) b.Wait();
						if (nt == count) { vs::Lock l(m); }
					}
				});
		}
		vs_spurious(0);
		VH_CHECK(elected == nt * gens / count, "barrier:elected", elected << " elected in " << nt * gens / count << " rounds of " << count);
		vh_count("barrier_rounds", nt * gens / count);
	}
}

// ---------------------------------------------------------------- condition variables
namespace {
	void Conditions(vh::Rng& rng)
	{
		Quiet q;
		const int np = (int)rng.Range(1, 2), nc = (int)rng.Range(1, 3), cap = (int)rng.Range(1, 2), per = (int)rng.Range(1, 4);
		Mutex m; ConditionVariable full, empty;
		std::vector<int> queue; int inside = -1; bool done = false;
		std::vector<std::vector<int> > got(nc);
		CancellationToken stops[5];                // a token serves one wait at a time
		const bool useStop = rng.Chance(1, 3);
		if (vs_controlled() && rng.Chance(1, 3)) vs_spurious(4);
		std::vector<vh::Rng> rngs; for (int i = 0; i < np + nc; ++i) rngs.push_back(vh::Rng(rng.Next()));
		auto wait = [&](ConditionVariable& cv, int me, vh::Rng& g, bool consumer) -> bool
		{
			VH_CHECK(inside == me, "condition:held", "before the wait: " << inside << " instead of " << me);
			inside = -1;
			bool goOn = true;
			switch (useStop && consumer ? 2 : g.Below(4))
			{
			case 0: cv.Wait(m); break;
			case 1:
				{
					const u64 t0 = vs_now_ns(); const s64 ms = g.Below(5);
					if (!cv.TimedWait(m, Ms(ms))) VH_CHECK((s64)(vs_now_ns() - t0) + 200000 >= ms * 1000000, "condition:early-timeout", (vs_now_ns() - t0) / 1000 << " us of " << ms << " ms");
				}
				break;
			case 2:
				{
					const ConditionWaitResult r = cv.Wait(m, stops[me]);
					VH_CHECK(r != ConditionWaitResult::TimedOut, "condition:reason", "timed out without a timeout");
					if (r == ConditionWaitResult::Cancelled) { VH_CHECK(stops[me].IsCancelled(), "condition:reason", "cancelled by nobody"); goOn = !consumer; }
				}
				break;
			default:
				{
					const u64 t0 = vs_now_ns(); const s64 ms = g.Below(5);
					TimedCancellationToken tok(Ms(ms));
					const ConditionWaitResult r = cv.Wait(m, tok);
					VH_CHECK(r != ConditionWaitResult::Cancelled, "condition:reason", "cancelled by nobody");
					if (r == ConditionWaitResult::TimedOut) VH_CHECK((s64)(vs_now_ns() - t0) + 200000 >= ms * 1000000, "condition:early-timeout", "token: " << (vs_now_ns() - t0) / 1000 << " us of " << ms << " ms");
				}
				break;
			}
			VH_CHECK(inside == -1, "condition:relock", "after the wait of " << me << ": held by " << inside);
			inside = me;
			return goOn;
		};
		{
			vs::Threads th, pr;
			for (int c = 0; c < nc; ++c)
				th.Add([&, c]()
				{
					vh::Rng& g = rngs[c];
					for (;;)
					{
						MutexLock l(m); VH_CHECK(inside == -1, "condition:exclusion", inside); inside = c;
						bool goOn = true;
						while (queue.empty() && !done && goOn) goOn = wait(full, c, g, true);
						if (queue.empty()) { inside = -1; return; }
						got[c].push_back(queue.front()); queue.erase(queue.begin());
						empty.Broadcast();
						inside = -1;
					}
				});
			for (int p = 0; p < np; ++p)
				pr.Add([&, p]()
				{
					vh::Rng& g = rngs[nc + p];
					for (int i = 0; i < per; ++i)
					{
						vs::Pause(g);
						MutexLock l(m); VH_CHECK(inside == -1, "condition:exclusion", inside); inside = nc + p;
						while ((int)queue.size() >= cap) wait(empty, nc + p, g, false);
						queue.push_back(p * 100 + i);
						full.Broadcast();
						inside = -1;
					}
				});
			pr.Join();
			if (useStop) { for (int c = 0; c < nc; ++c) stops[c].Cancel(); }
			else { MutexLock l(m); done = true; full.Broadcast(); }
		}
		vs_spurious(0);
		std::vector<int> all, want;
		for (int c = 0; c < nc; ++c)
		{
			std::map<int, int> last;
			for (int v : got[c]) { VH_CHECK(!last.count(v / 100) || last[v / 100] < v, "condition:order", v); last[v / 100] = v; all.push_back(v); }
		}
		for (int v : queue) all.push_back(v);
		for (int p = 0; p < np; ++p) for (int i = 0; i < per; ++i) want.push_back(p * 100 + i);
		std::sort(all.begin(), all.end());
		VH_CHECK(all == want, "condition:conservation", all.size() << " of " << want.size());
		if (!useStop) VH_CHECK(queue.empty(), "condition:left", queue.size());
	}
}

// ---------------------------------------------------------------- once
namespace {
	const int Types = 160;                   // fresh types per process
	struct Ctx { bool throws = false; std::atomic<int> made{0}, gone{0}, entered{0}; vh::Rng* rng = 0; bool pause = false; };
	Ctx Ctxs[3][Types];

	template < int Kind, int N >
	struct Inst
	{
		int a, b;
		Inst() : a(0), b(0)
		{
			Ctx& c = Ctxs[Kind][N];
			++c.entered;
			a = 1;
			if (c.pause) for (int i = 0; i < 3; ++i) vs_yield();
			if (c.throws) { c.throws = Kind != 2; throw std::runtime_error("refused"); }
			b = 1;
			++c.made;
		}
		~Inst() { ++Ctxs[Kind][N].gone; a = b = 0; }
	};
	template < int N > struct Single : public Singleton<Single<N> >, Inst<0, N> { };
	template < int N > struct Safe : Inst<1, N> { };
	template < int N > struct Phoenix : Inst<2, N> { };

	struct Entry
	{
		const void* (*single)(bool& whole); bool (*singleAlive)();
		const void* (*safe)(bool& whole, std::shared_ptr<void>& keep);
		const void* (*phoenix)(bool& whole);
	};
	template < int N > struct Access
	{
		static const void* S(bool& whole) { Single<N>& i = Single<N>::Instance(); whole = i.a == 1 && i.b == 1; return &i; }
		static bool A() { return Single<N>::IsAlive(); }
		static const void* F(bool& whole, std::shared_ptr<void>& keep)
		{
			shared_ptr<Safe<N> > p = SafeSingleton<Safe<N> >::Instance();
			if (!p) return 0;
			whole = p->a == 1 && p->b == 1;
			keep = std::make_shared<shared_ptr<Safe<N> > >(p);
			return p.get();
		}
		static const void* P(bool& whole) { Phoenix<N>& i = PhoenixSingleton<Phoenix<N> >::Instance(); whole = i.a == 1 && i.b == 1; return &i; }
		static Entry Make() { Entry e = { &S, &A, &F, &P }; return e; }
	};
	Entry Entries[Types];
	template < int N > struct Fill { static void Do() { Entries[N - 1] = Access<N - 1>::Make(); Fill<N - 1>::Do(); } };
	template < > struct Fill<0> { static void Do() { } };
	int NextType = 0;

	Ctx* OnceCtx; void OnceFunc() { Ctx& c = *OnceCtx; ++c.entered; if (c.pause) for (int i = 0; i < 3; ++i) vs_yield(); ++c.made; }

	void Once(vh::Rng& rng)
	{
		Silent q;
		const int nt = (int)rng.Range(2, 4);
		// call_once
		{
			STINGRAYKIT_DEFINE_ONCE_FLAG(flag);
			Ctx c; c.pause = rng.Chance(2, 3); OnceCtx = &c;
			int plain = 0;
			std::vector<vh::Rng> rngs; for (int i = 0; i < nt; ++i) rngs.push_back(vh::Rng(rng.Next()));
			vs::Threads th;
			for (int t = 0; t < nt; ++t)
				th.Add([&, t]()
				{
					for (int i = (int)rngs[t].Range(1, 2); i > 0; --i)
					{
						vs::Pause(rngs[t]);
						call_once(flag, &OnceFunc);
						VH_CHECK(c.made == 1 && c.entered == 1, "once:call-once", c.entered << " calls, " << c.made << " finished");
						(void)plain;
					}
				});
			th.Join();
			VH_CHECK(c.entered == 1, "once:call-once", c.entered << " calls");
		}
		if (!Entries[0].single) Fill<Types>::Do();
		if (NextType >= Types) return;
		const int n = NextType++;
		const int kind = (int)rng.Below(3);
		Ctx& c = Ctxs[kind][n];
		c.pause = rng.Chance(2, 3);
		c.throws = rng.Chance(1, 4);
		const bool throws = c.throws;
		std::vector<vh::Rng> rngs; for (int i = 0; i < nt; ++i) rngs.push_back(vh::Rng(rng.Next()));
		std::atomic<int> failed(0); std::atomic<int> ok(0); std::vector<std::set<const void*> > seen(nt);
		std::atomic<bool> answered(false);
		{
			vs::Threads th;
			for (int t = 0; t < nt; ++t)
				th.Add([&, t]()
				{
					for (int i = (int)rngs[t].Range(1, 3); i > 0; --i)
					{
						vs::Pause(rngs[t]);
						bool whole = true; const void* p = 0; std::shared_ptr<void> keep;
						try
						{
							if (kind == 0)
							{
								if (answered && rngs[t].Bool()) { const bool alive = Entries[n].singleAlive(); VH_CHECK(alive == !throws, "once:alive", alive << " after an instance was " << (throws ? "refused" : "returned")); }
								p = Entries[n].single(whole);
							}
							else if (kind == 1) p = Entries[n].safe(whole, keep);
							else p = Entries[n].phoenix(whole);
						}
						catch (const std::exception&) { p = 0; }
						if (p) { ++ok; seen[t].insert(p); VH_CHECK(whole, "once:half-built", "kind " << kind); }
						else ++failed;
						answered = true;
					}
				});
		}
		std::set<const void*> all; for (auto& s : seen) all.insert(s.begin(), s.end());
		std::ostringstream ctx; ctx << "kind " << kind << " throws " << throws << ": " << c.entered << " constructors entered, " << c.made << " finished, " << c.gone << " destroyed, " << ok << " answers, " << failed << " refusals, " << all.size() << " instances";
		VH_CHECK(all.size() <= 1, "once:instances", ctx.str());
		if (!throws) VH_CHECK(c.entered == 1 && c.made == 1 && failed == 0, "once:constructed", ctx.str());
		else if (kind == 2) VH_CHECK(c.entered == 1 + c.made && c.made <= 1 && failed == 1 && (c.made == 1) == (ok > 0), "once:retried", ctx.str());
		else VH_CHECK(c.entered == 1 && c.made == 0 && ok == 0, "once:refused", ctx.str());
		VH_CHECK(c.gone == 0, "once:destroyed", ctx.str());
		vh_count("fresh_singletons", 1);
	}
}

// ---------------------------------------------------------------- atomics
namespace {
	enum { OpLoad, OpStore, OpAdd, OpSub, OpCas, OpInc, OpDec };
	struct AOp { int kind; s64 a, b, ret; uint32_t start, end; };

	// is there one order of the operations, consistent with their real times, in which each returns what it returned?
	bool Linearizable(const std::vector<AOp>& ops, s64 init, s64 (*wrap)(s64), std::set<std::pair<u32, s64> >& dead, u32 mask, s64 state)
	{
		const u32 full = (1u << ops.size()) - 1;
		if (mask == full) return true;
		if (dead.count(std::make_pair(mask, state))) return false;
		uint32_t minEnd = ~0u;
		for (size_t i = 0; i < ops.size(); ++i) if (!(mask & (1u << i))) minEnd = std::min(minEnd, ops[i].end);
		for (size_t i = 0; i < ops.size(); ++i)
		{
			if (mask & (1u << i)) continue;
			const AOp& o = ops[i];
			if (o.start > minEnd) continue;
			s64 next = state; bool ok = true;
			switch (o.kind)
			{
			case OpLoad: ok = o.ret == state; break;
			case OpStore: next = o.a; break;
			case OpAdd: ok = o.ret == state; next = wrap(state + o.a); break;          // fetch_add
			case OpSub: ok = o.ret == state; next = wrap(state - o.a); break;
			case OpInc: next = wrap(state + 1); ok = o.ret == next; break;
			case OpDec: next = wrap(state - 1); ok = o.ret == next; break;
			case OpCas: ok = o.ret == state; if (state == o.a) next = o.b; break;
			}
			if (ok && Linearizable(ops, init, wrap, dead, mask | (1u << i), next)) return true;
		}
		dead.insert(std::make_pair(mask, state));
		return false;
	}
	template < typename T > s64 Wrap(s64 v) { return (s64)(T)v; }

	struct Level { STINGRAYKIT_ENUM_VALUES(A, B, C, D); STINGRAYKIT_DECLARE_ENUM_CLASS(Level); };
	struct Wide { s64 v; std::string text; Wide(s64 x = 0) : v(x), text(std::to_string(x) + " as a long text, not a short one") { } };

	template < typename T > struct ViaAtomic
	{
		atomic<T> v; explicit ViaAtomic(s64 i) : v((T)i) { }
		s64 Do(vh::Rng& g, AOp& o)
		{
			switch (o.kind)
			{
			case OpLoad: return g.Bool() ? (s64)v.load() : (s64)(T)v;
			case OpStore: if (g.Bool()) v.store((T)o.a); else { const T r = v = (T)o.a; VH_CHECK(r == (T)o.a, "atomic:assign", (s64)r); } return 0;
			case OpAdd: if (o.a == 1 && g.Bool()) return (s64)(T)v++; return (s64)v.fetch_add((T)o.a);
			case OpSub: if (o.a == 1 && g.Bool()) return (s64)(T)v--; return (s64)v.fetch_sub((T)o.a);
			case OpInc: return (s64)++v;
			case OpDec: return (s64)--v;
			default: o.kind = OpLoad; return (s64)v.load();
			}
		}
	};
	template < typename T > struct ViaBasic
	{
		typedef BasicAtomicInt<T> B; typename B::Type v; explicit ViaBasic(s64 i) : v((T)i) { }
		s64 Do(vh::Rng&, AOp& o)
		{
			switch (o.kind)
			{
			case OpLoad: return (s64)B::Load(v);
			case OpStore: B::Store(v, (T)o.a); return 0;
			case OpAdd: return Wrap<T>((s64)B::Add(v, (T)o.a) - o.a);
			case OpSub: return Wrap<T>((s64)B::Sub(v, (T)o.a) + o.a);
			case OpInc: return (s64)B::Inc(v);
			case OpDec: return (s64)B::Dec(v);
			default: return (s64)B::CompareAndExchange(v, (T)o.a, (T)o.b);
			}
		}
	};
	struct ViaBool { atomic<bool> v; explicit ViaBool(s64 i) : v(i != 0) { } s64 Do(vh::Rng&, AOp& o) { if (o.kind == OpStore) { o.a &= 1; v.store(o.a != 0); return 0; } o.kind = OpLoad; return v.load(); } };
	struct ViaEnum { atomic<Level> v; explicit ViaEnum(s64 i) : v(Level((Level::Enum)i)) { } s64 Do(vh::Rng&, AOp& o) { if (o.kind == OpStore) { o.a &= 3; v.store((Level::Enum)o.a); return 0; } o.kind = OpLoad; return v.load().val(); } };
	struct ViaWide
	{
		atomic<Wide> v; explicit ViaWide(s64 i) : v(Wide(i)) { }
		s64 Do(vh::Rng& g, AOp& o)
		{
			if (o.kind == OpStore) { if (g.Bool()) v = Wide(o.a); else v.store(Wide(o.a)); return 0; }
			o.kind = OpLoad; const Wide w = v.load();
			VH_CHECK(w.text == Wide(w.v).text, "atomic:torn", w.v << " with " << w.text);
			return w.v;
		}
	};

	template < typename V > void RunAtomic(vh::Rng& rng, const char* name, s64 init, s64 lo, s64 hi, s64 (*wrap)(s64))
	{
		const int nt = (int)rng.Range(2, 3), per = (int)rng.Range(1, 4);
		V v(init);
		std::vector<std::vector<AOp> > ops(nt);
		std::vector<vh::Rng> rngs; for (int i = 0; i < nt; ++i) rngs.push_back(vh::Rng(rng.Next()));
		{
			vs::Threads th;
			for (int t = 0; t < nt; ++t)
				th.Add([&, t]()
				{
					vh::Rng& g = rngs[t];
					for (int i = 0; i < per; ++i)
					{
						AOp o = { (int)g.Below(7), g.Chance(1, 3) ? 1 : g.Range(lo, hi), g.Range(lo, hi), 0, 0, 0 };
						o.a = wrap(o.a); o.b = wrap(o.b);
						vs::Pause(g);
						o.start = vh_log(1, t, i, o.kind);
						o.ret = v.Do(g, o);
						o.end = vh_log(2, t, i, o.kind);
						ops[t].push_back(o);
					}
				});
		}
		std::vector<AOp> all; for (auto& x : ops) all.insert(all.end(), x.begin(), x.end());
		AOp last = { OpLoad, 0, 0, 0, ~0u - 1, ~0u };
		last.ret = v.Do(rng, last); all.push_back(last);
		std::set<std::pair<u32, s64> > dead;
		std::ostringstream ctx; ctx << name << " from " << init << ":";
		static const char* names[] = { "load", "store", "add", "sub", "cas", "inc", "dec" };
		for (const AOp& o : all) ctx << " [" << o.start << "-" << o.end << "] " << names[o.kind] << "(" << o.a << "," << o.b << ")=" << o.ret;
		VH_CHECK(Linearizable(all, init, wrap, dead, 0, init), "atomic:linearizable", ctx.str());
		vh_count("atomic_operations", all.size());
	}

	s64 Id(s64 v) { return v; }
	void Atomics(vh::Rng& rng)
	{
		Quiet q; vh_log_clear();
		switch (rng.Below(12))
		{
		case 0: RunAtomic<ViaAtomic<u32> >(rng, "atomic<u32>", 4294967294u, 0, 3, &Wrap<u32>); break;
		case 1: RunAtomic<ViaAtomic<s32> >(rng, "atomic<s32>", 0, -2, 2, &Wrap<s32>); break;
		case 2: RunAtomic<ViaAtomic<s64> >(rng, "atomic<s64>", 1ll << 40, -2, 2, &Id); break;
		case 3: RunAtomic<ViaAtomic<u8> >(rng, "atomic<u8>", 254, 0, 3, &Wrap<u8>); break;
		case 4: RunAtomic<ViaAtomic<u16> >(rng, "atomic<u16>", 65534, 0, 3, &Wrap<u16>); break;
		case 5: RunAtomic<ViaBasic<u32> >(rng, "AtomicU32", 1, 0, 2, &Wrap<u32>); break;
		case 6: RunAtomic<ViaBasic<s32> >(rng, "AtomicS32", 0, -1, 1, &Wrap<s32>); break;
		case 7: RunAtomic<ViaBasic<s64> >(rng, "AtomicS64", -1, -1, 1, &Id); break;
		case 8: RunAtomic<ViaBasic<u64> >(rng, "AtomicU64", 1, 0, 2, &Id); break;
		case 9: RunAtomic<ViaBool>(rng, "atomic<bool>", (s64)rng.Below(2), 0, 1, &Id); break;
		case 10: RunAtomic<ViaEnum>(rng, "atomic<enum>", (s64)rng.Below(4), 0, 3, &Id); break;
		default: RunAtomic<ViaWide>(rng, "atomic<struct>", (s64)rng.Below(4), 0, 9, &Id); break;
		}
		vh_distinct("atomic_histories", vh_log_hash());
	}
}

// ---------------------------------------------------------------- threads and thread-local values
namespace {
	std::atomic<int> LocalsMade, LocalsGone, LateNames;
	struct Local
	{
		int value; u64 magic;
		Local() : value(0), magic(0x1234567812345678ull) { ++LocalsMade; }
		~Local()
		{
			if (magic != 0x1234567812345678ull) vh_violation("thread-local:destroyed-twice", "");
			++LocalsGone; magic = 0;
			const std::string name = Thread::GetCurrentThreadName(); LateNames += (int)name.size(); Mutex m; MutexLock l(m);     // values may use the library in their destructors
		}
	};
	STINGRAYKIT_DECLARE_THREAD_LOCAL(Local, TheLocal);
	STINGRAYKIT_DEFINE_THREAD_LOCAL(Local, TheLocal);
	STINGRAYKIT_DECLARE_THREAD_LOCAL(std::vector<int>, OtherLocal);
	STINGRAYKIT_DEFINE_THREAD_LOCAL(std::vector<int>, OtherLocal);

	struct Body
	{
		int mode; s64 timeout; bool throws; std::string name; u64 id = 0; int started = 0, finished = 0; u64 created = 0, began = 0, ended = 0; bool cancelled = false, timedOut = false; vh::Rng rng; bool useLocal; bool rename; bool sawInfo = true;
		Body(int m, s64 t, bool th, const std::string& n, u64 seed, bool l, bool r) : mode(m), timeout(t), throws(th), name(n), rng(seed), useLocal(l), rename(r) { }
		void Run(const ICancellationToken& token)
		{
			++started;
			id = Thread::GetCurrentThreadId();
			VH_CHECK(Thread::GetCurrentThreadName() == name, "thread:name", Thread::GetCurrentThreadName() << " instead of " << name);
			const IThreadInfoPtr info = Thread::GetCurrentThreadInfo();
			VH_CHECK(info && info->GetName() == name, "thread:info", "");
			if (useLocal) { VH_CHECK(TheLocal::Get().value == 0, "thread-local:fresh", TheLocal::Get().value); TheLocal::Get().value = 7; OtherLocal::Get().push_back(3); }
			began = vs_now_ns();
			switch (mode)
			{
			case 0: vs::Pause(rng); break;
			case 1: while (token) token.Sleep(null); break;
			case 2: { Mutex m; ConditionVariable cv; MutexLock l(m); while (token) cv.Wait(m, token); } break;
			default: token.Sleep(Ms(rng.Below(5))); break;
			}
			ended = vs_now_ns();
			cancelled = token.IsCancelled(); timedOut = token.IsTimedOut();
			if (rename) { Thread::SetCurrentThreadName("renamed"); VH_CHECK(Thread::GetCurrentThreadName() == "renamed" && info->GetName() == "renamed", "thread:rename", Thread::GetCurrentThreadName()); }
			if (useLocal) { VH_CHECK(TheLocal::Get().value == 7 && OtherLocal::Get().size() == 1, "thread-local:own", TheLocal::Get().value); }
			++finished;
			if (throws) throw std::runtime_error("thrown out of a thread");
		}
	};

	void ThreadsScenario(vh::Rng& rng)
	{
		Silent q;
		LocalsMade = LocalsGone = 0;
		const int n = (int)rng.Range(1, 3);
		std::vector<std::unique_ptr<Body> > bodies;
		std::vector<std::unique_ptr<Thread> > threads;
		for (int i = 0; i < n; ++i)
		{
			const bool timed = rng.Chance(1, 3);
			std::string name; for (int k = (int)rng.Range(1, 24); k > 0; --k) name += (char)('a' + rng.Below(26));
			bodies.push_back(std::unique_ptr<Body>(new Body((int)rng.Below(4), timed ? (s64)rng.Below(30) : -1, rng.Chance(1, 5), name, rng.Next(), rng.Bool(), rng.Chance(1, 4))));
			Body* b = bodies.back().get();
			b->created = vs_now_ns();
			threads.push_back(std::unique_ptr<Thread>(new Thread(name, sk::F<void (const ICancellationToken&)>([b](const ICancellationToken& t) { b->Run(t); }), timed ? optional<TimeDuration>(Ms(b->timeout)) : null)));
			vs::Pause(rng);
		}
		if (rng.Chance(1, 8))
		{
			const ThreadStatsVector stats = Thread::GetStats();
			std::set<u64> ids; for (const ThreadStats& s : stats) VH_CHECK(ids.insert(s.GetThreadId()).second, "thread:stats", "listed twice");
			VH_CHECK(ids.count(Thread::GetCurrentThreadId()), "thread:stats", "the caller is not listed");
		}
		if (rng.Chance(1, 3)) vs_advance_ns(1000000 * rng.Below(40));
		std::vector<u64> ids;
		for (int i = 0; i < n; ++i) ids.push_back(threads[i]->GetId());
		VH_CHECK(std::set<u64>(ids.begin(), ids.end()).size() == (size_t)n, "thread:ids", "two running threads with one id");
		for (int i = 0; i < n; ++i)
		{
			const int k = rng.Bool() ? i : i;
			const u64 t0 = vs_now_ns();
			threads[k].reset();
			Body& b = *bodies[k];
			std::ostringstream ctx; ctx << "mode " << b.mode << " timeout " << b.timeout << " started " << b.started << " finished " << b.finished << " cancelled " << b.cancelled << " timed out " << b.timedOut;
			VH_CHECK(b.started == 1 && b.finished == 1, "thread:ran-once", ctx.str());
			VH_CHECK(b.id == ids[k], "thread:id", b.id << " and " << ids[k]);
			if (b.mode == 1 || b.mode == 2)
			{
				VH_CHECK(b.cancelled || b.timedOut, "thread:left-early", ctx.str());
				if (b.timedOut && !b.cancelled) VH_CHECK(b.timeout >= 0 && b.ended + 200000 >= b.created + (u64)b.timeout * 1000000, "thread:timed-out-early", ctx.str());
				if (b.cancelled) VH_CHECK(b.ended + 1000000 >= t0 || b.timedOut, "thread:cancelled-before-the-end", ctx.str());
			}
			if (b.cancelled) VH_CHECK(b.ended >= t0 || b.mode == 0 || b.mode == 3 || b.timedOut, "thread:cancelled-before-the-end", ctx.str());
		}
		VH_CHECK(LocalsMade == LocalsGone, "thread-local:balance", LocalsMade << " made, " << LocalsGone << " destroyed");
		int want = 0; for (auto& b : bodies) want += b->useLocal;
		VH_CHECK(LocalsMade == want, "thread-local:count", LocalsMade << " made by " << want << " threads");
		vh_count("library_threads", n);
	}
}

VH_SCHED_SCENARIO(lock_programs) { Locks(rng); }
VH_SCHED_SCENARIO(semaphore_programs) { Semaphores(rng); }
VH_SCHED_SCENARIO(barrier_rounds) { Barriers(rng); }
VH_SCHED_SCENARIO(condition_programs) { Conditions(rng); }
VH_SCHED_SCENARIO(once_programs) { Once(rng); }
VH_SCHED_SCENARIO(atomic_programs) { Atomics(rng); }
VH_SCHED_SCENARIO(thread_programs) { ThreadsScenario(rng); }
VH_FREE_SCENARIO(free_threads) { vs_noise(30, 20); Locks(rng); Barriers(rng); Conditions(rng); Once(rng); Atomics(rng); ThreadsScenario(rng); vs_noise(0, 0); }

// ---------------------------------------------------------------- one thread
namespace {
	template < typename T > void Arithmetic(vh::Rng& rng, const char* name)
	{
		atomic<T> a((T)rng.Interesting()); T m = a.load();
		typename BasicAtomicInt<T>::Type raw = m;
		for (int i = 0; i < 12; ++i)
		{
			T x = (T)rng.Interesting(), r = 0, want = 0, rb = 0, wantb = 0;
			if (std::numeric_limits<T>::is_signed) x = (T)(x % 100);                              // no overflow of signed types
			if (std::numeric_limits<T>::is_signed && ((s64)m > (s64)std::numeric_limits<T>::max() - 200 || (s64)m < (s64)std::numeric_limits<T>::min() + 200)) { a.store((T)5); BasicAtomicInt<T>::Store(raw, (T)5); m = 5; }
			switch (rng.Below(9))
			{
			case 0: want = m; r = a.fetch_add(x); m = (T)(m + x); rb = BasicAtomicInt<T>::Add(raw, x); wantb = m; break;
			case 1: want = m; r = a.fetch_sub(x); m = (T)(m - x); rb = BasicAtomicInt<T>::Sub(raw, x); wantb = m; break;
			case 2: want = (T)(m + 1); r = ++a; m = want; rb = BasicAtomicInt<T>::Inc(raw); wantb = m; break;
			case 3: want = m; r = a++; m = (T)(m + 1); rb = BasicAtomicInt<T>::Inc(raw); wantb = m; break;
			case 4: want = (T)(m - 1); r = --a; m = want; rb = BasicAtomicInt<T>::Dec(raw); wantb = m; break;
			case 5: want = m; r = a--; m = (T)(m - 1); rb = BasicAtomicInt<T>::Dec(raw); wantb = m; break;
			case 6: want = x; r = (a = x); m = x; BasicAtomicInt<T>::Store(raw, x); rb = BasicAtomicInt<T>::Load(raw); wantb = x; break;
			case 7: want = m; r = a.load(); rb = BasicAtomicInt<T>::CompareAndExchange(raw, m, x); wantb = m; a.store(x); m = x; break;
			default: want = m; r = a; rb = BasicAtomicInt<T>::CompareAndExchange(raw, (T)(m + 1), x); wantb = m; break;
			}
			VH_CHECK(r == want && a.load() == m && rb == wantb && BasicAtomicInt<T>::Load(raw) == m, "atomic:arithmetic", name << ": " << (s64)r << " instead of " << (s64)want << ", " << (s64)rb << " instead of " << (s64)wantb << ", value " << (s64)a.load() << " and " << (s64)raw << " instead of " << (s64)m);
		}
	}

	struct CountSink : public ILoggerSink { int n = 0; void Log(const LoggerMessage&) override { ++n; } };

	void Operations(vh::Rng& rng, int allowed, int depth, CountSink& sink)
	{
		for (int i = 0; i < 3; ++i)
		{
			const int op = 1 << rng.Below(3);
			if (rng.Chance(1, 3) && depth < 4)
			{
				const int more = 1 + (int)rng.Below(7);
				ThreadOperationConstrainer c((ThreadOperation::Enum)more);
				Operations(rng, allowed & ~more, depth + 1, sink);
			}
			else
			{
				const int before = sink.n;
				{ ThreadOperationReporter r((ThreadOperation::Enum)op); }
				VH_CHECK((sink.n - before) == ((allowed & op) ? 0 : 1), "operations:reported", "operation " << op << " of allowed " << allowed << ": " << sink.n - before << " reports");
			}
		}
	}

	std::string Guards(vh::Rng& rng, std::vector<std::pair<bool, std::string> >& stack, int depth)
	{
		static const char* names[] = { "alpha", "beta", "gamma" };
		auto check = [&]()
		{
			std::string want;
			if (stack.empty()) want = "<external API guard stack empty>";
			else { want = stack.back().first ? "in external API: " : "in stingray: "; for (size_t i = 0; i < stack.size(); ++i) want += (i ? " -> " : "") + stack[i].second; }
			VH_CHECK(ExternalAPIGuards::GetLocation() == want, "guards:location", ExternalAPIGuards::GetLocation() << " instead of " << want);
		};
		check();
		for (int i = 0; i < 2 && depth < 4; ++i)
		{
			const char* n = names[rng.Below(3)];
			if (rng.Bool()) { ExternalAPIGuards::EnterGuard g(n); stack.push_back(std::make_pair(true, std::string(n))); Guards(rng, stack, depth + 1); stack.pop_back(); }
			else { ExternalAPIGuards::LeaveGuard g(n); stack.push_back(std::make_pair(false, std::string(n))); Guards(rng, stack, depth + 1); stack.pop_back(); }
			check();
		}
		return "";
	}
}

VH_SCENARIO(thread_basics)
{
	Arithmetic<u8>(rng, "u8"); Arithmetic<s8>(rng, "s8"); Arithmetic<u16>(rng, "u16"); Arithmetic<s16>(rng, "s16");
	Arithmetic<u32>(rng, "u32"); Arithmetic<s32>(rng, "s32"); Arithmetic<u64>(rng, "u64"); Arithmetic<s64>(rng, "s64");
	if (rng.Chance(1, 10))
	{
		Mutex m; bool thrown = false;
		try { m.Unlock(); } catch (const std::exception&) { thrown = true; }
		VH_CHECK(thrown, "mutex:unlock-of-unlocked", "accepted");
		const int n = (int)rng.Range(1, 5);
		for (int i = 0; i < n; ++i) m.Lock();
		for (int i = 0; i < n; ++i) m.Unlock();
		thrown = false; try { m.Unlock(); } catch (const std::exception&) { thrown = true; }
		VH_CHECK(thrown, "mutex:unlock-of-unlocked", "accepted after " << n << " levels");
	}
	if (rng.Chance(1, 5)) { std::vector<std::pair<bool, std::string> > s; Guards(rng, s, 0); }
	if (rng.Chance(1, 20))
	{
		shared_ptr<CountSink> sink = make_shared_ptr<CountSink>();
		Token t = Logger::AddSink(sink);
		Operations(rng, 7, 0, *sink);
	}
}

// Exit of a process: single ones are destroyed once, and do not come back; the references to safe ones keep them; phoenixes return.
namespace {
	std::shared_ptr<void> ExitKeep; bool ExitWithRef; int ExitType; int ExitPipe;
	struct ExitCtx { int made[3]; };
	void ExitReport(int code) { _exit(code); }
	void AtExitEarly()
	{
		// runs after the destruction of everything created after it was registered
		const int n = ExitType;
		int code = 0;
		bool whole = true; bool thrown = false;
		if (Entries[n].singleAlive()) code = 1;
		try { Entries[n].single(whole); } catch (const std::exception&) { thrown = true; }
		if (!code && !thrown) code = 2;
		if (!code && (Ctxs[0][n].made != 1 || Ctxs[0][n].gone != 1)) code = 3;
		std::shared_ptr<void> keep;
		if (!code && Entries[n].safe(whole, keep) != 0 && !ExitWithRef) code = 4;
		keep.reset();
		if (!code && ExitWithRef && Ctxs[1][n].gone != 0) code = 5;
		ExitKeep.reset();
		if (!code && (Ctxs[1][n].made != 1 || Ctxs[1][n].gone != 1)) code = 6;
		if (!code && Entries[n].safe(whole, keep) != 0) code = 7;
		if (!code && (Ctxs[2][n].made != 1 || Ctxs[2][n].gone != 1)) code = 8;
		if (!code && (Entries[n].phoenix(whole) == 0 || !whole || Ctxs[2][n].made != 2)) code = 9;
		ExitReport(code ? 40 + code : 40);
	}
}
VH_SCENARIO(process_exit)
{
	if (!Entries[0].single) Fill<Types>::Do();
	const int n = (int)rng.Below(Types);
	const bool ref = rng.Bool(); const int order = (int)rng.Below(6);
	fflush(0);
	const pid_t pid = fork();
	if (pid == 0)
	{
		Logger::SetLogLevel((LogLevel::Enum)(LogLevel::Error + 1));
		ExitType = n; ExitWithRef = ref;
		atexit(&AtExitEarly);
		bool whole = true; std::shared_ptr<void> keep;
		for (int i = 0; i < 3; ++i)
			switch ((order + i * (order < 3 ? 1 : 2)) % 3)
			{
			case 0: Entries[n].single(whole); break;
			case 1: Entries[n].safe(whole, keep); if (ref) ExitKeep = keep; keep.reset(); break;
			default: Entries[n].phoenix(whole); break;
			}
		exit(0);
	}
	int status = 0; waitpid(pid, &status, 0);
	static const char* what[] = { "ok", "the singleton is alive after its end", "a destroyed singleton was returned", "the singleton was not destroyed exactly once", "a safe singleton without references was returned after its end", "a referenced safe singleton was destroyed", "the safe singleton was not destroyed exactly once", "a destroyed safe singleton was returned", "the phoenix was not destroyed exactly once", "the phoenix did not return" };
	const int code = WIFEXITED(status) ? WEXITSTATUS(status) : -1;
	VH_CHECK(code == 40, "exit:singletons", (code > 40 && code < 50 ? what[code - 40] : "the process ended in another way") << " (status " << status << ", reference kept " << ref << ")");
	vh_count("process_exits", 1);
}
