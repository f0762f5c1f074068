// C05: thread pool. Monitors: exactly-once and concurrency bound over start/end events; blocked-task programs in which a task that
// has to wait for an unrelated one shows as a deadlock; thread census.
#include "vsx.h"
#include "sk.h"
#include <stingraykit/thread/ThreadPool.h>
#include <stingraykit/thread/TaskLifeToken.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <stingraykit/function/CancellableFunction.h>
#include <map>
#include <set>

using namespace stingray;

namespace {
	enum { TryCall = 1, TryRet, Start, End, DtorCall, DtorRet, Thrown, Handled };
	const char* const Names[] = { "?", "try", "try-ret", "start", "end", "dtor", "dtor-ret", "thrown", "handled" };
	void Handle(const std::exception& ex)
	{ vh_log(Handled, 0, 0, 0); VH_CHECK(std::string(ex.what()) == "task failure", "pool:foreign-exception", ex.what()); }

	void CheckTrace(size_t maxThreads, bool drained, bool countThreads)
	{
		std::map<int64_t, int> starts, accepted, ended;
		std::set<uint32_t> threads;
		size_t running = 0; int thrown = 0, handled = 0;
		bool dead = false;
		for (uint32_t i = 0; i < vh_log_size(); ++i)
		{
			const vh_event& e = *vh_log_at(i);
			switch (e.type)
			{
			case TryRet: accepted[e.a] = (int)e.b; break;
			case Start:
				++starts[e.a]; ++running; threads.insert(e.thread);
				VH_CHECK(running <= maxThreads, "pool:too-many-running", running << " tasks run at once in a pool of " << maxThreads << vs::DumpLog(Names));
				VH_CHECK(!dead, "pool:started-after-destruction", "task " << e.a);
				vh_max("tasks_running_at_once", running);
				break;
			case End: --running; ++ended[e.a]; break;
			case DtorRet: dead = true; VH_CHECK(running == 0, "pool:running-after-destruction", running << " tasks still running" << vs::DumpLog(Names)); break;
			case Thrown: ++thrown; break;
			case Handled: ++handled; break;
			}
		}
		for (auto& a : accepted)
			VH_CHECK(a.second ? (starts[a.first] == 1 || (!drained && starts[a.first] == 0)) : starts[a.first] == 0, "pool:count", "task " << a.first << (a.second ? " accepted" : " rejected") << " ran " << starts[a.first] << " times:" << vs::DumpLog(Names));
		VH_CHECK(thrown == handled, "pool:exceptions", thrown << " thrown, " << handled << " handled");
		if (countThreads)
			VH_CHECK(threads.size() <= maxThreads, "pool:threads-not-reused", threads.size() << " threads for a pool of " << maxThreads);
		vh_count("tasks_checked", accepted.size());
		vh_distinct("traces", vh_log_hash());
	}

	struct Prog
	{
		ThreadPool* pool; vs::Mutex m; int next; int left; vs::Event idle;
		bool nested;
		Prog() : pool(0), next(0), left(0), nested(true) { }
		void Done() { vs::Lock l(m); --left; }
		int Left() { vs::Lock l(m); return left; }

		bool Submit(vh::Rng& r, int depth, int how)
		{
			int id; { vs::Lock l(m); id = next++; ++left; }
			const uint64_t rs = r.Next();
			Prog* self = this;
			const function<void (const ICancellationToken&)> task = sk::F<void (const ICancellationToken&)>([self, id, rs, depth](const ICancellationToken& tok)
			{
				vh::Rng r2(rs);
				vh_log(Start, id, 0, 0);
				vs::Pause(r2);
				if (r2.Chance(1, 4)) vs_advance_ns(r2.Below(3) * 1000000);
				if (self->nested && depth < 2 && r2.Chance(1, 4)) self->Submit(r2, depth + 1, 0);
				const bool thrown = r2.Chance(1, 5);
				if (thrown) vh_log(Thrown, id, 0, 0);
				vh_log(End, id, 0, 0);
				self->Done();
				if (thrown) throw std::runtime_error("task failure");
			});
			bool ok = false;
			vh_log(TryCall, id, 0, 0);
			if (how == 0) ok = pool->TryQueue(task);
			else if (how == 1) { try { pool->Queue(task); ok = true; } catch (const std::exception&) { } }
			else { try { pool->WaitQueue(task, DummyCancellationToken()); ok = true; } catch (const std::exception&) { VH_CHECK(false, "pool:waitqueue-failed", "WaitQueue threw without cancellation"); } }
			vh_log(TryRet, id, ok, 0);
			if (!ok) Done();
			return ok;
		}
	};
}

static void PoolRandom(vh::Rng& rng)
{
	vh_log_clear();
	const size_t max = 1 + rng.Below(4);
	const bool idle = rng.Chance(1, 3);
	Prog p;
	std::unique_ptr<ThreadPool> pool(new ThreadPool("p", max, null, idle ? optional<TimeDuration>(TimeDuration(2)) : optional<TimeDuration>(), sk::F<void (const std::exception&)>(&Handle)));
	p.pool = pool.get();
	const bool drain = rng.Chance(2, 3);
	p.nested = drain;   // a task must not use the pool while it is being destroyed
	std::vector<uint64_t> seeds; for (int i = 0; i < 4; ++i) seeds.push_back(rng.Next());
	{
		vs::Threads th;
		for (int t = 0; t < 1 + (int)(seeds[3] % 3); ++t)
			th.Add([&, t]() { vh::Rng r(seeds[t]); for (int k = 0, n = 2 + r.Below(4); k < n; ++k) { p.Submit(r, 0, r.Below(3)); vs::Pause(r); if (idle && r.Chance(1, 3)) vs_advance_ns(3000000); } });
	}
	if (drain)
		for (int i = 0; i < 1000 && p.Left(); ++i) { vs_advance_ns(1000000); }
	if (drain) VH_CHECK(p.Left() == 0, "pool:task-never-ran", p.Left() << " accepted tasks did not run:" << vs::DumpLog(Names));
	vh_log(DtorCall, 0, 0, 0);
	pool.reset();
	vh_log(DtorRet, 0, 0, 0);
	CheckTrace(max, drain, !idle);
}
VH_SCHED_SCENARIO(pool_random) { PoolRandom(rng); }
VH_FREE_SCENARIO(free_pool_random) { vs_noise(30, 20); PoolRandom(rng); vs_noise(0, 0); }

// tasks block; free capacity must always be usable, exhausted capacity must be reported
VH_SCHED_SCENARIO(pool_blocked)
{
	const size_t max = 1 + rng.Below(4);
	const bool idle = rng.Chance(1, 3);
	ThreadPool pool("p", max, null, idle ? optional<TimeDuration>(TimeDuration(2)) : optional<TimeDuration>(), sk::F<void (const std::exception&)>([](const std::exception&) { }));
	struct T { vs::Event started, go, done; };
	std::vector<std::shared_ptr<T> > busy;
	for (unsigned step = 0, n = 4 + rng.Below(12); step < n; ++step)
	{
		if (idle && rng.Chance(1, 3)) vs_advance_ns(rng.Below(8) * 1000000);
		switch (rng.Below(4))
		{
		case 0: case 1:
			{
				std::shared_ptr<T> t(new T());
				const bool thrown = rng.Chance(1, 4);
				const function<void (const ICancellationToken&)> f = sk::F<void (const ICancellationToken&)>([t, thrown](const ICancellationToken&) { t->started.Set(); t->go.Wait(); t->done.Set(); if (thrown) throw std::runtime_error("task failure"); });
				const bool room = busy.size() < max;
				if (rng.Bool()) vs_settle();
				const bool can = pool.CanQueue();
				bool ok;
				const unsigned how = rng.Below(room ? 3 : 2);
				if (how == 0) ok = pool.TryQueue(f);
				else if (how == 1) try { pool.Queue(f); ok = true; } catch (const std::exception&) { ok = false; }
				else { pool.WaitQueue(f, DummyCancellationToken()); ok = true; }
				VH_CHECK(can == ok || !can, "pool:canqueue", "CanQueue said " << can << ", then queueing gave " << ok << " with " << busy.size() << " of " << max << " busy");
				VH_CHECK(room ? true : !ok, "pool:accepted-beyond-limit", busy.size() << " of " << max << " are busy and blocked but a task was accepted");
				if (ok)
				{
					t->started.Wait();   // waiting for an unrelated blocked task here is a deadlock
					vh_eval(1);
					busy.push_back(t);
					vh_max("tasks_blocked_at_once", busy.size());
				}
				else
				{
					vs_settle();
					VH_CHECK(!room || (vs_settle(), false), "pool:rejected-below-limit", "only " << busy.size() << " of " << max << " busy");
				}
				break;
			}
		case 2:
			if (!busy.empty())
			{
				const size_t i = rng.Below(busy.size());
				busy[i]->go.Set(); busy[i]->done.Wait(); vs_settle();
				busy.erase(busy.begin() + i);
			}
			break;
		case 3:
			if (busy.size() == max)
			{
				// queueing waits until a task finishes, or until it is cancelled
				const bool cancel = rng.Bool();
				CancellationToken tok; vs::Event ran; bool cancelled = false, timedout = false;
				std::unique_ptr<vs::Thread> th(new vs::Thread([&]()
				{
					try { pool.WaitQueue(sk::F<void (const ICancellationToken&)>([&](const ICancellationToken&) { ran.Set(); }), tok); }
					catch (const OperationCancelledException&) { cancelled = true; }
					catch (const TimeoutException&) { timedout = true; }
				}));
				vs::Pause(rng);
				if (rng.Bool()) vs_settle();
				VH_CHECK(!ran.IsSet(), "pool:accepted-beyond-limit", "WaitQueue ran a task in a full pool");
				if (cancel) tok.Cancel(); else { busy[0]->go.Set(); busy.erase(busy.begin()); }
				th->Join();
				VH_CHECK(cancelled == cancel && !timedout, "pool:waitqueue-result", "cancelled " << cancelled << " expected " << cancel);
				if (!cancel) ran.Wait();
				vs_settle();
			}
			break;
		}
	}
	for (size_t i = 0; i < busy.size(); ++i) busy[i]->go.Set();
	vh_count("tasks_checked", busy.size());
}

// destruction cancels the token given to the tasks and waits for them
VH_SCHED_SCENARIO(pool_destroy)
{
	const size_t max = 1 + rng.Below(3);
	std::unique_ptr<ThreadPool> pool(new ThreadPool("p", max, null, null, sk::F<void (const std::exception&)>([](const std::exception&) { })));
	vs::Mutex m; int running = 0, started = 0, accepted = 0, lifeRuns = 0;
	TaskLifeToken life;
	for (size_t i = 0; i < max; ++i)
		accepted += pool->TryQueue(sk::F<void (const ICancellationToken&)>([&](const ICancellationToken& tok)
		{ { vs::Lock l(m); ++running; ++started; } while (tok) vs_advance_ns(1000000); vs::Lock l(m); --running; }));
	const bool settled = rng.Bool();
	if (settled) vs_settle();
	if (settled) { vs::Lock l(m); VH_CHECK(started == accepted && accepted == (int)max, "pool:not-started", started << " of " << accepted << " started, pool size " << max); }
	life.Release();
	pool->TryQueue(MakeCancellableFunction(sk::F<void (const ICancellationToken&)>([&](const ICancellationToken&) { vs::Lock l(m); ++lifeRuns; }), life.GetExecutionTester()));
	pool.reset();
	vs::Lock l(m);
	VH_CHECK(running == 0, "pool:running-after-destruction", running << " tasks still running");
	VH_CHECK(lifeRuns == 0, "pool:released-token-ran", "");
	const int s = started; (void)s;
	vh_count("tasks_checked", started);
}

VH_SCENARIO(pool_arguments)
{
	bool threw = false;
	try { ThreadPool p("p", 0); } catch (const std::exception&) { threw = true; }
	VH_CHECK(threw, "pool:zero-size-accepted", "");
	ThreadPool p("p", 1 + rng.Below(3));   // default profiling
	vs::Event e;
	p.Queue(sk::F<void (const ICancellationToken&)>([&](const ICancellationToken&) { e.Set(); }));
	e.Wait();
	vh_eval(1);
}
