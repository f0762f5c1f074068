// C02: life tokens and connections. Monitor: enter/exit events of guarded callbacks against release call/return events,
// and a census of the objects the callbacks captured.
#include "vsx.h"
#include "sk.h"
#include <stingraykit/signal/signals.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>
#include <stingraykit/thread/ThreadlessTaskExecutor.h>
#include <stingraykit/thread/ThreadPool.h>
#include <stingraykit/thread/TaskLifeToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/function/CancellableFunction.h>
#include <stingraykit/function/AsyncFunction.h>
#include <stingraykit/timer/Timer.h>
#include <stingraykit/log/Logger.h>
#include <map>
#include <set>

using namespace stingray;

enum { Enter = 1, Exit, RelCall, RelRet, CapDead };
static const char* const Names[] = { "?", "enter", "exit", "release", "released", "captures-destroyed" };

namespace {
	struct Capture
	{
		int id; unsigned magic;
		explicit Capture(int i) : id(i), magic(0xC0FFEE) { }
		~Capture() { magic = 0; vh_log(CapDead, id, 0, 0); }
	};
	typedef std::shared_ptr<Capture> CapturePtr;

	struct Body
	{
		int id; CapturePtr cap; uint64_t rs; const char* kind; std::function<void ()> inside;
		void operator () () const
		{
			const int i = id; const char* k = kind;
			vh_log(Enter, i, 0, 0);
			VH_CHECK(cap->magic == 0xC0FFEE, std::string("token:capture-dead:") + k, "captured object of " << i << " is destroyed on entry");
			for (unsigned n = rs & 3; n; --n) vs_yield();
			if (inside) inside();
			for (unsigned n = (rs >> 2) & 3; n; --n) vs_yield();
			VH_CHECK(cap->magic == 0xC0FFEE && cap->id == i, std::string("token:capture-dead:") + k, "captured object of " << i << " is destroyed while the callback runs");
			vh_log(Exit, i, 0, 0);
			if ((rs >> 4) % 5 == 0) throw std::runtime_error("callback");
		}
	};
	function<void ()> MakeBody(vh::Rng& r, int id, const char* kind, const std::function<void ()>& inside = std::function<void ()>())
	{ Body b = { id, CapturePtr(new Capture(id)), r.Next(), kind, inside }; return sk::Task(b); }

	void CheckReleases(const char* kind)
	{
		struct R { uint32_t call, ret; uint32_t thread; };
		std::map<int64_t, R> rel;
		std::map<int64_t, std::vector<std::pair<uint32_t, uint32_t> > > open;   // id -> stack of (enter index, thread)
		const uint32_t n = vh_log_size();
		for (uint32_t i = 0; i < n; ++i)
		{
			const vh_event& e = *vh_log_at(i);
			switch (e.type)
			{
			case RelCall: rel[e.a] = R{ i, ~0u, e.thread }; break;
			case RelRet: rel[e.a].ret = i;
				for (auto& o : open[e.a])
					VH_CHECK(o.second == e.thread, std::string("token:running-after-release:") + kind, "callback " << e.a << " still runs when its release returned:" << vs::DumpLog(Names));
				break;
			case Enter:
				open[e.a].push_back(std::make_pair(i, e.thread));
				VH_CHECK(!rel.count(e.a) || rel[e.a].ret == ~0u, std::string("token:entered-after-release:") + kind, "callback " << e.a << " entered after its release returned:" << vs::DumpLog(Names));
				vh_count("callback_executions", 1);
				break;
			case Exit:
				{
					auto& o = open[e.a];
					for (size_t k = o.size(); k-- > 0; )
						if (o[k].second == e.thread) { o.erase(o.begin() + k); break; }
					break;
				}
			case CapDead:
				VH_CHECK(open[e.a].empty(), std::string("token:captures-destroyed-during-execution:") + kind, "callback " << e.a << ":" << vs::DumpLog(Names));
				break;
			}
		}
		vh_count("releases_checked", rel.size());
		vh_distinct("traces", vh_log_hash());
	}

	// Something that calls callbacks and gives a way to release each of them.
	struct Source
	{
		const char* Kind;
		std::function<void (int, const function<void ()>&)> Add;     // registers callback
		std::function<void (int)> Release;                           // releases it
		std::function<void (vh::Rng&)> Fire;                         // makes callbacks run (in this thread or another)
		std::function<void ()> Finish;                               // waits until nothing runs any more
		bool SelfReleaseWithoutSchedule;
	};

	void Ignore(const std::exception&) { }

	struct Sources
	{
		vs::Mutex m;
		std::map<int, Token> tokens;
		std::map<int, std::shared_ptr<TaskLifeToken> > life;
		std::map<int, std::shared_ptr<TaskLifeHolder> > holders;
		std::map<int, function<void ()> > funcs;
		shared_ptr<ThreadTaskExecutor> ex;
		std::unique_ptr<signal<void ()> > sig;
		std::unique_ptr<Timer> timer;
		std::unique_ptr<ThreadPool> pool;

		function<void ()> Get(int id) { vs::Lock l(m); auto i = funcs.find(id); return i == funcs.end() ? sk::Task([]() { }) : i->second; }
		int Any(vh::Rng& r) { vs::Lock l(m); if (funcs.empty()) return -1; auto i = funcs.begin(); std::advance(i, r.Below(funcs.size())); return i->first; }
		void ReleaseToken(int id) { Token t; { vs::Lock l(m); t = std::move(tokens[id]); tokens.erase(id); } t.Reset(); }
		void ReleaseLife(int id)
		{
			std::shared_ptr<TaskLifeToken> t; std::shared_ptr<TaskLifeHolder> h;
			{ vs::Lock l(m); auto i = life.find(id); if (i != life.end()) t = i->second; auto k = holders.find(id); if (k != holders.end()) h = k->second; }
			if (t) t->Release();
			if (h) h->Release();
		}
		FutureExecutionTester NewTester(int id)
		{
			vs::Lock l(m);
			if (id % 2) { life[id] = std::make_shared<TaskLifeToken>(); return life[id]->GetExecutionTester(); }
			holders[id] = std::make_shared<TaskLifeHolder>(); return holders[id]->GetExecutionTester();
		}

		Source Make(unsigned kind)
		{
			Source s; s.SelfReleaseWithoutSchedule = true;
			switch (kind)
			{
			case 0: // guarded function called directly
				s.Kind = "function";
				s.Add = [this](int id, const function<void ()>& f) { const function<void ()> g = MakeCancellableFunction(f, NewTester(id)); vs::Lock l(m); funcs.insert(std::make_pair(id, g)); };
				s.Release = [this](int id) { ReleaseLife(id); };
				s.Fire = [this](vh::Rng& r) { const int id = Any(r); if (id >= 0) try { Get(id)(); } catch (const std::exception&) { } };
				break;
			case 1: // synchronous signal slot
			case 2: // asynchronous signal slot
				s.Kind = kind == 1 ? "signal" : "signal-async";
				sig.reset(new signal<void ()>(null, sk::F<void (const std::exception&)>(&Ignore)));
				if (kind == 2) ex = make_shared_ptr<ThreadTaskExecutor>("x", null, sk::F<void (const std::exception&)>(&Ignore));
				s.Add = [this, kind](int id, const function<void ()>& f) { Token t = kind == 2 ? sig->connect(ex, f) : sig->connect(f); vs::Lock l(m); tokens[id] = std::move(t); };
				s.Release = [this](int id) { ReleaseToken(id); };
				s.Fire = [this](vh::Rng&) { (*sig)(); };
				break;
			case 3: // executor task with tester
				s.Kind = "executor";
				ex = make_shared_ptr<ThreadTaskExecutor>("x", null, sk::F<void (const std::exception&)>(&Ignore));
				s.Add = [this](int id, const function<void ()>& f) { const FutureExecutionTester t = NewTester(id); ex->AddTask(f, t); vs::Lock l(m); funcs.insert(std::make_pair(id, MakeAsyncFunction(ex, f, t))); };
				s.Release = [this](int id) { ReleaseLife(id); };
				s.Fire = [this](vh::Rng& r) { const int id = Any(r); if (id >= 0) Get(id)(); };
				break;
			case 4: // timer tasks
				s.Kind = "timer";
				timer.reset(new Timer("t", null, sk::F<void (const std::exception&)>(&Ignore)));
				s.Add = [this](int id, const function<void ()>& f)
				{
					Token t = id % 3 ? timer->SetTimer(TimeDuration(id % 5), TimeDuration(1 + id % 4), f) : timer->SetTimeout(TimeDuration(id % 4), f);
					vs::Lock l(m); tokens[id] = std::move(t);
				};
				s.Release = [this](int id) { ReleaseToken(id); };
				s.Fire = [](vh::Rng& r) { vs_advance_ns(r.Below(3) * 1000000); };
				break;
			case 5: // timer used as an executor
				s.Kind = "timer-executor";
				timer.reset(new Timer("t", null, sk::F<void (const std::exception&)>(&Ignore)));
				s.Add = [this](int id, const function<void ()>& f) { timer->AddTask(f, NewTester(id)); };
				s.Release = [this](int id) { ReleaseLife(id); };
				s.Fire = [](vh::Rng&) { vs_yield(); };
				break;
			default: // thread pool
				s.Kind = "pool";
				pool.reset(new ThreadPool("p", 3, null, null, sk::F<void (const std::exception&)>(&Ignore)));
				s.Add = [this](int id, const function<void ()>& f) { const function<void ()> g = MakeCancellableFunction(f, NewTester(id)); vs::Lock l(m); funcs.insert(std::make_pair(id, g)); };
				s.Release = [this](int id) { ReleaseLife(id); };
				s.Fire = [this](vh::Rng& r) { const int id = Any(r); if (id >= 0) { const function<void ()> g = Get(id); pool->TryQueue(sk::F<void (const ICancellationToken&)>([g](const ICancellationToken&) { g(); })); } };
				break;
			}
			s.Finish = [this]() { if (ex) vs::Drain(ex, sk::Task); timer.reset(); pool.reset(); tokens.clear(); funcs.clear(); sig.reset(); ex.reset(); };
			return s;
		}
	};

	void RaceCase(vh::Rng& rng)
	{
		vh_log_clear();
		Sources src;
		const Source s = src.Make(rng.Below(7));
		std::vector<uint64_t> seeds; for (int i = 0; i < 8; ++i) seeds.push_back(rng.Next());
		const int ids = 2 + rng.Below(3);
		vs::Mutex doneM; std::set<int> released;
		const auto release = [&](int id)
		{
			{ vs::Lock l(doneM); if (!released.insert(id).second) return; }
			vh_log(RelCall, id, 0, 0); s.Release(id); vh_log(RelRet, id, 0, 0);
		};
		const bool addLate = rng.Bool();
		for (int i = 0; i < ids; ++i) if (!addLate || i % 2 == 0) s.Add(i, MakeBody(rng, i, s.Kind));
		{
			vs::Threads th;
			for (int f = 0; f < 1 + (int)(seeds[6] % 2); ++f)
				th.Add([&, f]() { vh::Rng r(seeds[f]); for (int k = 0, n = 2 + r.Below(4); k < n; ++k) { s.Fire(r); vs::Pause(r); } });
			th.Add([&]()
			{
				vh::Rng r(seeds[2]);
				for (int i = 0; i < ids; ++i)
				{
					if (addLate && i % 2) s.Add(i, MakeBody(r, i, s.Kind));
					vs::Pause(r);
					if (r.Chance(2, 3)) release(i);
				}
			});
			th.Add([&]() { vh::Rng r(seeds[3]); for (int k = 0; k < 2; ++k) { vs::Pause(r); const int id = r.Below(ids); bool present; { vs::Lock l(src.m); present = src.tokens.count(id) || src.life.count(id) || src.holders.count(id); } if (present) release(id); } });
		}
		for (int i = 0; i < ids; ++i) release(i);
		{ vh::Rng r(seeds[5]); s.Fire(r); s.Fire(r); }
		vs_advance_ns(20000000);
		s.Finish();
		CheckReleases(s.Kind);
		for (auto& l : src.life) l.second->Release();
	}
}

VH_SCHED_SCENARIO(release_race) { RaceCase(rng); }
VH_FREE_SCENARIO(free_release_race) { vs_noise(30, 20); RaceCase(rng); vs_noise(0, 0); }

// release of one callback does not wait for another one that is blocked
static void Independent(vh::Rng& rng)
{
	vh_log_clear();
	Sources src;
	const unsigned kind = rng.Below(6);
	const Source s = src.Make(kind);
	vs::Event go, entered;
	s.Add(1, MakeBody(rng, 1, s.Kind, [&]() { entered.Set(); go.Wait(); }));
	if (kind != 4) s.Add(2, MakeBody(rng, 2, s.Kind)); else src.tokens[2] = src.timer->SetTimeout(TimeDuration(1000), MakeBody(rng, 2, s.Kind));
	{
		vs::Threads th;
		th.Add([&]() { vh::Rng r(1); if (kind == 0) try { src.Get(1)(); } catch (const std::exception&) { } else if (kind == 4) vs_advance_ns(5000000); else s.Fire(r); });
		entered.Wait();
		// if this waits for callback 1, nothing can run any more and the scheduler reports a deadlock
		vh_log(RelCall, 2, 0, 0); s.Release(2); vh_log(RelRet, 2, 0, 0);
		go.Set();
	}
	vh_log(RelCall, 1, 0, 0); s.Release(1); vh_log(RelRet, 1, 0, 0);
	s.Finish();
	CheckReleases(s.Kind);
	vh_count("independent_releases", 1);
}
VH_SCHED_SCENARIO(release_independent) { Independent(rng); }

// a callback releases itself (and possibly others) from inside
static void SelfRelease(vh::Rng& rng)
{
	vh_log_clear();
	Sources src;
	const Source s = src.Make(rng.Below(7));
	const int ids = 1 + rng.Below(3);
	vs::Mutex m; std::set<int> released; std::set<int> added;
	const auto release = [&](int id)
	{
		{ vs::Lock l(m); if (!added.count(id) || !released.insert(id).second) return; }
		vh_log(RelCall, id, 0, 0); s.Release(id); vh_log(RelRet, id, 0, 0);
	};
	for (int i = 0; i < ids; ++i)
	{
		const bool deferred = rng.Bool();
		int* calls = new int(0);
		std::shared_ptr<int> c(calls);
		s.Add(i, MakeBody(rng, i, s.Kind, [&, i, c, deferred]() { if (!deferred || ++*c > 1) release(i); }));
		vs::Lock l(m); added.insert(i);
	}
	std::vector<uint64_t> seeds; for (int i = 0; i < 4; ++i) seeds.push_back(rng.Next());
	{
		vs::Threads th;
		for (int f = 0; f < 2; ++f)
			th.Add([&, f]() { vh::Rng r(seeds[f]); for (int k = 0; k < 4; ++k) { s.Fire(r); vs::Pause(r); } });
	}
	vs_advance_ns(30000000);
	for (int i = 0; i < ids; ++i) release(i);
	s.Finish();
	CheckReleases(s.Kind);
	for (auto& l : src.life) l.second->Release();
	vh_count("self_release_cases", 1);
}
VH_SCHED_SCENARIO(self_release) { SelfRelease(rng); }
VH_SCENARIO(self_release_memory) { SelfRelease(rng); }

// Reset revokes the old testers and gives new ones; dead and dummy tokens; non-void guarded functions
VH_SCENARIO(token_states)
{
	TaskLifeToken t; TaskLifeHolder h;
	int generation = 0;
	struct F { FutureExecutionTester tester; bool holder; int gen; };
	std::vector<F> made;
	int alive[2] = { 0, 0 };
	bool killed[2] = { false, false };
	for (unsigned step = 0; step < 30; ++step)
	{
		const bool holder = rng.Bool();
		switch (rng.Below(5))
		{
		case 0: case 1: made.push_back(F{ holder ? h.GetExecutionTester() : t.GetExecutionTester(), holder, alive[holder] }); break;
		case 2: if (rng.Chance(1, 2)) { if (holder) h.Reset(); else t.Reset(); alive[holder] = ++generation; killed[holder] = false; } break;
		case 3: if (rng.Chance(1, 3)) { if (holder) h.Release(); else t.Release(); killed[holder] = true; } break;
		case 4: if (!holder) { TaskLifeToken u(std::move(t)); t = std::move(u); } break;
		}
		for (size_t i = 0; i < made.size(); ++i)
		{
			const bool want = made[i].gen == alive[made[i].holder] && !killed[made[i].holder];
			int calls = 0; bool threw = false; int ret = -1;
			int* pc = &calls;
			MakeCancellableFunction(sk::Task([pc]() { ++*pc; }), made[i].tester)();
			try { ret = MakeCancellableFunction(sk::F<int (int)>([pc](int v) { ++*pc; return v + 1; }), made[i].tester)(4); } catch (const std::exception&) { threw = true; }
			VH_CHECK(calls == (want ? 2 : 0) && threw == !want && (!want || ret == 5), "token:state", "tester " << i << " expected " << want << " calls " << calls << " threw " << threw);
			const FutureExecutionTester copy = made[i].tester;
			{ LocalExecutionGuard g1(copy); LocalExecutionGuard g2(made[i].tester); VH_CHECK((bool)g1 == want && (bool)g2 == want, "token:guard", "nested guards"); }
		}
	}
	VH_CHECK((bool)LocalExecutionGuard(TaskLifeToken::CreateDummyTaskToken().GetExecutionTester()) && (bool)LocalExecutionGuard(null), "token:dummy", "dummy token must allow execution");
	VH_CHECK(!(bool)LocalExecutionGuard(TaskLifeToken::CreateDeadTaskToken().GetExecutionTester()), "token:dead", "dead token must not allow execution");
	t.Release();
}

// a released token is inert for the asynchronous function with a result
VH_SCHED_SCENARIO(async_result)
{
	const shared_ptr<ThreadTaskExecutor> ex = make_shared_ptr<ThreadTaskExecutor>("x", null, sk::F<void (const std::exception&)>(&Ignore));
	TaskLifeToken tok;
	vs::Mutex m; int calls = 0, afterRelease = 0; bool released = false;
	const function<future<int> (int)> f = MakeAsyncFunction(ex, sk::F<int (int)>([&](int v) { vs::Lock l(m); ++calls; if (released) ++afterRelease; if (v == 3) throw std::runtime_error("three"); return v * 2; }), tok.GetExecutionTester());
	std::vector<future<int> > fs;
	const int n = 2 + rng.Below(5), cut = rng.Below(n + 1);
	vs::Threads th;
	std::vector<uint64_t> seeds(1, rng.Next());
	vs::Event fired;
	th.Add([&]() { vh::Rng r(seeds[0]); fired.Wait(); vs::Pause(r); tok.Release(); vs::Lock l(m); released = true; });
	for (int i = 0; i < n; ++i) { if (i == cut) fired.Set(); fs.push_back(f(i)); vs_yield(); }
	fired.Set();
	th.Join();
	vs::Drain(ex, sk::Task);
	int got = 0, broken = 0;
	bool prevBroken = false, gap = false;
	for (int i = 0; i < n; ++i)
	{
		bool b = false;
		try { const int v = fs[i].get(); VH_CHECK(v == i * 2, "token:async-result", i << " gave " << v); ++got; }
		catch (const std::exception& e) { if (strstr(e.what(), "Promise destroyed")) { b = true; ++broken; } else VH_CHECK(i == 3 && strstr(e.what(), "three"), "token:async-exception", i << " threw " << e.what()); if (!b) ++got; }
		if (prevBroken && !b) gap = true;
		prevBroken = b;
	}
	VH_CHECK(afterRelease == 0, "token:async-after-release", afterRelease << " executions started after the release returned");
	VH_CHECK(got == calls && got + broken == n && !gap, "token:async-accounting", got << " results, " << broken << " broken, " << calls << " calls of " << n);
}
