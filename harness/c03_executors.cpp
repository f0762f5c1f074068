// C03: task executors. Monitors: offline checker over submission/start/end events (exactly once, order, no overlap, one thread),
// drain at destruction, and a queue model for the threadless executor.
#include "vsx.h"
#include "sk.h"
#include <stingraykit/thread/ThreadTaskExecutor.h>
#include <stingraykit/thread/ThreadlessTaskExecutor.h>
#include <stingraykit/thread/TaskLifeToken.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <deque>
#include <map>

using namespace stingray;

enum { AddCall = 1, AddRet, Start, End, Thrown, Handled, DtorCall, DtorRet };
static const char* const Names[] = { "?", "add", "added", "start", "end", "thrown", "handled", "dtor", "dtor-ret" };

static void CheckTrace(const char* kind, bool drained, bool singleThread)
{
	struct T { uint32_t ac, ar, st, en; int starts; };
	std::map<int64_t, T> ts;
	int64_t running = -1; int64_t thread = -1; int thrown = 0, handled = 0;
	uint32_t dtorRet = ~0u;
	const uint32_t n = vh_log_size();
	for (uint32_t i = 0; i < n; ++i)
	{
		const vh_event& e = *vh_log_at(i);
		switch (e.type)
		{
		case AddCall: ts[e.a] = T{ i, ~0u, ~0u, ~0u, 0 }; break;
		case AddRet: ts[e.a].ar = i; break;
		case Start:
			VH_CHECK(running == -1, std::string("executor:overlap:") + kind, "task " << e.a << " started while " << running << " was running:" << vs::DumpLog(Names));
			running = e.a;
			if (singleThread)
			{
				if (thread == -1) thread = e.thread;
				VH_CHECK(thread == (int64_t)e.thread, std::string("executor:other-thread:") + kind, "task " << e.a << " ran on thread " << e.thread << " not " << thread);
			}
			VH_CHECK(dtorRet == ~0u, std::string("executor:ran-after-destruction:") + kind, "task " << e.a);
			ts[e.a].st = i; ++ts[e.a].starts;
			break;
		case End: VH_CHECK(running == e.a, std::string("executor:overlap:") + kind, "task " << e.a << " ended while " << running); running = -1; ts[e.a].en = i; break;
		case Thrown: ++thrown; break;
		case Handled: ++handled; break;
		case DtorRet: dtorRet = i; VH_CHECK(running == -1, std::string("executor:running-after-destruction:") + kind, "task " << running); break;
		}
	}
	std::vector<std::pair<int64_t, T> > v(ts.begin(), ts.end());
	for (size_t i = 0; i < v.size(); ++i)
	{
		VH_CHECK(v[i].second.starts == 1 || (!drained && v[i].second.starts == 0), std::string("executor:count:") + kind, "task " << v[i].first << " ran " << v[i].second.starts << " times:" << vs::DumpLog(Names));
		for (size_t k = 0; k < v.size(); ++k)
			if (v[i].second.ar < v[k].second.ac && v[i].second.starts && v[k].second.starts)
				VH_CHECK(v[i].second.st < v[k].second.st, std::string("executor:order:") + kind, "task " << v[i].first << " was submitted before task " << v[k].first << " but ran later:" << vs::DumpLog(Names));
	}
	VH_CHECK(thrown == handled, std::string("executor:exceptions:") + kind, thrown << " thrown, " << handled << " handled");
	vh_count("tasks_checked", v.size());
	vh_distinct("traces", vh_log_hash());
}

namespace {
	struct Destroyer   // its destruction submits another task: the executor must destroy tasks with its mutex unlocked
	{
		std::function<void ()> f; bool armed;
		explicit Destroyer(const std::function<void ()>& f_) : f(f_), armed(true) { }
		~Destroyer() { f(); }
	};

	struct Maker
	{
		ITaskExecutor* ex; vs::Mutex m; int next;
		bool allowNested;
		Maker() : ex(0), next(0), allowNested(true) { }
		int NewId() { vs::Lock l(m); return next++; }

		void Submit(vh::Rng& r, int depth)
		{
			const int id = NewId();
			const uint64_t rs = r.Next();
			Maker* self = this;
			std::shared_ptr<Destroyer> d;
			if (depth < 2 && allowNested && rs % 11 == 0)
				d.reset(new Destroyer([self, rs]() { vh::Rng r2(rs + 5); self->Submit(r2, 3); }));
			const std::function<void ()> body = [self, id, rs, depth, d]()
			{
				vh::Rng r2(rs);
				vh_log(Start, id, 0, 0);
				vs::Pause(r2);
				if (depth < 2 && self->allowNested && r2.Chance(1, 4)) self->Submit(r2, depth + 1);
				vs::Pause(r2);
				const bool thrown = r2.Chance(1, 5);
				if (thrown) vh_log(Thrown, id, 0, 0);
				vh_log(End, id, 0, 0);
				if (thrown) throw std::runtime_error("task failure");
			};
			const function<void ()> task = sk::Task(body);
			vh_log(AddCall, id, 0, 0);
			ex->AddTask(task);
			vh_log(AddRet, id, 0, 0);
		}
	};
	void Handle(const std::exception& ex)
	{ vh_log(Handled, 0, 0, 0); VH_CHECK(std::string(ex.what()) == "task failure", "executor:foreign-exception", ex.what()); }
}

static void ThreadExecutor(vh::Rng& rng)
{
	vh_log_clear();
	std::vector<uint64_t> seeds; for (int i = 0; i < 4; ++i) seeds.push_back(rng.Next());
	Maker mk;
	std::unique_ptr<ThreadTaskExecutor> ex(new ThreadTaskExecutor("x", null, sk::F<void (const std::exception&)>(&Handle)));
	mk.ex = ex.get();
	{
		vs::Threads th;
		for (int p = 0; p < 1 + (int)(seeds[3] % 3); ++p)
			th.Add([&, p]() { vh::Rng r(seeds[p]); for (int k = 0, n = 1 + r.Below(4); k < n; ++k) { mk.Submit(r, 0); vs::Pause(r); } });
	}
	if (rng.Bool()) vs::Pause(rng);
	vh_log(DtorCall, 0, 0, 0);
	ex.reset();
	vh_log(DtorRet, 0, 0, 0);
	CheckTrace("thread", true, true);
}
VH_SCHED_SCENARIO(thread_executor) { ThreadExecutor(rng); }
VH_FREE_SCENARIO(free_thread_executor) { vs_noise(30, 20); ThreadExecutor(rng); vs_noise(0, 0); }

// a task waits for a later submission from another thread: an executor that is idle must wake up for every task
VH_SCHED_SCENARIO(thread_executor_wakeup)
{
	std::unique_ptr<ThreadTaskExecutor> ex(new ThreadTaskExecutor("x", null, sk::F<void (const std::exception&)>(&Handle)));
	const int n = 1 + rng.Below(5);
	for (int i = 0; i < n; ++i)
	{
		if (rng.Bool()) vs_settle();
		vs::Event e;
		ex->AddTask(sk::Task([&]() { e.Set(); }));
		e.Wait();      // a task that never runs shows as a deadlock
		vh_eval(1);
	}
	ex.reset();
}

// several threads drive one threadless executor
static void ThreadlessConc(vh::Rng& rng)
{
	vh_log_clear();
	std::vector<uint64_t> seeds; for (int i = 0; i < 5; ++i) seeds.push_back(rng.Next());
	Maker mk;
	ThreadlessTaskExecutor ex("x", null, sk::F<void (const std::exception&)>(&Handle));
	mk.ex = &ex;
	{
		vs::Threads th;
		for (int p = 0; p < 2; ++p)
			th.Add([&, p]() { vh::Rng r(seeds[p]); for (int k = 0, n = 1 + r.Below(4); k < n; ++k) { mk.Submit(r, 0); vs::Pause(r); } });
		for (int p = 0; p < 2; ++p)
			th.Add([&, p]() { vh::Rng r(seeds[2 + p]); for (int k = 0; k < 2; ++k) { ex.ExecuteTasks(DummyCancellationToken()); vs::Pause(r); } });
	}
	ex.ExecuteTasks(DummyCancellationToken());
	CheckTrace("threadless-conc", true, false);
}
VH_SCHED_SCENARIO(threadless_conc) { ThreadlessConc(rng); }

// queue model
VH_SCENARIO(threadless_model)
{
	ThreadlessTaskExecutor ex("x", rng.Bool() ? optional<TimeDuration>() : optional<TimeDuration>(TimeDuration::FromSeconds(100)), sk::F<void (const std::exception&)>([](const std::exception& e) { VH_CHECK(std::string(e.what()) == "task failure", "executor:foreign-exception", e.what()); vh_count("exceptions", 1); }));
	struct M { int id; bool throws, nested, execNested, cancel, clear, dead; };
	std::deque<M> queue; std::vector<int> ran; int next = 0, wantHandled = 0; (void)wantHandled;
	CancellationToken tok;
	bool executing = false;
	std::vector<std::shared_ptr<TaskLifeToken> > lifes;
	vh::Trace tr;
	std::function<void ()> add = [&]()
	{
		const M m = { next++, rng.Chance(1, 5), rng.Chance(1, 4), rng.Chance(1, 8), rng.Chance(1, 8), rng.Chance(1, 20), rng.Chance(1, 6) };
		queue.push_back(m);
		tr << " add" << m.id;
		std::shared_ptr<TaskLifeToken> life;
		if (m.dead) { life = std::make_shared<TaskLifeToken>(); lifes.push_back(life); life->Release(); }
		const function<void ()> f = sk::Task([&, m]()
		{
			VH_CHECK(executing, "executor:ran-outside-execute", "task " << m.id);
			while (!queue.empty() && queue.front().dead) queue.pop_front();
			VH_CHECK(!queue.empty() && queue.front().id == m.id, "executor:threadless-order", "task " << m.id << " ran, expected " << (queue.empty() ? -1 : queue.front().id) << tr.Str());
			if (!queue.empty() && queue.front().id == m.id) queue.pop_front();
			ran.push_back(m.id);
			tr << " run" << m.id;
			if (m.nested) add();
			if (m.execNested) { const size_t before = ran.size(); ex.ExecuteTasks(DummyCancellationToken()); VH_CHECK(ran.size() == before, "executor:nested-execute-ran-tasks", tr.Str()); }
			if (m.cancel) tok.Cancel();
			if (m.clear) { ex.ClearTasks(); queue.clear(); }
			if (m.throws) throw std::runtime_error("task failure");
		});
		if (m.dead) ex.AddTask(f, life->GetExecutionTester()); else ex.AddTask(f);
	};
	for (unsigned step = 0, n = 10 + rng.Below(60); step < n; ++step)
		switch (rng.Below(6))
		{
		case 0: case 1: case 2: add(); break;
		case 3: executing = true; ex.ExecuteTasks(tok); executing = false;
			VH_CHECK(!tok || queue.empty() || std::all_of(queue.begin(), queue.end(), [](const M& m) { return m.dead; }), "executor:threadless-left", queue.size() << " tasks left though the token was not cancelled" << tr.Str());
			if (tok) queue.clear();
			break;
		case 4: if (rng.Chance(1, 10)) { ex.ClearTasks(); queue.clear(); } break;
		case 5:
			if (rng.Bool()) tok.Reset(); else
			{ tok.Cancel(); const size_t before = ran.size(); executing = true; ex.ExecuteTasks(tok); executing = false; VH_CHECK(ran.size() == before, "executor:ran-with-cancelled-token", tr.Str()); }
			break;
		}
	tok.Reset();
	executing = true;
	for (int k = 0; k < 400 && !queue.empty(); ++k) { ex.ExecuteTasks(DummyCancellationToken()); while (!queue.empty() && queue.front().dead) queue.pop_front(); }
	executing = false;
	VH_CHECK(queue.empty(), "executor:threadless-left", queue.size() << " tasks never ran" << tr.Str());
	vh_distinct("histories", vh::HashStr(tr.s.str()));
	if (next > 8) vh_sample(tr.Str().substr(0, 400).c_str());
	vh_count("tasks_checked", ran.size());
}
