// C04: timers. Monitor: every execution is judged against the virtual clock, the due order and the cancellations.
#include "vsx.h"
#include "sk.h"
#include <stingraykit/timer/Timer.h>
#include <stingraykit/thread/TaskLifeToken.h>
#include <map>
#include <set>

using namespace stingray;

namespace {
	enum { AddCall = 1, AddRet, Start, End, CancelCall, CancelRet, DtorCall, DtorRet, Thrown, Handled };
	const char* const Names[] = { "?", "add", "added", "start", "end", "cancel", "cancelled", "dtor", "dtor-ret", "thrown", "handled" };
	const int64_t Ms = 1000000, Tol = 2000;

	struct Task { int64_t delay, period; bool viaAddTask; };   // nanoseconds
	void Handle(const std::exception& ex) { vh_log(Handled, 0, 0, 0); VH_CHECK(std::string(ex.what()) == "task failure", "timer:foreign-exception", ex.what()); }

	struct Prog
	{
		Timer* timer; vs::Mutex m; std::vector<Task> tasks; std::map<int, Token> tokens; std::set<int> gone;
		bool strict; int nested;
		int Add(vh::Rng& r, int depth)
		{
			Task t = { (int64_t)r.Below(6) * Ms, 0, r.Chance(1, 6) };
			if (t.viaAddTask) t.delay = 0;
			else if (r.Chance(1, 3)) t.period = (int64_t)(1 + r.Below(4)) * Ms;
			int id; { vs::Lock l(m); id = tasks.size(); tasks.push_back(t); }
			const uint64_t rs = r.Next();
			Prog* self = this;
			const function<void ()> f = sk::Task([self, id, rs, depth]()
			{
				vh_log(Start, id, vs_now_ns(), 0);
				vh::Rng r2(rs + vs_now_ns());
				if (r2.Chance(1, 3)) vs::Pause(r2);
				if (r2.Chance(1, 5)) vs_advance_ns(r2.Below(3) * Ms);
				if (depth < 2 && r2.Chance(1, 4)) { bool more; { vs::Lock l(self->m); more = self->nested-- > 0; } if (more) self->Add(r2, depth + 1); }
				if (r2.Chance(1, 6)) self->Cancel(r2.Below(6));
				const bool thrown = r2.Chance(1, 6);
				if (thrown) vh_log(Thrown, id, 0, 0);
				vh_log(End, id, vs_now_ns(), 0);
				if (thrown) throw std::runtime_error("task failure");
			});
			vh_log(AddCall, id, vs_now_ns(), 0);
			Token tok;
			if (t.viaAddTask) timer->AddTask(f);
			else if (t.period && t.period == t.delay) tok = timer->SetTimer(TimeDuration::FromMicroseconds(t.period / 1000), f);
			else if (t.period) tok = timer->SetTimer(TimeDuration::FromMicroseconds(t.delay / 1000), TimeDuration::FromMicroseconds(t.period / 1000), f);
			else tok = timer->SetTimeout(TimeDuration::FromMicroseconds(t.delay / 1000), f);
			{
				vs::Lock l(m);
				if (!t.viaAddTask) tokens[id] = std::move(tok);
			}
			vh_log(AddRet, id, vs_now_ns(), 0);
			return id;
		}
		void Cancel(int id)
		{
			Token t;
			{ vs::Lock l(m); auto i = tokens.find(id); if (i == tokens.end()) return; t = std::move(i->second); tokens.erase(i); }
			vh_log(CancelCall, id, vs_now_ns(), 0); t.Reset(); vh_log(CancelRet, id, vs_now_ns(), 0);
		}
	};

	void Check(const Prog& p, bool strict)
	{
		struct T { uint32_t ac, ar, cc, cr, fs, ls; int64_t at0, at1, lastStart; int runs; uint32_t thread; };
		std::vector<T> ts(p.tasks.size(), T{ ~0u, ~0u, ~0u, ~0u, ~0u, ~0u, 0, 0, 0, 0, 0 });
		int64_t running = -1, prevEnd = 0, dtorAt = 0, prevBusyFrom = 0; int thrown = 0, handled = 0; int timerThread = -1;
		bool dead = false;
		(void)prevBusyFrom;
		int64_t dtorRetAt = 0;
		for (uint32_t i = 0; i < vh_log_size(); ++i)
		{
			const vh_event& e = *vh_log_at(i);
			switch (e.type)
			{
			case AddCall: ts[e.a].ac = i; ts[e.a].at0 = e.b; ts[e.a].thread = e.thread; break;
			case AddRet: ts[e.a].ar = i; ts[e.a].at1 = e.b; break;
			case CancelCall: ts[e.a].cc = i; break;
			case CancelRet: ts[e.a].cr = i; break;
			case DtorCall: dtorAt = e.b; break;
			case DtorRet: dead = true; dtorRetAt = e.b; VH_CHECK(running == -1, "timer:running-after-destruction", "task " << running); break;
			case Thrown: ++thrown; break;
			case Handled: ++handled; break;
			case End: running = -1; prevEnd = e.b; break;
			case Start:
				{
					T& t = ts[e.a]; const Task& d = p.tasks[e.a];
					VH_CHECK(!dead, "timer:ran-after-destruction", "task " << e.a);
					VH_CHECK(running == -1, "timer:overlap", "task " << e.a << " started during " << running);
					running = e.a;
					if (timerThread == -1) timerThread = e.thread;
					VH_CHECK(timerThread == (int)e.thread, "timer:other-thread", "task " << e.a);
					VH_CHECK(t.cr == ~0u, "timer:ran-after-cancel", "task " << e.a << " started after its connection was released" << vs::DumpLog(Names));
					// the period counts from the moment the timer picked the task up, which precedes the start by an unknown scheduling delay unless strict
					const int64_t dueLo = !t.runs ? t.at0 + d.delay : strict ? t.lastStart + d.period : t.at0 + d.delay + t.runs * d.period;
					VH_CHECK(e.b >= dueLo - Tol, "timer:early", "task " << e.a << " run " << t.runs << " started " << dueLo - e.b << " ns before it was due" << vs::DumpLog(Names));
					if (strict && !dtorAt)
					{
						const int64_t dueHi = t.runs ? dueLo : (t.ar == ~0u ? e.b : t.at1 + d.delay);
						const int64_t lim = std::max(dueHi, prevEnd) + Ms / 2;
						VH_CHECK(e.b <= lim, "timer:late", "task " << e.a << " run " << t.runs << " started " << e.b - lim << " ns late though the timer was idle" << vs::DumpLog(Names));
					}
					if (!t.runs) t.fs = i;
					t.ls = i;
					++t.runs;
					t.lastStart = e.b;
					vh_count("timer_executions", 1);
					break;
				}
			}
		}
		(void)dtorRetAt;
		VH_CHECK(thrown == handled, "timer:exceptions", thrown << " thrown " << handled << " handled");
		for (size_t i = 0; i < ts.size(); ++i)
		{
			const T& t = ts[i]; const Task& d = p.tasks[i];
			if (!d.period)
				VH_CHECK(t.runs <= 1, "timer:duplicate", "one-shot task " << i << " ran " << t.runs << " times" << vs::DumpLog(Names));
			if (t.cc == ~0u && t.at1 + d.delay + Ms / 2 < dtorAt && (strict || !d.period))
			{
				VH_CHECK(t.runs >= 1, "timer:missed", "task " << i << " never ran" << vs::DumpLog(Names));
				if (d.period && strict && t.runs)
					VH_CHECK(t.lastStart + d.period + Ms / 2 > dtorAt || prevEnd + Ms / 2 > dtorAt || prevEnd > t.lastStart + d.period, "timer:periodic-stopped", "task " << i << " ran " << t.runs << " times and then not for " << dtorAt - t.lastStart << " ns" << vs::DumpLog(Names));
			}
			for (size_t k = 0; k < ts.size(); ++k)
			{
				const T& u = ts[k]; const Task& f = p.tasks[k];
				if (i == k || !t.runs || !u.runs || t.ar == ~0u || u.ar == ~0u || t.ar > u.fs || u.ar > t.fs) continue;
				const bool before = t.at1 + d.delay + Tol < u.at0 + f.delay || (t.thread == u.thread && t.ac < u.ac && d.delay <= f.delay);
				if (before)
					VH_CHECK(t.fs < u.fs, "timer:order", "task " << i << " (delay " << d.delay / Ms << " ms) was due no later than task " << k << " (delay " << f.delay / Ms << " ms) but ran after it" << vs::DumpLog(Names));
			}
		}
		vh_count("tasks_checked", ts.size());
		vh_distinct("traces", vh_log_hash());
	}

	void Run(vh::Rng& rng, bool strict)
	{
		vh_log_clear();
		std::vector<uint64_t> seeds; for (int i = 0; i < 4; ++i) seeds.push_back(rng.Next());
		std::unique_ptr<Timer> timer(new Timer("t", null, sk::F<void (const std::exception&)>(&Handle)));
		Prog p; p.timer = timer.get(); p.strict = strict; p.nested = 4;
		{
			vs::Threads th;
			for (int t = 0; t < 1 + (int)(seeds[3] % 2); ++t)
				th.Add([&, t]()
				{
					vh::Rng r(seeds[t]);
					for (int k = 0, n = 2 + r.Below(5); k < n; ++k)
					{
						p.Add(r, 0);
						if (r.Chance(1, 3)) vs_advance_ns(r.Below(4) * Ms);
						if (r.Chance(1, 3)) p.Cancel(r.Below(8));
						vs::Pause(r);
					}
				});
		}
		vs_advance_ns(rng.Below(12) * Ms + 700000);
		vh_log(DtorCall, 0, vs_now_ns(), 0);
		timer.reset();
		vh_log(DtorRet, 0, vs_now_ns(), 0);
		Check(p, strict);
		p.tokens.clear();
	}
}

VH_SCHED_SCENARIO(timer_schedules) { Run(rng, false); }
VH_STRICT_SCENARIO(timer_exact) { Run(rng, true); }
VH_FREE_SCENARIO(free_timer) { vs_noise(30, 20); Run(rng, false); vs_noise(0, 0); }

// ---------------------------------------------------------------- deferred execution, exact virtual time
VH_STRICT_SCENARIO(deferrer_exact)
{
	Timer timer("t", null, sk::F<void (const std::exception&)>([](const std::exception&) { }));
	ExecutionDeferrer def(timer, TimeDuration(3));
	ExecutionDeferrerWithTimer defT("d", TimeDuration(3));
	const bool own = rng.Bool();
	struct Run { int id; int64_t at; };
	vs::Mutex m; std::vector<Run> runs;
	struct Pending { bool active; int id; int64_t due, period; } pend = { false, -1, 0, 0 };
	vh::Trace tr;
	int next = 0;
	size_t seen = 0;
	const int64_t t00 = vs_now_ns();
	for (unsigned step = 0, n = 4 + rng.Below(16); step < n; ++step)
	{
		const unsigned op = rng.Below(4);
		const int64_t now = vs_now_ns();
		if (op == 0 || op == 1)
		{
			const int id = next++;
			const int64_t delay = op == 0 ? 3 : rng.Below(6);
			const bool periodic = op == 1 && !own && rng.Chance(1, 4);
			const int64_t period = periodic ? 1 + rng.Below(4) : 0;
			const function<void ()> f = sk::Task([&, id]() { vs::Lock l(m); runs.push_back(Run{ id, (int64_t)vs_now_ns() }); });
			if (op == 0) { if (own) defT.Defer(f); else def.Defer(f); }
			else if (periodic) def.Defer(f, TimeDuration(delay), TimeDuration(period));
			else if (own) { if (rng.Bool()) defT.Defer(f, TimeDuration(delay)); else defT.DeferWithTimeout(f, TimeDuration(delay)); } else def.Defer(f, TimeDuration(delay));
			tr << " @" << (now - t00) / 1000 << "us defer" << id << "+" << delay << "/" << period;
			pend = Pending{ true, id, now + delay * Ms, period * Ms };
			// the new deadline replaces the old one once the timer has handled the request
			vs_settle();
		}
		else if (op == 2)
		{
			if (own) defT.Cancel(); else def.Cancel();
			tr << " @" << (now - t00) / 1000 << "us cancel";
			pend.active = false;
		}
		const int64_t adv = op == 3 ? rng.Below(5) * Ms + 300000 : 300000;
		vs_advance_ns(adv);
		vs_settle();
		const int64_t upto = vs_now_ns();
		// what must have happened meanwhile
		std::vector<Run> want;
		while (pend.active && pend.due + 100000 < upto)
		{ want.push_back(Run{ pend.id, pend.due }); if (pend.period) pend.due += pend.period; else pend.active = false; }
		vs::Lock l(m);
		VH_CHECK(runs.size() - seen == want.size(), "deferrer:runs", runs.size() - seen << " executions, expected " << want.size() << " (last " << (runs.empty() ? -1 : runs.back().id) << "):" << tr.Str());
		for (size_t i = 0; i < want.size() && seen + i < runs.size(); ++i)
			VH_CHECK(runs[seen + i].id == want[i].id && runs[seen + i].at >= want[i].at - Tol && runs[seen + i].at < want[i].at + 200000, "deferrer:time", "task " << runs[seen + i].id << " ran " << (runs[seen + i].at - want[i].at) << " ns off the deadline of " << want[i].id << tr.Str());
		if (runs.size() - seen != want.size()) return;
		seen = runs.size();
		vh_count("deferrals", 1);
	}
	bool threw = false;
	ExecutionDeferrer none(timer);
	try { none.Defer(sk::Task([]() { })); } catch (const std::exception&) { threw = true; }
	VH_CHECK(threw, "deferrer:default-timeout-missing", "Defer without timeout must be rejected");
	def.Cancel(); defT.Cancel();
	vh_distinct("histories", vh::HashStr(tr.s.str()));
}

// after Cancel returns nothing that was deferred before it runs; only the latest deferral survives
VH_SCHED_SCENARIO(deferrer_race)
{
	vh_log_clear();
	Timer timer("t", null, sk::F<void (const std::exception&)>([](const std::exception&) { }));
	{
		ExecutionDeferrer def(timer, TimeDuration(1));
		vs::Mutex m; int generation = 0, dead = 0; int bad = 0; std::map<int, int> runs;
		for (unsigned k = 0, n = 2 + rng.Below(6); k < n; ++k)
		{
			int id; { vs::Lock l(m); id = ++generation; }
			def.Defer(sk::Task([&, id]() { vs::Lock l(m); if (id <= dead) ++bad; ++runs[id]; }), TimeDuration((int64_t)rng.Below(3)));
			vs::Pause(rng);
			if (rng.Bool()) vs_advance_ns(rng.Below(4) * 500000);
			if (rng.Chance(1, 2))
			{ def.Cancel(); vs::Lock l(m); dead = id; }
		}
		for (int k = 0; k < 4; ++k) { vs_advance_ns(5000000); vs_settle(); }
		def.Cancel();
		vs::Lock l(m);
		VH_CHECK(bad == 0, "deferrer:ran-after-cancel", bad << " executions after Cancel returned");
		for (auto& r : runs) VH_CHECK(r.second == 1, "deferrer:duplicate", "task " << r.first << " ran " << r.second << " times");
		VH_CHECK(dead == generation || runs.count(generation), "deferrer:lost", "the last deferred task never ran");
		vh_count("deferrals", generation);
	}
}
