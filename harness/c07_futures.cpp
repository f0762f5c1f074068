// C07: promises and futures. Monitors: state model over random histories of set/get/swap/share/destroy with values whose copies throw;
// concurrent setters, waiters, cancellation and destruction judged on results, statuses and deadlocks.
#include "vsx.h"
#include "sk.h"
#include <stingraykit/future.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>

using namespace stingray;

namespace {
	int g_throwCopies = 0;
	long g_live = 0;
	struct Fragile      // counts live objects, copies throw on demand
	{
		int v; std::string s;
		explicit Fragile(int v_) : v(v_), s(std::to_string(v_) + std::string(40, 'x')) { ++g_live; }
		Fragile(const Fragile& o) : v(o.v), s(o.s) { if (g_throwCopies) throw std::runtime_error("copy failure"); ++g_live; }
		Fragile& operator = (const Fragile& o) { if (g_throwCopies) throw std::runtime_error("copy failure"); v = o.v; s = o.s; return *this; }
		~Fragile() { --g_live; v = -1; }
	};

	template < typename T > struct Traits;
	template < > struct Traits<int> { static bool Set(promise<int>& p, int v) { p.set_value(v); return true; } template < typename F > static int Get(F& f) { return f.get(); } static const bool Fails = false; };
	template < > struct Traits<std::string> { static bool Set(promise<std::string>& p, int v) { p.set_value(std::to_string(v) + std::string(50, 'y')); return true; } template < typename F > static int Get(F& f) { const std::string s = f.get(); return s.size() > 50 && s.substr(s.size() - 50) == std::string(50, 'y') ? atoi(s.c_str()) : -1; } static const bool Fails = false; };
	template < > struct Traits<void> { static bool Set(promise<void>& p, int v) { p.set_value(); return true; } template < typename F > static int Get(F& f) { f.get(); return 0; } static const bool Fails = false; };
	int g_ints[200];
	template < > struct Traits<int&> { static bool Set(promise<int&>& p, int v) { p.set_value(g_ints[v]); return true; } template < typename F > static int Get(F& f) { int& r = f.get(); return &r - g_ints; } static const bool Fails = false; };
	template < > struct Traits<Fragile> { static bool Set(promise<Fragile>& p, int v) { const Fragile f(v); p.set_value(f); return true; } template < typename F > static int Get(F& f) { const Fragile r(f.get()); return r.s == std::to_string(r.v) + std::string(40, 'x') ? r.v : -1; } static const bool Fails = true; };

	struct State { int kind; int v; bool retrieved; State() : kind(0), v(0), retrieved(false) { } };      // kind: 0 pending 1 value 2 exception 3 broken
	typedef std::shared_ptr<State> StateP;

	// outcome of a call as text
	template < typename F > std::string Outcome(const F& f)
	{
		try { return f(); }
		catch (const RethrownException& e) { const std::string w = e.what(); return w.find("outcome#") != std::string::npos ? "ex" + w.substr(w.find("outcome#") + 8, 4) : w.find("Promise destroyed") != std::string::npos || w.find("Broken") != std::string::npos ? "broken" : "?" + w; }
		catch (const FutureAlreadyRetrieved&) { return "already-retrieved"; }
		catch (const PromiseAlreadySatisfied&) { return "already-satisfied"; }
		catch (const std::exception& e) { const std::string w = e.what(); return w.find("copy failure") != std::string::npos ? "copy-failure" : w.find("No async result") != std::string::npos ? "invalid" : "!" + w; }
	}
	std::string ExName(int v) { char b[8]; snprintf(b, sizeof(b), "%04d", v); return b; }
	ExceptionPtr MakeEx(int v) { return MakeExceptionPtr(std::runtime_error("outcome#" + ExName(v))); }

	template < typename T >
	std::string Expected(const State& s)
	{ return s.kind == 1 ? "v" + std::to_string(std::is_same<T, void>::value ? 0 : s.v) : s.kind == 2 ? "ex" + ExName(s.v) : s.kind == 3 ? "broken" : "pending"; }

	template < typename T >
	void Model(vh::Rng& rng, const char* type)
	{
		vh::Trace t; t << type << ":";
		const long live0 = g_live;
		{
			struct P { std::unique_ptr<promise<T> > p; StateP s; };
			struct F { std::unique_ptr<future<T> > f; StateP s; };
			struct SF { std::unique_ptr<shared_future<T> > f; StateP s; };
			P ps[3]; std::vector<F> fs; std::vector<SF> sfs;
			for (auto& p : ps) { p.p.reset(new promise<T>()); p.s = std::make_shared<State>(); }
			for (int i = 0, n = 4 + rng.Below(40); i < n; ++i)
			{
				P& p = ps[rng.Below(3)]; const int pi = &p - ps;
				const unsigned op = rng.Below(14);
				switch (op)
				{
				case 0: case 1:
					{
						const int v = rng.Below(100);
						const bool fail = Traits<T>::Fails && rng.Chance(1, 3);
						const State before = *p.s;
						g_throwCopies = fail;
						const std::string r = Outcome([&]() { Traits<T>::Set(*p.p, v); return std::string("set"); });
						g_throwCopies = 0;
						t << " p" << pi << ".set(" << v << (fail ? ",copy throws" : "") << ")=" << r;
						const std::string e = p.s->kind ? "already-satisfied" : fail ? "copy-failure" : "set";
						VH_CHECK(r == e, "promise:set", "expected " << e << ":" << t.Str());
						if (r == "set" && !p.s->kind) { p.s->kind = 1; p.s->v = v; }
						break;
					}
				case 2: case 3:
					{
						const int v = rng.Below(100);
						const std::string r = Outcome([&]() { p.p->set_exception(MakeEx(v)); return std::string("set"); });
						t << " p" << pi << ".except(" << v << ")=" << r;
						VH_CHECK(r == "set" || (p.s->kind && r == "already-satisfied"), "promise:set-exception", t.Str());
						if (!p.s->kind) { p.s->kind = 2; p.s->v = v; }
						break;
					}
				case 4: case 5:
					{
						F f; f.s = p.s;
						const std::string r = Outcome([&]() { f.f.reset(new future<T>(p.p->get_future())); return std::string("future"); });
						t << " p" << pi << ".get_future=" << r;
						VH_CHECK(r == (p.s->retrieved ? "already-retrieved" : "future"), "promise:get-future", "expected " << (p.s->retrieved ? "rejection" : "success") << ":" << t.Str());
						p.s->retrieved = true;
						if (f.f) fs.push_back(std::move(f));
						break;
					}
				case 6:
					{
						P& q = ps[rng.Below(3)];
						t << " p" << pi << ".swap(p" << (&q - ps) << ")";
						p.p->swap(*q.p); std::swap(p.s, q.s);
						break;
					}
				case 7:
					if (!p.s->kind) p.s->kind = 3;
					t << " p" << pi << ".destroy";
					p.p.reset(new promise<T>()); p.s = std::make_shared<State>();
					break;
				case 8:
					if (!fs.empty())
					{
						F& f = fs[rng.Below(fs.size())];
						if (!f.f->valid()) break;
						if (rng.Bool()) { t << " copy"; F c; c.s = f.s; c.f.reset(new future<T>(*f.f)); fs.push_back(std::move(c)); }
						else { t << " share"; SF s; s.s = f.s; s.f.reset(new shared_future<T>(f.f->share())); VH_CHECK(!f.f->valid(), "future:valid-after-share", t.Str()); sfs.push_back(std::move(s)); }
					}
					break;
				case 9:
					if (sfs.size() > 1)
					{
						SF& a = sfs[rng.Below(sfs.size())]; SF& b = sfs[rng.Below(sfs.size())];
						if (rng.Bool()) { t << " shared-assign"; *a.f = *b.f; a.s = b.s; }
						else { t << " shared-swap"; a.f->swap(*b.f); std::swap(a.s, b.s); }
					}
					break;
				case 10: case 11:
					if (!fs.empty())
					{
						F& f = fs[rng.Below(fs.size())];
						if (f.f->valid() && !f.s->kind) break;      // would block
						const bool valid = f.f->valid();
						const std::string r = Outcome([&]() { return "v" + std::to_string(Traits<T>::Get(*f.f)); });
						t << " get=" << r;
						VH_CHECK(r == (valid ? Expected<T>(*f.s) : "invalid"), "future:get", "expected " << (valid ? Expected<T>(*f.s) : "invalid") << ":" << t.Str());
						VH_CHECK(!f.f->valid(), "future:valid-after-get", t.Str());
					}
					break;
				case 12:
					if (!sfs.empty())
					{
						SF& f = sfs[rng.Below(sfs.size())];
						if (!f.s->kind) break;
						const std::string r = Outcome([&]() { return "v" + std::to_string(Traits<T>::Get(*f.f)); });
						t << " shared-get=" << r;
						VH_CHECK(r == Expected<T>(*f.s), "shared-future:get", "expected " << Expected<T>(*f.s) << ":" << t.Str());
						vh_count("results_read", 1);
					}
					break;
				case 13: if (!fs.empty()) fs.erase(fs.begin() + rng.Below(fs.size())); break;
				}
				// every handle agrees with the model
				for (auto& f : fs)
				{
					if (!f.f->valid()) { VH_CHECK(Outcome([&]() { f.f->is_ready(); return std::string(); }) == "invalid", "future:invalid-use", t.Str()); continue; }
					VH_CHECK(f.f->is_ready() == (f.s->kind != 0) && f.f->has_value() == (f.s->kind == 1) && f.f->has_exception() == (f.s->kind >= 2), "future:state", "model " << Expected<T>(*f.s) << ", ready=" << f.f->is_ready() << ":" << t.Str());
					if (rng.Chance(1, 6))
					{
						const unsigned how = rng.Below(2);
						CancellationToken c; c.Cancel();
						TimedCancellationToken tt(TimeDuration(0));
						const future_status st = how ? f.f->wait(tt) : f.f->wait(c);
						const future_status e = f.s->kind ? future_status::ready : how ? future_status::timeout : future_status::cancelled;
						VH_CHECK(st == e, "future:wait-status", "status " << st.val() << " instead of " << e.val() << ":" << t.Str());
					}
				}
				for (auto& f : sfs)
					VH_CHECK(f.f->is_ready() == (f.s->kind != 0) && f.f->has_value() == (f.s->kind == 1) && f.f->has_exception() == (f.s->kind >= 2), "shared-future:state", "model " << Expected<T>(*f.s) << ":" << t.Str());
			}
			// destruction breaks what is pending
			for (auto& p : ps) { if (!p.s->kind) p.s->kind = 3; p.p.reset(); }
			for (auto& f : fs) if (f.f->valid()) { const std::string r = Outcome([&]() { return "v" + std::to_string(Traits<T>::Get(*f.f)); }); VH_CHECK(r == Expected<T>(*f.s), "future:final", "got " << r << ", expected " << Expected<T>(*f.s) << ":" << t.Str()); vh_count("results_read", 1); }
			for (auto& f : sfs) { const std::string r = Outcome([&]() { return "v" + std::to_string(Traits<T>::Get(*f.f)); }); VH_CHECK(r == Expected<T>(*f.s), "shared-future:final", "got " << r << ", expected " << Expected<T>(*f.s) << ":" << t.Str()); vh_count("results_read", 1); }
		}
		VH_CHECK(g_live == live0, "future:census", (g_live - live0) << " values outlive their futures:" << t.Str());
		vh_distinct("histories", vh::HashStr(t.Str()));
	}
}

VH_SCENARIO(future_model)
{
	switch (rng.Below(5))
	{
	case 0: Model<int>(rng, "int"); break;
	case 1: Model<std::string>(rng, "string"); break;
	case 2: Model<void>(rng, "void"); break;
	case 3: Model<int&>(rng, "int&"); break;
	case 4: Model<Fragile>(rng, "fragile"); break;
	}
}

namespace {
	enum { SetCall = 1, SetRet, WaitCall, WaitRet, GetRet, CancelEv, DestroyCall, DestroyRet };
	const char* const Names[] = { "?", "set", "set-ret", "wait", "wait-ret", "got", "cancel", "destroy", "destroy-ret" };
}

template < typename T >
static void Race(vh::Rng& rng)
{
	vh_log_clear();
	struct Shared { std::unique_ptr<promise<T> > p; std::vector<shared_future<T> > f; vs::Mutex m; std::vector<std::string> results; int successes; std::string winner; Shared() : successes(0) { } } sh;
	sh.p.reset(new promise<T>());
	const int waiters = 1 + rng.Below(3), setters = rng.Below(4);
	const bool viaFuture = waiters == 1 && rng.Bool();
	future<T> single = sh.p->get_future();
	shared_future<T> shared;
	if (!viaFuture) { shared = single.share(); for (int i = 0; i < waiters; ++i) sh.f.push_back(shared); }
	std::vector<uint64_t> seeds; for (int i = 0; i < 12; ++i) seeds.push_back(rng.Next());
	std::vector<std::shared_ptr<CancellationToken> > toks; for (int i = 0; i < waiters; ++i) toks.push_back(std::make_shared<CancellationToken>());
	{
		vs::Threads th;
		for (int i = 0; i < waiters; ++i)
			th.Add([&, i]()
			{
				vh::Rng r(seeds[i]);
				vs::Pause(r);
				for (;;)
				{
					const unsigned how = r.Below(4);
					uint64_t before = vs_now_ns();
					future_status st = future_status::ready;
					const int64_t ms = r.Below(4);
					vh_log(WaitCall, i, how, 0);
					if (how == 0) st = viaFuture ? single.wait() : sh.f[i].wait();
					else if (how == 1) st = viaFuture ? single.wait(*toks[i]) : sh.f[i].wait(*toks[i]);
					else if (how == 2) { TimedCancellationToken tt(*toks[i], TimeDuration(ms)); st = viaFuture ? single.wait(tt) : sh.f[i].wait(tt); }
					vh_log(WaitRet, i, st.val(), 0);
					const uint64_t spent = vs_now_ns() - before;
					if (how == 3) break;      // get blocks by itself
					if (st == future_status::cancelled) { VH_CHECK(how && toks[i]->IsCancelled(), "race:reason-cancelled", vs::DumpLog(Names)); continue; }
					if (st == future_status::timeout) { VH_CHECK(how == 2 && spent + 200000 >= (uint64_t)ms * 1000000, "race:reason-timeout", "timed out after " << spent << " ns of " << ms << " ms" << vs::DumpLog(Names)); continue; }
					VH_CHECK(viaFuture ? single.is_ready() : sh.f[i].is_ready(), "race:reason-ready", vs::DumpLog(Names));
					break;
				}
				const std::string res = Outcome([&]() { return "v" + std::to_string(viaFuture ? Traits<T>::Get(single) : Traits<T>::Get(sh.f[i])); });
				vs::Lock l(sh.m); sh.results.push_back(res);
			});
		for (int i = 0; i < waiters; ++i)
			if (seeds[9] >> i & 1) th.Add([&, i]() { vh::Rng r(seeds[3 + i]); vs::Pause(r); vh_log(CancelEv, i, 0, 0); toks[i]->Cancel(); });
		{
			vs::Threads st;
			for (int i = 0; i < setters; ++i)
				st.Add([&, i]()
				{
					vh::Rng r(seeds[6 + i % 3] + i); vs::Pause(r); if (r.Chance(1, 3)) vs_advance_ns(r.Below(3) * 1000000);
					const int v = 10 + i;
					vh_log(SetCall, i, 0, 0);
					if (r.Chance(1, 3)) { sh.p->set_exception(MakeEx(v)); vh_log(SetRet, i, 2, 0); return; }
					const std::string res = Outcome([&]() { Traits<T>::Set(*sh.p, v); return std::string("set"); });
					vh_log(SetRet, i, res == "set", 0);
					VH_CHECK(res == "set" || res == "already-satisfied", "race:set", res);
					if (res == "set") { vs::Lock l(sh.m); ++sh.successes; sh.winner = std::is_same<T, void>::value ? "v0" : "v" + std::to_string(v); }
				});
			st.Join();
		}
		vh_log(DestroyCall, 0, 0, 0);
		sh.p.reset();
		vh_log(DestroyRet, 0, 0, 0);
		th.Join();
	}
	for (auto& t : toks) t->Cancel();
	VH_CHECK(sh.successes <= 1, "race:two-values-accepted", sh.successes << " set_value calls succeeded" << vs::DumpLog(Names));
	VH_CHECK(sh.results.size() == (size_t)waiters, "race:waiters", sh.results.size());
	bool anyException = false; for (uint32_t i = 0; i < vh_log_size(); ++i) if (vh_log_at(i)->type == SetRet && vh_log_at(i)->b == 2) anyException = true;
	for (auto& r : sh.results)
	{
		VH_CHECK(r == sh.results[0], "race:different-results", r << " and " << sh.results[0] << vs::DumpLog(Names));
		const std::string e = sh.successes ? sh.winner : anyException ? r.substr(0, 2) == "ex" ? r : "ex?" : "broken";
		VH_CHECK(r == e, "race:result", "waiter got " << r << ", expected " << e << vs::DumpLog(Names));
		vh_count("results_read", 1);
	}
	vh_distinct("traces", vh_log_hash());
}
static void RaceAny(vh::Rng& rng)
{ switch (rng.Below(3)) { case 0: Race<int>(rng); break; case 1: Race<std::string>(rng); break; case 2: Race<void>(rng); break; } }
VH_SCHED_SCENARIO(future_race) { RaceAny(rng); }
VH_FREE_SCENARIO(free_future_race) { vs_noise(30, 20); RaceAny(rng); vs_noise(0, 0); }

// all waiters are blocked when the outcome arrives
VH_STRICT_SCENARIO(future_blocked)
{
	vh_log_clear();
	std::unique_ptr<promise<std::string> > p(new promise<std::string>());
	shared_future<std::string> f = p->get_future().share();
	const int waiters = 1 + rng.Below(4);
	std::vector<std::string> res(waiters);
	std::vector<int> how; for (int i = 0; i < waiters; ++i) how.push_back(rng.Below(3));
	const unsigned kind = rng.Below(3);
	vs::Threads th;
	for (int i = 0; i < waiters; ++i)
		th.Add([&, i]() { if (how[i] == 1) f.wait(); if (how[i] == 2) while (f.wait(TimedCancellationToken(TimeDuration(3))) != future_status::ready) { } res[i] = Outcome([&]() { return f.get().substr(0, 3); }); });
	vs_settle();
	if (kind == 0) p->set_value("one" + std::string(60, 'z')); else if (kind == 1) p->set_exception(MakeEx(5)); else p.reset();
	th.Join();
	for (int i = 0; i < waiters; ++i) VH_CHECK(res[i] == (kind == 0 ? "one" : kind == 1 ? "ex0005" : "broken"), "blocked:result", res[i]);
	vh_count("blocked_waiters_released", waiters);
}
