// C01: signal delivery. Monitors: emission/slot model for re-entrant sequential histories; trace checker for concurrent ones.
#include "vsx.h"
#include "sk.h"
#include <stingraykit/signal/signals.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>
#include <stingraykit/thread/ThreadlessTaskExecutor.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/collection/IntrusiveList.h>
#include <map>

using namespace stingray;

namespace {

	struct Payload { std::string s; int i; };
	bool operator == (const Payload& a, const Payload& b) { return a.s == b.s && a.i == b.i; }

	// ---------------------------------------------------------------- sequential, re-entrant
	template < typename SignalT, bool Threadsafe >
	struct SeqModel
	{
		vh::Rng& rng;
		const char* name;
		SignalT* sig;
		struct Slot { int id; bool connected; Token token; int calls; };
		std::vector<std::shared_ptr<Slot> > slots;            // all ever, index = id
		std::vector<int> order;                               // connected, in connection order
		struct Emission { std::vector<int> snapshot; size_t pos; Payload args; int id; };
		std::vector<Emission> stack;
		int depth, nextEmission, excHandled, excThrown, budget, populating, connecting;
		std::vector<int> populated;
		bool withState;
		vh::Trace trace;

		SeqModel(vh::Rng& r, const char* n) : rng(r), name(n), sig(0), depth(0), nextEmission(0), excHandled(0), excThrown(0), budget(60), populating(-1), connecting(-1), withState(false) { }

		void OnException(const std::exception& ex) { ++excHandled; VH_CHECK(std::string(ex.what()) == "slot-failure", std::string("signal:foreign-exception:") + name, ex.what()); }

		void Populate(const function<void (const Payload&, int)>& f)
		{
			for (int i = 0; i < 2; ++i)
				f(Payload{ "state", i }, -1 - i);
		}

		void Handle(int id, const Payload& p, int e)
		{
			if (e < 0)
			{
				VH_CHECK(populating == id && p.s == "state" && (int)populated.size() == p.i, std::string("signal:populator:") + name, "unexpected state message for slot " << id << " " << p.s << p.i << trace.Str());
				populated.push_back(p.i);
				if (rng.Chance(1, 6)) { ++excThrown; throw std::runtime_error("slot-failure"); }
				return;
			}
			vh_count("slot_calls", 1);
			trace << " <" << id << " e" << e;
			Slot& s = *slots[id];
			++s.calls;
			VH_CHECK_R(!stack.empty() && stack.back().id == e, std::string("signal:call-outside-emission:") + name, "slot " << id << " emission " << e << trace.Str());
			{
				Emission& em = stack.back();
				VH_CHECK(p == em.args, std::string("signal:arguments:") + name, "slot " << id << " emission " << e << " got " << p.s << "," << p.i);
				if (Threadsafe)
					while (em.pos < em.snapshot.size() && !slots[em.snapshot[em.pos]]->connected)
						++em.pos;
				VH_CHECK_R(em.pos < em.snapshot.size() && em.snapshot[em.pos] == id, std::string("signal:order:") + name,
					"slot " << id << " called, expected " << (em.pos < em.snapshot.size() ? em.snapshot[em.pos] : -1) << trace.Str());
				++em.pos;
			}
			if (budget > 0 && rng.Chance(1, 2))
				Action(id);
			if (rng.Chance(1, 8)) { ++excThrown; trace << " throw"; throw std::runtime_error("slot-failure"); }
		}

		void Connect()
		{
			std::shared_ptr<Slot> s(new Slot());
			s->id = slots.size(); s->connected = true; s->calls = 0;
			slots.push_back(s);
			const bool state = rng.Bool();
			trace << " conn" << s->id << (state ? "s" : "");
			const int prevPop = populating; const std::vector<int> prevList = populated;
			populating = s->id; populated.clear();
			const int id = s->id;
			SeqModel* self = this;
			const function<void (const Payload&, int)> h = sk::F<void (const Payload&, int)>([self, id](const Payload& p, int e) { self->Handle(id, p, e); });
			s->token = rng.Bool() ? sig->connect(h, state) : sig->connector().connect(h, state);
			VH_CHECK(populated.size() == (state && withState ? 2u : 0u), std::string("signal:populator-count:") + name, "slot " << id << " got " << populated.size() << " state messages");
			populating = prevPop; populated = prevList;
			order.push_back(id);
		}

		void Disconnect(int id)
		{
			trace << " disc" << id;
			Slot& s = *slots[id];
			if (!s.connected) return;
			s.connected = false;
			order.erase(std::find(order.begin(), order.end(), id));
			s.token.Reset();
		}

		void Emit()
		{
			if (depth > 3) return;
			--budget;
			Emission em; em.snapshot = order; em.pos = 0; em.id = nextEmission++; em.args = Payload{ std::string(rng.Below(40), 'x') + "e", (int)rng.Below(1000) };
			trace << " emit" << em.id << "[";
			const Payload args = em.args; const int id = em.id;
			stack.push_back(em);
			++depth;
			if (rng.Bool()) (*sig)(args, id); else sig->invoker()(args, id);
			--depth;
			trace << "]";
			Emission done = stack.back(); stack.pop_back();
			for (; done.pos < done.snapshot.size(); ++done.pos)
				VH_CHECK(Threadsafe && !slots[done.snapshot[done.pos]]->connected, std::string("signal:missed:") + name, "slot " << done.snapshot[done.pos] << " missed emission " << id << trace.Str());
			vh_count("emissions", 1);
		}

		void Action(int self)
		{
			switch (rng.Below(5))
			{
			case 0: Connect(); break;
			case 1: if (self >= 0) Disconnect(self); break;
			case 2: if (!order.empty()) Disconnect(order[rng.Below(order.size())]); break;
			default: Emit(); break;
			}
		}

		void Run(SignalT& s, bool hasState)
		{
			sig = &s; withState = hasState;
			const int start = rng.Below(rng.Chance(1, 5) ? 24 : 6);
			for (int i = 0; i < start; ++i) Connect();
			while (budget > 0)
			{
				--budget;
				Action(-1);
			}
			while (!order.empty() && rng.Chance(9, 10))
			{ Disconnect(order[rng.Below(order.size())]); budget = 6; Emit(); }
			vh_distinct("reentrant_histories", vh::HashStr(trace.s.str()));
			if (vh_seed() == 1) vh_sample(trace.Str().substr(0, 500).c_str());
		}
		void Finish() { for (size_t i = 0; i < slots.size(); ++i) slots[i]->token.Reset(); }
	};
}

typedef function<void (const std::exception&)> ExH;
typedef function<void (const function<void (const Payload&, int)>&)> PopF;

VH_SCENARIO(seq_multithreaded)
{
	typedef signal<void (const Payload&, int)> Sig;
	SeqModel<Sig, true> m(rng, "multithreaded");
	SeqModel<Sig, true>* pm = &m;
	const bool st = rng.Bool();
	const ExH exh = sk::F<void (const std::exception&)>([pm](const std::exception& ex) { pm->OnException(ex); });
	const PopF pop = sk::F<void (const function<void (const Payload&, int)>&)>([pm](const function<void (const Payload&, int)>& f) { pm->Populate(f); });
	std::unique_ptr<Sig> s(st ? new Sig(pop, exh) : new Sig(null, exh));
	m.Run(*s, st);
	VH_CHECK(m.excHandled == m.excThrown, "signal:exceptions", m.excHandled << " reported, " << m.excThrown << " thrown" << m.trace.Str());
	if (rng.Bool()) s.reset();   // tokens may outlive the signal
	m.Finish();
}

VH_SCENARIO(seq_external_mutex)
{
	typedef signal<void (const Payload&, int), signal_policies::threading::ExternalMutexPointer> Sig;
	SeqModel<Sig, true> m(rng, "external");
	SeqModel<Sig, true>* pm = &m;
	const bool st = rng.Bool();
	const PopF pop = sk::F<void (const function<void (const Payload&, int)>&)>([pm](const function<void (const Payload&, int)>& f) { pm->Populate(f); });
	const signal_policies::threading::ExternalMutexPointer ext(make_shared_ptr<Mutex>());
	std::unique_ptr<Sig> s(st ? new Sig(ext, pop) : new Sig(ext));
	m.Run(*s, st);
	if (rng.Bool()) s.reset();
	m.Finish();
}

VH_SCENARIO(seq_threadless)
{
	typedef signal<void (const Payload&, int), signal_policies::threading::Threadless> Sig;
	SeqModel<Sig, false> m(rng, "threadless");
	SeqModel<Sig, false>* pm = &m;
	const bool st = rng.Bool();
	const ExH exh = sk::F<void (const std::exception&)>([pm](const std::exception& ex) { pm->OnException(ex); });
	const PopF pop = sk::F<void (const function<void (const Payload&, int)>&)>([pm](const function<void (const Payload&, int)>& f) { pm->Populate(f); });
	std::unique_ptr<Sig> s(st ? new Sig(pop, exh) : new Sig(null, exh));
	m.Run(*s, st);
	VH_CHECK(m.excHandled == m.excThrown, "signal:exceptions-threadless", m.excHandled << " reported, " << m.excThrown << " thrown");
	if (rng.Bool()) s.reset();
	m.Finish();
}

VH_SCENARIO(seq_lazy_policies)
{
	typedef signal<void (const Payload&, int), signal_policies::threading::Multithreaded, signal_policies::exception_handling::Null, signal_policies::populators::Null, signal_policies::connection_policy_control::Null, signal_policies::creation::Lazy> Sig;
	SeqModel<Sig, true> m(rng, "lazy");
	Sig s;
	s(Payload(), -5);    // nobody is connected: nothing happens
	m.Run(s, false);
	m.Finish();
	// connection policy
	typedef signal<void (int)> S2;
	S2 so(null, null, ConnectionPolicy::SyncOnly), ao(null, null, ConnectionPolicy::AsyncOnly);
	const ITaskExecutorPtr ex = make_shared_ptr<ThreadlessTaskExecutor>("threadless");
	bool t1 = false, t2 = false, t3 = false, t4 = false;
	const function<void (int)> h = sk::F<void (int)>([](int) { });
	try { so.connect(ex, h); } catch (const std::exception&) { t1 = true; }
	try { ao.connect(h); } catch (const std::exception&) { t2 = true; }
	try { so.connector().connect(ex, h); } catch (const std::exception&) { t3 = true; }
	try { ao.connector().connect(h); } catch (const std::exception&) { t4 = true; }
	VH_CHECK(t1 && t2 && t3 && t4, "signal:policy-not-enforced", t1 << t2 << t3 << t4);
	Token a = so.connect(h), b = ao.connect(ex, h);
}

// ---------------------------------------------------------------- asynchronous connections, single thread
VH_SCENARIO(seq_async)
{
	typedef signal<void (int)> Sig;
	Sig sig(sk::F<void (const function<void (int)>&)>([](const function<void (int)>& f) { f(-1); f(-2); }));
	const shared_ptr<ThreadlessTaskExecutor> ex = make_shared_ptr<ThreadlessTaskExecutor>("threadless");
	struct S { Token t; std::vector<int> got, want; bool live; };
	std::vector<std::shared_ptr<S> > slots;
	bool executing = false;
	int next = 0;
	for (unsigned step = 0, n = 10 + rng.Below(60); step < n; ++step)
		switch (rng.Below(6))
		{
		case 0:
			{
				std::shared_ptr<S> s(new S()); s->live = true;
				const bool st = rng.Bool();
				S* p = s.get();
				bool* e = &executing;
				s->t = sig.connect(ex, sk::F<void (int)>([p, e](int v) { VH_CHECK(*e, "signal:async-ran-inline", v); p->got.push_back(v); }), st);
				if (st) { s->want.push_back(-1); s->want.push_back(-2); }
				slots.push_back(s);
				break;
			}
		case 1:
			if (!slots.empty())
			{
				S& s = *slots[rng.Below(slots.size())];
				if (s.live)
				{ s.t.Reset(); s.live = false; VH_CHECK(s.got.size() <= s.want.size(), "signal:async-extra", ""); s.want = s.got; }   // pending deliveries are revoked
			}
			break;
		case 2: executing = true; ex->ExecuteTasks(DummyCancellationToken()); executing = false;
			for (size_t i = 0; i < slots.size(); ++i)
				VH_CHECK(slots[i]->got == slots[i]->want, "signal:async-sequence", "slot " << i << " got " << slots[i]->got.size() << " of " << slots[i]->want.size());
			break;
		default:
			sig(next);
			for (size_t i = 0; i < slots.size(); ++i) if (slots[i]->live) slots[i]->want.push_back(next);
			++next;
			vh_count("emissions", 1);
		}
	executing = true; ex->ExecuteTasks(DummyCancellationToken()); executing = false;
	for (size_t i = 0; i < slots.size(); ++i)
		VH_CHECK(slots[i]->got == slots[i]->want, "signal:async-sequence", "slot " << i << " got " << slots[i]->got.size() << " of " << slots[i]->want.size());
}

// ---------------------------------------------------------------- concurrent
enum { EmitCall = 1, EmitRet, ConnCall, ConnRet, DiscCall, DiscRet, Call, StateCall };
static const char* const Names[] = { "?", "emit", "emit-ret", "conn", "conn-ret", "disc", "disc-ret", "call", "state" };

static void CheckTrace(const char* what)
{
	struct Em { uint32_t call, ret; int thread; };
	struct Sl { uint32_t cc, cr, dc, dr; };
	std::map<int, Em> ems; std::map<int, Sl> sls;
	std::map<std::pair<int, int>, std::vector<uint32_t> > calls;
	const uint32_t n = vh_log_size();
	for (uint32_t i = 0; i < n; ++i)
	{
		const vh_event& e = *vh_log_at(i);
		switch (e.type)
		{
		case EmitCall: ems[e.a].call = i; ems[e.a].ret = ~0u; break;
		case EmitRet: ems[e.a].ret = i; break;
		case ConnCall: { Sl s = { i, ~0u, ~0u, ~0u }; sls[e.a] = s; break; }
		case ConnRet: sls[e.a].cr = i; break;
		case DiscCall: sls[e.a].dc = i; break;
		case DiscRet: sls[e.a].dr = i; break;
		case Call: calls[std::make_pair((int)e.b, (int)e.a)].push_back(i); break;
		}
	}
	for (auto& em : ems)
	{
		std::vector<std::pair<uint32_t, int> > seq;
		for (auto& sl : sls)
		{
			auto it = calls.find(std::make_pair(em.first, sl.first));
			const size_t k = it == calls.end() ? 0 : it->second.size();
			const Em& e = em.second; const Sl& s = sl.second;
			if (s.cr < e.call && s.dc > e.ret)
				VH_CHECK(k == 1, std::string("signal-conc:delivery-count:") + what, "slot " << sl.first << " connected throughout emission " << em.first << " was called " << k << " times:" << vs::DumpLog(Names));
			else if (s.cc > e.ret || s.dr < e.call)
				VH_CHECK(k == 0, std::string("signal-conc:delivery-outside:") + what, "slot " << sl.first << " not connected during emission " << em.first << " was called:" << vs::DumpLog(Names));
			else
				VH_CHECK(k <= 1, std::string("signal-conc:duplicate:") + what, "slot " << sl.first << " called " << k << " times for emission " << em.first << vs::DumpLog(Names));
			if (k == 1) seq.push_back(std::make_pair(it->second[0], sl.first));
		}
		std::sort(seq.begin(), seq.end());
		for (size_t a = 0; a < seq.size(); ++a)
			for (size_t b = a + 1; b < seq.size(); ++b)
				VH_CHECK(!(sls[seq[b].second].cr < sls[seq[a].second].cc), std::string("signal-conc:order:") + what, "emission " << em.first << ": slot " << seq[a].second << " called before slot " << seq[b].second << " that connected earlier:" << vs::DumpLog(Names));
	}
	vh_count("emissions_checked", ems.size());
	vh_count("slots_checked", sls.size());
	vh_distinct("traces", vh_log_hash());
}

static void Concurrent(vh::Rng& rng, bool reentrant)
{
	vh_log_clear();
	typedef signal<void (int, const std::string&)> Sig;
	Sig sig;
	struct SlotData { std::string big; };
	// handlers run under a per-connection guard, so handlers that emit from several threads at once may wait for each other
	const int connectors = 1 + rng.Below(2), emitters = reentrant ? 1 : 1 + rng.Below(2);
	std::vector<uint64_t> seeds;
	for (int i = 0; i < 8; ++i) seeds.push_back(rng.Next());
	auto connectOne = [&sig](int id, vh::Rng* r, bool reent) -> Token
	{
		std::shared_ptr<SlotData> data(new SlotData{ std::string(40, 'a' + id % 26) });
		const uint64_t rs = r->Next();
		vh_log(ConnCall, id, 0, 0);
		Sig* ps = &sig;
		Token t = sig.connect(sk::F<void (int, const std::string&)>([id, data, reent, rs, ps](int e, const std::string& s)
		{
			vh_log(Call, id, e, 0);
			VH_CHECK(s == "payload" && data->big == std::string(40, 'a' + id % 26), "signal-conc:arguments", s);
			if (reent && e < 1000 && (rs >> (e & 31)) & 1)
			{
				vh_log(EmitCall, e + 1000 + id * 10000, 0, 0);
				(*ps)(e + 1000 + id * 10000, "payload");
				vh_log(EmitRet, e + 1000 + id * 10000, 0, 0);
			}
			if ((rs >> ((e + 7) & 31)) & 1) { vs_yield(); if (e % 3 == 0) throw std::runtime_error("x"); }
		}));
		vh_log(ConnRet, id, 0, 0);
		return t;
	};
	std::vector<Token> initial;
	vh::Rng r0(seeds[7]);
	for (int i = 0, n = rng.Below(4); i < n; ++i)
		initial.push_back(connectOne(i, &r0, false));
	{
		vs::Threads th;
		for (int c = 0; c < connectors; ++c)
			th.Add([&, c]()
			{
				vh::Rng r(seeds[c]);
				std::vector<std::pair<int, Token> > mine;
				for (int k = 0, n = 2 + r.Below(3); k < n; ++k)
				{
					const int id = 10 + c * 20 + k;
					mine.push_back(std::make_pair(id, connectOne(id, &r, reentrant)));
					vs::Pause(r);
					if (r.Bool() && !mine.empty())
					{
						const size_t i = r.Below(mine.size());
						if (!mine[i].second) continue;
						vh_log(DiscCall, mine[i].first, 0, 0); mine[i].second.Reset(); vh_log(DiscRet, mine[i].first, 0, 0);
						mine.erase(mine.begin() + i);
					}
				}
				for (size_t i = 0; i < mine.size(); ++i)
				{ vh_log(DiscCall, mine[i].first, 0, 0); mine[i].second.Reset(); vh_log(DiscRet, mine[i].first, 0, 0); }
			});
		for (int e = 0; e < emitters; ++e)
			th.Add([&, e]()
			{
				vh::Rng r(seeds[3 + e]);
				for (int k = 0, n = 2 + r.Below(3); k < n; ++k)
				{
					const int id = e * 100 + k;
					vh_log(EmitCall, id, 0, 0);
					sig(id, "payload");
					vh_log(EmitRet, id, 0, 0);
					vs::Pause(r);
				}
			});
	}
	initial.clear();
	CheckTrace(reentrant ? "reentrant" : "plain");
}

VH_SCHED_SCENARIO(conc_delivery) { Concurrent(rng, false); }
VH_SCHED_SCENARIO(conc_reentrant) { Concurrent(rng, true); }
VH_FREE_SCENARIO(free_delivery) { vs_noise(30, 20); Concurrent(rng, false); vs_noise(0, 0); }

// state + emission under the signal lock: subscribers mirror the state exactly
static void Mirror(vh::Rng& rng)
{
	vh_log_clear();
	typedef signal<void (int)> Sig;
	std::vector<int> state;
	std::vector<int>* ps = &state;
	Sig sig(sk::F<void (const function<void (int)>&)>([ps](const function<void (int)>& f) { for (size_t i = 0; i < ps->size(); ++i) { f((*ps)[i]); vs_yield(); } }));
	const int total = 4 + rng.Below(5);
	std::vector<uint64_t> seeds; for (int i = 0; i < 8; ++i) seeds.push_back(rng.Next());
	struct Sub { std::vector<int> got; size_t atReturn; };
	std::vector<std::shared_ptr<Sub> > subs;
	for (int i = 0; i < 4; ++i) subs.push_back(std::make_shared<Sub>());
	std::vector<Token> tokens(4);
	const bool async = rng.Bool();
	shared_ptr<ThreadTaskExecutor> ex;
	if (async) ex = make_shared_ptr<ThreadTaskExecutor>("mirror");
	{
		vs::Threads th;
		th.Add([&]() { vh::Rng r(seeds[0]); for (int i = 0; i < total; ++i) { signal_locker l(sig); state.push_back(i); vs_yield(); sig(i); } });
		for (int c = 0; c < 2; ++c)
			th.Add([&, c]()
			{
				vh::Rng r(seeds[1 + c]);
				for (int k = 0; k < 2; ++k)
				{
					vs::Pause(r);
					Sub* s = subs[c * 2 + k].get();
					const function<void (int)> h = sk::F<void (int)>([s](int v) { s->got.push_back(v); });
					tokens[c * 2 + k] = async ? sig.connect(ex, h) : sig.connect(h);
				}
			});
	}
	if (async)
		vs::Drain(ex, sk::Task);
	tokens.clear(); ex.reset();
	for (size_t i = 0; i < subs.size(); ++i)
	{
		bool ok = (int)subs[i]->got.size() == total;
		std::ostringstream o;
		for (size_t k = 0; k < subs[i]->got.size(); ++k) { ok = ok && subs[i]->got[k] == (int)k; o << subs[i]->got[k] << " "; }
		VH_CHECK(ok, async ? "signal-conc:mirror-async" : "signal-conc:mirror", "subscriber " << i << " saw " << o.str() << "of " << total);
	}
	vh_count("mirrors", subs.size());
}
VH_SCHED_SCENARIO(conc_mirror) { Mirror(rng); }

// asynchronous slots: on the executor thread only, in the order of the emissions of one thread, exactly once
VH_SCHED_SCENARIO(conc_async)
{
	typedef signal<void (int, int)> Sig;
	Sig sig;
	shared_ptr<ThreadTaskExecutor> e1 = make_shared_ptr<ThreadTaskExecutor>("a1"), e2 = make_shared_ptr<ThreadTaskExecutor>("a2");
	struct Sub { std::vector<int> got[2]; int bad; };
	std::vector<std::shared_ptr<Sub> > subs;
	std::vector<Token> tokens;
	int owner[2] = { -2, -2 };
	for (int i = 0; i < 3; ++i)
	{
		std::shared_ptr<Sub> s = std::make_shared<Sub>(); s->bad = 0;
		subs.push_back(s);
		Sub* p = s.get(); int* ow = &owner[i % 2];
		tokens.push_back(sig.connect(i % 2 ? e2 : e1, sk::F<void (int, int)>([p, ow](int t, int v)
		{ if (*ow == -2) *ow = vs_self(); if (*ow != vs_self()) ++p->bad; p->got[t].push_back(v); vs_yield(); })));
	}
	const int n = 2 + rng.Below(4);
	{
		vs::Threads th;
		for (int t = 0; t < 2; ++t)
			th.Add([&, t]() { for (int k = 0; k < n; ++k) sig(t, k); });
	}
	vs::Drain(e1, sk::Task); vs::Drain(e2, sk::Task);
	tokens.clear(); e1.reset(); e2.reset();
	for (size_t i = 0; i < subs.size(); ++i)
		for (int t = 0; t < 2; ++t)
		{
			bool ok = (int)subs[i]->got[t].size() == n && !subs[i]->bad;
			for (int k = 0; ok && k < n; ++k) ok = subs[i]->got[t][k] == k;
			VH_CHECK(ok, "signal-conc:async-order", "slot " << i << " emitter " << t << " received " << subs[i]->got[t].size() << " of " << n << " foreign-thread calls " << subs[i]->bad);
		}
}
