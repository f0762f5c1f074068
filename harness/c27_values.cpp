// C27: observable values and values and futures obtained from signals. Monitors: offline checker of recorded assignments,
// announcements, reads and subscriptions (one order of changes, explained by all observers); models for histories in one thread.
#define STINGRAY_LIB_SOURCE 1
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/string/ToString.h>
#include "vsx.h"
#include "sk.h"
#include <stingraykit/collection/MapObservableDictionary.h>
#include <stingraykit/collection/ObservableDictionaryKeyValue.h>
#include <stingraykit/collection/ObservableSetEntry.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include <stingraykit/collection/TransactionalDictionary.h>
#include <stingraykit/collection/TransactionalDictionaryKeyValue.h>
#include <stingraykit/future.h>
#include <stingraykit/ObservableValue.h>
#include <stingraykit/signal/SignalToFuture.h>
#include <stingraykit/signal/ValueFromSignalObtainer.h>
#include <stingraykit/signal/signals.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <vector>

using namespace stingray;

namespace {

	enum { SetCall = 1, SetRet, Change, GetCall, GetRet, ConCall, ConRet, Recv, DisCall, DisRet };
	const char* const Names[] = { "?", "set", "set-ret", "change", "get", "got", "connect", "connected", "received", "disconnect", "disconnected" };

	// a value which is whole or not
	struct Whole
	{
		int a; std::string s; int b;
		Whole(int v = 0) : a(v), s(std::to_string(v) + std::string(20, 'x')), b(~v) { }
		bool operator == (const Whole& o) const { return a == o.a && s == o.s && b == o.b; }
		bool operator != (const Whole& o) const { return !(*this == o); }
		bool operator < (const Whole& o) const { return a < o.a; }
	};

	int Decode(const Whole& w)
	{
		VH_CHECK(w.b == ~w.a && w.s == std::to_string(w.a) + std::string(20, 'x'), "value:torn", w.a << " " << w.s << " " << w.b);
		return w.a;
	}
	int Decode(const optional<Whole>& w) { return w ? Decode(*w) : -1; }
	int Decode(bool b) { return b; }

	typedef std::function<void (int)> Handler;

	struct IVal
	{
		virtual ~IVal() { }
		virtual void Set(int v) = 0;
		virtual int Get() const = 0;
		virtual Token Connect(const Handler& h, bool populate) = 0;
		virtual const Mutex& Sync() const = 0;
		virtual std::unique_ptr<IVal> Another() { return std::unique_ptr<IVal>(); } // another view of the same value
		virtual void SetOther(int) { }
	};
	typedef std::unique_ptr<IVal> IValPtr;

	template < typename Obs, typename V >
	struct ObsVal : IVal
	{
		std::shared_ptr<Obs> o;
		explicit ObsVal(const std::shared_ptr<Obs>& o_) : o(o_) { }
		void Set(int v) override { o->Set(V(v)); }
		int Get() const override { return Decode(o->Get()); }
		Token Connect(const Handler& h, bool populate) override
		{ return o->OnChanged().connect(function<typename Obs::OnChangedSignature>(sk::F<typename Obs::OnChangedSignature>([h](typename Obs::ParamPassingType v) { h(Decode(v)); })), populate); }
		const Mutex& Sync() const override { return o->GetSyncRoot(); }
	};

	typedef MapObservableDictionary<int, Whole> ObsDict;
	struct DictVal : IVal
	{
		shared_ptr<ObsDict> d;
		shared_ptr<IObservableValue<optional<Whole> > > kv;
		explicit DictVal(const shared_ptr<ObsDict>& d_) : d(d_), kv(GetDictionaryKeyValue(shared_ptr<IObservableDictionary<int, Whole> >(d_), 5)) { }
		void Set(int v) override { kv->Set(v == -1 ? optional<Whole>() : optional<Whole>(Whole(v))); }
		int Get() const override { return Decode(kv->Get()); }
		Token Connect(const Handler& h, bool populate) override
		{ return kv->OnChanged().connect(function<void (const optional<Whole>&)>(sk::F<void (const optional<Whole>&)>([h](const optional<Whole>& v) { h(Decode(v)); })), populate); }
		const Mutex& Sync() const override { return kv->GetSyncRoot(); }
		std::unique_ptr<IVal> Another() override { return std::unique_ptr<IVal>(new DictVal(d)); }
		void SetOther(int v) override { if (v % 3) d->Set(4 + v % 2 * 2, Whole(v)); else d->Remove(6); }
	};

	typedef SortedObservableSet<int> ObsSet;
	struct EntryVal : IVal
	{
		shared_ptr<ObsSet> d;
		shared_ptr<IObservableValue<bool> > kv;
		explicit EntryVal(const shared_ptr<ObsSet>& d_) : d(d_), kv(GetSetEntry(shared_ptr<IObservableSet<int> >(d_), 5)) { }
		void Set(int v) override { kv->Set(v); }
		int Get() const override { return kv->Get(); }
		Token Connect(const Handler& h, bool populate) override
		{ return kv->OnChanged().connect(function<void (bool)>(sk::F<void (bool)>([h](bool v) { h(v); })), populate); }
		const Mutex& Sync() const override { return kv->GetSyncRoot(); }
		std::unique_ptr<IVal> Another() override { return std::unique_ptr<IVal>(new EntryVal(d)); }
		void SetOther(int v) override { if (v % 3) d->Add(4); else d->Remove(4); }
	};

	typedef TransactionalDictionary<int, Whole> TransDict;
	struct TransVal : IVal
	{
		shared_ptr<TransDict> d;
		shared_ptr<IReadonlyObservableValue<optional<Whole> > > kv;
		explicit TransVal(const shared_ptr<TransDict>& d_) : d(d_), kv(GetDictionaryKeyValue(shared_ptr<IReadonlyTransactionalDictionary<int, Whole> >(d_), 5)) { }
		void Set(int v) override
		{
			const TransDict::TransactionTypePtr tr = d->StartTransaction();
			if (v % 2) tr->Set(4, Whole(v));
			if (v == -1) tr->Remove(5); else { if (v % 3 == 0) tr->Remove(5); tr->Set(5, Whole(v)); }
			tr->Commit();
		}
		int Get() const override { return Decode(kv->Get()); }
		Token Connect(const Handler& h, bool populate) override
		{ return kv->OnChanged().connect(function<void (const optional<Whole>&)>(sk::F<void (const optional<Whole>&)>([h](const optional<Whole>& v) { h(Decode(v)); })), populate); }
		const Mutex& Sync() const override { return kv->GetSyncRoot(); }
		std::unique_ptr<IVal> Another() override { return std::unique_ptr<IVal>(new TransVal(d)); }
		void SetOther(int v) override
		{
			const TransDict::TransactionTypePtr tr = d->StartTransaction();
			tr->Set(6, Whole(v));
			if (v % 2) { tr->Set(5, Whole(77)); tr->Revert(); }
			else if (v % 3 == 0) { tr->Set(5, Whole(78)); return; } // destroyed without commit
			tr->Commit();
		}
	};

	enum Pop { Always, IfDiffers, Never };
	struct Kind { const char* name; Pop pop; bool strict; int defaultValue; int start; bool optional_; bool boolean; };

	typedef ObservableValue<Whole> MandatoryValue;
	typedef ObservableValue<Whole, comparers::Equals, ObservableValuePolicies::ConditionalPopulation> ConditionalValue;
	typedef ObservableValue<Whole, comparers::Equals, ObservableValuePolicies::DisabledPopulation> DisabledValue;

	IValPtr Make(vh::Rng& rng, Kind& k, shared_ptr<Mutex>& external)
	{
		switch (rng.Below(6))
		{
		case 0: k = Kind{ "mandatory", Always, true, 0, 2, false, false };
			if (rng.Bool()) { external = make_shared_ptr<Mutex>(); return IValPtr(new ObsVal<MandatoryValue, Whole>(std::make_shared<MandatoryValue>(external, Whole(2)))); }
			return IValPtr(new ObsVal<MandatoryValue, Whole>(std::make_shared<MandatoryValue>(Whole(2))));
		case 1: k = Kind{ "conditional", IfDiffers, true, 1, (int)rng.Below(2), false, false };
			return IValPtr(new ObsVal<ConditionalValue, Whole>(std::make_shared<ConditionalValue>(Whole(k.start), ObservableValuePolicies::PopulateIfDiffers(Whole(1)))));
		case 2: k = Kind{ "disabled", Never, true, 0, 0, false, false };
			return IValPtr(new ObsVal<DisabledValue, Whole>(std::make_shared<DisabledValue>(Whole(0))));
		case 3: { k = Kind{ "dictionary", Always, false, 0, -1, true, false };
			const shared_ptr<ObsDict> d = make_shared_ptr<ObsDict>();
			if (rng.Bool()) { d->Set(5, Whole(2)); k.start = 2; }
			return IValPtr(new DictVal(d)); }
		case 4: { k = Kind{ "set", Always, false, 0, 0, false, true };
			const shared_ptr<ObsSet> d = make_shared_ptr<ObsSet>();
			if (rng.Bool()) { d->Add(5); k.start = 1; }
			return IValPtr(new EntryVal(d)); }
		default: { k = Kind{ "transactional", Always, true, 0, -1, true, false };
			const shared_ptr<TransDict> d = make_shared_ptr<TransDict>();
			if (rng.Bool()) { const TransDict::TransactionTypePtr tr = d->StartTransaction(); tr->Set(5, Whole(2)); tr->Commit(); k.start = 2; }
			return IValPtr(new TransVal(d)); }
		}
	}

	void CheckTrace(const Kind& k)
	{
		const uint32_t n = vh_log_size();
		std::vector<int> vals; std::vector<uint32_t> at; // the changes: vals[i] is current from at[i]
		vals.push_back(k.start); at.push_back(0);
		struct Call { uint32_t call; int64_t v; int changes; };
		std::map<int64_t, Call> open;  // by thread
		std::map<int64_t, int> current; // change index => thread's open call
		std::vector<uint32_t> changeDone; changeDone.push_back(0); // when the assignment which made it was over
		std::map<int64_t, std::vector<size_t> > made;
		for (uint32_t i = 0; i < n; ++i)
		{
			const vh_event& e = *vh_log_at(i);
			if (e.type == SetCall) open[e.thread] = Call{ i, e.a, 0 };
			else if (e.type == Change)
			{
				VH_CHECK(open.count(e.thread), std::string("value:announced-without-assignment:") + k.name, "value " << e.a << " at " << i << ":" << vs::DumpLog(Names));
				Call& c = open[e.thread];
				VH_CHECK(c.v == e.a, std::string("value:wrong-announced:") + k.name, "assigned " << c.v << ", announced " << e.a << vs::DumpLog(Names));
				VH_CHECK(++c.changes == 1, std::string("value:announced-twice:") + k.name, "value " << e.a << " at " << i << ":" << vs::DumpLog(Names));
				VH_CHECK(!k.strict || vals.back() != e.a, std::string("value:announced-equal:") + k.name, "value " << e.a << " at " << i << ":" << vs::DumpLog(Names));
				made[e.thread].push_back(vals.size());
				vals.push_back((int)e.a); at.push_back(i); changeDone.push_back(n);
			}
			else if (e.type == SetRet)
			{
				const Call c = open[e.thread]; open.erase(e.thread);
				for (size_t m = 0; m < made[e.thread].size(); ++m) changeDone[made[e.thread][m]] = i;
				made.erase(e.thread);
				if (!c.changes)
				{
					bool was = false;
					for (size_t v = 0; v < vals.size(); ++v)
						if (vals[v] == c.v && (v + 1 >= at.size() || at[v + 1] > c.call)) was = true;
					VH_CHECK(was, std::string("value:missed:") + k.name, "assignment of " << c.v << " at " << c.call << " was not announced:" << vs::DumpLog(Names));
				}
			}
		}
		// reads
		std::map<int64_t, uint32_t> gets;
		struct Sub { uint32_t conCall, conRet, disCall, disRet; bool populate; std::vector<std::pair<uint32_t, int> > got; Sub() : conCall(0), conRet(~0u), disCall(~0u), disRet(~0u), populate(true) { } };
		std::map<int64_t, Sub> subs;
		for (uint32_t i = 0; i < n; ++i)
		{
			const vh_event& e = *vh_log_at(i);
			switch (e.type)
			{
			case GetCall: gets[e.thread] = i; break;
			case GetRet: {
				bool was = false;
				for (size_t v = 0; v < vals.size(); ++v)
					if (vals[v] == e.a && at[v] <= i && (v + 1 >= at.size() || at[v + 1] > gets[e.thread])) was = true;
				VH_CHECK(was, std::string("value:read:") + k.name, "read " << e.a << " at " << i << " was not the value at that time:" << vs::DumpLog(Names));
				break; }
			case ConCall: subs[e.a].conCall = i; subs[e.a].populate = e.b; break;
			case ConRet: subs[e.a].conRet = i; break;
			case DisCall: subs[e.a].disCall = i; break;
			case DisRet: subs[e.a].disRet = i; break;
			case Recv: subs[e.a].got.push_back(std::make_pair(i, (int)e.b)); break;
			}
		}
		for (std::map<int64_t, Sub>::const_iterator it = subs.begin(); it != subs.end(); ++it)
		{
			const Sub& s = it->second;
			VH_CHECK(s.got.empty() || s.got.back().first < s.disRet, std::string("value:after-disconnection:") + k.name, "subscriber " << it->first << ":" << vs::DumpLog(Names));
			bool explained = false;
			size_t longest = 0;
			for (size_t b = 0; b < vals.size() && !explained; ++b)
			{
				if (b + 1 < at.size() && at[b + 1] < s.conCall && changeDone[b + 1] < s.conCall) continue; // vals[b] was history by then
				if (at[b] > s.conRet) break;
				const bool populated = s.populate && (k.pop == Always || (k.pop == IfDiffers && vals[b] != k.defaultValue));
				const size_t from = populated ? b : b + 1;
				bool same = true;
				size_t j = 0;
				for (; j < s.got.size(); ++j)
				{
					if (from + j >= vals.size() || vals[from + j] != s.got[j].second) { same = false; break; }
					if (at[from + j] > s.got[j].first) { same = false; break; }
				}
				longest = std::max(longest, j);
				if (!same) continue;
				if (populated && (s.got.empty() || s.got[0].first > s.conRet)) continue; // the current value first, by the end of the subscription
				// everything announced before the disconnection
				bool complete = true;
				for (size_t v = from + s.got.size(); v < vals.size(); ++v)
					if (changeDone[v] < s.disCall && changeDone[v] < n) complete = false;
				// received during the emission
				for (size_t g = 0; g < s.got.size() && complete; ++g)
					if (!(populated && g == 0) && s.got[g].first > changeDone[from + g]) complete = false;
				if (complete) explained = true;
			}
			VH_CHECK(explained, std::string("value:subscriber:") + k.name, "subscriber " << it->first << " (populate " << s.populate << ", " << s.got.size() << " received, " << longest << " of them in order) did not get the current value and each later one once:" << vs::DumpLog(Names));
			vh_count("subscriptions_checked", 1);
		}
		vh_count("changes_checked", vals.size() - 1);
		vh_distinct("traces", vh_log_hash());
	}

	void Values(vh::Rng& rng)
	{
		vh_log_clear();
		Kind k; shared_ptr<Mutex> external;
		IValPtr v = Make(rng, k, external);
		IVal* pv = v.get();
		const Kind* pk = &k;
		{
			Token recorder = v->Connect([](int x) { vh_log(Change, x, 0, 0); vs_yield(); }, false);
			const int setters = 1 + rng.Below(3), others = rng.Below(3), subscribers = 1 + rng.Below(2);
			const int range = k.boolean ? 2 : 2 + (int)rng.Below(4);
			vs::Threads ts;
			for (int i = 0; i < setters; ++i)
			{
				const uint64_t rs = rng.Next();
				ts.Add([=]() {
					vh::Rng r(rs);
					for (int n = 1 + (int)r.Below(4); n; --n)
					{
						const int x = pk->optional_ && r.Chance(1, 4) ? -1 : (int)r.Below(range);
						if (r.Chance(1, 5)) { pv->SetOther(x + 3); continue; }
						vh_log(SetCall, x, 0, 0);
						pv->Set(x);
						vh_log(SetRet, x, 0, 0);
						vs::Pause(r);
					}
				});
			}
			for (int i = 0; i < others; ++i)
			{
				const uint64_t rs = rng.Next();
				ts.Add([=]() {
					vh::Rng r(rs);
					for (int n = 1 + (int)r.Below(3); n; --n)
					{
						if (r.Chance(1, 3))
						{
							MutexLock l(pv->Sync()); // nothing changes in between
							vh_log(GetCall, 0, 0, 0); const int a = pv->Get(); vh_log(GetRet, a, 0, 0);
							vs::Pause(r);
							const int b = pv->Get();
							VH_CHECK(a == b, std::string("value:changed-under-lock:") + pk->name, a << " became " << b);
						}
						else { vh_log(GetCall, 0, 0, 0); const int a = pv->Get(); vh_log(GetRet, a, 0, 0); }
						vs::Pause(r);
					}
				});
			}
			for (int i = 0; i < subscribers; ++i)
			{
				const uint64_t rs = rng.Next();
				ts.Add([=]() {
					vh::Rng r(rs);
					for (int n = 0; n < 2; ++n)
					{
						const int id = i * 10 + n;
						vs::Pause(r);
						IValPtr own = r.Chance(1, 3) ? pv->Another() : IValPtr();
						const bool populate = r.Chance(3, 4);
						vh_log(ConCall, id, populate, 0);
						Token t = (own ? own.get() : pv)->Connect([id](int x) { vh_log(Recv, id, x, 0); vs_yield(); }, populate);
						vh_log(ConRet, id, 0, 0);
						vs::Pause(r); vs::Pause(r);
						if (r.Chance(1, 4)) { vh_log(GetCall, 0, 0, 0); const int a = pv->Get(); vh_log(GetRet, a, 0, 0); }
						vh_log(DisCall, id, 0, 0);
						t.Reset();
						vh_log(DisRet, id, 0, 0);
					}
				});
			}
			ts.Join();
			vh_log(GetCall, 0, 0, 0); const int a = v->Get(); vh_log(GetRet, a, 0, 0);
			recorder.Reset();
		}
		CheckTrace(k);
	}

	// read-modify-write under the lock of the value loses nothing
	void Counting(vh::Rng& rng)
	{
		shared_ptr<Mutex> m = make_shared_ptr<Mutex>();
		const bool external = rng.Bool();
		const std::shared_ptr<ObservableValue<int> > v = external ? std::make_shared<ObservableValue<int> >(m, 0) : std::make_shared<ObservableValue<int> >(0);
		VH_CHECK(!external || &v->GetSyncRoot() == m.get(), "value:sync-root", "the mutex is another one");
		std::vector<int>* seen = new std::vector<int>;
		Token t = v->OnChanged().connect(sk::F<void (int)>([seen](int x) { seen->push_back(x); })); // called under the lock: no data race
		vs::Threads ts;
		int total = 0;
		for (int i = 0; i < 3; ++i)
		{
			const int n = 1 + rng.Below(3); total += n;
			const uint64_t rs = rng.Next();
			ts.Add([=]() { vh::Rng r(rs); for (int j = 0; j < n; ++j) { MutexLock l(external && r.Bool() ? *m : v->GetSyncRoot()); const int x = *v; vs::Pause(r); *v = x + 1; } });
		}
		ts.Join();
		t.Reset();
		VH_CHECK(v->Get() == total, "value:lost-update", v->Get() << " of " << total);
		VH_CHECK((int)seen->size() == total + 1, "value:count", seen->size() << " announcements of " << total + 1);
		for (size_t i = 0; i < seen->size(); ++i) VH_CHECK((*seen)[i] == (int)i, "value:order", "announcement " << i << " is " << (*seen)[i]);
		delete seen;
		vh_distinct("counting", vh::HashStr(std::to_string(total)));
	}

	// futures of signals
	enum { EmitCall = 1, EmitRet, FConCall, FConRet, WaitCall, WaitRet, DtorCall };
	const char* const FNames[] = { "?", "emit", "emit-ret", "connect", "connected", "wait", "wait-ret", "destroy" };

	void Futures(vh::Rng& rng)
	{
		vh_log_clear();
		const bool populated = rng.Chance(1, 3), isVoid = !populated && rng.Chance(1, 3), mayBreak = rng.Chance(1, 3);
		std::function<void (const function<void (int)>&)> pop = [](const function<void (int)>& slot) { slot(-5); };
		auto nop = sk::F<void (const std::exception&)>([](const std::exception&) { });
		std::shared_ptr<signal<void (int)> > sig(populated
			? new signal<void (int)>(sk::F<void (const function<void (int)>&)>(pop), nop)
			: new signal<void (int)>(null, nop));
		std::shared_ptr<signal<void ()> > vsig(new signal<void ()>(null, nop));

		// the program: emitters; a thread which makes the wrapper and hands its future to waiters
		const int emitters = 1 + rng.Below(3);
		vs::Threads ts;
		vs::Event made; vs::Event* pmade = &made;
		shared_future<int>* fut = new shared_future<int>; shared_future<void>* vfut = new shared_future<void>;
		int total = 0;
		for (int i = 0; i < emitters; ++i)
		{
			const uint64_t rs = rng.Next(); const int n = 1 + rng.Below(3); total += n;
			ts.Add([=]() {
				vh::Rng r(rs);
				if (r.Chance(1, 3)) pmade->Wait();
				for (int j = 0; j < n; ++j)
				{
					const int id = i * 10 + j;
					vh_log(EmitCall, id, 0, 0);
					if (isVoid) (*vsig)(); else (*sig)(id);
					vh_log(EmitRet, id, 0, 0);
					vs::Pause(r);
				}
			});
		}
		const uint64_t rs = rng.Next();
		ts.Add([=]() {
			vh::Rng r(rs);
			std::unique_ptr<SignalToFutureWrapper<int> > w; std::unique_ptr<SignalToFutureWrapper<void> > vw;
			vs::Pause(r);
			vh_log(FConCall, 0, 0, 0);
			if (isVoid) vw.reset(new SignalToFutureWrapper<void>(vsig->connector())); else w.reset(new SignalToFutureWrapper<int>(sig->connector()));
			vh_log(FConRet, 0, 0, 0);
			if (r.Bool()) vs::Pause(r);
			if (isVoid) *vfut = vw->GetFuture(); else *fut = w->GetFuture();
			pmade->Set();
			vs::Pause(r);
			if (!mayBreak)
			{
				// an emission after the subscription makes it ready for sure
				vh_log(EmitCall, 99, 0, 0);
				if (isVoid) (*vsig)(); else (*sig)(99);
				vh_log(EmitRet, 99, 0, 0);
				if (isVoid) VH_CHECK(vw->GetFuture().is_ready(), "future:not-ready", "after an emission"); else VH_CHECK(w->GetFuture().is_ready() && w->GetFuture().has_value(), "future:not-ready", "after an emission");
			}
			vh_log(DtorCall, 0, 0, 0);
		});
		const int waiters = 1 + rng.Below(2);
		for (int i = 0; i < waiters; ++i)
		{
			const uint64_t rw = rng.Next();
			ts.Add([=]() {
				vh::Rng r(rw);
				pmade->Wait();
				vs::Pause(r);
				int64_t res = -1;
				vh_log(WaitCall, i, 0, 0);
				try
				{
					if (isVoid) { vfut->wait(); VH_CHECK(vfut->is_ready(), "future:not-ready", "after the wait"); vfut->get(); res = -3; }
					else { if (r.Bool()) { fut->wait(); VH_CHECK(fut->is_ready(), "future:not-ready", "after the wait"); } res = fut->get(); VH_CHECK(fut->get() == res, "future:changed", res << " became " << fut->get()); }
				}
				catch (const std::exception&) { res = -2; }
				vh_log(WaitRet, i, res, 0);
			});
		}
		ts.Join();
		delete fut; delete vfut;

		std::map<int64_t, std::pair<uint32_t, uint32_t> > emits;
		uint32_t conCall = 0, conRet = ~0u, dtor = ~0u; const uint32_t n = vh_log_size();
		std::set<int64_t> results;
		for (uint32_t i = 0; i < n; ++i)
		{
			const vh_event& e = *vh_log_at(i);
			switch (e.type)
			{
			case EmitCall: emits[e.a] = std::make_pair(i, n); break;
			case EmitRet: emits[e.a].second = i; break;
			case FConCall: conCall = i; break;
			case FConRet: conRet = i; break;
			case DtorCall: dtor = i; break;
			case WaitRet: results.insert(e.b); break;
			}
		}
		VH_CHECK(results.size() == 1, "future:differs", "waiters got different results:" << vs::DumpLog(FNames));
		const int64_t res = *results.begin();
		bool certain = false; uint32_t firstOver = n;
		for (auto it = emits.begin(); it != emits.end(); ++it)
			if (it->second.first > conRet && it->second.second < dtor) { certain = true; firstOver = std::min(firstOver, it->second.second); }
		if (populated) VH_CHECK(res == -5, "future:population", "got " << res << ":" << vs::DumpLog(FNames));
		else if (isVoid) VH_CHECK(res == -3 || (res == -2 && !certain), "future:missed", "got " << res << ":" << vs::DumpLog(FNames));
		else if (res == -2) VH_CHECK(!certain, "future:missed", vs::DumpLog(FNames));
		else
		{
			VH_CHECK(emits.count(res), "future:invented", res << ":" << vs::DumpLog(FNames));
			VH_CHECK(emits[res].second > conCall, "future:stale", res << " was emitted before the subscription:" << vs::DumpLog(FNames));
			VH_CHECK(emits[res].first < firstOver, "future:not-first", res << " was emitted after another one was over:" << vs::DumpLog(FNames));
		}
		vh_distinct("future_traces", vh_log_hash());
		vh_count("futures_checked", 1);
	}
}

VH_SCHED_SCENARIO(value_threads) { Values(rng); }
VH_SCHED_SCENARIO(value_counting) { Counting(rng); }
VH_SCHED_SCENARIO(signal_futures) { Futures(rng); }
VH_FREE_SCENARIO(free_values) { vs_noise(30, 20); Values(rng); Counting(rng); Futures(rng); vs_noise(0, 0); }

namespace {

	struct Mod10
	{
		bool operator () (int l, int r) const { return l % 10 == r % 10; }
	};
	struct EqualMod10 : public comparers::EqualsComparerBase<EqualMod10>
	{
		template < typename T > bool DoCompare(const T& l, const T& r) const { return l % 10 == r % 10; }
	};

	// values whose assignment may fail
	struct Fragile
	{
		static bool& Fail() { static bool f = false; return f; }
		int v;
		Fragile(int v_ = 0) : v(v_) { }
		Fragile(const Fragile& o) : v(o.v) { }
		Fragile& operator = (const Fragile& o) { if (Fail()) throw std::runtime_error("fragile"); v = o.v; return *this; }
		bool operator == (const Fragile& o) const { return v == o.v; }
		bool operator < (const Fragile& o) const { return v < o.v; }
	};

	template < typename Obs, typename V, typename Toi >
	void History(vh::Rng& rng, const char* name, const std::shared_ptr<Obs>& o, int start, bool (*equal)(int, int), bool (*populates)(int), const Toi& toInt)
	{
		typedef typename Obs::OnChangedSignature Sig;
		vh::Trace t; t << name << " from " << start;
		int model = start;
		struct S { std::vector<int> got, expected; Token token; bool on; S() : on(true) { } };
		std::list<S> subs;
		for (int n = 2 + (int)rng.Below(16); n; --n)
		{
			switch (rng.Below(5))
			{
			case 0: case 1: {
				const int x = (int)rng.Below(4) + (rng.Chance(1, 3) ? 10 : 0);
				t << " set " << x;
				if (rng.Bool()) o->Set(V(x)); else *o = V(x);
				if (!equal(model, x)) { model = x; for (S& s : subs) if (s.on) s.expected.push_back(x); }
				break; }
			case 2: {
				subs.push_back(S()); S& s = subs.back(); S* ps = &s;
				const bool populate = rng.Chance(3, 4);
				t << " subscribe(" << populate << ")";
				if (populate && populates(model)) s.expected.push_back(model);
				s.token = o->OnChanged().connect(function<Sig>(sk::F<Sig>([ps, toInt](typename Obs::ParamPassingType v) { ps->got.push_back(toInt(v)); })), populate);
				break; }
			case 3:
				if (!subs.empty()) { auto it = subs.begin(); std::advance(it, rng.Below((unsigned)subs.size())); t << " unsubscribe"; it->token.Reset(); it->on = false; }
				break;
			case 4: {
				std::vector<int> state;
				o->OnChanged().SendCurrentState(function<Sig>(sk::F<Sig>([&](typename Obs::ParamPassingType v) { state.push_back(toInt(v)); })));
				VH_CHECK(state == (populates(model) ? std::vector<int>(1, model) : std::vector<int>()), std::string("value:state:") + name, t.Str());
				typedef typename Decay<typename Obs::ParamPassingType>::ValueT Val;
				const std::vector<Val> vec = GetVectorFromSignal(o->OnChanged());
				VH_CHECK(vec.size() == state.size() && (vec.empty() || toInt(vec[0]) == model), std::string("value:collected:") + name, t.Str());
				VH_CHECK(HasValueInSignal(o->OnChanged()) == !state.empty() && HasTupleInSignal(o->OnChanged()) == !state.empty(), std::string("value:has:") + name, t.Str());
				const auto tuple = GetTupleFromSignal(o->OnChanged());
				VH_CHECK(tuple.is_initialized() == !state.empty() && (!tuple || toInt(tuple->template Get<0>()) == model), std::string("value:tuple:") + name, t.Str());
				break; }
			}
			VH_CHECK(toInt(o->Get()) == model, std::string("value:current:") + name, toInt(o->Get()) << " is not " << model << ":" << t.Str());
			const typename Obs::ValueType conv = *o;
			VH_CHECK(toInt(conv) == model, std::string("value:conversion:") + name, t.Str());
			for (S& s : subs) VH_CHECK(s.got == s.expected, std::string("value:subscriber:") + name, s.got.size() << " values received, " << s.expected.size() << " expected:" << t.Str());
		}
		vh_distinct("value_histories", vh::HashStr(t.Str()));
		for (S& s : subs) s.token.Reset();
	}

	bool Eq(int a, int b) { return a == b; }
	bool Eq10(int a, int b) { return a % 10 == b % 10; }
	bool Yes(int) { return true; }
	bool No(int) { return false; }
	bool NotTwo(int v) { return v != 2; }
	bool NotTwo10(int v) { return v % 10 != 2; }
	bool NotZero(int v) { return v != 0; }
	struct IntToi { int operator () (int v) const { return v; } };
	struct StrToi { int operator () (const std::string& v) const { return std::stoi(v.substr(3)); } };
	struct Str : std::string { Str() { } Str(int v) : std::string("str" + std::to_string(v)) { } Str(const std::string& s) : std::string(s) { } };
	struct FragToi { int operator () (const Fragile& v) const { return v.v; } };
}

VH_SCENARIO(value_history)
{
	using namespace ObservableValuePolicies;
	const int start = (int)rng.Below(4);
	switch (rng.Below(6))
	{
	case 0: History<ObservableValue<int>, int>(rng, "int", std::make_shared<ObservableValue<int> >(start), start, &Eq, &Yes, IntToi()); break;
	case 1: History<ObservableValue<std::string>, Str>(rng, "string", std::make_shared<ObservableValue<std::string> >(Str(start)), start, &Eq, &Yes, StrToi()); break;
	case 2: History<ObservableValue<int, EqualMod10>, int>(rng, "modulo", std::make_shared<ObservableValue<int, EqualMod10> >(start), start, &Eq10, &Yes, IntToi()); break;
	case 3: {
		typedef ObservableValue<int, EqualMod10, ConditionalPopulation> O;
		if (rng.Bool()) History<O, int>(rng, "modulo-conditional", std::make_shared<O>(start, PopulateIfDiffers(2)), start, &Eq10, &NotTwo10, IntToi());
		else { const shared_ptr<Mutex> m = make_shared_ptr<Mutex>(); History<O, int>(rng, "modulo-conditional", std::make_shared<O>(m, start, PopulateIfDiffers(2)), start, &Eq10, &NotTwo10, IntToi()); }
		break; }
	case 4: {
		typedef ObservableValue<int, comparers::Equals, ConditionalPopulation> O;
		if (rng.Bool()) History<O, int>(rng, "conditional", std::make_shared<O>(start, PopulateIfDiffers(2)), start, &Eq, &NotTwo, IntToi());
		else History<O, int>(rng, "conditional-default", std::make_shared<O>(start), start, &Eq, &NotZero, IntToi());
		break; }
	default: {
		typedef ObservableValue<int, comparers::Equals, DisabledPopulation> O;
		History<O, int>(rng, "disabled", std::make_shared<O>(start), start, &Eq, &No, IntToi());
		break; }
	}
	vh_count("histories", 1);

	if (rng.Chance(1, 10))
	{
		// an assignment that fails announces nothing and changes nothing
		ObservableValue<Fragile> f(Fragile(1));
		std::vector<int> got;
		Token tok = f.OnChanged().connect(sk::F<void (const Fragile&)>([&](const Fragile& v) { got.push_back(v.v); }));
		Fragile::Fail() = true;
		bool thrown = false;
		try { f.Set(Fragile(2)); } catch (const std::exception&) { thrown = true; }
		Fragile::Fail() = false;
		VH_CHECK(thrown && got.size() == 1 && f.Get().v == 1, "value:failed-assignment", got.size() << " announcements, value " << f.Get().v);
		f.Set(Fragile(3));
		VH_CHECK(got.size() == 2 && got[1] == 3, "value:after-failed-assignment", got.size());
		tok.Reset();
	}
	if (rng.Chance(1, 10))
	{
		// a subscriber that throws does not deprive others
		ObservableValue<int> v(1);
		std::vector<int> got;
		Token bad = v.OnChanged().connect(sk::F<void (int)>([](int) { throw std::runtime_error("subscriber"); }), false);
		Token tok = v.OnChanged().connect(sk::F<void (int)>([&](int x) { got.push_back(x); }));
		try { v.Set(2); } catch (...) { VH_CHECK(false, "value:subscriber-exception", "reached the caller"); }
		VH_CHECK(got.size() == 2 && got[1] == 2 && v.Get() == 2, "value:throwing-subscriber", got.size());
		bad.Reset(); tok.Reset();
	}
}

// values obtained from signals which send none, one or several values
VH_SCENARIO(signal_values)
{
	std::vector<int> state; for (int n = (int)rng.Below(4); n; --n) state.push_back((int)rng.Range(-3, 3));
	int complaints = 0;
	auto complain = sk::F<void (const std::exception&)>([&](const std::exception&) { ++complaints; });
	signal<void (int)> s(sk::F<void (const function<void (int)>&)>([&](const function<void (int)>& slot) { for (int v : state) slot(v); }), complain);
	signal<void (const std::string&)> ss(sk::F<void (const function<void (const std::string&)>&)>([&](const function<void (const std::string&)>& slot) { for (int v : state) slot("str" + std::to_string(v)); }), complain);
	signal<void ()> vs_(sk::F<void (const function<void ()>&)>([&](const function<void ()>& slot) { for (size_t i = 0; i < state.size(); ++i) slot(); }), complain);
	signal<void (int, std::string)> ts(sk::F<void (const function<void (int, std::string)>&)>([&](const function<void (int, std::string)>& slot) { for (int v : state) slot(v, std::to_string(v)); }), complain);
	signal<void (CollectionOp, int)> cs(sk::F<void (const function<void (CollectionOp, int)>&)>([&](const function<void (CollectionOp, int)>& slot) { for (int v : state) slot(CollectionOp::Added, v); }), complain);
	signal<void (int)> none;
	signal<void (shared_ptr<int>)> ps(sk::F<void (const function<void (shared_ptr<int>)>&)>([&](const function<void (shared_ptr<int>)>& slot) { for (int v : state) slot(make_shared_ptr<int>(v)); }), complain);

	const bool has = !state.empty();
	const int repeats = has ? (int)state.size() - 1 : 0;
	#define FIRST(Expr, Text) { complaints = 0; const bool ok = (Expr); VH_CHECK(ok, "obtained:" Text, state.size() << " values sent"); VH_CHECK(complaints == repeats, "obtained:repeats:" Text, complaints << " complaints for " << state.size() << " values"); }
	{ optional<int> r; FIRST((r = GetValueFromSignal(s.connector()), r.is_initialized() == has && (!has || *r == state[0])), "value"); }
	{ optional<std::string> r; FIRST((r = GetValueFromSignal(ss.connector()), r.is_initialized() == has && (!has || *r == "str" + std::to_string(state[0]))), "string"); }
	{ shared_ptr<int> r; FIRST((r = GetValueFromSignal(ps.connector()), bool(r) == has && (!has || *r == state[0])), "pointer"); }
	FIRST(HasValueInSignal(s.connector()) == has, "has");
	FIRST(HasValueInSignal(vs_.connector()) == has, "has-void");
	FIRST(HasTupleInSignal(ts.connector()) == has, "has-tuple");
	{
		complaints = 0;
		const auto r = GetTupleFromSignal(ts.connector());
		VH_CHECK(r.is_initialized() == has && (!has || (r->Get<0>() == state[0] && r->Get<1>() == std::to_string(state[0]))), "obtained:tuple", state.size() << " values sent");
		VH_CHECK(complaints == repeats, "obtained:repeats:tuple", complaints);
	}
	complaints = 0;
	VH_CHECK(GetVectorFromSignal(s.connector()) == state, "obtained:vector", state.size() << " values sent");
	VH_CHECK(GetVectorFromSignal(cs.connector()) == state, "obtained:collection-vector", state.size() << " values sent");
	{
		const std::set<int> set = GetValuesFromSignal<std::set<int> >(s.connector());
		VH_CHECK(set == std::set<int>(state.begin(), state.end()), "obtained:set", state.size() << " values sent");
	}
	VH_CHECK(!GetValueFromSignal(none.connector()) && !HasValueInSignal(none.connector()) && GetVectorFromSignal(none.connector()).empty(), "obtained:none", "a value from a signal without state");
	VH_CHECK(complaints == 0, "obtained:complaints", complaints);

	// obtainers which stay connected
	{
		ValueFromSignalObtainer<int> o; ValueFromSignalObtainer<void> vo; TupleFromSignalObtainer<int, std::string> to; VectorFromSignalCollector<int> vc;
		Token a = s.connector().connect(o), b = vs_.connector().connect(vo), c = ts.connector().connect(to), d = s.connector().connect(vc);
		std::vector<int> all = state;
		for (int n = (int)rng.Below(3); n; --n) { const int v = (int)rng.Range(-3, 3); all.push_back(v); s(v); vs_(); ts(v, std::to_string(v)); }
		const bool got = !all.empty();
		VH_CHECK(o.HasValue() == got && vo.HasValue() == got && to.HasValues() == got && vc->size() == all.size() && vc.GetValues() == all, "obtainer:has", all.size() << " values sent");
		if (got)
		{
			VH_CHECK(o.GetValue() == all[0], "obtainer:value", o.GetValue() << " is not " << all[0]);
			VH_CHECK(to.GetValue<0>() == all[0] && to.GetValue<1>() == std::to_string(all[0]) && to.GetValues().Get<0>() == all[0], "obtainer:tuple", to.GetValue<0>() << " is not " << all[0]);
		}
		else if (rng.Chance(1, 4))
		{
			int thrown = 0;
			try { o.GetValue(); } catch (const std::exception&) { ++thrown; }
			try { to.GetValue<0>(); } catch (const std::exception&) { ++thrown; }
			try { to.GetValues(); } catch (const std::exception&) { ++thrown; }
			VH_CHECK(thrown == 3, "obtainer:empty", thrown << " of 3 refused");
		}
	}

	// futures
	{
		SignalToFutureWrapper<int> w(s.connector());
		std::vector<int> all = state;
		const bool early = rng.Bool();
		shared_future<int> f; if (early) f = w.GetFuture();
		for (int n = (int)rng.Below(3); n; --n) { const int v = (int)rng.Range(-3, 3); all.push_back(v); s(v); }
		if (!early) f = w.GetFuture();
		VH_CHECK(f.is_ready() == !all.empty() && f.has_value() == !all.empty(), "future:ready", all.size() << " values sent");
		if (!all.empty()) VH_CHECK(f.get() == all[0] && w.GetFuture().get() == all[0] && f.wait() == future_status::ready, "future:value", all.size() << " values sent");
		else
		{
			CancellationToken cancelled; cancelled.Cancel();
			VH_CHECK(f.wait(cancelled) != future_status::ready, "future:ready", "without an emission");
		}
	}
	if (rng.Chance(1, 6))
	{
		signal<void ()> e; shared_future<void> f;
		{
			SignalToFutureWrapper<void> w(e.connector()); f = w.GetFuture();
			VH_CHECK(!f.is_ready(), "future:ready", "without an emission");
			if (rng.Bool()) { e(); VH_CHECK(f.is_ready() && f.has_value(), "future:void", "not ready after an emission"); f.get(); return; }
		}
		e(); // the wrapper is gone: nothing is touched, and those who wait are released
		VH_CHECK(f.is_ready() && !f.has_value() && f.wait() == future_status::ready, "future:abandoned", "would block for ever");
	}
	vh_distinct("states", vh::HashStr(std::to_string(state.size()) + "," + (has ? std::to_string(state[0]) : "")));
	vh_count("signals", 1);
}
