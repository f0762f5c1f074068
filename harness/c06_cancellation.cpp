// C06: cancellation tokens, condition waits and handler registration. Monitors: token-tree model against the virtual clock (reason
// truthful, no early return, no late return, no lost wake-up), handler call/unregister trace checker, sequential token model.
#include "vsx.h"
#include "sk.h"
#include <stingraykit/thread/CancellationRegistrator.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/ConditionVariable.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/thread/JoiningCancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <map>

using namespace stingray;

namespace {
	enum { CancelCall = 1, CancelRet, WaitCall, WaitRet, BroadcastEv, HandlerIn, HandlerOut, ResetEv, RegCall, RegRet, UnregCall, UnregRet, SleepCall, SleepRet };
	const char* const Names[] = { "?", "cancel", "cancelled", "wait", "wait-ret", "broadcast", "handler-in", "handler-out", "reset", "register", "registered", "unregister", "unregistered", "sleep", "sleep-ret" };

	// a random tree of tokens over distinct cancellable leaves
	struct Tree
	{
		std::vector<std::shared_ptr<CancellationToken> > leaves;      // cancellable
		std::vector<std::shared_ptr<void> > keep;
		std::vector<uint64_t> deadlines;                              // absolute virtual times of the timed nodes (upper end)
		std::string shape;
		const ICancellationToken* root;
		bool bounded;                                                 // a dummy leaf supports only bounded sleeps
		Tree() : root(0), bounded(false) { }

		const ICancellationToken* Make(vh::Rng& r, int depth)
		{
			const unsigned k = depth <= 0 ? r.Below(3) : r.Below(7);
			if (k <= 1)
			{
				std::shared_ptr<CancellationToken> t(new CancellationToken());
				leaves.push_back(t);
				shape += "C" + std::to_string(leaves.size() - 1);
				return t.get();
			}
			if (k == 2)
			{
				if (r.Bool()) { std::shared_ptr<DummyCancellationToken> t(new DummyCancellationToken()); keep.push_back(t); shape += "D"; bounded = true; return t.get(); }
				const int64_t ms = r.Below(6);
				std::shared_ptr<TimedCancellationToken> t(new TimedCancellationToken(TimeDuration(ms)));
				deadlines.push_back(vs_now_ns() + ms * 1000000);
				keep.push_back(t); shape += "T" + std::to_string(ms);
				return t.get();
			}
			if (k <= 4)
			{
				shape += "t(";
				const ICancellationToken* in = Make(r, depth - 1);
				const int64_t ms = r.Below(8);
				std::shared_ptr<TimedCancellationToken> t(new TimedCancellationToken(*in, TimeDuration(ms)));
				deadlines.push_back(vs_now_ns() + ms * 1000000);
				keep.push_back(t); shape += "," + std::to_string(ms) + ")";
				return t.get();
			}
			shape += "J(";
			const ICancellationToken* a = Make(r, depth - 1);
			shape += ",";
			const ICancellationToken* b = Make(r, depth - 1);
			std::shared_ptr<JoiningCancellationToken> t(new JoiningCancellationToken(*a, *b));
			keep.push_back(t); shape += ")";
			return t.get();
		}
		~Tree() { for (auto& l : leaves) l->Cancel(); root = 0; while (!keep.empty()) keep.pop_back(); }
		bool HasDeadline(uint64_t& d) const { if (deadlines.empty()) return false; d = *std::min_element(deadlines.begin(), deadlines.end()); return true; }
	};

	const uint64_t Slack = 200000;      // 0.2 ms: bookkeeping of the strict virtual clock is some 100 ns per clock call

	const char* Text(ConditionWaitResult r)
	{ return r == ConditionWaitResult::Broadcasted ? "broadcasted" : r == ConditionWaitResult::Cancelled ? "cancelled" : "timed out"; }
}

// One waiter, several cancellers acting at chosen virtual times (or right away): the wait must end exactly when the model says.
static void SleepCase(vh::Rng& rng, bool strict)
{
	vh_log_clear();
	Tree tr;
	tr.root = tr.Make(rng, 3);
	uint64_t deadline = 0; const bool hasDeadline = tr.HasDeadline(deadline);
	const bool useCond = rng.Bool();

	struct C { size_t leaf; uint64_t delay; };
	std::vector<C> plan;
	for (size_t i = 0; i < tr.leaves.size(); ++i)
		if (rng.Chance(2, 3)) { C c = { i, rng.Chance(1, 3) ? 0 : rng.Below(9) * 1000000 + 500000 }; plan.push_back(c); }
	// cancelled before the wait begins
	std::vector<bool> before(plan.size());
	for (size_t i = 0; i < plan.size(); ++i)
		if (rng.Chance(1, 5)) { before[i] = true; tr.leaves[plan[i].leaf]->Cancel(); }
	if (rng.Chance(1, 4)) vs_advance_ns(rng.Below(5) * 1000000);

	optional<TimeDuration> d;
	if (rng.Chance(2, 3) || tr.bounded) d = TimeDuration((int64_t)rng.Below(10));
	// something must end the wait
	if (!d && !hasDeadline && plan.empty())
		d = TimeDuration((int64_t)rng.Below(10));
	if (useCond && !d && !hasDeadline && plan.empty()) return;
	if (useCond && !hasDeadline && plan.empty()) return;

	const uint64_t start = vs_now_ns();
	vs::Threads th;
	uint64_t earliestCancel = ~0ull;
	for (size_t i = 0; i < plan.size(); ++i)
	{
		if (before[i]) { earliestCancel = 0; continue; }
		earliestCancel = std::min(earliestCancel, start + plan[i].delay);
		const C c = plan[i];
		Tree* t = &tr;
		th.Add([c, t]() { if (c.delay) vs_advance_ns(c.delay); vh_log(CancelCall, c.leaf, 0, 0); t->leaves[c.leaf]->Cancel(); vh_log(CancelRet, c.leaf, 0, 0); });
	}
	bool anyCancelled = false;
	uint64_t callTime = vs_now_ns(), endTime = 0;
	std::string what;
	if (useCond)
	{
		Mutex m; ConditionVariable cv;
		MutexLock l(m);
		vh_log(WaitCall, 0, 0, 0);
		const ConditionWaitResult r = cv.Wait(m, *tr.root);
		endTime = vs_now_ns();
		anyCancelled = tr.root->IsCancelled();
		const bool timedOut = tr.root->IsTimedOut();
		vh_log(WaitRet, r.val(), anyCancelled, timedOut);
		what = std::string("wait on ") + tr.shape + " returned " + Text(r) + " after " + std::to_string(endTime - callTime) + " ns, cancelled=" + std::to_string(anyCancelled) + ", timed out=" + std::to_string(timedOut);
		VH_CHECK(r != ConditionWaitResult::Broadcasted, "wait:reason-broadcast", what << vs::DumpLog(Names));
		if (r == ConditionWaitResult::Cancelled) VH_CHECK(anyCancelled, "wait:reason-cancelled", what << vs::DumpLog(Names));
		if (r == ConditionWaitResult::TimedOut) VH_CHECK(timedOut || (hasDeadline && endTime + Slack >= deadline), "wait:reason-timeout", what << vs::DumpLog(Names));
		vh_count(r == ConditionWaitResult::Cancelled ? "waits_cancelled" : "waits_timed_out", 1);
		d = null;
	}
	else
	{
		vh_log(SleepCall, d ? d->GetMilliseconds() : -1, 0, 0);
		const bool full = tr.root->Sleep(d);
		endTime = vs_now_ns();
		anyCancelled = tr.root->IsCancelled();
		const bool timedOut = tr.root->IsTimedOut();
		vh_log(SleepRet, full, anyCancelled, timedOut);
		what = std::string("sleep(") + (d ? std::to_string(d->GetMilliseconds()) : "forever") + ") on " + tr.shape + " returned " + std::to_string(full) + " after " + std::to_string(endTime - callTime) + " ns, cancelled=" + std::to_string(anyCancelled) + ", timed out=" + std::to_string(timedOut);
		if (full) VH_CHECK(d && endTime - callTime + Slack >= (uint64_t)d->GetMilliseconds() * 1000000, "sleep:claims-full-duration", what << vs::DumpLog(Names));
		else VH_CHECK(anyCancelled || timedOut || (hasDeadline && endTime + Slack >= deadline) || (d && endTime - callTime + Slack >= (uint64_t)d->GetMilliseconds() * 1000000), "sleep:ended-without-reason", what << vs::DumpLog(Names));
		if (full && hasDeadline && *d > TimeDuration()) VH_CHECK(callTime + (uint64_t)d->GetMilliseconds() * 1000000 <= deadline + Slack, "sleep:full-beyond-timeout", what << ", token deadline " << (int64_t)(deadline - callTime) << vs::DumpLog(Names));
		// (outside strict time a concurrent cancellation of another joined token may be arbitrarily slow to arrive)
		const bool onlyBefore = std::find(before.begin(), before.end(), false) == before.end();
		if (before.size() && earliestCancel == 0 && (strict || onlyBefore)) VH_CHECK(!full || (d && *d == TimeDuration()), "sleep:cancelled-before-lost", what << vs::DumpLog(Names));
		vh_count(full ? "sleeps_full" : "sleeps_interrupted", 1);
	}
	if (strict)
	{
		uint64_t due = earliestCancel;
		if (hasDeadline) due = std::min(due, deadline);
		if (d) due = std::min(due, callTime + (uint64_t)d->GetMilliseconds() * 1000000);
		due = std::max(due, callTime);
		VH_CHECK(endTime <= due + Slack, "wait:late", what << ", due after " << (int64_t)(due - callTime) << " ns" << vs::DumpLog(Names));
		VH_CHECK(endTime + Slack >= due, "wait:early", what << ", due after " << (int64_t)(due - callTime) << " ns" << vs::DumpLog(Names));
	}
	th.Join();
	vh_distinct("histories", vh::HashStr(tr.shape + what));
	vh_distinct("traces", vh_log_hash());
}
VH_STRICT_SCENARIO(token_wait_exact) { SleepCase(rng, true); }
VH_SCHED_SCENARIO(token_wait_race) { SleepCase(rng, false); }

// Several waiters share a condition variable; every waiter leaves when its predicate holds, its token is cancelled or times out.
static void CondCase(vh::Rng& rng)
{
	vh_log_clear();
	Mutex m; ConditionVariable cv;
	int generation = 0;
	const int waiters = 1 + rng.Below(3);
	std::vector<std::shared_ptr<Tree> > trees;
	for (int i = 0; i < waiters; ++i) { trees.push_back(std::make_shared<Tree>()); trees[i]->root = trees[i]->Make(rng, 2); }
	const int plain = rng.Below(2);
	std::vector<uint64_t> seeds; for (int i = 0; i < 8; ++i) seeds.push_back(rng.Next());
	const int generations = 1 + rng.Below(3);
	vs::Threads th;
	for (int i = 0; i < waiters; ++i)
		th.Add([&, i]()
		{
			const ICancellationToken& tok = *trees[i]->root;
			MutexLock l(m);
			int seen = 0;
			while (seen < generations)
			{
				if (generation > seen) { seen = generation; continue; }
				vh_log(WaitCall, i, 0, 0);
				const ConditionWaitResult r = cv.Wait(m, tok);
				uint64_t deadline = 0;
				const bool c = tok.IsCancelled(), t = tok.IsTimedOut() || (trees[i]->HasDeadline(deadline) && vs_now_ns() + Slack >= deadline);
				vh_log(WaitRet, i, r.val(), generation);
				if (r == ConditionWaitResult::Cancelled) { VH_CHECK(c, "cond:reason-cancelled", "waiter " << i << " on " << trees[i]->shape << " told cancelled" << vs::DumpLog(Names)); vh_count("waits_cancelled", 1); break; }
				if (r == ConditionWaitResult::TimedOut) { VH_CHECK(t, "cond:reason-timeout", "waiter " << i << " on " << trees[i]->shape << " told timed out" << vs::DumpLog(Names)); vh_count("waits_timed_out", 1); break; }
				vh_count("waits_broadcasted", 1);
			}
		});
	if (plain)
		th.Add([&]() { MutexLock l(m); int seen = 0; while (seen < generations) { if (generation > seen) { seen = generation; continue; } cv.Wait(m); } });
	th.Add([&]()
	{
		vh::Rng r(seeds[0]);
		for (int g = 0; g < generations; ++g)
		{
			vs::Pause(r); if (r.Chance(1, 3)) vs_advance_ns(r.Below(4) * 1000000);
			MutexLock l(m); ++generation; vh_log(BroadcastEv, g, 0, 0); cv.Broadcast();
		}
	});
	for (int i = 0; i < waiters; ++i)
		if (seeds[1] >> i & 1)
			th.Add([&, i]() { vh::Rng r(seeds[2 + i]); for (size_t k = 0; k < trees[i]->leaves.size(); ++k) { vs::Pause(r); if (r.Chance(1, 2)) vs_advance_ns(r.Below(4) * 1000000); if (r.Bool()) { vh_log(CancelCall, i, k, 0); trees[i]->leaves[k]->Cancel(); vh_log(CancelRet, i, k, 0); } } });
	th.Join();
	// every "broadcasted" must be explained by a broadcast or by a cancellation of somebody waiting on the same condition
	std::map<int64_t, uint32_t> open;
	for (uint32_t i = 0; i < vh_log_size(); ++i)
	{
		const vh_event& e = *vh_log_at(i);
		if (e.type == WaitCall) open[e.a] = i;
		else if (e.type == WaitRet && e.b == ConditionWaitResult(ConditionWaitResult::Broadcasted).val())
		{
			bool ok = false;
			for (uint32_t k = open[e.a]; k < i && !ok; ++k) ok = vh_log_at(k)->type == BroadcastEv || vh_log_at(k)->type == CancelCall;
			for (uint32_t k = 0; k < open[e.a] && !ok; ++k)      // a cancellation begun earlier and still in progress
				if (vh_log_at(k)->type == CancelCall)
				{
					bool done = false;
					for (uint32_t j = k; j < open[e.a]; ++j) if (vh_log_at(j)->type == CancelRet && vh_log_at(j)->a == vh_log_at(k)->a && vh_log_at(j)->b == vh_log_at(k)->b) done = true;
					ok = !done;
				}
			VH_CHECK(ok, "cond:reason-broadcast", "waiter " << e.a << " told broadcasted at event " << i << vs::DumpLog(Names));
		}
	}
	vh_distinct("traces", vh_log_hash());
}
VH_SCHED_SCENARIO(cond_wait) { CondCase(rng); }
VH_STRICT_SCENARIO(cond_wait_strict) { CondCase(rng); }
VH_FREE_SCENARIO(free_cond_wait) { vs_noise(30, 20); CondCase(rng); vs_noise(0, 0); }

namespace {
	struct Handler : public ICancellationHandler
	{
		int64_t id; uint64_t seed; int payload;
		explicit Handler(int64_t i, uint64_t s) : id(i), seed(s), payload(7) { }
		~Handler() override { payload = 0; }
		void Cancel() override { vh_log(HandlerIn, id, 0, 0); vh::Rng r(seed); vs::Pause(r); if (r.Chance(1, 4)) vs_advance_ns(500000); VH_CHECK(payload == 7, "handler:dead-object", "handler " << id << " was called after its end"); vh_log(HandlerOut, id, 0, 0); }
		void Reset() override { vh_log(ResetEv, id, 0, 0); }
	};
}

// Handlers are registered and unregistered while the tokens are cancelled.
static void HandlerCase(vh::Rng& rng)
{
	vh_log_clear();
	Tree tr;
	tr.root = tr.Make(rng, 2);
	const size_t leaves = tr.leaves.size();
	std::vector<uint64_t> seeds; for (int i = 0; i < 8; ++i) seeds.push_back(rng.Next());
	const int rounds = 1 + rng.Below(4);
	{
		vs::Threads th;
		th.Add([&]()
		{
			vh::Rng r(seeds[0]);
			for (int i = 0; i < rounds; ++i)
			{
				vs::Pause(r);
				std::unique_ptr<Handler> h(new Handler(i, r.Next()));
				vh_log(RegCall, i, 0, 0);
				{
					std::unique_ptr<CancellationRegistrator> reg(new CancellationRegistrator(*tr.root, *h));
					const bool ok = !reg->IsCancelled();
					uint64_t deadline = 0;
					const bool ended = tr.root->IsCancelled() || tr.root->IsTimedOut() || (tr.HasDeadline(deadline) && vs_now_ns() + Slack >= deadline);
					vh_log(RegRet, i, ok, ended);
					if (!ok) VH_CHECK(ended, "handler:refused-without-reason", "registration refused on a live token " << tr.shape << vs::DumpLog(Names));
					vs::Pause(r); if (r.Chance(1, 3)) vs_advance_ns(r.Below(4) * 500000);
					vh_log(UnregCall, i, 0, 0);
				}
				vh_log(UnregRet, i, 0, 0);
			}
		});
		for (size_t k = 0; k < leaves; ++k)
			if (seeds[1] >> k & 1)
				th.Add([&, k]() { vh::Rng r(seeds[2 + k % 6] + k); vs::Pause(r); if (r.Chance(1, 2)) vs_advance_ns(r.Below(4) * 500000); vh_log(CancelCall, k, 0, 0); tr.leaves[k]->Cancel(); vh_log(CancelRet, k, 0, 0); });
		th.Join();
	}
	struct H { uint32_t regCall, regRet, unregCall, unregRet; bool ok; int calls, open; H() : regCall(~0u), regRet(~0u), unregCall(~0u), unregRet(~0u), ok(false), calls(0), open(0) { } };
	std::map<int64_t, H> hs;
	std::vector<std::pair<uint32_t, uint32_t> > cancels;
	std::map<int64_t, uint32_t> cc;
	for (uint32_t i = 0; i < vh_log_size(); ++i)
	{
		const vh_event& e = *vh_log_at(i);
		switch (e.type)
		{
		case RegCall: hs[e.a].regCall = i; break;
		case RegRet: hs[e.a].regRet = i; hs[e.a].ok = e.b; break;
		case UnregCall: hs[e.a].unregCall = i; break;
		case UnregRet: hs[e.a].unregRet = i; VH_CHECK(hs[e.a].open == 0, "handler:running-after-unregister", "handler " << e.a << " on " << tr.shape << vs::DumpLog(Names)); break;
		case HandlerIn:
			++hs[e.a].calls; ++hs[e.a].open;
			VH_CHECK(hs[e.a].regCall != ~0u && hs[e.a].unregRet == ~0u, "handler:called-while-not-registered", "handler " << e.a << " on " << tr.shape << vs::DumpLog(Names));
			break;
		case HandlerOut: --hs[e.a].open; break;
		case CancelCall: cc[e.a] = i; break;
		case CancelRet: cancels.push_back(std::make_pair(cc[e.a], i)); break;
		}
	}
	size_t total = 0;
	for (auto& p : hs)
	{
		const H& h = p.second;
		size_t during = 0, may = 0;
		for (auto& c : cancels)
		{
			if (h.ok && c.first > h.regRet && c.second < h.unregCall) ++during;
			if (c.second > h.regCall && c.first < h.unregRet) ++may;
		}
		VH_CHECK(h.calls >= (int)during && h.calls <= (int)may, "handler:calls", "handler " << p.first << " on " << tr.shape << " was called " << h.calls << " times, " << during << " cancellations while registered, " << may << " possible" << vs::DumpLog(Names));
		if (!h.ok) VH_CHECK(h.calls <= (int)may, "handler:called-though-refused", "handler " << p.first << vs::DumpLog(Names));
		// a cancellation that completed before registration must be noticed by the registration itself
		for (auto& c : cancels)
			if (c.second < h.regCall) VH_CHECK(!h.ok || h.calls > 0, "handler:registered-on-cancelled-token", "handler " << p.first << " on " << tr.shape << " was registered although a joined token was cancelled" << vs::DumpLog(Names));
		total += h.calls;
	}
	vh_count("handlers_checked", hs.size()); vh_count("handler_calls", total);
	vh_distinct("traces", vh_log_hash());
}
VH_SCHED_SCENARIO(handlers) { HandlerCase(rng); }
VH_FREE_SCENARIO(free_handlers) { vs_noise(30, 20); HandlerCase(rng); vs_noise(0, 0); }

// Sequential life of a plain token: cancel, reset, cancellators, registration.
VH_SCENARIO(token_model)
{
	vh::Trace t;
	for (int c = 0; c < 20; ++c)
	{
		std::shared_ptr<CancellationToken> tok(new CancellationToken());
		bool cancelled = false;
		struct Count : public ICancellationHandler { int calls, resets; Count() : calls(0), resets(0) { } void Cancel() override { ++calls; } void Reset() override { ++resets; } } h;
		std::unique_ptr<CancellationRegistrator> reg;
		std::vector<Token> cancellators;
		int expected = 0;
		for (int i = 0, n = rng.Below(12); i < n; ++i)
		{
			switch (rng.Below(7))
			{
			case 0:
				t << " cancel"; tok->Cancel();
				if (!cancelled && reg && !reg->IsCancelled()) ++expected;
				cancelled = true;
				break;
			case 1:
				{
					t << " reset";
					bool threw = false;
					const bool inUse = reg && !reg->IsCancelled();
					try { tok->Reset(); } catch (const std::exception&) { threw = true; }
					VH_CHECK(threw == inUse, "token:reset", "reset " << (threw ? "rejected" : "accepted") << " while a handler is " << (inUse ? "" : "not ") << "registered:" << t.Str());
					if (!threw) cancelled = false;
					break;
				}
			case 2:
				if (!reg)
				{
					t << " register"; reg.reset(new CancellationRegistrator(*tok, h));
					VH_CHECK(reg->IsCancelled() == cancelled, "token:register", "registration on a " << (cancelled ? "cancelled" : "live") << " token:" << t.Str());
				}
				break;
			case 3: t << " unregister"; reg.reset(); break;
			case 4: t << " cancellator"; cancellators.push_back(tok->GetCancellator()); break;
			case 5:
				if (!cancellators.empty())
				{
					t << " release-cancellator"; cancellators.pop_back();
					if (!cancelled && reg && !reg->IsCancelled()) ++expected;
					cancelled = true;
				}
				break;
			case 6: t << " sleep"; VH_CHECK(tok->Sleep(TimeDuration()) == !cancelled, "token:sleep", t.Str()); break;
			}
			VH_CHECK(tok->IsCancelled() == cancelled && !tok->IsTimedOut() && !tok->GetTimeout(), "token:state", t.Str());
			VH_CHECK(static_cast<bool>(static_cast<const ICancellationToken&>(*tok)) == !cancelled, "token:bool", t.Str());
			VH_CHECK(h.calls == expected, "token:handler-calls", h.calls << " calls, " << expected << " expected:" << t.Str());
		}
		reg.reset();
		tok->Cancel();
		tok.reset();
		cancellators.clear();
		t << " |";
	}
	vh_distinct("histories", vh::HashStr(t.Str()));
}
