// C14: FIFO, LRU and two-queue caches against a list model; evictions are compared in order, also when the handler calls back into the cache.
#include "vh.h"
#include "sk.h"
#include <stingraykit/collection/QueueCache.h>
#include <stingraykit/collection/TwoQueueCache.h>
#include <list>
#include <string>
#include <vector>

using namespace stingray;

namespace {
	struct ClassLess : public comparers::RelationalComparerInfo { bool operator () (int a, int b) const { return a % 7 < b % 7; } };
	struct LengthMapper { size_t operator () (const std::string& v) const { return v.size(); } };

	typedef std::function<bool (int, int)> Eq;
	typedef std::function<size_t (const std::string&)> Sizer;

	struct Events { std::vector<std::string> log; };

	// what the policies say, on plain lists
	struct QModel
	{
		size_t cap; bool lru; Eq eq; Sizer sizer; std::function<void (int, const std::string&)> evicted;
		std::list<std::pair<int, std::string> > q; // oldest first
		std::list<std::pair<int, std::string> >::iterator Find(int k) { for (auto i = q.begin(); i != q.end(); ++i) if (eq(i->first, k)) return i; return q.end(); }
		size_t Size() const { size_t s = 0; for (const auto& i : q) s += sizer(i.second); return s; }
		bool TryGet(int k, std::string& out) { auto i = Find(k); if (i == q.end()) return false; out = i->second; if (lru) q.splice(q.end(), q, i); return true; }
		void Set(int k, const std::string& v)
		{
			auto i = Find(k);
			if (i == q.end()) q.push_back(std::make_pair(k, v)); else { i->second = v; q.splice(q.end(), q, i); }
			while (Size() > cap) { const auto old = q.front(); q.pop_front(); evicted(old.first, old.second); }
		}
		bool Remove(int k) { auto i = Find(k); if (i == q.end()) return false; q.erase(i); return true; }
	};
	struct TwoModel
	{
		QModel in, out, hot;
		TwoModel(size_t a, size_t b, size_t c, const Eq& eq, const Sizer& s, const std::function<void (int, const std::string&)>& ev)
			: in{ a, false, eq, s, nullptr, {} }, out{ b, false, eq, s, ev, {} }, hot{ c, true, eq, s, ev, {} }
		{ in.evicted = [this](int k, const std::string& v) { out.Set(k, v); }; }
		size_t Size() const { return in.Size() + out.Size() + hot.Size(); }
		bool TryGet(int k, std::string& o) { if (hot.TryGet(k, o) || in.TryGet(k, o)) return true; if (!out.TryGet(k, o)) return false; out.Remove(k); hot.Set(k, o); return true; }
		void Set(int k, const std::string& v) { if (!hot.Remove(k)) out.Remove(k); in.Set(k, v); }
		bool Remove(int k) { return hot.Remove(k) || out.Remove(k) || in.Remove(k); }
		bool Holds(int k) { return in.Find(k) != in.q.end() || out.Find(k) != out.q.end() || hot.Find(k) != hot.q.end(); }
		void Clear() { in.q.clear(); out.q.clear(); hot.q.clear(); }
		bool Within() const { return in.Size() <= in.cap && out.Size() <= out.cap && hot.Size() <= hot.cap; }
		size_t Total() const { return in.cap + out.cap + hot.cap; }
		std::string Show() const { std::string r; for (const QModel* m : { &in, &out, &hot }) { r += "["; for (auto& i : m->q) r += std::to_string(i.first) + ":" + i.second + " "; r += "]"; } return r; }
	};
	struct OneModel : QModel
	{
		OneModel(size_t a, bool lru_, const Eq& e, const Sizer& s, const std::function<void (int, const std::string&)>& ev) : QModel{ a, lru_, e, s, ev, {} } { }
		bool Holds(int k) { return Find(k) != q.end(); }
		void Clear() { q.clear(); }
		size_t Total() const { return cap; }
		std::string Show() const { std::string r = "["; for (auto& i : q) r += std::to_string(i.first) + ":" + i.second + " "; return r + "]"; }
	};

	// a handler that sometimes calls back into the cache: a function of the evicted key only, so model and cache see the same
	template < typename X > void React(X& x, int k, int mode, int& depth, std::vector<std::string>& log)
	{
		if (!mode || depth >= 2) return;
		++depth;
		std::string o = "none";
		switch ((k + mode) % 5)
		{
		case 0: log.push_back(x.TryGet(k + 1, o) ? "got " + o : "no"); break;
		case 1: log.push_back(x.Remove(k + 1) ? "removed" : "absent"); break;
		case 2: x.Set(k + 2, "r"); log.push_back("set"); break;
		case 3: x.Set(k, "back"); log.push_back("re-set"); break;
		}
		--depth;
	}

	template < typename C, typename M > void Drive(vh::Rng& rng, C& c, M& m, std::vector<std::string>& real, std::vector<std::string>& model, int keys, bool sized, size_t maxValue, const char* name, vh::Trace& t)
	{
		for (int step = 0; step < 80 && !vh_violated(); ++step)
		{
			const int k = (int)rng.Below(keys), op = (int)rng.Below(16);
			const std::string v = sized ? std::string(rng.Chance(1, 6) ? rng.Below(2 * maxValue + 2) : rng.Below(maxValue + 1), (char)('a' + rng.Below(26))) : "v" + std::to_string(step);
			real.clear(); model.clear();
			t << op << "(" << k << (op < 8 && sized ? "," + v : "") << ") ";
			if (op < 7) { c.Set(k, v); m.Set(k, v); }
			else if (op < 12)
			{
				std::string a = "none", b = "none"; const bool ra = c.TryGet(k, a), rb = m.TryGet(k, b);
				VH_CHECK(ra == rb && a == b, "cache:lookup", k << " " << a << " instead of " << b << " " << m.Show() << "; " << t.Str());
			}
			else if (op < 15) VH_CHECK(c.Remove(k) == m.Remove(k), "cache:remove", k << "; " << t.Str());
			else if (rng.Chance(1, 6)) { c.Clear(); m.Clear(); }
			VH_CHECK(real == model, "cache:evictions", [&] { std::string r; for (auto& s : real) r += s + ","; r += " instead of "; for (auto& s : model) r += s + ","; return r; }() << " " << m.Show() << "; " << t.Str());
			VH_CHECK(c.GetSize() == m.Size() && c.GetSize() <= m.Total(), "cache:size", c.GetSize() << " instead of " << m.Size() << "; " << t.Str());
			vh_count("evictions", model.size());
		}
		// what is left: every key is held exactly when the model holds it
		for (int k = 0; k < keys + 4 && !vh_violated(); ++k)
		{
			std::string a = "none", b = "none"; const bool ra = c.TryGet(k, a), rb = m.TryGet(k, b);
			VH_CHECK(ra == rb && a == b, "cache:final-content", k << " " << a << " instead of " << b << "; " << t.Str());
		}
		vh_distinct(name, vh::HashStr(t.Str())); vh_count("operations", 80);
	}

	template < typename C > void OneQueue(vh::Rng& rng, bool lru, const Eq& eq, const Sizer& sizer, bool sized, const char* name)
	{
		vh::Trace t;
		const size_t cap = rng.Chance(1, 12) ? 0 : 1 + rng.Below(sized ? 16 : 7); const int keys = 2 + (int)rng.Below(12); const int mode = rng.Chance(1, 3) ? 1 + (int)rng.Below(5) : 0;
		t << name << " capacity " << cap << " mode " << mode << ": ";
		std::vector<std::string> real, model; int d1 = 0, d2 = 0; OneModel* mp = nullptr;
		C c(cap);
		OneModel m(cap, lru, eq, sizer, [&](int k, const std::string& v) { model.push_back(std::to_string(k) + "=" + v); React(*mp, k, cap > 1 ? mode : 0, d2, model); }); mp = &m;
		const Token tok = c.OnEvicted().connect(sk::F<void (int, const std::string&)>([&](int k, const std::string& v) { real.push_back(std::to_string(k) + "=" + v); React(c, k, cap > 1 ? mode : 0, d1, real); }));
		Drive(rng, c, m, real, model, keys, sized, 5, name, t);
	}

	template < typename C > void TwoQueue(vh::Rng& rng, const Eq& eq, const Sizer& sizer, bool sized, const char* name)
	{
		vh::Trace t;
		const size_t a = rng.Below(sized ? 10 : 4), b = rng.Below(sized ? 10 : 4), h = rng.Below(sized ? 10 : 4); const int keys = 2 + (int)rng.Below(12);
		t << name << " capacities " << a << " " << b << " " << h << ": ";
		std::vector<std::string> real, model;
		C c(a, b, h);
		TwoModel m(a, b, h, eq, sizer, [&](int k, const std::string& v) { model.push_back(std::to_string(k) + "=" + v); });
		const Token tok = c.OnEvicted().connect(sk::F<void (int, const std::string&)>([&](int k, const std::string& v) { real.push_back(std::to_string(k) + "=" + v); }));
		Drive(rng, c, m, real, model, keys, sized, 4, name, t);
	}

	bool Same(int a, int b) { return a == b; }
	bool SameClass(int a, int b) { return a % 7 == b % 7; }
	size_t Unit(const std::string&) { return 1; }
	size_t Length(const std::string& v) { return v.size(); }
}

VH_SCENARIO(fifo)
{
	switch (rng.Below(3))
	{
	case 0: OneQueue<FifoCache<int, std::string> >(rng, false, &Same, &Unit, false, "fifo"); break;
	case 1: OneQueue<FifoCache<int, std::string, LengthMapper> >(rng, false, &Same, &Length, true, "fifo sized"); break;
	default: OneQueue<FifoCache<int, std::string, LengthMapper, ClassLess> >(rng, false, &SameClass, &Length, true, "fifo classes");
	}
}

VH_SCENARIO(lru)
{
	switch (rng.Below(3))
	{
	case 0: OneQueue<LruCache<int, std::string> >(rng, true, &Same, &Unit, false, "lru"); break;
	case 1: OneQueue<LruCache<int, std::string, LengthMapper> >(rng, true, &Same, &Length, true, "lru sized"); break;
	default: OneQueue<LruCache<int, std::string, LengthMapper, ClassLess> >(rng, true, &SameClass, &Length, true, "lru classes");
	}
}

VH_SCENARIO(two_queue)
{
	switch (rng.Below(3))
	{
	case 0: TwoQueue<TwoQueueCache<int, std::string> >(rng, &Same, &Unit, false, "two-queue"); break;
	case 1: TwoQueue<TwoQueueCache<int, std::string, LengthMapper> >(rng, &Same, &Length, true, "two-queue sized"); break;
	default: TwoQueue<TwoQueueCache<int, std::string, LengthMapper, ClassLess> >(rng, &SameClass, &Length, true, "two-queue classes");
	}
}
