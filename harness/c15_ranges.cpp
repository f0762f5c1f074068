// C15: random compositions of range and enumerable adaptors against the same computation on a plain list.
#include "vh.h"
#include "sk.h"
#include "coll.h"
#include <stingraykit/collection/EnumerableBuilder.h>
#include <stingraykit/collection/EnumerableHelpers.h>
#include <stingraykit/collection/ForEach.h>
#include <stingraykit/collection/FuncEnumerator.h>
#include <stingraykit/collection/Range.h>
#include <stingraykit/collection/KeyValueEnumerableHelpers.h>
#include <stingraykit/collection/iterators.h>
#include <stingraykit/function/bind.h>
#include <array>
#include <deque>
#include <list>
#include <map>
#include <numeric>
#include <set>

using namespace stingray;
using namespace coll;

namespace {
	typedef std::vector<int> V;
	std::string Show(const V& v) { std::string r = "["; for (int i : v) r += std::to_string(i) + " "; return r + "]"; }

	int Pair(int a, int b) { return (a * 31 + b) % 1009; }
	struct Pred { typedef bool RetType; typedef TypeList<int> ParamTypes; int mod, rem; bool operator () (int v) const { return ((v % mod) + mod) % mod != rem; } };
	struct Func { typedef int RetType; typedef TypeList<int> ParamTypes; int mul, add; int operator () (int v) const { return (v * mul + add) % 1009; } };
	struct DescCmp : public comparers::CmpComparerInfo { int operator () (int a, int b) const { return a < b ? 1 : a > b ? -1 : 0; } };
	struct Add2 { typedef int RetType; typedef TypeList<int, int> ParamTypes; int operator () (int a, int b) const { return Pair(a, b); } };
	struct Add3 { typedef int RetType; typedef TypeList<int, int, int> ParamTypes; int operator () (int a, int b, int c) const { return Pair(Pair(a, b), c); } };
	Pred RandPred(vh::Rng& rng) { const int mod = 1 + (int)rng.Below(4); return Pred{ mod, (int)rng.Below(5) }; } // rem >= mod: everything passes; mod 1 rem 0: nothing does
	Func RandFunc(vh::Rng& rng) { static const int mul[] = { 1, 2, 3, 0 }; return Func{ mul[rng.Below(4)], (int)rng.Below(5) }; }
	V RandV(vh::Rng& rng, size_t maxn) { V r(rng.Chance(1, 4) ? rng.Below(2) : rng.Below(maxn + 1)); for (int& i : r) i = (int)rng.Below(12); return r; }
	size_t RandCount(vh::Rng& rng, size_t n) { return rng.Chance(1, 8) ? (size_t)-1 : rng.Below(n + 3); }

	// A range whose implementation is chosen at run time, so that compositions of any depth can be built at random.
	template < typename Cat > class AnyR : public Range::RangeBase<AnyR<Cat>, int, Cat>
	{
		struct Base
		{
			virtual ~Base() { }
			virtual Base* Clone() const = 0; virtual bool Valid() const = 0; virtual int Get() const = 0; virtual bool Equals(const Base& o) const = 0;
			virtual void First() = 0; virtual void Next() = 0; virtual void Last() = 0; virtual void Prev() = 0;
			virtual size_t Pos() const = 0; virtual size_t Size() const = 0; virtual void Move(int d) = 0;
		};
		template < typename R > struct Impl : Base
		{
			typedef std::forward_iterator_tag Fwd; typedef std::random_access_iterator_tag Rnd;
			R r;
			explicit Impl(const R& r_) : r(r_) { }
			Base* Clone() const override { return new Impl(r); }
			bool Valid() const override { return r.Valid(); }
			int Get() const override { return r.Get(); }
			bool Equals(const Base& o) const override { return r == static_cast<const Impl&>(o).r; }
			void First() override { r.First(); }
			void Next() override { r.Next(); }
			void Last() override { r.Last(); }
			void Prev() override { r.Prev(); } // also for forward ranges: a filter over them goes back to find its last element
			size_t Pos() const override { return DoPos(Cat()); }
			size_t Size() const override { return DoSize(Cat()); }
			void Move(int d) override { DoMove(d, Cat()); }
			size_t DoPos(Fwd) const { return 0; } size_t DoPos(Rnd) const { return r.GetPosition(); }
			size_t DoSize(Fwd) const { return 0; } size_t DoSize(Rnd) const { return r.GetSize(); }
			void DoMove(int, Fwd) { } void DoMove(int d, Rnd) { r.Move(d); }
		};
		std::unique_ptr<Base> _p;
	public:
		template < typename R > AnyR(const R& r, int) : _p(new Impl<R>(r)) { }
		AnyR(const AnyR& o) : _p(o._p->Clone()) { }
		AnyR& operator = (const AnyR& o) { _p.reset(o._p->Clone()); return *this; }
		bool Valid() const { return _p->Valid(); }
		int Get() const { return _p->Get(); }
		bool Equals(const AnyR& o) const { return _p->Equals(*o._p); }
		AnyR& First() { _p->First(); return *this; }
		AnyR& Next() { _p->Next(); return *this; }
		AnyR& Last() { _p->Last(); return *this; }
		AnyR& Prev() { _p->Prev(); return *this; }
		size_t GetPosition() const { return _p->Pos(); }
		size_t GetSize() const { return _p->Size(); }
		AnyR& Move(int d) { _p->Move(d); return *this; }
	};
	template < typename R > AnyR<typename R::Category> Erase(const R& r) { return AnyR<typename R::Category>(r, 0); }

	struct Ctx { vh::Rng& rng; std::string what; bool back; }; // back: the range may be walked back from its end

	template < typename R > void Forward(const R& range, const V& expect, const Ctx& c)
	{
		V got; R r(range);
		for (; r.Valid(); r.Next()) { got.push_back(r.Get()); if (got.size() > expect.size() + 3) break; }
		VH_CHECK(got == expect, "range:forward", c.what << " gives " << Show(got) << " instead of " << Show(expect));
		r.First();
		VH_CHECK(r.Valid() == !expect.empty() && (!r.Valid() || r.Get() == expect[0]), "range:first", c.what << ": First after the end, expected " << Show(expect));
		V loop; size_t limit = expect.size() + 3;
		try { for (int v : range) { loop.push_back(v); if (!--limit) break; } }
		catch (const std::exception& ex) { vh_violation("range:for", (c.what + ": range-based for throws " + ex.what() + " after " + Show(loop) + " instead of " + Show(expect)).c_str()); }
		VH_CHECK(loop == expect, "range:for", c.what << ": range-based for gives " << Show(loop) << " instead of " << Show(expect));
		V other; for (int v : IterableRange(range)) other.push_back(v);
		VH_CHECK(other == expect, "range:iterable", c.what << ": IterableRange gives " << Show(other) << " instead of " << Show(expect));
		vh_count("elements compared", expect.size() * 3);
	}

	template < typename R > void Queries(const R& r, const V& e, const Ctx& c)
	{
		vh::Rng& rng = c.rng;
		const int probe = e.empty() || rng.Chance(1, 3) ? (int)rng.Below(40) : e[rng.Below(e.size())];
		const Pred p = RandPred(rng);
		const size_t idx = rng.Below(e.size() + 2);
		const size_t cnt = std::count_if(e.begin(), e.end(), p);
		const size_t at = std::find(e.begin(), e.end(), probe) - e.begin(), atp = std::find_if(e.begin(), e.end(), p) - e.begin();
		#define Q(expr, want) VH_CHECK((expr) == (want), "range:query", c.what << ": " #expr " is wrong for " << Show(e) << " probe " << probe << " mod " << p.mod << " rem " << p.rem << " index " << idx)
		Q(Range::Count(r), e.size());
		Q((r | Count()), e.size());
		Q((r | Any()), !e.empty());
		Q(Range::Contains(r, probe), at < e.size());
		Q(Range::Contains(r, p), cnt > 0);
		Q(Range::IndexOf(r, probe), (at < e.size() ? optional<size_t>(at) : optional<size_t>()));
		Q(Range::IndexOf(r, p), (atp < e.size() ? optional<size_t>(atp) : optional<size_t>()));
		Q(Range::AnyOf(r, p), cnt > 0);
		Q(Range::AllOf(r, p), cnt == e.size());
		Q(Range::NoneOf(r, p), cnt == 0);
		Q(Range::FirstOrDefault(r, -7), e.empty() ? -7 : e[0]);
		Q(Range::FirstOrDefault(r), (e.empty() ? optional<int>() : optional<int>(e[0])));
		Q(Range::ElementAtOrDefault(r, idx), (idx < e.size() ? optional<int>(e[idx]) : optional<int>()));
		Q(Range::ElementAtOrDefault(r, idx, -7), (idx < e.size() ? e[idx] : -7));
		Q(Range::Sum(r), std::accumulate(e.begin(), e.end(), 0));
		Q(Range::MinElement(r), (e.empty() ? optional<int>() : optional<int>(*std::min_element(e.begin(), e.end()))));
		Q(Range::MaxElement(r), (e.empty() ? optional<int>() : optional<int>(*std::max_element(e.begin(), e.end()))));
		const auto step = [] (unsigned a, unsigned b) { return a * 31 + b; };
		unsigned f = 0; for (size_t i = 0; i < e.size(); ++i) f = i ? step(f, e[i]) : e[i];
		unsigned f2 = 17; for (int v : e) f2 = step(f2, v);
		const auto fold = sk::F<int (int, int)>([&] (int a, int b) { return (int)step(a, b); });
		const auto fold2 = sk::F<unsigned (unsigned, int)>([&] (unsigned a, int b) { return step(a, b); });
		Q(Range::Fold(r, fold), (e.empty() ? optional<int>() : optional<int>((int)f)));
		Q((Range::Fold<unsigned>(r, 17u, fold2)), f2);
		bool threw = false; int got = 0;
		try { got = Range::First(r); } catch (const std::exception&) { threw = true; }
		Q(threw, e.empty()); if (!threw) Q(got, e[0]);
		threw = false;
		try { got = Range::ElementAt(r, idx); } catch (const std::exception&) { threw = true; }
		Q(threw, idx >= e.size()); if (!threw) Q(got, e[idx]);
		V each; Range::ForEach(r, sk::F<void (int)>([&] (int v) { each.push_back(v); }));
		Q(each, e);
		V copied; Range::Copy(r, std::back_inserter(copied));
		Q(copied, e);
		V dst(e.size()); Range::Copy(r, ToRange(dst));
		Q(dst, e);
		#undef Q
		vh_count("queries compared", 26);
	}

	template < typename R > void Both(const R& range, const V& expect, const Ctx& c, std::forward_iterator_tag) { }
	template < typename R > void Both(const R& range, const V& expect, const Ctx& c, std::bidirectional_iterator_tag)
	{
		const size_t n = expect.size();
		try
		{
			V got; R r(range); r.Last();
			if (r.Valid())
			{
				const R first = R(range).First();
				for (;;) { got.push_back(r.Get()); if (r == first || got.size() > n + 3) break; r.Prev(); }
			}
			std::reverse(got.begin(), got.end());
			VH_CHECK(got == expect, "range:backward", c.what << " backwards gives (reversed) " << Show(got) << " instead of " << Show(expect));
			V rev; for (R b = range.begin(), x = range.end(); c.back && x != b; ) { --x; rev.push_back(*x); if (rev.size() > n + 3) break; }
			if (c.back) { std::reverse(rev.begin(), rev.end()); VH_CHECK(rev == expect, "range:iterators", c.what << ": from end() to begin() gives (reversed) " << Show(rev) << " instead of " << Show(expect)); }
			// a walk in both directions
			R w(range); size_t pos = 0; std::string path;
			for (int i = 0; i < 25; ++i)
			{
				const size_t k = c.rng.Below(8);
				if (k < 3 && pos < n) { w.Next(); ++pos; path += "+"; }
				else if (k < 6 && pos > 0 && (pos < n || c.back)) { w.Prev(); --pos; path += "-"; }
				else if (k == 6 && c.rng.Chance(1, 3)) { w.First(); pos = 0; path += "F"; }
				else if (k == 7 && n && c.rng.Chance(1, 3)) { w.Last(); pos = n - 1; path += "L"; }
				VH_CHECK(w.Valid() == (pos < n) && (pos >= n || w.Get() == expect[pos]), "range:walk", c.what << ": after " << path << " expected position " << pos << " of " << Show(expect) << (w.Valid() ? ", is at " + std::to_string(w.Get()) : std::string(", is at the end")));
			}
			vh_count("navigation steps compared", 25 + 2 * n);
		}
		catch (const std::exception& ex) { vh_violation("range:walk-throws", (c.what + ": navigation within " + Show(expect) + " throws " + ex.what()).c_str()); }
	}
	template < typename R > void Both(const R& range, const V& expect, const Ctx& c, std::random_access_iterator_tag)
	{
		Both(range, expect, c, std::bidirectional_iterator_tag());
		const size_t n = expect.size();
		try
		{
			R w(range); w.First(); size_t pos = 0; std::string path;
			for (int i = 0; i < 12; ++i)
			{
				const size_t to = c.rng.Below(n + 1);
				const int by = (int)to - (int)pos;
				{ const R x = c.rng.Chance(1, 2) ? w + by : w - -by; VH_CHECK(x.Valid() == (to < n) && (to >= n || x.Get() == expect[to]), "range:offset", c.what << ": position " << pos << " plus " << by << " is not position " << to << " of " << Show(expect)); }
				if (c.rng.Chance(1, 2)) w += by; else w -= -by;
				pos = to; path += " " + std::to_string(by);
				VH_CHECK(w.Valid() == (pos < n) && (pos >= n || w.Get() == expect[pos]), "range:move", c.what << ": after moves" << path << " expected position " << pos << " of " << Show(expect));
				VH_CHECK(w.GetPosition() == pos && w.GetSize() == n, "range:position", c.what << ": after moves" << path << " position is " << w.GetPosition() << " of " << w.GetSize() << " instead of " << pos << " of " << n);
				VH_CHECK(w - range.begin() == (std::ptrdiff_t)pos && range.end() - w == (std::ptrdiff_t)(n - pos), "range:distance", c.what << ": distances wrong at position " << pos << " of " << n);
			}
			const size_t beyond = n + 1 + c.rng.Below(3); bool threw = false;
			try { R(range.begin()).Move((int)beyond); } catch (const std::exception&) { threw = true; }
			VH_CHECK(threw, "range:move-beyond", c.what << ": moving to " << beyond << " of " << n << " is not refused");
			vh_count("moves compared", 12);
		}
		catch (const std::exception& ex) { vh_violation("range:move-throws", (c.what + ": moving within " + Show(expect) + " throws " + ex.what()).c_str()); }
	}

	template < typename R > void CheckRange(const R& r, const V& e, const Ctx& c, int depth = 0);

	V Rev(V v) { std::reverse(v.begin(), v.end()); return v; }
	V DropV(const V& v, size_t n) { return n >= v.size() ? V() : V(v.begin() + n, v.end()); }
	V TakeV(const V& v, size_t n) { return n >= v.size() ? v : V(v.begin(), v.begin() + n); }
	V FilterV(const V& v, Pred p) { V r; for (int i : v) if (p(i)) r.push_back(i); return r; }
	V MapV(const V& v, Func f) { V r; for (int i : v) r.push_back(f(i)); return r; }
	std::string S(size_t n) { return n > 1000 ? "max" : std::to_string(n); }

	template < typename Cat > void Compose(const AnyR<Cat>& r, const V& e, const Ctx& c, int depth);
	template < typename R > void Step(const R& r, const V& e, const Ctx& c, int depth) { CheckRange(r, e, c, depth); }
	template < typename R > void CheckRange(const R& r, const V& e, const Ctx& c, int depth)
	{
		Forward(r, e, c);
		Both(r, e, c, typename R::Category());
		const auto any = Erase(r);
		if (c.rng.Chance(1, 3)) { Forward(any, e, c); Both(any, e, c, typename R::Category()); }
		Queries(any, e, c);
		vh_count("range compositions checked", 1);
		vh_distinct("range compositions", vh::HashStr(c.what.c_str()));
		if (depth > 0 && e.size() <= 20 && !vh_violated()) Compose(any, e, c, depth - 1);
	}

	template < typename R > void More(const R& r, const V& e, const Ctx& c, int depth, std::forward_iterator_tag) { const Pred p = RandPred(c.rng); Step(r | Filter(p), FilterV(e, p), Ctx{ c.rng, c.what + "|Filter" + std::to_string(p.mod) + "," + std::to_string(p.rem), c.back }, depth); }
	template < typename R > void More(const R& r, const V& e, const Ctx& c, int depth, std::bidirectional_iterator_tag)
	{
		switch (c.rng.Below(6))
		{
		case 0: Step(r | Reverse(), Rev(e), Ctx{ c.rng, c.what + "|Reverse", true }, depth); break;
		case 1: { V k(e); k.insert(k.end(), e.begin(), e.end()); Step(Range::Concat(r, r), k, Ctx{ c.rng, c.what + "|ConcatSelf", false }, depth); break; }
		case 2:
			if (!e.empty())
			{
				const size_t n = c.rng.Below(2 * e.size() + 3);
				V k; for (size_t i = 0; i < n; ++i) k.push_back(e[i % e.size()]);
				Step(Range::Take(Range::Cycle(r), n), k, Ctx{ c.rng, c.what + "|Cycle|Take" + S(n), true }, depth);
				break;
			}
		case 3:
		{
			std::vector<R> parts; V k; const size_t n = c.rng.Below(4);
			for (size_t i = 0; i < n; ++i) { parts.push_back(r); k.insert(k.end(), e.begin(), e.end()); }
			Step(Range::Flatten(ToRange(parts)), k, Ctx{ c.rng, c.what + "|FlattenSame" + S(n), false }, depth);
			break;
		}
		case 4:
		{
			const V other = RandV(c.rng, 3); V k(other); k.insert(k.end(), e.begin(), e.end()); k.push_back(5);
			Step(Range::Concat(Erase(ToRange(other)), r, Erase(Range::Single(5))), k, Ctx{ c.rng, c.what + "|Concat" + Show(other), false }, depth);
			break;
		}
		default: Step(Range::Reverse(r), Rev(e), Ctx{ c.rng, c.what + "|Reverse", true }, depth); break;
		}
	}

	template < typename Cat > void Compose(const AnyR<Cat>& r, const V& e, const Ctx& c, int depth)
	{
		const size_t n = RandCount(c.rng, e.size());
		const Pred p = RandPred(c.rng); const Func f = RandFunc(c.rng);
		const V other = RandV(c.rng, 5);
		const std::string ps = std::to_string(p.mod) + "," + std::to_string(p.rem), fs = std::to_string(f.mul) + "," + std::to_string(f.add);
		switch (c.rng.Below(9))
		{
		case 0: Step(Range::Filter(r, p), FilterV(e, p), Ctx{ c.rng, c.what + "|Filter" + ps, c.back }, depth); break;
		case 1: Step(r | Transform(f), MapV(e, f), Ctx{ c.rng, c.what + "|Transform" + fs, c.back }, depth); break;
		case 2: Step(Range::Drop(r, n), DropV(e, n), Ctx{ c.rng, c.what + "|Drop" + S(n), c.back }, depth); break;
		case 3: Step(r | Take(n), TakeV(e, n), Ctx{ c.rng, c.what + "|Take" + S(n), c.back }, depth); break;
		case 4:
		{
			V z; for (size_t i = 0; i < e.size() && i < other.size(); ++i) z.push_back(Pair(e[i], other[i]));
			Step(Range::Zip(Add2(), r, ToRange(other)), z, Ctx{ c.rng, c.what + "|Zip" + Show(other), false }, depth);
			break;
		}
		case 5:
		{
			V z; for (size_t i = 0; i < e.size(); ++i) z.push_back(Pair(e[i], e[i]));
			Step(Range::Zip(Add2(), r, r), z, Ctx{ c.rng, c.what + "|ZipSelf", false }, depth);
			break;
		}
		default: More(r, e, c, depth, Cat()); break;
		}
	}

	template < typename C > void Over(const C& cont, const char* name, vh::Rng& rng, int depth)
	{
		const V e(cont.begin(), cont.end());
		CheckRange(ToRange(cont), e, Ctx{ rng, std::string(name) + Show(e), true }, depth);
	}

	// one adaptor over the plain range, every type as a user would have it
	void Plain(vh::Rng& rng)
	{
		const V e = RandV(rng, 7); const auto r = ToRange(e); const std::string w = Show(e);
		const size_t n = RandCount(rng, e.size()); const Pred p = RandPred(rng); const Func f = RandFunc(rng);
		const std::string ps = std::to_string(p.mod) + "," + std::to_string(p.rem), fs = std::to_string(f.mul) + "," + std::to_string(f.add);
		switch (rng.Below(7))
		{
		case 0: Step(r | Filter(p), FilterV(e, p), Ctx{ rng, w + "|Filter" + ps, true }, 0); break;
		case 1: Step(r | Transform(f) | Reverse(), Rev(MapV(e, f)), Ctx{ rng, w + "|Transform" + fs + "|Reverse", true }, 0); break;
		case 2: Step(r | Drop(n) | Transform(f), MapV(DropV(e, n), f), Ctx{ rng, w + "|Drop" + S(n) + "|Transform" + fs, true }, 0); break;
		case 3: Step(r | Take(n) | Filter(p) | Transform(f), MapV(FilterV(TakeV(e, n), p), f), Ctx{ rng, w + "|Take" + S(n) + "|Filter" + ps + "|Transform" + fs, true }, 0); break;
		case 4: Step(r | Reverse() | Drop(n), DropV(Rev(e), n), Ctx{ rng, w + "|Reverse|Drop" + S(n), true }, 0); break;
		case 5: Step(r | Reverse() | Take(n) | Reverse(), Rev(TakeV(Rev(e), n)), Ctx{ rng, w + "|Reverse|Take" + S(n) + "|Reverse", true }, 0); break;
		case 6: { V z; for (int x : e) if (p(x)) { const int y = f(x); z.push_back(Pair(y, y)); } const auto q = r | Filter(p) | Transform(f); Step(Range::Zip(Add2(), q, q), z, Ctx{ rng, w + "|Filter" + ps + "|Transform" + fs + "|ZipSelf", false }, 0); break; }
		}
	}

	// sources that are made of several sub-ranges
	void Nested(vh::Rng& rng)
	{
		switch (rng.Below(4))
		{
		case 0:
		{
			std::vector<V> vv(rng.Below(5)); V e; std::string what = "Flatten{";
			for (V& v : vv) { v = rng.Chance(1, 3) ? V() : RandV(rng, 3); e.insert(e.end(), v.begin(), v.end()); what += Show(v); }
			CheckRange(Range::Flatten(ToRange(static_cast<const std::vector<V>&>(vv))), e, Ctx{ rng, what + "}", false }, 2);
			break;
		}
		case 1:
		{
			V src = RandV(rng, 12); const size_t n = 1 + rng.Below(5);
			V got; for (auto r = Range::Flatten(Range::Split(src, n)); r.Valid() && got.size() <= src.size(); r.Next()) got.push_back(r.Get());
			VH_CHECK(got == src, "range:forward", "Flatten{Split" << n << Show(src) << "} gives " << Show(got)); // this one cannot go backwards
			break;
		}
		case 2:
		{
			const V a = RandV(rng, 4), b = RandV(rng, 3), d = RandV(rng, 3);
			V e(a); e.insert(e.end(), b.begin(), b.end()); e.insert(e.end(), d.begin(), d.end());
			const std::list<int> l(b.begin(), b.end());
			CheckRange(Range::Concat(ToRange(a), ToRange(l), ToRange(d)), e, Ctx{ rng, "Concat" + Show(a) + Show(b) + Show(d), false }, 2);
			break;
		}
		case 3:
		{
			const V a = RandV(rng, 4), b = RandV(rng, 4), d = RandV(rng, 4);
			V e; for (size_t i = 0; i < a.size() && i < b.size() && i < d.size(); ++i) e.push_back(Pair(Pair(a[i], b[i]), d[i]));
			CheckRange(Range::Zip(Add3(), ToRange(a), ToRange(b), ToRange(d)), e, Ctx{ rng, "Zip" + Show(a) + Show(b) + Show(d), false }, 2);
			break;
		}
		}
	}

	void Sources(vh::Rng& rng)
	{
		const V v = RandV(rng, 7);
		switch (rng.Below(6))
		{
		case 0: Over(std::list<int>(v.begin(), v.end()), "list", rng, 2); break;
		case 1: Over(std::set<int>(v.begin(), v.end()), "set", rng, 2); break;
		case 2: Over(std::deque<int>(v.begin(), v.end()), "deque", rng, 2); break;
		case 3: { const int x = (int)rng.Below(10); CheckRange(Range::Single(x), V(1, x), Ctx{ rng, "Single" + std::to_string(x), true }, 2); break; }
		case 4:
		{
			std::map<int, int> m; for (int i : v) m[i] = i * 7 % 5;
			V k, x; for (const auto& p : m) { k.push_back(p.first); x.push_back(p.second); }
			CheckRange(Range::MapKeys(ToRange(m)), k, Ctx{ rng, "MapKeys" + Show(k), true }, 1);
			CheckRange(Range::MapValues(ToRange(m)), x, Ctx{ rng, "MapValues" + Show(x), true }, 1);
			break;
		}
		case 5:
		{
			int arr[4]; V e; for (int& i : arr) { i = (int)rng.Below(9); e.push_back(i); }
			CheckRange(ToRange(arr), e, Ctx{ rng, "array" + Show(e), true }, 1);
			break;
		}
		}
	}

	// ranges of pointers: casts and selection by dynamic type
	struct Animal { int id; explicit Animal(int i) : id(i) { } virtual ~Animal() { } };
	struct Cat : Animal { using Animal::Animal; };
	typedef shared_ptr<Animal> AnimalPtr; typedef shared_ptr<Cat> CatPtr;
	struct Id { typedef int RetType; typedef TypeList<AnimalPtr> ParamTypes; int operator () (const AnimalPtr& a) const { return a->id; } };
	struct CatId { typedef int RetType; typedef TypeList<CatPtr> ParamTypes; int operator () (const CatPtr& a) const { return a->id; } };

	void ByType(vh::Rng& rng)
	{
		std::vector<AnimalPtr> zoo; V cats, all; std::string what = "zoo ";
		const bool only = rng.Chance(1, 4);
		for (size_t n = rng.Below(7), i = 0; i < n; ++i)
		{
			const bool cat = only || rng.Chance(1, 2);
			zoo.push_back(cat ? AnimalPtr(make_shared_ptr<Cat>((int)i)) : make_shared_ptr<Animal>((int)i));
			if (cat) cats.push_back((int)i);
			all.push_back((int)i); what += cat ? "C" : "A";
		}
		const auto src = ToRange(static_cast<const std::vector<AnimalPtr>&>(zoo));
		CheckRange(src | OfType<CatPtr>() | Transform(CatId()), cats, Ctx{ rng, what + "|OfType", true });
		CheckRange(src | OfType<CatPtr>() | Reverse() | Transform(CatId()), Rev(cats), Ctx{ rng, what + "|OfType|Reverse", true });
		CheckRange(src | Reverse() | OfType<CatPtr>() | Transform(CatId()), Rev(cats), Ctx{ rng, what + "|Reverse|OfType", true });
		if (cats.size() == all.size()) CheckRange(src | Cast<CatPtr>() | Transform(CatId()), cats, Ctx{ rng, what + "|Cast", true });
		CheckRange(src | OfType<CatPtr>() | Cast<AnimalPtr>() | Transform(Id()), cats, Ctx{ rng, what + "|OfType|Cast", true });
		const shared_ptr<IEnumerable<AnimalPtr> > en = EnumerableFromStlContainer(zoo);
		V got; FOR_EACH (const CatPtr c IN Enumerable::OfType<CatPtr>(en)) got.push_back(c->id);
		VH_CHECK(got == cats, "enumerable:oftype", what << ": OfType of an enumerable gives " << Show(got));
		got.clear(); FOR_EACH (const AnimalPtr c IN Enumerable::Cast<AnimalPtr>(Enumerable::OfType<CatPtr>(en))) got.push_back(c->id);
		VH_CHECK(got == cats, "enumerable:cast", what << ": Cast of an enumerable gives " << Show(got));
		got.clear(); const shared_ptr<IEnumerable<AnimalPtr> > casted = GetEnumerableCaster(Enumerable::OfType<CatPtr>(en));
		FOR_EACH (const AnimalPtr c IN casted) got.push_back(c->id);
		VH_CHECK(got == cats, "enumerable:caster", what << ": GetEnumerableCaster gives " << Show(got));
		vh_count("compositions by dynamic type", 1);
	}

	// Split itself: fragments, forwards and backwards
	void Splits(vh::Rng& rng)
	{
		const V v = RandV(rng, 14); const size_t n = 1 + rng.Below(6);
		std::vector<V> want; for (size_t i = 0; i < v.size(); i += n) want.push_back(V(v.begin() + i, v.begin() + std::min(v.size(), i + n)));
		const std::string what = "Split" + S(n) + " of " + Show(v);
		try
		{
			std::vector<V> got; auto r = Range::Split(v, n);
			const auto frag = [&] { const auto f = r.Get(); return V(f.begin(), f.end()); };
			for (; r.Valid(); r.Next()) got.push_back(frag());
			VH_CHECK(got == want, "split:forward", what << " gives " << got.size() << " fragments");
			got.clear(); for (const auto& f : Range::Split(v, n)) { got.push_back(V(f.begin(), f.end())); if (got.size() > want.size()) break; }
			VH_CHECK(got == want, "split:for", what << " gives " << got.size() << " fragments in a range-based for");
			r.Last();
			VH_CHECK(r.Valid() == !want.empty(), "split:last", what << ": Last is " << (r.Valid() ? "" : "not ") << "at a fragment");
			size_t pos = want.empty() ? 0 : want.size() - 1; std::string path = "L";
			for (int i = 0; i < 20; ++i)
			{
				VH_CHECK(r.Valid() == (pos < want.size()) && (pos >= want.size() || frag() == want[pos]), "split:walk", what << ": after " << path << " expected fragment " << pos << " of " << want.size());
				const size_t k = rng.Below(6);
				if (k < 2 && pos < want.size()) { r.Next(); ++pos; path += "+"; }
				else if (k < 4 && pos > 0) { r.Prev(); --pos; path += "-"; }
				else if (k == 4) { r.First(); pos = 0; path += "F"; }
				else if (k == 5 && !want.empty()) { r.Last(); pos = want.size() - 1; path += "L"; }
			}
		}
		catch (const std::exception& ex) { vh_violation("split:throws", (what + " throws " + ex.what()).c_str()); }
		vh_count("splits checked", 1);
	}

	// ------------------------------------------------------------------ enumerables
	typedef shared_ptr<IEnumerable<int> > E;
	typedef shared_ptr<IEnumerator<int> > Er;

	// An enumerable over a list that watches how it is used: no access past its end.
	struct Probe : public virtual IEnumerable<int>
	{
		struct It : public virtual IEnumerator<int>
		{
			const V data; size_t pos;
			explicit It(const V& d) : data(d), pos(0) { }
			bool Valid() const override { return pos < data.size(); }
			int Get() const override { if (pos >= data.size()) { vh_violation("enumerable:source", "Get at the end of the source"); return -1; } return data[pos]; }
			void Next() override { if (pos >= data.size()) { vh_violation("enumerable:source", "Next at the end of the source"); return; } ++pos; }
		};
		const V data;
		explicit Probe(const V& d) : data(d) { }
		shared_ptr<IEnumerator<int> > GetEnumerator() const override { return make_shared_ptr<It>(data); }
	};

	struct Node { E e; V v; std::string what; };

	Node RandomNode(vh::Rng& rng, int depth)
	{
		if (depth == 0)
		{
			const V v = RandV(rng, 6);
			switch (rng.Below(8))
			{
			case 0: { const shared_ptr<std::vector<int> > h = make_shared_ptr<std::vector<int> >(v); return Node{ EnumerableFromStlContainer(*h, h), v, "stl" + Show(v) }; }
			case 1: { const shared_ptr<std::list<int> > h = make_shared_ptr<std::list<int> >(v.begin(), v.end()); return Node{ EnumerableFromStlIterators(h->begin(), h->end(), h), v, "list" + Show(v) }; }
			case 2: return Node{ Enumerable::Empty<int>(), V(), "empty" };
			case 3: { const int x = (int)rng.Below(9); return Node{ MakeOneItemEnumerable(x), V(1, x), "one" + std::to_string(x) }; }
			case 4: { EnumerableBuilder<int> b; for (int i : v) b % i; return Node{ b.Get(), v, "builder" + Show(v) }; }
			case 5:
			{
				const auto make = sk::F<Er ()>([v] { return Er(make_shared_ptr<FuncEnumerator<int> >(sk::F<int (size_t)>([v] (size_t i) { return v.at(i); }), sk::F<bool (size_t)>([v] (size_t i) { return i < v.size(); }))); });
				return Node{ MakeSimpleEnumerable(make), v, "func" + Show(v) };
			}
			default: return Node{ make_shared_ptr<Probe>(v), v, Show(v) };
			}
		}
		const Node a = RandomNode(rng, depth - 1 - (int)rng.Below(depth));
		const size_t n = RandCount(rng, a.v.size());
		const Pred p = RandPred(rng); const Func f = RandFunc(rng);
		const std::string ps = std::to_string(p.mod) + "," + std::to_string(p.rem), fs = std::to_string(f.mul) + "," + std::to_string(f.add);
		V r;
		switch (rng.Below(16))
		{
		case 0: return Node{ Enumerable::Where(a.e, p), FilterV(a.v, p), a.what + ".Where" + ps };
		case 1: return Node{ a.e | Filter(p), FilterV(a.v, p), a.what + "|Filter" + ps };
		case 2: return Node{ Enumerable::Transform(a.e, f), MapV(a.v, f), a.what + ".Transform" + fs };
		case 3: return Node{ Enumerable::Skip(a.e, n), DropV(a.v, n), a.what + ".Skip" + S(n) };
		case 4: return Node{ a.e | Drop(n), DropV(a.v, n), a.what + "|Drop" + S(n) };
		case 5: return Node{ Enumerable::Take(a.e, n), TakeV(a.v, n), a.what + ".Take" + S(n) };
		case 6: return Node{ Enumerable::Reverse(a.e), Rev(a.v), a.what + ".Reverse" };
		case 7: return Node{ Enumerable::Clone(a.e), a.v, a.what + ".Clone" };
		case 8: case 9:
		{
			const Node b = RandomNode(rng, (int)rng.Below(depth));
			r = a.v; r.insert(r.end(), b.v.begin(), b.v.end());
			return Node{ rng.Chance(1, 2) ? Enumerable::Concat(a.e, b.e) : JoinEnumerables(a.e, b.e), r, "(" + a.what + " ++ " + b.what + ")" };
		}
		case 10: { const int d = (int)rng.Below(50); return Node{ Enumerable::DefaultIfEmpty(a.e, d), a.v.empty() ? V(1, d) : a.v, a.what + ".DefaultIfEmpty" + std::to_string(d) }; }
		case 11: return Node{ WrapEnumerable(a.e, f, p), MapV(FilterV(a.v, p), f), a.what + ".Wrap" + fs + ";" + ps };
		case 12:
		{
			std::vector<E> parts; std::string what = "Flatten{"; const size_t k = rng.Below(4);
			for (size_t i = 0; i < k; ++i) { const Node b = RandomNode(rng, (int)rng.Below(depth)); parts.push_back(b.e); r.insert(r.end(), b.v.begin(), b.v.end()); what += b.what + ";"; }
			const shared_ptr<std::vector<E> > h = make_shared_ptr<std::vector<E> >(parts);
			return Node{ Enumerable::Flatten(EnumerableFromStlContainer(*h, h)), r, what + "}" };
		}
		case 13:
		{
			EnumerableJoiner<int> j; std::string what = "Join{"; const size_t k = rng.Below(4);
			for (size_t i = 0; i < k; ++i) { const Node b = RandomNode(rng, (int)rng.Below(depth)); j % b.e; r.insert(r.end(), b.v.begin(), b.v.end()); what += b.what + ";"; }
			return Node{ j.Get(), r, what + "}" };
		}
		case 14: return Node{ WrapEnumerable(a.e, f), MapV(a.v, f), a.what + ".Wrap" + fs };
		default: return Node{ a.e | Transform(f), MapV(a.v, f), a.what + "|Transform" + fs };
		}
	}

	void CheckEnumerable(const Node& nd, vh::Rng& rng)
	{
		const E& x = nd.e; const V& e = nd.v; const std::string& what = nd.what;
		V got;
		for (const Er i = x->GetEnumerator(); i->Valid() && got.size() < e.size() + 3; i->Next()) { got.push_back(i->Get()); if (rng.Chance(1, 4) && i->Get() != got.back()) vh_violation("enumerable:get", (what + ": a second Get differs").c_str()); }
		VH_CHECK(got == e, "enumerable:forward", what << " gives " << Show(got) << " instead of " << Show(e));
		// two enumerators of the same enumerable do not disturb one another
		{
			const Er a = x->GetEnumerator(), b = x->GetEnumerator(); size_t pa = 0, pb = 0; bool ok = true;
			for (int i = 0; i < 12 && ok; ++i)
			{
				const Er& w = rng.Chance(1, 2) ? a : b; size_t& pw = &w == &a ? pa : pb;
				ok = w->Valid() == (pw < e.size()) && (pw >= e.size() || w->Get() == e[pw]);
				if (ok && w->Valid()) { w->Next(); ++pw; }
			}
			VH_CHECK(ok, "enumerable:interleaved", what << ": two enumerators used alternately differ from " << Show(e) << " at " << pa << " or " << pb);
			for (; a->Valid() && pa <= e.size(); a->Next()) ++pa;
		}
		{
			V loop; for (int v : ToRange(*x)) { loop.push_back(v); if (loop.size() > e.size()) break; }
			VH_CHECK(loop == e, "enumerable:torange", what << ": ToRange gives " << Show(loop) << " instead of " << Show(e));
			const Pred p = RandPred(rng); const size_t n = RandCount(rng, e.size());
			Forward(ToRange(*x) | Filter(p) | Take(n), TakeV(FilterV(e, p), n), Ctx{ rng, what + "|ToRange|Filter|Take", false });
		}
		const int probe = e.empty() || rng.Chance(1, 3) ? (int)rng.Below(40) : e[rng.Below(e.size())];
		const Pred p = RandPred(rng);
		const size_t idx = rng.Below(e.size() + 2), cnt = std::count_if(e.begin(), e.end(), p);
		const size_t at = std::find(e.begin(), e.end(), probe) - e.begin(), atp = std::find_if(e.begin(), e.end(), p) - e.begin();
		size_t lastp = e.size(); for (size_t i = 0; i < e.size(); ++i) if (p(e[i])) lastp = i;
		typedef optional<int> O; typedef optional<size_t> OS;
		#define Q(expr, want) VH_CHECK((expr) == (want), "enumerable:query", what << ": " #expr " is wrong for " << Show(e) << " probe " << probe << " mod " << p.mod << " rem " << p.rem << " index " << idx)
		#define QT(expr, ok, want) { bool threw = false; int g = 0; try { g = expr; } catch (const std::exception&) { threw = true; } VH_CHECK(threw == !(ok) && (threw || g == (want)), "enumerable:query", what << ": " #expr << (threw ? " throws" : " is wrong") << " for " << Show(e) << " mod " << p.mod << " rem " << p.rem << " index " << idx); }
		Q(Enumerable::Count(x), e.size()); Q(Enumerable::Count(x, p), cnt); Q((x | Count()), e.size());
		Q(Enumerable::Any(x), !e.empty()); Q(Enumerable::Any(x, p), cnt > 0); Q(Enumerable::All(x, p), cnt == e.size()); Q((x | Any()), !e.empty());
		Q(Enumerable::Contains(x, probe), at < e.size()); Q(Enumerable::Contains(x, p), cnt > 0);
		Q(Enumerable::IndexOf(x, probe), at < e.size() ? OS(at) : OS()); Q(Enumerable::IndexOf(x, p), atp < e.size() ? OS(atp) : OS());
		QT(Enumerable::ElementAt(x, idx), idx < e.size(), e[idx]);
		Q(Enumerable::ElementAtOrDefault(x, idx), idx < e.size() ? O(e[idx]) : O()); Q(Enumerable::ElementAtOrDefault(x, idx, -7), idx < e.size() ? e[idx] : -7);
		QT(Enumerable::First(x), !e.empty(), e[0]); QT(Enumerable::First(x, p), cnt > 0, e[atp]);
		Q(Enumerable::FirstOrDefault(x), e.empty() ? O() : O(e[0])); Q(Enumerable::FirstOrDefault(x, -7), e.empty() ? -7 : e[0]);
		Q(Enumerable::FirstOrDefault(x, p), cnt ? O(e[atp]) : O()); Q(Enumerable::FirstOrDefault(x, p, -7), cnt ? e[atp] : -7);
		QT(Enumerable::Last(x), !e.empty(), e.back()); QT(Enumerable::Last(x, p), cnt > 0, e[lastp]);
		Q(Enumerable::LastOrDefault(x), e.empty() ? O() : O(e.back())); Q(Enumerable::LastOrDefault(x, -7), e.empty() ? -7 : e.back());
		Q(Enumerable::LastOrDefault(x, p), cnt ? O(e[lastp]) : O()); Q(Enumerable::LastOrDefault(x, p, -7), cnt ? e[lastp] : -7);
		QT(Enumerable::Single(x), e.size() == 1, e[0]);
		const auto step = [] (unsigned a, unsigned b) { return a * 31 + b; };
		unsigned f = 0; for (size_t i = 0; i < e.size(); ++i) f = i ? step(f, e[i]) : e[i];
		unsigned f2 = 17; for (int v : e) f2 = step(f2, v);
		Q(Enumerable::Aggregate(x, sk::F<int (int, int)>([&] (int a, int b) { return (int)step(a, b); })), e.empty() ? O() : O((int)f));
		Q(Enumerable::Aggregate(x, 17u, sk::F<unsigned (unsigned, int)>([&] (unsigned a, int b) { return step(a, b); })), f2);
		V each; Enumerable::ForEach(x, sk::F<void (int)>([&] (int v) { each.push_back(v); })); Q(each, e);
		const Node o = rng.Chance(1, 2) ? Node{ make_shared_ptr<Probe>(e), e, "" } : rng.Chance(1, 2) && !e.empty() ? Node{ make_shared_ptr<Probe>(TakeV(e, e.size() - 1)), TakeV(e, e.size() - 1), "" } : RandomNode(rng, 1);
		Q(Enumerable::SequenceEqual(x, o.e), e == o.v); Q(Enumerable::SequenceEqual(o.e, x), e == o.v);
		Q(Enumerable::SequenceEqual(x->GetEnumerator(), o.e->GetEnumerator()), e == o.v);
		// operations on an enumerator that has already moved
		{
			const size_t k = rng.Below(e.size() + 1); const V rest = DropV(e, k);
			const auto moved = [&] { const Er i = x->GetEnumerator(); for (size_t j = 0; j < k; ++j) i->Next(); return i; };
			Q(Drain(Enumerable::Where(moved(), p)).size(), FilterV(rest, p).size());
			Q(Enumerable::Count(moved()), rest.size());
			Q(Enumerable::SequenceEqual(Enumerable::Concat(moved(), x->GetEnumerator()), Enumerable::Concat(Er(make_shared_ptr<Probe::It>(rest)), Er(make_shared_ptr<Probe::It>(e)))), true);
			Q(Enumerable::SequenceEqual(Enumerable::Reverse(moved()), Er(make_shared_ptr<Probe::It>(Rev(rest)))), true);
			Q(Enumerable::SequenceEqual(Enumerable::Take(moved(), idx), Er(make_shared_ptr<Probe::It>(TakeV(rest, idx)))), true);
			Q(Enumerable::SequenceEqual(Enumerable::Skip(moved(), idx), Er(make_shared_ptr<Probe::It>(DropV(rest, idx)))), true);
			Q(Enumerable::SequenceEqual(Enumerable::DefaultIfEmpty(moved(), 3), Er(make_shared_ptr<Probe::It>(rest.empty() ? V(1, 3) : rest))), true);
			Q(Enumerable::LastOrDefault(moved(), -7), rest.empty() ? -7 : rest.back());
			EnumeratorJoiner<int> j; j % moved() % moved();
			V twice(rest); twice.insert(twice.end(), rest.begin(), rest.end());
			Q(Enumerable::SequenceEqual(j.Get(), Er(make_shared_ptr<Probe::It>(twice))), true);
		}
		#undef Q
		#undef QT
		vh_count("enumerable compositions checked", 1);
		vh_distinct("enumerable compositions", vh::HashStr(what.c_str()));
	}

	// difference of two sorted lists (with repeated elements) and what follows from it
	void Diffs(vh::Rng& rng)
	{
		V a = RandV(rng, 8), b = rng.Chance(1, 4) ? a : RandV(rng, 8);
		if (rng.Chance(1, 3)) b.insert(b.end(), a.begin(), a.end());
		std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
		const bool desc = rng.Chance(1, 3);
		if (desc) { a = Rev(a); b = Rev(b); }
		std::vector<std::string> want, got;
		for (size_t i = 0, j = 0; i < a.size() || j < b.size(); )
		{
			const int c = i == a.size() ? 1 : j == b.size() ? -1 : (a[i] < b[j] ? -1 : a[i] > b[j] ? 1 : 0) * (desc ? -1 : 1);
			if (c < 0) want.push_back("-" + std::to_string(a[i++])); else if (c > 0) want.push_back("+" + std::to_string(b[j++])); else { ++i; ++j; }
		}
		const E ea = make_shared_ptr<Probe>(a), eb = make_shared_ptr<Probe>(b);
		if (desc) got = List(Enumerable::Diff(ea, eb, DescCmp()));
		else got = rng.Chance(1, 2) ? List(Enumerable::Diff(ea, eb, comparers::Cmp())) : Drain(Enumerable::Diff(ea->GetEnumerator(), eb->GetEnumerator(), comparers::Cmp()));
		VH_CHECK(got == want, "diff", "Diff of " << Show(a) << " and " << Show(b) << " gives " << coll::Show(got) << " instead of " << coll::Show(want));
		vh_count("differences checked", 1);
	}

}

VH_SCENARIO(range_vector) { for (int i = 0; i < 2 && !vh_violated(); ++i) { Plain(rng); Over(RandV(rng, 7), "vector", rng, 3); } }
VH_SCENARIO(range_sources) { for (int i = 0; i < 3 && !vh_violated(); ++i) Sources(rng); }
VH_SCENARIO(range_nested) { for (int i = 0; i < 3 && !vh_violated(); ++i) Nested(rng); }
VH_SCENARIO(range_types) { for (int i = 0; i < 2 && !vh_violated(); ++i) ByType(rng); }
VH_SCENARIO(range_split) { for (int i = 0; i < 4 && !vh_violated(); ++i) Splits(rng); }
VH_SCENARIO(enum_compose) { for (int i = 0; i < 3 && !vh_violated(); ++i) CheckEnumerable(RandomNode(rng, 1 + (int)rng.Below(4)), rng); }
VH_SCENARIO(enum_diff) { for (int i = 0; i < 4 && !vh_violated(); ++i) Diffs(rng); }
