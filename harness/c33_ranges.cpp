// C33: numeric ranges, time intervals, rectangles, sizes, progress, averages and data pipes. Monitors: every result is compared with a
// point-by-point model of the operands on a grid, or with the definition evaluated in wider arithmetic.
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/string/ToString.h>
#include "vsx.h"
#include "sk.h"
#include <stingraykit/Accumulators.h>
#include <stingraykit/Average.h>
#include <stingraykit/log/Logger.h>
#include <stingraykit/time/ElapsedTime.h>
#include <stingraykit/exception.h>
#include <stingraykit/AggregateProgressReporter.h>
#include <stingraykit/BandwidthReporter.h>
#include <stingraykit/DataPipe.h>
#include <stingraykit/NumericRange.h>
#include <stingraykit/ProgressValue.h>
#include <stingraykit/Rect.h>
#include <stingraykit/Size.h>
#include <stingraykit/time/TimeInterval.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <set>
#include <vector>

using namespace stingray;

namespace {
	struct Quiet { LogLevel l; Quiet() : l(Logger::GetLogLevel()) { Logger::SetLogLevel(LogLevel::Error); } ~Quiet() { Logger::SetLogLevel(l); } };

	// ------------------------------------------------ ranges
	// values are points of a grid 0..N-1 mapped monotonically to T
	template < typename T > struct Grid;
	template < > struct Grid<int> { static int At(const std::vector<s64>& g, int i) { return (int)g[i]; } };
	template < > struct Grid<s64> { static s64 At(const std::vector<s64>& g, int i) { return g[i]; } };
	template < > struct Grid<u8> { static u8 At(const std::vector<s64>& g, int i) { return (u8)g[i]; } };
	template < > struct Grid<double> { static double At(const std::vector<s64>& g, int i) { return (double)g[i] / 3; } };
	template < > struct Grid<Time> { static Time At(const std::vector<s64>& g, int i) { return Time(g[i]); } };

	template < typename T > struct RangeOf { typedef SimpleNumericRange<T> R; };
	template < > struct RangeOf<Time> { typedef TimeInterval R; };

	const int N = 7;

	template < typename T > void Ranges(vh::Rng& rng, const char* name, s64 lo, s64 hi)
	{
		typedef typename RangeOf<T>::R R;
		std::vector<s64> g;
		{
			std::set<s64> s;
			const bool wide = rng.Chance(1, 3); const s64 base = wide ? 0 : rng.Range(std::max<s64>(lo, -1000), std::min<s64>(hi, 1000) - 2 * N > lo ? std::min<s64>(hi, 1000) - 2 * N : lo);
			if (wide) { s.insert(lo); s.insert(hi); }
			while (s.size() < (size_t)N) { s64 v = wide ? (s64)rng.Interesting() : base + (s64)rng.Below(2 * N); if (v >= lo && v <= hi) s.insert(v); else if (wide) s.insert(lo + (s64)rng.Below(100)); }
			g.assign(s.begin(), s.end());
		}
		auto at = [&](int i) { return Grid<T>::At(g, i); };
		const int a1 = (int)rng.Below(N), a2 = a1 + (int)rng.Below(N - a1), b1 = (int)rng.Below(N), b2 = b1 + (int)rng.Below(N - b1);
		std::ostringstream ctx; ctx << name << " [" << a1 << ", " << a2 << "] [" << b1 << ", " << b2 << "] of";
		for (s64 v : g) ctx << " " << v;
		const std::string c = ctx.str();
		const R a(at(a1), at(a2)), b(at(b1), at(b2)), a0 = a, b0 = b;
		VH_CHECK(a.GetStart() == at(a1) && a.GetEnd() == at(a2), "range:bounds", c);
		VH_CHECK(a.IsEmpty() == (a1 == a2), "range:empty", c);
		VH_CHECK((a == b) == (a1 == b1 && a2 == b2) && (a != b) == !(a == b), "range:equal", c);
		// membership of all points of the grid
		for (int i = 0; i < N; ++i)
		{
			VH_CHECK(a.Contains(at(i)) == (a1 < a2 && a1 <= i && i <= a2), "range:contains", c << " at " << i);
			VH_CHECK(a.ContainsStrict(at(i)) == (a1 < i && i < a2), "range:contains-strict", c << " at " << i);
			const T cl = a.Clamp(at(i)); const int want = i < a1 ? a1 : i > a2 ? a2 : i;
			VH_CHECK(cl == at(want), "range:clamp", c << " at " << i);
		}
		// cells between the points of the grid
		auto cells = [&](int x, int y) { std::set<int> s; for (int i = x; i < y; ++i) s.insert(i); return s; };
		const std::set<int> ca = cells(a1, a2), cb = cells(b1, b2); std::set<int> both, any;
		std::set_intersection(ca.begin(), ca.end(), cb.begin(), cb.end(), std::inserter(both, both.end()));
		std::set_union(ca.begin(), ca.end(), cb.begin(), cb.end(), std::inserter(any, any.end()));
		VH_CHECK(a.IsIntersecting(b) == !both.empty() && b.IsIntersecting(a) == !both.empty(), "range:intersecting", c);
		const R x = a.Intersect(b), y = b.Intersect(a), u = a.Union(b), v = b.Union(a);
		if (both.empty()) VH_CHECK(x.IsEmpty() && y.IsEmpty(), "range:intersect", c);
		else VH_CHECK(x == y && x.GetStart() == at(*both.begin()) && x.GetEnd() == at(*both.rbegin() + 1), "range:intersect", c);
		if (any.empty()) VH_CHECK(u.IsEmpty() && v.IsEmpty(), "range:union", c);
		else VH_CHECK(u == v && u.GetStart() == at(*any.begin()) && u.GetEnd() == at(*any.rbegin() + 1), "range:union", c);
		VH_CHECK(a == a0 && b == b0, "range:operands", c);
		VH_CHECK(R::CreateEmpty().IsEmpty() && R().IsEmpty() && !R().Contains(at(a1)), "range:empty", c);
		if (a1 < a2 && rng.Chance(1, 6))
		{
			bool threw = false; try { R bad(at(a2), at(a1)); } catch (const std::exception&) { threw = true; }
			VH_CHECK(threw, "range:inverted", c);
		}
		R m(a); m.SetStart(at(b1)); VH_CHECK(m.GetStart() == at(b1) && m.GetEnd() == at(a2), "range:set", c); m.SetEnd(at(b2)); VH_CHECK(m == b, "range:set", c);
		vh_distinct("range_pairs", vh::HashStr(c));
	}
}

VH_SCENARIO(ranges)
{
	switch (rng.Below(5))
	{
	case 0: Ranges<int>(rng, "int", INT32_MIN, INT32_MAX); break;
	case 1: Ranges<s64>(rng, "s64", INT64_MIN, INT64_MAX); break;
	case 2: Ranges<u8>(rng, "u8", 0, 255); break;
	case 3: Ranges<double>(rng, "double", -(1LL << 50), 1LL << 50); break;
	default: Ranges<Time>(rng, "Time", -100000000000000LL, 100000000000000LL);
	}
	const s64 s = rng.Range(-1000000, 1000000), d = rng.Range(0, 5000000);
	VH_CHECK(TimeInterval(Time(s), Time(s + d)).GetDuration() == TimeDuration(d), "range:duration", s << " + " << d);
	VH_CHECK(SimpleNumericRange<s64>(s, s + d).Distance() == d, "range:duration", s << " + " << d);
	VH_CHECK(SimpleNumericRange<s64>(s, s + d).ToString() == "[" + std::to_string(s) + " - " + std::to_string(s + d) + "]", "range:text", s << " + " << d);
}

// ---------------------------------------------------------------- rectangles and sizes
namespace {
	const int G = 8;
	template < typename T > void Rects(vh::Rng& rng, const char* name, T step, T base)
	{
		typedef BasicRect<T> R; typedef BasicPosition<T> P;
		int a[4], b[4];
		for (int* r : { a, b }) { r[0] = (int)rng.Below(G); r[1] = (int)rng.Below(G); r[2] = r[0] + (int)rng.Below(G - r[0]); r[3] = r[1] + (int)rng.Below(G - r[1]); }
		std::ostringstream ctx; ctx << name << " (" << a[0] << " " << a[1] << " " << a[2] << " " << a[3] << ") (" << b[0] << " " << b[1] << " " << b[2] << " " << b[3] << ") step " << step << " from " << base;
		const std::string c = ctx.str();
		auto v = [&](int i) { return (T)(base + step * i); };
		const R ra(v(a[0]), v(a[1]), v(a[2]), v(a[3])), rb(v(b[0]), v(b[1]), v(b[2]), v(b[3]));
		VH_CHECK(ra.Valid() == (a[0] < a[2] && a[1] < a[3]), "rect:valid", c);
		VH_CHECK(ra.GetWidth() == step * (a[2] - a[0]) && ra.GetHeight() == step * (a[3] - a[1]), "rect:extent", c);
		VH_CHECK(ra.GetSize() == Size((int)ra.GetWidth(), (int)ra.GetHeight()), "rect:size", c);
		VH_CHECK(ra.GetTopLeft() == P(ra.X1, ra.Y1) && ra.GetRightBottom() == P(ra.X2, ra.Y2), "rect:corners", c);
		// closed point sets on the grid
		bool touch = false; std::set<std::pair<int, int>> cells;
		for (int i = 0; i < G; ++i) for (int k = 0; k < G; ++k)
		{
			if (a[0] <= i && i <= a[2] && a[1] <= k && k <= a[3] && b[0] <= i && i <= b[2] && b[1] <= k && k <= b[3]) touch = true;
			if (a[0] <= i && i < a[2] && a[1] <= k && k < a[3] && b[0] <= i && i < b[2] && b[1] <= k && k < b[3]) cells.insert(std::make_pair(i, k));
		}
		VH_CHECK(ra.Intersects(rb) == touch && rb.Intersects(ra) == touch, "rect:intersects", c << (touch ? " touch" : " apart"));
		const R x = ra.Intersect(rb), y = rb.Intersect(ra);
		VH_CHECK(x == y && x.Valid() == !cells.empty(), "rect:intersect", c << " gave " << x.ToString());
		if (cells.size())
		{
			int x1 = G, y1 = G, x2 = -1, y2 = -1; for (auto& p : cells) { x1 = std::min(x1, p.first); x2 = std::max(x2, p.first + 1); y1 = std::min(y1, p.second); y2 = std::max(y2, p.second + 1); }
			VH_CHECK(x == R(v(x1), v(y1), v(x2), v(y2)), "rect:intersect", c << " gave " << x.ToString());
		}
		VH_CHECK(ra.Intersect(ra) == ra && ra.Intersects(ra), "rect:self", c);
		const T dx = (T)(step * rng.Range(-3, 3)), dy = (T)(step * rng.Range(-3, 3));
		const R m = ra.Move(dx, dy);
		VH_CHECK(m == ra.Move(P(dx, dy)) && m.X1 == ra.X1 + dx && m.Y1 == ra.Y1 + dy && m.GetSize() == ra.GetSize() && m.Move(-dx, -dy) == ra, "rect:move", c);
		VH_CHECK(ra.Intersects(rb) == m.Intersects(rb.Move(dx, dy)) && m.Intersect(rb.Move(dx, dy)) == x.Move(dx, dy), "rect:translation", c);
		// order
		const int ta[4] = { a[0], a[1], a[2], a[3] }, tb[4] = { b[0], b[1], b[2], b[3] };
		const bool less = std::lexicographical_compare(ta, ta + 4, tb, tb + 4), greater = std::lexicographical_compare(tb, tb + 4, ta, ta + 4);
		VH_CHECK((ra < rb) == less && (ra > rb) == greater && (ra <= rb) == !greater && (ra >= rb) == !less && (ra == rb) == (!less && !greater) && (ra != rb) == (less || greater), "rect:order", c);
		VH_CHECK(R(Size(5, 7)) == R(5, 7) && R(5, 7) == R(0, 0, 5, 7) && R() == R(0, 0, 0, 0), "rect:construct", c);
		vh_distinct("rect_pairs", vh::HashStr(c));
	}
}

VH_SCENARIO(rects)
{
	if (rng.Chance(2, 3)) Rects<int>(rng, "int", (int)rng.Range(1, 1000), rng.Chance(1, 4) ? INT32_MAX - 20000 : rng.Chance(1, 3) ? INT32_MIN + 20000 : (int)rng.Range(-3000, 10));
	else Rects<double>(rng, "double", 0.5, (double)rng.Range(-40, 40));

	const int w = (int)rng.Range(-1000, 1000), h = (int)rng.Range(-1000, 1000), w2 = (int)rng.Range(-1000, 1000), h2 = (int)rng.Range(-1000, 1000), k = (int)rng.Range(-50, 50);
	const Size s(w, h), t(w2, h2);
	VH_CHECK(s + t == Size(w + w2, h + h2) && s - t == Size(w - w2, h - h2) && s * k == Size(w * k, h * k) && (s + t) - t == s, "size:arithmetic", s.ToString() << " " << t.ToString());
	Size m(s); m += t; VH_CHECK(m == s + t, "size:arithmetic", s.ToString() << " " << t.ToString()); m -= t; m -= t; VH_CHECK(m == s - t, "size:arithmetic", s.ToString() << " " << t.ToString());
	if (k) VH_CHECK(s / k == Size(w / k, h / k) && (s * k) / k == s, "size:division", s.ToString() << " / " << k);
	if (w2 && h2) VH_CHECK(s / t == Size(w / w2, h / h2), "size:division", s.ToString() << " / " << t.ToString());
	VH_CHECK(s.Valid() == (w > 0 && h > 0) && SizeScale(w, h).Valid() == s.Valid() && !Size().Valid() && !SizeScale().Valid(), "size:valid", s.ToString());
	VH_CHECK(s.ToString() == std::to_string(w) + "x" + std::to_string(h) && SizeScale(w, h).ToString() == std::to_string(w) + ":" + std::to_string(h), "size:text", s.ToString());
	const int e = rng.Bool() ? w : w2; const Size p(w, h), q(e, h2);
	VH_CHECK((p < q) == (w < e || (w == e && h < h2)) && (SizeScale(w, h) < SizeScale(e, h2)) == (p < q) && (p == q) == (w == e && h == h2), "size:order", p.ToString() << " " << q.ToString());
	const BasicPosition<int> pp(w, h), pq(e, h2); VH_CHECK((pp < pq) == (p < q) && (pp == pq) == (p == q) && pp.ToString() == "[" + std::to_string(w) + ", " + std::to_string(h) + "]", "size:position", pp.ToString());
}

// ---------------------------------------------------------------- progress and samples
VH_SCENARIO(progress)
{
	Quiet q;
	const s64 big = rng.Chance(1, 3) ? 92233720368547758LL : rng.Chance(1, 2) ? 1000000 : 120;
	const s64 total = rng.Chance(1, 10) ? 0 : rng.Range(1, big), cur = rng.Chance(1, 5) ? total : total ? (s64)rng.Below((u64)total + 1) : rng.Range(0, 100);
	const ProgressValue p(cur, total);
	const s64 want = total ? (s64)((__int128)100 * cur / total) : 0;
	std::ostringstream ctx; ctx << cur << " of " << total;
	VH_CHECK(p.InPercents() == want, "progress:percents", ctx.str() << ": " << p.InPercents() << " instead of " << want);
	VH_CHECK(p.ToString() == std::to_string(want) + "%", "progress:text", ctx.str());
	if (total) VH_CHECK(p.InPercents() >= 0 && p.InPercents() <= 100 && (p.InPercents() == 100) == (cur == total), "progress:bounds", ctx.str());
	const ProgressValue r(rng.Below(50), rng.Below(50)); VH_CHECK((p < r) == (p.InPercents() < r.InPercents()) && (p == r) == (p.Current == r.Current && p.Total == r.Total) && (p != r) == !(p == r) && !(ProgressValue() != ProgressValue(0, 0)), "progress:order", ctx.str());

	// the progress of actions that make up a whole: within it, never backwards, complete at the end
	const size_t count = 1 + rng.Below(12); size_t index = 0; s64 last = 0; std::ostringstream tr; tr << "actions";
	while (index < count)
	{
		const size_t size = 1 + rng.Below(count - index); std::vector<ProgressValue> got;
		const auto report = sk::F<void (const ProgressValue&)>([&](const ProgressValue& v) { got.push_back(v); });
		optional<AggregateProgressReporter> rep;
		if (size == 1 && rng.Bool()) rep.emplace(report, index, count); else rep.emplace(report, index, size, count);
		tr << " " << index << "+" << size;
		std::vector<s64> steps; for (u64 n = rng.Below(4); n; --n) steps.push_back(rng.Below(1000)); steps.push_back(0); steps.push_back(1000); std::sort(steps.begin(), steps.end());
		for (s64 s : steps)
		{
			got.clear(); (*rep)(ProgressValue(s, 1000));
			VH_CHECK(got.size() == 1 && got[0].Total == 100, "progress:aggregate", tr.str());
			if (got.size() != 1) break;
			const s64 g = got[0].Current, exact = (s64)((index * 100 + size * (size_t)(s / 10)) / count);
			VH_CHECK(g == exact && g >= last && g <= 100, "progress:aggregate", tr.str() << ": " << g << " after " << last << ", " << exact << " by definition");
			last = g;
		}
		index += size;
	}
	VH_CHECK(last == 100, "progress:aggregate-end", tr.str() << ": " << last);
	if (rng.Chance(1, 10)) { bool threw = false; try { AggregateProgressReporter bad(sk::F<void (const ProgressValue&)>([](const ProgressValue&) { }), count, 1, count); } catch (const std::exception&) { threw = true; } VH_CHECK(threw, "progress:aggregate-index", tr.str()); }
	vh_distinct("progresses", vh::HashStr(ctx.str() + tr.str()));
}

namespace {
	// a stage that joins `k` items and gives the rest at the end of data
	struct Joiner : public DataPipeStageBase<double, double>
	{
		int k; std::vector<double> held; int resets;
		Joiner() : k(1), resets(0) { }
		template < typename Callback > void Process(double v, const Callback& cb) { held.push_back(v); if ((int)held.size() == k) Flush(cb); }
		template < typename Callback, typename Eod > void EndOfData(const Callback& cb, const Eod& eod) { if (held.size()) Flush(cb); eod(); }
		void Reset() { held.clear(); ++resets; }
		template < typename Callback > void Flush(const Callback& cb) { double s = 0; for (double v : held) s += v; held.clear(); cb(s); }
	};
	struct Doubler : public DataPipeStageBase<double, double>
	{
		template < typename Callback > void Process(double v, const Callback& cb) { cb(v * 2); }
		template < typename Callback, typename Eod > void EndOfData(const Callback&, const Eod& eod) { eod(); }
	};
	struct Splitter : public DataPipeStageBase<double, double>
	{
		template < typename Callback > void Process(double v, const Callback& cb) { cb(v); cb(-v); }
		template < typename Callback, typename Eod > void EndOfData(const Callback&, const Eod& eod) { eod(); }
	};
	struct Out { typedef void RetType; std::vector<double>* v; void operator () (double x) const { v->push_back(x); } };
	struct End { typedef void RetType; int* n; void operator () () const { ++*n; } };
}

VH_SCENARIO(samples)
{
	Quiet q;
	// averages
	{
		const u64 n = rng.Below(40); std::vector<double> d; std::vector<s64> s;
		const double off = rng.Chance(1, 3) ? 1e6 : 0;
		for (u64 i = 0; i < n; ++i) { s.push_back(rng.Range(-10000, 10000)); d.push_back(off + (double)rng.Range(-100000, 100000) / 16); }
		Average<s64> as; Average<double> ad; DataPipe<TypeList<Accumulators<double>::Mean, Accumulators<double>::Deviation>> pipe; Accumulators<int>::Mean im; Accumulators<int>::Deviation idv;
		std::vector<double> passed; const Out out = { &passed }; struct IntOut { void operator () (int) const { } };
		VH_CHECK(as.Get() == 0 && ad.Get() == 0 && pipe.GetStage<0>().Get() == 0 && pipe.GetStage<1>().Get() == 0 && idv.Get() == 0, "samples:empty", "");
		const size_t resetAt = rng.Chance(1, 3) ? rng.Below(n + 1) : n + 1; size_t from = 0; s64 ssum = 0; double dsum = 0;
		for (size_t i = 0; i < n; ++i)
		{
			if (i == resetAt) { pipe.Reset(); im.Reset(); from = i; }
			as.Accumulate(s[i]); ad.Accumulate(d[i]); ssum += s[i]; dsum += d[i];
			pipe.Process(d[i], out); im.Process((int)s[i], IntOut());
			const double cnt = (double)(i + 1 - from);
			long double mean = 0, var = 0; for (size_t k = from; k <= i; ++k) mean += d[k]; mean /= cnt; for (size_t k = from; k <= i; ++k) var += (d[k] - mean) * (d[k] - mean); var /= cnt;
			long double mi = 0; for (size_t k = from; k <= i; ++k) mi += s[k]; mi /= cnt;
			VH_CHECK(as.Get() == ssum / (s64)(i + 1), "samples:average", i + 1 << " samples: " << as.Get());
			VH_CHECK(std::fabs(ad.Get() - dsum / (i + 1)) <= 1e-9 * (1 + std::fabs(dsum)), "samples:average", i + 1 << " samples: " << ad.Get());
			VH_CHECK(std::fabs((double)(pipe.GetStage<0>().Get() - mean)) <= 1e-9 * (1 + std::fabs((double)mean)), "samples:mean", cnt << " samples: " << pipe.GetStage<0>().Get() << " instead of " << (double)mean);
			VH_CHECK(std::fabs((double)(pipe.GetStage<1>().Get() - var)) <= 1e-6 * (1 + (double)var), "samples:deviation", cnt << " samples: " << pipe.GetStage<1>().Get() << " instead of " << (double)var);
			VH_CHECK(std::fabs((double)(im.Get() - mi)) <= (cnt + 1) / 2, "samples:integer-mean", cnt << " samples: " << im.Get() << " instead of " << (double)mi);   // each step truncates less than one unit
		}
		VH_CHECK(passed == d, "samples:passed", passed.size() << " of " << d.size() << " samples passed the stages");
		pipe.Reset(); VH_CHECK(pipe.GetStage<0>().Get() == 0 && pipe.GetStage<1>().Get() == 0, "samples:reset", "");
		vh_count("samples", n);
	}
	// data pipes: the result is the composition of the stages
	{
		DataPipe<TypeList<Joiner, Splitter, Joiner, Doubler>> pipe;
		pipe.GetStage<0>().k = 1 + (int)rng.Below(3); pipe.GetStage<2>().k = 1 + (int)rng.Below(4);
		std::vector<double> got, in, mid, split, want; int ends = 0; const Out out = { &got }; const End end = { &ends };
		const u64 n = rng.Below(15);
		for (u64 i = 0; i < n; ++i)
		{
			if (rng.Chance(1, 12)) { pipe.Reset(); VH_CHECK(pipe.GetStage<0>().held.empty() && pipe.GetStage<2>().held.empty(), "pipe:reset", ""); got.clear(); in.clear(); }
			const double v = (double)rng.Range(-50, 50); in.push_back(v); pipe.Process(v, out);
		}
		auto join = [](const std::vector<double>& v, int k) { std::vector<double> r; for (size_t i = 0; i < v.size(); i += k) { double s = 0; for (size_t j = i; j < std::min(v.size(), i + k); ++j) s += v[j]; r.push_back(s); } return r; };
		mid = join(in, pipe.GetStage<0>().k); for (double v : mid) { split.push_back(v); split.push_back(-v); }
		for (double v : join(split, pipe.GetStage<2>().k)) want.push_back(v * 2);
		const int k0 = pipe.GetStage<0>().k, k2 = pipe.GetStage<2>().k;
		{
			const size_t sure = in.size() / k0 * 2 / k2;
			VH_CHECK(got.size() == sure && std::equal(got.begin(), got.end(), want.begin()), "pipe:composition", in.size() << " items in groups of " << k0 << " and " << k2 << " gave " << got.size());
		}
		pipe.EndOfData(out, end);
		VH_CHECK(got == want && ends == 1, "pipe:end", in.size() << " items in groups of " << k0 << " and " << k2 << " gave " << got.size() << " instead of " << want.size() << ", " << ends << " ends");
		std::ostringstream t; t << k0 << " " << k2; for (double v : in) t << " " << v; vh_distinct("pipes", vh::HashStr(t.str()));
	}
}

// ---------------------------------------------------------------- bandwidth
namespace {
	struct PieceSource : public virtual IDataSource
	{
		std::vector<u8> data; size_t pos = 0; vh::Rng r; bool ended = false;
		PieceSource(size_t n, u64 seed) : data(n), r(seed) { for (size_t i = 0; i < n; ++i) data[i] = (u8)(i * 5 + 1); }
		void Read(IDataConsumer& c, const ICancellationToken& token) override
		{
			if (pos == data.size()) { ended = true; c.EndOfData(token); return; }
			const size_t n = std::min<size_t>(data.size() - pos, 1 + r.Below(300));
			pos += c.Process(ConstByteData(&data[pos], n), token);
		}
	};
	struct PartConsumer : public virtual IDataConsumer
	{
		vh::Rng r; std::vector<u8> got; int ends = 0;
		explicit PartConsumer(u64 seed) : r(seed) { }
		size_t Process(ConstByteData d, const ICancellationToken&) override { const size_t n = r.Bool() ? d.size() : r.Below(d.size() + 1); got.insert(got.end(), d.begin(), d.begin() + n); return n; }
		void EndOfData(const ICancellationToken&) override { ++ends; }
	};
	struct Sink : public ILoggerSink
	{
		vs::Mutex m; std::vector<std::string> lines;
		void Log(const LoggerMessage& msg) override { const std::string t = msg.GetMessage(); if (t.compare(0, 6, "Data: ") == 0) { vs::Lock l(m); lines.push_back(t); } }
	};

	void Bandwidth(vh::Rng& rng)
	{
		const shared_ptr<Sink> sink = make_shared_ptr<Sink>(); const Token token = Logger::AddSink(sink);
		const size_t total = rng.Below(2000);
		const shared_ptr<PieceSource> src = make_shared_ptr<PieceSource>(total, rng.Next()); PartConsumer consumer(rng.Next());
		{
			BandwidthReporter rep(src, "bandwidth");
			vs::Threads ts; const u64 seed = rng.Next();
			ts.Add([&] { vh::Rng r(seed); for (int i = 0; i < 4000 && !consumer.ends; ++i) { rep.Read(consumer, DummyCancellationToken()); if (r.Chance(1, 4)) Thread::Sleep(TimeDuration(1 + r.Below(6000))); } });
			ts.Join();
			if (rng.Bool()) Thread::Sleep(TimeDuration(10500));
		}
		VH_CHECK(consumer.got == src->data && consumer.ends == 1, "bandwidth:content", consumer.got.size() << " of " << total << " bytes");
		u64 sum = 0, last = 0;
		vs::Lock l(sink->m);
		for (const std::string& s : sink->lines)
		{
			unsigned long long d = 0, t = 0, v = 0;
			VH_CHECK(sscanf(s.c_str(), "Data: %llu total: %llu avg speed: %llu KB/s", &d, &t, &v) == 3, "bandwidth:report", s);
			sum += d; VH_CHECK(t == sum && t >= last && t <= total, "bandwidth:total", s << " after " << last); last = t;
			VH_CHECK(v <= d * 1000 / 9500 / 1024 + 1, "bandwidth:speed", s);
			vh_count("bandwidth_reports", 1);
		}
		vh_distinct("interleavings", vh_log_hash());
	}
}
VH_STRICT_SCENARIO(bandwidth) { Bandwidth(rng); }
