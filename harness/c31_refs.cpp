// C31: reference-counting collections and the joined view of byte containers. Monitors: contents, counts, iteration and the calls of
// the appearance and disappearance callbacks are compared with the multiset of outstanding references after every operation.
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/string/ToString.h>
#include "vh.h"
#include <stingraykit/collection/ByteData.h>
#include <stingraykit/collection/DataJoiner.h>
#include <stingraykit/collection/RefCounter.h>
#include <stingraykit/collection/RefCountingMap.h>
#include <stingraykit/collection/RefCountingSet.h>
#include <stingraykit/collection/RefCountingValue.h>
#include <stingraykit/compare/comparers.h>
#include <algorithm>
#include <climits>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <vector>

using namespace stingray;

namespace {
	struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") { } };

	int Live = 0;                       // live Resource objects
	int KeyCopies = -1;                 // copies of keys left before one fails

	struct Key
	{
		int k, tag;
		Key(int k_, int t) : k(k_), tag(t) { }
		Key(const Key& o) : k(o.k), tag(o.tag) { if (KeyCopies >= 0 && KeyCopies-- == 0) throw Boom(); }
		Key& operator = (const Key&) = default;
	};

	// orders keys naturally, in reverse, or by remainder (several keys are then the same key)
	template < int Mode > struct Less : public comparers::RelationalComparerInfo
	{
		bool operator () (const Key& a, const Key& b) const { return Of(a) < Of(b); }
		static int Of(const Key& a) { return Mode == 0 ? a.k : Mode == 1 ? -a.k : a.k % 3; }
	};

	struct Resource
	{
		int id;
		explicit Resource(int i) : id(i) { ++Live; }
		Resource(const Resource& o) : id(o.id) { ++Live; }
		Resource(Resource&& o) : id(o.id) { o.id = -1; ++Live; }
		~Resource() { --Live; id = -2; }
	};

	struct Entry { int k, tag, id; size_t refs; };
	template < int Mode > struct Model
	{
		std::map<int, Entry> items;
		std::vector<int> appeared, gone;   // callbacks of the operation, as predicted
	};

	struct Calls { std::vector<int> up, down; void Clear() { up.clear(); down.clear(); } };
	std::string Show(const std::vector<int>& v) { std::ostringstream s; for (int x : v) s << " " << x; return s.str(); }

	template < bool IsMap, int Mode > struct Kind;
	template < int Mode > struct Kind<true, Mode>
	{
		typedef RefCountingMap<Key, Resource, Less<Mode>> C;
		template < typename It > static const Key& K(const It& it) { return (*it).first; }
		template < typename It > static int Id(const It& it, int) { return (*it).second.id; }
		template < typename F > static typename C::iterator Add(C& c, const Key& k, F f) { return c.add(k, f); }
		template < typename F > static auto Down(F f) { return [f](const Key& k, Resource& r) { f(k, r.id); }; }
		template < typename F > static auto Up(F f) { return [f](const Key& k) { return Resource(f(k)); }; }
	};
	template < int Mode > struct Kind<false, Mode>
	{
		typedef RefCountingSet<Key, Less<Mode>> C;
		template < typename It > static const Key& K(const It& it) { return *it; }
		template < typename It > static int Id(const It&, int id) { return id; }
		template < typename F > static typename C::iterator Add(C& c, const Key& k, F f) { return c.add(k, f); }
		template < typename F > static auto Down(F f) { return [f](const Key& k) { f(k, -1); }; }
		template < typename F > static auto Up(F f) { return [f](const Key& k) { f(k); }; }
	};

	template < bool IsMap, int Mode > void History(vh::Rng& rng)
	{
		typedef Kind<IsMap, Mode> KD; typedef typename KD::C C;
		vh::Trace t; t << (IsMap ? "map " : "set ") << Mode;
		std::map<int, Entry> m; Calls calls; int nextId = 1; bool fail = false; int failDownOf = INT_MIN;
		{
			C c;
			auto up = KD::Up([&](const Key& k) { if (fail) throw Boom(); calls.up.push_back(Less<Mode>::Of(k)); return nextId; });
			auto down = KD::Down([&](const Key& k, int id)
				{
					const int o = Less<Mode>::Of(k);
					if (failDownOf == o) throw Boom();
					calls.down.push_back(o);
					auto it = m.find(o);
					VH_CHECK(it != m.end(), "refs:unknown-gone", t.Str());
					if (it != m.end()) { VH_CHECK(it->second.tag == k.tag, "refs:gone-key", t.Str()); if (IsMap) VH_CHECK(it->second.id == id, "refs:gone-value", t.Str()); }
				});
			const int ops = 1 + (int)rng.Below(25), keys = 1 + (int)rng.Below(5);
			for (int i = 0; i < ops && !vh_violated(); ++i)
			{
				calls.Clear(); fail = rng.Chance(1, 25); failDownOf = INT_MIN; KeyCopies = -1;
				std::vector<int> ups, downs;
				const Key k((int)rng.Below(keys), i); const int o = Less<Mode>::Of(k);
				const u64 op = rng.Below(20);
				bool threw = false;
				if (op < 9)
				{
					const bool there = m.count(o), keyFails = !fail && rng.Chance(1, 30);
					if (keyFails) KeyCopies = 0;
					t << " +" << k.k << (fail ? "!" : keyFails ? "?" : "");
					try
					{
						auto it = KD::Add(c, k, up);
						VH_CHECK(Less<Mode>::Of(KD::K(it)) == o, "refs:add-result", t.Str());
					}
					catch (const Boom&) { threw = true; }
					KeyCopies = -1;
					VH_CHECK(threw == (!there && (fail || keyFails)), "refs:add-throws", t.Str());
					if (threw) { VH_CHECK(calls.up.size() == calls.down.size() || (IsMap && !calls.up.size()), "refs:appeared-without-entry", t.Str() << " |" << Show(calls.up)); calls.Clear(); }
					else if (there) ++m[o].refs;
					else { m.insert(std::make_pair(o, Entry{ k.k, k.tag, nextId++, 1 })); ups.push_back(o); }
				}
				else if (op < 17)
				{
					const bool there = m.count(o); fail = false; const bool byIt = op >= 14;
					const bool failDown = there && rng.Chance(1, 12);
					if (failDown) failDownOf = o;
					t << (byIt ? " ~" : " -") << k.k << (failDown ? "!" : "");
					const bool last = there && m[o].refs == 1;
					if (last && !failDown) downs.push_back(o);
					try
					{
						if (byIt)
						{
							auto it = c.find(k);
							VH_CHECK((it != c.end()) == there, "refs:find", t.Str());
							if (it != c.end()) c.erase(it, down);
						}
						else
						{
							const size_t n = c.erase(k, down);
							VH_CHECK(n == (there ? 1u : 0u), "refs:erase-result", t.Str() << " -> " << n);
						}
					}
					catch (const Boom&) { threw = true; }
					VH_CHECK(threw == (last && failDown), "refs:erase-throws", t.Str());
					if (there && !threw) { if (--m[o].refs == 0) m.erase(o); }
					if (threw)
					{
						// either the reference is still there, or it is gone with its entry: never an entry without references
						if (!c.count(k)) m.erase(o);
					}
				}
				else if (op < 18)
				{
					fail = false; const bool failDown = m.size() && rng.Chance(1, 3);
					if (failDown) { auto it = m.begin(); std::advance(it, rng.Below(m.size())); failDownOf = it->first; }
					t << (failDown ? " clear!" : " clear");
					try { c.clear(down); } catch (const Boom&) { threw = true; }
					VH_CHECK(threw == failDown, "refs:clear-throws", t.Str());
					for (auto& p : m) if (p.first != failDownOf || !failDown) downs.push_back(p.first);
					if (!failDown) m.clear();
					else
					{
						// those that were announced as gone are gone, the others are there as before
						for (int x : calls.down) { VH_CHECK(m.count(x), "refs:gone-twice", t.Str()); m.erase(x); }
						downs = calls.down;
						if (!c.count(Key(Mode == 1 ? -failDownOf : failDownOf, 0))) m.erase(failDownOf);
					}
					if (!failDown) { std::sort(downs.begin(), downs.end()); std::sort(calls.down.begin(), calls.down.end()); }
				}
				else if (op < 19) { t << " copy"; C d(c); c = d; VH_CHECK(d.size() == m.size(), "refs:copy", t.Str()); }
				else
				{
					// a copy lives its own life
					t << " fork"; C d(c); Calls mine;
					auto forget = KD::Down([&](const Key& kk, int) { mine.down.push_back(Less<Mode>::Of(kk)); });
					d.clear(forget); VH_CHECK(d.empty() && mine.down.size() == m.size(), "refs:fork", t.Str());
				}
				VH_CHECK(calls.up == ups, "refs:appearances", t.Str() << " |" << Show(calls.up) << " instead of" << Show(ups));
				VH_CHECK(calls.down == downs, "refs:disappearances", t.Str() << " |" << Show(calls.down) << " instead of" << Show(downs));
				// the whole state
				const C& cc = c;
				VH_CHECK(cc.size() == m.size() && cc.empty() == m.empty(), "refs:size", t.Str() << " " << cc.size() << " instead of " << m.size());
				VH_CHECK(Live == (IsMap ? (int)m.size() : 0), "refs:live-values", t.Str() << " " << Live);
				auto mi = m.begin(); size_t n = 0;
				for (auto it = cc.begin(); it != cc.end() && n <= m.size(); ++it, ++n, ++mi)
				{
					if (mi == m.end()) { ++n; break; }
					VH_CHECK(Less<Mode>::Of(KD::K(it)) == mi->first && KD::K(it).tag == mi->second.tag && KD::Id(it, mi->second.id) == mi->second.id, "refs:content", t.Str());
					const size_t cnt = cc.count(Key(mi->second.k, -1));
					VH_CHECK(cnt == mi->second.refs, "refs:count", t.Str() << " key " << mi->second.k << ": " << cnt << " instead of " << mi->second.refs);
					VH_CHECK(cc.find(Key(mi->second.k, -1)) == it, "refs:find", t.Str());
				}
				VH_CHECK(n == m.size(), "refs:content", t.Str() << " " << n << " entries instead of " << m.size());
				auto e = c.end(); auto ri = m.rbegin();
				for (n = 0; e != c.begin() && n < m.size(); ++n, ++ri) { --e; VH_CHECK(Less<Mode>::Of(KD::K(e)) == ri->first, "refs:backwards", t.Str()); }
				VH_CHECK(n == m.size(), "refs:backwards", t.Str());
				for (int a = 0; a < keys; ++a) VH_CHECK((cc.count(Key(a, 0)) > 0) == (m.count(Less<Mode>::Of(Key(a, 0))) > 0), "refs:count", t.Str());
				vh_count("states", 1);
			}
		}
		KeyCopies = -1;
		VH_CHECK(Live == 0, "refs:leak", t.Str());
		vh_distinct("histories", vh::HashStr(t.Str())); vh_sample(t.Str().c_str());
	}
}

VH_SCENARIO(maps) { switch (rng.Below(3)) { case 0: History<true, 0>(rng); break; case 1: History<true, 1>(rng); break; default: History<true, 2>(rng); } }
VH_SCENARIO(sets) { switch (rng.Below(3)) { case 0: History<false, 0>(rng); break; case 1: History<false, 1>(rng); break; default: History<false, 2>(rng); } }

VH_SCENARIO(values)
{
	vh::Trace t; t << "value";
	{
		RefCountingValue<Resource> v; RefCounter rc;
		size_t refs = 0; int id = 0, next = 1; bool fail = false; int up = 0, down = 0, rcUp = 0, rcDown = 0;
		size_t counts = 0;
		const int ops = 1 + (int)rng.Below(25);
		for (int i = 0; i < ops && !vh_violated(); ++i)
		{
			fail = rng.Chance(1, 12); up = down = rcUp = rcDown = 0; bool threw = false;
			auto set = [&] { if (fail) throw Boom(); ++up; return Resource(next); };
			auto rel = [&](Resource& r) { VH_CHECK(r.id == id, "refs:gone-value", t.Str()); if (fail) throw Boom(); ++down; };
			const u64 op = rng.Below(9);
			if (op < 4)
			{
				t << (fail ? " +!" : " +");
				try { Resource& r = v.set(set); if (refs++ == 0) { id = next++; VH_CHECK(up == 1, "refs:appearances", t.Str()); } else VH_CHECK(up == 0, "refs:appearances", t.Str()); VH_CHECK(r.id == id, "refs:content", t.Str()); }
				catch (const Boom&) { threw = true; }
				VH_CHECK(threw == (fail && refs == 0), "refs:add-throws", t.Str());
				try { rc.set([&] { if (fail) throw Boom(); ++rcUp; }); if (counts++ == 0) VH_CHECK(rcUp == 1, "refs:appearances", t.Str()); else VH_CHECK(rcUp == 0, "refs:appearances", t.Str()); }
				catch (const Boom&) { VH_CHECK(counts == 0 && fail, "refs:add-throws", t.Str()); }
			}
			else if (op < 8)
			{
				t << (fail ? " -!" : " -");
				const bool last = refs == 1;
				try { const bool r = v.release(rel); VH_CHECK(r == (refs > 0), "refs:erase-result", t.Str()); if (refs) --refs; VH_CHECK(down == (last ? 1 : 0), "refs:disappearances", t.Str()); }
				catch (const Boom&) { threw = true; VH_CHECK(fail && last, "refs:erase-throws", t.Str()); refs = v.count(); VH_CHECK(refs <= 1, "refs:count", t.Str()); }
				try { const bool lastC = counts == 1; const bool r = rc.release([&] { if (fail) throw Boom(); ++rcDown; }); VH_CHECK(r == (counts > 0), "refs:erase-result", t.Str()); if (counts) --counts; VH_CHECK(rcDown == (lastC ? 1 : 0), "refs:disappearances", t.Str()); }
				catch (const Boom&) { VH_CHECK(counts == 1 && fail, "refs:erase-throws", t.Str()); counts = rc.count(); VH_CHECK(counts <= 1, "refs:count", t.Str()); }
			}
			else
			{
				t << (fail ? " reset!" : " reset");
				const size_t was = refs;
				try { v.reset(rel); VH_CHECK(down == (refs ? 1 : 0), "refs:disappearances", t.Str()); refs = 0; }
				catch (const Boom&) { VH_CHECK(fail && refs, "refs:clear-throws", t.Str()); refs = v.count(); VH_CHECK(refs == 0 || refs == was, "refs:count", t.Str()); }
				try { rc.reset([&] { if (fail) throw Boom(); ++rcDown; }); VH_CHECK(rcDown == (counts ? 1 : 0), "refs:disappearances", t.Str()); counts = 0; }
				catch (const Boom&) { VH_CHECK(fail && counts, "refs:clear-throws", t.Str()); counts = rc.count(); }
			}
			const RefCountingValue<Resource>& cv = v;
			VH_CHECK(cv.count() == refs, "refs:count", t.Str() << " " << cv.count() << " instead of " << refs);
			VH_CHECK(cv.get().is_initialized() == (refs > 0) && v.get().is_initialized() == (refs > 0), "refs:content", t.Str() << " value " << cv.get().is_initialized() << " with " << refs << " references");
			VH_CHECK(Live == (refs ? 1 : 0), "refs:live-values", t.Str() << " " << Live);
			VH_CHECK(rc.count() == counts, "refs:count", t.Str() << " counter " << rc.count() << " instead of " << counts);
			vh_count("states", 1);
		}
	}
	VH_CHECK(Live == 0, "refs:leak", t.Str());
	vh_distinct("histories", vh::HashStr(t.Str()));
}

// ---------------------------------------------------------------- joined views
namespace {
	typedef std::vector<u8> Bytes;
	struct Visitor
	{
		Bytes got; int pieces = 0, empty = 0;
		template < typename It > void operator () (const It& b, const It& e) { if (b == e) ++empty; ++pieces; got.insert(got.end(), b, e); }
	};
	struct ConstVisitor
	{
		Visitor* v;
		template < typename It > void operator () (const It& b, const It& e) const { (*v)(b, e); }
	};

	template < typename Joiner > void CheckJoin(const Joiner& j, const Bytes& all, const std::vector<size_t>& sizes, vh::Rng& rng, const std::string& ctx)
	{
		typedef typename Joiner::const_iterator It;
		const size_t n = all.size();
		const It b = j.begin(), e = j.end();
		VH_CHECK(j.size() == n, "join:size", ctx << " " << j.size() << " instead of " << n);
		VH_CHECK((size_t)std::distance(b, e) == n && (size_t)(e - b) == n && b - e == -(ptrdiff_t)n, "join:distance", ctx);
		VH_CHECK((b == e) == (n == 0) && (b != e) == (n != 0), "join:ends", ctx);
		Bytes fwd; It it = b; for (size_t i = 0; i < n && it != e; ++i, ++it) { fwd.push_back(*it); VH_CHECK((size_t)(it - b) == i, "join:distance", ctx); }
		VH_CHECK(fwd == all && it == e, "join:forward", ctx);
		Bytes back; it = e; for (size_t i = 0; i < n && it != b; ++i) { --it; back.push_back(*it); }
		std::reverse(back.begin(), back.end()); VH_CHECK(back == all && it == b, "join:backward", ctx);
		for (int i = 0; i < 6; ++i)
		{
			const size_t x = rng.Below(n + 1), y = rng.Below(n + 1);
			const It ix = b + (ptrdiff_t)x; It iy = e - (ptrdiff_t)(n - y);
			VH_CHECK(iy - ix == (ptrdiff_t)y - (ptrdiff_t)x && (ix < iy) == (x < y) && (ix == iy) == (x == y) && (ix <= iy) == (x <= y) && (ix > iy) == (x > y), "join:order", ctx << " " << x << " " << y);
			It mv = ix; mv += (ptrdiff_t)y - (ptrdiff_t)x; VH_CHECK(mv == iy, "join:advance", ctx << " " << x << " " << y);
			if (x < n) VH_CHECK(*ix == all[x] && b[x] == all[x] && e[(ptrdiff_t)x - (ptrdiff_t)n] == all[x], "join:index", ctx << " " << x);
			const It lo = x < y ? ix : iy, hi = x < y ? iy : ix;
			const size_t l = std::min(x, y), h = std::max(x, y);
			Visitor v; j.ApplyToIntervals(lo, hi, v);
			VH_CHECK(v.got == Bytes(all.begin() + l, all.begin() + h) && v.empty == 0, "join:visit", ctx << " [" << l << ", " << h << ") gave " << v.got.size() << " bytes in " << v.pieces << " pieces");
			size_t pieces = 0, pos = 0; for (size_t s : sizes) { if (s && std::max(l, pos) < std::min(h, pos + s)) ++pieces; pos += s; }
			VH_CHECK((size_t)v.pieces == pieces, "join:pieces", ctx << " [" << l << ", " << h << ") in " << v.pieces << " pieces instead of " << pieces);
			Visitor w; const ConstVisitor cw = { &w }; j.ApplyToIntervals(lo, hi, cw); VH_CHECK(w.got == v.got, "join:visit-const", ctx);
			vh_count("joined_intervals", 1);
		}
		if (rng.Chance(1, 10))
		{
			bool threw = false; try { It over = b + (ptrdiff_t)(n + 1 + rng.Below(3)); (void)over; } catch (const std::exception&) { threw = true; } VH_CHECK(threw, "join:overrun", ctx);
			threw = false; try { It over = b - (ptrdiff_t)(1 + rng.Below(3)); (void)over; } catch (const std::exception&) { threw = true; } VH_CHECK(threw, "join:underrun", ctx);
			const Joiner k(j); threw = false; Visitor v; try { j.ApplyToIntervals(b, k.end(), v); } catch (const std::exception&) { threw = true; } VH_CHECK(threw && v.pieces == 0, "join:foreign", ctx);
		}
	}
	Bytes Piece(vh::Rng& rng) { Bytes b(rng.Chance(1, 3) ? 0 : rng.Below(6)); for (u8& x : b) x = (u8)rng.Next(); return b; }
}

VH_SCENARIO(joins)
{
	const Bytes p[4] = { Piece(rng), Piece(rng), Piece(rng), Piece(rng) };
	u8 stub = 0;
	Bytes exact = p[0]; const std::deque<u8> dq(p[1].begin(), p[1].end()); const std::list<u8> ls(p[2].begin(), p[2].end()); const std::vector<u8> vec(p[3]);
	const ConstByteData data(exact.empty() ? &stub : exact.data(), exact.size());
	std::ostringstream ctx; ctx << "sizes " << p[0].size() << " " << p[1].size() << " " << p[2].size() << " " << p[3].size();
	auto all = [&](std::initializer_list<int> l) { Bytes r; for (int i : l) r.insert(r.end(), p[i].begin(), p[i].end()); return r; };
	auto szs = [&](std::initializer_list<int> l) { std::vector<size_t> r; for (int i : l) r.push_back(p[i].size()); return r; };
	switch (rng.Below(5))
	{
	case 0: { typedef DataJoiner<TypeList<ConstByteData>> J; CheckJoin(J(MakeTuple(&data)), all({ 0 }), szs({ 0 }), rng, ctx.str() + " one"); break; }
	case 1: { typedef DataJoiner<TypeList<ConstByteData, std::deque<u8>>> J; CheckJoin(J(MakeTuple(&data, &dq)), all({ 0, 1 }), szs({ 0, 1 }), rng, ctx.str() + " two"); break; }
	case 2: { typedef DataJoiner<TypeList<std::list<u8>, std::list<u8>, std::vector<u8>>> J; CheckJoin(J(MakeTuple(&ls, &ls, &vec)), all({ 2, 2, 3 }), szs({ 2, 2, 3 }), rng, ctx.str() + " same twice"); break; }
	case 3: { typedef DataJoiner<TypeList<ConstByteData, std::deque<u8>, std::list<u8>, std::vector<u8>>> J; CheckJoin(J(MakeTuple(&data, &dq, &ls, &vec)), all({ 0, 1, 2, 3 }), szs({ 0, 1, 2, 3 }), rng, ctx.str() + " four"); break; }
	default: { typedef DataJoiner<TypeList<std::vector<u8>, ConstByteData, ConstByteData, std::vector<u8>, std::deque<u8>>> J; CheckJoin(J(MakeTuple(&vec, &data, &data, &vec, &dq)), all({ 3, 0, 0, 3, 1 }), szs({ 3, 0, 0, 3, 1 }), rng, ctx.str() + " five"); }
	}
	vh_distinct("joins", vh::HashStr(ctx.str()));
}
