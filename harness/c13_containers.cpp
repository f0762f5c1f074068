// C13: flat, ordered, sorted, multi-valued and list containers against abstract models, after every operation.
#include "vh.h"
#include "sk.h"
#include "coll.h"
#include <stingraykit/collection/ForEach.h>
#include <stingraykit/collection/ArrayList.h>
#include <stingraykit/collection/FlatMapDictionary.h>
#include <stingraykit/collection/FlatSortedSet.h>
#include <stingraykit/collection/MapDictionary.h>
#include <stingraykit/collection/MultiMapDictionary.h>
#include <stingraykit/collection/OrderedDictionary.h>
#include <stingraykit/collection/OrderedSet.h>
#include <stingraykit/collection/SortedMultiSet.h>
#include <stingraykit/collection/SortedSet.h>
#include <stingraykit/collection/bimap.h>
#include <stingraykit/collection/flat_map.h>
#include <stingraykit/collection/flat_set.h>
#include <stingraykit/collection/ordered_map.h>
#include <stingraykit/collection/ordered_set.h>
#include <map>
#include <memory>
#include <set>

using namespace stingray;
using namespace coll;

namespace {
	// comparer with state: natural, reversed, or one that treats keys with the same remainder as equal
	struct KeyLess
	{
		int mode;
		explicit KeyLess(int m = 0) : mode(m) { }
		bool operator () (int a, int b) const { return mode == 0 ? a < b : mode == 1 ? b < a : a % mode < b % mode; }
	};
	struct ClassLess : public comparers::RelationalComparerInfo
	{
		bool operator () (int a, int b) const { return a % 3 < b % 3; }
	};

	std::string Text(int k) { return std::to_string(k); }
	std::string Text(const std::pair<const int, std::string>& p) { return std::to_string(p.first) + "=" + p.second; }
	std::string Text(const std::pair<int, std::string>& p) { return std::to_string(p.first) + "=" + p.second; }
	template < typename It > Strings Items(It b, It e) { Strings r; for (; b != e; ++b) r.push_back(Text(*b)); return r; }
	template < typename It > Strings ItemsBack(It b, It e) { Strings r; while (e != b) { --e; r.push_back(Text(*e)); } return r; }
	Strings Texts(const Model& m) { return m.All(); }
	std::string NewValue(vh::Rng& rng) { return std::string(rng.Chance(1, 4) ? 20 : 1, (char)('a' + rng.Below(26))) + std::to_string(rng.Below(100)); }

	// position at which the model would insert
	size_t InsertPos(const Model& m, int k, size_t hint) { if (!m.sorted) return hint; size_t p = 0; while (p < m.items.size() && !m.less(k, m.items[p].k)) ++p; return p; }
	bool InsertModel(Model& m, int k, const std::string& v, size_t hint) // false when there already
	{ if (m.First(k) >= 0) return false; m.items.insert(m.items.begin() + InsertPos(m, k, hint), Model::Item{ k, v }); return true; }

	template < typename C, bool Map > struct Make;
	template < typename C > struct Make<C, true> { static typename C::value_type Do(int k, const std::string& v) { return typename C::value_type(k, v); } };
	template < typename C > struct Make<C, false> { static int Do(int k, const std::string&) { return k; } };

	template < typename C, bool Map, bool Sorted > struct Raw
	{
		static typename C::value_type Val(int k, const std::string& v) { return Make<C, Map>::Do(k, v); }


		static void SortedOnly(C& c, const Model& m, int k, const vh::Trace& t, std::true_type)
		{
			const C& cc = c;
			size_t lo = 0, hi = 0;
			while (lo < m.items.size() && m.less(m.items[lo].k, k)) ++lo;
			hi = lo; while (hi < m.items.size() && !m.less(k, m.items[hi].k)) ++hi;
			VH_CHECK((size_t)std::distance(c.begin(), c.lower_bound(k)) == lo && (size_t)std::distance(cc.begin(), cc.lower_bound(k)) == lo, "raw:lower-bound", k << "; " << t.Str());
			VH_CHECK((size_t)std::distance(c.begin(), c.upper_bound(k)) == hi && (size_t)std::distance(cc.begin(), cc.upper_bound(k)) == hi, "raw:upper-bound", k << "; " << t.Str());
			const auto r = c.equal_range(k); const auto cr = cc.equal_range(k);
			VH_CHECK((size_t)std::distance(c.begin(), r.first) == lo && (size_t)std::distance(c.begin(), r.second) == hi, "raw:equal-range", k << "; " << t.Str());
			VH_CHECK((size_t)std::distance(cc.begin(), cr.first) == lo && (size_t)std::distance(cc.begin(), cr.second) == hi, "raw:equal-range", k << "; " << t.Str());
		}
		static void SortedOnly(C&, const Model&, int, const vh::Trace&, std::false_type) { }

		static void MapOnly(C& c, const Model& m, int k, const vh::Trace& t, std::true_type)
		{
			const C& cc = c; const int i = m.First(k); std::string a = "none", b = "none"; bool other = false;
			try { a = c.at(k); } catch (const KeyNotFoundException&) { } catch (...) { other = true; }
			try { b = cc.at(k); } catch (const KeyNotFoundException&) { } catch (...) { other = true; }
			VH_CHECK(!other && a == (i >= 0 ? m.items[i].v : "none") && b == a, "raw:at", k << " " << a << " " << b << "; " << t.Str());
		}
		static void MapOnly(C&, const Model&, int, const vh::Trace&, std::false_type) { }

		static void Verify(C& c, const Model& m, vh::Rng& rng, int keys, const vh::Trace& t)
		{
			const C& cc = c; const Strings all = Texts(m); const int k = (int)rng.Below(keys), i = m.First(k);
			VH_CHECK(Items(c.begin(), c.end()) == all && Items(cc.begin(), cc.end()) == all && Items(c.cbegin(), c.cend()) == all, "raw:content", Show(Items(c.begin(), c.end())) << " instead of " << Show(all) << "; " << t.Str());
			VH_CHECK(ItemsBack(c.begin(), c.end()) == Reversed(all) && Items(c.rbegin(), c.rend()) == Reversed(all) && Items(cc.rbegin(), cc.rend()) == Reversed(all) && Items(cc.crbegin(), cc.crend()) == Reversed(all), "raw:reverse", Show(all) << "; " << t.Str());
			VH_CHECK(c.size() == all.size() && c.empty() == all.empty(), "raw:size", c.size() << "; " << t.Str());
			const auto f = c.find(k); const auto cf = cc.find(k);
			VH_CHECK((f == c.end()) == (i < 0) && (cf == cc.end()) == (i < 0), "raw:find", k << "; " << t.Str());
			if (i >= 0) VH_CHECK(std::distance(c.begin(), f) == i && std::distance(cc.begin(), cf) == i && Text(*f) == all[i], "raw:find-position", k << "; " << t.Str());
			VH_CHECK(c.count(k) == m.Count(k), "raw:count", k << "; " << t.Str());
			VH_CHECK(c.key_comp().mode == modeOf(m), "raw:comparer", c.key_comp().mode << " instead of " << modeOf(m) << "; " << t.Str());
			SortedOnly(c, m, k, t, std::integral_constant<bool, Sorted>());
			MapOnly(c, m, k, t, std::integral_constant<bool, Map>());
		}
		static int modeOf(const Model& m) { return m.less(0, 1) ? (m.less(2, 7) ? 0 : 5) : 1; }
		static std::function<bool (int, int)> LessOf(int mode) { const KeyLess l(mode); return [l](int a, int b) { return l(a, b); }; }

		static void Index(C& c, Model& m, int k, const std::string& v, bool assign, const vh::Trace& t, std::true_type)
		{
			InsertModel(m, k, "", m.items.size());
			const int i = m.First(k);
			const std::string had = c[k];
			VH_CHECK(had == m.items[i].v, "raw:index", k << " gave " << had << "; " << t.Str());
			if (assign) { int kk = k; c[std::move(kk)] = v; m.items[i].v = v; }
		}
		static void Index(C&, Model&, int, const std::string&, bool, const vh::Trace&, std::false_type) { }

		template < typename X > static std::pair<typename C::iterator, bool> Emplace(X& c, int k, const std::string& v, std::true_type) { return c.emplace(k, v); }
		template < typename X > static std::pair<typename C::iterator, bool> Emplace(X& c, int k, const std::string&, std::false_type) { return c.emplace(k); }
		template < typename X > static typename C::iterator EmplaceHint(X& c, typename C::const_iterator h, int k, const std::string& v, std::true_type) { return c.emplace_hint(h, k, v); }
		template < typename X > static typename C::iterator EmplaceHint(X& c, typename C::const_iterator h, int k, const std::string&, std::false_type) { return c.emplace_hint(h, k); }

		static void Run(vh::Rng& rng, const char* name)
		{
			typedef std::integral_constant<bool, Map> IsMap;
			vh::Trace t;
			const int modes[3] = { 0, 1, 5 };
			const int keys = rng.Chance(1, 5) ? 40 : 3 + (int)rng.Below(9);
			// two containers, so that copies, moves and swaps can be told apart
			std::vector<C> cs; std::vector<Model> ms;
			for (int i = 0; i < 2; ++i)
			{
				const int mode = modes[rng.Below(3)];
				Model m(Sorted, !Map, LessOf(mode)); C c((KeyLess(mode)));
				if (rng.Chance(1, 3))
				{
					std::vector<typename C::value_type> init; const int n = (int)rng.Below(12);
					for (int j = 0; j < n; ++j) { const int k = (int)rng.Below(keys); const std::string v = Map ? NewValue(rng) : ""; init.push_back(Val(k, v)); InsertModel(m, k, v, m.items.size()); }
					C built(init.begin(), init.end(), KeyLess(mode));
					c = std::move(built);
				}
				cs.push_back(std::move(c)); ms.push_back(m);
			}
			const int steps = 50;
			for (int step = 0; step < steps && !vh_violated(); ++step)
			{
				const int w = (int)rng.Below(2); C& c = cs[w]; Model& m = ms[w]; C& c2 = cs[1 - w]; Model& m2 = ms[1 - w];
				const int k = (int)rng.Below(keys); const std::string v = Map ? NewValue(rng) : "";
				const size_t pos = rng.Below(m.items.size() + 1);
				const int op = (int)rng.Below(24);
				t << w << ":" << op << "(" << k << "," << pos << ") ";
				switch (op)
				{
				case 0: case 1: case 2: case 3:
				{
					const bool ok = InsertModel(m, k, v, m.items.size());
					auto val = Val(k, v); const auto& cval = val;
					const auto r = op == 0 ? c.insert(cval) : op == 1 ? c.insert(std::move(val)) : Emplace(c, k, v, IsMap());
					VH_CHECK(r.second == ok && std::distance(c.begin(), r.first) == m.First(k), "raw:insert-result", t.Str());
					break;
				}
				case 4: case 5: case 6:
				{
					InsertModel(m, k, v, pos);
					auto val = Val(k, v); const auto& cval = val;
					const typename C::const_iterator hint = std::next(c.cbegin(), pos);
					const auto r = op == 4 ? c.insert(hint, cval) : op == 5 ? c.insert(hint, std::move(val)) : EmplaceHint(c, hint, k, v, IsMap());
					VH_CHECK(std::distance(c.begin(), r) == m.First(k), "raw:hint-result", t.Str());
					break;
				}
				case 7: Index(c, m, k, v, rng.Chance(1, 2), t, IsMap()); break;
				case 8: case 9: case 10:
				{
					const int i = m.First(k); size_t n;
					if (i >= 0 && rng.Chance(1, 3)) n = c.erase(KeyRef(*c.find(k), IsMap())); // the key given is the one inside
					else n = c.erase(k);
					VH_CHECK(n == (size_t)(i >= 0), "raw:erase-count", t.Str());
					if (i >= 0) m.Erase(i);
					break;
				}
				case 11: case 12: if (pos < m.items.size())
				{
					const auto r = rng.Chance(1, 2) ? c.erase(std::next(c.begin(), pos)) : c.erase(std::next(c.cbegin(), pos));
					m.Erase((int)pos);
					VH_CHECK((size_t)std::distance(c.begin(), r) == pos, "raw:erase-result", t.Str());
				} break;
				case 13: if (rng.Chance(1, 2))
				{
					const size_t e = pos + rng.Below(m.items.size() - pos + 1);
					const auto r = c.erase(std::next(c.cbegin(), pos), std::next(c.cbegin(), e));
					m.items.erase(m.items.begin() + pos, m.items.begin() + e);
					VH_CHECK((size_t)std::distance(c.begin(), r) == pos, "raw:erase-range-result", t.Str());
				} break;
				case 14: if (rng.Chance(1, 3)) { c.clear(); m.items.clear(); } break;
				case 15:
				{
					std::vector<typename C::value_type> src; const int n = (int)rng.Below(6);
					for (int j = 0; j < n; ++j) { const int kk = (int)rng.Below(keys); const std::string vv = Map ? NewValue(rng) : ""; src.push_back(Val(kk, vv)); InsertModel(m, kk, vv, m.items.size()); }
					c.insert(src.begin(), src.end());
					break;
				}
				case 16:
				{
					const int k2 = (int)rng.Below(keys);
					if (rng.Chance(1, 2)) { c.insert({ Val(k, v), Val(k2, v) }); InsertModel(m, k, v, m.items.size()); InsertModel(m, k2, v, m.items.size()); }
					else { c = { Val(k, v), Val(k2, v) }; m.items.clear(); InsertModel(m, k, v, 0); InsertModel(m, k2, v, m.items.size()); }
					break;
				}
				case 17: c = c2; m = m2; break;
				case 18: { C& self = cs[w]; c = self; break; } // self-assignment
				case 19: { C copy(c); Model cm(m); Verify(copy, cm, rng, keys, t); copy.clear(); const size_t n = c.size(); VH_CHECK(n == m.items.size(), "raw:copy-not-independent", t.Str()); c2 = std::move(copy); m2 = cm; m2.items.clear(); break; }
				case 20: { C moved(std::move(c)); Model mm(m); Verify(moved, mm, rng, keys, t); c = std::move(moved); break; }
				case 21: c.swap(c2); std::swap(m, m2); break;
				case 22: { C copy(c, c.get_allocator()); Verify(copy, m, rng, keys, t); C moved(std::move(copy), c.get_allocator()); Verify(moved, m, rng, keys, t); break; }
				case 23:
				{
					Strings a = Texts(m), b = Texts(m2);
					std::vector<std::pair<int, std::string> > va, vb; for (auto& i : m.items) va.push_back({ i.k, i.v }); for (auto& i : m2.items) vb.push_back({ i.k, i.v });
					VH_CHECK((c == c2) == (va == vb) && (c != c2) == (va != vb) && (c < c2) == (va < vb) && (c > c2) == (va > vb) && (c <= c2) == (va <= vb) && (c >= c2) == (va >= vb), "raw:comparison", Show(a) << " with " << Show(b) << "; " << t.Str());
					C copy(c); VH_CHECK(copy == c && !(copy != c) && !(copy < c), "raw:copy-equal", t.Str());
					break;
				}
				}
				Verify(c, m, rng, keys, t);
				if (op >= 17) Verify(c2, m2, rng, keys, t);
			}
			vh_distinct(name, vh::HashStr(t.Str()));
			vh_count("operations", steps);
		}
		template < typename V > static const int& KeyRef(const V& v, std::true_type) { return v.first; }
		static const int& KeyRef(const int& v, std::false_type) { return v; }
	};
}

VH_SCENARIO(raw_maps)
{
	if (rng.Chance(1, 2)) Raw<flat_map<int, std::string, KeyLess>, true, true>::Run(rng, "flat_map");
	else Raw<ordered_map<int, std::string, KeyLess>, true, false>::Run(rng, "ordered_map");
}

VH_SCENARIO(raw_sets)
{
	if (rng.Chance(1, 2)) Raw<flat_set<int, KeyLess>, false, true>::Run(rng, "flat_set");
	else Raw<ordered_set<int, KeyLess>, false, false>::Run(rng, "ordered_set");
}

// ---------------------------------------------------------------- collections behind interfaces

namespace {
	typedef KeyValuePair<int, std::string> Pair;
	typedef std::function<bool (int, int)> Less;

	template < typename S > void VerifySet(const S& s, const Model& m, int k, const vh::Trace& t)
	{
		VH_CHECK(ListC(s) == m.All(), "set:content", Show(ListC(s)) << " instead of " << Show(m.All()) << "; " << t.Str());
		VH_CHECK(List(s.Reverse()) == Reversed(m.All()), "set:reverse", Show(List(s.Reverse())) << "; " << t.Str());
		VH_CHECK(s.GetCount() == m.items.size() && s.IsEmpty() == m.items.empty(), "set:count", s.GetCount() << "; " << t.Str());
		VH_CHECK(s.Contains(k) == (m.First(k) >= 0), "set:contains", k << "; " << t.Str());
		VH_CHECK(Drain(s.Find(k)) == m.From(k), "set:find", k << " " << Show(Drain(s.Find(k))) << " instead of " << Show(m.From(k)) << "; " << t.Str());
		VH_CHECK(Drain(s.ReverseFind(k)) == m.BackFrom(k), "set:reverse-find", k << " " << Show(Drain(s.ReverseFind(k))) << " instead of " << Show(m.BackFrom(k)) << "; " << t.Str());
	}

	template < typename S > void SnapSet(const S& s, const Model& m, int k, vh::Rng& rng, Snapshots& snaps)
	{
		const size_t adv = rng.Below(m.items.size() + 1);
		switch (rng.Below(4))
		{
		case 0: snaps.AddEnumerator(s.GetEnumerator(), m.All(), adv, "enumerator"); break;
		case 1: snaps.AddEnumerable(s.Reverse(), Reversed(m.All()), "reversed"); break;
		case 2: snaps.AddEnumerator(s.Find(k), m.From(k), rng.Below(3), "find"); break;
		default: snaps.AddEnumerator(s.ReverseFind(k), m.BackFrom(k), rng.Below(3), "reverse find");
		}
	}

	std::function<bool (int)> Picker(vh::Rng& rng) { const int d = 2 + (int)rng.Below(3), r = (int)rng.Below(d); return [d, r](int k) { return k % d == r; }; }
	size_t RemoveIf(Model& m, const std::function<bool (const Model::Item&)>& p) { size_t n = 0; for (size_t i = 0; i < m.items.size(); ) if (p(m.items[i])) { m.Erase((int)i); ++n; } else ++i; return n; }

	template < typename S, bool Multi > struct SetOps;
	template < typename S > struct SetOps<S, false>
	{
		static void Add(S& s, Model& m, int k, const vh::Trace& t) { const bool fresh = m.First(k) < 0; if (fresh) m.Insert(k, ""); VH_CHECK(s.Add(k) == fresh, "set:add-result", t.Str()); }
		static void Remove(S& s, Model& m, int k, bool, const vh::Trace& t) { const int i = m.First(k); if (i >= 0) m.Erase(i); VH_CHECK(s.Remove(k) == (i >= 0), "set:remove-result", t.Str()); }
		static void Counts(const S&, const Model&, int, const vh::Trace&) { }
	};
	template < typename S > struct SetOps<S, true>
	{
		static void Add(S& s, Model& m, int k, const vh::Trace&) { m.Insert(k, ""); s.Add(k); }
		static void Remove(S& s, Model& m, int k, bool all, const vh::Trace& t)
		{
			if (all) { const size_t n = RemoveIf(m, [&](const Model::Item& i) { return m.Eq(i.k, k); }); VH_CHECK(s.RemoveAll(k) == n, "set:remove-all-result", t.Str()); return; }
			const int i = m.First(k); if (i >= 0) m.Erase(i); VH_CHECK(s.RemoveFirst(k) == (i >= 0), "set:remove-result", t.Str());
		}
		static void Counts(const S& s, const Model& m, int k, const vh::Trace& t) { VH_CHECK(s.Count(k) == m.Count(k), "set:count-of", k << " " << s.Count(k) << "; " << t.Str()); }
	};

	template < typename S, bool Multi > void SetModel(vh::Rng& rng, bool sorted, const Less& less, const char* name)
	{
		typedef SetOps<S, Multi> Ops;
		vh::Trace t; t << name << ' ';
		const int keys = rng.Chance(1, 5) ? 40 : 3 + (int)rng.Below(9);
		Model m(sorted, true, less), m2(sorted, true, less);
		std::unique_ptr<S> sp(new S()), sp2(new S());
		Snapshots snaps;
		for (int step = 0; step < 50 && !vh_violated(); ++step)
		{
			S& s = *sp; const int k = (int)rng.Below(keys); const int op = (int)rng.Below(16); const int snapsWere = (int)snaps.items.size();
			t << op << "(" << k << ") ";
			switch (op)
			{
			case 0: case 1: case 2: case 3: case 4: Ops::Add(s, m, k, t); break;
			case 5: case 6: Ops::Remove(s, m, k, false, t); break;
			case 7: Ops::Remove(s, m, k, true, t); break;
			case 8:
			{
				const auto p = Picker(rng); const size_t n = RemoveIf(m, [&](const Model::Item& i) { return p(i.k); });
				VH_CHECK(s.RemoveWhere(sk::F<bool (const int&)>([&](const int& i) { return p(i); })) == n, "set:remove-where-result", t.Str());
				break;
			}
			case 9: if (rng.Chance(1, 3)) { s.Clear(); m.items.clear(); } break;
			case 10: case 11: case 12: SnapSet(s, m, k, rng, snaps); break;
			case 13: *sp2 = s; m2 = m; if (rng.Chance(1, 3)) s = *sp; break;
			case 14: std::swap(sp, sp2); std::swap(m, m2); break;
			case 15:
			{
				std::unique_ptr<S> copy(rng.Chance(1, 2) ? new S(s) : new S(rng.Chance(1, 2) ? s.GetEnumerator() : s.GetEnumerator()));
				VH_CHECK(ListC(*copy) == m.All(), "set:copy", Show(ListC(*copy)) << "; " << t.Str());
				sp2 = std::move(copy); m2 = m;
				break;
			}
			}
			(void)snapsWere;
			VerifySet(*sp, m, (int)rng.Below(keys), t); VerifySet(*sp2, m2, (int)rng.Below(keys), t); Ops::Counts(*sp, m, k, t);
			if (rng.Chance(1, 4)) snaps.CheckOne(rng, t);
		}
		if (rng.Chance(1, 2)) { sp.reset(); sp2.reset(); }
		snaps.CheckAll(rng, t);
		vh_distinct("set history", vh::HashStr(t.Str())); vh_count("operations", 50);
	}

	template < typename D > struct DictOps
	{
		static void Get(const D& d, const Model& m, int k, const vh::Trace& t)
		{
			const int i = m.First(k); std::string v = "none", g = "none";
			const bool ok = d.TryGet(k, v);
			try { g = d.Get(k); } catch (const KeyNotFoundException&) { g = "threw"; }
			VH_CHECK(ok == (i >= 0) && v == (i >= 0 ? m.items[i].v : "none") && g == (i >= 0 ? m.items[i].v : "threw"), "dict:get", k << " " << v << " " << g << "; " << t.Str());
		}
		static void Add(D& d, Model& m, int k, const std::string& v, const vh::Trace& t) { const bool fresh = m.First(k) < 0; if (fresh) m.Insert(k, v); VH_CHECK(d.Add(k, v) == fresh, "dict:add-result", t.Str()); }
		static void Set(D& d, Model& m, int k, const std::string& v) { const int i = m.First(k); if (i < 0) m.Insert(k, v); else m.items[i].v = v; d.Set(k, v); }
		static void Remove(D& d, Model& m, int k, const std::string&, int, const vh::Trace& t) { const int i = m.First(k); if (i >= 0) m.Erase(i); VH_CHECK(d.Remove(k) == (i >= 0), "dict:remove-result", t.Str()); }
		static void Snap(const D&, const Model&, int, vh::Rng&, Snapshots&) { }
	};
	template < typename K, typename V, typename C, typename VC > struct DictOps<MultiMapDictionary<K, V, C, VC> >
	{
		typedef MultiMapDictionary<K, V, C, VC> D;
		static Strings AllOf(const Model& m, int k) { Strings r; for (const Model::Item& i : m.items) if (m.Eq(i.k, k)) r.push_back(i.v); return r; }
		static void Get(const D& d, const Model& m, int k, const vh::Trace& t)
		{
			const int i = m.First(k); std::string v = "none", g = "none";
			const bool ok = d.TryGetFirst(k, v);
			try { g = d.GetFirst(k); } catch (const KeyNotFoundException&) { g = "threw"; }
			VH_CHECK(ok == (i >= 0) && v == (i >= 0 ? m.items[i].v : "none") && g == (i >= 0 ? m.items[i].v : "threw"), "dict:get", k << " " << v << " " << g << "; " << t.Str());
			VH_CHECK(d.CountKey(k) == m.Count(k), "dict:count-key", k << " " << d.CountKey(k) << "; " << t.Str());
			VH_CHECK(Drain(d.GetAll(k)) == AllOf(m, k), "dict:get-all", k << " " << Show(Drain(d.GetAll(k))) << "; " << t.Str());
		}
		static void Add(D& d, Model& m, int k, const std::string& v, const vh::Trace&) { m.Insert(k, v); d.Add(k, v); }
		static void Set(D& d, Model& m, int k, const std::string& v) { m.Insert(k, v); d.Add(k, v); }
		static void Remove(D& d, Model& m, int k, const std::string& v, int how, const vh::Trace& t)
		{
			if (how == 0) { const size_t n = RemoveIf(m, [&](const Model::Item& i) { return m.Eq(i.k, k); }); VH_CHECK(d.RemoveAll(k) == n, "dict:remove-all-result", t.Str()); return; }
			std::string val = v; const Strings all = AllOf(m, k); if (how > 2 && !all.empty()) val = all[v.size() * 7 % all.size()];
			const int i = how == 1 ? m.First(k) : m.FirstPair(k, val);
			if (i >= 0) m.Erase(i);
			VH_CHECK((how == 1 ? d.RemoveFirst(k) : d.RemoveFirst(k, val)) == (i >= 0), "dict:remove-first-result", how << " " << val << "; " << t.Str());
		}
		static void Snap(const D& d, const Model& m, int k, vh::Rng& rng, Snapshots& snaps) { snaps.AddEnumerator(d.GetAll(k), AllOf(m, k), rng.Below(3), "all of a key"); }
	};

	template < typename D > void VerifyDict(const D& s, const Model& m, int k, const vh::Trace& t)
	{
		VH_CHECK(ListC(s) == m.All(), "dict:content", Show(ListC(s)) << " instead of " << Show(m.All()) << "; " << t.Str());
		VH_CHECK(List(s.Reverse()) == Reversed(m.All()), "dict:reverse", Show(List(s.Reverse())) << "; " << t.Str());
		VH_CHECK(s.GetCount() == m.items.size() && s.IsEmpty() == m.items.empty(), "dict:count", s.GetCount() << "; " << t.Str());
		VH_CHECK(s.ContainsKey(k) == (m.First(k) >= 0), "dict:contains", k << "; " << t.Str());
		VH_CHECK(Drain(s.Find(k)) == m.From(k), "dict:find", k << " " << Show(Drain(s.Find(k))) << "; " << t.Str());
		VH_CHECK(Drain(s.ReverseFind(k)) == m.BackFrom(k), "dict:reverse-find", k << " " << Show(Drain(s.ReverseFind(k))) << " instead of " << Show(m.BackFrom(k)) << "; " << t.Str());
		DictOps<D>::Get(s, m, k, t);
	}

	template < typename D > void DictModel(vh::Rng& rng, bool sorted, const Less& less, const char* name)
	{
		typedef DictOps<D> Ops;
		vh::Trace t; t << name << ' ';
		const int keys = rng.Chance(1, 5) ? 40 : 3 + (int)rng.Below(9);
		Model m(sorted, false, less), m2(sorted, false, less);
		std::unique_ptr<D> dp(new D()), dp2(new D());
		Snapshots snaps;
		for (int step = 0; step < 50 && !vh_violated(); ++step)
		{
			D& d = *dp; const int k = (int)rng.Below(keys); const int op = (int)rng.Below(17); const std::string v = rng.Chance(1, 2) ? NewValue(rng) : std::string(1, (char)('a' + rng.Below(3)));
			t << op << "(" << k << "," << v << ") ";
			switch (op)
			{
			case 0: case 1: case 2: Ops::Add(d, m, k, v, t); break;
			case 3: case 4: Ops::Set(d, m, k, v); break;
			case 5: case 6: case 7: Ops::Remove(d, m, k, v, (int)rng.Below(5), t); break;
			case 8:
			{
				const auto p = Picker(rng); const bool byValue = rng.Chance(1, 2);
				const size_t n = RemoveIf(m, [&](const Model::Item& i) { return byValue ? p(i.v[0]) : p(i.k); });
				VH_CHECK(d.RemoveWhere(sk::F<bool (const int&, const std::string&)>([&](const int& i, const std::string& s) { return byValue ? p(s[0]) : p(i); })) == n, "dict:remove-where-result", t.Str());
				break;
			}
			case 9: if (rng.Chance(1, 3)) { d.Clear(); m.items.clear(); } break;
			case 10: case 11: case 12: switch (rng.Below(5))
			{
				case 0: snaps.AddEnumerator(d.GetEnumerator(), m.All(), rng.Below(m.items.size() + 1), "enumerator"); break;
				case 1: snaps.AddEnumerable(d.Reverse(), Reversed(m.All()), "reversed"); break;
				case 2: snaps.AddEnumerator(d.Find(k), m.From(k), rng.Below(3), "find"); break;
				case 3: snaps.AddEnumerator(d.ReverseFind(k), m.BackFrom(k), rng.Below(3), "reverse find"); break;
				default: Ops::Snap(d, m, k, rng, snaps);
			} break;
			case 13: *dp2 = d; m2 = m; if (rng.Chance(1, 3)) d = *dp; break;
			case 14: std::swap(dp, dp2); std::swap(m, m2); break;
			default:
			{
				std::unique_ptr<D> copy(rng.Chance(1, 2) ? new D(d) : new D(d.GetEnumerator()));
				VH_CHECK(ListC(*copy) == m.All(), "dict:copy", Show(ListC(*copy)) << "; " << t.Str());
				dp2 = std::move(copy); m2 = m;
			}
			}
			VerifyDict(*dp, m, (int)rng.Below(keys), t); VerifyDict(*dp2, m2, (int)rng.Below(keys), t);
			if (rng.Chance(1, 4)) snaps.CheckOne(rng, t);
		}
		if (rng.Chance(1, 2)) { dp.reset(); dp2.reset(); }
		snaps.CheckAll(rng, t);
		vh_distinct("dictionary history", vh::HashStr(t.Str())); vh_count("operations", 50);
	}

	bool Ascending(int a, int b) { return a < b; }
	bool Descending(int a, int b) { return a > b; }
	bool ByClass(int a, int b) { return a % 3 < b % 3; }
}

VH_SCENARIO(set_model)
{
	switch (rng.Below(8))
	{
	case 0: SetModel<SortedSet<int>, false>(rng, true, &Ascending, "SortedSet"); break;
	case 1: SetModel<SortedSet<int, comparers::Greater>, false>(rng, true, &Descending, "SortedSet/greater"); break;
	case 2: SetModel<SortedSet<int, ClassLess>, false>(rng, true, &ByClass, "SortedSet/class"); break;
	case 3: SetModel<FlatSortedSet<int>, false>(rng, true, &Ascending, "FlatSortedSet"); break;
	case 4: SetModel<FlatSortedSet<int, comparers::Greater>, false>(rng, true, &Descending, "FlatSortedSet/greater"); break;
	case 5: SetModel<OrderedSet<int>, false>(rng, false, &Ascending, "OrderedSet"); break;
	case 6: SetModel<OrderedSet<int, ClassLess>, false>(rng, false, &ByClass, "OrderedSet/class"); break;
	default: if (rng.Chance(1, 2)) SetModel<SortedMultiSet<int>, true>(rng, true, &Ascending, "SortedMultiSet"); else SetModel<SortedMultiSet<int, ClassLess>, true>(rng, true, &ByClass, "SortedMultiSet/class");
	}
}

VH_SCENARIO(dict_model)
{
	switch (rng.Below(8))
	{
	case 0: DictModel<MapDictionary<int, std::string> >(rng, true, &Ascending, "MapDictionary"); break;
	case 1: DictModel<MapDictionary<int, std::string, ClassLess> >(rng, true, &ByClass, "MapDictionary/class"); break;
	case 2: DictModel<FlatMapDictionary<int, std::string> >(rng, true, &Ascending, "FlatMapDictionary"); break;
	case 3: DictModel<FlatMapDictionary<int, std::string, comparers::Greater> >(rng, true, &Descending, "FlatMapDictionary/greater"); break;
	case 4: DictModel<OrderedDictionary<int, std::string> >(rng, false, &Ascending, "OrderedDictionary"); break;
	case 5: DictModel<OrderedDictionary<int, std::string, ClassLess> >(rng, false, &ByClass, "OrderedDictionary/class"); break;
	case 6: DictModel<MultiMapDictionary<int, std::string> >(rng, true, &Ascending, "MultiMapDictionary"); break;
	default: DictModel<MultiMapDictionary<int, std::string, ClassLess> >(rng, true, &ByClass, "MultiMapDictionary/class");
	}
}

VH_SCENARIO(list_model)
{
	typedef ArrayList<std::string> L;
	vh::Trace t;
	const int values = 2 + (int)rng.Below(6);
	std::unique_ptr<L> lp(new L()), lp2(new L()); Strings m, m2; Snapshots snaps;
	for (int step = 0; step < 60 && !vh_violated(); ++step)
	{
		L& l = *lp; const int op = (int)rng.Below(18); const std::string v = (rng.Chance(1, 4) ? "a-rather-long-string-" : "") + std::to_string(rng.Below(values)); const size_t i = rng.Below(m.size() + 2);
		t << op << "(" << i << "," << v << ") ";
		bool threw = false, other = false;
		#define THROWING(expr) try { expr; } catch (const IndexOutOfRangeException&) { threw = true; } catch (...) { other = true; }
		switch (op)
		{
		case 0: case 1: case 2: l.Add(v); m.push_back(v); break;
		case 3: case 4: THROWING(l.Insert(i, v)); VH_CHECK(!other && threw == (i > m.size()), "list:insert-bounds", t.Str()); if (i <= m.size()) m.insert(m.begin() + i, v); break;
		case 5: case 6: THROWING(l.Set(i, v)); VH_CHECK(!other && threw == (i >= m.size()), "list:set-bounds", t.Str()); if (i < m.size()) m[i] = v; break;
		case 7: THROWING(l.RemoveAt(i)); VH_CHECK(!other && threw == (i >= m.size()), "list:remove-at-bounds", t.Str()); if (i < m.size()) m.erase(m.begin() + i); break;
		case 8: { const auto it = std::find(m.begin(), m.end(), v); VH_CHECK(l.Remove(v) == (it != m.end()), "list:remove-result", t.Str()); if (it != m.end()) m.erase(it); break; }
		case 9: { const size_t was = m.size(); m.erase(std::remove(m.begin(), m.end(), v), m.end()); VH_CHECK(l.RemoveAll(sk::F<bool (const std::string&)>([&](const std::string& s) { return s == v; })) == was - m.size(), "list:remove-all-result", t.Str()); break; }
		case 10: if (rng.Chance(1, 3)) { l.Clear(); m.clear(); } break;
		case 11: case 12: snaps.AddEnumerator(l.GetEnumerator(), m, rng.Below(m.size() + 1), "enumerator"); break;
		case 13: snaps.AddEnumerable(l.Reverse(), Reversed(m), "reversed"); break;
		case 14: *lp2 = l; m2 = m; if (rng.Chance(1, 3)) l = *lp; break;
		case 15: std::swap(lp, lp2); std::swap(m, m2); break;
		default: lp2.reset(rng.Chance(1, 2) ? new L(l) : new L(l.GetEnumerator())); m2 = m;
		}
		for (int w = 0; w < 2; ++w)
		{
			const L& c = w ? *lp2 : *lp; const Strings& cm = w ? m2 : m;
			VH_CHECK(ListC(c) == cm, "list:content", Show(ListC(c)) << " instead of " << Show(cm) << "; " << t.Str());
			VH_CHECK(List(c.Reverse()) == Reversed(cm), "list:reverse", Show(List(c.Reverse())) << "; " << t.Str());
			VH_CHECK(c.GetCount() == cm.size() && c.IsEmpty() == cm.empty(), "list:count", t.Str());
			const std::string q = std::to_string(rng.Below(values)); const auto it = std::find(cm.begin(), cm.end(), q);
			VH_CHECK(c.Contains(q) == (it != cm.end()), "list:contains", t.Str());
			const optional<size_t> idx = c.IndexOf(q);
			VH_CHECK((bool)idx == (it != cm.end()) && (!idx || *idx == (size_t)(it - cm.begin())), "list:index-of", t.Str());
			const size_t j = rng.Below(cm.size() + 2); std::string got = "none", tg = "none"; const bool ok = c.TryGet(j, tg);
			try { got = c.Get(j); } catch (const IndexOutOfRangeException&) { got = "threw"; }
			VH_CHECK(got == (j < cm.size() ? cm[j] : "threw") && ok == (j < cm.size()) && tg == (j < cm.size() ? cm[j] : "none"), "list:get", j << " " << got << "; " << t.Str());
		}
		if (rng.Chance(1, 4)) snaps.CheckOne(rng, t);
	}
	if (rng.Chance(1, 2)) { lp.reset(); lp2.reset(); }
	snaps.CheckAll(rng, t);
	vh_distinct("list history", vh::HashStr(t.Str())); vh_count("operations", 60);
}

// both directions of a two-way map, for histories that keep it a bijection
namespace {
	template < typename B > void BimapModel(vh::Rng& rng)
	{
		vh::Trace t; B b; std::map<int, std::string> m; std::map<std::string, int> r; const int n = 3 + (int)rng.Below(8);
		for (int step = 0; step < 40 && !vh_violated(); ++step)
		{
			const int k = (int)rng.Below(n); const std::string v = "v" + std::to_string(rng.Below(n)); const int op = (int)rng.Below(8);
			t << op << "(" << k << "," << v << ") ";
			const bool hasK = m.count(k), hasV = r.count(v), pair = hasK && m[k] == v;
			switch (op)
			{
			case 0: case 1: if ((hasK || hasV) && !pair) break; b.left_insert(k, v); m[k] = v; r[v] = k; break;
			case 2: if ((hasK || hasV) && !pair) break; b.right_insert(v, k); m[k] = v; r[v] = k; break;
			case 3: b.left_erase(k); if (hasK) { r.erase(m[k]); m.erase(k); } break;
			case 4: b.right_erase(v); if (hasV) { m.erase(r[v]); r.erase(v); } break;
			case 5: { b.left_erase(b.left_find(k)); if (hasK) { r.erase(m[k]); m.erase(k); } break; }
			case 6: { b.right_erase(b.right_find(v)); if (hasV) { m.erase(r[v]); r.erase(v); } break; }
			case 7: if (rng.Chance(1, 4)) { b.clear(); m.clear(); r.clear(); } break;
			}
			const B& cb = b;
			std::vector<std::pair<int, std::string> > l1(cb.left_begin(), cb.left_end()), l2(m.begin(), m.end());
			std::vector<std::pair<std::string, int> > r1(cb.right_begin(), cb.right_end()), r2(r.begin(), r.end());
			VH_CHECK(l1 == l2 && r1 == r2, "bimap:content", l1.size() << " " << r1.size() << "; " << t.Str());
			std::vector<std::pair<int, std::string> > lb(b.left_rbegin(), b.left_rend()); std::reverse(lb.begin(), lb.end());
			std::vector<std::pair<std::string, int> > rb(b.right_rbegin(), b.right_rend()); std::reverse(rb.begin(), rb.end());
			VH_CHECK(lb == l2 && rb == r2, "bimap:reverse", t.Str());
			VH_CHECK(b.size() == m.size() && b.empty() == m.empty(), "bimap:size", t.Str());
			VH_CHECK((cb.left_find(k) == cb.left_end()) == !m.count(k) && (!m.count(k) || cb.left_find(k)->second == m[k]), "bimap:left-find", t.Str());
			VH_CHECK((cb.right_find(v) == cb.right_end()) == !r.count(v) && (!r.count(v) || cb.right_find(v)->second == r[v]), "bimap:right-find", t.Str());
			const auto e = cb.left_equal_range(k); const auto f = cb.right_equal_range(v);
			VH_CHECK((size_t)std::distance(e.first, e.second) == m.count(k) && (size_t)std::distance(f.first, f.second) == r.count(v), "bimap:equal-range", t.Str());
		}
		vh_distinct("bimap history", vh::HashStr(t.Str())); vh_count("operations", 40);
	}
}

VH_SCENARIO(bimap_model)
{
	if (rng.Chance(1, 2)) BimapModel<bimap<std::map<int, std::string>, std::map<std::string, int> > >(rng);
	else BimapModel<bimap<flat_map<int, std::string>, std::map<std::string, int> > >(rng);
}
