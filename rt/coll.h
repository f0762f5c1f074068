// Helpers for checks of collections: text form of the content of anything enumerable, and snapshots that must not change.
#pragma once
#include "vh.h"
#include <stingraykit/collection/DiffEntry.h>
#include <stingraykit/collection/IEnumerable.h>
#include <stingraykit/collection/KeyValuePair.h>
#include <algorithm>
#include <string>
#include <vector>

namespace coll
{
	using namespace stingray;
	typedef std::vector<std::string> Strings;

	inline std::string Str(int v) { return std::to_string(v); }
	inline std::string Str(const std::string& v) { return v; }
	template < typename V > std::string Str(const KeyValuePair<int, V>& p) { return std::to_string(p.Key) + "=" + Str(p.Value); }
	template < typename V > std::string Str(const KeyValuePair<size_t, V>& p) { return std::to_string(p.Key) + "=" + Str(p.Value); }
	template < typename T > std::string Str(const DiffEntry<T>& e) { return (e.Op == CollectionOp::Added ? "+" : e.Op == CollectionOp::Removed ? "-" : "~") + Str(e.Item); }

	template < typename T > Strings Drain(const shared_ptr<IEnumerator<T> >& e) { Strings r; for (; e->Valid(); e->Next()) r.push_back(Str(e->Get())); return r; }
	template < typename E > Strings List(const shared_ptr<E>& e) { return Drain(e->GetEnumerator()); }
	template < typename C > Strings ListC(const C& c) { return Drain(c.GetEnumerator()); }
	inline std::string Show(const Strings& v) { std::string r = "["; for (const std::string& s : v) r += s + " "; return r + "]"; }
	inline Strings Reversed(Strings v) { std::reverse(v.begin(), v.end()); return v; }

	// something enumerable together with what it must show for ever
	struct Snapshots
	{
		struct Item { std::function<Strings ()> list; Strings expect; std::string what; };
		std::vector<Item> items;
		template < typename T > void AddEnumerator(const shared_ptr<IEnumerator<T> >& e, const Strings& expect, size_t advance, const std::string& what)
		{
			Strings rest = expect;
			for (size_t i = 0; i < advance && !rest.empty(); ++i)
			{
				VH_CHECK_R(e->Valid() && Str(e->Get()) == rest[0], "snapshot:start", what << ": expected " << rest[0]);
				e->Next(); rest.erase(rest.begin());
			}
			items.push_back(Item{ [e] { return Drain(e); }, rest, what });
		}
		template < typename T > void AddEnumerable(const shared_ptr<IEnumerable<T> >& e, const Strings& expect, const std::string& what)
		{ items.push_back(Item{ [e] { return Drain(e->GetEnumerator()); }, expect, what }); }
		void CheckOne(vh::Rng& r, const vh::Trace& t)
		{
			if (items.empty()) return;
			const size_t i = r.Below(items.size());
			const Strings got = items[i].list();
			VH_CHECK(got == items[i].expect, "snapshot:changed", items[i].what << ": " << Show(got) << " instead of " << Show(items[i].expect) << "; " << t.Str());
			items.erase(items.begin() + i);
			vh_count("snapshots verified", 1);
		}
		void CheckAll(vh::Rng& r, const vh::Trace& t) { while (!items.empty()) CheckOne(r, t); }
	};

	// Keyed sequence: sorted (duplicates in insertion order) or in insertion order. The abstract content of sets and dictionaries.
	struct Model
	{
		struct Item { int k; std::string v; bool operator == (const Item& o) const { return k == o.k && v == o.v; } };
		bool sorted; bool keysOnly;
		std::function<bool (int, int)> less;
		std::vector<Item> items;
		Model(bool sorted_, bool keysOnly_, const std::function<bool (int, int)>& less_) : sorted(sorted_), keysOnly(keysOnly_), less(less_) { }
		bool Eq(int a, int b) const { return !less(a, b) && !less(b, a); }
		int First(int k) const { for (size_t i = 0; i < items.size(); ++i) if (Eq(items[i].k, k)) return (int)i; return -1; }
		int Last(int k) const { for (size_t i = items.size(); i-- > 0; ) if (Eq(items[i].k, k)) return (int)i; return -1; }
		int FirstPair(int k, const std::string& v) const { for (size_t i = 0; i < items.size(); ++i) if (Eq(items[i].k, k) && items[i].v == v) return (int)i; return -1; }
		size_t Count(int k) const { size_t r = 0; for (const Item& i : items) r += Eq(i.k, k); return r; }
		void Insert(int k, const std::string& v)
		{
			size_t p = items.size();
			if (sorted) { p = 0; while (p < items.size() && !less(k, items[p].k)) ++p; }
			items.insert(items.begin() + p, Item{ k, v });
		}
		void Erase(int i) { items.erase(items.begin() + i); }
		std::string Text(const Item& i) const { return keysOnly ? std::to_string(i.k) : std::to_string(i.k) + "=" + i.v; }
		Strings All() const { Strings r; for (const Item& i : items) r.push_back(Text(i)); return r; }
		Strings From(int k) const { Strings r; const int f = First(k); if (f >= 0) for (size_t i = f; i < items.size(); ++i) r.push_back(Text(items[i])); return r; }
		Strings BackFrom(int k) const { Strings r; for (int i = Last(k); i >= 0; --i) r.push_back(Text(items[i])); return r; }
	};
}
