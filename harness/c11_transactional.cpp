// C11: transactional set, dictionary and list. Monitors: committed and pending content against abstract models after every operation,
// mirrors that replay the announced differences, snapshots held across later changes, and isolation under concurrency.
#include "vsx.h"
#include "sk.h"
#include <stingraykit/collection/ForEach.h>
#include <stingraykit/collection/TransactionalDictionary.h>
#include <stingraykit/collection/TransactionalDictionaryKeyValue.h>
#include <stingraykit/collection/TransactionalList.h>
#include <stingraykit/collection/TransactionalSet.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <algorithm>
#include <map>
#include <memory>
#include <set>

using namespace stingray;

namespace {
	typedef KeyValuePair<int, std::string> Pair;
	typedef TransactionalList<int, comparers::Equals> IntList;

	// equality that ignores case, so that equal values may differ
	struct LooseEquals : public comparers::EqualsComparerInfo
	{
		static std::string Low(const std::string& s) { std::string r = s; for (char& c : r) c = (char)tolower(c); return r; }
		bool operator () (const std::string& l, const std::string& r) const { return Low(l) == Low(r); }
	};

	std::string Str(int v) { return std::to_string(v); }
	std::string Str(const std::string& v) { return v; }
	std::string Str(const Pair& p) { return std::to_string(p.Key) + "=" + p.Value; }
	template < typename K > std::string Str(const KeyValuePair<K, int>& p) { return std::to_string(p.Key) + "=" + std::to_string(p.Value); }
	template < typename T > std::string Str(const DiffEntry<T>& e) { return (e.Op == CollectionOp::Added ? "+" : e.Op == CollectionOp::Removed ? "-" : "~") + Str(e.Item); }
	template < typename V > std::string Join(const V& v) { std::string r; for (const auto& e : v) r += Str(e) + " "; return r; }

	template < typename T > std::vector<std::string> Drain(const shared_ptr<IEnumerator<T> >& e) { std::vector<std::string> r; for (; e->Valid(); e->Next()) r.push_back(Str(e->Get())); return r; }
	template < typename E > std::vector<std::string> List(const shared_ptr<E>& e) { return Drain(e->GetEnumerator()); }
	template < typename C > std::vector<std::string> ListC(const C& c) { return Drain(c.GetEnumerator()); }

	std::string Show(const std::vector<std::string>& v) { std::string r = "["; for (const std::string& s : v) r += s + " "; return r + "]"; }

	// snapshots: something enumerable together with what it must show for ever
	struct Snapshots
	{
		struct Item { std::function<std::vector<std::string> ()> list; std::vector<std::string> expect; std::string what; };
		std::vector<Item> items;
		template < typename T > void AddEnumerator(const shared_ptr<IEnumerator<T> >& e, const std::vector<std::string>& expect, size_t advance, const std::string& what)
		{
			std::vector<std::string> rest = expect;
			for (size_t i = 0; i < advance && !rest.empty(); ++i)
			{
				VH_CHECK_R(e->Valid() && Str(e->Get()) == rest[0], "snapshot:start", what << ": expected " << rest[0]);
				e->Next(); rest.erase(rest.begin());
			}
			items.push_back(Item{ [e] { return Drain(e); }, rest, what });
		}
		template < typename T > void AddEnumerable(const shared_ptr<IEnumerable<T> >& e, const std::vector<std::string>& expect, const std::string& what)
		{ items.push_back(Item{ [e] { return Drain(e->GetEnumerator()); }, expect, what }); }
		void CheckOne(vh::Rng& r, const vh::Trace& t)
		{
			if (items.empty()) return;
			const size_t i = r.Below(items.size());
			const std::vector<std::string> got = items[i].list();
			VH_CHECK(got == items[i].expect, "snapshot:changed", items[i].what << ": " << Show(got) << " instead of " << Show(items[i].expect) << "; " << t.Str());
			items.erase(items.begin() + i);
			vh_count("snapshots verified", 1);
		}
		void CheckAll(vh::Rng& r, const vh::Trace& t) { while (!items.empty()) CheckOne(r, t); }
	};

	template < typename C > void CheckSecondTransaction(vh::Rng& rng, C& c, const vh::Trace& t)
	{
		// while a transaction exists another one cannot start
		bool cancelled = false, timedOut = false, other = false;
		try
		{
			if (rng.Bool()) { CancellationToken tok; tok.Cancel(); c.StartTransaction(tok); }
			else { TimedCancellationToken tok(TimeDuration::FromMicroseconds(0)); c.StartTransaction(tok); }
			other = true;
		}
		catch (const OperationCancelledException&) { cancelled = true; }
		catch (const TimeoutException&) { timedOut = true; }
		VH_CHECK(!other && (cancelled || timedOut), "transaction:second-started", t.Str());
	}
}

// ---------------------------------------------------------------- set

namespace {
	template < typename Less_ >
	void SetModel(vh::Rng& rng, const Less_& less)
	{
		typedef TransactionalSet<int, Less_> Set;
		auto cmp = [less](int l, int r) { return less(l, r); };
		typedef std::set<int, std::function<bool (int, int)> > Model;
		Set c;
		Model m(cmp), tm(cmp);
		typename Set::TransactionTypePtr tr;
		vh::Trace t;
		Snapshots snaps;
		struct Listener { Model mirror; Token conn; int announced; bool populate; Listener(const Model& m_) : mirror(m_), announced(0), populate(true) { } };
		std::vector<std::shared_ptr<Listener> > ls;
		int expectAnnouncements = 0;
		const int keys = 3 + (int)rng.Below(8);

		auto listM = [](const Model& x) { std::vector<std::string> r; for (int v : x) r.push_back(Str(v)); return r; };
		auto rev = [](std::vector<std::string> v) { std::reverse(v.begin(), v.end()); return v; };
		auto from = [&](const Model& x, int k, bool back) { std::vector<std::string> r; if (!x.count(k)) return r; if (back) { for (auto it = x.rbegin(); it != x.rend(); ++it) if (!less(k, *it)) r.push_back(Str(*it)); } else for (auto it = x.find(k); it != x.end(); ++it) r.push_back(Str(*it)); return r; };

		auto apply = [&](Model& mirror, const typename Set::DiffTypePtr& diff, const char* what)
		{
			FOR_EACH (const DiffEntry<int> e IN diff)
			{
				if (e.Op == CollectionOp::Added) VH_CHECK(mirror.insert(e.Item).second, "set:diff-adds-present", what << " " << e.Item << "; " << t.Str());
				else if (e.Op == CollectionOp::Removed) VH_CHECK(mirror.erase(e.Item) == 1, "set:diff-removes-absent", what << " " << e.Item << "; " << t.Str());
				else VH_CHECK(false, "set:diff-op", t.Str());
			}
		};
		auto verify = [&](const IReadonlySet<int>& s, const Model& x, const char* what)
		{
			const std::vector<std::string> e = listM(x);
			VH_CHECK(ListC(s) == e, "set:content", what << " " << Show(ListC(s)) << " instead of " << Show(e) << "; " << t.Str());
			VH_CHECK(List(s.Reverse()) == rev(e), "set:reverse", what << " " << t.Str());
			VH_CHECK(s.GetCount() == x.size() && s.IsEmpty() == x.empty(), "set:count", what << " " << s.GetCount() << "; " << t.Str());
			const int k = (int)rng.Below(keys);
			VH_CHECK(s.Contains(k) == (x.count(k) != 0), "set:contains", what << " " << k << "; " << t.Str());
			VH_CHECK(Drain(s.Find(k)) == from(x, k, false), "set:find", what << " " << k << " " << Show(Drain(s.Find(k))) << "; " << t.Str());
			VH_CHECK(Drain(s.ReverseFind(k)) == from(x, k, true), "set:reverse-find", what << " " << k << " " << Show(Drain(s.ReverseFind(k))) << "; " << t.Str());
		};

		for (int i = 0; i < 60 && !vh_violated(); ++i)
		{
			const int k = (int)rng.Below(keys);
			if (!tr)
			{
				t << " | start"; tr = c.StartTransaction(); tm = m;
			}
			else switch (rng.Below(16))
			{
			case 0: case 1: case 2: case 3:
				{ t << " +" << k; const bool r = tr->Add(k); VH_CHECK(r == tm.insert(k).second, "set:add-result", t.Str()); break; }
			case 4: case 5: case 6:
				{ t << " -" << k; const bool r = tr->Remove(k); VH_CHECK(r == (tm.erase(k) == 1), "set:remove-result", t.Str()); break; }
			case 7:
				{
					const int mod = 2 + (int)rng.Below(3);
					t << " -%" << mod;
					const size_t r = tr->RemoveWhere(sk::F<bool (const int&)>([mod](const int& v) { return v % mod == 0; }));
					size_t n = 0; for (auto it = tm.begin(); it != tm.end(); ) if (*it % mod == 0) { it = tm.erase(it); ++n; } else ++it;
					VH_CHECK(r == n, "set:remove-where-result", r << " instead of " << n << "; " << t.Str());
					break;
				}
			case 8: if (rng.Bool()) { t << " clear"; tr->Clear(); tm.clear(); } break;
			case 9:
				{
					const bool add = rng.Bool();
					t << " apply" << (add ? "+" : "-") << k;
					tr->Apply(MakeDiffEntry(add ? CollectionOp(CollectionOp::Added) : CollectionOp(CollectionOp::Removed), k));
					if (add) tm.insert(k); else tm.erase(k);
					break;
				}
			case 10: case 11:
				{
					t << " commit";
					const bool changed = m != tm;
					if (changed) ++expectAnnouncements;
					m = tm;
					for (auto& l : ls) l->announced = 0;
					tr->Commit();
					for (auto& l : ls) { VH_CHECK(l->announced == (changed ? 1 : 0), "set:announcements", l->announced << "; " << t.Str()); VH_CHECK(l->mirror == m, "set:mirror", Show(listM(l->mirror)) << " instead of " << Show(listM(m)) << "; " << t.Str()); }
					break;
				}
			case 12: t << " revert"; tr->Revert(); tm = m; break;
			case 13: t << " abandon"; tr.reset(); break;
			case 14:
				{
					t << " listen";
					std::shared_ptr<Listener> l(new Listener(Model(cmp)));
					l->populate = rng.Chance(3, 4);
					if (!l->populate) l->mirror = m;
					Listener* lp = l.get();
					l->conn = c.OnChanged().connect(sk::F<void (const typename Set::DiffTypePtr&)>([&, lp](const typename Set::DiffTypePtr& d)
					{
						++lp->announced;
						apply(lp->mirror, d, "commit");
						VH_CHECK(ListC(c) == listM(lp->mirror), "set:seen-by-listener", Show(ListC(c)) << " != " << Show(listM(lp->mirror)) << "; " << t.Str());
						if (snaps.items.size() < 30) snaps.AddEnumerable(d, List(d), "announced difference");
					}), l->populate);
					if (l->populate) VH_CHECK(l->announced == (m.empty() ? 0 : 1) && l->mirror == m, "set:populate", t.Str());
					ls.push_back(l);
					if (ls.size() > 3) ls.erase(ls.begin());
					break;
				}
			default: CheckSecondTransaction(rng, c, t);
			}
			verify(c, m, "collection");
			if (tr)
			{
				verify(*tr, tm, "transaction");
				Model x = m; const typename Set::DiffTypePtr d = tr->Diff();
				apply(x, d, "pending");
				size_t n = 0; FOR_EACH (const DiffEntry<int> e IN d) { (void)e; ++n; }
				size_t sym = 0; for (int v : m) sym += !tm.count(v); for (int v : tm) sym += !m.count(v);
				VH_CHECK(x == tm && n == sym, "set:pending-difference", Show(List(d)) << "; " << t.Str());
				VH_CHECK(tr->IsDirty() == (m != tm), "set:dirty", t.Str());
			}
			if (rng.Chance(1, 3) && snaps.items.size() < 40)
			{
				const bool inTr = tr && rng.Bool(); const Model& x = inTr ? tm : m; const std::string what = inTr ? "transaction" : "collection";
				const IReadonlySet<int>* s = &c; if (inTr) s = tr.get();
				switch (rng.Below(4))
				{
				case 0: snaps.AddEnumerator(s->GetEnumerator(), listM(x), rng.Below(4), what + " enumerator"); break;
				case 1: snaps.AddEnumerable(s->Reverse(), rev(listM(x)), what + " reverse"); break;
				case 2: snaps.AddEnumerator(s->Find(k), from(x, k, false), rng.Below(2), what + " find"); break;
				default: if (tr) snaps.AddEnumerable(tr->Diff(), List(tr->Diff()), "pending difference"); else snaps.AddEnumerator(s->ReverseFind(k), from(x, k, true), rng.Below(2), what + " reverse find");
				}
			}
			if (rng.Chance(1, 4)) snaps.CheckOne(rng, t);
		}
		tr.reset();
		verify(c, m, "collection");
		snaps.CheckAll(rng, t);
		vh_count("set commits announced", expectAnnouncements);
		vh_distinct("set history", vh::HashStr(t.Str()));
		vh_sample(t.Str().c_str());
	}
}

VH_SCENARIO(set_model)
{ if (rng.Bool()) SetModel(rng, comparers::Less()); else SetModel(rng, comparers::Greater()); }

// ---------------------------------------------------------------- dictionary

namespace {
	template < typename Less_, typename Equals_ >
	void DictModel(vh::Rng& rng, const Less_& less, const Equals_& eq)
	{
		typedef TransactionalDictionary<int, std::string, Less_, Equals_> Dict;
		auto cmp = [less](int l, int r) { return less(l, r); };
		typedef std::map<int, std::string, std::function<bool (int, int)> > Model;
		const shared_ptr<Dict> cp = make_shared_ptr<Dict>();
		Dict& c = *cp;
		Model m(cmp), tm(cmp);
		typename Dict::TransactionTypePtr tr;
		vh::Trace t;
		Snapshots snaps;
		struct Listener { Model mirror; Token conn; int announced; Listener(const Model& m_) : mirror(m_), announced(0) { } };
		std::vector<std::shared_ptr<Listener> > ls;
		const int keys = 3 + (int)rng.Below(6);
		const int watched = (int)rng.Below(keys);
		auto value = [&]() { static const char* vs[] = { "a", "A", "b", "B", "c", "" }; return std::string(vs[rng.Below(6)]); };
		auto listM = [](const Model& x) { std::vector<std::string> r; for (const auto& v : x) r.push_back(std::to_string(v.first) + "=" + v.second); return r; };
		auto rev = [](std::vector<std::string> v) { std::reverse(v.begin(), v.end()); return v; };
		auto from = [&](const Model& x, int k, bool back) { std::vector<std::string> r; if (!x.count(k)) return r; if (back) { for (auto it = x.rbegin(); it != x.rend(); ++it) if (!less(k, it->first)) r.push_back(std::to_string(it->first) + "=" + it->second); } else for (auto it = x.find(k); it != x.end(); ++it) r.push_back(std::to_string(it->first) + "=" + it->second); return r; };
		// what a set of the value leaves behind: values equal to the committed or to the pending one are kept
		auto set = [&](int k, const std::string& v)
		{
			auto it = m.find(k);
			if (it != m.end() && eq(v, it->second)) { tm[k] = it->second; return; }
			auto it2 = tm.find(k);
			if (it2 != tm.end() && eq(v, it2->second) && !(it != m.end() && it->second == it2->second)) return;
			tm[k] = v;
		};
		auto apply = [&](Model& mirror, const typename Dict::DiffTypePtr& diff, const char* what)
		{
			FOR_EACH (const DiffEntry<Pair> e IN diff)
			{
				if (e.Op == CollectionOp::Added) VH_CHECK(mirror.insert(std::make_pair(e.Item.Key, e.Item.Value)).second, "dict:diff-adds-present", what << " " << Str(e) << "; " << t.Str());
				else if (e.Op == CollectionOp::Removed)
				{
					auto it = mirror.find(e.Item.Key);
					VH_CHECK(it != mirror.end() && it->second == e.Item.Value, "dict:diff-removes-absent", what << " " << Str(e) << "; " << t.Str());
					if (it != mirror.end()) mirror.erase(it);
				}
				else VH_CHECK(false, "dict:diff-op", t.Str());
			}
		};
		auto verify = [&](const IReadonlyDictionary<int, std::string>& s, const Model& x, const char* what)
		{
			const std::vector<std::string> e = listM(x);
			VH_CHECK(ListC(s) == e, "dict:content", what << " " << Show(ListC(s)) << " instead of " << Show(e) << "; " << t.Str());
			VH_CHECK(List(s.Reverse()) == rev(e), "dict:reverse", what << " " << Show(List(s.Reverse())) << "; " << t.Str());
			VH_CHECK(s.GetCount() == x.size() && s.IsEmpty() == x.empty(), "dict:count", what << " " << s.GetCount() << "; " << t.Str());
			const int k = (int)rng.Below(keys); const auto it = x.find(k);
			VH_CHECK(s.ContainsKey(k) == (it != x.end()), "dict:contains", what << " " << k << "; " << t.Str());
			std::string got = "none"; bool threw = false;
			const bool ok = s.TryGet(k, got);
			VH_CHECK(ok == (it != x.end()) && got == (ok ? it->second : "none"), "dict:try-get", what << " " << k << " " << got << "; " << t.Str());
			try { got = s.Get(k); } catch (const std::exception&) { threw = true; }
			VH_CHECK(threw == (it == x.end()) && (threw || got == it->second), "dict:get", what << " " << k << " " << got << "; " << t.Str());
			VH_CHECK(Drain(s.Find(k)) == from(x, k, false), "dict:find", what << " " << k << " " << Show(Drain(s.Find(k))) << "; " << t.Str());
			VH_CHECK(Drain(s.ReverseFind(k)) == from(x, k, true), "dict:reverse-find", what << " " << k << " " << Show(Drain(s.ReverseFind(k))) << "; " << t.Str());
		};
		// the value of one key as an observable
		auto kv = GetDictionaryKeyValue(cp, watched);
		int kvCalls = 0; optional<std::string> kvValue;
		const Token kvConn = kv->OnChanged().connect(sk::F<void (const optional<std::string>&)>([&](const optional<std::string>& v) { ++kvCalls; kvValue = v; }));
		VH_CHECK(kvCalls == 1 && !kvValue, "dict:key-value-initial", "");

		for (int i = 0; i < 60 && !vh_violated(); ++i)
		{
			const int k = (int)rng.Below(keys);
			if (!tr) { t << " | start"; tr = c.StartTransaction(); tm = m; }
			else switch (rng.Below(18))
			{
			case 0: case 1: case 2:
				{
					const std::string v = value();
					t << " +" << k << v;
					const bool r = tr->Add(k, v); const bool e = !tm.count(k);
					VH_CHECK(r == e, "dict:add-result", t.Str());
					if (e) { auto it = m.find(k); tm[k] = it != m.end() && eq(v, it->second) ? it->second : v; }
					break;
				}
			case 3: case 4: case 5: case 6:
				{ const std::string v = value(); t << " =" << k << v; tr->Set(k, v); set(k, v); break; }
			case 7: case 8:
				{ t << " -" << k; const bool r = tr->Remove(k); VH_CHECK(r == (tm.erase(k) == 1), "dict:remove-result", t.Str()); break; }
			case 9:
				{
					const int mod = 2 + (int)rng.Below(3); const bool byValue = rng.Bool(); const std::string v = value();
					t << " -where" << (byValue ? v : std::to_string(mod));
					auto pred = [&](int kk, const std::string& vv) { return byValue ? vv == v : kk % mod == 0; };
					const size_t r = tr->RemoveWhere(sk::F<bool (const int&, const std::string&)>([&](const int& kk, const std::string& vv) { return pred(kk, vv); }));
					size_t n = 0; for (auto it = tm.begin(); it != tm.end(); ) if (pred(it->first, it->second)) { it = tm.erase(it); ++n; } else ++it;
					VH_CHECK(r == n, "dict:remove-where-result", r << " instead of " << n << "; " << t.Str());
					break;
				}
			case 10: if (rng.Bool()) { t << " clear"; tr->Clear(); tm.clear(); } break;
			case 11:
				{
					const std::string v = value(); const int op = (int)rng.Below(3);
					t << " apply" << op << k << v;
					tr->Apply(MakeDiffEntry(op == 0 ? CollectionOp(CollectionOp::Added) : op == 1 ? CollectionOp(CollectionOp::Removed) : CollectionOp(CollectionOp::Updated), Pair(k, v)));
					if (op == 1) tm.erase(k); else set(k, v);
					break;
				}
			case 12: case 13:
				{
					t << " commit";
					const bool changed = m != tm;
					const bool watchedChanged = (m.count(watched) ? optional<std::string>(m[watched]) : optional<std::string>()) != (tm.count(watched) ? optional<std::string>(tm[watched]) : optional<std::string>());
					m = tm;
					for (auto& l : ls) l->announced = 0;
					kvCalls = 0;
					tr->Commit();
					for (auto& l : ls) { VH_CHECK(l->announced == (changed ? 1 : 0), "dict:announcements", l->announced << "; " << t.Str()); VH_CHECK(l->mirror == m, "dict:mirror", Show(listM(l->mirror)) << " instead of " << Show(listM(m)) << "; " << t.Str()); }
					VH_CHECK(kvCalls == (watchedChanged ? 1 : 0), "dict:key-value-announced", kvCalls << " key " << watched << "; " << t.Str());
					const optional<std::string> w = m.count(watched) ? optional<std::string>(m[watched]) : optional<std::string>();
					VH_CHECK(kv->Get() == w && kvValue == w, "dict:key-value", "key " << watched << "; " << t.Str());
					break;
				}
			case 14: t << " revert"; tr->Revert(); tm = m; break;
			case 15: t << " abandon"; tr.reset(); break;
			case 16:
				{
					t << " listen";
					std::shared_ptr<Listener> l(new Listener(Model(cmp)));
					const bool populate = rng.Chance(3, 4);
					if (!populate) l->mirror = m;
					Listener* lp = l.get();
					l->conn = c.OnChanged().connect(sk::F<void (const typename Dict::DiffTypePtr&)>([&, lp](const typename Dict::DiffTypePtr& d)
					{
						++lp->announced;
						apply(lp->mirror, d, "commit");
						VH_CHECK(ListC(c) == listM(lp->mirror), "dict:seen-by-listener", Show(ListC(c)) << " != " << Show(listM(lp->mirror)) << "; " << t.Str());
						if (snaps.items.size() < 30) snaps.AddEnumerable(d, List(d), "announced difference");
					}), populate);
					if (populate) VH_CHECK(l->announced == (m.empty() ? 0 : 1) && l->mirror == m, "dict:populate", t.Str());
					ls.push_back(l);
					if (ls.size() > 3) ls.erase(ls.begin());
					break;
				}
			default: CheckSecondTransaction(rng, c, t);
			}
			verify(c, m, "collection");
			if (tr)
			{
				verify(*tr, tm, "transaction");
				Model x = m; const typename Dict::DiffTypePtr d = tr->Diff();
				apply(x, d, "pending");
				size_t n = 0; FOR_EACH (const DiffEntry<Pair> e IN d) { (void)e; ++n; }
				size_t sym = 0;
				for (const auto& v : m) sym += !tm.count(v.first) || tm[v.first] != v.second;
				for (const auto& v : tm) sym += !m.count(v.first) || m[v.first] != v.second;
				VH_CHECK(x == tm && n == sym, "dict:pending-difference", Show(List(d)) << "; " << t.Str());
				VH_CHECK(tr->IsDirty() == (m != tm), "dict:dirty", t.Str());
			}
			if (rng.Chance(1, 3) && snaps.items.size() < 40)
			{
				const bool inTr = tr && rng.Bool(); const Model& x = inTr ? tm : m; const std::string what = inTr ? "transaction" : "collection";
				const IReadonlyDictionary<int, std::string>* s = &c; if (inTr) s = tr.get();
				switch (rng.Below(4))
				{
				case 0: snaps.AddEnumerator(s->GetEnumerator(), listM(x), rng.Below(4), what + " enumerator"); break;
				case 1: snaps.AddEnumerable(s->Reverse(), rev(listM(x)), what + " reverse"); break;
				case 2: snaps.AddEnumerator(s->Find(k), from(x, k, false), rng.Below(2), what + " find"); break;
				default: if (tr) snaps.AddEnumerable(tr->Diff(), List(tr->Diff()), "pending difference"); else snaps.AddEnumerator(s->ReverseFind(k), from(x, k, true), rng.Below(2), what + " reverse find");
				}
			}
			if (rng.Chance(1, 4)) snaps.CheckOne(rng, t);
		}
		tr.reset();
		verify(c, m, "collection");
		snaps.CheckAll(rng, t);
		vh_distinct("dict history", vh::HashStr(t.Str()));
	}
}

VH_SCENARIO(dict_model)
{
	switch (rng.Below(3))
	{
	case 0: DictModel(rng, comparers::Less(), comparers::Equals()); break;
	case 1: DictModel(rng, comparers::Greater(), comparers::Equals()); break;
	default: DictModel(rng, comparers::Less(), LooseEquals());
	}
}

// ---------------------------------------------------------------- list

VH_SCENARIO(list_model)
{
	typedef IntList TList;
	typedef std::vector<int> Model;
	typedef KeyValuePair<size_t, int> Item;
	TList c;
	Model m, tm;
	TList::TransactionTypePtr tr;
	vh::Trace t;
	Snapshots snaps;
	struct Listener { Model mirror; Token conn; int announced; Listener() : announced(0) { } };
	std::vector<std::shared_ptr<Listener> > ls;
	auto listM = [](const Model& x) { std::vector<std::string> r; for (int v : x) r.push_back(Str(v)); return r; };
	auto rev = [](std::vector<std::string> v) { std::reverse(v.begin(), v.end()); return v; };
	auto apply = [&](Model& mirror, const TList::DiffTypePtr& diff, const char* what)
	{
		FOR_EACH (const TList::DiffEntryType e IN diff)
		{
			const size_t at = e.Item.Key;
			if (e.Op == CollectionOp::Added)
			{
				VH_CHECK(at <= mirror.size(), "list:diff-index", what << " " << Str(e) << "; " << t.Str());
				if (at <= mirror.size()) mirror.insert(mirror.begin() + at, e.Item.Value);
			}
			else
			{
				VH_CHECK(e.Op == CollectionOp::Removed && at < mirror.size() && mirror[at] == e.Item.Value, "list:diff-removes-other", what << " " << Str(e) << "; " << t.Str());
				if (at < mirror.size()) mirror.erase(mirror.begin() + at);
			}
		}
	};
	auto verify = [&](const IReadonlyList<int>& s, const Model& x, const char* what)
	{
		const std::vector<std::string> e = listM(x);
		VH_CHECK(ListC(s) == e, "list:content", what << " " << Show(ListC(s)) << " instead of " << Show(e) << "; " << t.Str());
		VH_CHECK(List(s.Reverse()) == rev(e), "list:reverse", what << " " << t.Str());
		VH_CHECK(s.GetCount() == x.size() && s.IsEmpty() == x.empty(), "list:count", what << " " << s.GetCount() << "; " << t.Str());
		const int v = (int)rng.Below(6); const auto it = std::find(x.begin(), x.end(), v);
		VH_CHECK(s.Contains(v) == (it != x.end()), "list:contains", what << " " << v << "; " << t.Str());
		const optional<size_t> idx = s.IndexOf(v);
		VH_CHECK(idx.is_initialized() == (it != x.end()) && (!idx || *idx == (size_t)(it - x.begin())), "list:index-of", what << " " << v << "; " << t.Str());
		const size_t at = rng.Below(x.size() + 2);
		int got = -1; bool threw = false;
		const bool ok = s.TryGet(at, got);
		VH_CHECK(ok == (at < x.size()) && got == (ok ? x[at] : -1), "list:try-get", what << " " << at << "; " << t.Str());
		try { got = s.Get(at); } catch (const std::exception&) { threw = true; }
		VH_CHECK(threw == (at >= x.size()) && (threw || got == x[at]), "list:get", what << " " << at << "; " << t.Str());
	};
	for (int i = 0; i < 60 && !vh_violated(); ++i)
	{
		const int v = (int)rng.Below(6);
		if (!tr) { t << " | start"; tr = c.StartTransaction(); tm = m; }
		else switch (rng.Below(19))
		{
		case 0: case 1: case 2: t << " add" << v; tr->Add(v); tm.push_back(v); break;
		case 3: case 4: case 5: case 6:
			{
				const size_t at = rng.Below(tm.size() + 2); bool threw = false;
				t << " ins" << at << ":" << v;
				try { tr->Insert(at, v); } catch (const std::exception&) { threw = true; }
				VH_CHECK(threw == (at > tm.size()), "list:insert-index", t.Str());
				if (!threw) tm.insert(tm.begin() + at, v);
				break;
			}
		case 7: case 8:
			{
				const size_t at = rng.Below(tm.size() + 1); bool threw = false;
				t << " set" << at << ":" << v;
				try { tr->Set(at, v); } catch (const std::exception&) { threw = true; }
				VH_CHECK(threw == (at >= tm.size()), "list:set-index", t.Str());
				if (!threw) tm[at] = v;
				break;
			}
		case 9:
			{
				const size_t at = rng.Below(tm.size() + 1); bool threw = false;
				t << " del" << at;
				try { tr->RemoveAt(at); } catch (const std::exception&) { threw = true; }
				VH_CHECK(threw == (at >= tm.size()), "list:remove-at-index", t.Str());
				if (!threw) tm.erase(tm.begin() + at);
				break;
			}
		case 10: case 11:
			{
				t << " rem" << v;
				const auto it = std::find(tm.begin(), tm.end(), v);
				const bool r = tr->Remove(v);
				VH_CHECK(r == (it != tm.end()), "list:remove-result", t.Str());
				if (it != tm.end()) tm.erase(it);
				break;
			}
		case 12:
			{
				const int mod = 2 + (int)rng.Below(3);
				t << " -%" << mod;
				const size_t r = tr->RemoveAll(sk::F<bool (const int&)>([mod](const int& x) { return x % mod == 0; }));
				const size_t before = tm.size();
				tm.erase(std::remove_if(tm.begin(), tm.end(), [mod](int x) { return x % mod == 0; }), tm.end());
				VH_CHECK(r == before - tm.size(), "list:remove-all-result", t.Str());
				break;
			}
		case 13: if (rng.Bool()) { t << " clear"; tr->Clear(); tm.clear(); } break;
		case 14:
			{
				const int op = (int)rng.Below(3);
				const size_t at = rng.Below(tm.size() + (op == 0 ? 1 : 0));
				if (op != 0 && tm.empty()) break;
				t << " apply" << "+-~"[op] << at << ":" << v;
				try { tr->Apply(MakeDiffEntry(op == 0 ? CollectionOp(CollectionOp::Added) : op == 1 ? CollectionOp(CollectionOp::Removed) : CollectionOp(CollectionOp::Updated), Item(at, op == 1 ? tm[at] : v))); }
				catch (const std::exception& ex) { VH_CHECK_R(false, "list:apply-throws", t.Str()); }
				if (op == 0) tm.insert(tm.begin() + at, v); else if (op == 1) tm.erase(tm.begin() + at); else tm[at] = v;
				break;
			}
		case 15: case 16:
			{
				t << " commit";
				const bool changed = m != tm;
				m = tm;
				for (auto& l : ls) l->announced = 0;
				tr->Commit();
				for (auto& l : ls) { VH_CHECK(l->announced == (changed ? 1 : 0), "list:announcements", l->announced << "; " << t.Str()); VH_CHECK(l->mirror == m, "list:mirror", Show(listM(l->mirror)) << " instead of " << Show(listM(m)) << "; " << t.Str()); }
				break;
			}
		case 17: t << (rng.Bool() ? (tr->Revert(), " revert") : (tr.reset(), " abandon")); tm = m; break;
		default:
			{
				if (rng.Bool()) { CheckSecondTransaction(rng, c, t); break; }
				t << " listen";
				std::shared_ptr<Listener> l(new Listener());
				const bool populate = rng.Chance(3, 4);
				if (!populate) l->mirror = m;
				Listener* lp = l.get();
				l->conn = c.OnChanged().connect(sk::F<void (const TList::DiffTypePtr&)>([&, lp](const TList::DiffTypePtr& d)
				{
					++lp->announced;
					apply(lp->mirror, d, "commit");
					VH_CHECK(ListC(c) == listM(lp->mirror), "list:seen-by-listener", Show(ListC(c)) << " != " << Show(listM(lp->mirror)) << "; " << t.Str());
					if (snaps.items.size() < 30) snaps.AddEnumerable(d, List(d), "announced difference");
				}), populate);
				if (populate) VH_CHECK(l->announced == (m.empty() ? 0 : 1) && l->mirror == m, "list:populate", t.Str());
				ls.push_back(l);
				if (ls.size() > 3) ls.erase(ls.begin());
			}
		}
		verify(c, m, "collection");
		if (tr)
		{
			verify(*tr, tm, "transaction");
			Model x = m; const TList::DiffTypePtr d = tr->Diff();
			apply(x, d, "pending");
			VH_CHECK(x == tm, "list:pending-difference", Show(List(d)) << " gives " << Show(listM(x)) << "; " << t.Str());
			if (m == tm) VH_CHECK(List(d).empty(), "list:pending-difference-empty", Show(List(d)) << "; " << t.Str());
			VH_CHECK(m == tm || tr->IsDirty(), "list:dirty", t.Str());
		}
		if (rng.Chance(1, 3) && snaps.items.size() < 40)
		{
			const bool inTr = tr && rng.Bool(); const Model& x = inTr ? tm : m; const std::string what = inTr ? "transaction" : "collection";
			const IReadonlyList<int>* s = &c; if (inTr) s = tr.get();
			switch (rng.Below(3))
			{
			case 0: snaps.AddEnumerator(s->GetEnumerator(), listM(x), rng.Below(4), what + " enumerator"); break;
			case 1: snaps.AddEnumerable(s->Reverse(), rev(listM(x)), what + " reverse"); break;
			default: if (tr) snaps.AddEnumerable(tr->Diff(), List(tr->Diff()), "pending difference");
			}
		}
		if (rng.Chance(1, 4)) snaps.CheckOne(rng, t);
	}
	tr.reset();
	verify(c, m, "collection");
	snaps.CheckAll(rng, t);
	vh_distinct("list history", vh::HashStr(t.Str()));
}

// a difference taken from one list and applied to a transaction of an equal one reproduces the change
VH_SCENARIO(list_transfer)
{
	IntList a, b;
	std::vector<int> m;
	vh::Trace t;
	for (int round = 0; round < 6 && !vh_violated(); ++round)
	{
		auto ta = a.StartTransaction(); auto tb = b.StartTransaction();
		for (int i = (int)rng.Below(6); i > 0; --i)
		{
			const int v = (int)rng.Below(5);
			switch (rng.Below(4))
			{
			case 0: ta->Add(v); m.push_back(v); t << " add" << v; break;
			case 1: { const size_t at = rng.Below(m.size() + 1); ta->Insert(at, v); m.insert(m.begin() + at, v); t << " ins" << at << ":" << v; break; }
			case 2: if (!m.empty()) { const size_t at = rng.Below(m.size()); ta->RemoveAt(at); m.erase(m.begin() + at); t << " del" << at; } break;
			default: if (!m.empty()) { const size_t at = rng.Below(m.size()); ta->Set(at, v); m[at] = v; t << " set" << at << ":" << v; }
			}
		}
		t << " |";
		const auto d = ta->Diff();
		try { FOR_EACH (const IntList::DiffEntryType e IN d) tb->Apply(e); }
		catch (const std::exception& ex) { VH_CHECK_R(false, "transfer:apply-throws", Show(List(d)) << "; " << t.Str()); }
		std::vector<std::string> e; for (int v : m) e.push_back(Str(v));
		VH_CHECK_R(ListC(*tb) == e, "transfer:content", Show(ListC(*tb)) << " instead of " << Show(e) << " by " << Show(List(d)) << "; " << t.Str());
		ta->Commit(); tb->Commit();
		VH_CHECK(ListC(a) == e && ListC(b) == e, "transfer:committed", t.Str());
	}
	vh_distinct("transfer", vh::HashStr(t.Str()));
}

// ---------------------------------------------------------------- concurrency

namespace {
	// every committed state maps all keys to one value (and the key set is known from the value)
	struct Race
	{
		typedef TransactionalDictionary<int, int> Dict;
		static const int Keys = 4;
		static bool Has(int v, int k) { return v && (k == 0 || ((v >> (k - 1)) & 1)); }
		static void Write(Dict::TransactionType& t, int v) { for (int k = 0; k < Keys; ++k) if (Has(v, k)) t.Set(k, v); else t.Remove(k); }
		static int Check(const std::map<int, int>& m, const char* what)
		{
			const int v = m.empty() ? 0 : m.begin()->second;
			bool ok = true;
			for (int k = 0; k < Keys; ++k) { auto it = m.find(k); ok = ok && (it != m.end()) == Has(v, k) && (it == m.end() || it->second == v); }
			std::string s; for (auto& p : m) s += std::to_string(p.first) + "=" + std::to_string(p.second) + " ";
			VH_CHECK(ok, std::string("race:torn-") + what, s);
			return v;
		}
		static std::map<int, int> Read(const shared_ptr<IEnumerator<KeyValuePair<int, int> > >& e) { std::map<int, int> m; for (; e->Valid(); e->Next()) m[e->Get().Key] = e->Get().Value; return m; }
	};

	void DictRace(vh::Rng& rng)
	{
		Race::Dict c;
		const int writers = 2 + (int)rng.Below(2), readers = (int)rng.Below(2), listeners = 1 + (int)rng.Below(2);
		int inside = 0; std::vector<int> committed; vs::Mutex m;
		struct Mirror { std::map<int, int> m; std::vector<int> seen; int last; bool started; Mirror() : last(0), started(false) { } };
		std::vector<std::unique_ptr<Mirror> > mirrors;
		auto handle = [](Mirror& x, const Race::Dict::DiffTypePtr& d)
		{
			FOR_EACH (const Race::Dict::DiffEntryType e IN d)
			{
				if (e.Op == CollectionOp::Added) VH_CHECK(x.m.insert(std::make_pair(e.Item.Key, e.Item.Value)).second, "race:diff-adds-present", "");
				else { auto it = x.m.find(e.Item.Key); VH_CHECK(it != x.m.end() && it->second == e.Item.Value, "race:diff-removes-absent", ""); if (it != x.m.end()) x.m.erase(it); }
			}
			x.seen.push_back(Race::Check(x.m, "difference"));
		};
		{
			std::vector<Token> conns(listeners);
			{
				vs::Threads ts;
				for (int w = 0; w < writers; ++w)
				{
					const uint64_t seed = rng.Next();
					ts.Add([&, w, seed] {
						vh::Rng r(seed);
						for (int i = 0; i < 2; ++i)
						{
							Race::Dict::TransactionTypePtr tr;
							try
							{
								if (r.Chance(1, 5)) { TimedCancellationToken tok(TimeDuration::FromMilliseconds(1)); tr = c.StartTransaction(tok); }
								else tr = c.StartTransaction();
							}
							catch (const TimeoutException&) { vh_count("start timed out", 1); continue; }
							{ vs::Lock l(m); ++inside; VH_CHECK(inside == 1, "race:two-transactions", inside); }
							const int v = (1 + w * 4 + i) * 8 + (int)r.Below(8);
							const int before = Race::Check(Race::Read(c.GetEnumerator()), "read-in-transaction");
							vs::Pause(r);
							Race::Write(*tr, v);
							Race::Check(Race::Read(tr->GetEnumerator()), "transaction-view");
							vs::Pause(r);
							VH_CHECK(Race::Check(Race::Read(c.GetEnumerator()), "read-in-transaction") == before, "race:changed-under-transaction", "");
							switch (r.Below(4))
							{
							case 0: tr->Revert(); break;
							case 1: break;
							default:
								{
									{ vs::Lock l(m); committed.push_back(v); }
									tr->Commit();
									VH_CHECK(Race::Check(Race::Read(c.GetEnumerator()), "read-after-commit") == v, "race:commit-not-visible", "");
								}
							}
							{ vs::Lock l(m); --inside; }
							tr.reset();
						}
					});
				}
				for (int k = 0; k < readers; ++k)
				{
					const uint64_t seed = rng.Next();
					ts.Add([&, seed] {
						vh::Rng r(seed);
						for (int i = 0; i < 4; ++i)
						{
							const auto e = c.GetEnumerator();
							vs::Pause(r);
							Race::Check(Race::Read(e), "snapshot");
							std::map<int, int> x; FOR_EACH (const Race::Dict::PairType p IN c.Reverse()) { x[p.Key] = p.Value; }
							Race::Check(x, "reverse-snapshot");
							{ const auto lock = c.Lock(); const size_t n = c.GetCount(); VH_CHECK(Race::Read(c.GetEnumerator()).size() == n, "race:count-under-lock", n); }
						}
					});
				}
				for (int k = 0; k < listeners; ++k)
				{
					mirrors.push_back(std::unique_ptr<Mirror>(new Mirror()));
					Mirror* mp = mirrors.back().get(); Token* tok = &conns[k]; const uint64_t seed = rng.Next();
					ts.Add([&, mp, tok, seed] {
						vh::Rng r(seed);
						vs::Pause(r);
						*tok = c.OnChanged().connect(sk::F<void (const Race::Dict::DiffTypePtr&)>([&, mp](const Race::Dict::DiffTypePtr& d) { handle(*mp, d); }));
					});
				}
				ts.Join();
			}
			const std::map<int, int> fin = Race::Read(c.GetEnumerator());
			const int v = Race::Check(fin, "final");
			VH_CHECK(v == (committed.empty() ? 0 : committed.back()), "race:lost-commit", v);
			for (auto& x : mirrors)
			{
				VH_CHECK(x->m == fin, "race:mirror", "");
				// a suffix of the commits, each once
				std::vector<int> tail = x->seen;
				// the first may be the populated content, which is a committed state as well
				VH_CHECK(tail.size() <= committed.size() && std::equal(tail.begin(), tail.end(), committed.end() - tail.size()), "race:announcements", tail.size() << " of " << committed.size());
			}
		}
		uint64_t h = 0; for (int v : committed) h = vh::Hash(h, v); for (auto& x : mirrors) h = vh::Hash(h, x->seen.size());
		vh_distinct("dict race", h ^ vs_steps());
	}

	// set and list: one value set per commit, same idea
	void ListSetRace(vh::Rng& rng)
	{
		IntList l; TransactionalSet<int> s;
		const int writers = 2;
		std::vector<int> lastL; int lastS = 0; vs::Mutex m;
		auto okL = [](const std::vector<int>& v, const char* what) { bool ok = true; for (int x : v) ok = ok && x == v[0]; ok = ok && (v.empty() || (int)v.size() == 1 + v[0] % 5); VH_CHECK(ok, std::string("race:torn-list-") + what, Join(v)); };
		auto okS = [](const std::vector<int>& v, const char* what) { bool ok = true; for (size_t i = 0; i < v.size(); ++i) ok = ok && v[i] == v[0] + (int)i; ok = ok && (v.empty() || (v[0] % 10 == 0 && (int)v.size() == 1 + v[0] / 10 % 3)); VH_CHECK(ok, std::string("race:torn-set-") + what, Join(v)); };
		std::vector<int> mirrorL; std::set<int> mirrorS;
		const Token cl = l.OnChanged().connect(sk::F<void (const IntList::DiffTypePtr&)>([&](const IntList::DiffTypePtr& d)
		{
			FOR_EACH (const IntList::DiffEntryType e IN d)
			{ if (e.Op == CollectionOp::Added) mirrorL.insert(mirrorL.begin() + std::min(e.Item.Key, mirrorL.size()), e.Item.Value); else if (e.Item.Key < mirrorL.size()) mirrorL.erase(mirrorL.begin() + e.Item.Key); else VH_CHECK(false, "race:list-diff", ""); }
			okL(mirrorL, "mirror");
		}));
		const Token cs = s.OnChanged().connect(sk::F<void (const TransactionalSet<int>::DiffTypePtr&)>([&](const TransactionalSet<int>::DiffTypePtr& d)
		{
			FOR_EACH (const TransactionalSet<int>::DiffEntryType e IN d)
			{ if (e.Op == CollectionOp::Added) VH_CHECK(mirrorS.insert(e.Item).second, "race:set-diff", ""); else VH_CHECK(mirrorS.erase(e.Item) == 1, "race:set-diff", ""); }
			okS(std::vector<int>(mirrorS.begin(), mirrorS.end()), "mirror");
		}));
		{
			vs::Threads ts;
			for (int w = 0; w < writers; ++w)
			{
				const uint64_t seed = rng.Next();
				ts.Add([&, w, seed] {
					vh::Rng r(seed);
					for (int i = 0; i < 2; ++i)
					{
						const int v = 1 + w * 20 + i * 7 + (int)r.Below(5);
						{
							auto t = l.StartTransaction();
							t->Clear(); for (int k = 0; k < 1 + v % 5; ++k) { t->Add(v); vs::Pause(r); }
							if (r.Chance(3, 4)) { vs::Lock g(m); lastL = std::vector<int>(1 + v % 5, v); t->Commit(); }
						}
						{
							auto t = s.StartTransaction();
							t->Clear(); for (int k = 0; k < 1 + v % 3; ++k) { t->Add(v * 10 + k); vs::Pause(r); }
							if (r.Chance(3, 4)) { vs::Lock g(m); lastS = v; t->Commit(); }
						}
					}
				});
			}
			const uint64_t seed = rng.Next();
			ts.Add([&, seed] {
				vh::Rng r(seed);
				for (int i = 0; i < 3; ++i)
				{
					std::vector<int> a, b;
					const auto el = l.GetEnumerator(); vs::Pause(r); for (; el->Valid(); el->Next()) a.push_back(el->Get());
					okL(a, "snapshot");
					const auto es = s.GetEnumerator(); vs::Pause(r); for (; es->Valid(); es->Next()) b.push_back(es->Get());
					okS(b, "snapshot");
					VH_CHECK(l.GetCount() <= 5, "race:list-count", "");
				}
			});
			ts.Join();
		}
		std::vector<int> a, b; FOR_EACH (const int v IN l.GetEnumerator()) a.push_back(v); FOR_EACH (const int v IN s.GetEnumerator()) b.push_back(v);
		VH_CHECK(a == lastL && a == mirrorL, "race:list-final", Join(a) << " / " << Join(mirrorL));
		VH_CHECK((b.empty() ? lastS == 0 : b[0] == lastS * 10) && b == std::vector<int>(mirrorS.begin(), mirrorS.end()), "race:set-final", Join(b));
		vh_distinct("list and set race", vs_steps() ^ vh::Hash(lastS, a.empty() ? 0 : a[0]));
	}
}

VH_SCHED_SCENARIO(dict_race) { DictRace(rng); }
VH_SCHED_SCENARIO(list_set_race) { ListSetRace(rng); }
VH_FREE_SCENARIO(free_dict_race) { vs_noise(30, 20); DictRace(rng); vs_noise(0, 0); }
VH_FREE_SCENARIO(free_list_set_race) { vs_noise(30, 20); ListSetRace(rng); vs_noise(0, 0); }
