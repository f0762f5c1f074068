// C12: observable lists, sets, dictionaries and multi-collections and the views derived from them. Every subscriber keeps a mirror that replays
// the announced changes; mirrors, announcements, views and snapshots are compared with an abstract model after each operation.
#include "vsx.h"
#include "sk.h"
#include "coll.h"
#include <stingraykit/collection/ForEach.h>
#include <stingraykit/collection/ArrayObservableList.h>
#include <stingraykit/collection/DictionaryCaster.h>
#include <stingraykit/collection/DictionaryKeysSet.h>
#include <stingraykit/collection/FlatMapObservableDictionary.h>
#include <stingraykit/collection/FlatSortedObservableSet.h>
#include <stingraykit/collection/ListCaster.h>
#include <stingraykit/collection/MapObservableDictionary.h>
#include <stingraykit/collection/MultiMapObservableDictionary.h>
#include <stingraykit/collection/ObservableCollectionLocker.h>
#include <stingraykit/collection/ObservableDictionaryKeyValue.h>
#include <stingraykit/collection/ObservableSetEntry.h>
#include <stingraykit/collection/OrderedObservableDictionary.h>
#include <stingraykit/collection/OrderedObservableSet.h>
#include <stingraykit/collection/SetCaster.h>
#include <stingraykit/collection/SortedObservableMultiSet.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include <stingraykit/collection/TransactionalDictionary.h>
#include <stingraykit/collection/TransactionalList.h>
#include <stingraykit/collection/TransactionalSet.h>
#include <map>
#include <memory>
#include <set>

using namespace stingray;
using namespace coll;

namespace {
	typedef KeyValuePair<int, std::string> Pair;

	struct Event
	{
		char op; long k; std::string v;
		bool operator == (const Event& o) const { return op == o.op && k == o.k && v == o.v; }
	};
	typedef std::vector<Event> Events;
	std::string Show(const Events& ev) { std::string r = "{"; for (const Event& e : ev) r += std::string(1, e.op) + std::to_string(e.k) + (e.v.empty() ? "" : ":" + e.v) + " "; return r + "}"; }
	using coll::Show;
	char OpChar(CollectionOp op) { return op == CollectionOp::Added ? '+' : op == CollectionOp::Removed ? '-' : '~'; }

	int VCast(const int& v) { return v * 10 + 1; }
	bool BackCast(const int& d, int& v) { if (((d % 10) + 10) % 10 != 1) return false; v = (d - 1) / 10; return true; }
	std::string CastS(const std::string& v) { return "<" + v + ">"; }
	bool BackCastS(const std::string& d, std::string& v) { if (d.size() < 2 || d[0] != '<') return false; v = d.substr(1, d.size() - 2); return true; }

	// a subscriber replaying keyed events on its mirror
	struct Sub
	{
		Model mirror; Events got; Token conn; std::string broken;
		explicit Sub(const Model& m) : mirror(m) { mirror.items.clear(); }
		void On(CollectionOp op, int k, const std::string& v)
		{
			got.push_back(Event{ OpChar(op), k, v });
			const int i = op == CollectionOp::Removed ? mirror.FirstPair(k, v) : mirror.First(k);
			if (op == CollectionOp::Added) mirror.Insert(k, v);
			else if (i < 0) broken = "event for an entry that is not there";
			else if (op == CollectionOp::Removed) mirror.Erase(i);
			else mirror.items[i].v = v;
		}
	};
	typedef std::shared_ptr<Sub> SubPtr;

	void CheckSubs(std::vector<SubPtr>& subs, const Model& m, const Events& expect, bool optionalEvents, const char* kind, const vh::Trace& t)
	{
		for (const SubPtr& s : subs)
		{
			VH_CHECK(s->got == expect || (optionalEvents && s->got.empty()), std::string(kind) + ":announcements", Show(s->got) << " instead of " << Show(expect) << "; " << t.Str());
			VH_CHECK(s->broken.empty() && s->mirror.items == m.items, std::string(kind) + ":mirror", s->broken << " " << Show(s->mirror.All()) << " instead of " << Show(m.All()) << "; " << t.Str());
			vh_count("announcements", s->got.size());
			s->got.clear();
		}
	}

	template < typename C > void Connect(std::vector<SubPtr>& subs, const C& c, const Model& m, bool keysOnly, vh::Rng& rng, const char* kind, const vh::Trace& t, const std::function<void (Sub&, bool)>& connect)
	{
		SubPtr s(new Sub(m));
		const bool populate = rng.Chance(3, 4);
		if (!populate) s->mirror.items = m.items;
		connect(*s, populate);
		Events expect; if (populate) for (const Model::Item& i : m.items) expect.push_back(Event{ '+', i.k, i.v });
		VH_CHECK(s->got == expect, std::string(kind) + ":populate", Show(s->got) << " instead of " << Show(expect) << "; " << t.Str());
		s->got.clear();
		subs.push_back(s);
		if (subs.size() > 4) subs.erase(subs.begin() + rng.Below(subs.size()));
	}

	template < typename S > void VerifySet(const S& s, const Model& m, vh::Rng& rng, int keys, const char* kind, const vh::Trace& t)
	{
		const std::string K(kind); const int k = (int)rng.Below(keys);
		VH_CHECK(ListC(s) == m.All(), K + ":content", Show(ListC(s)) << " instead of " << Show(m.All()) << "; " << t.Str());
		VH_CHECK(List(s.Reverse()) == Reversed(m.All()), K + ":reverse", Show(List(s.Reverse())) << "; " << t.Str());
		VH_CHECK(s.GetCount() == m.items.size() && s.IsEmpty() == m.items.empty(), K + ":count", s.GetCount() << "; " << t.Str());
		VH_CHECK(s.Contains(k) == (m.First(k) >= 0), K + ":contains", k << "; " << t.Str());
		VH_CHECK(Drain(s.Find(k)) == m.From(k), K + ":find", k << " " << Show(Drain(s.Find(k))) << "; " << t.Str());
		VH_CHECK(Drain(s.ReverseFind(k)) == m.BackFrom(k), K + ":reverse-find", k << " " << Show(Drain(s.ReverseFind(k))) << " instead of " << Show(m.BackFrom(k)) << "; " << t.Str());
	}

	template < typename D > void VerifyDict(const D& s, const Model& m, vh::Rng& rng, int keys, const char* kind, const vh::Trace& t)
	{
		const std::string K(kind); const int k = (int)rng.Below(keys); const int i = m.First(k);
		VH_CHECK(ListC(s) == m.All(), K + ":content", Show(ListC(s)) << " instead of " << Show(m.All()) << "; " << t.Str());
		VH_CHECK(List(s.Reverse()) == Reversed(m.All()), K + ":reverse", Show(List(s.Reverse())) << "; " << t.Str());
		VH_CHECK(s.GetCount() == m.items.size() && s.IsEmpty() == m.items.empty(), K + ":count", s.GetCount() << "; " << t.Str());
		VH_CHECK(s.ContainsKey(k) == (i >= 0), K + ":contains", k << "; " << t.Str());
		VH_CHECK(Drain(s.Find(k)) == m.From(k), K + ":find", k << " " << Show(Drain(s.Find(k))) << "; " << t.Str());
		VH_CHECK(Drain(s.ReverseFind(k)) == m.BackFrom(k), K + ":reverse-find", k << " " << Show(Drain(s.ReverseFind(k))) << " instead of " << Show(m.BackFrom(k)) << "; " << t.Str());
		std::string v = "none", g = "none";
		const bool ok = s.TryGet(k, v);
		try { g = s.Get(k); } catch (const std::exception&) { g = "threw"; }
		VH_CHECK(ok == (i >= 0) && v == (i >= 0 ? m.items[i].v : "none") && g == (i >= 0 ? m.items[i].v : "threw"), K + ":get", k << " " << v << " " << g << "; " << t.Str());
	}

	Model Mapped(const Model& m, bool keysOnly, const std::function<int (int)>& key, const std::function<std::string (const std::string&)>& value)
	{ Model r(m.sorted, keysOnly, m.less); for (const Model::Item& i : m.items) r.items.push_back(Model::Item{ key(i.k), value(i.v) }); return r; }

	Events Mapped(const Events& ev, const std::function<bool (Event&)>& f)
	{ Events r; for (Event e : ev) if (f(e)) r.push_back(e); return r; }

	// a view that announces something: its events since the last check must be these
	struct ViewSub
	{
		Events got; Token conn; std::string name;
		void Check(const Events& expect, bool optional, const vh::Trace& t)
		{
			VH_CHECK(got == expect || (optional && got.empty()), "view:" + name, Show(got) << " instead of " << Show(expect) << "; " << t.Str());
			vh_count("view announcements", got.size());
			got.clear();
		}
	};
	typedef std::function<bool (int, int)> Less;
}

// ---------------------------------------------------------------- sets

namespace {
	template < typename SetType > void SetModel(vh::Rng& rng, bool sorted, const Less& less, const char* kind)
	{
		const std::string K(kind);
		Model m(sorted, true, less);
		vh::Trace t; t << kind;
		shared_ptr<SetType> sp;
		const int keys = 2 + (int)rng.Below(8);
		if (rng.Chance(1, 4)) { auto b = make_shared_ptr<std::vector<int> >(); for (int i = 0; i < 4; ++i) { const int v = (int)rng.Below(keys); b->push_back(v); if (m.First(v) < 0) m.Insert(v, ""); t << " init" << v; } sp = make_shared_ptr<SetType>(EnumerableFromStlContainer(*b, b)); }
		else sp = make_shared_ptr<SetType>();
		SetType& s = *sp;
		std::vector<SubPtr> subs; Snapshots snaps;
		// views
		const int watched = (int)rng.Below(keys);
		const auto entry = GetSetEntry(shared_ptr<IObservableSet<int> >(sp), watched);
		const auto roEntry = GetSetEntry(shared_ptr<IReadonlyObservableSet<int> >(sp), watched, comparers::Equals());
		const auto cast = make_shared_ptr<ObservableSetCaster<int, int> >(shared_ptr<IReadonlyObservableSet<int> >(sp), &VCast, &BackCast);
		ViewSub entrySub, castSub; entrySub.name = "set-entry"; castSub.name = "set-cast";
		entrySub.conn = (rng.Bool() ? entry->OnChanged() : roEntry->OnChanged()).connect(sk::F<void (bool)>([&](bool v) { entrySub.got.push_back(Event{ '=', v, "" }); }));
		entrySub.Check(Events{ Event{ '=', m.First(watched) >= 0, "" } }, false, t);
		Events initial; for (const Model::Item& i : m.items) initial.push_back(Event{ '+', VCast(i.k), "" });
		castSub.conn = cast->OnChanged().connect(sk::F<void (CollectionOp, const int&)>([&](CollectionOp op, const int& v) { castSub.got.push_back(Event{ OpChar(op), v, "" }); }));
		castSub.Check(initial, false, t);

		for (int i = 0; i < 50 && !vh_violated(); ++i)
		{
			const int k = (int)rng.Below(keys);
			Events expect;
			std::unique_ptr<ObservableCollectionLocker> lock; if (rng.Chance(1, 8)) lock.reset(new ObservableCollectionLocker(sp));
			switch (rng.Below(10))
			{
			case 0: case 1: case 2:
				{ t << " +" << k; const bool e = m.First(k) < 0; if (e) { m.Insert(k, ""); expect.push_back(Event{ '+', k, "" }); } const bool r = s.Add(k); VH_CHECK(r == e, K + ":add-result", t.Str()); break; }
			case 3: case 4:
				{ t << " -" << k; const int p = m.First(k); if (p >= 0) { m.Erase(p); expect.push_back(Event{ '-', k, "" }); } const bool r = s.Remove(k); VH_CHECK(r == (p >= 0), K + ":remove-result", t.Str()); break; }
			case 5:
				{
					const int mod = 2 + (int)rng.Below(3); t << " -%" << mod;
					for (size_t j = 0; j < m.items.size(); ) if (m.items[j].k % mod == 0) { expect.push_back(Event{ '-', m.items[j].k, "" }); m.Erase(j); } else ++j;
					const size_t r = s.RemoveWhere(sk::F<bool (const int&)>([mod](const int& v) { return v % mod == 0; }));
					VH_CHECK(r == expect.size(), K + ":remove-where-result", r << "; " << t.Str());
					break;
				}
			case 6: if (rng.Chance(1, 3)) { t << " clear"; for (const Model::Item& x : m.items) expect.push_back(Event{ '-', x.k, "" }); m.items.clear(); s.Clear(); } break;
			case 7:
				{
					const bool v = rng.Bool(); t << " entry" << watched << v; const int p = m.First(watched);
					if (v && p < 0) { m.Insert(watched, ""); expect.push_back(Event{ '+', watched, "" }); }
					if (!v && p >= 0) { m.Erase(p); expect.push_back(Event{ '-', watched, "" }); }
					entry->Set(v);
					break;
				}
			default:
				t << " listen";
				Connect(subs, s, m, true, rng, kind, t, [&](Sub& sub, bool populate)
				{ Sub* p = &sub; sub.conn = s.OnChanged().connect(sk::F<void (CollectionOp, const int&)>([p](CollectionOp op, const int& v) { p->On(op, v, ""); }), populate); });
			}
			VerifySet(s, m, rng, keys, kind, t);
			CheckSubs(subs, m, expect, false, kind, t);
			entrySub.Check(Mapped(expect, [&](Event& e) { if (e.k != watched) return false; e = Event{ '=', e.op == '+', "" }; return true; }), false, t);
			castSub.Check(Mapped(expect, [&](Event& e) { e.k = VCast((int)e.k); return true; }), false, t);
			VH_CHECK(entry->Get() == (m.First(watched) >= 0) && roEntry->Get() == entry->Get(), "view:set-entry-value", t.Str());
			const Model cm = Mapped(m, true, [](int v) { return VCast(v); }, [](const std::string& v) { return v; });
			VH_CHECK(ListC(*cast) == cm.All() && cast->GetCount() == cm.items.size() && cast->IsEmpty() == cm.items.empty() && List(cast->Reverse()) == Reversed(cm.All()), "view:set-cast-content", Show(ListC(*cast)) << "; " << t.Str());
			VH_CHECK(cast->Contains(VCast(k)) == (m.First(k) >= 0) && !cast->Contains(k * 10 + 2), "view:set-cast-contains", t.Str());
			VH_CHECK(Drain(cast->Find(VCast(k))) == Mapped(m, true, [](int v) { return VCast(v); }, [](const std::string& v) { return v; }).From(VCast(k)), "view:set-cast-find", Show(Drain(cast->Find(VCast(k)))) << "; " << t.Str());
			VH_CHECK(Drain(cast->ReverseFind(VCast(k))) == cm.BackFrom(VCast(k)), "view:set-cast-reverse-find", Show(Drain(cast->ReverseFind(VCast(k)))) << "; " << t.Str());
			if (rng.Chance(1, 3) && snaps.items.size() < 30)
				switch (rng.Below(5))
				{
				case 0: snaps.AddEnumerator(s.GetEnumerator(), m.All(), rng.Below(3), "enumerator"); break;
				case 1: snaps.AddEnumerable(s.Reverse(), Reversed(m.All()), "reverse"); break;
				case 2: snaps.AddEnumerator(s.Find(k), m.From(k), rng.Below(2), "find"); break;
				case 3: snaps.AddEnumerator(s.ReverseFind(k), m.BackFrom(k), rng.Below(2), "reverse find"); break;
				default: snaps.AddEnumerator(cast->GetEnumerator(), cm.All(), rng.Below(3), "cast enumerator");
				}
			if (rng.Chance(1, 4)) snaps.CheckOne(rng, t);
		}
		snaps.CheckAll(rng, t);
		vh_distinct("set history", vh::HashStr(t.Str()));
		vh_sample(t.Str().c_str());
	}
}

VH_SCENARIO(set_model)
{
	const Less l = [](int a, int b) { return a < b; }, g = [](int a, int b) { return a > b; };
	switch (rng.Below(5))
	{
	case 0: SetModel<SortedObservableSet<int> >(rng, true, l, "sorted-set"); break;
	case 1: SetModel<SortedObservableSet<int, comparers::Greater> >(rng, true, g, "sorted-set-greater"); break;
	case 2: SetModel<FlatSortedObservableSet<int> >(rng, true, l, "flat-set"); break;
	case 3: SetModel<FlatSortedObservableSet<int, comparers::Greater> >(rng, true, g, "flat-set-greater"); break;
	default: SetModel<OrderedObservableSet<int> >(rng, false, l, "ordered-set");
	}
}

VH_SCENARIO(multi_set_model)
{
	const bool greater = rng.Bool(); (void)greater;
	const Less less = [](int a, int b) { return a < b; };
	Model m(true, true, less);
	vh::Trace t;
	const int keys = 2 + (int)rng.Below(5);
	const shared_ptr<SortedObservableMultiSet<int> > sp = make_shared_ptr<SortedObservableMultiSet<int> >();
	SortedObservableMultiSet<int>& s = *sp;
	std::vector<SubPtr> subs; Snapshots snaps;
	for (int i = 0; i < 60 && !vh_violated(); ++i)
	{
		const int k = (int)rng.Below(keys);
		Events expect;
		switch (rng.Below(10))
		{
		case 0: case 1: case 2: case 3: t << " +" << k; m.Insert(k, ""); expect.push_back(Event{ '+', k, "" }); s.Add(k); break;
		case 4: case 5:
			{ t << " -" << k; const int p = m.First(k); if (p >= 0) { m.Erase(p); expect.push_back(Event{ '-', k, "" }); } const bool r = s.RemoveFirst(k); VH_CHECK(r == (p >= 0), "multi-set:remove-result", t.Str()); break; }
		case 6:
			{ t << " --" << k; while (m.First(k) >= 0) { m.Erase(m.First(k)); expect.push_back(Event{ '-', k, "" }); } const size_t r = s.RemoveAll(k); VH_CHECK(r == expect.size(), "multi-set:remove-all-result", r << "; " << t.Str()); break; }
		case 7:
			if (rng.Bool())
			{
				const int mod = 2 + (int)rng.Below(3); t << " -%" << mod;
				for (size_t j = 0; j < m.items.size(); ) if (m.items[j].k % mod == 0) { expect.push_back(Event{ '-', m.items[j].k, "" }); m.Erase(j); } else ++j;
				const size_t r = s.RemoveWhere(sk::F<bool (const int&)>([mod](const int& v) { return v % mod == 0; }));
				VH_CHECK(r == expect.size(), "multi-set:remove-where-result", r << "; " << t.Str());
			}
			else if (rng.Chance(1, 3)) { t << " clear"; for (const Model::Item& x : m.items) expect.push_back(Event{ '-', x.k, "" }); m.items.clear(); s.Clear(); }
			break;
		default:
			t << " listen";
			Connect(subs, s, m, true, rng, "multi-set", t, [&](Sub& sub, bool populate)
			{ Sub* p = &sub; sub.conn = s.OnChanged().connect(sk::F<void (CollectionOp, const int&)>([p](CollectionOp op, const int& v) { p->On(op, v, ""); }), populate); });
		}
		VerifySet(s, m, rng, keys, "multi-set", t);
		VH_CHECK(s.Count(k) == m.Count(k), "multi-set:count-of", k << "; " << t.Str());
		CheckSubs(subs, m, expect, false, "multi-set", t);
		if (rng.Chance(1, 3) && snaps.items.size() < 30)
			switch (rng.Below(4))
			{
			case 0: snaps.AddEnumerator(s.GetEnumerator(), m.All(), rng.Below(3), "enumerator"); break;
			case 1: snaps.AddEnumerable(s.Reverse(), Reversed(m.All()), "reverse"); break;
			case 2: snaps.AddEnumerator(s.Find(k), m.From(k), rng.Below(2), "find"); break;
			default: snaps.AddEnumerator(s.ReverseFind(k), m.BackFrom(k), rng.Below(2), "reverse find");
			}
		if (rng.Chance(1, 4)) snaps.CheckOne(rng, t);
	}
	snaps.CheckAll(rng, t);
	vh_distinct("multi-set history", vh::HashStr(t.Str()));
}

// ---------------------------------------------------------------- dictionaries

namespace {
	std::string Value(vh::Rng& rng) { static const char* vs[] = { "a", "b", "c", "d", "" }; return vs[rng.Below(5)]; }

	template < typename DictType > void DictModel(vh::Rng& rng, bool sorted, const Less& less, const char* kind)
	{
		const std::string K(kind);
		Model m(sorted, false, less);
		vh::Trace t; t << kind;
		const int keys = 2 + (int)rng.Below(7);
		shared_ptr<DictType> dp;
		if (rng.Chance(1, 4)) { auto b = make_shared_ptr<std::vector<Pair> >(); for (int i = 0; i < 4; ++i) { const int k = (int)rng.Below(keys); if (m.First(k) >= 0) continue; const std::string v = Value(rng); b->push_back(Pair(k, v)); m.Insert(k, v); t << " init" << k << v; } dp = make_shared_ptr<DictType>(EnumerableFromStlContainer(*b, b)); }
		else dp = make_shared_ptr<DictType>();
		DictType& d = *dp;
		std::vector<SubPtr> subs; Snapshots snaps;
		// views
		const int watched = (int)rng.Below(keys);
		const shared_ptr<IObservableDictionary<int, std::string> > ip = dp;
		const shared_ptr<IReadonlyObservableDictionary<int, std::string> > rp = dp;
		const auto kv = GetDictionaryKeyValue(ip, watched);
		const auto roKv = GetDictionaryKeyValue(rp, watched);
		const auto keySet = GetDictionaryKeys(dp);
		const auto keyEntry = GetSetEntry(keySet, watched);
		const auto keyCast = make_shared_ptr<ObservableSetCaster<int, int> >(keySet, &VCast, &BackCast);
		const auto cast = make_shared_ptr<ObservableDictionaryCaster<int, std::string, std::string> >(rp, &CastS, &BackCastS);
		const auto castKv = GetDictionaryKeyValue(shared_ptr<IReadonlyObservableDictionary<int, std::string> >(cast), watched);
		ViewSub kvSub, keysSub, entrySub, keyCastSub, castSub, castKvSub;
		auto addKv = [](ViewSub& s, const optional<std::string>& v) { s.got.push_back(v ? Event{ '=', 1, *v } : Event{ '=', 0, "" }); };
		kvSub.name = "key-value"; keysSub.name = "keys"; entrySub.name = "keys-entry"; keyCastSub.name = "keys-cast"; castSub.name = "dictionary-cast"; castKvSub.name = "cast-key-value";
		auto kvNow = [&](bool c) { const int i = m.First(watched); return i >= 0 ? Event{ '=', 1, c ? CastS(m.items[i].v) : m.items[i].v } : Event{ '=', 0, "" }; };
		Events initial; for (const Model::Item& i : m.items) initial.push_back(Event{ '+', i.k, i.v });
		auto keysOf = [](const Events& ev) { return Mapped(ev, [](Event& e) { e.v.clear(); return e.op != '~'; }); };
		kvSub.conn = (rng.Bool() ? kv->OnChanged() : roKv->OnChanged()).connect(sk::F<void (const optional<std::string>&)>([&](const optional<std::string>& v) { addKv(kvSub, v); }));
		kvSub.Check(Events{ kvNow(false) }, false, t);
		castKvSub.conn = castKv->OnChanged().connect(sk::F<void (const optional<std::string>&)>([&](const optional<std::string>& v) { addKv(castKvSub, v); }));
		castKvSub.Check(Events{ kvNow(true) }, false, t);
		keysSub.conn = keySet->OnChanged().connect(sk::F<void (CollectionOp, const int&)>([&](CollectionOp op, const int& v) { keysSub.got.push_back(Event{ OpChar(op), v, "" }); }));
		keysSub.Check(keysOf(initial), false, t);
		entrySub.conn = keyEntry->OnChanged().connect(sk::F<void (bool)>([&](bool v) { entrySub.got.push_back(Event{ '=', v, "" }); }));
		entrySub.Check(Events{ Event{ '=', m.First(watched) >= 0, "" } }, false, t);
		auto castKeys = [&](const Events& ev) { return Mapped(keysOf(ev), [](Event& e) { e.k = VCast((int)e.k); return true; }); };
		keyCastSub.conn = keyCast->OnChanged().connect(sk::F<void (CollectionOp, const int&)>([&](CollectionOp op, const int& v) { keyCastSub.got.push_back(Event{ OpChar(op), v, "" }); }));
		keyCastSub.Check(castKeys(initial), false, t);
		auto castEv = [&](const Events& ev) { return Mapped(ev, [](Event& e) { e.v = CastS(e.v); return true; }); };
		castSub.conn = cast->OnChanged().connect(sk::F<void (CollectionOp, const int&, const std::string&)>([&](CollectionOp op, const int& k, const std::string& v) { castSub.got.push_back(Event{ OpChar(op), k, v }); }));
		castSub.Check(castEv(initial), false, t);

		for (int i = 0; i < 50 && !vh_violated(); ++i)
		{
			const int k = (int)rng.Below(keys);
			Events expect; bool optionalEvents = false;
			std::unique_ptr<ObservableCollectionLocker> lock; if (rng.Chance(1, 8)) lock.reset(new ObservableCollectionLocker(d));
			auto modelSet = [&](int key, const std::string& v) { const int p = m.First(key); expect.push_back(Event{ p < 0 ? '+' : '~', key, v }); if (p < 0) m.Insert(key, v); else { optionalEvents = m.items[p].v == v; m.items[p].v = v; } };
			auto modelRemove = [&](int key) { const int p = m.First(key); if (p >= 0) { expect.push_back(Event{ '-', key, m.items[p].v }); m.Erase(p); } return p >= 0; };
			switch (rng.Below(13))
			{
			case 0: case 1:
				{ const std::string v = Value(rng); t << " +" << k << v; const bool e = m.First(k) < 0; if (e) modelSet(k, v); const bool r = d.Add(k, v); VH_CHECK(r == e, K + ":add-result", t.Str()); break; }
			case 2: case 3: case 4: { const std::string v = Value(rng); t << " =" << k << v; modelSet(k, v); d.Set(k, v); break; }
			case 5: case 6: { t << " -" << k; const bool e = modelRemove(k); const bool r = d.Remove(k); VH_CHECK(r == e, K + ":remove-result", t.Str()); break; }
			case 7:
				{
					const int mod = 2 + (int)rng.Below(3); const bool byValue = rng.Bool(); const std::string v = Value(rng); t << " -where" << (byValue ? v : std::to_string(mod));
					auto pred = [&](int kk, const std::string& vv) { return byValue ? vv == v : kk % mod == 0; };
					for (size_t j = 0; j < m.items.size(); ) if (pred(m.items[j].k, m.items[j].v)) { expect.push_back(Event{ '-', m.items[j].k, m.items[j].v }); m.Erase(j); } else ++j;
					const size_t r = d.RemoveWhere(sk::F<bool (const int&, const std::string&)>([&](const int& kk, const std::string& vv) { return pred(kk, vv); }));
					VH_CHECK(r == expect.size(), K + ":remove-where-result", r << "; " << t.Str());
					break;
				}
			case 8: if (rng.Chance(1, 3)) { t << " clear"; for (const Model::Item& x : m.items) expect.push_back(Event{ '-', x.k, x.v }); m.items.clear(); d.Clear(); } break;
			case 9: case 10:
				if (rng.Bool()) { const std::string v = Value(rng); t << " kv=" << v; modelSet(watched, v); kv->Set(v); }
				else { t << " kv=null"; modelRemove(watched); kv->Set(null); }
				break;
			default:
				t << " listen";
				Connect(subs, d, m, false, rng, kind, t, [&](Sub& sub, bool populate)
				{ Sub* p = &sub; sub.conn = d.OnChanged().connect(sk::F<void (CollectionOp, const int&, const std::string&)>([p](CollectionOp op, const int& k_, const std::string& v) { p->On(op, k_, v); }), populate); });
			}
			VerifyDict(d, m, rng, keys, kind, t);
			CheckSubs(subs, m, expect, optionalEvents, kind, t);
			auto kvEvents = [&](bool c) { return Mapped(expect, [&](Event& e) { if (e.k != watched) return false; e = e.op == '-' ? Event{ '=', 0, "" } : Event{ '=', 1, c ? CastS(e.v) : e.v }; return true; }); };
			kvSub.Check(kvEvents(false), optionalEvents, t);
			castKvSub.Check(kvEvents(true), optionalEvents, t);
			keysSub.Check(keysOf(expect), false, t);
			entrySub.Check(Mapped(keysOf(expect), [&](Event& e) { if (e.k != watched) return false; e = Event{ '=', e.op == '+', "" }; return true; }), false, t);
			keyCastSub.Check(castKeys(expect), false, t);
			castSub.Check(castEv(expect), optionalEvents, t);
			const Event now = kvNow(false), nowCast = kvNow(true);
			VH_CHECK(kv->Get().is_initialized() == (now.k != 0) && (!now.k || *kv->Get() == now.v) && roKv->Get().is_initialized() == (now.k != 0) && (!now.k || *roKv->Get() == now.v), "view:key-value-value", t.Str());
			VH_CHECK(castKv->Get().is_initialized() == (now.k != 0) && (!now.k || *castKv->Get() == nowCast.v) && keyEntry->Get() == (now.k != 0), "view:derived-value", t.Str());
			Model km = m; km.keysOnly = true; for (Model::Item& x : km.items) x.v.clear();
			VerifySet(*keySet, km, rng, keys, "keys-view", t);
			VerifyDict(*cast, Mapped(m, false, [](int v) { return v; }, CastS), rng, keys, "cast-view", t);
			VH_CHECK(ListC(*keyCast) == Mapped(km, true, [](int v) { return VCast(v); }, [](const std::string& v) { return v; }).All(), "view:keys-cast-content", t.Str());
			if (rng.Chance(1, 3) && snaps.items.size() < 30)
				switch (rng.Below(7))
				{
				case 0: snaps.AddEnumerator(d.GetEnumerator(), m.All(), rng.Below(3), "enumerator"); break;
				case 1: snaps.AddEnumerable(d.Reverse(), Reversed(m.All()), "reverse"); break;
				case 2: snaps.AddEnumerator(d.Find(k), m.From(k), rng.Below(2), "find"); break;
				case 3: snaps.AddEnumerator(d.ReverseFind(k), m.BackFrom(k), rng.Below(2), "reverse find"); break;
				case 4: snaps.AddEnumerator(keySet->GetEnumerator(), km.All(), rng.Below(3), "keys enumerator"); break;
				case 5: snaps.AddEnumerator(cast->Find(k), Mapped(m, false, [](int v) { return v; }, CastS).From(k), rng.Below(2), "cast find"); break;
				default: snaps.AddEnumerable(keySet->Reverse(), Reversed(km.All()), "keys reverse");
				}
			if (rng.Chance(1, 4)) snaps.CheckOne(rng, t);
		}
		snaps.CheckAll(rng, t);
		vh_distinct("dictionary history", vh::HashStr(t.Str()));
		vh_sample(t.Str().c_str());
	}
}

VH_SCENARIO(dict_model)
{
	const Less l = [](int a, int b) { return a < b; }, g = [](int a, int b) { return a > b; };
	switch (rng.Below(5))
	{
	case 0: DictModel<MapObservableDictionary<int, std::string> >(rng, true, l, "map-dictionary"); break;
	case 1: DictModel<MapObservableDictionary<int, std::string, comparers::Greater> >(rng, true, g, "map-dictionary-greater"); break;
	case 2: DictModel<FlatMapObservableDictionary<int, std::string> >(rng, true, l, "flat-dictionary"); break;
	case 3: DictModel<FlatMapObservableDictionary<int, std::string, comparers::Greater> >(rng, true, g, "flat-dictionary-greater"); break;
	default: DictModel<OrderedObservableDictionary<int, std::string> >(rng, false, l, "ordered-dictionary");
	}
}

VH_SCENARIO(multi_dict_model)
{
	typedef MultiMapObservableDictionary<int, std::string> Dict;
	const Less less = [](int a, int b) { return a < b; };
	Model m(true, false, less);
	vh::Trace t;
	const int keys = 2 + (int)rng.Below(4);
	const shared_ptr<Dict> dp = make_shared_ptr<Dict>();
	Dict& d = *dp;
	std::vector<SubPtr> subs; Snapshots snaps;
	for (int i = 0; i < 60 && !vh_violated(); ++i)
	{
		const int k = (int)rng.Below(keys);
		Events expect;
		auto removed = [&](int p) { expect.push_back(Event{ '-', m.items[p].k, m.items[p].v }); m.Erase(p); };
		switch (rng.Below(11))
		{
		case 0: case 1: case 2: case 3: { const std::string v = Value(rng); t << " +" << k << v; m.Insert(k, v); expect.push_back(Event{ '+', k, v }); d.Add(k, v); break; }
		case 4: { t << " -" << k; const int p = m.First(k); if (p >= 0) removed(p); const bool r = d.RemoveFirst(k); VH_CHECK(r == (p >= 0), "multi-dictionary:remove-result", t.Str()); break; }
		case 5: { const std::string v = Value(rng); t << " -" << k << v; const int p = m.FirstPair(k, v); if (p >= 0) removed(p); const bool r = d.RemoveFirst(k, v); VH_CHECK(r == (p >= 0), "multi-dictionary:remove-value-result", t.Str()); break; }
		case 6: { t << " --" << k; while (m.First(k) >= 0) removed(m.First(k)); const size_t r = d.RemoveAll(k); VH_CHECK(r == expect.size(), "multi-dictionary:remove-all-result", r << "; " << t.Str()); break; }
		case 7:
			{
				const int mod = 2 + (int)rng.Below(3); const bool byValue = rng.Bool(); const std::string v = Value(rng); t << " -where" << (byValue ? v : std::to_string(mod));
				auto pred = [&](int kk, const std::string& vv) { return byValue ? vv == v : kk % mod == 0; };
				for (size_t j = 0; j < m.items.size(); ) if (pred(m.items[j].k, m.items[j].v)) removed((int)j); else ++j;
				const size_t r = d.RemoveWhere(sk::F<bool (const int&, const std::string&)>([&](const int& kk, const std::string& vv) { return pred(kk, vv); }));
				VH_CHECK(r == expect.size(), "multi-dictionary:remove-where-result", r << "; " << t.Str());
				break;
			}
		case 8: if (rng.Chance(1, 3)) { t << " clear"; while (!m.items.empty()) removed(0); d.Clear(); } break;
		default:
			t << " listen";
			Connect(subs, d, m, false, rng, "multi-dictionary", t, [&](Sub& sub, bool populate)
			{ Sub* p = &sub; sub.conn = d.OnChanged().connect(sk::F<void (CollectionOp, const int&, const std::string&)>([p](CollectionOp op, const int& k_, const std::string& v) { p->On(op, k_, v); }), populate); });
		}
		const int f = m.First(k);
		VH_CHECK(ListC(d) == m.All() && List(d.Reverse()) == Reversed(m.All()), "multi-dictionary:content", Show(ListC(d)) << " instead of " << Show(m.All()) << "; " << t.Str());
		VH_CHECK(d.GetCount() == m.items.size() && d.IsEmpty() == m.items.empty() && d.CountKey(k) == m.Count(k) && d.ContainsKey(k) == (f >= 0), "multi-dictionary:count", t.Str());
		VH_CHECK(Drain(d.Find(k)) == m.From(k), "multi-dictionary:find", k << " " << Show(Drain(d.Find(k))) << "; " << t.Str());
		VH_CHECK(Drain(d.ReverseFind(k)) == m.BackFrom(k), "multi-dictionary:reverse-find", k << " " << Show(Drain(d.ReverseFind(k))) << " instead of " << Show(m.BackFrom(k)) << "; " << t.Str());
		Strings all; for (const Model::Item& x : m.items) if (x.k == k) all.push_back(x.v);
		VH_CHECK(Drain(d.GetAll(k)) == all, "multi-dictionary:get-all", k << " " << Show(Drain(d.GetAll(k))) << "; " << t.Str());
		std::string v = "none", g = "none";
		const bool ok = d.TryGetFirst(k, v);
		try { g = d.GetFirst(k); } catch (const std::exception&) { g = "threw"; }
		VH_CHECK(ok == (f >= 0) && v == (f >= 0 ? m.items[f].v : "none") && g == (f >= 0 ? m.items[f].v : "threw"), "multi-dictionary:get", k << " " << v << " " << g << "; " << t.Str());
		CheckSubs(subs, m, expect, false, "multi-dictionary", t);
		if (rng.Chance(1, 3) && snaps.items.size() < 30)
			switch (rng.Below(5))
			{
			case 0: snaps.AddEnumerator(d.GetEnumerator(), m.All(), rng.Below(3), "enumerator"); break;
			case 1: snaps.AddEnumerable(d.Reverse(), Reversed(m.All()), "reverse"); break;
			case 2: snaps.AddEnumerator(d.Find(k), m.From(k), rng.Below(2), "find"); break;
			case 3: snaps.AddEnumerator(d.GetAll(k), all, rng.Below(2), "all of key"); break;
			default: snaps.AddEnumerator(d.ReverseFind(k), m.BackFrom(k), rng.Below(2), "reverse find");
			}
		if (rng.Chance(1, 4)) snaps.CheckOne(rng, t);
	}
	snaps.CheckAll(rng, t);
	vh_distinct("multi-dictionary history", vh::HashStr(t.Str()));
}

// ---------------------------------------------------------------- list

namespace {
	struct ListSub
	{
		std::vector<int> mirror; Events got; Token conn; std::string broken;
		void On(CollectionOp op, size_t i, int v)
		{
			got.push_back(Event{ OpChar(op), (long)i, std::to_string(v) });
			if (op == CollectionOp::Added) { if (i > mirror.size()) broken = "added beyond the end"; else mirror.insert(mirror.begin() + i, v); }
			else if (i >= mirror.size()) broken = "index out of range";
			else if (op == CollectionOp::Removed) { if (mirror[i] != v) broken = "removed value differs"; mirror.erase(mirror.begin() + i); }
			else mirror[i] = v;
		}
	};
	Strings Text(const std::vector<int>& v) { Strings r; for (int x : v) r.push_back(std::to_string(x)); return r; }
	Strings CastText(const std::vector<int>& v) { Strings r; for (int x : v) r.push_back(std::to_string(VCast(x))); return r; }
}

VH_SCENARIO(list_model)
{
	typedef ArrayObservableList<int> ListType;
	std::vector<int> m;
	vh::Trace t;
	const int values = 2 + (int)rng.Below(6);
	shared_ptr<ListType> lp;
	if (rng.Chance(1, 4)) { auto b = make_shared_ptr<std::vector<int> >(); for (int i = 0; i < 4; ++i) b->push_back((int)rng.Below(values)); m = *b; lp = make_shared_ptr<ListType>(EnumerableFromStlContainer(*b, b)); }
	else lp = make_shared_ptr<ListType>();
	ListType& l = *lp;
	std::vector<std::shared_ptr<ListSub> > subs; Snapshots snaps;
	const auto cast = make_shared_ptr<ObservableListCaster<int, int> >(shared_ptr<IReadonlyObservableList<int> >(lp), &VCast, &BackCast);
	ViewSub castSub; castSub.name = "list-cast";
	auto castEv = [](const Events& ev) { return Mapped(ev, [](Event& e) { e.v = std::to_string(VCast(atoi(e.v.c_str()))); return true; }); };
	castSub.conn = cast->OnChanged().connect(sk::F<void (CollectionOp, size_t, const int&)>([&](CollectionOp op, size_t i, const int& v) { castSub.got.push_back(Event{ OpChar(op), (long)i, std::to_string(v) }); }));
	Events initial; for (size_t i = 0; i < m.size(); ++i) initial.push_back(Event{ '+', (long)i, std::to_string(m[i]) });
	castSub.Check(castEv(initial), false, t);
	for (int step = 0; step < 60 && !vh_violated(); ++step)
	{
		const int v = (int)rng.Below(values); const std::string vs = std::to_string(v);
		Events expect; bool optionalEvents = false, threw = false, mustThrow = false;
		const size_t i = rng.Below(m.size() + 2);
		switch (rng.Below(13))
		{
		case 0: case 1: t << " add" << v; expect.push_back(Event{ '+', (long)m.size(), vs }); m.push_back(v); l.Add(v); break;
		case 2: case 3:
			t << " set" << i << ":" << v; mustThrow = i >= m.size();
			if (!mustThrow) { optionalEvents = m[i] == v; m[i] = v; expect.push_back(Event{ '~', (long)i, vs }); }
			try { l.Set(i, v); } catch (const std::exception&) { threw = true; }
			break;
		case 4: case 5:
			t << " ins" << i << ":" << v; mustThrow = i > m.size();
			if (!mustThrow) { m.insert(m.begin() + i, v); expect.push_back(Event{ '+', (long)i, vs }); }
			try { l.Insert(i, v); } catch (const std::exception&) { threw = true; }
			break;
		case 6:
			t << " del" << i; mustThrow = i >= m.size();
			if (!mustThrow) { expect.push_back(Event{ '-', (long)i, std::to_string(m[i]) }); m.erase(m.begin() + i); }
			try { l.RemoveAt(i); } catch (const std::exception&) { threw = true; }
			break;
		case 7:
			{ t << " rem" << v; const auto it = std::find(m.begin(), m.end(), v); const bool e = it != m.end(); if (e) { expect.push_back(Event{ '-', (long)(it - m.begin()), vs }); m.erase(it); } const bool r = l.Remove(v); VH_CHECK(r == e, "list:remove-result", t.Str()); break; }
		case 8:
			{
				const int mod = 2 + (int)rng.Below(3); t << " -%" << mod;
				for (size_t j = 0; j < m.size(); ) if (m[j] % mod == 0) { expect.push_back(Event{ '-', (long)j, std::to_string(m[j]) }); m.erase(m.begin() + j); } else ++j;
				const size_t r = l.RemoveAll(sk::F<bool (const int&)>([mod](const int& x) { return x % mod == 0; }));
				VH_CHECK(r == expect.size(), "list:remove-all-result", r << "; " << t.Str());
				break;
			}
		case 9: if (rng.Chance(1, 3)) { t << " clear"; for (int x : m) expect.push_back(Event{ '-', 0, std::to_string(x) }); m.clear(); l.Clear(); } break;
		default:
			{
				t << " listen";
				std::shared_ptr<ListSub> s(new ListSub); const bool populate = rng.Chance(3, 4); ListSub* p = s.get();
				if (!populate) s->mirror = m;
				s->conn = l.OnChanged().connect(sk::F<void (CollectionOp, size_t, const int&)>([p](CollectionOp op, size_t i_, const int& v_) { p->On(op, i_, v_); }), populate);
				Events init; if (populate) for (size_t j = 0; j < m.size(); ++j) init.push_back(Event{ '+', (long)j, std::to_string(m[j]) });
				VH_CHECK(s->got == init, "list:populate", Show(s->got) << "; " << t.Str());
				s->got.clear(); subs.push_back(s); if (subs.size() > 4) subs.erase(subs.begin() + rng.Below(subs.size()));
			}
		}
		VH_CHECK(threw == mustThrow, "list:out-of-range", threw << "; " << t.Str());
		// a clear may be announced in any order of removals that empties the mirrors
		const bool cleared = m.empty() && expect.size() > 1;
		for (const auto& s : subs)
		{
			VH_CHECK(s->got == expect || (optionalEvents && s->got.empty()) || (cleared && s->got.size() == expect.size()), "list:announcements", Show(s->got) << " instead of " << Show(expect) << "; " << t.Str());
			VH_CHECK(s->broken.empty() && s->mirror == m, "list:mirror", s->broken << " " << Show(Text(s->mirror)) << " instead of " << Show(Text(m)) << "; " << t.Str());
			vh_count("announcements", s->got.size());
			s->got.clear();
		}
		castSub.Check(cleared ? castSub.got : castEv(expect), optionalEvents, t);
		VH_CHECK(ListC(l) == Text(m) && List(l.Reverse()) == Reversed(Text(m)) && l.GetCount() == m.size() && l.IsEmpty() == m.empty(), "list:content", Show(ListC(l)) << " instead of " << Show(Text(m)) << "; " << t.Str());
		VH_CHECK(ListC(*cast) == CastText(m) && List(cast->Reverse()) == Reversed(CastText(m)) && cast->GetCount() == m.size() && cast->IsEmpty() == m.empty(), "view:list-cast-content", Show(ListC(*cast)) << "; " << t.Str());
		const auto it = std::find(m.begin(), m.end(), v);
		const optional<size_t> idx = l.IndexOf(v), cidx = cast->IndexOf(VCast(v));
		VH_CHECK(l.Contains(v) == (it != m.end()) && idx.is_initialized() == (it != m.end()) && (!idx || *idx == (size_t)(it - m.begin())), "list:index-of", v << "; " << t.Str());
		VH_CHECK(cast->Contains(VCast(v)) == (it != m.end()) && cidx == idx && !cast->Contains(v * 10 + 2) && !cast->IndexOf(v * 10 + 2), "view:list-cast-index-of", v << "; " << t.Str());
		int g = -1, cg = -1, x = -1, cx = -1;
		const size_t q = rng.Below(m.size() + 2);
		try { g = l.Get(q); } catch (const std::exception&) { g = -2; }
		try { cg = cast->Get(q); } catch (const std::exception&) { cg = -2; }
		const bool ok = l.TryGet(q, x), cok = cast->TryGet(q, cx);
		VH_CHECK(g == (q < m.size() ? m[q] : -2) && ok == (q < m.size()) && x == (ok ? m[q] : -1), "list:get", q << "; " << t.Str());
		VH_CHECK(cg == (q < m.size() ? VCast(m[q]) : -2) && cok == ok && cx == (ok ? VCast(m[q]) : -1), "view:list-cast-get", q << "; " << t.Str());
		if (rng.Chance(1, 3) && snaps.items.size() < 30)
			switch (rng.Below(4))
			{
			case 0: snaps.AddEnumerator(l.GetEnumerator(), Text(m), rng.Below(3), "enumerator"); break;
			case 1: snaps.AddEnumerable(l.Reverse(), Reversed(Text(m)), "reverse"); break;
			case 2: snaps.AddEnumerator(cast->GetEnumerator(), CastText(m), rng.Below(3), "cast enumerator"); break;
			default: snaps.AddEnumerator(l.Reverse()->GetEnumerator(), Reversed(Text(m)), rng.Below(3), "reverse enumerator");
			}
		if (rng.Chance(1, 4)) snaps.CheckOne(rng, t);
	}
	snaps.CheckAll(rng, t);
	vh_distinct("list history", vh::HashStr(t.Str()));
	vh_sample(t.Str().c_str());
}

// ---------------------------------------------------------------- views of transactional collections

VH_SCENARIO(transactional_views)
{
	vh::Trace t;
	const int keys = 3 + (int)rng.Below(4);
	typedef TransactionalDictionary<int, std::string, comparers::Less, comparers::Equals> Dict;
	typedef TransactionalSet<int, comparers::Less> Set;
	typedef TransactionalList<int, comparers::Equals> IntList;
	const shared_ptr<Dict> d = make_shared_ptr<Dict>(); const shared_ptr<Set> s = make_shared_ptr<Set>(); const shared_ptr<IntList> l = make_shared_ptr<IntList>();
	const auto keySet = GetDictionaryKeys(d);
	const auto dCast = make_shared_ptr<TransactionalDictionaryCaster<int, std::string, std::string> >(d, &CastS, &BackCastS);
	const auto sCast = make_shared_ptr<TransactionalSetCaster<int, int> >(s, &VCast, &BackCast);
	const auto lCast = make_shared_ptr<TransactionalListCaster<int, int> >(l, &VCast, &BackCast);
	std::set<int> km, sm; std::map<int, std::string> dm; std::vector<int> lm; // mirrors of the views
	int kn = 0, dn = 0, sn = 0, ln = 0; bool bad = false;
	auto keysHandler = sk::F<void (const shared_ptr<IEnumerable<DiffEntry<int> > >&)>([&](const shared_ptr<IEnumerable<DiffEntry<int> > >& diff)
	{ ++kn; bool any = false; FOR_EACH (const DiffEntry<int> e IN diff) { any = true; bad |= e.Op == CollectionOp::Added ? !km.insert(e.Item).second : !km.erase(e.Item); } bad |= !any; });
	auto setHandler = sk::F<void (const shared_ptr<IEnumerable<DiffEntry<int> > >&)>([&](const shared_ptr<IEnumerable<DiffEntry<int> > >& diff)
	{ ++sn; FOR_EACH (const DiffEntry<int> e IN diff) bad |= e.Op == CollectionOp::Added ? !sm.insert(e.Item).second : !sm.erase(e.Item); });
	typedef DiffEntry<Pair> DictEntry; typedef shared_ptr<IEnumerable<DictEntry> > DictDiff;
	auto dictHandler = sk::F<void (const DictDiff&)>([&](const DictDiff& diff)
	{ ++dn; FOR_EACH (const DictEntry e IN diff) if (e.Op == CollectionOp::Added) bad |= !dm.insert(std::make_pair(e.Item.Key, e.Item.Value)).second; else { bad |= !dm.count(e.Item.Key) || dm[e.Item.Key] != e.Item.Value; dm.erase(e.Item.Key); } });
	typedef DiffEntry<KeyValuePair<size_t, int> > ListEntry; typedef shared_ptr<IEnumerable<ListEntry> > ListDiff;
	auto listHandler = sk::F<void (const ListDiff&)>([&](const ListDiff& diff)
	{ ++ln; FOR_EACH (const ListEntry e IN diff) if (e.Op == CollectionOp::Added) { if (e.Item.Key > lm.size()) bad = true; else lm.insert(lm.begin() + e.Item.Key, e.Item.Value); } else if (e.Item.Key >= lm.size() || lm[e.Item.Key] != e.Item.Value) bad = true; else lm.erase(lm.begin() + e.Item.Key); });
	Token kc, dc, sc, lc;
	std::map<int, std::string> dict; std::set<int> set; std::vector<int> list; // committed content
	const int connectAt = (int)rng.Below(4);
	for (int round = 0; round < 12 && !vh_violated(); ++round)
	{
		if (round == connectAt)
		{
			kc = keySet->OnChanged().connect(keysHandler); dc = dCast->OnChanged().connect(dictHandler); sc = sCast->OnChanged().connect(setHandler); lc = lCast->OnChanged().connect(listHandler);
			VH_CHECK(kn == !dict.empty() && dn == !dict.empty() && sn == !set.empty() && ln == !list.empty(), "transactional-view:populate", kn << dn << sn << ln << "; " << t.Str());
		}
		std::map<int, std::string> nd = dict; std::set<int> ns = set; std::vector<int> nl = list;
		auto dt = d->StartTransaction(); auto st = s->StartTransaction(); auto lt = l->StartTransaction();
		for (size_t i = rng.Below(8); i > 0; --i)
		{
			const int k = (int)rng.Below(keys);
			switch (rng.Below(6))
			{
			case 0: case 1: { const std::string v = Value(rng); t << " d" << k << "=" << v; dt->Set(k, v); nd[k] = v; break; }
			case 2: t << " d-" << k; dt->Remove(k); nd.erase(k); break;
			case 3: t << " s" << k; if (rng.Bool()) { st->Add(k); ns.insert(k); } else { st->Remove(k); ns.erase(k); } break;
			default: t << " l" << k; if (rng.Chance(2, 3) || nl.empty()) { const size_t p = rng.Below(nl.size() + 1); lt->Insert(p, k); nl.insert(nl.begin() + p, k); } else { const size_t p = rng.Below(nl.size()); lt->RemoveAt(p); nl.erase(nl.begin() + p); }
			}
		}
		const bool connected = round >= connectAt;
		auto keysOf = [](const std::map<int, std::string>& m) { std::set<int> r; for (const auto& p : m) r.insert(p.first); return r; };
		const int ek = keysOf(nd) != keysOf(dict), ed = nd != dict, es = ns != set, el = nl != list;
		kn = dn = sn = ln = 0;
		t << " commit";
		dt->Commit(); st->Commit(); lt->Commit();
		dict = nd; set = ns; list = nl;
		if (connected)
		{
			VH_CHECK(kn == ek && dn == ed && sn == es && ln == el, "transactional-view:announcements", kn << dn << sn << ln << " instead of " << ek << ed << es << el << "; " << t.Str());
			std::map<int, std::string> cd; for (const auto& p : dict) cd[p.first] = CastS(p.second);
			std::set<int> cs; for (int v : set) cs.insert(VCast(v));
			std::vector<int> cl; for (int v : list) cl.push_back(VCast(v));
			VH_CHECK(!bad && km == keysOf(dict) && dm == cd && sm == cs && lm == cl, "transactional-view:mirror", bad << " " << t.Str());
			vh_count("transactional view announcements", kn + dn + sn + ln);
		}
		Strings ke, de, se, le; for (const auto& p : dict) { ke.push_back(std::to_string(p.first)); de.push_back(std::to_string(p.first) + "=" + CastS(p.second)); } for (int v : set) se.push_back(std::to_string(VCast(v))); le = CastText(list);
		VH_CHECK(ListC(*keySet) == ke && List(keySet->Reverse()) == Reversed(ke) && keySet->GetCount() == ke.size() && keySet->IsEmpty() == ke.empty(), "transactional-view:keys", Show(ListC(*keySet)) << "; " << t.Str());
		VH_CHECK(ListC(*dCast) == de && List(dCast->Reverse()) == Reversed(de) && dCast->GetCount() == de.size(), "transactional-view:dictionary-cast", Show(ListC(*dCast)) << "; " << t.Str());
		VH_CHECK(ListC(*sCast) == se && List(sCast->Reverse()) == Reversed(se) && sCast->GetCount() == se.size(), "transactional-view:set-cast", Show(ListC(*sCast)) << "; " << t.Str());
		VH_CHECK(ListC(*lCast) == le && List(lCast->Reverse()) == Reversed(le) && lCast->GetCount() == le.size(), "transactional-view:list-cast", Show(ListC(*lCast)) << "; " << t.Str());
		const int k = (int)rng.Below(keys);
		VH_CHECK(keySet->Contains(k) == (dict.count(k) != 0) && sCast->Contains(VCast(k)) == (set.count(k) != 0) && dCast->ContainsKey(k) == (dict.count(k) != 0), "transactional-view:contains", k << "; " << t.Str());
	}
	vh_distinct("transactional view history", vh::HashStr(t.Str()));
}

// ---------------------------------------------------------------- concurrent subscription and modification

namespace {
	// Every state that the first subscriber went through is a legal one; later subscribers must end up with the final content whenever they joined.
	template < typename DictType > void DictRace(vh::Rng& rng)
	{
		const shared_ptr<DictType> dp = make_shared_ptr<DictType>();
		DictType& d = *dp;
		typedef std::map<int, std::string> M;
		struct Mirror { M m; bool bad = false; int events = 0; Token conn; void On(CollectionOp op, int k, const std::string& v) { ++events; if (op == CollectionOp::Added) bad |= !m.insert(std::make_pair(k, v)).second; else if (!m.count(k)) bad = true; else if (op == CollectionOp::Removed) m.erase(k); else m[k] = v; } };
		auto text = [](const M& m) { Strings r; for (const auto& p : m) r.push_back(std::to_string(p.first) + "=" + p.second); return r; };
		std::vector<Strings> states; states.push_back(Strings());
		Mirror first;
		first.conn = d.OnChanged().connect(sk::F<void (CollectionOp, const int&, const std::string&)>([&](CollectionOp op, const int& k, const std::string& v) { first.On(op, k, v); states.push_back(text(first.m)); }));
		const auto keySet = GetDictionaryKeys(dp);
		std::vector<std::unique_ptr<Mirror> > late(2); for (auto& p : late) p.reset(new Mirror);
		std::set<int> keyMirror; bool keyBad = false; Token keyConn;
		struct Seen { Strings before; };
		std::vector<std::vector<Strings> > reads(2); // each needs to be one of the states
		std::vector<uint64_t> seeds; for (int i = 0; i < 6; ++i) seeds.push_back(rng.Next());
		vs::Threads ts;
		for (int w = 0; w < 2; ++w)
			ts.Add([&, w] {
				vh::Rng r(seeds[w]);
				for (int i = 0; i < 6; ++i)
				{
					const int k = (int)r.Below(3); const std::string v = std::to_string(w) + std::to_string(i);
					switch (r.Below(5)) { case 0: d.Add(k, v); break; case 1: case 2: d.Set(k, v); break; case 3: d.Remove(k); break; default: if (r.Chance(1, 3)) d.Clear(); else d.Set(k, v); }
				}
			});
		for (int q = 0; q < 2; ++q)
			ts.Add([&, q] {
				vh::Rng r(seeds[2 + q]);
				vs::Pause(r);
				Mirror* m = late[q].get();
				m->conn = d.OnChanged().connect(sk::F<void (CollectionOp, const int&, const std::string&)>([m](CollectionOp op, const int& k, const std::string& v) { m->On(op, k, v); }));
				if (q) keyConn = keySet->OnChanged().connect(sk::F<void (CollectionOp, const int&)>([&](CollectionOp op, const int& k) { keyBad |= op == CollectionOp::Added ? !keyMirror.insert(k).second : !keyMirror.erase(k); }));
				for (int i = 0; i < 3; ++i) { vs::Pause(r); reads[q].push_back(Drain(d.GetEnumerator())); }
			});
		ts.Join();
		vh::Trace t; t << "states"; for (const Strings& s : states) t << " " << Show(s);
		const Strings final = Drain(d.GetEnumerator());
		VH_CHECK(!first.bad && text(first.m) == final, "race:first-mirror", Show(text(first.m)) << " instead of " << Show(final) << "; " << t.Str());
		for (const auto& m : late) VH_CHECK(!m->bad && text(m->m) == final, "race:late-mirror", Show(text(m->m)) << " instead of " << Show(final) << "; " << t.Str());
		std::set<int> fk; for (const auto& p : first.m) fk.insert(p.first);
		VH_CHECK(!keyBad && keyMirror == fk, "race:keys-mirror", t.Str());
		for (const auto& rs : reads)
		{
			size_t from = 0;
			for (const Strings& s : rs) { size_t p = from; while (p < states.size() && states[p] != s) ++p; VH_CHECK(p < states.size(), "race:read", Show(s) << " never was the content after what was read before; " << t.Str()); if (p < states.size()) from = p; }
		}
		vh_distinct("dictionary race", vh::HashStr(t.Str()));
		vh_count("race events", first.events);
	}

	void ListRace(vh::Rng& rng)
	{
		const shared_ptr<ArrayObservableList<int> > lp = make_shared_ptr<ArrayObservableList<int> >();
		ArrayObservableList<int>& l = *lp;
		std::vector<Strings> states; states.push_back(Strings());
		ListSub first; std::vector<std::unique_ptr<ListSub> > late(2); for (auto& p : late) p.reset(new ListSub);
		first.conn = l.OnChanged().connect(sk::F<void (CollectionOp, size_t, const int&)>([&](CollectionOp op, size_t i, const int& v) { first.On(op, i, v); states.push_back(Text(first.mirror)); }));
		std::vector<std::vector<Strings> > reads(2);
		std::vector<uint64_t> seeds; for (int i = 0; i < 6; ++i) seeds.push_back(rng.Next());
		vs::Threads ts;
		for (int w = 0; w < 2; ++w)
			ts.Add([&, w] {
				vh::Rng r(seeds[w]);
				for (int i = 0; i < 6; ++i)
					try { switch (r.Below(6)) { case 0: case 1: l.Add(w * 10 + i); break; case 2: l.Insert(r.Below(3), w * 10 + i); break; case 3: l.RemoveAt(r.Below(3)); break; case 4: l.Set(r.Below(3), w * 10 + i); break; default: l.RemoveAll(sk::F<bool (const int&)>([](const int& v) { return v % 2 == 0; })); } }
					catch (const IndexOutOfRangeException&) { }
			});
		for (int q = 0; q < 2; ++q)
			ts.Add([&, q] {
				vh::Rng r(seeds[2 + q]);
				vs::Pause(r);
				ListSub* p = late[q].get();
				p->conn = l.OnChanged().connect(sk::F<void (CollectionOp, size_t, const int&)>([p](CollectionOp op, size_t i, const int& v) { p->On(op, i, v); }));
				for (int i = 0; i < 3; ++i) { vs::Pause(r); reads[q].push_back(Drain(l.GetEnumerator())); }
			});
		ts.Join();
		vh::Trace t; t << "states"; for (const Strings& s : states) t << " " << Show(s);
		const Strings final = Drain(l.GetEnumerator());
		VH_CHECK(first.broken.empty() && Text(first.mirror) == final, "race:list-first-mirror", t.Str());
		for (const auto& m : late) VH_CHECK(m->broken.empty() && Text(m->mirror) == final, "race:list-late-mirror", m->broken << Show(Text(m->mirror)) << " instead of " << Show(final) << "; " << t.Str());
		for (const auto& rs : reads) { size_t from = 0; for (const Strings& s : rs) { size_t p = from; while (p < states.size() && states[p] != s) ++p; VH_CHECK(p < states.size(), "race:list-read", Show(s) << "; " << t.Str()); if (p < states.size()) from = p; } }
		vh_distinct("list race", vh::HashStr(t.Str()));
	}
}

VH_SCHED_SCENARIO(dict_race) { DictRace<MapObservableDictionary<int, std::string> >(rng); }
VH_SCHED_SCENARIO(list_race) { ListRace(rng); }
VH_FREE_SCENARIO(free_dict_race) { vs_noise(30, 20); DictRace<FlatMapObservableDictionary<int, std::string> >(rng); vs_noise(0, 0); }
VH_FREE_SCENARIO(free_list_race) { vs_noise(30, 20); ListRace(rng); vs_noise(0, 0); }
