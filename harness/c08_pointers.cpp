// C08: shared, weak, unique and self-counted pointers. Monitors: ownership model with a census of every object after each operation;
// concurrent copy/promote/release programs with the object's payload under the race detector and a destruction census.
#include "vsx.h"
#include "sk.h"
#include <stingraykit/shared_ptr.h>
#include <stingraykit/self_counter.h>
#include <stingraykit/ref_count.h>
#include <set>
#include <map>

using namespace stingray;

namespace {
	// census: 0 never built, 1 alive, 2 destroyed
	struct Census
	{
		std::vector<int> state;
		void Built(int id) { if ((size_t)id >= state.size()) state.resize(id + 1); VH_CHECK(state[id] == 0, "census:built-twice", "object " << id); state[id] = 1; }
		void Destroyed(int id) { VH_CHECK((size_t)id < state.size() && state[id] == 1, "census:destroyed-twice", "object " << id << " in state " << ((size_t)id < state.size() ? state[id] : -1)); state[id] = 2; }
	};
	Census* g_census = 0;

	struct Base { int id; int member; std::string heavy; explicit Base(int i) : id(i), member(i * 3), heavy(40, 'h') { g_census->Built(id); } virtual ~Base() { g_census->Destroyed(id); member = -1; } };
	struct Pad { long pad[3]; virtual ~Pad() { } };
	struct Derived : public Pad, public Base { explicit Derived(int i) : Base(i) { } };
	struct Thrower : public Base { explicit Thrower(int i) : Base(i) { throw std::runtime_error("ctor failure"); } };

	struct Deleter
	{
		std::vector<std::pair<const void*, int> >* calls; int tag; bool throwOnCopy;
		Deleter(std::vector<std::pair<const void*, int> >* c, int t, bool thr = false) : calls(c), tag(t), throwOnCopy(thr) { }
		Deleter(const Deleter& o) : calls(o.calls), tag(o.tag), throwOnCopy(o.throwOnCopy) { if (throwOnCopy) throw std::runtime_error("deleter copy failure"); }
		template < typename T > void operator () (T* p) const { calls->push_back(std::make_pair((const void*)p, tag)); delete p; }
	};

	struct M { int obj; bool null; M() : obj(-1), null(true) { } };      // owner (control block) and whether get() is null
}

VH_SCENARIO(pointer_model)
{
	vh::Trace t;
	Census census; g_census = &census;
	std::vector<std::pair<const void*, int> > deleterCalls;
	std::map<int, const void*> withDeleter;
	int next = 0;
	{
		shared_ptr<Base> s[4]; M ms[4];
		shared_ptr<Derived> d[3]; M md[3];
		shared_ptr<const Base> c[2]; M mc[2];
		shared_ptr<int> a[2]; M ma[2];
		weak_ptr<Base> w[3]; int mw[3] = { -1, -1, -1 };
		weak_ptr<Derived> wd[2]; int mwd[2] = { -1, -1 };
		unique_ptr<Base> u[2]; int mu[2] = { -1, -1 };
		unique_ptr<Derived> ud[2]; int mud[2] = { -1, -1 };
		std::map<int, int> orphans;      // none expected
		for (int i = 0, n = 5 + rng.Below(70); i < n; ++i)
		{
			const int x = rng.Below(4), x2 = rng.Below(4), y = rng.Below(3), y2 = rng.Below(3), z = rng.Below(2), z2 = rng.Below(2);
			const unsigned op = rng.Below(44);
			t << " " << op << ":" << x << x2 << y << y2 << z << z2;
			switch (op)
			{
			case 0: s[x].reset(new Base(next)); ms[x].obj = next++; ms[x].null = false; break;
			case 1: s[x].reset(new Derived(next)); ms[x].obj = next++; ms[x].null = false; break;
			case 2: s[x] = make_shared_ptr<Base>(next); ms[x].obj = next++; ms[x].null = false; break;
			case 3: d[y] = make_shared_ptr<Derived>(next); md[y].obj = next++; md[y].null = false; break;
			case 4: d[y] = shared_ptr<Derived>(new Derived(next)); md[y].obj = next++; md[y].null = false; break;
			case 5: { Derived* p = new Derived(next); withDeleter[next] = p; d[y] = shared_ptr<Derived>(p, Deleter(&deleterCalls, next)); md[y].obj = next++; md[y].null = false; break; }
			case 6: { Base* p = new Base(next); withDeleter[next] = p; const Deleter del(&deleterCalls, next); s[x] = shared_ptr<Base>(p, del); ms[x].obj = next++; ms[x].null = false; break; }
			case 7:
				{
					Base* p = new Base(next); withDeleter[next] = p; bool threw = false; Deleter del(&deleterCalls, next, true);
					try { s[x] = shared_ptr<Base>(p, del); } catch (const std::runtime_error&) { threw = true; }
					VH_CHECK(threw && census.state[next] == 2, "ptr:throwing-deleter", "the object is " << (census.state[next] == 2 ? "" : "not ") << "destroyed:" << t.Str());
					++next; break;
				}
			case 8:
				{
					bool threw = false; const int id = next++;
					try { shared_ptr<Thrower> th = make_shared_ptr<Thrower>(id); } catch (const std::runtime_error&) { threw = true; }
					VH_CHECK(threw && census.state[id] == 2, "ptr:throwing-constructor", t.Str());
					break;
				}
			case 9: u[z].reset(new Base(next)); mu[z] = next++; break;
			case 10: ud[z] = make_unique_ptr<Derived>(next); mud[z] = next++; break;
			case 11: u[z] = std::move(ud[z2]); mu[z] = mud[z2]; mud[z2] = -1; break;
			case 12: u[z] = std::move(u[z2]); if (z != z2) { mu[z] = mu[z2]; mu[z2] = -1; } break;
			case 13: u[z].swap(u[z2]); std::swap(mu[z], mu[z2]); break;
			case 14: { unique_ptr<Base> tmp(std::move(u[z])); VH_CHECK(!u[z] && (mu[z] >= 0) == tmp.is_initialized(), "unique:move", t.Str()); s[x] = std::move(tmp); ms[x].obj = mu[z]; ms[x].null = mu[z] < 0; mu[z] = -1; break; }
			case 15: s[x] = shared_ptr<Base>(std::move(ud[z])); ms[x].obj = mud[z]; ms[x].null = mud[z] < 0; mud[z] = -1; break;
			case 16: { Base* p = u[z].release(); VH_CHECK((p != 0) == (mu[z] >= 0) && !u[z], "unique:release", t.Str()); if (p) { VH_CHECK(census.state[mu[z]] == 1, "unique:release-destroyed", t.Str()); delete p; } mu[z] = -1; break; }
			case 17: u[z].reset(); mu[z] = -1; break;
			case 18: s[x] = s[x2]; ms[x] = ms[x2]; break;
			case 19: s[x] = std::move(s[x2]); if (x != x2) { ms[x] = ms[x2]; ms[x2] = M(); } break;
			case 20: s[x] = d[y]; ms[x] = md[y]; break;
			case 21: s[x] = std::move(d[y]); ms[x] = md[y]; md[y] = M(); break;
			case 22: d[y] = d[y2]; md[y] = md[y2]; break;
			case 23: d[y].swap(d[y2]); std::swap(md[y], md[y2]); break;
			case 24: s[x].swap(s[x2]); std::swap(ms[x], ms[x2]); break;
			case 25: s[x].reset(); ms[x] = M(); break;
			case 26: d[y].reset(); md[y] = M(); break;
			case 27: c[z] = s[x]; mc[z] = ms[x]; break;
			case 28: c[z] = shared_ptr<const Base>(std::move(d[y])); mc[z] = md[y]; md[y] = M(); break;
			case 29:
				{
					shared_ptr<Derived> r = DynamicCast<shared_ptr<Derived> >(s[x]);
					VH_CHECK(r.get() == dynamic_cast<Derived*>(s[x].get()), "ptr:dynamic-cast", t.Str());
					d[y] = r; md[y] = r ? ms[x] : M();
					break;
				}
			case 30: if (s[x]) { a[z] = shared_ptr<int>(s[x], &s[x]->member); ma[z] = ms[x]; } else { a[z] = shared_ptr<int>(s[x], (int*)0); ma[z] = ms[x]; ma[z].null = true; } break;
			case 31: if (d[y]) { int* p = &d[y]->member; a[z] = shared_ptr<int>(std::move(d[y]), p); ma[z] = md[y]; md[y] = M(); } break;
			case 32: a[z] = shared_ptr<int>(s[x], (int*)0); ma[z] = ms[x]; ma[z].null = true; break;
			case 33: a[z].reset(); ma[z] = M(); break;
			case 34: w[y] = s[x]; mw[y] = ms[x].obj; break;
			case 35: w[y] = d[y2]; mw[y] = md[y2].obj; break;
			case 36: wd[z] = d[y]; mwd[z] = md[y].obj; break;
			case 37: w[y] = wd[z]; mw[y] = mwd[z]; break;
			case 38: if (rng.Bool()) { w[y] = w[y2]; mw[y] = mw[y2]; } else { w[y].swap(w[y2]); std::swap(mw[y], mw[y2]); } break;
			case 39: w[y] = std::move(w[y2]); if (y != y2) { mw[y] = mw[y2]; mw[y2] = -1; } break;
			case 40: w[y].reset(); mw[y] = -1; break;
			case 41:
				{
					const bool alive = mw[y] >= 0 && census.state[mw[y]] == 1;
					shared_ptr<Base> r = w[y].lock();
					VH_CHECK(r.is_initialized() == alive, "weak:lock", (r ? "live" : "null") << " from an object that is " << (alive ? "alive:" : "gone:") << t.Str());
					if (r) VH_CHECK(r->id == mw[y], "weak:lock-other", t.Str());
					s[x] = r; ms[x] = M(); if (alive) { ms[x].obj = mw[y]; ms[x].null = false; }
					break;
				}
			case 42:
				{
					int owners = 0; for (auto& m : ms) owners += m.obj == ms[x].obj; for (auto& m : md) owners += m.obj == ms[x].obj; for (auto& m : mc) owners += m.obj == ms[x].obj; for (auto& m : ma) owners += m.obj == ms[x].obj;
					const bool r = s[x].release_if_unique();
					VH_CHECK(r == (ms[x].obj >= 0 && owners == 1), "ptr:release-if-unique", owners << " owners:" << t.Str());
					if (ms[x].obj >= 0 && owners == 1) ms[x] = M();
					break;
				}
			case 43:
				{
					shared_ptr<Base> copy(s[x]); shared_ptr<Base> moved(std::move(copy)); shared_ptr<const Base> conv(moved); weak_ptr<Base> wk(moved), wk2(std::move(wk));
					VH_CHECK(!copy && moved.get() == s[x].get() && conv.get() == s[x].get() && moved == s[x] && wk2.lock() == s[x] && !wk.lock(), "ptr:temporaries", t.Str());
					break;
				}
			}
			// the model
			std::map<int, int> owners;
			for (auto& m : ms) if (m.obj >= 0) ++owners[m.obj];
			for (auto& m : md) if (m.obj >= 0) ++owners[m.obj];
			for (auto& m : mc) if (m.obj >= 0) ++owners[m.obj];
			for (auto& m : ma) if (m.obj >= 0) ++owners[m.obj];
			std::set<int> unique_owned;
			for (int m : mu) if (m >= 0) unique_owned.insert(m);
			for (int m : mud) if (m >= 0) unique_owned.insert(m);
			for (int id = 0; id < (int)census.state.size(); ++id)
			{
				const bool alive = owners.count(id) || unique_owned.count(id);
				VH_CHECK(census.state[id] == (alive ? 1 : 2), "census:object", "object " << id << " is " << (census.state[id] == 1 ? "alive" : "destroyed") << " with " << owners[id] << " owners:" << t.Str());
				if (vh_violated()) return;
			}
			for (int k = 0; k < 4; ++k) VH_CHECK((s[k].get() == 0) == ms[k].null && (ms[k].null || s[k]->id == ms[k].obj) && s[k].use_count() == (size_t)(ms[k].obj < 0 ? 0 : owners[ms[k].obj]) && s[k].unique() == (ms[k].obj >= 0 && owners[ms[k].obj] == 1) && (s[k] == null) == ms[k].null, "ptr:shared-state", "slot s" << k << " use_count " << s[k].use_count() << ":" << t.Str());
			for (int k = 0; k < 3; ++k) VH_CHECK((d[k].get() == 0) == md[k].null && (md[k].null || (d[k]->id == md[k].obj && d[k]->heavy.size() == 40)) && d[k].use_count() == (size_t)(md[k].obj < 0 ? 0 : owners[md[k].obj]), "ptr:derived-state", "slot d" << k << ":" << t.Str());
			for (int k = 0; k < 2; ++k) VH_CHECK((c[k].get() == 0) == mc[k].null && (mc[k].null || c[k]->id == mc[k].obj), "ptr:const-state", "slot c" << k << ":" << t.Str());
			for (int k = 0; k < 2; ++k) VH_CHECK((a[k].get() == 0) == ma[k].null && (ma[k].null || *a[k] == ma[k].obj * 3) && a[k].use_count() == (size_t)(ma[k].obj < 0 ? 0 : owners[ma[k].obj]), "ptr:alias-state", "slot a" << k << ":" << t.Str());
			for (int k = 0; k < 3; ++k) VH_CHECK(w[k].expired() == !(mw[k] >= 0 && owners.count(mw[k])) && w[k].use_count() == (size_t)(mw[k] >= 0 && owners.count(mw[k]) ? owners[mw[k]] : 0), "weak:state", "slot w" << k << ":" << t.Str());
			for (int k = 0; k < 2; ++k) { VH_CHECK((u[k].get() == 0) == (mu[k] < 0) && (mu[k] < 0 || u[k]->id == mu[k]), "unique:state", t.Str()); VH_CHECK((ud[k].get() == 0) == (mud[k] < 0) && (mud[k] < 0 || ud[k]->id == mud[k]), "unique:derived-state", t.Str()); }
			for (int k = 0; k < 4; ++k) for (int l = 0; l < 4; ++l)
			{
				VH_CHECK((s[k] == s[l]) == (s[k].get() == s[l].get()) && (s[k] != s[l]) == (s[k].get() != s[l].get()), "ptr:equality", t.Str());
				// same owner: neither before the other; different owners: exactly one
				const bool b1 = s[k].owner_before(s[l]), b2 = s[l].owner_before(s[k]);
				VH_CHECK(ms[k].obj == ms[l].obj ? !b1 && !b2 : b1 != b2, "ptr:owner-before", t.Str());
			}
			// dereferencing null is reported
			if (!s[x]) { bool threw = false; try { (void)s[x]->id; } catch (const NullPointerException&) { threw = true; } VH_CHECK(threw, "ptr:null-dereference", t.Str()); }
			if (!u[z]) { bool threw = false; try { (void)(*u[z]).id; } catch (const NullPointerException&) { threw = true; } VH_CHECK(threw, "unique:null-dereference", t.Str()); }
		}
	}
	for (int id = 0; id < (int)census.state.size(); ++id) VH_CHECK(census.state[id] == 2, "census:leak", "object " << id << ":" << t.Str());
	std::map<int, int> calls;
	for (auto& dc : deleterCalls) { ++calls[dc.second]; VH_CHECK(withDeleter[dc.second] == dc.first, "ptr:deleter-pointer", "deleter " << dc.second << " got another pointer:" << t.Str()); }
	for (auto& wdl : withDeleter) VH_CHECK(calls[wdl.first] == 1, "ptr:deleter-count", "deleter " << wdl.first << " ran " << calls[wdl.first] << " times:" << t.Str());
	vh_count("objects_tracked", census.state.size());
	vh_distinct("histories", vh::HashStr(t.Str()));
	g_census = 0;
}

namespace {
	struct SBase : public self_counter<SBase> { int id; explicit SBase(int i) : id(i) { g_census->Built(i); } virtual ~SBase() { g_census->Destroyed(id); } };
	struct SDerived : public Pad, public SBase { explicit SDerived(int i) : SBase(i) { } };
}

VH_SCENARIO(self_count_model)
{
	vh::Trace t;
	Census census; g_census = &census;
	int next = 0;
	{
		self_count_ptr<SBase> s[4]; int ms[4] = { -1, -1, -1, -1 };
		self_count_ptr<SDerived> d[2]; int md[2] = { -1, -1 };
		self_count_ptr<const SBase> c[2]; int mc[2] = { -1, -1 };
		unique_ptr<Base[]> arr;
		for (int i = 0, n = 5 + rng.Below(60); i < n; ++i)
		{
			const int x = rng.Below(4), x2 = rng.Below(4), z = rng.Below(2), z2 = rng.Below(2);
			const unsigned op = rng.Below(18);
			t << " " << op << ":" << x << x2 << z << z2;
			switch (op)
			{
			case 0: s[x].reset(new SBase(next)); ms[x] = next++; break;
			case 1: s[x] = make_self_count_ptr<SBase>(next); ms[x] = next++; break;
			case 2: d[z] = make_self_count_ptr<SDerived>(next); md[z] = next++; break;
			case 3: s[x] = s[x2]; ms[x] = ms[x2]; break;
			case 4: s[x] = std::move(s[x2]); if (x != x2) { ms[x] = ms[x2]; ms[x2] = -1; } break;
			case 5: s[x] = d[z]; ms[x] = md[z]; break;
			case 6: s[x] = std::move(d[z]); ms[x] = md[z]; md[z] = -1; break;
			case 7: s[x].swap(s[x2]); std::swap(ms[x], ms[x2]); break;
			case 8: s[x].reset(); ms[x] = -1; break;
			case 9: d[z].reset(); md[z] = -1; break;
			case 10: if (s[x]) { s[x2] = s[x]->self_count_ptr_from_this(); ms[x2] = ms[x]; } break;
			case 11: if (s[x] && dynamic_cast<SDerived*>(s[x].get())) { d[z] = self_count_ptr<SDerived>(s[x], static_cast_tag()); md[z] = ms[x]; } break;
			case 12: if (s[x] && dynamic_cast<SDerived*>(s[x].get())) { d[z] = self_count_ptr<SDerived>(std::move(s[x]), static_cast_tag()); md[z] = ms[x]; ms[x] = -1; } break;
			case 13: c[z] = s[x]; mc[z] = ms[x]; break;
			case 14: c[z] = c[z2]; mc[z] = mc[z2]; break;
			case 15: c[z].reset(); mc[z] = -1; break;
			case 16: if (c[z]) { c[z2] = c[z]->self_count_ptr_from_this(); mc[z2] = mc[z]; } break;
			case 17: { self_count_ptr<SBase> copy(s[x]); self_count_ptr<SBase> moved(std::move(copy)); self_count_ptr<const SBase> conv(std::move(moved)); VH_CHECK(!copy && !moved && conv == s[x], "self:temporaries", t.Str()); break; }
			}
			std::map<int, int> owners;
			for (int m : ms) if (m >= 0) ++owners[m];
			for (int m : md) if (m >= 0) ++owners[m];
			for (int m : mc) if (m >= 0) ++owners[m];
			for (int id = 0; id < (int)census.state.size(); ++id) { VH_CHECK(census.state[id] == (owners.count(id) ? 1 : 2), "census:self-counted", "object " << id << ":" << t.Str()); if (vh_violated()) return; }
			for (int k = 0; k < 4; ++k) VH_CHECK(s[k].is_initialized() == (ms[k] >= 0) && (ms[k] < 0 || s[k]->id == ms[k]) && s[k].use_count() == (size_t)(ms[k] < 0 ? 0 : owners[ms[k]]) && s[k].unique() == (ms[k] >= 0 && owners[ms[k]] == 1), "self:state", "slot " << k << ":" << t.Str());
			for (int k = 0; k < 2; ++k) VH_CHECK(d[k].is_initialized() == (md[k] >= 0) && (md[k] < 0 || d[k]->id == md[k]) && c[k].is_initialized() == (mc[k] >= 0) && (mc[k] < 0 || c[k]->id == mc[k]), "self:derived-state", t.Str());
		}
	}
	for (int id = 0; id < (int)census.state.size(); ++id) VH_CHECK(census.state[id] == 2, "census:self-leak", "object " << id << ":" << t.Str());
	// the bare reference counter
	{
		ref_count r; u32 expected = 1;
		std::vector<ref_count> copies;
		for (int i = 0, n = rng.Below(20); i < n; ++i)
			switch (rng.Below(5))
			{
			case 0: VH_CHECK(r.add_ref() == ++expected, "ref-count:add", expected); break;
			case 1: if (expected) { VH_CHECK(r.release() == --expected, "ref-count:release", expected); } break;
			case 2: copies.push_back(r); VH_CHECK(copies.back().get() == expected, "ref-count:copy", expected); break;
			case 3: VH_CHECK(r.release_if_unique() == (expected == 1), "ref-count:release-if-unique", expected); if (expected == 1) expected = 0; break;
			case 4: { ref_count other(r); r = other; if (!copies.empty()) { r.swap(copies[0]); copies.erase(copies.begin()); } VH_CHECK(r.get() == expected, "ref-count:assign", expected); break; }
			}
	}
	vh_distinct("histories", vh::HashStr(t.Str()));
	g_census = 0;
}

namespace {
	enum { Destroyed = 1, OwnerEnd, LockNull, LockLive, Unique };
	const char* const Names[] = { "?", "destroyed", "owner-end", "lock-null", "lock-live", "released-if-unique" };

	// payload is written by construction and destruction and read by owners: an ordering mistake is a race for the race detector
	struct Obj
	{
		int id; int payload; std::string text;
		explicit Obj(int i) : id(i), payload(1234), text(30, 't') { }
		Obj(const Obj&) = delete;
		virtual ~Obj() { VH_CHECK(payload == 1234, "conc:destroyed-twice", "object " << id); payload = -1; text.clear(); vh_log(Destroyed, id, 0, 0); }
	};
	struct ObjD : public Pad, public Obj { explicit ObjD(int i) : Obj(i) { } };
	struct SObj : public self_counter<SObj>, public Obj { explicit SObj(int i) : Obj(i) { } };

	template < typename P > void Use(const P& p) { VH_CHECK(p->payload == 1234 && p->text.size() == 30, "conc:dead-object-used", "object " << p->id << " payload " << p->payload); }
	struct ConcDeleter { int id; void operator () (Obj* p) const { VH_CHECK(p->id == id, "conc:deleter-pointer", p->id); delete p; } };
}

static void SharedRace(vh::Rng& rng)
{
	vh_log_clear();
	const int objects = 1 + rng.Below(2), threads = 2 + rng.Below(3);
	std::vector<shared_ptr<Obj> > start[4]; std::vector<weak_ptr<Obj> > weak[4];
	std::vector<shared_ptr<Obj> > first;
	for (int o = 0; o < objects; ++o)
		switch (rng.Below(5))
		{
		case 0: first.push_back(make_shared_ptr<Obj>(o)); break;
		case 1: first.push_back(shared_ptr<Obj>(new Obj(o))); break;
		case 2: { ConcDeleter del = { o }; first.push_back(shared_ptr<Obj>(new ObjD(o), del)); break; }
		case 3: first.push_back(shared_ptr<Obj>(make_unique_ptr<Obj>(o))); break;
		case 4: first.push_back(make_shared_ptr<ObjD>(o)); break;
		}
	std::vector<uint64_t> seeds; for (int i = 0; i < 4; ++i) seeds.push_back(rng.Next());
	for (int i = 0; i < threads; ++i)
		for (int o = 0; o < objects; ++o) { if (rng.Chance(2, 3)) start[i].push_back(first[o]); weak[i].push_back(first[o]); }
	first.clear();
	{
		vs::Threads th;
		for (int i = 0; i < threads; ++i)
			th.Add([&, i]()
			{
				vh::Rng r(seeds[i]);
				std::vector<shared_ptr<Obj> > own; own.swap(start[i]);
				std::vector<weak_ptr<Obj> > wk; wk.swap(weak[i]);
				for (int k = 0, n = 2 + r.Below(7); k < n; ++k)
				{
					for (auto& p : own) if (p) Use(p);
					switch (r.Below(9))
					{
					case 0: if (!own.empty()) own.push_back(own[r.Below(own.size())]); break;
					case 1: case 2: if (!own.empty()) own.erase(own.begin() + r.Below(own.size())); break;
					case 3: case 4:
						if (!wk.empty())
						{
							shared_ptr<Obj> p = wk[r.Below(wk.size())].lock();
							vh_log(p ? LockLive : LockNull, p ? p->id : -1, 0, 0);
							if (p) { Use(p); if (r.Bool()) own.push_back(std::move(p)); }
						}
						break;
					case 5: if (!own.empty()) { shared_ptr<Obj>& p = own[r.Below(own.size())]; const int id = p ? p->id : -1; if (p.release_if_unique()) { VH_CHECK(!p && id >= 0, "conc:release-if-unique", id); vh_log(Unique, id, 0, 0); } } break;
					case 6: if (!own.empty()) wk.push_back(own[r.Below(own.size())]); break;
					case 7: if (wk.size() > 1) wk.erase(wk.begin() + r.Below(wk.size())); break;
					case 8: if (!own.empty()) { const shared_ptr<Obj>& p = own[r.Below(own.size())]; if (p) { shared_ptr<const int> al(p, &p->payload); VH_CHECK(*al == 1234 && p.use_count() >= 2 && !p.unique(), "conc:alias", p.use_count()); } } break;
					}
				}
				own.clear();
				vh_log(OwnerEnd, i, 0, 0);
				if (r.Bool()) wk.clear();
			});
		th.Join();
	}
	std::map<int64_t, int> destroyed;
	for (uint32_t i = 0; i < vh_log_size(); ++i)
	{
		const vh_event& e = *vh_log_at(i);
		if (e.type == Destroyed) ++destroyed[e.a];
		if (e.type == LockLive) VH_CHECK(!destroyed[e.a], "conc:lock-after-destruction", "object " << e.a << vs::DumpLog(Names));
	}
	for (int o = 0; o < objects; ++o)
		VH_CHECK(destroyed[o] == 1, "conc:destroyed-count", "object " << o << " destroyed " << destroyed[o] << " times" << vs::DumpLog(Names));
	vh_count("objects_tracked", objects);
	vh_distinct("traces", vh_log_hash());
}
VH_SCHED_SCENARIO(shared_race) { SharedRace(rng); }
VH_FREE_SCENARIO(free_shared_race) { vs_noise(40, 15); SharedRace(rng); vs_noise(0, 0); }

static void SelfRace(vh::Rng& rng)
{
	vh_log_clear();
	const int threads = 2 + rng.Below(3);
	self_count_ptr<SObj> first = make_self_count_ptr<SObj>(0);
	std::vector<self_count_ptr<SObj> > start[4];
	for (int i = 0; i < threads; ++i) start[i].push_back(first);
	std::vector<uint64_t> seeds; for (int i = 0; i < 4; ++i) seeds.push_back(rng.Next());
	first.reset();
	{
		vs::Threads th;
		for (int i = 0; i < threads; ++i)
			th.Add([&, i]()
			{
				vh::Rng r(seeds[i]);
				std::vector<self_count_ptr<SObj> > own; own.swap(start[i]);
				for (int k = 0, n = 2 + r.Below(6); k < n; ++k)
				{
					for (auto& p : own) Use(p);
					if (own.empty()) break;
					self_count_ptr<SObj>& p = own[r.Below(own.size())];
					switch (r.Below(4))
					{
					case 0: { self_count_ptr<SObj> c(p); own.push_back(c); break; }
					case 1: own.erase(own.begin() + r.Below(own.size())); break;
					case 2: { self_count_ptr<SObj> c(p->self_count_ptr_from_this()); own.push_back(std::move(c)); break; }
					case 3: VH_CHECK(p.use_count() >= 1 && (!p.unique() || own.size() == 1), "conc:self-use-count", p.use_count()); break;
					}
				}
				own.clear();
			});
		th.Join();
	}
	int destroyed = 0;
	for (uint32_t i = 0; i < vh_log_size(); ++i) destroyed += vh_log_at(i)->type == Destroyed;
	VH_CHECK(destroyed == 1, "conc:self-destroyed-count", destroyed << vs::DumpLog(Names));
	vh_distinct("traces", vh_log_hash());
}
VH_SCHED_SCENARIO(self_race) { SelfRace(rng); }
VH_FREE_SCENARIO(free_self_race) { vs_noise(40, 15); SelfRace(rng); vs_noise(0, 0); }

VH_SCENARIO(unique_array)
{
	Census census; g_census = &census;
	struct E { int id; static int& Next() { static int n = 0; return n; } E() : id(Next()++) { g_census->Built(id); } ~E() { g_census->Destroyed(id); } };
	E::Next() = 0;
	vh::Trace t;
	{
		unique_ptr<E[]> a[3]; std::vector<int> m[3];
		for (int i = 0, n = rng.Below(30); i < n; ++i)
		{
			const int x = rng.Below(3), y = rng.Below(3);
			const unsigned op = rng.Below(6);
			t << " " << op << ":" << x << y;
			switch (op)
			{
			case 0: { const size_t k = 1 + rng.Below(5); const int from = E::Next(); a[x] = make_unique_ptr<E[]>(k); m[x].clear(); for (size_t j = 0; j < k; ++j) m[x].push_back(from + j); break; }
			case 1: a[x] = std::move(a[y]); if (x != y) { m[x] = m[y]; m[y].clear(); } break;
			case 2: a[x].swap(a[y]); m[x].swap(m[y]); break;
			case 3: a[x].reset(); m[x].clear(); break;
			case 4: { const size_t k = 1 + rng.Below(3); const int from = E::Next(); a[x].reset(new E[k]); m[x].clear(); for (size_t j = 0; j < k; ++j) m[x].push_back(from + j); break; }
			case 5: { E* p = a[x].release(); delete[] p; m[x].clear(); break; }
			}
			std::set<int> alive; for (auto& v : m) alive.insert(v.begin(), v.end());
			for (int id = 0; id < (int)census.state.size(); ++id) VH_CHECK(census.state[id] == (alive.count(id) ? 1 : 2), "census:array", "element " << id << ":" << t.Str());
			for (int k = 0; k < 3; ++k) { VH_CHECK(a[k].is_initialized() == !m[k].empty(), "array:state", t.Str()); for (size_t j = 0; j < m[k].size(); ++j) VH_CHECK(a[k][j].id == m[k][j], "array:element", t.Str()); }
		}
	}
	for (int id = 0; id < (int)census.state.size(); ++id) VH_CHECK(census.state[id] == 2, "census:array-leak", "element " << id << ":" << t.Str());
	vh_distinct("histories", vh::HashStr(t.Str()));
	g_census = 0;
}
