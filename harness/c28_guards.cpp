// C28: scope guards, holders, tokens, containers of tokens, undo transactions. Monitors: the list of actions run is compared with
// a model of owners after every operation; exactly-once checks over recorded events in concurrent programs.
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/string/ToString.h>
#include "vsx.h"
#include "sk.h"
#include <stingraykit/ActionTransaction.h>
#include <stingraykit/Finalizer.h>
#include <stingraykit/FunctionToken.h>
#include <stingraykit/Holder.h>
#include <stingraykit/MultiToken.h>
#include <stingraykit/ObjectPool.h>
#include <stingraykit/ObjectToken.h>
#include <stingraykit/ScopeExit.h>
#include <stingraykit/Token.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>
#include <stingraykit/thread/ThreadlessTaskExecutor.h>
#include <stingraykit/log/Logger.h>
#include <algorithm>
#include <atomic>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <vector>

using namespace stingray;

namespace {
	std::vector<int> Ran;                   // the actions run so far
	std::string Show(const std::vector<int>& v) { std::ostringstream s; for (int x : v) s << " " << x; return s.str(); }
	struct Quiet { LogLevel l; Quiet() : l(Logger::GetLogLevel()) { Logger::SetLogLevel(LogLevel::Error); } ~Quiet() { Logger::SetLogLevel(l); } };

	int FailAfter = -1;                     // allocations left before one fails (-1: never), in the harness thread only
	int Failed = 0;
}

#if defined(__has_feature)
#	if __has_feature(thread_sanitizer)
#		define UNDER_TSAN 1
#	endif
#endif
#if !defined(UNDER_TSAN) && !defined(__SANITIZE_THREAD__)
void* operator new(size_t n) { if (FailAfter >= 0 && FailAfter-- == 0) { ++Failed; throw std::bad_alloc(); } void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif

// ---------------------------------------------------------------- scope guards
namespace {
	struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") { } };

	void Act(int id, bool fails) { Ran.push_back(id); if (fails) throw Boom(); }

	// generated nested scopes: `expected` gets the actions in the order in which they have to run
	struct Scopes
	{
		vh::Rng& r; std::vector<int> expected; int next; vh::Trace t;
		explicit Scopes(vh::Rng& r_) : r(r_), next(0) { }
		bool Fails() { return r.Chance(1, 8); }

		void Macro1(int depth)
		{
			int id = next++; bool fails = Fails();
			{
				struct Expect { Scopes& s; int id; ~Expect() { s.expected.push_back(id); } };
				STINGRAYKIT_SCOPE_EXIT(MK_PARAM(int, id), MK_PARAM(bool, fails))
					Act(id, fails);
				STINGRAYKIT_SCOPE_EXIT_END;
				Expect e{ *this, id }; // runs right before the guard
				Body(depth);
			}
		}
		void Macro0(int depth)
		{
			static int current; const int saved = current; current = next++;
			struct Restore { int v; ~Restore() { current = v; } } restore{ saved };
			int mine = current;
			STINGRAYKIT_SCOPE_EXIT(MK_PARAM(int, mine))
				Act(mine, false);
			STINGRAYKIT_SCOPE_EXIT_END;
			struct Expect { Scopes& s; int id; ~Expect() { s.expected.push_back(id); } } e{ *this, mine };
			Body(depth);
			if (r.Chance(1, 6)) return;
			Body(depth);
		}
		void Macro3(int depth)
		{
			int id = next++; bool fails = Fails(); Scopes* self = this;
			STINGRAYKIT_SCOPE_EXIT(MK_PARAM(int, id), MK_PARAM(bool, fails), MK_PARAM(Scopes*, self))
				self->expected.push_back(id);
				Act(id, fails);
			STINGRAYKIT_SCOPE_EXIT_END;
			Body(depth);
		}
		void Invokers(int depth)
		{
			std::list<std::unique_ptr<ScopeExitInvoker> > guards; std::list<std::pair<int, bool> > ids; // destroyed in order
			struct Expect { Scopes& s; std::list<std::pair<int, bool> >& ids; ~Expect() { for (auto& i : ids) if (i.second) s.expected.push_back(i.first); } };
			std::list<std::unique_ptr<ScopeExitInvoker> >* pg = &guards;
			struct Destroy { std::list<std::unique_ptr<ScopeExitInvoker> >* g; ~Destroy() { while (!g->empty()) g->pop_front(); } } d{ pg };
			Expect e{ *this, ids };
			for (int n = 1 + (int)r.Below(4); n; --n)
			{
				const int id = next++; const bool fails = Fails();
				function<void ()> f = sk::Task([id, fails]() { Act(id, fails); });
				guards.push_back(std::unique_ptr<ScopeExitInvoker>(r.Bool() ? new ScopeExitInvoker(f) : new ScopeExitInvoker(std::move(f))));
				ids.push_back(std::make_pair(id, true));
				if (r.Chance(1, 3)) Body(depth);
				if (r.Chance(1, 4)) { guards.back()->Cancel(); if (r.Bool()) guards.back()->Cancel(); ids.back().second = false; }
			}
			Body(depth);
		}
		void Body(int depth)
		{
			if (r.Chance(1, 9)) { t << " throw"; throw Boom(); }
			if (depth <= 0) return;
			t << " {";
			const bool caught = r.Chance(1, 3);
			try
			{
				switch (r.Below(4)) { case 0: Macro1(depth - 1); break; case 1: Macro0(depth - 1); break; case 2: Macro3(depth - 1); break; default: Invokers(depth - 1); }
			}
			catch (const Boom&) { if (!caught) throw; t << " caught"; }
			t << " }";
		}
	};
}

VH_SCENARIO(scope_guards)
{
	Quiet q; Ran.clear();
	Scopes s(rng);
	try { s.Body(4); } catch (const Boom&) { }
	VH_CHECK(Ran == s.expected, "guards:order", "ran" << Show(Ran) << ", expected" << Show(s.expected) << ":" << s.t.Str());
	vh_distinct("scopes", vh::HashStr(s.t.Str() + Show(Ran)));
	vh_count("actions", Ran.size());
}

// ---------------------------------------------------------------- holders
namespace {
	template < typename H, typename V > struct Ops
	{
		static void Set(H& h, int v) { h.Set(V(v)); }
		static int Get(const H& h) { return h.Get(); }
	};

	template < typename H, typename MakeEmpty, typename MakeFull >
	void Holders(vh::Rng& rng, const char* name, const MakeEmpty& makeEmpty, const MakeFull& makeFull, bool shared)
	{
		vh::Trace t; t << name;
		std::map<int, int> cleaned;           // by the cleanup
		std::set<int> released;
		std::set<int> failing;
		struct M { int value; bool valid; };
		std::vector<std::shared_ptr<H> > hs; std::vector<std::shared_ptr<M> > ms;
		int next = 1;
		H* current = 0; bool reenter = false;
		auto cleanup = sk::F<void (int)>([&](int v)
		{
			++cleaned[v];
			if (reenter && current) { if (cleaned[v] < 3) current->Clear(); }
			if (failing.count(v)) throw Boom();
		});
		std::set<int> due;                    // those which have to be cleaned by now
		auto fresh = [&]() { const int v = next++; if (rng.Chance(1, 5)) failing.insert(v); return v; };
		for (int n = 2 + (int)rng.Below(14); n; --n)
		{
			const size_t i = hs.empty() ? 0 : rng.Below((unsigned)hs.size());
			unsigned op = rng.Below(shared ? 7 : 6);
			if (hs.empty()) op = rng.Below(2);
			current = 0; reenter = false;
			switch (op)
			{
			case 0: t << " new"; hs.push_back(std::shared_ptr<H>(makeEmpty(cleanup))); ms.push_back(std::shared_ptr<M>(new M{ 0, false })); break;
			case 1: { const int v = fresh(); t << " new(" << v << ")"; hs.push_back(std::shared_ptr<H>(makeFull(v, cleanup))); ms.push_back(std::shared_ptr<M>(new M{ v, true })); break; }
			case 2: {
				const int v = fresh(); t << " set#" << i << "(" << v << ")";
				const bool mustFail = ms[i]->valid && failing.count(ms[i]->value);
				if (ms[i]->valid) due.insert(ms[i]->value);
				if (rng.Chance(1, 6)) { reenter = true; current = hs[i].get(); t << " reentrant"; }
				bool thrown = false;
				try { Ops<H, int>::Set(*hs[i], v); } catch (const Boom&) { thrown = true; }
				VH_CHECK(thrown == mustFail, std::string("holder:exception:") + name, t.Str());
				if (thrown)
				{
					// the new one stays with the caller, or is held: not both
					if (hs[i]->Valid()) { VH_CHECK(hs[i]->Get() == v, std::string("holder:stale:") + name, t.Str()); ms[i]->value = v; ms[i]->valid = true; }
					else ms[i]->valid = false;
				}
				else { ms[i]->value = v; ms[i]->valid = true; }
				break; }
			case 3: {
				t << " clear#" << i;
				const bool mustFail = ms[i]->valid && failing.count(ms[i]->value);
				if (ms[i]->valid) due.insert(ms[i]->value);
				if (rng.Chance(1, 6)) { reenter = true; current = hs[i].get(); t << " reentrant"; }
				bool thrown = false;
				try { hs[i]->Clear(); } catch (const Boom&) { thrown = true; }
				VH_CHECK(thrown == mustFail, std::string("holder:exception:") + name, t.Str());
				ms[i]->valid = false;
				break; }
			case 4: case 5: {
				t << " destroy#" << i;
				long same = 0; for (auto& m : ms) same += m == ms[i];
				if (same == 1 && ms[i]->valid) due.insert(ms[i]->value);
				hs.erase(hs.begin() + i); ms.erase(ms.begin() + i);
				break; }
			default: t << " copy#" << i; { std::shared_ptr<H> c; makeEmpty.Copy(*hs[i], c); hs.push_back(c); ms.push_back(ms[i]); } break;
			}
			current = 0; reenter = false;
			for (size_t k = 0; k < hs.size(); ++k)
			{
				VH_CHECK(hs[k]->Valid() == ms[k]->valid, std::string("holder:valid:") + name, "holder " << k << ":" << t.Str());
				if (ms[k]->valid) VH_CHECK(hs[k]->Get() == ms[k]->value, std::string("holder:value:") + name, "holder " << k << " has " << hs[k]->Get() << ":" << t.Str());
			}
			if (op == 4 || op == 5) { }
			else if (!hs.empty() && rng.Chance(1, 5) && makeEmpty.CanRelease())
			{
				const size_t k = rng.Below((unsigned)hs.size());
				if (ms[k]->valid) { t << " release#" << k; const int v = makeEmpty.Release(*hs[k]); VH_CHECK(v == ms[k]->value, std::string("holder:released:") + name, v << ":" << t.Str()); ms[k]->valid = false; released.insert(v); }
			}
			for (int v : due) VH_CHECK(cleaned.count(v), std::string("holder:not-cleaned:") + name, "value " << v << ":" << t.Str());
			for (auto& c : cleaned) VH_CHECK(c.second == 1 && due.count(c.first) && !released.count(c.first), std::string("holder:cleaned:") + name, "value " << c.first << " was cleaned " << c.second << " times:" << t.Str());
		}
		hs.clear();
		for (auto& m : ms) if (m->valid) due.insert(m->value);
		for (int v : due) VH_CHECK(cleaned[v] == 1, std::string("holder:at-end:") + name, "value " << v << " was cleaned " << cleaned[v] << " times:" << t.Str());
		VH_CHECK(cleaned.size() == due.size(), std::string("holder:extra:") + name, t.Str());
		vh_distinct("holder_histories", vh::HashStr(t.Str()));
		vh_count("cleanups", cleaned.size());
	}

	typedef function<void (int)> Cleanup;
	struct ScopedEmpty
	{
		ScopedHolder<int>* operator () (const Cleanup& c) const { return new ScopedHolder<int>(c); }
		template < typename H > void Copy(const H&, std::shared_ptr<H>&) const { }
		bool CanRelease() const { return true; }
		int Release(ScopedHolder<int>& h) const { return h.Release(); }
	};
	struct SharedEmpty
	{
		SharedHolder<int>* operator () (const Cleanup& c) const { return new SharedHolder<int>(c); }
		void Copy(const SharedHolder<int>& h, std::shared_ptr<SharedHolder<int> >& c) const { c.reset(new SharedHolder<int>(h)); }
		bool CanRelease() const { return false; }
		int Release(SharedHolder<int>&) const { return 0; }
	};
	// holders without a value: the value is kept beside them
	template < typename H_ > struct VoidH
	{
		std::shared_ptr<int> v; H_ h;
		static function<void ()> Wrap(const std::shared_ptr<int>& v, const Cleanup& c) { return sk::Task([v, c]() { c(*v); }); }
		VoidH(const Cleanup& c) : v(new int(0)), h(Wrap(v, c)) { }
		VoidH(int x, const Cleanup& c, bool inCtor) : v(new int(x)), h(Make(Wrap(v, c), inCtor, (H_*)0)) { if (!inCtor) h.Set(); }
		VoidH(const VoidH& o) : v(o.v), h(o.h) { }
		static ScopedHolder<void> Make(const function<void ()>& f, bool, ScopedHolder<void>*);
		static SharedHolder<void> Make(const function<void ()>& f, bool valid, SharedHolder<void>*) { return valid ? SharedHolder<void>::CreateInitialized(f) : SharedHolder<void>(f); }
		bool Valid() const { return h.Valid(); }
		int Get() const { return *v; }
		void Clear() { h.Clear(); }
		void Set(int x)
		{
			// the old value is cleaned up while it is still seen
			struct Assign { int& v; int x; ~Assign() { v = x; } } a{ *v, x };
			h.Set();
		}
	};
	struct ScopedVoid
	{
		std::shared_ptr<int> v; ScopedHolder<void> h;
		ScopedVoid(const Cleanup& c) : v(new int(0)), h(VoidH<SharedHolder<void> >::Wrap(v, c)) { }
		ScopedVoid(int x, const Cleanup& c, bool) : v(new int(x)), h(VoidH<SharedHolder<void> >::Wrap(v, c), true) { }
		bool Valid() const { return h.Valid(); }
		int Get() const { return *v; }
		void Clear() { h.Clear(); }
		void Set(int x) { struct Assign { int& v; int x; ~Assign() { v = x; } } a{ *v, x }; h.Set(); }
	};
	template < typename H > struct VoidEmpty
	{
		H* operator () (const Cleanup& c) const { return new H(c); }
		void Copy(const ScopedVoid&, std::shared_ptr<ScopedVoid>&) const { }
		template < typename T > void Copy(const T& h, std::shared_ptr<T>& c) const { c.reset(new T(h)); }
		bool CanRelease() const { return false; }
		int Release(H&) const { return 0; }
	};
}

VH_SCENARIO(holders)
{
	Quiet q;
	switch (rng.Below(4))
	{
	case 0: Holders<ScopedHolder<int> >(rng, "scoped", ScopedEmpty(), [](int v, const Cleanup& c) { return new ScopedHolder<int>(v, c); }, false); break;
	case 1: Holders<SharedHolder<int> >(rng, "shared", SharedEmpty(), [](int v, const Cleanup& c) { return new SharedHolder<int>(v, c); }, true); break;
	case 2: Holders<ScopedVoid>(rng, "scoped-void", VoidEmpty<ScopedVoid>(), [](int v, const Cleanup& c) { return new ScopedVoid(v, c, true); }, false); break;
	default: { const bool inCtor = rng.Bool(); Holders<VoidH<SharedHolder<void> > >(rng, "shared-void", VoidEmpty<VoidH<SharedHolder<void> > >(), [inCtor](int v, const Cleanup& c) { return new VoidH<SharedHolder<void> >(v, c, inCtor); }, true); break; }
	}
	if (rng.Chance(1, 20))
	{
		int n = 0; ScopedHolder<int> h(sk::F<void (int)>([&](int) { ++n; }));
		int refused = 0;
		try { h.Get(); } catch (const std::exception&) { ++refused; }
		try { h.Release(); } catch (const std::exception&) { ++refused; }
		SharedHolder<int> s;
		VH_CHECK(refused == 2 && !s.Valid() && n == 0, "holder:empty", refused << " refused, " << n << " cleaned");
	}
	vh_count("histories", 1);
}

// ---------------------------------------------------------------- tokens
namespace {
	// the model: nodes with counts of owners
	struct Node { int id; int refs; bool fails; std::vector<Node*> children; Node(int i, bool f) : id(i), refs(0), fails(f) { } };
	struct Model
	{
		std::list<Node> nodes; std::vector<int> ran;
		Node* Leaf(int id, bool fails) { nodes.push_back(Node(id, fails)); return &nodes.back(); }
		Node* Multi() { nodes.push_back(Node(-1, false)); return &nodes.back(); }
		void Add(Node* n) { if (n) ++n->refs; }
		void Release(Node* n) { if (!n || --n->refs) return; if (n->id >= 0) ran.push_back(n->id); for (Node* c : n->children) Release(c); }
	};
	struct Owned { int id; bool alive; Owned(int i) : id(i), alive(true) { } Owned(const Owned& o) : id(o.id), alive(true) { } Owned(Owned&& o) : id(o.id), alive(o.alive) { o.alive = false; } ~Owned() { if (alive) Ran.push_back(id); } };
	struct Functor : public function_info<void ()> { int id; Functor(int i, bool f, const std::shared_ptr<int>& p) : id(i), fails(f), payload(p) { } bool fails; std::shared_ptr<int> payload; void operator () () const { Ran.push_back(id); if (fails) throw Boom(); } };
}

VH_SCENARIO(tokens)
{
	Quiet q; Ran.clear();
	Model m; vh::Trace t; int next = 0;
	const size_t Slots = 5;
	std::vector<Token> slots(Slots); std::vector<Node*> mslots(Slots, (Node*)0);
	std::unique_ptr<TokenHolder> holder(new TokenHolder); Node* mholder = 0;
	std::unique_ptr<TokenPool> pool(new TokenPool); std::vector<Node*> mpool;
	std::unique_ptr<ThreadlessTokenPool> tpool(new ThreadlessTokenPool); std::vector<Node*> mtpool;
	std::unique_ptr<TokenMap<int> > map(new TokenMap<int>); std::multimap<int, Node*> mmap;
	std::unique_ptr<ThreadlessTokenMap<std::string> > tmap(new ThreadlessTokenMap<std::string>); std::multimap<std::string, Node*> mtmap;
	std::vector<shared_ptr<Owned> > ptrs; std::vector<Node*> mptrs;
	std::vector<weak_ptr<Owned> > weaks;
	size_t seen = 0;
	auto key = [](int k) { return std::string(1, (char)('a' + k)); };

	for (int n = 4 + (int)rng.Below(40); n; --n)
	{
		const size_t i = rng.Below(Slots), j = rng.Below(Slots); const int k = (int)rng.Below(3);
		bool ordered = true;
		switch (rng.Below(24))
		{
		case 0: case 1: case 2: case 3: case 4: {
			const int id = next++; const bool fails = rng.Chance(1, 10);
			t << " new#" << i << "=" << id;
			Node* nd = m.Leaf(id, fails);
			const Functor f(id, fails, std::shared_ptr<int>(new int(id)));
			Token tok = rng.Bool() ? MakeFunctionToken(f) : MakeFunctionToken(sk::Task([f]() { f(); }));
			m.Add(nd);
			VH_CHECK(tok.IsInitialized() && Ran.size() == seen, "token:early", "action " << id << " ran when its token was made:" << t.Str());
			if (rng.Bool()) slots[i] = tok; else slots[i] = std::move(tok);
			m.Release(mslots[i]); mslots[i] = nd;
			break; }
		case 5: { const int id = next++; t << " object#" << i << "=" << id; Node* nd = m.Leaf(id, false); m.Add(nd);
			std::unique_ptr<Owned> o(new Owned(id));
			slots[i] = rng.Bool() ? MakeObjectToken(std::shared_ptr<Owned>(std::move(o))) : MakeObjectToken(std::move(o));
			m.Release(mslots[i]); mslots[i] = nd; break; }
		case 6: t << " copy#" << i << "=#" << j; m.Add(mslots[j]); slots[i] = slots[j]; m.Release(mslots[i]); mslots[i] = mslots[j]; break;
		case 7: t << " set#" << i << "=#" << j; m.Add(mslots[j]); slots[i].Set(slots[j]); m.Release(mslots[i]); mslots[i] = mslots[j]; break;
		case 8: if (i == j) break; t << " move#" << i << "=#" << j; if (rng.Bool()) slots[i] = std::move(slots[j]); else slots[i].Set(std::move(slots[j])); m.Release(mslots[i]); mslots[i] = mslots[j]; mslots[j] = 0; break;
		case 9: case 10: t << " reset#" << i; if (rng.Bool()) slots[i].Reset(); else if (rng.Bool()) slots[i] = null; else slots[i] = Token(); m.Release(mslots[i]); mslots[i] = 0; break;
		case 11: t << " holder=#" << i; m.Add(mslots[i]); if (rng.Bool()) holder->Set(slots[i]); else *holder = slots[i]; m.Release(mholder); mholder = mslots[i]; break;
		case 12: t << " holder<-#" << i; if (rng.Bool()) holder->Set(std::move(slots[i])); else *holder = std::move(slots[i]); m.Release(mholder); mholder = mslots[i]; mslots[i] = 0; break;
		case 13: t << " holder-reset"; if (rng.Bool()) holder->Reset(); else holder.reset(new TokenHolder(null)); m.Release(mholder); mholder = 0; break;
		case 14: case 15: {
			const bool move = rng.Bool(); t << " pools+=#" << i << move; m.Add(mslots[i]); m.Add(mslots[i]);
			if (rng.Bool()) { *tpool += slots[i]; *pool += slots[i]; } else if (!move) { tpool->Add(slots[i]); pool->Add(slots[i]); }
			else { tpool->Add(slots[i]); pool->Add(std::move(slots[i])); m.Release(mslots[i]); mtpool.push_back(mslots[i]); mpool.push_back(mslots[i]); mslots[i] = 0; break; }
			mtpool.push_back(mslots[i]); mpool.push_back(mslots[i]);
			break; }
		case 16: t << " release-pool"; ordered = false; if (rng.Chance(1, 3)) pool.reset(new TokenPool); else pool->Release(); for (Node* x : mpool) m.Release(x); mpool.clear(); break;
		case 17: t << " release-tpool"; ordered = false; if (rng.Chance(1, 3)) tpool.reset(new ThreadlessTokenPool); else tpool->Release(); for (Node* x : mtpool) m.Release(x); mtpool.clear(); break;
		case 18: case 19: {
			const bool move = rng.Bool(); t << " maps[" << k << "]+=#" << i << move; m.Add(mslots[i]); m.Add(mslots[i]);
			mmap.insert(std::make_pair(k, mslots[i])); mtmap.insert(std::make_pair(key(k), mslots[i]));
			(*map)[k] += slots[i];
			if (move) { (*tmap)[key(k)] += std::move(slots[i]); m.Release(mslots[i]); mslots[i] = 0; } else { const std::string ks = key(k); (*tmap)[ks] += slots[i]; }
			break; }
		case 20: t << " release-map[" << k << "]"; ordered = false; { map->release(k); auto r = mmap.equal_range(k); for (auto it = r.first; it != r.second; ++it) m.Release(it->second); mmap.erase(k); } break;
		case 21: t << " release-tmap[" << k << "]"; ordered = false; if (rng.Chance(1, 4)) { tmap->release_all(); for (auto& x : mtmap) m.Release(x.second); mtmap.clear(); map->release_all(); for (auto& x : mmap) m.Release(x.second); mmap.clear(); }
			else { tmap->release(key(k)); auto r = mtmap.equal_range(key(k)); for (auto it = r.first; it != r.second; ++it) m.Release(it->second); mtmap.erase(key(k)); } break;
		case 22: {
			// a token made of tokens releases them in the order of its kind
			const bool forward = rng.Bool(); Node* nd = m.Multi(); m.Add(nd);
			t << " multi#" << i << "=" << (forward ? "f" : "r");
			ForwardMultiTokenBuilder fb; ReverseMultiTokenBuilder rb;
			for (int c = (int)rng.Below(5); c; --c)
			{
				const size_t s = rng.Below(Slots); const bool move = rng.Bool();
				t << (move ? "<#" : "%#") << s;
				m.Add(mslots[s]); nd->children.push_back(mslots[s]);
				if (move) { if (forward) fb % std::move(slots[s]); else rb % std::move(slots[s]); m.Release(mslots[s]); mslots[s] = 0; }
				else { if (forward) fb % slots[s]; else rb % slots[s]; }
			}
			if (!forward) std::reverse(nd->children.begin(), nd->children.end());
			if (rng.Chance(1, 8)) { t << " abandoned"; { ForwardMultiTokenBuilder x(std::move(fb)); ReverseMultiTokenBuilder y(std::move(rb)); } m.Release(nd); break; }
			Token tok = forward ? Token(fb) : Token(rb);
			if (rng.Chance(1, 10))
			{
				int refused = 0;
				try { if (forward) fb % slots[0]; else rb % slots[0]; } catch (const std::exception&) { ++refused; }
				try { Token again = forward ? Token(fb) : Token(rb); } catch (const std::exception&) { ++refused; }
				VH_CHECK(refused == 2, "token:multi-reused", refused);
			}
			slots[i] = std::move(tok); m.Release(mslots[i]); mslots[i] = nd;
			break; }
		default: {
			// pointers with tokens attached: tokens are released before the object is destroyed
			if (!ptrs.empty() && rng.Bool())
			{
				const size_t p = rng.Below((unsigned)ptrs.size());
				t << " drop-ptr" << p;
				ptrs.erase(ptrs.begin() + p); m.Release(mptrs[p]); mptrs.erase(mptrs.begin() + p);
				break;
			}
			const int id = next++; t << " attach(" << id << ")";
			shared_ptr<Owned> p = make_shared_ptr<Owned>(id);
			const bool keepOriginal = rng.Chance(1, 4);
			Node* object = m.Leaf(id, false); Node* nd = object;
			if (keepOriginal) { m.Add(object); ptrs.push_back(p); mptrs.push_back(object); }
			if (rng.Bool())
			{
				shared_ptr<Owned> a = p;
				for (int c = 1 + (int)rng.Below(2); c; --c)
				{
					const size_t s = rng.Below(Slots); t << "#" << s;
					Node* att = m.Multi(); m.Add(mslots[s]); att->children.push_back(mslots[s]); m.Add(nd); att->children.push_back(nd); nd = att;
					if (rng.Bool()) a = AttachToken(a, slots[s]); else { a = AttachToken(a, std::move(slots[s])); m.Release(mslots[s]); mslots[s] = 0; }
				}
				p = a;
			}
			else
			{
				TokenAttacher<Owned> at(p);
				for (int c = 1 + (int)rng.Below(2); c; --c)
				{
					const size_t s = rng.Below(Slots); t << "%#" << s;
					Node* att = m.Multi(); m.Add(mslots[s]); att->children.push_back(mslots[s]); m.Add(nd); att->children.push_back(nd); nd = att;
					if (rng.Bool()) at % slots[s]; else { at % std::move(slots[s]); m.Release(mslots[s]); mslots[s] = 0; }
				}
				p = at;
			}
			VH_CHECK(p->id == id, "token:attached", "another object");
			if (rng.Bool()) weaks.push_back(weak_ptr<Owned>(p));
			m.Add(nd); ptrs.push_back(p); mptrs.push_back(nd); p.reset();
			break; }
		}
		std::vector<int> got(Ran.begin() + seen, Ran.end()), want(m.ran.begin() + seen, m.ran.end());
		if (!ordered) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
		VH_CHECK(got == want, ordered ? "token:ran" : "token:released", "ran" << Show(got) << ", expected" << Show(want) << ":" << t.Str());
		if (!ordered) m.ran = Ran;
		seen = Ran.size();
		for (size_t s = 0; s < Slots; ++s) VH_CHECK(slots[s].IsInitialized() == (mslots[s] != 0) && (bool)slots[s] == (mslots[s] != 0), "token:initialized", "slot " << s << ":" << t.Str());
		VH_CHECK(pool->Empty() == mpool.empty() && tpool->Empty() == mtpool.empty(), "token:pool-empty", t.Str());
		VH_CHECK(map->contains(k) == (mmap.count(k) != 0) && tmap->contains(key(k)) == (mtmap.count(key(k)) != 0), "token:map-contains", t.Str());
	}
	slots.clear(); holder.reset(); pool.reset(); tpool.reset(); map.reset(); tmap.reset(); ptrs.clear();
	for (auto& w : weaks) VH_CHECK(!w.lock(), "token:attached-alive", t.Str());
	std::vector<int> all = Ran; std::sort(all.begin(), all.end());
	std::vector<int> want; for (int i = 0; i < next; ++i) want.push_back(i);
	VH_CHECK(all == want, "token:at-end", "ran" << Show(all) << " of " << next << ":" << t.Str());
	vh_distinct("token_histories", vh::HashStr(t.Str()));
	vh_count("actions", Ran.size());
}

// actions which use the containers that are releasing them
VH_SCENARIO(token_reentrancy)
{
	Quiet q; Ran.clear(); int next = 0; vh::Trace t;
	{
		bool closing = false; int depth = 0;
		std::function<Token ()> make; std::function<void ()> act;
		struct C { Token slot; TokenHolder holder; TokenPool pool; ThreadlessTokenPool tpool; TokenMap<int> map; ThreadlessTokenMap<int> tmap; shared_ptr<int> ptr; };
		std::unique_ptr<C> containers(new C);
		Token& slot = containers->slot; TokenHolder& holder = containers->holder; TokenPool& pool = containers->pool; ThreadlessTokenPool& tpool = containers->tpool;
		TokenMap<int>& map = containers->map; ThreadlessTokenMap<int>& tmap = containers->tmap; shared_ptr<int>& ptr = containers->ptr;
		act = [&]() {
			if (closing || depth > 3) return;
			++depth;
			const int k = (int)rng.Below(3);
			switch (rng.Below(18))
			{
			case 0: t << " [reset]"; slot.Reset(); break;
			case 1: t << " [slot=]"; slot = make(); break;
			case 2: t << " [holder=]"; holder.Set(make()); break;
			case 3: t << " [holder-reset]"; holder.Reset(); break;
			case 4: t << " [pool+]"; pool.Add(make()); break;
			case 5: t << " [pool-release]"; pool.Release(); break;
			case 6: t << " [tpool+]"; tpool.Add(make()); break;
			case 7: t << " [tpool-release]"; tpool.Release(); break;
			case 8: t << " [map+]"; map[k] += make(); break;
			case 9: t << " [map-release]"; map.release(k); break;
			case 10: t << " [map-all]"; map.release_all(); break;
			case 11: case 12: t << " [tmap+]"; tmap[k] += make(); break;
			case 13: t << " [tmap-release]"; tmap.release(k); break;
			case 14: t << " [tmap-all]"; tmap.release_all(); break;
			case 15: t << " [contains]"; map.contains(k); tmap.contains(k); pool.Empty(); tpool.Empty(); break;
			case 16: t << " [attach]"; ptr = AttachToken(make_shared_ptr<int>(1), make()); break;
			default: t << " [ptr-reset]"; ptr.reset(); break;
			}
			--depth;
		};
		make = [&]() { const int id = next++; return MakeFunctionToken(sk::Task([&, id]() { Ran.push_back(id); act(); })); };
		for (int n = 3 + (int)rng.Below(20); n; --n)
		{
			const int k = (int)rng.Below(3);
			switch (rng.Below(14))
			{
			case 0: t << " slot="; slot = make(); break;
			case 1: t << " reset"; slot.Reset(); break;
			case 2: t << " holder="; holder = make(); break;
			case 3: t << " pool+"; pool += make(); break;
			case 4: t << " pool-release"; pool.Release(); break;
			case 5: t << " tpool+"; tpool += make(); break;
			case 6: t << " tpool-release"; tpool.Release(); break;
			case 7: t << " map+"; map[k] += make(); break;
			case 8: t << " map-release"; map.release(k); break;
			case 9: case 10: t << " tmap+"; tmap[k] += make(); break;
			case 11: t << " tmap-release"; tmap.release(k); break;
			case 12: t << " tmap-all"; tmap.release_all(); break;
			default: t << " attach"; ptr = AttachToken(make_shared_ptr<int>(1), make()); break;
			}
		}
		closing = true;
		containers.reset();
	}
	std::vector<int> all = Ran; std::sort(all.begin(), all.end());
	std::vector<int> want; for (int i = 0; i < next; ++i) want.push_back(i);
	VH_CHECK(all == want, "token:reentrancy", "ran" << Show(Ran) << " of " << next << ":" << t.Str());
	vh_distinct("reentrancy", vh::HashStr(t.Str()));
	vh_count("actions", Ran.size());
}

// ---------------------------------------------------------------- transactions
VH_SCENARIO(transactions)
{
	Quiet q; Ran.clear(); vh::Trace t;
	std::vector<int> done;                    // performed and not undone: the model
	std::map<int, int> performed, undone;
	std::vector<int> expectedUndone;
	bool committed = false; int next = 0;
	std::set<int> badUndo; int allocFailures = 0;
	{
		std::unique_ptr<ActionTransaction> tr(new ActionTransaction); bool active = true;
		std::function<void (int)> execute = [&](int depth)
		{
			const int id = next++;
			const int kind = (int)rng.Below(8);   // 0: fails before anything; 1: nested; 2: no memory after the action
			if (rng.Chance(1, 7)) badUndo.insert(id);
			t << " do" << id << (kind == 0 ? "!" : kind == 1 ? "(" : "");
			auto action = sk::Task([&, id, kind, depth]() {
				if (kind == 0) throw Boom();
				if (kind == 1 && depth < 3) { if (rng.Bool()) { try { execute(depth + 1); } catch (const Boom&) { t << " caught"; } } else execute(depth + 1); t << " )"; }
				++performed[id]; done.push_back(id);
				if (kind == 2 && depth == 0) FailAfter = 0;
			});
			auto undo = sk::Task([&, id]() { ++undone[id]; Ran.push_back(id); if (badUndo.count(id)) throw Boom(); });
			const bool last = true; (void)last;
			try { tr->Execute(action, undo); } catch (const std::bad_alloc&) { if (kind != 2) throw; ++allocFailures; t << " no-memory"; FailAfter = -1; return; } catch (...) { FailAfter = -1; throw; }
			FailAfter = -1;
		};
		for (int n = (int)rng.Below(9); n && active; --n)
		{
			switch (rng.Below(10))
			{
			case 0: t << " commit"; tr->Commit(); committed = true; active = false; break;
			case 1: {
				t << " rollback";
				bool thrown = false;
				try { tr->Rollback(); } catch (const Boom&) { thrown = true; }
				// undoes from the last one, up to the one which failed
				while (!done.empty()) { const int id = done.back(); done.pop_back(); expectedUndone.push_back(id); if (thrown && badUndo.count(id)) break; }
				VH_CHECK(Ran == expectedUndone, "transaction:rollback", "undone" << Show(Ran) << ", expected" << Show(expectedUndone) << ":" << t.Str());
				active = thrown;
				break; }
			default: try { execute(0); } catch (const Boom&) { t << " failed"; } break;
			}
			VH_CHECK(Ran == expectedUndone, "transaction:undone-early", "undone" << Show(Ran) << ":" << t.Str());
		}
		if (!active && rng.Chance(1, 4))
		{
			int refused = 0;
			try { tr->Execute(sk::Task([&]() { performed[-1] = 1; }), sk::Task([&]() { ++undone[-1]; })); } catch (const std::exception&) { ++refused; }
			try { tr->Commit(); } catch (const std::exception&) { ++refused; }
			try { tr->Rollback(); } catch (const std::exception&) { ++refused; }
			VH_CHECK(refused == 3 && !performed.count(-1), "transaction:inactive", refused << " of 3 refused:" << t.Str());
		}
		if (!committed) while (!done.empty()) { expectedUndone.push_back(done.back()); done.pop_back(); }
		t << " end";
		if (rng.Bool()) tr.reset();
	}
	VH_CHECK(Ran == expectedUndone, committed ? "transaction:committed" : "transaction:undone", "undone" << Show(Ran) << ", expected" << Show(expectedUndone) << ":" << t.Str());
	for (auto& u : undone) VH_CHECK(u.second == 1 && performed[u.first] == 1, "transaction:count", "action " << u.first << " was undone " << u.second << " times:" << t.Str());
	vh_distinct("transactions", vh::HashStr(t.Str()));
	vh_count("undone", Ran.size());
	vh_count("allocation_failures", allocFailures);
}

// ---------------------------------------------------------------- concurrent use
namespace {
	enum { RunAction = 1, Given };
	void OnceEach(const char* name, int total)
	{
		std::map<int64_t, int> runs;
		for (uint32_t i = 0, n = vh_log_size(); i < n; ++i) if (vh_log_at(i)->type == RunAction) ++runs[vh_log_at(i)->a];
		for (int i = 0; i < total; ++i) VH_CHECK(runs[i] == 1, std::string("once:") + name, "action " << i << " of " << total << " ran " << runs[i] << " times");
		VH_CHECK((int)runs.size() == total, std::string("once:unknown:") + name, runs.size() << " of " << total);
		vh_distinct("traces", vh_log_hash());
		vh_count("actions_checked", total);
	}

	void Containers(vh::Rng& rng)
	{
		vh_log_clear();
		std::atomic<int> next(0); std::atomic<int>* pn = &next;
		{
			TokenHolder holder; TokenPool pool; TokenMap<int> map; vs::Mutex shared; Token common;
			TokenHolder* ph = &holder; TokenPool* pp = &pool; TokenMap<int>* pm = &map; vs::Mutex* psm = &shared; Token* pc = &common;
			vs::Threads ts;
			for (int i = 0; i < 3; ++i)
			{
				const uint64_t rs = rng.Next();
				ts.Add([=]() {
					vh::Rng r(rs);
					auto make = [&](uint64_t s) {
						const int id = (*pn)++;
						return MakeFunctionToken(sk::Task([=]() {
							vh_log(RunAction, id, 0, 0);
							if (s % 5 == 0)
							{
								// another thread uses the same container meanwhile: a lock held around this would block both
								vs::Thread t([=]() { ph->Set(null); pp->Empty(); pm->contains(1); });
								t.Join();
							}
						}));
					};
					std::vector<Token> own;
					for (int n = 2 + (int)r.Below(4); n; --n)
					{
						switch (r.Below(10))
						{
						case 0: ph->Set(make(r.Next())); break;
						case 1: ph->Reset(); break;
						case 2: case 3: { const Token t = make(r.Next()); pp->Add(t); own.push_back(t); break; }
						case 4: pp->Release(); break;
						case 5: (*pm)[(int)r.Below(2)] += make(r.Next()); break;
						case 6: pm->release((int)r.Below(2)); break;
						case 7: pm->release_all(); break;
						case 8: { Token t; { vs::Lock l(*psm); t = *pc; } vs::Pause(r); break; }
						default: { Token t = make(r.Next()); { vs::Lock l(*psm); std::swap(t, *pc); } break; }
						}
						vs::Pause(r);
					}
				});
			}
			ts.Join();
			map.release_all(); pool.Release(); holder.Reset(); common.Reset();
		}
		OnceEach("containers", next);
	}

	struct Counted { int id; explicit Counted(int i) : id(i) { } ~Counted() { vh_log(RunAction, id, 0, 0); } };

	void Pools(vh::Rng& rng)
	{
		vh_log_clear();
		int total = 2 + (int)rng.Below(5);
		{
			ObjectPool pool; ObjectPool* pp = &pool;
			std::vector<shared_ptr<Counted> > objs; for (int i = 0; i < total; ++i) objs.push_back(make_shared_ptr<Counted>(i));
			vs::Threads ts;
			for (int i = 0; i < 2; ++i)
			{
				std::vector<shared_ptr<Counted> > mine; for (int k = i; k < total; k += 2) mine.push_back(objs[k]);
				const uint64_t rs = rng.Next();
				std::shared_ptr<std::vector<shared_ptr<Counted> > > pmine(new std::vector<shared_ptr<Counted> >(mine)); mine.clear();
				ts.Add([=]() { vh::Rng r(rs); for (auto& o : *pmine) { pp->AddObject(o); vs::Pause(r); VH_CHECK(o->id >= 0, "pool:gone", "an object in use was collected"); o.reset(); vs::Pause(r); } });
			}
			objs.clear();
			const uint64_t rs = rng.Next();
			ts.Add([=]() { vh::Rng r(rs); for (int n = 2 + (int)r.Below(4); n; --n) { pp->CollectGarbage(); vs::Pause(r); } });
			ts.Join();
			const shared_ptr<Counted> kept = make_shared_ptr<Counted>(total++);
			pool.AddObject(kept);
			pool.CollectGarbage();
			std::set<int64_t> dead; for (uint32_t i = 0, n = vh_log_size(); i < n; ++i) dead.insert(vh_log_at(i)->a);
			VH_CHECK((int)dead.size() == total - 1 && !dead.count(total - 1), "pool:collected", dead.size() << " objects of " << total << " are gone");
		}
		OnceEach("pool", total);

		// deletion in another thread
		vh_log_clear();
		const int n = 1 + (int)rng.Below(4);
		{
			const shared_ptr<ThreadTaskExecutor> ex = make_shared_ptr<ThreadTaskExecutor>("finalizer", null);
			vs::Threads ts;
			for (int i = 0; i < n; ++i)
			{
				shared_ptr<Counted> p(new Counted(i), Finalizer(ex));
				std::shared_ptr<shared_ptr<Counted> > h(new shared_ptr<Counted>(p)); p.reset();
				const uint64_t rs = rng.Next();
				for (int c = 0; c < 2; ++c) { std::shared_ptr<shared_ptr<Counted> > copy(new shared_ptr<Counted>(*h)); ts.Add([=]() { vh::Rng r(rs); vs::Pause(r); copy->reset(); }); }
				h->reset();
			}
			ts.Join();
		}
		OnceEach("finalizer", n);
	}
}

VH_SCHED_SCENARIO(token_threads) { Containers(rng); }
VH_SCHED_SCENARIO(pool_threads) { Pools(rng); }
VH_FREE_SCENARIO(free_tokens) { vs_noise(30, 20); Containers(rng); Pools(rng); vs_noise(0, 0); }
