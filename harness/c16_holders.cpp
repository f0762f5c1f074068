// C16: optional, variant, any, inplace_vector, array and IntrusiveList with counted elements whose operations can throw at every point.
#include "vh.h"
#include "sk.h"
#include <stingraykit/optional.h>
#include <stingraykit/variant.h>
#include <stingraykit/any.h>
#include <stingraykit/factory/Factory.h>
#include <stingraykit/collection/inplace_vector.h>
#include <stingraykit/collection/IntrusiveList.h>
#include <list>
#include <map>
#include <memory>

using namespace stingray;

void stingray::Factory::RegisterTypes(const FactoryContextPtr&) { }   // the application defines it

namespace {
	struct Fault : std::runtime_error { Fault() : std::runtime_error("injected") { } };
	struct Odd { };   // not a std::exception

	// census of the elements alive in this case
	struct Census
	{
		std::map<const void*, int> live; int countdown; bool odd; uint64_t thrown, made;
		Census() : countdown(-1), odd(false), thrown(0), made(0) { }
		void Point() { if (countdown < 0 || countdown-- != 0) return; ++thrown; if (odd) throw Odd(); throw Fault(); }
		void Born(const void* p, int kind) { ++made; if (!live.insert(std::make_pair(p, kind)).second) vh_violation("holders:built-twice", "an element was constructed over a live one"); }
		void Dead(const void* p, int kind) { const auto i = live.find(p); if (i == live.end() || i->second != kind) vh_violation("holders:destroyed-twice", "an element that is not alive was destroyed"); else live.erase(i); }
		void Used(const void* p, int kind) { const auto i = live.find(p); if (i == live.end() || i->second != kind) vh_violation("holders:dead-element-used", "an element that is not alive was used"); }
		void Arm(int n, bool o) { countdown = n; odd = o; }
		void Disarm() { countdown = -1; }
	};
	Census* C;
	unsigned Tick;

	const int MovedOut = -1;
	struct Tagged { int v; explicit Tagged(int v_) : v(v_) { } };   // elements convert from it, but only explicitly
	template < int Kind, int Align = 8 >
	struct alignas(Align) Elem
	{
		int v; char* heap;
		void Own() { heap = new char('x'); C->Born(this, Kind); }
		Elem() : v(0) { C->Point(); Own(); }
		Elem(int v_) : v(v_) { C->Point(); Own(); }
		explicit Elem(const Tagged& t) : v(t.v) { C->Point(); Own(); }
		Elem(int a, int b) : v(a + b) { C->Point(); Own(); }
		Elem(std::initializer_list<int> l, int b) : v(b) { for (int i : l) v += i; C->Point(); Own(); }
		Elem(const Elem& o) : v(o.v) { C->Used(&o, Kind); C->Point(); Own(); }
		Elem(Elem&& o) : v(o.v) { C->Used(&o, Kind); C->Point(); o.v = MovedOut; Own(); }
		Elem& operator = (const Elem& o) { C->Used(this, Kind); C->Used(&o, Kind); C->Point(); v = o.v; return *this; }
		Elem& operator = (Elem&& o) { C->Used(this, Kind); C->Used(&o, Kind); C->Point(); const int n = o.v; o.v = MovedOut; v = n; return *this; }
		~Elem() { C->Dead(this, Kind); delete heap; heap = nullptr; v = -77; }
		bool operator == (const Elem& o) const { C->Used(this, Kind); C->Used(&o, Kind); return v == o.v; }
		bool operator < (const Elem& o) const { C->Used(this, Kind); C->Used(&o, Kind); return v < o.v; }
		bool operator != (const Elem& o) const { return !(*this == o); }
		std::string ToString() const { return "e" + std::to_string(v); }
	};
	typedef Elem<1> E;

	// runs an operation with the faults armed; false when it threw
	template < typename F > bool Try(vh::Trace& t, const F& f)
	{
		try { f(); C->Disarm(); return true; }
		catch (const Fault&) { t << "!std "; }
		catch (const Odd&) { t << "!odd "; }
		C->Disarm(); vh_count("element failures", 1); return false;
	}
	void MaybeArm(vh::Rng& rng, vh::Trace& t, int outOf, int points) { if (!rng.Chance(1, outOf)) return; const int n = (int)rng.Below(points); const bool odd = rng.Chance(1, 3); t << "arm" << n << " "; C->Arm(n, odd); }
	struct Session { Census c; Session() { C = &c; Tick = 0; } ~Session() { if (!c.live.empty() && !vh_violated()) vh_violation("holders:leak", (std::to_string(c.live.size()) + " elements were never destroyed").c_str()); vh_count("elements", c.made); C = nullptr; } };

	// all six relations must follow from one order
	template < typename A, typename B > std::string Relations(const A& a, const B& b) { std::string r; r += a == b ? '=' : '.'; r += a != b ? '!' : '.'; r += a < b ? '<' : '.'; r += a > b ? '>' : '.'; r += a <= b ? '[' : '.'; r += a >= b ? ']' : '.'; return r; }
	std::string Expected(int c) { return c == 0 ? "=...[]" : c < 0 ? ".!<.[." : ".!.>.]"; }
}

#define IFAULTS(n_) MaybeArm(rng, t, 4, n_)

VH_SCENARIO(optional_model)
{
	Session session; vh::Trace t;
	struct Slot { bool has; int v; };
	std::unique_ptr<optional<E> > o[3]; Slot m[3];
	for (int i = 0; i < 3; ++i) { o[i].reset(new optional<E>()); m[i] = { false, 0 }; }
	const auto resync = [&](int i) { m[i].has = o[i]->is_initialized(); if (m[i].has) m[i].v = o[i]->get().v; };
	for (int step = 0; step < 60 && !vh_violated(); ++step)
	{
		const int i = (int)rng.Below(3), j = (int)rng.Below(3), v = 1 + (int)rng.Below(9), op = (int)rng.Below(22);
		const Slot before[3] = { m[0], m[1], m[2] };
		bool ok = true, mayEmpty = false;
		t << op << "(" << i << "," << j << "," << v << ") ";
		switch (op)
		{
		case 0: { const E e(v); IFAULTS(2); ok = Try(t, [&] { *o[i] = e; }); if (ok) m[i] = { true, v }; break; }
		case 1: { E e(v); IFAULTS(2); ok = Try(t, [&] { *o[i] = std::move(e); }); if (ok) { m[i] = { true, v }; VH_CHECK(e.v == MovedOut, "optional:not-moved", t.Str()); } else VH_CHECK(e.v == v, "optional:source-lost", t.Str()); break; }
		case 2: IFAULTS(3); ok = Try(t, [&] { *o[i] = v; }); if (ok) m[i] = { true, v }; break;
		case 3: IFAULTS(2); ok = Try(t, [&] { *o[i] = *o[j]; }); if (ok) m[i] = m[j]; break;
		case 4: IFAULTS(2); ok = Try(t, [&] { *o[i] = std::move(*o[j]); }); if (ok && i != j) { m[i] = m[j]; if (m[j].has) { VH_CHECK(o[j]->is_initialized() && o[j]->get().v == MovedOut, "optional:move-source", t.Str()); m[j].v = MovedOut; } } else if (ok && m[i].has) resync(i); break;
		case 5: if (rng.Bool()) o[i]->reset(); else *o[i] = null; m[i].has = false; break;
		case 6: IFAULTS(2); mayEmpty = true; ok = Try(t, [&] { o[i]->emplace(v, 100); }); if (ok) m[i] = { true, v + 100 }; break;
		case 7: IFAULTS(2); mayEmpty = true; ok = Try(t, [&] { o[i]->emplace({ v, v }, 3); }); if (ok) m[i] = { true, v + v + 3 }; break;
		case 8: IFAULTS(4); ok = Try(t, [&] { if (rng.Bool()) o[i]->swap(*o[j]); else { using std::swap; swap(*o[i], *o[j]); } }); if (ok) std::swap(m[i], m[j]); break;
		case 9: IFAULTS(2); ok = Try(t, [&] { optional<E> copy(*o[j]); VH_CHECK(copy.is_initialized() == m[j].has && (!m[j].has || copy->v == m[j].v), "optional:copy", t.Str()); o[i].reset(new optional<E>(std::move(copy))); }); if (ok) m[i] = m[j]; break;
		case 10: { optional<int> src; if (rng.Chance(2, 3)) src = v; IFAULTS(3); ok = Try(t, [&] { if (rng.Bool()) *o[i] = src; else { optional<int> s2(src); *o[i] = std::move(s2); } }); if (ok) m[i] = { src.is_initialized(), v }; break; }
		case 11: { optional<int> src; if (rng.Chance(2, 3)) src = v; IFAULTS(3); ok = Try(t, [&] { const optional<E> made = rng.Bool() ? optional<E>(src) : optional<E>(optional<int>(src)); VH_CHECK(made.is_initialized() == src.is_initialized() && (!src || made->v == v), "optional:converting", t.Str()); }); break; }
		case 12: { optional<Tagged> src; if (rng.Chance(2, 3)) src = Tagged(v); IFAULTS(2); ok = Try(t, [&] { const optional<E> made(src); VH_CHECK(made.is_initialized() == src.is_initialized() && (!src || made->v == v), "optional:explicit-converting", t.Str()); }); break; }
		case 13:
			IFAULTS(3);
			ok = Try(t, [&] { const E got = ((const optional<E>&)*o[i]).get_value_or(v); VH_CHECK(got.v == (m[i].has ? m[i].v : v), "optional:value-or", got.v << "; " << t.Str()); }); break;
		case 14:
			IFAULTS(3);
			ok = Try(t, [&] { const E got = std::move(*o[i]).get_value_or(v); VH_CHECK(got.v == (m[i].has ? m[i].v : v), "optional:value-or", got.v << "; " << t.Str()); }); if (ok && m[i].has) { VH_CHECK(o[i]->get().v == MovedOut, "optional:value-or-moves", t.Str()); m[i].v = MovedOut; } break;
		case 15:
			{
				int calls = 0; const auto f = sk::F<optional<int> (const E&)>([&](const E& e) { ++calls; return e.v % 2 ? optional<int>(e.v * 2) : optional<int>(); });
				const optional<int> r = rng.Bool() ? o[i]->and_then(f) : ((const optional<E>&)*o[i]).and_then(f);
				VH_CHECK(calls == (m[i].has ? 1 : 0) && r.is_initialized() == (m[i].has && m[i].v % 2) && (!r || *r == m[i].v * 2), "optional:and-then", t.Str()); break;
			}
		case 16:
			{
				int calls = 0; const auto f = sk::F<std::string (const E&)>([&](const E& e) { ++calls; return std::to_string(e.v); });
				const optional<std::string> r = rng.Bool() ? o[i]->transform(f) : ((const optional<E>&)*o[i]).transform(f);
				VH_CHECK(calls == (m[i].has ? 1 : 0) && r.is_initialized() == m[i].has && (!r || *r == std::to_string(m[i].v)), "optional:transform", t.Str()); break;
			}
		case 17:
			{
				int calls = 0; const auto f = sk::F<optional<E> ()>([&] { ++calls; return v % 2 ? optional<E>(v) : optional<E>(); });
				const bool rvalue = rng.Bool(); IFAULTS(5);
				ok = Try(t, [&] { const optional<E> r = rvalue ? std::move(*o[i]).or_else(f) : ((const optional<E>&)*o[i]).or_else(f);
					VH_CHECK(calls == (m[i].has ? 0 : 1) && r.is_initialized() == (m[i].has || v % 2) && (!r || r->v == (m[i].has ? m[i].v : v)), "optional:or-else", t.Str()); });
				if (m[i].has && rvalue) { VH_CHECK(o[i]->get().v == MovedOut || !ok, "optional:or-else-moves", t.Str()); m[i].v = o[i]->get().v; } break;
			}
		case 18: if (!m[i].has) { bool threw = false; try { std::move(*o[i]).get(); } catch (const NotInitializedException&) { threw = true; } VH_CHECK(threw, "optional:empty-access", t.Str()); break; } IFAULTS(2); ok = Try(t, [&] { const E got(std::move(*o[i]).get()); VH_CHECK(m[i].has && got.v == m[i].v, "optional:rvalue-get", t.Str()); if (m[i].has) m[i].v = MovedOut; });
			break;
		case 19: { const optional<E> made(InPlace, v, 5), listed(InPlace, { v, v }, 5); const optional<E> n(null); VH_CHECK(made->v == v + 5 && listed->v == v + v + 5 && !n && make_optional_value(v).get() == v && make_optional_value<E>(v, 1)->v == v + 1 && make_optional_value<E>({ v, 1 }, 1)->v == v + 2, "optional:made", t.Str()); break; }
		case 20: { if (m[i].has) { if (rng.Bool()) { IFAULTS(2); ok = Try(t, [&] { *o[i] = o[i]->get(); }); } else { o[i]->get().v = v; m[i].v = v; } } break; }
		default: // comparisons
			{
				optional<int> a, b; optional<long> l; if (m[i].has) a = m[i].v; if (m[j].has) { b = m[j].v; l = m[j].v; }
				const int c = !a ? (b ? -1 : 0) : !b ? 1 : *a < *b ? -1 : *a > *b, cv = !a ? -1 : *a < v ? -1 : *a > v;
				VH_CHECK(Relations(a, b) == Expected(c), "optional:compare", Relations(a, b) << " for " << c << "; " << t.Str());
				VH_CHECK(Relations(a, l) == Expected(c), "optional:compare-types", Relations(a, l) << " for " << c << "; " << t.Str());
				VH_CHECK(Relations(a, v) == Expected(cv) && Relations(v, a) == Expected(-cv), "optional:compare-value", Relations(a, v) << Relations(v, a) << " for " << cv << "; " << t.Str());
				VH_CHECK(Relations(a, null) == Expected(a ? 1 : 0) && Relations(null, a) == Expected(a ? -1 : 0), "optional:compare-null", t.Str());
				VH_CHECK(a.Compare(b) == c && a.Compare(null) == (a ? 1 : 0) && a.Compare(v) == cv, "optional:compare-member", t.Str());
				const auto cmp = MakeOptionalCmp(comparers::Cmp());
				VH_CHECK(cmp(a, b) == c && cmp(a, null) == (a ? 1 : 0) && cmp(null, a) == (a ? -1 : 0) && cmp(a, v) == cv && cmp(v, a) == -cv, "optional:cmp", t.Str());
				VH_CHECK((*o[i] == *o[j]) == (c == 0) && (*o[i] < *o[j]) == (c < 0), "optional:compare-elements", t.Str());
			}
		}
		if (!ok)
		{
			for (int x : { i, j })
			{
				const bool has = o[x]->is_initialized(); const bool had = before[x].has;
				VH_CHECK(has == had || (mayEmpty && !has), "optional:state-after-failure", x << " " << had << "->" << has << "; " << t.Str());
				if (has) { const int now = o[x]->get().v; VH_CHECK(now == MovedOut || (before[i].has && now == before[i].v) || (before[j].has && now == before[j].v), "optional:value-after-failure", now << "; " << t.Str()); }
				resync(x);
			}
		}
		size_t held = 0;
		for (int x = 0; x < 3; ++x)
		{
			VH_CHECK(o[x]->is_initialized() == m[x].has && bool(*o[x]) == m[x].has, "optional:presence", x << "; " << t.Str());
			if (vh_violated()) return;
			if (m[x].has) { ++held; C->Used(o[x]->get_ptr(), 1); VH_CHECK((**o[x]).v == m[x].v && (*o[x])->v == m[x].v && ((const optional<E>&)*o[x]).get().v == m[x].v, "optional:value", (*o[x])->v << " instead of " << m[x].v << "; " << t.Str()); }
			else { int threw = 0; try { o[x]->get(); } catch (const NotInitializedException&) { ++threw; } try { ((const optional<E>&)*o[x])->ToString(); } catch (const NotInitializedException&) { ++threw; } VH_CHECK(threw == 2, "optional:empty-access", t.Str()); }
		}
		VH_CHECK(C->live.size() == held, "optional:census", C->live.size() << " instead of " << held << "; " << t.Str());
	}
	vh_distinct("optional histories", vh::HashStr(t.Str()));
}

namespace {
	struct Base { int v; explicit Base(int v_) : v(v_) { C->Born(this, 50); } Base(const Base& o) : v(o.v) { C->Used(&o, 50); C->Point(); C->Born(this, 50); } virtual ~Base() { C->Dead(this, 50); } virtual int Id() const { return 0; } };
	struct Other { long pad; Other() : pad(99) { } virtual ~Other() { } };
	struct Derived1 : Other, Base { explicit Derived1(int v) : Base(v) { } int Id() const override { return 1; } bool operator == (const Derived1& o) const { return v == o.v; } bool operator < (const Derived1& o) const { return v < o.v; } std::string ToString() const { return "d1:" + std::to_string(v); } };
	struct Derived2 : Base { explicit Derived2(int v) : Base(v) { } int Id() const override { return 2; } bool operator == (const Derived2& o) const { return v == o.v; } bool operator < (const Derived2& o) const { return v < o.v; } std::string ToString() const { return "d2:" + std::to_string(v); } };

	typedef Elem<2, 16> EA;
	typedef TypeList<E, EA, int, std::string, Derived1, Derived2> FullTypes;
	typedef TypeList<E, EA, int, std::string, Derived1, EmptyType, Derived2> EmptyableTypes;

	template < typename V > struct Kinds;
	template < > struct Kinds<variant<FullTypes> > { static const bool Emptyable = false; static size_t Which(int kind) { return kind; } };
	template < > struct Kinds<variant<EmptyableTypes> > { static const bool Emptyable = true; static size_t Which(int kind) { return kind == 6 ? 5 : kind == 5 ? 6 : kind; } };
	// kinds: 0 E, 1 EA, 2 int, 3 string, 4 Derived1, 5 Derived2, 6 empty

	std::string Text(int v) { return "text that does not fit inline " + std::to_string(v); }
	struct Describe : static_visitor<std::string>
	{
		std::string operator () (const E& e) const { C->Used(&e, 1); return "0:" + std::to_string(e.v); }
		std::string operator () (const EA& e) const { C->Used(&e, 2); return "1:" + std::to_string(e.v); }
		std::string operator () (int i) const { return "2:" + std::to_string(i); }
		std::string operator () (const std::string& s) const { return "3:" + s; }
		std::string operator () (const Derived1& d) const { return "4:" + std::to_string(d.v); }
		std::string operator () (const Derived2& d) const { return "5:" + std::to_string(d.v); }
		std::string operator () (const EmptyType&) const { return "6"; }
	};
	struct Bump : static_visitor<void>
	{
		int calls; Bump() : calls(0) { }
		void operator () (E& e) { ++calls; e.v += 1; }
		void operator () (EA& e) { ++calls; e.v += 1; }
		void operator () (int& i) { ++calls; i += 1; }
		void operator () (std::string& s) { ++calls; s += "+"; }
		void operator () (Derived1& d) { ++calls; d.v += 1; }
		void operator () (Derived2& d) { ++calls; d.v += 1; }
		void operator () (EmptyType&) { ++calls; }
	};

	struct Alt
	{
		int kind; int v; std::string s;
		static Alt Of(int k, int v) { Alt a = { k, v, k == 3 ? Text(v) : std::string() }; return a; }
		bool Counted() const { return kind == 0 || kind == 1 || kind == 4 || kind == 5; }
		std::string Show() const { return kind == 6 ? "6" : std::to_string(kind) + ":" + (kind == 3 ? s : std::to_string(v)); }
		std::string String() const { switch (kind) { case 0: case 1: return "e" + std::to_string(v); case 2: return std::to_string(v); case 3: return s; case 4: return "d1:" + std::to_string(v); default: return "d2:" + std::to_string(v); } }
		int Cmp(const Alt& o, size_t w, size_t ow) const { if (w != ow) return w < ow ? -1 : 1; return kind == 6 ? 0 : kind == 3 ? (s < o.s ? -1 : s > o.s) : (v < o.v ? -1 : v > o.v); }
		void MovedFrom() { if (kind <= 1) v = MovedOut; }
	};

	template < typename V > void Put(V& x, const Alt& a, bool move)
	{
		switch (a.kind)
		{
		case 0: { E e(a.v); if (move) x = std::move(e); else x = e; break; }
		case 1: { EA e(a.v); if (move) x = std::move(e); else x = e; break; }
		case 2: x = a.v; break;
		case 3: { std::string s(a.s); if (move) x = std::move(s); else x = (const std::string&)s; break; }
		case 4: { Derived1 d(a.v); x = d; break; }
		default: { const Derived2 d(a.v); x = d; break; }
		}
	}
	template < typename V > V* Make(const Alt& a)
	{
		switch (a.kind)
		{
		case 0: return new V(E(a.v));
		case 1: { EA e(a.v); return new V(e); }
		case 2: return new V(a.v);
		case 3: return new V(a.s);
		case 4: return new V(Derived1(a.v));
		default: { const Derived2 d(a.v); return new V(d); }
		}
	}
	template < typename V > void Emplace(V& x, const Alt& a)
	{
		switch (a.kind)
		{
		case 0: x.template emplace<E>(a.v - 7, 7); break;
		case 1: x.template emplace<EA>(a.v); break;
		case 2: x.template emplace<int>(a.v); break;
		case 3: x.template emplace<std::string>(a.s); break;
		case 4: x.template emplace<Derived1>(a.v); break;
		default: x.template emplace<Derived2>(a.v);
		}
	}

	template < typename T, typename V > void CheckGet(V& x, bool expected, vh::Trace& t)
	{
		if (!expected && ++Tick % 13) { VH_CHECK(!x.template get_ptr<T>() && !((const V&)x).template get_ptr<T>() && !x.template contains<T>(), "variant:get", Demangle(typeid(T).name()) << " not expected; " << t.Str()); return; }   // exceptions are costly here
		const V& c = x; bool threw = false, cthrew = false; const void* p = nullptr; const void* cp = nullptr;
		try { p = &x.template get<T>(); } catch (const bad_variant_get&) { threw = true; }
		try { cp = &c.template get<T>(); } catch (const std::bad_cast&) { cthrew = true; }
		VH_CHECK(threw == !expected && cthrew == !expected && p == cp && p == x.template get_ptr<T>() && cp == c.template get_ptr<T>() && (p != nullptr) == expected && c.template contains<T>() == expected && p == variant_get<T>(&x) && cp == variant_get<T>(&c), "variant:get", Demangle(typeid(T).name()) << " expected " << expected << "; " << t.Str());
	}
	template < typename V, typename F > void CheckEmpty(V& x, bool expected, vh::Trace& t, const F&) { VH_CHECK(x.empty() == expected && !x.empty() == !expected, "variant:empty", t.Str()); }

	template < typename V > std::string StringOf(const V& x, const Alt& a, std::true_type) { return a.kind == 6 ? "" : x.ToString(); }

	template < typename V > void VariantModel(vh::Rng& rng, const char* name)
	{
		typedef Kinds<V> K;
		Session session; vh::Trace t;
		std::unique_ptr<V> x[3]; Alt m[3];
		for (int i = 0; i < 3; ++i) { x[i].reset(new V()); m[i] = Alt::Of(K::Emptyable ? 6 : 0, 0); }
		const auto anyAlt = [&] { return Alt::Of((int)rng.Below(6), (int)rng.Below(6)); };
		for (int step = 0; step < 50 && !vh_violated(); ++step)
		{
			const int i = (int)rng.Below(3), j = (int)rng.Below(3), op = (int)rng.Below(10);
			Alt a = anyAlt(); bool ok = true; const Alt beforeI = m[i], beforeJ = m[j];
			t << op << "(" << i << "," << j << "," << a.Show().substr(0, 2) << a.v << ") ";
			// an element failure inside a never-empty variant ends the process by design, so failures are injected in the other kind only
			#define VFAULTS(n_) if (K::Emptyable) MaybeArm(rng, t, 4, n_)
			switch (op)
			{
			case 0: case 1: { const bool mv = rng.Bool(); VFAULTS(3); ok = Try(t, [&] { Put(*x[i], a, mv); }); if (ok) m[i] = a; break; }
			case 2: VFAULTS(2); ok = Try(t, [&] { *x[i] = (const V&)*x[j]; }); if (ok) m[i] = m[j]; break;
			case 3: if (i == j) { *x[i] = std::move(*x[j]); m[i].v = m[i].v; if (x[i]->which() == K::Which(m[i].kind) && m[i].kind <= 1) m[i].v = m[i].kind == 0 ? x[i]->template get<E>().v : x[i]->template get<EA>().v; else if (m[i].kind == 3 && x[i]->which() == 3) m[i].s = x[i]->template get<std::string>(); break; }
				VFAULTS(2); ok = Try(t, [&] { *x[i] = std::move(*x[j]); }); if (ok) { m[i] = m[j]; m[j].MovedFrom(); if (m[j].kind == 3) m[j].s = x[j]->template get<std::string>(); } break;
			case 4: VFAULTS(3); ok = Try(t, [&] { V copy((const V&)*x[j]); x[i].reset(new V(std::move(copy))); }); if (ok) m[i] = m[j]; break;
			case 5: VFAULTS(2); ok = Try(t, [&] { Emplace(*x[i], a); }); if (ok) m[i] = a; break;
			case 6: VFAULTS(3); ok = Try(t, [&] { x[i].reset(Make<V>(a)); }); if (ok) m[i] = a; break;
			case 7:
				{
					Bump b; if (rng.Bool()) apply_visitor(b, *x[i]); else x[i]->ApplyVisitor(b);
					VH_CHECK(b.calls == 1, "variant:visits", b.calls << "; " << t.Str()); if (m[i].kind == 3) m[i].s += "+"; else if (m[i].kind != 6) ++m[i].v; break;
				}
			case 8:
				{
					const size_t w = K::Which(m[i].kind), ow = K::Which(m[j].kind);
					if (m[i].kind != 6 || m[j].kind != 6)
						VH_CHECK(Relations(*x[i], *x[j]) == Expected(m[i].Cmp(m[j], w, ow)), "variant:compare", m[i].Show() << " " << m[j].Show() << " " << Relations(*x[i], *x[j]) << "; " << t.Str());
					break;
				}
			default: { VFAULTS(4); ok = Try(t, [&] { std::swap(*x[i], *x[j]); }); if (ok && i != j) std::swap(m[i], m[j]); else if (ok) { m[i].v = m[i].kind == 0 ? x[i]->template get<E>().v : m[i].kind == 1 ? x[i]->template get<EA>().v : m[i].v; } break; }
			}
			if (!ok)
				for (int q : { i, j })
				{
					// valid: the old value, a moved-out one, or empty
					const std::string now = x[q]->ApplyVisitor(Describe()); Alt gone = q == i ? beforeI : beforeJ; const Alt was = gone; gone.MovedFrom(); const Alt& other = q == i ? beforeJ : beforeI;
					VH_CHECK(now == "6" || now == was.Show() || now == gone.Show() || (op == 9 && now == other.Show()) || was.kind == 3, "variant:state-after-failure", now << " was " << was.Show() << "; " << t.Str());
					if (now == "6") m[q] = Alt::Of(6, 0); else if (now[0] == '3') { m[q] = Alt::Of(3, 0); m[q].s = now.substr(2); } else m[q] = Alt::Of(now[0] - '0', atoi(now.c_str() + 2));
				}
			size_t counted = 0;
			for (int q = 0; q < 3 && !vh_violated(); ++q)
			{
				const V& c = *x[q];
				if (m[q].Counted()) ++counted;
				VH_CHECK(c.which() == K::Which(m[q].kind) && x[q]->empty() == (m[q].kind == 6), "variant:which", c.which() << " for " << m[q].Show() << "; " << t.Str());
				if (vh_violated()) return;
				VH_CHECK(c.ApplyVisitor(Describe()) == m[q].Show() && apply_visitor(Describe(), *x[q]) == m[q].Show() && make_visitor_applier(Describe())(c) == m[q].Show(), "variant:value", c.ApplyVisitor(Describe()) << " instead of " << m[q].Show() << "; " << t.Str());
				CheckGet<E>(*x[q], m[q].kind == 0, t); CheckGet<EA>(*x[q], m[q].kind == 1, t); CheckGet<int>(*x[q], m[q].kind == 2, t); CheckGet<std::string>(*x[q], m[q].kind == 3, t); CheckGet<Derived1>(*x[q], m[q].kind == 4, t); CheckGet<Base>(*x[q], m[q].kind == 4 || m[q].kind == 5, t); CheckGet<Other>(*x[q], m[q].kind == 4, t);
				if (const Base* b = c.template get_ptr<Base>()) { C->Used(b, 50); VH_CHECK(b->v == m[q].v && b->Id() == m[q].kind - 3, "variant:base", t.Str()); }
				if (const Other* b = c.template get_ptr<Other>()) VH_CHECK(b->pad == 99, "variant:second-base", t.Str());
				if (const EA* e = c.template get_ptr<EA>()) VH_CHECK((uintptr_t)e % 16 == 0, "variant:alignment", t.Str());
				const std::type_info* const types[] = { &typeid(E), &typeid(EA), &typeid(int), &typeid(std::string), &typeid(Derived1), &typeid(Derived2), &typeid(EmptyType) };
				VH_CHECK(c.type() == *types[m[q].kind], "variant:type", t.Str());
				if (m[q].kind != 6) VH_CHECK(StringOf(c, m[q], std::true_type()) == m[q].String(), "variant:to-string", t.Str());
			}
			VH_CHECK(C->live.size() == counted, "variant:census", C->live.size() << " instead of " << counted << "; " << t.Str());
		}
		vh_distinct(name, vh::HashStr(t.Str()));
	}
}

VH_SCENARIO(variant_model) { if (rng.Chance(1, 3)) VariantModel<variant<FullTypes> >(rng, "never-empty variant histories"); else VariantModel<variant<EmptyableTypes> >(rng, "variant histories"); }

namespace {
	typedef Elem<3> Obj;            // string-representable
	struct Plain { int v; explicit Plain(int v_) : v(v_) { C->Born(this, 60); } Plain(const Plain& o) : v(o.v) { C->Used(&o, 60); C->Point(); C->Born(this, 60); } ~Plain() { C->Dead(this, 60); } };

	template < typename T > void CheckCast(any& x, bool expected, const T& value, vh::Trace& t)
	{
		if (!expected && ++Tick % 29) { VH_CHECK(!any_cast<T>(&x) && !any_cast<T>(&(const any&)x), "any:cast", Demangle(typeid(T).name()) << " not expected; " << t.Str()); return; }   // exceptions are costly here
		const any& c = x; bool threw = false, cthrew = false; const void* p = nullptr; const void* cp = nullptr;
		try { p = &any_cast<T>(x); } catch (const bad_any_cast& e) { threw = true; VH_CHECK(strlen(e.what()) > 10, "any:message", t.Str()); }
		try { cp = &any_cast<T>(c); } catch (const std::bad_cast&) { cthrew = true; }
		VH_CHECK(threw == !expected && cthrew == !expected && p == cp && p == any_cast<T>(&x) && cp == any_cast<T>(&c) && (p != nullptr) == expected, "any:cast", Demangle(typeid(T).name()) << " expected " << expected << "; " << t.Str());
		if (expected && p) VH_CHECK(any_cast<T>(x) == value, "any:value", Demangle(typeid(T).name()) << "; " << t.Str());
	}
	struct AVal
	{
		int kind; long long v; std::string s;   // 0 empty, 1..13 scalars in declaration order, 14 string, 15 Obj, 16 Plain
		bool Counted() const { return kind >= 15; }
	};
	void AnyPut(any& x, const AVal& a, int how)
	{
#define PUT(Kind_, Type_) case Kind_: { const Type_ val = (Type_)a.v; if (how == 0) x = val; else if (how == 1) x = any(val); else { Type_ m = val; x = std::move(m); } break; }
		switch (a.kind)
		{
		case 0: x = any(); break;
		PUT(1, bool) PUT(2, char) PUT(3, unsigned char) PUT(4, short) PUT(5, unsigned short) PUT(6, int) PUT(7, unsigned) PUT(8, long) PUT(9, unsigned long) PUT(10, long long) PUT(11, unsigned long long) PUT(12, float) PUT(13, double)
		case 14: { std::string s(a.s); if (how == 0) x = (const std::string&)s; else if (how == 1) x = any(s); else x = std::move(s); break; }
		case 15: { Obj o((int)a.v); if (how == 0) x = (const Obj&)o; else if (how == 1) x = any(o); else x = std::move(o); break; }
		default: { const Plain p((int)a.v); if (how == 1) x = any(p); else x = p; break; }
		}
#undef PUT
	}
}

VH_SCENARIO(any_model)
{
	Session session; vh::Trace t;
	std::unique_ptr<any> x[3]; AVal m[3];
	for (int i = 0; i < 3; ++i) { x[i].reset(new any()); m[i] = { 0, 0, "" }; }
	for (int step = 0; step < 50 && !vh_violated(); ++step)
	{
		const int i = (int)rng.Below(3), j = (int)rng.Below(3), op = (int)rng.Below(8); bool ok = true;
		AVal a = { (int)(rng.Chance(1, 2) ? 14 + rng.Below(3) : rng.Below(14)), (long long)rng.Below(100), "" }; if (a.kind == 14) a.s = rng.Bool() ? "s" : Text((int)a.v); if (a.kind == 1) a.v &= 1;
		if (a.kind >= 8 && a.kind <= 11 && rng.Bool()) a.v = (long long)(rng.Next() >> 1); if ((a.kind == 6 || a.kind == 8 || a.kind == 10 || a.kind == 13) && rng.Bool()) a.v = -(a.v % 1000000);
		const AVal beforeI = m[i], beforeJ = m[j];
		t << op << "(" << i << "," << j << "," << a.kind << ":" << a.v << ") ";
		switch (op)
		{
		case 0: case 1: case 2: { const int how = (int)rng.Below(3); IFAULTS(4); ok = Try(t, [&] { AnyPut(*x[i], a, how); }); if (ok) m[i] = a; break; }
		case 3: case 4: IFAULTS(2); ok = Try(t, [&] { *x[i] = (const any&)*x[j]; }); if (ok) m[i] = m[j]; break;
		case 5: ok = Try(t, [&] { *x[i] = std::move(*x[j]); }); if (i != j) { m[i] = m[j]; if (x[j]->empty()) m[j] = { 0, 0, "" }; else VH_CHECK(false, "any:move-source", t.Str()); } else if (x[i]->empty()) m[i] = { 0, 0, "" }; break;
		case 6: IFAULTS(3); ok = Try(t, [&] { any copy((const any&)*x[j]); x[i].reset(new any(std::move(copy))); VH_CHECK(copy.empty(), "any:moved-ctor", t.Str()); }); if (ok) m[i] = m[j]; break;
		default: if (m[i].kind == 15) { any_cast<Obj>(*x[i]).v = 5; m[i].v = 5; } else if (m[i].kind == 14) { any_cast<std::string>(&*x[i])->append("!"); m[i].s += "!"; } else if (m[i].kind == 6) { any_cast<int>(*x[i]) = 42; m[i].v = 42; }
		}
		if (!ok)
		{
			const bool e = x[i]->empty();
			VH_CHECK(i == j || m[j].kind == beforeJ.kind, "any:other-changed", t.Str());
			if (e) m[i] = { 0, 0, "" };
		}
		size_t counted = 0;
		for (int q = 0; q < 3 && !vh_violated(); ++q)
		{
			if (m[q].Counted()) ++counted;
			VH_CHECK(x[q]->empty() == (m[q].kind == 0), "any:empty", q << " kind " << m[q].kind << "; " << t.Str());
			if (vh_violated()) return;
#define CAST(Kind_, Type_) CheckCast<Type_>(*x[q], m[q].kind == Kind_, (Type_)m[q].v, t);
			CAST(1, bool) CAST(2, char) CAST(3, unsigned char) CAST(4, short) CAST(5, unsigned short) CAST(6, int) CAST(7, unsigned) CAST(8, long) CAST(9, unsigned long) CAST(10, long long) CAST(11, unsigned long long) CAST(12, float) CAST(13, double)
#undef CAST
			CheckCast<std::string>(*x[q], m[q].kind == 14, m[q].s, t);
			if (m[q].kind == 15) { C->Used(any_cast<Obj>(&*x[q]), 3); VH_CHECK(any_cast<Obj>(*x[q]).v == m[q].v, "any:object", any_cast<Obj>(*x[q]).v << " instead of " << m[q].v << "; " << t.Str()); } else VH_CHECK(!any_cast<Obj>(&*x[q]), "any:object-cast", t.Str());
			if (m[q].kind == 16) { C->Used(any_cast<Plain>(&*x[q]), 60); VH_CHECK(any_cast<Plain>(*x[q]).v == m[q].v, "any:plain", t.Str()); } else VH_CHECK(!any_cast<Plain>(&*x[q]), "any:plain-cast", t.Str());
			std::string s;
			switch (m[q].kind)
			{
			case 0: s = "<empty>"; break;
			case 1: s = m[q].v ? "true" : "false"; break;
			case 2: s = std::string(1, (char)m[q].v); break;
			case 3: s = std::to_string((unsigned)(unsigned char)m[q].v); break;
			case 11: s = std::to_string((unsigned long long)m[q].v); break;
			case 12: case 13: s = x[q]->ToString(); break;
			case 14: s = m[q].s; break;
			case 15: s = "e" + std::to_string(m[q].v); break;
			case 16: s = "<not a string-representable type>"; break;
			default: s = std::to_string(m[q].v);
			}
			VH_CHECK(x[q]->ToString() == s, "any:to-string", x[q]->ToString() << " instead of " << s << "; " << t.Str());
			VH_CHECK(x[q]->IsSerializable() == (m[q].kind < 15), "any:serializable", t.Str());
		}
		VH_CHECK(C->live.size() == counted, "any:census", C->live.size() << " instead of " << counted << "; " << t.Str());
	}
	vh_distinct("any histories", vh::HashStr(t.Str()));
}

namespace {
	template < size_t N > void InplaceModel(vh::Rng& rng)
	{
		typedef inplace_vector<E, N> Vec;
		Session session; vh::Trace t; t << "capacity " << N << ": ";
		std::unique_ptr<Vec> x[2]; std::vector<int> m[2];
		x[0].reset(new Vec()); x[1].reset(new Vec());
		for (int step = 0; step < 60 && !vh_violated(); ++step)
		{
			const int i = (int)rng.Below(2), j = (int)rng.Below(2), v = 1 + (int)rng.Below(50), op = (int)rng.Below(16); bool ok = true;
			const std::vector<int> before[2] = { m[0], m[1] };
			t << op << "(" << i << "," << j << "," << v << ") ";
			switch (op)
			{
			case 0: case 1: { const E e(v); IFAULTS(6); ok = Try(t, [&] { x[i]->push_back(e); }); if (ok) m[i].push_back(v); break; }
			case 2: case 3: { E e(v); IFAULTS(6); ok = Try(t, [&] { x[i]->push_back(std::move(e)); }); if (ok) { m[i].push_back(v); VH_CHECK(e.v == MovedOut, "inplace:not-moved", t.Str()); } break; }
			case 4: case 5: IFAULTS(6); ok = Try(t, [&] { x[i]->emplace_back(v, 1); }); if (ok) m[i].push_back(v + 1); break;
			case 6: if (rng.Chance(1, 3)) { x[i]->clear(); m[i].clear(); } break;
			case 7: { std::vector<int> src; for (size_t n = rng.Below(2 * N + 3); n; --n) src.push_back((int)rng.Below(50)); std::list<int> l(src.begin(), src.end()); IFAULTS(8); ok = Try(t, [&] { if (v % 2) x[i]->assign(src.begin(), src.end()); else x[i]->assign(l.begin(), l.end()); }); if (ok) m[i] = src; else { const size_t n = x[i]->size(); VH_CHECK(n <= src.size(), "inplace:size-after-failure", t.Str()); src.resize(std::min(n, src.size())); m[i] = src; } ok = true; break; }
			case 8: IFAULTS(8); ok = Try(t, [&] { *x[i] = (const Vec&)*x[j]; }); if (ok) m[i] = m[j]; break;
			case 9: IFAULTS(4); if (i == j) C->Disarm(); ok = Try(t, [&] { *x[i] = std::move(*x[j]); }); if (ok && i != j) { m[i] = m[j]; VH_CHECK(x[j]->empty(), "inplace:move-source", t.Str()); m[j].clear(); } break;
			case 10: IFAULTS(10); ok = Try(t, [&] { Vec copy((const Vec&)*x[j]); if (v % 2) x[i].reset(new Vec(std::move(copy))); else x[i].reset(new Vec(copy)); }); if (ok) m[i] = m[j]; break;
			case 11: x[i]->reserve(rng.Below(3 * N)); break;
			case 12: if (!m[i].empty()) { const size_t at = rng.Below(m[i].size()); IFAULTS(2); ok = Try(t, [&] { if (v % 3 == 0) (*x[i])[at] = E(v); else if (v % 3 == 1) *(x[i]->begin() + at) = E(v); else x[i]->at(at) = E(v); }); if (ok) m[i][at] = v; } break;
			case 13: if (!m[i].empty()) { const size_t at = rng.Below(m[i].size()); IFAULTS(6); const int val = m[i][at]; ok = Try(t, [&] { x[i]->push_back((*x[i])[at]); }); if (ok) m[i].push_back(val); } break;
			case 14:
				{
					for (size_t at : { m[i].size(), m[i].size() + 1, (size_t)-1 }) { int threw = 0; try { x[i]->at(at); } catch (const std::exception&) { ++threw; } try { ((const Vec&)*x[i])[at]; } catch (const std::exception&) { ++threw; } VH_CHECK(threw == 2, "inplace:range", at << "; " << t.Str()); }
					break;
				}
			default:
				if (!m[i].empty())
				{
					const Vec& c = *x[i]; const ptrdiff_t a = (ptrdiff_t)rng.Below(m[i].size() + 1), b = (ptrdiff_t)rng.Below(m[i].size() + 1);
					typename Vec::const_iterator conv = x[i]->begin() + a;
					VH_CHECK(c.front().v == m[i].front() && c.back().v == m[i].back() && x[i]->front().v == m[i].front() && x[i]->back().v == m[i].back(), "inplace:ends", t.Str());
					VH_CHECK((c.begin() + b) - (c.begin() + a) == b - a && ((c.begin() + a) == (c.begin() + b)) == (a == b) && ((c.begin() + a) < (c.begin() + b)) == (a < b) && conv == c.cbegin() + a, "inplace:iterators", t.Str());
					size_t n = m[i].size(); for (auto r = c.rbegin(); r != c.rend(); ++r) { --n; if (r->v != m[i][n]) VH_CHECK(false, "inplace:reverse", t.Str()); }
					VH_CHECK(n == 0, "inplace:reverse-length", t.Str());
				}
			}
			if (!ok)
				for (int q : { i, j })
				{
					// valid: a prefix-preserving content made of the values that were there (possibly moved out) or nothing
					std::vector<int> now; for (const E& e : (const Vec&)*x[q]) now.push_back(e.v);
					bool fine = now.size() <= std::max(before[0].size(), before[1].size());
					if (op <= 5 || op == 12 || op == 13) { fine = now.size() == before[q].size(); for (size_t n = 0; fine && n < now.size(); ++n) fine = now[n] == before[q][n] || (now[n] == MovedOut && n >= N && op != 12); }
					if (op == 8 && q == j && i != j) fine = now == before[j];
					VH_CHECK(fine, "inplace:state-after-failure", t.Str()); m[q] = now;
				}
			for (int q = 0; q < 2 && !vh_violated(); ++q)
			{
				std::vector<int> now; for (const E& e : (const Vec&)*x[q]) { C->Used(&e, 1); now.push_back(e.v); }
				const auto show = [](const std::vector<int>& l) { std::string r; for (int e : l) r += std::to_string(e) + ","; return r; };
				VH_CHECK(now == m[q] && x[q]->size() == m[q].size() && x[q]->empty() == m[q].empty() && x[q]->capacity() >= std::max(N, m[q].size()), "inplace:content", show(now) << " instead of " << show(m[q]) << "; " << t.Str());
				for (size_t n = 0; n < m[q].size() && n < N && !vh_violated(); ++n)
				{ const char* p = (const char*)&(*x[q])[n]; VH_CHECK(p >= (const char*)x[q].get() && p + sizeof(E) <= (const char*)(x[q].get() + 1), "inplace:not-inline", t.Str()); }
			}
			VH_CHECK(C->live.size() == m[0].size() + m[1].size(), "inplace:census", C->live.size() << " instead of " << m[0].size() + m[1].size() << "; " << t.Str());
		}
		vh_distinct("inplace vector histories", vh::HashStr(t.Str()));
	}
}

VH_SCENARIO(inplace_model) { switch (rng.Below(4)) { case 0: InplaceModel<1>(rng); break; case 1: InplaceModel<2>(rng); break; case 2: InplaceModel<4>(rng); break; default: InplaceModel<9>(rng); } }

namespace {
	struct Node : IntrusiveListNode<Node> { int v; explicit Node(int v_) : v(v_) { } };
}

VH_SCENARIO(intrusive_and_array)
{
	vh::Trace t;
	{
		std::vector<std::unique_ptr<Node> > nodes; for (int i = 0; i < 10; ++i) nodes.emplace_back(new Node(i));
		IntrusiveList<Node> lists[2]; std::list<int> m[2]; int where[10]; for (int& w : where) w = -1;
		for (int step = 0; step < 60 && !vh_violated(); ++step)
		{
			const int n = (int)rng.Below(10), l = (int)rng.Below(2);
			t << n << (where[n] < 0 ? "+" : "-") << l << " ";
			if (where[n] < 0) { lists[l].push_back(*nodes[n]); m[l].push_back(n); where[n] = l; }
			else { lists[where[n]].erase(*nodes[n]); m[where[n]].remove(n); where[n] = -1; if (rng.Bool()) nodes[n].reset(new Node(n)); else if (rng.Chance(1, 4)) lists[l].erase(*nodes[n]); /* erasing an element that is in no list does nothing */ }
			for (int q = 0; q < 2; ++q)
			{
				std::list<int> now, cnow, back; for (Node& e : lists[q]) now.push_back(e.v);
				const IntrusiveList<Node>& c = lists[q]; for (IntrusiveList<Node>::const_iterator i = c.begin(); i != c.end(); ++i) cnow.push_back(i->v);
				for (IntrusiveList<Node>::iterator i = lists[q].end(); i != lists[q].begin(); ) back.push_front((--i)->v);
				VH_CHECK(now == m[q] && cnow == m[q] && back == m[q] && c.size() == m[q].size() && c.empty() == m[q].empty(), "intrusive:content", t.Str());
			}
		}
		for (int n = 0; n < 10; ++n) if (where[n] >= 0) lists[where[n]].erase(*nodes[n]);
		VH_CHECK(lists[0].empty() && lists[1].empty(), "intrusive:emptied", t.Str());
	}
	{
		const size_t N = 5; typedef array<int, N> A; int init[N]; for (int& i : init) i = (int)rng.Below(4);
		std::unique_ptr<A> a(new A(init)), b(new A()); std::vector<int> ma(init, init + N), mb(N, 0);
		for (int step = 0; step < 30 && !vh_violated(); ++step)
		{
			const int op = (int)rng.Below(7), v = (int)rng.Below(4); const size_t at = rng.Below(N); t << "a" << op << v << at << " ";
			switch (op)
			{
			case 0: a->at(at) = v; ma[at] = v; break;
			case 1: (*b)[at] = v; mb[at] = v; break;
			case 2: *a = *b; ma = mb; break;
			case 3: a->swap(*b); ma.swap(mb); break;
			case 4: b->fill(v); mb.assign(N, v); break;
			case 5: a->assign(*a); b.reset(new A(*a)); mb = ma; break;
			default: { int threw = 0; try { a->at(N + at); } catch (const std::exception&) { ++threw; } try { ((const A&)*a).at((size_t)-1 - at); } catch (const std::exception&) { ++threw; } VH_CHECK(threw == 2, "array:range", t.Str()); }
			}
			VH_CHECK(std::vector<int>(a->begin(), a->end()) == ma && std::vector<int>(b->cbegin(), b->cend()) == mb && a->front() == ma.front() && a->back() == ma.back() && a->size() == N && !a->empty() && a->data() == &a->front(), "array:content", t.Str());
			const int c = ma < mb ? -1 : ma > mb; VH_CHECK(Relations(*a, *b) == Expected(c), "array:compare", t.Str());
		}
	}
	vh_distinct("list and array histories", vh::HashStr(t.Str()));
}
