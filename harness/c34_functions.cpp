// C34: function objects, binders and tuples.
//
// Every target appends what it was called with to a record; the expected record is computed from the arguments directly. Arguments are counted
// objects with an identity, so that a copy of another argument, a moved-from or a destroyed one, a leak and a double destruction are seen.

#include <stingraykit/string/StringUtils.h>
#include <stingraykit/string/ToString.h>

#include <stingraykit/function/CancellableFunction.h>
#include <stingraykit/function/PackArguments.h>
#include <stingraykit/function/bind.h>
#include <stingraykit/function/function.h>
#include <stingraykit/function/functional.h>
#include <stingraykit/lazy.h>
#include <stingraykit/shared_ptr.h>
#include <stingraykit/unique_ptr.h>
#include <stingraykit/Tuple.h>
#include <stingraykit/reference.h>

#include "vh.h"
#include "sk.h"

#include <map>
#include <set>
#include <tuple>

using namespace stingray;

namespace
{

	struct Registry
	{
		std::set<const void*>	Live;
		int						Copies, Moves;

		Registry() : Copies(0), Moves(0) { }
	};
	Registry g_reg;

	struct Val
	{
		int		Id;
		bool	Moved;

		explicit Val(int id) : Id(id), Moved(false)									{ Born(); }
		Val(const Val& o) : Id(o.Id), Moved(o.Moved)								{ o.Alive(); Born(); ++g_reg.Copies; }
		Val(Val&& o) : Id(o.Id), Moved(o.Moved)										{ o.Alive(); o.Moved = true; Born(); ++g_reg.Moves; }
		Val& operator = (const Val& o)												{ Alive(); o.Alive(); Id = o.Id; Moved = o.Moved; return *this; }
		~Val()																		{ VH_CHECK(g_reg.Live.erase(this) == 1, "object destroyed twice", std::to_string(Id)); Id = -77; }

		void Born() { VH_CHECK(g_reg.Live.insert(this).second, "object constructed over a live one", std::to_string(Id)); }
		void Alive() const { VH_CHECK(g_reg.Live.count(this), "a destroyed object is used", std::to_string(Id)); }
		int Get() const { Alive(); return Moved ? -1000 : Id; }
	};

	std::vector<int> g_rec;
	void Rec(std::initializer_list<int> l) { g_rec.insert(g_rec.end(), l.begin(), l.end()); }
	std::string Str(const std::vector<int>& v) { std::string r; for (int i : v) r += std::to_string(i) + " "; return r; }

	bool g_throw;
	struct Boom : public std::runtime_error { int Id; explicit Boom(int id) : std::runtime_error("boom"), Id(id) { } };
	void MaybeThrow(int id) { if (g_throw) throw Boom(id); }

	int Mix(std::initializer_list<int> l) { u32 r = 17; for (int i : l) r = r * 31 + i; return r % 1000003; }

	int F1(int a)														{ Rec({ 1, a }); MaybeThrow(1); return Mix({ 1, a }); }
	int F2(int a, const Val& b)											{ Rec({ 2, a, b.Get() }); MaybeThrow(2); return Mix({ 2, a, b.Get() }); }
	int F3(const Val& a, const Val& b, const Val& c)					{ Rec({ 3, a.Get(), b.Get(), c.Get() }); MaybeThrow(3); return Mix({ 3, a.Get(), b.Get(), c.Get() }); }
	int F4(Val a, const Val& b, int c, std::string d)					{ Rec({ 4, a.Get(), b.Get(), c, (int)d.size() }); MaybeThrow(4); return Mix({ 4, a.Get(), b.Get(), c, (int)d.size() }); }
	int F5(int a, int b, int c, int d, int e)							{ Rec({ 5, a, b, c, d, e }); MaybeThrow(5); return Mix({ 5, a, b, c, d, e }); }
	int FRef(int& a, Val& b)											{ Rec({ 6, a, b.Get() }); a += 1; b.Id += 1; return a; }
	int FMove(unique_ptr<Val> a, int b)									{ Rec({ 7, a ? a->Get() : -1, b }); MaybeThrow(7); return Mix({ 7, a ? a->Get() : -1, b }); }
	Val FVal(const Val& a, int b)										{ Rec({ 8, a.Get(), b }); MaybeThrow(8); return Val(a.Get() + b); }
	const Val& FSame(const Val& a)										{ Rec({ 9, a.Get() }); return a; }
	void FVoid(const Val& a)											{ Rec({ 10, a.Get() }); MaybeThrow(10); }

	struct Obj
	{
		Val		State;

		explicit Obj(int id) : State(id) { }

		int M0()											{ Rec({ 20, State.Get() }); MaybeThrow(20); return Mix({ 20, State.Get() }); }
		int M1(const Val& a) const							{ Rec({ 21, State.Get(), a.Get() }); MaybeThrow(21); return Mix({ 21, State.Get(), a.Get() }); }
		int M2(int a, Val b)								{ Rec({ 22, State.Get(), a, b.Get() }); MaybeThrow(22); return Mix({ 22, State.Get(), a, b.Get() }); }
		virtual int V1(int a)								{ Rec({ 23, State.Get(), a }); return Mix({ 23, State.Get(), a }); }
		virtual ~Obj() { }
	};

	struct Derived : public Obj
	{
		explicit Derived(int id) : Obj(id) { }
		int V1(int a) override								{ Rec({ 24, State.Get(), a }); return Mix({ 24, State.Get(), a }); }
	};

	struct Functor : public function_info<int (const Val&, int)>
	{
		Val		State;
		explicit Functor(int id) : State(id) { }
		int operator () (const Val& a, int b) const			{ Rec({ 30, State.Get(), a.Get(), b }); MaybeThrow(30); return Mix({ 30, State.Get(), a.Get(), b }); }
	};

	struct Case
	{
		vh::Rng&				R;
		vh::Trace				T;
		std::vector<int>		Want;
		bool					Throws;

		explicit Case(vh::Rng& rng) : R(rng), Throws(false) { g_reg.Copies = g_reg.Moves = 0; g_rec.clear(); g_throw = false; }

		int I() { const int v = R.Below(1000); T << v << ","; return v; }

		template < typename Fn >
		void Call(const char* what, const std::vector<int>& want, int result, const Fn& fn)
		{
			T << what;
			g_rec.clear();
			int got = 0;
			bool thrown = false;
			try { got = fn(); }
			catch (const Boom& b) { thrown = true; VH_CHECK(b.Id == want.at(0), "exception of another target", T.Str()); }
			VH_CHECK(g_rec == want, std::string("arguments of the call: ") + what, T.Str() + " got " + Str(g_rec) + " want " + Str(want));
			VH_CHECK(thrown == g_throw, std::string("exception of the target: ") + what, T.Str());
			if (!thrown)
				VH_CHECK(got == result, std::string("result of the call: ") + what, T.Str() + " got " + std::to_string(got) + " want " + std::to_string(result));
			vh_count("calls", 1);
			T << ";";
		}

		template < typename Fn >
		void Call(const char* what, const std::vector<int>& want, const Fn& fn)
		{ Call(what, want, Mix2(want), fn); }

		static int Mix2(const std::vector<int>& w) { u32 r = 17; for (int i : w) r = r * 31 + i; return r % 1000003; }
	};


	// Bind(&F3, …) where each position is a placeholder (1-3) or a bound value (0)
	template < int N > struct Slot
	{
		static Detail::Placeholder<N> Make(const Val&) { return Detail::Placeholder<N>(); }
		static int Expect(const Val&, const int* args) { return args[N - 1]; }
	};
	template < > struct Slot<0>
	{
		static Val Make(const Val& v) { return v; }
		static int Expect(const Val& v, const int*) { return v.Get(); }
	};

	template < int A, int B, int C, bool Ok = true >
	struct Shape
	{
		static void Run(Case& c)
		{
			const Val b1(c.I()), b2(c.I()), b3(c.I());
			const int args[] = { c.I(), c.I(), c.I() };
			const std::vector<int> want = { 3, Slot<A>::Expect(b1, args), Slot<B>::Expect(b2, args), Slot<C>::Expect(b3, args) };
			const auto bound = Bind(&F3, Slot<A>::Make(b1), Slot<B>::Make(b2), Slot<C>::Make(b3));
			const Val x(args[0]), y(args[1]), z(args[2]);
			c.Call("shape", want, [&] { return bound(x, y, z); });
			const auto copy = bound;
			c.Call("shape copy", want, [&] { return copy(x, y, z); });
			const function<int (const Val&, const Val&, const Val&)> f(bound);
			c.Call("shape function", want, [&] { return f(x, y, z); });
			c.Call("shape rebound", want, [&] { return Bind(f, _3, _1, _2)(y, z, x); });
			c.Call("shape bound args", want, [&] { return Bind(f, x, _1, z)(y); });
			c.Call("shape all bound", want, [&] { return Bind(f, x, y, z)(); });
		}
	};

	typedef void ShapeFunc(Case&);
	template < int... N >
	std::vector<ShapeFunc*> MakeShapes(std::integer_sequence<int, N...>)
	{ return { &Shape<N / 16, N / 4 % 4, N % 4>::Run... }; }
	const std::vector<ShapeFunc*> g_shapes = MakeShapes(std::make_integer_sequence<int, 64>());

}

VH_SCENARIO(binders)
{
	const size_t live = g_reg.Live.size();
	{
		Case c(rng);
		g_throw = rng.Chance(1, 6);
		for (int step = 0; step < 4; ++step)
		{
			switch (rng.Below(8))
			{
			case 0: case 1: case 2:
				(*rng.Pick(g_shapes))(c);
				break;
			case 3:
			{
				const int a = c.I(), b = c.I(), d = c.I(), e = c.I(), f = c.I();
				const std::vector<int> want = { 5, a, b, d, e, f };
				c.Call("five", want, [&] { return Bind(&F5, _5, _4, _3, _2, _1)(f, e, d, b, a); });
				c.Call("five part", want, [&] { return Bind(Bind(&F5, a, _2, d, _1, f), _1, _2)(e, b); });
				c.Call("five gaps", want, [&] { return Bind(&F5, a, _1, d, _4, f)(b, 1000, 1001, e); });
				c.Call("five chain", want, [&] { return Bind(Bind(Bind(Bind(&F5, _1, _2, _3, _4, f), _1, _2, _3, e), _1, _2, d), a, _1)(b); });
				c.Call("five ignores", want, [&] { return Bind(&F5, a, b, d, e, f)(77, std::string("ignored"), Val(3)); });
				break;
			}
			case 4:
			{	// nested binders get the arguments of the outer call
				const bool th = g_throw; g_throw = false;
				const int a = c.I(), b = c.I(), k = c.I();
				const Val x(a), y(b);
				c.Call("nested", { 9, a, 9, b, 3, a, b, k }, Mix({ 3, a, b, k }), [&]
				{
					std::vector<int> order;
					const int r = Bind(&F3, Bind(&FSame, _1), Bind(&FSame, _2), Val(k))(x, y);
					// the order of evaluation of arguments is not specified
					if (g_rec.size() == 8 && g_rec[1] == b && g_rec[3] == a) std::swap(g_rec[1], g_rec[3]);
					return r;
				});
				c.Call("nested value", { 8, a, k, 1, a + k }, Mix({ 1, a + k }), [&] { return Bind(&F1, Bind(&Val::Get, Bind(&FVal, _1, _2)))(x, k); });
				c.Call("nested bound", { 8, b, k, 2, k, b + k }, Mix({ 2, k, b + k }), [&] { return Bind(&F2, _1, Bind(&FVal, y, _1))(k); });
				c.Call("nested deep", { 9, a, 9, a, 9, a, 10, a }, 5, [&] { Bind(&FVoid, Bind(&FSame, Bind(&FSame, Bind(&FSame, _2))))(y, x); return 5; });
				g_throw = th;
				break;
			}
			case 5:
			{	// arguments passed by reference, moved, move-only
				const int a = c.I(), b = c.I(), d = c.I();
				const bool th = g_throw; g_throw = false;
				int n = a; Val v(b);
				c.Call("by ref", { 6, a, b }, a + 1, [&] { return Bind(&FRef, wrap_ref(n), wrap_ref(v))(); });
				VH_CHECK(n == a + 1 && v.Id == b + 1, "a wrapped reference was not passed on", c.T.Str());
				c.Call("by ref args", { 6, a + 1, b + 1 }, a + 2, [&] { return Bind(&FRef, _2, _1)(v, n); });
				VH_CHECK(n == a + 2 && v.Id == b + 2, "a referred argument was not passed on", c.T.Str());
				const function<int (int&, Val&)> f(&FRef);
				c.Call("by ref function", { 6, a + 2, b + 2 }, a + 3, [&] { return f(n, v); });
				VH_CHECK(n == a + 3 && v.Id == b + 3, "a referred argument of a function was not passed on", c.T.Str());
				g_throw = th;
				c.Call("move only", { 7, b, d }, [&] { return Bind(&FMove, _2, _1)(d, make_unique_ptr<Val>(b)); });
				c.Call("move only function", { 7, b, d }, [&] { return function<int (unique_ptr<Val>, int)>(&FMove)(make_unique_ptr<Val>(b), d); });
				c.Call("move only, bound rest", { 7, b, d }, [&] { return function<int (unique_ptr<Val>)>(Bind(&FMove, _1, d))(make_unique_ptr<Val>(b)); });
				const Val w(d); const std::string s(b % 50, 'x');
				g_reg.Copies = 0;
				c.Call("moved value", { 4, b, d, a, b % 50 }, [&] { return Bind(&F4, _1, _2, a, _3)(Val(b), w, s); });
				VH_CHECK(g_reg.Copies == 0, "an argument that could be moved was copied", c.T.Str() + std::to_string(g_reg.Copies));
				c.Call("kept value", { 4, d, d, a, b % 50 }, [&] { return Bind(&F4, _1, _1, a, _2)(w, s); });
				VH_CHECK(w.Get() == d && s.size() == (size_t)(b % 50), "an argument passed by value was moved from", c.T.Str());
				const auto bound = Bind(&F4, Val(b), Val(d), _1, s);
				for (int k = 0; k < 2; ++k)
					c.Call("bound values stay", { 4, b, d, a, b % 50 }, [&] { return bound(a); });
				break;
			}
			case 6:
			{	// methods
				const int a = c.I(), b = c.I(), d = c.I();
				Obj o(a); const Val v(b);
				const shared_ptr<Derived> sp = make_shared_ptr<Derived>(a);
				c.Call("method ptr", { 20, a }, [&] { return Bind(&Obj::M0, &o)(); });
				c.Call("method arg", { 20, a }, [&] { return Bind(&Obj::M0, _1)(&o); });
				c.Call("method ref arg", { 20, a }, [&] { return Bind(&Obj::M0, _1)(o); });
				c.Call("method shared", { 21, a, b }, [&] { return Bind(&Obj::M1, sp, _1)(v); });
				c.Call("method shared arg", { 22, a, d, b }, [&] { return Bind(&Obj::M2, _3, _1, _2)(d, v, sp); });
				c.Call("method const", { 21, a, b }, [&] { const Obj& co = o; return Bind(&Obj::M1, _1, v)(co); });
				c.Call("method function", { 21, a, b }, [&] { return function<int (const Obj*, const Val&)>(&Obj::M1)(&o, v); });
				c.Call("method function shared", { 22, a, d, b }, [&] { return function<int (shared_ptr<Obj>, int, Val)>(&Obj::M2)(sp, d, v); });
				{
					const bool th = g_throw; g_throw = false;
					c.Call("virtual", { 24, a, d }, [&] { return Bind(&Obj::V1, sp, d)(); });
					c.Call("virtual base", { 23, a, d }, [&] { return Bind(&Obj::V1, _2, _1)(d, &o); });
					bool refused = false;
					g_rec.clear();
					try { Bind(&Obj::M0, shared_ptr<Obj>())(); }
					catch (const std::exception&) { refused = true; }
					VH_CHECK(refused && g_rec.empty(), "a method was called with a null object", c.T.Str());
					refused = false;
					try { Bind(&Obj::M0, _1)(static_cast<Obj*>(null)); }
					catch (const std::exception&) { refused = true; }
					VH_CHECK(refused && g_rec.empty(), "a method was called with a null argument", c.T.Str());
					g_throw = th;
				}
				break;
			}
			case 7:
			{	// the object owned by a binder lives as long as it
				const int a = c.I(), b = c.I();
				weak_ptr<Obj> weak;
				{
					optional<function<int (const Val&)>> f;
					{
						const shared_ptr<Obj> sp = make_shared_ptr<Obj>(a);
						weak = sp;
						f.emplace(Bind(&Obj::M1, sp, _1));
					}
					VH_CHECK(weak.lock(), "the bound object died before its binder", c.T.Str());
					const Val v(b);
					c.Call("owned", { 21, a, b }, [&] { return (*f)(v); });
					const function<int (const Val&)> g(*f);
					f.reset();
					c.Call("owned by copy", { 21, a, b }, [&] { return g(v); });
				}
				VH_CHECK(!weak.lock(), "the bound object outlived its binders", c.T.Str());
				break;
			}
			}
		}
		g_throw = false;
		vh_distinct("calls", vh::HashStr(c.T.Str()));
		if (rng.Chance(1, 200))
			vh_sample(c.T.Str().c_str());
	}
	VH_CHECK(g_reg.Live.size() == live, "objects leaked by binders", std::to_string(g_reg.Live.size() - live));
}


namespace
{

	struct CopyFails : public function_info<int ()>
	{
		Val				State;
		mutable int*	Left;

		CopyFails(int id, int* left) : State(id), Left(left) { }
		CopyFails(const CopyFails& o) : State(o.State), Left(o.Left) { if ((*Left)-- == 0) throw Boom(99); }
		int operator () () const { Rec({ 40, State.Get() }); return State.Get(); }
	};

	struct Stateful : public function_info<int (int)>
	{
		Val		State;
		int		Sum;
		explicit Stateful(int id) : State(id), Sum(0) { }
		int operator () (int a) { Sum += a; Rec({ 41, State.Get(), a }); return Sum; }
	};

	struct Named : public function_info<void ()>
	{
		void operator () () const { }
		std::string get_name() const { return "the name"; }
	};

}

VH_SCENARIO(functions)
{
	const size_t live = g_reg.Live.size();
	{
		Case c(rng);
		typedef function<int (const Val&, int)> Func;
		std::vector<Func> slots;
		std::vector<std::vector<int>> model;		// what precedes the arguments in the record
		std::vector<optional<function_storage>> stored(3);
		std::vector<std::vector<int>> storedModel(3);

		const auto make = [&]() -> std::pair<Func, std::vector<int>>
		{
			const int a = c.I();
			switch (rng.Below(7))
			{
			case 0: return { Func(Functor(a)), { 30, a } };
			case 1: { const Functor f(a); return { Func(f), { 30, a } }; }
			case 2: return { Func(Bind(Functor(a), _1, _2)), { 30, a } };
			case 3: { const shared_ptr<Obj> o = make_shared_ptr<Obj>(a); return { Func(Bind(&Obj::M2, o, _2, _1)), { 22, a } }; }
			case 4: { const function<int (const Val&, int)> inner((Functor(a))); return { Func(Bind(inner, _1, _2)), { 30, a } }; }
			case 5: { const function<int (int, const Val&)> inner(Bind(Functor(a), _2, _1)); return { Func(Bind(inner, _2, _1)), { 30, a } }; }
			default: return { Func(Bind(&F2, _2, _1)), { 2 } };
			}
		};
		const auto want = [&](const std::vector<int>& m, int x, int n) -> std::vector<int>
		{
			std::vector<int> w(m);
			if (m[0] == 30) { w.push_back(x); w.push_back(n); }
			else { w.push_back(n); w.push_back(x); }
			return w;
		};

		const int steps = 3 + rng.Below(25);
		for (int i = 0; i < steps; ++i)
		{
			c.T << i << ":";
			const int op = rng.Below(10);
			if (slots.empty() || (op == 0 && slots.size() < 6))
			{
				c.T << "make ";
				auto p = make();
				slots.push_back(p.first); model.push_back(p.second);
				continue;
			}
			const size_t s = rng.Below(slots.size()), d = rng.Below(slots.size());
			switch (op)
			{
			case 0: case 1: { c.T << "assign "; auto p = make(); slots[s] = p.first; model[s] = p.second; break; }
			case 2: c.T << "copy " << s << d; slots[d] = slots[s]; model[d] = model[s]; break;
			case 3: { c.T << "move " << s << d; if (s != d) { Func tmp(slots[s]); slots[d] = std::move(tmp); model[d] = model[s]; } break; }
			case 4: { c.T << "swap " << s << d; std::swap(slots[s], slots[d]); std::swap(model[s], model[d]); break; }
			case 5: { c.T << "erase " << s; slots.erase(slots.begin() + s); model.erase(model.begin() + s); break; }
			case 6: { const size_t k = rng.Below(3); c.T << "store " << k; stored[k].emplace(slots[s]); storedModel[k] = model[s]; break; }
			case 7: { const size_t k = rng.Below(3); if (stored[k]) { c.T << "restore " << k; slots[s] = stored[k]->ToFunction<int (const Val&, int)>(); model[s] = storedModel[k]; } break; }
			default:
			{
				g_throw = rng.Chance(1, 6);
				const Val x(c.I()); const int n = c.I();
				const std::vector<int> w = want(model[s], x.Id, n);
				if (rng.Bool())
					c.Call("call", w, [&] { return slots[s](x, n); });
				else
					c.Call("invoke", w, [&] { return FunctorInvoker::InvokeArgs(slots[s], x, n); });
				VH_CHECK(x.Get() == w[w[0] == 30 ? 2 : w.size() - 1], "the argument changed", c.T.Str());
				g_throw = false;
				const std::string name = slots[s].get_name();
				VH_CHECK(!name.empty() && name == Func(slots[s]).get_name(), "name of a copied function", name);
				break;
			}
			}
		}
		for (size_t i = 0; i < slots.size(); ++i)
		{
			const Val x(c.I()); const int n = c.I();
			c.Call("last call", want(model[i], x.Id, n), [&] { return slots[i](x, n); });
		}

		{	// a functor whose copy fails leaves nothing behind
			int left = rng.Below(4);
			const int id = c.I();
			try
			{
				const CopyFails f(id, &left);
				const function<int ()> g(f);
				const function<int ()> h(Bind(f));
				left = 1000;
				c.Call("copied", { 40, id }, id, [&] { return g(); });
				c.Call("copied bound", { 40, id }, id, [&] { return h(); });
			}
			catch (const Boom& b) { VH_CHECK(b.Id == 99, "exception of a copy", c.T.Str()); }
		}

		{	// results converted, results ignored, parameters converted
			const int a = c.I();
			const function<s64 (u8)> wide(sk::F<int (int)>([&](int v) { Rec({ 50, v }); return v + 1; }));
			c.Call("converted", { 50, a % 200 }, a % 200 + 1, [&] { return (int)wide(a % 200); });
			const function<void (const Val&)> dropped(&FSame);
			const Val v(a);
			c.Call("ignored result", { 9, a }, 3, [&] { dropped(v); return 3; });
			const function<const Val& (const Val&)> same(&FSame);
			c.Call("same object", { 9, a }, 1, [&] { return &same(v) == &v ? 1 : 0; });
			const function<std::string (const char*)> text(sk::F<std::string (const std::string&)>([&](const std::string& s) { return s + s; }));
			VH_CHECK(text("ab") == "abab", "converted text", text("ab"));
			VH_CHECK(function<void ()>(Named()).get_name().find("the name") != std::string::npos, "name of a functor", "");
		}

		{	// a function with a state keeps it between calls
			const function<int (int)> f((Stateful(c.I())));
			int sum = 0;
			for (int i = 0, n = rng.Below(5); i < n; ++i)
			{
				const int a = c.I();
				sum += a;
				VH_CHECK(f(a) == sum, "the state of a functor was lost between calls", c.T.Str());
			}
		}
		vh_distinct("histories", vh::HashStr(c.T.Str()));
		if (rng.Chance(1, 200))
			vh_sample(c.T.Str().c_str());
	}
	VH_CHECK(g_reg.Live.size() == live, "objects leaked by functions", std::to_string(g_reg.Live.size() - live));
}


namespace
{

	template < typename T > struct IsIntType : public IsSame<typename Decay<T>::ValueT, int> { };

	int Packed(const Tuple<TypeList<int, std::string, Val>>& t)
	{ Rec({ 60, t.Get<0>(), (int)t.Get<1>().size(), t.Get<2>().Get() }); MaybeThrow(60); return Mix({ 60, t.Get<0>(), (int)t.Get<1>().size(), t.Get<2>().Get() }); }

	struct Sums : public function_info<int (int, int)>
	{
		int operator () (int a, int b) const { Rec({ 61, a, b }); MaybeThrow(61); return a - 2 * b; }
	};

	struct Odd : public function_info<bool (int)>
	{
		bool operator () (int a) const { return a & 1; }
	};

}

VH_SCENARIO(tuples)
{
	const size_t live = g_reg.Live.size();
	{
		Case c(rng);
		const int a = c.I(), b = c.I(), d = c.I(), e = c.I();
		const std::string s(a % 40, 'q');
		{
			typedef Tuple<TypeList<int, Val, std::string, int, Val>> T5;
			const T5 t(a, Val(b), s, d, Val(e));
			const auto is = [&](const T5& x, const char* what)
			{ VH_CHECK(x.Get<0>() == a && x.Get<1>().Get() == b && x.Get<2>() == s && x.Get<3>() == d && x.Get<4>().Get() == e && T5::Size == 5, std::string("content of a tuple: ") + what, c.T.Str()); };
			is(t, "made");
			T5 copy(t);
			is(copy, "copied");
			is(t, "copied from");
			T5 moved(std::move(copy));
			is(moved, "moved");
			VH_CHECK(copy.Get<1>().Moved, "a move of a tuple copied", "");
			T5 assigned(1, Val(2), "3", 4, Val(5));
			assigned = t;
			is(assigned, "assigned");
			assigned.Get<3>() = 7;
			VH_CHECK(t.Get<3>() == d && assigned.Get<3>() == 7 && moved.Get<3>() == d, "tuples share their content", "");
			assigned.Get<3>() = d;
			is(assigned, "assigned and restored");
			VH_CHECK((t.Get<std::string>() == s) && (t.Get<int>() == a) && (t.Get<int, 1>() == d) && (t.Get<Val, 1>().Get() == e) && (t.Get<Val>().Get() == b), "access by type", c.T.Str());
			VH_CHECK(t.GetHead() == a && t.GetTail().GetHead().Get() == b && t.GetTail().GetTail().GetTail().GetHead() == d, "head and tail", c.T.Str());

			const auto r = ReverseTuple(t);
			VH_CHECK(r.Get<4>() == a && r.Get<3>().Get() == b && r.Get<2>() == s && r.Get<1>() == d && r.Get<0>().Get() == e, "reversed tuple", c.T.Str());
			is(ReverseTuple(r), "reversed twice");
			is(ReverseTuple(ReverseTuple(moved)), "reversed rvalues");
			is(moved, "reversed from");
			const auto fl = FilterTuple<IsIntType>(t);
			VH_CHECK(decltype(fl)::Size == 2 && fl.Get<0>() == a && fl.Get<1>() == d, "filtered tuple", c.T.Str());
			const auto fl2 = FilterTuple<Not<IsIntType>::template ValueT>(T5(t));
			VH_CHECK(decltype(fl2)::Size == 3 && fl2.Get<0>().Get() == b && fl2.Get<1>() == s && fl2.Get<2>().Get() == e, "filtered temporary tuple", c.T.Str());

			const auto one = MakeTuple(a, Val(b));
			const auto two = MakeTuple(s, d);
			const auto three = MakeTuple(Val(e));
			is(ConcatTuples(one, two, three), "concatenated");
			is(ConcatTuples(MakeTuple(a), MakeTuple(Val(b)), ConcatTuples(MakeTuple(s), Tuple<TypeList<>>(), MakeTuple(d)), three), "concatenated mixed");
			is(ConcatTuples(Tuple<TypeList<>>(), T5(t)), "concatenated with nothing");
			VH_CHECK(one.Get<1>().Get() == b && three.Get<0>().Get() == e, "a concatenated tuple was moved from", c.T.Str());
			Tuple<TypeList<unique_ptr<Val>, int>> mv(make_unique_ptr<Val>(b), a);
			auto mc = ConcatTuples(std::move(mv), MakeTuple(make_unique_ptr<Val>(d)));
			VH_CHECK(mc.Get<0>() && mc.Get<0>()->Get() == b && mc.Get<1>() == a && mc.Get<2>() && mc.Get<2>()->Get() == d && !mv.Get<0>(), "concatenated move-only items", c.T.Str());
			auto mr = ReverseTuple(std::move(mc));
			VH_CHECK(mr.Get<2>() && mr.Get<2>()->Get() == b && mr.Get<1>() == a && mr.Get<0>() && mr.Get<0>()->Get() == d, "reversed move-only items", c.T.Str());
			const unique_ptr<Val> taken = std::move(mr).Get<2>();
			VH_CHECK(taken && taken->Get() == b && !mr.Get<2>(), "item moved out of a tuple", c.T.Str());

			int n = a; Val v(b);
			auto refs = MakeTuple(wrap_ref(n), wrap_ref(v));
			refs.Get<0>() = d;
			refs.Get<1>().Id = e;
			VH_CHECK(n == d && v.Get() == e, "tuple of references", c.T.Str());
			const int five = 5;
			auto fwd = ForwardAsTuple(n, v, five);
			VH_CHECK(&fwd.Get<0>() == &n && &fwd.Get<1>() == &v && fwd.Get<2>() == 5, "forwarded tuple", c.T.Str());
			const Tuple<TypeList<s64, std::string>> conv(Tuple<TypeList<int, const char*>>(a, "text"));
			VH_CHECK(conv.Get<0>() == a && conv.Get<1>() == "text", "converted tuple", c.T.Str());
		}
		{
			g_throw = rng.Chance(1, 5);
			const Val v(b);
			const function<int (int, std::string, Val)> f = PackArguments<int (int, std::string, Val)>(&Packed);
			c.Call("packed", { 60, a, a % 40, b }, [&] { return f(a, s, v); });
			c.Call("packed bound", { 60, a, a % 40, b }, [&] { return Bind(f, _2, s, _1)(v, a); });
			const auto t3 = MakeTuple(v, v, Val(d));
			c.Call("tuple as arguments", { 3, b, b, d }, [&] { return FunctorInvoker::Invoke(&F3, t3); });
			c.Call("invoker of a tuple", { 3, b, b, d }, [&] { return make_invoker(&F3)(t3); });
			c.Call("invoker of a pair", { 61, a, b }, a - 2 * b, [&] { return make_invoker(Sums())(std::make_pair(a, b)); });
			c.Call("invoker of an entry", { 61, d, e }, d - 2 * e, [&] { return make_invoker(Sums())(KeyValuePair<int, int>(d, e)); });
			Obj o(d);
			c.Call("method of a tuple", { 22, d, a, b }, [&] { return FunctorInvoker::Invoke(&Obj::M2, MakeTuple(&o, a, v)); });
			c.Call("negated", { 61, a, b }, 2 * b - a, [&] { return negate(Sums())(a, b); });
			c.Call("negated bound", { 61, b, a }, 2 * a - b, [&] { return negate(Bind(Sums(), _2, _1))(a, b); });
			c.Call("lazy", { 61, a, d }, a - 2 * d, [&] { const int r = lazy(Bind(Sums(), a, d)); return r; });
			g_throw = false;
			VH_CHECK(not_(Odd())(a) == !(a & 1) && not_(not_(Odd()))(a) == !!(a & 1), "negated predicate", c.T.Str());
			VH_CHECK((not_(Bind(Odd(), _2))(a, b) == !(b & 1)), "negated bound predicate", c.T.Str());
			int target = 0;
			VH_CHECK(&make_assigner(target)(a) == &target && target == a, "assigner", c.T.Str());
			const auto id = make_identity(Val(e));
			VH_CHECK(id(1, "x", v).Get() == e && id().Get() == e, "identity", c.T.Str());
			NopFunctor()(a, v, s);
			VH_CHECK(v.Get() == b && MakeInstance<Val>()(d).Get() == d && MakeInstance<std::string>()(a % 9, 'z') == std::string(a % 9, 'z'), "instance made of arguments", c.T.Str());
			int runs = 0;
			{
				const auto l = lazy(sk::F<int ()>([&] { ++runs; return a + runs; }));
				VH_CHECK(runs == 0, "a lazy value was computed early", "");
				const int first = l, second = l;
				VH_CHECK(first == a + 1 && second == a + 2, "a lazy value", c.T.Str());
			}
		}
		vh_distinct("tuples", vh::HashStr(c.T.Str()));
	}
	VH_CHECK(g_reg.Live.size() == live, "objects leaked by tuples", std::to_string(g_reg.Live.size() - live));
}
