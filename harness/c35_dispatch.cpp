// C35: mappers, visitors, multiple dispatch, registries, factories, creators, translated texts, sequence generators.
//
// Each mechanism chooses one of several declared alternatives; a table written next to the declaration says which one.

#include <atomic>
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/string/ToString.h>

#include <stingraykit/CloneBuilderBase.h>
#include <stingraykit/Creators.h>
#include <stingraykit/GenericEntityFactory.h>
#include <stingraykit/IVisitor.h>
#include <stingraykit/IntegerBuilder.h>
#include <stingraykit/IntegerSequenceGenerator.h>
#include <stingraykit/Mapper.h>
#include <stingraykit/Random.h>
#include <stingraykit/VariantMultidispatch.h>
#include <stingraykit/algorithm.h>
#include <stingraykit/collection/ArrayList.h>
#include <stingraykit/collection/CollectionOpVariant.h>
#include <stingraykit/collection/MakeCollection.h>
#include <stingraykit/collection/MapDictionary.h>
#include <stingraykit/collection/StlEnumeratorAdapter.h>
#include <stingraykit/dynamic_caster.h>
#include <stingraykit/factory/Factory.h>
#include <stingraykit/locale/LangCode.h>
#include <stingraykit/log/Logger.h>
#include <stingraykit/string/TranslatedString.h>
#include <stingraykit/string/TranslatedStringUtils.h>

#include "vh.h"
#include "sk.h"
#include "vsx.h"

#include <list>
#include <map>
#include <set>

using namespace stingray;

namespace
{

	template < typename Fn > bool Throws(const Fn& fn) { try { fn(); } catch (const std::exception&) { return true; } return false; }
	std::string N(s64 v) { return std::to_string(v); }

	// ---- mappers

	struct Numbers : public BaseValueMapper<Numbers, int, u8>
	{
		typedef TypeList<
				Src::Value<1>,					Dst::Value<10>,
				Src::Range<5, 10>,				Dst::Value<20>,
				Src::BiValue<20, 30>,			Dst::Value<30>,
				Src::TriValue<40, 41, 50>,		Dst::BiValue<40, 41>,
				Src::QuadValue<60, 62, 64, 66>,	Dst::Range<50, 60, 55>,
				Src::Value<7>,					Dst::Value<70>,
				Src::MultiValue<80, Src::MultiValue<90, Src::MultiValue<-3> > >,	Dst::TriValue<80, 90, 91>,
				Src::Range<95, 110, 108>,		Dst::QuadValue<100, 200, 201, 255>,
				Src::Value<96>,					Dst::MultiValue<110, Dst::MultiValue<10> >
		> MappingsList;
		typedef TypeList<Src::Fail, Dst::Value<99> > DefaultMapping;
	};

	bool NumbersMap(int v, int& to)
	{
		switch (v)
		{
		case 1: to = 10; break;
		case 5: case 6: case 7: case 8: case 9: to = 20; break;
		case 20: case 30: to = 30; break;
		case 40: case 41: case 50: to = 40; break;
		case 60: case 62: case 64: case 66: to = 55; break;
		case 80: case 90: case -3: to = 80; break;
		default: to = v >= 95 && v < 110 ? 100 : 99;
		}
		return true;
	}

	bool NumbersUnmap(int v, int& to)
	{
		switch (v)
		{
		case 10: to = 1; break;
		case 20: to = 5; break;
		case 30: to = 20; break;
		case 40: case 41: to = 40; break;
		case 70: to = 7; break;
		case 80: case 90: case 91: to = 80; break;
		case 100: case 200: case 201: case 255: to = 108; break;
		case 110: to = 96; break;
		default: if (v < 50 || v >= 60) return false; to = 60;
		}
		return true;
	}

	struct Color { STINGRAYKIT_ENUM_VALUES(Red, Green = 5, Blue, Black = -2, Lowest = -0x7fffffff - 1, Highest = 0x7fffffff); STINGRAYKIT_DECLARE_ENUM_CLASS(Color); };
	struct Paint { STINGRAYKIT_ENUM_VALUES(Crimson = 100, Lime, Navy, Coal = -7, Unknown = 0, Lowest = -0x7fffffff - 1, Highest = 0x7fffffff); STINGRAYKIT_DECLARE_ENUM_CLASS(Paint); };

	struct Colors : public BaseValueMapper<Colors, Color::Enum, Paint::Enum>
	{
		typedef TypeList<
				Src::Value<Color::Red>,		Dst::Value<Paint::Crimson>,
				Src::Value<Color::Green>,	Dst::BiValue<Paint::Lime, Paint::Navy>,
				Src::Value<Color::Black>,	Dst::Value<Paint::Coal>
		> MappingsList;
		typedef TypeList<Src::Value<Color::Blue>, Dst::Fail> DefaultMapping;
	};

	// ---- visitors

	struct Shape : public virtual IVisitable<Shape>
	{
		int Id;
		explicit Shape(int id) : Id(id) { }
		virtual ~Shape() { }
	};
	struct Circle : public Shape, public Visitable<Shape, Circle> { explicit Circle(int id) : Shape(id) { } };
	struct Square : public Shape, public Visitable<Shape, Square> { explicit Square(int id) : Shape(id) { } };
	struct Line : public Shape, public Visitable<Shape, Line> { explicit Line(int id) : Shape(id) { } };

	typedef std::vector<std::pair<char, const void*> > Visits;
	Visits g_visits;
	int Note(char kind, const Shape& s) { g_visits.push_back(std::make_pair(kind, static_cast<const void*>(&s))); return kind * 1000 + s.Id; }

	shared_ptr<Square> AsSquare(const shared_ptr<Shape>& s) { const shared_ptr<Square> r = dynamic_caster(s); return r; }

	struct AllVisitor : public Visitor<Shape, TypeList<Circle, Square, Line>, int>
	{
		int Visit(Circle& s) const override { return Note('c', s); }
		int Visit(Square& s) const override { return Note('s', s); }
		int Visit(Line& s) const override { return Note('l', s); }
		int Visit(Shape& s) const override { return Note('b', s); }
	};
	struct SomeVisitor : public Visitor<Shape, TypeList<Line, Circle>, int>
	{
		int Visit(Circle& s) const override { return Note('c', s); }
		int Visit(Line& s) const override { return Note('l', s); }
	};
	struct ConstVisitor : public Visitor<const Shape, TypeList<const Square, const Circle>, int>
	{
		int Visit(const Circle& s) const override { return Note('c', s); }
		int Visit(const Square& s) const override { return Note('s', s); }
		int Visit(const Shape& s) const override { return Note('b', s); }
	};
	struct VoidVisitor : public Visitor<Shape, TypeList<Square> >
	{
		void Visit(Square& s) const override { Note('s', s); }
		void Visit(Shape& s) const override { Note('b', s); }
	};
	struct PtrVisitor : public Visitor<shared_ptr<Shape>, TypeList<shared_ptr<Square>, shared_ptr<Line> >, int>
	{
		mutable shared_ptr<Shape> Kept;
		int Visit(const shared_ptr<Square>& s) const override { Kept = s; return Note('s', *s); }
		int Visit(const shared_ptr<Line>& s) const override { Kept = s; return Note('l', *s); }
		int Visit(const shared_ptr<Shape>& s) const override { Kept = s; return Note('b', *s); }
	};
	struct ConstPtrVisitor : public Visitor<shared_ptr<const Shape>, TypeList<shared_ptr<const Circle> >, int>
	{
		int Visit(const shared_ptr<const Circle>& s) const override { return Note('c', *s); }
		int Visit(const shared_ptr<const Shape>& s) const override { return Note('b', *s); }
	};
	struct FailVisitor : public Visitor<Shape, TypeList<Circle>, int>
	{
		int Visit(Circle& s) const override { Note('c', s); throw std::runtime_error("circle"); }
		int Visit(Shape& s) const override { return Note('b', s); }
	};

	// ---- multiple dispatch

	struct Pairs : public static_visitor<std::string>
	{
		typedef std::string RetType;
		std::string operator () (int a, const std::string& b) const { return "is" + N(a) + b; }
		std::string operator () (int a, double b) const { return "id" + N(a) + N((s64)(b * 4)); }
		std::string operator () (int a, char b) const { return "ic" + N(a) + b; }
		std::string operator () (const std::string& a, const std::string& b) const { return "ss" + a + "," + b; }
		std::string operator () (const std::string& a, double b) const { return "sd" + a + N((s64)(b * 4)); }
		std::string operator () (const std::string& a, char b) const { return "sc" + a + b; }
	};

	// ---- registries

	struct Tag { STINGRAYKIT_ENUM_VALUES(A = 3, B = 10, C = -4, D = 200, E = 0, F = 77, G = 11, Unused = 12, Lowest = -0x7fffffff - 1, Highest = 0x7fffffff); STINGRAYKIT_DECLARE_ENUM_CLASS(Tag); };

	template < int K > struct Entity { static std::string Do(int a, const std::string& b) { return N(K) + ":" + N(a) + b; } };

	template < template < typename > class Leaf >
	struct TestInvoker : public GenericInvoker<TestInvoker<Leaf>, Tag, std::string, Leaf>
	{
		typedef GenericInvoker<TestInvoker<Leaf>, Tag, std::string, Leaf> Base;
		template < Tag::Enum T, typename E > using Entry = typename Base::template RegistryEntry<T, E>;
		typedef TypeList<Entry<Tag::A, Entity<3> >, Entry<Tag::B, Entity<10> >, Entry<Tag::C, Entity<-4> >, Entry<Tag::D, Entity<200> >, Entry<Tag::E, Entity<0> >, Entry<Tag::F, Entity<77> >, Entry<Tag::G, Entity<11> > > Registry;
	};
	struct SmallInvoker : public GenericInvoker<SmallInvoker, Tag, std::string, ThrowLeafFunc>
	{ typedef TypeList<RegistryEntry<Tag::G, Entity<11> > > Registry; };

	struct Stream
	{
		std::vector<u8>		Data;
		size_t				Pos;

		class Rollback
		{
			Stream&	_s; size_t _pos;
		public:
			explicit Rollback(Stream& s) : _s(s), _pos(s.Pos) { }
			~Rollback() { _s.Pos = _pos; }
		};

		void Skip(size_t bits) { Pos += bits / 8; }
		template < size_t Bits > Tag Read() { if (Pos >= Data.size()) throw std::runtime_error("end"); return Tag((Tag::Enum)(s8)Data[Pos++]); }
	};
	struct Packet { std::string What; virtual ~Packet() { } };
	struct PacketA : public Packet { PacketA() { What = "a"; } };
	struct PacketB : public Packet { PacketB() { What = "b"; } };
	struct PacketMaker { static shared_ptr<Packet> Create(Stream& s) { const shared_ptr<Packet> p = make_shared_ptr<Packet>(); p->What = "made from " + N(s.Pos); s.Pos += 2; return p; } };

	struct PacketFactory : public GenericEntityFactory<PacketFactory, Packet, Tag>
	{ typedef TypeList<RegistryEntry<Tag::A, PacketA>, RegistryEntry<Tag::F, PacketMaker>, RegistryEntry<Tag::C, PacketB> > Registry; };
	struct OffsetFactory : public GenericEntityFactory<OffsetFactory, Packet, Tag, GenericEntityTagReader<Tag, 16, 8> >
	{ typedef TypeList<RegistryEntry<Tag::B, PacketB>, RegistryEntry<Tag::E, PacketA> > Registry; };

}

VH_SCENARIO(dispatch)
{
	vh::Trace t;
	for (int i = 0; i < 20; ++i)
	{
		{
			const int v = rng.Chance(1, 8) ? (int)(u32)rng.Interesting() : (int)rng.Below(130) - 10;
			int want = 0;
			NumbersMap(v, want);
			VH_CHECK(Numbers::Map(v) == want, "mapped value", N(v) + " -> " + N(Numbers::Map(v)) + ", declared " + N(want));
			VH_CHECK(Numbers::HasMapping(v), "has mapping", N(v));
			const u8 b = rng.Below(256);
			if (NumbersUnmap(b, want))
			{
				VH_CHECK(Numbers::HasBackMapping(b), "has back mapping", N(b));
				VH_CHECK(Numbers::Unmap(b) == want, "value mapped back", N(b) + " -> " + N(Numbers::Unmap(b)) + ", declared " + N(want));
			}
			else
				VH_CHECK(!Numbers::HasBackMapping(b) && Throws([&] { Numbers::Unmap(b); }), "a value without a mapping was mapped back", N(b));
			t << v << "," << b;
		}
		{
			static const Color::Enum colors[] = { Color::Red, Color::Green, Color::Blue, Color::Black };
			static const Paint::Enum paints[] = { Paint::Crimson, Paint::Lime, Paint::Navy, Paint::Coal, Paint::Unknown };
			const Color::Enum c = colors[rng.Below(4)]; const Paint::Enum p = paints[rng.Below(5)];
			if (c == Color::Blue)
				VH_CHECK(!Colors::HasMapping(c) && Throws([&] { Colors::Map(c); }), "an enumerator without a mapping was mapped", N(c));
			else
				VH_CHECK(Colors::HasMapping(c) && Colors::Map(c) == (c == Color::Red ? Paint::Crimson : c == Color::Green ? Paint::Lime : Paint::Coal), "mapped enumerator", N(c));
			VH_CHECK(Colors::HasBackMapping(p) && Colors::Unmap(p) == (p == Paint::Crimson ? Color::Red : p == Paint::Lime || p == Paint::Navy ? Color::Green : p == Paint::Coal ? Color::Black : Color::Blue), "enumerator mapped back", N(p));
			VH_CHECK((IdentityMapper<int, s64>::Map(-i) == -i && IdentityMapper<int, s64>::Unmap(i) == i), "identity", N(i));
		}
		{
			const int id = rng.Below(1000), kind = rng.Below(3);
			const shared_ptr<Shape> s = kind == 0 ? shared_ptr<Shape>(make_shared_ptr<Circle>(id)) : kind == 1 ? shared_ptr<Shape>(make_shared_ptr<Square>(id)) : shared_ptr<Shape>(make_shared_ptr<Line>(id));
			const char letter = "csl"[kind];
			Shape& ref = *s;
			const Shape& cref = *s;
			const auto visit = [&](const char* what, const char* handled, const std::function<int ()>& fn, bool value)
			{
				g_visits.clear();
				const char k = std::string(handled).find(letter) != std::string::npos ? letter : 'b';
				const int got = fn();
				VH_CHECK(g_visits.size() == 1 && g_visits[0].first == k && g_visits[0].second == (const void*)&cref, std::string("visited: ") + what, std::string(1, letter) + " by " + (g_visits.empty() ? '-' : g_visits[0].first));
				VH_CHECK(!value || got == k * 1000 + id, std::string("result of a visit: ") + what, N(got));
				vh_count("visits", 1);
			};
			visit("all", "csl", [&] { return ApplyVisitor(AllVisitor(), ref); }, true);
			visit("const", "cs", [&] { return ApplyVisitor(ConstVisitor(), cref); }, true);
			visit("const of non-const", "cs", [&] { return ApplyVisitor(ConstVisitor(), ref); }, true);
			visit("void", "s", [&] { ApplyVisitor(VoidVisitor(), ref); return 0; }, false);
			visit("applier", "csl", [&] { return MakeVisitorApplier(AllVisitor())(ref); }, true);
			visit("const pointer", "c", [&] { const shared_ptr<const Shape> cs = s; return ApplyVisitor(ConstPtrVisitor(), cs); }, true);
			{
				const PtrVisitor v;
				visit("pointer", "sl", [&] { return ApplyVisitor(v, s); }, true);
			}
			if (letter == 's')
			{
				g_visits.clear();
				VH_CHECK(Throws([&] { ApplyVisitor(SomeVisitor(), ref); }) && g_visits.empty(), "a visitor accepted a type it does not declare", "");
			}
			else
				visit("some", "cl", [&] { return ApplyVisitor(SomeVisitor(), ref); }, true);
			g_visits.clear();
			VH_CHECK(Throws([&] { ApplyVisitor(FailVisitor(), ref); }) == (letter == 'c') && g_visits.size() == 1, "exception of a visitor", "");
			VH_CHECK((!!dynamic_cast<Circle*>(s.get()) == (kind == 0)) && (DynamicCast<Circle*>(s.get()) != NULL) == (kind == 0) && !!AsSquare(s) == (kind == 1), "dynamic cast", "");
			VH_CHECK(Throws([&] { DynamicCast<Line&>(ref); }) == (kind != 2), "dynamic cast of a reference", "");
		}
		{
			typedef variant<TypeList<int, std::string> > V1;
			typedef variant<TypeList<std::string, double, char> > V2;
			const int n = rng.Below(100); const std::string s = "t" + N(rng.Below(50)); const double d = rng.Below(50) / 4.0; const char ch = 'a' + rng.Below(26); const std::string s2 = "u" + s;
			const int k1 = rng.Below(2), k2 = rng.Below(3);
			const V1 v1 = k1 == 0 ? V1(n) : V1(s); const V2 v2 = k2 == 0 ? V2(s2) : k2 == 1 ? V2(d) : V2(ch);
			const std::string want = k1 == 0 ? (k2 == 0 ? Pairs()(n, s2) : k2 == 1 ? Pairs()(n, d) : Pairs()(n, ch)) : (k2 == 0 ? Pairs()(s, s2) : k2 == 1 ? Pairs()(s, d) : Pairs()(s, ch));
			VH_CHECK(Multidispatch(Pairs(), v1, v2) == want, "multiple dispatch", Multidispatch(Pairs(), v1, v2) + " want " + want);
			VH_CHECK(MakeMultidispatcher(Pairs())(v1, v2) == want, "multiple dispatcher", want);
			t << want;
		}
		{
			const int tag = rng.Bool() ? (int)rng.Pick(std::vector<int>{ 3, 10, -4, 200, 0, 77, 11 }) : (int)rng.Below(260) - 20;
			const bool known = tag == 3 || tag == 10 || tag == -4 || tag == 200 || tag == 0 || tag == 77 || tag == 11;
			const int a = rng.Below(100); const std::string b = "x" + N(rng.Below(10)), want = N(tag) + ":" + N(a) + b;
			const Tag::Enum e = (Tag::Enum)tag;
			if (known)
			{
				VH_CHECK(TestInvoker<ThrowLeafFunc>::Invoke(e, a, b) == want, "invoked entry", want);
				VH_CHECK(TestInvoker<DefaultConstructorLeafFunc>::Invoke(e, a, b) == want, "invoked entry", want);
			}
			else
			{
				VH_CHECK(Throws([&] { TestInvoker<ThrowLeafFunc>::Invoke(e, a, b); }), "an unknown tag was accepted", N(tag));
				VH_CHECK(TestInvoker<DefaultConstructorLeafFunc>::Invoke(e, a, b).empty(), "result for an unknown tag", N(tag));
			}
			VH_CHECK(tag == 11 ? SmallInvoker::Invoke(e, a, b) == want : Throws([&] { SmallInvoker::Invoke(e, a, b); }), "invoked entry of one", N(tag));

			Stream s; s.Pos = rng.Below(3);
			for (size_t k = 0; k < 8; ++k) s.Data.push_back(rng.Bool() ? (u8)rng.Pick(std::vector<int>{ 3, 77, -4, 10, 0 }) : (u8)rng.Below(256));
			const size_t pos = s.Pos;
			const int first = (s8)s.Data[pos], third = (s8)s.Data[pos + 2];
			std::string got; try { got = PacketFactory::Create(s)->What; } catch (const std::exception&) { got = "refused"; }
			VH_CHECK(got == (first == 3 ? "a" : first == -4 ? "b" : first == 77 ? "made from " + N(pos) : "refused"), "entity created", N(first) + " gives " + got);
			VH_CHECK(s.Pos == pos + (first == 77 ? 2 : 0), "position of the stream after creation", N(s.Pos));
			s.Pos = pos;
			try { got = OffsetFactory::Create(s)->What; } catch (const std::exception&) { got = "refused"; }
			VH_CHECK(got == (third == 10 ? "b" : third == 0 ? "a" : "refused") && s.Pos == pos, "entity created by a tag at an offset", N(third) + " gives " + got);
			t << tag << first << third;
		}
	}
	vh_distinct("inputs", vh::HashStr(t.Str()));
	if (rng.Chance(1, 200))
		vh_sample(t.Str().substr(0, 300).c_str());
}


namespace
{

	struct Product : public virtual IFactoryObject
	{
		static std::atomic<int> Live;
		Product() { ++Live; }
		~Product() override { --Live; }
	};
	std::atomic<int> Product::Live(0);

	template < int K > struct Prod : public Product { std::string GetClassName() const override { return "prod" + N(K); } };
	struct Stranger : public virtual IFactoryObject { std::string GetClassName() const override { return "stranger"; } };
	struct Thrower : public Product { Thrower() { throw std::runtime_error("no"); } std::string GetClassName() const override { return "thrower"; } };

	// what a context should hold: names of classes by registration, the first name of each class
	struct ContextModel
	{
		std::map<std::string, int>		Names;
		std::map<int, std::string>		Classes;
		ContextModel*					Base;
	};

	const std::type_info& TypeOf(int k)
	{ switch (k) { case 0: return typeid(Prod<0>); case 1: return typeid(Prod<1>); case 2: return typeid(Prod<2>); case 3: return typeid(Stranger); default: return typeid(Thrower); } }

	void RegisterIn(FactoryContext& c, const std::string& name, int k)
	{ switch (k) { case 0: c.Register<Prod<0> >(name); break; case 1: c.Register<Prod<1> >(name); break; case 2: c.Register<Prod<2> >(name); break; case 3: c.Register<Stranger>(name); break; default: c.Register<Thrower>(name); } }

	struct IThing { virtual ~IThing() { } virtual std::string Get() const = 0; };
	struct Thing : public IThing
	{
		std::string Text;
		Thing() : Text("default") { }
		Thing(int a, const std::string& b) : Text(N(a) + b) { }
		std::string Get() const override { return Text; }
	};
	struct IBase { virtual ~IBase() { } };
	struct Sub : public IBase, public IThing { std::string Get() const override { return "sub"; } };

	struct Config { int A; std::string B; Config() : A(0) { } };
	struct ConfigBuilder : public CloneBuilderBase<Config>
	{
		ConfigBuilder() : CloneBuilderBase<Config>(Config()) { }
		explicit ConfigBuilder(const Config& c) : CloneBuilderBase<Config>(c) { }
		ConfigBuilder& A(int a) { GetInst().A = a; return *this; }
		ConfigBuilder& B(const std::string& b) { GetInst().B = b; return *this; }
	};

}

void stingray::Factory::RegisterTypes(const FactoryContextPtr&) { }

VH_SCENARIO(factories)
{
	vh::Trace t;
	Logger::SetLogLevel(LogLevel::Error);
	{
		std::vector<FactoryContextPtr> contexts; std::list<ContextModel> models; std::vector<ContextModel*> m;
		for (int i = 0, n = 1 + rng.Below(3); i < n; ++i)
		{
			const int base = i == 0 || rng.Chance(1, 4) ? -1 : (int)rng.Below(i);
			contexts.push_back(base < 0 ? make_shared_ptr<FactoryContext>() : make_shared_ptr<FactoryContext>(contexts[base]));
			models.push_back(ContextModel()); models.back().Base = base < 0 ? NULL : m[base]; m.push_back(&models.back());
		}
		for (int step = 0; step < 40; ++step)
		{
			const size_t c = rng.Below(contexts.size());
			const std::string name = "n" + N(rng.Below(7));
			const int k = rng.Below(5);
			switch (rng.Below(4))
			{
			case 0:
			{
				const bool fresh = !m[c]->Names.count(name);
				t << "reg" << c << name << k;
				VH_CHECK(Throws([&] { RegisterIn(*contexts[c], name, k); }) == !fresh, "registration of a name", name);
				if (fresh) { m[c]->Names[name] = k; m[c]->Classes.insert(std::make_pair(k, name)); }
				break;
			}
			case 1: case 2:
			{
				int want = -1;
				for (ContextModel* x = m[c]; x && want < 0; x = x->Base)
					if (x->Names.count(name)) want = x->Names[name];
				t << "new" << c << name;
				std::string got;
				const int live = Product::Live;
				try { const unique_ptr<Product> p = contexts[c]->Create<Product>(name); got = p->GetClassName(); VH_CHECK(Product::Live == live + 1, "objects created", name); }
				catch (const std::exception&) { got = "refused"; }
				VH_CHECK(Product::Live == live, "an object created by a factory leaked", name);
				VH_CHECK(got == (want < 0 || want > 2 ? std::string("refused") : "prod" + N(want)), "created object", name + " gives " + got + " want " + N(want));
				break;
			}
			default:
			{
				std::string want = "refused";
				for (ContextModel* x = m[c]; x; x = x->Base)
					if (x->Classes.count(k)) { want = x->Classes[k]; break; }
				std::string got;
				try { got = contexts[c]->GetClassName(TypeOf(k)); } catch (const std::exception&) { got = "refused"; }
				VH_CHECK(got == want, "name of a class", got + " want " + want);
			}
			}
		}
		VH_CHECK(Throws([&] { const FactoryContextConstPtr none; FactoryContext x(none); }), "a null base context was accepted", "");
	}
	{
		const int a = rng.Below(100); const std::string b = "b" + N(rng.Below(100));
		std::string gone(b);
		const shared_ptr<ICreator<IThing> > c1 = MakeConstructorCreator<IThing, Thing>(a, gone);
		gone = "changed";
		const shared_ptr<IThing> x = c1->Create(), y = c1->Create();
		VH_CHECK(x->Get() == N(a) + b && y->Get() == N(a) + b && x != y, "object made by a creator", x->Get());
		const shared_ptr<ICreator<IThing> > c2 = MakeConstructorCreator<IThing, Thing>();
		VH_CHECK(c2->Create()->Get() == "default", "object made by a creator without parameters", "");
		const shared_ptr<ICreator<Sub> > cs = MakeConstructorCreator<Sub, Sub>();
		const shared_ptr<ICreator<IThing> > conv = MakeConvertingCreator<IThing, Sub>(cs);
		VH_CHECK(conv->Create()->Get() == "sub" && conv->Create() != conv->Create(), "object made by a converting creator", "");
		VH_CHECK(Throws([&] { (MakeConvertingCreator<IThing, Sub>(shared_ptr<ICreator<Sub> >())); }), "a null creator was accepted", "");
		SingleInstanceCreator<IThing, Thing> s1; SingleInstanceCreator<IThing, Thing> s2;
		VH_CHECK(s1.Create() == s1.Create() && s1.Create() == s2.Create() && s1.Create(), "single instance", "");

		Config base; base.A = a; base.B = b;
		ConfigBuilder builder = ConfigBuilder(base);
		const Config first = builder.Make();
		const shared_ptr<Config> second = builder.A(a + 1);
		const Config third = builder.B("x");
		VH_CHECK(first.A == a && first.B == b && second->A == a + 1 && second->B == b && third.A == a + 1 && third.B == "x" && base.A == a && base.B == b, "object made by a cloning builder", "");
		second->A = 5;
		VH_CHECK(builder.MakeShared()->A == a + 1 && builder.MakeShared() != builder.MakeShared(), "an object made by a cloning builder is shared", "");
	}
	vh_distinct("histories", vh::HashStr(t.Str()));
}


namespace
{

	typedef std::map<std::string, std::string> Texts;		// by the code as text

	LangCode Lang(vh::Rng& rng) { static const char* codes[] = { "", "eng", "rus", "deu", "FRA", "spA" }; const std::string c = codes[rng.Below(6)]; return c.empty() ? LangCode() : LangCode(c); }
	std::string Key(const LangCode& l) { return l.ToString(); }

	Texts Content(const TranslatedString& s)
	{
		Texts r;
		FOR_EACH(const TranslatedString::Dictionary::PairType p IN s.GetTranslations())
			r[Key(p.Key)] = p.Value;
		return r;
	}

	std::string Show(const Texts& x) { std::string r; for (const auto& p : x) r += p.first + "=" + p.second + ";"; return r; }

	// the translation for a language: its own one; for 'any' the first one there is
	bool Translation(const Texts& x, const LangCode& l, std::string& to)
	{
		const auto it = l == LangCode::Any ? x.begin() : x.find(Key(l));
		if (it == x.end()) return false;
		to = it->second;
		return true;
	}

	std::string Selected(const Texts& x, const std::vector<LangCode>& ls)
	{
		std::string r;
		for (const LangCode& l : ls)
			if (Translation(x, l, r)) return r;
		return "";
	}

	std::string Text(vh::Rng& rng) { static const char* parts[] = { "", "a", "bb", "text", "\xd1\x8f", "%", "one two" }; std::string r; for (int n = rng.Below(3); n >= 0; --n) r += parts[rng.Below(7)]; return r; }
	std::string Plain(vh::Rng& rng) { static const char* parts[] = { "", "a", "bb", "text", "\xd1\x8f", "one two" }; return parts[rng.Below(6)]; }

}

VH_SCENARIO(translations)
{
	vh::Trace t;
	std::vector<TranslatedString> v; std::vector<Texts> m;
	const auto make = [&](TranslatedString::Builder& b, Texts& x)
	{
		for (int n = rng.Below(4); n > 0; --n)
		{
			const LangCode l = Lang(rng); const std::string s = Text(rng);
			VH_CHECK(&b.AddTranslation(l, s) == &b, "builder", "");
			x[Key(l)] = s;
		}
	};
	for (int i = 0; i < 4; ++i)
	{
		Texts x;
		const int how = rng.Below(4);
		if (how == 0 || v.empty()) { TranslatedString::Builder b; make(b, x); v.push_back(b.Get()); }
		else if (how == 1) { const LangCode l = Lang(rng); const std::string s = Text(rng); v.push_back(TranslatedString(l, s)); x[Key(l)] = s; }
		else if (how == 2) { const size_t k = rng.Below(v.size()); TranslatedString::Builder b(v[k]); x = m[k]; make(b, x); v.push_back(b); }
		else { const size_t k = rng.Below(v.size()); v.push_back(v[k]); x = m[k]; }
		m.push_back(x);
		t << Show(x) << "|";
		for (size_t k = 0; k < v.size(); ++k)
			VH_CHECK(Content(v[k]) == m[k] && v[k].IsEmpty() == m[k].empty(), "content of a translated text", Show(Content(v[k])) + " want " + Show(m[k]));
	}
	VH_CHECK(TranslatedString().IsEmpty() && Content(TranslatedString()).empty(), "empty translated text", "");
	for (int i = 0; i < 8; ++i)
	{
		const size_t k = rng.Below(v.size()), o = rng.Below(v.size());
		const LangCode l = Lang(rng), l2 = Lang(rng), l3 = Lang(rng);
		std::string want; const bool has = Translation(m[k], l, want);
		const std::string what = Show(m[k]) + " for '" + Key(l) + "'";
		VH_CHECK(v[k].HasTranslation(l) == has, "has translation", what);
		const optional<std::string> got = v[k].TryGetTranslation(l);
		VH_CHECK(!!got == has && (!has || *got == want), "translation", what);
		if (has) VH_CHECK(v[k].GetTranslation(l) == want, "translation", what); else VH_CHECK(Throws([&] { v[k].GetTranslation(l); }), "a translation that does not exist", what);
		VH_CHECK(v[k].SelectTranslation(l) == Selected(m[k], { l, LangCode() }), "selected translation", what);
		VH_CHECK(v[k].SelectTranslation(l, l2, l3) == Selected(m[k], { l, l2, l3, LangCode() }), "selected translation of three", what + Key(l2) + Key(l3));
		const std::vector<LangCode> ls(rng.Below(3), l2);
		VH_CHECK(v[k].SelectTranslation(ls) == Selected(m[k], ls), "selected translation of a list", what);
		VH_CHECK((v[k] == v[o]) == (m[k] == m[o]) && (v[k] != v[o]) == (m[k] != m[o]), "equality of translated texts", Show(m[k]) + " and " + Show(m[o]));
		const int cmp = v[k].Compare(v[o]);
		VH_CHECK((cmp < 0) == (m[k] < m[o]) && (cmp > 0) == (m[o] < m[k]) && (v[k] < v[o]) == (m[k] < m[o]), "order of translated texts", Show(m[k]) + " and " + Show(m[o]));
		VH_CHECK(!v[k].ToString().empty(), "text of a translated text", "");

		// formats, builders and joined texts work per language
		{
			TranslatedString::Builder fb; Texts fmt;
			for (int n = rng.Below(4); n > 0; --n) { const LangCode fl = Lang(rng); const std::string p = Plain(rng), q = Plain(rng); fb.AddTranslation(fl, p + "%1%-%2%" + q + "%3%" + p); fmt[Key(fl)] = p + "\x01-\x02" + q + "\x03" + p; }
			const int number = rng.Below(1000); const std::string text = Plain(rng);
			const TranslatedString res = TranslatedStringFormat(fb.Get(), v[k], number, text);
			Texts want;
			for (const auto& f : fmt)
			{
				const std::string arg = Selected(m[k], { f.first.empty() ? LangCode() : LangCode(f.first), LangCode() });
				std::string s;
				for (char c : f.second) if (c == 1) s += arg; else if (c == 2) s += N(number); else if (c == 3) s += text; else s += c;
				want[f.first] = s;
			}
			VH_CHECK(Content(res) == want, "formatted translated text", Show(Content(res)) + " want " + Show(want));
		}
		{
			std::vector<LangCode> langs; Texts want;
			for (int n = rng.Below(4); n > 0; --n) langs.push_back(Lang(rng));
			for (const LangCode& x : langs) want[Key(x)];
			TranslatedStringBuilder b(langs);
			for (int n = rng.Below(4); n > 0; --n)
			{
				if (rng.Bool()) { const size_t j = rng.Below(v.size()); b % v[j]; for (auto& w : want) w.second += Selected(m[j], { w.first.empty() ? LangCode() : LangCode(w.first), LangCode() }); }
				else { const int j = rng.Below(100); b % j % "s"; for (auto& w : want) w.second += N(j) + "s"; }
			}
			VH_CHECK(Content(b.Get()) == want, "built translated text", Show(Content(b.Get())) + " want " + Show(want));
			const TranslatedString conv = b;
			VH_CHECK(Content(conv) == want, "converted builder", Show(want));

			std::vector<TranslatedString> items; std::vector<size_t> idx;
			for (int n = rng.Below(4); n > 0; --n) { idx.push_back(rng.Below(v.size())); items.push_back(v[idx.back()]); }
			const std::string sep = Plain(rng);
			for (auto& w : want)
			{
				w.second.clear();
				for (size_t j = 0; j < idx.size(); ++j) w.second += (j ? sep : "") + Selected(m[idx[j]], { w.first.empty() ? LangCode() : LangCode(w.first), LangCode() });
			}
			const TranslatedString joined = Join(langs, sep, items);
			VH_CHECK(Content(joined) == want, "joined translated texts", Show(Content(joined)) + " want " + Show(want));
		}
	}
	for (int i = 0; i < 8; ++i)
	{	// codes of languages
		std::string s;
		for (int k = 0; k < 3; ++k) s += (char)(rng.Chance(1, 4) ? rng.Below(256) : rng.Chance(1, 2) ? 'a' + rng.Below(26) : 'A' + rng.Below(26));
		u32 code = 0; std::string up;
		for (char c : s) { const char u = c >= 'a' && c <= 'z' ? c - 32 : c; up += u; code = code << 8 | (u8)u; }
		const u32 raw = (u32)(u8)s[0] << 16 | (u32)(u8)s[1] << 8 | (u8)s[2];
		const LangCode a(s), b(raw);
		VH_CHECK(a == b && !(a < b) && !(b < a), "language code from a text and from a number", N(raw));
		VH_CHECK(a == LangCode(up) && a == LangCode::FromString(s) && a == LangCode::From3Letter(s), "language code of another case", N(raw));
		VH_CHECK(a.ToString() == std::string(up.c_str()), "text of a language code", N(raw));
		std::string s2(s); s2[rng.Below(3)] ^= 1 << rng.Below(8);
		u32 code2 = 0; for (char c : s2) code2 = code2 << 8 | (u8)(c >= 'a' && c <= 'z' ? c - 32 : c);
		const LangCode d(s2);
		VH_CHECK((a == d) == (code == code2) && (a < d) == (code < code2), "order of language codes", N(raw));
		VH_CHECK((a == LangCode::Any) == (code == 0), "language code of anything", N(raw));
		VH_CHECK(Throws([&] { LangCode x(s + "x"); }) && Throws([&] { LangCode x(s.substr(0, 2)); }) && Throws([&] { LangCode x((std::string())); }), "a language code of another length was accepted", "");
		const u32 big = raw | (1u + (u32)rng.Below(255)) << 24;
		VH_CHECK(Throws([&] { LangCode x(big); }), "a language code out of range was accepted", N(big));
		VH_CHECK(LangCode::FromString("ru") == LangCode::Rus() && LangCode::From2Letter("En") == LangCode::Eng() && LangCode::From2Letter("zz") == LangCode() && LangCode::Eng().To2LetterString() == "en" && LangCode::Rus().ToString() == "RUS", "two letters", "");
	}
	vh_distinct("texts", vh::HashStr(t.Str()));
	if (rng.Chance(1, 200))
		vh_sample(t.Str().substr(0, 300).c_str());
}


namespace
{

	template < typename T > void Bits(vh::Rng& rng, const char* type)
	{
		typedef typename std::make_unsigned<T>::type U;
		const size_t width = sizeof(T) * 8;
		IntegerBuilder<T> b;
		u64 want = 0; size_t used = 0;
		std::string trace;
		while (used < width && !rng.Chance(1, 6))
		{
			const int kind = rng.Below(5);
			const size_t max = std::min<size_t>(width - used, kind == 0 ? 8 : kind == 1 ? 16 : kind == 2 ? 32 : kind == 3 ? 1 : 64);
			const size_t n = kind == 3 ? 1 : 1 + rng.Below(max);
			if (used == 0 && n == width) continue;		// a shift by the whole width
			const u64 v = rng.Chance(1, 3) ? ~0ull : rng.Next();
			switch (kind)
			{
			case 0: if (rng.Bool()) b.Append((u8)v, n); else b.Append((s8)v, n); break;
			case 1: if (rng.Bool()) b.Append((u16)v, n); else b.Append((s16)v, n); break;
			case 2: if (rng.Bool()) b.Append((u32)v, n); else b.Append((s32)v, n); break;
			case 3: b.Append((v & 1) != 0); break;
			default: b.Append(v, n);
			}
			trace += N(n) + ":" + N(v) + " ";
			want = (want << n) | (n == 64 ? v : v & ((1ull << n) - 1));
			used += n;
			VH_CHECK((U)b.GetResult() == (U)want, std::string("integer built of bit fields: ") + type, trace + " gives " + N(b.GetResult()) + " want " + N(want));
		}
	}

	struct Counted { int V; };

}

VH_SCENARIO(sequences)
{
	{	// random numbers stay within their bounds and repeat for a seed
		const u32 seed = rng.Next();
		Random a(seed), b(seed), c(seed);
		for (int i = 0; i < 20; ++i)
		{
			const u32 max = rng.Chance(1, 3) ? 1 + (u32)rng.Below(10) : (u32)rng.Next();
			const u32 lo = rng.Chance(1, 4) ? 0 : (u32)rng.Below(0x80000000u), hi = lo + 1 + (u32)rng.Below(0x7fffffffu);
			const u32 x = a.Next(max), y = b.Next(lo, hi);
			VH_CHECK(max == 0 ? x == 0 : x < max, "random number out of bounds", N(x) + " of " + N(max));
			VH_CHECK(y >= lo && y < hi, "random number out of range", N(y) + " of " + N(lo) + ".." + N(hi));
			VH_CHECK(c.Next(max) == x, "random numbers of the same seed", "");
			if (rng.Chance(1, 8))
			{
				std::set<u32> seen;
				Random d(seed + i);
				for (int k = 0; k < 200; ++k) seen.insert(d.Next(10, 13));
				VH_CHECK(seen.size() == 3 && *seen.begin() == 10, "random numbers leave values out", N(seen.size()));
			}
		}
	}
	Bits<u8>(rng, "u8"); Bits<u16>(rng, "u16"); Bits<u32>(rng, "u32"); Bits<u64>(rng, "u64");
	{
		const int start = (int)rng.Below(1000) - 500;
		IntegerSequenceGenerator<int> g(start);
		for (int i = 0; i < 10; ++i) VH_CHECK(g.Next() == start + i, "sequence", N(start));
	}
	{	// items erased by a predicate, enumerators used with STL
		std::map<int, int> m; std::set<int> s; std::list<int> l; std::vector<int> plain;
		const shared_ptr<ArrayList<int> > list = make_shared_ptr<ArrayList<int> >();
		for (int n = rng.Below(12); n > 0; --n) { const int v = rng.Below(20); m[v] = n; s.insert(v); l.push_back(v); plain.push_back(v); list->Add(v); }
		const int k = 1 + rng.Below(5);
		std::map<int, int> wm; std::set<int> ws; std::list<int> wl;
		for (const auto& p : m) if (p.second % k) wm.insert(p);
		for (int v : s) if (v % k) ws.insert(v);
		for (int v : l) if (v % k) wl.push_back(v);
		erase_if(m, [&](const std::pair<const int, int>& p) { return p.second % k == 0; });
		erase_if(s, [&](int v) { return v % k == 0; });
		erase_if(l, [&](int v) { return v % k == 0; });
		VH_CHECK(m == wm && s == ws && l == wl, "items erased by a predicate", N(k));

		VH_CHECK(std::vector<int>(Wrap(list), WrapEnd(list)) == plain, "enumerable used as iterators", N(plain.size()));
		const shared_ptr<IEnumerator<int> > e = list->GetEnumerator();
		VH_CHECK(std::vector<int>(Wrap(e), WrapEnd(e)) == plain && !e->Valid() && Wrap(e) == WrapEnd(e), "enumerator used as iterators", N(plain.size()));
		std::vector<int> looped; for (int v : IterableEnumerable(list)) looped.push_back(v);
		VH_CHECK(looped == plain, "loop over an enumerable", N(plain.size()));
		const shared_ptr<IEnumerator<int> > e2 = list->GetEnumerator();
		for (size_t skip = rng.Below(plain.size() + 1); skip > 0; --skip) { e2->Next(); plain.erase(plain.begin()); }
		looped.clear(); for (int v : IterableEnumerable(e2)) looped.push_back(v);
		VH_CHECK(looped == plain, "loop over the rest of an enumerator", N(plain.size()));
		StlEnumeratorAdapter<int> end;
		VH_CHECK(Throws([&] { ++end; }) && Throws([&] { *end; }) && end == StlEnumeratorAdapter<int>(), "the end of an enumeration was used", "");
		VH_CHECK(make_vector(1, 2, (int)k) == (std::vector<int>{ 1, 2, (int)k }) && std::vector<int>(make_vector()).empty() && make_vector(std::string("a")).at(0) == "a", "made collection", "");
	}
	{	// operations on a collection as values
		typedef CollectionOpVariant<int> Op;
		const int a = rng.Below(4), b = rng.Below(4), c = rng.Below(4), d = rng.Below(4); const int k1 = rng.Below(4), k2 = rng.Below(4);
		const auto make = [&](int k, int x, int y) { return k == 0 ? Op() : k == 1 ? Op::CreateAdded(x) : k == 2 ? Op::CreateRemoved(x) : Op::CreateModified(x, y); };
		const Op p = make(k1, a, b), q = make(k2, c, d);
		VH_CHECK((p == q) == (k1 == k2 && (k1 == 0 || (a == c && (k1 != 3 || b == d)))) && (p != q) == !(p == q), "equality of operations", "");
		if (k1 == 0)
			VH_CHECK(Throws([&] { p.GetOp(); }) && Throws([&] { p.AsAdded(); }), "an empty operation", "");
		else
		{
			VH_CHECK(p.GetOp() == (k1 == 1 ? CollectionOp::Added : k1 == 2 ? CollectionOp::Removed : CollectionOp::Updated), "kind of an operation", N(k1));
			VH_CHECK(Throws([&] { p.AsAdded(); }) == (k1 != 1) && Throws([&] { p.AsRemoved(); }) == (k1 != 2) && Throws([&] { p.AsModified(); }) == (k1 != 3), "an operation of another kind", N(k1));
			VH_CHECK(k1 == 1 ? p.AsAdded().Value == a : k1 == 2 ? p.AsRemoved().Value == a : p.AsModified().OldValue == a && p.AsModified().NewValue == b, "values of an operation", N(k1));
			const Op copy(p);
			VH_CHECK(copy == p && copy.ToString() == p.ToString(), "copied operation", p.ToString());
		}
	}
	vh_distinct("cases", rng.Next());
}


namespace
{

	void Concurrent(vh::Rng& rng)
	{
		const size_t threads = 2 + rng.Below(2), each = 3 + rng.Below(4);
		IntegerSequenceGenerator<int> gen(100);
		std::vector<std::vector<int> > got(threads);
		Logger::SetLogLevel(LogLevel::Error);
		const FactoryContextPtr base = make_shared_ptr<FactoryContext>();
		const FactoryContextPtr derived = make_shared_ptr<FactoryContext>(base);
		std::vector<std::vector<int> > owned(threads);
		std::vector<std::vector<std::string> > bad(threads);
		std::vector<u64> seeds; for (size_t i = 0; i < threads; ++i) seeds.push_back(rng.Next());
		vs::Threads ts;
		for (size_t i = 0; i < threads; ++i)
			ts.Add([&, i]
			{
				vh::Rng r(seeds[i]);
				for (size_t n = 0; n < each; ++n)
				{
					got[i].push_back(gen.Next());
					const int name = r.Below(4);
					const FactoryContextPtr& c = r.Bool() ? base : derived;
					if (r.Bool())
					{
						try { c->Register<Prod<1> >("n" + N(name)); if (c == base) owned[i].push_back(name); }
						catch (const std::exception&) { }
					}
					else
					{
						const bool sure = std::find(owned[i].begin(), owned[i].end(), name) != owned[i].end();
						std::string what;
						try { what = derived->Create<IFactoryObject>("n" + N(name))->GetClassName(); } catch (const std::exception&) { what = "refused"; }
						if (what != "prod1" && (sure || what != "refused")) bad[i].push_back(what);
					}
					vs::Pause(r);
				}
			});
		ts.Join();
		std::set<int> all; int names[4] = { 0 };
		for (size_t i = 0; i < threads; ++i)
		{
			for (size_t n = 0; n < got[i].size(); ++n) { all.insert(got[i][n]); VH_CHECK(n == 0 || got[i][n] > got[i][n - 1], "order of a sequence", N(i)); }
			for (int n : owned[i]) ++names[n];
			VH_CHECK(bad[i].empty(), "an object registered by the same thread was not created", (bad[i].empty() ? std::string() : bad[i][0]));
		}
		VH_CHECK(all.size() == threads * each && *all.begin() == 100 && *all.rbegin() == 100 + (int)(threads * each) - 1, "numbers of a sequence used twice or left out", N(all.size()));
		for (int n : names) VH_CHECK(n <= 1, "a name was registered twice", N(n));
		vh::Trace t;
		for (size_t i = 0; i < threads; ++i) { for (int n : got[i]) t << n; t << "|"; for (int n : owned[i]) t << n; t << ";"; }
		vh_distinct("schedules", vh::HashStr(t.Str()));
		vh_count("numbers", all.size());
	}

}

VH_SCHED_SCENARIO(registry_threads) { Concurrent(rng); }
VH_FREE_SCENARIO(free_registry) { vs_noise(30, 20); Concurrent(rng); vs_noise(0, 0); }
