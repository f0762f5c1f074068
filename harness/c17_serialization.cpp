// C17: object graphs written through ObjectOStream into the intermediate value tree and read back; a reference reader decides every mutated tree.
#define STINGRAY_LIB_SOURCE 1
#include "vh.h"
#include "sk.h"
#include <stingraykit/any.h>
#include <stingraykit/collection/ArrayList.h>
#include <stingraykit/collection/FlatMapDictionary.h>
#include <stingraykit/collection/MapDictionary.h>
#include <stingraykit/collection/MultiMapDictionary.h>
#include <stingraykit/collection/MapObservableDictionary.h>
#include <stingraykit/collection/ArrayObservableList.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include <stingraykit/collection/SortedSet.h>
#include <stingraykit/collection/TransactionalDictionary.h>
#include <stingraykit/collection/TransactionalList.h>
#include <stingraykit/factory/Factory.h>
#include <stingraykit/factory/FactoryPublic.h>
#include <stingraykit/locale/LocaleString.h>
#include <stingraykit/serialization/Composite.h>
#include <stingraykit/serialization/InjectionSerializer.h>
#include <stingraykit/serialization/IntegerDeserializer.h>
#include <stingraykit/serialization/Serialization.h>
#include <stingraykit/serialization/SerializationHelper.h>
#include <stingraykit/serialization/SettingsValue.h>
#include <stingraykit/serialization/StringProxySerialization.h>
#include <stingraykit/string/TranslatedString.h>
#include <stingraykit/time/Time.h>
#include <cmath>
#include <deque>
#include <limits>
#include <list>
#include <map>
#include <set>

using namespace stingray;

namespace {
	typedef SettingsValueSelfCountPtr NodePtr;

	// the stream an application provides: builds the intermediate tree
	class TreeWriter : public ObjectOStream
	{
		struct Frame { NodePtr node; std::string name; };
		std::vector<Frame> _stack; NodePtr _root; std::string _error;
		void Put(const NodePtr& n)
		{
			if (_stack.empty()) { if (_root) _error = "two root values"; _root = n; return; }
			Frame& f = _stack.back();
			if (f.node->contains<SettingsValueList>()) { f.node->get<SettingsValueList>().push_back(n); return; }
			if (f.name == "\x01none") _error = "a member without a name";
			if (!f.node->get<SettingsValueMap>().insert(std::make_pair(f.name, n)).second) _error = "member " + f.name + " written twice";
			f.name = "\x01none";
		}
		void Push(const NodePtr& n) { Put(n); Frame f = { n, "\x01none" }; _stack.push_back(f); }
		template < typename T > void Pop() { if (_stack.empty() || !_stack.back().node->contains<T>()) { _error = "unbalanced"; return; } if (_stack.back().name != "\x01none") _error = "a name without a value"; _stack.pop_back(); }
	protected:
		void WriteNull() override { Put(make_self_count_ptr<SettingsValue>(EmptyType())); }
		void Write(bool value) override { Put(make_self_count_ptr<SettingsValue>(value)); }
		void Write(const FloatString& value) override { Put(make_self_count_ptr<SettingsValue>(value)); }
		void Write(s64 value) override { Put(make_self_count_ptr<SettingsValue>(value)); }
		void Write(const std::string& value) override { Put(make_self_count_ptr<SettingsValue>(value)); }
		void Write(ConstByteData value) override { Put(make_self_count_ptr<SettingsValue>(ConstByteArray(value))); }
		void WritePropertyName(const std::string& name) override { if (_stack.empty() || !_stack.back().node->contains<SettingsValueMap>()) _error = "a name outside an object"; else _stack.back().name = name; }
		void BeginList() override { Push(make_self_count_ptr<SettingsValue>(SettingsValueList())); }
		void EndList() override { Pop<SettingsValueList>(); }
		void BeginObject() override { Push(make_self_count_ptr<SettingsValue>(SettingsValueMap())); }
		void EndObject() override { Pop<SettingsValueMap>(); }
	public:
		explicit TreeWriter(IObjectSerializator* c = nullptr, bool topLevel = false) : ObjectOStream(null, c, Factory::Instance().GetRootContext(), topLevel) { }
		NodePtr Get() const { if (!_stack.empty()) vh_violation("serialize:unbalanced", "open objects are left"); if (!_error.empty()) vh_violation("serialize:stream-protocol", _error.c_str()); return _root; }
	};

	std::string Num(double d) { char b[64]; snprintf(b, sizeof(b), "%.17g", d); return b; }
	std::string Hex(const void* p, size_t n) { std::string r; char b[4]; for (size_t i = 0; i < n; ++i) { snprintf(b, sizeof(b), "%02x", ((const unsigned char*)p)[i]); r += b; } return r; }
	std::string Quote(const std::string& s) { return "\"" + vh::Printable(s) + (s.size() > 400 ? std::to_string(vh::HashStr(s)) : "") + "\""; }
	std::string Text(const NodePtr& n)
	{
		if (!n) return "nothing";
		if (n->contains<EmptyType>()) return "null";
		if (n->contains<bool>()) return n->get<bool>() ? "true" : "false";
		if (n->contains<s64>()) return std::to_string(n->get<s64>());
		if (n->contains<FloatString>()) return "f" + n->get<FloatString>().ToString();
		if (n->contains<std::string>()) return Quote(n->get<std::string>());
		if (n->contains<ConstByteArray>()) { const ConstByteArray& a = n->get<ConstByteArray>(); return "<" + Hex(a.data(), a.size()) + ">"; }
		std::string r;
		if (n->contains<SettingsValueList>()) { for (const NodePtr& c : n->get<SettingsValueList>()) r += (r.empty() ? "" : ",") + Text(c); return "[" + r + "]"; }
		for (const auto& c : n->get<SettingsValueMap>()) r += (r.empty() ? "" : ",") + Quote(c.first) + ":" + Text(c.second);
		return "{" + r + "}";
	}
	NodePtr Deep(const NodePtr& n)
	{
		if (n->contains<SettingsValueList>()) { SettingsValueList l; for (const NodePtr& c : n->get<SettingsValueList>()) l.push_back(Deep(c)); return make_self_count_ptr<SettingsValue>(l); }
		if (n->contains<SettingsValueMap>()) { SettingsValueMap m; for (const auto& c : n->get<SettingsValueMap>()) m[c.first] = Deep(c.second); return make_self_count_ptr<SettingsValue>(m); }
		return n->Clone();
	}
	void Collect(const NodePtr& n, std::vector<NodePtr>& out)
	{
		out.push_back(n);
		if (n->contains<SettingsValueList>()) for (const NodePtr& c : n->get<SettingsValueList>()) Collect(c, out);
		if (n->contains<SettingsValueMap>()) for (const auto& c : n->get<SettingsValueMap>()) Collect(c.second, out);
	}

	std::string RandomText(vh::Rng& rng)
	{
		std::string r; const size_t n = rng.Chance(1, 10) ? rng.Below(300) : rng.Below(9);
		for (size_t i = 0; i < n; ++i) r += rng.Bool() ? (char)('a' + rng.Below(4)) : (char)rng.Below(256);
		return r;
	}
	s64 RandomInt(vh::Rng& rng) { const s64 v = (s64)rng.Interesting(); return rng.Bool() ? v : (s64)(0 - (u64)v); }

	// ---- what each type must look like and accept: Gen, Same, Canon (the tree text of the value read from a tree; false = must be refused)
	template < typename T, typename = void > struct Io;
	template < typename T > std::string CanonOf(const NodePtr& n, bool& ok) { std::string s; if (!Io<T>::Canon(n, s)) ok = false; return s; }

	template < typename T > struct Io<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
	{
		static T Gen(vh::Rng& rng, int) { switch (rng.Below(4)) { case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::min(); default: return (T)RandomInt(rng); } }
		static bool Same(T a, T b) { return a == b; }
		static bool Canon(const NodePtr& n, std::string& out) { if (!n->contains<s64>()) return false; out = std::to_string((s64)(T)n->get<s64>()); return true; }
	};
	template < > struct Io<bool>
	{
		static bool Gen(vh::Rng& rng, int) { return rng.Bool(); }
		static bool Same(bool a, bool b) { return a == b; }
		static bool Canon(const NodePtr& n, std::string& out) { if (!n->contains<bool>()) return false; out = n->get<bool>() ? "true" : "false"; return true; }
	};
	template < typename T > struct FloatIo
	{
		static T Gen(vh::Rng& rng, int)
		{
			switch (rng.Below(6)) { case 0: return (T)(rng.Below(2000) / 8.0 - 100); case 1: return (T)(1.0 / (1 + rng.Below(1000))); case 2: return std::numeric_limits<T>::infinity(); case 3: return (T)RandomInt(rng);
			case 4: { T t; uint64_t b = rng.Next(); if (sizeof(T) == 4) { uint32_t x = (uint32_t)b; memcpy(&t, &x, 4); } else memcpy(&t, &b, sizeof(T)); return t == t ? t : std::numeric_limits<T>::quiet_NaN(); } default: return (T)(M_PI * (double)rng.Below(100000)); }
		}
		static bool Same(T a, T b) { return a != a ? b != b : a == b; }
		static bool Canon(const NodePtr& n, std::string& out)
		{
			double d;
			if (n->contains<s64>()) d = (double)n->get<s64>();
			else if (n->contains<FloatString>()) { char* end; const std::string s = n->get<FloatString>().ToString(); d = strtod(s.c_str(), &end); if (end == s.c_str()) return false; }
			else return false;
			out = "f" + FloatString((double)(T)d).ToString(); return true;
		}
	};
	template < > struct Io<float> : FloatIo<float> { }; template < > struct Io<double> : FloatIo<double> { };
	template < > struct Io<std::string>
	{
		static std::string Gen(vh::Rng& rng, int) { return RandomText(rng); }
		static bool Same(const std::string& a, const std::string& b) { return a == b; }
		static bool Canon(const NodePtr& n, std::string& out) { if (!n->contains<std::string>()) return false; out = Quote(n->get<std::string>()); return true; }
	};
	bool BytesCanon(const NodePtr& n, std::string& out)
	{
		if (n->contains<ConstByteArray>()) { out = Text(n); return true; }
		if (!n->contains<std::string>()) return false;
		const std::string s = n->get<std::string>(); if (s.compare(0, 4, "hex=") || s.size() % 2) return false;
		out = "<"; for (size_t i = 4; i < s.size(); ++i) { if (!isxdigit((unsigned char)s[i])) return false; out += (char)tolower(s[i]); }
		out += ">"; return true;
	}
	template < > struct Io<std::vector<u8> >
	{
		static std::vector<u8> Gen(vh::Rng& rng, int) { const std::string s = RandomText(rng); return std::vector<u8>(s.begin(), s.end()); }
		static bool Same(const std::vector<u8>& a, const std::vector<u8>& b) { return a == b; }
		static bool Canon(const NodePtr& n, std::string& out) { return BytesCanon(n, out); }
	};
	template < > struct Io<ByteArray>
	{
		static ByteArray Gen(vh::Rng& rng, int) { const std::vector<u8> v = Io<std::vector<u8> >::Gen(rng, 0); ByteArray a(v.size()); std::copy(v.begin(), v.end(), a.begin()); if (v.size() > 2 && rng.Bool()) return ByteArray(a, 1 + rng.Below(v.size() - 1)); return a; }
		static bool Same(const ByteArray& a, const ByteArray& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
		static bool Canon(const NodePtr& n, std::string& out)
		{
			if (!n->contains<SettingsValueMap>()) return false;
			const SettingsValueMap& m = n->get<SettingsValueMap>(); size_t skip = 0; std::string d;
			if (m.count("o")) { if (!m.at("o")->contains<s64>()) return false; skip = (size_t)m.at("o")->get<s64>(); }
			if (!m.count("d") || !BytesCanon(m.at("d"), d)) return false;
			const size_t bytes = (d.size() - 2) / 2; out = "{\"d\":<" + (skip < bytes ? d.substr(1 + skip * 2, (bytes - skip) * 2) : "") + ">}"; return true;
		}
	};
	template < > struct Io<BytesOwner>
	{
		static BytesOwner Gen(vh::Rng& rng, int) { std::vector<u8> v = Io<std::vector<u8> >::Gen(rng, 0); v.push_back(1); return BytesOwner::Create(ConstByteData(v)); }
		static bool Same(const BytesOwner& a, const BytesOwner& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
	};
	struct Color { STINGRAYKIT_ENUM_VALUES(Red, Green, Blue = 7, DarkBlue); STINGRAYKIT_DECLARE_ENUM_CLASS(Color); };
	template < > struct Io<Color>
	{
		static Color Gen(vh::Rng& rng, int) { const Color::Enum all[] = { Color::Red, Color::Green, Color::Blue, Color::DarkBlue }; return all[rng.Below(4)]; }
		static bool Same(Color a, Color b) { return a == b; }
		static bool Canon(const NodePtr& n, std::string& out) { if (!n->contains<std::string>()) return false; std::string s = n->get<std::string>(); if (s.empty()) s = Color().ToString(); return Parse(s, out); }
		// names, sums of names separated by |, and numbers
		static bool Parse(const std::string& s, std::string& out)
		{
			const std::vector<std::pair<std::string, int> > all = { { "Red", 0 }, { "Green", 1 }, { "Blue", 7 }, { "DarkBlue", 8 } }; const char* ws = " \t\n\r"; const size_t first = s.find_first_not_of(ws); unsigned v = 0;
			if (first == std::string::npos) return false;
			if (isdigit((unsigned char)s[first])) { const size_t end = s.find_first_not_of("0123456789", first); if (end != std::string::npos && s.find_first_not_of(ws, end) != std::string::npos) return false; const std::string digits = s.substr(first, end - first); if (digits.size() > 10 || strtoull(digits.c_str(), nullptr, 10) > 0xffffffffull) return false; v = (unsigned)strtoull(digits.c_str(), nullptr, 10); }
			else for (size_t p = 0; p <= s.size(); )
			{
				const size_t q = std::min(s.find('|', p), s.size()); const std::string raw = s.substr(p, q - p); p = q + 1; const size_t b = raw.find_first_not_of(ws); if (b == std::string::npos) continue; const std::string name = raw.substr(b, raw.find_last_not_of(ws) - b + 1); bool known = false;
				for (const auto& k : all) if (k.first == name) { v |= (unsigned)k.second; known = true; }
				if (!known) return false;
			}
			std::string text; unsigned seen = 0; for (const auto& k : all) if ((unsigned)k.second == v) { out = Quote(k.first); return true; }
			for (const auto& k : all) if (((unsigned)k.second & v) && !((unsigned)k.second & ~v) && ((unsigned)k.second & ~seen)) { seen |= (unsigned)k.second; text += (text.empty() ? "" : "|") + k.first; }
			out = Quote(seen == v ? text : std::to_string(v)); return true;
		}
	};
	template < typename T > struct Io<optional<T> >
	{
		static optional<T> Gen(vh::Rng& rng, int d) { if (rng.Chance(1, 3)) return optional<T>(); const T v = Io<T>::Gen(rng, d); return Missing(v) ? optional<T>() : optional<T>(v); } // an absent pointer inside an optional is written as an absent optional
		template < typename U > static bool Missing(const shared_ptr<U>& p) { return !p; } template < typename U > static bool Missing(const U&) { return false; }
		
		static bool Same(const optional<T>& a, const optional<T>& b) { return a.is_initialized() == b.is_initialized() && (!a || Io<T>::Same(*a, *b)); }
		static bool Canon(const NodePtr& n, std::string& out) { if (n->contains<EmptyType>()) { out = "null"; return true; } return Io<T>::Canon(n, out); }
	};
	template < typename K, typename V > struct Io<std::pair<K, V> >
	{
		static std::pair<K, V> Gen(vh::Rng& rng, int d) { K k = Io<K>::Gen(rng, d); return std::make_pair(k, Io<V>::Gen(rng, d)); }
		static bool Same(const std::pair<K, V>& a, const std::pair<K, V>& b) { return Io<K>::Same(a.first, b.first) && Io<V>::Same(a.second, b.second); }
		static bool Canon(const NodePtr& n, std::string& out)
		{
			if (!n->contains<SettingsValueList>()) return false;
			const SettingsValueList& l = n->get<SettingsValueList>(); if (l.size() != 2) return false;
			bool ok = true; const std::string a = CanonOf<K>(l[0], ok), b = CanonOf<V>(l[1], ok); out = "[" + a + "," + b + "]"; return ok;
		}
	};
	template < typename C > struct SeqIo
	{
		typedef typename C::value_type T;
		static C Gen(vh::Rng& rng, int d) { C c; for (size_t n = d > 2 ? rng.Below(2) : rng.Below(5); n; --n) c.insert(c.end(), Io<T>::Gen(rng, d + 1)); return c; }
		static bool Same(const C& a, const C& b) { if (a.size() != b.size()) return false; auto i = a.begin(); for (auto j = b.begin(); j != b.end(); ++i, ++j) if (!Io<T>::Same(*i, *j)) return false; return true; }
		static bool Canon(const NodePtr& n, std::string& out) { if (!n->contains<SettingsValueList>()) return false; bool ok = true; out = "["; bool first = true; for (const NodePtr& c : n->get<SettingsValueList>()) { out += (first ? "" : ",") + CanonOf<T>(c, ok); first = false; } out += "]"; return ok; }
	};
	template < typename T > struct Io<std::vector<T> > : SeqIo<std::vector<T> > { };
	template < typename T > struct Io<std::list<T> > : SeqIo<std::list<T> > { };
	template < typename T > struct Io<std::deque<T> > : SeqIo<std::deque<T> > { };
	template < > struct Io<std::set<std::string> > : SeqIo<std::set<std::string> >
	{
		static bool Canon(const NodePtr& n, std::string& out) { std::string raw; if (!SeqIo<std::set<std::string> >::Canon(n, raw)) return false; std::set<std::string> s; for (const NodePtr& c : n->get<SettingsValueList>()) s.insert(c->get<std::string>()); out = ""; for (const std::string& e : s) out += (out.empty() ? "" : ",") + Quote(e); out = "[" + out + "]"; return true; }
	};
	template < typename M, typename K, typename V, bool Strings > struct MapIo
	{
		static M Gen(vh::Rng& rng, int d) { M m; for (size_t n = rng.Below(4); n; --n) { K k = Io<K>::Gen(rng, d + 1); m.insert(std::make_pair(k, Io<V>::Gen(rng, d + 1))); } return m; }
		static bool Same(const M& a, const M& b) { if (a.size() != b.size()) return false; auto i = a.begin(); for (auto j = b.begin(); j != b.end(); ++i, ++j) if (!Io<K>::Same(i->first, j->first) || !Io<V>::Same(i->second, j->second)) return false; return true; }
		static K KeyOf(const NodePtr& n, std::string*) { return n->get<std::string>(); }
		static K KeyOf(const NodePtr& n, int*) { return (K)n->get<s64>(); }
		static std::string ShowKey(const std::string& k) { return Quote(k); }
		static std::string ShowKey(int k) { return std::to_string(k); }
		static bool Canon(const NodePtr& n, std::string& out)
		{
			std::map<K, std::string> m; bool ok = true;   // the first of equal keys stays
			if (Strings && n->contains<SettingsValueMap>()) { for (const auto& c : n->get<SettingsValueMap>()) m.insert(std::make_pair(Named(c.first, (K*)nullptr), CanonOf<V>(c.second, ok))); }
			else if (n->contains<SettingsValueList>())
				for (const NodePtr& c : n->get<SettingsValueList>()) { std::string pair; if (!Io<std::pair<K, V> >::Canon(c, pair)) { ok = false; break; } m.insert(std::make_pair(KeyOf(c->get<SettingsValueList>()[0], (K*)nullptr), CanonOf<V>(c->get<SettingsValueList>()[1], ok))); }
			else return false;
			out = ""; for (const auto& e : m) out += (out.empty() ? "" : ",") + ("[" + ShowKey(e.first) + "," + e.second + "]"); out = "[" + out + "]"; return ok;
		}
		static std::string Named(const std::string& s, std::string*) { return s; }
		static int Named(const std::string&, int*) { return 0; }
	};
	template < typename V > struct Io<std::map<int, V> > : MapIo<std::map<int, V>, int, V, false> { };
	template < typename V > struct Io<std::map<std::string, V> > : MapIo<std::map<std::string, V>, std::string, V, true> { };

	template < typename V > struct VariantIo
	{
		typedef typename V::Types Types;
		static const size_t Count = GetTypeListLength<Types>::Value;
		template < size_t I, typename = void > struct At
		{
			typedef typename GetTypeListItem<Types, I>::ValueT T;
			template < typename U > static void Make(vh::Rng& rng, int d, V& v, U*) { v = Io<U>::Gen(rng, d + 1); }
			static void Make(vh::Rng&, int, V& v, EmptyType*) { v = EmptyType(); }
			static void Gen(vh::Rng& rng, int d, size_t i, V& v) { if (i == I) Make(rng, d, v, (T*)nullptr); else At<I + 1>::Gen(rng, d, i, v); }
			template < typename U > static bool Eq(const V& a, const V& b, U*) { return Io<U>::Same(a.template get<U>(), b.template get<U>()); }
			static bool Eq(const V&, const V&, EmptyType*) { return true; }
			static bool Same(const V& a, const V& b) { return a.which() == I ? Eq(a, b, (T*)nullptr) : At<I + 1>::Same(a, b); }
			template < typename U > static bool Obj(const SettingsValueMap& m, std::string& out, U*) { if (!m.count("obj") || !Io<U>::Canon(m.at("obj"), out)) return false; out = "{\"index\":" + std::to_string(I) + ",\"obj\":" + out + "}"; return true; }
			static bool Obj(const SettingsValueMap&, std::string& out, EmptyType*) { out = "{\"index\":" + std::to_string(I) + "}"; return true; }
			static bool Canon(size_t i, const SettingsValueMap& m, std::string& out) { return i == I ? Obj(m, out, (T*)nullptr) : At<I + 1>::Canon(i, m, out); }
		};
		template < size_t I > struct At<I, typename std::enable_if<I == Count>::type>
		{
			static void Gen(vh::Rng&, int, size_t, V&) { } static bool Same(const V&, const V&) { return true; } static bool Canon(size_t, const SettingsValueMap&, std::string&) { return false; }
		};
		static V Gen(vh::Rng& rng, int d) { V v; At<0>::Gen(rng, d, rng.Below(Count), v); return v; }
		static bool Same(const V& a, const V& b) { return a.which() == b.which() && At<0>::Same(a, b); }
		static bool Canon(const NodePtr& n, std::string& out)
		{
			if (!n->contains<SettingsValueMap>()) return false;
			const SettingsValueMap& m = n->get<SettingsValueMap>(); if (!m.count("index") || !m.at("index")->contains<s64>()) return false;
			return At<0>::Canon((size_t)m.at("index")->get<s64>(), m, out);
		}
	};
	typedef variant<TypeList<EmptyType, int, std::string, std::vector<int> > > LooseVariant;
	typedef variant<TypeList<bool, double, std::pair<int, std::string> > > TightVariant;
	template < > struct Io<LooseVariant> : VariantIo<LooseVariant> { };
	template < > struct Io<TightVariant> : VariantIo<TightVariant> { };

	// ---- objects
	struct Member { const NodePtr n; const SettingsValueMap& m; bool ok; std::string out;
		Member(const NodePtr& n_) : n(n_), m(n_->get<SettingsValueMap>()), ok(true) { }
		void Add(const std::string& name, const std::string& s) { out += (out.empty() ? "" : ",") + Quote(name) + ":" + s; }
		template < typename T > void Required(const std::string& name) { if (!m.count(name)) { ok = false; return; } Add(name, CanonOf<T>(m.at(name), ok)); }
		template < typename T > void Optional(const std::string& name) { if (!m.count(name)) return; const std::string s = CanonOf<optional<T> >(m.at(name), ok); if (s != "null") Add(name, s); }
		template < typename T > void Defaulted(const std::string& name, const std::string& def) { Add(name, m.count(name) ? CanonOf<T>(m.at(name), ok) : def); }
		bool Done(std::string& o) { o = "{" + out + "}"; return ok; }
	};

	class Point
	{
	public:
		int x; optional<std::string> label; std::vector<double> weights; u8 level;
		Point() : x(0), level(0) { }
		void Serialize(ObjectOStream& ar) const { ar.Serialize("label", label); ar.Serialize("level", level); ar.Serialize("weights", weights); ar.Serialize("x", x); }
		void Deserialize(ObjectIStream& ar) { ar.Deserialize("label", label); ar.Deserialize("level", *MakeIntegerDeserializer(level), (u8)9); ar.Deserialize("weights", weights); ar.Deserialize("x", x); }
	};
	template < > struct Io<Point>
	{
		static Point Gen(vh::Rng& rng, int d) { Point p; p.x = Io<int>::Gen(rng, d); p.label = Io<optional<std::string> >::Gen(rng, d); p.weights = Io<std::vector<double> >::Gen(rng, d); p.level = Io<u8>::Gen(rng, d); return p; }
		static bool Same(const Point& a, const Point& b) { return a.x == b.x && a.label == b.label && Io<std::vector<double> >::Same(a.weights, b.weights) && a.level == b.level; }
		static bool Canon(const NodePtr& n, std::string& out)
		{
			if (!n->contains<SettingsValueMap>()) return false;
			Member m(n); m.Optional<std::string>("label");
			if (!m.m.count("level")) m.Add("level", "9"); else { const NodePtr l = m.m.at("level"); if (!l->contains<s64>() || l->get<s64>() < 0 || l->get<s64>() > 255) return false; m.Add("level", Text(l)); }
			m.Required<std::vector<double> >("weights"); m.Required<int>("x"); return m.Done(out);
		}
	};
	STINGRAYKIT_DECLARE_COMPOSITE(Shape,
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(Color, Fill, a_fill),
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(optional<int>, Width, b_width),
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(std::string, Name, c_name),
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(int, Proxy, d_proxy, StringProxySerializationTag),
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(optional<int>, OptProxy, e_optproxy, StringProxySerializationTag));
	struct ProxyInt { };
	bool ProxyCanon(const NodePtr& n, std::string& out)
	{
		if (!n->contains<std::string>()) return false;
		const std::string s = n->get<std::string>(); char* end; errno = 0; if (s.empty() || !(isdigit((unsigned char)s[0]) || s[0] == '-' || s[0] == '+')) return false;
		const long v = strtol(s.c_str(), &end, 10); if (*end || end != s.c_str() + s.size() || v != (int)v || errno) return false; out = Quote(std::to_string(v)); return true;
	}
	template < > struct Io<Shape>
	{
		static Shape Gen(vh::Rng& rng, int d) { const Color c = Io<Color>::Gen(rng, d); const optional<int> w = Io<optional<int> >::Gen(rng, d), o = Io<optional<int> >::Gen(rng, d); const std::string s = RandomText(rng); return Shape(c, w, s, Io<int>::Gen(rng, d), o); }
		static bool Same(const Shape& a, const Shape& b) { return a.GetFill() == b.GetFill() && a.GetWidth() == b.GetWidth() && a.GetName() == b.GetName() && a.GetProxy() == b.GetProxy() && a.GetOptProxy() == b.GetOptProxy(); }
		static bool Canon(const NodePtr& n, std::string& out)
		{
			if (!n->contains<SettingsValueMap>()) return false;
			Member m(n); m.Required<Color>("a_fill"); m.Optional<int>("b_width"); m.Required<std::string>("c_name"); std::string p;
			if (!m.m.count("d_proxy") || !ProxyCanon(m.m.at("d_proxy"), p)) return false; m.Add("d_proxy", p);
			if (m.m.count("e_optproxy") && !m.m.at("e_optproxy")->contains<EmptyType>()) { if (!ProxyCanon(m.m.at("e_optproxy"), p)) return false; m.Add("e_optproxy", p); }
			return m.Done(out);
		}
	};
	template < > struct Io<ShapePtr>
	{
		static ShapePtr Gen(vh::Rng& rng, int d) { return rng.Chance(1, 4) ? ShapePtr() : make_shared_ptr<Shape>(Io<Shape>::Gen(rng, d)); }
		static bool Same(const ShapePtr& a, const ShapePtr& b) { return !a == !b && (!a || Io<Shape>::Same(*a, *b)); }
		static bool Canon(const NodePtr& n, std::string& out) { if (n->contains<EmptyType>()) { out = "null"; return true; } return Io<Shape>::Canon(n, out); }
	};

	struct INode : public virtual ISerializable { virtual int Id() const = 0; };
	STINGRAYKIT_DECLARE_PTR(INode);
	class Leaf : public virtual INode, public virtual IFactoryObject
	{
	public:
		int v; Leaf() : v(0) { } explicit Leaf(int v_) : v(v_) { }
		int Id() const override { return v; }
		void Serialize(ObjectOStream& ar) const override { ar.Serialize("v", v); }
		void Deserialize(ObjectIStream& ar) override { ar.Deserialize("v", v); }
		STINGRAYKIT_REGISTER_CLASS(Leaf);
	};
	class Branch : public virtual IFactoryObject, public virtual INode
	{
	public:
		std::vector<INodePtr> children; std::map<std::string, INodePtr> named; std::string tag;
		int Id() const override { return -(int)children.size(); }
		void Serialize(ObjectOStream& ar) const override { ar.Serialize("children", children); ar.Serialize("named", named); ar.Serialize("tag", tag); }
		void Deserialize(ObjectIStream& ar) override { ar.Deserialize("children", children); ar.Deserialize("named", named); ar.Deserialize("tag", tag); }
		STINGRAYKIT_REGISTER_CLASS(Branch);
	};
	struct Foreign : public virtual IFactoryObject, public virtual ISerializable   // not an INode
	{
		void Serialize(ObjectOStream&) const override { } void Deserialize(ObjectIStream&) override { }
		STINGRAYKIT_REGISTER_CLASS(Foreign);
	};
	template < > struct Io<INodePtr>
	{
		static INodePtr Gen(vh::Rng& rng, int d)
		{
			if (rng.Chance(1, 8)) return null;
			if (d > 2 || rng.Chance(1, 3)) return make_shared_ptr<Leaf>(Io<int>::Gen(rng, d));
			const shared_ptr<Branch> b = make_shared_ptr<Branch>(); for (size_t n = rng.Below(4); n; --n) b->children.push_back(Gen(rng, d + 1)); for (size_t n = rng.Below(3); n; --n) b->named[RandomText(rng)] = Gen(rng, d + 1); b->tag = RandomText(rng); return b;
		}
		static bool Same(const INodePtr& a, const INodePtr& b)
		{
			if (!a || !b) return !a && !b;
			const Leaf* la = dynamic_cast<const Leaf*>(a.get()); const Leaf* lb = dynamic_cast<const Leaf*>(b.get()); if (la || lb) return la && lb && la->v == lb->v;
			const Branch* x = dynamic_cast<const Branch*>(a.get()); const Branch* y = dynamic_cast<const Branch*>(b.get());
			return x && y && x->tag == y->tag && SeqIo<std::vector<INodePtr> >::Same(x->children, y->children) && MapIo<std::map<std::string, INodePtr>, std::string, INodePtr, true>::Same(x->named, y->named);
		}
		static bool Canon(const NodePtr& n, std::string& out)
		{
			if (n->contains<EmptyType>()) { out = "null"; return true; }
			if (!n->contains<SettingsValueMap>()) return false;
			Member m(n); if (!m.m.count(".class") || !m.m.at(".class")->contains<std::string>()) return false;
			const std::string c = m.m.at(".class")->get<std::string>(); m.Add(".class", Quote(c));
			if (c == "Leaf") m.Required<int>("v");
			else if (c == "Branch") { m.Required<std::vector<INodePtr> >("children"); m.Required<std::map<std::string, INodePtr> >("named"); m.Required<std::string>("tag"); }
			else return false;
			return m.Done(out);
		}
	};

	// ---- library types
	template < > struct Io<Time>
	{
		static Time Gen(vh::Rng& rng, int) { return Time((s64)RandomInt(rng)); }
		static bool Same(const Time& a, const Time& b) { return a == b; }
		static bool Canon(const NodePtr& n, std::string& out) { if (!n->contains<SettingsValueMap>()) return false; Member m(n); m.Required<s64>("ms"); return m.Done(out); }
	};
	template < > struct Io<TimeDuration>
	{
		static TimeDuration Gen(vh::Rng& rng, int) { return TimeDuration::FromMicroseconds(RandomInt(rng)); }
		static bool Same(const TimeDuration& a, const TimeDuration& b) { return a == b; }
		static bool Canon(const NodePtr& n, std::string& out)
		{
			if (!n->contains<SettingsValueMap>()) return false;
			Member m(n); if (m.m.count("us") && !m.m.at("us")->contains<EmptyType>()) { m.Required<s64>("us"); return m.Done(out); }
			if (!m.m.count("ms") || !m.m.at("ms")->contains<s64>()) return false; m.Add("us", std::to_string(m.m.at("ms")->get<s64>() * 1000)); return m.Done(out);
		}
	};
	template < > struct Io<TimeZone>
	{
		static TimeZone Gen(vh::Rng& rng, int) { return TimeZone((s16)rng.Range(-12 * 60, 12 * 60)); }
		static bool Same(const TimeZone& a, const TimeZone& b) { return a.GetMinutesFromUtc() == b.GetMinutesFromUtc(); }
		static bool Canon(const NodePtr& n, std::string& out) { if (!n->contains<SettingsValueMap>()) return false; Member m(n); m.Required<s16>("offset"); return m.Done(out); }
	};
	template < > struct Io<LocaleString>
	{
		static LocaleString Gen(vh::Rng& rng, int) { const Encoding::Enum all[] = { Encoding::ISO_8859_1, Encoding::ISO_8859_16, Encoding::ISO_10646_utf8, Encoding::GB_2312_1980 }; return LocaleString(all[rng.Below(4)], RandomText(rng)); }
		static bool Same(const LocaleString& a, const LocaleString& b) { return a.TextEncoding == b.TextEncoding && a.Text == b.Text; }
	};
	template < > struct Io<TranslatedString>
	{
		static TranslatedString Gen(vh::Rng& rng, int) { TranslatedString::Builder b; for (size_t n = rng.Below(4); n; --n) b.AddTranslation(LangCode(std::string(3, (char)('a' + rng.Below(5)))), RandomText(rng)); if (rng.Chance(1, 4)) b.AddTranslation(LangCode::Any, "any"); return b.Get(); }
		static bool Same(const TranslatedString& a, const TranslatedString& b) { return a == b; }
	};
	typedef std::map<int, std::string> AnyMap;
}
STINGRAYKIT_DECLARE_SERIALIZABLE_ANY_OBJECTHOLDER(AnyMap);
STINGRAYKIT_DEFINE_SERIALIZABLE_ANY_OBJECTHOLDER(AnyMap);
void stingray::Factory::RegisterTypes(const FactoryContextPtr& c)
{
	c->Register<Leaf>("Leaf"); c->Register<Branch>("Branch"); c->Register<Foreign>("Foreign");
	typedef stingray::Detail::any::ObjectHolder<AnyMap> MapHolder; typedef stingray::Detail::any::ObjectHolder<ISerializablePtr> PtrHolder;
	c->Register<MapHolder>(FactoryUtils::RemoveTypePrefix(TypeInfo(typeid(MapHolder)).GetName(), "stingray::")); c->Register<PtrHolder>(FactoryUtils::RemoveTypePrefix(TypeInfo(typeid(PtrHolder)).GetName(), "stingray::"));
}
namespace {
	template < > struct Io<any>
	{
		static any Gen(vh::Rng& rng, int d)
		{
			switch (rng.Below(17))
			{
			case 0: return any(); case 1: return any(Io<bool>::Gen(rng, d)); case 2: return any(Io<char>::Gen(rng, d)); case 3: return any(Io<unsigned char>::Gen(rng, d)); case 4: return any(Io<short>::Gen(rng, d)); case 5: return any(Io<unsigned short>::Gen(rng, d));
			case 6: return any(Io<int>::Gen(rng, d)); case 7: return any(Io<unsigned>::Gen(rng, d)); case 8: return any(Io<long>::Gen(rng, d)); case 9: return any(Io<unsigned long>::Gen(rng, d)); case 10: return any(Io<long long>::Gen(rng, d)); case 11: return any(Io<unsigned long long>::Gen(rng, d));
			case 12: return any(Io<float>::Gen(rng, d)); case 13: return any(Io<double>::Gen(rng, d)); case 14: return any(RandomText(rng)); case 15: return any(AnyMap(Io<AnyMap>::Gen(rng, d)));
			default: { const INodePtr n = Io<INodePtr>::Gen(rng, d); return any(ISerializablePtr(n)); }
			}
		}
		template < typename T > static int Eq(const any& a, const any& b) { const T* x = any_cast<T>(&a); const T* y = any_cast<T>(&b); if (!x && !y) return 0; return x && y && Io<T>::Same(*x, *y) ? 1 : -1; }
		static bool Same(const any& a, const any& b)
		{
			int r = 0;
			for (int e : { Eq<bool>(a, b), Eq<char>(a, b), Eq<unsigned char>(a, b), Eq<short>(a, b), Eq<unsigned short>(a, b), Eq<int>(a, b), Eq<unsigned>(a, b), Eq<long>(a, b), Eq<unsigned long>(a, b), Eq<long long>(a, b), Eq<unsigned long long>(a, b), Eq<float>(a, b), Eq<double>(a, b), Eq<std::string>(a, b), Eq<AnyMap>(a, b) })
			{ if (e < 0) return false; r += e; }
			const ISerializablePtr* x = any_cast<ISerializablePtr>(&a); const ISerializablePtr* y = any_cast<ISerializablePtr>(&b);
			if (x || y) return x && y && Io<INodePtr>::Same(dynamic_caster(*x), dynamic_caster(*y));
			return r == 1 || (a.empty() && b.empty());
		}
	};

	// ---- reading and checking
	template < typename T > NodePtr Write(const T& v) { TreeWriter w; w.Serialize(v); return w.Get(); }
	template < typename T > void Read(const NodePtr& n, T& v) { ObjectIStream(n.get(), nullptr, Factory::Instance().GetRootContext()).Deserialize(v); }

	NodePtr RandomNode(vh::Rng& rng, int d)
	{
		switch (rng.Below(d > 2 ? 7 : 9))
		{
		case 0: return make_self_count_ptr<SettingsValue>(EmptyType());
		case 1: return make_self_count_ptr<SettingsValue>(rng.Bool());
		case 2: return make_self_count_ptr<SettingsValue>((s64)rng.Below(5));
		case 3: return make_self_count_ptr<SettingsValue>((s64)((s64)rng.Next() >> (12 + rng.Below(50))));
		case 4: { const char* const f[] = { "1.5", "-3e10", "0.1", "x", "" }; return make_self_count_ptr<SettingsValue>(FloatString(std::string(f[rng.Below(5)]))); }
		case 5: { const char* const f[] = { "", "hex=", "hex=0aFF", "hex=0", "hex=0g", "hey=00", "Red", "Blue", "Leaf", "Branch", "Foreign", "Nothing", "12", "-5x", "Int" }; return make_self_count_ptr<SettingsValue>(std::string(f[rng.Below(15)])); }
		case 6: { const std::string s = RandomText(rng); return make_self_count_ptr<SettingsValue>(ConstByteArray(ConstByteData((const u8*)s.data(), s.size()))); }
		case 7: { SettingsValueList l; for (size_t n = rng.Below(4); n; --n) l.push_back(RandomNode(rng, d + 1)); return make_self_count_ptr<SettingsValue>(l); }
		default: { SettingsValueMap m; const char* const k[] = { "index", "obj", "x", "d", "o", "ms", "us", ".class", "data" }; for (size_t n = rng.Below(4); n; --n) m[k[rng.Below(9)]] = RandomNode(rng, d + 1); return make_self_count_ptr<SettingsValue>(m); }
		}
	}
	void Replace(const NodePtr& n, const NodePtr& with) { *static_cast<variant<SettingsValueTypes>*>(n.get()) = *static_cast<const variant<SettingsValueTypes>*>(with.get()); }
	NodePtr Mutate(vh::Rng& rng, const NodePtr& original)
	{
		const NodePtr n = Deep(original);
		for (size_t times = 1 + rng.Below(2); times; --times)
		{
			std::vector<NodePtr> all; Collect(n, all); const NodePtr at = all[rng.Below(all.size())];
			if (at->contains<SettingsValueMap>() && rng.Chance(2, 3))
			{
				SettingsValueMap& m = at->get<SettingsValueMap>();
				if (!m.empty() && rng.Bool()) { auto i = m.begin(); std::advance(i, rng.Below(m.size())); if (rng.Bool()) m.erase(i); else i->second = RandomNode(rng, 0); }
				else m[rng.Bool() ? "unknown" : RandomText(rng)] = RandomNode(rng, 1);
			}
			else if (at->contains<SettingsValueList>() && rng.Chance(2, 3))
			{
				SettingsValueList& l = at->get<SettingsValueList>();
				switch (rng.Below(4)) { case 0: if (!l.empty()) l.erase(l.begin() + rng.Below(l.size())); break; case 1: if (!l.empty()) l.push_back(Deep(l[rng.Below(l.size())])); break; case 2: l.insert(l.begin() + rng.Below(l.size() + 1), RandomNode(rng, 1)); break; default: if (l.size() > 1) std::swap(l[0], l[rng.Below(l.size())]); }
			}
			else if (at->contains<std::string>() && rng.Chance(1, 2)) { std::string s = at->get<std::string>(); if (!s.empty()) s[rng.Below(s.size())] ^= (char)(1 << rng.Below(8)); *static_cast<variant<SettingsValueTypes>*>(at.get()) = s; }
			else Replace(at, RandomNode(rng, 0));
		}
		return n;
	}

	std::string Why(const std::exception& e) { return std::string(typeid(e).name()) + " " + std::string(e.what()).substr(0, 80); }

	template < typename T > void RoundTrip(vh::Rng& rng, const char* type, T& back)
	{
		const T v = Io<T>::Gen(rng, 0);
		const NodePtr tree = Write(v); const std::string text = Text(tree);
		if (vh_violated()) return;
		try { Read(tree, back); }
		catch (const std::exception& e) { VH_CHECK(false, "serialize:refused-own-output", type << " " << text << ": " << Why(e)); return; }
		VH_CHECK(Io<T>::Same(v, back), "serialize:round-trip", type << " " << text << " became " << Text(Write(back)));
		VH_CHECK(Text(Write(back)) == text, "serialize:second-output", type << " " << text << " then " << Text(Write(back)));
		VH_CHECK(Text(tree) == text, "serialize:input-changed", type << " " << text);
		// the same tree injected into another stream
		{ TreeWriter w; w.Serialize(InjectionSerializer(tree)); VH_CHECK(Text(w.Get()) == text, "serialize:injection", type << " " << text << " became " << Text(w.Get())); }
		vh_distinct(type, vh::HashStr(text));
	}
	template < typename T > bool Accepts(const NodePtr& n, std::string& out, int, decltype(&Io<T>::Canon)* = nullptr) { return Io<T>::Canon(n, out); }

	template < typename T > void Malformed(vh::Rng& rng, const char* type, T& back)
	{
		const NodePtr tree = rng.Chance(1, 5) ? RandomNode(rng, 0) : Mutate(rng, Write(Io<T>::Gen(rng, 0)));
		const std::string text = Text(tree); std::string expected; const bool accept = Io<T>::Canon(tree, expected); bool read = false; std::string why;
		try { Read(tree, back); read = true; }
		catch (const std::exception& e) { why = Why(e); }
		VH_CHECK(read == accept, accept ? "serialize:refused-valid" : "serialize:accepted-malformed", type << " " << text << " " << why << (read ? " read as " + Text(Write(back)) : ""));
		if (read && accept) VH_CHECK(Text(Write(back)) == expected, "serialize:misread", type << " " << text << " read as " << Text(Write(back)) << " instead of " << expected);
		vh_count(accept ? "mutated trees accepted" : "mutated trees refused", 1);
		vh_distinct(type, vh::HashStr(text));
	}
	template < typename T > void Loose(vh::Rng& rng, const char* type)   // types without a reference reader: refused or read as a value that survives
	{
		T back = Io<T>::Gen(rng, 0);
		const NodePtr tree = Mutate(rng, Write(Io<T>::Gen(rng, 0))); const std::string text = Text(tree); bool read = false;
		try { Read(tree, back); read = true; } catch (const std::exception&) { }
		NodePtr again; try { again = Write(back); } catch (const std::exception& e) { VH_CHECK(false, "serialize:unwritable", type << " " << text << ": " << Why(e)); return; }   // also after a refusal the target is a valid object
		if (read) { T third = Io<T>::Gen(rng, 0); try { Read(again, third); } catch (const std::exception& e) { VH_CHECK(false, "serialize:unstable", type << " " << text << ": " << Why(e)); return; } VH_CHECK(Text(Write(third)) == Text(again), "serialize:unstable", type << " " << text << " " << Text(again)); }
		vh_count("mutated trees of library types", 1); vh_distinct(type, vh::HashStr(text));
	}
	// into a fresh object and into one that already holds something
	template < typename T > void Both(vh::Rng& rng, const char* type, bool malformed)
	{
		T back = rng.Bool() ? T() : Io<T>::Gen(rng, 0);
		if (malformed) Malformed<T>(rng, type, back); else RoundTrip<T>(rng, type, back);
	}
	template < typename T > void Trip(vh::Rng& rng, const char* type) { T back = rng.Bool() ? T() : Io<T>::Gen(rng, 0); RoundTrip<T>(rng, type, back); }

	void Typed(vh::Rng& rng, bool m)
	{
		#define TYPE(...) Both<__VA_ARGS__>(rng, #__VA_ARGS__, m); break
		switch (rng.Below(38))
		{
		case 0: TYPE(bool); case 1: TYPE(s8); case 2: TYPE(u8); case 3: TYPE(s16); case 4: TYPE(u16); case 5: TYPE(s32); case 6: TYPE(u32); case 7: TYPE(s64); case 8: TYPE(u64); case 9: TYPE(long); case 10: TYPE(unsigned long); case 11: TYPE(float); case 12: TYPE(double); case 13: TYPE(std::string);
		case 14: TYPE(std::vector<u8>); case 15: TYPE(ByteArray); case 16: TYPE(Color); case 17: TYPE(optional<int>); case 18: TYPE(std::pair<int, std::string>); case 19: TYPE(std::vector<int>); case 20: TYPE(std::list<std::string>); case 21: TYPE(std::deque<optional<int> >); case 22: TYPE(std::set<std::string>);
		case 23: TYPE(std::map<int, std::string>); case 24: TYPE(std::map<std::string, std::vector<int> >); case 25: TYPE(LooseVariant); case 26: TYPE(TightVariant); case 27: TYPE(Point); case 28: TYPE(Shape); case 29: TYPE(ShapePtr); case 30: TYPE(INodePtr); case 31: TYPE(std::vector<std::map<std::string, Point> >);
		case 32: TYPE(std::vector<std::pair<Color, optional<ShapePtr> > >); case 33: TYPE(std::map<int, LooseVariant>); case 34: TYPE(std::vector<std::vector<u8> >); case 35: TYPE(Time); case 36: TYPE(TimeDuration); default: TYPE(TimeZone);
		}
		#undef TYPE
	}
}

VH_SCENARIO(round_trip)
{
	switch (rng.Below(12))
	{
	case 0: Trip<any>(rng, "any"); break;
	case 1: Trip<LocaleString>(rng, "LocaleString"); break;
	case 2:
		Trip<TranslatedString>(rng, "TranslatedString");
		{	// copies share their content, reading one must not change the other
			const TranslatedString other = Io<TranslatedString>::Gen(rng, 0), value = Io<TranslatedString>::Gen(rng, 0);
			const std::string was = other.ToString();
			TranslatedString copy(other);
			Read(Write(value), copy);
			VH_CHECK(copy == value, "TranslatedString read over another one", copy.ToString() + " want " + value.ToString());
			VH_CHECK(other.ToString() == was, "reading a TranslatedString changed its copy", other.ToString() + " want " + was);
		}
		break;
	case 3: Trip<BytesOwner>(rng, "BytesOwner"); break;
	case 4: Trip<std::vector<any> >(rng, "vector<any>"); break;
	default: Typed(rng, false);
	}
}

VH_SCENARIO(malformed)
{
	switch (rng.Below(12))
	{
	case 0: Loose<any>(rng, "any"); break;
	case 1: Loose<LocaleString>(rng, "LocaleString"); break;
	case 2: Loose<TranslatedString>(rng, "TranslatedString"); break;
	default: Typed(rng, true);
	}
}

namespace {
	template < typename T > void CheckedInteger(vh::Rng& rng, const char* type)
	{
		const s64 v = rng.Chance(1, 3) ? (s64)std::numeric_limits<T>::max() + (std::numeric_limits<T>::max() < 0x7fffffffffffffffll ? rng.Range(-2, 2) : -(s64)rng.Below(3)) : rng.Chance(1, 2) ? (s64)std::numeric_limits<T>::min() + (s64)rng.Below(3) - (sizeof(T) < 8 ? 2 : 0) : RandomInt(rng);
		SettingsValueMap m; m["i"] = make_self_count_ptr<SettingsValue>(v); SettingsValue root(m); T out = 77; bool read = false;
		try { ObjectIStream(&root, nullptr).Deserialize("i", *MakeIntegerDeserializer(out)); read = true; } catch (const std::exception&) { }
		const bool fits = sizeof(T) == 8 || (v >= (s64)std::numeric_limits<T>::min() && v <= (s64)std::numeric_limits<T>::max());
		VH_CHECK(read == fits && (!read || out == (T)v) && (read || out == 77), "serialize:checked-integer", type << " " << v << (read ? " read as " + std::to_string(out) : " refused"));
		vh_distinct(type, (uint64_t)v);
	}

	template < typename C, typename T > void ListLike(vh::Rng& rng, const char* type, C& c, bool set)
	{
		const std::vector<T> v = Io<std::vector<T> >::Gen(rng, 0), old = Io<std::vector<T> >::Gen(rng, 0); std::vector<T> expected;
		for (const T& e : old) c.Add(e);
		Read(Write(v), c);
		FOR_EACH(const T e IN c.GetEnumerator()) expected.push_back(e);
		if (set) VH_CHECK(std::set<T>(v.begin(), v.end()) == std::set<T>(expected.begin(), expected.end()), "serialize:set", type << " " << Text(Write(v)) << " became " << Text(Write(expected)));
		else VH_CHECK(v == expected, "serialize:list", type << " " << Text(Write(v)) << " became " << Text(Write(expected)));
		VH_CHECK(Text(Write(c)) == Text(Write(expected)), "serialize:collection-output", type << " " << Text(Write(c)));
	}
	template < typename C, typename I > void DictLike(vh::Rng& rng, const char* type, I& i, const C& add)
	{
		typedef std::map<int, std::string> M; const M v = Io<M>::Gen(rng, 0); const M old = Io<M>::Gen(rng, 0);
		for (const auto& e : old) add(i, e.first, e.second);
		NodePtr tree = Write(v);
		if (rng.Chance(1, 3)) { SettingsValueMap wrap; wrap["data"] = tree; tree = make_self_count_ptr<SettingsValue>(wrap); }   // the older form
		Read(tree, i);
		M now; typedef KeyValuePair<int, std::string> Pair; FOR_EACH(const Pair e IN i.GetEnumerator()) now.insert(std::make_pair(e.Key, e.Value));
		VH_CHECK(now == v, "serialize:dictionary", type << " " << Text(Write(v)) << " became " << Text(Write(now)));
		VH_CHECK(Text(Write(i)) == Text(Write(v)) || std::string(type) == "ArrayDictionary", "serialize:collection-output", type << " " << Text(Write(i)));
	}
	struct Registry : IObjectSerializator
	{
		mutable std::vector<ISerializablePtr> objects; mutable std::vector<std::string> names;
		PrimaryKeyType GetKey(const std::string& name, const ISerializablePtr& v) const override { for (size_t i = 0; i < objects.size(); ++i) if (objects[i] == v) { if (names[i] != name) vh_violation("serialize:class-name", name.c_str()); return (int)i; } objects.push_back(v); names.push_back(name); return (int)objects.size() - 1; }
		ISerializablePtr GetObject(const std::string& name, PrimaryKeyType key) const override { if (key < 0 || (size_t)key >= objects.size() || names[key] != name) throw std::runtime_error("no such object"); return objects[key]; }
		void ReleaseRef(const std::string&, PrimaryKeyType) const override { }
	};
}

VH_SCENARIO(helpers)
{
	switch (rng.Below(7))
	{
	case 0:
		switch (rng.Below(10)) { case 0: CheckedInteger<s8>(rng, "s8"); break; case 1: CheckedInteger<u8>(rng, "u8"); break; case 2: CheckedInteger<s16>(rng, "s16"); break; case 3: CheckedInteger<u16>(rng, "u16"); break; case 4: CheckedInteger<s32>(rng, "s32"); break; case 5: CheckedInteger<u32>(rng, "u32"); break; case 6: CheckedInteger<s64>(rng, "s64"); break; case 7: CheckedInteger<u64>(rng, "u64"); break; case 8: CheckedInteger<long>(rng, "long"); break; default: CheckedInteger<unsigned long>(rng, "unsigned long"); }
		break;
	case 1:
		switch (rng.Below(4))
		{
		case 0: { ArrayList<std::string> c; ListLike<ArrayList<std::string>, std::string>(rng, "ArrayList", c, false); break; }
		case 1: { SortedSet<std::string> c; ListLike<SortedSet<std::string>, std::string>(rng, "SortedSet", c, true); break; }
		case 2: { typedef ArrayObservableList<std::string> C; C c; ListLike<IList<std::string>, std::string>(rng, "ObservableList", c, false); break; }
		default: { typedef SortedObservableSet<std::string> C; C c; ListLike<ISet<std::string>, std::string>(rng, "ObservableSet", c, true); break; }
		}
		break;
	case 2:
		{
			const auto set = [](IDictionary<int, std::string>& d, int k, const std::string& v) { d.Set(k, v); };
			switch (rng.Below(4))
			{
			case 0: { MapDictionary<int, std::string> c; DictLike(rng, "MapDictionary", c, set); break; }
			case 1: { FlatMapDictionary<int, std::string> c; DictLike(rng, "FlatMapDictionary", c, set); break; }
			case 2: { typedef MapObservableDictionary<int, std::string> C; C c; DictLike(rng, "ObservableDictionary", static_cast<IDictionary<int, std::string>&>(c), set); break; }
			default: { TransactionalDictionary<int, std::string> c; DictLike(rng, "TransactionalDictionary", static_cast<ITransactionalDictionary<int, std::string>&>(c), [](ITransactionalDictionary<int, std::string>& d, int k, const std::string& v) { const auto t = d.StartTransaction(); t->Set(k, v); t->Commit(); }); }
			}
			break;
		}
	case 3: // multi dictionaries and transactional lists
		{
			MultiMapDictionary<int, std::string> c, d; c.Add(1000, "old"); std::vector<std::pair<int, std::string> > v = Io<std::vector<std::pair<int, std::string> > >::Gen(rng, 0); if (!v.empty()) v.push_back(std::make_pair(v[0].first, std::string("twin")));
			Read(Write(v), c); Read(Write(c), d); std::multiset<std::pair<int, std::string> > a, b, e(v.begin(), v.end()); typedef KeyValuePair<int, std::string> Pair;
			FOR_EACH(const Pair p IN c.GetEnumerator()) a.insert(std::make_pair(p.Key, p.Value));
			FOR_EACH(const Pair p IN d.GetEnumerator()) b.insert(std::make_pair(p.Key, p.Value));
			VH_CHECK(a == e && b == e, "serialize:multi-dictionary", Text(Write(v)) << " became " << Text(Write(c)));
			TransactionalList<std::string, comparers::Equals> l; ITransactionalList<std::string>& i = l; { const auto t = i.StartTransaction(); t->Add("old"); t->Commit(); }
			const std::vector<std::string> s = Io<std::vector<std::string> >::Gen(rng, 0); Read(Write(s), i); std::vector<std::string> now; FOR_EACH(const std::string x IN i.GetEnumerator()) now.push_back(x);
			VH_CHECK(now == s && Text(Write(i)) == Text(Write(s)), "serialize:transactional-list", Text(Write(s)) << " became " << Text(Write(now)));
			break;
		}
	case 4: // named bundles of values
		{
			const int a = Io<int>::Gen(rng, 0); const std::string b = RandomText(rng); const std::vector<int> c = Io<std::vector<int> >::Gen(rng, 0);
			const NodePtr tree = Write(MakeSerializationHelper(std::make_pair("a", a), std::make_pair("b", b), std::make_pair("c", c)));
			SerializationHelper<int, std::string, std::vector<int> > back(std::string("a"), std::string("b"), std::string("c"));
			Read(tree, *back);
			VH_CHECK(back.GetValue<0>() == a && back.GetValue<1>() == b && back.GetValue<2>() == c, "serialize:helper", Text(tree));
			SerializationHelper<int, int> wrong(std::string("a"), std::string("missing")); bool refused = false; try { Read(tree, wrong); } catch (const std::exception&) { refused = true; } VH_CHECK(refused, "serialize:helper-missing", Text(tree));
			// members written only when present, members read with a default
			TreeWriter w; optional<int> none; w.GetRawObjectStream(); struct Probe { const optional<int> o; const int v; void Serialize(ObjectOStream& ar) const { ar.Serialize("o", o); ar.Serialize("v", v); } } probe = { rng.Bool() ? optional<int>(a) : none, a };
			w.Serialize(probe); const NodePtr t = w.Get(); optional<int> o(5); int v = 0, def = 0; ObjectIStream in(t.get(), nullptr); in.Deserialize("o", o); in.Deserialize("v", v); in.Deserialize("absent", def, 31);
			VH_CHECK(o == probe.o && v == a && def == 31, "serialize:defaults", Text(t));
			break;
		}
	case 5: // shared objects kept by a registry are restored as the same objects
		{
			Registry reg; const shared_ptr<Branch> root = make_shared_ptr<Branch>(); std::vector<INodePtr> pool; for (size_t n = 1 + rng.Below(4); n; --n) pool.push_back(Io<INodePtr>::Gen(rng, 2)); for (size_t n = rng.Below(6); n; --n) root->children.push_back(pool[rng.Below(pool.size())]); for (size_t n = rng.Below(4); n; --n) root->named[RandomText(rng)] = pool[rng.Below(pool.size())];
			const INodePtr top = root; TreeWriter w(&reg, true); w.Serialize(top); const NodePtr tree = w.Get(); INodePtr back; ObjectIStream(tree.get(), &reg, Factory::Instance().GetRootContext(), true).Deserialize(back);
			const Branch* b = dynamic_cast<const Branch*>(back.get());
			VH_CHECK(b && back != top && b->children == root->children && b->named == root->named, "serialize:registry", Text(tree));
			if (!root->children.empty() && root->children[0]) { SettingsValueMap& m = tree->get<SettingsValueMap>().at("children")->get<SettingsValueList>()[0]->get<SettingsValueMap>(); *static_cast<variant<SettingsValueTypes>*>(m.at(".pk").get()) = (s64)1000; bool refused = false; try { INodePtr x; ObjectIStream(tree.get(), &reg, Factory::Instance().GetRootContext(), true).Deserialize(x); } catch (const std::exception&) { refused = true; } VH_CHECK(refused, "serialize:registry-key", Text(tree)); }
			break;
		}
	default: // class names: unknown and unfitting classes are refused, contexts chain
		{
			const FactoryContextPtr derived = make_shared_ptr<FactoryContext>(Factory::Instance().GetRootContext()); derived->Register<Leaf>("Extra"); bool twice = false; try { derived->Register<Leaf>("Extra"); } catch (const std::exception&) { twice = true; }
			const unique_ptr<INode> made(derived->Create<INode>("Extra")), inherited(derived->Create<INode>("Branch")); int refused = 0; for (const char* n : { "Unknown", "Foreign", "" }) try { derived->Create<INode>(n); } catch (const std::exception&) { ++refused; }
			VH_CHECK(twice && dynamic_cast<Leaf*>(made.get()) && dynamic_cast<Branch*>(inherited.get()) && refused == 3 && derived->GetClassName(typeid(Leaf)) == "Extra" && derived->GetClassName(typeid(Branch)) == "Branch", "serialize:factory", "contexts");
			bool unknown = false; try { derived->GetClassName(typeid(Point)); } catch (const std::exception&) { unknown = true; } VH_CHECK(unknown, "serialize:factory", "unregistered class");
		}
	}
}
