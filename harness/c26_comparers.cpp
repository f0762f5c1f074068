// C26: comparers. Monitors: every comparer's result on every pair of a random group of values is checked against a reference
// order computed from plain members; comparers without one are checked against the order axioms on every triple.
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/string/ToString.h>
#include "vh.h"
#include <map>
#include <algorithm>
#include <stingraykit/compare/comparers.h>
#include <stingraykit/compare/CollectionComparer.h>
#include <stingraykit/compare/Comparable.h>
#include <stingraykit/compare/IFuzzyEquatable.h>
#include <stingraykit/compare/MemberListComparer.h>
#include <stingraykit/compare/MemberToValueComparer.h>
#include <stingraykit/string/Comparers.h>
#include <stingraykit/string/Unicode.h>
#include <stingraykit/string/TranslatedString.h>
#include <stingraykit/locale/LocaleString.h>
#include <stingraykit/locale/LangCode.h>
#include <stingraykit/log/LoggerMessage.h>
#include <stingraykit/collection/KeyValuePair.h>
#include <stingraykit/collection/DiffEntry.h>
#include <stingraykit/collection/ByteData.h>
#include <stingraykit/collection/array.h>
#include <stingraykit/collection/flat_map.h>
#include <stingraykit/collection/flat_set.h>
#include <stingraykit/collection/ordered_map.h>
#include <stingraykit/collection/ordered_set.h>
#include <stingraykit/time/BrokenDownTime.h>
#include <stingraykit/time/Time.h>
#include <stingraykit/variant.h>
#include <stingraykit/optional.h>
#include <stingraykit/self_counter.h>
#include <stingraykit/BigNum.h>
#include <stingraykit/Decimal.h>
#include <stingraykit/UUID.h>
#include <stingraykit/Version.h>
#include <stingraykit/Size.h>
#include <stingraykit/Rect.h>
#include <list>
#include <deque>
#include <climits>

using namespace stingray;

static int Sgn(s64 v) { return v < 0 ? -1 : v > 0; }
static int Ord(s64 a, s64 b) { return a < b ? -1 : a > b; }
template < typename C > static int LexOrd(const C& a, const C& b)
{
	auto i = a.begin(); auto j = b.begin();
	for (; i != a.end() && j != b.end(); ++i, ++j) if (int r = Ord(*i, *j)) return r;
	return i != a.end() ? 1 : j != b.end() ? -1 : 0;
}

// three-way comparer cmp against the reference on all pairs, and everything derived from it
template < typename Cmp, typename V, typename R > static void CheckCmp(const char* name, const Cmp& cmp, const V& v, const R& ref)
{
	const comparers::CmpToLess<Cmp> less(cmp); const comparers::CmpToGreater<Cmp> greater(cmp); const comparers::CmpToEquals<Cmp> equals(cmp);
	const comparers::LessToCmp<comparers::CmpToLess<Cmp> > back(less); const comparers::LessToEquals<comparers::CmpToLess<Cmp> > eq2(less);
	static_assert(comparers::IsCmpComparer<Cmp>::Value, "");
	for (size_t i = 0; i < v.size(); ++i) for (size_t k = 0; k < v.size(); ++k)
	{
		const int e = Sgn(ref(i, k));
		const int c = cmp(v[i], v[k]);
		VH_CHECK(Sgn(c) == e, std::string("compare:cmp:") + name, "items " << i << " and " << k << ": " << c << " instead of " << e);
		VH_CHECK(less(v[i], v[k]) == (e < 0) && greater(v[i], v[k]) == (e > 0) && equals(v[i], v[k]) == (e == 0) && back(v[i], v[k]) == e && eq2(v[i], v[k]) == (e == 0),
			std::string("compare:derived:") + name, "items " << i << " and " << k << ", expected " << e);
	}
}
template < typename L, typename G, typename E, typename V, typename R > static void CheckLess(const char* name, const L& less, const G& greater, const E& equals, const V& v, const R& ref)
{
	for (size_t i = 0; i < v.size(); ++i) for (size_t k = 0; k < v.size(); ++k)
	{
		const int e = Sgn(ref(i, k));
		VH_CHECK(less(v[i], v[k]) == (e < 0), std::string("compare:less:") + name, "items " << i << " and " << k << ", expected " << e);
		VH_CHECK(greater(v[i], v[k]) == (e > 0), std::string("compare:greater:") + name, "items " << i << " and " << k << ", expected " << e);
		VH_CHECK(equals(v[i], v[k]) == (e == 0), std::string("compare:equals:") + name, "items " << i << " and " << k << ", expected " << e);
	}
}
template < typename V, typename R > static void CheckGeneric(const char* name, const V& v, const R& ref)
{
	CheckCmp(name, comparers::Cmp(), v, ref);
	CheckLess(name, comparers::Less(), comparers::Greater(), comparers::Equals(), v, ref);
}
template < typename V, typename W, typename R > static void CheckOps2(const char* name, const V& v, const W& w, const R& ref)
{
	for (size_t i = 0; i < v.size(); ++i) for (size_t k = 0; k < w.size(); ++k)
	{
		const int e = Sgn(ref(i, k));
		const auto& a = v[i]; const auto& b = w[k];
		VH_CHECK((a < b) == (e < 0) && (a > b) == (e > 0) && (a <= b) == (e <= 0) && (a >= b) == (e >= 0), std::string("compare:relational:") + name,
			"items " << i << " and " << k << ", expected " << e << ": " << (a < b) << (a > b) << (a <= b) << (a >= b));
		VH_CHECK((a == b) == (e == 0) && (a != b) == (e != 0), std::string("compare:equality:") + name, "items " << i << " and " << k << ", expected " << e << ": " << (a == b) << (a != b));
	}
}
template < typename V, typename R > static void CheckOps(const char* name, const V& v, const R& ref) { CheckOps2(name, v, v, ref); }
// order axioms on all triples
template < typename Cmp, typename V > static void CheckAxioms(const char* name, const Cmp& cmp, const V& v)
{
	const size_t n = v.size();
	std::vector<int> m(n * n);
	for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) m[i * n + k] = Sgn(cmp(v[i], v[k]));
	for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k)
	{
		VH_CHECK(m[i * n + k] == -m[k * n + i] && (i != k || !m[i * n + k]), std::string("compare:antisymmetry:") + name, "items " << i << " and " << k << ": " << m[i * n + k] << " and " << m[k * n + i]);
		for (size_t j = 0; j < n; ++j)
			if (m[i * n + k] <= 0 && m[k * n + j] <= 0)
			{
				const int e = m[i * n + k] < 0 || m[k * n + j] < 0 ? -1 : 0;
				VH_CHECK(m[i * n + j] == e, std::string("compare:transitivity:") + name, "items " << i << ", " << k << ", " << j);
			}
	}
}

static std::string TxtI(s64 v) { return std::to_string((long long)v); }
template < typename T > static std::string TxtI(const std::vector<T>& v);
template < typename T > static std::string Txt(const std::vector<T>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + TxtI(v[i]); return s + "]"; }
template < typename T > static std::string TxtI(const std::vector<T>& v) { return Txt(v); }

namespace {
	typedef std::vector<int> Ints;
	struct WithCompare { int v; explicit WithCompare(int v_ = 0) : v(v_) { } int Compare(const WithCompare& o) const { return v < o.v ? -7 : v > o.v ? 1000 : 0; } };
	struct WithOps { int v; explicit WithOps(int v_ = 0) : v(v_) { } bool operator < (const WithOps& o) const { return v < o.v; } bool operator == (const WithOps& o) const { return v == o.v; } };
	struct FromLess { int a, b; FromLess(int a_, int b_) : a(a_), b(b_) { } bool operator < (const FromLess& o) const { return a != o.a ? a < o.a : b < o.b; } STINGRAYKIT_GENERATE_COMPARISON_OPERATORS_FROM_LESS(FromLess); };
	struct FromCompare { int a, b; FromCompare(int a_, int b_) : a(a_), b(b_) { } int Compare(const FromCompare& o) const { return CompareMembersCmp(&FromCompare::b, &FromCompare::a)(*this, o); } STINGRAYKIT_GENERATE_COMPARISON_OPERATORS_FROM_COMPARE(FromCompare); };
	struct FromEqual { int a; explicit FromEqual(int a_) : a(a_) { } bool operator == (const FromEqual& o) const { return a == o.a; } STINGRAYKIT_GENERATE_EQUALITY_OPERATORS_FROM_EQUAL(FromEqual); };
	struct ReverseCmp : comparers::CmpComparerBase<ReverseCmp> { template < typename T > int DoCompare(const T& l, const T& r) const { return comparers::Cmp()(r, l); } };
	// results as extreme as a three-way comparer may give
	struct ExtremeCmp : comparers::CmpComparerInfo { template < typename T > int operator () (const T& l, const T& r) const { return l < r ? INT_MIN : r < l ? INT_MAX : 0; } };

	struct Obj
	{
		int x; std::string s; shared_ptr<int> p; optional<int> o; Ints c; int z;
		Obj() : x(0), z(0) { }
		int GetX() const { return x; }
		const std::string& GetS() const { return s; }
		std::string GetSCopy() const { return s; }
	};
	struct Derived : Obj { };
	struct CountedObj : Obj, self_counter<CountedObj> { };

	int OrdP(const shared_ptr<int>& a, const shared_ptr<int>& b) { return a && b ? Ord(*a, *b) : a ? 1 : b ? -1 : 0; }
	int OrdO(const optional<int>& a, const optional<int>& b) { return a && b ? Ord(*a, *b) : a ? 1 : b ? -1 : 0; }

	Obj MakeObj(vh::Rng& r)
	{
		Obj o; o.x = (int)r.Below(3) - 1; o.s = std::string(r.Below(3), 'a' + r.Below(2)); o.z = r.Below(2) ? INT_MIN : INT_MAX;
		if (r.Bool()) o.p = make_shared_ptr<int>((int)r.Below(2));
		if (r.Bool()) o.o = (int)r.Below(2);
		for (int n = r.Below(3); n; --n) o.c.push_back(r.Below(2));
		return o;
	}
	int Chain(int a) { return a; }
	template < typename... Ts > int Chain(int a, Ts... rest) { return a ? a : Chain(rest...); }
}

VH_SCENARIO(compare_basic)
{
	const size_t n = 3 + rng.Below(4);
	Ints a; std::vector<s64> l; std::vector<std::string> s; std::vector<WithCompare> wc; std::vector<WithOps> wo; std::vector<double> d;
	std::vector<shared_ptr<int> > p; std::vector<shared_ptr<WithCompare> > pc; std::vector<shared_ptr<shared_ptr<int> > > pp;
	for (size_t i = 0; i < n; ++i)
	{
		a.push_back(rng.Chance(1, 3) ? (rng.Bool() ? INT_MIN : INT_MAX) : (int)rng.Below(3) - 1);
		l.push_back(rng.Interesting()); s.push_back(std::string(rng.Below(4), "ab\xff"[rng.Below(3)])); wc.push_back(WithCompare(a[i])); wo.push_back(WithOps(a[i])); d.push_back(a[i] / 2.0);
		p.push_back(rng.Chance(1, 4) ? shared_ptr<int>() : i && rng.Chance(1, 4) ? p[i - 1] : make_shared_ptr<int>(a[i]));
		pc.push_back(p[i] ? make_shared_ptr<WithCompare>(*p[i]) : shared_ptr<WithCompare>());
		pp.push_back(rng.Chance(1, 4) ? shared_ptr<shared_ptr<int> >() : make_shared_ptr<shared_ptr<int> >(p[i]));
	}
	auto ra = [&](size_t i, size_t k) { return Ord(a[i], a[k]); };
	CheckGeneric("int", a, ra);
	CheckGeneric("s64", l, [&](size_t i, size_t k) { return Ord(l[i], l[k]); });
	CheckGeneric("string", s, [&](size_t i, size_t k) { return Sgn(s[i].compare(s[k])); });
	CheckGeneric("double", d, ra);
	CheckGeneric("with-compare", wc, ra);
	CheckGeneric("with-operators", wo, ra);
	CheckGeneric("shared_ptr", p, [&](size_t i, size_t k) { return OrdP(p[i], p[k]); });
	CheckGeneric("shared_ptr-compare", pc, [&](size_t i, size_t k) { return OrdP(p[i], p[k]); });
	CheckGeneric("shared_ptr-twice", pp, [&](size_t i, size_t k) { return pp[i] && pp[k] ? OrdP(p[i], p[k]) : pp[i] ? 1 : pp[k] ? -1 : 0; });
	CheckCmp("reverse", ReverseCmp(), a, [&](size_t i, size_t k) { return Ord(a[k], a[i]); });
	// null pointers come first whichever way the pointed values are ordered
	CheckCmp("reverse-ptr", ReverseCmp(), p, [&](size_t i, size_t k) { return p[i] && p[k] ? Ord(*p[k], *p[i]) : p[i] ? 1 : p[k] ? -1 : 0; });
	CheckCmp("extreme", ExtremeCmp(), a, ra);
	CheckCmp("from-std-less", comparers::LessToCmp<std::less<int> >(), a, ra);
	CheckCmp("from-std-greater", comparers::LessToCmp<std::greater<int> >(), a, [&](size_t i, size_t k) { return Ord(a[k], a[i]); });
	CheckCmp("from-less", comparers::LessToCmp<comparers::Less>(), a, ra);
	CheckCmp("from-greater", comparers::LessToCmp<comparers::Greater>(), a, [&](size_t i, size_t k) { return Ord(a[k], a[i]); });

	std::vector<FromLess> fl; std::vector<FromCompare> fc; std::vector<FromEqual> fe; std::vector<EmptyType> et(2);
	for (size_t i = 0; i < n; ++i) { fl.push_back(FromLess(a[i], rng.Below(2))); fc.push_back(FromCompare(a[i], rng.Below(2))); fe.push_back(FromEqual(a[i])); }
	auto rl = [&](size_t i, size_t k) { return Chain(Ord(fl[i].a, fl[k].a), Ord(fl[i].b, fl[k].b)); };
	CheckOps("from-less", fl, rl); CheckGeneric("from-less", fl, rl);
	auto rc = [&](size_t i, size_t k) { return Chain(Ord(fc[i].b, fc[k].b), Ord(fc[i].a, fc[k].a)); };
	CheckOps("from-compare", fc, rc); CheckGeneric("from-compare", fc, rc);
	CheckOps("empty", et, [](size_t, size_t) { return 0; });
	for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) VH_CHECK((fe[i] == fe[k]) == (a[i] == a[k]) && (fe[i] != fe[k]) == (a[i] != a[k]), "compare:equality:from-equal", a[i] << " " << a[k]);

	std::vector<CollectionOp> ops; std::vector<int> ov;
	for (size_t i = 0; i < n; ++i) { const int e = rng.Below(3); ov.push_back(e); ops.push_back(e == 0 ? CollectionOp::Removed : e == 1 ? CollectionOp::Added : CollectionOp::Updated); }
	CheckOps("enum", ops, [&](size_t i, size_t k) { return Ord(ops[i].val(), ops[k].val()); });
	CheckGeneric("enum", ops, [&](size_t i, size_t k) { return Ord(ops[i].val(), ops[k].val()); });
	vh_distinct("groups", vh::HashStr(Txt(a) + Txt(l))); vh_count("groups", 1);
}

VH_SCENARIO(compare_collections)
{
	const size_t n = 3 + rng.Below(4);
	std::vector<Ints> v; std::vector<std::list<int> > w; std::vector<std::vector<Ints> > vv; std::vector<shared_ptr<Ints> > pv; std::vector<std::string> s; std::vector<std::map<int, int> > mp;
	std::vector<std::vector<shared_ptr<int> > > vp;
	for (size_t i = 0; i < n; ++i)
	{
		Ints c; if (i && rng.Chance(1, 3)) c = v[rng.Below(i)]; if (rng.Chance(1, 5) && !c.empty()) c.pop_back(); else for (int k = rng.Below(3); k; --k) c.push_back((int)rng.Below(3) - 1);
		v.push_back(c); w.push_back(std::list<int>(c.begin(), c.end()));
		vv.push_back(std::vector<Ints>()); for (int k = rng.Below(3); k; --k) vv[i].push_back(v[rng.Below(i + 1)]);
		pv.push_back(rng.Chance(1, 4) ? shared_ptr<Ints>() : make_shared_ptr<Ints>(c));
		s.push_back(std::string(rng.Below(3), 'a' + rng.Below(2)) + std::string(rng.Below(2), 'b'));
		mp.push_back(std::map<int, int>()); for (size_t k = 0; k < c.size(); ++k) mp[i][c[k]] = k;
		vp.push_back(std::vector<shared_ptr<int> >()); for (size_t k = 0; k < c.size(); ++k) vp[i].push_back(c[k] < 0 ? shared_ptr<int>() : make_shared_ptr<int>(c[k]));
	}
	auto rv = [&](size_t i, size_t k) { return LexOrd(v[i], v[k]); };
	CheckCmp("vector", CollectionCmp(), v, rv);
	CheckCmp("list", CollectionCmp(), w, rv);
	CheckLess("vector", CollectionLess(), CollectionGreater(), CollectionEquals(), v, rv);
	for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k)
		VH_CHECK(Sgn(CollectionCmp()(v[i], w[k])) == rv(i, k) && Sgn(CollectionCmp()(w[i], v[k])) == rv(i, k) && CollectionLess()(v[i], w[k]) == (rv(i, k) < 0), "compare:cmp:vector-list", Txt(v[i]) << " " << Txt(v[k]));
	CheckCmp("vector-ptr", CollectionCmp(), pv, [&](size_t i, size_t k) { return pv[i] && pv[k] ? LexOrd(*pv[i], *pv[k]) : pv[i] ? 1 : pv[k] ? -1 : 0; });
	CheckCmp("vector-of-ptr", CollectionCmp(), vp, [&](size_t i, size_t k) { return rv(i, k); });
	CheckCmp("string-chars", CollectionCmp(), s, [&](size_t i, size_t k) { return Sgn(s[i].compare(s[k])); });
	CheckCmp("vector-reverse", CollectionComparer<ReverseCmp>(), v, [&](size_t i, size_t k)
		{
			Ints a, b; for (size_t j = 0; j < v[i].size(); ++j) a.push_back(-v[i][j]); for (size_t j = 0; j < v[k].size(); ++j) b.push_back(-v[k][j]);
			return LexOrd(a, b);
		});
	CheckCmp("vector-extreme", CollectionComparer<ExtremeCmp>(), v, rv);
	CheckCmp("nested", CollectionComparer<CollectionCmp>(), vv, [&](size_t i, size_t k)
		{
			for (size_t j = 0; j < vv[i].size() && j < vv[k].size(); ++j) if (int r = LexOrd(vv[i][j], vv[k][j])) return r;
			return Ord(vv[i].size(), vv[k].size());
		});

	// collections with operators of their own
	auto lexp = [](const std::vector<std::pair<int, int> >& a, const std::vector<std::pair<int, int> >& b) { for (size_t j = 0; j < a.size() && j < b.size(); ++j) if (int r = Chain(Ord(a[j].first, b[j].first), Ord(a[j].second, b[j].second))) return r; return Ord(a.size(), b.size()); };
	std::vector<flat_set<int> > fs; std::vector<flat_map<int, int> > fm; std::vector<ordered_set<int> > os; std::vector<ordered_map<int, int> > om; std::vector<Ints> sorted; std::vector<std::vector<std::pair<int, int> > > pairs, inserted; std::vector<Ints> uniq;
	std::vector<array<int, 3> > ar; std::vector<ByteArray> ba; std::vector<ConstByteData> bd; std::deque<std::vector<u8> > bytes; std::vector<std::vector<u8> > bytesCopy;
	for (size_t i = 0; i < n; ++i)
	{
		fs.push_back(flat_set<int>()); os.push_back(ordered_set<int>()); fm.push_back(flat_map<int, int>()); om.push_back(ordered_map<int, int>()); inserted.push_back(std::vector<std::pair<int, int> >()); uniq.push_back(Ints());
		for (size_t k = 0; k < v[i].size(); ++k)
		{
			fs[i].insert(v[i][k]);
			const int val = (int)(k & 1);
			if (!fm[i].count(v[i][k])) { fm[i].insert(std::make_pair(v[i][k], val)); om[i].insert(std::make_pair(v[i][k], val)); os[i].insert(v[i][k]); inserted[i].push_back(std::make_pair(v[i][k], val)); uniq[i].push_back(v[i][k]); }
		}
		sorted.push_back(Ints(uniq[i])); std::sort(sorted[i].begin(), sorted[i].end());
		pairs.push_back(inserted[i]); std::sort(pairs[i].begin(), pairs[i].end());
		array<int, 3> x; for (int k = 0; k < 3; ++k) x[k] = k < (int)v[i].size() ? v[i][k] : -5; ar.push_back(x);
		bytes.push_back(std::vector<u8>()); for (size_t k = 0; k < v[i].size(); ++k) bytes[i].push_back((u8)v[i][k]);
		if (bytes[i].empty()) bytes[i].reserve(1);
		ba.push_back(ByteArray(bytes[i])); bd.push_back(ConstByteData(bytes[i]));
	}
	bytesCopy.assign(bytes.begin(), bytes.end());
	auto rb = [&](size_t i, size_t k) { return LexOrd(bytesCopy[i], bytesCopy[k]); };
	CheckOps("flat_set", fs, [&](size_t i, size_t k) { return LexOrd(sorted[i], sorted[k]); });
	CheckOps("flat_map", fm, [&](size_t i, size_t k) { return lexp(pairs[i], pairs[k]); });
	CheckOps("ordered_set", os, [&](size_t i, size_t k) { return LexOrd(uniq[i], uniq[k]); });
	CheckOps("ordered_map", om, [&](size_t i, size_t k) { return lexp(inserted[i], inserted[k]); });
	CheckOps("array", ar, [&](size_t i, size_t k) { return LexOrd(std::vector<int>(ar[i].begin(), ar[i].end()), std::vector<int>(ar[k].begin(), ar[k].end())); });
	CheckOps("ByteArray", ba, rb); CheckOps("ConstByteData", bd, rb); CheckGeneric("ByteArray", ba, rb);
	vh_distinct("collections", vh::HashStr(Txt(v))); vh_count("groups", 1);
}

VH_SCENARIO(compare_members)
{
	const size_t n = 3 + rng.Below(4);
	std::vector<Obj> v; std::vector<Derived> dv; std::vector<shared_ptr<Obj> > pv;
	for (size_t i = 0; i < n; ++i)
	{
		v.push_back(i && rng.Chance(1, 3) ? v[rng.Below(i)] : MakeObj(rng));
		if (i && rng.Bool()) { const Obj o = MakeObj(rng); const Obj& w = v[rng.Below(i)]; v[i] = w; switch (rng.Below(6)) { case 0: v[i].x = o.x; break; case 1: v[i].s = o.s; break; case 2: v[i].p = o.p; break; case 3: v[i].o = o.o; break; case 4: v[i].c = o.c; break; case 5: v[i].z = o.z; break; } }
		Derived d; static_cast<Obj&>(d) = v[i]; dv.push_back(d);
		pv.push_back(rng.Chance(1, 5) ? shared_ptr<Obj>() : make_shared_ptr<Obj>(v[i]));
	}
	auto x = [&](size_t i, size_t k) { return Ord(v[i].x, v[k].x); }; auto s = [&](size_t i, size_t k) { return Sgn(v[i].s.compare(v[k].s)); };
	auto p = [&](size_t i, size_t k) { return OrdP(v[i].p, v[k].p); }; auto o = [&](size_t i, size_t k) { return OrdO(v[i].o, v[k].o); };
	auto c = [&](size_t i, size_t k) { return LexOrd(v[i].c, v[k].c); }; auto z = [&](size_t i, size_t k) { return Ord(v[i].z, v[k].z); };
	CheckCmp("members-x", CompareMembersCmp(&Obj::x), v, x);
	CheckCmp("members-xspoz", CompareMembersCmp(&Obj::x, &Obj::s, &Obj::p, &Obj::o, &Obj::z), v, [&](size_t i, size_t k) { return Chain(x(i, k), s(i, k), p(i, k), o(i, k), z(i, k)); });
	CheckCmp("members-zopsx", CompareMembersCmp(&Obj::z, &Obj::o, &Obj::p, &Obj::GetS, &Obj::GetX), v, [&](size_t i, size_t k) { return Chain(z(i, k), o(i, k), p(i, k), s(i, k), x(i, k)); });
	CheckCmp("members-getters", CompareMembersCmp(&Obj::GetX, &Obj::GetSCopy, &Obj::z), v, [&](size_t i, size_t k) { return Chain(x(i, k), s(i, k), z(i, k)); });
	CheckCmp("members-derived", CompareMembersCmp(&Derived::s, &Obj::z, &Derived::GetX), dv, [&](size_t i, size_t k) { return Chain(s(i, k), z(i, k), x(i, k)); });
	CheckCmp("members-custom", CompareMembersCmp(CustomMemberComparer(&Obj::x, ReverseCmp()), CustomMemberComparer(&Obj::c, CollectionCmp()), &Obj::z, CustomMemberComparer(&Obj::GetS, ReverseCmp())), v,
		[&](size_t i, size_t k) { return Chain(-x(i, k), c(i, k), z(i, k), -s(i, k)); });
	CheckCmp("members-custom2", CompareMembersCmp(CustomMemberComparer(&Obj::z, ExtremeCmp()), CustomMemberComparer(&Obj::p, PointerCmp()), CustomMemberComparer(&Obj::o, OptionalCmp<ReverseCmp>())), v,
		[&](size_t i, size_t k) { return Chain(z(i, k), Ord((s64)v[i].p.get(), (s64)v[k].p.get()), v[i].o && v[k].o ? Ord(*v[k].o, *v[i].o) : v[i].o ? 1 : v[k].o ? -1 : 0); });
	auto xsz = [&](size_t i, size_t k) { return Chain(x(i, k), s(i, k), z(i, k)); };
	CheckLess("members", CompareMembersLess(&Obj::x, &Obj::GetS, &Obj::z), CompareMembersGreater(&Obj::x, &Obj::GetS, &Obj::z), CompareMembersEquals(&Obj::x, &Obj::GetS, &Obj::z), v, xsz);
	CheckCmp("members-ptr", CompareMembersCmp(&Obj::x, &Obj::s, &Obj::z), pv, [&](size_t i, size_t k) { return pv[i] && pv[k] ? xsz(i, k) : pv[i] ? 1 : pv[k] ? -1 : 0; });
	CheckCmp("members-nested", CompareMembersCmp(CustomMemberComparer(&Obj::x, CompareMembersCmp()), &Obj::z), v, z);

	// one member against a value
	{
		std::vector<Obj> sorted(v); std::stable_sort(sorted.begin(), sorted.end(), CompareMembersLess(&Obj::x));
		Ints xs; for (size_t i = 0; i < n; ++i) xs.push_back(sorted[i].x);
		std::vector<Obj*> rp; std::vector<const Obj*> rcp; std::vector<shared_ptr<Obj> > sp; std::vector<self_count_ptr<CountedObj> > scp; std::vector<unique_ptr<Obj> > up;
		for (size_t i = 0; i < n; ++i) { VH_CHECK(!i || xs[i - 1] <= xs[i], "compare:sort", Txt(xs)); rp.push_back(&sorted[i]); rcp.push_back(&sorted[i]); sp.push_back(make_shared_ptr<Obj>(sorted[i])); up.push_back(make_unique_ptr<Obj>(sorted[i])); self_count_ptr<CountedObj> q(new CountedObj); static_cast<Obj&>(*q) = sorted[i]; scp.push_back(q); }
		for (int val = -2; val < 3; ++val)
		{
			const long lo = std::lower_bound(xs.begin(), xs.end(), val) - xs.begin(), hi = std::upper_bound(xs.begin(), xs.end(), val) - xs.begin();
#define BOUNDS(C_) (std::lower_bound(C_.begin(), C_.end(), val, CompareMemberLess(&Obj::x)) - C_.begin() == lo && std::upper_bound(C_.begin(), C_.end(), val, CompareMemberLess(&Obj::x)) - C_.begin() == hi)
			VH_CHECK(BOUNDS(sorted) && BOUNDS(rp) && BOUNDS(rcp) && BOUNDS(sp) && BOUNDS(scp) && BOUNDS(up), "compare:member-bounds", Txt(xs) << " " << val);
#define COUNT(C_, ...) std::count_if(C_.begin(), C_.end(), __VA_ARGS__)
			const long less = lo, equal = hi - lo;
			VH_CHECK(COUNT(sorted, CompareMemberToValue<comparers::Less>(&Obj::x, val)) == less && COUNT(sp, CompareMemberToValue<comparers::Equals>(&Obj::x, val)) == equal && COUNT(rp, CompareMemberToValue<comparers::Greater>(&Obj::GetX, val)) == (long)n - less - equal
				&& COUNT(up, CompareMemberToValue<std::less>(&Obj::x, val)) == less && COUNT(scp, CompareMemberToValue<std::equal_to>(&Obj::GetX, val)) == equal && COUNT(rcp, CompareMemberToValue<std::greater>(&Obj::x, val)) == (long)n - less - equal, "compare:member-value", Txt(xs) << " " << val);
			for (size_t i = 0; i < n; ++i)
				VH_CHECK(CompareMemberLess(&Obj::x)(sp[i], val) == (xs[i] < val) && CompareMemberLess(&Obj::x)(val, rp[i]) == (val < xs[i]) && CompareMemberGreater(&Obj::x)(sorted[i], val) == (xs[i] > val) && CompareMemberGreater(&Obj::GetX)(val, up[i]) == (val > xs[i])
					&& CompareMemberEquals(&Obj::x)(scp[i], val) == (xs[i] == val) && CompareMemberEquals(&Obj::x)(val, rcp[i]) == (val == xs[i]), "compare:member", xs[i] << " " << val);
		}
	}
	vh_distinct("groups", rng.Next() % 4096 + n * 4096); vh_count("groups", 1);
}

namespace {
	typedef Tuple<TypeList<int, std::string, int> > T3;
	struct OB1 { virtual ~OB1() { } long a; }; struct OB2 { virtual ~OB2() { } long b; }; struct Own : OB1, OB2 { };
	struct A : Comparable<A> { int v; long pad; explicit A(int v_) : v(v_), pad(0) { } protected: virtual int DoCompare(const A& o) const { return Ord(v, o.v); } };
	struct Other { virtual ~Other() { } long x; };
	struct B : Other, Comparable<B> { int v; explicit B(int v_) : v(v_) { } protected: virtual int DoCompare(const B& o) const { return Ord(o.v, v); } };
	struct IShape : virtual IComparable { };
	struct C : Other, IShape, Comparable<C> { int v; explicit C(int v_) : v(v_) { } protected: virtual int DoCompare(const C& o) const { return Ord(v, o.v) * INT_MAX; } };
	struct D : A { explicit D(int v_) : A(v_) { } };          // orders as A among its own kind
	struct I0 : IndifferentlyComparable<I0> { };
	struct FA : FuzzyEquatable<FA> { int v; explicit FA(int v_) : v(v_) { } protected: virtual bool DoFuzzyEquals(const FA& o) const { return v / 10 == o.v / 10; } };
	struct FB : Other, FuzzyEquatable<FB> { int v; explicit FB(int v_) : v(v_) { } protected: virtual bool DoFuzzyEquals(const FB& o) const { return v % 3 == o.v % 3; } };
	struct CountedInt : self_counter<CountedInt> { int v; explicit CountedInt(int v_) : v(v_) { } };
}

VH_SCENARIO(compare_holders)
{
	const size_t n = 3 + rng.Below(5);
	std::vector<optional<int> > o; std::vector<int> iv; std::vector<NullPtrType> nul(1); std::vector<optional<s64> > ol; std::vector<optional<WithCompare> > owc; std::vector<optional<optional<int> > > oo;
	for (size_t i = 0; i < n; ++i)
	{
		o.push_back(rng.Chance(1, 3) ? optional<int>() : optional<int>((int)rng.Below(3) - 1)); iv.push_back((int)rng.Below(3) - 1);
		ol.push_back(o[i] ? optional<s64>(*o[i]) : optional<s64>()); owc.push_back(o[i] ? optional<WithCompare>(WithCompare(*o[i])) : optional<WithCompare>());
		oo.push_back(rng.Chance(1, 3) ? optional<optional<int> >() : optional<optional<int> >(InPlace, o[i]));
	}
	auto ro = [&](size_t i, size_t k) { return OrdO(o[i], o[k]); };
	CheckOps("optional", o, ro); CheckGeneric("optional", o, ro); CheckGeneric("optional-compare", owc, ro);
	CheckGeneric("optional-twice", oo, [&](size_t i, size_t k) { return oo[i] && oo[k] ? OrdO(*oo[i], *oo[k]) : oo[i] ? 1 : oo[k] ? -1 : 0; });
	CheckOps2("optional-types", o, ol, ro);
	auto rov = [&](size_t i, size_t k) { return o[i] ? Ord(*o[i], iv[k]) : -1; };
	CheckOps2("optional-value", o, iv, rov); CheckOps2("value-optional", iv, o, [&](size_t i, size_t k) { return -rov(k, i); });
	CheckOps2("optional-null", o, nul, [&](size_t i, size_t) { return o[i] ? 1 : 0; }); CheckOps2("null-optional", nul, o, [&](size_t, size_t k) { return o[k] ? -1 : 0; });
	const OptionalCmp<ReverseCmp> rev; const OptionalCmp<ExtremeCmp> ext;
	auto rrev = [&](size_t i, size_t k) { return o[i] && o[k] ? Ord(*o[k], *o[i]) : o[i] ? 1 : o[k] ? -1 : 0; };
	CheckCmp("optional-cmp", OptionalCmp<comparers::Cmp>(), o, ro); CheckCmp("optional-reverse", rev, o, rrev); CheckCmp("optional-extreme", ext, o, ro);
	CheckLess("optional-reverse", OptionalLess<ReverseCmp>(), OptionalGreater<ReverseCmp>(), OptionalEquals<ReverseCmp>(), o, rrev);
	for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k)
	{
		const int e = o[i] ? Ord(iv[k], *o[i]) : -1;
		VH_CHECK(Sgn(rev(o[i], iv[k])) == e && Sgn(rev(iv[k], o[i])) == -e, "compare:cmp:optional-reverse-value", "items " << i << " and " << k);
		VH_CHECK(Sgn(ext(o[i], iv[k])) == rov(i, k) && Sgn(ext(iv[k], o[i])) == -rov(i, k), "compare:cmp:optional-extreme-value", "items " << i << " and " << k);
		VH_CHECK(Sgn(rev(o[i], null)) == (o[i] ? 1 : 0) && Sgn(rev(null, o[i])) == (o[i] ? -1 : 0), "compare:cmp:optional-reverse-null", "item " << i);
		VH_CHECK(Sgn(o[i].Compare(iv[k])) == rov(i, k) && Sgn(o[i].Compare(o[k])) == ro(i, k) && Sgn(o[i].Compare(null)) == (o[i] ? 1 : 0), "compare:cmp:optional-member", "items " << i << " and " << k);
	}

	std::vector<T3> t; std::vector<int> t1, t3; std::vector<std::string> t2;
	for (size_t i = 0; i < n; ++i) { t1.push_back(rng.Below(2)); t2.push_back(std::string(rng.Below(2), 'a' + rng.Below(2))); t3.push_back(rng.Below(2)); t.push_back(T3(t1[i], t2[i], t3[i])); }
	auto rt = [&](size_t i, size_t k) { return Chain(Ord(t1[i], t1[k]), Sgn(t2[i].compare(t2[k])), Ord(t3[i], t3[k])); };
	CheckCmp("tuple", TupleCmp<comparers::Cmp>(), t, rt); CheckCmp("tuple-reverse", TupleCmp<ReverseCmp>(), t, [&](size_t i, size_t k) { return -rt(i, k); });
	CheckLess("tuple", TupleLess<comparers::Cmp>(), TupleGreater<comparers::Cmp>(), TupleEquals(), t, rt);

	typedef variant<TypeList<int, std::string, EmptyType> > Var; typedef variant<TypeList<std::string, int> > NVar;
	std::vector<Var> va; std::vector<NVar> nva; std::vector<int> w; std::vector<std::pair<int, int> > nw;
	for (size_t i = 0; i < n; ++i)
	{
		const int k = rng.Below(3); w.push_back(k == 0 ? t1[i] : k == 1 ? 100 + (int)t2[i].size() * 10 + (t2[i].empty() ? 0 : t2[i][0] - 'a') : 1000);
		va.push_back(k == 0 ? Var(t1[i]) : k == 1 ? Var(t2[i]) : Var());
		const bool b = rng.Bool(); nva.push_back(b ? NVar(t1[i]) : NVar(t2[i])); nw.push_back(b ? std::make_pair(1, t1[i]) : std::make_pair(0, (int)t2[i].size() * 10 + (t2[i].empty() ? 0 : t2[i][0] - 'a')));
	}
	CheckOps("variant", va, [&](size_t i, size_t k) { return Ord(w[i], w[k]); });
	CheckOps("variant-never-empty", nva, [&](size_t i, size_t k) { return Chain(Ord(nw[i].first, nw[k].first), Ord(nw[i].second, nw[k].second)); });

	// ownership: objects that share an owner are equivalent, others are not
	{
		std::vector<shared_ptr<Own> > own; std::vector<shared_ptr<OB1> > sp; std::vector<weak_ptr<OB2> > wp; Ints id;
		std::vector<self_count_ptr<CountedInt> > sc; std::vector<shared_ptr<int> > pi;
		for (size_t i = 0; i < n; ++i)
		{
			const size_t k = rng.Below(3); while (own.size() <= k) own.push_back(make_shared_ptr<Own>());
			const bool none = rng.Chance(1, 6);
			id.push_back(none ? -1 : (int)k);
			if (none) { sp.push_back(shared_ptr<OB1>()); wp.push_back(weak_ptr<OB2>()); } else { sp.push_back(own[k]); wp.push_back(shared_ptr<OB2>(own[k])); }
			sc.push_back(i && rng.Chance(1, 3) ? sc[rng.Below(i)] : rng.Chance(1, 6) ? self_count_ptr<CountedInt>() : self_count_ptr<CountedInt>(new CountedInt(5)));
			pi.push_back(i && rng.Chance(1, 3) ? pi[rng.Below(i)] : rng.Chance(1, 6) ? shared_ptr<int>() : make_shared_ptr<int>(5));
		}
		CheckAxioms("owner-shared", OwnerCmp(), sp); CheckAxioms("owner-weak", OwnerCmp(), wp);
		for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k)
		{
			const int c = OwnerCmp()(sp[i], sp[k]);
			VH_CHECK((c == 0) == (id[i] == id[k]) && OwnerCmp()(wp[i], wp[k]) == c && OwnerCmp()(sp[i], wp[k]) == c && OwnerCmp()(wp[i], sp[k]) == c && OwnerLess()(sp[i], sp[k]) == (c < 0) && OwnerEquals()(wp[i], sp[k]) == (c == 0) && OwnerGreater()(sp[i], wp[k]) == (c > 0), "compare:owner", id[i] << " " << id[k] << ": " << c);
		}
		CheckCmp("owner-self-count", OwnerCmp(), sc, [&](size_t i, size_t k) { return Ord((s64)sc[i].get(), (s64)sc[k].get()); });
		auto rp = [&](size_t i, size_t k) { return Ord((s64)pi[i].get(), (s64)pi[k].get()); };
		CheckCmp("pointer", PointerCmp(), pi, rp); CheckLess("pointer", PointerLess(), PointerGreater(), PointerEquals(), pi, rp);
	}

	// objects of several types behind one interface
	{
		std::vector<shared_ptr<IComparable> > v; Ints type, val;
		for (size_t i = 0; i < n + 2; ++i)
		{
			const int k = rng.Below(5), x = rng.Below(3); type.push_back(k); val.push_back(k == 4 ? 0 : x);
			v.push_back(k == 0 ? shared_ptr<IComparable>(make_shared_ptr<A>(x)) : k == 1 ? shared_ptr<IComparable>(make_shared_ptr<B>(x)) : k == 2 ? shared_ptr<IComparable>(make_shared_ptr<C>(x)) : k == 3 ? shared_ptr<IComparable>(make_shared_ptr<D>(x)) : shared_ptr<IComparable>(make_shared_ptr<I0>()));
		}
		CheckAxioms("comparable", comparers::Cmp(), v);
		for (size_t i = 0; i < v.size(); ++i) for (size_t k = 0; k < v.size(); ++k)
		{
			const int c = v[i]->Compare(*v[k]);
			if (type[i] == type[k]) VH_CHECK(Sgn(c) == Ord(val[i], val[k]) * (type[i] == 1 ? -1 : 1), "compare:comparable", "type " << type[i] << ": " << val[i] << " and " << val[k] << " give " << c);
			else VH_CHECK(c != 0, "compare:comparable", "types " << type[i] << " and " << type[k] << " are equal");
			VH_CHECK(comparers::Less()(v[i], v[k]) == (c < 0) && comparers::Equals()(v[i], v[k]) == (c == 0) && comparers::Greater()(v[i], v[k]) == (c > 0), "compare:derived:comparable", c);
		}
		std::vector<shared_ptr<IFuzzyEquatable> > f; Ints ft, fv;
		for (size_t i = 0; i < n; ++i) { const int k = rng.Below(2), x = rng.Below(30); ft.push_back(k); fv.push_back(x); f.push_back(rng.Chance(1, 8) ? shared_ptr<IFuzzyEquatable>() : k ? shared_ptr<IFuzzyEquatable>(make_shared_ptr<FB>(x)) : shared_ptr<IFuzzyEquatable>(make_shared_ptr<FA>(x))); }
		for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k)
		{
			const bool e = f[i] && f[k] ? ft[i] == ft[k] && (ft[i] ? fv[i] % 3 == fv[k] % 3 : fv[i] / 10 == fv[k] / 10) : !f[i] && !f[k];
			VH_CHECK(FuzzyEquals()(f[i], f[k]) == e && (!f[i] || !f[k] || FuzzyEquals()(*f[i], *f[k]) == e), "compare:fuzzy", "types " << ft[i] << " " << ft[k] << " values " << fv[i] << " " << fv[k]);
		}
	}
	vh_distinct("groups", rng.Next() % 4096 + n * 4096); vh_count("groups", 1);
}

VH_SCENARIO(compare_types)
{
	const size_t n = 3 + rng.Below(4);
	auto small = [&]() { return (int)rng.Below(3) - 1; };
	auto edge = [&]() { return rng.Chance(1, 4) ? INT_MAX : rng.Chance(1, 4) ? INT_MIN : (int)rng.Below(2); };
	std::vector<Ints> k; for (size_t i = 0; i < n; ++i) { k.push_back(Ints()); for (int j = 0; j < 4; ++j) k[i].push_back(edge()); if (i && rng.Bool()) { k[i] = k[i - 1]; k[i][rng.Below(4)] = edge(); } }
	auto r2 = [&](size_t i, size_t j) { return Chain(Ord(k[i][0], k[j][0]), Ord(k[i][1], k[j][1])); };
	auto r4 = [&](size_t i, size_t j) { return Chain(r2(i, j), Ord(k[i][2], k[j][2]), Ord(k[i][3], k[j][3])); };
	std::vector<Size> sz; std::vector<SizeScale> ss; std::vector<Position> ps; std::vector<Rect> rc; std::vector<KeyValuePair<int, int> > kv; std::vector<TimeDuration> td; std::vector<Time> tm;
	for (size_t i = 0; i < n; ++i)
	{
		sz.push_back(Size(k[i][0], k[i][1])); ss.push_back(SizeScale(k[i][0], k[i][1])); ps.push_back(Position(k[i][0], k[i][1])); rc.push_back(Rect(k[i][0], k[i][1], k[i][2], k[i][3]));
		kv.push_back(KeyValuePair<int, int>(k[i][0], k[i][1])); td.push_back(TimeDuration::FromMicroseconds(k[i][0])); tm.push_back(Time(k[i][0]));
	}
	CheckOps("Size", sz, r2); CheckGeneric("Size", sz, r2); CheckOps("SizeScale", ss, r2); CheckOps("Position", ps, r2); CheckOps("Rect", rc, r4); CheckGeneric("Rect", rc, r4); CheckGeneric("KeyValuePair", kv, r2);
	CheckOps("TimeDuration", td, [&](size_t i, size_t j) { return Ord(k[i][0], k[j][0]); }); CheckOps("Time", tm, [&](size_t i, size_t j) { return Ord(k[i][0], k[j][0]); });

	std::vector<Version> ver; std::vector<std::vector<s64> > vk; std::vector<LangCode> lc; std::vector<std::string> lk; std::vector<UUID> uu; std::vector<std::vector<u8> > uk; std::vector<DiffEntry<int> > de; std::vector<std::pair<int, int> > dk;
	for (size_t i = 0; i < n; ++i)
	{
		const bool b = rng.Bool();
		std::vector<s64> x; x.push_back((unsigned)edge()); x.push_back((unsigned)edge()); x.push_back(b ? (s64)(unsigned)edge() : -1); vk.push_back(x);
		ver.push_back(b ? Version(x[0], x[1], optional<unsigned>((unsigned)x[2])) : Version(x[0], x[1]));
		std::string c(3, 'A'); for (int j = 0; j < 3; ++j) c[j] += rng.Below(2) * 25; lk.push_back(c);
		if (rng.Bool()) c[0] = (char)std::tolower(c[0]);
		lc.push_back(LangCode(c));
		std::vector<u8> u(16); for (int j = 0; j < 16; ++j) u[j] = (u8)(rng.Chance(1, 8) ? 0x80 : 0); if (i && rng.Bool()) { u = uk[i - 1]; u[rng.Below(16)] ^= 0x81; } uk.push_back(u); uu.push_back(UUID(ConstByteData(u)));
		const int op = rng.Below(3), it = small(); const CollectionOp cop = op == 0 ? CollectionOp::Removed : op == 1 ? CollectionOp::Added : CollectionOp::Updated; dk.push_back(std::make_pair((int)cop.val(), it)); de.push_back(MakeDiffEntry(cop, it));
	}
	auto rver = [&](size_t i, size_t j) { return LexOrd(vk[i], vk[j]); };
	CheckOps("Version", ver, rver); CheckGeneric("Version", ver, rver);
	CheckOps("LangCode", lc, [&](size_t i, size_t j) { return Sgn(lk[i].compare(lk[j])); }); CheckOps("UUID", uu, [&](size_t i, size_t j) { return LexOrd(uk[i], uk[j]); });
	CheckGeneric("DiffEntry", de, [&](size_t i, size_t j) { return Chain(Ord(dk[i].first, dk[j].first), Ord(dk[i].second, dk[j].second)); });

	std::vector<BrokenDownTime> bt; std::vector<std::vector<s64> > bk;
	for (size_t i = 0; i < n; ++i)
	{
		BrokenDownTime b = i && rng.Chance(2, 3) ? bt[rng.Below(i)] : BrokenDownTime();
		s16* const f[] = { &b.Milliseconds, &b.Seconds, &b.Minutes, &b.Hours, &b.WeekDay, &b.MonthDay, &b.Month, &b.YearDay, &b.Year };
		*f[rng.Below(9)] = (s16)rng.Below(3);
		std::vector<s64> x; for (int j = 0; j < 9; ++j) x.push_back(*f[j]);
		bk.push_back(x); bt.push_back(b);
	}
	CheckAxioms("BrokenDownTime", comparers::Cmp(), bt);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
	{
		const int c = Sgn(bt[i].Compare(bt[j]));
		VH_CHECK((c == 0) == (bk[i] == bk[j]) && (bt[i] < bt[j]) == (c < 0) && (bt[i] > bt[j]) == (c > 0) && (bt[i] <= bt[j]) == (c <= 0) && (bt[i] >= bt[j]) == (c >= 0) && (bt[i] == bt[j]) == (c == 0) && (bt[i] != bt[j]) == (c != 0), "compare:BrokenDownTime", Txt(bk[i]) << " " << Txt(bk[j]) << " gives " << c);
	}

	std::vector<BigUnsignedInteger > bn; std::vector<unsigned __int128> bv; std::vector<Decimal> dc; std::vector<__int128> dv;
	for (size_t i = 0; i < n; ++i)
	{
		std::vector<u8> u(1 + rng.Below(14)); for (size_t j = 0; j < u.size(); ++j) u[j] = rng.Chance(1, 3) ? (rng.Bool() ? 1 : 0xff) : 0;
		unsigned __int128 x = 0; for (size_t j = 0; j < u.size(); ++j) x = x << 8 | u[j];
		if (i && rng.Chance(1, 4)) { bn.push_back(bn[i - 1]); bv.push_back(bv[i - 1]); } else { bn.push_back(BigUnsignedInteger(ConstByteData(u))); bv.push_back(x); }
		s64 m = small() * (s64)(1 + rng.Below(2)); int e = rng.Below(4); for (int j = rng.Below(4); j; --j) m *= 10;
		if (rng.Chance(1, 8)) m = std::numeric_limits<s64>::max() - (s64)rng.Below(2);
		__int128 y = m; for (int j = e; j < 8; ++j) y *= 10;
		dc.push_back(Decimal(m, e)); dv.push_back(y);
	}
	CheckOps("BigUnsignedInteger", bn, [&](size_t i, size_t j) { return bv[i] < bv[j] ? -1 : bv[i] > bv[j]; });
	CheckOps("Decimal", dc, [&](size_t i, size_t j) { return dv[i] < dv[j] ? -1 : dv[i] > dv[j]; });

	std::vector<LocaleString> ls; std::vector<std::string> lt; std::vector<TranslatedString> ts; std::vector<std::map<std::string, std::string> > tk; std::vector<LoggerMessage> lm; std::vector<std::vector<std::string> > mk;
	for (size_t i = 0; i < n; ++i)
	{
		const std::string t(rng.Below(3), 'a' + rng.Below(2)); lt.push_back(t); ls.push_back(LocaleString(rng.Bool() ? Encoding(Encoding::ISO_10646_utf8) : Encoding(Encoding::ISO_8859_5), t));
		TranslatedString::Builder b; std::map<std::string, std::string> x;
		for (int j = rng.Below(3); j; --j) { const std::string l(3, "AEZ"[rng.Below(3)]), v(rng.Below(2), 'a' + rng.Below(2)); b.AddTranslation(LangCode(l), v); x[l] = v; }
		tk.push_back(x); ts.push_back(b.Get());
	}
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
	{
		const int e = Sgn(lt[i].compare(lt[j]));
		VH_CHECK(Sgn(ls[i].Compare(ls[j])) == e && (ls[i] < ls[j]) == (e < 0) && (ls[i] == ls[j]) == (e == 0) && (ls[i] != ls[j]) == (e != 0), "compare:LocaleString", lt[i] << " " << lt[j]);
	}
	auto rts = [&](size_t i, size_t j) { return tk[i] < tk[j] ? -1 : tk[j] < tk[i] ? 1 : 0; };
	CheckOps("TranslatedString", ts, rts); CheckGeneric("TranslatedString", ts, rts);
	for (size_t i = 0; i < n; ++i)
	{
		const std::string t(rng.Below(3), 'a' + rng.Below(2)), l(1, 'x' + rng.Below(2)); const int lv = rng.Below(3); const bool named = rng.Bool();
		if (named) lm.push_back(LoggerMessage(l, (LogLevel::Enum)lv, t)); else lm.push_back(LoggerMessage((LogLevel::Enum)lv, t));
		std::vector<std::string> x; x.push_back(named ? "1" + l : "0"); x.push_back(std::string(1, '0' + lv)); char buf[40]; snprintf(buf, sizeof(buf), "%020lld", (long long)lm[i].GetTime().GetMilliseconds()); x.push_back(buf); x.push_back(lm[i].GetThreadName()); x.push_back(t); mk.push_back(x);
	}
	CheckOps("LoggerMessage", lm, [&](size_t i, size_t j) { return mk[i] < mk[j] ? -1 : mk[j] < mk[i] ? 1 : 0; });

	std::vector<std::string> ci; for (size_t i = 0; i < n; ++i) { std::string t; for (int j = rng.Below(4); j; --j) t += "aAbBzZ_[1"[rng.Below(9)]; ci.push_back(t); }
	auto lower = [](std::string t) { for (size_t j = 0; j < t.size(); ++j) t[j] = (char)std::tolower(t[j]); return t; };
	const comparers::LessToCmp<CaseInsensitiveLess> cic;
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
	{
		const int e = Sgn(lower(ci[i]).compare(lower(ci[j])));
		VH_CHECK(cic(ci[i], ci[j]) == e && CaseInsensitiveEquals()(ci[i], ci[j]) == (e == 0) && CaseInsensitiveLess()(string_view(ci[i]), string_view(ci[j])) == (e < 0) && CaseInsensitiveEquals()(string_view(ci[i]), string_view(ci[j])) == (e == 0), "compare:case-insensitive", ci[i] << " " << ci[j]);
	}
	if (rng.Chance(1, 8))
	{
		std::vector<std::string> u; static const char* const W[] = { "a", "A", "b", "B", "\xd0\xb0", "\xd0\x90", "\xd1\x8f", "\xc3\xa9", " ", "1", "-", "z" };
		for (size_t i = 0; i < 8; ++i) { std::string t; for (int j = rng.Below(4); j; --j) t += W[rng.Below(12)]; u.push_back(t); }
		static const UnicodeCmp<true> cs; static const UnicodeCmp<false> cis;
		CheckAxioms("unicode-case-sensitive", cs, u); CheckAxioms("unicode-case-insensitive", cis, u);
		for (size_t i = 0; i < 8; ++i) for (size_t j = 0; j < 8; ++j)
			VH_CHECK((u[i] != u[j] || (cs(u[i], u[j]) == 0 && cis(u[i], u[j]) == 0)) && (cs(u[i], u[j]) != 0 || cis(u[i], u[j]) == 0), "compare:unicode", u[i] << " " << u[j]);
	}
	vh_distinct("groups", rng.Next() % 4096 + n * 4096); vh_count("groups", 1);
}
