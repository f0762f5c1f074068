// C24: string helpers, judged by direct definitions over std::string.
#include "vh.h"
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/string/ToString.h>
#include <stingraykit/string/AhoCorasick.h>
#include <stingraykit/string/Comparers.h>
#include <stingraykit/string/HumanReadableSize.h>
#include <stingraykit/string/RegexUtils.h>
#include <stingraykit/string/StringReader.h>
#include <stingraykit/collection/Range.h>
#include <list>
#include <map>
#include <set>

using namespace stingray;

namespace {
	typedef std::vector<std::string> Strings;

	std::string Q(const std::string& s) { return "\"" + vh::Printable(s) + "\""; }
	std::string Q(const Strings& s) { std::string r = "["; for (size_t i = 0; i < s.size(); ++i) r += (i ? ", " : "") + Q(s[i]); return r + "]"; }
	std::string N(size_t n) { return n == std::string::npos ? "npos" : std::to_string(n); }

	std::string AnyString(vh::Rng& rng, size_t max, int kind = -1)
	{
		static const char* const alphabets[] = { "ab", "abc,;", "aA bB\t\n", "a\xff\x80\0z" }; static const size_t sizes[] = { 2, 5, 7, 5 };
		const size_t a = kind >= 0 ? kind : rng.Below(4), n = rng.Chance(1, 6) ? 0 : rng.Below(max + 1); std::string r; for (size_t i = 0; i < n; ++i) r += rng.Chance(1, 30) ? (char)rng.Below(256) : alphabets[a][rng.Below(sizes[a])]; return r;
	}
	// of exactly as many bytes as it has
	struct Exact { std::unique_ptr<char[]> P; size_t Size; explicit Exact(const std::string& s) : P(new char[s.size()]), Size(s.size()) { std::copy(s.begin(), s.end(), P.get()); } operator string_view() const { return string_view(P.get(), Size); } };
	int Sign(int v) { return v < 0 ? -1 : v > 0; }

	template < typename F > bool Throws(const F& f) { try { f(); } catch (const std::exception&) { return true; } return false; }

	bool MatchAt(const std::string& s, size_t at, const std::string& w) { if (at > s.size() || s.size() - at < w.size()) return false; for (size_t i = 0; i < w.size(); ++i) if (s[at + i] != w[i]) return false; return true; }
	char Lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
	char Upper(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }

	template < typename R > Strings TakeParts(R range, size_t max) { Strings r; for (; range.Valid() && r.size() < max; range.Next()) r.push_back(range.Get().str()); return r; }
}

VH_SCENARIO(views)
{
	const int kind = rng.Below(4); const std::string s = AnyString(rng, rng.Chance(1, 4) ? 40 : 8, kind), w = AnyString(rng, 3, kind), t = rng.Chance(1, 3) ? s : AnyString(rng, 8, kind); const Exact es(s), ew(w), et(t); const string_view v(es), x(ew), u(et); vh_distinct("strings", vh::HashStr(s) * 31 + vh::HashStr(w));
	const size_t p = rng.Chance(1, 5) ? std::string::npos : rng.Below(s.size() + 3), c = rng.Chance(1, 5) ? std::string::npos : rng.Below(s.size() + 3); const char ch = w.empty() ? 'a' : w[0]; const std::string what = Q(s) + ", " + Q(w) + " at " + N(p) + ": ";
	#define SAME(name, got, want) do { const size_t g = (got), e = (want); VH_CHECK(g == e, name, what + N(g) + ", must be " + N(e)); } while (0)
	SAME("find", v.find(x, p), s.find(w, p)); SAME("find", v.find(x), s.find(w)); SAME("find-char", v.find(ch, p), s.find(ch, p));
	SAME("rfind", v.rfind(x, p), s.rfind(w, p)); SAME("rfind", v.rfind(x), s.rfind(w)); SAME("rfind-char", v.rfind(ch, p), s.rfind(ch, p));
	SAME("find-first-of", v.find_first_of(x, p), s.find_first_of(w, p)); SAME("find-first-of-char", v.find_first_of(ch), s.find_first_of(ch));
	SAME("find-last-of", v.find_last_of(x, p), s.find_last_of(w, p)); SAME("find-last-of-char", v.find_last_of(ch), s.find_last_of(ch));
	SAME("find-first-not-of", v.find_first_not_of(x, p), s.find_first_not_of(w, p)); SAME("find-first-not-of-char", v.find_first_not_of(ch, p), s.find_first_not_of(ch, p));
	SAME("find-last-not-of", v.find_last_not_of(x, p), s.find_last_not_of(w, p)); SAME("find-last-not-of-char", v.find_last_not_of(ch), s.find_last_not_of(ch));
	{ const std::string z(w.c_str()); SAME("find-c-string", v.find(w.c_str(), p), s.find(z, p)); SAME("find-c-string-part", v.find(w.data(), p, w.size()), s.find(w, p)); SAME("rfind-c-string", v.rfind(w.c_str()), s.rfind(z)); SAME("find-last-of-c-string", v.find_last_of(w.c_str(), p), s.find_last_of(z, p)); }
	VH_CHECK(v.starts_with(x) == MatchAt(s, 0, w) && v.ends_with(x) == (s.size() >= w.size() && MatchAt(s, s.size() - w.size(), w)), "starts-or-ends", what);
	VH_CHECK(v.starts_with(ch) == (!s.empty() && s[0] == ch) && v.ends_with(ch) == (!s.empty() && s.back() == ch), "starts-or-ends-char", what);
	VH_CHECK(Sign(v.compare(u)) == Sign(s.compare(t)), "compare", Q(s) + ", " + Q(t)); VH_CHECK((v == u) == (s == t) && (v != u) == (s != t) && (v < u) == (s < t) && (v > u) == (s > t) && (v <= u) == (s <= t) && (v >= u) == (s >= t), "compare-operators", Q(s) + ", " + Q(t));
	if (p <= s.size())
	{
		VH_CHECK(v.substr(p, c).copy() == s.substr(p, c), "substr", what); VH_CHECK(Sign(v.compare(p, c, u)) == Sign(s.compare(p, c, t)), "compare-part", what);
		if (p <= t.size()) VH_CHECK(Sign(v.compare(p, c, u, p, c)) == Sign(s.compare(p, c, t, p, c)), "compare-parts", what);
		string_view a = v, b = v; a.remove_prefix(p); b.remove_suffix(p); VH_CHECK(a.copy() == s.substr(p) && b.copy() == s.substr(0, s.size() - p), "remove-prefix-or-suffix", what);
	}
	else if (rng.Chance(1, 20)) VH_CHECK(Throws([&] { v.substr(p, c); }) && Throws([&] { string_view a = v; a.remove_prefix(p); }) && Throws([&] { string_view a = v; a.remove_suffix(p); }) && Throws([&] { v.at(p); }), "out-of-range-accepted", what);
	VH_CHECK(v.copy() == s && std::string(v.rbegin(), v.rend()) == std::string(s.rbegin(), s.rend()) && v.size() == s.size() && v.empty() == s.empty(), "copy", what); if (p < s.size()) VH_CHECK(v[p] == s[p] && v.at(p) == s[p], "index", what);
	{ const size_t huge = ((size_t)1 << 32) * (1 + rng.Below(3)); const string_view big(s.data(), s.size() + huge); VH_CHECK(big.compare(v) > 0 && v.compare(big) < 0 && v < big && !(big == v), "compare-huge", what); }
	// a part of a string behaves as the string of its characters
	const size_t b = rng.Below(s.size() + 1), e = b + rng.Below(s.size() - b + 1); const StringRef ref(s, b, e); const std::string part = s.substr(b, e - b); const std::string where = what + "part " + N(b) + ".." + N(e) + " " + Q(part) + " ";
	VH_CHECK(ref.str() == part && ref.view().copy() == part && ref.size() == part.size() && ref.empty() == part.empty() && ref == part && !(ref != part), "part", where);
	VH_CHECK(ref.find(w, p) == part.find(w, p), "part-find", where + N(ref.find(w, p)) + ", must be " + N(part.find(w, p))); VH_CHECK(ref.find(ch, p) == part.find(ch, p), "part-find-char", where);
	if (p <= part.size()) { const StringRef sub = ref.substr(p, c); VH_CHECK(sub.str() == part.substr(p, c) && sub.view().copy() == part.substr(p, c), "part-of-part", where + Q(sub.str())); }
	vh_count("strings", 1);
}

VH_SCENARIO(editing)
{
	const int kind = rng.Below(4); const std::string s = AnyString(rng, rng.Chance(1, 4) ? 40 : 10, kind), from = AnyString(rng, 3, kind), to = AnyString(rng, 4, kind), chars = AnyString(rng, 3, kind); const Exact es(s), ef(from), et(to); const std::string what = Q(s) + ", " + Q(from) + ", " + Q(to) + ": "; vh_distinct("strings", vh::HashStr(s) * 31 + vh::HashStr(from)); vh_count("strings", 1);
	{
		std::string want = s; if (!from.empty()) { want.clear(); for (size_t i = 0; i < s.size(); ) if (MatchAt(s, i, from)) { want += to; i += from.size(); } else want += s[i++]; }
		bool thrown = false; std::string got; try { got = ReplaceAll(string_view(es), string_view(ef), string_view(et)); } catch (const std::exception&) { thrown = true; }
		VH_CHECK(thrown ? from.empty() : got == want, "replace-all", what + Q(got) + ", must be " + Q(want));
		const char a = from.empty() ? 'a' : from[0], b = to.empty() ? 'b' : to[0]; want = s; for (size_t i = 0; i < want.size(); ++i) if (want[i] == a) want[i] = b; VH_CHECK(ReplaceAll(string_view(es), a, b) == want, "replace-char", what);
		std::string f, r; for (size_t i = 0; i < s.size(); ++i) { if (chars.find(s[i]) == std::string::npos) f += s[i]; if (s[i] != a) r += s[i]; } VH_CHECK(Filter(es, chars) == f, "filter", what + Q(chars)); VH_CHECK(Remove(es, a) == r, "remove", what);
	}
	const size_t n = rng.Below(s.size() + 3); VH_CHECK(ExtractPrefix(s, n) == s.substr(0, n) && ExtractSuffix(s, n) == s.substr(s.size() - std::min(n, s.size())), "extract", what + N(n));
	const std::string prefix = rng.Bool() ? s.substr(0, rng.Below(s.size() + 1)) : from, suffix = rng.Bool() ? s.substr(rng.Below(s.size() + 1)) : from; const bool starts = MatchAt(s, 0, prefix), ends = s.size() >= suffix.size() && MatchAt(s, s.size() - suffix.size(), suffix);
	VH_CHECK(StartsWith(es, prefix) == starts && EndsWith(es, suffix) == ends, "starts-or-ends", what + Q(prefix) + Q(suffix)); VH_CHECK(RemovePrefix(s, prefix) == (starts ? s.substr(prefix.size()) : s), "remove-prefix", what + Q(prefix)); VH_CHECK(RemoveSuffix(s, suffix) == (ends ? s.substr(0, s.size() - suffix.size()) : s), "remove-suffix", what + Q(suffix));
	{ bool c = false; for (size_t i = 0; i <= s.size(); ++i) c |= MatchAt(s, i, from); VH_CHECK(Contains(es, ef) == c, "contains", what); }
	{
		const std::string strip = rng.Bool() ? std::string(" \t\n\r\f\v") : chars; size_t b = 0, e = s.size(); while (b < e && strip.find(s[b]) != std::string::npos) ++b; while (e > b && strip.find(s[e - 1]) != std::string::npos) --e; size_t re = s.size(); while (re > 0 && strip.find(s[re - 1]) != std::string::npos) --re;
		VH_CHECK(Strip(s, strip) == s.substr(b, e - b), "strip", what + Q(strip)); VH_CHECK(RightStrip(s, strip) == s.substr(0, re), "right-strip", what + Q(strip)); VH_CHECK(LeftStrip(s, strip) == s.substr(b), "left-strip", what + Q(strip));
	}
	{
		std::string lo = s, up = s; for (size_t i = 0; i < s.size(); ++i) { lo[i] = Lower(s[i]); up[i] = Upper(s[i]); } VH_CHECK(ToLower(es) == lo && ToUpper(es) == up, "case", what); std::string ca = s, un = s; if (!s.empty()) { ca[0] = up[0]; un[0] = lo[0]; } VH_CHECK(Capitalize(es) == ca && Uncapitalize(es) == un, "capitalize", what);
		const std::string t = rng.Bool() ? AnyString(rng, 10, kind) : up; std::string lt = t; for (size_t i = 0; i < t.size(); ++i) lt[i] = Lower(t[i]); const std::string mine = s;
		VH_CHECK(CaseInsensitiveEquals()(mine, t) == (lo == lt) && CaseInsensitiveEquals()(string_view(es), string_view(t)) == (lo == lt), "case-insensitive-equals", what + Q(t)); const bool l = CaseInsensitiveLess()(mine, t), g = CaseInsensitiveLess()(t, mine); VH_CHECK(!(l && g) && (!l && !g) == (lo == lt) && CaseInsensitiveLess()(string_view(es), string_view(t)) == l, "case-insensitive-less", what + Q(t));
		bool ascii = true; for (size_t i = 0; i < lo.size(); ++i) ascii &= lo[i] >= 0; for (size_t i = 0; i < lt.size(); ++i) ascii &= lt[i] >= 0; if (ascii) VH_CHECK(l == (lo < lt), "case-insensitive-order", what + Q(t));
	}
	{ const size_t width = rng.Below(s.size() + 6); const char fill = rng.Bool() ? ' ' : chars.empty() ? '0' : chars[0]; const std::string pad(width > s.size() ? width - s.size() : 0, fill); VH_CHECK((std::string)LeftJustify(es, width, fill) == s + pad, "left-justify", what + N(width)); VH_CHECK((std::string)RightJustify(es, width, fill) == pad + s, "right-justify", what + N(width)); }
	{
		const std::string t = rng.Chance(1, 4) ? s : AnyString(rng, 10, kind); std::vector<std::vector<size_t> > d(s.size() + 1, std::vector<size_t>(t.size() + 1)); for (size_t i = 0; i <= s.size(); ++i) for (size_t j = 0; j <= t.size(); ++j) d[i][j] = !i ? j : !j ? i : std::min(std::min(d[i - 1][j], d[i][j - 1]) + 1, d[i - 1][j - 1] + (s[i - 1] != t[j - 1]));
		VH_CHECK(EditDistance(es, t) == d[s.size()][t.size()], "edit-distance", what + Q(t));
	}
}

VH_SCENARIO(splitting)
{
	const int kind = rng.Below(4); const std::string s = AnyString(rng, rng.Chance(1, 4) ? 40 : 10, kind), delimiter = rng.Chance(1, 3) ? "," : AnyString(rng, 3, kind); const bool any = rng.Chance(1, 3); const size_t limit = rng.Chance(1, 2) ? 0 : 1 + rng.Below(6); const std::string what = Q(s) + " by " + (any ? "any of " : "") + Q(delimiter) + " at most " + N(limit) + ": "; vh_distinct("strings", vh::HashStr(s) * 31 + vh::HashStr(delimiter)); vh_count("strings", 1);
	Strings want(1); { size_t i = 0, found = 0; while (i < s.size()) { const size_t len = any ? 1 : delimiter.size(); if (len && (!limit || found < limit) && (any ? delimiter.find(s[i]) != std::string::npos : MatchAt(s, i, delimiter))) { ++found; want.push_back(std::string()); i += len; } else want.back() += s[i++]; } }
	bool thrown = false; Strings got, again, parts; const size_t max = s.size() + 10;
	const std::string owner = s; // keeps its characters while they are referred to
	try
	{
		if (any) { Detail::IsAnyOfSplitStringRange r = Split(owner, IsAnyOf(std::string(delimiter)), limit); got = TakeParts(r, max); for (size_t i = rng.Below(got.size() + 1); i && r.Valid(); --i) r.Next(); r.First(); again = TakeParts(r, max); }
		else { Detail::StaticDelimiterSplitStringRange r = Split(owner, std::string(delimiter), limit); got = TakeParts(r, max); for (size_t i = rng.Below(got.size() + 1); i && r.Valid(); --i) r.Next(); r.First(); again = TakeParts(r, max); }
	}
	catch (const std::exception&) { thrown = true; }
	VH_CHECK(thrown ? delimiter.empty() && !any : got == want, "split", what + Q(got) + ", must be " + Q(want)); if (!thrown) VH_CHECK(again == want, "split-again", what + Q(again) + ", must be " + Q(want));
	// joining gives back the string, and any strings with the separator between them
	if (!any && !delimiter.empty()) VH_CHECK(Join(delimiter, ToRange(got)) == s, "join-of-split", what);
	Strings words(rng.Below(5)); for (size_t i = 0; i < words.size(); ++i) words[i] = AnyString(rng, 5, kind); std::string joined; for (size_t i = 0; i < words.size(); ++i) joined += (i ? delimiter : std::string()) + words[i];
	VH_CHECK(Join(delimiter, ToRange(words)) == joined && Join(delimiter, words.begin(), words.end()) == joined, "join", Q(words) + " by " + Q(delimiter)); { std::string up = joined; struct F { static std::string Do(const std::string& x) { return "<" + x + ">"; } }; std::string w; for (size_t i = 0; i < words.size(); ++i) w += (i ? delimiter : std::string()) + "<" + words[i] + ">"; VH_CHECK(Join(delimiter, ToRange(words), &F::Do) == w, "join-transformed", Q(words) + " by " + Q(delimiter)); }
	{ std::vector<int> ints(rng.Below(5)); std::string w; for (size_t i = 0; i < ints.size(); ++i) { ints[i] = (int)rng.Range(-50, 50); w += (i ? "," : "") + std::to_string(ints[i]); } VH_CHECK(Join(",", ToRange(ints)) == w, "join-numbers", w); std::string a = "x"; int b = -1; bool failed = false; try { TupleFromStrings(ForwardAsTuple(a, b), Split(w, ",")); } catch (const std::exception&) { failed = true; } VH_CHECK(failed == (ints.size() != 2), "tuple-from-strings", w); if (!failed) VH_CHECK(a == std::to_string(ints[0]) && b == ints[1], "tuple-from-strings-values", w); }
	{
		std::string text; for (size_t i = rng.Below(20); i; --i) text += "ab\n\r\n\n\r"[rng.Below(7)]; Strings lines; for (size_t i = 0; i < text.size(); ) { lines.push_back(std::string()); while (i < text.size() && text[i] != '\n' && text[i] != '\r') lines.back() += text[i++]; if (i < text.size()) i += text[i] == '\r' && i + 1 < text.size() && text[i + 1] == '\n' ? 2 : 1; }
		StringReader r(text); Strings read; bool peek = true; while (!r.IsEndOfString() && read.size() <= text.size()) { const char c = r.Peek(); read.push_back(r.ReadLine()); peek &= read.back().empty() ? c == '\n' || c == '\r' : c == read.back()[0]; } VH_CHECK(read == lines && peek, "read-line", Q(text) + ": " + Q(read)); VH_CHECK(r.ReadLine().empty() && r.IsEndOfString(), "read-line-at-end", Q(text)); if (rng.Chance(1, 20)) VH_CHECK(Throws([&] { r.Peek(); }), "peek-at-end", "");
	}
}

VH_SCENARIO(many_patterns)
{
	const int kind = rng.Below(4); AhoCorasick a; Strings patterns; const size_t n = rng.Chance(1, 8) ? 20 : rng.Below(6); std::map<size_t, std::string> ids;
	for (size_t i = 0; i < n; ++i) { const std::string p = !patterns.empty() && rng.Chance(1, 6) ? rng.Pick(patterns) : !patterns.empty() && rng.Chance(1, 3) ? patterns[0].substr(rng.Below(patterns[0].size())) : AnyString(rng, 5, kind); if (p.empty()) continue; patterns.push_back(p); ids[a.Add(p)] = p; }
	a.Build(); std::string s = AnyString(rng, 60, kind); if (!patterns.empty()) for (size_t i = rng.Below(4); i; --i) s.insert(rng.Below(s.size() + 1), rng.Pick(patterns)); vh_distinct("texts", vh::HashStr(s) ^ n); vh_count("patterns", patterns.size());
	std::map<std::pair<size_t, std::string>, int> want, got; for (size_t i = 0; i < patterns.size(); ++i) for (size_t at = 0; at < s.size(); ++at) if (MatchAt(s, at, patterns[i])) ++want[std::make_pair(at, patterns[i])]; size_t end = 0; bool ordered = true; std::set<std::pair<size_t, size_t> > once;
	const auto note = [&](const std::string& p, size_t id, size_t at) { ++got[std::make_pair(at, p)]; VH_CHECK(ids.count(id) && ids[id] == p, "pattern-index", Q(p) + " " + N(id)); VH_CHECK(once.insert(std::make_pair(at, id)).second, "occurrence-repeated", Q(p)); ordered &= at + p.size() >= end; end = at + p.size(); };
	if (rng.Bool()) { const Exact es(s); const string_view v(es); a.Search(v.begin(), v.end(), note); } else if (rng.Bool()) a.Search(s, note); else { const std::list<char> l(s.begin(), s.end()); a.Search(l, note); }
	VH_CHECK(got == want, "occurrences", Q(patterns) + " in " + Q(s) + ": " + N(got.size()) + ", must be " + N(want.size())); VH_CHECK(ordered, "occurrence-order", Q(patterns) + " in " + Q(s)); vh_count("occurrences", got.size());
	if (rng.Chance(1, 30)) VH_CHECK(Throws([&] { a.Add("x"); }) && Throws([&] { a.Build(); }) && Throws([&] { AhoCorasick b; b.Search(s, note); }), "misuse-accepted", "");
}

VH_SCENARIO(number_ranges)
{
	const u64 top = ~(u64)0; u64 a, b;
	switch (rng.Below(5)) { case 0: a = rng.Below(30); b = rng.Below(130); break; case 1: { u64 p = 1; for (size_t i = rng.Below(20); i; --i) p *= 10; a = p - rng.Below(3) * (p > 3); b = p + rng.Below(200); break; } case 2: a = rng.Next() >> rng.Below(64); b = rng.Next() >> rng.Below(64); break; case 3: a = top - rng.Below(2000); b = top - rng.Below(30); break; default: a = rng.Below(100000); b = a + rng.Below(3000); }
	if (a > b) std::swap(a, b); const std::string range = std::to_string(a) + ".." + std::to_string(b); vh_distinct("ranges", vh::HashStr(range)); const bool match = rng.Bool(); const std::string text = GenerateNumericRangeRegex(a, b, match); const std::regex re(text);
	const auto check = [&](u64 n) { const std::string s = std::to_string(n); VH_CHECK(std::regex_match(s, re) == (n >= a && n <= b), "number-range", range + " and " + s + ": " + text); };
	for (u64 d = 0; d < 12; ++d) { if (a >= d) check(a - d); if (top - a >= d) check(a + d); if (b >= d) check(b - d); if (top - b >= d) check(b + d); } for (int i = 0; i < 20; ++i) { check(a + (b - a ? rng.Next() % (b - a) : 0)); check(rng.Next() >> rng.Below(64)); }
	for (u64 p = 1; ; p *= 10) { check(p); check(p - 1); if (p > top / 10) break; } const std::string in = std::to_string(a); VH_CHECK(!std::regex_match("0" + in, re) && !std::regex_match(in + "x", re) && !std::regex_match(std::string(), re), "number-range-other-text", range + ": " + text); if (match) { std::smatch m; VH_CHECK(std::regex_match(in, m, re) && m.size() == 2 && m[1] == in, "number-range-group", text); }
	if (rng.Chance(1, 10) && a != b) VH_CHECK(Throws([&] { GenerateNumericRangeRegex(b, a, match); }), "number-range-reversed", range);
	{ const string_view whole("k=12;"); svmatch m; const std::regex kv("(\\w)=(\\d*)(;)?(x)?"); if (std::regex_match(whole.begin(), whole.end(), m, kv)) VH_CHECK(svmatch_str(m, 1) == "k" && svmatch_str(m, 2) == "12" && svmatch_str(m).size() == 5 && svmatch_str(m, 4).empty(), "match-to-view", ""); else vh_violation("match-to-view", "no match"); }
	// sizes for people
	const u64 size = rng.Chance(1, 3) ? (u64)1 << rng.Below(64) : rng.Next() >> rng.Below(64), near = rng.Bool() ? size : size + (u64)rng.Range(-3, 3); static const float factors[] = { 0, 0.001f, 0.01f, 0.1f, 0.19f }; const float f = factors[rng.Below(5)]; const std::string h = ToHumanReadableSize(near, f); u64 back = 0; VH_CHECK(!Throws([&] { back = FromHumanReadableSize(h); }), "size-not-readable", std::to_string(near) + ": " + h);
	const long double error = back > near ? (long double)(back - near) : (long double)(near - back); VH_CHECK(error <= (long double)near * f * 1.00001L + 0.5L, "size-error", std::to_string(near) + ": " + h + " = " + std::to_string(back)); const std::string spaced = ToHumanReadableSize(near, f, true); { std::string w = h; size_t k = 0; while (k < w.size() && isdigit(w[k])) ++k; w.insert(k, " "); VH_CHECK(spaced == w, "size-spaced", spaced); }
	{ static const char* const units = "kMGTPE"; const size_t k = rng.Below(6); const u64 num = rng.Bool() ? rng.Below(20) : rng.Next() >> rng.Below(64); const std::string t = std::to_string(num) + units[k]; const int shift = 10 * (k + 1); const bool fits = num <= (top >> shift); u64 v = 0; const bool thrown = Throws([&] { v = FromHumanReadableSize(t); }); VH_CHECK(thrown == !fits && (thrown || v == num << shift), "size-parse", t); }
	if (rng.Chance(1, 20)) { static const char* const bad[] = { "", "k", "1kk", "1 k", "1K", "-1k", "0x", "1.5M", "k1" }; const char* const t = bad[rng.Below(9)]; VH_CHECK(*t == 0 || std::string(t) == "0x" || Throws([&] { FromHumanReadableSize(t); }), "size-malformed", t); }
}
