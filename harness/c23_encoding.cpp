// C23: character encodings, judged by published tables and by encoders and decoders of UTF written here.
#include "vh.h"
#include "c23_tables.h"
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/string/ToString.h>
#include <stingraykit/locale/StringCodec.h>
#include <stingraykit/locale/Translit.h>
#include <stingraykit/string/Unicode.h>
#include <stingraykit/string/Utf8StringUtils.h>

using namespace stingray;

namespace {
	typedef std::vector<u32> Codes;
	const u32 Mark = 0xe123; // stands for what cannot be decoded; never in the texts

	std::string Hex(const std::string& s) { std::string r; char b[4]; for (size_t i = 0; i < s.size(); ++i) { snprintf(b, sizeof b, "%02x ", (u8)s[i]); r += b; } return r; }
	std::string Show(const Codes& c) { std::string r; char b[12]; for (size_t i = 0; i < c.size(); ++i) { snprintf(b, sizeof b, "U+%04x ", c[i]); r += b; } return r; }

	std::string Utf8(const Codes& codes)
	{
		std::string r;
		for (size_t i = 0; i < codes.size(); ++i)
		{
			const u32 c = codes[i]; int more = c < 0x80 ? 0 : c < 0x800 ? 1 : c < 0x10000 ? 2 : 3;
			r += (char)(more == 0 ? c : ((0xff00 >> (more + 1)) & 0xff) | (c >> (6 * more)));
			while (more--) r += (char)(0x80 | ((c >> (6 * more)) & 0x3f));
		}
		return r;
	}

	// the length of the well-formed sequence at the position, as the table of the standard gives it; 0 if there is none
	size_t WellFormed(const std::string& s, size_t at)
	{
		const size_t left = s.size() - at; const u8* p = (const u8*)s.data() + at;
		if (p[0] < 0x80) return 1;
		static const struct { u8 F, L, F2, L2; size_t N; } rows[] = { { 0xc2, 0xdf, 0x80, 0xbf, 2 }, { 0xe0, 0xe0, 0xa0, 0xbf, 3 }, { 0xe1, 0xec, 0x80, 0xbf, 3 }, { 0xed, 0xed, 0x80, 0x9f, 3 }, { 0xee, 0xef, 0x80, 0xbf, 3 }, { 0xf0, 0xf0, 0x90, 0xbf, 4 }, { 0xf1, 0xf3, 0x80, 0xbf, 4 }, { 0xf4, 0xf4, 0x80, 0x8f, 4 } };
		for (size_t i = 0; i < sizeof(rows) / sizeof(*rows); ++i)
			if (p[0] >= rows[i].F && p[0] <= rows[i].L)
			{
				if (left < rows[i].N || p[1] < rows[i].F2 || p[1] > rows[i].L2) return 0;
				for (size_t j = 2; j < rows[i].N; ++j) if ((p[j] & 0xc0) != 0x80) return 0;
				return rows[i].N;
			}
		return 0;
	}
	bool FromUtf8(const std::string& s, Codes& out)
	{
		out.clear();
		for (size_t i = 0; i < s.size(); )
		{
			const size_t n = WellFormed(s, i); if (!n) return false;
			u32 c = n == 1 ? (u8)s[i] : (u8)s[i] & (0x7f >> n); for (size_t j = 1; j < n; ++j) c = (c << 6) | ((u8)s[i + j] & 0x3f);
			out.push_back(c); i += n;
		}
		return true;
	}

	void Put(std::string& s, u32 unit, int bytes, bool big) { for (int i = 0; i < bytes; ++i) s += (char)(unit >> (8 * (big ? bytes - 1 - i : i))); }
	std::string Utf16(const Codes& codes, bool big)
	{
		std::string r;
		for (size_t i = 0; i < codes.size(); ++i)
			if (codes[i] < 0x10000) Put(r, codes[i], 2, big); else { Put(r, 0xd800 + ((codes[i] - 0x10000) >> 10), 2, big); Put(r, 0xdc00 + ((codes[i] - 0x10000) & 0x3ff), 2, big); }
		return r;
	}
	std::string Utf32(const Codes& codes, bool big) { std::string r; for (size_t i = 0; i < codes.size(); ++i) Put(r, codes[i], 4, big); return r; }

	u32 AnyCode(vh::Rng& rng)
	{
		static const u32 edges[] = { 0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0xfeff, 0xfffe, 0x40f, 0x410, 0x42f, 0x44f, 0x10000 + 0xd800, 0x103ff, 0x10400, 0x1f600 };
		for (;;)
		{
			u32 c;
			switch (rng.Below(6))
			{
			case 0: c = rng.Below(0x80); break;
			case 1: c = rng.Below(0x800); break;
			case 2: c = rng.Below(0x10000); break;
			case 3: c = rng.Below(0x110000); break;
			case 4: c = 0x400 + rng.Below(0x60); break;
			default: c = edges[rng.Below(sizeof(edges) / sizeof(*edges))];
			}
			if ((c < 0xd800 || c > 0xdfff) && c != Mark && c != '?') return c;
		}
	}
	Codes AnyText(vh::Rng& rng, size_t max) { Codes r(rng.Below(rng.Chance(1, 3) ? max + 1 : 5)); for (size_t i = 0; i < r.size(); ++i) r[i] = AnyCode(rng); return r; }

	Encoding SetEncoding(unsigned id)
	{
		static const Encoding::Enum e[] = { Encoding::ISO_8859_1, Encoding::ISO_8859_2, Encoding::ISO_8859_3, Encoding::ISO_8859_4, Encoding::ISO_8859_5, Encoding::ISO_8859_6, Encoding::ISO_8859_7, Encoding::ISO_8859_8, Encoding::ISO_8859_9, Encoding::ISO_8859_10, Encoding::ISO_8859_11, Encoding::ISO_8859_12, Encoding::ISO_8859_13, Encoding::ISO_8859_14, Encoding::ISO_8859_15, Encoding::ISO_8859_16 };
		return id <= 16 ? Encoding(e[id - 1]) : Encoding(Encoding::CP1251);
	}
	const size_t SetCount = sizeof(CharSets) / sizeof(*CharSets);
	struct Wide { const char* Name; Encoding::Enum E; int Kind; bool Big; };
	const Wide Wides[] = { { "utf8", Encoding::ISO_10646_utf8, 8, false }, { "utf16be", Encoding::ISO_10646_utf16BE, 16, true }, { "utf16le", Encoding::ISO_10646_utf16LE, 16, false }, { "utf32be", Encoding::ISO_10646_utf32BE, 32, true }, { "utf32le", Encoding::ISO_10646_utf32LE, 32, false }, { "10646", Encoding::ISO_10646, 16, true } };
	std::string Encode(const Wide& w, const Codes& c) { return w.Kind == 8 ? Utf8(c) : w.Kind == 16 ? Utf16(c, w.Big) : Utf32(c, w.Big); }

	// the text in a buffer of its exact size, so that reading behind it is seen
	struct Exact { std::unique_ptr<char[]> P; size_t N; explicit Exact(const std::string& s) : P(new char[s.size()]), N(s.size()) { std::copy(s.begin(), s.end(), P.get()); } string_view View() const { return string_view(P.get(), N); } };

	Codes Unpack(StringCodec::UnpackFunc f, const std::string& s)
	{
		const Exact e(s); Codes r; string_view::const_iterator it = e.View().begin(); const string_view::const_iterator end = e.View().end();
		while (it != end) { const string_view::const_iterator before = it; const u32 c = f(it, end); VH_CHECK(it > before && it <= end, "decoder-left-the-text", Hex(s)); r.push_back(c); if (it <= before || it > end) break; }
		return r;
	}

	std::string Malformed8(vh::Rng& rng)
	{
		const Codes c(1, AnyCode(rng)); const std::string good = Utf8(c);
		switch (rng.Below(9))
		{
		case 0: return std::string(1 + rng.Below(4), (char)(0x80 + rng.Below(0x40)));
		case 1: if (good.size() > 1) return good.substr(0, 1 + rng.Below(good.size() - 1)); return "\xc2";
		case 2: return std::string("\xe0") + (char)(0x80 + rng.Below(0x20)) + (char)(0x80 + rng.Below(0x40));
		case 3: return std::string("\xed") + (char)(0xa0 + rng.Below(0x20)) + (char)(0x80 + rng.Below(0x40));
		case 4: return std::string("\xf0") + (char)(0x80 + rng.Below(0x10)) + (char)(0x80 + rng.Below(0x40)) + (char)(0x80 + rng.Below(0x40));
		case 5: return std::string("\xf4") + (char)(0x90 + rng.Below(0x30)) + (char)(0x80 + rng.Below(0x40)) + (char)(0x80 + rng.Below(0x40));
		case 6: return std::string(1, (char)(0xc0 + rng.Below(2))) + (char)(0x80 + rng.Below(0x40));
		case 7: return std::string(1, (char)(0xf5 + rng.Below(11))) + std::string(rng.Below(4), (char)(0x80 + rng.Below(0x40)));
		default: return good.size() == 4 ? good.substr(0, 3) : "\xf1\x80\x80";
		}
	}
}

VH_SCENARIO(single_byte_sets)
{
	const CharSet& set = CharSets[rng.Below(SetCount)]; const bool page = set.Id == 866 || (set.Id == 1251 && rng.Bool()); vh_distinct("set", set.Id * 2 + page);
	const std::string name = std::to_string(set.Id);
	// every byte at once, decoded by the function itself
	const StringCodec::UnpackFunc f = page ? StringCodec::GetCodePageUnpackFunc(set.Id) : StringCodec::GetUnpackFunc(SetEncoding(set.Id)); VH_CHECK(f, "set-not-supported", name);
	std::string all; for (int i = 0; i < 256; ++i) all += (char)i;
	const Codes got = Unpack(f, all); VH_CHECK(got.size() == 256, "set-length", name + ": " + std::to_string(got.size()));
	for (int i = 0; i < 256; ++i)
		VH_CHECK(set.Map[i] >= 0 ? got[i] == (u32)set.Map[i] : (got[i] == ~0u || got[i] == 0xfffd), "set-mapping", name + " byte " + std::to_string(i) + ": " + Show(Codes(1, got[i])));
	// texts of such bytes
	std::string bytes; Codes want; const size_t n = rng.Below(rng.Chance(1, 3) ? 300 : 6); const u32 replacement = rng.Chance(1, 2) ? '?' : rng.Bool() ? 0xfffd : AnyCode(rng); bool undefined = false, fffd = false;
	for (size_t i = 0; i < n; ++i) { const u8 b = (u8)(rng.Bool() ? 0x80 + rng.Below(128) : rng.Below(256)); bytes += (char)b; if (set.Map[b] < 0) { undefined = true; if (got[b] == 0xfffd) fffd = true; } want.push_back(set.Map[b] < 0 ? (got[b] == 0xfffd ? 0xfffd : replacement) : (u32)set.Map[b]); }
	(void)fffd;
	const std::string utf8 = page ? StringCodec::FromCodePage(bytes, set.Id, replacement).Text : StringCodec::ToUtf8(LocaleString(SetEncoding(set.Id), bytes), replacement);
	VH_CHECK(utf8 == Utf8(want), "set-text", name + " " + Hex(bytes) + "-> " + Hex(utf8) + ", must be " + Hex(Utf8(want)));
	if (!page && !undefined)
	{
		const LocaleString here(SetEncoding(set.Id), bytes), there = LocaleString::FromUtf8(utf8);
		VH_CHECK(here == there && there == here && here.Compare(there) == 0 && !(here < there), "set-equal-to-utf8", name + " " + Hex(bytes)); VH_CHECK(here.ToString() == utf8, "set-to-string", name);
	}
	// and back to a code page
	const unsigned target = rng.Pick(std::vector<unsigned>{ 866, 1251 }); const CharSet* t = NULL; for (size_t i = 0; i < SetCount; ++i) if (CharSets[i].Id == target) t = &CharSets[i];
	Codes text = AnyText(rng, 40); for (size_t i = 0; i < text.size(); ++i) if (rng.Chance(2, 3)) { const int c = t->Map[rng.Below(256)]; if (c >= 0) text[i] = c; }
	std::string packed; for (size_t i = 0; i < text.size(); ++i) { int b = -1; for (int j = 0; j < 256; ++j) if (t->Map[j] == (int)text[i]) b = j; packed += b < 0 ? '?' : (char)b; }
	const Wide& w = Wides[rng.Below(5)]; const std::string back = StringCodec::ToCodePage(LocaleString(Encoding(w.E), Encode(w, text)), target);
	VH_CHECK(back == packed, "to-code-page", std::to_string(target) + " of " + Show(text) + "-> " + Hex(back) + ", must be " + Hex(packed));
	vh_distinct("texts", vh::HashStr(bytes) ^ vh::HashStr(packed)); vh_count("characters", n + text.size());
}

VH_SCENARIO(unicode_forms)
{
	const Wide& w = Wides[rng.Below(6)]; const std::string name = w.Name; Codes text = AnyText(rng, 60); if (w.E == Encoding::ISO_10646 && !text.empty() && (text[0] == 0 || text[0] == 0xfeff || text[0] == 0xfffe || text[0] == 0xefbb)) text[0] = 'x';
	const std::string bytes = Encode(w, text); vh_distinct("texts", vh::HashStr(bytes)); vh_count("characters", text.size());
	const Codes got = Unpack(StringCodec::GetUnpackFunc(Encoding(w.E)), bytes); VH_CHECK(got == text, "unicode-decode", name + " " + Hex(bytes) + "-> " + Show(got) + ", must be " + Show(text));
	VH_CHECK(StringCodec::ToUtf8(LocaleString(Encoding(w.E), bytes)) == Utf8(text), "unicode-to-utf8", name + " " + Show(text));
	std::string packed; for (size_t i = 0; i < text.size(); ++i) StringCodec::PackUtf8(packed, text[i], '?'); VH_CHECK(packed == Utf8(text), "pack-utf8", Show(text) + "-> " + Hex(packed));
	{ const u32 bad = rng.Bool() ? 0xd800 + rng.Below(0x800) : 0x110000 + rng.Below(0x1000), rep = rng.Bool() ? '?' : AnyCode(rng); std::string p = packed; StringCodec::PackUtf8(p, bad, rep); VH_CHECK(p == packed + Utf8(Codes(1, rep)), "pack-utf8-replacement", std::to_string(bad) + " by " + std::to_string(rep) + " -> " + Hex(p)); }
	// the mark at the beginning decides
	static const struct { u32 Kind; bool Big; Encoding::Enum E; } marks[] = { { 8, false, Encoding::ISO_10646_utf8 }, { 16, true, Encoding::ISO_10646_utf16BE }, { 16, false, Encoding::ISO_10646_utf16LE }, { 32, true, Encoding::ISO_10646_utf32BE }, { 32, false, Encoding::ISO_10646_utf32LE } };
	const size_t m = rng.Below(5); Codes marked = text; if (m == 2 && !marked.empty() && marked[0] == 0) marked[0] = 'x';
	const Wide mw = { "", marks[m].E, (int)marks[m].Kind, marks[m].Big }; const std::string mark = Encode(mw, Codes(1, 0xfeff)), whole = mark + Encode(mw, marked);
	size_t bom = 99; const optional<Encoding> e = StringCodec::GetEncoding(whole, bom); VH_CHECK(e && *e == marks[m].E && bom == mark.size(), "byte-order-mark", Hex(whole));
	VH_CHECK(StringCodec::ToUtf8(LocaleString(Encoding::ISO_10646, whole)) == Utf8(marked), "marked-text", Hex(whole));
	VH_CHECK(StringCodec::Compare(LocaleString(Encoding::ISO_10646, whole), LocaleString::FromUtf8(Utf8(marked))) == 0, "marked-text-compare", Hex(whole));
	if (rng.Chance(1, 3)) { const Exact part(whole.substr(0, rng.Below(5))); bom = 99; const optional<Encoding> pe = StringCodec::GetEncoding(part.View(), bom); VH_CHECK(pe ? bom > 0 && bom <= part.N : bom == 0, "byte-order-mark-size", Hex(whole)); }
	// order of texts is that of their code points, whatever the encodings
	const Wide& w2 = Wides[rng.Below(5)]; Codes other = rng.Bool() ? text : AnyText(rng, 8); if (!other.empty() && rng.Bool()) other[rng.Below(other.size())] = AnyCode(rng); if (rng.Chance(1, 4)) other.resize(rng.Below(other.size() + 1));
	const LocaleString a(Encoding(w.E), bytes), b(Encoding(w2.E), Encode(w2, other)); const int sign = text < other ? -1 : other < text ? 1 : 0, ab = a.Compare(b), ba = b.Compare(a);
	VH_CHECK((ab < 0 ? -1 : ab > 0) == sign && (ba < 0 ? -1 : ba > 0) == -sign, "compare", name + "/" + w2.Name + " " + Show(text) + "| " + Show(other) + ": " + std::to_string(ab) + ", " + std::to_string(ba));
	VH_CHECK((a == b) == (sign == 0) && (a != b) == (sign != 0) && (a < b) == (sign < 0) && (b < a) == (sign > 0), "compare-operators", name + "/" + w2.Name + " " + Show(text) + "| " + Show(other));
}

VH_SCENARIO(malformed)
{
	const Wide& w = Wides[rng.Below(5)]; const std::string name = w.Name; std::string bytes; struct Part { bool Good; std::string Text; size_t Max; }; std::vector<Part> parts; const size_t n = rng.Below(6); bool bad = false;
	for (size_t i = 0; i < n; ++i)
	{
		if (!bad && rng.Bool())
		{
			bad = true; std::string p;
			if (w.Kind == 8) p = Malformed8(rng);
			else if (w.Kind == 16) { if (rng.Bool()) Put(p, 0xdc00 + rng.Below(0x400), 2, w.Big); else for (size_t k = 1 + rng.Below(3); k; --k) Put(p, 0xd800 + rng.Below(0x400), 2, w.Big); }
			else Put(p, rng.Bool() ? 0xd800 + rng.Below(0x800) : rng.Bool() ? 0x110000 + rng.Below(1000) : 0x110000 | (u32)rng.Next(), 4, w.Big);
			parts.push_back({ false, p, p.size() }); bytes += p;
		}
		else { bad = false; const Codes c(1, AnyCode(rng)); const std::string p = Encode(w, c); parts.push_back({ true, Utf8(c), 0 }); bytes += p; }
	}
	if (w.Kind != 8 && rng.Chance(1, 3)) { const std::string p(1 + rng.Below(w.Kind / 8 - 1), (char)rng.Below(256)); if (parts.empty() || parts.back().Good) parts.push_back({ false, p, p.size() }); else parts.back().Max += p.size(); bytes += p; }
	bool any = false; for (size_t i = 0; i < parts.size(); ++i) any |= !parts[i].Good; vh_distinct("texts", vh::HashStr(bytes)); vh_count(any ? "malformed texts" : "well-formed texts", 1);
	std::string got;
	if (w.Kind == 8)
	{
		const Codes c = Unpack(StringCodec::GetUnpackFunc(Encoding(w.E)), bytes); for (size_t i = 0; i < c.size(); ++i) got += Utf8(Codes(1, c[i] == ~0u ? Mark : c[i]));
		if (any || !(parts.empty())) { const std::string marked = StringCodec::ToUtf8(LocaleString(Encoding::ISO_10646, "\xef\xbb\xbf" + bytes), Mark); VH_CHECK(marked == got, "malformed-marked-text", Hex(bytes)); }
	}
	else got = StringCodec::ToUtf8(LocaleString(Encoding(w.E), bytes), Mark);
	const std::string mark = Utf8(Codes(1, Mark)); size_t at = 0; bool ok = true;
	for (size_t i = 0; i < parts.size() && ok; ++i)
		if (parts[i].Good) { ok = got.compare(at, parts[i].Text.size(), parts[i].Text) == 0; at += parts[i].Text.size(); }
		else { size_t k = 0; while (got.compare(at, mark.size(), mark) == 0 && at < got.size()) { ++k; at += mark.size(); } ok = k >= 1 && k <= parts[i].Max; }
	VH_CHECK(ok && at == got.size(), "malformed-decode", name + " " + Hex(bytes) + "-> " + Hex(got));
	if (any) { const std::string page = StringCodec::ToCodePage(LocaleString(Encoding(w.E), bytes), 866); VH_CHECK(page.find('?') != std::string::npos, "malformed-to-code-page", name + " " + Hex(bytes)); }
	if (rng.Chance(1, 20)) { bool thrown = false; try { StringCodec::ToUtf8(LocaleString(Encoding(rng.Bool() ? Encoding::GB_2312_1980 : Encoding::ISO_8859_12), bytes)); } catch (const std::exception&) { thrown = true; } VH_CHECK(thrown, "unsupported-set-accepted", ""); }
}

VH_SCENARIO(utf8_iteration)
{
	std::string s; const bool bad = rng.Chance(1, 4);
	{ const size_t n = rng.Below(rng.Chance(1, 5) ? 40 : 6); for (size_t i = 0; i < n; ++i) s += bad && rng.Chance(1, 3) ? (rng.Bool() ? Malformed8(rng) : std::string(1, (char)rng.Below(256))) : Utf8(Codes(1, AnyCode(rng))); }
	Codes text; const bool good = FromUtf8(s, text); vh_distinct("texts", vh::HashStr(s)); vh_count(good ? "well-formed texts" : "malformed texts", 1);
	const Exact e(s); const string_view v = e.View();
	VH_CHECK(Utf8Validate(v) == good, "validate", Hex(s));
	// forwards as far as the text is well-formed
	{
		Utf8IteratorRange<string_view> r(v); size_t at = 0, steps = 0; bool failed = false;
		while (r.Valid())
		{
			const size_t len = WellFormed(s, at); bool thrown = false; u32 c = 0; try { c = r.Get(); } catch (const std::exception&) { thrown = true; }
			VH_CHECK(thrown == !len, "forward-accepts", Hex(s) + "at " + std::to_string(at));
			if (!len) { bool t2 = false; try { r.Next(); } catch (const std::exception&) { t2 = true; } VH_CHECK(t2, "forward-steps-over-malformed", Hex(s) + "at " + std::to_string(at)); failed = true; break; }
			VH_CHECK(Utf8(Codes(1, c)) == s.substr(at, len), "forward-value", Hex(s) + "at " + std::to_string(at) + ": " + std::to_string(c));
			r.Next(); at += len; ++steps; VH_CHECK(r.GetIterator() == v.begin() + at, "forward-position", Hex(s));
			if (rng.Chance(1, 5)) { r.Prev(); VH_CHECK(r.GetIterator() == v.begin() + (at - len) && r.Get() == c, "step-back", Hex(s)); r.Next(); VH_CHECK(r.GetIterator() == v.begin() + at, "step-back-and-forth", Hex(s)); }
		}
		VH_CHECK(failed == !good && (failed || steps == text.size()), "forward-count", Hex(s));
		if (good) { size_t got = 0; try { got = Utf8Strlen(v); } catch (const std::exception&) { got = ~(size_t)0; } VH_CHECK(got == text.size(), "strlen", Hex(s)); }
	}
	// backwards likewise
	{
		Utf8IteratorRange<string_view> r(v, v.end()); size_t at = s.size(); Codes back;
		while (at != 0)
		{
			size_t len = 0; for (size_t k = 1; k <= 4 && k <= at; ++k) if (WellFormed(s.substr(0, at), at - k) == k) { len = k; break; }
			bool thrown = false; try { r.Prev(); } catch (const std::exception&) { thrown = true; }
			VH_CHECK(thrown == !len, "backward-accepts", Hex(s) + "at " + std::to_string(at)); if (!len || thrown) break;
			at -= len; VH_CHECK(r.GetIterator() == v.begin() + at, "backward-position", Hex(s) + std::to_string(at)); back.push_back(r.Get());
		}
		if (at == 0) { VH_CHECK(good && std::equal(back.begin(), back.end(), text.rbegin()) && back.size() == text.size(), "backward-values", Hex(s)); bool thrown = false; if (rng.Chance(1, 10)) { try { r.Prev(); } catch (const std::exception&) { thrown = true; } VH_CHECK(thrown, "backward-over-the-beginning", ""); } }
		else VH_CHECK(!good, "backward-stopped", Hex(s));
		if (good && !text.empty()) { Utf8IteratorRange<string_view> l(v); l.Last(); VH_CHECK(l.Get() == text.back(), "last", Hex(s)); l.First(); VH_CHECK(l.Get() == text[0], "first", Hex(s)); }
	}
	if (good) // parts of it
	{
		std::vector<size_t> starts; { size_t at = 0; for (size_t i = 0; i < text.size(); ++i) { starts.push_back(at); at += WellFormed(s, at); } starts.push_back(at); }
		const size_t pos = rng.Below(text.size() + 3), count = rng.Chance(1, 4) ? string_view::npos : rng.Below(text.size() + 3);
		{
			bool thrown = false; std::string got; try { got = Utf8Substring<true>(v, pos, count); } catch (const std::exception&) { thrown = true; }
			VH_CHECK(thrown == (pos > text.size()), "substring-throws", Hex(s) + std::to_string(pos)); if (pos <= text.size()) { const Codes want(text.begin() + pos, count >= text.size() - pos ? text.end() : text.begin() + pos + count); VH_CHECK(got == Utf8(want), "substring", Hex(s) + std::to_string(pos) + "+" + std::to_string(count) + ": " + Hex(got)); }
		}
		{
			const size_t bpos = rng.Below(s.size() + 3), bcount = rng.Chance(1, 4) ? string_view::npos : rng.Below(s.size() + 3); size_t first = starts.size(); for (size_t i = starts.size(); i-- > 0; ) if (starts[i] >= bpos) first = i;
			bool thrown = false; std::string got; try { got = Utf8Substring<false>(v, bpos, bcount); } catch (const std::exception&) { thrown = true; }
			VH_CHECK(thrown == (first == starts.size()), "byte-substring-throws", Hex(s) + std::to_string(bpos));
			if (first != starts.size()) { size_t last = first; while (last + 1 < starts.size() && starts[last + 1] - starts[first] <= bcount) ++last; VH_CHECK(got == s.substr(starts[first], starts[last] - starts[first]), "byte-substring", Hex(s) + std::to_string(bpos) + "+" + std::to_string(bcount) + ": " + Hex(got)); }
		}
	}
	// letter case; without ICU only Latin and Cyrillic letters have it
	{
		std::string any; bool thrown = false; try { any = Utf8ToLower(v); } catch (const std::exception&) { thrown = true; }
		if (good) { Codes got; VH_CHECK(!thrown && FromUtf8(any, got), "lower-case-malformed", Hex(s) + "-> " + Hex(any)); }
		Codes letters(rng.Below(8)), want, other, plain(rng.Below(8)); for (size_t i = 0; i < plain.size(); ++i) plain[i] = rng.Bool() ? 'a' + rng.Below(26) : 0x430 + rng.Below(32);
		for (size_t i = 0; i < letters.size(); ++i) { static const u32 rest[] = { '0', '_', '@', '[', '`', '{', 0x4e00, 0x1f600, 0x5d0, 0xe000 }; letters[i] = rng.Chance(1, 3) ? 'A' + rng.Below(58) : rng.Chance(3, 4) ? 0x401 + rng.Below(0x5f) : rest[rng.Below(10)]; }
		for (size_t i = 0; i < letters.size(); ++i) { const u32 c = letters[i]; want.push_back(c >= 'A' && c <= 'Z' ? c + 32 : c >= 0x410 && c <= 0x42f ? c + 0x20 : c >= 0x401 && c <= 0x40f ? c + 0x50 : c); }
		const std::string text8 = Utf8(letters); const Exact et(text8); VH_CHECK(Utf8ToLower(et.View()) == Utf8(want), "lower-case", Show(letters) + "-> " + Hex(Utf8ToLower(text8)));
		other = want; for (size_t i = 0; i < other.size(); ++i) if (((other[i] >= 'a' && other[i] <= 'z') || (other[i] >= 0x430 && other[i] <= 0x44f)) && rng.Bool()) other[i] -= 32;
		if (rng.Chance(1, 5))
		{
			const UnicodeCollator exact(true), loose(false); const std::string o = Utf8(other), z = Utf8(plain), y = Utf8(Codes(plain.begin(), plain.begin() + rng.Below(plain.size() + 1)));
			VH_CHECK(loose.Compare(text8, o) == 0 && loose.Compare(o, text8) == 0, "collate-case", Show(letters) + "| " + Show(other)); VH_CHECK((exact.Compare(text8, o) == 0) == (letters == other), "collate-exact", Show(letters) + "| " + Show(other));
			VH_CHECK((exact.Compare(y, z) == 0) == (y == z) && exact.Compare(y, z) <= 0, "collate-prefix", Show(plain));
			const int p = exact.Compare(text8, z), q = exact.Compare(z, text8); VH_CHECK((p < 0) == (q > 0) && (p > 0) == (q < 0), "collate-antisymmetric", Show(letters) + "| " + Show(plain));
		}
	}
	{
		const std::string part = rng.Bool() && !s.empty() ? s.substr(rng.Below(s.size())) : Utf8(AnyText(rng, 4)); const bool found = TranslitMatchSubstr(part, s); if (s.find(part) != std::string::npos) VH_CHECK(found, "translit-misses-itself", Hex(part) + "in " + Hex(s));
		static const struct { const char* T; const char* S; bool R; } samples[] = { { "gorod", "новгород, 1", true }, { "zhuk", "жук", false }, { "chas", "сейчас", true }, { "x", "кс", true }, { "xs", "кс", false }, { "abc", "аб", false } };
		const size_t k = rng.Below(6); const bool r = TranslitMatchSubstr(samples[k].T, samples[k].S); if (k != 1) VH_CHECK(r == samples[k].R, "translit-sample", samples[k].T); std::string zero(samples[3].T); zero += '\0'; zero += '\0'; TranslitMatchSubstr(zero, "кс");
	}
}
