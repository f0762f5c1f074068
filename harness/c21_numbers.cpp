// C21: big integers, decimals, fixed-point numbers and numeric helpers, judged by exact arithmetic on wide integers.
#include "vh.h"
#include <stingraykit/BigNum.h>
#include <stingraykit/Decimal.h>
#include <stingraykit/fixed_point.h>
#include <stingraykit/math.h>
#include <stingraykit/Average.h>
#include <boost/multiprecision/cpp_int.hpp>
#include <limits>

using namespace stingray;

namespace {
	typedef boost::multiprecision::cpp_int Int;
	typedef BigUnsignedInteger Big;
	typedef __int128 Wide;

	std::string Show(const Int& v) { return v.str(); }
	std::string ShowW(Wide v) { if (v < 0) return "-" + ShowW(-v); std::string r; do { r.insert(r.begin(), char('0' + (int)(v % 10))); v /= 10; } while (v); return r; }
	std::string InBase(Int v, unsigned base) { std::string r; do { const unsigned d = (unsigned)(v % base); r.insert(r.begin(), d < 10 ? '0' + d : 'A' + d - 10); v /= base; } while (v != 0); return r; }

	Int AnyInt(vh::Rng& rng, size_t maxBlocks)
	{
		Int r = 0; const size_t blocks = rng.Below(maxBlocks + 1);
		for (size_t i = 0; i < blocks; ++i)
		{
			u64 b = 0;
			switch (rng.Below(6)) { case 0: b = 0; break; case 1: b = ~0ull; break; case 2: b = 1ull << rng.Below(64); break; case 3: b = (1ull << rng.Below(64)) - 1; break; case 4: b = ~0ull << rng.Below(64); break; default: b = rng.Next(); }
			r = r << 64 | b;
		}
		if (r > 0 && rng.Chance(1, 4)) r -= 1; else if (rng.Chance(1, 4)) r += 1;
		return r;
	}
	Big FromInt(const Int& v) { return Big("0x" + InBase(v, 16)); }
	template < typename T > bool Fits(const Int& v) { return v <= Int(std::numeric_limits<T>::max()); }

	struct Pair { Big B; Int I; };

	template < typename T > void Primitive(const Big& b, const Int& v, const std::string& what)
	{
		bool refused = false; T got = 0;
		try { got = b.ToPrimitive<T>(); } catch (const std::exception&) { refused = true; }
		VH_CHECK(refused ? !Fits<T>(v) : Int(got) == v, "big-to-primitive", what + Show(v) + " as a " + std::to_string(sizeof(T)) + "-byte integer: " + (refused ? "refused" : std::to_string(got)));
	}

	void Same(const Big& b, const Int& v, const std::string& what)
	{
		const std::string got = b.ToString();
		VH_CHECK(got == InBase(v, 16), "big-value", what + " is " + got + ", expected " + InBase(v, 16));
	}
	template < typename T > Big OfType(vh::Rng& rng, Int& v) { T x = (T)rng.Interesting(); if (rng.Chance(1, 3)) x = (T)rng.Below(3); if (x < 0) x = (T)~x; v = x; return Big(x); }
}

VH_SCENARIO(big_integers)
{
	std::vector<Pair> p(6); std::string what;
	for (int step = 0; step < 40 && !vh_violated(); ++step)
	{
		Pair& t = p[rng.Below(p.size())]; const Pair a = p[rng.Below(p.size())]; const Pair c = p[rng.Below(p.size())]; Pair r;
		const bool assign = rng.Bool(); const int op = rng.Below(16); const std::string as = Show(a.I), cs = Show(c.I), ts = Show(t.I); vh_count("big_operations", 1);
		const Int x = assign ? t.I : a.I; // the left operand
		const bool self = assign && rng.Chance(1, 8); const Int y = self ? t.I : c.I; const Big& cb = self ? t.B : c.B; const std::string lhs = Show(x), rhs = Show(y);
		switch (op)
		{
		case 0: { const Int v = AnyInt(rng, 5); t.I = v; t.B = FromInt(v); what = "a hexadecimal text"; break; }
		case 1: { const Int v = AnyInt(rng, 4); t.I = v; const int f = rng.Below(4); const unsigned base = 2 + rng.Below(35); std::string s = InBase(v, f == 0 ? 10 : f == 1 ? 2 : base); if (rng.Chance(1, 3)) s = std::string(rng.Below(20), '0') + s; if (f >= 2 && rng.Bool()) for (size_t i = 0; i < s.size(); ++i) s[i] = tolower(s[i]);
			t.B = f == 0 ? Big(s) : f == 1 ? Big("0b" + s) : Big(s, base); what = "the text " + s; break; }
		case 2: { std::vector<u8> d(rng.Below(30)); Int v = 0; for (size_t i = 0; i < d.size(); ++i) { d[i] = rng.Chance(1, 3) ? 0 : rng.Chance(1, 3) ? 255 : (u8)rng.Below(256); v = v << 8 | d[i]; } if (d.empty()) break; t.I = v; t.B = Big(ConstByteData(d.data(), d.size())); what = "bytes"; break; }
		case 3: switch (rng.Below(8)) { case 0: t.B = OfType<u8>(rng, t.I); break; case 1: t.B = OfType<s8>(rng, t.I); break; case 2: t.B = OfType<u16>(rng, t.I); break; case 3: t.B = OfType<s32>(rng, t.I); break; case 4: t.B = OfType<u32>(rng, t.I); break; case 5: t.B = OfType<s64>(rng, t.I); break; case 6: t.B = OfType<u64>(rng, t.I); break; default: t.B = OfType<s16>(rng, t.I); }
			what = "an integer"; break;
		case 4: case 5: what = lhs + " + " + rhs; if (assign) t.B += cb; else t.B = a.B + c.B; t.I = x + y; break;
		case 6: case 7:
			what = lhs + " - " + rhs;
			if (y > x)
			{
				if (!rng.Chance(1, 4)) break;
				bool refused = false; Big tmp = assign ? t.B : a.B; try { if (assign) tmp -= cb; else tmp = a.B - c.B; } catch (const std::exception&) { refused = true; }
				VH_CHECK(refused, "big-negative-result", what + " gives " + tmp.ToString()); Same(tmp, x, "the left operand of the refused " + what); vh_count("refusals", 1); break;
			}
			if (assign) t.B -= cb; else t.B = a.B - c.B; t.I = x - y; break;
		case 8: case 9: if (assign ? t.I.is_zero() : false) break; what = lhs + " * " + rhs; if (assign) t.B *= cb; else t.B = a.B * c.B; t.I = x * y; break;
		case 10: case 11:
			what = lhs + (op == 10 ? " / " : " % ") + rhs;
			if (y == 0)
			{
				bool refused = false; Big tmp = assign ? t.B : a.B; try { if (op == 10) { if (assign) tmp /= cb; else tmp = a.B / c.B; } else { if (assign) tmp %= cb; else tmp = a.B % c.B; } } catch (const std::exception&) { refused = true; }
				VH_CHECK(refused, "big-division-by-zero", what + " gives " + tmp.ToString()); vh_count("refusals", 1); break;
			}
			{ const Int q = x / y, m = x % y; if (op == 10) { if (assign) t.B /= cb; else t.B = a.B / c.B; t.I = q; } else { if (assign) t.B %= cb; else t.B = a.B % c.B; t.I = m; } }
			break;
		case 12: what = lhs + " & " + rhs; if (assign) t.B &= cb; else t.B = a.B & c.B; t.I = x & y; break;
		case 13: if (rng.Bool()) { what = lhs + " | " + rhs; if (assign) t.B |= cb; else t.B = a.B | c.B; t.I = x | y; } else { what = lhs + " ^ " + rhs; if (assign) t.B ^= cb; else t.B = a.B ^ c.B; t.I = x ^ y; } break;
		default:
			{
				int n = rng.Chance(1, 3) ? 64 * (int)rng.Below(4) : (int)rng.Below(200); const bool back = rng.Chance(1, 8); if (back) n = -n; const bool left = op == 14; what = lhs + (left ? " << " : " >> ") + std::to_string(n);
				if (left) { if (assign) t.B <<= n; else t.B = a.B << n; } else { if (assign) t.B >>= n; else t.B = a.B >> n; }
				const bool up = left != back; const int by = std::abs(n); t.I = up ? Int(x << by) : Int(x >> by);
			}
		}
		Same(t.B, t.I, what); if (vh_violated()) return;
		if (t.I > Int(1) << 900) { t.I >>= 700; t.B >>= 700; Same(t.B, t.I, "700 bits removed"); }
		vh_distinct("big_values", vh::HashStr(InBase(t.I, 16)));
		// comparisons with another of the values, or with one that differs in a single place
		Pair o = p[rng.Below(p.size())]; if (rng.Chance(1, 3)) { o.I = t.I ^ (Int(1) << rng.Below(260)); if (rng.Bool()) o.I = o.I ^ (Int(1) << rng.Below(260)); o.B = FromInt(o.I); }
		const bool ok = (t.B < o.B) == (t.I < o.I) && (t.B > o.B) == (t.I > o.I) && (t.B <= o.B) == (t.I <= o.I) && (t.B >= o.B) == (t.I >= o.I) && (t.B == o.B) == (t.I == o.I) && (t.B != o.B) == (t.I != o.I);
		VH_CHECK(ok, "big-compare", Show(t.I) + " against " + Show(o.I)); vh_count("comparisons", 1);
		if (rng.Chance(1, 6))
		{
			const unsigned base = 2 + rng.Below(35); const std::string s = t.B.ToString(base); VH_CHECK(s == InBase(t.I, base), "big-text", what + ": in base " + std::to_string(base) + " " + s + ", expected " + InBase(t.I, base));
			const ByteArray d = t.B.ToByteArray(); Int v = 0; for (size_t i = 0; i < d.size(); ++i) v = v << 8 | d[i]; VH_CHECK(v == t.I && (d.size() == 0 || d[0] != 0), "big-bytes", what); vh_count("texts", 2);
		}
		if (rng.Chance(1, 40)) { Primitive<s8>(t.B, t.I, what + ": "); Primitive<u8>(t.B, t.I, what + ": "); Primitive<s32>(t.B, t.I, what + ": "); Primitive<u32>(t.B, t.I, what + ": "); Primitive<s64>(t.B, t.I, what + ": "); Primitive<u64>(t.B, t.I, what + ": "); }
	}
	if (rng.Chance(1, 10))
	{
		static const char* const bad[] = { "12a", "-1", "+1", " 1", "1 ", "0x1g", "0b12", "1.5", "0x-1" }; const char* s = bad[rng.Below(9)]; bool refused = false; try { Big b(s); } catch (const std::exception&) { refused = true; } VH_CHECK(refused, "big-malformed-text", s);
		refused = false; try { Big b((s64)-1 - (s64)rng.Below(1000)); } catch (const std::exception&) { refused = true; } VH_CHECK(refused, "big-negative-source", "");
		refused = false; const Big b(rng.Below(1000)); try { (void)b.ToString(rng.Below(2)); } catch (const std::exception&) { refused = true; } VH_CHECK(refused, "big-base-below-two", "");
	}
}

namespace {
	struct Dec { s64 M; unsigned E; };
	const Wide Max64 = std::numeric_limits<s64>::max();
	Wide Pow10(unsigned n) { Wide r = 1; for (unsigned i = 0; i < n; ++i) r *= 10; return r; }
	s64 AnyMantissa(vh::Rng& rng)
	{
		s64 v; switch (rng.Below(6)) { case 0: v = rng.Below(1000); break; case 1: v = (s64)(rng.Next() >> (1 + rng.Below(62))); break; case 2: v = (1ll << rng.Below(62)) + (s64)rng.Below(3) - 1; break; case 3: v = (s64)Pow10(rng.Below(19)) + (s64)rng.Below(3) - 1; break; case 4: v = (s64)rng.Below(1000) * (s64)Pow10(rng.Below(15)); break; default: v = (s64)(rng.Next() >> 1); }
		return rng.Bool() ? -v : v;
	}
	std::string DecText(s64 m, unsigned e)
	{
		std::string s = ShowW(m < 0 ? -(Wide)m : m); if (s.size() <= e) s = std::string(e + 1 - s.size(), '0') + s;
		std::string i = s.substr(0, s.size() - e), f = s.substr(s.size() - e); while (!f.empty() && f.back() == '0') f.pop_back();
		return (m < 0 ? "-" : "") + i + (f.empty() ? "" : "." + f);
	}
	std::string D(const Dec& d) { return "(" + std::to_string(d.M) + ", " + std::to_string(d.E) + ")"; }
	// is the number with this mantissa and exponent x?
	bool Is(const Decimal& x, Wide m, unsigned e)
	{
		unsigned xe = x.GetExponent(); Wide xm = x.GetMantissa();
		while (e && m % 10 == 0) { m /= 10; --e; }
		while (xe && xm % 10 == 0) { xm /= 10; --xe; }
		return m == xm && e == xe;
	}
	int CompareDec(const Dec& a, const Dec& b) // up to 10^18 * 2^63 fits in 128 bits
	{
		const unsigned e = std::max(a.E, b.E); const Wide x = (Wide)a.M * Pow10(e - a.E), y = (Wide)b.M * Pow10(e - b.E); return x < y ? -1 : x > y ? 1 : 0;
	}
}

VH_SCENARIO(decimals)
{
	for (int step = 0; step < 60 && !vh_violated(); ++step)
	{
		Dec a = { AnyMantissa(rng), (unsigned)rng.Below(rng.Chance(1, 3) ? 19 : 6) }, b = { AnyMantissa(rng), (unsigned)rng.Below(rng.Chance(1, 3) ? 19 : 6) };
		if (rng.Chance(1, 4)) { b = a; if (rng.Bool() && b.M % 10 == 0 && b.E) { b.M /= 10; --b.E; } else if (rng.Bool() && std::abs(b.M) < Max64 / 10 && b.E < 18) { b.M *= 10; ++b.E; } if (rng.Chance(1, 3) && std::abs(b.M) < Max64) b.M += rng.Bool() ? 1 : -1; }
		const Decimal x(a.M, a.E), y(b.M, b.E); const std::string what = D(a) + " and " + D(b); const int c = CompareDec(a, b); vh_count("decimal_pairs", 1); vh_distinct("decimals", vh::HashStr(what));
		VH_CHECK((x < y) == (c < 0) && (x > y) == (c > 0) && (x <= y) == (c <= 0) && (x >= y) == (c >= 0) && (x == y) == (c == 0) && (x != y) == (c != 0), "decimal-compare", what);
		const unsigned e = std::max(a.E, b.E); const Wide p = (Wide)a.M * Pow10(e - a.E), q = (Wide)b.M * Pow10(e - b.E);
		if (p <= Max64 && p >= -Max64 && q <= Max64 && q >= -Max64)
		{
			if (p + q <= Max64 && p + q >= -Max64) { VH_CHECK(Is(x + y, p + q, e), "decimal-add", what + " give " + (x + y).ToString()); Decimal z(x); z += y; VH_CHECK(z == x + y && Is(z, p + q, e), "decimal-add", what); if (a.M == b.M && a.E == b.E) { Decimal s(x); s += s; VH_CHECK(Is(s, p + q, e), "decimal-add", what); } }
			if (p - q <= Max64 && p - q >= -Max64) { VH_CHECK(Is(x - y, p - q, e), "decimal-subtract", what + " give " + (x - y).ToString()); Decimal z(x); z -= y; VH_CHECK(Is(z, p - q, e), "decimal-subtract", what); }
			vh_count("sums", 1);
		}
		{
			const Wide m = (Wide)a.M * b.M;
			if (m <= Max64 && m >= -Max64) { VH_CHECK(Is(x * y, m, a.E + b.E), "decimal-multiply", what + " give " + (x * y).ToString()); Decimal z(x); z *= y; VH_CHECK(Is(z, m, a.E + b.E), "decimal-multiply", what); if (std::abs(a.M) < 3000000000ll) { Decimal s(x); s *= s; VH_CHECK(Is(s, (Wide)a.M * a.M, 2 * a.E), "decimal-multiply", what); } vh_count("products", 1); }
		}
		VH_CHECK(Is(-x, -(Wide)a.M, a.E), "decimal-negate", what);
		const std::string text = x.ToString(), want = DecText(a.M, a.E);
		VH_CHECK(text == want, "decimal-print", D(a) + " prints " + text + ", expected " + want);
		try { const Decimal back = Decimal::FromString(text); VH_CHECK(Is(back, a.M, a.E), "decimal-parse", text + " gives " + D({ back.GetMantissa(), back.GetExponent() })); }
		catch (const std::exception& ex) { VH_CHECK(false, "decimal-parse", text + " is refused: " + ex.what()); }
		if (rng.Chance(1, 4))
		{
			// written with extra zeros or without a whole part
			std::string s = want; if (s.find('.') == std::string::npos) s += rng.Bool() ? "." : ".0"; if (s.back() != '.' || rng.Bool()) s += std::string(rng.Below(20), '0'); const size_t sign = s[0] == '-'; if (s[sign] == '0' && s.size() > sign + 2 && rng.Bool() && !sign) s.erase(sign, 1); else if (rng.Bool()) s.insert(sign, std::string(rng.Below(4), '0'));
			try { const Decimal back = Decimal::FromString(s); VH_CHECK(Is(back, a.M, a.E), "decimal-parse", s + " gives " + D({ back.GetMantissa(), back.GetExponent() })); }
			catch (const std::exception& ex) { VH_CHECK(false, "decimal-parse", s + " is refused: " + ex.what()); }
		}
		if (rng.Chance(1, 30))
		{
			static const char* const bad[] = { "", ".", "1.-5", "1.+5", "a", "1.a", "1a.5", "--1", "1.5.5", "1. 5", "12345678901234567890", "1.1e5", "0x1", "9223372036854775807.1" }; const char* s = bad[rng.Below(14)]; bool refused = false; Decimal d; try { d = Decimal::FromString(s); } catch (const std::exception&) { refused = true; }
			VH_CHECK(refused, "decimal-malformed", std::string(s) + " gives " + d.ToString()); vh_count("refusals", 1);
		}
	}
}

namespace {
	template < int N, typename T > struct Fx
	{
		typedef fixed_point<N, T> F; typedef __int128 W;
		static W Lo() { return std::numeric_limits<T>::min(); } static W Hi() { return std::numeric_limits<T>::max(); }
		static bool Ok(W v) { return v >= Lo() && v <= Hi(); }
		static W Floor(W a, W b) { W q = a / b; return q - (a % b != 0 && (a % b < 0) != (b < 0)); }
		static T AnyRaw(vh::Rng& rng) { T v; switch (rng.Below(5)) { case 0: v = (T)rng.Interesting(); break; case 1: v = (T)((s64)rng.Below(200) - 100); break; case 2: v = (T)(((s64)rng.Below(200) - 100) * (1ll << N)); break; case 3: v = (T)((s64)(rng.Next() >> (64 - sizeof(T) * 4)) * (rng.Bool() ? 1 : -1)); break; default: v = (T)rng.Next(); } return v; }
		static std::string S(W raw) { return ShowW(raw) + "/2^" + std::to_string(N); }
		static bool Near(F got, W num, W den) { const W exact = Floor(num, den); const W g = got.GetValue(); return g == exact || (num % den != 0 && g == exact + 1); } // rounded down or up
		static void Run(vh::Rng& rng)
		{
			const T a = AnyRaw(rng), b = AnyRaw(rng); const F x = F::FromRawValue(a), y = F::FromRawValue(b); const std::string what = S(a) + " and " + S(b); const W one = (W)1 << N; vh_count("fixed_pairs", 1); vh_distinct("fixed", vh::HashStr(what));
			VH_CHECK((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "fixed-compare", what);
			if (Ok((W)a + b)) VH_CHECK((x + y).GetValue() == (W)a + b, "fixed-add", what);
			if (Ok((W)a - b)) VH_CHECK((x - y).GetValue() == (W)a - b, "fixed-subtract", what);
			if (Ok(-(W)a)) VH_CHECK((-x).GetValue() == -(W)a, "fixed-negate", what);
			if (Ok(Floor((W)a * b, one)) && Ok(Floor((W)a * b, one) + 1)) VH_CHECK(Near(x * y, (W)a * b, one), "fixed-multiply", what + " give " + S((x * y).GetValue()));
			if (b != 0 && Ok(Floor((W)a * one, b)) && Ok(Floor((W)a * one, b) + 1)) VH_CHECK(Near(x / y, (W)a * one, b), "fixed-divide", what + " give " + S((x / y).GetValue()));
			if (b == 0) { bool refused = false; try { F z(x); z /= y; } catch (const std::exception&) { refused = true; } VH_CHECK(refused, "fixed-division-by-zero", what); refused = false; try { (void)(x / (s32)0); } catch (const std::exception&) { refused = true; } VH_CHECK(refused, "fixed-division-by-zero", what); vh_count("refusals", 1); }
			const int k = (int)rng.Below(41) - 20; if (std::numeric_limits<T>::is_signed || k >= 0)
			{
				if (Ok((W)a * k)) VH_CHECK((x * k).GetValue() == (W)a * k, "fixed-multiply-integer", S(a) + " by " + std::to_string(k));
				if (k && Ok(Floor(a, k)) && Ok(Floor(a, k) + 1) && (sizeof(T) >= 4)) VH_CHECK(Near(x / k, a, k), "fixed-divide-integer", S(a) + " by " + std::to_string(k));
				if (Ok((W)k * one)) { VH_CHECK(F((T)k).GetValue() == (W)k * one && F((T)k).to_int() == (T)k, "fixed-from-integer", std::to_string(k)); }
			}
			VH_CHECK(x.to_int() == Floor(a, one), "fixed-to-integer", S(a));
			const int sh = (int)rng.Below(std::min<size_t>(sizeof(T) * 8 - 2, 20)); if (Ok((W)a * ((W)1 << sh))) VH_CHECK((x << sh).GetValue() == (W)a * ((W)1 << sh), "fixed-shift-left", S(a) + " by " + std::to_string(sh));
			VH_CHECK((x >> sh).GetValue() == Floor(a, (W)1 << sh), "fixed-shift-right", S(a) + " by " + std::to_string(sh));
			Convert<N + 3, T>(a, x); Convert<(N > 2 ? N - 2 : 0), T>(a, x); Convert<N / 2, s32>(a, x); Convert<(N < 12 ? N + 2 : 12), s32>(a, x);
			if (Ok(Floor((W)a * 1000, 1)) || sizeof(T) >= 4)
			{
				const std::string s = x.ToString(); const W mag = a < 0 ? -(W)a : (W)a; const W lo = mag * 1000 / one;
				const size_t dot = s.find('.'); const bool form = dot != std::string::npos && s.size() == dot + 4 && (s[0] != '-' || a < 0); W v = 0; bool digits = form; for (size_t i = s[0] == '-'; i < s.size(); ++i) if (i != dot) { digits = digits && isdigit((unsigned char)s[i]); v = v * 10 + (s[i] - '0'); }
				VH_CHECK(form && digits && (v == lo || v == lo + 1) && (s[0] == '-' || a >= 0 || v == 0), "fixed-print", S(a) + " prints " + s); vh_count("texts", 1);
			}
			{
				// a decimal text
				const W limit = Hi() / one; const bool neg = std::numeric_limits<T>::is_signed && rng.Bool(); const s64 ip = limit > 0 ? (s64)(rng.Bool() ? rng.Below((u64)std::min<W>(limit, 1000000)) : rng.Below((u64)std::min<W>(limit, 3))) : 0; const size_t nd = 1 + rng.Below(rng.Chance(1, 4) ? 15 : 5);
				std::string f; W fn = 0; for (size_t i = 0; i < nd; ++i) { const char c = rng.Chance(1, 3) ? '0' : rng.Chance(1, 4) ? '9' : (char)('0' + rng.Below(10)); f += c; fn = fn * 10 + (c - '0'); }
				const std::string s = (neg ? "-" : "") + std::to_string(ip) + "." + f; const W den = Pow10(nd); const W num = ((W)ip * den + fn) * one; // exact raw value is num / den
				W got = 0; bool refused = false; std::string why; try { got = F::FromString(s).GetValue(); } catch (const std::exception& e) { refused = true; why = e.what(); }
				if (neg) got = -got; const W diff = got * den - num; // up to two units of the last place
				VH_CHECK(!refused && diff <= den && diff >= -2 * den, "fixed-parse", s + " gives " + (refused ? "an error: " + why : S(neg ? -got : got)) + ", expected about " + S(Floor(num, den))); vh_count("texts", 1);
				if (rng.Chance(1, 8) && ip <= limit) { const std::string whole = (neg ? "-" : "") + std::to_string(ip); VH_CHECK(F::FromString(whole).GetValue() == (W)(neg ? -ip : ip) * one, "fixed-parse", whole); }
			}
			if (rng.Chance(1, 50)) { static const char* const bad[] = { "", "a", "1.a", "1.-5", "1.", "a.5", "1.5x" }; const char* s = bad[rng.Below(7)]; bool refused = false; try { (void)F::FromString(s); } catch (const std::exception&) { refused = true; } VH_CHECK(refused, "fixed-malformed", s); }
			{
				const W top = std::min<W>(Hi(), Hi() / one * (Hi() / one)); const T v = (T)(top > 0 ? rng.Below((u64)std::min<W>(top, std::numeric_limits<s64>::max())) >> rng.Below(sizeof(T) * 8 - 1) : 0);
				if ((W)v << (2 * N) < (W)1 << (sizeof(T) * 16 - 1)) { const W r = F::sqrt(v).GetValue(); const W sq = (W)v << (2 * N); VH_CHECK(r >= 0 && r * r <= sq && (r + 1) * (r + 1) > sq, "fixed-sqrt", std::to_string(v) + " gives " + S(r)); vh_count("roots", 1); }
			}
		}
		template < int M, typename U > static void Convert(T a, F x)
		{
			const W want = M >= N ? (W)a * ((W)1 << (M >= N ? M - N : 0)) : Floor(a, (W)1 << (M >= N ? 0 : N - M));
			if (want < std::numeric_limits<U>::min() || want > std::numeric_limits<U>::max()) return;
			const fixed_point<M, U> y(x); fixed_point<M, U> z; z = x; VH_CHECK(y.GetValue() == want && z.GetValue() == want, "fixed-convert", S(a) + " to 2^-" + std::to_string(M) + " gives " + ShowW(y.GetValue()));
		}
	};
}

VH_SCENARIO(fixed_points) { for (int i = 0; i < 30 && !vh_violated(); ++i) switch (rng.Below(6)) { case 0: Fx<16, s32>::Run(rng); break; case 1: Fx<8, s32>::Run(rng); break; case 2: Fx<4, s16>::Run(rng); break; case 3: Fx<0, s32>::Run(rng); break; case 4: Fx<10, s32>::Run(rng); break; default: Fx<3, s16>::Run(rng); } }

namespace {
	template < typename T > void Align(vh::Rng& rng)
	{
		const T v = (T)(rng.Bool() ? rng.Interesting() : rng.Below(100)); T b = (T)(rng.Bool() ? rng.Below(20) : rng.Interesting());
		if (b < 0) b = (T)~b; const std::string what = std::to_string(v) + " by " + std::to_string(b);
		if (b == 0) { bool r1 = false, r2 = false; try { (void)AlignUp<T>(v, b); } catch (const std::exception&) { r1 = true; } try { (void)AlignDown<T>(v, b); } catch (const std::exception&) { r2 = true; } VH_CHECK(r1 && r2, "align-by-zero", what); return; }
		Wide down = (Wide)v / b * b; if (down > (Wide)v) down -= b; const Wide up = down == v ? down : down + b;
		if (down >= std::numeric_limits<T>::min()) VH_CHECK(AlignDown<T>(v, b) == down, "align-down", what + " gives " + std::to_string(AlignDown<T>(v, b)));
		if (up <= std::numeric_limits<T>::max()) VH_CHECK(AlignUp<T>(v, b) == up, "align-up", what + " gives " + std::to_string(AlignUp<T>(v, b)));
		vh_count("alignments", 2);
	}
	template < u64 N > bool Power(u64 v) { u64 p = 1; for (;;) { if (p == v) return true; if (p > ~0ull / N) return false; p *= N; } }
	template < u64 N > void Powers(vh::Rng& rng)
	{
		u64 v = 1; for (u64 k = rng.Below(64); k && v <= ~0ull / N; --k) v *= N; if (rng.Bool()) v += (u64)rng.Below(3) - 1; if (rng.Chance(1, 8)) v = rng.Interesting();
		VH_CHECK(IsPowerOfNumber<N>(v) == Power<N>(v), "is-power", std::to_string(v) + " of " + std::to_string(N)); vh_count("powers", 1);
	}
	std::string Info(const FractionInfo& i) { return std::to_string(i.Fraction) + " with " + std::to_string(i.Precision) + " digits" + (i.IsOverflow ? " and overflow" : ""); }
	// exact is num/den < 1; digits that could be worked out: precision
	void Fraction(const FractionInfo& i, Int num, Int den, unsigned precision, unsigned target, unsigned radix, const std::string& what)
	{
		const unsigned p = std::min(precision, target); Int scale = 1; for (unsigned k = 0; k < p; ++k) scale *= radix; Int own = 1; for (unsigned k = 0; k < i.Precision; ++k) own *= radix;
		bool ok = i.Precision <= p && Int(i.Fraction) < own && (!i.IsOverflow || i.Fraction == 0); // fractions that round up to one have no digits left
		const Int got = (Int(i.Fraction) + (i.IsOverflow ? own : Int(0))) * den * scale, exact = num * own * scale, ulp = den * own; // within one unit of the last digit kept
		const Int diff = got > exact ? got - exact : exact - got; ok = ok && diff <= ulp;
		const bool representable = (num * scale) % den == 0; if (representable) ok = ok && diff == 0;
		VH_CHECK(ok, "fraction", what + " gives " + Info(i)); vh_count("fractions", 1); if (representable) vh_count("exact_fractions", 1);
	}
}

VH_SCENARIO(helpers)
{
	for (int k = 0; k < 25 && !vh_violated(); ++k)
	{
		switch (rng.Below(6)) { case 0: Align<u8>(rng); break; case 1: Align<s32>(rng); break; case 2: Align<u32>(rng); break; case 3: Align<u64>(rng); break; case 4: Align<s64>(rng); break; default: Align<s16>(rng); }
		switch (rng.Below(5)) { case 0: Powers<2>(rng); break; case 1: Powers<3>(rng); break; case 2: Powers<10>(rng); break; case 3: Powers<1000>(rng); break; default: Powers<65536>(rng); }
		{
			u64 a = rng.Chance(1, 10) ? 0 : rng.Interesting(), b = rng.Chance(1, 10) ? 0 : rng.Interesting(); const u64 f = 1 + rng.Below(1000); if (rng.Bool()) { a = f * rng.Below(100000); b = f * rng.Below(100000); } u64 x = a, y = b; while (y) { const u64 t = x % y; x = y; y = t; }
			VH_CHECK(Gcd(a, b) == x, "gcd", std::to_string(a) + ", " + std::to_string(b)); const Int l = x ? Int(a) / x * b : Int(0); if (l <= Int(~0ull)) VH_CHECK(Int(Lcm(a, b)) == l, "lcm", std::to_string(a) + ", " + std::to_string(b)); vh_count("gcds", 1);
		}
		{
			const s64 v = (s64)rng.Interesting(); if (v != std::numeric_limits<s64>::min()) VH_CHECK(Abs(v) == (v < 0 ? -v : v), "abs", std::to_string(v)); const s32 w = (s32)v; if (w != std::numeric_limits<s32>::min()) VH_CHECK(Abs(w) == std::abs((s64)w), "abs", std::to_string(w)); const s16 h = (s16)v; if (h != -32768) VH_CHECK(Abs(h) == std::abs(h), "abs", std::to_string(h)); const s8 o = (s8)v; if (o != -128) VH_CHECK(Abs(o) == std::abs(o), "abs", std::to_string(o));
			const u64 m = rng.Interesting(); VH_CHECK(Max<u64>((u64)v, m) == std::max<u64>((u64)v, m) && Min<s64>(v, (s64)m) == std::min<s64>(v, (s64)m), "min-max", std::to_string(v));
		}
		{
			const u64 dividend = rng.Interesting(); u64 divisor = rng.Chance(1, 4) ? rng.Interesting() : rng.Chance(1, 3) ? 1ull << rng.Below(50) : 1 + rng.Below(1000000); if (rng.Chance(1, 5)) { divisor = 1; for (u64 n = rng.Below(17); n; --n) divisor *= 10; }
			const unsigned target = (unsigned)rng.Below(22), radix = rng.Chance(2, 3) ? 10 : 2 + (unsigned)rng.Below(35);
			if (divisor == 0 || rng.Chance(1, 40)) { bool refused = false; try { CalculateFractionRemainder(dividend, 0, target, radix); } catch (const std::exception&) { refused = true; } VH_CHECK(refused, "fraction-of-zero", ""); continue; }
			u64 rem = dividend % divisor; unsigned precision = 0; if (rem) for (; rem <= ~0ull / radix; ++precision) rem *= radix;
			Fraction(CalculateFractionRemainder(dividend, divisor, target, radix), dividend % divisor, divisor, precision, target, radix, std::to_string(dividend) + "/" + std::to_string(divisor) + " in base " + std::to_string(radix) + " to " + std::to_string(target) + " digits");
		}
		{
			std::string s(rng.Chance(1, 3) ? rng.Below(30) : 0, '0'); for (size_t n = 1 + rng.Below(rng.Chance(1, 3) ? 19 : 5); n; --n) s += (char)(rng.Chance(1, 4) ? '9' : rng.Chance(1, 4) ? '0' : '0' + rng.Below(10)); const unsigned target = (unsigned)rng.Below(rng.Chance(1, 3) ? 50 : 12); if (rng.Chance(1, 50)) { s.insert(0, 64 + rng.Below(10), '0'); }
			Int num(0), den(1); for (char c : s) { num = num * 10 + (c - '0'); den *= 10; } Int kept = num; for (unsigned n = s.size(); n < target; ++n) kept *= 10; bool refused = false; FractionInfo i; const std::string what = "0." + s + " to " + std::to_string(target) + " digits"; const unsigned t = rng.Chance(1, 10) && s.size() > 60 ? (unsigned)s.size() - 1 : target;
			try { i = ParseDecimalFraction(s, t); } catch (const std::exception&) { refused = true; }
			if (t == target && (refused || kept > Int(~0ull))) { if (num != 0) VH_CHECK(refused == (kept > Int(~0ull)), "fraction-refused", what); }
			else if (!refused) Fraction(i, num, den, std::max<unsigned>(t, s.size()), t, 10, what);
		}
		if (rng.Chance(1, 30)) { static const char* const bad[] = { "+5", "-5", "", "1a", " 5", "5 ", "0x5" }; const char* s = bad[rng.Below(7)]; bool refused = false; try { ParseDecimalFraction(s, 5); } catch (const std::exception&) { refused = true; } VH_CHECK(refused, "fraction-malformed", s); }
		{ Average<s64> av; s64 sum = 0; const size_t n = rng.Below(6); for (size_t i = 0; i < n; ++i) { const s64 v = (s64)rng.Below(2000000000) - 1000000000; sum += v; av.Accumulate(v); } VH_CHECK(av.Get() == (n ? sum / (s64)n : 0), "average", std::to_string(sum)); }
	}
}
