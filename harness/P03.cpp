// P03: JSON text, against an independent JSON reader.
// "round:D" a value of depth up to D written and read back; "string:N" strings of up to N arbitrary bytes; "key:N" as member
// names; "number" Floats; "text:N" arbitrary text of up to N bytes; "lit:N" a quoted string of up to N arbitrary bytes;
// "esc:N" escape sequences; "num:N" numbers of up to N characters; "nest:N" tokens; "cut" prefixes of a document
#include "util.h"
#include "graphqlservice/JSONResponse.h"
#include <cmath>
#include <limits>
#include <stdexcept>
#include <vector>
using namespace graphql;
using response::Type;
using response::Value;
// ---- the reference ----
struct J
{
	enum K { Null, Bool, Int, Num, Str, Arr, Obj } k = Null;
	bool b = false;
	long long i = 0;
	std::string s; // Str: contents; Num: text
	std::vector<std::pair<std::string, J>> m;
	std::vector<J> l;
};
struct Reader
{
	std::string t;
	size_t p = 0;
	bool surrogate = false; // half of a surrogate pair: denotes no character, left open
	std::vector<J> partial; // what was complete or under construction where the text stops being JSON
	std::string bad;
	unsigned char at(size_t k = 0) const { return p + k < t.size() ? t[p + k] : 0; }
	bool end() const { return p >= t.size(); }
	void ws() { while (!end() && (at() == ' ' || at() == '\n' || at() == '\r' || at() == '\t')) p++; }
	static bool dig(unsigned char c) { return c >= '0' && c <= '9'; }
	bool word(std::string_view w)
	{
		for (char c : w)
		{
			if (end() || at() != (unsigned char)c) return false;
			p++;
		}
		return true;
	}
	bool hex4(unsigned& u)
	{
		u = 0;
		for (int k = 0; k < 4; k++, p++)
		{
			unsigned char c = at();
			if (end()) return false;
			if (dig(c)) u = u << 4 | (c - '0');
			else if ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) u = u << 4 | ((c & 15) + 9);
			else return false;
		}
		return true;
	}
	static void utf8(std::string& s, unsigned c)
	{
		if (c < 0x80) s += char(c);
		else if (c < 0x800) s += char(0xc0 | c >> 6), s += char(0x80 | (c & 63));
		else if (c < 0x10000) s += char(0xe0 | c >> 12), s += char(0x80 | (c >> 6 & 63)), s += char(0x80 | (c & 63));
		else s += char(0xf0 | c >> 18), s += char(0x80 | (c >> 12 & 63)), s += char(0x80 | (c >> 6 & 63)), s += char(0x80 | (c & 63));
	}
	bool string(std::string& out)
	{
		if (end() || at() != '"') return false;
		p++;
		for (;;)
		{
			if (end()) return false;
			unsigned char c = at();
			p++;
			if (c == '"') return true;
			if (c < 0x20) return false;
			if (c != '\\')
			{
				out += char(c);
				continue;
			}
			if (end()) return false;
			unsigned char e = at();
			p++;
			switch (e)
			{
				case '"': case '\\': case '/': out += char(e); break;
				case 'b': out += '\b'; break;
				case 'f': out += '\f'; break;
				case 'n': out += '\n'; break;
				case 'r': out += '\r'; break;
				case 't': out += '\t'; break;
				case 'u':
				{
					unsigned u, w;
					if (!hex4(u)) return false;
					if (u >= 0xd800 && u <= 0xdfff)
					{
						if (u >= 0xdc00) return !(surrogate = true);
						if (at() != '\\' || at(1) != 'u') return !(surrogate = true);
						p += 2;
						if (!hex4(w)) return false;
						if (w < 0xdc00 || w > 0xdfff) return !(surrogate = true);
						u = 0x10000 + ((u - 0xd800) << 10) + (w - 0xdc00);
					}
					utf8(out, u);
					break;
				}
				default: return false;
			}
		}
	}
	bool number(J& j)
	{
		size_t b = p;
		bool neg = false, real = false;
		if (at() == '-') neg = true, p++;
		if (!dig(at())) return false;
		long long v = 0;
		bool big = false;
		if (at() == '0') p++;
		else while (dig(at()))
		{
			v = v * 10 + (at() - '0');
			if (p - b > 12) big = true, v = 0;
			p++;
		}
		if (at() == '.')
		{
			real = true;
			p++;
			if (!dig(at())) return false;
			while (dig(at())) p++;
		}
		if (at() == 'e' || at() == 'E')
		{
			real = true;
			p++;
			if (at() == '+' || at() == '-') p++;
			if (!dig(at())) return false;
			while (dig(at())) p++;
		}
		if (real) // the digits of a Float are made concrete
			for (size_t k = b; k < p; k++) t[k] = char(sx::concrete((unsigned char)t[k]));
		j.k = real ? J::Num : J::Int;
		j.i = neg ? -v : v;
		if (big) j.i = neg ? -100000000000LL : 100000000000LL;
		j.s = t.substr(b, p - b);
		return true;
	}
	bool value(J& j)
	{
		if (end()) return false;
		switch (at())
		{
			case 'n': return word("null");
			case 't': j.k = J::Bool; j.b = true; return word("true");
			case 'f': j.k = J::Bool; return word("false");
			case '"': j.k = J::Str; return string(j.s);
			case '[':
			{
				j.k = J::Arr;
				p++;
				ws();
				if (at() == ']' && !end()) { p++; return true; }
				for (;;)
				{
					J c;
					if (!value(c)) { partial.push_back(j); return false; }
					j.l.push_back(c);
					ws();
					if (end() || (at() != ',' && at() != ']')) { partial.push_back(j); return false; }
					p++;
					if (t[p - 1] == ']') return true;
					ws();
				}
			}
			case '{':
			{
				j.k = J::Obj;
				p++;
				ws();
				if (at() == '}' && !end()) { p++; return true; }
				for (;;)
				{
					std::string key;
					J c;
					bool ok = string(key);
					if (ok) ws(), ok = !end() && at() == ':';
					if (ok) p++, ws(), ok = value(c);
					if (!ok) { partial.push_back(j); return false; }
					j.m.emplace_back(key, c);
					ws();
					if (end() || (at() != ',' && at() != '}')) { partial.push_back(j); return false; }
					p++;
					if (t[p - 1] == '}') return true;
					ws();
				}
			}
			default: return number(j);
		}
	}
	bool document(J& j)
	{
		ws();
		if (!value(j)) return false;
		ws();
		if (!end()) { partial.push_back(j); return false; }
		return true;
	}
};
// does v hold what j denotes?
static bool holds(const Value& v, const J& j)
{
	switch (j.k)
	{
		case J::Null: return v.type() == Type::Null;
		case J::Bool: return v.type() == Type::Boolean && v.get<bool>() == j.b;
		case J::Int: return v.type() == Type::Int && v.get<int>() == j.i;
		case J::Num: return v.type() == Type::Float && v.get<double>() == strtod(j.s.c_str(), nullptr);
		case J::Str: return v.type() == Type::String && sx::eqBytes(v.get<std::string>(), j.s);
		case J::Arr:
			if (v.type() != Type::List || v.size() != j.l.size()) return false;
			for (size_t i = 0; i < j.l.size(); i++)
				if (!holds(v[i], j.l[i])) return false;
			return true;
		case J::Obj:
		{
			if (v.type() != Type::Map) return false;
			// of members with equal names any one may be kept
			size_t n = 0;
			for (size_t i = 0; i < j.m.size(); i++)
			{
				bool first = true, any = false;
				for (size_t k = 0; k < i; k++) first &= !sx::branch(sx::eqBytes(j.m[k].first, j.m[i].first));
				if (!first) continue;
				if (n >= v.size()) return false;
				auto it = v.begin() + n++;
				if (!sx::eqBytes(it->first, j.m[i].first)) return false;
				for (size_t k = i; k < j.m.size(); k++)
					if (sx::branch(sx::eqBytes(j.m[k].first, j.m[i].first))) any |= holds(it->second, j.m[k].second);
				if (!any) return false;
			}
			return n == v.size();
		}
	}
	return false;
}
static bool bigInt(const J& j)
{
	if (j.k == J::Int) return j.i > 2147483647LL || j.i < -2147483648LL;
	for (auto& c : j.l)
		if (bigInt(c)) return true;
	for (auto& c : j.m)
		if (bigInt(c.second)) return true;
	return false;
}
// a Float beyond the range of a double, or written with an exponent beyond it
static bool hugeNum(const J& j)
{
	if (j.k == J::Num) return std::isinf(strtod(j.s.c_str(), nullptr)) || j.s.find("400") != std::string::npos;
	for (auto& c : j.l)
		if (hugeNum(c)) return true;
	for (auto& c : j.m)
		if (hugeNum(c.second)) return true;
	return false;
}
// a zero written with an exponent
static bool zeroExp(const J& j)
{
	if (j.k == J::Num)
	{
		for (char c : j.s)
		{
			if (c == 'e' || c == 'E') return true;
			if (c >= '1' && c <= '9') return false;
		}
		return false;
	}
	for (auto& c : j.l)
		if (zeroExp(c)) return true;
	for (auto& c : j.m)
		if (zeroExp(c.second)) return true;
	return false;
}
static void parse(const std::string& text)
{
	sx::note("text", text);
	J j;
	Reader r { text };
	bool ok = r.document(j);
	Value v;
	bool threw = false;
	try { v = response::parseJSON(r.t); } catch (const std::exception&) { threw = true; }
	if (r.surrogate)
	{
		sx::cover("surrogate");
		return;
	}
	if (ok)
	{
		bool big = bigInt(j), huge = hugeNum(j);
		if (big || huge)
		{
			sx::check(threw || (huge && !big), "a number that has no representation is delivered as some other value");
			sx::cover("out of range");
			return;
		}
		sx::check(!threw, "valid JSON is rejected");
		if (zeroExp(j) && !holds(v, j)) sx::fail("KNOWN:zero-exponent a zero written with a large exponent is parsed as another number");
		sx::check(holds(v, j), "the value is not the one the JSON text denotes");
		sx::cover("valid");
	}
	else
	{
		bool fine = threw || v.type() == Type::Null;
		for (size_t i = 0; i < r.partial.size() && !fine; i++) fine = holds(v, r.partial[i]);
		sx::check(fine, "text that is not JSON yields a value it does not contain");
		sx::cover("invalid");
	}
}
// ---- writing ----
static bool isFinite(double d) { return d == d && d - d == 0; }
// what should come back: enum values and IDs as strings, scalars as their value, NaN and infinities as null
static bool back(const Value& r, const Value& v)
{
	switch (v.type())
	{
		case Type::Map:
		{
			if (r.type() != Type::Map || r.size() != v.size()) return false;
			auto a = r.begin();
			for (auto b = v.begin(); b != v.end(); ++a, ++b)
				if (!sx::eqBytes(a->first, b->first) || !back(a->second, b->second)) return false;
			return true;
		}
		case Type::List:
			if (r.type() != Type::List || r.size() != v.size()) return false;
			for (size_t i = 0; i < v.size(); i++)
				if (!back(r[i], v[i])) return false;
			return true;
		case Type::String: case Type::EnumValue: return r.type() == Type::String && sx::eqBytes(r.get<std::string>(), v.get<std::string>());
		case Type::Null: return r.type() == Type::Null;
		case Type::Boolean: return r.type() == Type::Boolean && r.get<bool>() == v.get<bool>();
		case Type::Int: return r.type() == Type::Int && r.get<int>() == v.get<int>();
		case Type::Float: return isFinite(v.get<double>()) ? r.type() == Type::Float && r.get<double>() == v.get<double>() : r.type() == Type::Null;
		case Type::Scalar: return back(r, v.get<Value>());
	}
	return false;
}
static bool sameJ(const J& j, const Value& v)
{
	switch (v.type())
	{
		case Type::Map:
			if (j.k != J::Obj || j.m.size() != v.size()) return false;
			for (size_t i = 0; i < j.m.size(); i++)
				if (!sx::eqBytes(j.m[i].first, (v.begin() + i)->first) || !sameJ(j.m[i].second, (v.begin() + i)->second)) return false;
			return true;
		case Type::List:
			if (j.k != J::Arr || j.l.size() != v.size()) return false;
			for (size_t i = 0; i < j.l.size(); i++)
				if (!sameJ(j.l[i], v[i])) return false;
			return true;
		case Type::String: case Type::EnumValue: return j.k == J::Str && sx::eqBytes(j.s, v.get<std::string>());
		case Type::Null: return j.k == J::Null;
		case Type::Boolean: return j.k == J::Bool && j.b == v.get<bool>();
		case Type::Int: return j.k == J::Int && j.i == v.get<int>();
		case Type::Float: return isFinite(v.get<double>()) ? (j.k == J::Num || j.k == J::Int) && strtod(j.s.c_str(), nullptr) == v.get<double>() : j.k == J::Null;
		case Type::Scalar: return sameJ(j, v.get<Value>());
	}
	return false;
}
static void write(const Value& v)
{
	std::string text = response::toJSON(Value(v));
	sx::note("text", text);
	J j;
	Reader r { text };
	sx::check(r.document(j), "what is written is not valid JSON");
	sx::check(sameJ(j, v), "the JSON text denotes something else than the value");
	Value w;
	bool threw = false;
	try { w = response::parseJSON(text); } catch (const std::exception&) { threw = true; }
	sx::check(!threw, "what is written cannot be read back");
	sx::check(back(w, v), "the value read back is another one");
	sx::cover("written");
}
static Value str(Type t, std::string s)
{
	Value v(t);
	v.set<std::string>(std::move(s));
	return v;
}
static Value gen(const std::string& p, unsigned depth)
{
	Value v;
	switch (sx::choose(p + "t", depth ? 10 : 7))
	{
		case 0: break;
		case 1: v = Value(sx::choose(p + "b", 2) != 0); break;
		case 2: v = Value(int(sx::byte(p + "i")) - 128); break;
		case 3: v = Value(sx::choose(p + "d", 2) ? 1.0 : -0.3); break;
		case 4: v = str(Type::String, sx::bytes(p + "s", sx::choose(p + "n", 2))); break;
		case 5: v = str(Type::EnumValue, std::string(1, sx::oneOf(p + "e", "ABc_"))); break;
		case 6: { unsigned char c = sx::byte(p + "id"); v = Value(static_cast<const response::IdType&>(response::IdType { c })); break; }
		case 7:
		{
			v = Value(Type::List);
			unsigned n = sx::choose(p + "c", 3);
			for (unsigned i = 0; i < n; i++) v.emplace_back(gen(p + sx::num(i), i ? 0 : depth - 1));
			break;
		}
		case 8:
		{
			v = Value(Type::Map);
			unsigned n = sx::choose(p + "c", 3);
			for (unsigned i = 0; i < n; i++)
				if (!v.emplace_back(std::string(1, i ? 'k' : sx::oneOf(p + "k", "a\"\\")), gen(p + sx::num(i), i ? 0 : depth - 1))) sx::assume(false);
			break;
		}
		case 9: v = Value(Type::Scalar); v.set<Value>(gen(p + "0", depth - 1)); break;
	}
	return v;
}
static const double doubles[] = { 0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 0.2, 0.3, 0.1 + 0.2, 1.0 / 3, 2.0 / 3, 3.141592653589793, 2.718281828459045, 1e21, 1e22, 1e23, 123456789012345680.0, 9007199254740993.0,
	9007199254740991.0, 1.7976931348623157e308, 2.2250738585072014e-308, 4.9406564584124654e-324, 2.2250738585072011e-308, 1.1e-5, 1e-7, 123.456, 5e-5, 8.5e-9, 0.3333333333333333, 100.0, 1e15, 123456.7890123, 4294967296.0,
	2147483648.0, -2147483649.0, 5.0e-324, 1.2345678901234567e-200, 9.87654321098765e200, 1.9999999999999998, 0.9999999999999999, 7.2057594037927933e16, 1.4916681462400413e-154, 0.000001, 6.0221407e23, 1.6e-19, 299792458.5, 1234.5678e-30 };
void harness_main()
{
	Arg a = argOf();
	if (a.name == "round") write(gen("", a.n));
	else if (a.name == "int") {
		// every value around the limits and the powers of ten
		static const int bases[] = { -2147483647 - 1, -1000000000, -100000128, -9999872, -1000128, -100128, -10128, -1128, -128, 0, 872, 9872, 99872, 999872, 9999872, 99999872, 999999872, 2147483392, 1234567800, -1987654400, 40960000 };
		write(Value(bases[sx::choose("base", sizeof bases / sizeof *bases)] + int(sx::byte("i"))));
	}
	else if (a.name == "string" || a.name == "key")
	{
		std::string s = sx::bytes("s", sx::choose("n", a.n + 1));
		if (a.name == "key")
		{
			Value v(Type::Map);
			v.emplace_back(std::string(s), Value(1));
			v.emplace_back(s + "2", Value(2));
			write(v);
		}
		else write(str(sx::choose("enum", 2) ? Type::EnumValue : Type::String, s));
	}
	else if (a.name == "number")
	{
		constexpr unsigned N = sizeof doubles / sizeof *doubles;
		unsigned k = sx::choose("d", N + 3);
		double d = k < N ? doubles[k] : k == N ? std::numeric_limits<double>::quiet_NaN() : k == N + 1 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
		Value v(Type::Map);
		v.emplace_back("d", Value(d));
		v.emplace_back("e", Value(1));
		write(v);
		Value l(Type::List);
		l.emplace_back(Value(d));
		l.emplace_back(Value(-d));
		write(l);
	}
	else if (a.name == "text") parse(sx::bytes("t", sx::choose("n", a.n + 1)));
	else if (a.name == "lit")
	{
		std::string s = sx::bytes("t", sx::choose("n", a.n + 1));
		parse(sx::choose("in", 2) ? "{\"" + s + "\":0}" : "\"" + s + "\"");
	}
	else if (a.name == "esc")
	{
		std::string s = "\"";
		for (unsigned i = 0; i < a.n; i++)
		{
			std::string p = sx::num(i);
			switch (sx::choose("k" + p, 3))
			{
				case 0: s += "\\"; s += char(sx::byte("e" + p)); break;
				case 1: s += "\\u"; s += sx::oneOf("h" + p, i ? "0d" : "0dDF"); s += sx::oneOf("i" + p, i ? "0Bc" : "089aBF"); s += sx::oneOf("j" + p, i ? "0f" : "08f"); s += sx::oneOf("l" + p, i ? "0A" : "0Afg"); break;
				case 2: s += char(sx::byte("c" + p)); break;
			}
		}
		parse(s + "\"");
	}
	else if (a.name == "num")
	{
		std::string s;
		// the digits of a Float are fixed
		unsigned n = sx::choose("n", a.n + 1);
		bool sign = sx::choose("sign", 2);
		static const char* const tails[] = { "", ".5", ".", "e2", "E-3", "e+", ".25e1", "e400", "E38", "-", "e-400", "e", ".e1", "+1" };
		unsigned tl = sx::choose("tail", sizeof tails / sizeof *tails);
		if (sign) s += '-';
		if (tl) s += std::string("0120345678901").substr(sx::choose("from", 2), n);
		else s += sx::bytes("d", n);
		if (!tl && n > 1) // the last two digits are symbolic
		{
			static const char* const lead[] = { "21474836", "9999999999", "1234567890", "42949672", "1000000000", "0" };
			std::string d = sx::bytes("d", 2);
			for (char c : d) sx::assume((c >= '0') & (c <= '9'));
			s = (sign ? "-" : "") + std::string(lead[sx::choose("lead", 6)]).substr(0, n - 2) + d;
		}
		else if (!tl)
			for (unsigned i = s.size() - n; i < s.size(); i++) sx::assume((s[i] >= '0') & (s[i] <= '9'));
		parse(s + tails[tl]);
	}
	else if (a.name == "nest")
	{
		static const char* const toks[] = { "{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", "null" };
		std::string s;
		unsigned n = 1 + sx::choose("n", a.n);
		for (unsigned i = 0; i < n; i++) s += toks[sx::choose("t" + sx::num(i), i ? 10 : 4)];
		parse(s);
	}
	else if (a.name == "cut")
	{
		std::string full = "{\"data\":{\"a\":[1,2.5,{\"x\":null}],\"b\":\"q\\u0041\\n\"},\"errors\":[{\"message\":\"m\",\"path\":[\"a\",0]}, true , false]} ";
		size_t n = sx::choose("n", unsigned(full.size()) + 1);
		std::string s = full.substr(0, n);
		if (n < full.size() && sx::choose("more", 2)) s += char(sx::byte("x")), s += full.substr(n + 1);
		parse(s);
	}
}
