// P18: client code decodes responses and encodes variables faithfully.
// "resp:N" splitting a service response with up to N errors; "wire:N" errors as the service builds them.
// "T:D" ModifiedResponse<T> with every nesting of list and nullable up to three levels, on values of every
// kind with lists nested D deep; "ser-T" ModifiedVariable<T> likewise, on C++ values.
// "root", "objects", "fragments" the parseResponse which clientgen generates for gen/request.graphql;
// "vars:N" its serializeVariables, whose result is decoded again by the code which schemagen generates.
#include "svc.h"
#include "GenSchema.h"
#include "GenClient.h"
#include <optional>
namespace C = graphql::client;
namespace Q = graphql::client::query::Op;
namespace gen = graphql::gen;
using CM = C::TypeModifier;
using TM = S::TypeModifier;
static std::string kind;
static const char* colorNames[] = { "RED", "GREEN", "__BLUE", "A__B" };
// ---- any value ----------------------------------------------------------------------------------
static R::Value text(const std::string& p)
{
	R::Value v;
	if (kind == "id")
	{
		const char* t[] = { "", "QQ==", "QUJD", "?" };
		v = vstr(t[sx::choose(p + "s", 4)]);
	}
	else if (kind == "enum")
	{
		const char* t[] = { "GREEN", "A__B", "A_B", "" };
		v = vstr(t[sx::choose(p + "s", 4)]);
	}
	else v = vstr(sx::bytes(p + "s", sx::choose(p + "n", 3)));
	return sx::choose(p + "j", 2) ? std::move(v).from_json() : std::move(v);
}
static R::Value any(const std::string& p, unsigned depth)
{
	switch (sx::choose(p, depth ? 8 : 7))
	{
		case 0: return R::Value();
		case 1: return vint(sx::i32(p + "i"));
		case 2: return R::Value(sx::choose(p + "f", 2) ? 2.5 : -0.25);
		case 3: return text(p);
		case 4: return R::Value(sx::boolean(p + "b"));
		case 5: return venum(sx::choose(p + "e", 2) ? "__BLUE" : "BLUE");
		case 6:
		{
			auto m = vmap();
			put(m, "arg", vint(sx::i32(p + "m")));
			return m;
		}
		default:
		{
			auto l = vlist();
			for (unsigned i = 0, n = sx::choose(p + "len", 3); i < n; i++) l.emplace_back(any(p + sx::num(i), depth - 1));
			return l;
		}
	}
}
// ---- C++ values as the values they stand for ------------------------------------------------------
static R::Value show_(int v) { return vint(v); }
static R::Value show_(double v) { return R::Value(v); }
static R::Value show_(bool v) { return R::Value(v); }
static R::Value show_(const std::string& v) { return vstr(v); }
static R::Value show_(const R::IdType& v) { return vstr(std::string(v.begin(), v.end())); }
static R::Value show_(Q::Color v) { sx::check(unsigned(v) < 4, "an enum value outside the enum"); return venum(colorNames[unsigned(v) & 3]); }
static R::Value show_(gen::Color v) { sx::check(unsigned(v) < 4, "an enum value outside the enum"); return venum(colorNames[unsigned(v) & 3]); }
static R::Value show_(const R::Value& v) { return R::Value(v); }
static R::Value show_(const Q::Variables::Inner& v);
static R::Value show_(const gen::Inner& v);
static R::Value show_(const Q::Variables::In& v);
static R::Value show_(const gen::In& v);
template <typename T> static R::Value show_(const std::vector<T>& v);
template <typename T> static R::Value show_(const std::optional<T>& v) { return v ? show_(*v) : R::Value(); }
template <typename T> static R::Value show_(const std::vector<T>& v)
{
	auto l = vlist();
	for (size_t i = 0; i < v.size(); i++)
	{
		if constexpr (std::is_same_v<T, bool>) l.emplace_back(R::Value(bool(v[i])));
		else l.emplace_back(show_(v[i]));
	}
	return l;
}
template <typename T> static R::Value inner(const T& v)
{
	auto m = vmap();
	put(m, "a", show_(v.a));
	put(m, "c", show_(v.c));
	return m;
}
template <typename T> static R::Value in(const T& v)
{
	auto m = vmap();
	put(m, "i", show_(v.i));
	put(m, "f", show_(v.f));
	put(m, "s", show_(v.s));
	put(m, "b", show_(v.b));
	put(m, "id", show_(v.id));
	put(m, "c", show_(v.c));
	put(m, "l", show_(v.l));
	put(m, "bl", show_(v.bl));
	put(m, "ll", show_(v.ll));
	put(m, "n", show_(v.n));
	put(m, "nl", show_(v.nl));
	put(m, "nn", show_(v.nn));
	put(m, "any", show_(v.any));
	return m;
}
static R::Value show_(const Q::Variables::Inner& v) { return inner(v); }
static R::Value show_(const gen::Inner& v) { return inner(v); }
static R::Value show_(const Q::Variables::In& v) { return in(v); }
static R::Value show_(const gen::In& v) { return in(v); }
// ---- responses by type ----------------------------------------------------------------------------
enum Verdict { Yes, No, Open };
static Verdict leafRef(const std::string& t, const R::Value& v, R::Value& out)
{
	auto type = v.type();
	if (t == "int") { if (type != R::Type::Int) return No; out = vint(v.get<int>()); return Yes; }
	if (t == "float")
	{
		if (type == R::Type::Int) { out = R::Value(double(v.get<int>())); return Yes; }
		if (type != R::Type::Float) return No;
		out = R::Value(v.get<double>());
		return Yes;
	}
	if (t == "str") { if (type != R::Type::String) return No; out = vstr(v.get<std::string>()); return Yes; }
	if (t == "bool") { if (type != R::Type::Boolean) return No; out = R::Value(v.get<bool>()); return Yes; }
	if (t == "any") { out = R::Value(v); return Yes; }
	if (t == "id")
	{
		if (type != R::Type::String) return No;
		auto s = v.get<std::string>();
		if (s.empty()) out = vstr("");
		else if (s == "QQ==") out = vstr("A");
		else if (s == "QUJD") out = vstr("ABC");
		else return No;
		return Yes;
	}
	if (type != R::Type::EnumValue && !(type == R::Type::String && v.maybe_enum())) return No;
	auto s = v.get<std::string>();
	for (auto n : colorNames)
		if (s == n) { out = venum(s); return Yes; }
	return No;
}
static Verdict ref(const std::string& t, const R::Value& v, std::vector<CM> mods, R::Value& out)
{
	if (mods.empty()) return leafRef(t, v, out);
	CM m = mods.front();
	mods.erase(mods.begin());
	if (m == CM::Nullable)
	{
		if (v.type() == R::Type::Null) { out = R::Value(); return Yes; }
		return ref(t, v, mods, out);
	}
	if (v.type() != R::Type::List) return Open; // what is read from something else than a list is not specified
	out = vlist();
	Verdict r = Yes;
	for (auto& e : v.get<R::ListType>())
	{
		R::Value x;
		Verdict y = ref(t, e, mods, x);
		if (y == No) return No; // no list without this element
		if (y == Open) r = Open;
		out.emplace_back(std::move(x));
	}
	return r;
}
template <typename T, CM... M>
static void parseAs(R::Value&& v)
{
	R::Value want;
	Verdict ok = ref(kind, v, { M... }, want);
	try
	{
		auto r = C::ModifiedResponse<T>::template parse<M...>(std::move(v));
		if (ok == Open) return;
		sx::check(ok == Yes, "a response value of another type is accepted");
		sx::check(same(show_(r), want), "a response value is not read as it is");
		sx::cover("read");
	}
	catch (const std::exception&)
	{
		sx::check(ok != Yes, "a response value of the right type is refused");
		sx::cover("refused");
	}
}
template <typename T>
static void parseAll(unsigned depth)
{
	auto v = any("a", depth);
	sx::note("value", show(v));
	switch (sx::choose("mods", 9))
	{
		case 0: return parseAs<T>(std::move(v));
		case 1: return parseAs<T, CM::Nullable>(std::move(v));
		case 2: return parseAs<T, CM::List>(std::move(v));
		case 3: return parseAs<T, CM::Nullable, CM::List>(std::move(v));
		case 4: return parseAs<T, CM::List, CM::Nullable>(std::move(v));
		case 5: return parseAs<T, CM::List, CM::List>(std::move(v));
		case 6: return parseAs<T, CM::Nullable, CM::List, CM::Nullable>(std::move(v));
		case 7: return parseAs<T, CM::List, CM::Nullable, CM::List>(std::move(v));
		default: return parseAs<T, CM::List, CM::List, CM::Nullable>(std::move(v));
	}
}
// ---- variables by type ------------------------------------------------------------------------------
template <typename T> struct Make;
template <> struct Make<int> { static int of(const std::string& p) { return sx::i32(p); } };
template <> struct Make<double> { static double of(const std::string& p) { const double d[] = { 0, -2.5, 1e300 }; return d[sx::choose(p, 3)]; } };
template <> struct Make<bool> { static bool of(const std::string& p) { return sx::boolean(p); } };
template <> struct Make<std::string> { static std::string of(const std::string& p) { return sx::bytes(p, sx::choose(p + "n", 3)); } };
template <> struct Make<R::IdType> { static R::IdType of(const std::string& p) { const char* t[] = { "", "A", "\xff\xfe" }; std::string s = t[sx::choose(p, 3)]; return R::IdType(s.begin(), s.end()); } };
template <> struct Make<Q::Color> { static Q::Color of(const std::string& p) { return Q::Color(sx::choose(p, 4)); } };
template <> struct Make<R::Value> { static R::Value of(const std::string& p)
{
	switch (sx::choose(p, 4))
	{
		case 0: return R::Value();
		case 1: return vint(sx::i32(p + "i"));
		case 2: return venum("E");
		default: { auto m = vmap(); m.emplace_back("k", vstr(sx::bytes(p + "s", 1))); return m; }
	}
} };
template <typename T> struct Make<std::optional<T>> { static std::optional<T> of(const std::string& p) { if (!sx::choose(p + "?", 2)) return std::nullopt; return Make<T>::of(p); } };
template <typename T> struct Make<std::vector<T>>
{
	static std::vector<T> of(const std::string& p)
	{
		std::vector<T> v;
		for (unsigned i = 0, n = sx::choose(p + "#", 3); i < n; i++) v.push_back(Make<T>::of(p + sx::num(i)));
		return v;
	}
};
// an ID travels as Base64 text
static std::string base64(const std::string& s)
{
	const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string r;
	for (size_t i = 0; i < s.size(); i += 3)
	{
		unsigned v = (unsigned char)s[i] << 16, n = 1;
		if (i + 1 < s.size()) v |= (unsigned char)s[i + 1] << 8, n++;
		if (i + 2 < s.size()) v |= (unsigned char)s[i + 2], n++;
		for (unsigned k = 0; k < 4; k++) r += k > n ? '=' : t[v >> (18 - 6 * k) & 63];
	}
	return r;
}
static R::Value wire(const std::string& t, const R::Value& v)
{
	if (t == "any") return R::Value(v);
	if (v.type() == R::Type::List)
	{
		auto l = vlist();
		for (auto& e : v.get<R::ListType>()) l.emplace_back(wire(t, e));
		return l;
	}
	if (t == "id" && v.type() == R::Type::String) return vstr(base64(v.get<std::string>()));
	return R::Value(v);
}
template <typename T, CM... M>
static void serializeAs()
{
	using Type = typename C::ModifiedVariable<T>::template VariableTraits<T, M..., CM::None>::type;
	auto v = Make<Type>::of("v");
	auto plain = show_(v);
	auto want = wire(kind, plain);
	sx::note("want", show(want));
	auto r = C::ModifiedVariable<T>::template serialize<M...>(std::move(v));
	sx::check(same(r, want), "a variable is not sent as it is");
	if (kind != "any")
	{
		auto back = C::ModifiedResponse<T>::template parse<M...>(std::move(r));
		sx::check(same(show_(back), plain), "a value which was serialized is not read back as it was");
	}
	sx::cover("sent");
}
template <typename T>
static void serializeAll()
{
	switch (sx::choose("mods", 9))
	{
		case 0: return serializeAs<T>();
		case 1: return serializeAs<T, CM::Nullable>();
		case 2: return serializeAs<T, CM::List>();
		case 3: return serializeAs<T, CM::Nullable, CM::List>();
		case 4: return serializeAs<T, CM::List, CM::Nullable>();
		case 5: return serializeAs<T, CM::List, CM::List>();
		case 6: return serializeAs<T, CM::Nullable, CM::List, CM::Nullable>();
		case 7: return serializeAs<T, CM::List, CM::Nullable, CM::List>();
		default: return serializeAs<T, CM::List, CM::List, CM::Nullable>();
	}
}
// ---- service responses ----------------------------------------------------------------------------
struct WantError { std::string message; std::vector<std::pair<int, int>> locations; std::vector<std::pair<bool, std::pair<std::string, int>>> path; bool known = true; };
static void compare(const C::Error& e, const WantError& w)
{
	if (!w.known) return;
	sx::check(sx::eqBytes(e.message, w.message), "the message of an error is not kept");
	sx::check(e.locations.size() == w.locations.size(), "the locations of an error are not kept");
	for (size_t i = 0; i < w.locations.size(); i++) sx::check((e.locations[i].line == w.locations[i].first) & (e.locations[i].column == w.locations[i].second), "the locations of an error are not kept");
	sx::check(e.path.size() == w.path.size(), "the path of an error is not kept");
	for (size_t i = 0; i < w.path.size(); i++)
	{
		bool str = std::holds_alternative<std::string>(e.path[i]);
		sx::check(str == w.path[i].first, "the path of an error is not kept");
		if (str) sx::check(sx::eqBytes(std::get<std::string>(e.path[i]), w.path[i].second.first), "the path of an error is not kept");
		else sx::check(std::get<int>(e.path[i]) == w.path[i].second.second, "the path of an error is not kept");
	}
}
static void put(R::Value& m, bool first, const std::string& k, R::Value&& v) // at either end of a map
{
	if (!first) { put(m, k, std::move(v)); return; }
	auto n = vmap();
	put(n, k, std::move(v));
	for (auto& e : m.get<R::MapType>()) put(n, e.first, R::Value(e.second));
	m = std::move(n);
}
static R::Value error(const std::string& p, WantError& w)
{
	auto e = vmap();
	unsigned part = sx::choose(p + "part", 4); // what is varied: presence, locations, path, parts of other kinds
	bool has = part != 0;
	if (has || sx::choose(p + "msg", 2))
	{
		w.message = sx::bytes(p + "m", 2);
		put(e, "message", vstr(w.message));
	}
	if (part == 3)
	{
		const char* k[] = { "message", "locations", "path" };
		auto l = vlist();
		l.emplace_back(any(p + "other", 1));
		put(e, k[sx::choose(p + "which", 3)], sx::choose(p + "in", 2) ? std::move(l) : R::Value(l[0]));
		w.known = false;
		return e;
	}
	if (has || sx::choose(p + "loc", 2))
	{
		auto l = vlist();
		for (unsigned i = 0, n = part == 1 ? sx::choose(p + "locs", 3) : 1; i < n; i++)
		{
			auto q = p + "l" + sx::num(i);
			auto o = vmap();
			std::pair<int, int> at(0, 0);
			unsigned which = part == 1 ? sx::choose(q + "has", 4) : 3;
			if (which & 1) put(o, "line", vint(at.first = sx::i32(q + "line")));
			if (which & 2) put(o, part == 1 && sx::choose(q + "cf", 2), "column", vint(at.second = sx::i32(q + "column")));
			w.locations.push_back(at);
			l.emplace_back(std::move(o));
		}
		put(e, sx::choose(p + "lf", 2) != 0, "locations", std::move(l));
	}
	if (has || sx::choose(p + "path", 2))
	{
		auto l = vlist();
		for (unsigned i = 0, n = part == 2 ? sx::choose(p + "paths", 4) : 1; i < n; i++)
		{
			auto q = p + "p" + sx::num(i);
			if (sx::choose(q, 2))
			{
				auto s = sx::bytes(q + "s", 2);
				w.path.push_back({ true, { s, 0 } });
				l.emplace_back(vstr(s));
			}
			else
			{
				int x = sx::i32(q + "i");
				w.path.push_back({ false, { "", x } });
				l.emplace_back(vint(x));
			}
		}
		put(e, sx::choose(p + "pf", 2) != 0, "path", std::move(l));
	}
	if (part == 0 && sx::choose(p + "ext", 2)) put(e, true, "extensions", vint(2));
	return e;
}
static void resp(unsigned n)
{
	auto r = vmap();
	R::Value data;
	std::vector<WantError> want;
	unsigned errs = sx::choose("errors", 3);
	if (errs == 2 || sx::choose("data", 2))
	{
		data = errs == 2 ? vint(sx::i32("d")) : any("d", 1);
		put(r, "data", R::Value(data));
	}
	if (errs == 1) put(r, "errors", vint(1));
	if (errs == 2)
	{
		auto l = vlist();
		want.resize(sx::choose("count", n + 1));
		for (unsigned i = 0; i < want.size(); i++) l.emplace_back(error("e" + sx::num(i), want[i]));
		put(r, sx::choose("first", 2) != 0, "errors", std::move(l));
	}
	if (errs != 2 && sx::choose("ext", 2)) put(r, true, "extensions", vint(1));
	sx::note("response", show(r));
	auto got = C::parseServiceResponse(std::move(r));
	sx::check(same(got.data, data), "the data of a response is not kept");
	sx::check(got.errors.size() == want.size(), "the errors of a response are not kept");
	auto it = got.errors.begin();
	for (auto& w : want) compare(*it++, w);
	if (!want.empty()) sx::cover("errors");
	sx::cover("response");
}
static void wireErrors(unsigned n)
{
	std::list<S::schema_error> es;
	std::vector<WantError> want(sx::choose("count", n + 1));
	std::vector<std::string> keep;
	keep.reserve(8);
	for (unsigned i = 0; i < want.size(); i++)
	{
		auto p = "e" + sx::num(i);
		auto& w = want[i];
		S::schema_error e;
		e.message = w.message = sx::bytes(p, 2);
		if (sx::choose(p + "loc", 2))
		{
			int line = sx::byte(p + "line"), column = sx::byte(p + "column");
			sx::assume(line > 0);
			e.location = { size_t(line), size_t(column) };
			w.locations.push_back({ line, column });
		}
		for (unsigned k = 0, m = sx::choose(p + "path", 3); k < m; k++)
		{
			auto q = p + "p" + sx::num(k);
			if (sx::choose(q, 2))
			{
				keep.push_back(sx::bytes(q, 2));
				e.path.push_back(std::string_view(keep.back()));
				w.path.push_back({ true, { keep.back(), 0 } });
			}
			else
			{
				unsigned x = sx::byte(q + "i");
				e.path.push_back(size_t(x));
				w.path.push_back({ false, { "", int(x) } });
			}
		}
		es.push_back(std::move(e));
	}
	auto r = vmap();
	put(r, "data", vint(7));
	put(r, "errors", S::buildErrorValues(std::move(es)));
	auto got = C::parseServiceResponse(std::move(r));
	sx::check(got.errors.size() == want.size(), "the errors of a response are not kept");
	auto it = got.errors.begin();
	for (auto& w : want) compare(*it++, w);
	sx::cover("wire");
}
// ---- the generated parseResponse --------------------------------------------------------------------
static R::Value color(const std::string& p)
{
	std::string s = colorNames[sx::choose(p, 4)];
	return sx::choose("json", 2) ? vstr(s).from_json() : venum(s);
}
// a value of a type as a service may send it; plain is what the client has to make of it
static R::Value typed(const std::string& p, const std::string& t, std::vector<CM> mods, R::Value& plain)
{
	if (!mods.empty())
	{
		CM m = mods.front();
		mods.erase(mods.begin());
		if (m == CM::Nullable) { plain = R::Value(); return sx::choose(p + "?", 2) ? typed(p, t, mods, plain) : R::Value(); }
		auto l = vlist();
		plain = vlist();
		for (unsigned i = 0, n = sx::choose(p + "#", 3); i < n; i++)
		{
			R::Value x;
			l.emplace_back(typed(p + sx::num(i), t, mods, x));
			plain.emplace_back(std::move(x));
		}
		return l;
	}
	R::Value v;
	if (t == "int") v = vint(sx::i32(p));
	else if (t == "float") v = sx::choose(p + "k", 2) ? R::Value(2.5) : vint(4);
	else if (t == "str") { v = vstr(sx::bytes(p, sx::choose(p + "n", 2))); if (sx::choose(p + "j", 2)) v = std::move(v).from_json(); }
	else if (t == "bool") v = R::Value(sx::boolean(p));
	else if (t == "id") v = vstr("QUJD");
	else if (t == "enum") v = color(p);
	else v = any(p, 0);
	sx::assume(ref(t, v, {}, plain) == Yes);
	return v;
}
struct Member { const char* name; const char* type; std::vector<CM> mods; };
static const CM N = CM::Nullable, L = CM::List;
static const std::vector<Member>& rootMembers()
{
	static const std::vector<Member> m { { "i", "int", {} }, { "io", "int", { N } }, { "li", "int", { L } }, { "lio", "int", { N, L, L, N } }, { "f", "float", { N } }, { "s", "str", { N } },
		{ "b", "bool", { N, L } }, { "ids", "id", { L } }, { "c", "enum", {} }, { "lc", "enum", { N, L, N, L } }, { "any", "any", { N } }, { "lany", "any", { N, L } }, { "alias", "int", {} }, { "args", "str", {} }, { "input", "str", {} } };
	return m;
}
static R::Value rootShow(const Q::Response& r, const std::string& n)
{
	if (n == "i") return show_(r.i);
	if (n == "io") return show_(r.io);
	if (n == "li") return show_(r.li);
	if (n == "lio") return show_(r.lio);
	if (n == "f") return show_(r.f);
	if (n == "s") return show_(r.s);
	if (n == "b") return show_(r.b);
	if (n == "ids") return show_(r.ids);
	if (n == "c") return show_(r.c);
	if (n == "lc") return show_(r.lc);
	if (n == "any") return show_(r.any);
	if (n == "lany") return show_(r.lany);
	if (n == "alias") return show_(r.alias);
	if (n == "args") return show_(r.args);
	return show_(r.input);
}
// simple contents for the members which are not looked at
static R::Value fixed(const Member& m, unsigned k)
{
	std::string t = m.type;
	R::Value v = t == "int" ? vint(int(k) + 100) : t == "float" ? R::Value(k + 0.5) : t == "str" ? vstr(std::string(1, char('a' + k))) : t == "bool" ? R::Value(true) : t == "id" ? vstr("QQ==") : t == "enum" ? venum("A__B") : vint(int(k));
	for (size_t i = m.mods.size(); i--;)
		if (m.mods[i] == CM::List)
		{
			auto l = vlist();
			l.emplace_back(std::move(v));
			v = std::move(l);
		}
	return v;
}
static void root()
{
	auto& ms = rootMembers();
	unsigned pick = sx::choose("member", unsigned(ms.size()));
	unsigned at = sx::choose("at", 4); // where it stands among the others
	bool bad = at == 3; // a leaf of another type
	std::vector<R::Value> want(ms.size());
	auto data = vmap();
	auto add = [&](unsigned i) {
		if (i != pick)
		{
			auto v = fixed(ms[i], i);
			R::Value x;
			ref(ms[i].type, v, ms[i].mods, want[i]);
			put(data, ms[i].name, std::move(v));
		}
		else if (!bad) put(data, ms[i].name, typed("v", ms[i].type, ms[i].mods, want[i]));
		else
		{
			kind = ms[i].type;
			auto v = any("v", 1);
			Verdict y = ref(ms[i].type, v, ms[i].mods, want[i]);
			sx::assume(y == No);
			put(data, ms[i].name, std::move(v));
		}
	};
	if (at == 0) add(pick);
	for (unsigned i = 0; i < ms.size(); i++)
		if (i != pick || at == 1) add(i);
	if (at >= 2) { put(data, "unknown", vint(1)); add(pick); }
	sx::note("data", show(data));
	try
	{
		auto r = Q::parseResponse(std::move(data));
		sx::check(!bad, "a response value of another type is accepted");
		for (unsigned i = 0; i < ms.size(); i++) sx::check(same(rootShow(r, ms[i].name), want[i]), "a field of the response does not hold what the service sent");
		sx::cover("root");
	}
	catch (const std::exception&)
	{
		sx::check(bad, "a valid response is refused");
		sx::cover("bad leaf");
	}
}
// ---- objects --------------------------------------------------------------------------------------
struct WantObj { R::Value id, colors, name; std::optional<std::vector<std::optional<std::pair<R::Value, R::Value>>>> kids; };
static R::Value part(const std::string& p, WantObj& w, bool kids)
{
	auto o = vmap();
	unsigned vary = sx::choose(p + "vary", kids ? 4 : 3); // order of the members, name, colours or nested objects
	bool order = vary == 0 && sx::choose(p + "order", 2);
	auto name = [&] {
		if (vary == 1) put(o, "name", typed(p + "name", "str", { N }, w.name));
		else put(o, "name", R::Value(w.name = vstr(sx::bytes(p + "fixed", 1))));
	};
	if (order) name();
	put(o, "id", typed(p + "id", "id", {}, w.id));
	if (vary == 2) put(o, "colors", typed(p + "colors", "enum", { L }, w.colors));
	else
	{
		auto l = vlist();
		l.emplace_back(color(p + "color"));
		w.colors = vlist();
		w.colors.emplace_back(venum(l[0].get<std::string>()));
		put(o, "colors", std::move(l));
	}
	if (!order) name();
	if (!kids) return o;
	if (vary != 3 && !sx::choose(p + "kids", 2)) { put(o, "kids", R::Value()); return o; }
	w.kids.emplace();
	auto l = vlist();
	for (unsigned i = 0, n = vary == 3 ? sx::choose(p + "kidn", 3) : 1; i < n; i++)
	{
		w.kids->emplace_back();
		auto q = p + "kid" + sx::num(i);
		if (!sx::choose(q, 2)) { l.emplace_back(R::Value()); continue; }
		auto& k = w.kids->back().emplace();
		auto m = vmap();
		put(m, "name", typed(q + "name", "str", { N }, k.first));
		k.second = vstr("Obj");
		put(m, "__typename", vstr("Obj"));
		l.emplace_back(std::move(m));
	}
	put(o, "kids", std::move(l));
	return o;
}
template <typename T> static void comparePart(const T& o, const WantObj& w)
{
	sx::check(same(show_(o.id), w.id) & same(show_(o.colors), w.colors) & same(show_(o.name), w.name), "a field of an object does not hold what the service sent");
}
static void objects()
{
	auto data = vmap();
	unsigned which = sx::choose("which", 2);
	WantObj w;
	std::vector<WantObj> ws;
	if (which == 0) put(data, "obj", part("o", w, true));
	else
	{
		auto l = vlist();
		ws.resize(sx::choose("count", 3));
		for (unsigned i = 0; i < ws.size(); i++) l.emplace_back(part("o" + sx::num(i), ws[i], false));
		put(data, "objs", std::move(l));
	}
	sx::note("data", show(data));
	auto r = Q::parseResponse(std::move(data));
	if (which == 0)
	{
		comparePart(r.obj, w);
		sx::check(r.obj.kids.has_value() == w.kids.has_value(), "a nullable list is null when the service sent a list, or the other way round");
		if (w.kids)
		{
			sx::check(r.obj.kids->size() == w.kids->size(), "a list of objects has another length than sent");
			for (size_t i = 0; i < w.kids->size(); i++)
			{
				auto& k = (*r.obj.kids)[i];
				auto& v = (*w.kids)[i];
				sx::check(k.has_value() == v.has_value(), "an object is null when the service sent one, or the other way round");
				if (v) sx::check(same(show_(k->name), v->first) & same(show_(k->_typename), v->second), "a field of an object does not hold what the service sent");
			}
		}
		sx::cover("object");
	}
	else
	{
		sx::check(r.objs.size() == ws.size(), "a list of objects has another length than sent");
		for (size_t i = 0; i < ws.size(); i++) comparePart(r.objs[i], ws[i]);
		sx::cover("objects");
	}
}
// ---- interfaces and unions --------------------------------------------------------------------------
static void fragments()
{
	auto data = vmap();
	R::Value id, name, value, again, colors;
	unsigned which = sx::choose("which", 2);
	unsigned type = sx::choose("type", 3); // null, Obj, Other
	bool nested = false;
	if (which == 0)
	{
		R::Value node;
		if (type)
		{
			node = vmap();
			bool rev = sx::choose("order", 2) != 0;
			if (!rev) put(node, "id", typed("id", "id", {}, id));
			if (type == 1) put(node, "name", typed("name", "str", { N }, name));
			else
			{
				put(node, "value", typed("value", "float", {}, value));
				R::Value a;
				if (nested = sx::choose("again", 2) != 0)
				{
					a = vmap();
					put(a, "id", typed("again id", "id", {}, again));
				}
				put(node, "again", std::move(a));
			}
			if (rev) put(node, "id", typed("id", "id", {}, id));
		}
		put(data, "node", std::move(node));
	}
	else
	{
		R::Value e;
		if (type)
		{
			e = vlist();
			auto first = vmap();
			put(first, "__typename", vstr("Other"));
			put(first, "value", R::Value(0.5));
			e.emplace_back(std::move(first));
			auto m = vmap();
			put(m, "__typename", vstr(type == 1 ? "Obj" : "Other"));
			if (type == 1) put(m, "colors", typed("colors", "enum", { L }, colors));
			else put(m, "value", typed("value", "float", {}, value));
			e.emplace_back(std::move(m));
		}
		put(data, "either", std::move(e));
	}
	sx::note("data", show(data));
	auto r = Q::parseResponse(std::move(data));
	if (which == 0)
	{
		sx::check(r.node.has_value() == (type != 0), "an object is null when the service sent one, or the other way round");
		if (type) sx::check(same(show_(r.node->id), id), "a field of an interface does not hold what the service sent");
		if (type == 1) sx::check(same(show_(r.node->name), name), "a field of a fragment does not hold what the service sent");
		if (type == 2)
		{
			sx::check(same(show_(r.node->value), value) & (r.node->again.has_value() == nested), "a field of a fragment does not hold what the service sent");
			if (nested) sx::check(same(show_(r.node->again->id), again), "a field of a fragment does not hold what the service sent");
		}
		sx::cover("interface");
		return;
	}
	sx::check(r.either.has_value() == (type != 0), "a nullable list is null when the service sent a list, or the other way round");
	if (type)
	{
		sx::check(r.either->size() == 2, "a list of objects has another length than sent");
		auto& m = (*r.either)[1];
		sx::check((*r.either)[0].value == 0.5 && (*r.either)[0]._typename == "Other" && m._typename == (type == 1 ? "Obj" : "Other"), "a field of a union does not hold what the service sent");
		if (type == 1) sx::check(same(show_(m.colors), colors), "a field of a fragment does not hold what the service sent");
		else sx::check(same(show_(m.value), value), "a field of a fragment does not hold what the service sent");
	}
	sx::cover("union");
}
// ---- variables --------------------------------------------------------------------------------------
template <> struct Make<Q::Variables::Inner>
{
	static Q::Variables::Inner of(const std::string& p) { return { Make<int>::of(p + "a"), Make<std::optional<Q::Color>>::of(p + "c") }; }
};
static R::Value wireInner(const R::Value& v) { return R::Value(v); }
template <typename T> static void need(const R::Value& vars, const char* name, const R::Value& plain)
{
	auto it = vars.find(name);
	sx::check(it != vars.end() && same(it->second, plain), "a variable is not sent as it is");
}
static void vars()
{
	Q::Variables v;
	// everything has contents; one part of them is varied
	v.in.i = 1; v.in.f = 2.5; v.in.s = "s"; v.in.b = true; v.in.id = R::IdType { 'A' }; v.in.c = Q::Color::GREEN; v.in.l = std::vector<std::optional<int>> { 1, std::nullopt }; v.in.bl = std::vector<bool> { true, false };
	v.in.ll = { { Q::Color::BLUE }, {} }; v.in.n = Q::Variables::Inner { 5, {} }; v.in.nl.emplace(); v.in.nl->push_back({ 3, Q::Color::RED }); v.in.nn.a = 6; v.in.nn.c = Q::Color::A_B; v.in.any = vint(9);
	v.list.emplace(); v.list->push_back(Q::Variables::Inner { 7, {} }); v.list->push_back(std::nullopt); v.i = 8; v.f = -0.5; v.s = "t"; v.b = false; v.id = R::IdType { 'A', 'B', 'C' }; v.c = Q::Color::RED; v.l.emplace({ 10, 11 });
	v.bl = { {}, { true, std::nullopt } }; v.any = vstr("x");
	kind = "any";
	switch (sx::choose("part", 22))
	{
		case 0: v.in.i = Make<std::optional<int>>::of("x"); break;
		case 1: v.in.f = Make<double>::of("x"); break;
		case 2: v.in.s = Make<std::optional<std::string>>::of("x"); break;
		case 3: v.in.b = Make<bool>::of("x"); v.b = Make<std::optional<bool>>::of("y"); break;
		case 4: v.in.id = std::nullopt; v.id = std::nullopt; break;
		case 5: v.in.c = Make<Q::Color>::of("x"); v.c = Make<std::optional<Q::Color>>::of("y"); break;
		case 6: v.in.l = Make<std::optional<std::vector<std::optional<int>>>>::of("x"); break;
		case 7: v.in.bl = Make<std::optional<std::vector<bool>>>::of("x"); break;
		case 8: v.in.ll = Make<std::vector<std::vector<Q::Color>>>::of("x"); break;
		case 9: v.in.n = Make<std::optional<Q::Variables::Inner>>::of("x"); break;
		case 10: v.in.nl = Make<std::optional<std::vector<Q::Variables::Inner>>>::of("x"); break;
		case 11: v.in.nn = Make<Q::Variables::Inner>::of("x"); break;
		case 12: v.in.any = Make<std::optional<R::Value>>::of("x"); break;
		case 13: v.list = Make<std::optional<std::vector<std::optional<Q::Variables::Inner>>>>::of("x"); break;
		case 14: v.i = Make<int>::of("x"); break;
		case 15: v.f = Make<std::optional<double>>::of("x"); break;
		case 16: v.s = Make<std::string>::of("x"); break;
		case 17: v.l = Make<std::optional<std::vector<int>>>::of("x"); break;
		case 18: v.bl = Make<std::vector<std::vector<std::optional<bool>>>>::of("x"); break;
		case 19: v.any = Make<std::optional<R::Value>>::of("x"); break;
		case 20: { auto s = sx::bytes("x", 2); v.in.id = R::IdType(s.begin(), s.end()); break; }
		default: { auto s = sx::bytes("x", 1); v.id = R::IdType(s.begin(), s.end()); break; }
	}
	// an absent custom scalar and one which holds null are the same
	auto want = vmap();
	put(want, "in", show_(v.in));
	put(want, "list", show_(v.list));
	put(want, "i", show_(v.i));
	put(want, "f", show_(v.f));
	put(want, "s", show_(v.s));
	put(want, "b", show_(v.b));
	put(want, "id", show_(v.id));
	put(want, "c", show_(v.c));
	put(want, "l", show_(v.l));
	put(want, "bl", show_(v.bl));
	put(want, "any", show_(v.any));
	sx::note("want", show(want));
	auto r = Q::serializeVariables(std::move(v));
	sx::note("sent", show(r));
	sx::check(r.type() == R::Type::Map && r.size() == want.size(), "the variables are not all sent, or others");
	for (auto& e : want.get<R::MapType>())
	{
		auto it = r.find(e.first);
		sx::check(it != r.end(), "the variables are not all sent, or others");
		if (e.first == "in")
		{
			sx::check(it->second.type() == R::Type::Map && it->second.size() == e.second.size(), "the fields of an input object are not all sent, or others");
			for (auto& f : e.second.get<R::MapType>())
			{
				auto k = it->second.find(f.first);
				sx::check(k != it->second.end() && same(k->second, wire(f.first == "id" ? "id" : "any", f.second)), "a field of an input object is not sent as it is");
			}
		}
		else sx::check(same(it->second, wire(e.first == "id" ? "id" : "any", e.second)), "a variable is not sent as it is");
	}
	// the service reads them as they were
	auto same2 = [&](const char* name, const R::Value& got) { sx::check(same(got, want[name]), "the service does not read a variable as it was"); };
	same2("in", show_(S::ModifiedArgument<gen::In>::require("in", r)));
	same2("list", show_(S::ModifiedArgument<gen::Inner>::require<TM::Nullable, TM::List, TM::Nullable>("list", r)));
	same2("c", show_(S::ModifiedArgument<gen::Color>::require<TM::Nullable>("c", r)));
	same2("id", show_(S::ModifiedArgument<R::IdType>::require<TM::Nullable>("id", r)));
	same2("bl", show_(S::ModifiedArgument<bool>::require<TM::List, TM::List, TM::Nullable>("bl", r)));
	sx::cover("variables");
}
extern "C" void harness_main()
{
	auto arg = argOf();
	kind = arg.name;
	if (kind == "resp") { kind = "str"; return resp(arg.n); }
	if (kind == "wire") return wireErrors(arg.n);
	if (kind == "root") { kind = "any"; return root(); }
	if (kind == "objects") return objects();
	if (kind == "fragments") return fragments();
	if (kind == "vars") return vars();
	bool ser = kind.substr(0, 4) == "ser-";
	if (ser) kind = kind.substr(4);
	if (kind == "int") ser ? serializeAll<int>() : parseAll<int>(arg.n);
	else if (kind == "float") ser ? serializeAll<double>() : parseAll<double>(arg.n);
	else if (kind == "str") ser ? serializeAll<std::string>() : parseAll<std::string>(arg.n);
	else if (kind == "bool") ser ? serializeAll<bool>() : parseAll<bool>(arg.n);
	else if (kind == "id") ser ? serializeAll<R::IdType>() : parseAll<R::IdType>(arg.n);
	else if (kind == "enum") ser ? serializeAll<Q::Color>() : parseAll<Q::Color>(arg.n);
	else if (kind == "any") ser ? serializeAll<R::Value>() : parseAll<R::Value>(arg.n);
	else sx::fail("unknown run");
}
