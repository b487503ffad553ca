// P05: literals in a document denote the specified values.
// "str:N"  a quoted string of N arbitrary bytes      "uni:N" N \uXXXX escapes with symbolic hex digits around
// "blk:N"  a block string of N arbitrary bytes        "int:N" integer literals of up to N digits
// "flt"    floating point forms                       "word:N" names, keywords and their prefixes
// "val:D"  nested lists, objects and variables        "num:N" N arbitrary bytes where a number is expected
#include "svc.h"
#include "lex.h"
#include <cstdlib>
static bool asDefault, asDirective;
using namespace lex;
static std::optional<R::Value> got;
static Svc* svc;
static std::shared_ptr<G::Schema> makeSchema()
{
	auto s = std::make_shared<G::Schema>(false);
	graphql::introspection::AddTypesToSchema(s);
	auto q = G::ObjectType::Make("Query", "");
	auto any = G::ScalarType::Make("Any", "");
	s->AddType("Query", q);
	s->AddType("Any", any);
	q->AddFields(fields(s, { { "f", "Int", { { "x", "Any" }, { "y", "Any" } } } }));
	s->AddQueryType(q);
	s->AddDirective(G::Directive::Make("d", "", { DirectiveLocation::FIELD }, inputs(s, { { "x", "Any" } })));
	return s;
}
// the value the literal reaches the resolver as; nothing when the request reports an error
static std::optional<R::Value> deliver(const std::string& literal, R::Value&& vars = vmap(), const std::string& varDefs = "")
{
	auto qo = std::make_shared<Obj>(S::TypeNames { "Query" }, S::ResolverMap { { "f", [](S::ResolverParams&& p) {
		if (asDirective)
		{
			auto& d = p.fieldDirectives["d"];
			got = R::Value(d["x"]);
		}
		else got = R::Value(p.arguments["x"]);
		return S::IntResult::convert(1, std::move(p));
	} } });
	Svc s({ { "query", qo } }, makeSchema());
	got.reset();
	std::string text;
	if (asDefault) text = "query Q($z: Any = " + literal + varDefs + ") { f(x: $z) }";
	else text = (varDefs.empty() ? std::string("{") : "query Q(" + varDefs.substr(2) + ") {") + (asDirective ? " f @d(x: " : " f(x: ") + literal + ") }";
	sx::note("text", text);
	try
	{
		auto ast = parse(text);
		auto r = run(s, ast, "", std::move(vars));
		if (r.find("errors") != r.end())
		{
			sx::note("response", show(r));
			return std::nullopt;
		}
	}
	catch (const std::exception&) { return std::nullopt; }
	if (got) sx::note("got", show(*got));
	return std::move(got);
}
static void verify(const std::optional<R::Value>& r, const std::optional<R::Value>& want)
{
	if (want) sx::note("want", show(*want));
	if (!want)
	{
		sx::check(!r, "a literal that is not valid is delivered as a value");
		sx::cover("invalid");
		return;
	}
	sx::check(bool(r), "a valid literal is rejected");
	sx::check(same(*r, *want), "a literal is delivered as another value than it denotes");
	sx::cover("valid");
}
static void where()
{
	unsigned w = sx::choose("where", 3);
	asDefault = w == 1;
	asDirective = w == 2;
}
static void str(unsigned n, bool blk)
{
	std::string b = sx::bytes("b", sx::choose("n", n + 1));
	std::string want;
	Lex l = blk ? block(b, want) : quoted(b, want);
	if (l == Early) return; // another document: P04's subject
	if (!blk && b.empty()) want = "";
	std::string q = blk ? "\"\"\"" : "\"";
	auto r = deliver(q + b + q);
	verify(r, l == Good ? std::optional<R::Value>(vstr(want)) : std::nullopt);
	if (l == Good && b != want) sx::cover("escaped");
}
static void uni(unsigned n)
{
	std::string b;
	if (sx::choose("pre", 2)) b += sx::oneOf("p", "a/");
	for (unsigned i = 0; i < n; i++)
	{
		b += "\\u";
		for (unsigned k = 0; k < 4; k++)
		{
			std::string id = "h" + sx::num(i) + "." + sx::num(k);
			const char* digits = k == (i & 1 ? 3u : 1u) ? "0123456789ABCDEF" : "0123456789abcdef";
			if (n == 1) b += char(sx::oneOf(id, "0123456789abcdefABCDEF"));
			else if (k == 0) b += "0dE"[sx::choose(id, 3)];
			else if (k == 2) b += "07c"[sx::choose(id, 3)];
			else b += char(sx::oneOf(id, digits));
		}
		if (i + 1 < n && sx::choose("mid" + sx::num(i), 2)) b += "\\n";
	}
	unsigned post = sx::choose("post", 3);
	if (post == 1) b += "z";
	if (post == 2) b += "\\\"";
	std::string want;
	Lex l = quoted(b, want);
	auto r = deliver("\"" + b + "\"");
	verify(r, l == Good ? std::optional<R::Value>(vstr(want)) : std::nullopt);
}
static void integer(unsigned n)
{
	where();
	bool neg = sx::choose("neg", 2) != 0;
	long long v = 0;
	std::string t = neg ? "-" : "";
	const char* prefixes[] = { "", "21474836", "10000000", "99999999", "922337203685477580", "42949672" };
	std::string prefix = prefixes[sx::choose("prefix", 6)];
	for (char c : prefix) v = v * 10 + (c - '0');
	t += prefix;
	unsigned len = prefix.empty() ? 1 + sx::choose("len", n) : prefix.size() == 18 ? sx::choose("more", 2) : 1 + sx::choose("more", 3);
	for (unsigned i = 0; i < len; i++)
	{
		unsigned char c = (unsigned char)sx::oneOf("d" + sx::num(i), "0123456789");
		if (i == 0 && len > 1 && prefix.empty()) sx::assume(c != '0');
		t += char(c);
		if (prefix.size() < 18) v = v * 10 + (c - '0');
	}
	if (neg) v = -v;
	auto r = deliver(t);
	bool fits = v >= -2147483648LL && v <= 2147483647LL;
	if (fits) verify(r, vint((int)v));
	else verify(r, std::nullopt);
}
static void flt()
{
	where();
	const char* ints[] = { "0", "-0", "3", "-12", "120" };
	const char* fracs[] = { "", ".5", ".25", ".0", ".123456789" };
	const char* exps[] = { "", "e3", "E2", "e-2", "e+1", "E0", "e10" };
	unsigned f = sx::choose("f", 5), e = sx::choose("e", 7);
	sx::assume(f || e);
	std::string t = ints[sx::choose("i", 5)];
	t += fracs[f];
	t += exps[e];
	auto r = deliver(t);
	verify(r, R::Value(strtod(t.c_str(), nullptr)));
}
// bytes where a number is expected: either one number token, or no value
static void num(unsigned n)
{
	unsigned len = 1 + sx::choose("n", n);
	std::string b;
	for (unsigned i = 0; i < len; i++) b += sx::oneOf("b" + sx::num(i), "-+.0159eE");
	size_t i = 0;
	auto at = [&](size_t k) { return k < b.size() ? b[k] : 0; };
	auto digit = [&](size_t k) { return at(k) >= '0' && at(k) <= '9'; };
	bool ok = true, isFloat = false;
	if (at(i) == 'e' || at(i) == 'E') return; // a name
	if (at(i) == '-') i++;
	if (at(i) == '0') i++;
	else if (digit(i)) while (digit(i)) i++;
	else ok = false;
	if (ok && at(i) == '.')
	{
		isFloat = true;
		i++;
		if (!digit(i)) ok = false;
		while (digit(i)) i++;
	}
	if (ok && (at(i) == 'e' || at(i) == 'E'))
	{
		isFloat = true;
		i++;
		if (at(i) == '+' || at(i) == '-') i++;
		if (!digit(i)) ok = false;
		while (digit(i)) i++;
	}
	if (i != b.size()) ok = false;
	auto r = deliver(b);
	if (!ok) verify(r, std::nullopt);
	else if (!isFloat) verify(r, vint(atoi(b.c_str())));
	else
	{
		sx::check(r && r->type() == R::Type::Float, "a valid literal is rejected");
		sx::cover("float");
	}
}
static void word(unsigned n)
{
	where();
	unsigned len = 1 + sx::choose("n", n);
	std::string w;
	for (unsigned i = 0; i < len; i++) w += sx::oneOf("w" + sx::num(i), i ? "truefalsn_9Z" : "truefalsn_Z");
	auto r = deliver(w);
	if (w == "true") verify(r, R::Value(true)), sx::cover("keyword");
	else if (w == "false") verify(r, R::Value(false)), sx::cover("keyword");
	else if (w == "null") verify(r, R::Value()), sx::cover("keyword");
	else verify(r, venum(w));
}
static R::Value varV;
static std::string value(const std::string& p, unsigned depth, R::Value& v, bool& usesVar)
{
	unsigned k = sx::choose(p, depth ? 7 : 5);
	static std::string gap;
	if (p == "v") gap = sx::choose("gap", 2) ? " , " : " ";
	switch (k)
	{
		case 0: v = vint(-7); return "-7";
		case 1: v = vstr("s\n"); return "\"s\\n\"";
		case 2: v = venum("E"); return "E";
		case 3: v = R::Value(); return "null";
		case 4:
			if (asDefault) { v = vstr("b"); return "\"\"\"b\"\"\""; }
			if (!usesVar)
			{
				usesVar = true;
				unsigned vk = sx::choose("var", 3);
				int vi = sx::i32("vi");
				varV = R::Value();
				if (vk == 0) varV = vint(vi);
				if (vk == 1)
				{
					varV = vlist();
					varV.emplace_back(vint(vi));
					varV.emplace_back(R::Value());
				}
			}
			v = R::Value(varV);
			return "$v";
		case 5:
		{
			v = vlist();
			std::string t = "[";
			for (unsigned i = 0, n = sx::choose(p + "n", 3); i < n; i++)
			{
				R::Value e;
				if (i) t += gap;
				t += value(p + sx::num(i), i ? 0 : depth - 1, e, usesVar);
				v.emplace_back(std::move(e));
			}
			return t + "]";
		}
		default:
		{
			v = vmap();
			std::string t = "{";
			const char* names[] = { "k", "a" };
			for (unsigned i = 0, n = sx::choose(p + "n", 3); i < n; i++)
			{
				R::Value e;
				if (i) t += gap;
				t += std::string(names[i]) + ": " + value(p + sx::num(i), i ? 0 : depth - 1, e, usesVar);
				put(v, names[i], std::move(e));
			}
			return t + "}";
		}
	}
}
static void val(unsigned depth)
{
	where();
	R::Value want;
	bool uses = false;
	std::string t = value("v", depth, want, uses);
	auto vars = vmap();
	if (uses) put(vars, "v", R::Value(varV));
	auto r = deliver(t, std::move(vars), uses ? ", $v: Any" : "");
	verify(r, std::move(want));
}
extern "C" void harness_main()
{
	auto arg = argOf();
	if (arg.name == "str" || arg.name == "blk") str(arg.n, arg.name == "blk");
	else if (arg.name == "uni") uni(arg.n);
	else if (arg.name == "int") integer(arg.n);
	else if (arg.name == "flt") flt();
	else if (arg.name == "num") num(arg.n);
	else if (arg.name == "word") word(arg.n);
	else val(arg.n);
}
