// P15: introspection reports exactly the schema that was defined.
// "KIND:K" a type of a kind (or a directive) with symbolic names, descriptions and deprecation, up to K
// fields, arguments or values, types of any wrapping, and every includeDeprecated argument.
// "list:N" N types of any kind in any order, operation types, directives, next to the builtin ones.
// "name:L" looking up any name of L letters.
// "off" schemas without introspection, and introspection fields in other places than the root of a query.
#include "vm.h"
#include "graphqlservice/introspection/Introspection.h"
#include <deque>
namespace I = graphql::introspection;
static std::deque<std::string> names; // the schema refers to its texts
static std::string_view keep(std::string s) { return names.emplace_back(std::move(s)); }
static std::string letter(const std::string& l, char a = 'a', char b = 'z')
{
	unsigned char c = sx::byte(l);
	sx::assume((c >= (unsigned char)a) & (c <= (unsigned char)b));
	return std::string(1, (char)c);
}
// ---- what was defined ---------------------------------------------------------------------------
struct In { std::string name, desc, type, def; };
struct Dep { bool is = false; std::string why; };
struct Fld { std::string name, desc, type; Dep dep; std::vector<In> args; };
struct Enm { std::string name, desc; Dep dep; };
struct Typ { std::string kind, name, desc; std::vector<Fld> fields; std::vector<std::string> interfaces, possible; std::vector<Enm> values; std::vector<In> inputs; };
struct Dct { std::string name, desc; std::vector<unsigned> where; std::vector<In> args; };
static const char* locations[] = { "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "SCHEMA", "SCALAR", "OBJECT",
	"FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION" };
static const std::pair<const char*, const char*> kinds[] = { { "Int", "SCALAR" }, { "String", "SCALAR" }, { "Query", "OBJECT" }, { "Other", "OBJECT" }, { "I1", "INTERFACE" }, { "I2", "INTERFACE" }, { "En", "ENUM" }, { "In", "INPUT_OBJECT" } };
static Typ self; // the type under test
static R::Value optional(const std::string& s) { return s.empty() ? R::Value() : vstr(s); }
static R::Value typeValue(const std::string& t)
{
	auto v = vmap();
	bool nn = t.back() == '!', list = !nn && t[0] == '[';
	std::string kind = nn ? "NON_NULL" : list ? "LIST" : "";
	if (kind.empty())
		for (auto& k : kinds) if (t == k.first) kind = k.second;
	if (kind.empty()) kind = self.kind;
	put(v, "kind", venum(kind));
	put(v, "name", nn || list ? R::Value() : vstr(t));
	put(v, "ofType", nn ? typeValue(t.substr(0, t.size() - 1)) : list ? typeValue(t.substr(1, t.size() - 2)) : R::Value());
	return v;
}
static R::Value inputValue(const In& i)
{
	auto v = vmap();
	put(v, "name", vstr(i.name));
	put(v, "description", optional(i.desc));
	put(v, "type", typeValue(i.type));
	put(v, "defaultValue", optional(i.def));
	return v;
}
static R::Value inputValues(const std::vector<In>& in)
{
	auto v = vlist();
	for (auto& i : in) v.emplace_back(inputValue(i));
	return v;
}
static void deprecation(R::Value& v, const Dep& d)
{
	put(v, "isDeprecated", R::Value(d.is));
	put(v, "deprecationReason", d.is ? vstr(d.why) : R::Value());
}
static R::Value namesOf(const std::vector<std::string>& ns)
{
	auto v = vlist();
	for (auto& n : ns)
	{
		auto e = vmap();
		put(e, "name", vstr(n));
		v.emplace_back(std::move(e));
	}
	return v;
}
static R::Value typeDefinition(const Typ& t, bool deprecated)
{
	auto v = vmap();
	put(v, "kind", venum(t.kind));
	put(v, "name", vstr(t.name));
	put(v, "description", optional(t.desc));
	bool f = t.kind == "OBJECT" || t.kind == "INTERFACE";
	auto fs = vlist();
	for (auto& x : t.fields)
	{
		if (x.dep.is && !deprecated) continue;
		auto e = vmap();
		put(e, "name", vstr(x.name));
		put(e, "description", optional(x.desc));
		put(e, "args", inputValues(x.args));
		put(e, "type", typeValue(x.type));
		deprecation(e, x.dep);
		fs.emplace_back(std::move(e));
	}
	put(v, "fields", f ? std::move(fs) : R::Value());
	put(v, "interfaces", t.kind == "OBJECT" ? namesOf(t.interfaces) : R::Value());
	put(v, "possibleTypes", t.kind == "UNION" || t.kind == "INTERFACE" ? namesOf(t.possible) : R::Value());
	auto es = vlist();
	for (auto& x : t.values)
	{
		if (x.dep.is && !deprecated) continue;
		auto e = vmap();
		put(e, "name", vstr(x.name));
		put(e, "description", optional(x.desc));
		deprecation(e, x.dep);
		es.emplace_back(std::move(e));
	}
	put(v, "enumValues", t.kind == "ENUM" ? std::move(es) : R::Value());
	put(v, "inputFields", t.kind == "INPUT_OBJECT" ? inputValues(t.inputs) : R::Value());
	put(v, "ofType", R::Value());
	return v;
}
static R::Value directiveDefinition(const Dct& d)
{
	auto v = vmap();
	put(v, "name", vstr(d.name));
	put(v, "description", optional(d.desc));
	auto ls = vlist();
	for (auto w : d.where) ls.emplace_back(venum(locations[w]));
	put(v, "locations", std::move(ls));
	put(v, "args", inputValues(d.args));
	return v;
}
// ---- the library --------------------------------------------------------------------------------
static std::vector<std::shared_ptr<const G::InputValue>> made(const std::shared_ptr<G::Schema>& s, const std::vector<In>& in)
{
	std::vector<std::shared_ptr<const G::InputValue>> v;
	for (auto& i : in) v.push_back(G::InputValue::Make(keep(i.name), keep(i.desc), typeOf(s, i.type), keep(i.def)));
	return v;
}
static std::optional<std::string_view> made(const Dep& d) { return d.is ? std::make_optional(keep(d.why)) : std::nullopt; }
static std::vector<std::shared_ptr<const G::Field>> made(const std::shared_ptr<G::Schema>& s, const std::vector<Fld>& fs)
{
	std::vector<std::shared_ptr<const G::Field>> v;
	for (auto& f : fs) v.push_back(G::Field::Make(keep(f.name), keep(f.desc), made(f.dep), typeOf(s, f.type), made(s, f.args)));
	return v;
}
static std::vector<G::EnumValueType> made(const std::vector<Enm>& es)
{
	std::vector<G::EnumValueType> v;
	for (auto& e : es) v.push_back({ keep(e.name), keep(e.desc), made(e.dep) });
	return v;
}
// adds the type; its members are added by the function this returns, once every type is there
static std::function<void()> add(const std::shared_ptr<G::Schema>& s, const Typ& t)
{
	auto name = keep(t.name), desc = keep(t.desc);
	if (t.kind == "SCALAR")
	{
		s->AddType(name, G::ScalarType::Make(name, desc));
		return [] {};
	}
	if (t.kind == "OBJECT")
	{
		auto o = G::ObjectType::Make(name, desc);
		s->AddType(name, o);
		return [=] {
			std::vector<std::shared_ptr<const G::InterfaceType>> is;
			for (auto& i : t.interfaces) is.push_back(std::static_pointer_cast<const G::InterfaceType>(s->LookupType(i)));
			if (!is.empty()) o->AddInterfaces(std::move(is));
			o->AddFields(made(s, t.fields));
		};
	}
	if (t.kind == "INTERFACE")
	{
		auto o = G::InterfaceType::Make(name, desc);
		s->AddType(name, o);
		return [=] { o->AddFields(made(s, t.fields)); };
	}
	if (t.kind == "UNION")
	{
		auto o = G::UnionType::Make(name, desc);
		s->AddType(name, o);
		return [=] {
			std::vector<std::weak_ptr<const G::BaseType>> ps;
			for (auto& p : t.possible) ps.push_back(s->LookupType(p));
			o->AddPossibleTypes(std::move(ps));
		};
	}
	if (t.kind == "ENUM")
	{
		auto o = G::EnumType::Make(name, desc);
		s->AddType(name, o);
		return [=] { o->AddEnumValues(made(t.values)); };
	}
	auto o = G::InputObjectType::Make(name, desc);
	s->AddType(name, o);
	return [=] { o->AddInputValues(made(s, t.inputs)); };
}
static std::unique_ptr<Svc> service(const std::shared_ptr<G::Schema>& s)
{
	S::TypeMap ops;
	ops.emplace("query", std::make_shared<Obj>(S::TypeNames { "Query" }, S::ResolverMap {
		{ "__schema", [s](S::ResolverParams&& p) {
			 std::shared_ptr<S::Object> o = std::make_shared<I::Schema>(s);
			 return S::ModifiedResult<S::Object>::convert(std::move(o), std::move(p));
		 } },
		{ "__type", [s](S::ResolverParams&& p) {
			 auto name = S::StringArgument::require("name", p.arguments);
			 const auto& type = s->LookupType(name);
			 std::shared_ptr<I::object::Type> o { type ? std::make_shared<I::Type>(type) : nullptr };
			 return S::ModifiedResult<I::object::Type>::convert<S::TypeModifier::Nullable>(o, std::move(p));
		 } },
		{ "__typename", [](S::ResolverParams&& p) { return S::StringResult::convert("Query", std::move(p)); } },
		{ "i", [](S::ResolverParams&& p) { return S::IntResult::convert(1, std::move(p)); } },
		{ "o", [](S::ResolverParams&& p) { return S::ObjectResult::convert<S::TypeModifier::Nullable>(std::shared_ptr<S::Object>(), std::move(p)); } } }));
	return std::make_unique<Svc>(std::move(ops), s);
}
static const char* typeRef = "{ kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name } } } } } } }";
// typeValue ends at the first null ofType, where this ends too
static std::string inputQuery() { return std::string("{ name description type ") + typeRef + " defaultValue } "; }
static std::string typeQuery(const std::string& dep)
{
	return "{ kind name description fields" + dep + " { name description args " + inputQuery() + "type " + typeRef + " isDeprecated deprecationReason } interfaces { name } possibleTypes { name } enumValues" + dep
		+ " { name description isDeprecated deprecationReason } inputFields " + inputQuery() + "ofType { name } }";
}
static R::Value execute(Svc& svc, const std::string& text, R::Value&& vars = vmap())
{
	auto ast = parse(text);
	return run(svc, ast, "", std::move(vars));
}
// what varies: the types, the deprecation or the rest
static int focus = 0;
static unsigned vary(int f, const std::string& l, unsigned n) { return focus == f ? sx::choose(l, n) : 0; }
static std::string description(const std::string& l)
{
	switch (vary(2, l + "d", 2))
	{
		case 1: return sx::bytes(l + "D", 1);
		default: return "";
	}
}
static std::string type(unsigned depth, const std::string& l, bool input)
{
	static const char* out[] = { "Int", "", "I1" }; // "" is the type under test
	static const char* in[] = { "Int", "En", "In" };
	if (!depth || !vary(0, l + "w", 2))
	{
		unsigned c = vary(0, l + "n", 3);
		if (input) return self.kind == "INPUT_OBJECT" && c == 2 ? self.name : in[c];
		return c == 1 ? self.name : out[c];
	}
	if (sx::choose(l + "k", 2)) return "[" + type(depth - 1, l + "i", input) + "]";
	auto t = type(depth - 1, l + "i", input);
	sx::assume(t.back() != '!');
	return t + "!";
}
static Dep deprecation(const std::string& l)
{
	switch (vary(1, l + "p", 3))
	{
		case 1: return { true, "" };
		case 2: return { true, sx::bytes(l + "P", 1) };
		default: return {};
	}
}
static std::vector<In> inputList(unsigned max, const std::string& l, unsigned depth)
{
	static const char* defs[] = { "", "null", "[{x:\"y\"}]" };
	std::vector<In> v;
	unsigned n = sx::choose(l + "#", max + 1);
	for (unsigned i = 0; i < n; i++)
	{
		std::string k = l + sx::num(i);
		In x { letter(k) + (i ? "x" : ""), "", "Int", "" };
		if (i == 0) x.desc = description(k), x.type = type(depth, k, true), x.def = defs[vary(2, k + "=", 3)];
		else x.type = "[Int]!", x.desc = "second";
		v.push_back(x);
	}
	return v;
}
static std::shared_ptr<G::Schema> common(bool noIntrospection = false)
{
	auto s = std::make_shared<G::Schema>(noIntrospection);
	I::AddTypesToSchema(s);
	return s;
}
static const char* kindNames[] = { "SCALAR", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT", "DIRECTIVE" };
static void define(unsigned kind, unsigned max)
{
	focus = sx::choose("focus", 3);
	auto s = common();
	std::vector<std::function<void()>> later;
	Typ other { "OBJECT", "Other", "", { { "x", "", "Int", {}, {} } }, {}, {}, {}, {} };
	Typ in { "INPUT_OBJECT", "In", "", {}, {}, {}, {}, { { "x", "", "Int", "" } } };
	Typ en { "ENUM", "En", "", {}, {}, {}, { { "RED", "", {} } }, {} };
	Typ i1 { "INTERFACE", "I1", "", { { "x", "", "Int", {}, {} } }, {}, {}, {}, {} }, i2 = i1;
	i2.name = "I2";
	Typ q { "OBJECT", "Query", "", { { "i", "", "Int", {}, {} } }, {}, {}, {}, {} };
	Dct d;
	self = Typ {};
	if (kind < 6)
	{
		self.kind = kindNames[kind];
		self.name = letter("name", 'A', 'Z');
		self.desc = description("t");
	}
	if (kind == 1 || kind == 2)
	{
		unsigned n = sx::choose("n", max + 1);
		for (unsigned i = 0; i < n; i++)
		{
			std::string l = "f" + sx::num(i);
			Fld f { letter(l) + (i ? "y" : ""), "", "", deprecation(l), {} };
			if (i == 0) f.desc = description(l), f.type = type(max + 1, l, false);
			else f.desc = "later", f.type = "String", f.args = inputList(max, l + "a", 1);
			self.fields.push_back(f);
		}
	}
	if (kind == 1)
	{
		unsigned c = vary(2, "implements", 5);
		if (c == 1 || c == 3) self.interfaces.push_back("I1");
		if (c >= 2) self.interfaces.push_back("I2");
		if (c == 4) self.interfaces.push_back("I1");
	}
	if (kind == 2)
	{
		if (vary(2, "implemented", 2)) other.interfaces = { self.name };
		self.possible = other.interfaces.empty() ? std::vector<std::string> {} : std::vector<std::string> { "Other" };
	}
	if (kind == 3)
	{
		unsigned c = vary(0, "possible", 5);
		if (c == 1 || c == 3) self.possible.push_back("Other");
		if (c >= 2) self.possible.push_back("Query");
		if (c == 4) self.possible.push_back("Other");
	}
	if (kind == 4)
	{
		unsigned n = sx::choose("n", max + 1);
		for (unsigned i = 0; i < n; i++)
		{
			std::string l = "e" + sx::num(i);
			self.values.push_back({ letter(l) + (i ? "y" : ""), description(l), deprecation(l) });
		}
	}
	if (kind == 5) self.inputs = inputList(max, "in", max);
	if (kind == 6)
	{
		d.name = letter("name");
		d.desc = description("t");
		unsigned n = vary(1, "n", 3);
		for (unsigned i = 0; i < n; i++) d.where.push_back(i ? (d.where[0] + 1 + vary(1, "w2", 3) * 5) % 18 : vary(1, "w1", 18));
		d.args = inputList(max, "a", 1);
	}
	// the type under test before or after the types it refers to
	bool first = vary(0, "first", 2);
	if (kind < 6 && first) later.push_back(add(s, self));
	for (auto t : { &other, &in, &en, &i1, &i2, &q }) later.push_back(add(s, *t));
	if (kind < 6 && !first) later.push_back(add(s, self));
	for (auto& f : later) f();
	if (kind == 6)
	{
		std::vector<I::DirectiveLocation> ls;
		for (auto w : d.where) ls.push_back(I::DirectiveLocation(w));
		s->AddDirective(G::Directive::Make(keep(d.name), keep(d.desc), std::move(ls), made(s, d.args)));
	}
	s->AddQueryType(std::const_pointer_cast<G::ObjectType>(std::static_pointer_cast<const G::ObjectType>(s->LookupType("Query"))));
	auto svc = service(s);
	auto expected = vmap(), data = vmap(), vars = vmap();
	std::string text;
	if (kind < 6)
	{
		// absent, a literal, or a variable
		bool deprecated = false;
		std::string def, arg;
		if (kind == 1 || kind == 2 || kind == 4)
			switch (vary(1, "dep", 5))
			{
				case 1: arg = "(includeDeprecated: true)", deprecated = true; break;
				case 2: arg = "(includeDeprecated: false)"; break;
				case 3: arg = "(includeDeprecated: null)"; break;
				case 4:
					def = "query ($v: Boolean) ";
					arg = "(includeDeprecated: $v)";
					deprecated = sx::boolean("depv");
					put(vars, "v", R::Value(bool(deprecated)));
					break;
			}
		text = def + "{ t: __type(name: \"" + self.name + "\") " + typeQuery(arg) + " }";
		put(data, "t", typeDefinition(self, deprecated));
	}
	else
	{
		text = "{ __schema { directives { name description locations args " + inputQuery() + "} } }";
		auto ds = vlist();
		std::vector<In> i { { "if", "", "Boolean!", "" } };
		auto sc = vmap();
		ds.emplace_back(directiveDefinition({ "skip", "", { 3, 5, 6 }, {} }));
		ds.emplace_back(directiveDefinition({ "include", "", { 3, 5, 6 }, {} }));
		ds.emplace_back(directiveDefinition({ "deprecated", "", { 10, 15 }, {} }));
		ds.emplace_back(directiveDefinition(d));
		put(sc, "directives", std::move(ds));
		put(data, "__schema", std::move(sc));
	}
	sx::note("text", text);
	auto got = execute(*svc, text, std::move(vars));
	if (kind == 6 && got.find("data") != got.end())
	{
		// the arguments of the builtin directives are left to the "list" run
		auto g = got.release<R::MapType>();
		auto dd = g[0].second.release<R::MapType>();
		auto sc = dd[0].second.release<R::MapType>();
		auto ds = sc[0].second.release<R::ListType>();
		sx::check(ds.size() == 4, "the number of directives");
		auto want = directiveDefinition(d);
		sx::note("got", show(ds.back()));
		sx::note("want", show(want));
		sx::check(same(ds.back(), want), "the directive is not reported as it was defined");
		sx::cover("directive");
		return;
	}
	put(expected, "data", std::move(data));
	sx::note("got", show(got));
	sx::note("want", show(expected));
	sx::check(same(got, expected), "the type is not reported as it was defined");
	sx::cover(self.kind.c_str());
}
static void list(unsigned n)
{
	auto s = common();
	std::vector<Typ> types;
	Typ q { "OBJECT", "Query", "", { { "i", "", "Int", {}, {} } }, {}, {}, {}, {} };
	unsigned at = sx::choose("query", n + 1);
	for (unsigned i = 0; i <= n; i++)
	{
		if (i == at) types.push_back(q);
		else
		{
			std::string l = "t" + sx::num(i);
			types.push_back({ kindNames[sx::choose(l, 6)], letter(l + "n", 'A', 'C') + letter(l + "m", 'A', 'C'), "", {}, {}, {}, {}, {} });
			for (unsigned k = 0; k < i; k++) sx::assume(types[k].name != types[i].name);
		}
	}
	for (auto& t : types) add(s, t)();
	auto object = [&](const std::string& n) { return std::const_pointer_cast<G::ObjectType>(std::static_pointer_cast<const G::ObjectType>(s->LookupType(n))); };
	s->AddQueryType(object("Query"));
	std::string m, sub;
	for (auto& t : types)
	{
		if (t.kind != "OBJECT" || t.name == "Query") continue;
		if (m.empty()) s->AddMutationType(object(m = t.name));
		else if (sub.empty()) s->AddSubscriptionType(object(sub = t.name));
	}
	auto svc = service(s);
	auto expected = vmap(), data = vmap(), sc = vmap();
	auto ref = [](const std::string& n) {
		if (n.empty()) return R::Value();
		auto v = vmap();
		put(v, "name", vstr(n));
		return v;
	};
	auto ts = vlist();
	auto put2 = [&](const std::string& n, const std::string& k) {
		auto v = vmap();
		put(v, "name", vstr(n));
		put(v, "kind", venum(k));
		ts.emplace_back(std::move(v));
	};
	for (auto n : { "Boolean", "Float", "ID", "Int", "String" }) put2(n, "SCALAR");
	for (auto n : { "__TypeKind", "__DirectiveLocation" }) put2(n, "ENUM");
	for (auto n : { "__Schema", "__Type", "__Field", "__InputValue", "__EnumValue", "__Directive" }) put2(n, "OBJECT");
	for (auto& t : types) put2(t.name, t.kind);
	put(sc, "types", std::move(ts));
	put(sc, "queryType", ref("Query"));
	put(sc, "mutationType", ref(m));
	put(sc, "subscriptionType", ref(sub));
	put(sc, "__typename", vstr("__Schema"));
	put(data, "__schema", std::move(sc));
	put(expected, "data", std::move(data));
	auto got = execute(*svc, "{ __schema { types { name kind } queryType { name } mutationType { name } subscriptionType { name } __typename } }");
	sx::note("got", show(got));
	sx::check(same(got, expected), "the types are not listed as they were defined");
	// each is found by its name
	for (auto& t : types)
	{
		auto got = execute(*svc, "{ __type(name: \"" + t.name + "\") { name kind __typename } }");
		auto e = vmap(), x = vmap(), y = vmap();
		put(x, "name", vstr(t.name));
		put(x, "kind", venum(t.kind));
		put(x, "__typename", vstr("__Type"));
		put(y, "__type", std::move(x));
		put(e, "data", std::move(y));
		sx::check(same(got, e), "a type is not found by its name");
	}
	sx::cover("list");
}
// the builtin types are those of the specification
static std::string flat(const R::Value& v) // {kind:..} of a type reference as text
{
	std::string k = v["kind"].get<R::StringType>();
	if (k == "NON_NULL") return flat(v["ofType"]) + "!";
	if (k == "LIST") return "[" + flat(v["ofType"]) + "]";
	return v["name"].get<R::StringType>();
}
static std::string signature(const R::Value& fields)
{
	std::string s;
	for (auto& f : fields.get<R::ListType>())
	{
		s += f["name"].get<R::StringType>();
		std::string as;
		if (f.find("args") != f.end())
			for (auto& a : f["args"].get<R::ListType>())
				as += (as.empty() ? "(" : ", ") + a["name"].get<R::StringType>() + ": " + flat(a["type"]) + (a["defaultValue"].type() == R::Type::Null ? "" : " = " + a["defaultValue"].get<R::StringType>());
		s += (as.empty() ? "" : as + ")") + ": " + flat(f["type"]) + "; ";
	}
	return s;
}
static void builtin()
{
	auto s = common();
	add(s, { "OBJECT", "Query", "", { { "i", "", "Int", {}, {} } }, {}, {}, {}, {} })();
	s->AddQueryType(std::const_pointer_cast<G::ObjectType>(std::static_pointer_cast<const G::ObjectType>(s->LookupType("Query"))));
	auto svc = service(s);
	auto about = [&](const std::string& n) {
		auto v = execute(*svc, "{ __type(name: \"" + n + "\") " + typeQuery("(includeDeprecated: true)") + " }");
		sx::check(v.find("errors") == v.end(), "a builtin type is not found");
		auto m = v.release<R::MapType>();
		auto d = m[0].second.release<R::MapType>();
		return std::move(d[0].second);
	};
	static const std::pair<const char*, const char*> objects[] = {
		{ "__Schema", "types: [__Type!]!; queryType: __Type!; mutationType: __Type; subscriptionType: __Type; directives: [__Directive!]!; " },
		{ "__Type", "kind: __TypeKind!; name: String; description: String; fields(includeDeprecated: Boolean = false): [__Field!]; interfaces: [__Type!]; possibleTypes: [__Type!]; enumValues(includeDeprecated: Boolean = false): [__EnumValue!]; inputFields: [__InputValue!]; ofType: __Type; " },
		{ "__Field", "name: String!; description: String; args: [__InputValue!]!; type: __Type!; isDeprecated: Boolean!; deprecationReason: String; " },
		{ "__InputValue", "name: String!; description: String; type: __Type!; defaultValue: String; " },
		{ "__EnumValue", "name: String!; description: String; isDeprecated: Boolean!; deprecationReason: String; " },
		{ "__Directive", "name: String!; description: String; locations: [__DirectiveLocation!]!; args: [__InputValue!]!; " },
	};
	for (auto& o : objects)
	{
		auto v = about(o.first);
		auto got = signature(v["fields"]);
		sx::note(o.first, got);
		sx::check(v["kind"].get<R::StringType>() == "OBJECT" && got == o.second, "a builtin type differs from the specification");
	}
	auto values = [&](const std::string& n) {
		auto v = about(n);
		std::string r;
		for (auto& e : v["enumValues"].get<R::ListType>()) r += e["name"].get<R::StringType>() + " ";
		return r;
	};
	std::string ls;
	for (auto l : locations) ls += std::string(l) + " ";
	sx::check(values("__TypeKind") == "SCALAR OBJECT INTERFACE UNION ENUM INPUT_OBJECT LIST NON_NULL ", "__TypeKind differs from the specification");
	sx::check(values("__DirectiveLocation") == ls, "__DirectiveLocation differs from the specification");
	for (auto n : { "Boolean", "Float", "ID", "Int", "String" }) sx::check(about(n)["kind"].get<R::StringType>() == "SCALAR", "a builtin scalar is missing");
	auto v = execute(*svc, "{ __schema { directives { name locations args " + inputQuery() + "} } }");
	auto& ds = v["data"]["__schema"]["directives"].get<R::ListType>();
	std::string got;
	for (auto& d : ds)
	{
		got += d["name"].get<R::StringType>() + "(" + signature(d["args"]);
		for (auto& a : d["args"].get<R::ListType>()) got += a["defaultValue"].type() == R::Type::Null ? "" : "= " + a["defaultValue"].get<R::StringType>();
		got += ")";
		for (auto& l : d["locations"].get<R::ListType>()) got += " " + l.get<R::StringType>();
		got += "; ";
	}
	sx::note("directives", got);
	sx::check(got == "skip(if: Boolean!; ) FIELD FRAGMENT_SPREAD INLINE_FRAGMENT; include(if: Boolean!; ) FIELD FRAGMENT_SPREAD INLINE_FRAGMENT; deprecated(reason: String; = \"No longer supported\") FIELD_DEFINITION ENUM_VALUE; ",
		"a builtin directive differs from the specification");
	sx::cover("builtin");
}
static bool hasErrors(const R::Value& v)
{
	auto e = v.find("errors");
	return e != v.end() && e->second.type() == R::Type::List && !e->second.get<R::ListType>().empty();
}
static void byName(unsigned length)
{
	auto s = common();
	static const char* defined[] = { "A", "AB", "B", "BA", "ABA", "Query" };
	for (auto n : defined) add(s, { "OBJECT", n, "", { { "i", "", "Int", {}, {} } }, {}, {}, {}, {} })();
	s->AddQueryType(std::const_pointer_cast<G::ObjectType>(std::static_pointer_cast<const G::ObjectType>(s->LookupType("Query"))));
	auto svc = service(s);
	std::string n;
	unsigned len = sx::choose("length", length + 1);
	for (unsigned i = 0; i < len; i++)
	{
		unsigned char c = sx::byte("n" + sx::num(i));
		sx::assume((c >= ' ') & (c <= '~') & (c != '"') & (c != '\\'));
		n += (char)c;
	}
	bool there = false;
	for (auto d : defined) there = there || sx::branch(sx::eqBytes(n, d));
	for (auto d : { "Int", "ID" }) there = there || sx::branch(sx::eqBytes(n, d));
	auto vars = vmap();
	bool var = sx::choose("variable", 2);
	if (var) put(vars, "n", vstr(n));
	auto got = execute(*svc, var ? "query ($n: String!) { __type(name: $n) { name } }" : "{ __type(name: \"" + n + "\") { name } }", std::move(vars));
	sx::note("got", show(got));
	if (there)
	{
		sx::check(!hasErrors(got) && sx::eqBytes(got["data"]["__type"]["name"].get<R::StringType>(), n), "a type is not found by its name");
		sx::cover("found");
	}
	else
	{
		sx::check(hasErrors(got) && got["data"]["__type"].type() == R::Type::Null, "a type that was not defined is found");
		sx::cover("not found");
	}
}
static void off()
{
	static const char* texts[] = {
		"{ __schema { queryType { name } } }", "{ __type(name: \"A\") { name } }", "{ i x: __type(name: \"A\") { kind } }", "{ ... on Query { __schema { types { name } } } }",
		"{ ...F } fragment F on Query { __schema { __typename } }", "query ($n: String = \"A\") { __type(name: $n) { __typename } }",
		"{ o { __schema { queryType { name } } } }", "{ o { __type(name: \"A\") { name } } }", "mutation { __schema { queryType { name } } }",
		"{ __schema }", "{ __type { name } }", "{ __type(name: null) { name } }", "{ __schema(x: 1) { __typename } }", "{ __schema { zz } }" };
	bool none = sx::choose("off", 2);
	auto s = common(none);
	add(s, { "OBJECT", "A", "", { { "i", "", "Int", {}, {} } }, {}, {}, {}, {} })();
	add(s, { "OBJECT", "Query", "", { { "i", "", "Int", {}, {} }, { "o", "", "A", {}, {} } }, {}, {}, {}, {} })();
	auto object = [&](const std::string& n) { return std::const_pointer_cast<G::ObjectType>(std::static_pointer_cast<const G::ObjectType>(s->LookupType(n))); };
	s->AddQueryType(object("Query"));
	s->AddMutationType(object("A"));
	auto svc = service(s);
	unsigned t = sx::choose("text", sizeof texts / sizeof *texts);
	bool fine = !none && t < 6;
	sx::note("text", texts[t]);
	auto got = execute(*svc, texts[t]);
	sx::note("got", show(got));
	sx::check(hasErrors(got) != fine, none ? "a schema without introspection is exposed" : "introspection fields are rejected or in a wrong place");
	if (!fine)
	{
		auto d = got.find("data");
		sx::check(d == got.end() || d->second.type() == R::Type::Null, "introspection gives data where there is none");
		sx::cover("refused");
	}
	else sx::cover("fine");
	// __typename is there in any case
	auto n = execute(*svc, "{ __typename i }");
	sx::check(!hasErrors(n) && n["data"]["__typename"].get<R::StringType>() == "Query", "__typename is not there");
}
extern "C" void harness_main()
{
	auto arg = argOf();
	for (unsigned k = 0; k < 7; k++)
		if (arg.name == kindNames[k]) return define(k, arg.n);
	if (arg.name == "list") list(arg.n);
	else if (arg.name == "name") byName(arg.n);
	else if (arg.name == "off") off();
	else builtin();
}
