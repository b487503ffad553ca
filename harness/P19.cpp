// P19: the schema loader of the code generators, against the model the schema text was written from.
// "KIND:K" one type of a kind with up to K members, whole or split into definition and extensions; "schema:K" operation types;
// "input:K" references between K input types; "bad" documents that break one rule, and ones that do not; "name:N" C++ names
#include "util.h"
#include "SchemaLoader.h"
#include <algorithm>
#include <stdexcept>
#include <vector>
using namespace graphql;
using namespace graphql::generator;
using service::TypeModifier;
extern void sx_write_file(const std::string& name, const std::string& text);
using Opt = std::optional<std::string>;
struct Arg_ { std::string name, type, def, desc; };
struct Fld { std::string name, type, desc; Opt dep; std::vector<Arg_> args; };
static std::unique_ptr<SchemaLoader> load(const std::string& text, std::string& error)
{
	sx::note("schema", text);
	sx_write_file("/tmp/sx-schema.graphql", text);
	try
	{
		return std::make_unique<SchemaLoader>(std::optional<SchemaOptions>(SchemaOptions { "/tmp/sx-schema.graphql", "Prefix", "ns" }));
	}
	catch (const std::exception& e) { error = e.what(); }
	return nullptr;
}
static std::string render(std::string_view type, const TypeModifierStack& m, size_t i = 0)
{
	bool nullable = i < m.size() && m[i] == TypeModifier::Nullable;
	if (nullable) i++;
	std::string s = i < m.size() ? (m[i] == TypeModifier::List ? "[" + render(type, m, i + 1) + "]" : "?") : std::string(type);
	return s + (nullable ? "" : "!");
}
static std::string base(std::string t)
{
	std::string r;
	for (char c : t)
		if (c != '[' && c != ']' && c != '!') r += c;
	return r;
}
static void same(std::string_view a, std::string_view b, const char* what) { sx::check(sx::eqBytes(a, b), std::string(what) + " is not the one of the schema"); }
// the names every schema here declares
static int kindOf(const std::string& b) // 0 builtin 1 scalar 2 enum 3 input 4 union 5 interface 6 object
{
	static const char* const names[][2] = { { "Sca", "1" }, { "Enu", "2" }, { "Inp", "3" }, { "Uni", "4" }, { "Itf", "5" }, { "Obj", "6" }, { "Query", "6" } };
	for (auto& n : names)
		if (b == n[0]) return n[1][0] - '0';
	return 0;
}
static const char* const support = "type Query{q:Int}\nscalar Sca\nenum Enu{E1 E2}\ninput Inp{x:Int}\nunion Uni=Obj\ninterface Itf{i:Int}\ntype Obj{o:Int}\n";
static const char* const outTypes[] = { "Int", "Int!", "[String]", "[ID!]!", "Obj", "[Uni!]", "Itf!", "Enu", "[[Sca!]]!", "Float", "[[Boolean]!]" };
static const char* const inTypes[] = { "Int", "Enu!", "[String]", "[[Sca!]!]", "Inp", "Boolean!", "[ID]!", "Float" };
struct Def { const char* type; const char* text; };
static const Def defs[] = { { "Int", "-12" }, { "[String]", "[\"a\",null]" }, { "Enu!", "E2" }, { "Inp", "{x:3}" }, { "Boolean!", "true" }, { "Float", "1.5" }, { "Int", "null" }, { "[[Sca!]!]", "[[],[\"\"\"r\"\"\"]]" }, { "Boolean!", "false" }, { "[String]", "[]" }, { "Inp", "{}" } };
static response::Value valueOf(const std::string& t)
{
	using response::Type;
	using response::Value;
	Value v;
	if (t == "-12") return Value(-12);
	if (t == "true") return Value(true);
	if (t == "false") return Value(false);
	if (t == "1.5") return Value(1.5);
	if (t == "E2") { v = Value(Type::EnumValue); v.set<std::string>("E2"); return v; }
	if (t == "{x:3}" || t == "{}") { v = Value(Type::Map); if (t.size() > 2) v.emplace_back("x", Value(3)); return v; }
	if (t[0] == '[')
	{
		v = Value(Type::List);
		if (t == "[\"a\",null]") v.emplace_back(Value("a")), v.emplace_back(Value());
		if (t.size() > 12)
		{
			Value b(Type::List);
			b.emplace_back(Value("r"));
			v.emplace_back(Value(Type::List));
			v.emplace_back(std::move(b));
		}
	}
	return v;
}
// ---- making ----
static unsigned fresh;
static std::string uniq(const char* p) { return p + sx::num(fresh++); }
// a description and its source text, with what separates it
static std::string description(std::string& d, unsigned forms = 4)
{
	switch (sx::choose(uniq("d"), forms))
	{
		case 0: return "";
		case 1:
		{
			char c = sx::oneOf(uniq("c"), "ab{}@#,");
			d = std::string("x") + c;
			return "\"x" + std::string(1, c) + "\" ";
		}
		case 2: d = "b\"l\\\n"; return "\"\"\"b\"l\\\n\"\"\"\n";
		default: d = "\n\"A"; return "\"\\n\\\"\\u0041\"";
	}
}
static std::string deprecation(Opt& dep, unsigned forms = 5)
{
	switch (sx::choose(uniq("p"), forms))
	{
		case 0: return "";
		case 1:
		{
			char c = sx::oneOf(uniq("c"), "ab{}@#,");
			dep = std::string("r") + c;
			return "@deprecated(reason:\"r" + std::string(1, c) + "\")";
		}
		case 2: dep = "No longer supported"; return " @deprecated";
		case 3: return "@other(reason:\"no\")";
		default: dep = "q"; return "@other @deprecated(reason:\"\"\"q\"\"\") @third";
	}
}
static Arg_ argument(unsigned i, std::string& text, bool rich, bool small = false)
{
	Arg_ a;
	a.name = std::string("a") + char('a' + i);
	if (small && i == 0) a.desc = "s,", text += "\"s,\"";
	else text += description(a.desc, rich && !small ? 4 : 1);
	if (sx::choose(uniq("h"), 2))
	{
		auto& d = defs[sx::choose(uniq("v"), rich ? sizeof defs / sizeof *defs : 3)];
		a.type = d.type;
		a.def = d.text;
	}
	else a.type = inTypes[sx::choose(uniq("t"), rich ? sizeof inTypes / sizeof *inTypes : 3)];
	text += a.name + ":" + a.type;
	if (!a.def.empty()) text += "=" + a.def;
	if (rich && !small && sx::choose(uniq("w"), 2)) text += "@other(x:1)";
	text += i & 1 ? "\n" : ",";
	return a;
}
static Fld field(unsigned i, std::string& text, bool rich, bool args, bool plain = false)
{
	Fld f;
	f.name = std::string("f") + char('a' + i);
	text += description(f.desc, plain ? 1 : rich && !args ? 4 : 2);
	text += f.name;
	if (args)
	{
		unsigned n = sx::choose(uniq("n"), rich ? 3 : 2);
		if (n)
		{
			text += "(";
			for (unsigned k = 0; k < n; k++) f.args.push_back(argument(k, text, rich && n == 1, true));
			text += ")";
		}
	}
	f.type = outTypes[sx::choose(uniq("t"), rich && !args ? sizeof outTypes / sizeof *outTypes : 2) * (rich && !args ? 1 : 4)];
	text += ":" + f.type + deprecation(f.dep, plain ? 1 : rich && !args ? 5 : 2) + " ";
	return f;
}
// ---- comparing ----
static void cmp(const InputFieldList& l, const std::vector<Arg_>& m, const char* what)
{
	sx::check(l.size() == m.size(), std::string(what) + ": another number of arguments or input fields");
	for (size_t i = 0; i < m.size(); i++)
	{
		same(l[i].name, m[i].name, "the name of an argument");
		same(l[i].cppName, m[i].name, "the C++ name of an argument");
		same(render(l[i].type, l[i].modifiers), m[i].type.back() == '!' ? m[i].type : m[i].type, "the type of an argument");
		same(l[i].description, m[i].desc, "the description of an argument");
		same(l[i].defaultValueString, m[i].def, "the text of a default value");
		sx::check(l[i].defaultValue == valueOf(m[i].def), "a default value is not the one of the schema");
		int k = kindOf(base(m[i].type));
		sx::check(l[i].fieldType == (k == 0 ? InputFieldType::Builtin : k == 1 ? InputFieldType::Scalar : k == 2 ? InputFieldType::Enum : InputFieldType::Input), std::string(what) + ": the kind of an argument's type is not the one of the schema");
	}
}
static void cmp(const OutputFieldList& l, const std::vector<Fld>& m, const char* what, bool itf, const std::vector<std::string>& inherited, bool mutation = false)
{
	sx::check(l.size() == m.size(), std::string(what) + ": another number of fields");
	for (size_t i = 0; i < m.size(); i++)
	{
		same(l[i].name, m[i].name, "the name of a field");
		same(l[i].cppName, m[i].name, "the C++ name of a field");
		same(render(l[i].type, l[i].modifiers), m[i].type, "the type of a field");
		same(l[i].description, m[i].desc, "the description of a field");
		sx::check(l[i].deprecationReason.has_value() == m[i].dep.has_value(), "a field is deprecated, or not, unlike in the schema");
		if (m[i].dep) same(*l[i].deprecationReason, *m[i].dep, "the reason of a field's deprecation");
		int k = kindOf(base(m[i].type));
		static const OutputFieldType kinds[] = { OutputFieldType::Builtin, OutputFieldType::Scalar, OutputFieldType::Enum, OutputFieldType::Builtin, OutputFieldType::Union, OutputFieldType::Interface, OutputFieldType::Object };
		sx::check(l[i].fieldType == kinds[k], "the kind of a field's type is not the one of the schema");
		sx::check(l[i].interfaceField == itf && l[i].inheritedField == (std::find(inherited.begin(), inherited.end(), m[i].name) != inherited.end()), "a field is marked as inherited, or not, unlike in the schema");
		same(l[i].accessor, mutation ? "apply" : "get", "the accessor of a field");
		cmp(l[i].arguments, m[i].args, what);
	}
}
template <class L> static size_t indexOf(const L& l, std::string_view n)
{
	size_t r = l.size(), c = 0;
	for (size_t i = 0; i < l.size(); i++)
		if (l[i].type == n) r = i, c++;
	sx::check(c == 1, "a type of the schema is missing, or there twice");
	return r;
}
// how the members are divided: 0 all in the definition, 1 some in an extension after it, 2 some in an extension before it,
// 3 all in the extension, 4 some in two extensions
static std::string emit(const std::string& desc, const std::string& kw, const std::string& head, const std::string& extHead, const std::string& open, const std::vector<std::string>& members, const std::string& close, const std::string& sep, bool emptyOk)
{
	size_t n = members.size();
	auto join = [&](size_t a, size_t b) {
		if (a == b) return std::string();
		std::string s = open;
		for (size_t i = a; i < b; i++) s += (i > a ? sep : "") + members[i];
		return s + close + "\n";
	};
	std::string def = desc + kw + " " + head, ext = "extend " + kw + " " + extHead;
	unsigned ways = n ? (n > 1 ? 5 : 2) : 1;
	unsigned how = sx::choose("how", ways);
	if (ways == 2 && how == 1) how = 3;
	std::string s = support;
	bool first = n > 1 || sx::choose("first", 2);
	if (!first) s = "";
	switch (how)
	{
		case 0: s += def + join(0, n) + "\n"; break;
		case 1: s += def + join(0, 1) + "\n" + ext + join(1, n); break;
		case 2: s += ext + join(1, n) + def + join(0, 1) + "\n"; break;
		case 3: s += def + "\n" + ext + join(0, n); break;
		case 4: s += def + join(0, 1) + "\n" + ext + "@other\n" + ext + (n > 2 ? join(1, 2) + ext + join(2, n) : join(1, n)); break;
	}
	if (!first) s += support;
	sx::cover(how ? "extended" : "defined");
	return s;
}
static bool all(const SchemaLoader& s, size_t sc, size_t en, size_t in, size_t un, size_t it, size_t ob, size_t di)
{
	return s.getScalarTypes().size() == sc && s.getEnumTypes().size() == en && s.getInputTypes().size() == in && s.getUnionTypes().size() == un && s.getInterfaceTypes().size() == it && s.getObjectTypes().size() == ob && s.getDirectives().size() == di;
}
static std::unique_ptr<SchemaLoader> good(const std::string& text)
{
	std::string e;
	auto s = load(text, e);
	sx::note("error", e);
	sx::check(bool(s), "a valid schema is rejected");
	return s;
}
static void query(const SchemaLoader& s)
{
	sx::check(s.getOperationTypes().size() == 1 && s.getOperationTypes()[0].type == "Query" && s.getOperationTypes()[0].operation == "query" && s.getOperationTypes()[0].cppType == "Query", "the query type is not the default one");
}
static void kind(const std::string& k, unsigned K)
{
	std::string desc, text;
	std::vector<std::string> parts;
	bool rich = sx::choose("rich", 2); // every attribute of one member, or few of several
	unsigned n = rich ? 1 : sx::choose("n", K + 1);
	std::string dtext = description(desc, rich || n > 1 ? 1 : 4);
	std::string dir = !rich && n < 2 && sx::choose("dir", 2) ? "@other(a:[1,{b:2}])" : "";
	auto take = [&](std::string& t) { parts.push_back(t); t.clear(); };
	std::string one;
	if (k == "scalar")
	{
		std::string t = dtext + "scalar Tst" + dir + "\n";
		unsigned how = sx::choose("how", 3);
		if (how) t = how == 1 ? t + "extend scalar Tst @other\n" : "extend scalar Tst @other\n" + t;
		auto s = good(sx::choose("first", 2) ? t + support : support + t);
		sx::check(all(*s, 2, 1, 1, 1, 1, 2, 0), "types of the schema are missing, or there are more");
		size_t i = indexOf(s->getScalarTypes(), "Tst");
		same(s->getScalarTypes()[i].description, desc, "the description of a type");
		sx::check(s->getScalarIndex("Tst") == i && s->getSchemaType("Tst") == SchemaType::Scalar, "a type is not found by its name");
		query(*s);
		sx::cover("scalar");
		sx::cover(how ? "extended" : "defined");
		return;
	}
	if (k == "enum")
	{
		struct V { std::string name, desc; Opt dep; };
		std::vector<V> vs;
		sx::assume(n > 0);
		for (unsigned i = 0; i < n; i++)
		{
			V v;
			v.name = std::string("V") + char('A' + i);
			one += description(v.desc, rich ? 4 : 2) + v.name + deprecation(v.dep, rich ? 5 : 3);
			vs.push_back(v);
			take(one);
		}
		auto s = good(emit(dtext, "enum", "Tst" + dir, "Tst", "{", parts, "}", " ", false));
		sx::check(all(*s, 1, 2, 1, 1, 1, 2, 0), "types of the schema are missing, or there are more");
		size_t i = indexOf(s->getEnumTypes(), "Tst");
		auto& t = s->getEnumTypes()[i];
		same(t.description, desc, "the description of a type");
		same(t.cppType, "Tst", "the C++ name of a type");
		sx::check(s->getEnumIndex("Tst") == i && s->getSchemaType("Tst") == SchemaType::Enum, "a type is not found by its name");
		sx::check(t.values.size() == vs.size(), "an enum has another number of values");
		for (size_t j = 0; j < vs.size(); j++)
		{
			same(t.values[j].value, vs[j].name, "an enum value");
			same(t.values[j].cppValue, vs[j].name, "the C++ name of an enum value");
			same(t.values[j].description, vs[j].desc, "the description of an enum value");
			sx::check(t.values[j].deprecationReason.has_value() == vs[j].dep.has_value(), "an enum value is deprecated, or not, unlike in the schema");
			if (vs[j].dep) same(*t.values[j].deprecationReason, *vs[j].dep, "the reason of an enum value's deprecation");
		}
		query(*s);
		sx::cover("enum");
		return;
	}
	if (k == "union")
	{
		std::vector<std::string> ms;
		sx::assume(n > 0);
		static const char* const ns[] = { "Obj", "Query", "Obj2", "Obj3" };
		unsigned b = sx::choose("from", 2);
		std::string extra = "type Obj2{a:Int}type Obj3{a:Int}";
		for (unsigned i = 0; i < n; i++) ms.push_back(ns[(b + i) % 4]), parts.push_back(ns[(b + i) % 4]);
		auto s = good(extra + emit(dtext, "union", "Tst" + dir, "Tst", sx::choose("bar", 2) ? "=|" : " = ", parts, " ", "|", false));
		sx::check(all(*s, 1, 1, 1, 2, 1, 4, 0), "types of the schema are missing, or there are more");
		size_t i = indexOf(s->getUnionTypes(), "Tst");
		auto& t = s->getUnionTypes()[i];
		same(t.description, desc, "the description of a type");
		same(t.cppType, "Tst", "the C++ name of a type");
		sx::check(s->getUnionIndex("Tst") == i && s->getSchemaType("Tst") == SchemaType::Union, "a type is not found by its name");
		sx::check(t.options.size() == ms.size(), "a union has another number of members");
		for (size_t j = 0; j < ms.size(); j++) same(t.options[j], ms[j], "a member of a union");
		for (auto& o : s->getObjectTypes())
		{
			bool in = std::find(ms.begin(), ms.end(), o.type) != ms.end(), has = std::find(o.unions.begin(), o.unions.end(), "Tst") != o.unions.end();
			sx::check(in == has && o.unions.size() == size_t(in) + size_t(o.type == "Obj"), "an object is not marked as a member of its unions");
		}
		query(*s);
		sx::cover("union");
		return;
	}
	if (k == "input")
	{
		std::vector<Arg_> as;
		sx::assume(n > 0);
		for (unsigned i = 0; i < n; i++) as.push_back(argument(i, one, rich)), take(one);
		auto s = good(emit(dtext, "input", "Tst" + dir, "Tst", "{", parts, "}", "", false));
		sx::check(all(*s, 1, 1, 2, 1, 1, 2, 0), "types of the schema are missing, or there are more");
		size_t i = indexOf(s->getInputTypes(), "Tst");
		auto& t = s->getInputTypes()[i];
		same(t.description, desc, "the description of a type");
		same(t.cppType, "Tst", "the C++ name of a type");
		sx::check(s->getSchemaType("Tst") == SchemaType::Input, "a type is not found by its name");
		cmp(t.fields, as, "input");
		query(*s);
		sx::cover("input");
		return;
	}
	if (k == "directive")
	{
		std::vector<Arg_> as;
		for (unsigned i = 0; i < n; i++) as.push_back(argument(i, one, rich));
		std::string t = dtext + "directive @Tst" + (as.empty() ? "" : "(" + one + ")") + " on ";
		static const char* const locs[] = { "FIELD", "QUERY", "FIELD_DEFINITION", "FRAGMENT_SPREAD", "INPUT_FIELD_DEFINITION" };
		unsigned m = rich ? 1 : 1 + sx::choose("locs", 3), b = rich ? 0 : sx::choose("from", 5);
		if (!rich && sx::choose("bar", 2)) t += "|";
		for (unsigned i = 0; i < m; i++) t += (i ? std::string("|") : "") + locs[(b + i) % 5];
		auto s = good(!rich && sx::choose("first", 2) ? t + "\n" + support : support + t);
		sx::check(all(*s, 1, 1, 1, 1, 1, 2, 1), "types of the schema are missing, or there are more");
		auto& d = s->getDirectives()[0];
		same(d.name, "Tst", "the name of a directive");
		same(d.description, desc, "the description of a directive");
		sx::check(d.locations.size() == m, "a directive has another number of locations");
		for (unsigned i = 0; i < m; i++) same(d.locations[i], locs[(b + i) % 5], "the location of a directive");
		cmp(d.arguments, as, "directive");
		sx::cover("directive");
		return;
	}
	// object and interface
	bool obj = k == "object";
	std::vector<Fld> fs;
	bool args = sx::choose("args", 2);
	sx::assume(n > 0);
	if (args) sx::assume(n <= 2);
	for (unsigned i = 0; i < n; i++) fs.push_back(field(i, one, rich, args, args ? rich || i > 0 : !rich && i > 0)), take(one);
	if (!obj)
	{
		auto s = good(emit(dtext, "interface", "Tst" + dir, "Tst", "{", parts, "}", "", false));
		sx::check(all(*s, 1, 1, 1, 1, 2, 2, 0), "types of the schema are missing, or there are more");
		size_t i = indexOf(s->getInterfaceTypes(), "Tst");
		auto& t = s->getInterfaceTypes()[i];
		same(t.description, desc, "the description of a type");
		same(t.cppType, "Tst", "the C++ name of a type");
		sx::check(s->getInterfaceIndex("Tst") == i && s->getSchemaType("Tst") == SchemaType::Interface, "a type is not found by its name");
		cmp(t.fields, fs, "interface", true, {});
		query(*s);
		sx::cover("interface");
		return;
	}
	unsigned impl = rich || args ? 0 : sx::choose("impl", 4);
	static const char* const impls[] = { "", " implements Itf", " implements & Itf&Itf2", "" };
	std::string extHead = "Tst";
	std::string extra = "interface Itf2{fa:Int,fb:Int}\n";
	std::vector<std::string> is, inherited;
	if (impl == 1) is = { "Itf" };
	if (impl == 2) is = { "Itf", "Itf2" };
	std::string late;
	if (impl == 3) is = { "Itf2" }, late = "extend type Tst implements Itf2\n";
	if (impl >= 2) inherited = { "fa", "fb" };
	bool mut = !rich && n == 1 && sx::choose("mutation", 2);
	if (mut) extra += "schema{query:Query mutation:Tst}";
	auto s = good(extra + emit(dtext, "type", "Tst" + std::string(impls[impl]) + dir, extHead, "{", parts, "}", "", false) + late);
	sx::check(all(*s, 1, 1, 1, 1, 2, 3, 0), "types of the schema are missing, or there are more");
	size_t i = indexOf(s->getObjectTypes(), "Tst");
	auto& t = s->getObjectTypes()[i];
	same(t.description, desc, "the description of a type");
	same(t.cppType, "Tst", "the C++ name of a type");
	sx::check(s->getObjectIndex("Tst") == i && s->getSchemaType("Tst") == SchemaType::Object, "a type is not found by its name");
	cmp(t.fields, fs, "object", false, inherited, mut);
	sx::check(t.interfaces.size() == is.size(), "an object has another number of interfaces");
	for (size_t j = 0; j < is.size(); j++) same(t.interfaces[j], is[j], "an interface of an object");
	if (!mut) query(*s);
	sx::cover("object");
}
// ---- operation types ----
static void operations(unsigned K)
{
	static const char* const ops[] = { "query", "mutation", "subscription" };
	static const char* const dflt[] = { "Query", "Mutation", "Subscription" };
	std::string types, in, ext;
	struct Op { std::string op, type; };
	std::vector<Op> want;
	bool explicitly = sx::choose("explicit", 2);
	if (!explicitly)
	{
		bool have[3];
		for (unsigned i = 0; i < 3; i++)
		{
			have[i] = sx::choose("have" + sx::num(i), 2);
			if (have[i]) types += std::string("type ") + dflt[i] + "{a:Int}\n", want.push_back({ ops[i], dflt[i] });
		}
		types += "type Other{a:Int}";
		std::string e;
		auto s = load(types, e);
		sx::check(bool(s) == have[0], have[0] ? "a valid schema is rejected" : "a schema without query type is accepted");
		if (!s) { sx::cover("no query"); return; }
		sx::check(s->getOperationTypes().size() == want.size(), "another number of operation types");
		for (size_t i = 0; i < want.size(); i++)
		{
			same(s->getOperationTypes()[i].operation, want[i].op, "an operation");
			same(s->getOperationTypes()[i].type, want[i].type, "the type of an operation");
		}
		sx::cover("default operations");
		return;
	}
	// explicit: each operation in the definition, in an extension, or not at all, in any order
	unsigned start = sx::choose("start", 3), dir = sx::choose("dir", 2);
	std::vector<Op> inExt;
	for (unsigned k = 0; k < 3; k++)
	{
		unsigned i = (start + (dir ? k : 3 - k)) % 3;
		unsigned w = sx::choose("where" + sx::num(i), 3);
		std::string type = std::string("T") + char('a' + i);
		std::string t = std::string(ops[i]) + ":" + type + (sx::choose("sep" + sx::num(i), 2) ? "\n" : " , ");
		if (w == 1) in += t, want.push_back({ ops[i], type });
		if (w == 2) ext += t, inExt.push_back({ ops[i], type });
	}
	sx::assume(!in.empty());
	for (auto& o : inExt) want.push_back(o);
	bool q = false;
	for (auto& o : want) q |= o.op == "query";
	std::string sd = sx::choose("sdir", 2) ? "schema @other {" + in + "}" : "schema{" + in + "}";
	std::string xd;
	if (!ext.empty()) switch (sx::choose("xdir", 3)) { case 0: xd = "extend schema{" + ext + "}"; break; case 1: xd = "extend schema @other {" + ext + "}"; break; case 2: xd = "extend schema @other{" + ext + "}"; break; }
	types = "type Query{a:Int}type Ta{a:Int}type Tb{a:Int}type Tc{a:Int}";
	std::string e;
	auto s = load(sx::choose("order", 2) ? sd + types + xd : types + sd + xd, e);
	sx::note("error", e);
	sx::check(bool(s) == q, q ? "a valid schema is rejected" : "a schema without query type is accepted");
	if (!s) { sx::cover("no query"); return; }
	sx::check(s->getOperationTypes().size() == want.size(), "another number of operation types");
	for (size_t i = 0; i < want.size(); i++)
	{
		same(s->getOperationTypes()[i].operation, want[i].op, "an operation");
		same(s->getOperationTypes()[i].type, want[i].type, "the type of an operation");
		same(s->getOperationTypes()[i].cppType, want[i].type, "the C++ name of an operation's type");
	}
	sx::cover(ext.empty() ? "operations" : "extended operations");
}
// ---- input types referring to each other ----
static void inputs(unsigned K)
{
	bool edge[4][4] = {};
	std::string t = "type Query{a(x:I0):Int}\n";
	for (unsigned i = 0; i < K; i++)
	{
		std::string n = "I" + sx::num(i);
		t += "input " + n + "{v:Int ";
		for (unsigned j = 0; j < K; j++)
		{
			edge[i][j] = sx::choose("e" + sx::num(i) + sx::num(j), 2);
			if (edge[i][j]) t += std::string(1, char('a' + j)) + ":" + ((i + j) & 1 ? "[I" + sx::num(j) + "!]" : "I" + sx::num(j)) + " ";
		}
		t += "}\n";
	}
	bool r[4][4];
	for (unsigned i = 0; i < K; i++)
		for (unsigned j = 0; j < K; j++) r[i][j] = edge[i][j];
	for (unsigned k = 0; k < K; k++)
		for (unsigned i = 0; i < K; i++)
			for (unsigned j = 0; j < K; j++) r[i][j] |= r[i][k] && r[k][j];
	bool cyc = false;
	for (unsigned i = 0; i < K; i++) cyc |= r[i][i];
	std::string e;
	auto s = load(t, e);
	sx::check(bool(s) == !cyc, cyc ? "a cycle of input types is accepted" : "input types without a cycle are rejected");
	if (!s) { sx::cover("cycle"); return; }
	auto& l = s->getInputTypes();
	sx::check(l.size() == K, "types of the schema are missing, or there are more");
	size_t at[4];
	for (unsigned i = 0; i < K; i++)
	{
		std::string n = "I" + sx::num(i);
		at[i] = indexOf(l, n);
		sx::check(s->getInputIndex(n) == at[i], "an input type is not found by its name");
	}
	for (unsigned i = 0; i < K; i++)
	{
		unsigned f = 1;
		for (unsigned j = 0; j < K; j++)
			if (edge[i][j])
			{
				sx::check(at[j] < at[i], "an input type comes before one it contains");
				sx::check(f < l[at[i]].fields.size() && l[at[i]].fields[f].type == "I" + sx::num(j) && l[at[i]].fields[f].fieldType == InputFieldType::Input, "the fields of an input type are not those of the schema");
				f++;
			}
		sx::check(l[at[i]].fields.size() == f, "the fields of an input type are not those of the schema");
	}
	sx::cover("no cycle");
}
// ---- rules ----
static void bad()
{
	struct Case { const char* text; bool ok; };
	static const Case cases[] = {
		// unknown types in every position
		{ "type T{a:Nope}", false }, { "type T{a:[Nope!]}", false }, { "interface T{a:Nope}", false }, { "input T{a:Nope}", false }, { "type T{a(x:Nope):Int}", false }, { "type T{a(x:Nope):Obj}", false },
		{ "interface T{a(x:[Nope]):Int}", false }, { "interface T{a(x:Nope):Obj}", false }, { "directive @t(x:Nope) on FIELD", false }, { "union T=Nope", false }, { "union T=Obj|Nope", false }, { "type T implements Nope{i:Int}", false },
		{ "type T implements Itf&Nope{i:Int}", false }, { "extend type Obj{z:Nope}", false }, { "extend type Obj{z(x:Nope):Int}", false }, { "extend input Inp{z:Nope}", false }, { "extend union Uni=Nope", false }, { "extend interface Itf{z:Nope}", false },
		{ "extend type Obj implements Nope", false }, { "schema{query:Nope}", false }, { "schema{query:Query mutation:Nope}", false },
		// extensions of types that are not there
		{ "extend type Nope{z:Int}", false }, { "extend interface Nope{z:Int}", false }, { "extend input Nope{z:Int}", false }, { "extend union Nope=Obj", false }, { "extend enum Nope{Z}", false }, { "extend scalar Nope @d", false },
		// types in positions they cannot have
		{ "type T{a:Inp}", false }, { "type T{a:[Inp!]!}", false }, { "interface T{a:Inp}", false }, { "input T{a:Obj}", false }, { "input T{a:Uni}", false }, { "input T{a:[Itf]}", false }, { "type T{a(x:Obj):Int}", false }, { "type T{a(x:Uni):Enu}", false },
		{ "type T{a(x:Itf!):Sca}", false }, { "interface T{a(x:Obj):Int}", false }, { "directive @t(x:Obj) on FIELD", false }, { "directive @t(y:Int x:[Uni]) on FIELD", false }, { "union T=Inp", false }, { "union T=Enu", false }, { "union T=Itf", false }, { "union T=Sca", false }, { "union T=Uni", false },
		{ "union T=Int", false }, { "type T implements Obj{a:Int}", false }, { "type T implements Uni{a:Int}", false }, { "schema{query:Inp}", false }, { "schema{query:Itf}", false }, { "schema{query:Query mutation:Uni}", false }, { "schema{query:Query subscription:Enu}", false },
		{ "extend type Enu{z:Int}", false }, { "extend enum Obj{Z}", false }, { "extend input Obj{z:Int}", false }, { "extend interface Obj{z:Int}", false },
		// builtin types redefined
		{ "scalar Int", false }, { "scalar ID", false }, { "type String{a:Int}", false }, { "enum Boolean{A}", false }, { "input Float{a:Int}", false }, { "union ID=Obj", false }, { "interface String{a:Int}", false },
		// no query type
		{ "schema{mutation:Obj}", false }, { "schema{mutation:Obj subscription:Obj}", false },
		// cycles
		{ "input T{a:T}", false }, { "input T{a:[T!]}", false }, { "input T{a:T2}input T2{a:T}", false }, { "extend input Inp{a:Inp}", false }, { "extend input Inp{a:T}input T{b:Inp}", false },
		// defaults
		{ "input T{a:Int!=null}", false }, { "type T{a(x:[Int]!=null):Int}", false }, { "input T{a:Int=99999999999}", false }, { "directive @t(x:Int!=null) on FIELD", false },
		// not a schema
		{ "{a}", false }, { "query{a}", false }, { "fragment F on Obj{o}", false }, { "type T{}", false }, { "type T{a}", false }, { "enum T{true}", false }, { "enum T{null}", false }, { "union T=", false }, { "directive @t on", false }, { "directive @t on NOWHERE", false }, { "type T{a:Int} x", false }, { "input T{a(x:Int):Int}", false }, { "extend schema", false },
		{ "scalar Sca2 scalar", false },
		// what is allowed
		{ "", true }, { "type T implements Itf{i:Int a(x:Inp y:[Enu!]! z:Sca):Uni}", true }, { "extend type Query{z:Obj}", true }, { "extend enum Enu{E3}", true }, { "extend interface Itf{z(a:Inp):Int}", true }, { "extend scalar Sca @d", true }, { "extend union Uni=Query", true }, { "extend type Obj @d", true },
		{ "extend type Obj implements Itf", true }, { "extend input Inp{y:Enu=E1}", true }, { "schema{query:Obj}", true }, { "schema{query:Query mutation:Obj subscription:Obj}", true }, { "type T{a:T b:[T]}", true }, { "interface T{a:T}", true }, { "input T{a:Inp b:[Inp]}", true }, { "type T{type:Int input:Int query:Int on:Int true:Int}", true },
		{ "type enum{a:Int}", true }, { "input T{a:Int=null}", true }, { "directive @t(x:Inp y:Enu=E2 z:Sca!) on FIELD|QUERY", true }, { "type T{a(x:Int=2147483647):Int}", true }, { "type T{a(x:Int=-2147483648):Int}", true }, { "enum T{A B @deprecated C}", true }, { "extend schema @d", true }, { "#c\ntype T{a:Int}#d", true },
		{ "type T{a:query}enum query{on}", true }, { "interface T", true }, { "type T", true }, { "input T", true }, { "union T", true }, { "enum T", true },
	};
	auto& c = cases[sx::choose("case", sizeof cases / sizeof *cases)];
	std::string e;
	std::string extra = std::string(c.text) + "\n";
	auto s = load(sx::choose("first", 2) ? extra + support : support + extra, e);
	sx::note("error", e);
	sx::check(bool(s) == c.ok, std::string(c.ok ? "a valid schema is rejected: " : "an invalid schema is accepted: ") + c.text);
	if (!s) sx::check(!e.empty(), "a schema is rejected without a message");
	sx::cover(s ? "accepted" : "rejected");
}
// ---- C++ names ----
static void names(unsigned N)
{
	unsigned n = 1 + sx::choose("n", N);
	std::string s;
	for (unsigned i = 0; i < n; i++) s += "_Ab7"[sx::choose("c" + sx::num(i), 4)];
	sx::assume(s[0] != '7');
	auto reserved = [](std::string_view t) { return t.find("__") != t.npos || (t.size() > 1 && t[0] == '_' && t[1] >= 'A' && t[1] <= 'Z'); };
	std::string r { SchemaLoader::getSafeCppName(s) };
	sx::note("name", s);
	sx::note("cpp", r);
	sx::check(!reserved(r), "a C++ name is reserved");
	sx::check(!r.empty() && !(r[0] >= '0' && r[0] <= '9'), "a C++ name is not an identifier");
	if (!reserved(s)) sx::check(r == s, "a name that is not reserved is changed");
	// only underscores may go
	std::string a, b;
	for (char c : s) if (c != '_') a += c;
	for (char c : r) if (c != '_') b += c;
	sx::check(a == b, "a C++ name is another name");
	// asking again, and for another name in between
	std::string other = "__X";
	(void)SchemaLoader::getSafeCppName(other);
	other = "Zy";
	sx::check(std::string(SchemaLoader::getSafeCppName(s)) == r, "asking again gives another C++ name");
	sx::cover(r == s ? "kept" : "replaced");
	// in a schema
	if (sx::choose("schema", 2) && s.compare(0, 2, "__"))
	{
		auto l = good("type Query{" + s + "(" + s + ":Int):Int} type T" + s + "{a:Int} input I" + s + "{" + s + ":Int} enum E" + s + "{" + s + "}");
		std::string tn = "T" + s, in = "I" + s, en = "E" + s;
		auto& f = l->getObjectTypes()[l->getObjectIndex("Query")].fields[0];
		same(f.name, s, "the name of a field");
		sx::check(f.cppName == r && f.arguments[0].cppName == r && f.arguments[0].name == s, "the C++ name in a schema is another one");
		sx::check(!reserved(l->getObjectTypes()[l->getObjectIndex(tn)].cppType) && !reserved(l->getInputTypes()[0].cppType) && !reserved(l->getEnumTypes()[0].cppType), "a C++ name is reserved");
		sx::check(l->getInputTypes()[0].fields[0].cppName == r && l->getEnumTypes()[0].values[0].cppValue == r && l->getEnumTypes()[0].values[0].value == s, "the C++ name in a schema is another one");
	}
}
// the introspection schema itself
static void introspection()
{
	SchemaLoader s { std::nullopt };
	sx::check(s.isIntrospection() && s.getOperationTypes().empty() && s.getObjectTypes().size() == 6 && s.getEnumTypes().size() == 2 && s.getDirectives().size() == 3, "the introspection schema has other types");
	auto l = good(support);
	sx::check(!l->isIntrospection() && l->getFilenamePrefix() == "Prefix" && l->getSchemaNamespace() == "ns", "the options are not kept");
	sx::cover("introspection");
}
void harness_main()
{
	Arg a = argOf();
	if (a.name == "schema") operations(a.n);
	else if (a.name == "inputs") inputs(a.n);
	else if (a.name == "bad") bad();
	else if (a.name == "name") names(a.n);
	else if (a.name == "introspection") introspection();
	else kind(a.name, a.n);
}
