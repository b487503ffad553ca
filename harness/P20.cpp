// P20: the request loader of the client generator, against the model the request was written from.
// "select:N" response fields of every request of up to N selections; "vars:K" variables; "ops:K" operations; "types" wrappings
// of every field; "bad" requests that are invalid in one respect, or valid; "text" the request text
#include "util.h"
#include "RequestLoader.h"
#include "SchemaLoader.h"
#include <algorithm>
#include <vector>
using namespace graphql;
using namespace graphql::generator;
using service::TypeModifier;
extern void sx_write_file(const std::string& name, const std::string& text);
static const char* const schemaText =
	"type Query{k:Int! e:Enu es(n:Enu3!):[[Enu!]]! s:[Sca] o:Obj! os(x:Inp,y:[Enu!]=[E1]):[Obj!] i:Itf! us:[Uni!]! f:Float id:ID! t:Boolean! deep:[[[Int]!]]! last(a:Int!=5):String}\n"
	"interface Itf{k:Int! n:Itf}\ntype Obj implements Itf{k:Int! n:Itf v:Enu o:Obj l:[[Int!]!]!}\ntype Oth implements Itf{k:Int! n:Itf w:Enu2!}\nunion Uni=Obj|Oth\n"
	"enum Enu{E1 E2}enum Enu2{X}enum Enu3{Z}scalar Sca\n"
	"input Inp{v:Int! e:Enu in:In2! l:[In3!]}input In2{e:[Enu2!] x:In3!}input In3{v:Sca=\"d\"}\ninput Top{a:[[In2!]!]! b:In3}\n"
	"type Mut{m(x:In3):Obj}type Sub{ev:Itf!}schema{query:Query mutation:Mut subscription:Sub}directive@d(a:Int b:[Enu!])on QUERY|FIELD|MUTATION|SUBSCRIPTION";
static std::unique_ptr<SchemaLoader> schemaOf(const char* text = schemaText)
{
	sx_write_file("/tmp/sx-schema.graphql", text);
	return std::make_unique<SchemaLoader>(std::optional<SchemaOptions>(SchemaOptions { "/tmp/sx-schema.graphql", "Prefix", "ns" }));
}
static std::unique_ptr<RequestLoader> request(const SchemaLoader& s, const std::string& text, std::string& error, const std::string& op = "", bool noIntrospection = false)
{
	sx::note("request", text);
	sx_write_file("/tmp/sx-request.graphql", text);
	try
	{
		return std::make_unique<RequestLoader>(RequestOptions { "/tmp/sx-request.graphql", op, noIntrospection }, s);
	}
	catch (service::schema_exception& e)
	{
		auto l = e.getStructuredErrors();
		sx::check(!l.empty(), "a request is rejected without an error");
		for (auto& x : l) error += x.message + ";";
	}
	catch (const std::exception& e) { error = e.what(); }
	sx::check(!error.empty(), "a request is rejected without a message");
	sx::note("error", error);
	return nullptr;
}
static void same(std::string_view a, std::string_view b, const std::string& what) { sx::check(sx::eqBytes(a, b), what + " is not the one of the request"); }
static std::string render(std::string_view type, const TypeModifierStack& m, size_t i = 0)
{
	bool nullable = i < m.size() && m[i] == TypeModifier::Nullable;
	if (nullable) i++;
	std::string s = i < m.size() ? (m[i] == TypeModifier::List ? "[" + render(type, m, i + 1) + "]" : "?") : std::string(type);
	return s + (nullable ? "" : "!");
}
static std::string base(const std::string& t)
{
	std::string r;
	for (char c : t)
		if (c != '[' && c != ']' && c != '!') r += c;
	return r;
}
// the C++ type for a GraphQL type, by its text
static std::string cpp(const std::string& t, const std::string& leaf)
{
	bool nn = t.back() == '!';
	std::string c = nn ? t.substr(0, t.size() - 1) : t;
	std::string r = c[0] == '[' ? "std::vector<" + cpp(c.substr(1, c.size() - 2), leaf) + ">" : leaf;
	return nn ? r : "std::optional<" + r + ">";
}
// ---- selections ----
struct Node { std::string name, type; std::vector<Node> children; };
using Nodes = std::vector<Node>;
static bool has(const std::string& a, const std::string& b) { return a.size() == b.size() && sx::eqBytes(a, b); }
static void add(Nodes& l, const Node& n)
{
	for (auto& x : l)
		if (has(x.name, n.name))
		{
			for (auto& c : n.children) add(x.children, c);
			return;
		}
	l.push_back({ n.name, n.type, {} });
	for (auto& c : n.children) add(l.back().children, c);
}
struct Gen
{
	unsigned budget, fresh = 0;
	bool used[2] = {}, open[2] = {};
	std::string defs[2];
	Nodes body[2];
	std::string set(const std::string& type, Nodes& out, unsigned depth)
	{
		std::string t = "{";
		bool any = false;
		do
		{
			t += item(type, out, depth);
			any = true;
		} while (budget && sx::choose("more" + sx::num(fresh++), 2));
		return t + "}";
	}
	std::string leaf(const std::string& type, Nodes& out)
	{
		if (type == "Uni")
		{
			add(out, { "__typename", "String!", {} });
			return "__typename ";
		}
		add(out, { "k", "Int!", {} });
		return "k ";
	}
	std::string nested(const std::string& field, const std::string& wrapped, const std::string& inner, Nodes& out, unsigned depth)
	{
		// under its name, or an alias of its own
		std::string alias = field;
		if (sx::choose("as" + sx::num(fresh++), 2)) alias = field + "_";
		Node n { alias, wrapped, {} };
		std::string t = (alias == field ? "" : alias + ":") + field + set(inner, n.children, depth + 1);
		add(out, n);
		return t + " ";
	}
	std::string fragment(unsigned f, Nodes& out, unsigned depth)
	{
		static const char* const on[] = { "Itf", "Obj" };
		if (!used[f])
		{
			used[f] = open[f] = true;
			Nodes l;
			std::string t = set(on[f], l, depth + 1);
			body[f] = l;
			defs[f] = std::string("fragment F") + char('0' + f) + " on " + on[f] + t;
			open[f] = false;
		}
		for (auto& n : body[f]) add(out, n);
		return std::string("...F") + char('0' + f) + " ";
	}
	std::string item(const std::string& type, Nodes& out, unsigned depth)
	{
		if (!budget || depth > 3) return leaf(type, out);
		budget--;
		bool uni = type == "Uni", obj = type == "Obj", oth = type == "Oth";
		std::vector<unsigned> can;
		if (!uni) can.push_back(0), can.push_back(1), can.push_back(2);
		if (obj) can.push_back(3), can.push_back(4);
		can.push_back(5);
		if (depth > 0 || uni)
		{
			can.push_back(6);
			if (!obj) can.push_back(7);
			if (!oth) can.push_back(8);
		}
		if (!open[0] && (!used[0] || !open[1])) can.push_back(9);
		if (!open[1] && !oth && (!used[1] || !open[0])) can.push_back(10);
		Nodes l;
		std::string t;
		switch (can[sx::choose("item" + sx::num(fresh++), unsigned(can.size()))])
		{
			case 0: return leaf(type, out);
			case 1:
			{
				std::string a = std::string("k") + sx::oneOf("alias" + sx::num(fresh++), "ab");
				add(out, { a, "Int!", {} });
				return a + ":k ";
			}
			case 2: return nested("n", "Itf", "Itf", out, depth);
			case 3: add(out, { "v", "Enu", {} }); return "v ";
			case 4: return nested("o", "Obj", "Obj", out, depth);
			case 5: add(out, { "__typename", "String!", {} }); return "__typename ";
			case 6: t = "...@include(if:true)" + set(type, l, depth + 1); break;
			case 7: t = "...on Oth" + set("Oth", l, depth + 1); break;
			case 8: t = "...on Obj" + set("Obj", l, depth + 1); break;
			case 9: return fragment(0, out, depth);
			case 10: return fragment(1, out, depth);
		}
		for (auto& n : l) add(out, n);
		return t;
	}
};
static void cmp(const ResponseFieldList& l, const Nodes& m)
{
	sx::check(l.size() == m.size(), "a selection set has another number of fields");
	for (size_t i = 0; i < m.size(); i++)
	{
		same(l[i].name, m[i].name, "the name of a field, or their order,");
		same(l[i].cppName, SchemaLoader::getSafeCppName(m[i].name), "the C++ name of a field");
		sx::check(bool(l[i].type), "a field has no type");
		same(render(l[i].type->name(), l[i].modifiers), m[i].type, "the type of a field");
		cmp(l[i].children, m[i].children);
	}
}
static void select(unsigned N)
{
	auto s = schemaOf();
	static const char* const roots[][3] = { { "i", "Itf!", "Itf" }, { "us", "[Uni!]!", "Uni" }, { "o", "Obj!", "Obj" } };
	auto& r = roots[sx::choose("root", 3)];
	Gen g;
	g.budget = N;
	Node n { r[0], r[1], {} };
	std::string text = "query Q{" + n.name + g.set(r[2], n.children, 1) + "}";
	bool first = g.used[0] && sx::choose("first", 2);
	text = first ? g.defs[0] + text + g.defs[1] : text + g.defs[0] + g.defs[1];
	std::string e;
	auto q = request(*s, text, e);
	sx::check(bool(q), "a valid request is rejected");
	Nodes top;
	top.push_back(n);
	cmp(q->getResponseType().fields, top);
	// the enums of the response
	bool v = false;
	struct F { static bool enu(const Nodes& l) { for (auto& x : l) if (x.type == "Enu" || enu(x.children)) return true; return false; } };
	v = F::enu(top);
	sx::check(q->getReferencedEnums().size() == size_t(v) && (!v || q->getReferencedEnums()[0]->name() == "Enu"), "the enums of a response are not those of its fields");
	sx::check(q->getReferencedInputTypes().empty() && q->getVariables().empty(), "a request without variables has some");
	sx::cover(g.used[0] || g.used[1] ? "fragments" : "fields");
	if (v) sx::cover("enum field");
}
// ---- wrapping of every field ----
static void types()
{
	auto s = schemaOf();
	struct F { const char* name; const char* sel; const char* type; const char* leaf; };
	static const F fs[] = { { "k", "", "Int!", "response::IntType" }, { "e", "", "Enu", "Enu" }, { "es", "(n:Z)", "[[Enu!]]!", "Enu" }, { "s", "", "[Sca]", "response::Value" }, { "o", "{k}", "Obj!", "" }, { "os", "{k}", "[Obj!]", "" }, { "i", "{k}", "Itf!", "" }, { "us", "{__typename}", "[Uni!]!", "" },
		{ "f", "", "Float", "response::FloatType" }, { "id", "", "ID!", "response::IdType" }, { "t", "", "Boolean!", "response::BooleanType" }, { "deep", "", "[[[Int]!]]!", "response::IntType" }, { "last", "(a:1)", "String", "response::StringType" }, { "__typename", "", "String!", "response::StringType" },
		{ "__schema", "{queryType{name}}", "__Schema!", "" }, { "__type", "(name:\"x\"){name}", "__Type", "" } };
	const size_t K = sizeof fs / sizeof *fs;
	unsigned a = sx::choose("a", K), b = sx::choose("b", K);
	std::string text = "{";
	Nodes want;
	for (unsigned i : { a, b })
	{
		auto& f = fs[i];
		std::string name = f.name;
		if (i == b && a != b && sx::choose("alias", 2)) name = "_Z_" "_9", text += name + ":";
		text += std::string(f.name) + f.sel + "\n";
		add(want, { name, f.type, {} });
	}
	text += "}";
	std::string e;
	auto q = request(*s, text, e);
	sx::check(bool(q), "a valid request is rejected");
	auto& l = q->getResponseType().fields;
	sx::check(l.size() == want.size(), "a selection set has another number of fields");
	for (size_t i = 0; i < l.size(); i++)
	{
		auto& f = fs[i ? b : a];
		same(l[i].name, want[i].name, "the name of a field");
		sx::check(l[i].cppName == (want[i].name[0] == '_' && want[i].name[1] == 'Z' ? "Z_9" : want[i].name[0] == '_' ? want[i].name.substr(1) : want[i].name), "the C++ name of a field is not safe, or another");
		same(l[i].type->name(), base(f.type), "the type of a field");
		same(render(l[i].type->name(), l[i].modifiers), f.type, "the wrapping of a field");
		std::string leaf = *f.leaf ? f.leaf : "Leaf";
		if (*f.leaf) same(s->getCppType(l[i].type->name()), leaf, "the C++ type of a field");
		same(RequestLoader::getOutputCppType(leaf, l[i].modifiers), cpp(f.type, leaf), "the C++ type of a field");
	}
	same(q->getOperationType(), "query", "the operation's type");
	same(q->getOperationDisplayName(), "(unnamed)", "the operation's display name");
	same(q->getOperationNamespace(), "Query", "the operation's namespace");
	sx::cover("types");
}
// ---- variables ----
static void vars(unsigned K)
{
	auto s = schemaOf();
	struct T { const char* type; const char* leaf; const char* def; };
	static const T ts[] = { { "Int", "response::IntType", "" }, { "Int!", "response::IntType", "" }, { "[Enu!]", "Enu", "" }, { "Inp", "Inp", "" }, { "[[In3]!]!", "In3", "" }, { "Top!", "Top", "" }, { "In2", "In2", "" }, { "Sca", "response::Value", "" }, { "Enu3!", "Enu3", "" },
		{ "Int", "response::IntType", "7" }, { "Boolean", "response::BooleanType", "false" }, { "[Enu!]", "Enu", "[E1,E2]" }, { "In3", "In3", "{v:1.5}" }, { "String", "response::StringType", "\"a\\nb\"" }, { "ID", "response::IdType", "null" }, { "Enu2", "Enu2", "X" }, { "[In3!]", "In3", "[{}]" } };
	unsigned n = 1 + sx::choose("n", K);
	std::string text = "query Op(", use;
	std::vector<const T*> want;
	std::vector<std::string> names;
	for (unsigned i = 0; i < n; i++)
	{
		auto& t = ts[sx::choose("t" + sx::num(i), sizeof ts / sizeof *ts)];
		std::string name = i ? "v" + sx::num(i) : sx::choose("plain", 2) ? std::string("__x") : std::string(1, sx::oneOf("c", "a_Z")) + "v";
		names.push_back(name);
		want.push_back(&t);
		text += "$" + name + ":" + t.type + (*t.def ? std::string("=") + t.def : "") + (i & 1 ? "," : " ");
	}
	// used where their types fit, in a mutation and a query that take any: arguments of this schema
	std::string sch = std::string("type Query{a(");
	for (unsigned i = 0; i < n; i++) sch += "x" + sx::num(i) + ":" + want[i]->type + " ";
	sch += "):Int}enum Enu{E1 E2}enum Enu2{X}enum Enu3{Z}scalar Sca input Inp{v:Int! e:Enu in:In2! l:[In3!]}input In2{e:[Enu2!] x:In3!}input In3{v:Sca=\"d\"}\ninput Top{a:[[In2!]!]! b:In3}";
	auto s2 = schemaOf(sch.c_str());
	text += "){a(";
	for (unsigned i = 0; i < n; i++) text += "x" + sx::num(i) + ":$" + names[i] + " ";
	text += ")}";
	std::string e;
	auto q = request(*s2, text, e);
	sx::check(bool(q), "a valid request is rejected");
	auto& l = q->getVariables();
	sx::check(l.size() == n, "a request has another number of variables");
	for (unsigned i = 0; i < n; i++)
	{
		same(l[i].name, names[i], "the name of a variable");
		sx::check(l[i].cppName == SchemaLoader::getSafeCppName(names[i]), "the C++ name of a variable is another");
		same(l[i].type->name(), base(want[i]->type), "the type of a variable");
		same(render(l[i].type->name(), l[i].modifiers), want[i]->type, "the type of a variable");
		same(l[i].defaultValueString, want[i]->def, "the text of a default value");
		same(s2->getCppType(l[i].type->name()), want[i]->leaf, "the C++ type of a variable");
		using response::Type;
		auto& v = l[i].defaultValue;
		std::string d = want[i]->def;
		bool ok = false;
		if (d.empty() || d == "null") ok = v.type() == Type::Null;
		else if (d == "7") ok = v == response::Value(7);
		else if (d == "false") ok = v == response::Value(false);
		else if (d == "X") ok = v.type() == Type::EnumValue && v.get<std::string>() == "X";
		else if (d[0] == '"') ok = v == response::Value("a\nb");
		else if (d == "{v:1.5}") ok = v.type() == Type::Map && v.size() == 1 && v.begin()->first == "v" && v.begin()->second == response::Value(1.5);
		else if (d == "[{}]") ok = v.type() == Type::List && v.size() == 1 && v[size_t(0)].type() == Type::Map && v[size_t(0)].size() == 0;
		else ok = v.type() == Type::List && v.size() == 2 && v[size_t(0)].type() == Type::EnumValue && v[size_t(0)].get<std::string>() == "E1" && v[size_t(1)].get<std::string>() == "E2";
		sx::check(ok, "a default value is not the one of the request");
	}
	// everything they refer to, once; an input type after those it contains
	static const char* const inputs[] = { "Inp", "In2", "In3", "Top" };
	static const char* const inside[] = { "In2 In3", "In3", "", "In2 In3" };
	static const char* const enums[] = { "Enu Enu2", "Enu2", "", "Enu2" };
	bool in[4] = {}, en[3] = {};
	for (auto* t : want)
	{
		std::string b = base(t->type);
		for (unsigned i = 0; i < 4; i++)
			if (b == inputs[i])
			{
				in[i] = true;
				for (unsigned j = 0; j < 4; j++) in[j] |= std::string(inside[i]).find(inputs[j]) != std::string::npos;
				if (i == 0) en[0] = true;
				if (i != 2) en[1] = true;
			}
		if (b == "Enu") en[0] = true;
		if (b == "Enu2") en[1] = true;
		if (b == "Enu3") en[2] = true;
	}
	auto count = [](const RequestSchemaTypeList& l, std::string_view n) { size_t c = 0; for (auto& t : l) c += t->name() == n; return c; };
	auto& it = q->getReferencedInputTypes();
	size_t total = 0;
	for (unsigned i = 0; i < 4; i++)
	{
		sx::check(count(it, inputs[i]) == size_t(in[i]), "an input type is missing, or there without being needed");
		total += in[i];
		for (unsigned j = 0; j < 4; j++)
			if (in[i] && std::string(inside[i]).find(inputs[j]) != std::string::npos)
			{
				size_t pi = 0, pj = 0;
				for (size_t k = 0; k < it.size(); k++)
				{
					if (it[k]->name() == inputs[i]) pi = k;
					if (it[k]->name() == inputs[j]) pj = k;
				}
				sx::check(pj < pi, "an input type comes before one it contains");
			}
	}
	sx::check(it.size() == total, "an input type is missing, or there without being needed");
	auto& et = q->getReferencedEnums();
	static const char* const enumNames[] = { "Enu", "Enu2", "Enu3" };
	total = 0;
	for (unsigned i = 0; i < 3; i++) sx::check(count(et, enumNames[i]) == size_t(en[i]), "an enum is missing, or there without being needed"), total += en[i];
	sx::check(et.size() == total, "an enum is missing, or there without being needed");
	// the C++ types of the fields of the input types
	for (auto& t : it)
		if (t->name() == "Inp")
		{
			static const char* const cs[] = { "response::IntType", "std::optional<Enu>", "In2", "std::optional<std::vector<In3>>" };
			for (size_t i = 0; i < 4; i++) same(q->getInputCppType(t->inputFields()[i]->type().lock()), cs[i], "the C++ type of an input field");
		}
	sx::cover("variables");
	if (it.size() > 1) sx::cover("nested inputs");
}
// ---- operations ----
static void ops(unsigned K)
{
	static const char* const kinds[] = { "query", "mutation", "subscription" };
	static const char* const body[] = { "{k}", "{m{k}}", "{ev{k}}" };
	static const char* const roots[] = { "Query", "Mut", "Sub" };
	static const char* const field[] = { "k", "m", "ev" };
	bool full = sx::choose("full", 2); // a schema without the other operations rejects them
	auto s = full ? schemaOf() : schemaOf("type Query{k:Int!}");
	unsigned n = 1 + sx::choose("n", K);
	struct O { unsigned kind; std::string name; };
	std::vector<O> os;
	std::string text;
	for (unsigned i = 0; i < n; i++)
	{
		O o { unsigned(sx::choose("kind" + sx::num(i), 3)), "" };
		// alone, an operation may have no name, and a query no keyword
		unsigned form = n == 1 ? sx::choose("form", o.kind == 0 ? 3 : 2) : 1;
		if (form == 1) o.name = std::string("Op") + sx::oneOf("c" + sx::num(i), "_bc");
		text += (form == 2 ? "" : std::string(kinds[o.kind]) + (form ? " " + o.name : "")) + body[o.kind] + "\n";
		os.push_back(o);
	}
	unsigned which = sx::choose("which", 2 + n); // none, one that is not there, or one of them
	std::string ask = which == 0 ? "" : which == 1 ? "Opx" : os[which - 2].name;
	bool distinct = true, supported = true;
	for (unsigned i = 0; i < n; i++)
	{
		for (unsigned j = 0; j < i; j++) distinct &= !has(os[i].name, os[j].name);
		supported &= full || os[i].kind == 0;
	}
	std::string e;
	auto q = request(*s, text, e, ask);
	bool ok = distinct && supported && which != 1;
	sx::check(bool(q) == ok, ok ? "a valid request is rejected" : which == 1 ? "a request for an operation that is not there is accepted" : "an invalid request is accepted");
	if (!q)
	{
		sx::cover(which == 1 ? "no operation" : "invalid");
		return;
	}
	O& o = os[which < 2 || ask.empty() ? 0 : which - 2];
	same(q->getOperationType(), kinds[o.kind], "the type of the operation");
	same(q->getOperationDisplayName(), o.name.empty() ? "(unnamed)" : o.name, "the name of the operation");
	std::string ns = kinds[o.kind];
	ns[0] = char(ns[0] - 32);
	same(q->getOperationNamespace(), o.name.empty() ? ns : o.name, "the namespace of the operation");
	auto& r = q->getResponseType();
	same(r.type->name(), roots[o.kind], "the type of the response");
	same(r.cppType, o.name.empty() ? roots[o.kind] : o.name, "the C++ name of the response");
	sx::check(r.fields.size() == 1 && r.fields[0].name == field[o.kind], "the fields of the response are those of another operation");
	same(q->getRequestFilename(), "/tmp/sx-request.graphql", "the file name");
	sx::cover(n > 1 ? "one of several" : "one operation");
}
// ---- rules ----
static void bad()
{
	struct Case { const char* text; bool ok; bool introspection; };
	static const Case cases[] = {
		{ "{nope}", false, false }, { "{o}", false, false }, { "{k{x}}", false, false }, { "{o{nope}}", false, false }, { "{last}", true, false }, { "{last(a:null)}", false, false }, { "{last(a:\"x\")}", false, false }, { "{last(b:1)}", false, false }, { "{es}", false, false }, { "{es(n:E1)}", false, false },
		{ "{es(n:Z)}", true, false }, { "query($x:Int){k}", false, false }, { "query($x:Int){last(a:$x)}", true, false }, { "query($x:String){last(a:$x)}", false, false }, { "query($x:Nope){k}", false, false }, { "query($x:Obj){k}", false, false }, { "{last(a:$x)}", false, false },
		{ "query($x:Int!=null){last(a:$x)}", false, false }, { "{...F}", false, false }, { "{k}fragment F on Query{k}", false, false }, { "{...F}fragment F on Query{...F}", false, false }, { "{...F}fragment F on Query{k}", true, false }, { "{...F}fragment F on Nope{k}", false, false }, { "{...F}fragment F on Obj{k}", false, false },
		{ "{...F}fragment F on Query{k}fragment F on Query{e}", false, false }, { "{...on Obj{k}}", false, false }, { "{...on Enu{k}}", false, false }, { "{i{...on Obj{v}...on Oth{w}}}", true, false }, { "{i{v}}", false, false }, { "{us{k}}", false, false }, { "{k @skip}", false, false }, { "{k @skip(if:true)}", true, false },
		{ "{k @nope}", false, false }, { "query @d(a:1 b:[E1]){k}", true, false }, { "query @d(a:1.5){k}", false, false }, { "{k @d(b:[E3])}", false, false }, { "{i{...@d{k}}}", false, false }, { "subscription{ev{k}}", true, false }, { "subscription{ev{k}a:ev{k}}", false, false }, { "{k}{e}", false, false }, { "{k}query A{e}", false, false },
		{ "query A{k}query A{e}", false, false }, { "{x:k x:e}", false, false }, { "{x:k x:k}", true, false }, { "{os(x:{v:1,in:{x:{}}}){k}}", true, false }, { "{os(x:{v:1}){k}}", false, false }, { "{os(x:{v:1,in:{x:{},z:1}}){k}}", false, false }, { "{os(y:E1){k}}", false, false }, { "{os(y:[E1 E2]){k}}", true, false },
		{ "{__schema{queryType{name}}}", true, true }, { "{__type(name:\"a\"){name kind}}", true, true }, { "{__typename}", true, false }, { "{o{__schema{queryType{name}}}}", false, false }, { "type Query{a:Int}", false, false }, { "{k", false, false }, { "", false, false }, { "fragment F on Query{k}", false, false }, { "query A($a:Inp!,$b:[Enu!]){os(x:$a y:$b){k}}", true, false },
		{ "query A($a:Inp,$b:[Enu]){os(x:$a y:$b){k}}", false, false }, { "mutation{m(x:{v:[1,{a:2}]}){k}}", true, false },
	};
	auto s = schemaOf();
	auto& c = cases[sx::choose("case", sizeof cases / sizeof *cases)];
	bool no = sx::choose("no introspection", 2);
	std::string e;
	auto q = request(*s, c.text, e, "", no);
	bool ok = c.ok && !(c.introspection && no);
	sx::check(bool(q) == ok, std::string(ok ? "a valid request is rejected: " : "an invalid request is accepted: ") + c.text);
	sx::cover(q ? "accepted" : "rejected");
}
// ---- text ----
static void text()
{
	auto s = schemaOf();
	std::string a, b, mid = "{ k # c\n}";
	unsigned n = sx::choose("before", 3), m = sx::choose("after", 3);
	for (unsigned i = 0; i < n; i++) a += sx::oneOf("a" + sx::num(i), " \t\r\n");
	for (unsigned i = 0; i < m; i++) b += sx::oneOf("b" + sx::num(i), " \t\r\n");
	std::string e;
	auto q = request(*s, a + mid + b, e);
	sx::check(bool(q), "a valid request is rejected");
	same(q->getRequestText(), mid, "the text");
	sx::cover("text");
}
void harness_main()
{
	Arg a = argOf();
	if (a.name == "select") select(a.n);
	else if (a.name == "types") types();
	else if (a.name == "vars") vars(a.n);
	else if (a.name == "ops") ops(a.n);
	else if (a.name == "bad") bad();
	else text();
}
