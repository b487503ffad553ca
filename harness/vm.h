// A model of documents and an independent implementation of the validation rules (June 2018, section 5)
// over a fixed schema.
#pragma once
#include "svc.h"
#include <algorithm>
#include <map>
#include <set>
namespace vm {
// ---- schema -------------------------------------------------------------------------------------
struct Arg { std::string name, type, def; }; // def: "" is no default
struct Field { std::string name, type; std::vector<Arg> args; };
struct Type { std::string name; char kind; std::vector<Field> fields; std::vector<std::string> possible; }; // o i u; n input, e enum, s scalar
struct Directive { std::string name; std::vector<std::string> where; std::vector<Arg> args; };
struct Schema
{
	std::vector<Type> types;
	std::vector<Directive> directives;
	const Type* find(const std::string& n) const
	{
		for (auto& t : types) if (t.name == n) return &t;
		return nullptr;
	}
};
inline const std::vector<std::string>& enumValues()
{
	static const std::vector<std::string> v { "RED", "BLUE" };
	return v;
}
struct Slot { const char* type; const char* def; };
inline const std::vector<Slot>& slots() // argument types of the fields t0, t1, ... of Query
{
	static const std::vector<Slot> v { { "Int", "" }, { "Int!", "" }, { "Int!", "1" }, { "Float", "" }, { "String", "" }, { "Boolean", "" }, { "ID", "" }, { "En", "" }, { "In", "" },
		{ "Any", "" }, { "[Int]", "" }, { "[Int!]!", "" }, { "[[Int]]", "" }, { "[In!]", "" }, { "[En]!", "[RED]" }, { "[Any!]", "" }, { "[[Int!]!]!", "" } };
	return v;
}
inline Schema model(bool withSlots = false)
{
	std::vector<Arg> xyz { { "x", "Int", "" }, { "y", "Int!", "" }, { "z", "Int!", "1" } };
	Schema s;
	s.types = {
		{ "Int", 's' }, { "Float", 's' }, { "String", 's' }, { "Boolean", 's' }, { "ID", 's' }, { "Any", 's' }, { "En", 'e' },
		{ "In", 'n', { { "p", "Int!", { { "", "", "" } } }, { "q", "Int!", { { "", "", "3" } } }, { "r", "[In!]", {} }, { "t", "En", {} } } },
		{ "N", 'i', { { "i", "Int", {} }, { "k", "N", {} }, { "m", "A", {} } }, { "A", "B" } },
		{ "A", 'o', { { "i", "Int", {} }, { "k", "N", {} }, { "m", "A", {} }, { "a", "Int", { { "x", "Int", "" }, { "y", "Int!", "1" } } }, { "w", "A!", {} }, { "v", "Int!", {} } }, { "A" } },
		{ "B", 'o', { { "i", "Int", {} }, { "k", "N", {} }, { "m", "A", {} }, { "a", "Int", { { "x", "Int", "" } } }, { "w", "B!", {} }, { "v", "[Int!]", {} } }, { "B" } },
		{ "C", 'o', { { "i", "Int", {} } }, { "C" } },
		{ "J", 'i', { { "i", "Int", {} } }, {} },
		{ "U", 'u', {}, { "A", "C" } },
		{ "Query", 'o', { { "n", "N", {} }, { "a", "A", {} }, { "b", "[B!]!", {} }, { "u", "U", {} }, { "i", "Int", {} }, { "f", "Int", xyz } }, { "Query" } },
		{ "Mutation", 'o', { { "i", "Int", {} }, { "a", "A", {} } }, { "Mutation" } },
		{ "Subscription", 'o', { { "i", "Int", {} }, { "a", "A", {} } }, { "Subscription" } },
	};
	s.directives = {
		{ "skip", { "FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT" }, { { "if", "Boolean!", "" } } },
		{ "include", { "FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT" }, { { "if", "Boolean!", "" } } },
		{ "any", { "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT" }, {} },
		{ "op", { "QUERY" }, { { "x", "Int", "" } } },
		{ "def", { "FRAGMENT_DEFINITION", "SUBSCRIPTION" }, { { "y", "Int!", "2" } } },
		{ "mut", { "MUTATION" }, {} },
		{ "inl", { "INLINE_FRAGMENT" }, {} },
		{ "spr", { "FRAGMENT_SPREAD" }, {} },
	};
	if (withSlots)
		for (size_t i = 0; i < slots().size(); i++)
			for (auto& t : s.types)
				if (t.name == "Query") t.fields.push_back({ "t" + sx::num(unsigned(i)), "Int", { { "x", slots()[i].type, slots()[i].def } } });
	return s;
}
inline std::vector<std::shared_ptr<const G::InputValue>> inputsOf(const std::shared_ptr<G::Schema>& s, const std::vector<Arg>& as)
{
	std::vector<std::shared_ptr<const G::InputValue>> v;
	for (auto& a : as) v.push_back(G::InputValue::Make(a.name, "", typeOf(s, a.type), a.def));
	return v;
}
// the same schema through the library's interface (names live as long as the model)
inline std::shared_ptr<G::Schema> build(const Schema& m, bool introspection = false)
{
	auto s = std::make_shared<G::Schema>(!introspection);
	graphql::introspection::AddTypesToSchema(s);
	std::map<std::string, std::shared_ptr<G::ObjectType>> os;
	std::map<std::string, std::shared_ptr<G::InterfaceType>> is;
	std::map<std::string, std::shared_ptr<G::UnionType>> us;
	std::map<std::string, std::shared_ptr<G::InputObjectType>> ns;
	for (auto& t : m.types)
	{
		if (t.kind == 'o') s->AddType(t.name, os[t.name] = G::ObjectType::Make(t.name, ""));
		else if (t.kind == 'i') s->AddType(t.name, is[t.name] = G::InterfaceType::Make(t.name, ""));
		else if (t.kind == 'u') s->AddType(t.name, us[t.name] = G::UnionType::Make(t.name, ""));
		else if (t.kind == 'n') s->AddType(t.name, ns[t.name] = G::InputObjectType::Make(t.name, ""));
		else if (t.kind == 'e')
		{
			auto e = G::EnumType::Make(t.name, "");
			s->AddType(t.name, e);
			std::vector<G::EnumValueType> vs;
			for (auto& v : enumValues()) vs.push_back({ v, "", std::nullopt });
			e->AddEnumValues(std::move(vs));
		}
		else if (t.name == "Any") s->AddType(t.name, G::ScalarType::Make(t.name, ""));
	}
	auto fieldsOf = [&](const Type& t) {
		std::vector<std::shared_ptr<const G::Field>> v;
		for (auto& f : t.fields) v.push_back(G::Field::Make(f.name, "", std::nullopt, typeOf(s, f.type), inputsOf(s, f.args)));
		return v;
	};
	for (auto& t : m.types)
	{
		if (t.kind == 'o')
		{
			std::vector<std::shared_ptr<const G::InterfaceType>> ifs;
			for (auto& i : m.types)
				if (i.kind == 'i' && std::find(i.possible.begin(), i.possible.end(), t.name) != i.possible.end()) ifs.push_back(is[i.name]);
			if (!ifs.empty()) os[t.name]->AddInterfaces(std::move(ifs));
			os[t.name]->AddFields(fieldsOf(t));
		}
		else if (t.kind == 'i') is[t.name]->AddFields(fieldsOf(t));
		else if (t.kind == 'u')
		{
			std::vector<std::weak_ptr<const G::BaseType>> ps;
			for (auto& p : t.possible) ps.push_back(os[p]);
			us[t.name]->AddPossibleTypes(std::move(ps));
		}
		else if (t.kind == 'n')
		{
			std::vector<std::shared_ptr<const G::InputValue>> vs;
			for (auto& f : t.fields) vs.push_back(G::InputValue::Make(f.name, "", typeOf(s, f.type), f.args.empty() ? std::string_view() : std::string_view(f.args[0].def)));
			ns[t.name]->AddInputValues(std::move(vs));
		}
	}
	static const std::map<std::string, DirectiveLocation> where {
		{ "QUERY", DirectiveLocation::QUERY }, { "MUTATION", DirectiveLocation::MUTATION }, { "SUBSCRIPTION", DirectiveLocation::SUBSCRIPTION },
		{ "FIELD", DirectiveLocation::FIELD }, { "FRAGMENT_DEFINITION", DirectiveLocation::FRAGMENT_DEFINITION },
		{ "FRAGMENT_SPREAD", DirectiveLocation::FRAGMENT_SPREAD }, { "INLINE_FRAGMENT", DirectiveLocation::INLINE_FRAGMENT },
	};
	for (auto& d : m.directives)
	{
		std::vector<DirectiveLocation> ls;
		for (auto& w : d.where) ls.push_back(where.at(w));
		s->AddDirective(G::Directive::Make(d.name, "", std::move(ls), inputsOf(s, d.args)));
	}
	if (os.count("Query")) s->AddQueryType(os["Query"]);
	if (os.count("Mutation")) s->AddMutationType(os["Mutation"]);
	if (os.count("Subscription")) s->AddSubscriptionType(os["Subscription"]);
	return s;
}
// ---- documents ------------------------------------------------------------------------------------
struct Val
{
	char kind = 'n'; // i f s b n(ull) e l o v
	std::string text; // as written, or the name of the variable
	std::vector<Val> items;
	std::vector<std::string> keys;
};
struct NamedVal { std::string name; Val value; };
struct Dir { std::string name; std::vector<NamedVal> args; };
struct Sel
{
	char kind = 'f'; // f s i
	std::string alias, name, cond;
	std::vector<NamedVal> args;
	std::vector<Dir> dirs;
	std::vector<Sel> sub;
};
struct Var { std::string name, type; bool hasDef = false; Val def; };
struct Op { std::string type, name; std::vector<Var> vars; std::vector<Dir> dirs; std::vector<Sel> sub; };
struct Frag { std::string name, cond; std::vector<Dir> dirs; std::vector<Sel> sub; };
struct Doc { std::vector<Op> ops; std::vector<Frag> frags; bool fragsFirst = false; };
inline std::string print(const Val& v)
{
	if (v.kind == 'v') return "$" + v.text;
	if (v.kind == 'n') return "null";
	if (v.kind != 'l' && v.kind != 'o') return v.text;
	std::string s(1, v.kind == 'l' ? '[' : '{');
	for (size_t i = 0; i < v.items.size(); i++)
	{
		if (i) s += " ";
		if (v.kind == 'o') s += v.keys[i] + ":";
		s += print(v.items[i]);
	}
	return s + (v.kind == 'l' ? ']' : '}');
}
inline std::string print(const std::vector<NamedVal>& as)
{
	std::string s;
	for (auto& a : as) s += (s.empty() ? "(" : " ") + a.name + ":" + print(a.value);
	return s.empty() ? s : s + ")";
}
inline std::string print(const std::vector<Dir>& ds)
{
	std::string s;
	for (auto& d : ds) s += " @" + d.name + print(d.args);
	return s;
}
inline std::string print(const std::vector<Sel>& sub)
{
	std::string s;
	for (auto& e : sub)
	{
		s += s.empty() ? "{" : " ";
		if (e.kind == 'f') s += (e.alias.empty() ? "" : e.alias + ":") + e.name + print(e.args) + print(e.dirs);
		else if (e.kind == 's') s += "..." + e.name + print(e.dirs);
		else s += "..." + (e.cond.empty() ? "" : "on " + e.cond) + print(e.dirs);
		if (!e.sub.empty()) s += print(e.sub);
	}
	return s.empty() ? s : s + "}";
}
inline std::string print(const Doc& d)
{
	std::string os, fs;
	for (auto& o : d.ops)
	{
		if (!o.type.empty())
		{
			os += o.type + (o.name.empty() ? "" : " " + o.name);
			std::string vs;
			for (auto& v : o.vars) vs += (vs.empty() ? "($" : " $") + v.name + ":" + v.type + (v.hasDef ? "=" + print(v.def) : "");
			if (!vs.empty()) os += vs + ")";
			os += print(o.dirs) + " ";
		}
		os += print(o.sub) + " ";
	}
	for (auto& f : d.frags) fs += "fragment " + f.name + " on " + f.cond + print(f.dirs) + " " + print(f.sub) + " ";
	return d.fragsFirst ? fs + os : os + fs;
}
// ---- the rules ------------------------------------------------------------------------------------
inline bool nonNull(const std::string& t) { return t.back() == '!'; }
inline std::string strip(const std::string& t) { return nonNull(t) ? t.substr(0, t.size() - 1) : t; }
inline bool isList(const std::string& t) { return t[0] == '['; }
inline std::string item(const std::string& t) { return t.substr(1, t.size() - 2); }
inline std::string base(std::string t)
{
	while (true)
	{
		t = strip(t);
		if (!isList(t)) return t;
		t = item(t);
	}
}
inline bool base64(const std::string& s) // strict, of a literal without escapes and with its quotes
{
	size_t n = s.size() - 2;
	for (size_t i = 0; i < n; i++)
	{
		char c = s[i + 1];
		bool ok = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/' || c == '-' || c == '_';
		if (!ok && !(c == '=' && i + 2 >= n && n % 4 == 0 && (i + 1 == n || s[n] == '='))) return false;
	}
	return n % 4 != 1;
}
struct Rules
{
	const Schema& s;
	const Doc& d;
	std::string why; // the first broken rule
	bool bad(const std::string& w)
	{
		if (why.empty()) why = w;
		return false;
	}
	const Frag* frag(const std::string& n) const
	{
		for (auto& f : d.frags) if (f.name == n) return &f;
		return nullptr;
	}
	bool composite(const std::string& t) const
	{
		auto p = s.find(base(t));
		return p && (p->kind == 'o' || p->kind == 'i' || p->kind == 'u');
	}
	bool input(const std::string& t) const
	{
		auto p = s.find(base(t));
		return p && !composite(t);
	}
	const Field* field(const std::string& type, const std::string& name) const
	{
		static const Field tn { "__typename", "String!", {} };
		if (name == "__typename") return &tn;
		auto t = s.find(type);
		if (!t || t->kind == 'u') return nullptr;
		for (auto& f : t->fields) if (f.name == name) return &f;
		return nullptr;
	}
	bool overlap(const std::string& a, const std::string& b) const
	{
		if (a == b) return true;
		auto x = s.find(a), y = s.find(b);
		for (auto& p : x->possible)
			if (std::find(y->possible.begin(), y->possible.end(), p) != y->possible.end()) return true;
		return false;
	}
	// variables of the operation under consideration; null while there is none
	const Op* op = nullptr;
	std::set<std::string> used;
	bool usable(const Var& v, const std::string& type, bool locDefault)
	{
		if (nonNull(type) && !nonNull(v.type))
		{
			if (!(v.hasDef && v.def.kind != 'n') && !locDefault) return false;
			return compatible(v.type, strip(type));
		}
		return compatible(v.type, type);
	}
	static bool compatible(const std::string& v, const std::string& t)
	{
		if (nonNull(t)) return nonNull(v) && compatible(strip(v), strip(t));
		if (nonNull(v)) return compatible(strip(v), t);
		if (isList(t)) return isList(v) && compatible(item(v), item(t));
		return v == t;
	}
	bool variable(const Val& v, const std::string* type, bool locDefault)
	{
		if (!op) return true;
		for (auto& x : op->vars)
			if (x.name == v.text)
			{
				used.insert(v.text);
				return !type || usable(x, *type, locDefault) ? true : bad("variable usage");
			}
		return bad("undefined variable");
	}
	bool anyVariables(const Val& v)
	{
		if (v.kind == 'v') return variable(v, nullptr, false);
		for (auto& i : v.items) if (!anyVariables(i)) return false;
		return true;
	}
	bool value(const Val& v, const std::string& type, bool locDefault)
	{
		if (v.kind == 'v') return variable(v, &type, locDefault);
		if (v.kind == 'n') return nonNull(type) ? bad("null") : true;
		std::string t = strip(type);
		if (isList(t))
		{
			if (v.kind != 'l') return bad("no list");
			for (auto& i : v.items) if (!value(i, item(t), false)) return false;
			return true;
		}
		auto k = s.find(t);
		if (!k) return bad("unknown type");
		if (k->kind == 'n')
		{
			if (v.kind != 'o') return bad("no object");
			for (size_t i = 0; i < v.keys.size(); i++)
			{
				const Field* f = nullptr;
				for (auto& x : k->fields) if (x.name == v.keys[i]) f = &x;
				if (!f) return bad("input field name");
				for (size_t j = 0; j < i; j++) if (v.keys[j] == v.keys[i]) return bad("input field twice");
				if (!value(v.items[i], f->type, !f->args.empty() && !f->args[0].def.empty())) return false;
			}
			for (auto& f : k->fields)
				if (nonNull(f.type) && (f.args.empty() || f.args[0].def.empty()) && std::find(v.keys.begin(), v.keys.end(), f.name) == v.keys.end()) return bad("input field missing");
			return true;
		}
		bool ok = true;
		if (k->kind == 'e') ok = v.kind == 'e' && std::find(enumValues().begin(), enumValues().end(), v.text) != enumValues().end();
		else if (t == "Int") ok = v.kind == 'i';
		else if (t == "Float") ok = v.kind == 'i' || v.kind == 'f';
		else if (t == "String") ok = v.kind == 's';
		else if (t == "Boolean") ok = v.kind == 'b';
		else if (t == "ID") ok = v.kind == 's' && base64(v.text);
		else return anyVariables(v) && uniqueKeys(v);
		return ok ? true : bad("value kind");
	}
	bool uniqueKeys(const Val& v)
	{
		for (size_t i = 0; i < v.keys.size(); i++)
			for (size_t j = 0; j < i; j++) if (v.keys[i] == v.keys[j]) return bad("input field twice");
		for (auto& i : v.items) if (!uniqueKeys(i)) return false;
		return true;
	}
	bool arguments(const std::vector<NamedVal>& given, const std::vector<Arg>& defined)
	{
		for (size_t i = 0; i < given.size(); i++)
		{
			for (size_t j = 0; j < i; j++) if (given[i].name == given[j].name) return bad("argument twice");
			const Arg* a = nullptr;
			for (auto& x : defined) if (x.name == given[i].name) a = &x;
			if (!a) return bad("argument name");
			if (!value(given[i].value, a->type, !a->def.empty())) return false;
		}
		for (auto& a : defined)
		{
			if (!nonNull(a.type) || !a.def.empty()) continue;
			bool there = false;
			for (auto& g : given) there |= g.name == a.name;
			if (!there) return bad("argument missing");
		}
		return true;
	}
	bool directives(const std::vector<Dir>& ds, const std::string& where)
	{
		for (size_t i = 0; i < ds.size(); i++)
		{
			const Directive* x = nullptr;
			for (auto& k : s.directives) if (k.name == ds[i].name) x = &k;
			if (!x) return bad("directive name");
			for (size_t j = 0; j < i; j++) if (ds[j].name == ds[i].name) return bad("directive twice");
			if (std::find(x->where.begin(), x->where.end(), where) == x->where.end()) return bad("directive location");
			if (!arguments(ds[i].args, x->args)) return false;
		}
		return true;
	}
	// selections on a type; `inside` holds the fragments entered (rules on their definitions are checked
	// where they are defined, variables where they are used)
	bool selections(const std::vector<Sel>& sub, const std::string& type, std::vector<std::string> inside)
	{
		for (auto& e : sub)
		{
			if (e.kind == 'f')
			{
				if (!directives(e.dirs, "FIELD")) return false;
				auto f = field(type, e.name);
				if (!f) return bad("field name");
				if (!arguments(e.args, f->args)) return false;
				if (composite(f->type) == e.sub.empty()) return bad("leaf field selections");
				if (!e.sub.empty() && !selections(e.sub, base(f->type), inside)) return false;
			}
			else if (e.kind == 's')
			{
				if (!directives(e.dirs, "FRAGMENT_SPREAD")) return false;
				auto f = frag(e.name);
				if (!f) return bad("undefined fragment");
				if (std::find(inside.begin(), inside.end(), e.name) != inside.end()) return bad("fragment cycle");
				if (!composite(f->cond)) return bad("fragment type");
				if (!overlap(type, f->cond)) return bad("spread not possible");
				auto in = inside;
				in.push_back(e.name);
				if (!selections(f->sub, f->cond, in)) return false;
			}
			else
			{
				if (!directives(e.dirs, "INLINE_FRAGMENT")) return false;
				if (!e.cond.empty())
				{
					if (!composite(e.cond)) return bad("fragment type");
					if (!overlap(type, e.cond)) return bad("spread not possible");
				}
				if (!selections(e.sub, e.cond.empty() ? type : e.cond, inside)) return false;
			}
		}
		return true;
	}
	// field merging (5.3.2)
	struct Item { const Sel* sel; std::string parent; const Field* f; std::string key() const { return sel->alias.empty() ? sel->name : sel->alias; } };
	void collect(const std::vector<Sel>& sub, const std::string& type, std::vector<Item>& out) const
	{
		for (auto& e : sub)
		{
			if (e.kind == 'f') out.push_back({ &e, type, field(type, e.name) });
			else if (e.kind == 's') collect(frag(e.name)->sub, frag(e.name)->cond, out);
			else collect(e.sub, e.cond.empty() ? type : e.cond, out);
		}
	}
	static bool sameValue(const Val& a, const Val& b)
	{
		if (a.kind != b.kind || a.text != b.text || a.items.size() != b.items.size()) return false;
		if (a.kind == 'o')
		{
			for (size_t i = 0; i < a.keys.size(); i++)
			{
				bool found = false;
				for (size_t j = 0; j < b.keys.size(); j++) found |= a.keys[i] == b.keys[j] && sameValue(a.items[i], b.items[j]);
				if (!found) return false;
			}
			return true;
		}
		for (size_t i = 0; i < a.items.size(); i++) if (!sameValue(a.items[i], b.items[i])) return false;
		return true;
	}
	static bool sameArgs(const std::vector<NamedVal>& a, const std::vector<NamedVal>& b)
	{
		if (a.size() != b.size()) return false;
		for (auto& x : a)
		{
			bool found = false;
			for (auto& y : b) found |= x.name == y.name && sameValue(x.value, y.value);
			if (!found) return false;
		}
		return true;
	}
	bool sameShape(const Item& a, const Item& b)
	{
		std::string x = a.f->type, y = b.f->type;
		while (true)
		{
			if (nonNull(x) != nonNull(y)) return false;
			x = strip(x), y = strip(y);
			if (isList(x) != isList(y)) return false;
			if (!isList(x)) break;
			x = item(x), y = item(y);
		}
		if (!composite(x) || !composite(y)) return x == y;
		std::vector<Item> m;
		collect(a.sel->sub, x, m);
		collect(b.sel->sub, y, m);
		for (size_t i = 0; i < m.size(); i++)
			for (size_t j = 0; j < i; j++)
				if (m[i].key() == m[j].key() && !sameShape(m[i], m[j])) return false;
		return true;
	}
	bool canMerge(const std::vector<Item>& m)
	{
		for (size_t i = 0; i < m.size(); i++)
			for (size_t j = 0; j <= i; j++)
			{
				auto &a = m[i], &b = m[j];
				if (i == j)
				{
					std::vector<Item> sub;
					collect(a.sel->sub, base(a.f->type), sub);
					if (!canMerge(sub)) return false;
					continue;
				}
				if (a.key() != b.key()) continue;
				if (!sameShape(a, b)) return false;
				if (a.parent == b.parent || s.find(a.parent)->kind != 'o' || s.find(b.parent)->kind != 'o')
				{
					if (a.sel->name != b.sel->name || !sameArgs(a.sel->args, b.sel->args)) return false;
					std::vector<Item> sub;
					collect(a.sel->sub, base(a.f->type), sub);
					collect(b.sel->sub, base(b.f->type), sub);
					if (!canMerge(sub)) return false;
				}
			}
		return true;
	}
	void spreads(const std::vector<Sel>& sub, std::set<std::string>& out) const
	{
		for (auto& e : sub)
		{
			if (e.kind == 's') out.insert(e.name);
			spreads(e.sub, out);
		}
	}
	bool document()
	{
		std::set<std::string> names, spread;
		for (auto& f : d.frags)
		{
			if (!names.insert(f.name).second) return bad("fragment twice");
			spreads(f.sub, spread);
		}
		for (auto& o : d.ops) spreads(o.sub, spread);
		for (auto& f : d.frags)
		{
			if (!composite(f.cond)) return bad("fragment type");
			if (!directives(f.dirs, "FRAGMENT_DEFINITION")) return false;
			if (!selections(f.sub, f.cond, { f.name })) return false;
			if (!spread.count(f.name)) return bad("unused fragment");
		}
		names.clear();
		for (auto& o : d.ops)
		{
			if (!names.insert(o.name).second) return bad("operation twice");
			if (o.name.empty() && d.ops.size() > 1) return bad("anonymous operation not alone");
		}
		for (auto& o : d.ops)
		{
			std::string root = o.type.empty() || o.type == "query" ? "Query" : o.type == "mutation" ? "Mutation" : "Subscription";
			if (!s.find(root)) return bad("operation type");
			std::set<std::string> vs;
			op = nullptr;
			for (auto& v : o.vars)
			{
				if (!vs.insert(v.name).second) return bad("variable twice");
				if (!input(v.type)) return bad("variable type");
				if (v.hasDef && !value(v.def, v.type, false)) return false;
			}
			op = &o;
			used.clear();
			if (!directives(o.dirs, root == "Query" ? "QUERY" : root == "Mutation" ? "MUTATION" : "SUBSCRIPTION")) return false;
			if (!selections(o.sub, root, {})) return false;
			for (auto& v : o.vars) if (!used.count(v.name)) return bad("unused variable");
			std::vector<Item> m;
			collect(o.sub, root, m);
			if (!canMerge(m)) return bad("conflicting fields");
			if (root == "Subscription")
			{
				std::set<std::string> keys;
				for (auto& i : m) keys.insert(i.key());
				if (keys.size() != 1) return bad("subscription root fields");
			}
		}
		op = nullptr;
		for (auto& f : d.frags)
		{
			std::vector<Item> m;
			collect(f.sub, f.cond, m);
			if (!canMerge(m)) return bad("conflicting fields");
		}
		return true;
	}
};
// ---- comparison with the service ------------------------------------------------------------------
inline bool resolved;
inline S::ResolverMap resolversOf(const Schema& m, const std::string& type)
{
	S::ResolverMap r;
	for (auto& f : m.find(type)->fields)
		r.emplace(f.name, [](S::ResolverParams&& p) {
			resolved = true;
			return S::ObjectResult::convert<S::TypeModifier::Nullable>(std::shared_ptr<S::Object>(), std::move(p));
		});
	return r;
}
inline std::unique_ptr<Svc> service(const Schema& m, const std::shared_ptr<G::Schema>& schema)
{
	S::TypeMap ops;
	for (auto [op, type] : { std::pair { "query", "Query" }, std::pair { "mutation", "Mutation" }, std::pair { "subscription", "Subscription" } })
		if (m.find(type)) ops.emplace(op, std::make_shared<Obj>(S::TypeNames { type }, resolversOf(m, type)));
	return std::make_unique<Svc>(std::move(ops), schema);
}
inline void verdict(const Schema& m, const Doc& d, Svc& svc)
{
	std::string text = print(d);
	sx::note("text", text);
	Rules rules { m, d };
	bool valid = rules.document();
	sx::note("reference", valid ? "valid" : rules.why);
	auto ast = parse(text);
	auto errors = svc.validate(ast);
	std::string got;
	for (auto& e : errors) got += e.message + "; ";
	sx::note("errors", got);
	if (valid)
	{
		sx::check(errors.empty(), "a valid document is rejected");
		sx::cover("valid");
	}
	else
	{
		sx::check(!errors.empty(), "an invalid document is accepted");
		for (auto& e : errors) sx::check(!e.message.empty() && e.location.line >= 1 && e.location.column >= 1, "a validation error has no message or location");
		sx::cover("invalid");
		sx::cover(rules.why.c_str());
		// nothing is executed
		resolved = false;
		bool threw = false;
		try
		{
			auto again = parse(text);
			auto r = run(svc, again, d.ops[0].name, vmap());
			sx::check(r.type() == R::Type::Map && r.find("errors") != r.end() && !r["errors"].get<R::ListType>().empty(), "an invalid document is executed");
		}
		catch (const std::exception&) { threw = true; }
		sx::check(!resolved && !threw, "resolvers run for an invalid document");
	}
}
} // namespace vm
