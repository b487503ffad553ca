// The schema most execution harnesses share, and reference evaluation of selections against it.
#pragma once
#include "qm.h"
#include <optional>
// interface Node { i: Int  k: Node }
// type Obj implements Node { i k a: Int }   type Other implements Node { i k b: Int }
// union U = Obj | Other
inline std::shared_ptr<G::Schema> worldSchema(const std::vector<FieldDef>& query, const std::vector<FieldDef>& mutation = {})
{
	auto s = std::make_shared<G::Schema>(false);
	graphql::introspection::AddTypesToSchema(s);
	auto q = G::ObjectType::Make("Query", "");
	auto o = G::ObjectType::Make("Obj", "");
	auto p = G::ObjectType::Make("Other", "");
	auto n = G::InterfaceType::Make("Node", "");
	auto u = G::UnionType::Make("U", "");
	auto e = G::EnumType::Make("En", "");
	auto sc = G::ScalarType::Make("Any", "");
	auto in = G::InputObjectType::Make("In", "");
	auto m = mutation.empty() ? nullptr : G::ObjectType::Make("Mutation", "");
	s->AddType("Query", q);
	s->AddType("Obj", o);
	s->AddType("Other", p);
	s->AddType("Node", n);
	s->AddType("U", u);
	s->AddType("En", e);
	s->AddType("Any", sc);
	s->AddType("In", in);
	if (m) s->AddType("Mutation", m);
	e->AddEnumValues({ { "RED", "", std::nullopt }, { "BLUE", "", std::nullopt } });
	in->AddInputValues(inputs(s, { { "x", "Int!" }, { "y", "[Int]" }, { "z", "In" } }));
	n->AddFields(fields(s, { { "i", "Int" }, { "k", "Node" } }));
	o->AddInterfaces({ n });
	o->AddFields(fields(s, { { "i", "Int" }, { "k", "Node" }, { "a", "Int" } }));
	p->AddInterfaces({ n });
	p->AddFields(fields(s, { { "i", "Int" }, { "k", "Node" }, { "b", "Int" } }));
	u->AddPossibleTypes({ o, p });
	q->AddFields(fields(s, query));
	s->AddQueryType(q);
	if (m)
	{
		m->AddFields(fields(s, mutation));
		s->AddMutationType(m);
	}
	return s;
}
inline bool isType(const std::string& o, const std::string& c)
{
	if (o == c) return true;
	return (o == "Obj" || o == "Other") && (c == "Node" || c == "U");
}
// an object of the world and the values its fields resolve to
struct Thing;
using ThingP = std::shared_ptr<Thing>;
struct Thing
{
	std::string type; // Obj or Other
	int i = 0, x = 0; // field i; field a (Obj) or b (Other)
	ThingP k;
};
using Log = std::function<void(const std::string& path)>;
inline std::string pathOf(const S::ResolverParams& p)
{
	std::string path;
	for (auto& seg : S::buildErrorPath(p.errorPath))
	{
		if (std::holds_alternative<std::string_view>(seg)) path += "/" + std::string(std::get<std::string_view>(seg));
		else path += "/" + sx::num((unsigned)std::get<size_t>(seg));
	}
	return path;
}
inline std::shared_ptr<S::Object> object(const ThingP& t, const Log& log)
{
	if (!t) return nullptr;
	auto leaf = [log](int v) {
		return [v, log](S::ResolverParams&& p) {
			if (log) log(pathOf(p));
			return S::IntResult::convert(v, std::move(p));
		};
	};
	std::string name = t->type;
	S::ResolverMap r {
		{ "i", leaf(t->i) },
		{ "k", [t, log](S::ResolverParams&& p) {
			 if (log) log(pathOf(p));
			 return S::ObjectResult::convert<S::TypeModifier::Nullable>(object(t->k, log), std::move(p));
		 } },
		{ "__typename", [name](S::ResolverParams&& p) { return S::StringResult::convert(std::string(name), std::move(p)); } },
	};
	if (name == "Obj") r.emplace("a", leaf(t->x));
	else r.emplace("b", leaf(t->x));
	return std::make_shared<Obj>(name == "Obj" ? S::TypeNames { "Node", "Obj", "U" } : S::TypeNames { "Node", "Other", "U" }, std::move(r));
}
// what the specification says a selection set on a Thing gives; `merge` false stops at the first
// occurrence of a response name
inline R::Value expectThing(const Doc& d, const ThingP& t, const std::vector<const std::vector<Sel>*>& sets, bool merge = true)
{
	if (!t) return R::Value();
	std::vector<Group> g;
	for (auto s : sets) collect(d, t->type, *s, isType, g);
	auto v = vmap();
	for (auto& e : g)
	{
		const Sel& f = *e.fields[0];
		if (f.name == "__typename") put(v, e.key, vstr(t->type));
		else if (f.name == "i") put(v, e.key, vint(t->i));
		else if (f.name == "a" || f.name == "b") put(v, e.key, vint(t->x));
		else
		{
			std::vector<const std::vector<Sel>*> subs;
			for (auto x : e.fields)
				if (merge || subs.empty()) subs.push_back(&x->sub);
			put(v, e.key, expectThing(d, t->k, subs, merge));
		}
	}
	return v;
}
