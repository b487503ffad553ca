// A small GraphQL service for the harnesses: the schema and the objects are built through the
// library's public interface, resolvers are plain functions.
#pragma once
#include "util.h"
#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/GraphQLService.h"
#include "graphqlservice/internal/Schema.h"
#include "graphqlservice/introspection/IntrospectionSchema.h"
#include <memory>
#include <string>
#include <vector>
namespace R = graphql::response;
namespace S = graphql::service;
namespace G = graphql::schema;
namespace P = graphql::peg;
using graphql::introspection::TypeKind;
using graphql::introspection::DirectiveLocation;

// ---- schema -------------------------------------------------------------------------------------
// "[Int!]!" -> wrapped type
inline std::shared_ptr<const G::BaseType> typeOf(const std::shared_ptr<G::Schema>& s, std::string_view t)
{
	if (t.back() == '!') return s->WrapType(TypeKind::NON_NULL, typeOf(s, t.substr(0, t.size() - 1)));
	if (t.front() == '[') return s->WrapType(TypeKind::LIST, typeOf(s, t.substr(1, t.size() - 2)));
	return s->LookupType(t);
}
struct ArgDef { const char* name; const char* type; const char* def = ""; };
struct FieldDef { const char* name; const char* type; std::vector<ArgDef> args = {}; };
inline std::vector<std::shared_ptr<const G::InputValue>> inputs(const std::shared_ptr<G::Schema>& s, const std::vector<ArgDef>& as)
{
	std::vector<std::shared_ptr<const G::InputValue>> v;
	for (auto& a : as) v.push_back(G::InputValue::Make(a.name, "", typeOf(s, a.type), a.def));
	return v;
}
inline std::vector<std::shared_ptr<const G::Field>> fields(const std::shared_ptr<G::Schema>& s, const std::vector<FieldDef>& fs)
{
	std::vector<std::shared_ptr<const G::Field>> v;
	for (auto& f : fs) v.push_back(G::Field::Make(f.name, "", std::nullopt, typeOf(s, f.type), inputs(s, f.args)));
	return v;
}

// ---- service ------------------------------------------------------------------------------------
struct Svc : S::Request
{
	Svc(S::TypeMap&& ops, const std::shared_ptr<G::Schema>& schema) : S::Request(std::move(ops), schema) {}
	virtual ~Svc() = default;
};
struct Obj : S::Object
{
	Obj(S::TypeNames&& names, S::ResolverMap&& r) : S::Object(std::move(names), std::move(r)) {}
};
inline P::ast parse(const std::string& text) { return P::parseString(text); }
// the response document of a request; an exception out of the future is a harness failure the
// caller decides about
inline R::Value run(const Svc& s, P::ast& q, const std::string& op = "", R::Value&& vars = R::Value(R::Type::Map), std::launch l = std::launch::deferred)
{
	return s.resolve(l, nullptr, q, op, std::move(vars)).get();
}

// ---- values -------------------------------------------------------------------------------------
inline R::Value vmap() { return R::Value(R::Type::Map); }
inline R::Value vlist() { return R::Value(R::Type::List); }
inline R::Value vint(int i) { return R::Value(i); }
inline R::Value vstr(std::string s) { return R::Value(std::move(s)); }
inline R::Value venum(std::string s)
{
	R::Value v(R::Type::EnumValue);
	v.set<R::StringType>(std::move(s));
	return v;
}
inline void put(R::Value& m, const std::string& k, R::Value&& v) { m.emplace_back(std::string(k), std::move(v)); }
// structural equality that does not fork on symbolic scalars: members in order
inline bool same(const R::Value& a, const R::Value& b)
{
	if (a.type() != b.type()) return false;
	switch (a.type())
	{
		case R::Type::Map:
		{
			auto& x = a.get<R::MapType>();
			auto& y = b.get<R::MapType>();
			if (x.size() != y.size()) return false;
			bool ok = true;
			for (size_t i = 0; i < x.size(); i++) ok &= sx::eqBytes(x[i].first, y[i].first) & same(x[i].second, y[i].second);
			return ok;
		}
		case R::Type::List:
		{
			auto& x = a.get<R::ListType>();
			auto& y = b.get<R::ListType>();
			if (x.size() != y.size()) return false;
			bool ok = true;
			for (size_t i = 0; i < x.size(); i++) ok &= same(x[i], y[i]);
			return ok;
		}
		case R::Type::String:
		case R::Type::EnumValue: return sx::eqBytes(a.get<R::StringType>(), b.get<R::StringType>());
		case R::Type::Null: return true;
		case R::Type::Boolean: return a.get<bool>() == b.get<bool>();
		case R::Type::Int: return a.get<int>() == b.get<int>();
		case R::Type::Float: return a.get<double>() == b.get<double>();
		case R::Type::Scalar: return same(a.get<R::ScalarType>(), b.get<R::ScalarType>());
	}
	return false;
}
// rendering for notes (symbolic bytes stay symbolic; numbers are rendered only when concrete)
inline std::string show(const R::Value& v)
{
	std::string s;
	switch (v.type())
	{
		case R::Type::Map:
			s = "{";
			for (auto& e : v.get<R::MapType>()) s += e.first + ":" + show(e.second) + " ";
			return s + "}";
		case R::Type::List:
			s = "[";
			for (auto& e : v.get<R::ListType>()) s += show(e) + " ";
			return s + "]";
		case R::Type::String: return "\"" + v.get<R::StringType>() + "\"";
		case R::Type::EnumValue: return v.get<R::StringType>();
		case R::Type::Null: return "null";
		case R::Type::Boolean: return v.get<bool>() ? "true" : "false";
		case R::Type::Int:
		{
			// eight hexadecimal digits, without branching on the value
			uint32_t u = (uint32_t)v.get<int>();
			s = "#";
			for (int i = 28; i >= 0; i -= 4)
			{
				unsigned d = u >> i & 15;
				s += char(d < 10 ? '0' + d : 'a' + d - 10);
			}
			return s;
		}
		case R::Type::Float: return "float";
		case R::Type::Scalar: return "scalar(" + show(v.get<R::ScalarType>()) + ")";
	}
	return "?";
}
