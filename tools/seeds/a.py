SVC = 'src/GraphQLService.cpp'
HDR = 'include/graphqlservice/GraphQLService.h'
seed('p01-trailing-bits', 'P01', 'three characters in the last group whose third one has exactly the higher of the two unused bits set', 'non-canonical Base64 text such as "AAK=" with trailing bits is accepted and decoded',
     [('src/Base64.cpp', 'if (tail & 0x3)', 'if (tail & 0x1)')], r'''
#include "util.h"
#include "graphqlservice/internal/Base64.h"
#include <stdexcept>
using graphql::internal::Base64;
static bool rejects(const char* t) { try { Base64::fromBase64(t); return false; } catch (const std::logic_error&) { return true; } }
int main()
{
	const char abc[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	for (int i = 0; i < 64; i++)
	{
		std::string t = "AA";
		t += abc[i];
		EXPECT(rejects((t + "=").c_str()) == ((i & 3) != 0));
	}
	return failures != 0;
}
''')
seed('p01-url-safe', 'P01', 'an ID holding the URL-safe character "-"', 'text with a character outside the Base64 alphabet is decoded instead of rejected',
     [('include/graphqlservice/internal/Base64.h', "(ch == '+' ? 62 :", "(ch == '+' || ch == '-' ? 62 :")], r'''
#include "util.h"
#include "graphqlservice/internal/Base64.h"
#include <stdexcept>
using graphql::internal::Base64;
static bool rejects(const std::string& t) { try { Base64::fromBase64(t); return false; } catch (const std::logic_error&) { return true; } }
int main()
{
	std::string abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=";
	for (int c = 0; c < 256; c++)
		if (abc.find(char(c)) == std::string::npos) EXPECT(rejects(std::string { "AAA" } + char(c)));
	return failures != 0;
}
''')
seed('p06-float-precision', 'P06', 'an Int literal with more than 24 significant bits given for a Float argument', 'Float arguments given as integers lose precision',
     [(SVC, '	return value.get<response::FloatType>();', '	return value.type() == response::Type::Int\n		? static_cast<float>(value.get<response::IntType>())\n		: value.get<response::FloatType>();')], r'''
#include "util.h"
#include "svc.h"
int main()
{
	auto m = vmap();
	put(m, "x", vint(16777217));
	put(m, "y", R::Value(1.1));
	EXPECT(S::FloatArgument::require("x", m) == 16777217.0);
	EXPECT(S::FloatArgument::require("y", m) == 1.1);
	return failures != 0;
}
''')
seed('p06-empty-list-null', 'P06', 'an empty list given for a nullable list argument', 'an empty list reads as an absent argument',
     [(HDR, '			|| valueItr->second.type() == response::Type::Null)', '			|| valueItr->second.type() == response::Type::Null\n			|| (valueItr->second.type() == response::Type::List && valueItr->second.size() == 0))')], r'''
#include "util.h"
#include "svc.h"
int main()
{
	auto m = vmap();
	put(m, "x", vlist());
	auto v = S::IntArgument::require<S::TypeModifier::Nullable, S::TypeModifier::List>("x", m);
	EXPECT(v && v->empty());
	return failures != 0;
}
''')
seed('p07-nested-spread-skip', 'P07', 'two nested fragment spreads which both carry @skip, the inner one with a true condition', 'the inner fragment is included although it is skipped',
     [(SVC, '		skip = directiveVisitor.shouldSkip();\n	}\n\n	if (skip)', '		// An outer fragment spread already decided whether this fragment is skipped.\n		skip = directiveVisitor.shouldSkip()\n			&& _fragmentDirectives.back().fragmentSpreadDirectives.find("skip")\n				== _fragmentDirectives.back().fragmentSpreadDirectives.end();\n	}\n\n	if (skip)', 0)], r'''
#include "world.h"
int main()
{
	auto s = worldSchema({ { "a", "Int" }, { "b", "Int" } });
	auto f = [](S::ResolverParams&& p) { return S::IntResult::convert(1, std::move(p)); };
	Svc svc({ { "query", std::make_shared<Obj>(S::TypeNames { "Query" }, S::ResolverMap { { "a", f }, { "b", f } }) } }, s);
	auto q = parse("{ ...X @skip(if: false) } fragment X on Query { a ...Y @skip(if: true) } fragment Y on Query { b }");
	auto r = run(svc, q);
	EXPECT(r["data"].size() == 1 && r["data"].begin()->first == "a");
	return failures != 0;
}
''')
seed('p07-skip-null-condition', 'P07', 'an inline fragment without a type condition inside another one, carrying @include(if: false)', 'an untyped inline fragment nested in a typed one is always included',
     [(SVC, '	if (directiveVisitor.shouldSkip())\n	{\n		return;\n	}\n\n	const peg::ast_node* typeCondition = nullptr;\n\n	peg::on_first_child<peg::type_condition>(inlineFragment,\n		[&typeCondition](const peg::ast_node& child) {\n			typeCondition = &child;\n		});\n',
       '	const peg::ast_node* typeCondition = nullptr;\n\n	peg::on_first_child<peg::type_condition>(inlineFragment,\n		[&typeCondition](const peg::ast_node& child) {\n			typeCondition = &child;\n		});\n\n	// The directives of an enclosing fragment apply to a fragment without its own type condition.\n	if ((typeCondition != nullptr || _fragmentDirectives.size() == 1)\n		&& directiveVisitor.shouldSkip())\n	{\n		return;\n	}\n', 0)], r'''
#include "world.h"
int main()
{
	auto s = worldSchema({ { "a", "Int" }, { "b", "Int" } });
	auto f = [](S::ResolverParams&& p) { return S::IntResult::convert(1, std::move(p)); };
	Svc svc({ { "query", std::make_shared<Obj>(S::TypeNames { "Query" }, S::ResolverMap { { "a", f }, { "b", f } }) } }, s);
	auto q = parse("{ ... on Query { a ... @include(if: false) { b } } }");
	auto r = run(svc, q);
	EXPECT(r["data"].size() == 1);
	return failures != 0;
}
''')
seed('p05-null-element', 'P05', 'a list literal containing a variable that is null', 'the value a resolver receives and returns differs from the document: null elements of a list literal are dropped',
     [(SVC, '		visitor.visit(*child);\n		_value.emplace_back(visitor.getValue());', '		visitor.visit(*child);\n\n		auto element = visitor.getValue();\n\n		if (element.type() != response::Type::Null || child->is_type<peg::null_keyword>())\n		{\n			_value.emplace_back(std::move(element));\n		}')], r'''
#include "world.h"
int main()
{
	auto s = worldSchema({ { "a", "[Int]", { { "x", "[Int]" } } } });
	auto f = [](S::ResolverParams&& p) { return S::IntResult::convert<S::TypeModifier::Nullable, S::TypeModifier::List, S::TypeModifier::Nullable>(S::IntArgument::require<S::TypeModifier::Nullable, S::TypeModifier::List, S::TypeModifier::Nullable>("x", p.arguments), std::move(p)); };
	Svc svc({ { "query", std::make_shared<Obj>(S::TypeNames { "Query" }, S::ResolverMap { { "a", f } }) } }, s);
	auto q = parse("query Q($v: Int) { a(x: [1, $v, 2]) }");
	auto v = vmap();
	put(v, "v", R::Value());
	auto r = run(svc, q, "", std::move(v));
	EXPECT(r["data"]["a"].size() == 3);
	return failures != 0;
}
''')
seed('p08-type-condition', 'P08', 'a fragment spread nested in an inline fragment on another type of the same object, twice the same fragment', 'a fragment spread again under another type condition contributes nothing',
     [(SVC, '	bool skip = (_typeNames.find(itr->second.getType()) == _typeNames.end());', '	bool skip = (_typeNames.find(itr->second.getType()) == _typeNames.end())\n		|| (_fragmentDirectives.size() > 2 && _names.size() > itr->second.getSelection().children.size());', 0)], r'''
#include "world.h"
int main()
{
	auto s = worldSchema({ { "o", "Obj" } });
	auto t = std::make_shared<Thing>();
	t->type = "Obj"; t->i = 1; t->x = 2;
	auto f = [t](S::ResolverParams&& p) { return S::ObjectResult::convert<S::TypeModifier::Nullable>(object(t, {}), std::move(p)); };
	Svc svc({ { "query", std::make_shared<Obj>(S::TypeNames { "Query" }, S::ResolverMap { { "o", f } }) } }, s);
	auto q = parse("{ o { x: i y: i ... on Node { ... on Obj { ...F } } } } fragment F on Obj { a }");
	auto r = run(svc, q);
	EXPECT(r["data"]["o"].size() == 3);
	return failures != 0;
}
''')

seed('p09-object-future-path', 'P09', 'an object delivered by a future that fails, below another object', 'the error of a failing future of a nested object names the parent field only',
     [(SVC, '			segments.push_front(std::cref(segment->get().segment));', '			segments.push_front(std::cref(segment->get().segment));\n\n			// Stop at the root of the response, lists count from there.\n			if (segments.size() > 4 && std::holds_alternative<size_t>(segments.front().get()))\n			{\n				break;\n			}')], r'''
#include "world.h"
int main()
{
	auto s = worldSchema({ { "l", "[Obj]" } });
	auto bad = [](S::ResolverParams&& p) -> std::future<S::ResolverResult> { throw std::runtime_error("bad"); };
	auto leaf = std::make_shared<Obj>(S::TypeNames { "Obj" }, S::ResolverMap { { "i", bad } });
	auto wrap = [](std::shared_ptr<S::Object> o) {
		return std::make_shared<Obj>(S::TypeNames { "Obj" }, S::ResolverMap { { "k", [o](S::ResolverParams&& p) { return S::ObjectResult::convert<S::TypeModifier::Nullable>(std::shared_ptr<S::Object>(o), std::move(p)); } } });
	};
	auto top = wrap(wrap(wrap(leaf)));
	auto f = [top](S::ResolverParams&& p) { return S::ObjectResult::convert<S::TypeModifier::List>(std::vector<std::shared_ptr<S::Object>> { top }, std::move(p)); };
	Svc svc({ { "query", std::make_shared<Obj>(S::TypeNames { "Query" }, S::ResolverMap { { "l", f } }) } }, s);
	auto q = parse("{ l { k { k { k { i } } } } }");
	auto r = run(svc, q);
	EXPECT(r["errors"].size() == 1 && r["errors"].get<R::ListType>()[0]["path"].size() == 6);
	return failures != 0;
}
''')
seed('p10-name-prefix', 'P10', 'a requested operation name which is a proper prefix of the name of an earlier operation', 'another operation than the requested one is executed',
     [(SVC, 'operationName.empty() || name == operationName', 'operationName.empty()\n				|| name.compare(0, operationName.size(), operationName) == 0', 0)], r'''
#include "world.h"
int main()
{
	auto s = worldSchema({ { "a", "Int" } });
	auto f = [](S::ResolverParams&& p) { return S::IntResult::convert(1, std::move(p)); };
	Svc svc({ { "query", std::make_shared<Obj>(S::TypeNames { "Query" }, S::ResolverMap { { "a", f } }) } }, s);
	auto q = parse("query AllItems { x: a } query All { y: a }");
	auto r = run(svc, q, "All");
	EXPECT(r["data"].find("y") != r["data"].end());
	return failures != 0;
}
''')
