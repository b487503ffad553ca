// P10: the requested operation, and only it, is executed.
// "doc:N" documents of N operations of any type, with symbolic names of one or two letters, own
// variables and defaults; the requested name is symbolic too.
// "one" single-operation documents, named or not, requested with the empty name.
#include "world.h"
static std::vector<std::pair<std::string, int>> calls; // path, x
static S::Resolver f(const char* root)
{
	return [root](S::ResolverParams&& p) {
		auto x = S::IntArgument::require<S::TypeModifier::Nullable>("x", p.arguments);
		calls.push_back({ root + pathOf(p), x ? *x : -7 });
		return S::IntResult::convert(x ? *x : -7, std::move(p));
	};
}
struct Op { unsigned type; std::string name; bool var; int def; bool frag; };
static const char* types[] = { "query", "mutation", "subscription" };
extern "C" void harness_main()
{
	auto arg = argOf();
	bool one = arg.name == "one";
	std::vector<FieldDef> q { { "f", "Int", { { "x", "Int" } } } };
	// the service: with a mutation object, without one (missing or null), or a schema without mutations
	unsigned mut = sx::choose("mutation", 4);
	auto schema = worldSchema(q, mut == 3 ? std::vector<FieldDef> {} : q);
	auto sub = G::ObjectType::Make("Subscription", "");
	schema->AddType("Subscription", sub);
	sub->AddFields(fields(schema, q));
	schema->AddSubscriptionType(sub);
	S::TypeMap ops;
	auto root = [](const char* n, const char* tag) { return std::make_shared<Obj>(S::TypeNames { n }, S::ResolverMap { { "f", f(tag) } }); };
	ops.emplace("query", root("Query", "q"));
	if (mut == 0) ops.emplace("mutation", root("Mutation", "m"));
	if (mut == 1) ops.emplace("mutation", nullptr);
	ops.emplace("subscription", root("Subscription", "s"));
	Svc svc(std::move(ops), schema);

	unsigned n = one ? 1 : arg.n;
	std::vector<Op> o;
	std::string text;
	bool frag[3] = {};
	for (unsigned i = 0; i < n; i++)
	{
		std::string p = "o" + sx::num(i);
		Op op { sx::choose(p + "t", 3), "", sx::choose(p + "v", 2) != 0, int(i) + 1, one ? false : i == 0 && sx::choose(p + "f", 2) };
		sx::assume(mut != 3 || op.type != 1);
		unsigned len = one ? sx::choose(p + "l", 2) : 1 + (i == 1 ? sx::choose(p + "l", 2) : 0);
		for (unsigned k = 0; k < len; k++) op.name += sx::oneOf(p + "n" + sx::num(k), "AB_");
		for (auto& x : o) sx::assume(!sx::eqBytes(x.name, op.name));
		text += types[op.type];
		if (len) text += " " + op.name;
		if (op.var) text += "($v: Int = " + sx::num(op.def) + ")";
		std::string field = "k" + sx::num(i) + ": f(x: " + (op.var ? "$v" : sx::num(op.def + 20)) + ")";
		if (op.frag)
		{
			text += " { ...F" + sx::num(op.type) + " }\n";
			frag[op.type] = true;
			const char* t[] = { "Query", "Mutation", "Subscription" };
			text += "fragment F" + sx::num(op.type) + " on " + t[op.type] + " { " + field + " }\n";
		}
		else text += " { " + field + " }\n";
		o.push_back(op);
	}
	std::string name;
	if (!one)
		for (unsigned k = 0, l = 1 + sx::choose("rl", 2); k < l; k++) name += sx::oneOf("rn" + sx::num(k), "AB_");
	sx::note("text", text);
	sx::note("name", name);
	auto vars = vmap();
	unsigned given = sx::choose("given", 3);
	int v = sx::i32("v");
	sx::assume(v != -7);
	if (given == 1) put(vars, "v", vint(v));
	if (given == 2) put(vars, "v", R::Value());
	auto ast = parse(text);
	R::Value r;
	bool old = sx::choose("api", 2) != 0;
	if (old) r = svc.resolve(nullptr, *ast.root, name, std::move(vars)).get();
	else r = run(svc, ast, name, std::move(vars));
	sx::note("r", show(r));
	const Op* sel = nullptr;
	unsigned idx = 0;
	for (unsigned i = 0; i < n; i++)
		if (one || sx::eqBytes(o[i].name, name)) { sel = &o[i]; idx = i; break; }
	bool supported = sel && (sel->type == 0 || (sel->type == 1 && mut == 0));
	if (!supported)
	{
		sx::check(calls.empty(), "a request that selects no supported operation calls a resolver");
		sx::check(r["data"].type() == R::Type::Null, "a request that selects no supported operation gives data");
		sx::check(r.find("errors") != r.end() && r["errors"].size() > 0, "a request that selects no supported operation gives no error");
		sx::cover(sel ? "unsupported" : "unknown");
		return;
	}
	int x = sel->var ? (given == 1 ? v : given == 2 ? -7 : sel->def) : sel->def + 20;
	auto e = vmap();
	auto data = vmap();
	std::string key = "k" + sx::num(idx);
	put(data, key, vint(x));
	put(e, "data", std::move(data));
	sx::check(calls.size() == 1, "other resolvers are called than those of the requested operation");
	sx::check(calls[0].first == (sel->type ? "m/" : "q/") + key, "other resolvers are called than those of the requested operation");
	sx::check(calls[0].second == x, "an operation is executed with other variables than its own");
	sx::check(same(r, e), "the response is not that of the requested operation");
	sx::cover("executed");
}
