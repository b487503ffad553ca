// P07: @skip and @include. "items:N" N selections at the root, each any of: field, aliased field, object with
// a nested selection, fragment spread, inline fragments; each with no, one or both directives in
// either order on conditions that are variables. "lit:N" the same with literal conditions too.
// "nest:N" N fragments, inline fragments or object fields inside each other, each with its own conditions.
#include "qm.h"
static std::vector<std::string> calls;
static bool V[2];
static std::vector<Dir> dirs(const std::string& p, bool lits)
{
	unsigned pat = sx::choose(p + "d", 5);
	std::vector<Dir> r;
	auto one = [&](const char* name, const std::string& q) {
		unsigned c = sx::choose(q, lits ? 4 : 2);
		if (c == 0) return Dir { name, "$v", V[0] };
		if (c == 1) return Dir { name, "$w", V[1] };
		return Dir { name, c == 2 ? "true" : "false", c == 2 };
	};
	if (pat == 1 || pat == 3) r.push_back(one("skip", p + "s"));
	if (pat == 2 || pat == 3 || pat == 4) r.push_back(one("include", p + "i"));
	if (pat == 4) r.push_back(one("skip", p + "s"));
	return r;
}
static Sel item(const std::string& p, bool lits, unsigned kinds)
{
	Sel s;
	switch (sx::choose(p + "k", kinds))
	{
		case 0: s = fld("a"); break;
		case 1: s = fld("a", "x"); break;
		case 2: s = spr("F"); break;
		case 3: s = inl("", { fld("b") }); break;
		case 4: s = inl("Query", { fld("a") }); break;
		case 5: s = fld("o", "", { fld("a"), fld("a", "n") }); s.sub[0].dirs = dirs(p + "n", false); break;
		default: s = fld("o", "", { inl("Obj", { fld("a", "m") }), fld("a") }); s.sub[0].dirs = dirs(p + "n", false); break;
	}
	s.dirs = dirs(p, lits);
	return s;
}
// level i of the nest and what is inside
static Sel level(Doc& d, unsigned i, unsigned n, bool obj)
{
	std::string p = "n" + sx::num(i);
	std::string type = obj ? "Obj" : "Query";
	unsigned kind = sx::choose(p + "k", obj ? 3 : 4);
	std::vector<Dir> ds;
	auto dir = [&](const char* name, const std::string& q) {
		bool v = sx::choose(q, 2) != 0;
		ds.push_back({ name, v ? "true" : "false", v });
	};
	unsigned c = sx::choose(p + "d", 3);
	if (c == 1) dir("skip", p + "s");
	if (c == 2) dir("include", p + "i");
	std::vector<Sel> sub { fld("a", "l" + sx::num(i)) };
	if (i + 1 < n) sub.push_back(level(d, i + 1, n, obj || kind == 3));
	sub.push_back(fld("a", "m" + sx::num(i)));
	Sel s;
	if (kind == 0)
	{
		s = spr("N" + sx::num(i));
		d.frags.push_back({ s.name, type, std::move(sub) });
	}
	else if (kind == 1) s = inl(type, std::move(sub));
	else if (kind == 2) s = inl("", std::move(sub));
	else s = fld("o", "", std::move(sub));
	s.dirs = ds;
	return s;
}
static R::Value expectSet(const Doc& d, const std::string& type, const std::vector<Sel>& set, const std::string& at, std::vector<std::string>& want)
{
	std::vector<Group> g;
	collect(d, type, set, [](const std::string& o, const std::string& c) { return o == c; }, g);
	auto v = vmap();
	for (auto& e : g)
	{
		std::string path = at + "/" + e.key;
		want.push_back(path);
		const Sel& f = *e.fields[0];
		if (f.sub.empty()) put(v, e.key, vint(f.name == "a" ? 7 : 9));
		else put(v, e.key, expectSet(d, "Obj", f.sub, path, want));
	}
	return v;
}
extern "C" void harness_main()
{
	auto arg = argOf();
	bool lits = arg.name == "lit";
	auto s = std::make_shared<G::Schema>(false);
	graphql::introspection::AddTypesToSchema(s);
	auto q = G::ObjectType::Make("Query", "");
	auto o = G::ObjectType::Make("Obj", "");
	s->AddType("Query", q);
	s->AddType("Obj", o);
	q->AddFields(fields(s, { { "a", "Int" }, { "b", "Int" }, { "o", "Obj" } }));
	o->AddFields(fields(s, { { "a", "Int" } }));
	s->AddQueryType(q);
	auto leaf = [](int v) {
		return [v](S::ResolverParams&& p) {
			std::string path;
			for (auto& seg : S::buildErrorPath(p.errorPath)) path += "/" + std::string(std::get<std::string_view>(seg));
			calls.push_back(path);
			return S::IntResult::convert(v, std::move(p));
		};
	};
	auto oo = std::make_shared<Obj>(S::TypeNames { "Obj" }, S::ResolverMap { { "a", leaf(7) } });
	auto qo = std::make_shared<Obj>(S::TypeNames { "Query" },
		S::ResolverMap { { "a", leaf(7) }, { "b", leaf(9) }, { "o", [oo](S::ResolverParams&& p) {
			calls.push_back("/" + p.fieldName);
			return S::ObjectResult::convert(std::static_pointer_cast<S::Object>(oo), std::move(p));
		} } });
	Svc svc({ { "query", qo } }, s);
	V[0] = sx::boolean("v");
	V[1] = sx::boolean("w");
	Doc d;
	d.head = "query Q($v: Boolean!, $w: Boolean!)";
	// the variables are always used
	d.root.push_back(fld("b", "z"));
	d.root[0].dirs = { { "skip", "$v", V[0] }, { "include", "$w", V[1] } };
	bool nest = arg.name == "nest";
	if (nest)
	{
		d.root.push_back(level(d, 0, arg.n, false));
		d.root.push_back(fld("a"));
	}
	else for (unsigned i = 0; i < arg.n; i++) d.root.push_back(item("i" + sx::num(i), lits, 7));
	unsigned frag = nest ? 0 : sx::choose("frag", 2);
	if (!nest) d.frags.push_back({ "F", "Query", { frag ? fld("a", "x") : fld("a"), fld("b") } });
	bool used = false;
	for (auto& x : d.root) used |= x.kind == Sel::Spread;
	if (!used && !nest)
	{
		sx::assume(!frag);
		d.frags.clear();
	}
	// one object field only: merging of sub-selections is P08's subject
	unsigned objs = 0;
	for (auto& x : d.root) objs += x.name == "o";
	sx::assume(objs < 2);
	std::string text = d.text();
	sx::note("text", text);
	auto ast = parse(text);
	auto vars = vmap();
	put(vars, "v", R::Value(V[0]));
	put(vars, "w", R::Value(V[1]));
	auto r = run(svc, ast, "", std::move(vars));
	sx::note("r", show(r));
	std::vector<std::string> want;
	auto e = vmap();
	put(e, "data", expectSet(d, "Query", d.root, "", want));
	sx::check(r.find("errors") == r.end(), "a valid request reports errors");
	auto& data = r["data"].get<R::MapType>();
	auto& exp = e["data"].get<R::MapType>();
	for (auto& m : exp)
		sx::check(r["data"].find(m.first) != r["data"].end(), "a selection that is not left out is missing from the response");
	for (auto& m : data)
		sx::check(e["data"].find(m.first) != e["data"].end(), "a selection that is left out adds a key");
	sx::check(same(r, e), "the response is not that of the selections that apply");
	sx::check(calls.size() == want.size(), "resolvers called for other selections than those that apply");
	for (size_t i = 0; i < want.size() && i < calls.size(); i++) sx::check(calls[i] == want[i], "resolvers called for other selections than those that apply");
	for (auto& x : d.root) sx::cover(included(x) ? "included" : "left out");
}
