// P08: the response has the shape of the selection set.
// "root:N" N root selections with aliases, arguments, spreads and inline fragments.
// "nest:N" N selections on interface, union and list fields whose objects' types are chosen.
// "deep:N" N fragments inside each other on an object.
// "val:N"  one leaf field of every kind, with nulls and lists of length 0..N.
#include "world.h"
using TM = S::TypeModifier;
static int symInt(const std::string& n) { return sx::i32(n); }
// ---- root ---------------------------------------------------------------------------------------
static void root(unsigned n)
{
	auto schema = worldSchema({ { "a", "Int" }, { "f", "Int", { { "x", "Int" } } } });
	int va = symInt("va"), vf[3] = { symInt("f1"), symInt("f2"), symInt("f3") };
	unsigned calls = 0;
	auto qo = std::make_shared<Obj>(S::TypeNames { "Query" },
		S::ResolverMap { { "a", [&](S::ResolverParams&& p) { calls++; return S::IntResult::convert(int(va), std::move(p)); } },
			{ "f", [&](S::ResolverParams&& p) {
				calls++;
				int x = S::IntArgument::require("x", p.arguments);
				return S::IntResult::convert(int(vf[x == 1 ? 0 : x == 2 ? 1 : 2]), std::move(p));
			} },
			{ "__typename", [](S::ResolverParams&& p) { return S::StringResult::convert(std::string("Query"), std::move(p)); } } });
	Svc svc({ { "query", qo } }, schema);
	Doc d;
	unsigned frag = sx::choose("frag", 3);
	d.frags.push_back({ "F", "Query", {} });
	auto& fr = d.frags[0].sub;
	auto fx = [](const char* alias, const char* arg) { auto s = fld("f", alias); s.args = std::string("(x: ") + arg + ")"; return s; };
	if (frag == 0) fr = { fld("a"), fx("p", "1") };
	else if (frag == 1) fr = { fx("q", "2"), inl("Query", { fld("a", "z") }), fld("a") };
	else fr = { fx("f", "3") };
	bool spread = false;
	for (unsigned i = 0; i < n; i++)
	{
		std::string q = "s" + sx::num(i);
		Sel s;
		switch (sx::choose(q, 9))
		{
			case 0: s = fld("a"); break;
			case 1: s = fld("a", std::string(1, sx::oneOf(q + "x", "uz"))); break;
			case 2: s = fx("p", "1"); break;
			case 3: s = fx("q", "2"); break;
			case 4: s = fx("f", "3"); break;
			case 5: s = spr("F"); spread = true; break;
			case 6: s = inl("", { fld("a", "z"), fld("a") }); break;
			case 7: s = inl("Query", { fx("q", "2"), fld("a") }); break;
			default: s = fld("__typename", sx::choose(q + "t", 2) ? "t" : ""); break;
		}
		d.root.push_back(std::move(s));
	}
	if (!spread)
	{
		sx::assume(frag == 0);
		d.frags.clear();
	}
	std::string text = d.text();
	sx::note("text", text);
	auto ast = parse(text);
	auto r = run(svc, ast);
	sx::note("r", show(r));
	std::vector<Group> g;
	collect(d, "Query", d.root, isType, g);
	auto e = vmap();
	unsigned want = 0;
	for (auto& x : g)
	{
		const Sel& f = *x.fields[0];
		if (f.name == "__typename") { put(e, x.key, vstr("Query")); continue; }
		want++;
		put(e, x.key, vint(f.name == "a" ? va : vf[f.args[4] - '1']));
	}
	sx::check(r.find("errors") == r.end(), "a valid request reports errors");
	sx::check(same(r["data"], e), "the response is not that of the selection set");
	sx::check(calls == want, "a selected resolver is not called exactly once");
	sx::cover("root");
}
// ---- nest ---------------------------------------------------------------------------------------
static ThingP thing(const std::string& p, bool nullable, bool deep)
{
	unsigned c = sx::choose(p + "t", nullable ? 3 : 2);
	if (c == 2) return nullptr;
	auto t = std::make_shared<Thing>();
	t->type = c ? "Other" : "Obj";
	t->i = symInt(p + "i");
	t->x = symInt(p + "x");
	if (deep) t->k = thing(p + "k", true, false);
	return t;
}
static Sel nested(const std::string& q, bool isUnion)
{
	switch (sx::choose(q, isUnion ? 6 : 10))
	{
		case 0: return fld("__typename", sx::choose(q + "t", 2) ? "t" : "");
		case 1: return inl("Obj", { fld("a", std::string(1, sx::oneOf(q + "x", "cy"))), fld("i") });
		case 2: return inl("Other", { fld("b", "b") });
		case 3: return inl("Node", { fld("i", "j"), inl("Obj", { fld("a", "w") }) });
		case 4: return spr("FN");
		case 5: return spr("FO");
		case 6: return fld("i");
		case 7: return inl("", { fld("i", "j"), inl("U", { fld("__typename") }) });
		case 8: return fld("k", "", { inl("Other", { fld("b") }), fld("i", "j") });
		default: return fld("k", "", { fld("i"), fld("__typename") });
	}
}
static void nest(unsigned n)
{
	auto schema = worldSchema({ { "n", "Node" }, { "u", "U" }, { "l", "[Node]" }, { "ll", "[[U]]" } });
	unsigned which = sx::choose("field", 4);
	std::vector<ThingP> things;
	unsigned count = which < 2 ? 1 : which == 2 ? sx::choose("len", 3) : 1;
	for (unsigned i = 0; i < count; i++) things.push_back(thing("o" + sx::num(i), which != 2 || i, i == 0));
	using Ptr = std::shared_ptr<S::Object>;
	auto one = [&](S::ResolverParams&& p) { return S::ObjectResult::convert<TM::Nullable>(object(things[0], {}), std::move(p)); };
	auto qo = std::make_shared<Obj>(S::TypeNames { "Query" },
		S::ResolverMap { { "n", one }, { "u", one },
			{ "l", [&](S::ResolverParams&& p) {
				std::vector<Ptr> v;
				for (auto& t : things) v.push_back(object(t, {}));
				return S::ObjectResult::convert<TM::List, TM::Nullable>(std::move(v), std::move(p));
			} },
			{ "ll", [&](S::ResolverParams&& p) {
				std::vector<std::vector<Ptr>> v(2);
				for (auto& t : things) v[0].push_back(object(t, {}));
				return S::ObjectResult::convert<TM::List, TM::List, TM::Nullable>(std::move(v), std::move(p));
			} } });
	Svc svc({ { "query", qo } }, schema);
	Doc d;
	const char* names[] = { "n", "u", "l", "ll" };
	std::vector<Sel> sub;
	for (unsigned i = 0; i < n; i++) sub.push_back(nested("s" + sx::num(i), which == 1 || which == 3));
	d.root.push_back(fld(names[which], "", sub));
	bool fn = false, fo = false;
	for (auto& s : sub)
	{
		fn |= s.name == "FN";
		fo |= s.name == "FO";
	}
	if (fn) d.frags.push_back({ "FN", "Node", { fld("i"), fld("__typename", "t") } });
	if (fo) d.frags.push_back({ "FO", "Obj", { fld("a"), inl("Node", { fld("i", "j") }) } });
	std::string text = d.text();
	sx::note("text", text);
	auto ast = parse(text);
	auto r = run(svc, ast);
	sx::note("r", show(r));
	auto build = [&](bool merge) {
		auto list = [&]() {
			auto l = vlist();
			for (auto& t : things) l.emplace_back(expectThing(d, t, { &d.root[0].sub }, merge));
			return l;
		};
		auto e = vmap();
		if (which < 2) put(e, names[which], expectThing(d, things[0], { &d.root[0].sub }, merge));
		else if (which == 2) put(e, "l", list());
		else
		{
			auto l = vlist();
			l.emplace_back(list());
			l.emplace_back(vlist());
			put(e, "ll", std::move(l));
		}
		return e;
	};
	sx::check(r.find("errors") == r.end(), "a valid request reports errors");
	auto e = build(true);
	auto first = build(false);
	if (!same(e, first))
	{
		// two selections of k whose sub-selections differ
		sx::check(same(r["data"], e) || !same(r["data"], first), "KNOWN:merge sub-selections of repeated object fields are not merged");
		sx::check(same(r["data"], e) || same(r["data"], first), "the response is not that of the selection set");
	}
	else sx::check(same(r["data"], e), "the response is not that of the selection set");
	if (count && things[0]) sx::cover(things[0]->type == "Obj" ? "obj" : "other");
	if (!count) sx::cover("empty list");
}
// ---- deep ---------------------------------------------------------------------------------------
static Sel level(Doc& d, unsigned i, unsigned n, unsigned lead)
{
	std::string p = "v" + sx::num(i);
	unsigned kind = sx::choose(p, 7);
	std::vector<Sel> sub;
	static const char* types[] = { "Node", "Obj", "U", "", "Node", "Obj", "U" };
	std::string type = types[kind];
	// leaves every type of the level has
	bool isU = type == "U" || type == "";
	for (unsigned k = 0; k < (lead >> i & 1 ? 2u : 0u); k++) sub.push_back(fld(isU ? "__typename" : "i", std::string(1, char('d' + i)) + sx::num(k)));
	if (i + 1 < n) sub.push_back(level(d, i + 1, n, lead));
	else sub.push_back(type == "Obj" ? fld("a", "e") : fld("__typename", "e"));
	if (type == "Obj") sub.push_back(fld("a"));
	if (type == "Node") sub.push_back(fld("i"));
	if (kind < 4) return inl(type, std::move(sub));
	Sel s = spr("D" + sx::num(i));
	d.frags.push_back({ s.name, type, std::move(sub) });
	return s;
}
static void deep(unsigned n)
{
	auto schema = worldSchema({ { "o", "Node" } });
	ThingP t = std::make_shared<Thing>();
	t->type = sx::choose("type", 2) ? "Other" : "Obj";
	t->i = symInt("i");
	t->x = symInt("x");
	auto qo = std::make_shared<Obj>(S::TypeNames { "Query" },
		S::ResolverMap { { "o", [t](S::ResolverParams&& p) { return S::ObjectResult::convert<TM::Nullable>(object(t, {}), std::move(p)); } } });
	Svc svc({ { "query", qo } }, schema);
	Doc d;
	unsigned lead = sx::choose("lead", 1u << n);
	Sel top = level(d, 0, n, lead);
	d.root = { fld("o", "", { fld("i", "s"), top, fld("__typename") }) };
	if (top.kind == Sel::Spread && sx::choose("again", 2)) d.root[0].sub.push_back(inl("Obj", { top, fld("i") }));
	std::string text = d.text();
	sx::note("text", text);
	auto ast = parse(text);
	auto r = run(svc, ast);
	auto e = vmap();
	put(e, "o", expectThing(d, t, { &d.root[0].sub }));
	sx::check(r.find("errors") == r.end(), "a valid request reports errors");
	sx::check(same(r["data"], e), "the response is not that of the selection set");
	sx::cover("deep");
}
// ---- values -------------------------------------------------------------------------------------
static std::string str(const std::string& p)
{
	std::string s = sx::bytes(p, sx::choose(p + "n", 3));
	return s;
}
static void val(unsigned n)
{
	const char* names[] = { "i", "b", "f", "s", "id", "e", "any", "li", "ls", "lb", "ln", "lli" };
	auto schema = worldSchema({ { "i", "Int" }, { "b", "Boolean!" }, { "f", "Float" }, { "s", "String" }, { "id", "ID" }, { "e", "En" }, { "any", "Any" },
		{ "li", "[Int]" }, { "ls", "[String!]" }, { "lb", "[Boolean]!" }, { "ln", "[Int!]" }, { "lli", "[[Int]!]" } });
	unsigned which = sx::choose("field", 12);
	S::Resolver r;
	R::Value want;
	auto list = [&](const std::string& p) { return sx::choose(p + "len", n + 1); };
	auto optInt = [&](const std::string& p) { return sx::choose(p + "null", 2) ? std::optional<int>() : std::optional<int>(symInt(p)); };
	switch (which)
	{
		case 0:
		{
			auto v = optInt("v");
			if (v) want = vint(*v);
			r = [v](S::ResolverParams&& p) { return S::IntResult::convert<TM::Nullable>(std::optional<int>(v), std::move(p)); };
			break;
		}
		case 1:
		{
			bool v = sx::boolean("v");
			want = R::Value(v);
			r = [v](S::ResolverParams&& p) { return S::BooleanResult::convert(bool(v), std::move(p)); };
			break;
		}
		case 2:
		{
			double v = sx::choose("v", 2) ? 1.5 : -2e10;
			want = R::Value(v);
			r = [v](S::ResolverParams&& p) { return S::FloatResult::convert<TM::Nullable>(std::optional<double>(v), std::move(p)); };
			break;
		}
		case 3:
		{
			std::string v = str("v");
			want = vstr(v);
			r = [v](S::ResolverParams&& p) { return S::StringResult::convert<TM::Nullable>(std::optional<std::string>(v), std::move(p)); };
			break;
		}
		case 4:
		{
			// one byte: two Base64 digits and padding
			uint8_t b = sx::byte("v");
			const char* digits = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
			want = vstr(std::string { digits[b >> 2], digits[(b & 3) << 4], '=', '=' });
			r = [b](S::ResolverParams&& p) { return S::IdResult::convert<TM::Nullable>(std::optional<R::IdType>(R::IdType { b }), std::move(p)); };
			break;
		}
		case 5:
		{
			std::string v = sx::choose("v", 2) ? "RED" : "BLUE";
			want = venum(v);
			r = [v](S::ResolverParams&& p) { return S::ScalarResult::convert(venum(v), std::move(p)); };
			break;
		}
		case 6:
		{
			auto make = [x = symInt("v")]() {
				auto m = vmap();
				put(m, "q", vint(x));
				auto l = vlist();
				l.emplace_back(R::Value());
				l.emplace_back(R::Value(true));
				put(m, "p", std::move(l));
				return m;
			};
			want = make();
			r = [make](S::ResolverParams&& p) { return S::ScalarResult::convert(make(), std::move(p)); };
			break;
		}
		case 7:
		{
			std::optional<std::vector<std::optional<int>>> v;
			if (sx::choose("null", 2) == 0)
			{
				v.emplace();
				want = vlist();
				for (unsigned i = 0, k = list("v"); i < k; i++)
				{
					v->push_back(optInt("v" + sx::num(i)));
					want.emplace_back(v->back() ? vint(*v->back()) : R::Value());
				}
			}
			r = [v](S::ResolverParams&& p) { return S::IntResult::convert<TM::Nullable, TM::List, TM::Nullable>(std::optional<std::vector<std::optional<int>>>(v), std::move(p)); };
			break;
		}
		case 8:
		{
			std::vector<std::string> v;
			want = vlist();
			for (unsigned i = 0, k = list("v"); i < k; i++)
			{
				v.push_back(str("v" + sx::num(i)));
				want.emplace_back(vstr(v.back()));
			}
			r = [v](S::ResolverParams&& p) { return S::StringResult::convert<TM::Nullable, TM::List>(std::optional<std::vector<std::string>>(v), std::move(p)); };
			break;
		}
		case 9:
		{
			std::vector<bool> v;
			want = vlist();
			for (unsigned i = 0, k = list("v"); i < k; i++)
			{
				v.push_back(sx::boolean("v" + sx::num(i)));
				want.emplace_back(R::Value(bool(v.back())));
			}
			r = [v](S::ResolverParams&& p) { return S::BooleanResult::convert<TM::List>(std::vector<bool>(v), std::move(p)); };
			break;
		}
		case 10:
		{
			std::vector<int> v;
			want = vlist();
			for (unsigned i = 0, k = list("v"); i < k; i++)
			{
				v.push_back(symInt("v" + sx::num(i)));
				want.emplace_back(vint(v.back()));
			}
			r = [v](S::ResolverParams&& p) { return S::IntResult::convert<TM::Nullable, TM::List>(std::optional<std::vector<int>>(v), std::move(p)); };
			break;
		}
		default:
		{
			std::vector<std::vector<std::optional<int>>> v;
			want = vlist();
			for (unsigned i = 0, k = list("v"); i < k; i++)
			{
				v.emplace_back();
				auto l = vlist();
				for (unsigned j = 0, m = list("v" + sx::num(i)); j < m; j++)
				{
					v.back().push_back(optInt("v" + sx::num(i) + sx::num(j)));
					l.emplace_back(v.back().back() ? vint(*v.back().back()) : R::Value());
				}
				want.emplace_back(std::move(l));
			}
			r = [v](S::ResolverParams&& p) { return S::IntResult::convert<TM::List, TM::List, TM::Nullable>(std::vector<std::vector<std::optional<int>>>(v), std::move(p)); };
			break;
		}
	}
	// delivered directly: the paths of deferred and concurrent delivery are P16's subject
	auto qo = std::make_shared<Obj>(S::TypeNames { "Query" }, S::ResolverMap { { names[which], r } });
	Svc svc({ { "query", qo } }, schema);
	std::string text = std::string("{ x: ") + names[which] + " }";
	sx::note("text", text);
	auto ast = parse(text);
	auto res = run(svc, ast);
	sx::note("r", show(res));
	auto e = vmap();
	auto data = vmap();
	put(data, "x", std::move(want));
	put(e, "data", std::move(data));
	sx::check(same(res, e), "a field's value is not the one its resolver returned");
	sx::cover("value");
}
extern "C" void harness_main()
{
	auto arg = argOf();
	if (arg.name == "root") root(arg.n);
	else if (arg.name == "nest") nest(arg.n);
	else if (arg.name == "deep") deep(arg.n);
	else val(arg.n);
}
