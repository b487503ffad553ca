// P09: a failing field is isolated and reported with its exact path and location.
// "fld:N" N root selections, every resolver reached fails in one of several ways or not at all.
// "list:N" lists of leaf values and of objects of length N whose items and fields may fail.
// "deep:D" a leaf that fails below D objects, lists and nested lists.
// "req" requests that cannot be executed because of their variables.
#include "world.h"
#include <stdexcept>
using TM = S::TypeModifier;
enum Beh { Value, ThrowSchema, ThrowStd, LaterValue, LaterSchema, LaterStd, SetSchema2 };
static std::map<std::string, unsigned> behs;
static int V5, V6; // what the leaves resolve to
static unsigned beh(const std::string& path)
{
	auto it = behs.find(path);
	if (it != behs.end()) return it->second;
	return behs[path] = sx::choose(path, 7);
}
static bool fails(unsigned b) { return b != Value && b != LaterValue; }
[[noreturn]] static void raise(unsigned b)
{
	if (b == ThrowSchema || b == LaterSchema) throw S::schema_exception { { "boom" } };
	if (b == SetSchema2) throw S::schema_exception { std::vector<std::string> { "one", "two" } };
	throw std::runtime_error("bang");
}
// the value, delivered or not in the way the path says
template <typename T>
static S::FieldResult<T> deliver(unsigned b, T v)
{
	switch (b)
	{
		case Value: return S::FieldResult<T>(std::move(v));
		case ThrowSchema:
		case ThrowStd: raise(b);
		case LaterValue: return S::FieldResult<T>(std::async(std::launch::deferred, [v]() { return v; }));
		case SetSchema2:
		{
			std::promise<T> p;
			try { raise(b); } catch (...) { p.set_exception(std::current_exception()); }
			return S::FieldResult<T>(p.get_future());
		}
		default: return S::FieldResult<T>(std::async(std::launch::deferred, [b]() -> T { raise(b); }));
	}
}
struct Err { std::string path; size_t line, col; std::string message; bool exact; };
static std::vector<Err> want;
static void fail(unsigned b, const std::string& path, const Sel& s)
{
	if (b == SetSchema2)
	{
		want.push_back({ path, s.line, s.col, "one", true });
		want.push_back({ path, s.line, s.col, "two", true });
	}
	else
	{
		bool schema = b == ThrowSchema || b == LaterSchema;
		want.push_back({ path, s.line, s.col, schema ? "boom" : "bang", schema });
	}
}
static std::string errPath(const R::Value& e)
{
	auto it = e.find("path");
	if (it == e.end()) return "(none)";
	std::string p;
	for (auto& x : it->second.get<R::ListType>())
	{
		if (x.type() == R::Type::String) p += "/" + x.get<R::StringType>();
		else p += "/" + sx::num((unsigned)x.get<R::IntType>());
	}
	return p;
}
static void verify(const R::Value& r, const R::Value& data)
{
	sx::note("r", show(r));
	sx::check(same(r["data"], data), "the data is not what the fields that succeed give");
	std::vector<const R::Value*> errors;
	auto it = r.find("errors");
	if (it != r.end())
		for (auto& e : it->second.get<R::ListType>()) errors.push_back(&e);
	sx::check(errors.size() >= want.size(), "a failing field is not reported");
	sx::check(errors.size() <= want.size(), "an error is reported that no field raised");
	std::vector<bool> used(errors.size());
	for (auto& w : want)
	{
		bool path = false, loc = false, msg = false;
		for (size_t i = 0; i < errors.size() && !msg; i++)
		{
			if (used[i] || errPath(*errors[i]) != w.path) continue;
			path = true;
			auto l = errors[i]->find("locations");
			if (l == errors[i]->end() || l->second.size() != 1) continue;
			const auto& at = l->second.get<R::ListType>()[0];
			if ((size_t)at["line"].get<int>() != w.line || (size_t)at["column"].get<int>() != w.col) continue;
			loc = true;
			std::string m = (*errors[i])["message"].get<R::StringType>();
			if (w.exact ? m == w.message : m.find(w.message) != std::string::npos) msg = true;
			if (msg) used[i] = true;
		}
		sx::check(path, "no error carries the path of a failing field");
		sx::check(loc, "the error of a failing field does not carry its location");
		sx::check(msg, "the error of a failing field does not carry its message");
	}
	if (want.empty()) sx::cover("success");
	for (auto& w : want) sx::cover(w.message.c_str());
}
// a resolver of an Int leaf
static S::Resolver leaf(int v)
{
	return [v](S::ResolverParams&& p) { return S::IntResult::convert<TM::Nullable>(deliver<std::optional<int>>(beh(pathOf(p)), v), std::move(p)); };
}
static S::Resolver plain(int v)
{
	return [v](S::ResolverParams&& p) { return S::IntResult::convert(deliver<int>(beh(pathOf(p)), v), std::move(p)); };
}
static std::shared_ptr<S::Object> obj()
{
	return std::make_shared<Obj>(S::TypeNames { "Node", "Obj", "U" }, S::ResolverMap { { "i", leaf(V5) }, { "a", plain(V6) } });
}
static R::Value expect(const Doc& d, const std::string& type, const std::vector<Sel>& set, const std::string& at)
{
	std::vector<Group> g;
	collect(d, type, set, isType, g);
	auto v = vmap();
	for (auto& e : g)
	{
		const Sel& f = *e.fields[0];
		std::string path = at + "/" + e.key;
		if (f.name == "ok") { put(v, e.key, vint(3)); continue; }
		unsigned b = beh(path);
		if (fails(b))
		{
			fail(b, path, f);
			put(v, e.key, R::Value());
			continue;
		}
		if (f.name == "i") put(v, e.key, vint(V5));
		else if (f.name == "a") put(v, e.key, vint(V6));
		else put(v, e.key, expect(d, "Obj", f.sub, path));
	}
	return v;
}
static std::shared_ptr<Obj> query(S::ResolverMap&& m)
{
	m.emplace("ok", [](S::ResolverParams&& p) { return S::IntResult::convert(3, std::move(p)); });
	return std::make_shared<Obj>(S::TypeNames { "Query" }, std::move(m));
}
static void fld_(unsigned n)
{
	auto schema = worldSchema({ { "ok", "Int" }, { "i", "Int" }, { "a", "Int!" }, { "o", "Obj" }, { "p", "Obj!" } });
	auto qo = query({ { "i", leaf(V5) }, { "a", plain(V6) },
		{ "o", [](S::ResolverParams&& p) { return S::ObjectResult::convert<TM::Nullable>(deliver<std::shared_ptr<S::Object>>(beh(pathOf(p)), obj()), std::move(p)); } },
		{ "p", [](S::ResolverParams&& p) { return S::ObjectResult::convert(deliver<std::shared_ptr<S::Object>>(beh(pathOf(p)), obj()), std::move(p)); } } });
	Svc svc({ { "query", qo } }, schema);
	Doc d;
	for (unsigned i = 0; i < n; i++)
	{
		std::string q = "s" + sx::num(i), x(1, char('s' + i));
		Sel s;
		switch (sx::choose(q, 6))
		{
			case 0: s = fld("i", x); break;
			case 1: s = inl("", { fld("a", x) }); break;
			case 2: s = fld("o", x, { fld("i"), inl("Obj", { fld("a", "b") }) }); break;
			case 3: s = fld("p", x, { fld("a") }); break;
			case 4: s = fld("ok", x); break;
			default: s = spr("F"); break;
		}
		d.root.push_back(std::move(s));
	}
	for (auto& s : d.root)
		if (s.kind == Sel::Spread) { d.frags = { { "F", "Query", { fld("ok"), fld("o", "", { fld("a") }) } } }; break; }
	std::string text = d.text(sx::choose("gap", 2) ? "\n\t" : " ");
	sx::note("text", text);
	auto ast = parse(text);
	auto r = run(svc, ast);
	auto e = expect(d, "Query", d.root, "");
	verify(r, e);
}
// ---- lists ----
struct Elem { unsigned b; };
namespace graphql::service {
// what generated code does for enum types: the conversion of a value may fail
template <>
std::future<ResolverResult> ModifiedResult<Elem>::convert(FieldResult<Elem>&& result, ResolverParams&& params)
{
	return resolve(std::move(result), std::move(params), [](Elem&& e, const ResolverParams&) {
		if (fails(e.b)) raise(e.b);
		return response::Value(4);
	});
}
// an item whose own future fails
struct Item { unsigned b; };
template <>
std::future<ResolverResult> ModifiedResult<Item>::convert(FieldResult<Item>&& result, ResolverParams&&)
{
	unsigned b = result.get().b;
	return std::async(std::launch::deferred, [b]() -> ResolverResult {
		if (fails(b)) raise(b);
		return { response::Value(4) };
	});
}
}
static void list(unsigned n)
{
	auto schema = worldSchema({ { "ok", "Int" }, { "le", "[Int]" }, { "lf", "[Int]" }, { "lo", "[Obj]" }, { "ll", "[[Int]]" } });
	auto items = [n](const std::string& path, auto make) {
		std::vector<decltype(make(0u))> v;
		for (unsigned i = 0; i < n; i++) v.push_back(make(beh(path + "/" + sx::num(i))));
		return v;
	};
	auto elem = [](unsigned b) { return Elem { b }; };
	auto item = [](unsigned b) { return S::Item { b }; };
	auto qo = query({
		{ "le", [&](S::ResolverParams&& p) { return S::ModifiedResult<Elem>::convert<TM::List>(deliver(beh(pathOf(p)), items(pathOf(p), elem)), std::move(p)); } },
		{ "lf", [&](S::ResolverParams&& p) { return S::ModifiedResult<S::Item>::convert<TM::List>(deliver(beh(pathOf(p)), items(pathOf(p), item)), std::move(p)); } },
		{ "ll", [&](S::ResolverParams&& p) {
			 std::vector<std::vector<Elem>> v { items(pathOf(p) + "/0", elem) };
			 return S::ModifiedResult<Elem>::convert<TM::List, TM::List>(deliver(beh(pathOf(p)), v), std::move(p));
		 } },
		{ "lo", [&](S::ResolverParams&& p) {
			 std::vector<std::shared_ptr<S::Object>> v;
			 for (unsigned i = 0; i < n; i++) v.push_back(obj());
			 return S::ObjectResult::convert<TM::Nullable, TM::List, TM::Nullable>(deliver(beh(pathOf(p)), std::optional<std::vector<std::shared_ptr<S::Object>>>(v)), std::move(p));
		 } } });
	Svc svc({ { "query", qo } }, schema);
	unsigned which = sx::choose("field", 4);
	const char* names[] = { "le", "lf", "ll", "lo" };
	Doc d;
	d.root = { fld("ok", "u"), fld(names[which], "x"), fld("ok") };
	if (which == 3) d.root[1].sub = { fld("i"), fld("a", "y") };
	std::string text = d.text("\n");
	sx::note("text", text);
	auto ast = parse(text);
	auto r = run(svc, ast);
	auto& s = d.root[1];
	auto e = vmap();
	put(e, "u", vint(3));
	unsigned b = beh("/x");
	if (fails(b))
	{
		fail(b, "/x", s);
		put(e, "x", R::Value());
	}
	else
	{
		auto l = vlist();
		for (unsigned i = 0; i < n; i++)
		{
			std::string path = (which == 2 ? "/x/0/" : "/x/") + sx::num(i);
			if (which == 3) l.emplace_back(expect(d, "Obj", s.sub, path));
			else
			{
				unsigned c = beh(path);
				if (fails(c)) fail(c, path, s);
				l.emplace_back(fails(c) ? R::Value() : vint(4));
			}
		}
		if (which == 2)
		{
			auto ll = vlist();
			ll.emplace_back(std::move(l));
			l = std::move(ll);
		}
		put(e, "x", std::move(l));
	}
	put(e, "ok", vint(3));
	verify(r, e);
}
// ---- depth ----
static void deep(unsigned n)
{
	auto schema = std::make_shared<G::Schema>(false);
	graphql::introspection::AddTypesToSchema(schema);
	auto q = G::ObjectType::Make("Query", "");
	schema->AddType("Query", q);
	q->AddFields(fields(schema, { { "ok", "Int" }, { "i", "Int" }, { "k", "Query" }, { "l", "[Query]" }, { "m", "[[Query]]" } }));
	schema->AddQueryType(q);
	using Ptr = std::shared_ptr<S::Object>;
	Ptr node = query({ { "i", leaf(V5) } });
	Ptr bare = query({});
	Sel set = fld("i", "x"), inner = set;
	// inside out
	std::vector<unsigned> kinds;
	for (unsigned i = 0; i < n; i++)
	{
		std::string p = "d" + sx::num(i);
		unsigned kind = sx::choose(p, 4);
		kinds.push_back(kind);
		Ptr in = node;
		const char* names[] = { "k", "l", "l", "m" };
		auto one = [in](S::ResolverParams&& p) { return S::ObjectResult::convert<TM::Nullable>(Ptr(in), std::move(p)); };
		auto lst = [in, kind](S::ResolverParams&& p) {
			std::vector<Ptr> v;
			if (kind == 2) v.push_back(nullptr);
			v.push_back(in);
			return S::ObjectResult::convert<TM::List, TM::Nullable>(std::move(v), std::move(p));
		};
		auto lists = [in](S::ResolverParams&& p) {
			std::vector<std::vector<Ptr>> v(2);
			v[1] = { nullptr, in };
			return S::ObjectResult::convert<TM::List, TM::List, TM::Nullable>(std::move(v), std::move(p));
		};
		if (kind == 0) node = query({ { "k", one } });
		else if (kind == 3) node = query({ { "m", lists } });
		else node = query({ { "l", lst } });
		inner = fld(names[kind], i % 2 ? "y" : "", { i % 2 ? inl("Query", { inner }) : inner, fld("ok") });
	}
	Doc d;
	d.root = { inner };
	Svc svc({ { "query", std::static_pointer_cast<S::Object>(node) } }, schema);
	std::string text = d.text();
	sx::note("text", text);
	auto ast = parse(text);
	auto r = run(svc, ast);
	// the expected path, outside in
	std::string path;
	Sel* at = &d.root[0];
	std::vector<std::string> keys;
	for (unsigned i = n; i-- > 0;)
	{
		path += "/" + at->key();
		if (kinds[i] == 1) path += "/0";
		if (kinds[i] == 2) path += "/1";
		if (kinds[i] == 3) path += "/1/1";
		keys.push_back(at->key());
		Sel* next = &at->sub[0];
		if (next->kind == Sel::Inline) next = &next->sub[0];
		at = next;
	}
	path += "/x";
	unsigned b = beh(path);
	R::Value v = vint(V5);
	if (fails(b))
	{
		fail(b, path, *at);
		v = R::Value();
	}
	std::string key = "x";
	for (unsigned i = 0; i <= n; i++)
	{
		auto m = vmap();
		put(m, key, std::move(v));
		if (i < n) put(m, "ok", vint(3));
		if (i == n) { v = std::move(m); break; }
		auto l = vlist();
		if (kinds[i] == 0) v = std::move(m);
		else
		{
			if (kinds[i] != 1) l.emplace_back(R::Value());
			l.emplace_back(std::move(m));
			if (kinds[i] == 3)
			{
				auto ll = vlist();
				ll.emplace_back(vlist());
				ll.emplace_back(std::move(l));
				l = std::move(ll);
			}
			v = std::move(l);
		}
		key = keys[n - 1 - i];
	}
	verify(r, v);
}
// ---- requests that cannot be executed ----
static void req()
{
	auto schema = worldSchema({ { "ok", "Int" }, { "f", "Int", { { "x", "Int" } } } });
	unsigned calls = 0;
	auto qo = query({ { "f", [&](S::ResolverParams&& p) { calls++; return S::IntResult::convert(1, std::move(p)); } } });
	Svc svc({ { "query", qo } }, schema);
	unsigned which = sx::choose("which", 5);
	const char* texts[] = {
		"query Q($v: Boolean!) { f @skip(if: $v) ok }",
		"query Q($v: Boolean!) { f ok @include(if: $v) }",
		"query Q($v: Boolean!) { ok ... @skip(if: $v) { f } }",
		"query Q($v: Boolean!) { ok ...F @skip(if: $v) } fragment F on Query { f }",
		"query Q($v: Boolean!) @skip(if: $v) { ok }",
	};
	std::string text = texts[which];
	sx::assume(which < 4);
	sx::note("text", text);
	auto ast = parse(text);
	auto vars = vmap();
	unsigned given = sx::choose("given", 4);
	if (given == 1) put(vars, "v", R::Value());
	if (given == 2) put(vars, "v", vint(1));
	if (given == 3) put(vars, "v", vstr("true"));
	try
	{
		auto r = run(svc, ast, "", std::move(vars));
		sx::note("r", show(r));
		sx::check(r["data"].type() == R::Type::Null, "a request whose variables are unusable gives data");
		auto it = r.find("errors");
		sx::check(it != r.end() && it->second.size() > 0, "a request whose variables are unusable gives no error");
	}
	catch (const std::exception&)
	{
		sx::fail("a request whose variables are unusable gives no response but an exception");
	}
	sx::cover("unusable");
}
extern "C" void harness_main()
{
	auto arg = argOf();
	V5 = sx::i32("v5");
	V6 = sx::i32("v6");
	if (arg.name == "fld") fld_(arg.n);
	else if (arg.name == "list") list(arg.n);
	else if (arg.name == "deep") deep(arg.n);
	else req();
}
