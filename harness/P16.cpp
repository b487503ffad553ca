// P16: results do not depend on how resolvers are scheduled; mutations run in order.
// "query:S" one of S documents, every resolver delivers in one of four ways (directly, by a deferred, a
// concurrent or an externally completed future), fails or not, under either launch policy, and the
// scheduler decides what runs next. The response is compared with the one of the same document when
// everything is delivered directly.
// "mutation:N" N root fields of any kind of delivery: effects happen in document order.
// "same:DW" several requests in flight on one service.
#include "world.h"
using TM = S::TypeModifier;
static unsigned schedule = 0, preemptions = 0, maxPreemptions = 0;
static bool eagerly = false;
static void scheduler(bool eager, unsigned preempts)
{
	auto& s = sxf::sched();
	schedule = preemptions = 0;
	maxPreemptions = preempts;
	eagerly = eager;
	s.choose = [](unsigned n) { return sx::choose("s" + sx::num(schedule++), n); };
	s.eager = [] { return eagerly && sx::choose("s" + sx::num(schedule++), 2) == 1; };
	s.prune = [] { sx::assume(false); };
}
static void quiet()
{
	auto& s = sxf::sched();
	s.choose = nullptr;
	s.eager = nullptr;
	maxPreemptions = 0;
}
static void reached()
{
	auto& s = sxf::sched();
	if (preemptions >= maxPreemptions || s.pending.empty()) return;
	if (sx::choose("s" + sx::num(schedule++), 2)) preemptions++, sxf::preempt();
}
enum How { Direct, Deferred, Concurrent, External };
static std::map<std::string, unsigned> how, calls;
static std::map<std::string, bool> bad;
static bool direct = false; // the reference: everything delivered directly
static unsigned ways = 4;
static bool failing = true;
static unsigned howOf(const std::string& path)
{
	if (direct) return Direct;
	auto it = how.find(path);
	return it != how.end() ? it->second : how[path] = sx::choose("how" + path, ways);
}
static bool badOf(const std::string& path)
{
	if (!failing) return false;
	auto it = bad.find(path);
	return it != bad.end() ? it->second : bad[path] = sx::choose("bad" + path, 2) == 1;
}
template <typename T, typename F>
static S::FieldResult<T> deliver(const std::string& path, F make)
{
	bool b = badOf(path);
	calls[path]++;
	auto body = [b, path, make]() -> T {
		if (b) throw S::schema_exception { { "boom " + path } };
		return make();
	};
	unsigned h = howOf(path);
	if (!direct) reached();
	switch (h)
	{
		case Deferred: return S::FieldResult<T>(std::async(std::launch::deferred, body));
		case Concurrent: return S::FieldResult<T>(std::async(std::launch::async, body));
		case External:
		{
			auto p = std::make_shared<std::promise<T>>();
			auto f = p->get_future();
			sxf::post([p, body]() {
				try { p->set_value(body()); }
				catch (...) { p->set_exception(std::current_exception()); }
			});
			return S::FieldResult<T>(std::move(f));
		}
		default: return S::FieldResult<T>(body());
	}
}
static S::Resolver leaf(int v)
{
	return [v](S::ResolverParams&& p) {
		auto path = pathOf(p);
		return S::IntResult::convert<TM::Nullable>(deliver<std::optional<int>>(path, [v]() { return std::optional<int>(v); }), std::move(p));
	};
}
static std::shared_ptr<S::Object> thing(int n)
{
	std::weak_ptr<int> none;
	return std::make_shared<Obj>(S::TypeNames { "Node", "Obj", "U" },
		S::ResolverMap { { "i", leaf(10 * n + 1) }, { "a", leaf(10 * n + 2) },
			{ "k", [n](S::ResolverParams&& p) {
				 auto path = pathOf(p);
				 return S::ObjectResult::convert<TM::Nullable>(deliver<std::shared_ptr<S::Object>>(path, [n]() { return thing(n + 3); }), std::move(p));
			 } },
			{ "__typename", [](S::ResolverParams&& p) { return S::StringResult::convert("Obj", std::move(p)); } } });
}
static S::ResolverMap resolvers()
{
	return { { "i", leaf(1) }, { "j", leaf(2) },
		{ "x", [](S::ResolverParams&& p) {
			 auto path = pathOf(p);
			 auto v = S::IntArgument::require("v", p.arguments);
			 return S::IntResult::convert(deliver<int>(path, [v]() { return v; }), std::move(p));
		 } },
		{ "o", [](S::ResolverParams&& p) {
			 auto path = pathOf(p);
			 return S::ObjectResult::convert<TM::Nullable>(deliver<std::shared_ptr<S::Object>>(path, []() { return thing(1); }), std::move(p));
		 } },
		{ "l", [](S::ResolverParams&& p) {
			 auto path = pathOf(p);
			 return S::ObjectResult::convert<TM::List, TM::Nullable>(deliver<std::vector<std::shared_ptr<S::Object>>>(path, []() { return std::vector<std::shared_ptr<S::Object>> { thing(1), nullptr, thing(2) }; }), std::move(p));
		 } },
		{ "n", [](S::ResolverParams&& p) {
			 auto path = pathOf(p);
			 return S::IntResult::convert<TM::Nullable, TM::List>(deliver<std::optional<std::vector<int>>>(path, []() { return std::make_optional(std::vector<int> { 4, 5 }); }), std::move(p));
		 } },
		{ "__typename", [](S::ResolverParams&& p) { return S::StringResult::convert("Query", std::move(p)); } } };
}
static std::shared_ptr<G::Schema> schema()
{
	std::vector<FieldDef> f { { "i", "Int" }, { "j", "Int" }, { "x", "Int!", { { "v", "Int!" } } }, { "o", "Obj" }, { "l", "[Obj]!" }, { "n", "[Int!]" } };
	return worldSchema(f, f);
}
static std::unique_ptr<Svc> service(const std::shared_ptr<G::Schema>& s)
{
	return std::make_unique<Svc>(S::TypeMap { { "query", std::make_shared<Obj>(S::TypeNames { "Query" }, resolvers()) }, { "mutation", std::make_shared<Obj>(S::TypeNames { "Mutation" }, resolvers()) } }, s);
}
static const char* documents[] = {
	"{ i j }",
	"{ o { i a } j }",
	"{ l { i } i }",
	"{ o { k { i } } n }",
	"query ($v: Int = 7) { a: x(v: 1) b: x(v: $v) ...F } fragment F on Query { o { ...G } } fragment G on Node { i ... on Obj @include(if: true) { t: __typename c: k { i } } }",
	"{ p: o { i } q: o { b: i } l { a k { i } } }",
};
// several completed requests of the same text must give this
static R::Value reference(const std::string& text)
{
	direct = true;
	auto s = schema();
	auto svc = service(s);
	auto ast = parse(text);
	auto r = run(*svc, ast);
	direct = false;
	return r;
}
static void finish()
{
	quiet();
	sxf::runAll();
}
static void query(unsigned which, unsigned w, bool fails, bool eager, unsigned preempts)
{
	std::string text = documents[which];
	sx::note("text", text);
	auto launch = sx::choose("launch", 2) ? std::launch::async : std::launch::deferred;
	ways = w;
	failing = fails;
	R::Value got;
	{
		auto s = schema();
		auto svc = service(s);
		auto ast = parse(text);
		calls.clear();
		scheduler(eager, preempts);
		// the variables and the name belong to the caller only until the call returns
		auto future = [&]() {
			R::Value vars(R::Type::Map);
			return svc->resolve(launch, nullptr, ast, "", std::move(vars));
		}();
		got = future.get();
		quiet();
	}
	auto made = calls;
	calls.clear();
	auto want = reference(text);
	finish();
	sx::note("got", show(got));
	sx::note("want", show(want));
	if (!fails) sx::check(want.find("errors") == want.end(), "HARNESS: the document is not valid");
	sx::check(same(got, want), "the response depends on the schedule");
	sx::check(made == calls, "a resolver is not called exactly once");
	sx::cover(launch == std::launch::async ? "async" : "deferred");
	for (auto& h : how) sx::cover(h.second == Direct ? "direct" : h.second == Deferred ? "lazy" : h.second == Concurrent ? "concurrent" : "external");
}
// ---- mutations ----------------------------------------------------------------------------------
static std::vector<std::string> effects;
static int counter = 0;
static void effect(const std::string& e)
{
	effects.push_back(e);
}
static void mutation(unsigned n)
{
	static const char* kinds[] = { "inc", "obj", "list" };
	auto late = [](const std::string& path, auto make) { return deliver<decltype(make())>(path, make); };
	// an object whose field reads the counter when it is resolved
	auto state = []() {
		return std::make_shared<Obj>(S::TypeNames { "Obj" }, S::ResolverMap {
			{ "i", [](S::ResolverParams&& p) {
				 auto path = pathOf(p);
				 return S::IntResult::convert<TM::Nullable>(deliver<std::optional<int>>(path, [path]() { effect(path); return std::optional<int>(counter); }), std::move(p));
			 } } });
	};
	S::ResolverMap m {
		{ "inc", [late](S::ResolverParams&& p) {
			 auto path = pathOf(p);
			 return S::IntResult::convert(late(path, [path]() { effect(path); return ++counter; }), std::move(p));
		 } },
		{ "obj", [late, state](S::ResolverParams&& p) {
			 auto path = pathOf(p);
			 return S::ObjectResult::convert<TM::Nullable>(late(path, [path, state]() -> std::shared_ptr<S::Object> { effect(path); ++counter; return state(); }), std::move(p));
		 } },
		{ "list", [late, state](S::ResolverParams&& p) {
			 auto path = pathOf(p);
			 return S::ObjectResult::convert<TM::List>(late(path, [path, state]() { effect(path); ++counter; return std::vector<std::shared_ptr<S::Object>> { state() }; }), std::move(p));
		 } },
	};
	auto s = worldSchema({ { "inc", "Int" } }, { { "inc", "Int!" }, { "obj", "Obj" }, { "list", "[Obj!]!" } });
	Svc svc({ { "query", std::make_shared<Obj>(S::TypeNames { "Query" }, S::ResolverMap {}) }, { "mutation", std::make_shared<Obj>(S::TypeNames { "Mutation" }, std::move(m)) } }, s);
	std::string text = "mutation {";
	auto data = vmap(), want = vmap();
	std::vector<std::string> order;
	for (unsigned i = 0; i < n; i++)
	{
		std::string key = "f" + sx::num(i), k = kinds[sx::choose("kind" + sx::num(i), 3)];
		text += " " + key + ": " + k;
		order.push_back("/" + key);
		if (k == "inc") put(data, key, vint(int(i + 1)));
		else
		{
			text += " { i }";
			auto o = vmap();
			put(o, "i", vint(int(i + 1)));
			order.push_back(k == "obj" ? "/" + key + "/i" : "/" + key + "/0/i");
			if (k == "obj") put(data, key, std::move(o));
			else
			{
				auto l = vlist();
				l.emplace_back(std::move(o));
				put(data, key, std::move(l));
			}
		}
	}
	text += " }";
	put(want, "data", std::move(data));
	sx::note("text", text);
	auto launch = sx::choose("launch", 2) ? std::launch::async : std::launch::deferred;
	failing = false;
	scheduler(false, 0);
	auto ast = parse(text);
	auto got = run(svc, ast, "", vmap(), launch);
	quiet();
	sxf::runAll();
	std::string o;
	for (auto& e : effects) o += e + " ";
	sx::note("effects", o);
	sx::note("got", show(got));
	sx::check(effects == order, "the root fields of a mutation do not take effect one after another");
	sx::check(same(got, want), "the root fields of a mutation see each other's effects out of order");
	sx::cover("mutation");
}
// ---- several requests at once --------------------------------------------------------------------
static void together(unsigned n)
{
	unsigned a = sx::choose("first", n / 10), b = sx::choose("second", n / 10);
	ways = n % 10;
	failing = false;
	R::Value got[2];
	{
		auto s = schema();
		auto svc = service(s);
		auto x = parse(documents[a]), y = parse(documents[b]);
		scheduler(false, 0);
		auto f = svc->resolve(sx::choose("l1", 2) ? std::launch::async : std::launch::deferred, nullptr, x, "", vmap());
		auto g = svc->resolve(sx::choose("l2", 2) ? std::launch::async : std::launch::deferred, nullptr, y, "", vmap());
		if (sx::choose("get", 2)) got[0] = f.get(), got[1] = g.get();
		else got[1] = g.get(), got[0] = f.get();
		quiet();
	}
	sx::check(same(got[0], reference(documents[a])) & same(got[1], reference(documents[b])), "requests in flight at the same time affect each other");
	finish();
	sx::cover("together");
}
extern "C" void harness_main()
{
	auto arg = argOf();
	// query: document * 1000 + ways * 100 + fails * 10 + preemptions, eager or not
	if (arg.name == "query" || arg.name == "eager") query(arg.n / 1000, arg.n / 100 % 10, arg.n / 10 % 10, arg.name == "eager", arg.n % 10);
	else if (arg.name == "mutation") mutation(arg.n);
	else together(arg.n);
}
