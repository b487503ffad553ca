// P14: verdicts and results do not depend on earlier requests.
// "hist:N" N earlier documents out of a pool, the last of them validated, executed, or both, its tree kept or destroyed;
// then a document of the pool is validated (twice) and executed on that service and on a fresh one.
// "open:N" N requests are begun before any of their results is taken, and finished in any order.
#include "vm.h"
using namespace vm;
static S::TypeMap operations()
{
	auto x = [](S::ResolverParams&& p) {
		auto v = S::IntArgument::require<S::TypeModifier::Nullable>("x", p.arguments);
		return S::IntResult::convert(v ? *v : -7, std::move(p));
	};
	auto i = [](S::ResolverParams&& p) { return S::IntResult::convert(5, std::move(p)); };
	auto boom = [](S::ResolverParams&&) -> std::future<S::ResolverResult> { throw S::schema_exception { std::vector<std::string> { "boom" } }; };
	auto a = [x, i, boom](S::ResolverParams&& p) {
		std::shared_ptr<S::Object> o = std::make_shared<Obj>(S::TypeNames { "A", "N", "U" }, S::ResolverMap { { "i", i }, { "a", x }, { "v", boom },
			{ "__typename", [](S::ResolverParams&& p) { return S::StringResult::convert(std::string("A"), std::move(p)); } } });
		return S::ObjectResult::convert<S::TypeModifier::Nullable>(std::move(o), std::move(p));
	};
	S::TypeMap ops;
	ops.emplace("query", std::make_shared<Obj>(S::TypeNames { "Query" }, S::ResolverMap { { "i", i }, { "f", x }, { "a", a }, { "n", a }, { "u", a } }));
	return ops;
}
// in each of them $v and F stand for a variable and a fragment that other documents use differently
static const char* pool[] = {
	"{ i }",
	"query ($v: Int) { f(y: 1 x: $v) }",
	"query ($v: Int = 4) { k: f(y: 1 x: $v) ...F } fragment F on Query { a { a(x: $v) } }",
	"query ($v: Int) { i }",                        // unused variable
	"{ f(y: 1 x: $v) }",                            // undefined variable
	"subscription ($v: Int) { i }",                 // no such operation type
	"{ ...F } fragment F on Query { i k: i }",
	"{ ...F i }",                                   // undefined fragment
	"{ i } fragment F on Query { i }",              // unused fragment
	"{ ...F } fragment F on Query { i ...F }",      // cycle
	"{ n { ...F ... on B { i: v } } } fragment F on A { a }", // fine: types that never overlap
	"{ a { i: a v } i: f(y: 1) }",                  // fails at v
	"{ i: f(y: 1) i }",                             // conflict
	"{ i",                                          // syntax error
	"query ($v: En) { f(y: 1 x: $v) }",             // variable of another type
	"query P { i } query Q ($v: Int!) { i @skip(if: $v) }", // wrong type of variable in the second
	"query P ($v: Int) { f(y: 1 x: $v) } query Q { i }",
	"{ a { i(x: 1) zz } ... on B { i } }",          // several errors
	"fragment F on A { a(x: $v) } query P { a { ...F } }", // undefined variable by way of a fragment
};
constexpr unsigned documents = sizeof pool / sizeof *pool;
struct Result
{
	bool parsed = false;
	std::string errors, again;
	R::Value value;
};
static std::string list(std::list<S::schema_error> errors)
{
	std::string s;
	for (auto& e : errors) s += e.message + " @" + sx::num(unsigned(e.location.line)) + ":" + sx::num(unsigned(e.location.column)) + "; ";
	return s;
}
static R::Value variables(bool given, int v)
{
	auto vars = vmap();
	if (given) put(vars, "v", vint(v));
	return vars;
}
static Result all(Svc& svc, unsigned d, bool given, int v)
{
	Result r;
	try
	{
		auto ast = parse(pool[d]);
		r.parsed = true;
		r.errors = list(svc.validate(ast));
		r.again = list(svc.validate(ast));
		r.value = run(svc, ast, d == 15 || d == 16 ? "P" : "", variables(given, v));
	}
	catch (const std::runtime_error& e)
	{
		sx::note("exception", e.what());
	}
	return r;
}
extern "C" void harness_main()
{
	auto arg = argOf();
	Schema m = model();
	m.types.pop_back(); // no subscriptions
	Svc svc(operations(), build(m)), fresh(operations(), build(m));
	if (arg.name == "hist")
	{
		std::vector<P::ast> kept;
		for (unsigned i = 0; i < arg.n; i++)
		{
			std::string l = "h" + sx::num(i);
			unsigned d = sx::choose(l, documents);
			sx::note("earlier", pool[d]);
			try
			{
				auto ast = parse(pool[d]);
				unsigned what = i + 1 < arg.n ? 2 : sx::choose(l + "w", 3);
				if (what != 1) svc.validate(ast);
				if (what) run(svc, ast, d == 15 ? "Q" : d == 16 ? "P" : "", variables(true, sx::i32(l + "v")));
				if (what) kept.push_back(std::move(ast));
			}
			catch (const std::runtime_error&) {}
		}
		unsigned d = sx::choose("d", documents);
		sx::note("document", pool[d]);
		bool given = d != 3 && sx::choose("given", 2);
		int v = sx::i32("v");
		auto a = all(svc, d, given, v), b = all(fresh, d, given, v);
		sx::note("after", a.errors);
		sx::note("fresh", b.errors);
		sx::check(a.parsed == b.parsed, "parsing depends on earlier requests");
		sx::check(a.errors == b.errors, "the verdict depends on earlier requests");
		sx::check(a.again == b.errors && b.again == b.errors, "validating again gives another verdict");
		sx::check(same(a.value, b.value), "the result depends on earlier requests");
		sx::cover(b.errors.empty() ? "valid" : "invalid");
	}
	else
	{
		// requests in flight at the same time
		struct Open { std::unique_ptr<P::ast> ast; unsigned d; int v; std::future<R::Value> f; };
		std::vector<Open> open(arg.n);
		static const unsigned some[] = { 1, 2, 16, 11, 4, 10 };
		for (unsigned i = 0; i < arg.n; i++)
		{
			auto& o = open[i];
			std::string l = "r" + sx::num(i);
			o.d = some[sx::choose(l, 6)];
			o.v = sx::i32(l + "v");
			// the same tree may serve several requests
			if (i && o.d == open[0].d && sx::choose(l + "shared", 2)) o.ast = nullptr;
			else o.ast = std::make_unique<P::ast>(parse(pool[o.d]));
			o.f = svc.resolve(std::launch::deferred, nullptr, o.ast ? *o.ast : *open[0].ast, o.d == 16 ? "P" : "", variables(true, o.v));
		}
		std::vector<unsigned> left;
		for (unsigned i = 0; i < arg.n; i++) left.push_back(i);
		for (unsigned i = 0; i < arg.n; i++)
		{
			unsigned c = sx::choose("take" + sx::num(i), unsigned(left.size()));
			auto& o = open[left[c]];
			left.erase(left.begin() + c);
			auto got = o.f.get();
			auto want = all(fresh, o.d, true, o.v);
			sx::check(same(got, want.value), "the result depends on other requests");
			sx::cover("open");
		}
	}
}
