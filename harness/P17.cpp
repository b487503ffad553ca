// P17: events reach exactly the live, matching subscriptions.
// "hist:N" N calls, each a subscribe, an unsubscribe or a deliver of any kind, against a model of the
// live subscriptions.
// "match:K" one subscription with K arguments whose values are symbolic, filters of every kind.
// "doc" the ways to write a subscription: fragments, several operations, variables with defaults.
// "again" callbacks that throw, subscribe, unsubscribe or deliver.
// "hook" the notifications of the asynchronous subscribe and unsubscribe.
#include "world.h"
#include <deque>
using TM = S::TypeModifier;
static int event = 0;                // what the event being delivered carries
static std::vector<std::string> hooks; // resolver contexts seen by the default object
static std::shared_ptr<S::Object> item(int id, const std::string& tag)
{
	return std::make_shared<Obj>(S::TypeNames { "Item" },
		S::ResolverMap {
			{ "id", [id](S::ResolverParams&& p) { return S::IntResult::convert(id, std::move(p)); } },
			{ "tag", [tag](S::ResolverParams&& p) { return S::StringResult::convert(std::string(tag), std::move(p)); } },
			{ "event", [](S::ResolverParams&& p) { return S::IntResult::convert(event, std::move(p)); } },
			{ "__typename", [](S::ResolverParams&& p) { return S::StringResult::convert("Item", std::move(p)); } },
		});
}
static std::shared_ptr<S::Object> payload(bool isDefault)
{
	auto log = [isDefault](const S::ResolverParams& p) {
		if (!isDefault) return;
		if (p.resolverContext == S::ResolverContext::NotifySubscribe) hooks.push_back("subscribe " + std::string(p.fieldName));
		if (p.resolverContext == S::ResolverContext::NotifyUnsubscribe) hooks.push_back("unsubscribe " + std::string(p.fieldName));
	};
	return std::make_shared<Obj>(S::TypeNames { "Subscription" },
		S::ResolverMap {
			{ "tick", [log](S::ResolverParams&& p) { log(p); return S::IntResult::convert(event, std::move(p)); } },
			{ "item", [log](S::ResolverParams&& p) {
				 log(p);
				 auto id = S::IntArgument::require<TM::Nullable>("id", p.arguments);
				 auto tag = S::StringArgument::require<TM::Nullable>("tag", p.arguments);
				 return S::ObjectResult::convert(item(id ? *id : 0, tag ? *tag : "none"), std::move(p));
			 } },
			{ "__typename", [](S::ResolverParams&& p) { return S::StringResult::convert("Subscription", std::move(p)); } },
		});
}
static std::shared_ptr<G::Schema> schema()
{
	auto s = std::make_shared<G::Schema>(false);
	graphql::introspection::AddTypesToSchema(s);
	auto q = G::ObjectType::Make("Query", ""), i = G::ObjectType::Make("Item", ""), u = G::ObjectType::Make("Subscription", "");
	auto in = G::InputObjectType::Make("In", "");
	s->AddType("Query", q);
	s->AddType("Item", i);
	s->AddType("Subscription", u);
	s->AddType("In", in);
	q->AddFields(fields(s, { { "i", "Int" } }));
	i->AddFields(fields(s, { { "id", "Int!" }, { "tag", "String!" }, { "event", "Int!" } }));
	u->AddFields(fields(s, { { "tick", "Int!" }, { "item", "Item!", { { "id", "Int" }, { "tag", "String" }, { "list", "[Int]" }, { "in", "In" } } } }));
	in->AddInputValues(inputs(s, { { "x", "Int" }, { "y", "[Int]" } }));
	s->AddDirective(G::Directive::Make("when", "", { DirectiveLocation::FIELD }, inputs(s, { { "n", "Int" } })));
	s->AddQueryType(q);
	s->AddSubscriptionType(u);
	return s;
}
static std::shared_ptr<Svc> service(bool withDefault = true)
{
	auto q = std::make_shared<Obj>(S::TypeNames { "Query" }, S::ResolverMap { { "i", [](S::ResolverParams&& p) { return S::IntResult::convert(1, std::move(p)); } } });
	return std::make_shared<Svc>(S::TypeMap { { "query", q }, { "subscription", withDefault ? payload(true) : nullptr } }, schema());
}
struct Sub
{
	S::SubscriptionKey key;
	std::string field;
	R::Value args = vmap();
	R::Value when; // arguments of @when, null without
	int id = 0;
	std::string tag = "none";
	unsigned shape = 0; // what is selected
	unsigned calls = 0;
	R::Value got;
	bool live = true;
};
static std::deque<Sub> subs;
static S::SubscriptionParams params(const std::string& text, const std::string& op = "", R::Value&& vars = vmap())
{
	sx::note("text" , text);
	return S::SubscriptionParams { nullptr, parse(text), op, std::move(vars) };
}
static S::SubscriptionCallback callback(size_t n)
{
	return [n](std::future<R::Value> f) {
		subs[n].calls++;
		subs[n].got = f.get();
	};
}
static R::Value expected(const Sub& s)
{
	auto v = vmap(), d = vmap(), o = vmap();
	if (s.field == "tick") put(d, "tick", vint(event));
	else
	{
		put(o, "id", vint(s.id));
		if (s.shape == 1) put(o, "t", vstr(s.tag));
		put(o, "event", vint(event));
		put(d, s.shape == 1 ? "x" : "item", std::move(o));
	}
	put(v, "data", std::move(d));
	return v;
}
static R::Value copy(const R::Value& v) { return R::Value(v); }
static bool matches(const Sub& s, const std::string& name, const S::SubscriptionArguments* args)
{
	if (!s.live || s.field != name) return false;
	if (!args) return true;
	for (auto& a : s.args.get<R::MapType>())
	{
		auto it = args->find(a.first);
		if (it == args->end()) return false;
		if (!sx::branch(same(it->second, a.second))) return false;
	}
	return true;
}
// ---- histories ----------------------------------------------------------------------------------
static void subscribe(const std::shared_ptr<Svc>& svc, unsigned step, std::launch launch)
{
	std::string l = "s" + sx::num(step);
	Sub s;
	std::string text;
	auto vars = vmap();
	switch (sx::choose(l, 4))
	{
		case 0:
			text = "subscription { tick }";
			s.field = "tick";
			break;
		case 1:
			text = "subscription { item(id: 1) { id event } }";
			s.field = "item";
			s.id = 1;
			put(s.args, "id", vint(1));
			break;
		case 2:
			text = "subscription S($v: Int, $t: String = \"d\") { x: item(id: $v, tag: $t) { id t: tag event } }";
			s.field = "item";
			s.shape = 1;
			s.id = sx::i32(l + "v");
			s.tag = "d";
			put(s.args, "id", vint(s.id));
			put(s.args, "tag", vstr("d"));
			put(vars, "v", vint(s.id));
			break;
		default:
			text = "subscription { item { id event } }";
			s.field = "item";
	}
	size_t n = subs.size();
	subs.push_back(std::move(s));
	if (sx::choose(l + "a", 2)) subs[n].key = svc->subscribe(launch, params(text, "", std::move(vars)), callback(n)).get();
	else subs[n].key = svc->subscribe(params(text, "", std::move(vars)), callback(n));
	for (size_t i = 0; i < n; i++) sx::check(!subs[i].live || subs[i].key != subs[n].key, "two live subscriptions have the same key");
	sx::cover("subscribed");
}
static void deliver(const std::shared_ptr<Svc>& svc, unsigned step, std::launch launch)
{
	std::string l = "d" + sx::num(step);
	event = 100 + int(step);
	for (auto& s : subs) s.calls = 0, s.got = R::Value();
	auto object = payload(false);
	std::vector<bool> want;
	S::SubscriptionArguments args;
	switch (sx::choose(l, 4))
	{
		case 0:
			svc->deliver(launch, "tick", object);
			for (auto& s : subs) want.push_back(matches(s, "tick", nullptr));
			break;
		case 1:
			args.emplace("id", vint(sx::i32(l + "v")));
			args.emplace("tag", vstr("d"));
			svc->deliver(launch, "item", args, object);
			for (auto& s : subs) want.push_back(matches(s, "item", &args));
			break;
		case 2:
			svc->deliver(launch, "item", [](R::MapType::const_reference) noexcept { return true; }, nullptr);
			for (auto& s : subs) want.push_back(matches(s, "item", nullptr));
			break;
		default:
			svc->deliver(launch, "unknown", object);
			for (auto& s : subs) (void)s, want.push_back(false);
	}
	for (size_t i = 0; i < subs.size(); i++)
	{
		sx::note("got", show(subs[i].got));
		sx::check(!want[i] || subs[i].calls > 0, "an event does not reach a subscription it matches");
		sx::check(want[i] || subs[i].calls == 0, "an event reaches a subscription it does not match");
		sx::check(subs[i].calls <= 1, "an event reaches a subscription more than once");
		if (!want[i]) continue;
		sx::note("want", show(expected(subs[i])));
		sx::check(same(subs[i].got, expected(subs[i])), "an event is evaluated with another selection or variables");
		sx::cover("delivered");
	}
}
static void unsubscribe(const std::shared_ptr<Svc>& svc, unsigned step, std::launch launch)
{
	std::string l = "u" + sx::num(step);
	sx::assume(!subs.empty());
	auto& s = subs[sx::choose(l, (unsigned)subs.size())];
	bool async = sx::choose(l + "a", 2);
	if (!s.live)
	{
		// its key may be in use again: only keys nobody has any more
		for (auto& o : subs) sx::assume(!o.live || o.key != s.key);
		sx::assume(!async);
	}
	if (async) svc->unsubscribe(launch, s.key).get();
	else svc->unsubscribe(s.key);
	s.live = false;
	sx::cover("unsubscribed");
}
static void history(unsigned n)
{
	auto svc = service();
	auto launch = sx::choose("launch", 2) ? std::launch::async : std::launch::deferred;
	for (unsigned i = 0; i < n; i++)
	{
		// the last step delivers, the first one subscribes
		unsigned c = i == 0 ? 0 : i + 1 == n ? 1 : sx::choose("step" + sx::num(i), 3);
		if (c == 0) subscribe(svc, i, launch);
		else if (c == 1) deliver(svc, i, launch);
		else unsubscribe(svc, i, launch);
	}
}
// ---- filters ------------------------------------------------------------------------------------
static std::string word(const std::string& l)
{
	std::string s;
	unsigned n = sx::choose(l + "#", 3);
	for (unsigned i = 0; i < n; i++) s += sx::oneOf(l + sx::num(i), "ab");
	return s;
}
// a value of the argument `name`: 0 id, 1 tag, 2 list, 3 in
static R::Value value(unsigned name, const std::string& l)
{
	if (!sx::choose(l + "null", 2)) return R::Value();
	auto list = [](const std::string& l) {
		auto v = vlist();
		for (unsigned i = 0, n = sx::choose(l + "n", 3); i < n; i++) v.emplace_back(vint(sx::i32(l + sx::num(i))));
		return v;
	};
	switch (name)
	{
		case 0: return vint(sx::i32(l));
		case 1: return vstr(word(l));
		case 2: return list(l);
		default:
		{
			auto v = vmap();
			if (sx::choose(l + "x", 2)) put(v, "x", vint(sx::i32(l + "xv")));
			if (sx::choose(l + "y", 2)) put(v, "y", list(l + "y"));
			return v;
		}
	}
}
static void match(unsigned kinds)
{
	static const char* names[] = { "id", "tag", "list", "in" };
	static const char* types[] = { "Int", "String", "[Int]", "In" };
	auto svc = service();
	unsigned k = sx::choose("kind", 4);
	sx::assume(kinds >> k & 1);
	// an argument given by a variable, and possibly a second one, by a literal
	subs.emplace_back();
	auto& s = subs[0];
	s.field = "item";
	auto v = value(k, "sub");
	put(s.args, names[k], copy(v));
	auto vars = vmap();
	bool json = k == 1 && v.type() == R::Type::String && sx::choose("json", 2); // as response::parseJSON delivers a string
	put(vars, "v", json ? R::Value(copy(v).from_json()) : copy(v));
	bool second = sx::choose("second", 2);
	unsigned o = k == 0 ? 1 : 0;
	if (second) put(s.args, names[o], o ? vstr("a") : vint(3));
	bool when = sx::choose("when", 2);
	std::string text = std::string("subscription ($v: ") + types[k] + ") { item(" + names[k] + ": $v" + (second ? (o ? ", tag: \"a\"" : ", id: 3") : "") + ")" + (when ? " @when(n: 7)" : "") + " { event } }";
	s.key = svc->subscribe(params(text, "", std::move(vars)), callback(0));
	// the event
	event = 5;
	S::SubscriptionArguments args, directives;
	bool has[2] = { sx::choose("has0", 2) == 1, sx::choose("has1", 2) == 1 };
	if (has[0]) args.emplace(names[k], value(k, "ev"));
	if (has[1]) args.emplace(names[o], o ? vstr("a") : vint(3));
	unsigned dir = sx::choose("dir", 3);
	if (dir)
	{
		auto d = vmap();
		put(d, "n", vint(dir == 1 ? 7 : 8));
		directives.emplace("when", std::move(d));
	}
	bool want = matches(s, "item", &args);
	bool wantDir = !when || dir == 1;
	unsigned how = sx::choose("how", 3);
	auto apply = [](const S::SubscriptionArguments& as) {
		return [&as](R::MapType::const_reference r) {
			auto it = as.find(r.first);
			return it != as.end() && sx::branch(same(it->second, r.second));
		};
	};
	if (how == 0) svc->deliver("item", args, directives, payload(false));
	else if (how == 1)
	{
		sx::assume(!when);
		svc->deliver("item", args, payload(false));
	}
	else svc->deliver("item", apply(args), apply(directives), payload(false));
	sx::check(s.calls == (want && wantDir ? 1u : 0u), want && wantDir ? "an event does not reach a subscription whose filters it satisfies" : "an event reaches a subscription whose filters it does not satisfy");
	sx::cover(want && wantDir ? "match" : "mismatch");
}
// ---- documents ----------------------------------------------------------------------------------
struct Case { const char* text; const char* op; const char* field; int id; const char* tag; const char* json; };
static void document()
{
	bool cond = sx::choose("cond", 2);
	static const Case cases[] = {
		{ "subscription { ... on Subscription { tick } }", "", "tick", 0, "", "{tick:E }" },
		{ "subscription { ...F } fragment F on Subscription { tick }", "", "tick", 0, "", "{tick:E }" },
		{ "subscription { ...F } fragment F on Subscription { item(id: 4) { id event } }", "", "item", 4, "", "{item:{id:4 event:E } }" },
		{ "subscription { ... { x: item(id: 4, tag: \"q\") { ...G } } } fragment G on Item { tag ... on Item { event } }", "", "item", 4, "q", "{x:{tag:q event:E } }" },
		{ "subscription { ...F } fragment F on Subscription { ... on Subscription { ...G } } fragment G on Subscription { item(id: 4) { id } }", "", "item", 4, "", "{item:{id:4 } }" },
		{ "subscription A { tick } subscription B { item(id: 1) { id } }", "A", "tick", 0, "", "{tick:E }" },
		{ "subscription A { tick } subscription B { item(id: 1) { id } }", "B", "item", 1, "", "{item:{id:1 } }" },
		{ "query Q { i } subscription S { tick }", "S", "tick", 0, "", "{tick:E }" },
		{ "subscription S { item(id: 1) { id } } query Q { i }", "S", "item", 1, "", "{item:{id:1 } }" },
		{ "subscription ($v: Int = 5) { item(id: $v) { id event } }", "", "item", 5, "", "{item:{id:5 event:E } }" },
		{ "subscription ($t: String = \"dd\", $v: Int) { item(id: 2, tag: $t) { tag id @include(if: $c) } }", "", "", 0, "", "" },
		{ "subscription ($c: Boolean! = true) { item(id: 2) { event id @include(if: $c) } }", "", "item", 2, "", "{item:{event:E id:2 } }" },
		{ "subscription A($v: Int = 5) { item(id: $v) { id } } subscription B($v: Int = 6) { item(id: $v) { id } }", "A", "item", 5, "", "{item:{id:5 } }" },
		{ "subscription A($v: Int = 5) { item(id: $v) { id } } subscription B($v: Int = 6) { item(id: $v) { id } }", "B", "item", 6, "", "{item:{id:6 } }" },
		{ "subscription ($v: Int = 5) { ...F } fragment F on Subscription { item(id: $v) { id event } }", "", "item", 5, "", "{item:{id:5 event:E } }" },
		// rejected
		{ "subscription { tick item(id: 1) { id } }", "", "", 0, "", "" },
		{ "query Q { i } subscription S { tick }", "Q", "", 0, "", "" },
		{ "query Q { i } subscription S { tick }", "X", "", 0, "", "" },
		{ "{ i }", "", "", 0, "", "" },
		{ "subscription { zz }", "", "", 0, "", "" },
		{ "subscription A { tick } subscription B { tick zz }", "A", "", 0, "", "" },
		{ "subscription { ...F } fragment F on Subscription { tick item { id } }", "", "", 0, "", "" },
	};
	unsigned n = sx::choose("case", sizeof cases / sizeof *cases);
	auto& c = cases[n];
	bool withDefault = !cond;
	auto svc = service(withDefault);
	event = 9;
	std::string text = c.text;
	subs.emplace_back();
	bool refused = false;
	try
	{
		subs[0].key = svc->subscribe(params(text, c.op), callback(0));
	}
	catch (const S::schema_exception&)
	{
		refused = true;
	}
	sx::check(refused == !*c.field, refused ? "a subscription is refused" : "something that is not a subscription is accepted");
	if (!refused)
	{
		for (auto name : { "tick", "item", "id" })
		{
			subs[0].calls = 0;
			svc->deliver(name, [&](R::MapType::const_reference r) noexcept {
				if (r.first == "id") return r.second.type() == R::Type::Int && r.second.get<int>() == c.id;
				return r.first == "tag" && r.second.type() == R::Type::String && r.second.get<R::StringType>() == c.tag;
			}, payload(false));
			unsigned want = c.field == std::string(name) ? 1 : 0;
			sx::check(subs[0].calls == want, want ? "an event does not reach the subscription" : "an event for another field reaches the subscription");
		}
		std::string got, want = "{data:" + std::string(c.json) + " }";
		// numbers are rendered as #xxxxxxxx
		std::string e;
		auto hex = [](int i) { return show(vint(i)); };
		for (size_t i = 0; i < want.size(); i++)
		{
			if (want[i] == 'E') e += hex(event);
			else if (want[i] >= '0' && want[i] <= '9') e += hex(want[i] - '0');
			else if (want[i] == 'q') e += "\"q\"";
			else e += want[i];
		}
		got = show(subs[0].got);
		sx::note("got", got);
		sx::note("want", e);
		sx::check(got == e, "the subscription gets another result than its selection and variables give");
		svc->unsubscribe(subs[0].key);
		subs[0].calls = 0;
		svc->deliver(c.field, [](R::MapType::const_reference) noexcept { return true; }, payload(false));
		sx::check(subs[0].calls == 0, "an event reaches a subscription that is gone");
		sx::cover("document");
	}
	else sx::cover("refused");
}
// ---- hooks --------------------------------------------------------------------------------------
static void hook()
{
	bool withDefault = sx::choose("default", 2);
	auto launch = sx::choose("launch", 2) ? std::launch::async : std::launch::deferred;
	auto svc = service(withDefault);
	std::vector<std::string> want;
	unsigned n = 1 + sx::choose("n", 2);
	for (unsigned i = 0; i < n; i++)
	{
		std::string field = sx::choose("f" + sx::num(i), 2) ? "tick" : "item";
		bool async = sx::choose("a" + sx::num(i), 2);
		subs.emplace_back();
		subs[i].field = field;
		auto p = params(field == "tick" ? "subscription { tick }" : "subscription { item(id: 1) { id event } }");
		if (async) subs[i].key = svc->subscribe(launch, std::move(p), callback(i)).get();
		else subs[i].key = svc->subscribe(std::move(p), callback(i));
		if (async && withDefault) want.push_back("subscribe " + field);
		sx::check(hooks == want, "the subscribe notification does not run exactly once");
	}
	unsigned first = sx::choose("first", n);
	for (unsigned j = 0; j < n; j++)
	{
		unsigned i = (first + j) % n;
		bool async = sx::choose("b" + sx::num(i), 2);
		if (async) svc->unsubscribe(launch, subs[i].key).get();
		else svc->unsubscribe(subs[i].key);
		if (async && withDefault) want.push_back("unsubscribe " + subs[i].field);
		sx::check(hooks == want, "the unsubscribe notification does not run exactly once");
		subs[i].live = false;
		for (auto& s : subs) s.calls = 0;
		for (auto f : { "tick", "item" }) svc->deliver(f, [](R::MapType::const_reference) noexcept { return true; }, payload(false));
		for (auto& s : subs) sx::check(s.calls == (s.live ? 1u : 0u), "unsubscribing affects another subscription");
	}
	sx::cover("hooks");
}
// ---- callbacks that do something ------------------------------------------------------------------
static void again()
{
	auto svc = service();
	unsigned n = 3, actor = sx::choose("actor", n), what = sx::choose("what", 6), other = (actor + 1 + sx::choose("other", 2)) % n;
	bool thrown = false, acted = false;
	for (unsigned i = 0; i < n; i++)
	{
		subs.emplace_back();
		subs[i].field = "tick";
		subs[i].key = svc->subscribe(params("subscription { tick }"), [&, i](std::future<R::Value> f) {
			subs[i].calls++;
			subs[i].got = f.get();
			if (i != actor || acted) return;
			acted = true;
			switch (what)
			{
				case 1: throw std::runtime_error("callback");
				case 2: svc->unsubscribe(subs[actor].key); break;
				case 3: svc->unsubscribe(subs[other].key); break;
				case 4:
					subs.emplace_back();
					subs.back().field = "tick";
					subs.back().key = svc->subscribe(params("subscription { tick }"), callback(subs.size() - 1));
					break;
				case 5: svc->deliver("tick", payload(false)); break;
				default: break;
			}
		});
	}
	event = 3;
	try
	{
		svc->deliver("tick", payload(false));
	}
	catch (const std::runtime_error&)
	{
		thrown = true;
	}
	sx::check(!thrown || what == 1, "delivering an event fails");
	for (unsigned i = 0; i < n; i++)
	{
		bool gone = what == 3 && i == other; // unsubscribed while the event is being delivered
		sx::check(subs[i].calls == (what == 5 ? 2u : 1u) || (gone && subs[i].calls == 0), "a callback keeps an event from another subscription");
	}
	if (what == 4) sx::check(subs[3].calls == 0 || subs[3].calls == 1, "an event reaches a new subscription more than once");
	// and afterwards
	for (auto& s : subs) s.calls = 0;
	svc->deliver("tick", payload(false));
	for (unsigned i = 0; i < subs.size(); i++)
	{
		bool gone = (what == 2 && i == actor) || (what == 3 && i == other);
		sx::check(subs[i].calls == (gone ? 0u : 1u), "an event reaches the wrong subscriptions after a callback changed them");
	}
	sx::cover("again");
}
extern "C" void harness_main()
{
	auto arg = argOf();
	if (arg.name == "hist") history(arg.n);
	else if (arg.name == "match") match(arg.n);
	else if (arg.name == "doc") document();
	else if (arg.name == "again") again();
	else hook();
}
