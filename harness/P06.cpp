// P06: typed arguments are converted exactly or rejected.
// "T:D" ModifiedArgument<T> with every nesting of list and nullable up to three levels, on values of
// every kind with lists of length 0..2 nested D deep. T: int float str bool id enum any.
// "input" generated conversion of an input object; "field" a generated resolver with a default.
#include "svc.h"
#include "TodaySchema.h"
#include <optional>
namespace today = graphql::today;
using TM = S::TypeModifier;
// ---- any value ----------------------------------------------------------------------------------
static std::string kind;
static R::Value text(const std::string& p)
{
	R::Value v;
	if (kind == "id")
	{
		const char* t[] = { "", "QQ==", "QUJD", "QUI=" };
		unsigned c = sx::choose(p + "s", 5);
		v = c == 4 ? vstr(std::string(1, sx::oneOf(p + "c", "Q="))) : vstr(t[c]);
	}
	else if (kind == "enum")
	{
		const char* t[] = { "New", "Complete", "NEW", "" };
		v = vstr(t[sx::choose(p + "s", 4)]);
	}
	else v = vstr(sx::bytes(p + "s", sx::choose(p + "n", 3)));
	return sx::choose(p + "j", 2) ? std::move(v).from_json() : std::move(v);
}
static R::Value gen(const std::string& p, unsigned depth)
{
	switch (sx::choose(p, depth ? 8 : 7))
	{
		case 0: return R::Value();
		case 1: return vint(sx::i32(p + "i"));
		case 2: return R::Value(sx::choose(p + "f", 2) ? 2.5 : -0.25);
		case 3: return text(p);
		case 4: return R::Value(sx::boolean(p + "b"));
		case 5:
		{
			const char* t[] = { "Started", "started" };
			return venum(t[sx::choose(p + "e", 2)]);
		}
		case 6:
		{
			auto m = vmap();
			put(m, "arg", vint(sx::i32(p + "m")));
			return m;
		}
		default:
		{
			auto l = vlist();
			for (unsigned i = 0, n = sx::choose(p + "len", 3); i < n; i++) l.emplace_back(gen(p + sx::num(i), depth - 1));
			return l;
		}
	}
}
// ---- results as values --------------------------------------------------------------------------
static R::Value show_(int v) { return vint(v); }
static R::Value show_(double v) { return R::Value(v); }
static R::Value show_(bool v) { return R::Value(v); }
static R::Value show_(const std::string& v) { return vstr(v); }
static R::Value show_(const R::IdType& v) { return vstr(std::string(v.begin(), v.end())); }
static R::Value show_(today::TaskState v)
{
	const char* n[] = { "New", "Started", "Complete", "Unassigned" };
	return venum(n[(unsigned)v]);
}
static R::Value show_(const R::Value& v) { return R::Value(v); }
template <typename T> static R::Value show_(const std::vector<T>& v);
template <typename T> static R::Value show_(const std::optional<T>& v) { return v ? show_(*v) : R::Value(); }
template <typename T> static R::Value show_(const std::vector<T>& v)
{
	auto l = vlist();
	for (size_t i = 0; i < v.size(); i++)
	{
		if constexpr (std::is_same_v<T, bool>) l.emplace_back(R::Value(bool(v[i])));
		else l.emplace_back(show_(v[i]));
	}
	return l;
}
// ---- reference ----------------------------------------------------------------------------------
static bool leafRef(const std::string& t, const R::Value& v, R::Value& out)
{
	auto type = v.type();
	if (t == "int") { if (type != R::Type::Int) return false; out = vint(v.get<int>()); return true; }
	if (t == "float")
	{
		if (type == R::Type::Int) { out = R::Value(double(v.get<int>())); return true; }
		if (type != R::Type::Float) return false;
		out = R::Value(v.get<double>());
		return true;
	}
	if (t == "str") { if (type != R::Type::String) return false; out = vstr(v.get<std::string>()); return true; }
	if (t == "bool") { if (type != R::Type::Boolean) return false; out = R::Value(v.get<bool>()); return true; }
	if (t == "any") { out = R::Value(v); return true; }
	if (t == "id")
	{
		if (type != R::Type::String) return false;
		auto s = v.get<std::string>();
		if (s.empty()) out = vstr("");
		else if (s == "QQ==") out = vstr("A");
		else if (s == "QUJD") out = vstr("ABC");
		else if (s == "QUI=") out = vstr("AB");
		else return false;
		return true;
	}
	if (type != R::Type::EnumValue && !(type == R::Type::String && v.maybe_enum())) return false;
	auto s = v.get<std::string>();
	if (s != "New" && s != "Started" && s != "Complete" && s != "Unassigned") return false;
	out = venum(s);
	return true;
}
static bool ref(const std::string& t, const R::Value* v, std::vector<TM> mods, R::Value& out)
{
	if (mods.empty()) return v && leafRef(t, *v, out);
	TM m = mods.front();
	mods.erase(mods.begin());
	if (m == TM::Nullable)
	{
		if (!v || v->type() == R::Type::Null) { out = R::Value(); return true; }
		return ref(t, v, mods, out);
	}
	if (!v || v->type() != R::Type::List) return false;
	out = vlist();
	for (auto& e : v->get<R::ListType>())
	{
		R::Value x;
		if (!ref(t, &e, mods, x)) return false;
		out.emplace_back(std::move(x));
	}
	return true;
}
static bool named(const std::string& text) { return text.find("arg") != std::string::npos; }
template <typename T, TM... M>
static void convert(const R::Value& args)
{
	R::Value want;
	auto it = args.find("arg");
	bool ok = ref(kind, it == args.end() ? nullptr : &it->second, { M... }, want);
	try
	{
		auto r = S::ModifiedArgument<T>::template require<M...>("arg", args);
		sx::check(ok, "an argument that is missing or of the wrong type is accepted");
		sx::check(same(show_(r), want), "an argument is not converted to the value provided");
		sx::cover("converted");
	}
	catch (S::schema_exception& ex)
	{
		sx::check(!ok, "an argument of the right type is rejected");
		auto errors = ex.getStructuredErrors();
		sx::check(errors.size() == 1 && named(errors.front().message), "the error for an argument does not name it");
		sx::cover("rejected");
	}
	catch (const std::exception&)
	{
		sx::check(!ok, "an argument of the right type is rejected");
		sx::fail("the error for an argument does not name it");
	}
	auto f = S::ModifiedArgument<T>::template find<M...>("arg", args);
	sx::check(f.second == ok, "find does not tell whether the argument can be read");
	if (ok) sx::check(same(show_(f.first), want), "find gives another value than the one provided");
}
template <typename T>
static void all(unsigned depth)
{
	auto args = vmap();
	put(args, "other", vint(1));
	if (sx::choose("given", 2)) put(args, "arg", gen("a", depth));
	put(args, "ar", vint(2));
	sx::note("args", show(args));
	switch (sx::choose("mods", 9))
	{
		case 0: return convert<T>(args);
		case 1: return convert<T, TM::Nullable>(args);
		case 2: return convert<T, TM::List>(args);
		case 3: return convert<T, TM::Nullable, TM::List>(args);
		case 4: return convert<T, TM::List, TM::Nullable>(args);
		case 5: return convert<T, TM::List, TM::List>(args);
		case 6: return convert<T, TM::Nullable, TM::List, TM::Nullable>(args);
		case 7: return convert<T, TM::List, TM::Nullable, TM::List>(args);
		default: return convert<T, TM::List, TM::List, TM::Nullable>(args);
	}
}
// ---- generated input object: CompleteTaskInput { id: ID! testTaskState: TaskState isComplete: Boolean = true clientMutationId: String }
static R::Value small(const std::string& p)
{
	switch (sx::choose(p, 6))
	{
		case 0: return R::Value();
		case 1: return vint(sx::i32(p + "i"));
		case 2: return vstr(sx::choose(p + "s", 2) ? "QUJD" : "?");
		case 3: return R::Value(sx::boolean(p + "b"));
		case 4: return venum(sx::choose(p + "e", 2) ? "Complete" : "Started");
		default: return vlist();
	}
}
static void input()
{
	const char* names[] = { "id", "testTaskState", "isComplete", "clientMutationId" };
	const char* kinds[] = { "id", "enum", "bool", "str" };
	auto args = vmap();
	auto in = vmap();
	bool ok = true;
	R::Value want[4];
	unsigned top = sx::choose("input", 3); // missing, another type, an object
	if (top == 1) put(args, "arg", sx::choose("other", 2) ? R::Value() : vint(3));
	if (top == 2)
	{
		unsigned rev = sx::choose("order", 2);
		for (unsigned k = 0; k < 4; k++)
		{
			unsigned i = rev ? 3 - k : k;
			R::Value v;
			bool given = sx::choose(names[i], 2) != 0;
			if (given) v = small(std::string(names[i]) + "v");
			std::vector<TM> m;
			if (i) m.push_back(TM::Nullable);
			ok = ref(kinds[i], given ? &v : nullptr, m, want[i]) && ok;
			if (i == 2 && !given) want[i] = R::Value(true);
			if (given) put(in, names[i], std::move(v));
		}
		put(args, "arg", std::move(in));
	}
	else ok = false;
	sx::note("args", show(args));
	try
	{
		auto r = S::ModifiedArgument<today::CompleteTaskInput>::require("arg", args);
		sx::check(ok, "an input object that lacks a field or has one of the wrong type is accepted");
		R::Value got[] = { show_(r.id), show_(r.testTaskState), show_(r.isComplete), show_(r.clientMutationId) };
		for (unsigned i = 0; i < 4; i++) sx::check(same(got[i], want[i]), i == 2 ? "a field with a default is not read as provided, or not defaulted when absent" : "a field of an input object is not the value provided");
		sx::cover("converted");
	}
	catch (const S::schema_exception& ex)
	{
		sx::check(!ok, "a valid input object is rejected");
		sx::check(named(ex.what()), "the error for an argument does not name it");
		sx::cover("rejected");
	}
	catch (const std::exception&)
	{
		sx::fail("the error for an argument does not name it");
	}
}
// ---- a generated field with a default: appointmentsById(ids: [ID!]! = ["ZmFrZUFwcG9pbnRtZW50SWQ="])
struct TQuery : today::object::Query
{
	using Query::Query;
	mutable bool called = false;
	mutable std::vector<R::IdType> ids;
	mutable std::optional<int> first, last;
	S::FieldResult<std::vector<std::shared_ptr<today::object::Appointment>>> getAppointmentsById(S::FieldParams&&, std::vector<R::IdType>&& i) const final
	{
		called = true;
		ids = std::move(i);
		return std::vector<std::shared_ptr<today::object::Appointment>> {};
	}
	TQuery() : Query() {}
};
static void field()
{
	kind = "id";
	auto q = std::make_shared<TQuery>();
	Svc svc({ { "query", q } }, today::GetSchema());
	bool var = sx::choose("var", 2) != 0; // through a variable, or nothing given at all
	std::string t = var ? "query Q($v: [ID!]!) { appointmentsById(ids: $v) { id } }" : "{ appointmentsById { id } }";
	auto ast = parse(t);
	auto vars = vmap();
	R::Value want;
	bool ok;
	if (!var)
	{
		ok = true;
		want = vlist();
		want.emplace_back(vstr("fakeAppointmentId"));
	}
	else
	{
		R::Value v = gen("v", 1);
		ok = ref("id", &v, { TM::List }, want);
		put(vars, "v", std::move(v));
	}
	sx::note("vars", show(vars));
	auto r = run(svc, ast, "", std::move(vars));
	sx::note("r", show(r));
	bool error = r.find("errors") != r.end();
	sx::check(q->called == ok, ok ? "a valid argument is rejected" : "an argument of the wrong type is replaced by the default");
	sx::check(error == !ok, "an argument of the wrong type gives no error");
	if (ok) sx::check(same(show_(q->ids), want), "the resolver does not get the argument provided");
	else sx::check(r["errors"][0]["message"].get<std::string>().find("ids") != std::string::npos, "the error for an argument does not name it");
	sx::cover(ok ? var ? "given" : "default" : "rejected");
}
extern "C" void harness_main()
{
	auto arg = argOf();
	kind = arg.name;
	if (kind == "int") all<int>(arg.n);
	else if (kind == "float") all<double>(arg.n);
	else if (kind == "str") all<std::string>(arg.n);
	else if (kind == "bool") all<bool>(arg.n);
	else if (kind == "id") all<R::IdType>(arg.n);
	else if (kind == "enum") all<today::TaskState>(arg.n);
	else if (kind == "any") all<R::Value>(arg.n);
	else if (kind == "input") input();
	else field();
}
