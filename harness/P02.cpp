// P02: response values as containers, against a plain model of what was stored.
// "hist:N" N operations on two values; "map:N" N insertions with arbitrary names; "access" every accessor on a value of
// every type; "id:N" IDs of up to N bytes; "eq:N" equality of two values built from N choices each.
#include "util.h"
#include "graphqlservice/GraphQLResponse.h"
#include <algorithm>
#include <stdexcept>
#include <vector>
using namespace graphql;
using response::Type;
using response::Value;
struct M
{
	Type t = Type::Null;
	bool b = false;
	int i = 0;
	double d = 0;
	std::string s; // String, EnumValue
	int json = 0; // String: 1 may stand for an enum value, 2 not known
	std::vector<std::pair<std::string, M>> m;
	std::vector<M> l; // List; Scalar: the value, if there is one
};
static bool eq(const M& a, const M& b)
{
	if (a.t != b.t) return false;
	switch (a.t)
	{
		case Type::Boolean: return sx::branch(a.b == b.b);
		case Type::Int: return sx::branch(a.i == b.i);
		case Type::Float: return a.d == b.d;
		case Type::String: case Type::EnumValue: return sx::branch(sx::eqBytes(a.s, b.s));
		case Type::Map:
			if (a.m.size() != b.m.size()) return false;
			for (size_t i = 0; i < a.m.size(); i++)
				if (!sx::branch(sx::eqBytes(a.m[i].first, b.m[i].first)) || !eq(a.m[i].second, b.m[i].second)) return false;
			return true;
		case Type::List: case Type::Scalar:
			if (a.l.size() != b.l.size()) return false;
			for (size_t i = 0; i < a.l.size(); i++)
				if (!eq(a.l[i], b.l[i])) return false;
			return true;
		default: return true;
	}
}
template <class F> static bool throws(F f)
{
	try { f(); } catch (const std::exception&) { return true; }
	return false;
}
template <class T> static bool refusesGet(const Value& v) { return throws([&] { (void)v.get<T>(); }); }
static std::string tail(const char* what, const std::string& at) { return std::string(what) + (at.empty() ? "" : " at " + at); }
// everything that can be read of v is what the model says
static void same(const Value& v, const M& m, const std::string& at, bool deep = true)
{
	sx::check(v.type() == m.t, tail("the type of a value is not the one stored", at));
	auto scalarBad = [&] { return refusesGet<response::ScalarType>(v); };
	switch (m.t)
	{
		case Type::Boolean: sx::check(v.get<bool>() == m.b, tail("a Boolean reads differently from what was stored", at)); break;
		case Type::Int:
			sx::check(v.get<int>() == m.i, tail("an Int reads differently from what was stored", at));
			break;
		case Type::Float: sx::check(v.get<double>() == m.d, tail("a Float reads differently from what was stored", at)); break;
		case Type::String: case Type::EnumValue:
			sx::check(sx::eqBytes(v.get<std::string>(), m.s), tail("a string reads differently from what was stored", at));
			if (m.t == Type::EnumValue || m.json != 2)
				sx::check(v.maybe_enum() == (m.t == Type::EnumValue || m.json == 1), tail("maybe_enum tells something else", at));
			break;
		case Type::Map:
		{
			sx::check(v.size() == m.m.size(), tail("a map has another number of members", at));
			const auto& raw = v.get<response::MapType>();
			sx::check(raw.size() == m.m.size() && size_t(v.end() - v.begin()) == m.m.size(), tail("a map has another number of members", at));
			size_t i = 0;
			for (auto it = v.begin(); it != v.end(); ++it, ++i)
			{
				sx::check(sx::eqBytes(it->first, m.m[i].first) && sx::eqBytes(raw[i].first, m.m[i].first), tail("the members of a map are not in the order of insertion", at));
				if (deep) same(it->second, m.m[i].second, at + "." + sx::num(unsigned(i)));
				auto f = v.find(m.m[i].first);
				sx::check(f != v.end() && size_t(f - v.begin()) == i, tail("a member is not found by its name", at));
				const Value* p = nullptr;
				sx::check(!throws([&] { p = &v[m.m[i].first]; }) && p == &it->second, tail("a member is not found by its name", at));
			}
			sx::check(v.find("nosuch") == v.end(), tail("a member is found that was never stored", at));
			break;
		}
		case Type::List:
		{
			sx::check(v.size() == m.l.size() && v.get<response::ListType>().size() == m.l.size(), tail("a list has another length", at));
			for (size_t i = 0; i < m.l.size(); i++)
			{
				sx::check(&v[i] == &v.get<response::ListType>()[i], tail("a list item is not found by its index", at));
				if (deep) same(v[i], m.l[i], at + "." + sx::num(unsigned(i)));
			}
			size_t n = m.l.size();
			sx::check(throws([&] { (void)v[n]; }), tail("reading beyond the end of a list does not fail", at));
			break;
		}
		case Type::Scalar:
			if (m.l.empty()) sx::check(scalarBad(), tail("a scalar without a value can be read", at));
			else same(v.get<response::ScalarType>(), m.l[0], at + ".scalar");
			break;
		default: break;
	}
	if (m.t != Type::Scalar) sx::check(scalarBad(), tail("a value is read as a type it does not have", at));
	sx::check(refusesGet<response::MapType>(v) == (m.t != Type::Map) && refusesGet<response::ListType>(v) == (m.t != Type::List)
			&& refusesGet<bool>(v) == (m.t != Type::Boolean) && refusesGet<int>(v) == (m.t != Type::Int)
			&& refusesGet<double>(v) == (m.t != Type::Float && m.t != Type::Int)
			&& refusesGet<std::string>(v) == (m.t != Type::String && m.t != Type::EnumValue)
			&& (m.t == Type::String || refusesGet<response::IdType>(v)),
		tail("a value is read as a type it does not have", at));
}
static M mInt(int i) { M m; m.t = Type::Int; m.i = i; return m; }
static M mOf(Type t) { M m; m.t = t; return m; }
// ---- hist ----
static void history(unsigned N)
{
	Value v[2];
	M m[2];
	unsigned fresh = 0;
	auto letter = [&](const char* n) { return std::string(1, sx::oneOf(n + sx::num(fresh++), "abc")); };
	// start
	static const Type starts[] = { Type::Map, Type::List, Type::String, Type::Scalar, Type::EnumValue };
	for (unsigned s = 0; s < 2; s++)
	{
		Type t = starts[sx::choose("start" + sx::num(s), s ? 5 : 4)];
		v[s] = Value(t);
		m[s] = mOf(t);
		if (t == Type::Map)
		{
			std::string k = letter("k");
			int x = sx::i32("x" + sx::num(s));
			v[s].emplace_back(std::string(k), Value(x));
			m[s].m.emplace_back(k, mInt(x));
		}
		else if (t == Type::List)
		{
			std::string k = letter("i");
			v[s].emplace_back(Value(std::string(k)));
			M i = mOf(Type::String);
			i.s = k;
			m[s].l.push_back(i);
		}
		else if (t == Type::Scalar)
		{
			if (sx::choose("filled" + sx::num(s), 2))
			{
				std::string k = letter("c");
				v[s].set<response::ScalarType>(Value(std::string(k)));
				M i = mOf(Type::String);
				i.s = k;
				m[s].l.push_back(i);
			}
		}
		else
		{
			// longer than what a string keeps inside itself, too
			std::string k = letter("c") + (sx::choose("long" + sx::num(s), 2) ? "0123456789abcdefghij" : "");
			v[s].set<std::string>(std::string(k));
			m[s].s = k;
		}
	}
	auto emptied = [](M& x) {
		x.m.clear();
		x.l.clear();
		x.s.clear();
	};
	for (unsigned n = 0; n < N; n++)
	{
		unsigned op = sx::choose("op" + sx::num(n), 14);
		unsigned a = op & 1, b = !a;
		std::string log = sx::num(op);
		switch (op >> 1)
		{
			case 0: // a copy of b
			{
				Value c(static_cast<const Value&>(v[b]));
				sx::check(c == v[b] && v[b] == c && !(c != v[b]), "a copy does not equal its source");
				v[a] = std::move(c);
				m[a] = m[b];
				break;
			}
			case 1: // move
				v[a] = std::move(v[b]);
				m[a] = m[b];
				emptied(m[b]);
				if (m[b].t == Type::String) m[b].json = 2;
				sx::cover("moved");
				break;
			case 2: // insert b in a
				if (m[a].t == Type::Map)
				{
					std::string k = letter("k");
					bool dup = false;
					for (auto& e : m[a].m) dup |= sx::eqBytes(e.first, k);
					dup = sx::branch(dup);
					bool did = false;
					if (dup)
					{
						// whether the value is consumed then is left open
						Value c(static_cast<const Value&>(v[b]));
						did = v[a].emplace_back(std::string(k), std::move(c));
						sx::cover("duplicate");
					}
					else
					{
						did = v[a].emplace_back(std::string(k), std::move(v[b]));
						m[a].m.emplace_back(k, m[b]);
						emptied(m[b]);
						if (m[b].t == Type::String) m[b].json = 2;
					}
					sx::check(did == !dup, dup ? "a second member of the same name is accepted" : "a member of a new name is refused");
				}
				else if (m[a].t == Type::List)
				{
					v[a].emplace_back(std::move(v[b]));
					m[a].l.push_back(m[b]);
					emptied(m[b]);
					if (m[b].t == Type::String) m[b].json = 2;
				}
				else if (m[a].t == Type::Scalar)
				{
					v[a].set<response::ScalarType>(std::move(v[b]));
					M old = m[b];
					m[a].l.clear();
					m[a].l.push_back(old);
					emptied(m[b]);
					if (m[b].t == Type::String) m[b].json = 2;
				}
				else
				{
					std::string k = letter("c");
					v[a].set<std::string>(std::string(k));
					m[a].s = k;
					if (m[a].t == Type::String && m[a].json) m[a].json = 2;
				}
				break;
			case 3: // add a fresh item
				if (m[a].t == Type::Map)
				{
					std::string k = letter("k");
					bool dup = false;
					for (auto& e : m[a].m) dup |= sx::eqBytes(e.first, k);
					dup = sx::branch(dup);
					int x = int(n) + 100;
					bool did = v[a].emplace_back(std::string(k), Value(x));
					sx::check(did == !dup, dup ? "a second member of the same name is accepted" : "a member of a new name is refused");
					if (!dup) m[a].m.emplace_back(k, mInt(x));
				}
				else if (m[a].t == Type::List)
				{
					v[a].reserve(8);
					v[a].emplace_back(Value(true));
					M t = mOf(Type::Boolean);
					t.b = true;
					m[a].l.push_back(t);
				}
				else if (m[a].t == Type::String)
				{
					Value j = v[a].from_json();
					v[a] = std::move(j);
					m[a].json = 1;
				}
				else sx::assume(false);
				break;
			case 4: // release
			{
				if (m[a].t == Type::Map)
				{
					auto r = v[a].release<response::MapType>();
					sx::check(r.size() == m[a].m.size(), "a released map has another number of members");
					for (size_t i = 0; i < r.size(); i++)
					{
						sx::check(sx::eqBytes(r[i].first, m[a].m[i].first), "a released map has other names");
						same(r[i].second, m[a].m[i].second, "released");
					}
				}
				else if (m[a].t == Type::List)
				{
					auto r = v[a].release<response::ListType>();
					sx::check(r.size() == m[a].l.size(), "a released list has another length");
					for (size_t i = 0; i < r.size(); i++) same(r[i], m[a].l[i], "released");
				}
				else if (m[a].t == Type::Scalar)
				{
					if (m[a].l.empty())
						sx::check(throws([&] { (void)v[a].release<response::ScalarType>(); }), "a scalar without a value can be released");
					else
					{
						auto r = v[a].release<response::ScalarType>();
						same(r, m[a].l[0], "released");
					}
				}
				else
				{
					sx::check(sx::eqBytes(v[a].release<std::string>(), m[a].s), "a released string is not the one stored");
					m[a].json = 0;
				}
				emptied(m[a]);
				sx::cover("released");
				break;
			}
			case 5: // assigned to itself
			{
				Value& r = v[a];
				r = std::move(v[a]);
				break;
			}
			case 6: // reserve
				if (m[a].t == Type::Map || m[a].t == Type::List) v[a].reserve(sx::choose("r" + sx::num(n), 2) * 4);
				else sx::check(throws([&] { v[a].reserve(4); }), "reserve on a value that has no size does not fail");
				break;
		}
		for (unsigned s = 0; s < 2; s++) same(v[s], m[s], s ? "b" : "a");
	}
	bool e = eq(m[0], m[1]);
	sx::check((v[0] == v[1]) == e && (v[1] == v[0]) == e && (v[0] != v[1]) == !e, "equality does not tell whether the values are equal");
	if (e) sx::cover("equal");
}
// ---- map ----
static void names(unsigned N)
{
	Value v(Type::Map);
	M m = mOf(Type::Map);
	if (sx::choose("reserve", 2)) v.reserve(N);
	for (unsigned i = 0; i < N; i++)
	{
		std::string k = sx::bytes("k" + sx::num(i), i == 0 ? sx::choose("n0", 3) : 1);
		bool dup = false;
		for (auto& e : m.m) dup |= sx::eqBytes(e.first, k);
		dup = sx::branch(dup);
		bool did = v.emplace_back(std::string(k), Value(int(i)));
		sx::check(did == !dup, dup ? "a second member of the same name is accepted" : "a member of a new name is refused");
		if (!dup) m.m.emplace_back(k, mInt(int(i)));
		else sx::cover("duplicate");
	}
	unsigned how = sx::choose("how", 3);
	Value w;
	if (how == 1) w = Value(static_cast<const Value&>(v));
	else w = std::move(v);
	if (how == 2)
	{
		Value c(static_cast<const Value&>(w));
		w = std::move(c);
	}
	same(w, m, "map");
	// an arbitrary name
	std::string q = sx::bytes("q", 1 + sx::choose("qn", 2));
	size_t want = m.m.size();
	for (size_t i = 0; i < m.m.size(); i++)
		if (sx::branch(sx::eqBytes(m.m[i].first, q))) want = i;
	auto f = w.find(q);
	sx::check(size_t(f - w.begin()) == want, "find does not tell where the name is");
	bool t = throws([&] { (void)w[q]; });
	sx::check(t == (want == m.m.size()), "a missing member can be read, or one that is there cannot");
	bool did = w.emplace_back(std::string(q), Value(-1));
	sx::check(did == (want == m.m.size()), "a second member of the same name is accepted, or a new one refused");
	if (did) m.m.emplace_back(q, mInt(-1));
	same(w, m, "map");
	sx::cover(did ? "missing" : "found");
}
// ---- access ----
static Value make(Type t, M& m, const std::string& p)
{
	Value v(t);
	m = mOf(t);
	switch (t)
	{
		case Type::Boolean: m.b = sx::boolean(p + "b"); if (sx::choose(p + "ctor", 2)) v = Value(bool(m.b)); else v.set<bool>(m.b); break;
		case Type::Int: m.i = sx::i32(p + "i"); if (sx::choose(p + "ctor", 2)) v = Value(int(m.i)); else v.set<int>(m.i); break;
		case Type::Float:
			switch (sx::choose(p + "ctor", 3))
			{
				case 0: m.d = 1.5; v.set<double>(1.5); break;
				case 1: m.d = -0.25; v = Value(-0.25); break;
				case 2: m.d = 7; v.set<int>(7); break; // an Int for a Float is coerced
			}
			break;
		case Type::String: case Type::EnumValue:
			m.s = sx::bytes(p + "s", sx::choose(p + "n", 3));
			if (t == Type::String && sx::choose(p + "ctor", 2)) v = Value(std::string(m.s));
			else v.set<std::string>(std::string(m.s));
			if (t == Type::String && sx::choose(p + "json", 2)) { Value j = v.from_json(); v = std::move(j); m.json = 1; }
			break;
		case Type::Map: m.m.emplace_back("k", mInt(3)); v.emplace_back("k", Value(3)); break;
		case Type::List: m.l.push_back(mInt(4)); v.emplace_back(Value(4)); break;
		case Type::Scalar: if (sx::choose(p + "filled", 2)) { m.l.push_back(mInt(5)); v.set<response::ScalarType>(Value(5)); } break;
		default: break;
	}
	return v;
}
static void access()
{
	Type t = Type(sx::choose("type", 9));
	M m;
	Value v = make(t, m, "");
	same(v, m, "new");
	bool t2 = false, should = false;
	bool text = t == Type::String || t == Type::EnumValue;
	unsigned op = sx::choose("op", 17);
	switch (op)
	{
		case 0: should = !text; t2 = throws([&] { v.set<std::string>("zz"); }); if (text) m.s = "zz"; break;
		case 1: should = t != Type::Boolean; t2 = throws([&] { v.set<bool>(true); }); if (!should) m.b = true; break;
		case 2: should = t != Type::Int && t != Type::Float; t2 = throws([&] { v.set<int>(-9); }); if (t == Type::Int) m.i = -9; if (t == Type::Float) m.d = -9; break;
		case 3: should = t != Type::Float; t2 = throws([&] { v.set<double>(2.5); }); if (!should) m.d = 2.5; break;
		case 4: should = t != Type::Scalar; t2 = throws([&] { v.set<response::ScalarType>(Value(8)); }); if (!should) { m.l.clear(); m.l.push_back(mInt(8)); } break;
		case 5: should = t != Type::String; t2 = throws([&] { v.set<response::IdType>(response::IdType { 1, 2, 3 }); }); if (!should) m.s = "AQID"; break;
		case 6: should = t != Type::Map; t2 = throws([&] { (void)v.release<response::MapType>(); }); if (!should) m.m.clear(); break;
		case 7: should = t != Type::List; t2 = throws([&] { (void)v.release<response::ListType>(); }); if (!should) m.l.clear(); break;
		case 8: should = !text; t2 = throws([&] { (void)v.release<std::string>(); }); if (text) m.s.clear(), m.json = 0; break;
		case 9: should = t != Type::Scalar || m.l.empty(); t2 = throws([&] { (void)v.release<response::ScalarType>(); }); if (!should) m.l.clear(); break;
		case 10: should = t != Type::Map && t != Type::List; t2 = throws([&] { v.reserve(3); }); break;
		case 11: should = t != Type::Map && t != Type::List; t2 = throws([&] { (void)v.size(); }); break;
		case 12: should = t != Type::Map; t2 = throws([&] { v.emplace_back("z", Value(1)); }); if (!should) m.m.emplace_back("z", mInt(1)); break;
		case 13: should = t != Type::Map; t2 = throws([&] { (void)v.find("k"); }) && throws([&] { (void)v.begin(); }) && throws([&] { (void)v.end(); }); break;
		case 14: should = t != Type::Map; t2 = throws([&] { (void)v["k"]; }); break;
		case 15: should = t != Type::List; t2 = throws([&] { v.emplace_back(Value(2)); }); if (!should) m.l.push_back(mInt(2)); break;
		case 16: should = t != Type::List; t2 = throws([&] { (void)v[size_t(0)]; }); break;
	}
	sx::note("op", sx::num(op));
	sx::check(t2 == should, should ? "an operation on a value of the wrong type does not fail" : "an operation on a value of the right type fails");
	if (op == 0 && m.json) m.json = 2;
	if (op == 5 && !should && m.json) m.json = 2;
	same(v, m, "after");
	Value c(static_cast<const Value&>(v));
	sx::check(c == v, "a copy does not equal its source");
	same(c, m, "copy");
	if (t == Type::Int) sx::check(v.get<double>() == static_cast<double>(v.get<int>()), "an Int read as Float has another value");
	sx::cover(should ? "refused" : "done");
}
// ---- id ----
static void ids(unsigned N)
{
	std::string b = sx::bytes("b", sx::choose("n", N + 1));
	response::IdType id(b.begin(), b.end());
	Value v;
	switch (sx::choose("how", 2))
	{
		case 0: v = Value(static_cast<const response::IdType&>(id)); break;
		case 1: v = Value(Type::String); v.set<response::IdType>(id); break;
	}
	sx::check(v.type() == Type::String, "an ID is not stored as a string");
	auto eqId = [&](const response::IdType& x) {
		bool ok = x.size() == id.size();
		for (size_t i = 0; ok && i < id.size(); i++) ok = sx::both(ok, x[i] == id[i]);
		return ok;
	};
	sx::check(eqId(v.get<response::IdType>()), "an ID reads differently from what was stored");
	Value c(static_cast<const Value&>(v));
	sx::check(eqId(v.release<response::IdType>()), "a released ID is not the one stored");
	sx::check(v.get<std::string>().empty(), "a released ID can still be read");
	sx::check(eqId(c.get<response::IdType>()), "releasing an ID changes a copy");
	sx::cover("id");
}
// ---- eq ----
static Value gen(M& m, const std::string& p, unsigned depth)
{
	unsigned k = sx::choose(p + "t", depth ? 10 : 6);
	Value v;
	switch (k)
	{
		case 0: break;
		case 1: m.t = Type::Boolean; m.b = sx::boolean(p + "b"); v = Value(bool(m.b)); break;
		case 2: m.t = Type::Int; m.i = sx::i32(p + "i"); v = Value(int(m.i)); break;
		case 3: m.t = Type::Float; m.d = sx::choose(p + "d", 2) ? 1.0 : 0.5; v = Value(double(m.d)); break;
		case 4: m.t = Type::String; m.s = sx::bytes(p + "s", sx::choose(p + "n", 2)); v = Value(std::string(m.s)); if (sx::choose(p + "j", 2)) { Value j = v.from_json(); v = std::move(j); m.json = 1; } break;
		case 5: m.t = Type::EnumValue; m.s = sx::bytes(p + "s", 1); v = Value(Type::EnumValue); v.set<std::string>(std::string(m.s)); break;
		case 6: m.t = Type::List; v = Value(Type::List); break;
		case 7: m.t = Type::Map; v = Value(Type::Map); break;
		case 8: m.t = Type::Scalar; v = Value(Type::Scalar); break;
		case 9: m.t = Type::Map; v = Value(Type::Map); break;
	}
	if (k >= 6)
	{
		unsigned n = k == 9 ? 2 : k == 8 ? sx::choose(p + "c", 2) : sx::choose(p + "c", k == 6 ? 3 : 2);
		for (unsigned i = 0; i < n; i++)
		{
			M c;
			Value x = k == 9 ? Value(c.i = int(i)) : gen(c, p + sx::num(i), depth - 1);
			if (k == 9) c.t = Type::Int;
			if (m.t == Type::List) v.emplace_back(std::move(x)), m.l.push_back(c);
			else if (m.t == Type::Scalar) v.set<response::ScalarType>(std::move(x)), m.l.push_back(c);
			else
			{
				std::string key = sx::bytes(p + "k" + sx::num(i), 1);
				if (!v.emplace_back(std::string(key), std::move(x))) sx::assume(false);
				m.m.emplace_back(key, c);
			}
		}
	}
	return v;
}
static void equality(unsigned depth)
{
	M a, b;
	Value x = gen(a, "a", depth), y = gen(b, "b", depth);
	bool e = eq(a, b);
	sx::check((x == y) == e && (y == x) == e && (x != y) == !e, "equality does not tell whether the values are equal");
	sx::check(x == x, "a value does not equal itself");
	sx::cover(e ? "equal" : "different");
}
void harness_main()
{
	Arg a = argOf();
	if (a.name == "hist") history(a.n);
	else if (a.name == "map") names(a.n);
	else if (a.name == "access") access();
	else if (a.name == "id") ids(a.n);
	else equality(a.n);
}
