// P12: validation of input values and variables.
// "lit:N" a literal nested N deep for an argument of each of the types of the pool; object keys are any letter.
// "use:N" a variable of any declared type (N levels of wrapping), with and without default, used at an argument,
// in a list, an input object, a custom scalar, a directive, directly or through fragments.
// "decl:N" N variable definitions and uses with any letter as name, in two operations sharing a fragment.
#include "vm.h"
using namespace vm;
static char letter(const std::string& l, char a, char b)
{
	unsigned char c = sx::byte(l);
	sx::assume((c >= (unsigned char)a) & (c <= (unsigned char)b));
	return (char)c;
}
static Val val(char kind, std::string text = "")
{
	Val v;
	v.kind = kind;
	v.text = std::move(text);
	return v;
}
static Val literal(unsigned depth, const std::string& l, unsigned scalars = 9, bool wide = false)
{
	unsigned c = sx::choose(l, depth ? scalars + 2 : scalars);
	if (c < scalars)
		switch (c)
		{
			case 0: return val('n');
			case 1: return val('i', "1");
			case 2: return val('e', "RED");
			case 3: return val('s', "\"AQ==\"");
			case 4: return val('f', "1.5");
			case 5: return val('b', sx::choose(l + "b", 2) ? "true" : "false");
			case 6: return val('s', "\"A\"");
			case 7: return val('e', std::string(1, letter(l + "e", 'A', 'Z')) + "LUE");
			case 8: return val('s', "\"\"");
		}
	Val v = val(c == scalars ? 'l' : 'o');
	unsigned n = sx::choose(l + "n", wide ? 4 : 3);
	for (unsigned i = 0; i < n; i++)
	{
		// one item of each container is deep, the others are plain
		v.items.push_back(literal(i ? 0 : depth - 1, l + sx::num(i), i || wide ? 3 : scalars));
		if (v.kind == 'o') v.keys.push_back(std::string(1, letter(l + "k" + sx::num(i), 'a', 'z')));
	}
	return v;
}
static std::string type(unsigned wrap, const std::string& l)
{
	static const char* named[] = { "Int", "Boolean", "In", "Any", "En", "A", "Zz", "U", "N" };
	unsigned c = sx::choose(l, wrap ? 11 : 9);
	if (c < 9) return named[c];
	if (c == 9) return "[" + type(wrap - 1, l + "i") + "]";
	std::string t = type(wrap - 1, l + "i");
	sx::assume(!nonNull(t));
	return t + "!";
}
static Sel field(const std::string& name)
{
	Sel s;
	s.name = name;
	return s;
}
extern "C" void harness_main()
{
	auto arg = argOf();
	static const Schema m = model(true);
	auto svc = service(m, build(m));
	Doc d;
	d.ops.resize(1);
	if (arg.name == "lit")
	{
		unsigned i = sx::choose("slot", unsigned(slots().size()));
		Sel f = field("t" + sx::num(i));
		if (sx::choose("arg", 2)) f.args = { { "x", literal(arg.n, "v") } };
		d.ops[0].sub = { f };
	}
	else if (arg.name == "obj")
	{
		// up to three fields of an input object or a custom scalar
		Sel f = field(sx::choose("slot", 2) ? "t9" : "t8");
		f.args = { { "x", literal(1, "v", 9, true) } };
		sx::assume(f.args[0].value.kind == 'o');
		d.ops[0].sub = { f };
	}
	else if (arg.name == "use")
	{
		auto& op = d.ops[0];
		op.type = "query";
		Var v { "v", type(arg.n, "t"), false, {} };
		if (sx::choose("def", 2))
		{
			v.hasDef = true;
			v.def = literal(1, "d", 4);
			sx::assume(v.def.items.size() < 2 && (v.def.items.empty() || v.def.items[0].kind != 'e'));
		}
		op.vars = { v };
		Val u = val('v', "v");
		Sel f;
		unsigned where = sx::choose("where", 6);
		if (where < 3)
		{
			// an argument, alone or in a list
			f = field("t" + sx::num(sx::choose("slot", unsigned(slots().size()))));
			Val x = u;
			for (unsigned i = 0; i < where; i++)
			{
				Val list = val('l');
				list.items = { x };
				if (i == 0 && sx::choose("more", 2)) list.items.push_back(val('n'));
				x = list;
			}
			f.args = { { "x", x } };
		}
		else if (where == 3 || where == 4)
		{
			// a field of an input object (t8 is In) or of a custom scalar (t9 is Any)
			f = field(where == 3 ? "t8" : "t9");
			Val o = val('o');
			o.keys = { "p" };
			o.items = { val('i', "1") };
			const char* keys[] = { "p", "q", "r", "t" };
			unsigned k = sx::choose("key", 4);
			Val x = u;
			if (k == 2 && sx::choose("list", 2)) x = val('l'), x.items = { u };
			if (k == 0) o.items[0] = x;
			else o.keys.push_back(keys[k]), o.items.push_back(x);
			f.args = { { "x", o } };
		}
		else
		{
			f = field("i");
			f.dirs = { { "skip", { { "if", u } } } };
		}
		unsigned how = v.hasDef ? 0 : sx::choose("how", 3);
		Rules r { m, d };
		sx::assume(r.input(v.type) || (where == 5 && how == 0));
		if (how == 0) op.sub = { f };
		else
		{
			Sel s;
			s.kind = 's';
			s.name = "F";
			op.sub = { s };
			d.frags = { { "F", "Query", {}, { f } } };
			if (how == 2)
			{
				s.name = "G";
				d.frags[0].sub = { s };
				d.frags.push_back({ "G", "Query", {}, { f } });
			}
			d.fragsFirst = sx::choose("first", 2);
		}
	}
	else
	{
		// definitions and uses by name; the fragment is shared by both operations
		unsigned ops = 1 + sx::choose("ops", 2), uses = 0;
		bool frag = sx::choose("frag", 2);
		Sel spread;
		spread.kind = 's';
		spread.name = "F";
		// one of three names in the quick tier
		auto letter = [&](const std::string& l, char a, char b) { return arg.n > 2 ? ::letter(l, a, b) : sx::choose(l, 3)["abc"]; };
		auto use = [&](const std::string& l) {
			Sel f = field("f");
			f.alias = "k" + sx::num(uses++);
			f.args = { { "y", val('i', "1") }, { "x", val('v', std::string(1, letter(l, 'a', 'z'))) } };
			return f;
		};
		if (frag) d.frags = { { "F", "Query", {}, { use("fu") } } };
		d.ops.resize(ops);
		for (unsigned i = 0; i < ops; i++)
		{
			auto& op = d.ops[i];
			std::string l = "o" + sx::num(i);
			op.type = "query";
			op.name = i ? "P" : "O";
			unsigned n = sx::choose(l + "n", i || ops > 1 ? 2 : arg.n + (arg.n < 3));
			for (unsigned k = 0; k < n; k++)
				op.vars.push_back({ std::string(1, letter(l + "v" + sx::num(k), 'a', 'z')), "Int", false, {} });
			if ((arg.n < 3 || i + 1 == ops) && sx::choose(l + "u", 2)) op.sub.push_back(use(l + "u0"));
			if (frag && (i || sx::choose(l + "s", 2))) op.sub.push_back(spread);
			if (op.sub.empty()) op.sub.push_back(field("i"));
		}
		d.fragsFirst = frag && sx::choose("first", 2);
	}
	verdict(m, d, *svc);
}
