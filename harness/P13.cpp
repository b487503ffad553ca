// P13: validation of fragments, operations and directives.
// "frag:N" N fragment definitions with repeated names, any type condition, and bodies which spread each
// other, spread from fields of each kind of type.
// "cond:N" N nested inline fragments or spreads whose type conditions are any capital letter, Int, In or Query.
// "ops:N" N operations of any type and name, with root selections; a single operation with up to three.
// "dirs:N" N directives at each location, of any name and with different arguments.
#include "vm.h"
using namespace vm;
static char capital(const std::string& l)
{
	unsigned char c = sx::byte(l);
	sx::assume((c >= 'A') & (c <= 'Z'));
	return (char)c;
}
static std::string condition(const std::string& l)
{
	static const char* named[] = { "Int", "In", "Query", "En" };
	unsigned c = sx::choose(l, 5);
	return c ? std::string(named[c - 1]) : std::string(1, capital(l + "c"));
}
static Sel field(const std::string& name)
{
	Sel s;
	s.name = name;
	return s;
}
static Sel spread(const std::string& name)
{
	Sel s;
	s.kind = 's';
	s.name = name;
	return s;
}
static Sel inlined(const std::string& cond, std::vector<Sel> sub)
{
	Sel s;
	s.kind = 'i';
	s.cond = cond;
	s.sub = std::move(sub);
	return s;
}
static Val val(char kind, std::string text = "")
{
	Val v;
	v.kind = kind;
	v.text = std::move(text);
	return v;
}
static const char* names[] = { "F", "G", "H", "K" };
static Dir directive(const std::string& l, bool all)
{
	static const char* ds[] = { "skip", "any", "op", "def", "mut", "inl", "spr", "include", "zz" };
	Dir d;
	d.name = ds[sx::choose(l, 9)];
	switch (sx::choose(l + "a", all ? 10 : 2))
	{
		case 0: break;
		case 1: d.args = { { "if", val('b', "false") } }; break;
		case 2: d.args = { { "if", val('n') } }; break;
		case 3: d.args = { { "if", val('s', "\"\"") } }; break;
		case 4: d.args = { { "x", val('i', "1") } }; break;
		case 5: d.args = { { "y", val('i', "1") } }; break;
		case 6: d.args = { { "y", val('n') } }; break;
		case 7: d.args = { { "x", val('n') } }; break;
		case 8: d.args = { { "if", val('b', "true") }, { "if", val('b', "true") } }; break;
		case 9: d.args = { { "if", val('b', "true") }, { "x", val('i', "1") } }; break;
	}
	return d;
}
extern "C" void harness_main()
{
	auto arg = argOf();
	static const Schema m = model();
	auto svc = service(m, build(m));
	Doc d;
	d.ops.resize(1);
	if (arg.name == "frag")
	{
		for (unsigned i = 0; i < arg.n; i++)
		{
			std::string l = "f" + sx::num(i);
			Frag f { names[i ? sx::choose(l + "n", i + 1) : 0], sx::choose(l + "c", 2) ? "N" : "A", {}, {} };
			unsigned b = sx::choose(l + "b", 6);
			// the names of the definitions, and one that is not defined unless there are enough of them
			std::string x = b ? names[sx::choose(l + "x", arg.n + 1)] : "";
			Sel k = field("m");
			k.sub = { spread(x) };
			if (b == 0) f.sub = { field("i") };
			else if (b == 1) f.sub = { spread(x) };
			else if (b == 2) f.sub = { field("i"), spread(x) };
			else if (b == 3) f.sub = { k };
			else if (b == 4) f.sub = { inlined("", { spread(x), field("i") }) };
			else f.sub = { spread(x), spread(names[0]) };
			d.frags.push_back(f);
		}
		Sel root = field(sx::choose("root", 2) ? "n" : "a");
		unsigned o = sx::choose("o", 4);
		root.sub = { field("i") };
		if (o == 1) root.sub = { spread(names[0]) };
		if (o == 2) root.sub.push_back(spread(names[sx::choose("ox", arg.n)]));
		if (o == 3) root.sub = { spread(names[0]), inlined("", { spread(names[0]) }) };
		d.ops[0].sub = { root };
		d.fragsFirst = sx::choose("first", 2);
	}
	else if (arg.name == "cond")
	{
		Sel in = field(sx::choose("leaf", 2) ? "i" : "__typename");
		for (unsigned i = 0; i < arg.n; i++)
		{
			std::string l = "c" + sx::num(i);
			if (sx::choose(l + "s", 2))
			{
				d.frags.push_back({ names[d.frags.size()], condition(l), {}, { in } });
				in = spread(d.frags.back().name);
			}
			else in = inlined(sx::choose(l + "n", 2) ? condition(l) : "", { in });
		}
		static const char* fields[] = { "", "a", "b", "n", "u" };
		unsigned f = sx::choose("field", 5);
		if (f)
		{
			Sel s = field(fields[f]);
			s.sub = { in };
			in = s;
		}
		d.ops[0].sub = { in };
		d.fragsFirst = d.frags.size() && sx::choose("first", 2);
	}
	else if (arg.name == "ops")
	{
		static const char* types[] = { "", "query", "mutation", "subscription" };
		bool used = false;
		d.ops.resize(arg.n);
		for (unsigned i = 0; i < arg.n; i++)
		{
			std::string l = "o" + sx::num(i);
			auto& o = d.ops[i];
			o.type = types[sx::choose(l, 4)];
			if (!o.type.empty())
				if (unsigned n = sx::choose(l + "n", 3)) o.name = n == 1 ? "P" : "Q";
			// the selections matter in subscriptions most
			unsigned most = arg.n == 1 ? 7 : 2, n = arg.n == 1 ? 1 + sx::choose(l + "two", 3) : 1;
			for (unsigned k = 0; k < n; k++)
			{
				Sel s = field("i");
				unsigned c = sx::choose(l + "s" + sx::num(k), most);
				if (c == 1) s = field("a"), s.sub = { field("i"), field("m") }, s.sub[1].sub = { field("i") };
				if (c == 2) s.alias = "k";
				if (c == 3) s.name = "__typename";
				if (c == 4) s = inlined("", { s });
				if (c == 5) s.alias = "k", s = inlined("Subscription", { field("i"), s });
				if (c == 6) s = spread("F"), used = true;
				o.sub.push_back(s);
			}
		}
		if (used)
		{
			d.frags = { { "F", "Subscription", {}, { field("i") } } };
			if (sx::choose("fragment", 2)) d.frags[0].sub.push_back(field("a")), d.frags[0].sub[1].sub = { field("i") };
		}
		d.fragsFirst = used && sx::choose("first", 2);
	}
	else
	{
		static const char* types[] = { "query", "mutation", "subscription" };
		unsigned where = sx::choose("where", 7);
		auto& o = d.ops[0];
		o.type = types[where < 3 ? where : 0];
		std::vector<Dir> ds;
		for (unsigned i = 0; i < arg.n; i++)
			if (!i || sx::choose("more", 2)) ds.push_back(directive("d" + sx::num(i), i == 0));
		o.sub = { field("i") };
		if (where < 3) o.dirs = ds;
		else if (where == 3) o.sub[0].dirs = ds;
		else if (where == 4) o.sub = { inlined(sx::choose("cond", 2) ? "Query" : "", o.sub) }, o.sub[0].dirs = ds;
		else
		{
			d.frags = { { "F", "Query", {}, o.sub } };
			o.sub = { spread("F") };
			(where == 5 ? d.frags[0].dirs : o.sub[0].dirs) = ds;
			d.fragsFirst = sx::choose("first", 2);
		}
	}
	verdict(m, d, *svc);
}
