// P11: validation of fields, arguments and selections.
// "field:N" a selection nested N deep whose field names are any lower-case letter or __typename, on the
// root, an object, interfaces and unions, with and without sub-selections.
// "args:N" N arguments with any letter as name and values of several kinds.
// "merge:N" pairs of selections of the same response name below up to N levels of fields and fragments.
#include "vm.h"
using namespace vm;
static char letter(const std::string& l)
{
	unsigned char c = sx::byte(l);
	sx::assume((c >= 'a') & (c <= 'z'));
	return (char)c;
}
static std::vector<Sel> tower(unsigned depth, const std::string& l)
{
	Sel f;
	unsigned kind = sx::choose(l + "k", depth ? 5 : 2);
	f.name = kind == 1 ? std::string("__typename") : std::string(1, letter(l));
	if (kind == 2) f.sub = tower(depth - 1, l + "s");
	if (kind >= 3)
	{
		// the field inside of an inline fragment, next to nothing or a valid field
		f.sub = tower(depth - 1, l + "s");
		Sel in;
		in.kind = 'i';
		if (kind == 4) in.cond = sx::choose(l + "c", 2) ? "B" : "A";
		in.sub = { f };
		return { in };
	}
	return { f };
}
static NamedVal argument(const std::string& l)
{
	NamedVal a;
	a.name = std::string(1, letter(l + "n"));
	switch (sx::choose(l + "v", 4))
	{
		case 0: a.value.kind = 'i', a.value.text = "1"; break;
		case 1: break;
		case 2: a.value.kind = 's', a.value.text = "\"s\""; break;
		case 3: a.value.kind = 'b', a.value.text = "true"; break;
	}
	return a;
}
// a field of the types A, B, N with response name k
static Sel leaf(const std::string& l, unsigned n)
{
	static const char* names[] = { "i", "a", "a", "a", "v", "w", "__typename", "k" };
	unsigned c = sx::choose(l, n);
	Sel s;
	s.alias = "k";
	s.name = names[c];
	Val one;
	one.kind = 'i';
	one.text = "1";
	Val two = one;
	two.text = "2";
	if (c == 2) s.args = { { "x", one } };
	if (c == 3) s.args = { { "x", two } };
	if (c == 5 || c == 7)
	{
		Sel i;
		i.name = "i";
		s.sub = { i };
	}
	return s;
}
static Sel wrap(unsigned depth, const std::string& l, unsigned leaves)
{
	unsigned c = sx::choose(l + "w", depth ? 6 : 1);
	if (c == 0) return leaf(l, leaves);
	Sel s;
	if (c <= 2) s.name = c == 1 ? "m" : "k";
	else s.kind = 'i', s.cond = c == 3 ? "A" : c == 4 ? "B" : "";
	s.sub = { wrap(depth - 1, l + "s", leaves) };
	return s;
}
extern "C" void harness_main()
{
	auto arg = argOf();
	static const Schema m = model();
	auto svc = service(m, build(m));
	Doc d;
	d.ops.resize(1);
	if (arg.name == "field") d.ops[0].sub = tower(arg.n, "f");
	else if (arg.name == "args")
	{
		Sel f;
		f.name = sx::choose("field", 2) ? "f" : "i";
		if (sx::choose("typename", 2)) sx::assume(f.name == "i"), f.name = "__typename";
		unsigned n = sx::choose("n", arg.n + 1);
		for (unsigned i = 0; i < n; i++) f.args.push_back(argument("a" + sx::num(i)));
		if (sx::choose("second", 2))
		{
			// the same response name for the second time, where the arguments count just as much
			Sel g = f;
			g.args.clear();
			unsigned n = sx::choose("n2", 2);
			for (unsigned i = 0; i < n; i++) g.args.push_back(argument("b" + sx::num(i)));
			d.ops[0].sub.push_back(g);
		}
		d.ops[0].sub.push_back(f);
	}
	else
	{
		unsigned leaves = arg.n > 1 ? 5 : 8;
		Sel a = wrap(arg.n, "a", leaves), b = wrap(arg.n, "b", leaves), root;
		root.name = "n";
		bool frag = sx::choose("fragment", 2);
		if (frag)
		{
			Sel s;
			s.kind = 's';
			s.name = "F";
			d.frags = { { "F", sx::choose("cond", 2) ? "A" : "N", {}, { a } } };
			d.fragsFirst = sx::choose("first", 2);
			a = s;
		}
		root.sub = { a, b };
		if (!frag && sx::choose("twice", 2))
		{
			// the enclosing field written twice
			Sel other = root;
			root.sub = { a };
			other.sub = { b };
			d.ops[0].sub = { root, other };
		}
		else d.ops[0].sub = { root };
	}
	verdict(m, d, *svc);
}
