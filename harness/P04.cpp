// P04: the parser accepts exactly the executable grammar and yields the tree of the text.
// "gap:N"  documents with N arbitrary bytes in one gap between tokens   "tok:N"  N arbitrary tokens in a context
// "byte:N" documents of N arbitrary bytes                               "hole:N" N arbitrary bytes in the place of a token
// "type:N" variable types nested N deep                                "deep:N" the work of parsing N levels of nesting
#include "svc.h"
#include "lex.h"
#include "graphqlservice/internal/Grammar.h"
extern "C" unsigned long sx_parse_steps;
using lex::Token;
// ---- reference: recursive descent over the tokens --------------------------------------------------
struct Ref
{
	std::vector<Token> t;
	size_t i = 0;
	bool ok = true;
	std::string out;
	char k() const { return t[i].kind; }
	bool word(const char* w) const { return k() == 'n' && t[i].text.size() == strlen(w) && sx::branch(sx::eqBytes(t[i].text, w)); }
	bool fail() { return ok = false; }
	void pos(const Token& x) { out += "@" + sx::num(x.at) + "." + sx::num(x.line) + "." + sx::num(x.column); }
	bool want(char c) { return k() == c ? (i++, true) : fail(); }
	bool name(const char* tag)
	{
		if (k() != 'n') return fail();
		out += std::string("(") + tag + " " + t[i].text;
		pos(t[i]);
		out += ")";
		i++;
		return true;
	}
	bool variable(const char* tag)
	{
		if (!want('$') || k() != 'n') return fail();
		out += std::string("(") + tag + " " + t[i].text;
		pos(t[i - 1]);
		out += ")";
		i++;
		return true;
	}
	bool value(bool constant)
	{
		auto leaf = [&](const char* tag) {
			out += std::string("(") + tag + " " + t[i].text;
			pos(t[i]);
			out += ")";
			i++;
			return true;
		};
		switch (k())
		{
			case '$': return constant ? fail() : variable("var");
			case 'i': return leaf("int");
			case 'f': return leaf("float");
			case 's': return leaf("string");
			case 'n': return leaf(word("true") ? "true" : word("false") ? "false" : word("null") ? "null" : "enum");
			case '[':
				i++;
				out += "(list";
				while (k() != ']') if (!value(constant)) return false;
				i++;
				out += ")";
				return true;
			case '{':
				i++;
				out += "(object";
				while (k() != '}')
				{
					out += "(member";
					if (!name("key") || !want(':') || !value(constant)) return false;
					out += ")";
				}
				i++;
				out += ")";
				return true;
			default: return fail();
		}
	}
	bool arguments()
	{
		if (k() != '(') return true;
		i++;
		out += "(args";
		do
		{
			out += "(arg";
			if (!name("name") || !want(':') || !value(false)) return false;
			out += ")";
		} while (k() != ')');
		i++;
		out += ")";
		return true;
	}
	bool directives()
	{
		if (k() != '@') return true;
		out += "(dirs";
		while (k() == '@')
		{
			i++;
			out += "(dir";
			if (!name("name") || !arguments()) return false;
			out += ")";
		}
		out += ")";
		return true;
	}
	bool selections()
	{
		if (!want('{')) return false;
		out += "(set";
		do
		{
			if (k() == '.')
			{
				i++;
				if (k() == 'n' && !word("on"))
				{
					out += "(spread";
					if (!name("name") || !directives()) return false;
				}
				else
				{
					out += "(inline";
					if (k() == 'n')
					{
						i++;
						out += "(on";
						if (!name("type")) return false;
						out += ")";
					}
					if (!directives() || !selections()) return false;
				}
				out += ")";
			}
			else
			{
				out += "(field";
				if (k() != 'n') return fail();
				bool alias = t[i + 1].kind == ':';
				if (!name(alias ? "alias" : "name")) return false;
				if (alias && (!want(':') || !name("name"))) return false;
				if (!arguments() || !directives()) return false;
				if (k() == '{' && !selections()) return false;
				out += ")";
			}
		} while (k() != '}');
		i++;
		out += ")";
		return true;
	}
	bool type()
	{
		std::string inner;
		std::swap(inner, out);
		if (k() == '[')
		{
			i++;
			out = "(list";
			if (!type() || !want(']')) return false;
			out += ")";
		}
		else if (!name("type")) return false;
		if (k() == '!')
		{
			i++;
			out = "(nonnull" + out + ")";
		}
		out = inner + out;
		return true;
	}
	bool definition()
	{
		if (k() == '{')
		{
			out += "(op";
			if (!selections()) return false;
			out += ")";
			return true;
		}
		if (word("query") || word("mutation") || word("subscription"))
		{
			out += "(op";
			name("type");
			if (k() == 'n') name("name");
			if (k() == '(')
			{
				i++;
				do
				{
					out += "(variable";
					if (!variable("name") || !want(':') || !type()) return false;
					if (k() == '=')
					{
						i++;
						out += "(default";
						if (!value(true)) return false;
						out += ")";
					}
					out += ")";
				} while (k() != ')');
				i++;
			}
			if (!directives() || !selections()) return false;
			out += ")";
			return true;
		}
		if (word("fragment"))
		{
			i++;
			out += "(fragment";
			if (word("on") || !name("name") || !word("on")) return fail();
			i++;
			out += "(on";
			if (!name("type")) return false;
			out += ")";
			if (!directives() || !selections()) return false;
			out += ")";
			return true;
		}
		return fail();
	}
	bool document()
	{
		do
			if (!definition()) return false;
		while (k() != 'E');
		return true;
	}
};
// ---- the parser's tree in the same form ------------------------------------------------------------
static void render(std::string& out, const P::ast_node& n, const P::ast_node* parent)
{
	auto leaf = [&](const char* tag, bool dollar = false) {
		out += std::string("(") + tag + " ";
		if (dollar)
		{
			// only the name: ignored tokens may follow the "$"
			std::string t(n.string_view());
			size_t k = t.size();
			while (k && (lex::nameStart(t[k - 1]) || lex::digit(t[k - 1]))) k--;
			out += t.substr(k);
		}
		else out += n.string_view();
		auto p = n.begin();
		out += "@" + sx::num(p.byte) + "." + sx::num(p.line) + "." + sx::num(p.column) + ")";
	};
	auto group = [&](const char* tag) {
		out += std::string("(") + tag;
		for (auto& c : n.children) render(out, *c, &n);
		out += ")";
	};
	if (n.is_root()) for (auto& c : n.children) render(out, *c, &n);
	else if (n.is_type<P::operation_definition>()) group("op");
	else if (n.is_type<P::fragment_definition>()) group("fragment");
	else if (n.is_type<P::operation_type>()) leaf("type");
	else if (n.is_type<P::operation_name>() || n.is_type<P::fragment_name>() || n.is_type<P::field_name>() || n.is_type<P::argument_name>() || n.is_type<P::directive_name>()) leaf("name");
	else if (n.is_type<P::alias_name>() || n.is_type<P::alias>()) leaf("alias");
	else if (n.is_type<P::variable>()) group("variable");
	else if (n.is_type<P::variable_name>()) leaf("name", true);
	else if (n.is_type<P::variable_value>()) leaf("var", true);
	else if (n.is_type<P::default_value>()) group("default");
	else if (n.is_type<P::named_type>()) leaf("type");
	else if (n.is_type<P::list_type>()) group("list");
	else if (n.is_type<P::nonnull_type>()) group("nonnull");
	else if (n.is_type<P::directives>()) group("dirs");
	else if (n.is_type<P::directive>()) group("dir");
	else if (n.is_type<P::arguments>()) group("args");
	else if (n.is_type<P::argument>()) group("arg");
	else if (n.is_type<P::selection_set>()) group("set");
	else if (n.is_type<P::field>()) group("field");
	else if (n.is_type<P::fragment_spread>()) group("spread");
	else if (n.is_type<P::inline_fragment>()) group("inline");
	else if (n.is_type<P::type_condition>()) group("on");
	else if (n.is_type<P::integer_value>()) leaf("int");
	else if (n.is_type<P::float_value>()) leaf("float");
	else if (n.is_type<P::string_value>()) leaf("string");
	else if (n.is_type<P::true_keyword>()) leaf("true");
	else if (n.is_type<P::false_keyword>()) leaf("false");
	else if (n.is_type<P::null_keyword>()) leaf("null");
	else if (n.is_type<P::enum_value>()) leaf("enum");
	else if (n.is_type<P::list_value>()) group("list");
	else if (n.is_type<P::object_value>()) group("object");
	else if (n.is_type<P::object_field>()) group("member");
	else if (n.is_type<P::object_field_name>()) leaf("key");
	else out += "(?)";
}
static unsigned long steps;
static void verify(const std::string& text)
{
	sx::note("text", text);
	Ref ref;
	auto l = lex::tokens(text, ref.t);
	bool want = l == lex::Good && ref.document();
	sx_parse_steps = 0;
	std::string got;
	bool accepted = true;
	try
	{
		auto ast = P::parseString(text);
		render(got, *ast.root, nullptr);
	}
	catch (const P::parse_error&) { accepted = false; }
	steps = sx_parse_steps;
	if (l == lex::Early) return;
	if (!want)
	{
		sx::note("reference", "rejects");
		sx::check(!accepted, "the parser accepts a text that is not a document");
		sx::cover("rejected");
		return;
	}
	sx::note("want", ref.out);
	sx::note("got", got);
	sx::check(accepted, "the parser rejects a document");
	sx::check(sx::eqBytes(got, ref.out), "the tree is not that of the text");
	sx::cover("accepted");
}
// ---- documents ------------------------------------------------------------------------------------
static const char* docs[][40] = {
	{ "{", "a", "{", "b", "}", "c", ":", "d", "@", "e", "@", "f", "(", "x", ":", "1", ")", "}" },
	{ "query", "Q", "(", "$", "v", ":", "[", "T", "!", "]", "=", "[", "1", "\"s\"", "]", "$", "w", ":", "U", ")", "@", "d", "{", "a", "}" },
	{ "{", "f", "(", "x", ":", "\"s\"", "y", ":", "[", "$", "v", "[", "E", "]", "true", "]", "z", ":", "{", "k", ":", "-1", "l", ":", "{", "}", "m", ":", "2.5", "}", ")", "}" },
	{ "{", "...", "A", "...", "on", "T", "{", "a", "}", "...", "@", "d", "{", "b", "}", "...", "{", "c", "}", "}", "fragment", "A", "on", "T", "@", "d", "{", "a", "}", "mutation", "{", "m", "}" },
};
static bool wordy(char c) { return lex::nameStart(c) || lex::digit(c) || c == '-'; }
static std::string assemble(unsigned d, int hole, bool replace, const std::string& h, bool loose)
{
	std::string s;
	for (int i = 0; docs[d][i] || i == hole; i++)
	{
		const char* tok = docs[d][i];
		if (i == hole)
		{
			s += h;
			if (replace || !tok) { if (!tok) break; continue; }
		}
		else if (i && (loose || (wordy(s.empty() ? ' ' : s.back()) && wordy(tok[0])))) s += loose ? " , " : " ";
		s += tok;
	}
	return s;
}
static int holes(unsigned d)
{
	int n = 0;
	while (docs[d][n]) n++;
	return n;
}
static void gap(unsigned n, bool replace)
{
	unsigned d = sx::choose("doc", 4);
	int at = (int)sx::choose("at", holes(d) + !replace);
	bool loose = replace && sx::choose("loose", 2) != 0;
	std::string h;
	if (!replace)
	{
		const char* starts[] = { "", "#}\"", "\xef\xbb\xbf", "\r", "\n#\r\n" };
		h = starts[sx::choose("start", 5)];
	}
	h += sx::bytes("h", sx::choose("n", n + 1));
	verify(assemble(d, at, replace, h, loose));
}
static const char* kinds[] = { "a", "on", "true", "1", "2.5", "\"s\"", "$", "@", "!", ":", "=", "(", ")", "[", "]", "{", "}", "...", "query", "fragment", "#c\n" };
static const char* contexts[][2] = { { "{a", "}" }, { "{a(x:", ")}" }, { "query Q(", "){a}" }, { "query", "{a}" }, { "fragment F", "{a}" }, { "{...", "}" }, { "{a @d", "}" }, { "query($v:", "){a}" }, { "query($v:T=", "){a}" }, { "", "" } };
static void tok(unsigned n)
{
	unsigned c = sx::choose("context", 10);
	std::string sep = sx::choose("sep", 2) ? " " : "";
	std::string s = contexts[c][0];
	for (unsigned i = 0; i < n; i++) s += sep + kinds[sx::choose("t" + sx::num(i), 21)];
	verify(s + sep + contexts[c][1]);
}
static void byte(unsigned n)
{
	verify(sx::bytes("b", sx::choose("n", n + 1)));
}
static void type(unsigned n)
{
	std::string s = "T";
	for (unsigned i = 0; i <= n; i++)
	{
		switch (sx::choose("m" + sx::num(i), 3))
		{
			case 1: s += "!"; break;
			case 2: s += " ! "; break;
		}
		if (i == n) break;
		s = sx::choose("l" + sx::num(i), 2) ? "[ " + s + " ]" : "[" + s + "]";
	}
	verify("query($v:" + s + "$w:T){a}");
}
static void deep(unsigned n)
{
	unsigned kind = sx::choose("kind", 5);
	bool close = sx::choose("close", 2) != 0;
	const char* parts[][4] = { { "query($v:", "[", "]", "){a}" }, { "{f(x:", "[", "]", ")}" }, { "{f(x:", "{k:", "}", ")}" }, { "{a", "{a", "}", "}" }, { "{a", "...on T@d(x:1){a ", "}", "}" } };
	auto make = [&](unsigned d) {
		std::string s = parts[kind][0];
		if (kind == 4) s += " ";
		for (unsigned i = 0; i < d; i++) s += parts[kind][1];
		s += kind < 3 ? (kind == 0 ? "T" : "1") : "";
		for (unsigned i = 0; close && i < d; i++) s += parts[kind][2];
		return s + parts[kind][3];
	};
	verify(make(n / 2));
	unsigned long half = steps;
	verify(make(n));
	sx::note("steps", sx::num((unsigned)half) + " for half as many levels, " + sx::num((unsigned)steps));
	sx::check(steps <= 3 * half + 100, "the work of the parser grows faster than the nesting");
	sx::cover("deep");
}
extern "C" void harness_main()
{
	auto arg = argOf();
	if (arg.name == "gap") gap(arg.n, false);
	else if (arg.name == "hole") gap(arg.n, true);
	else if (arg.name == "tok") tok(arg.n);
	else if (arg.name == "byte") byte(arg.n);
	else if (arg.name == "type") type(arg.n);
	else deep(arg.n);
}
