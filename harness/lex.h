// An independent lexer for the June 2018 GraphQL source text, used as a reference.
#pragma once
#include <string>
#include <vector>
namespace lex {
enum Lex { Good, Bad, Early }; // Early: the string ends before its last byte
inline bool hexDigit(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
inline unsigned hexVal(unsigned char c) { return c <= '9' ? c - '0' : (c & 15) + 9; }
inline bool nameStart(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
inline bool digit(unsigned char c) { return c >= '0' && c <= '9'; }
inline void utf8(std::string& s, unsigned c)
{
	if (c < 0x80) s += char(c);
	else if (c < 0x800) s += char(0xc0 | c >> 6), s += char(0x80 | (c & 63));
	else if (c < 0x10000) s += char(0xe0 | c >> 12), s += char(0x80 | (c >> 6 & 63)), s += char(0x80 | (c & 63));
	else s += char(0xf0 | c >> 18), s += char(0x80 | (c >> 12 & 63)), s += char(0x80 | (c >> 6 & 63)), s += char(0x80 | (c & 63));
}
// the length of the well-formed UTF-8 sequence at i, 0 if there is none or it is beyond U+FFFF
inline size_t seq(const std::string& b, size_t i)
{
	auto at = [&](size_t k) { return (unsigned)(unsigned char)(k < b.size() ? b[k] : 0); };
	unsigned c = at(i);
	auto cont = [&](size_t k) { return (at(k) & 0xc0) == 0x80; };
	if (c < 0x80) return 1;
	if (c >= 0xc2 && c < 0xe0) return cont(i + 1) ? 2 : 0;
	if (c >= 0xe0 && c < 0xf0)
	{
		if (!cont(i + 1) || !cont(i + 2)) return 0;
		if (c == 0xe0 && at(i + 1) < 0xa0) return 0;
		if (c == 0xed && at(i + 1) >= 0xa0) return 0; // surrogates
		return 3;
	}
	return 0;
}
inline bool source(unsigned char c) { return c >= 0x20 || c == 9 || c == 10 || c == 13; }
// the contents of a quoted string
inline Lex quoted(const std::string& b, std::string& out)
{
	for (size_t i = 0; i < b.size();)
	{
		unsigned char c = b[i];
		if (c == '"') return Early;
		if (c == '\\')
		{
			if (i + 1 >= b.size()) return Early; // escapes the closing quote
			unsigned char e = b[i + 1];
			i += 2;
			switch (e)
			{
				case '"': case '\\': case '/': out += char(e); break;
				case 'b': out += '\b'; break;
				case 'f': out += '\f'; break;
				case 'n': out += '\n'; break;
				case 'r': out += '\r'; break;
				case 't': out += '\t'; break;
				case 'u':
				{
					auto unit = [&](size_t k, unsigned& u) {
						u = 0;
						for (size_t j = k; j < k + 4; j++)
						{
							if (j >= b.size() || !hexDigit(b[j])) return false;
							u = u << 4 | hexVal(b[j]);
						}
						return true;
					};
					unsigned u, v;
					if (!unit(i, u)) return Bad;
					i += 4;
					if (u >= 0xd800 && u < 0xdc00)
					{
						if (i + 1 < b.size() && b[i] == '\\' && b[i + 1] == 'u' && unit(i + 2, v) && v >= 0xdc00 && v < 0xe000)
						{
							i += 6;
							u = 0x10000 + ((u & 0x3ff) << 10 | (v & 0x3ff));
						}
						else return Bad; // no character
					}
					else if (u >= 0xdc00 && u < 0xe000) return Bad;
					utf8(out, u);
					break;
				}
				default: return Bad;
			}
			continue;
		}
		if (!source(c) || c == 10 || c == 13) return Bad;
		size_t n = seq(b, i);
		if (!n) return Bad;
		out += b.substr(i, n);
		i += n;
	}
	return Good;
}
// the contents of a block string that is followed by its three closing quotes
inline Lex block(const std::string& b, std::string& out)
{
	for (size_t i = 0; i < b.size();)
	{
		unsigned char c = b[i];
		auto quotes = [&](size_t k) { return k + 2 < b.size() + 3 && (k >= b.size() || b[k] == '"') && (k + 1 >= b.size() || b[k + 1] == '"') && (k + 2 >= b.size() || b[k + 2] == '"'); };
		if (quotes(i)) return Early;
		if (c == '\\' && quotes(i + 1))
		{
			if (i + 4 > b.size()) return Early;
			out += "\"\"\"";
			i += 4;
			continue;
		}
		if (!source(c)) return Bad;
		size_t n = seq(b, i);
		if (!n) return Bad;
		out += b.substr(i, n);
		i += n;
	}
	return Good;
}

struct Token
{
	char kind; // a punctuator, '.' (ellipsis), 'n' name, 'i' int, 'f' float, 's' string, 'E' end
	std::string text;
	size_t at, line, column;
};
// Splits the text into tokens. Bad: not GraphQL source. Early: a text the 2018 specification leaves
// open or later ones changed (number followed by a name, other than source characters in a comment).
inline Lex tokens(const std::string& t, std::vector<Token>& out)
{
	size_t i = 0, line = 1, bol = 0;
	auto at = [&](size_t k) { return (unsigned char)(k < t.size() ? t[k] : 0); };
	auto is = [&](size_t k, char c) { return k < t.size() && t[k] == c; };
	bool odd = false;
	auto put = [&](char kind, size_t n) {
		out.push_back({ kind, t.substr(i, n), i, line, i - bol + 1 });
		for (size_t k = i; k < i + n; k++)
			if (t[k] == '\n') line++, bol = k + 1;
		i += n;
	};
	while (i < t.size())
	{
		unsigned char c = at(i);
		if (c == '\n') { i++, line++, bol = i; continue; }
		if (c == ' ' || c == '\t' || c == '\r' || c == ',') { i++; continue; }
		if (c == 0xef)
		{
			if (at(i + 1) != 0xbb || at(i + 2) != 0xbf) return Bad;
			i += 3;
			continue;
		}
		if (c == '#')
		{
			i++;
			while (i < t.size() && at(i) != '\n' && at(i) != '\r')
			{
				size_t n = source(at(i)) ? seq(t, i) : 0;
				if (!n) odd = true, n = 1;
				i += n;
			}
			continue;
		}
		if (nameStart(c))
		{
			size_t n = 1;
			while (nameStart(at(i + n)) || digit(at(i + n))) n++;
			put('n', n);
			continue;
		}
		if (c == '-' || digit(c))
		{
			size_t n = c == '-';
			bool fl = false;
			if (!digit(at(i + n))) return Bad;
			if (at(i + n) == '0') n++;
			else while (digit(at(i + n))) n++;
			if (at(i + n) == '.')
			{
				n++;
				fl = true;
				if (!digit(at(i + n))) return Bad;
				while (digit(at(i + n))) n++;
			}
			if (at(i + n) == 'e' || at(i + n) == 'E')
			{
				n++;
				fl = true;
				if (at(i + n) == '+' || at(i + n) == '-') n++;
				if (!digit(at(i + n))) return Bad;
				while (digit(at(i + n))) n++;
			}
			unsigned char f = at(i + n);
			if (nameStart(f) || digit(f) || f == '.') odd = true;
			put(fl ? 'f' : 'i', n);
			continue;
		}
		if (c == '"')
		{
			std::string v;
			if (is(i + 1, '"') && is(i + 2, '"'))
			{
				size_t k = i + 3;
				while (true)
				{
					if (k >= t.size()) return Bad;
					if (is(k, '"') && is(k + 1, '"') && is(k + 2, '"')) break;
					if (is(k, '\\') && is(k + 1, '"') && is(k + 2, '"') && is(k + 3, '"')) k += 4;
					else k++;
				}
				if (block(t.substr(i + 3, k - i - 3), v) != Good) return Bad;
				put('s', k + 3 - i);
			}
			else
			{
				size_t k = i + 1;
				while (true)
				{
					if (k >= t.size()) return Bad;
					if (is(k, '"')) break;
					if (is(k, '\\')) k++;
					k++;
				}
				if (quoted(t.substr(i + 1, k - i - 1), v) != Good) return Bad;
				put('s', k + 1 - i);
			}
			continue;
		}
		if (c == '.')
		{
			if (!is(i + 1, '.') || !is(i + 2, '.')) return Bad;
			put('.', 3);
			continue;
		}
		switch (c)
		{
			case '!': case '$': case '(': case ')': case ':': case '=': case '@': case '[': case ']': case '{': case '|': case '}': case '&': put(char(c), 1); break;
			default: return Bad;
		}
	}
	out.push_back({ 'E', "", i, line, i - bol + 1 });
	return odd ? Early : Good;
}
} // namespace lex
