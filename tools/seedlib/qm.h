// Query model: the harness builds a document as a tree, prints it as text for the library and
// evaluates it with a small independent reference (CollectFields of the GraphQL specification).
#pragma once
#include "svc.h"
#include <functional>
#include <map>
struct Dir
{
	std::string name; // skip, include
	std::string cond; // text: true, false, $v
	bool value;       // what the condition stands for
};
struct Sel
{
	enum Kind { Field, Inline, Spread } kind = Field;
	std::string name;  // field or fragment name
	std::string alias;
	std::string type;  // type condition of an inline fragment ("" none)
	std::string args;  // "(x: 1)" text
	std::vector<Dir> dirs;
	std::vector<Sel> sub;
	size_t line = 0, col = 0; // position in the text
	const std::string& key() const { return alias.empty() ? name : alias; }
};
inline Sel fld(std::string name, std::string alias = "", std::vector<Sel> sub = {})
{
	Sel s;
	s.name = std::move(name);
	s.alias = std::move(alias);
	s.sub = std::move(sub);
	return s;
}
inline Sel inl(std::string type, std::vector<Sel> sub)
{
	Sel s;
	s.kind = Sel::Inline;
	s.type = std::move(type);
	s.sub = std::move(sub);
	return s;
}
inline Sel spr(std::string name)
{
	Sel s;
	s.kind = Sel::Spread;
	s.name = std::move(name);
	return s;
}
// text with the position of what comes next
struct Out
{
	std::string t;
	size_t line = 1, col = 1;
	const char* gap = " ";
	void put(const std::string& s)
	{
		for (char c : s)
		{
			t += c;
			if (c == '\n') line++, col = 1;
			else col++;
		}
	}
};
inline void render(Out& o, std::vector<Sel>& set);
inline void render(Out& o, Sel& s)
{
	s.line = o.line;
	s.col = o.col;
	if (s.kind == Sel::Field)
	{
		if (!s.alias.empty()) o.put(s.alias + ": ");
		o.put(s.name + s.args);
	}
	else if (s.kind == Sel::Spread) o.put("..." + s.name);
	else o.put(s.type.empty() ? "..." : "... on " + s.type);
	for (auto& d : s.dirs) o.put(" @" + d.name + "(if: " + d.cond + ")");
	if (!s.sub.empty())
	{
		o.put(" ");
		render(o, s.sub);
	}
}
inline void render(Out& o, std::vector<Sel>& set)
{
	o.put("{");
	for (auto& s : set)
	{
		o.put(o.gap);
		render(o, s);
	}
	o.put(" }");
}
struct Frag { std::string name, type; std::vector<Sel> sub; };
struct Doc
{
	std::string head = "query"; // "query Q($v: Boolean!)"
	std::vector<Sel> root;
	std::vector<Frag> frags;
	std::string text(const char* gap = " ")
	{
		Out o;
		o.gap = gap;
		o.put(head + " ");
		render(o, root);
		for (auto& f : frags)
		{
			o.put("\nfragment " + f.name + " on " + f.type + " ");
			render(o, f.sub);
		}
		return o.t;
	}
};
// ---- reference ----
using IsType = std::function<bool(const std::string& object, const std::string& cond)>;
struct Group { std::string key; std::vector<const Sel*> fields; };
inline bool included(const Sel& s)
{
	bool in = true;
	for (auto& d : s.dirs)
	{
		if (d.name == "skip" && d.value) in = false;
		if (d.name == "include" && !d.value) in = false;
	}
	return in;
}
inline void collect(const Doc& d, const std::string& obj, const std::vector<Sel>& set, const IsType& is, std::vector<Group>& out)
{
	for (auto& s : set)
	{
		if (!included(s)) continue;
		if (s.kind == Sel::Field)
		{
			bool found = false;
			for (auto& g : out)
				if (g.key == s.key()) { g.fields.push_back(&s); found = true; break; }
			if (!found) out.push_back({ s.key(), { &s } });
		}
		else if (s.kind == Sel::Inline)
		{
			if (s.type.empty() || is(obj, s.type)) collect(d, obj, s.sub, is, out);
		}
		else
			for (auto& f : d.frags)
				if (f.name == s.name && is(obj, f.type)) collect(d, obj, f.sub, is, out);
	}
}
