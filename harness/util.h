// Small helpers shared by the harnesses.
#pragma once
#include "sx.h"
#include <cstdlib>
struct Arg { std::string name; unsigned n = 0; };
// harness argument "name:number"
inline Arg argOf()
{
	Arg a;
	std::string s = sx::arg();
	auto p = s.find(':');
	a.name = s.substr(0, p);
	if (p != std::string::npos)
		for (char c : s.substr(p + 1)) a.n = a.n * 10 + unsigned(c - '0');
	return a;
}
