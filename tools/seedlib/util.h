#pragma once
#include <cstdio>
#include <cstdint>
#include <string>
#include <string_view>
namespace sx
{
inline bool eqBytes(std::string_view a, std::string_view b) { return a == b; }
inline std::string num(long n) { return std::to_string(n); }
}
static int failures = 0;
#define EXPECT(c) \
	do \
		if (!(c)) failures++, printf("line %d: %s\n", __LINE__, #c); \
	while (0)
