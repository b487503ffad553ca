// P01: Base64. "enc:N" arbitrary byte sequences of length 0..N; "dec:N" arbitrary texts of length 0..N;
// "pad:N" texts of length 0..N over A-Z, '=' and characters outside the alphabet.
#include "util.h"
#include "graphqlservice/internal/Base64.h"
#include <stdexcept>
#include <vector>
using graphql::internal::Base64;
static unsigned letter(unsigned s)
{
	unsigned r = '/';
	r = s == 62 ? '+' : r;
	r = s < 62 ? s - 52 + '0' : r;
	r = s < 52 ? s - 26 + 'a' : r;
	return s < 26 ? s + 'A' : r;
}
static void encode(unsigned N)
{
	unsigned n = sx::choose("n", N + 1);
	std::string d = sx::bytes("b", n);
	std::vector<uint8_t> v(d.begin(), d.end());
	auto e = Base64::toBase64(v);
	sx::note("enc", e);
	sx::check(e.size() == (n + 2) / 3 * 4, "encoded text has the wrong length");
	// independent table look-up of every sextet
	bool ok = true;
	for (unsigned i = 0; i < e.size(); i++)
	{
		unsigned bit = i * 6, by = bit / 8, off = bit % 8;
		if (by >= n)
		{
			ok &= e[i] == '=';
			continue;
		}
		unsigned w = (unsigned)v[by] << 8 | (by + 1 < n ? v[by + 1] : 0);
		unsigned s = w >> (10 - off) & 63;
		ok &= (unsigned char)e[i] == letter(s);
	}
	sx::check(ok, "encoded text is not the standard Base64 of the bytes");
	std::vector<uint8_t> r;
	bool threw = false;
	try { r = Base64::fromBase64(e); } catch (const std::exception&) { threw = true; }
	sx::check(!threw, "decoding rejects the encoder's own output");
	sx::check(r.size() == v.size(), "decoded length differs");
	ok = true;
	for (size_t i = 0; i < r.size(); i++) ok &= r[i] == v[i];
	sx::check(ok, "decoding the encoded text yields other bytes");
	sx::cover("encoded");
}
static int sextet(unsigned char c)
{
	int r = 255;
	r = (c >= 'A') & (c <= 'Z') ? c - 'A' : r;
	r = (c >= 'a') & (c <= 'z') ? c - 'a' + 26 : r;
	r = (c >= '0') & (c <= '9') ? c - '0' + 52 : r;
	r = c == '+' ? 62 : r;
	r = c == '/' ? 63 : r;
	return r;
}
static void decode(unsigned N, bool few)
{
	unsigned n = sx::choose("n", N + 1);
	// the text lives in a block of exactly its size, so that reading past it is an error
	char* t = (char*)::operator new(n ? n : 1);
	for (unsigned i = 0; i < n; i++)
	{
		t[i] = (char)sx::byte("t[" + sx::num(i) + "]");
		if (few)
		{
			unsigned char c = (unsigned char)t[i];
			sx::assume(((c >= 'A') & (c <= 'Z')) | (c == '=') | (c == '-') | (c == '_') | (c == 0) | (c >= 128) | (c == '@') | (c == '['));
		}
	}
	std::vector<uint8_t> r;
	bool threw = false;
	try { r = Base64::fromBase64(std::string_view(t, n)); } catch (const std::logic_error&) { threw = true; }
	sx::note("threw", threw ? "1" : "0");
	// oracle
	unsigned body = 0;
	while (body < n && sx::branch(t[body] != '=')) body++;
	bool bad = false;
	for (unsigned i = 0; i < body; i++) bad |= sextet((unsigned char)t[i]) == 255;
	for (unsigned i = body; i < n; i++) bad |= t[i] != '=';
	unsigned pads = n - body, want = (4 - body % 4) % 4;
	if (body % 4 == 1 || pads > want) bad = true;
	else
	{
		int last = body ? sextet((unsigned char)t[body - 1]) : 0;
		bad |= body % 4 == 2 ? (last & 15) != 0 : body % 4 == 3 ? (last & 3) != 0 : false;
	}
	if (sx::branch(bad))
	{
		sx::cover("rejected");
		sx::check(threw, "text that is not Base64 (alphabet, padding or trailing bits) is decoded without an error");
		return;
	}
	if (threw)
	{
		sx::check(pads != want, "well-formed Base64 text is rejected");
		return;
	}
	sx::cover("accepted");
	sx::check(r.size() == body * 6 / 8, "decoded length is wrong");
	bool ok = true;
	for (unsigned i = 0; i < r.size(); i++)
	{
		unsigned bit = i * 8, s = bit / 6, off = bit % 6;
		unsigned w = (unsigned)sextet((unsigned char)t[s]) << 6 | (unsigned)sextet((unsigned char)t[s + 1]);
		ok &= r[i] == (w >> (4 - off) & 255);
	}
	sx::check(ok, "decoded bytes are not those of the text");
	::operator delete(t);
}
extern "C" void harness_main()
{
	auto a = argOf();
	if (a.name == "enc") encode(a.n);
	else decode(a.n, a.name == "pad");
}
