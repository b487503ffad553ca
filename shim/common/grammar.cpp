// The parser's grammars are compiled in separate units; this table joins them. A grammar a check
// does not link behaves as one that rejects the text again (it is only tried after a syntax error).
#include <exception>
extern "C" unsigned long sx_parse_steps;
unsigned long sx_parse_steps;
static struct { unsigned long long key; void* (*fn)(void*); } sxParseTab[32];
static int sxParseN;
static void* missing(void*) { throw; }
extern "C" void sx_parse_register(unsigned long long key, void* (*fn)(void*))
{
	sxParseTab[sxParseN].key = key;
	sxParseTab[sxParseN++].fn = fn;
}
extern "C" void* (*sx_parse_lookup(unsigned long long key))(void*)
{
	for (int i = 0; i < sxParseN; i++) if (sxParseTab[i].key == key) return sxParseTab[i].fn;
	return missing;
}
