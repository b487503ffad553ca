// Linked last into the natively built tools: they hold several copies of SyntaxTree.cpp's globals
// merged into one, which must not be destroyed once per copy.
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
static void leave(int status, void*) { fflush(nullptr); _exit(status); }
static struct Last { Last() { on_exit(leave, nullptr); } } last;
