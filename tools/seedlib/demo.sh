#!/bin/bash
# Builds demo.cpp against /repo's build and runs it: exit 0 when the behaviour is right.
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O0 -w -I"$d" -I/repo/include -I/repo/include/graphqlservice/internal -I/repo/_build/include $(cat "$d/flags" 2>/dev/null) "$d/demo.cpp" -o "$t/demo" \
  $(cat "$d/libs" 2>/dev/null) /repo/_build/src/libgraphqljson.a /repo/_build/src/libgraphqlclient.a /repo/_build/src/libgraphqlservice.a /repo/_build/src/libgraphqlintrospection.a /repo/_build/src/libgraphqlservice.a /repo/_build/src/libgraphqlpeg.a /repo/_build/src/libgraphqlresponse.a /repo/_build/src/libgraphqljson.a /repo/_build/src/libgraphqlresponse.a -lpthread || exit 2
cd "$t" && timeout 60 ./demo
