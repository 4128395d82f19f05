"""Writes seeded/<id>/ from a description; used while planting."""
import os, subprocess, json, shutil
V = "/verif/seeded"; R = "/repo"
SH = '''#!/bin/sh
# exit 0: the property holds for this demonstration
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2
export ASAN_OPTIONS=detect_leaks=0
trap 'rm -rf "$t"' EXIT
gcc -g -O1 -w %s -I src/libiff -o "$t/demo" "$d/demo.c" %s || exit 2
cd "$t" && timeout 60 ./demo %s
'''
H = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "iff.h"
#include "id.h"
#include "chunk.h"
#include "form.h"
#include "cat.h"
#include "list.h"
#include "prop.h"
#include "rawchunk.h"
#include "field.h"
#include "io.h"
#include "error.h"
#include "chunkregistry.h"
#include "defaultregistry.h"
#define CHECK(x) do { if(!(x)) { fprintf(stderr, "broken: %s (line %d)\n", #x, __LINE__); exit(1); } } while(0)
#define ID(s) IFF_MAKEID(s[0], s[1], s[2], s[3])
static int diagnostics;
static void quiet(const char *f, va_list ap) { diagnostics++; }
static FILE *bytes(const char *p, size_t n) { FILE *f = tmpfile(); fwrite(p, 1, n, f); rewind(f); return f; }
static IFF_Chunk *parse(const char *p, size_t n) { FILE *f = bytes(p, n); IFF_Chunk *c = IFF_readFd(f, NULL); fclose(f); return c; }
#define PARSE(s) parse(s, sizeof(s) - 1)
static IFF_Chunk *raw(const char *id, const char *data, int n) { IFF_Chunk *c = IFF_createRawChunk(ID(id), n); memcpy(((IFF_RawChunk*)c)->chunkData, data, n); return c; }
static size_t written(IFF_Chunk *c, char *out, size_t cap) { FILE *f = tmpfile(); size_t n; if(!IFF_writeFd(f, c, NULL)) return (size_t)-1; rewind(f); n = fread(out, 1, cap, f); fclose(f); return n; }
'''
def bug(id, prop, edits, demo, needs, breaks, cflags="-fsanitize=address", srcs="src/libiff/*.c", args="", env="", sh=None):
    d = os.path.join(V, id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = "/tmp/seedwork"; shutil.rmtree(t, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", R, t], check=True)
    for f, old, new in edits:
        p = os.path.join(t, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", t, "diff"], stdout=subprocess.PIPE, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if demo is not None: open(os.path.join(d, "demo.c"), "w").write(H + demo)
    open(os.path.join(d, "demo.sh"), "w").write(sh or SH % (cflags, srcs, args) if not env else (SH % (cflags, srcs, args)).replace("timeout 60", env + " timeout 60").replace("&& " + env, "&& env " + env))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(t)
