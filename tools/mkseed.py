"""mkseed.py SPEC.py...: writes seeded/<id>/ from a spec that defines id, property, edits [(file, old, new)], needs,
breaks, demo (text of demo.sh) and files {name: text}."""
import difflib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
FL="-std=gnu++17 -O1 -w -pthread -fno-access-control -Isrc -include string"
for h in flint/ulong_extras.h flint/fmpz.h flint/nmod_poly.h flint/nmod_poly_factor.h flint/fq_nmod_poly.h flint/fq_nmod_poly_factor.h boost/serialization/vector.hpp; do FL="$FL -include $h"; done
CURVE="src/block_iterator.cc src/curve.cc src/curve_iterator.cc src/fq_element_table.cc src/reduction_table.cc"
STORE="src/store/curve_data.cc src/store/file_store.cc src/store/store.cc src/store/store_data.cc"
THREADED="src/threaded/thread.cc src/threaded/thread_pool.cc"
LIBS="-lboost_filesystem -lboost_system -lboost_program_options -lboost_serialization -lflint -lgmp -lyaml-cpp"
build() { # build OUT ARGS..: compiles the sources in parallel and links them
  local out=$1; shift; local fl="$FL" o=() p=() f; mkdir -p "$out.d"
  for f in "$@"; do case $f in -*) fl="$fl $f";; esac; done
  for f in "$@"; do case $f in -*) ;; *) ${CXX:-g++} $fl -c "$f" -o "$out.d/$(basename "$f").o" & p+=($!); o+=("$out.d/$(basename "$f").o");; esac; done
  for f in "${p[@]}"; do wait $f || exit 3; done
  ${CXX:-g++} $fl "${o[@]}" -o "$out" $LIBS || exit 3
}
'''
for spec in sys.argv[1:]:
    g = {'PRE': PRE}
    exec(open(spec).read(), g)
    d = os.path.join(V, 'seeded', g['id'])
    os.makedirs(d, exist_ok=True)
    patch = ''
    by = {}
    for f, old, new in g['edits']:
        cur = by.setdefault(f, open(os.path.join('/repo', f)).read())
        assert cur.count(old) == 1, (spec, f, old, cur.count(old))
        by[f] = cur.replace(old, new)
    for f, new in by.items():
        a = open(os.path.join('/repo', f)).read().splitlines(True)
        patch += ''.join(difflib.unified_diff(a, new.splitlines(True), 'a/' + f, 'b/' + f)).replace('\n\\ No newline', '\n\\ No newline')
    open(os.path.join(d, 'patch.diff'), 'w').write(patch)
    open(os.path.join(d, 'demo.sh'), 'w').write(g['demo'])
    for n, t in g.get('files', {}).items():
        open(os.path.join(d, n), 'w').write(t)
    json.dump(dict(property=g['property'], needs=g['needs'], what_it_breaks=g['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print(g['id'], 'written')
