#!/usr/bin/env python3
"""Make a planted bug: tools/plant.py ID...   (definitions: tools/plants/*.py)

For each definition: copy /repo's HEAD to a scratch directory, apply the edits, build,
run the stable tests, run the demonstration on the clean and on the changed tree, and
when everything is as it must be write /verif/seeded/ID/.  Nothing here is used by a check."""
import os, sys, json, shutil, subprocess, tempfile, glob, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']

HEAD = r'''#!/bin/bash
# exit 0: the tree behaves as it must; 1: it does not
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS="-mod=mod -trimpath -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
go build -o "$W/gogll" . || exit 2
'''
RUN = r'''
mkdir "$W/demo"
cp -r "$here"/src/. "$W/demo/"
v=$(go list -m -f '{{.Version}}' github.com/goccmack/goutil) || exit 2
printf 'module demo\n\ngo 1.21\n\nrequire github.com/goccmack/goutil %s\n' "$v" >"$W/demo/go.mod"
cp go.sum "$W/demo/"
cd "$W/demo" || exit 2
timeout 100 "$W/gogll" @FLAGS@ >"$W/log" 2>&1 || { echo "gogll failed"; tail -5 "$W/log"; exit 1; }
timeout 150 go run . >"$W/got" 2>"$W/err" || { echo "the generated parser failed"; tail -5 "$W/err"; exit 1; }
diff "$here/want" "$W/got" || exit 1
'''

GLLMAIN = r'''package main

import (
	"fmt"
	"sort"
	"strings"

	"demo/lexer"
	"demo/parser"
	"demo/parser/bsr"
)

var inputs = []string{@INPUTS@}

func show(b bsr.BSR) string {
	out := []string{}
	lext := 0
	_ = lext
	for i, s := range b.Label.Symbols() {
		if !s.IsNonTerminal() {
			out = append(out, s.String())
			continue
		}
		cs := []string{}
		for _, c := range b.GetNTChildrenI(i) {
			cs = append(cs, show(c))
		}
		sort.Strings(cs)
		out = append(out, "{"+strings.Join(cs, " / ")+"}")
	}
	return fmt.Sprintf("%s%d[%d-%d](%s)", b.Label.Head(), b.Alternate(), b.LeftExtent(), b.RightExtent(), strings.Join(out, " "))
}

func run(in string) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("  panic", r)
		}
	}()
	fmt.Printf("%q\n", in)
	set, errs := parser.Parse(lexer.New([]rune(in)))
	if set == nil {
		fmt.Println("  rejected", len(errs) > 0)
@ERRS@		return
	}
	fmt.Println("  accepted", errs == nil)
@FOREST@}

func main() {
	for _, in := range inputs {
		run(in)
	}
}
'''
FOREST = r'''	fmt.Println("  ambiguous", set.IsAmbiguous())
	rs := []string{}
	for _, b := range set.GetRoots() {
		rs = append(rs, show(b))
	}
	sort.Strings(rs)
	for _, r := range rs {
		fmt.Println("  " + r)
	}
'''
ERRS = r'''		es, last := []string{}, -1
		ordered := true
		for _, e := range errs {
			if last >= 0 && e.Token.Lext() > last {
				ordered = false
			}
			last = e.Token.Lext()
			exp := []string{}
			for t := range e.Expected {
				exp = append(exp, t.ID())
			}
			sort.Strings(exp)
			es = append(es, fmt.Sprintf("  %d:%d %s [%s]", e.Line, e.Column, e.Slot, strings.Join(exp, " ")))
		}
		sort.Strings(es)
		fmt.Println("  ordered", ordered)
		for i, e := range es {
			if i == 0 || e != es[i-1] {
				fmt.Println(e)
			}
		}
'''
LEXMAIN = r'''package main

import (
	"fmt"

	"demo/lexer"
)

var inputs = []string{@INPUTS@}

func main() {
	for _, in := range inputs {
		fmt.Printf("%q\n", in)
		l := lexer.New([]rune(in))
		for _, t := range l.Tokens {
			ln, col := t.GetLineColumn()
			fmt.Printf("  %s %d-%d %q %d:%d\n", t.Type().ID(), t.Lext(), t.Rext(), t.LiteralString(), ln, col)
		}
	}
}
'''
LRMAIN = r'''package main

import (
	"fmt"

	"demo/lexer"
	"demo/parser"
)

var inputs = []string{@INPUTS@}

func run(in string) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("  panic", r)
		}
	}()
	fmt.Printf("%q\n", in)
	res, err := parser.New(lexer.New([]rune(in))).Parse()
	if err != nil {
		fmt.Println("  rejected")
		return
	}
	fmt.Println("  accepted", res)
}

func main() {
	for _, in := range inputs {
		run(in)
	}
}
'''


def q(s):
    return '"' + ''.join(c if ' ' <= c <= '~' and c not in '"\\' else {'\n': '\\n', '\t': '\\t', '"': '\\"', '\\': '\\\\'}.get(c, '\\U%08x' % ord(c)) for c in s) + '"'


def astgo(spec):
    out = ['package ast', '', 'import (', '\t"fmt"', '', '\t"demo/token"', ')', '',
           'func sh(x interface{}) interface{} {\n\tif t, ok := x.(*token.Token); ok {\n\t\treturn t.LiteralString()\n\t}\n\treturn x\n}', '']
    out.append('func G00(p0 interface{}) (interface{}, error) { return p0, nil }\n')
    for f in spec.split():
        name, n = f.split(':')
        n = int(n)
        ps = ', '.join('p%d' % i for i in range(n)) + (' interface{}' if n else '')
        fm = ','.join(['%v'] * n)
        args = ''.join(', sh(p%d)' % i for i in range(n))
        out.append('func %s(%s) (interface{}, error) {\n\tr := fmt.Sprintf("%s(%s)"%s)\n\treturn r, nil\n}\n' % (name, ps, name, fm, args))
    return '\n'.join(out)


def files(d):
    """the demo's files: relative name -> text"""
    fs = dict(d.get('files', {}))
    if d.get('kind') in ('gll', 'lex', 'lr'):
        ins = '\n' + ''.join('\t%s,\n' % q(i) for i in d['inputs'])
        flags = d.get('flags', '')
        g = 'g.md' if d.get('md') else 'g.bnf'
        fs['src/' + g] = d['grammar']
        if d['kind'] == 'gll':
            m = GLLMAIN.replace('@ERRS@', ERRS if d.get('errs') else '').replace('@FOREST@', FOREST if not d.get('noforest') else '')
            if d.get('noforest') and not d.get('errs'):
                m = m.replace('\t"sort"\n\t"strings"\n', '').replace('\t"demo/parser/bsr"\n', '')
                i, j = m.index('func show'), m.index('func run')
                m = m[:i] + m[j:]
        elif d['kind'] == 'lex':
            m = LEXMAIN
        else:
            m = LRMAIN
            fs['src/ast/ast.go'] = astgo(d['ast'])
        fs['src/main.go'] = d.get('main', m).replace('@INPUTS@', ins)
        if d['kind'] == 'lr' and '-knuth' not in flags and '-pager' not in flags:
            flags += ' -pager'
        fs['demo.sh'] = HEAD + RUN.replace('@FLAGS@', (flags + ' ' + g).strip())
    elif d['kind'] == 'go':
        fs['demo.sh'] = HEAD + RUN.replace('@FLAGS@', d['flags'])
    else:
        fs['demo.sh'] = HEAD + d['shell']
    return fs


def sh(cmd, cwd, timeout=900, env=None):
    p = subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode(errors='replace')


def demo(d, repo, dest):
    shutil.rmtree(dest, ignore_errors=True)
    for n, t in files(d).items():
        p = os.path.join(dest, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(t)


def plant(d, keep_tests=True):
    W = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    try:
        clean, bad, dd = W + '/clean', W + '/bad', W + '/demo'
        for r in (clean, bad):
            sh('git clone -q --shared /repo %s' % r, W)
        for f, old, new in d['edits']:
            p = os.path.join(bad, f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit of %s matches %d times: %r' % (f, s.count(old), old[:60])
            open(p, 'w').write(s.replace(old, new))
        for f, old, new in d['edits']:
            rc, bl = sh('git blame -s -L/xx/,+0 /dev/null 2>/dev/null; git blame -s HEAD -- %s' % f, '/repo')
            src = open('/repo/' + f).read()
            lo = src[:src.index(old)].count('\n')
            olds, news = old.split('\n'), new.split('\n')
            bls = [l for l in bl.split('\n') if l]
            for k, l in enumerate(olds):
                if l.strip() and l not in news and not bls[lo + k].startswith('^') and len(olds) > 0:
                    return 'edit touches a line of ours: %s' % bls[lo + k]
        rc, out = sh('go build ./... && go vet ./main.go >/dev/null 2>&1; go build ./...', bad)
        if rc:
            return 'does not build: ' + out[-600:]
        demo(d, clean, dd)
        if d.get('kind') in ('gll', 'lex', 'lr', 'go'):
            open(dd + '/want', 'w').write('')
            rc, out = sh('sed -i "s/^diff .*/cat \\$W\\/got >\\$here\\/want/" %s/demo.sh && bash %s/demo.sh' % (dd, dd), clean, 300)
            want = open(dd + '/want').read()
            if rc or not want:
                return 'demo fails on the clean tree: ' + out[-600:]
            demo(d, clean, dd)
            open(dd + '/want', 'w').write(want)
        rc, out = sh('bash %s/demo.sh' % dd, clean, 300)
        if rc:
            return 'demo fails on the clean tree: rc %d %s' % (rc, out[-600:])
        rc, out = sh('bash %s/demo.sh' % dd, bad, 300)
        if rc == 0:
            return 'demo passes on the changed tree'
        seen = out[:500]
        t = open('/opt/vp/test.sh').read().replace('/repo', bad)
        open(W + '/test.sh', 'w').write(t)
        rc, out = sh('bash %s/test.sh %s/out.json' % (W, W), W)
        try:
            res = json.load(open(W + '/out.json'))
        except Exception:
            return 'tests gave no result ' + out[-300:]
        okset = set(res.get('passed') or [k for k, v in res.items() if v == 'pass'])
        bad_t = [s for s in STABLE if s not in okset]
        if bad_t:
            return 'tests fail: %s' % bad_t[:5]
        rc, diff = sh('git diff -- ' + ' '.join(sorted({e[0] for e in d['edits']})), bad)
        dest = os.path.join(SEEDED, d['id'])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(dd, dest)
        open(dest + '/patch.diff', 'w').write(diff)
        json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(dest + '/meta.json', 'w'), indent=1)
        return 'ok\n' + seen
    finally:
        shutil.rmtree(W, ignore_errors=True)


def main():
    defs = {}
    for f in sorted(glob.glob(HERE + '/plants/*.py')):
        for d in runpy.run_path(f)['PLANTS']:
            assert d['id'] not in defs, d['id']
            defs[d['id']] = d
    ids = sys.argv[1:] or [i for i in defs if not os.path.exists(os.path.join(SEEDED, i))]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for i, r in zip(ids, ex.map(lambda i: plant(defs[i]), ids)):
            print('==', i, r, flush=True)


main()
