P = 'gen/golang/gll/parser.go'
X = 'gen/golang/lexer/lexer.go'
LRP = 'gen/golang/lr1/parser/parser.go'

TOOL = r'''
mkdir "$W/t" && cd "$W/t" || exit 2
fail() { echo "$1"; exit 1; }
gogll() { timeout 60 "$W/gogll" "$@" >"$W/out" 2>&1; }
'''
LRMAIN = '''package main

import (
	"fmt"

	"demo/lexer"
	"demo/parser"
)

func main() {
	for _, in := range []string{@IN@} {
		res, err := parser.New(lexer.New([]rune(in))).Parse()
		fmt.Println(res, err)
	}
}
'''

PLANTS = [
 dict(id='r01-first-two', property='R01', kind='lr', flags='-knuth',
  needs='a non-terminal followed by two nullable non-terminals, the second of which is not skipped',
  breaks='FIRST of a string looks through one nullable symbol only',
  edits=[('lr1/first/first.go', 'frst = this.FirstSymbol(s[i])', 'frst = this.FirstSymbol(s[i%2])')],
  grammar='package "demo"\n\nS : L A B "z" ;\nL : "l" ;\nA : "a" | empty ;\nB : "b" | empty ;\n',
  ast='S0:4 L0:1 A0:1 A1:0 B0:1 B1:0',
  inputs=['l a b z', 'l b z', 'l a z', 'l z']),
 dict(id='r02-weak-compat', property='R02', kind='lr', flags='-pager',
  needs='two mergeable states with three nucleus items, of which the last two conflict after merging',
  breaks='weak compatibility compares the other items only with the first, so states are merged that must stay apart',
  edits=[('lr1/pgm/states.go', '''	for i, thisI := range this.List() {
		thatI := that.GetGroup(thisI)''', '''	for i, thisI := range this.List() {
		if i > 0 {
			break
		}
		thatI := that.GetGroup(thisI)''')],
  grammar='package "demo"\n\nS : "p" X "a" | "p" Y "b" | "p" Z "c" | "q" X "a" | "q" Y "c" | "q" Z "b" ;\nX : "x" "x" ;\nY : "x" ;\nZ : "x" ;\n',
  ast='S0:3 S1:3 S2:3 S3:3 S4:3 S5:3 X0:2 Y0:1 Z0:1',
  inputs=['p x x a', 'p x b', 'p x c', 'q x c', 'q x b', 'q x a']),
 dict(id='r01-context-ends', property='R01', kind='lr', flags='-knuth',
  needs='two states equal but for contexts of three symbols or more, that have the same first and last symbol',
  breaks='contexts are compared by size, first and last symbol, so Knuth states are taken for one another',
  edits=[('lr1/states/contextset.go', '''	for sym := range this.Contain {
		if !that.Contain[sym] {
			return false
		}
	}
	return true''', '''	for i := 0; i < len(this.List); i += len(this.List)/2 + 1 {
		if n := len(this.List) - 1 - i; this.List[i] != that.List[i] || this.List[n] != that.List[n] {
			return false
		}
	}
	return true''')],
  grammar='package "demo"\n\nS : "p" X P | "q" X Q ;\nX : "x" ;\nP : "a" | "b" | "c" | "e" ;\nQ : "a" | "d" | "c" | "e" ;\n',
  ast='S0:3 S1:3 X0:1 P0:1 P1:1 P2:1 P3:1 Q0:1 Q1:1 Q2:1 Q3:1',
  inputs=['p x a', 'p x b', 'p x c', 'q x a', 'q x d', 'q x c', 'p x d', 'q x b', 'q x e']),
 dict(id='r03-later-rule', property='R03', kind='go', flags='-pager -resolve_conflicts g.bnf',
  needs='-resolve_conflicts and a reduce/reduce conflict',
  breaks='of two reductions that of the later rule is chosen',
  edits=[('lr1/action/action.go', '''		if this < that {
			return this
		}
		return that''', '''		if this < that {
			return that
		}
		return this''')],
  files={'src/main.go': LRMAIN.replace('@IN@', '"x", "x x"'), 'src/g.bnf': 'package "demo"\n\nS : A | B | "x" "x" ;\nA : "x" ;\nB : "x" ;\n',
  'src/ast/ast.go': '''package ast

func G00(p interface{}) (interface{}, error)   { return p, nil }
func S0(p interface{}) (interface{}, error)    { return p, nil }
func S1(p interface{}) (interface{}, error)    { return p, nil }
func S2(p, q interface{}) (interface{}, error) { return "xx", nil }
func A0(p interface{}) (interface{}, error)    { return "A", nil }
func B0(p interface{}) (interface{}, error)    { return "B", nil }
'''}),
 dict(id='r03-one-eof', property='R03', kind='shell',
  needs='a grammar whose only conflicts are on the end of input',
  breaks='a conflict on the end of input is not counted when it is the only one of its state, so the grammar is accepted and the conflict resolved silently',
  edits=[('lr1/gen.go', '''			if c != nil {
				num++''', '''			if c != nil && (len(sc) > 1 || c.Symbol != "$") {
				num++''')],
  shell=TOOL + r'''
printf 'package "t"\n\nS : "i" S | "i" S "e" S | "x" ;\n' >a.bnf
printf 'package "t"\n\nS : A | B ;\nA : "x" ;\nB : "x" ;\n' >b.bnf
printf 'package "t"\n\nS : "x" S | "y" ;\n' >c.bnf
for k in knuth pager; do
    mkdir -p o1 o2 o3
    gogll -$k -o o1 a.bnf && fail "dangling else accepted by -$k"
    gogll -$k -o o2 b.bnf && fail "reduce/reduce conflict accepted by -$k"
    gogll -$k -o o3 c.bnf || fail "LR(1) grammar refused by -$k"
done
exit 0
'''),
 dict(id='r04-nil-attr', property='R04', kind='go', flags='-pager g.bnf',
  needs='an AST function that returns nil for a rule with symbols',
  breaks='a nil attribute is replaced by that of the first symbol, so the enclosing function gets the wrong value',
  edits=[(LRP, '''				p.stack.push(gotoTab[p.stack.top()][prod.NTType], attrib)''',
   '''				if attrib == nil && prod.NumSymbols == 1 {
					attrib = p.tokens[p.i-2]
				}
				p.stack.push(gotoTab[p.stack.top()][prod.NTType], attrib)''')],
  files={'src/main.go': LRMAIN.replace('@IN@', '"a", "b a", "b b a"'), 'src/g.bnf': 'package "demo"\n\nS : "b" S | A ;\nA : "a" ;\n',
  'src/ast/ast.go': '''package ast

import "fmt"

func G00(p interface{}) (interface{}, error)   { return p, nil }
func S0(p, q interface{}) (interface{}, error) { return fmt.Sprintf("b(%v)", q), nil }
func S1(p interface{}) (interface{}, error)    { return fmt.Sprintf("s(%v)", p), nil }
func A0(p interface{}) (interface{}, error)    { return nil, nil }
'''}),
 dict(id='r05-shift-only', property='R05', kind='go', flags='-pager g.bnf',
  needs='a syntax error in a state where some token would cause a reduction',
  breaks='the message lists only the tokens that can be shifted',
  edits=[(LRP, '''		for tok, act := range actRow.actions {
			if act != nil {
				fmt''', '''		for tok, act := range actRow.actions {
			if _, ok := act.(shift); ok {
				fmt''')],
  files={'src/main.go': '''package main

import (
	"fmt"
	"sort"
	"strings"

	"demo/lexer"
	"demo/parser"
)

func main() {
	for _, in := range []string{"n", "n n", "( n", "( ) )", "n + n ("} {
		_, err := parser.New(lexer.New([]rune(in))).Parse()
		if err == nil {
			fmt.Println("ok")
			continue
		}
		s := err.Error()
		w := strings.Fields(s[strings.Index(s, "one of:"):])
		sort.Strings(w)
		fmt.Println(w)
	}
}
''', 'src/g.bnf': 'package "demo"\n\nE : E "+" T | T ;\nT : "(" E ")" | "n" ;\n',
  'src/ast/ast.go': '''package ast

func G00(p interface{}) (interface{}, error) { return p, nil }
func E0(p, q, r interface{}) (interface{}, error) { return p, nil }
func E1(p interface{}) (interface{}, error)       { return p, nil }
func T0(p, q, r interface{}) (interface{}, error) { return p, nil }
func T1(p interface{}) (interface{}, error)       { return p, nil }
'''}),
 dict(id='f01-tail-two', property='F01', kind='shell',
  needs='a non-terminal followed by two nullable symbols to the end of its alternate',
  breaks='FOLLOW of the head is not added through a nullable tail of two symbols',
  edits=[('frstflw/frstflw.go', '''				if first.Contain(Empty) {
					// fmt''', '''				if first.Contain(Empty) && len(bs)-idx <= 2 {
					// fmt''')],
  shell=TOOL + r'''
printf 'package "t"\n\nS : "s" X "e" | X ;\nX : A B C ;\nA : "a" ;\nB : "b" | empty ;\nC : "c" | empty ;\n' >g.bnf
gogll -v g.bnf || fail "gogll failed"
f=$(grep '^Follow(A):' first_follow.txt | tr -s ' ' '\n' | sort | tr '\n' ' ')
[ "$f" = '$ Follow(A): b c e ' ] || [ "$f" = ' $ Follow(A): b c e ' ] || fail "FOLLOW(A) is $f"
exit 0
'''),
 dict(id='c01-dup-apart', property='C01', kind='shell',
  needs='a grammar that declares a syntax rule twice, with another rule between the two',
  breaks='only adjacent duplicates are refused; the second declaration is silently ignored',
  edits=[('ast/build.go', '''	if nil != bld.gogll.GetSyntaxRule(r.ID()) {
		bld''', '''	if n := len(bld.gogll.SyntaxRules); n > 0 && bld.gogll.SyntaxRules[n-1].ID() == r.ID() {
		bld'''), ('ast/build.go', '''		if nts.Contain(r.Head.ID()) {
			bld.fail(fmt.Errorf("Duplicate rule %s", r.Head.ID()), r.Head.Lext())
		} else {
			nts.Add(r.Head.ID())
		}
''', '''		nts.Add(r.Head.ID())
''')],
  shell=TOOL + r'''
printf 'package "t"\n\nS : A B ;\nA : "a" ;\nB : "b" ;\n' >a.bnf
printf 'package "t"\n\nS : A B ;\nA : "a" ;\nA : "c" ;\nB : "b" ;\n' >b.bnf
printf 'package "t"\n\nS : A B ;\nA : "a" ;\nB : "b" ;\nA : "c" ;\n' >c.bnf
gogll -o o1 a.bnf || fail "a well-formed grammar is refused"
gogll -o o2 b.bnf && fail "an adjacent duplicate is accepted"
gogll -o o3 c.bnf && fail "a duplicate is accepted"
[ ! -e o3/parser ] || fail "files were written"
exit 0
'''),
 dict(id='c02-fold-sort', property='C02', kind='shell',
  needs='a character set with both cases of a letter, and more than one run of the tool',
  breaks='characters of a set are ordered without regard to case, so the order of equal ones depends on map iteration',
  edits=[('util/runeset/runeset.go', '''		return elements[i] < elements[j]
''', '''		return elements[i]|0x20 < elements[j]|0x20
''')],
  shell=TOOL + r'''
printf 'package "t"\n\nhex : any "0123456789abcdefABCDEF" ;\n\nS : hex ;\n' >g.bnf
for i in 1 2 3 4 5 6 7 8 9 10; do
    gogll -o o g.bnf || fail "gogll failed"
    cat o/lexer/lexer.go o/token/token.go o/parser/parser.go | md5sum >>sums
done
[ "$(sort -u sums | wc -l)" = 1 ] || fail "the output differs from run to run"
exit 0
'''),
 dict(id='c03-quote', property='C03', kind='shell',
  needs="a character set of a lexical rule that contains a quote",
  breaks="the single quote in a set of runes is not escaped, and the double quote is, which is not valid Go",
  edits=[('util/runeset/runeset.go', chr(9)+'case '+chr(39)+chr(92)+chr(39)*2+':\n', chr(9)+'case '+chr(39)+'"'+chr(39)+':\n'),
   ('util/runeset/runeset.go', chr(92)*2+chr(39)+'"\n', chr(92)*3+'""\n')],
  shell=TOOL + r'''
printf 'package "t"\n\nS : idt ;\nidt : letter { not "'"'"'x" } ;\n' >g.bnf
gogll g.bnf || fail "gogll failed"
gofmt -l lexer token parser >fm 2>&1 && ! grep -q 'lexer.go:[0-9]' fm || fail "the lexer is not valid Go: $(head -3 fm)"
exit 0
'''),
 dict(id='c04-src-dir', property='C04', kind='shell',
  needs='an LR(1) parser generated with -o into a directory that already has an ast/ast.go',
  breaks='the AST of the source directory is looked at instead of that of the output directory, so edited code is overwritten',
  edits=[('gen/golang/lr1/ast/ast.go', '''	if ioutil.Exist(fname) && !*cfg.All {''', '''	if ioutil.Exist(filepath.Join(filepath.Dir(cfg.SrcFile), "ast", "ast.go")) && !*cfg.All {''')],
  shell=TOOL + r'''
mkdir -p src out/ast
printf 'package "t"\n\nS : "a" S | "b" ;\n' >src/g.bnf
echo '// mine' >out/ast/ast.go
gogll -pager -o out src/g.bnf || fail "gogll failed"
[ "$(cat out/ast/ast.go)" = '// mine' ] || fail "ast.go was overwritten"
gogll -pager -o new src/g.bnf || fail "gogll failed"
[ -e new/ast/ast.go ] || fail "no ast.go was written"
gogll -a -pager -o out src/g.bnf || fail "gogll failed"
grep -q 'func S0' out/ast/ast.go || fail "ast.go was not overwritten with -a"
exit 0
'''),
 dict(id='c05-conflicts-cwd', property='C05', kind='shell',
  needs='an LR(1) conflict and -o with another directory than the working directory',
  breaks='LR1_conflicts.txt is written to the working directory instead of the output directory',
  edits=[('lr1/gen.go', '''	ioutil.WriteFile(path.Join(cfg.BaseDir, "LR1_conflicts.txt"), w.Bytes())''', '''	ioutil.WriteFile(path.Join(path.Dir(cfg.BaseDir), "LR1_conflicts.txt"), w.Bytes())''')],
  shell=TOOL + r'''
mkdir -p src work p/out
printf 'package "t"\n\nS : A | B ;\nA : "x" ;\nB : "x" ;\n' >src/g.bnf
cd work || exit 2
gogll -pager -o ../p/out ../src/g.bnf
gogll -knuth -resolve_conflicts -o ../p/out ../src/g.bnf
[ -z "$(ls)" ] && [ "$(ls ../p)" = out ] && [ "$(ls ../src)" = g.bnf ] || fail "files outside the output directory: $(ls . .. ../p)"
[ -e ../p/out/LR1_conflicts.txt ] || fail "no report of the conflicts"
exit 0
'''),
 dict(id='c06-crlf', property='C06', kind='shell',
  needs='a grammar with white space other than blanks, tabs and newlines, such as CRLF line ends',
  breaks='the lexer of gogll itself skips only blanks, tabs and newlines, so the same grammar with CRLF is refused',
  edits=[('lexer/lexer.go', 'unicode.IsSpace(lex.I[lext]) {', '(lex.I[lext] == \' \' || lex.I[lext] == \'\\t\' || lex.I[lext] == \'\\n\') {')],
  shell=TOOL + r'''
printf 'package "t"\n\nS : "a" S\n  | "b" ;\n' >a.bnf
printf 'package "t"\r\n\r\nS : "a" S\r\n  | "b" ;\r\n' >b.bnf
gogll -o o1 a.bnf || fail "gogll failed"
gogll -o o2 b.bnf || fail "the grammar with CRLF is refused"
diff -r o1 o2 >/dev/null || fail "the generated files differ"
exit 0
'''),
 dict(id='c07-knuth-resolve', property='C07', kind='shell',
  needs='-knuth together with -resolve_conflicts and a grammar whose canonical automaton is larger than the minimal one',
  breaks='-knuth is ignored with -resolve_conflicts: the minimal tables are generated',
  edits=[('lr1/gen.go', '''	if *cfg.Knuth {''', '''	if *cfg.Knuth && !*cfg.AutoResolveLRConf {''')],
  shell=TOOL + r'''
printf 'package "t"\n\nE : E "+" T | T ;\nT : "(" E ")" | "n" ;\n' >g.bnf
gogll -knuth -o k g.bnf || fail "gogll failed"
gogll -knuth -resolve_conflicts -o kr g.bnf || fail "gogll failed"
gogll -pager -o p g.bnf || fail "gogll failed"
diff -r k kr >/dev/null || fail "-resolve_conflicts changes the tables of a conflict-free grammar"
diff k/parser/parser.go p/parser/parser.go >/dev/null && fail "the canonical and the minimal tables have the same size"
exit 0
'''),
]
