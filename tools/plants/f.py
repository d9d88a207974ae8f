P = 'gen/golang/gll/parser.go'
B = 'gen/golang/gll/bsr/bsr.go'
X = 'gen/golang/lexer/lexer.go'
LRP = 'gen/golang/lr1/parser/parser.go'
TOOL = r'''
mkdir "$W/t" && cd "$W/t" || exit 2
fail() { echo "$1"; exit 1; }
gogll() { timeout 60 "$W/gogll" "$@" >"$W/out" 2>&1; }
'''
MDMAIN = '''package main

import (
	"fmt"
	"os"

	"demo/lexer"
)

func main() {
	for _, in := range []string{@INPUTS@} {
		os.WriteFile("in.md", []byte(in), 0o600)
		l := lexer.NewFile("in.md")
		for _, t := range l.Tokens {
			ln, col := l.GetLineColumn(t.Lext())
			fmt.Println(t, t.Lext(), t.Rext(), ln, col)
		}
	}
}
'''

PLANTS = [
 dict(id='c01-literal-hides', property='C01', kind='shell',
  needs='a token that is not declared and a string literal of the same spelling',
  breaks='an undeclared token is accepted when some literal is spelled like its name',
  edits=[('sc/sc.go', 'if nil == g.GetLexRule(s.ID()) {', 'if nil == g.GetLexRule(s.ID()) && !g.GetStringLiteralsSet().Contain(s.ID()) {')],
  shell=TOOL + r'''
printf 'package "t"\n\nS : "if" cond "then" S | "x" ;\ncond : letter ;\n' >a.bnf
printf 'package "t"\n\nS : "if" then "then" S | "x" ;\n' >b.bnf
gogll -o o1 a.bnf || fail "gogll failed"
for o in "" -knuth -pager; do
  gogll $o -o o2 b.bnf && fail "an undeclared token was accepted"
  grep -q '^panic' "$W/out" && fail "gogll panics"
  [ -e o2 ] && fail "files were written"
done
exit 0
'''),
 dict(id='c04-newer', property='C04', kind='shell',
  needs='a grammar edited after the AST code',
  breaks='the AST is written again when the grammar is newer',
  edits=[('gen/golang/lr1/ast/ast.go', '''	if ioutil.Exist(fname) && !*cfg.All {
''', '''	if fi, err := os.Stat(fname); err == nil && !*cfg.All && !isNewer(fi) {
'''), ('gen/golang/lr1/ast/ast.go', '''func getData(''', '''// isNewer returns true if the source was edited after the AST
func isNewer(fi os.FileInfo) bool {
	src, err := os.Stat(cfg.SrcFile)
	return err == nil && src.ModTime().After(fi.ModTime())
}

func getData('''), ('gen/golang/lr1/ast/ast.go', '''import (
''', '''import (
	"os"
''')],
  shell=TOOL + r'''
printf 'package "t"\n\nS : "a" S | "b" ;\n' >g.bnf
gogll -pager g.bnf || fail "gogll failed"
[ -e ast/ast.go ] || fail "no ast.go"
echo '// mine' >>ast/ast.go
cp ast/ast.go "$W/mine"
sleep 1.1
printf 'package "t"\n\nS : "a" S | "b" S | "c" ;\n' >g.bnf
gogll -pager g.bnf || fail "gogll failed"
cmp -s ast/ast.go "$W/mine" || fail "ast.go was overwritten"
exit 0
'''),
 dict(id='c04-empty-file', property='C04', kind='shell',
  needs='an AST file that is empty',
  breaks='an empty AST file is taken for a missing one',
  edits=[('gen/golang/lr1/ast/ast.go', '''	if ioutil.Exist(fname) && !*cfg.All {
''', '''	if fi, err := os.Stat(fname); err == nil && fi.Size() > 0 && !*cfg.All {
'''), ('gen/golang/lr1/ast/ast.go', '''import (
''', '''import (
	"os"
'''), ('gen/golang/lr1/ast/ast.go', '''	if err := ioutil.WriteFile(fname''', '''	if err := ioutil.WriteFile(fname''')],
  shell=TOOL + r'''
printf 'package "t"\n\nS : "a" S | "b" ;\n' >g.bnf
mkdir ast && : >ast/ast.go
gogll -knuth g.bnf || fail "gogll failed"
[ -s ast/ast.go ] && fail "ast.go was overwritten"
gogll -knuth -a g.bnf || fail "gogll failed"
[ -s ast/ast.go ] || fail "ast.go was not overwritten with -a"
exit 0
'''),
 dict(id='c04-same-size', property='C04', kind='shell',
  needs='a change of the grammar after which the generated token.go has as many bytes as before',
  breaks='token.go is not written when a file of that size is there',
  edits=[('gen/golang/token/token.go', '''	err = tmpl.Execute(buf, getData())
''', '''	if err = tmpl.Execute(buf, getData()); err == nil && unchanged(tokenFile(g.Package.GetString()), buf.Len()) {
		return
	}
'''), ('gen/golang/token/token.go', '''func getData() *Data {''', '''func unchanged(fname string, size int) bool {
	fi, err := os.Stat(fname)
	return err == nil && fi.Size() == int64(size)
}

func getData() *Data {'''), ('gen/golang/token/token.go', '''import (
	"bytes"
''', '''import (
	"bytes"
	"os"
''')],
  shell=TOOL + r'''
printf 'package "t"\n\nS : "a" S | "b" ;\n' >g.bnf
gogll g.bnf || fail "gogll failed"
printf 'package "t"\n\nS : "a" S | "c" ;\n' >g.bnf
gogll g.bnf || fail "gogll failed"
gogll -o new g.bnf || fail "gogll failed"
for f in lexer parser token; do diff -r $f new/$f >/dev/null || fail "$f is not up to date"; done
exit 0
'''),
 dict(id='l05-bytes', property='L05', kind='lex',
  needs='text outside the fences that is not ASCII',
  breaks='the text outside the fences is blanked byte by byte, so what follows moves',
  edits=[(X, '''	input := []rune(string(buf))
	if strings.HasSuffix(fname, ".md") {
		loadMd(input)
	}
	return New(input)''', '''	if strings.HasSuffix(fname, ".md") {
		loadMd(buf)
	}
	return New([]rune(string(buf)))'''), (X, 'func loadMd(input []rune) {', 'func loadMd(input []byte) {')],
  main=MDMAIN,
  grammar='package "demo"\n\nid : letter ;\n\nS : id | "`" ;\n',
  inputs=['text\n```\na b\n```\nmore', 'caf\u00e9 ```a``` \u4e2d ```b```', '\U0001d538 ```c']),
 dict(id='l03-table', property='L03', kind='lex',
  needs='the class Extender and one of the few characters that are extenders and no diacritics, or the reverse',
  breaks='the table of the property is that of another one',
  edits=[(X, '''= unicode.Extender ''', '''= unicode.Diacritic ''')],
  grammar='package "demo"\n\next : \'[\\p{Extender}]\' ;\n\nS : ext S | "x" ;\n',
  inputs=['x', '\u00b7', '^', '`', '\u0e46', '\u00a8']),

 dict(id='r05-end-pos', property='R05', kind='lr', flags='-knuth',
  needs='an error at the end of an input that ends with white space',
  breaks='an error at the end of the input is reported at the end of the last token',
  edits=[(LRP, '''	ln, col := P.nextToken.GetLineColumn()
''', '''	ln, col := P.nextToken.GetLineColumn()
	if n := len(P.tokens); n > 1 && P.nextToken.Type() == token.EOF {
		ln, col = P.lex.GetLineColumn(P.tokens[n-2].Rext())
	}
''')],
  main='''package main

import (
	"fmt"
	"strings"

	"demo/lexer"
	"demo/parser"
)

func main() {
	for _, in := range []string{"a", "a a ", "a\\n a\\n\\n", "a x"} {
		_, err := parser.New(lexer.New([]rune(in))).Parse()
		pos, _, _ := strings.Cut(err.Error(), " tok ")
		fmt.Printf("%q %s\\n", in, pos)
	}
}
''',
  grammar='package "demo"\n\nS : "a" S | "b" ;\n', ast='S0:2 S1:1', inputs=[]),
]
