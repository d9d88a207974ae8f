P = 'gen/golang/gll/parser.go'
B = 'gen/golang/gll/bsr/bsr.go'
LRP = 'gen/golang/lr1/parser/parser.go'
TOOL = r'''
mkdir "$W/t" && cd "$W/t" || exit 2
fail() { echo "$1"; exit 1; }
gogll() { timeout 60 "$W/gogll" "$@" >"$W/out" 2>&1; }
'''
ALL = ' | '.join('"%s"' % c for c in 'bcdefghijklmnop')

PLANTS = [
 dict(id='r01-item-key', property='R01', kind='lr', flags='-knuth',
  needs='a production of ten symbols or more in a grammar with ten productions or more',
  breaks='the keys of items are ambiguous: position 10 of production 1 is the same as position 0 of production 11',
  edits=[('lr1/items/item.go', 'fmt.Sprintf("%d:%d", pIndex, pos)', 'fmt.Sprintf("%d%d", pIndex, pos)')],
  grammar='package "demo"\n\nS : "a" "a" "a" "a" "a" "a" "a" "a" "a" "a" Q ;\nA : "a" | "b" | "c" | "d" | "e" | "f" | "g" | "h" | "i" ;\nQ : "q" A | "r" Q ;\n',
  ast='S0:11 A0:1 A1:1 A2:1 A3:1 A4:1 A5:1 A6:1 A7:1 A8:1 Q0:2 Q1:2',
  inputs=['a a a a a a a a a a q b', 'a a a a a a a a a a r r q c', 'a a a a a a a a a a r r q']),
 dict(id='r01-first-again', property='R01', kind='lr', flags='-pager',
  needs='FIRST sets that need another pass after one in which the last production changed nothing',
  breaks='the FIRST sets of the LR(1) tables are complete as soon as the last production of a pass adds nothing',
  edits=[('lr1/first/first.go', '''			if changed {
				again = true
			}
''', '''			again = changed
''')],
  grammar='package "demo"\n\nS : A A "z" ;\nA : B | "(" A ")" ;\nB : C ;\nC : "c" | "d" B ;\n',
  ast='S0:3 A0:1 A1:3 B0:1 C0:1 C1:2',
  inputs=['c c z', 'd c c z', 'd d c ( c ) z', '( d c ) c z']),
 dict(id='g02-byte-key', property='G02', kind='gll', noforest=True,
  needs='an input of more than 256 tokens, and an alternate of three symbols or more',
  breaks='string BSRs 256 tokens apart share one key, so that nodes are offered children of other places',
  edits=[(B, 'return stringKey(fmt.Sprintf("%s,%d,%d", symbols, lext, rext))',
          'return stringKey(symbols.String() + string([]byte{byte(lext), byte(rext)}))')],
  main='''package main

import (
	"fmt"
	"strings"

	"demo/lexer"
	"demo/parser"
	"demo/parser/bsr"
)

func read(b bsr.BSR) int {
	n, pos := 1, b.LeftExtent()
	for i, s := range b.Label.Symbols() {
		if !s.IsNonTerminal() {
			pos++
			continue
		}
		cs := b.GetNTChildrenI(i)
		if len(cs) != 1 || cs[0].LeftExtent() != pos {
			fmt.Println("wrong children", len(cs))
			return n
		}
		pos = cs[0].RightExtent()
		n += read(cs[0])
	}
	return n
}

func main() {
	for _, k := range []int{1, 5, 60, 70, 130} {
		set, errs := parser.Parse(lexer.New([]rune(strings.Repeat("( a b ) ", k) + "$end")))
		fmt.Println(k, len(errs))
		if set != nil {
			fmt.Println(read(set.GetRoot()))
		}
	}
}
''',
  grammar='package "demo"\n\nS : I S | "$end" ;\nI : "(" A B ")" ;\nA : "a" ;\nB : "b" ;\n', inputs=[]),
 dict(id='c03-comment', property='C03', kind='shell',
  needs='a literal that contains the end of a comment',
  breaks='the alternate is written into a block comment of the generated parser',
  edits=[('gen/golang/gll/codex.go', '// {{.AltComment}}{{if .Empty}}', '/* {{.AltComment}} */{{if .Empty}}')],
  shell=r'''
v=$(go list -m -f '{{.Version}}' github.com/goccmack/goutil) || exit 2
mkdir "$W/t" && cp go.sum "$W/t/" && cd "$W/t" || exit 2
printf 'module t\n\ngo 1.21\n\nrequire github.com/goccmack/goutil %s\n' "$v" >go.mod
printf 'package "t"\n\nS : "/*" T ;\nT : "a" T | "*/" ;\n' >g.bnf
timeout 60 "$W/gogll" g.bnf >"$W/out" 2>&1 || { echo "gogll failed"; exit 1; }
go build ./... || { echo "the generated parser does not compile"; exit 1; }
exit 0
'''),
 dict(id='c06-bang', property='C06', kind='shell',
  needs='white space between the ! and the name of a suppressed token',
  breaks='a rule is suppressed only if the ! is directly before its name',
  edits=[('ast/build.go', '''		Suppress: true,''', '''		Suppress: b.GetTChildI(0).Rext() == b.GetTChildI(1).Lext(),''')],
  shell=TOOL + r'''
printf 'package "t"\n\nS : "a" S | "b" ;\n!cmt : %s#%s {letter} ;\n' "'" "'" >a.bnf
printf 'package "t"\n\nS : "a" S | "b" ;\n!\n  cmt : %s#%s {letter} ;\n' "'" "'" >b.bnf
gogll -o o1 a.bnf || fail "gogll failed"
gogll -o o2 b.bnf || fail "gogll failed"
diff -r o1 o2 >/dev/null || fail "the generated files differ"
exit 0
'''),
 dict(id='r04-fixed-args', property='R04', kind='lr', flags='-knuth',
  needs='an alternate of more than ten symbols',
  breaks='the attributes of a reduction are copied to a buffer of ten, so longer ones panic',
  edits=[(LRP, '''	state []int
	attrib	[]interface{}
}''', '''	state []int
	attrib	[]interface{}

	// the attributes popped last
	args	[10]interface{}
}'''), (LRP, '''	attrib := this.attrib[lo: hi]
	
	this.state''', '''	copy(this.args[:], this.attrib[lo: hi])
	attrib := this.args[:items]
	
	this.state''')],
  grammar='package "demo"\n\nS : "a" "a" "a" "a" "a" "a" "a" "a" "a" "a" "a" | "b" S ;\n',
  ast='S0:11 S1:2',
  inputs=['a a a a a a a a a a a', 'b b a a a a a a a a a a a']),
 dict(id='g05-sort-line', property='G05', kind='gll', noforest=True, errs=True,
  needs='errors on several lines, of which the later one is further left',
  breaks='errors are ordered by line or column, so the farthest one is not always the first',
  edits=[(P, '''			return p.parseErrors[j].Token.Lext() < p.parseErrors[i].Token.Lext()
''', '''			li, ci := p.lex.GetLineColumn(p.parseErrors[i].Token.Lext())
			lj, cj := p.lex.GetLineColumn(p.parseErrors[j].Token.Lext())
			return li > lj || ci > cj
''')],
  grammar='package "demo"\n\nS : "a" B "c" | "a" "b" "d" ;\nB : "b" | "b" B ;\n', inputs=['a\n b\nx', '      a\n    b b\n b b\nx', 'a b\nb']),
]
