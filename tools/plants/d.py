P = 'gen/golang/gll/parser.go'
B = 'gen/golang/gll/bsr/bsr.go'
X = 'gen/golang/lexer/lexer.go'
T = 'gen/golang/token/token.go'
LRP = 'gen/golang/lr1/parser/parser.go'
TOOL = r'''
mkdir "$W/t" && cd "$W/t" || exit 2
fail() { echo "$1"; exit 1; }
gogll() { timeout 60 "$W/gogll" "$@" >"$W/out" 2>&1; }
'''
MD = '''package main

import (
	"fmt"
	"os"

	"demo/lexer"
)

func main() {
	for _, in := range []string{@INPUTS@} {
		if err := os.WriteFile("in.md", []byte(in), 0644); err != nil {
			panic(err)
		}
		fmt.Printf("%q\\n", in)
		for _, t := range lexer.NewFile("in.md").Tokens {
			ln, col := t.GetLineColumn()
			fmt.Printf("  %s %d-%d %q %d:%d\\n", t.Type().ID(), t.Lext(), t.Rext(), t.LiteralString(), ln, col)
		}
	}
}
'''

PLANTS = [
 dict(id='g05-alt-expected', property='G05', kind='gll', noforest=True, errs=True,
  needs='an error behind the first symbol of an alternate',
  breaks='an error within an alternate lists the tokens with which the alternate begins',
  edits=[(P.replace('parser.go', 'codex.go'), "p.cI, first[slot.{{$slot.PreLabel}}])", "p.cI, first[slot.{{$slot.AltLabel}}])")],
  grammar='package "demo"\n\nS : "(" L ")" | "x" ;\nL : S "," L | S ;\n', inputs=['( x', '( x , ( x', 'x x', '( x x )', '( ( x ) , , )']),
 dict(id='g08-line-cache', property='G08', kind='gll', noforest=True,
  needs='parses that fail at the same time over one lexer',
  breaks='the lexer remembers the last position it was asked for, and two parses that share it get each other\'s lines',
  edits=[(X, '''	// Tokens is the slice of tokens constructed by the lexer from I
	Tokens []*token.Token
}

/*
NewFile''', '''	// Tokens is the slice of tokens constructed by the lexer from I
	Tokens []*token.Token

	// the position looked up last
	pos, line, col int
}

/*
NewFile'''), (X, '''func (l *Lexer) GetLineColumn(i int) (line, col int) {
	line, col = 1, 1
	for j := 0; j < i; j++ {
		switch l.I[j] {
		case '\\n':
			line++
			col = 1
		case '\\t':
			col += 4
		default:
			col++
		}
	}
	return
}
''', '''func (l *Lexer) GetLineColumn(i int) (line, col int) {
	if l.line == 0 || i < l.pos {
		l.pos, l.line, l.col = 0, 1, 1
	}
	for ; l.pos < i; l.pos++ {
		switch l.I[l.pos] {
		case '\\n':
			l.line++
			l.col = 1
		case '\\t':
			l.col += 4
		default:
			l.col++
		}
	}
	return l.line, l.col
}
''')],
  main='''package main

import (
	"fmt"
	"sync"

	"demo/lexer"
	"demo/parser"
)

var inputs = []string{@INPUTS@}

func show(errs []*parser.Error) (s string) {
	n := 0
	for _, e := range errs {
		n += e.Line*1000 + e.Column
	}
	return fmt.Sprint(len(errs), " ", n)
}

func main() {
	for _, in := range inputs {
		_, errs := parser.Parse(lexer.New([]rune(in)))
		want, bad := show(errs), 0
		var mu sync.Mutex
		for n := 0; n < 100; n++ {
			l := lexer.New([]rune(in))
			var wg sync.WaitGroup
			for k := 0; k < 8; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if recover() != nil {
							mu.Lock()
							bad++
							mu.Unlock()
						}
					}()
					for m := 0; m < 20; m++ {
						_, errs := parser.Parse(l)
						if show(errs) != want {
							mu.Lock()
							bad++
							mu.Unlock()
						}
					}
				}()
			}
			wg.Wait()
		}
		fmt.Println(want, bad > 0)
	}
}
''',
  grammar='package "demo"\n\nS : S "a" | "a" ;\n',
  inputs=[('a\n' + 30 * '\n \t') * 12 + 'x', ('a\n' + 3000*'\n') * 5 + 'x']),
 dict(id='l02-nul', property='L02', kind='lex',
  needs='a NUL character in the input',
  breaks='the token list ends at the first NUL character',
  edits=[(X, '''	lext := 0
	for lext < len(lex.I) {
''', '''	lext := 0
	for lext < len(lex.I) && lex.I[lext] != 0 {
''')],
  grammar='package "demo"\n\nS : aa | "b" ;\naa : \'a\' { . } ;\n', inputs=['b b', 'b \x00 b', 'a\x00b', '\x00', 'b\n\x00b']),
 dict(id='l04-suppressed-last', property='L04', kind='lex',
  needs='a suppressed rule and a later one that match the same text',
  breaks='a rule that is not suppressed beats a suppressed one, whatever their names',
  edits=[('lex/items/items.go', '''		return slits.Contain(items[i].Rule.ID()) &&
''', '''		if items[i].Rule.Suppress != items[j].Rule.Suppress {
			return items[j].Rule.Suppress
		}
		return slits.Contain(items[i].Rule.ID()) &&
''')],
  grammar='package "demo"\n\nS : id2 | "b" ;\n!com1 : \'#\' { letter } ;\nid2 : any "#x" < letter > ;\n', inputs=['#ab b', 'xab b', '# b', 'b #b xb']),
 dict(id='l05-line-start', property='L05', kind='lex',
  needs='a markdown input with a fence that does not begin its line',
  breaks='only fences at the beginning of a line count',
  edits=[(X, '''		if i <= len(input)-3 && input[i] ==''', '''		if i <= len(input)-3 && (i == 0 || input[i-1] == '\\n') && input[i] ==''')],
  main=MD, grammar='package "demo"\n\nS : aa | "b" ;\naa : \'a\' { letter } ;\n',
  inputs=['x\n```\na b\n```\nb\n', 'b ```a b``` b', '```\na\n ```\nb', '\t```b```']),
 dict(id='l05-four-ticks', property='L05', kind='lex',
  needs='a markdown input with two fences next to one another',
  breaks='a run of back ticks counts as one fence, however long it is',
  edits=[(X, '''			for j := 0; j < 3; j++ {
				input[i+j] = ' '
			}
			i += 3
''', '''			for i < len(input) && input[i] == '{{.Tick}}' {
				input[i] = ' '
				i++
			}
''')],
  main=MD, grammar='package "demo"\n\nS : aa | "b" ;\naa : \'a\' { letter } ;\n',
  inputs=['x\n```\na b\n```\nb\n', '```a``````b``` x', '``````b', '`````b']),
 dict(id='l08-case-order', property='L08', kind='gll',
  needs='terminals whose order changes when upper and lower case are not distinguished',
  breaks='the parser numbers its terminals in another order than the lexer, so the body of a slot names other terminals',
  edits=[('gen/golang/gll/symbols/symbols.go', '''	return &Data{
		NonTerminals: g.NonTerminals.ElementsSorted(),
		Terminals:    utils.EscapeAll(g.Terminals.ElementsSorted()...),
''', '''	ts := g.Terminals.ElementsSorted()
	sort.SliceStable(ts, func(i, j int) bool {
		return strings.ToLower(ts[i]) < strings.ToLower(ts[j])
	})
	return &Data{
		NonTerminals: g.NonTerminals.ElementsSorted(),
		Terminals:    utils.EscapeAll(ts...),
'''), ('gen/golang/gll/symbols/symbols.go', '''	"text/template"
''', '''	"sort"
	"strings"
	"text/template"
''')],
  grammar='package "demo"\n\nS : "B" | "a" T ;\nT : "Z" "b" ;\n', inputs=['B', 'a Z b', 'b']),
 dict(id='r05-no-eof', property='R05', kind='go', flags='-knuth g.bnf',
  needs='a syntax error where the input could have ended',
  breaks='the message does not list the end of input',
  edits=[(LRP, '''		for tok, act := range actRow.actions {
			if act != nil {
				fmt''', '''		for tok, act := range actRow.actions {
			if act != nil && tok != token.EOF {
				fmt''')],
  files={'src/g.bnf': 'package "demo"\n\nS : "a" S | "b" ;\n', 'src/main.go': '''package main

import (
	"fmt"
	"sort"
	"strings"

	"demo/lexer"
	"demo/parser"
)

func main() {
	for _, in := range []string{"a a", "b b", "a b a", "x", "b"} {
		_, err := parser.New(lexer.New([]rune(in))).Parse()
		if err == nil {
			fmt.Println(in, "accepted")
			continue
		}
		w := strings.Fields(err.Error())
		sort.Strings(w)
		fmt.Println(in, w)
	}
}
'''}),
 dict(id='f01-grow', property='F01', kind='shell',
  needs='a FIRST set that grows after every symbol has got some element',
  breaks='the computation of the FIRST sets ends with the first pass in which no set gets its first element',
  edits=[('frstflw/frstflw.go', '''				ff.firstSets[s] = fs
				again = true
''', '''				again = again || ff.firstSets[s].Len() == 0
				ff.firstSets[s] = fs
''')],
  shell=TOOL + r'''
printf 'package "t"\n\nA : "a" | B ;\nB : "b" | C ;\nC : "c" | D ;\nD : "d" | E ;\nE : "e" | F ;\nF : "f" | A "x" ;\n' >g.bnf
gogll -v g.bnf || fail "gogll failed"
for x in A B C D E F; do
	n=$(grep "^$x:" first_follow.txt | tr -s ' ' '\n' | grep -c '^[a-f]$')
	[ "$n" = 6 ] || fail "FIRST($x) has $n elements"
done
exit 0
'''),
 dict(id='c01-unreachable', property='C01', kind='shell',
  needs='a symbol that is not declared, in a rule that the start symbol does not reach',
  breaks='undeclared symbols are looked for only in the rules that can be reached; in others generation panics after the first files were written',
  edits=[('sc/sc.go', '''	for _, r := range g.SyntaxRules {
		for _, alt := range r.Alternates {
''', '''	if len(g.SyntaxRules) == 0 {
		return
	}
	reached := map[string]bool{g.StartSymbol(): true}
	for i := 0; i <= len(g.SyntaxRules); i++ {
		for _, r := range g.SyntaxRules {
			for _, alt := range r.Alternates {
				for _, sym := range alt.Symbols {
					if nt, ok := sym.(*ast.NT); ok && reached[r.ID()] {
						reached[nt.ID()] = true
					}
				}
			}
		}
	}
	for _, r := range g.SyntaxRules {
		if !reached[r.ID()] {
			continue
		}
		for _, alt := range r.Alternates {
''')],
  shell=TOOL + r'''
printf 'package "t"\n\nS : "a" ;\nT : "b" S | U ;\n' >g.bnf
gogll -pager g.bnf && fail "an undeclared symbol is accepted"
grep -q '^panic\|^goroutine' "$W/out" && fail "gogll panics"
grep -q 'U' "$W/out" || fail "the message does not name the symbol"
[ "$(ls)" = g.bnf ] || fail "files were generated"
printf 'package "t"\n\nS : "a" | T ;\nT : "b" S | "u" ;\n' >g.bnf
gogll -pager g.bnf || fail "a well-formed grammar is refused"
exit 0
'''),
 dict(id='c06-fence-start', property='C06', kind='shell',
  needs='a markdown grammar in which a fence does not begin its line',
  breaks='gogll itself sees only fences at the beginning of a line, so an indented code block is not read; the lexers it generates see all',
  edits=[('lexer/lexer.go', '''		if i <= len(input)-3 && input[i] ==''', '''		if i <= len(input)-3 && (i == 0 || input[i-1] == '\\n') && input[i] ==''')],
  shell=TOOL + r'''
printf 'package "t"\n\nS : "a" S\n  | "b" ;\n' >a.bnf
printf '# T\n\n- one:\n\n  ```\n  package "t"\n  ```\n\n- two:\n\n  ```\nS : "a" S\n  | "b" ;\n  ```\n' >b.md
gogll -o o1 a.bnf || fail "gogll failed"
gogll -o o2 b.md || fail "the grammar in indented fences is refused"
diff -r o1 o2 >/dev/null || fail "the generated files differ"
exit 0
'''),
]
