P = 'gen/golang/gll/parser.go'
B = 'gen/golang/gll/bsr/bsr.go'
X = 'gen/golang/lexer/lexer.go'
T = 'gen/golang/token/token.go'

PLANTS = [
 dict(id='g01-nullable-replay', property='G01', kind='gll', noforest=True,
  needs='a nullable rule called twice at one position, after it has been parsed as empty there',
  breaks='call() does not replay pops that consumed nothing, so a sentence is rejected',
  edits=[(P, 'if pnd.X == X && pnd.k == j {', 'if pnd.X == X && pnd.k == j && pnd.j > j {')],
  grammar='package "demo"\n\nS : A "x" | A "y" A "z" | B "x" "w" ;\nA : empty | "a" ;\nB : A A ;\n',
  inputs=['x', 'a x', 'y z', 'a y a z', 'x w', 'a x w', 'a a x w', 'w']),
 dict(id='g01-edge-slot', property='G03', kind='gll',
  needs='the same slot called at one position from two left extents (a rule whose first symbol can end in several places)',
  breaks='existEdge compares only the slot, so the second caller is dropped and derivations are lost',
  edits=[(P, 'if nd1 == nd {', 'if nd1.L == nd.L {')],
  grammar='package "demo"\n\nS : P ;\nP : P P | "b" ;\n',
  inputs=['b', 'b b', 'b b b', 'b b b b']),
 dict(id='g01-follow-once', property='G01', kind='gll', noforest=True,
  needs='an alternate in which a non-terminal occurs twice and what follows the second occurrence follows it nowhere else',
  breaks='FOLLOW is computed from the first occurrence of a non-terminal in an alternate only',
  edits=[('frstflw/frstflw.go', '''			for _, idx := range stringslice.Find(bs, nt) {
				first := ff.FirstOfString(bs[idx+1:])''', '''			for i, idx := range stringslice.Find(bs, nt) {
				if i > 0 && bs[idx-1] != nt {
					continue
				}
				first := ff.FirstOfString(bs[idx+1:])''')],
  grammar='package "demo"\n\nS : "(" A "," A ")" | "[" A A "]" ;\nA : "a" | "a" A ;\n',
  inputs=['( a , a )', '( a a , a )', '[ a a ]', '[ a ]', '( a , a']),
 dict(id='g02-string-key', property='G02', kind='gll',
  needs='two rules whose first symbols spell the same text when written without spaces (A BC and AB C)',
  breaks='string BSRs of different rules share one key, so the forest offers derivations that do not exist',
  edits=[('gen/golang/gll/symbols/symbols.go', '''		if i > 0 {
			fmt.Fprint(w, " ")
		}
''', '''		if i > 1 {
			fmt.Fprint(w, " ")
		}
''')],
  grammar='package "demo"\n\nS : A BC Z | AB C "z" ;\nA : "x" | "x" "x" ;\nBC : "x" | "x" "x" ;\nAB : "x" | "x" "x" "x" ;\nC : "x" | "x" "x" "x" | "x" "x" ;\nZ : "z" ;\n',
  inputs=['x x z', 'x x x z', 'x x x x z']),
 dict(id='g04-first-child', property='G04', kind='gll',
  needs='an ambiguity below a non-terminal that is not the first one of its alternate',
  breaks='isAmbiguous looks only below the first non-terminal of an alternate',
  edits=[(B, '''            for _, b1 := range b.GetNTChildrenI(i) {
                if isAmbiguous(b1) {
                    return true
                }
            }
        }
    }
    return false
}

//---- SPPF''', '''            for _, b1 := range b.GetNTChildrenI(i) {
                return isAmbiguous(b1)
            }
        }
    }
    return false
}

//---- SPPF''')],
  grammar='package "demo"\n\nS : H "," T ;\nH : "h" I ;\nI : "i" ;\nT : E ;\nE : E "+" E | "n" ;\n',
  inputs=['h i , n', 'h i , n + n', 'h i , n + n + n']),
 dict(id='g05-expected-last', property='G05', kind='gll', noforest=True, errs=True,
  needs='a non-terminal with several alternates, none of which can start with the next token',
  breaks='the expected tokens of the error are those of the last alternate only',
  edits=[(P, '''			for k, v := range first[l] {
				expected[k] = v
			}
''', '''			expected = first[l]
''')],
  grammar='package "demo"\n\nS : "a" S | "b" | B "d" ;\nB : "c" | empty ;\n',
  inputs=['', 'x', 'a x', 'a a a', 'a c a', 'd d']),
 dict(id='g08-first-table', property='G08', kind='gll', noforest=True, errs=True,
  needs='two parses in one process: a failing one, then another failing one in the same rule',
  breaks='ntAdd collects the expected tokens in the table of the first alternate, so an error changes the tables for the parses after it',
  edits=[(P, '''	expected := map[token.Type]string{}
''', '''	expected := first[slot.GetAlternates(nt)[0]]
''')],
  grammar='package "demo"\n\nS : "a" "c" | "b" "d" ;\n',
  inputs=['a c', 'b d', 'b c', 'x', 'a c', 'b d', 'b c']),
 dict(id='g07-get-child', property='G07', kind='gll', noforest=True,
  needs='GetNTChild on a node whose child is ambiguous',
  breaks='GetNTChild returns one of several children instead of failing',
  edits=[(B, '''    bsrs := b.GetNTChildren(nt, i)
    if len(bsrs) != 1 {''', '''    bsrs := b.GetNTChildren(nt, i)
    if len(bsrs) == 0 {''')],
  main='''package main

import (
	"fmt"

	"demo/lexer"
	"demo/parser"
	"demo/parser/symbols"
)

func try(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func main() {
	for _, in := range []string{@INPUTS@} {
		set, _ := parser.Parse(lexer.New([]rune(in)))
		rt := set.GetRoot()
		fmt.Printf("%q %t %t\\n", in, try(func() { rt.GetNTChild(symbols.NT_E, 0) }), try(func() { rt.GetNTChildI(1) }))
	}
}
''',
  grammar='package "demo"\n\nS : "s" E ;\nE : E E | "n" ;\n',
  inputs=['s n', 's n n', 's n n n']),
 dict(id='g06-packed-label', property='G06', kind='gll', noforest=True,
  needs='two packed nodes of one slot that differ only in the left extent',
  breaks='packed nodes of different extents share a label, so the SPPF loses one of them',
  edits=[('gen/golang/gll/sppf/sppf.go', '''slotString(n.NT, n.Body, n.Pos), n.Lext, n.Pivot, n.Rext)''', '''slotString(n.NT, n.Body, n.Pos), n.Pivot, n.Pivot, n.Rext)''')],
  main='''package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"demo/lexer"
	"demo/parser"
)

func main() {
	for _, in := range []string{@INPUTS@} {
		set, _ := parser.Parse(lexer.New([]rune(in)))
		set.ToSPPF().DotFile("out.dot")
		b, _ := os.ReadFile("out.dot")
		edges := 0
		sns := []string{}
		for _, l := range strings.Split(string(b), "\\n") {
			if strings.Contains(l, "->") {
				edges++
			} else if !strings.Contains(l, "•") && strings.HasPrefix(l, "\\"") {
				sns = append(sns, l)
			}
		}
		sort.Strings(sns)
		fmt.Println(in, edges, strings.Join(sns, " "))
	}
}
''',
  grammar='package "demo"\n\nE : E E E | "a" ;\n',
  inputs=['a a a', 'a a a a a', 'a a a a a a a']),
 dict(id='l02-space', property='L02', kind='lex',
  needs='white space other than blank, tab, newline and carriage return between tokens',
  breaks='the lexer skips only ASCII blanks, so other white space gives Error tokens',
  edits=[(X, 'unicode.IsSpace(lex.I[lext]) {', "strings.ContainsRune(\" \\t\\r\\n\", lex.I[lext]) {")],
  grammar='package "demo"\n\nid : letter {letter} ;\n\nS : id S | id ;\n',
  inputs=['ab cd', 'ab\u00a0cd', 'ab\u2003cd \u3000', '\x0bab\x0c', 'a\u0085b']),
 dict(id='l01-pos-ends', property='L01', kind='lex',
  needs='a rule with groups nested two deep, in which two positions differ only in the alternate of the outer group',
  breaks='positions are compared by depth and ends, so two items are taken for one and texts are no longer accepted',
  edits=[('lex/item/pos/pos.go', '''	for i := range pos.stack {
		if pos.stack[i] != other.stack[i] {
			return false
		}
	}
	return true''', '''	for i := len(pos.stack) - 1; i >= 0 && i >= len(pos.stack)-3; i-- {
		if pos.stack[i] != other.stack[i] {
			return false
		}
	}
	return pos.stack[0] == other.stack[0]''')],
  grammar='package "demo"\n\nnum : \'n\' ( \'a\' ( \'b\' \'c\' | \'d\' \'e\' ) | \'a\' ( \'b\' \'f\' | \'d\' \'g\' ) ) ;\n\nS : num ;\n',
  inputs=['nabc', 'nade', 'nabf', 'nadg', 'nab']),
 dict(id='l06-tab-stop', property='L06', kind='lex',
  needs='a tab that does not start at column 1 mod 4',
  breaks='Token.GetLineColumn moves to tab stops while the lexer counts 4 for a tab',
  edits=[(T, 'col += 4', 'col += 4 - (col-1)%4')],
  grammar='package "demo"\n\nid : letter {letter} ;\n\nS : id S | id ;\n',
  inputs=['a b', '\ta', 'a\tb', 'abc\t\td\n \te']),
 dict(id='l04-three', property='L04', kind='lex',
  needs='a text accepted by two rules that sort before the literal, and by the literal',
  breaks='only the first two accepting items are considered, so the literal loses',
  edits=[('lex/items/items.go', '''			items = append(items, itm)
		}
''', '''			items = append(items, itm)
			if len(items) == 2 {
				break
			}
		}
''')],
  grammar='package "demo"\n\nabc : letter {letter} ;\nabd : letter { letter | number } ;\n\nS : "zz" abc abd | "aa" ;\n',
  inputs=['zz', 'aa', 'zz a', 'zza a1']),
 dict(id='l05-md-tail', property='L05', kind='lex',
  needs='a markdown input whose last fence is the very end of the file',
  breaks='NewFile of the generated lexer does not recognise a closing fence at the end of the file',
  edits=[(X, 'i <= len(input)-3 &&', 'i < len(input)-3 &&')],
  main='''package main

import (
	"fmt"
	"os"

	"demo/lexer"
)

func main() {
	for _, in := range []string{@INPUTS@} {
		os.WriteFile("in.md", []byte(in), 0o600)
		for _, t := range lexer.NewFile("in.md").Tokens {
			fmt.Println(t)
		}
	}
}
''',
  grammar='package "demo"\n\nid : letter ;\n\nS : id | "`" ;\n',
  inputs=['t\n```\na\n```\nt', 't\n```\na\n```', '```a```']),
 dict(id='l07-last-char', property='L07', kind='lex',
  needs='a string literal with an escaped character that is not a quote or backslash',
  breaks='an escape in the middle of a literal is kept as its two characters unless it is the last',
  edits=[('lex/items/items.go', "		if slit[i] == '\\\\' {", "		if slit[i] == '\\\\' && (i == 1 || slit[i-1] != '\\\\') {")],
  grammar='package "demo"\n\nS : "a\\\\b" | "\\\\\\\\" | "\\\\\\"q" ;\n',
  inputs=['a\\b', '\\\\', '\\"q', '\\']),
 dict(id='l03-upcase', property='L03', kind='lex',
  needs='upcase next to a title-case letter or a capital without the Lu category',
  breaks='the generated condition for upcase accepts every letter that is not lower case',
  edits=[(X, 'return "unicode.IsUpper(r)"', 'return "unicode.IsLetter(r) && !unicode.IsLower(r)"')],
  grammar='package "demo"\n\nup : upcase ;\nhsh : \'#\' . ;\n\nS : up S | hsh ;\n',
  inputs=['A', 'a', '\u01c5', '\u4e2d', '#A']),
 dict(id='l08-id-suppress', property='L08', kind='lex', noforest=True,
  needs='a suppressed token whose type is the last one',
  breaks='IDToType maps names to the position among user tokens',
  edits=[(T, '''    "{{$typ.Comment}}": {{$i}}, {{end}}''', '''    "{{$typ.Comment}}": {{if $i}}{{$i}}{{else}}EOF{{end}}, {{end}}''')],
  main='''package main

import (
	"fmt"

	"demo/token"
)

func main() {
	for i, id := range token.TypeToID {
		fmt.Println(id, token.IDToType[id] == token.Type(i), token.StringToType[token.TypeToString[i]] == token.Type(i))
	}
	_ = []string{@INPUTS@}
}
''',
  grammar='package "demo"\n\nid : letter {letter} ;\n!ws : \'_\' ;\n\nS : id S | id ;\n',
  inputs=['a']),
]
