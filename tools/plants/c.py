P = 'gen/golang/gll/parser.go'
B = 'gen/golang/gll/bsr/bsr.go'
X = 'gen/golang/lexer/lexer.go'
T = 'gen/golang/token/token.go'
LRP = 'gen/golang/lr1/parser/parser.go'
TOOL = r'''
mkdir "$W/t" && cd "$W/t" || exit 2
fail() { echo "$1"; exit 1; }
gogll() { timeout 60 "$W/gogll" "$@" >"$W/out" 2>&1; }
'''

PLANTS = [
 dict(id='g03-desc-key', property='G03', kind='gll',
  needs='a slot reached at one position from two left extents, in one of which nothing has been consumed since the start of the rule',
  breaks='descriptors are compared by value, but the left extent is left out for those that have consumed nothing',
  edits=[(P, '''		if d1 == d {''', '''		if d1.L == d.L && d1.i == d.i && (d1.k == d.k || d.k == d.i) {''')],
  grammar='package "demo"\n\nS : B "x" ;\nB : B A | C ;\nC : N C "c" | "c" ;\nN : "n" | empty ;\nA : "a" | N B "a" ;\n',
  inputs=['c x', 'c a x', 'c c a x', 'n c c x', 'c n c c a a x', 'c c c a x', 'c c a a x', 'n n c c c x']),
 dict(id='g04-empty-below', property='G04', kind='gll',
  needs='an ambiguity among nodes that derive the empty string, at least two levels below the last node with text',
  breaks='IsAmbiguous does not look below nodes that derive the empty string',
  edits=[(B, '''            for _, b1 := range b.GetNTChildrenI(i) {
                if isAmbiguous(b1) {
                    return true
                }
            }
        }
    }
    return false
}

//---- SPPF''', '''            for _, b1 := range b.GetNTChildrenI(i) {
                if b1.leftExtent < b1.rightExtent && isAmbiguous(b1) {
                    return true
                }
            }
        }
    }
    return false
}

//---- SPPF''')],
  grammar='package "demo"\n\nS : A "x" | "y" S ;\nA : D | "a" ;\nD : E F ;\nE : G | H ;\nG : empty ;\nH : empty | "h" ;\nF : "f" | empty ;\n',
  inputs=['x', 'y x', 'a x', 'h x', 'f x', 'h f x']),
 dict(id='g06-in-share', property='G06', kind='gll', noforest=True,
  needs='two alternates of one rule whose derivations agree in extents up to the same inner position',
  breaks='intermediate nodes are shared by rule, position and extent, without the symbols of the alternate',
  edits=[(B, '''    in := &sppf.IntermediateNode{
        NT:   nt,''', '''    for _, pn := range bld.pNodes {
        if in, ok := pn.LeftChild.(*sppf.IntermediateNode); ok && in.NT == nt && in.Pos == pos && in.Lext == lext && in.Rext == rext {
            return in
        }
    }
    in := &sppf.IntermediateNode{
        NT:   nt,''')],
  main='''package main

import (
	"fmt"
	"sort"

	"demo/lexer"
	"demo/parser"
	"demo/sppf"
)

var inputs = []string{@INPUTS@}

func main() {
	for _, in := range inputs {
		set, _ := parser.Parse(lexer.New([]rune(in)))
		if set == nil {
			fmt.Println("rejected")
			continue
		}
		seen := map[sppf.Node]bool{}
		out := []string{}
		var walk func(n sppf.Node)
		walk = func(n sppf.Node) {
			if seen[n] {
				return
			}
			seen[n] = true
			switch n := n.(type) {
			case *sppf.SymbolNode:
				for _, c := range n.Children {
					out = append(out, n.Label()+" -> "+c.Label())
					walk(c)
				}
			case *sppf.IntermediateNode:
				for _, c := range n.Children {
					out = append(out, n.Label()+" -> "+c.Label())
					walk(c)
				}
			case *sppf.PackedNode:
				if n.LeftChild != nil {
					out = append(out, n.Label()+" l "+n.LeftChild.Label())
					walk(n.LeftChild)
				}
				if n.RightChild != nil {
					out = append(out, n.Label()+" r "+n.RightChild.Label())
					walk(n.RightChild)
				}
			}
		}
		walk(set.ToSPPF())
		sort.Strings(out)
		fmt.Println(in)
		for i, s := range out {
			if i == 0 || s != out[i-1] {
				fmt.Println("  ", s)
			}
		}
	}
}
''',
  grammar='package "demo"\n\nS : A B C | A D C | A "b" ;\nA : "a" ;\nB : "b" ;\nC : "c" | empty ;\nD : "b" | "d" ;\n',
  inputs=['a b c', 'a d c', 'a b', 'a d']),
 dict(id='g08-cache', property='G08', kind='gll', noforest=True,
  needs='two parses at the same time',
  breaks='the alternates of a rule are looked up through a package-level variable, which parallel parses share without a lock',
  edits=[('gen/golang/gll/slots/slots.go', '''	alts, exist := alternates[nt]
	if !exist {''', '''	if lastAlts != nil && lastNT == nt {
		return lastAlts
	}
	lastNT = nt
	alts, exist := alternates[nt]
	lastAlts = alts
	if !exist {'''), ('gen/golang/gll/slots/slots.go', '''func GetAlternates(nt symbols.NT) []Label {
''', '''// the rule that was asked for last
var (
	lastNT   symbols.NT
	lastAlts []Label
)

func GetAlternates(nt symbols.NT) []Label {
''')],
  main='''package main

import (
	"fmt"
	"sync"

	"demo/lexer"
	"demo/parser"
)

var inputs = []string{@INPUTS@}

func main() {
	bad := 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for n := 0; n < 20000; n++ {
				in := inputs[(n+k)%len(inputs)]
				func() {
					defer func() {
						if recover() != nil {
							mu.Lock()
							bad++
							mu.Unlock()
						}
					}()
					set, _ := parser.Parse(lexer.New([]rune(in)))
					if (set == nil) != (in[0] == 'x') {
						mu.Lock()
						bad++
						mu.Unlock()
					}
				}()
			}
		}(k)
	}
	wg.Wait()
	fmt.Println("bad", bad > 0)
}
''',
  grammar='package "demo"\n\nS : A B | C S ;\nA : "a" | empty ;\nB : "b" C | "b" ;\nC : "c" | "d" ;\n',
  inputs=['a b', 'c a b', 'd d b c', 'x', 'c c c c b d']),
 dict(id='l01-last-accept', property='L01', kind='lex',
  needs='a rule of which a proper prefix is accepted, then a text that leaves the rule in between',
  breaks='the type of the longest accepted prefix is given to a token with the text read beyond it',
  edits=[(X, '''			typ = accept[s]
			s = nextState[s](l.I[rext])
			if s''', '''			if accept[s] != token.Error {
				typ = accept[s]
			}
			s = nextState[s](l.I[rext])
			if s''')],
  grammar='package "demo"\n\nS : num | idt | "." ;\nnum : number {number} [\'.\' number {number}] ;\nidt : letter {letter} ;\n',
  inputs=['12', '1.2', '1.x', '1..2', 'a.1.', '3.']),
 dict(id='l06-trim', property='L06', kind='go', flags='g.bnf',
  needs='a text file that begins with white space, read with NewFile',
  breaks='NewFile drops white space at the start and the end of the file, so positions are those of another text',
  edits=[(X, '''	input := []rune(string(buf))
	if strings''', '''	input := []rune(strings.TrimSpace(string(buf)))
	if strings''')],
  files={'src/g.bnf': 'package "demo"\n\nS : "a" S | "a" ;\n', 'src/main.go': '''package main

import (
	"fmt"
	"os"

	"demo/lexer"
)

func main() {
	for i, s := range []string{"a a", "\\n\\na\\n a", "\\ta a \\n", "a\\n\\n"} {
		f := fmt.Sprintf("in%d.txt", i)
		if os.WriteFile(f, []byte(s), 0644) != nil {
			panic(f)
		}
		for _, t := range lexer.NewFile(f).Tokens {
			l, c := t.GetLineColumn()
			fmt.Println(t.TypeID(), t.Lext(), t.Rext(), l, c)
		}
	}
}
'''}),
 dict(id='l06-eof', property='L06', kind='lex',
  needs='the position of the end of the input, when the text does not end with an ordinary character',
  breaks='Token.GetLineColumn never counts the last character of the text',
  edits=[(T, '''    for j := 0; j < t.lext; j++ {''', '''    for j := 0; j < t.lext && j+1 < len(t.input); j++ {''')],
  grammar='package "demo"\n\nS : idt ;\nidt : letter {letter} ;\n',
  inputs=['a', 'ab\n', 'ab\n\t', '\n\nx ', '']),
 dict(id='l03-exclude', property='L03', kind='lex',
  needs="a Unicode set with two or more exclusions",
  breaks='only characters in all of the excluded classes are excluded',
  edits=[(X, '''		fmt.Fprint(w, " && !unicode.In(r")
		for _, class := range excl {
			fmt.Fprintf(w, ", _%s", class)
		}
		fmt.Fprint(w, ")")
''', '''		fmt.Fprintf(w, " && !(unicode.In(r, _%s)", excl[0])
		for _, class := range excl[1:] {
			fmt.Fprintf(w, " && unicode.In(r, _%s)", class)
		}
		fmt.Fprint(w, ")")
''')],
  grammar="package \"demo\"\n\nS : ltr | non ;\nltr : '[\\p{Letter}-\\p{Lu}-\\p{Lm}]' ;\nnon : '[\\p{Nd}-\\p{ASCII_Hex_Digit}]' ;\n",
  inputs=['a', 'A', 'ʰ', '٣', '3', 'é']),
 dict(id='l07-strip-two', property='L07', kind='go', flags='g.bnf',
  needs='an escaped backslash followed by t, r or n in the text of a token',
  breaks='LiteralStripEscape replaces the escapes one kind after the other, so what an escaped backslash leaves is replaced again',
  edits=[(T, '''	strip := make([]rune, 0, len(lit))
	for i''', '''	strip := make([]rune, 0, len(lit))
	if s := strings.ReplaceAll(string(lit), "\\\\\\\\", "\\\\"); len(s) < len(string(lit)) {
		lit = []rune(s)
	}
	for i'''), (T, '''import(
    "fmt"
)''', '''import(
    "fmt"
    "strings"
)''')],
  files={'src/g.bnf': "package \"demo\"\n\nS : str ;\nstr : '\"' {not \"\\\\\\\"\" | '\\\\' any \"\\\\\\\"nrt\"} '\"' ;\n", 'src/main.go': '''package main

import (
	"fmt"

	"demo/lexer"
)

func main() {
	for _, s := range []string{`"a"`, `"a\\\\tb"`, `"a\\\\\\\\tb"`, `"\\\\\\\\"`, `"\\\\"b\\\\n"`} {
		for _, t := range lexer.New([]rune(s)).Tokens {
			fmt.Printf("%s %q\\n", t.TypeID(), t.LiteralStringStripEscape())
		}
	}
}
'''}),
 dict(id='f01-left-nullable', property='F01', kind='shell',
  needs='an alternate with two or more nullable symbols before a terminal',
  breaks='FIRST of a string stops after the second symbol, whether nullable or not',
  edits=[('frstflw/frstflw.go', '''	for _, s := range str {
		fs := ff.FirstOfSymbol(s)
		first.AddSet(fs)
		if !fs.Contain(Empty) {''', '''	for i, s := range str {
		fs := ff.FirstOfSymbol(s)
		first.AddSet(fs)
		if !fs.Contain(Empty) || i == 2 {''')],
  shell=TOOL + r'''
printf 'package "t"\n\nS : A B C "z" | "q" ;\nA : "a" | empty ;\nB : "b" | empty ;\nC : "c" | empty ;\n' >g.bnf
gogll -v g.bnf || fail "gogll failed"
grep -q . first_follow.txt || fail "no first_follow.txt"
grep -m1 '^S: ' first_follow.txt | grep -q ' z ' || fail "z is not in FIRST(S)"
exit 0
'''),
 dict(id='c02-follow-order', property='C02', kind='shell',
  needs='generating twice a GLL parser in which some FOLLOW set has several tokens',
  breaks='the FOLLOW sets are written in the random order of a map',
  edits=[('gen/golang/gll/testselect.go', 'for _, sym := range flw.ElementsSorted() {', 'for _, sym := range flw.Elements() {')],
  shell=TOOL + r'''
printf 'package "t"\n\nS : A "b" | A "c" | A "d" | A "e" | A "f" | A ;\nA : "a" | empty ;\n' >g.bnf
gogll g.bnf || fail "gogll failed"
cp parser/parser.go p1
for i in 1 2 3 4 5 6 7 8 9 10; do gogll g.bnf; cmp -s p1 parser/parser.go || fail "a second run generates another parser"; done
exit 0
'''),
 dict(id='c04-verbose', property='C04', kind='shell',
  needs='-v and an existing ast/ast.go',
  breaks='a verbose run overwrites the AST',
  edits=[('gen/golang/lr1/ast/ast.go', '''	if ioutil.Exist(fname) && !*cfg.All {''', '''	if ioutil.Exist(fname) && !*cfg.All && !cfg.Verbose {''')],
  shell=TOOL + r'''
printf 'package "t"\n\nS : "a" S | "b" ;\n' >g.bnf
gogll -knuth g.bnf || fail "gogll failed"
echo '// mine' >ast/ast.go
gogll -knuth g.bnf || fail "gogll failed"
[ "$(cat ast/ast.go)" = '// mine' ] || fail "ast.go was overwritten"
gogll -v -knuth g.bnf || fail "gogll failed"
[ "$(cat ast/ast.go)" = '// mine' ] || fail "ast.go was overwritten by -v"
gogll -v -a -knuth g.bnf || fail "gogll failed"
grep -q 'func S0' ast/ast.go || fail "ast.go was not overwritten with -a"
exit 0
'''),
 dict(id='c05-fsa-src', property='C05', kind='shell',
  needs='-v with an output directory',
  breaks='lexfsa.txt is written beside the source file',
  edits=[('main.go', 'lexfsa.Gen(filepath.Join(cfg.BaseDir, "lexfsa.txt"), lexSets)', 'lexfsa.Gen(filepath.Join(filepath.Dir(cfg.SrcFile), "lexfsa.txt"), lexSets)')],
  shell=TOOL + r'''
mkdir src
printf 'package "t"\n\nS : "a" S | "b" ;\n' >src/g.bnf
gogll -v -o out src/g.bnf || fail "gogll failed"
[ "$(ls src)" = g.bnf ] || fail "written outside the output directory: $(ls src)"
[ -e out/lexfsa.txt ] || fail "no lexfsa.txt"
exit 0
'''),
 dict(id='c07-gll-wins', property='C07', kind='shell',
  needs='-knuth together with -v',
  breaks='-knuth is forgotten in a verbose run',
  edits=[('cfg/cfg.go', '''	if *Pager || *Knuth {
		*GLL = false''', '''	if *Pager || *Knuth && !*verbose {
		*GLL = false''')],
  shell=TOOL + r'''
printf 'package "t"\n\nS : "a" S | "b" ;\n' >g.bnf
gogll -v -knuth g.bnf || fail "gogll failed"
[ -e parser/productionstable.go ] && [ ! -e sppf ] || fail "not an LR(1) parser"
exit 0
'''),
 dict(id='r04-ten', property='R04', kind='lr', flags='-knuth',
  needs='a rule with more than ten alternates',
  breaks='the AST functions of the alternates from the eleventh on are those of the first ones',
  edits=[('lr1/basicprod/basicprod.go', '''					Alternate: i,
''', '''					Alternate: i % 10,
''')],
  grammar='package "demo"\n\nS : "a0" | "a1" | "a2" | "a3" | "a4" | "a5" | "a6" | "a7" | "a8" | "a9" | "b0" | "b1" ;\n',
  ast='S0:1 S1:1 S2:1 S3:1 S4:1 S5:1 S6:1 S7:1 S8:1 S9:1 S10:1 S11:1',
  inputs=['a0', 'a9', 'b0', 'b1']),
 dict(id='r02-dollar', property='R02', kind='lr', flags='-pager',
  needs='two states with the same core whose contexts overlap only in the end of input',
  breaks='the end of input does not count when it is decided whether states may be merged, so conflicts are introduced',
  edits=[('lr1/states/contextset.go', '''		if that.Contain[sym] {
			intersection''', '''		if that.Contain[sym] && sym != "$" {
			intersection''')],
  grammar='package "demo"\n\nS : "a" X | "a" Y "d" | "b" X "e" | "b" Y ;\nX : "x" "z" ;\nY : "x" "z" ;\n',
  ast='S0:2 S1:3 S2:3 S3:2 X0:2 Y0:2',
  inputs=['a x z', 'a x z d', 'b x z e', 'b x z']),
]
PLANTS += [
 dict(id='g06-equal', property='G06', kind='gll', noforest=True,
  needs='two rules of which the first three or more symbols agree only in the first and the last one, at the same extents',
  breaks='string BSRs are compared by length, first and last symbol when the SPPF is built',
  edits=[('gen/golang/gll/symbols/symbols.go', '''		if s.String() != ss1[i].String() {''', '''		if (i == 0 || i == len(ss)-1) && s.String() != ss1[i].String() {''')],
  main=[d for d in PLANTS if d['id'] == 'g06-in-share'][0]['main'],
  grammar='package "demo"\n\nS : A B C D | A E C D ;\nA : "a" ;\nB : "b" | empty ;\nC : "b" "c" | "c" ;\nD : "d" ;\nE : "b" ;\n',
  inputs=['a b c d', 'a b b c d']),
 dict(id='g07-get-root', property='G07', kind='gll', noforest=True,
  needs='GetRoot on a parse whose start symbol has several alternates for the whole input',
  breaks='GetRoot returns one of several roots instead of failing',
  edits=[(B, '''    rts := s.GetRoots()
    if len(rts) != 1 {
        failf(''', '''    rts := s.GetRoots()
    if len(rts) == 0 {
        failf(''')],
  main='''package main

import (
	"fmt"

	"demo/lexer"
	"demo/parser"
)

var inputs = []string{@INPUTS@}

func main() {
	for _, in := range inputs {
		set, _ := parser.Parse(lexer.New([]rune(in)))
		func() {
			defer func() {
				fmt.Println(in, recover() != nil)
			}()
			set.GetRoot()
		}()
	}
}
''',
  grammar='package "demo"\n\nS : A | B | "c" ;\nA : "a" ;\nB : "a" | "b" ;\n',
  inputs=['a', 'b', 'c']),
]
