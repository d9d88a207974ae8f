// Package rt holds the observation records the drivers write, one JSON object
// per line, and small helpers shared by the generated adapters.
package rt

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
)

// Key identifies a BSR: head, alternate, left extent, pivot, right extent.
type Key struct {
	NT        string
	A, L, P, R int
}

func (k Key) MarshalJSON() ([]byte, error) {
	return json.Marshal([]interface{}{k.NT, k.A, k.L, k.P, k.R})
}

func less(a, b Key) bool {
	if a.NT != b.NT {
		return a.NT < b.NT
	}
	if a.A != b.A {
		return a.A < b.A
	}
	if a.L != b.L {
		return a.L < b.L
	}
	if a.P != b.P {
		return a.P < b.P
	}
	return a.R < b.R
}

func SortKeys(ks []Key) []Key {
	sort.Slice(ks, func(i, j int) bool { return less(ks[i], ks[j]) })
	return ks
}

func Eq(a, b []Key) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type KidObs struct {
	Sym   string   `json:"sym"`
	NT    bool     `json:"nt"`
	Nodes []Key    `json:"nodes"`
	Tok   int      `json:"tok"`
	Panic string   `json:"panic"`
	Dis   []string `json:"dis"`
}

type NodeObs struct {
	B    Key      `json:"b"`
	Kids []KidObs `json:"kids"`
	Cont bool     `json:"cont"`
}

type ErrObs struct {
	Nil   bool     `json:"nil"`
	Slot  []interface{} `json:"slot"`
	Tok   int      `json:"tok"`
	Line  int      `json:"line"`
	Col   int      `json:"col"`
	TLine int      `json:"tline"`
	TCol  int      `json:"tcol"`
	Exp   []string `json:"exp"`
	ExpOK bool     `json:"expok"`
	Str   string   `json:"str"`
	StrOK bool     `json:"strok"`
}

type SN struct {
	Sym  string   `json:"s"`
	L    int      `json:"l"`
	R    int      `json:"r"`
	Kids []string `json:"kids"`
}

type Sppf struct {
	Panic string          `json:"panic"`
	Root  []interface{}   `json:"root"`
	SNs   [][]interface{} `json:"sns"` // [sym,l,r]
	INs   [][]interface{} `json:"ins"` // [nt,body,pos,l,r]
	PNs   [][]interface{} `json:"pns"` // [nt,body,pos,l,k,r]
	SE    [][]interface{} `json:"se"`  // [sn, pn]
	IE    [][]interface{} `json:"ie"`  // [in, pn]
	PL    [][]interface{} `json:"pl"`  // [pn, kind, node]
	PR    [][]interface{} `json:"pr"`  // [pn, sn]
	DotOK bool            `json:"dotok"`
	Dup   bool            `json:"dup"`
}

type RepObs struct {
	Panic string          `json:"panic"`
	Roots int             `json:"roots"`
	None  int             `json:"none"`
	Amb   [][]interface{} `json:"amb"` // [node, symbol, children]
}

type GLLObs struct {
	K        string    `json:"k"`
	G        int       `json:"g"`
	In       string    `json:"in"`
	Toks     []string  `json:"toks"`
	TokPos   [][]int   `json:"pos"` // line, col of each token from the lexer
	SetNil   bool      `json:"setnil"`
	ErrsNil  bool      `json:"errsnil"`
	Panic    string    `json:"panic"`
	Errs     []ErrObs  `json:"errs"`
	REnd     int       `json:"rend"`
	Roots    []Key     `json:"roots"`
	RootOne  string    `json:"rootone"` // GetRoot: "ok" or "panic"
	Amb      bool      `json:"amb"`
	AmbPanic string    `json:"ambpanic"`
	All      []Key     `json:"all"`
	Nodes    []NodeObs `json:"nodes"`
	Trunc    bool      `json:"trunc"`
	Contain  [][]interface{} `json:"contain"`
	Sppf     *Sppf     `json:"sppf"`
	Rep      *RepObs   `json:"rep"`
	StrBad   []string  `json:"strbad"`
	Flat     [][]interface{} `json:"flat,omitempty"` // the one tree of a deep input, in preorder: function, token, number of children
	Again    string    `json:"again"` // "" if later/concurrent parses gave the same observation
	Digest   string    `json:"-"`
}

// Try runs f and reports a panic as a string.
func Try(f func() interface{}) (v interface{}, p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint("panic: ", r)
			if len(p) > 300 {
				p = p[:300]
			}
		}
	}()
	return f(), ""
}

func ISort(xs [][]interface{}) [][]interface{} {
	sort.Slice(xs, func(i, j int) bool { return fmt.Sprint(xs[i]) < fmt.Sprint(xs[j]) })
	return xs
}

func JSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

type TokObs struct {
	ID       string `json:"id"`
	EOF      bool   `json:"eof"`
	L        int    `json:"l"`
	R        int    `json:"r"`
	Sup      bool   `json:"sup"`
	Line     int    `json:"line"`
	Col      int    `json:"col"`
	LLine    int    `json:"lline"`
	LCol     int    `json:"lcol"`
	Lit      []int  `json:"lit"`
	Strip    []int  `json:"strip"`
	StripBad string `json:"stripbad"`
	Bad      string `json:"bad"`
}

type LexObs struct {
	Toks         []TokObs `json:"toks"`
	LC           [][]int  `json:"lc"`
	I            []int    `json:"i"`
	GetStringBad string   `json:"gsbad"`
	Panic        string   `json:"panic"`
}

type LRObs struct {
	Toks   []string      `json:"toks"`
	TokPos [][]int       `json:"pos"`
	ErrNil bool          `json:"errnil"`
	ResNil bool          `json:"resnil"`
	Err    string        `json:"err"`
	Sentinel bool        `json:"sentinel"`
	Tree   []interface{} `json:"tree"` // ["N", "S0", kids...] | ["T", idx]
	Reds   []string      `json:"reds"`
	Panic  string        `json:"panic"`
}

// Node is what the tree-building AST functions return.
type Node struct {
	Fn   string
	Kids []interface{}
}

// Reds is the sequence of AST functions called during the current LR parse.
var Reds []string

// FailAt is the number k of the AST call that fails (0: none); 100+k: it
// returns nil, 200+k: it returns an error value as its result, without failing.
var FailAt int

const Sentinel = "vt-ast-failure-51966"

// Record is true while the calls of one LR parse are recorded.
var Record bool

func N(fn string, kids ...interface{}) (interface{}, error) {
	if !Record {
		return &Node{fn, kids}, nil
	}
	Reds = append(Reds, fn)
	switch len(Reds) {
	case FailAt:
		return &Node{fn, kids}, errors.New(Sentinel)
	case FailAt - 100:
		return nil, nil
	case FailAt - 200:
		return errors.New(Sentinel), nil
	}
	return &Node{fn, kids}, nil
}

func Tree(v interface{}, idx map[interface{}]int) []interface{} {
	if v == nil {
		return []interface{}{"nil", -1, []interface{}{}}
	}
	if _, ok := v.(error); ok {
		return []interface{}{"E", -1, []interface{}{}}
	}
	if n, ok := v.(*Node); ok {
		kids := []interface{}{}
		for _, k := range n.Kids {
			kids = append(kids, Tree(k, idx))
		}
		return []interface{}{n.Fn, -1, kids}
	}
	if i, ok := idx[v]; ok {
		return []interface{}{"T", i, []interface{}{}}
	}
	return []interface{}{"?", -1, []interface{}{}}
}

type TypesObs struct {
	Names []string        `json:"names"`
	IDs   []string        `json:"ids"`
	Sup   []bool          `json:"sup"`
	S2T   [][]interface{} `json:"s2t"`
	I2T   [][]interface{} `json:"i2t"`
	EOF   int             `json:"eof"`
	Err   int             `json:"err"`
	Str   []string        `json:"str"`
	ID    []string        `json:"id"`
	TSup  []bool          `json:"tsup"`
	TID   []string        `json:"tid"`
	TTyp  []int           `json:"ttyp"`
	SymT  []string        `json:"symt"`
	SymNT []string        `json:"symnt"`
	IsNT  []bool          `json:"isnt"`
	ToNT  []int           `json:"tont"`
	TIsNT []bool          `json:"tisnt"`
	Slots []Slot          `json:"slots"`
}

// Slot is what a slot label says of itself
type Slot struct {
	H   string   `json:"h"`
	A   int      `json:"a"`
	P   int      `json:"p"`
	B   []string `json:"b"`
	EoR bool     `json:"eor"`
	Str string   `json:"str"`
	L   int      `json:"l"`
}
