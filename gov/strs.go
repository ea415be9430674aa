package main

// Strings, bytes and big-endian numbers as terms.

import (
	"fmt"
	"math/big"
	"strings"
	"unicode/utf8"
)

func u8Seq() *Sort { return SeqOf(RInt(8, false)) }

func strCat(a, b *Term) *Term {
	if a.Op == "strlit" && a.Name == "" {
		return b
	}
	if b.Op == "strlit" && b.Name == "" {
		return a
	}
	if b.Op == "app" && b.Name == "strcat" {
		return strCat(strCat(a, b.Args[0]), b.Args[1])
	}
	if a.Op == "ite" && litLeaf(a) && iteLeaves(a)*iteLeaves(b) <= 16 {
		return Ite(a.Args[0], strCat(a.Args[1], b), strCat(a.Args[2], b))
	}
	if b.Op == "ite" && litLeaf(b) && iteLeaves(a)*iteLeaves(b) <= 16 {
		return Ite(b.Args[0], strCat(a, b.Args[1]), strCat(a, b.Args[2]))
	}
	if b.Op == "strlit" {
		if a.Op == "strlit" {
			return StrLit(a.Name + b.Name)
		}
		if a.Op == "app" && a.Name == "strcat" && a.Args[1].Op == "strlit" {
			return strCat(a.Args[0], StrLit(a.Args[1].Name+b.Name))
		}
	}
	return mk(&Term{Op: "app", Name: "strcat", Sort: StrS, Args: []*Term{a, b}})
}

func iteLeaves(t *Term) int {
	if t.Op == "ite" {
		return iteLeaves(t.Args[1]) + iteLeaves(t.Args[2])
	}
	return 1
}

func litLeaf(t *Term) bool {
	if t.Op == "ite" {
		return litLeaf(t.Args[1]) || litLeaf(t.Args[2])
	}
	return t.Op == "strlit" || t.Op == "app" && t.Name == "strcat"
}

// pieces of a concatenation, left to right
func strParts(t *Term) []*Term {
	if t.Op == "app" && t.Name == "strcat" {
		return append(strParts(t.Args[0]), t.Args[1])
	}
	return []*Term{t}
}

func strLen(s *Term) *Term {
	switch {
	case s.Op == "strlit":
		return Int(int64(len(s.Name)))
	case s.Op == "app" && s.Name == "str":
		return SeqLen(s.Args[0])
	case s.Op == "app" && s.Name == "strcat":
		return Add(strLen(s.Args[0]), strLen(s.Args[1]))
	}
	t := App("strlen", RInt(64, true), s)
	SetRange(t, big.NewInt(0), maxLen)
	return t
}

func strByte(s, i *Term) *Term {
	if s.Op == "strlit" && i.Op == "int" && i.N.IsInt64() && i.N.Int64() >= 0 && int(i.N.Int64()) < len(s.Name) {
		return Int(int64(s.Name[i.N.Int64()]))
	}
	if s.Op == "app" && s.Name == "str" {
		return SeqAt(s.Args[0], i)
	}
	return App("strbyte", RInt(8, false), s, i)
}

func strSub(s, lo, hi *Term) *Term {
	if lo == Zero && Eq(hi, strLen(s)) == True {
		return s
	}
	if s.Op == "strlit" && lo.Op == "int" && hi.Op == "int" {
		a, b := lo.N.Int64(), hi.N.Int64()
		if 0 <= a && a <= b && int(b) <= len(s.Name) {
			return StrLit(s.Name[a:b])
		}
	}
	if s.Op == "app" && s.Name == "str" {
		return bytesToStr(SubSeq(s.Args[0], lo, hi))
	}
	return App("strsub", StrS, s, lo, hi)
}

func strLt(a, b *Term) *Term {
	if a.Op == "strlit" && b.Op == "strlit" {
		return Bool(a.Name < b.Name)
	}
	if a == b {
		return False
	}
	return App("strlt", BoolS, a, b)
}

func strRunes(s *Term) *Term {
	srt := SeqOf(RInt(32, true))
	if s.Op == "strlit" {
		r := Emp(srt)
		for _, c := range s.Name {
			r = Snoc(r, Int(int64(c)))
		}
		return r
	}
	return App("runes", srt, s)
}

func bytesToStr(t *Term) *Term {
	if t.Op == "app" && t.Name == "bytes" {
		return t.Args[0]
	}
	if t.Op == "emp" {
		return StrLit("")
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], bytesToStr(t.Args[1]), bytesToStr(t.Args[2]))
	}
	return App("str", StrS, t)
}

func strToBytes(s *Term) *Term {
	if s.Op == "app" && s.Name == "str" {
		return s.Args[0]
	}
	if s.Op == "strlit" && len(s.Name) < 40 {
		r := Emp(u8Seq())
		for i := 0; i < len(s.Name); i++ {
			r = Snoc(r, Int(int64(s.Name[i])))
		}
		return r
	}
	return App("bytes", u8Seq(), s)
}

func itoa(t *Term) *Term {
	if t.Op == "int" {
		return StrLit(t.N.String())
	}
	return App("itoa", StrS, t)
}

// beTerm is the unsigned big-endian number in n bytes of s from position p.
func beTerm(s, p *Term, n int) *Term {
	for {
		if s.Op == "sub" {
			s, p = s.Args[0], Add(s.Args[1], p)
			continue
		}
		if s.Op == "cat" {
			la := SeqLen(s.Args[0])
			if Le(la, p) == True {
				s, p = s.Args[1], Sub(p, la)
				continue
			}
			if Le(Add(p, Int(int64(n))), la) == True {
				s = s.Args[0]
				continue
			}
		}
		break
	}
	if n == 1 {
		return SeqAt(s, p)
	}
	if s.Op == "app" && s.Name == "enc8" && n == 8 && p == Zero {
		return s.Args[0]
	}
	if _, ok := seqElems(s); ok && p.Op == "int" {
		return beSum(s, p, n)
	}
	if s.Op == "ite" {
		return Ite(s.Args[0], beTerm(s.Args[1], p, n), beTerm(s.Args[2], p, n))
	}
	return App(fmt.Sprintf("be%d", n), RInt(uint(8*n), false), s, p)
}

func beSum(s, p *Term, n int) *Term {
	r := Zero
	for i := 0; i < n; i++ {
		r = Add(Mul(r, Int(256)), SeqAt(s, Add(p, Int(int64(i)))))
	}
	return r
}

func beEnc(v *Term, n int) *Term {
	return App("enc8", u8Seq(), v)
}

func litEval(s string, i int) (rune, int) { return utf8.DecodeRuneInString(s[i:]) }

func init() {
	for _, n := range []int{2, 4, 8} {
		n := n
		name := fmt.Sprintf("be%d", n)
		s, p := BVar("be!s", u8Seq()), BVar("be!p", IntS)
		ufuns[name] = &UFun{Name: name, Params: []*Term{s, p}, Res: RInt(uint(8*n), false)}
		beBodies = append(beBodies, func() { ufuns[name].Body = beSum(s, p, n) })
		appSimp[name] = func(_ *Sort, a []*Term) *Term {
			switch a[0].Op {
			case "sub", "cat":
				t := beTerm(a[0], a[1], n)
				if t.Op == "app" && t.Name == name && t.Args[0] == a[0] && t.Args[1] == a[1] {
					return nil
				}
				return t
			}
			if a[0].Op == "app" && a[0].Name == "enc8" && n == 8 && a[1] == Zero {
				return a[0].Args[0]
			}
			return nil
		}
	}
	seqLenFn["enc8"] = func(*Term) *Term { return Int(8) }
	seqLenFn["bytes"] = func(t *Term) *Term { return strLen(t.Args[0]) }
	appSimp["strcat"] = func(_ *Sort, a []*Term) *Term { return strCat(a[0], a[1]) }
	appSimp["strlen"] = func(_ *Sort, a []*Term) *Term {
		if a[0].Op == "strlit" || a[0].Op == "app" && (a[0].Name == "str" || a[0].Name == "strcat") {
			return strLen(a[0])
		}
		return nil
	}
	appSimp["str"] = func(_ *Sort, a []*Term) *Term {
		if a[0].Op == "app" && a[0].Name == "bytes" || a[0].Op == "emp" {
			return bytesToStr(a[0])
		}
		return nil
	}
	appSimp["itoa"] = func(_ *Sort, a []*Term) *Term {
		if a[0].Op == "int" {
			return StrLit(a[0].N.String())
		}
		return nil
	}
	appSimp["runes"] = func(_ *Sort, a []*Term) *Term {
		if a[0].Op == "strlit" {
			return strRunes(a[0])
		}
		return nil
	}
	appSimp["runestr"] = func(_ *Sort, a []*Term) *Term {
		if a[0].Op == "int" && a[0].N.IsInt64() {
			return StrLit(string(rune(a[0].N.Int64())))
		}
		return nil
	}
	appSimp["strlt"] = func(_ *Sort, a []*Term) *Term {
		if a[0] == a[1] {
			return False
		}
		if a[0].Op == "strlit" && a[1].Op == "strlit" {
			return Bool(a[0].Name < a[1].Name)
		}
		return nil
	}
	appSimp["repeat"] = func(_ *Sort, a []*Term) *Term {
		if a[1] == Zero || a[0].Op == "strlit" && a[0].Name == "" {
			return StrLit("")
		}
		if a[0].Op == "strlit" && a[1].Op == "int" && a[1].N.IsInt64() && a[1].N.Int64() > 0 && a[1].N.Int64() < 200 {
			return StrLit(strings.Repeat(a[0].Name, int(a[1].N.Int64())))
		}
		return nil
	}
	// facts about string operations
	ax := func(name string, needs []string, body func() *Term) {
		strAxioms = append(strAxioms, func() { axioms = append(axioms, &Axiom{Name: name, Needs: needs, Body: body()}) })
	}
	ax("order on strings", []string{"strlt"}, func() *Term {
		a, b, c := BVar("sa", StrS), BVar("sb", StrS), BVar("sc", StrS)
		lt := func(x, y *Term) *Term { return mk(&Term{Op: "app", Name: "strlt", Sort: BoolS, Args: []*Term{x, y}}) }
		return And(Forall([]*Term{a}, [][]*Term{{lt(a, a)}}, Not(lt(a, a))),
			Forall([]*Term{a, b}, [][]*Term{{lt(a, b)}}, Imp(lt(a, b), Not(lt(b, a)))),
			Forall([]*Term{a, b, c}, [][]*Term{{lt(a, b), lt(b, c)}}, Imp(And(lt(a, b), lt(b, c)), lt(a, c))),
			Forall([]*Term{a, b}, [][]*Term{{lt(a, b)}}, Or(lt(a, b), lt(b, a), Eq(a, b))))
	})
	ax("concatenation of strings", []string{"strcat"}, func() *Term {
		a, b, c := BVar("sa", StrS), BVar("sb", StrS), BVar("sc", StrS)
		cat := func(x, y *Term) *Term { return mk(&Term{Op: "app", Name: "strcat", Sort: StrS, Args: []*Term{x, y}}) }
		e := StrLit("")
		return And(Forall([]*Term{a}, [][]*Term{{cat(a, e)}}, Eq(cat(a, e), a)),
			Forall([]*Term{a}, [][]*Term{{cat(e, a)}}, Eq(cat(e, a), a)),
			Forall([]*Term{a, b, c}, [][]*Term{{cat(a, cat(b, c))}}, Eq(cat(a, cat(b, c)), cat(cat(a, b), c))))
	})
	ax("runes of a string", []string{"runes"}, func() *Term {
		a := BVar("sa", StrS)
		r := mk(&Term{Op: "app", Name: "runes", Sort: SeqOf(RInt(32, true)), Args: []*Term{a}})
		return Forall([]*Term{a}, [][]*Term{{r}}, Le(SeqLen(r), strLen(a)))
	})
	ax("length of a string", []string{"strlen"}, func() *Term {
		a := BVar("sa", StrS)
		l := mk(&Term{Op: "app", Name: "strlen", Sort: IntS, Args: []*Term{a}})
		return Forall([]*Term{a}, [][]*Term{{l}}, And(mk(&Term{Op: "le", Sort: BoolS, Args: []*Term{Zero, l}}), mk(&Term{Op: "le", Sort: BoolS, Args: []*Term{l, BigInt(maxLen)}})))
	})
	ax("bytes of a string", []string{"str"}, func() *Term {
		b := BVar("by", u8Seq())
		s := mk(&Term{Op: "app", Name: "str", Sort: StrS, Args: []*Term{b}})
		bb := mk(&Term{Op: "app", Name: "bytes", Sort: u8Seq(), Args: []*Term{s}})
		return Forall([]*Term{b}, [][]*Term{{s}}, Eq(bb, b))
	})
	ax("eight byte encoding", []string{"be8", "enc8"}, func() *Term {
		v := BVar("ev", RInt(64, false))
		e := App("enc8", u8Seq(), v)
		return Forall([]*Term{v}, [][]*Term{{e}}, Imp(And(Le(Zero, v), Lt(v, BigInt(pow2(64)))),
			Eq(mk(&Term{Op: "app", Name: "be8", Sort: IntS, Args: []*Term{e, Zero}}), v)))
	})
	ax("number inside a concatenation", []string{"be8", "enc8"}, func() *Term {
		a, b, p := BVar("ca", u8Seq()), BVar("cb", u8Seq()), BVar("cp", IntS)
		c := mk(&Term{Op: "cat", Sort: u8Seq(), Args: []*Term{a, b}})
		be := func(s, p *Term) *Term { return mk(&Term{Op: "app", Name: "be8", Sort: IntS, Args: []*Term{s, p}}) }
		return Forall([]*Term{a, b, p}, [][]*Term{{be(c, p)}}, And(Imp(And(Le(Zero, p), Le(Add(p, Int(8)), SeqLen(a))), Eq(be(c, p), be(a, p))),
			Imp(Le(SeqLen(a), p), Eq(be(c, p), be(b, Sub(p, SeqLen(a)))))))
	})
}

var beBodies []func()
var strAxioms []func()

func initStrs() {
	for _, f := range beBodies {
		f()
	}
	for _, f := range strAxioms {
		f()
	}
}
