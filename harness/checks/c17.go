package checks

import (
	"bytes"
	"fmt"
	"slices"

	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

// math is what the library's arithmetic says about a node; -1 is none.
type math struct {
	Width, Root, Parent, Sibling, Left, Right, Leaf int
	Direct, Copath                                  []int
}

// treeUnderTest is a ratchet tree of the library.
type treeUnderTest interface {
	Add(leaf []byte)
	Update(li uint32, leaf []byte)
	Remove(li uint32)
	Merge(cs uint16, li uint32, path []byte) error
	Width() int
	Bytes() []byte
	Resolve(x int) []int
	Hash(cs uint16, x int) []byte
	RootHash(cs uint16) []byte
	ParentHashes(cs uint16) bool
}

// Set when the monitors were built with access to the internals.
var (
	wbNode   func(n, x uint32) math
	wbCommon func(x, y uint32) int
	wbTree   func(raw []byte) (treeUnderTest, error)
)

func init() {
	run.Register(&run.Check{
		Prop: "C17", Level: "exploration",
		Rule: "distinct (kind of run, number of leaves, number of blank leaves class) in which a library tree was compared with the reference",
		Assumptions: []string{
			"the reference tree is validated by the official vectors",
			"inside groups the comparison goes through the tree hash: any difference changes the confirmation tag of the next commit",
		},
		MinEvals: 3000, MinSeen: 60,
		Cases: func(tier string, seed int64) []run.Case {
			var out []run.Case
			if wbNode != nil {
				for lvl := 0; lvl <= scale(tier, 13, 17); lvl++ {
					out = append(out, run.Case{Kind: "arithmetic", Seed: seed, N: map[string]int64{"level": int64(lvl)}})
				}
				out = append(out, casesOf("large arithmetic", scale(tier, 4, 20), seed, nil)...)
			}
			if wbTree != nil {
				out = append(out, casesOf("operations", scale(tier, 96, 480), seed, nil)...)
				out = append(out, casesOf("arbitrary", scale(tier, 32, 160), seed, nil)...)
			}
			for n := 2; n <= scale(tier, 40, 140); n++ {
				for k := 0; k < scale(tier, 1, 4); k++ {
					out = append(out, run.Case{Kind: "size", Seed: seed, N: map[string]int64{"n": int64(n), "k": int64(k)}})
				}
			}
			for n := 2; n <= scale(tier, 8, 10); n++ {
				for at := 0; at < n; at++ {
					out = append(out, run.Case{Kind: "shrink", Seed: seed, N: map[string]int64{"n": int64(n), "at": int64(at)}})
				}
			}
			out = append(out, casesOf("deep shrink", scale(tier, 32, 128), seed, nil)...)
			out = append(out, casesOf("history", scale(tier, 48, 240), seed, nil)...)
			out = append(out, casesOf("large", scale(tier, 3, 12), seed, nil)...)
			return out
		},
		Run: func(x *run.Ctx) {
			switch x.Case.Kind {
			case "arithmetic":
				c17Arithmetic(x, 1<<x.P("level"))
			case "large arithmetic":
				c17LargeArithmetic(x)
			case "operations":
				c17Operations(x)
			case "arbitrary":
				c17Arbitrary(x)
			case "size":
				c17Size(x)
			case "shrink":
				c17Shrink(x)
			case "deep shrink":
				c17DeepShrink(x)
			case "history":
				p := newPuppets(x, refmls.GetSuite(uint16(x.P("suite"))), 2+x.Rng.Intn(20), x.Rng.Intn(2))
				for i := 0; i < 25; i++ {
					p.step(1 + x.Rng.Intn(8))
					p.agree()
					p.seen("history")
				}
			case "large":
				c17Large(x)
			}
		},
	})
}

func (p *puppets) seen(kind string) {
	n := int(p.g.Tree.NumLeaves())
	p.x.Seen("%s|%d leaves|%s blank", kind, n, sizeClass(n-len(p.g.Tree.Members())))
}

// expect computes the arithmetic independently, by recursive bisection.
type expected struct {
	parent, sibling, left, right int
}

func bisect(lo, hi, parent, sibling int, f func(x int, e expected)) {
	x := (lo + hi) / 2
	e := expected{parent, sibling, -1, -1}
	if lo < hi {
		e.left, e.right = (lo+x-1)/2, (x+1+hi)/2
		bisect(lo, x-1, x, e.right, f)
		bisect(x+1, hi, x, e.left, f)
	}
	f(x, e)
}

func c17Node(x *run.Ctx, n, ni uint32, e expected, direct, copath []int) {
	var m math
	x.Lib("tree arithmetic", func() { m = wbNode(n, ni) })
	x.Eval(1)
	width := 2*int(n) - 1
	bad := func(what string, got, want any) {
		x.Fail("arithmetic:"+what, "%s of node %d in a tree of %d leaves is %v, want %v", what, ni, n, got, want)
	}
	if m.Width != width {
		bad("width", m.Width, width)
	}
	if m.Root != width/2 {
		bad("root", m.Root, width/2)
	}
	if m.Parent != e.parent {
		bad("parent", m.Parent, e.parent)
	}
	if m.Sibling != e.sibling {
		bad("sibling", m.Sibling, e.sibling)
	}
	if m.Left != e.left {
		bad("left", m.Left, e.left)
	}
	if m.Right != e.right {
		bad("right", m.Right, e.right)
	}
	leaf := -1
	if ni%2 == 0 {
		leaf = int(ni / 2)
	}
	if m.Leaf != leaf {
		bad("leaf index", m.Leaf, leaf)
	}
	if direct != nil && !slices.Equal(m.Direct, direct) {
		bad("direct path", m.Direct, direct)
	}
	if copath != nil && !slices.Equal(m.Copath, copath) {
		bad("copath", m.Copath, copath)
	}
}

func c17Arithmetic(x *run.Ctx, n int) {
	width := 2*n - 1
	es := make([]expected, width)
	bisect(0, width-1, -1, -1, func(i int, e expected) { es[i] = e })
	for i := range es {
		direct, copath := []int{}, []int{}
		for y := i; es[y].parent >= 0; y = es[y].parent {
			direct = append(direct, es[y].parent)
			copath = append(copath, es[y].sibling)
		}
		c17Node(x, uint32(n), uint32(i), es[i], direct, copath)
	}
	ancestors := func(a int) []int {
		out := []int{a}
		for ; es[a].parent >= 0; a = es[a].parent {
			out = append(out, es[a].parent)
		}
		return out
	}
	common := func(a, b int) {
		bs := ancestors(b)
		want := -1
		for _, y := range ancestors(a) {
			if slices.Contains(bs, y) {
				want = y
				break
			}
		}
		var got int
		x.Lib("common ancestor", func() { got = wbCommon(uint32(a), uint32(b)) })
		x.Eval(1)
		if got != want {
			x.Fail("arithmetic:common", "common ancestor of nodes %d and %d is %d, want %d", a, b, got, want)
		}
	}
	if width <= 127 {
		for a := range es {
			for b := range es {
				common(a, b)
			}
		}
	} else {
		for i := 0; i < 5000; i++ {
			common(x.Rng.Intn(width), x.Rng.Intn(width))
		}
	}
	x.Seen("arithmetic|%d", n)
}

func c17LargeArithmetic(x *run.Ctx) {
	for lvl := 17; lvl <= 30; lvl++ {
		n := uint32(1) << lvl
		width := 2*int(n) - 1
		for i := 0; i < 400; i++ {
			ni := x.Rng.Intn(width)
			switch i {
			case 0:
				ni = 0
			case 1:
				ni = width - 1
			case 2:
				ni = width / 2
			case 3:
				ni = width/2 - 1
			case 4:
				ni = width/2 + 1
			}
			if i%7 == 5 { // of a high level
				k := x.Rng.Intn(lvl + 1)
				ni = ((x.Rng.Intn(1<<(lvl-k))*2 + 1) << k) - 1
			}
			e := expected{-1, -1, -1, -1}
			var direct, copath []int
			lo, hi := 0, width-1
			for {
				m := (lo + hi) / 2
				if ni == m {
					if lo < hi {
						e.left, e.right = (lo+m-1)/2, (m+1+hi)/2
					}
					break
				}
				direct = append(direct, m)
				if ni < m {
					copath = append(copath, (m+1+hi)/2)
					hi = m - 1
				} else {
					copath = append(copath, (lo+m-1)/2)
					lo = m + 1
				}
			}
			slices.Reverse(direct)
			slices.Reverse(copath)
			if len(direct) > 0 {
				e.parent, e.sibling = direct[0], copath[0]
			}
			c17Node(x, n, uint32(ni), e, direct, copath)
		}
		x.Seen("arithmetic|%d", n)
	}
}

// c17Compare compares everything observable of two trees.
func c17Compare(x *run.Ctx, s *refmls.Suite, lib treeUnderTest, ref refmls.Tree, how string, honest bool) {
	fail := func(what string, args ...any) {
		x.Fail("tree:"+what, "%s differ after %s (suite %d, %d leaves, %d members): %s", what, how, s.ID, ref.NumLeaves(), len(ref.Members()), fmt.Sprint(args...))
	}
	var width int
	var raw []byte
	x.Lib("tree encoding", func() { width, raw = lib.Width(), lib.Bytes() })
	x.Eval(1)
	if width != len(ref) {
		fail("widths", width, " want ", len(ref))
	}
	if !bytes.Equal(raw, ref.Bytes()) {
		fail("encodings", treeDiff(raw, ref))
	}
	if len(ref) == 0 {
		return
	}
	step := 1 + len(ref)/40
	for n := x.Rng.Intn(step); n < len(ref); n += step {
		var res []int
		var h []byte
		x.Lib("resolution and tree hash", func() { res, h = lib.Resolve(n), lib.Hash(s.ID, n) })
		x.Eval(2)
		if !slices.Equal(res, ref.Resolution(n)) {
			fail("resolutions", "node ", n, ": ", res, " want ", ref.Resolution(n))
		}
		if !bytes.Equal(h, ref.Hash(s, n, nil)) {
			fail("tree hashes", "node ", n)
		}
	}
	var root []byte
	var ok bool
	x.Lib("root hash", func() { root = lib.RootHash(s.ID) })
	if !bytes.Equal(root, ref.RootHash(s)) {
		fail("root hashes")
	}
	if honest {
		x.Lib("parent hashes", func() { ok = lib.ParentHashes(s.ID) })
		x.Eval(1)
		if !ok {
			fail("parent hashes", "refused")
		}
		if err := ref.VerifyParentHashes(s); err != nil {
			panic(err)
		}
	}
}

// treeDiff describes the first difference of an encoded tree.
func treeDiff(raw []byte, ref refmls.Tree) string {
	r := refmls.R{B: raw}
	var t refmls.Tree
	t.Get(&r)
	if err := r.End(); err != nil {
		return err.Error()
	}
	put := func(n *refmls.Node) string {
		if n == nil {
			return "blank"
		}
		var w refmls.W
		n.Put(&w)
		return sim.Hex(w.B)
	}
	for i := range max(len(t), len(ref)) {
		var a, b *refmls.Node
		if i < len(t) {
			a = t[i]
		}
		if i < len(ref) {
			b = ref[i]
		}
		if put(a) != put(b) {
			return fmt.Sprintf("node %d is %s, want %s", i, put(a), put(b))
		}
	}
	return "no node"
}

var hashSuites = []uint16{1, 2, 3, 5, 7}

func c17Operations(x *run.Ctx) {
	r := x.Rng
	s := refmls.GetSuite(hashSuites[r.Intn(len(hashSuites))])
	g := &gen{r: r}
	var ref refmls.Tree
	var lib treeUnderTest
	key := 0
	leaf := func() *refmls.LeafNode {
		l := g.leaf()
		key++
		l.EncKey = []byte(fmt.Sprint("key ", key))
		l.SigKey = []byte(fmt.Sprint("sig ", key))
		return l
	}
	add := func() {
		l := leaf()
		ref.Add(l.Clone())
		x.Lib("add", func() { lib.Add(leafBytes(l)) })
	}
	x.Lib("new tree", func() { lib, _ = wbTree(nil) })
	for i := 1 + r.Intn([]int{4, 10, 40, 150}[r.Intn(4)]); i > 0; i-- {
		add()
	}
	c17Compare(x, s, lib, ref, "adding", true)
	how := ""
	for i := 0; i < 120; i++ {
		ms := ref.Members()
		li := ms[r.Intn(len(ms))]
		op := ""
		switch r.Intn(8) {
		case 0, 1:
			op = "add"
			for k := 1 + r.Intn(3); k > 0; k-- {
				add()
			}
		case 2:
			op = fmt.Sprint("update ", li)
			l := leaf()
			ref.Update(li, l.Clone())
			x.Lib("update", func() { lib.Update(li, leafBytes(l)) })
		case 3, 4:
			n := 1
			if r.Intn(4) == 0 {
				n = 1 + r.Intn(len(ms))
			}
			// removals of many, often from the right end
			if r.Intn(2) == 0 {
				slices.Reverse(ms)
			} else {
				r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
			}
			if n >= len(ms) {
				n = len(ms) - 1
			}
			op = fmt.Sprint("remove ", ms[:n])
			for _, li := range ms[:n] {
				ref.Remove(li)
				x.Lib("remove", func() { lib.Remove(li) })
				c17Compare(x, s, lib, ref, fmt.Sprint(how, "; remove ", li), true)
			}
		default:
			op = fmt.Sprint("merge path of ", li)
			c := ref.Clone()
			for _, p := range refmls.DirectPath(2*int(li), len(c)) {
				c[p] = nil
			}
			path, _ := c.FilteredPath(li)
			var keys [][]byte
			up := &refmls.UpdatePath{Leaf: *leaf()}
			for range path {
				key++
				keys = append(keys, []byte(fmt.Sprint("key ", key)))
				un := refmls.UpdatePathNode{EncKey: keys[len(keys)-1]}
				up.Nodes = append(up.Nodes, un)
			}
			ph, err := c.SetPath(s, li, keys)
			if err != nil {
				panic(err)
			}
			up.Leaf.Source, up.Leaf.ParentHash = refmls.SrcCommit, ph
			up.Leaf.NotBefore, up.Leaf.NotAfter = 0, 0
			c[2*li] = &refmls.Node{Leaf: up.Leaf.Clone()}
			ref = c
			var w refmls.W
			up.Put(&w)
			x.Lib("merge", func() { err = lib.Merge(s.ID, li, w.B) })
			if err != nil {
				x.Fail("merge", "valid path of leaf %d is refused (%d leaves, after %s): %v", li, ref.NumLeaves(), how, err)
			}
		}
		how = op + "; " + how
		how = how[:min(len(how), 300)]
		c17Compare(x, s, lib, ref, how, true)
		x.Seen("operations|%d leaves|%s blank", ref.NumLeaves(), sizeClass(int(ref.NumLeaves())-len(ref.Members())))
		if i%10 == 0 {
			c17Damage(x, s, ref)
		}
		if i == 60 {
			x.Sample("after %s: %d leaves, %d members", how[:min(len(how), 80)], ref.NumLeaves(), len(ref.Members()))
		}
	}
}

// c17Damage breaks the chain of parent hashes.
func c17Damage(x *run.Ctx, s *refmls.Suite, ref refmls.Tree) {
	r := x.Rng
	for i := 0; i < 6; i++ {
		t := ref.Clone()
		n := t[r.Intn(len(t))]
		if n == nil {
			continue
		}
		if n.Leaf != nil {
			n.Leaf = n.Leaf.Clone()
		}
		what := "key"
		b := []byte("other key")
		switch {
		case n.Parent != nil && r.Intn(2) == 0:
			what = "parent hash"
			n.Parent.ParentHash = append([]byte{7}, n.Parent.ParentHash...)
		case n.Parent != nil:
			n.Parent.EncKey = b
		case n.Leaf.Source == refmls.SrcCommit && r.Intn(2) == 0:
			what = "parent hash"
			n.Leaf.ParentHash = append([]byte{7}, n.Leaf.ParentHash...)
		default:
			n.Leaf.EncKey = b
		}
		want := t.VerifyParentHashes(s) == nil
		var got bool
		x.Lib("parent hashes", func() {
			lib, err := wbTree(t.Bytes())
			if err != nil {
				x.Fail("tree:decode", "tree is refused: %v", err)
			}
			got = lib.ParentHashes(s.ID)
		})
		x.Eval(1)
		if got != want {
			x.Fail("tree:damage", "parent hashes after a change of a %s are judged %v, want %v (%d leaves, suite %d)", what, got, want, t.NumLeaves(), s.ID)
		}
		x.Seen("damage|%s|%v", what, want)
	}
}

// c17Arbitrary compares resolutions and hashes of trees that no history makes.
func c17Arbitrary(x *run.Ctx) {
	r := x.Rng
	g := &gen{r: r}
	for n := 1; n <= 70; n++ {
		s := refmls.GetSuite(hashSuites[r.Intn(len(hashSuites))])
		t := g.tree(n)
		for len(t)&(len(t)+1) != 0 {
			t = append(t, nil)
		}
		for i, n := range t {
			if n == nil || n.Parent == nil {
				continue
			}
			n.Parent.Unmerged = nil
			lvl := refmls.LevelOf(i)
			for li := (i + 1 - 1<<lvl) / 2; li <= (i-1+1<<lvl)/2; li++ {
				if 2*li < len(t) && t[2*li] != nil && r.Intn(5) == 0 {
					n.Parent.Unmerged = append(n.Parent.Unmerged, uint32(li))
				}
			}
		}
		var lib treeUnderTest
		var err error
		x.Lib("decode", func() { lib, err = wbTree(t.Bytes()) })
		if err != nil {
			x.Fail("tree:decode", "well-formed tree of %d nodes is refused: %v", n, err)
		}
		c17Compare(x, s, lib, t, "decoding", false)
		x.Seen("arbitrary|%d", n)
	}
}

func c17Size(x *run.Ctx) {
	r := x.Rng
	n := int(x.P("n"))
	s := refmls.GetSuite(refmls.Supported[r.Intn(4)])
	at := r.Intn(n)
	p := newPuppets(x, s, n, at)
	p.agree()
	o := p.others()
	p.commit(o[0], nil, nil, 0, true)
	p.agree()
	p.invite(1)
	p.agree()
	for i := 0; i < 4; i++ {
		p.step(1 + n/3)
		p.agree()
		p.seen("size")
	}
	p.invite(1)
	p.agree()
	x.Seen("size|%d|%d", n, at)
}

// c17Shrink removes every subset of the members of a small group, in one
// commit, one by one, or half by half, and then grows the group again.
func c17Shrink(x *run.Ctx) {
	r := x.Rng
	n, at := int(x.P("n")), int(x.P("at"))
	s := refmls.GetSuite(refmls.Supported[(n+at)%4])
	total := 1 << n
	step := 1 + total/90
	for set := r.Intn(step); set < total; set += step {
		if set>>at&1 == 1 {
			continue
		}
		var rm, stay []uint32
		for i := 0; i < n; i++ {
			if set>>i&1 == 1 {
				rm = append(rm, uint32(i))
			} else if i != at {
				stay = append(stay, uint32(i))
			}
		}
		if len(stay) == 0 {
			continue
		}
		p := newPuppets(x, s, n, at)
		if r.Intn(2) == 0 {
			p.commit(p.others()[0], nil, nil, 0, true)
		}
		r.Shuffle(len(rm), func(i, j int) { rm[i], rm[j] = rm[j], rm[i] })
		by := stay[r.Intn(len(stay))]
		switch k := r.Intn(3); {
		case k == 0 || len(rm) < 2:
			p.commit(by, rm, nil, r.Intn(2), true)
		case k == 1:
			for _, li := range rm {
				p.commit(by, []uint32{li}, nil, 0, true)
			}
		default:
			p.commit(by, rm[:len(rm)/2], nil, 0, true)
			p.commit(by, rm[len(rm)/2:], nil, 0, true)
		}
		p.agree()
		x.Seen("shrink|%d|%d leaves", n, p.g.Tree.NumLeaves())
		p.invite(1)
		p.commit(p.others()[0], nil, nil, 1+r.Intn(4), r.Intn(2) == 0)
		p.agree()
	}
}

// c17DeepShrink lets many leaves of a wide tree go at once, so that the tree
// shrinks over several levels.
func c17DeepShrink(x *run.Ctx) {
	r := x.Rng
	s := refmls.GetSuite(uint16(x.P("suite")))
	n := 16 + r.Intn(60)
	at := r.Intn(4)
	p := newPuppets(x, s, n, at)
	keep := 1 + r.Intn(5)
	for round := 0; round < 3; round++ {
		p.commit(p.others()[0], nil, nil, 0, true)
		// first all but the first few and the last one, then the last one
		var rm []uint32
		var last uint32
		for _, li := range p.g.Tree.Members() {
			last = max(last, li)
		}
		var by uint32
		found := false
		for _, li := range p.g.Tree.Members() {
			switch {
			case li == p.libLeaf() || li == last:
			case int(li) < keep || !found:
				by, found = li, true
			default:
				rm = append(rm, li)
			}
		}
		if !found || last == p.libLeaf() {
			return
		}
		p.commit(by, rm, nil, 0, true)
		p.agree()
		p.seen("deep shrink")
		p.commit(by, []uint32{last}, nil, 0, true)
		p.agree()
		p.seen("deep shrink")
		p.invite(1)
		p.agree()
		p.commit(p.others()[0], nil, nil, 10+r.Intn(40), r.Intn(2) == 0)
		p.agree()
	}
}

func c17Large(x *run.Ctx) {
	r := x.Rng
	s := refmls.GetSuite(uint16(x.P("suite")))
	n := 250 + r.Intn(400)
	p := newPuppets(x, s, n, 1+r.Intn(n-1))
	p.agree()
	for i := 0; i < 4; i++ {
		p.step(n / 2)
		p.agree()
		p.seen("large")
	}
	p.invite(30)
	p.agree()
	x.Stat("largest group", len(p.g.Tree.Members()))
}
