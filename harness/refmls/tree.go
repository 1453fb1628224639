package refmls

import (
	"bytes"
	"errors"
	"fmt"
	"math/bits"
	"sort"
)

// --- tree arithmetic (full binary tree, array layout) ---

func nodeLevel(x int) int    { return bits.TrailingZeros64(^uint64(x)) }
func rootOf(width int) int   { return width / 2 }
func leafNode(li uint32) int { return 2 * int(li) }
func leftChild(x int) int    { return x - 1<<(nodeLevel(x)-1) }
func rightChild(x int) int   { return x + 1<<(nodeLevel(x)-1) }
func inSubtree(root, x int) bool {
	k := nodeLevel(root)
	return x > root-(1<<k) && x < root+(1<<k)
}

// ParentOf returns the parent in a tree of the given width, or -1 at the root.
func ParentOf(x, width int) int {
	if x == rootOf(width) {
		return -1
	}
	k := nodeLevel(x)
	base := x &^ (1<<(k+2) - 1)
	return base + 1<<(k+1) - 1
}

// SiblingOf returns the sibling, or -1 at the root.
func SiblingOf(x, width int) int {
	p := ParentOf(x, width)
	if p < 0 {
		return -1
	}
	if x < p {
		return rightChild(p)
	}
	return leftChild(p)
}

// DirectPath returns the ancestors of x up to the root.
func DirectPath(x, width int) []int {
	var out []int
	for p := ParentOf(x, width); p >= 0; p = ParentOf(p, width) {
		out = append(out, p)
	}
	return out
}

// RootOf, LeftOf, RightOf, LevelOf expose the arithmetic to checks.
func RootOf(width int) int { return rootOf(width) }
func LeftOf(x int) int     { return leftChild(x) }
func RightOf(x int) int    { return rightChild(x) }
func LevelOf(x int) int    { return nodeLevel(x) }

func commonAnc(a, b, width int) int {
	x := a
	for !inSubtree(x, b) {
		x = ParentOf(x, width)
	}
	return x
}

// --- tree state ---

func (t Tree) NumLeaves() uint32 { return uint32((len(t) + 1) / 2) }

func (t Tree) Leaf(li uint32) *LeafNode {
	if uint64(li) >= uint64(t.NumLeaves()) {
		return nil
	}
	n := t[2*int(li)]
	if n == nil {
		return nil
	}
	return n.Leaf
}

// Members lists the non-blank leaves.
func (t Tree) Members() []uint32 {
	var out []uint32
	for li := uint32(0); li < t.NumLeaves(); li++ {
		if t.Leaf(li) != nil {
			out = append(out, li)
		}
	}
	return out
}

// Clone copies the tree deeply enough for all operations here.
func (t Tree) Clone() Tree {
	out := make(Tree, len(t))
	for i, n := range t {
		if n == nil {
			continue
		}
		c := *n
		if n.Parent != nil {
			p := *n.Parent
			p.Unmerged = append([]uint32(nil), p.Unmerged...)
			c.Parent = &p
		}
		out[i] = &c
	}
	return out
}

// Resolution returns the resolution of node x.
func (t Tree) Resolution(x int) []int {
	n := t[x]
	if n != nil {
		out := []int{x}
		if n.Parent != nil {
			for _, u := range n.Parent.Unmerged {
				out = append(out, leafNode(u))
			}
		}
		return out
	}
	if x%2 == 0 {
		return nil
	}
	return append(t.Resolution(leftChild(x)), t.Resolution(rightChild(x))...)
}

// Add inserts a leaf and returns its index.
func (t *Tree) Add(l *LeafNode) uint32 {
	idx := -1
	for i := 0; i < len(*t); i += 2 {
		if (*t)[i] == nil {
			idx = i
			break
		}
	}
	if idx < 0 {
		idx = len(*t)
		w := 2*len(*t) + 1
		if len(*t) == 0 {
			idx, w = 0, 1
		} else {
			idx = len(*t) + 1
		}
		for len(*t) < w {
			*t = append(*t, nil)
		}
	}
	(*t)[idx] = &Node{Leaf: l}
	li := uint32(idx / 2)
	for _, p := range DirectPath(idx, len(*t)) {
		if n := (*t)[p]; n != nil {
			n.Parent.Unmerged = append(n.Parent.Unmerged, li)
			sort.Slice(n.Parent.Unmerged, func(a, b int) bool { return n.Parent.Unmerged[a] < n.Parent.Unmerged[b] })
		}
	}
	return li
}

func (t Tree) Update(li uint32, l *LeafNode) {
	x := leafNode(li)
	t[x] = &Node{Leaf: l}
	for _, p := range DirectPath(x, len(t)) {
		t[p] = nil
	}
}

// Remove blanks a leaf and its path and truncates. Out of range is a no-op.
func (t *Tree) Remove(li uint32) {
	if uint64(li) >= uint64(t.NumLeaves()) {
		return
	}
	x := leafNode(li)
	(*t)[x] = nil
	for _, p := range DirectPath(x, len(*t)) {
		(*t)[p] = nil
	}
	for len(*t) > 1 {
		half := len(*t) / 2 // root index; right subtree is (half, end)
		empty := true
		for i := half + 1; i < len(*t); i++ {
			if i%2 == 0 && (*t)[i] != nil {
				empty = false
			}
		}
		if !empty {
			break
		}
		*t = (*t)[:half]
	}
}

// Hash is the tree hash of node x, leaving out the given leaves.
func (t Tree) Hash(s *Suite, x int, exclude map[uint32]bool) []byte {
	var w W
	n := t[x]
	if x%2 == 0 {
		w.U8(1)
		w.U32(uint32(x / 2))
		if n == nil || exclude[uint32(x/2)] {
			w.U8(0)
		} else {
			w.U8(1)
			n.Leaf.Put(&w)
		}
		return s.H(w.B)
	}
	w.U8(2)
	if n == nil {
		w.U8(0)
	} else {
		p := *n.Parent
		p.Unmerged = nil
		for _, u := range n.Parent.Unmerged {
			if !exclude[u] {
				p.Unmerged = append(p.Unmerged, u)
			}
		}
		w.U8(1)
		p.Put(&w)
	}
	w.Vec(t.Hash(s, leftChild(x), exclude))
	w.Vec(t.Hash(s, rightChild(x), exclude))
	return s.H(w.B)
}

func (t Tree) RootHash(s *Suite) []byte { return t.Hash(s, rootOf(len(t)), nil) }

func parentHash(s *Suite, p *ParentNode, siblingHash []byte) []byte {
	var w W
	w.Vec(p.EncKey)
	w.Vec(p.ParentHash)
	w.Vec(siblingHash)
	return s.H(w.B)
}

// FilteredPath returns the filtered direct path of a leaf and, per element,
// the copath child.
func (t Tree) FilteredPath(li uint32) (path, copath []int) {
	x := leafNode(li)
	for p := ParentOf(x, len(t)); p >= 0; p = ParentOf(p, len(t)) {
		sib := leftChild(p)
		if inSubtree(sib, x) {
			sib = rightChild(p)
		}
		if len(t.Resolution(sib)) > 0 {
			path = append(path, p)
			copath = append(copath, sib)
		}
		x = p
	}
	return path, copath
}

// SetPath blanks the direct path of li, installs keys on the filtered path,
// sets the parent hashes and returns the parent hash for the leaf.
func (t Tree) SetPath(s *Suite, li uint32, keys [][]byte) ([]byte, error) {
	for _, p := range DirectPath(leafNode(li), len(t)) {
		t[p] = nil
	}
	path, copath := t.FilteredPath(li)
	if len(path) != len(keys) {
		return nil, errors.New("refmls: wrong number of path nodes")
	}
	for i, p := range path {
		t[p] = &Node{Parent: &ParentNode{EncKey: keys[i], ParentHash: []byte{}}}
	}
	ph := []byte{}
	for i := len(path) - 1; i >= 0; i-- {
		n := t[path[i]].Parent
		n.ParentHash = ph
		ph = parentHash(s, n, t.Hash(s, copath[i], nil))
	}
	return ph, nil
}

// Verify checks everything RFC 9420 sections 7.3, 7.9 and 12.4.3.1 require of
// a whole tree. now==0 skips lifetimes.
func (t Tree) Verify(s *Suite, groupID []byte, now uint64) error {
	if !isFullWidth(len(t)) {
		return errors.New("refmls: tree width")
	}
	enc := map[string]bool{}
	sig := map[string]bool{}
	for li := uint32(0); li < t.NumLeaves(); li++ {
		l := t.Leaf(li)
		if l == nil {
			continue
		}
		if err := t.VerifyLeaf(s, l, groupID, li, now); err != nil {
			return fmt.Errorf("leaf %d: %w", li, err)
		}
		if enc[string(l.EncKey)] || sig[string(l.SigKey)] {
			return errors.New("refmls: duplicate leaf key")
		}
		enc[string(l.EncKey)] = true
		sig[string(l.SigKey)] = true
	}
	for x, n := range t {
		if n == nil || n.Parent == nil {
			continue
		}
		if enc[string(n.Parent.EncKey)] {
			return errors.New("refmls: duplicate parent key")
		}
		enc[string(n.Parent.EncKey)] = true
		prev := -1
		for _, u := range n.Parent.Unmerged {
			if int(u) <= prev {
				return errors.New("refmls: unmerged leaves not sorted")
			}
			prev = int(u)
			if t.Leaf(u) == nil {
				return errors.New("refmls: unmerged leaf is blank")
			}
			y := leafNode(u)
			if !inSubtree(x, y) {
				return errors.New("refmls: unmerged leaf outside subtree")
			}
			for p := ParentOf(y, len(t)); p != x; p = ParentOf(p, len(t)) {
				if m := t[p]; m != nil {
					ok := false
					for _, v := range m.Parent.Unmerged {
						ok = ok || v == u
					}
					if !ok {
						return errors.New("refmls: intermediate node lacks unmerged leaf")
					}
				}
			}
		}
	}
	return t.VerifyParentHashes(s)
}

// VerifyParentHashes checks RFC 9420 section 7.9.2 for all parent nodes.
func (t Tree) VerifyParentHashes(s *Suite) error {
	for x, n := range t {
		if n == nil || n.Parent == nil {
			continue
		}
		ok := 0
		for _, side := range [][2]int{{leftChild(x), rightChild(x)}, {rightChild(x), leftChild(x)}} {
			c, sib := side[0], side[1]
			ex := map[uint32]bool{}
			for _, u := range n.Parent.Unmerged {
				ex[u] = true
			}
			want := parentHash(s, n.Parent, t.Hash(s, sib, ex))
			for _, d := range t.Resolution(c) {
				var got []byte
				has := false
				if t[d].Leaf != nil {
					if t[d].Leaf.Source == SrcCommit {
						got, has = t[d].Leaf.ParentHash, true
					}
				} else {
					got, has = t[d].Parent.ParentHash, true
				}
				if !has || !bytes.Equal(got, want) {
					continue
				}
				// P.unmerged restricted to C's subtree must be the
				// resolution of C minus D.
				res := map[int]bool{}
				for _, y := range t.Resolution(c) {
					if y != d {
						res[y] = true
					}
				}
				um := map[int]bool{}
				for _, u := range n.Parent.Unmerged {
					if inSubtree(c, leafNode(u)) {
						um[leafNode(u)] = true
					}
				}
				if t[d].Parent == nil && um[d] {
					continue
				}
				same := len(res) == len(um)
				for y := range res {
					same = same && um[y]
				}
				if same {
					ok++
				}
			}
		}
		if ok != 1 {
			return fmt.Errorf("refmls: parent hash invalid at node %d", x)
		}
	}
	return nil
}

// VerifyLeaf checks a leaf by itself and against the members of t.
func (t Tree) VerifyLeaf(s *Suite, l *LeafNode, groupID []byte, li uint32, now uint64) error {
	if !s.VerifyWithLabel(l.SigKey, "LeafNodeTBS", l.TBS(groupID, li), l.Sig) {
		return errors.New("refmls: bad leaf signature")
	}
	if _, err := s.kem.NewPublicKey(l.EncKey); err != nil {
		return err
	}
	// Now may be a little stale. The longest lifetime is up to the
	// application; a year is more than enough.
	if l.Source == SrcKeyPackage && now != 0 && (now+3600 < l.NotBefore || now > l.NotAfter || l.NotAfter-l.NotBefore > 366*86400) {
		return errors.New("refmls: leaf outside lifetime")
	}
	for _, e := range l.Exts {
		ok := e.Type >= 1 && e.Type <= 5
		for _, c := range l.Caps.Extensions {
			ok = ok || c == e.Type
		}
		if !ok {
			return errors.New("refmls: leaf extension not in capabilities")
		}
	}
	for _, m := range t.Members() {
		ok := false
		for _, c := range t.Leaf(m).Caps.Credentials {
			ok = ok || c == l.Cred.Type
		}
		if !ok {
			return errors.New("refmls: credential type not supported by all")
		}
	}
	own := false
	for _, c := range l.Caps.Credentials {
		own = own || c == l.Cred.Type
	}
	if !own {
		return errors.New("refmls: leaf does not support its own credential")
	}
	return nil
}
