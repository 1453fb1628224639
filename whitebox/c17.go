// Laid over the library when the monitors of C17 are built; see bin/check.sh.

package mls

import "fmt"

// VerifMath is what the arithmetic says about a node; -1 stands for none.
type VerifMath struct {
	Width, Root, Parent, Sibling, Left, Right, Leaf int
	Direct, Copath                                  []int
}

func VerifNode(n, x uint32) VerifMath {
	or := func(x nodeIndex, ok bool) int {
		if !ok {
			return -1
		}
		return int(x)
	}
	ints := func(l []nodeIndex) []int {
		var out []int
		for _, x := range l {
			out = append(out, int(x))
		}
		return out
	}
	nl, ni := numLeaves(n), nodeIndex(x)
	m := VerifMath{Width: int(nl.width()), Root: int(nl.root()), Leaf: -1}
	m.Parent = or(nl.parent(ni))
	m.Sibling = or(nl.sibling(ni))
	m.Left = or(ni.left())
	m.Right = or(ni.right())
	if li, ok := ni.leafIndex(); ok {
		m.Leaf = int(li)
		if li.nodeIndex() != ni {
			m.Leaf = -2
		}
	}
	m.Direct = ints(nl.directPath(ni))
	m.Copath = ints(nl.copath(ni))
	return m
}

func VerifCommon(x, y uint32) int { return int(commonAncestor(nodeIndex(x), nodeIndex(y))) }

// VerifTree is a ratchet tree.
type VerifTree struct{ t ratchetTree }

func VerifReadTree(raw []byte) (*VerifTree, error) {
	vt := new(VerifTree)
	if raw == nil {
		return vt, nil
	}
	return vt, unmarshal(raw, &vt.t)
}

func verifLeaf(raw []byte) *leafNode {
	l := new(leafNode)
	if err := unmarshal(raw, l); err != nil {
		panic(fmt.Sprintf("leaf node: %v", err))
	}
	return l
}

func (vt *VerifTree) Add(leaf []byte) { vt.t.add(verifLeaf(leaf)) }

func (vt *VerifTree) Update(li uint32, leaf []byte) { vt.t.update(leafIndex(li), verifLeaf(leaf)) }

func (vt *VerifTree) Remove(li uint32) { vt.t.remove(leafIndex(li)) }

func (vt *VerifTree) Merge(cs uint16, li uint32, path []byte) error {
	p := new(updatePath)
	if err := unmarshal(path, p); err != nil {
		panic(fmt.Sprintf("update path: %v", err))
	}
	return vt.t.mergeUpdatePath(CipherSuite(cs), leafIndex(li), p)
}

func (vt *VerifTree) Width() int { return len(vt.t) }

func (vt *VerifTree) Bytes() []byte {
	b, err := marshal(vt.t)
	if err != nil {
		panic(err)
	}
	return b
}

func (vt *VerifTree) Resolve(x int) []int {
	var out []int
	for _, y := range vt.t.resolve(nodeIndex(x)) {
		out = append(out, int(y))
	}
	return out
}

func (vt *VerifTree) Hash(cs uint16, x int) []byte {
	b, err := vt.t.computeTreeHash(CipherSuite(cs), nodeIndex(x), nil)
	if err != nil {
		panic(err)
	}
	return b
}

func (vt *VerifTree) RootHash(cs uint16) []byte {
	b, err := vt.t.computeRootTreeHash(CipherSuite(cs))
	if err != nil {
		panic(err)
	}
	return b
}

func (vt *VerifTree) ParentHashes(cs uint16) bool { return vt.t.verifyParentHashes(CipherSuite(cs)) }
