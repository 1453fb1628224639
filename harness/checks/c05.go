package checks

import (
	"bytes"
	"fmt"
	"runtime"

	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

// trial is one hostile commit.
type trial struct {
	raw []byte
	// libs that must refuse it (nil: all)
	who []*sim.Member
	// a conforming member would follow: refuse, or converge with res
	follow bool
	res    *refmls.CommitResult
	// visible to who only, so that the reference is not asked
	local bool
}

type rule struct {
	name string
	f    func(d *den) *trial // nil: not applicable now
}

func init() {
	run.Register(&run.Check{
		Prop: "C05", Level: "exploration",
		Rule: "distinct (suite, framing, tree shape, broken rule) hostile commits that were correctly signed, encrypted and tagged and whose repaired twin was accepted",
		Assumptions: []string{
			"the malicious member knows all secrets of the group, but not the signature keys of others",
			"required_capabilities, credential validation and external commits are not covered",
		},
		MinEvals: 1000, MinSeen: 300,
		Cases: func(tier string, seed int64) []run.Case {
			var out []run.Case
			n := (len(commitRules()) + 9) / 10
			for chunk := 0; chunk < n; chunk++ {
				out = append(out, casesOf("rules", scale(tier, 24, 96), seed, map[string]int64{"chunk": int64(chunk)})...)
			}
			out = append(out, casesOf("odd", scale(tier, 12, 60), seed, nil)...)
			out = append(out, casesOf("positive", scale(tier, 8, 40), seed, nil)...)
			return out
		},
		Run: func(x *run.Ctx) {
			if x.Case.Kind == "positive" {
				c05Positive(x)
				return
			}
			if x.Case.Kind == "odd" {
				c05Odd(x)
				return
			}
			d := newDen(x, nil)
			rules := commitRules()
			lo := x.P("chunk") * 10
			rules = rules[lo:min(lo+10, len(rules))]
			x.Rng.Shuffle(len(rules), func(i, j int) { rules[i], rules[j] = rules[j], rules[i] })
			for _, ru := range rules {
				c05Try(d, ru)
			}
		},
	})
}

func c05Try(d *den, ru rule) {
	x := d.X
	d.public = x.Rng.Intn(2) == 0
	d.dilute, d.diluted = x.Rng.Intn(4) == 0, false
	t := diluting(d, ru)
	d.dilute = false
	if t != nil && d.diluted && !t.local {
		// what the rule breaks may have changed
		if _, err := d.peer.Ref.Clone().Process(t.raw); err == nil || t.follow {
			t = nil
			d.Commit(&sim.Spec{By: d.evil, Path: true, Seal: d.RandSeal()})
		}
	}
	if t == nil {
		x.Stat("inapplicable", 1)
		return
	}
	if !t.follow && !t.local {
		if _, err := d.peer.Ref.Clone().Process(t.raw); err == nil {
			panic("rule " + ru.name + " is not hostile: the reference accepts it")
		}
	}
	who := t.who
	if who == nil {
		who = d.Libs()
	}
	accepted := 0
	for _, m := range who {
		out, err := d.LibProcess(m, t.raw)
		x.Eval(1)
		x.Why(ru.name, err)
		if err == nil {
			accepted++
			if !t.follow {
				x.Fail("applied:"+ru.name, "library member %s (leaf %d) applied an invalid commit: %s (public=%v, suite %d, tree %s, epoch %d, %d bytes returned)", m.Name, d.LeafOf(m), ru.name, d.public, d.S.ID, d.Shape(), d.Epoch, len(out))
			}
		}
	}
	x.Seen("rule|%d|%v|%s|%s", d.S.ID, d.public, ru.name, d.Shape())
	if t.follow {
		if accepted != 0 && accepted != len(who) {
			x.Fail("diverged:"+ru.name, "%d of %d library members applied the commit: %s", accepted, len(who), ru.name)
		}
		if accepted > 0 {
			for _, m := range d.Refs() {
				if m == d.evil {
					continue
				}
				if _, err := m.Ref.Process(t.raw); err != nil {
					panic(fmt.Sprintf("reference refuses %s: %v", ru.name, err))
				}
			}
			d.evil.Ref = t.res.Next
			d.Epoch++
		}
		d.Agree()
		return
	}
	// still in the same epoch, and the honest version is fine
	d.Agree()
	d.Commit(&sim.Spec{By: d.evil, Path: true, Seal: d.RandSeal()})
	d.Agree()
}

// diluting gives up if a rule does not cope with further adds.
func diluting(d *den, ru rule) (t *trial) {
	defer func() {
		if !d.diluted {
			return
		}
		e := recover()
		if _, ok := e.(runtime.Error); !ok && e != nil && e != "invalid argument to Intn" {
			panic(e)
		}
	}()
	return ru.f(d)
}

func (d *den) seal() refmls.SealOpts {
	return refmls.SealOpts{Public: d.public}
}

func (d *den) commit(list []refmls.ProposalOrRef, path bool, h refmls.Hooks) *refmls.CommitResult {
	if d.dilute && (path || len(list) > 0) && h.ApplyProps == nil {
		n := 1 + d.R.Intn(3)
		if d.R.Intn(4) == 0 {
			n = 4 + d.R.Intn(9)
		}
		list = append([]refmls.ProposalOrRef{}, list...)
		for ; n > 0; n-- {
			add := val(pAdd(refmls.NewMember(d.S, d.R, d.dress(&refmls.MemberOpts{Identity: []byte{'d', byte(n)}}))))
			at := d.R.Intn(len(list) + 1)
			list = append(list[:at:at], append([]refmls.ProposalOrRef{add}, list[at:]...)...)
		}
		d.diluted = true
	}
	return d.evil.Ref.Commit(&refmls.CommitOpts{List: list, Path: path, Seal: d.seal(), H: h})
}

func (d *den) hooked(h refmls.Hooks) *trial {
	return &trial{raw: d.commit(nil, true, h).Raw}
}

func (d *den) addWith(o *refmls.MemberOpts) *trial {
	if o.Identity == nil {
		o.Identity = []byte("newcomer")
	}
	m := refmls.NewMember(d.S, d.R, d.dress(o))
	if d.R.Intn(4) == 0 {
		return d.refProposal(d.peer, pAdd(m))
	}
	list := []refmls.ProposalOrRef{val(pAdd(m))}
	if d.R.Intn(4) == 0 {
		good := val(pAdd(refmls.NewMember(d.S, d.R, d.dress(&refmls.MemberOpts{Identity: []byte("good")}))))
		list = append(list, good)
		if d.R.Intn(2) == 0 {
			list[0], list[1] = list[1], list[0]
		}
	}
	return &trial{raw: d.commit(list, d.R.Intn(2) == 0, refmls.Hooks{}).Raw}
}

// updateWith lets the honest peer's client propose a bad update leaf, which
// the malicious member commits.
func (d *den) updateWith(pre func(*refmls.LeafNode), key []byte, post func(*refmls.LeafNode)) *trial {
	l := d.peer.Ref.NewUpdateLeaf(pre, key, post)
	ref := d.sendProposal(d.peer, pUpdate(l))
	return &trial{raw: d.commit(d.among(refmls.ProposalOrRef{Ref: ref}), true, refmls.Hooks{}).Raw}
}

// among hides a proposal in a list of valid ones, half of the time.
func (d *den) among(p refmls.ProposalOrRef) []refmls.ProposalOrRef {
	list := []refmls.ProposalOrRef{p}
	if d.R.Intn(2) == 0 {
		return list
	}
	for n := 1 + d.R.Intn(3); n > 0; n-- {
		list = append(list, val(pAdd(refmls.NewMember(d.S, d.R, d.dress(&refmls.MemberOpts{Identity: []byte{'n', byte(n)}})))))
	}
	d.R.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	return list
}

// refProposal sends a possibly bad proposal, which may be refused, and
// commits it by reference.
func (d *den) refProposal(by *sim.Member, p *refmls.Proposal) *trial {
	ref := d.sendProposal(by, p)
	return &trial{raw: d.commit(d.among(refmls.ProposalOrRef{Ref: ref}), true, refmls.Hooks{}).Raw}
}

func (d *den) sendProposal(by *sim.Member, p *refmls.Proposal) []byte {
	raw, ref := by.Ref.Propose(p, &refmls.SealOpts{Public: d.R.Intn(2) == 0})
	for _, m := range d.Members {
		if m == by {
			continue
		}
		if m.IsLib() {
			d.LibProcess(m, raw)
		} else {
			m.Ref.Process(raw)
		}
	}
	return ref
}

// otherLeaf is the leaf node of some other member than the malicious one.
func (d *den) otherLeaf() *refmls.LeafNode {
	t := d.evil.Ref.Tree
	ms := t.Members()
	for {
		li := ms[d.R.Intn(len(ms))]
		if li != d.evil.Ref.MyLeaf && li != d.peer.Ref.MyLeaf {
			return t.Leaf(li)
		}
	}
}

func (d *den) blankLeaf() (uint32, bool) {
	t := d.evil.Ref.Tree
	for li := uint32(0); li < t.NumLeaves(); li++ {
		if t.Leaf(li) == nil {
			return li, true
		}
	}
	return 0, false
}

func (d *den) farOnly() []*sim.Member { return []*sim.Member{d.far} }

func commitRules() []rule {
	var rs []rule
	add := func(name string, f func(d *den) *trial) { rs = append(rs, rule{name, f}) }
	hook := func(name string, f func(d *den) refmls.Hooks) {
		add(name, func(d *den) *trial {
			if name == "path-leaf-other-enckey" || d.R.Intn(4) != 0 {
				return d.hooked(f(d))
			}
			// along with somebody's update
			u := d.sendProposal(d.third, pUpdate(d.third.Ref.NewUpdateLeaf(nil, nil, nil)))
			return &trial{raw: d.commit([]refmls.ProposalOrRef{{Ref: u}}, true, f(d)).Raw}
		})
	}

	// --- confirmation tag ---
	hook("conftag-flipped", func(d *den) refmls.Hooks {
		return refmls.Hooks{ConfTag: func(b []byte) []byte { return flip(b, d.R.Intn(1000)) }}
	})
	hook("conftag-empty", func(d *den) refmls.Hooks {
		return refmls.Hooks{ConfTag: func(b []byte) []byte { return []byte{} }}
	})
	hook("conftag-truncated", func(d *den) refmls.Hooks {
		return refmls.Hooks{ConfTag: func(b []byte) []byte { return b[:len(b)-1-d.R.Intn(len(b)-1)] }}
	})
	hook("conftag-extended", func(d *den) refmls.Hooks {
		return refmls.Hooks{ConfTag: func(b []byte) []byte { return append(append([]byte{}, b...), 0) }}
	})
	hook("conftag-previous", func(d *den) refmls.Hooks {
		return refmls.Hooks{ConfTag: func(b []byte) []byte { return d.evil.Ref.ConfTag }}
	})
	hook("conftag-zero", func(d *den) refmls.Hooks {
		return refmls.Hooks{ConfTag: func(b []byte) []byte { return make([]byte, len(b)) }}
	})
	hook("commit-secret", func(d *den) refmls.Hooks {
		return refmls.Hooks{CommitSec: func(b []byte) []byte { return refmls.Bytes(d.R, len(b)) }}
	})
	hook("commit-secret-zero", func(d *den) refmls.Hooks {
		return refmls.Hooks{CommitSec: func(b []byte) []byte { return make([]byte, len(b)) }}
	})
	add("conftag-add-nopath", func(d *den) *trial {
		m := refmls.NewMember(d.S, d.R, nil)
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pAdd(m))}, false, refmls.Hooks{ConfTag: func(b []byte) []byte { return flip(b, 3) }}).Raw}
	})
	hook("tree-hash", func(d *den) refmls.Hooks {
		// the committer claims another tree than the one everybody computes
		return refmls.Hooks{FinalTree: func(t *refmls.Tree) {
			l := t.Leaf(d.peer.Ref.MyLeaf).Clone()
			l.Cred.Identity = []byte("someone else")
			(*t)[2*int(d.peer.Ref.MyLeaf)] = &refmls.Node{Leaf: l}
		}}
	})

	// --- proposal list ---
	add("update-by-committer", func(d *den) *trial {
		l := d.evil.Ref.NewUpdateLeaf(nil, nil, nil)
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pUpdate(l))}, true, refmls.Hooks{}).Raw}
	})
	add("update-by-committer-ref", func(d *den) *trial {
		return d.refProposal(d.evil, pUpdate(d.evil.Ref.NewUpdateLeaf(nil, nil, nil)))
	})
	add("remove-committer", func(d *den) *trial {
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pRemove(d.evil.Ref.MyLeaf))}, true, refmls.Hooks{ApplyProps: []*refmls.Proposal{}, ApplySender: []uint32{}}).Raw}
	})
	add("remove-committer-applied", func(d *den) *trial {
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pRemove(d.evil.Ref.MyLeaf))}, true, refmls.Hooks{}).Raw}
	})
	add("remove-committer-ref", func(d *den) *trial {
		return d.refProposal(d.peer, pRemove(d.evil.Ref.MyLeaf))
	})
	add("remove-committer-wrapped", func(d *den) *trial {
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pRemove(d.evil.Ref.MyLeaf | 1<<31))}, true, refmls.Hooks{
			ApplyProps: []*refmls.Proposal{pRemove(d.evil.Ref.MyLeaf)}, ApplySender: []uint32{d.evil.Ref.MyLeaf}}).Raw}
	})
	for _, n := range []int{0, 1} {
		add(fmt.Sprintf("remove-wrapped-%d", n), func(d *den) *trial {
			li := d.third.Ref.MyLeaf
			h := refmls.Hooks{}
			if n == 1 { // as if the index were reduced
				h = refmls.Hooks{ApplyProps: []*refmls.Proposal{pRemove(li)}, ApplySender: []uint32{d.evil.Ref.MyLeaf}}
			}
			return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pRemove(li | 1<<31))}, true, h).Raw}
		})
		add(fmt.Sprintf("remove-twice-%d", n), func(d *den) *trial {
			p := pRemove(d.third.Ref.MyLeaf)
			list := []refmls.ProposalOrRef{val(p), val(p)}
			if n == 1 {
				list = []refmls.ProposalOrRef{val(p), {Ref: d.sendProposal(d.peer, p)}}
			}
			return &trial{raw: d.commit(list, true, refmls.Hooks{}).Raw}
		})
		add(fmt.Sprintf("update-and-remove-%d", n), func(d *den) *trial {
			u := d.sendProposal(d.third, pUpdate(d.third.Ref.NewUpdateLeaf(nil, nil, nil)))
			list := []refmls.ProposalOrRef{{Ref: u}, val(pRemove(d.third.Ref.MyLeaf))}
			if n == 1 {
				list[0], list[1] = list[1], list[0]
			}
			return &trial{raw: d.commit(list, true, refmls.Hooks{}).Raw}
		})
	}
	add("remove-twice-by-others", func(d *den) *trial {
		// two members ask for the same
		p := pRemove(d.third.Ref.MyLeaf)
		a, b := d.sendProposal(d.peer, p), d.sendProposal([]*sim.Member{d.evil, d.peer}[d.R.Intn(2)], pRemove(p.Removed))
		if bytes.Equal(a, b) {
			return nil
		}
		return &trial{raw: d.commit([]refmls.ProposalOrRef{{Ref: a}, {Ref: b}}, true, refmls.Hooks{}).Raw}
	})
	add("remove-by-other-and-update", func(d *den) *trial {
		a := d.sendProposal(d.peer, pRemove(d.third.Ref.MyLeaf))
		b := d.sendProposal(d.third, pUpdate(d.third.Ref.NewUpdateLeaf(nil, nil, nil)))
		list := []refmls.ProposalOrRef{{Ref: a}, {Ref: b}}
		if d.R.Intn(2) == 0 {
			list[0], list[1] = list[1], list[0]
		}
		return &trial{raw: d.commit(list, true, refmls.Hooks{}).Raw}
	})
	add("update-twice", func(d *den) *trial {
		a := d.sendProposal(d.third, pUpdate(d.third.Ref.NewUpdateLeaf(nil, nil, nil)))
		b := d.sendProposal(d.third, pUpdate(d.third.Ref.NewUpdateLeaf(nil, nil, nil)))
		return &trial{raw: d.commit([]refmls.ProposalOrRef{{Ref: a}, {Ref: b}}, true, refmls.Hooks{}).Raw}
	})
	add("update-same-ref-twice", func(d *den) *trial {
		a := d.sendProposal(d.third, pUpdate(d.third.Ref.NewUpdateLeaf(nil, nil, nil)))
		return &trial{raw: d.commit([]refmls.ProposalOrRef{{Ref: a}, {Ref: a}}, true, refmls.Hooks{}).Raw}
	})
	for _, path := range []bool{false, true} {
		add(fmt.Sprintf("add-twice-same-package-path=%v", path), func(d *den) *trial {
			m := refmls.NewMember(d.S, d.R, nil)
			return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pAdd(m)), val(pAdd(m))}, path, refmls.Hooks{}).Raw}
		})
		add(fmt.Sprintf("add-twice-same-sigkey-path=%v", path), func(d *den) *trial {
			m := refmls.NewMember(d.S, d.R, nil)
			m2 := refmls.NewMember(d.S, d.R, &refmls.MemberOpts{Identity: []byte("b"), SigPub: m.KP.Leaf.SigKey, SigPriv: m.SigPriv})
			return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pAdd(m)), val(pAdd(m2))}, path, refmls.Hooks{}).Raw}
		})
		add(fmt.Sprintf("add-twice-same-enckey-path=%v", path), func(d *den) *trial {
			m := refmls.NewMember(d.S, d.R, nil)
			m2 := refmls.NewMember(d.S, d.R, &refmls.MemberOpts{Identity: []byte("b"), EncPub: m.KP.Leaf.EncKey, EncPriv: m.EncPriv})
			return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pAdd(m)), val(pAdd(m2))}, path, refmls.Hooks{}).Raw}
		})
	}
	add("add-existing-member", func(d *den) *trial {
		// the malicious member's own key package, once more
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pAdd(d.evil.C.M))}, true, refmls.Hooks{}).Raw}
	})
	add("add-existing-sigkey", func(d *den) *trial {
		return d.addWith(&refmls.MemberOpts{SigPub: d.evil.Ref.Tree.Leaf(d.evil.Ref.MyLeaf).SigKey, SigPriv: d.evil.Ref.SigPriv})
	})
	add("add-existing-enckey", func(d *den) *trial {
		return d.addWith(&refmls.MemberOpts{EncPub: d.otherLeaf().EncKey, EncPriv: []byte{1}})
	})
	add("add-parent-enckey", func(d *den) *trial {
		for _, n := range d.evil.Ref.Tree {
			// a node that stays in the tree
			if n != nil && n.Parent != nil {
				k := n.Parent.EncKey
				m := refmls.NewMember(d.S, d.R, &refmls.MemberOpts{EncPub: k, EncPriv: []byte{1}})
				return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pAdd(m))}, false, refmls.Hooks{}).Raw}
			}
		}
		return nil
	})
	add("add-kp-signature", func(d *den) *trial {
		return d.addWith(&refmls.MemberOpts{KPPost: func(k *refmls.KeyPackage) { k.Sig = flip(k.Sig, len(k.Sig)-1) }})
	})
	add("add-kp-signature-empty", func(d *den) *trial {
		return d.addWith(&refmls.MemberOpts{KPPost: func(k *refmls.KeyPackage) { k.Sig = []byte{} }})
	})
	add("add-kp-other-key", func(d *den) *trial {
		return d.addWith(&refmls.MemberOpts{KPSigKey: d.evil.Ref.SigPriv})
	})
	add("add-kp-initkey-swapped", func(d *den) *trial {
		pub, _ := d.S.GenKEM(d.R)
		return d.addWith(&refmls.MemberOpts{KPPost: func(k *refmls.KeyPackage) { k.InitKey = pub }})
	})
	add("add-leaf-signature", func(d *den) *trial {
		return d.addWith(&refmls.MemberOpts{LeafPost: func(l *refmls.LeafNode) { l.Sig = flip(l.Sig, len(l.Sig)-1) }})
	})
	add("add-leaf-other-key", func(d *den) *trial {
		return d.addWith(&refmls.MemberOpts{LeafSigKey: d.evil.Ref.SigPriv})
	})
	add("add-leaf-identity-changed", func(d *den) *trial {
		return d.addWith(&refmls.MemberOpts{LeafPost: func(l *refmls.LeafNode) { l.Cred.Identity = []byte("victim") }})
	})
	add("add-kp-suite", func(d *den) *trial {
		o := uint16(1)
		if d.S.ID == 1 {
			o = 3
		}
		return d.addWith(&refmls.MemberOpts{KPPre: func(k *refmls.KeyPackage) { k.Suite = o }})
	})
	add("add-kp-suite-unknown", func(d *den) *trial {
		return d.addWith(&refmls.MemberOpts{KPPre: func(k *refmls.KeyPackage) { k.Suite = 0x4242 }})
	})
	add("add-kp-version", func(d *den) *trial {
		return d.addWith(&refmls.MemberOpts{KPPre: func(k *refmls.KeyPackage) { k.Version = 2 }})
	})
	add("add-leaf-source-update", func(d *den) *trial {
		return d.addWith(&refmls.MemberOpts{LeafPre: func(l *refmls.LeafNode) { l.Source = refmls.SrcUpdate }})
	})
	add("add-leaf-source-update-here", func(d *den) *trial {
		t := d.evil.Ref.Tree.Clone()
		li := t.Add(&refmls.LeafNode{})
		return d.addWith(&refmls.MemberOpts{LeafPre: func(l *refmls.LeafNode) { l.Source = refmls.SrcUpdate }, LeafTBSGID: d.evil.Ref.Ctx.GroupID, LeafTBSIdx: li})
	})
	add("add-leaf-source-commit", func(d *den) *trial {
		t := d.evil.Ref.Tree.Clone()
		li := t.Add(&refmls.LeafNode{})
		return d.addWith(&refmls.MemberOpts{LeafPre: func(l *refmls.LeafNode) { l.Source = refmls.SrcCommit; l.ParentHash = []byte{} }, LeafTBSGID: d.evil.Ref.Ctx.GroupID, LeafTBSIdx: li})
	})
	add("add-init-equals-enc", func(d *den) *trial {
		pub, priv := d.S.GenKEM(d.R)
		return d.addWith(&refmls.MemberOpts{EncPub: pub, EncPriv: priv, InitPub: pub, InitPriv: priv})
	})
	for _, bl := range badLife {
		add("add-lifetime-"+bl.name, func(d *den) *trial {
			return d.addWith(&refmls.MemberOpts{LeafPre: func(l *refmls.LeafNode) { l.NotBefore, l.NotAfter = bl.f(unixNow()) }})
		})
	}
	add("add-lifetime-zero", func(d *den) *trial {
		return d.addWith(&refmls.MemberOpts{LeafPre: func(l *refmls.LeafNode) { l.NotBefore, l.NotAfter = 0, 0 }})
	})
	add("add-leaf-extension", func(d *den) *trial {
		return d.addWith(&refmls.MemberOpts{LeafExts: []refmls.Extension{{Type: 0xabcd, Data: []byte{1}}}})
	})
	for i := 0; i < 4; i++ {
		add(fmt.Sprintf("add-leaf-extension-any-%d", i), func(d *den) *trial { return d.addWith(d.badExtsOpts()) })
		add(fmt.Sprintf("add-sigkey-malformed-%d", i), func(d *den) *trial { return d.addWith(d.badSigKeyOpts()) })
		hook(fmt.Sprintf("path-leaf-sigkey-malformed-%d", i), func(d *den) refmls.Hooks {
			real, priv := d.S.GenSig(d.R)
			pub, sig := d.badSigKey(real)
			h := refmls.Hooks{NewSigPub: pub, NewSigPriv: priv}
			if sig != nil {
				h.LeafPost = func(l *refmls.LeafNode) { l.Sig = sig }
			}
			return h
		})
		hook(fmt.Sprintf("path-leaf-extension-any-%d", i), func(d *den) refmls.Hooks {
			return refmls.Hooks{LeafPre: func(l *refmls.LeafNode) { l.Exts = d.badExts(&l.Caps) }}
		})
		add(fmt.Sprintf("update-leaf-sigkey-malformed-%d", i), func(d *den) *trial {
			real, priv := d.S.GenSig(d.R)
			pub, sig := d.badSigKey(real)
			return d.updateWith(func(l *refmls.LeafNode) { l.SigKey = pub }, priv, func(l *refmls.LeafNode) {
				if sig != nil {
					l.Sig = sig
				}
			})
		})
		add(fmt.Sprintf("update-leaf-extension-any-%d", i), func(d *den) *trial {
			return d.updateWith(func(l *refmls.LeafNode) { l.Exts = d.badExts(&l.Caps) }, nil, nil)
		})
	}
	add("add-credential", func(d *den) *trial {
		caps := refmls.DefaultCaps(d.S)
		caps.Credentials = []uint16{1, 2}
		return d.addWith(&refmls.MemberOpts{Cred: &refmls.Credential{Type: 2, Certs: [][]byte{{1, 2, 3}}}, Caps: &caps})
	})
	add("add-credential-unlisted", func(d *den) *trial {
		caps := refmls.DefaultCaps(d.S)
		caps.Credentials = []uint16{2}
		return d.addWith(&refmls.MemberOpts{Caps: &caps})
	})
	add("add-credentials-none", func(d *den) *trial {
		caps := refmls.DefaultCaps(d.S)
		caps.Credentials = nil
		return d.addWith(&refmls.MemberOpts{Caps: &caps})
	})
	add("add-bad-by-ref", func(d *den) *trial {
		m := refmls.NewMember(d.S, d.R, &refmls.MemberOpts{LeafPost: func(l *refmls.LeafNode) { l.Sig = flip(l.Sig, len(l.Sig)-1) }})
		return d.refProposal(d.peer, pAdd(m))
	})
	add("add-second-bad", func(d *den) *trial {
		good := refmls.NewMember(d.S, d.R, nil)
		n := unixNow()
		bad := refmls.NewMember(d.S, d.R, &refmls.MemberOpts{Identity: []byte("x"), NotBefore: n - 20*day, NotAfter: n - 2*day})
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pAdd(good)), val(pAdd(bad))}, d.R.Intn(2) == 0, refmls.Hooks{}).Raw}
	})

	// --- removals ---
	add("remove-blank", func(d *den) *trial {
		li, ok := d.blankLeaf()
		if !ok {
			return nil
		}
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pRemove(li))}, true, refmls.Hooks{}).Raw}
	})
	for _, k := range []uint32{0, 1, 1000, 1 << 30, 1<<31 - 1, 1<<31 - 2, 1<<32 - 1, 1<<32 - 2} {
		add(fmt.Sprintf("remove-out-of-range-%d", k), func(d *den) *trial {
			li := k
			if k <= 1000 {
				li += d.evil.Ref.Tree.NumLeaves()
			}
			return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pRemove(li))}, true, refmls.Hooks{}).Raw}
		})
	}
	add("remove-added", func(d *den) *trial {
		// the leaf only exists after the adds of the same commit
		li, ok := d.blankLeaf()
		if !ok {
			li = d.evil.Ref.Tree.NumLeaves()
		}
		m := refmls.NewMember(d.S, d.R, nil)
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pAdd(m)), val(pRemove(li))}, true, refmls.Hooks{}).Raw}
	})
	add("remove-truncated-then-beyond", func(d *den) *trial {
		// the second index lies in the half dropped by the first removals
		t := d.evil.Ref.Tree
		half := t.NumLeaves() / 2
		if d.evil.Ref.MyLeaf >= half {
			return nil
		}
		var list []refmls.ProposalOrRef
		for _, li := range t.Members() {
			if li >= half && li != d.LeafOf(d.far) {
				list = append(list, val(pRemove(li)))
			}
		}
		list = append(list, val(pRemove(d.LeafOf(d.far))))
		for li := t.NumLeaves() - 1; li >= half; li-- {
			if t.Leaf(li) == nil {
				list = append(list, val(pRemove(li)))
				return &trial{raw: d.commit(list, true, refmls.Hooks{}).Raw}
			}
		}
		return nil
	})

	// --- path required ---
	add("nopath-empty", func(d *den) *trial {
		return &trial{raw: d.commit(nil, false, refmls.Hooks{}).Raw}
	})
	add("nopath-remove", func(d *den) *trial {
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pRemove(d.third.Ref.MyLeaf))}, false, refmls.Hooks{}).Raw}
	})
	add("nopath-remove-and-add", func(d *den) *trial {
		m := refmls.NewMember(d.S, d.R, nil)
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pAdd(m)), val(pRemove(d.third.Ref.MyLeaf))}, false, refmls.Hooks{}).Raw}
	})
	add("nopath-update", func(d *den) *trial {
		a := d.sendProposal(d.third, pUpdate(d.third.Ref.NewUpdateLeaf(nil, nil, nil)))
		return &trial{raw: d.commit([]refmls.ProposalOrRef{{Ref: a}}, false, refmls.Hooks{}).Raw}
	})
	add("nopath-gce", func(d *den) *trial {
		p := &refmls.Proposal{Type: refmls.PropGCE, GCE: nil}
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(p)}, false, refmls.Hooks{}).Raw}
	})

	// --- path leaf ---
	hook("path-leaf-source-update", func(d *den) refmls.Hooks {
		return refmls.Hooks{LeafPre: func(l *refmls.LeafNode) { l.Source = refmls.SrcUpdate; l.ParentHash = nil }}
	})
	hook("path-leaf-source-keypackage", func(d *den) refmls.Hooks {
		return refmls.Hooks{LeafPre: func(l *refmls.LeafNode) {
			l.Source = refmls.SrcKeyPackage
			l.NotBefore, l.NotAfter = unixNow()-day, unixNow()+20*day
		}}
	})
	hook("path-leaf-signature", func(d *den) refmls.Hooks {
		return refmls.Hooks{LeafPost: func(l *refmls.LeafNode) { l.Sig = flip(l.Sig, len(l.Sig)-1) }}
	})
	hook("path-leaf-signature-empty", func(d *den) refmls.Hooks {
		return refmls.Hooks{LeafPost: func(l *refmls.LeafNode) { l.Sig = []byte{} }}
	})
	hook("path-leaf-other-key", func(d *den) refmls.Hooks {
		_, priv := d.S.GenSig(d.R)
		return refmls.Hooks{LeafKey: priv}
	})
	hook("path-leaf-index", func(d *den) refmls.Hooks {
		return refmls.Hooks{LeafIdx: u32(d.evil.Ref.MyLeaf ^ 1)}
	})
	hook("path-leaf-group", func(d *den) refmls.Hooks {
		return refmls.Hooks{LeafGID: append([]byte{7}, d.evil.Ref.Ctx.GroupID...)}
	})
	hook("path-leaf-same-enckey", func(d *den) refmls.Hooks {
		old := d.evil.Ref.Tree.Leaf(d.evil.Ref.MyLeaf).EncKey
		return refmls.Hooks{LeafPre: func(l *refmls.LeafNode) { l.EncKey = old }}
	})
	hook("path-leaf-other-enckey", func(d *den) refmls.Hooks {
		k := d.otherLeaf().EncKey
		return refmls.Hooks{LeafPre: func(l *refmls.LeafNode) { l.EncKey = k }}
	})
	hook("path-leaf-parent-enckey", func(d *den) refmls.Hooks {
		return refmls.Hooks{LeafPre: func(l *refmls.LeafNode) {}, PathKeys: nil, Tree: func(t *refmls.Tree) {}}
	})
	rs = rs[:len(rs)-1]
	add("path-leaf-equals-inner-node", func(d *den) *trial {
		k, ok := d.staying()
		if !ok {
			return nil
		}
		return d.hooked(refmls.Hooks{LeafPre: func(l *refmls.LeafNode) { l.EncKey = k }})
	})
	hook("path-leaf-equals-path-node", func(d *den) refmls.Hooks {
		var keys [][]byte
		return refmls.Hooks{
			PathKeys: func(p [][]byte) { keys = p },
			LeafPre:  func(l *refmls.LeafNode) { l.EncKey = keys[d.R.Intn(len(keys))] },
		}
	})
	hook("path-leaf-other-sigkey", func(d *den) refmls.Hooks {
		o := d.peer.Ref
		return refmls.Hooks{NewSigPub: o.Tree.Leaf(o.MyLeaf).SigKey, NewSigPriv: o.SigPriv}
	})
	hook("path-leaf-extension", func(d *den) refmls.Hooks {
		return refmls.Hooks{LeafPre: func(l *refmls.LeafNode) {
			l.Exts = append([]refmls.Extension{{Type: 0xabcd, Data: []byte{1}}}, l.Exts...)
		}}
	})
	hook("path-leaf-credential", func(d *den) refmls.Hooks {
		return refmls.Hooks{LeafPre: func(l *refmls.LeafNode) {
			l.Cred = refmls.Credential{Type: 2, Certs: [][]byte{{1}}}
			l.Caps.Credentials = append([]uint16{2}, l.Caps.Credentials...)
		}}
	})
	hook("path-leaf-credentials-dropped", func(d *den) refmls.Hooks {
		return refmls.Hooks{LeafPre: func(l *refmls.LeafNode) { l.Caps.Credentials = []uint16{2} }}
	})
	hook("path-leaf-parent-hash", func(d *den) refmls.Hooks {
		return refmls.Hooks{LeafPre: func(l *refmls.LeafNode) { l.ParentHash = flip(l.ParentHash, d.R.Intn(200)) }}
	})
	hook("path-leaf-parent-hash-empty", func(d *den) refmls.Hooks {
		return refmls.Hooks{LeafPre: func(l *refmls.LeafNode) { l.ParentHash = []byte{} }}
	})
	add("path-leaf-equals-added", func(d *den) *trial {
		pub, priv := d.S.GenKEM(d.R)
		m := refmls.NewMember(d.S, d.R, &refmls.MemberOpts{EncPub: pub, EncPriv: priv})
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pAdd(m))}, true, refmls.Hooks{LeafPre: func(l *refmls.LeafNode) { l.EncKey = pub }}).Raw}
	})
	add("path-leaf-sigkey-equals-added", func(d *den) *trial {
		m := refmls.NewMember(d.S, d.R, nil)
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pAdd(m))}, true, refmls.Hooks{NewSigPub: m.KP.Leaf.SigKey, NewSigPriv: m.SigPriv}).Raw}
	})

	// --- path nodes ---
	hook("path-node-extra", func(d *den) refmls.Hooks {
		return refmls.Hooks{Path: func(p *refmls.UpdatePath) {
			pub, _ := d.S.GenKEM(d.R)
			p.Nodes = append(p.Nodes, refmls.UpdatePathNode{EncKey: pub})
		}}
	})
	hook("path-node-extra-front", func(d *den) refmls.Hooks {
		return refmls.Hooks{Path: func(p *refmls.UpdatePath) {
			pub, _ := d.S.GenKEM(d.R)
			p.Nodes = append([]refmls.UpdatePathNode{{EncKey: pub}}, p.Nodes...)
		}}
	})
	hook("path-node-missing", func(d *den) refmls.Hooks {
		return refmls.Hooks{Path: func(p *refmls.UpdatePath) { p.Nodes = p.Nodes[:len(p.Nodes)-1] }}
	})
	hook("path-node-missing-front", func(d *den) refmls.Hooks {
		return refmls.Hooks{Path: func(p *refmls.UpdatePath) { p.Nodes = p.Nodes[1:] }}
	})
	hook("path-nodes-none", func(d *den) refmls.Hooks {
		return refmls.Hooks{Path: func(p *refmls.UpdatePath) { p.Nodes = nil }}
	})
	hook("path-nodes-swapped", func(d *den) refmls.Hooks {
		return refmls.Hooks{Path: func(p *refmls.UpdatePath) { p.Nodes[0], p.Nodes[1] = p.Nodes[1], p.Nodes[0] }}
	})
	hook("path-node-key-replaced", func(d *den) refmls.Hooks {
		return refmls.Hooks{Path: func(p *refmls.UpdatePath) {
			pub, _ := d.S.GenKEM(d.R)
			p.Nodes[d.R.Intn(len(p.Nodes))].EncKey = pub
		}}
	})
	// keys below the ancestor the far member shares with the committer are
	// not recomputed by it: duplicates there must be noticed otherwise
	add("path-node-duplicate", func(d *den) *trial {
		t := d.hooked(refmls.Hooks{PathKeys: func(p [][]byte) { p[0] = p[1] }})
		t.who = d.farOnly()
		return t
	})
	add("path-node-duplicate-of-root", func(d *den) *trial {
		t := d.hooked(refmls.Hooks{PathKeys: func(p [][]byte) { p[0] = p[len(p)-1] }})
		t.who = d.farOnly()
		return t
	})
	add("path-node-equals-leaf", func(d *den) *trial {
		k := d.otherLeaf().EncKey
		t := d.hooked(refmls.Hooks{PathKeys: func(p [][]byte) { p[d.hidden()] = k }})
		t.who = d.farOnly()
		return t
	})
	add("path-node-equals-inner-node", func(d *den) *trial {
		k, ok := d.staying()
		if !ok {
			return nil
		}
		t := d.hooked(refmls.Hooks{PathKeys: func(p [][]byte) { p[d.hidden()] = k }})
		t.who = d.farOnly()
		return t
	})
	add("path-node-equals-own-old-leaf", func(d *den) *trial {
		k := d.evil.Ref.Tree.Leaf(d.evil.Ref.MyLeaf).EncKey
		t := d.hooked(refmls.Hooks{PathKeys: func(p [][]byte) { p[d.hidden()] = k }})
		t.who = d.farOnly()
		return t
	})
	add("path-node-equals-old-path-node", func(d *den) *trial {
		ks := d.oldPath()
		if len(ks) == 0 {
			return nil
		}
		t := d.hooked(refmls.Hooks{PathKeys: func(p [][]byte) { p[d.hidden()] = ks[d.R.Intn(len(ks))] }})
		t.who = d.farOnly()
		return t
	})
	add("path-leaf-equals-old-path-node", func(d *den) *trial {
		ks := d.oldPath()
		if len(ks) == 0 {
			return nil
		}
		return d.hooked(refmls.Hooks{LeafPre: func(l *refmls.LeafNode) { l.EncKey = ks[d.R.Intn(len(ks))] }})
	})
	add("path-node-equals-added", func(d *den) *trial {
		m := refmls.NewMember(d.S, d.R, nil)
		return &trial{who: d.farOnly(), raw: d.commit([]refmls.ProposalOrRef{val(pAdd(m))}, true, refmls.Hooks{PathKeys: func(p [][]byte) { p[0] = m.KP.Leaf.EncKey }}).Raw}
	})

	// --- path ciphertexts ---
	hook("path-ciphertext-extra", func(d *den) refmls.Hooks {
		return refmls.Hooks{Path: func(p *refmls.UpdatePath) {
			for i := range p.Nodes {
				p.Nodes[i].Secrets = append(p.Nodes[i].Secrets, p.Nodes[i].Secrets[0])
			}
		}}
	})
	hook("path-ciphertext-extra-elsewhere", func(d *den) refmls.Hooks {
		return refmls.Hooks{Path: func(p *refmls.UpdatePath) {
			i := d.R.Intn(len(p.Nodes))
			p.Nodes[i].Secrets = append(p.Nodes[i].Secrets, p.Nodes[i].Secrets[0])
		}}
	})
	hook("path-ciphertext-missing", func(d *den) refmls.Hooks {
		return refmls.Hooks{Path: func(p *refmls.UpdatePath) {
			for i := range p.Nodes {
				p.Nodes[i].Secrets = p.Nodes[i].Secrets[:len(p.Nodes[i].Secrets)-1]
			}
		}}
	})
	hook("path-ciphertext-none-elsewhere", func(d *den) refmls.Hooks {
		return refmls.Hooks{Path: func(p *refmls.UpdatePath) { p.Nodes[d.R.Intn(len(p.Nodes))].Secrets = nil }}
	})
	add("path-ciphertext-corrupt", func(d *den) *trial {
		t := d.hooked(refmls.Hooks{Path: func(p *refmls.UpdatePath) {
			for i := range p.Nodes {
				for j := range p.Nodes[i].Secrets {
					s := &p.Nodes[i].Secrets[j]
					s.Ct = flip(s.Ct, d.R.Intn(100))
				}
			}
		}})
		return t
	})
	add("path-ciphertext-kem-corrupt", func(d *den) *trial {
		return d.hooked(refmls.Hooks{Path: func(p *refmls.UpdatePath) {
			for i := range p.Nodes {
				for j := range p.Nodes[i].Secrets {
					p.Nodes[i].Secrets[j].Kem = flip(p.Nodes[i].Secrets[j].Kem, 40)
				}
			}
		}})
	})
	add("path-secret-wrong-for-some", func(d *den) *trial {
		// the far member gets a secret of another path
		li, width := d.LeafOf(d.far), len(d.evil.Ref.Tree)
		t := d.hooked(refmls.Hooks{SecretTo: func(x int, sec []byte) []byte {
			if x == 2*int(li) || isAncestor(x, li, width) {
				return refmls.Bytes(d.R, len(sec))
			}
			return sec
		}})
		t.who, t.local = d.farOnly(), true
		return t
	})
	add("path-secret-wrong-for-all", func(d *den) *trial {
		other := refmls.Bytes(d.R, d.S.Nh())
		return d.hooked(refmls.Hooks{SecretTo: func(x int, sec []byte) []byte { return other }})
	})
	hook("path-secret-truncated", func(d *den) refmls.Hooks {
		return refmls.Hooks{SecretTo: func(x int, sec []byte) []byte { return sec[:len(sec)-1] }}
	})
	hook("path-secret-empty", func(d *den) refmls.Hooks {
		return refmls.Hooks{SecretTo: func(x int, sec []byte) []byte { return []byte{} }}
	})
	hook("path-context-old", func(d *den) refmls.Hooks {
		return refmls.Hooks{Ctx: func(c *refmls.GroupContext) { *c = d.evil.Ref.Ctx }}
	})
	hook("path-context-treehash", func(d *den) refmls.Hooks {
		return refmls.Hooks{Ctx: func(c *refmls.GroupContext) { c.TreeHash = d.evil.Ref.Ctx.TreeHash }}
	})
	hook("path-context-epoch", func(d *den) refmls.Hooks {
		return refmls.Hooks{Ctx: func(c *refmls.GroupContext) { c.Epoch++ }}
	})
	add("path-upper-key-not-derived", func(d *den) *trial {
		// the near member derives the nodes above; the topmost is another key
		var t *trial
		t = d.hooked(refmls.Hooks{PathKeys: func(p [][]byte) {
			pub, _ := d.S.GenKEM(d.R)
			p[len(p)-1] = pub
		}})
		return t
	})

	// --- other proposals ---
	add("external-init", func(d *den) *trial {
		p := &refmls.Proposal{Type: refmls.PropExtIni, ExtInit: refmls.Bytes(d.R, 32)}
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(p)}, true, refmls.Hooks{}).Raw}
	})
	add("external-init-ref", func(d *den) *trial {
		return d.refProposal(d.peer, &refmls.Proposal{Type: refmls.PropExtIni, ExtInit: refmls.Bytes(d.R, 32)})
	})
	reinit := func(d *den) *refmls.Proposal {
		return &refmls.Proposal{Type: refmls.PropReInit, ReInit: &refmls.ReInit{GroupID: refmls.Bytes(d.R, 8), Version: 1, Suite: d.S.ID}}
	}
	add("reinit-with-add", func(d *den) *trial {
		m := refmls.NewMember(d.S, d.R, nil)
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(pAdd(m)), val(reinit(d))}, true, refmls.Hooks{}).Raw}
	})
	add("reinit-with-remove", func(d *den) *trial {
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(reinit(d)), val(pRemove(d.third.Ref.MyLeaf))}, true, refmls.Hooks{}).Raw}
	})
	add("reinit-twice", func(d *den) *trial {
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(reinit(d)), val(reinit(d))}, true, refmls.Hooks{}).Raw}
	})
	gce := func(d *den) *refmls.Proposal {
		return &refmls.Proposal{Type: refmls.PropGCE, GCE: []refmls.Extension{{Type: 0xfe01, Data: refmls.Bytes(d.R, 5)}}}
	}
	add("gce-twice", func(d *den) *trial {
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(gce(d)), val(gce(d))}, true, refmls.Hooks{}).Raw}
	})
	none := refmls.Hooks{ApplyProps: []*refmls.Proposal{}, ApplySender: []uint32{}}
	add("gce-ignored", func(d *den) *trial {
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(gce(d))}, true, none).Raw}
	})
	add("gce", func(d *den) *trial {
		res := d.commit([]refmls.ProposalOrRef{val(gce(d))}, true, refmls.Hooks{})
		return &trial{raw: res.Raw, res: res, follow: true}
	})
	add("gce-by-ref", func(d *den) *trial {
		ref := d.sendProposal(d.peer, gce(d))
		res := d.commit([]refmls.ProposalOrRef{{Ref: ref}}, true, refmls.Hooks{})
		return &trial{raw: res.Raw, res: res, follow: true}
	})
	psk := func(d *den) *refmls.Proposal {
		return &refmls.Proposal{Type: refmls.PropPSK, PSK: &refmls.PSKID{Type: refmls.PSKExternal, ID: []byte("psk"), Nonce: refmls.Bytes(d.R, d.S.Nh())}}
	}
	for _, path := range []bool{false, true} {
		add(fmt.Sprintf("psk-ignored-path=%v", path), func(d *den) *trial {
			return &trial{raw: d.commit([]refmls.ProposalOrRef{val(psk(d))}, path, none).Raw}
		})
		add(fmt.Sprintf("psk-unknown-to-receivers-path=%v", path), func(d *den) *trial {
			h := d.evil.Ref
			h.PSKs = map[string][]byte{"psk": []byte("secret")}
			raw := d.commit([]refmls.ProposalOrRef{val(psk(d))}, path, refmls.Hooks{}).Raw
			h.PSKs = nil
			return &trial{raw: raw}
		})
		add(fmt.Sprintf("psk-empty-path=%v", path), func(d *den) *trial {
			h := d.evil.Ref
			h.PSKs = map[string][]byte{"psk": {}}
			raw := d.commit([]refmls.ProposalOrRef{val(psk(d))}, path, refmls.Hooks{}).Raw
			h.PSKs = nil
			return &trial{raw: raw}
		})
	}
	add("psk-resumption-ignored", func(d *den) *trial {
		p := &refmls.Proposal{Type: refmls.PropPSK, PSK: &refmls.PSKID{Type: refmls.PSKResumption, Usage: 1, GroupID: d.evil.Ref.Ctx.GroupID, Epoch: d.evil.Ref.Ctx.Epoch, Nonce: refmls.Bytes(d.R, d.S.Nh())}}
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(p)}, true, none).Raw}
	})
	add("psk-resumption", func(d *den) *trial {
		p := &refmls.Proposal{Type: refmls.PropPSK, PSK: &refmls.PSKID{Type: refmls.PSKResumption, Usage: 1, GroupID: d.evil.Ref.Ctx.GroupID, Epoch: d.evil.Ref.Ctx.Epoch, Nonce: refmls.Bytes(d.R, d.S.Nh())}}
		res := d.commit([]refmls.ProposalOrRef{val(p)}, true, refmls.Hooks{})
		return &trial{raw: res.Raw, res: res, follow: true}
	})
	add("psk-twice", func(d *den) *trial {
		p := psk(d)
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(p), val(p)}, true, none).Raw}
	})
	add("reinit-alone", func(d *den) *trial {
		res := d.commit([]refmls.ProposalOrRef{val(reinit(d))}, true, refmls.Hooks{})
		return &trial{raw: res.Raw, res: res, follow: true}
	})
	add("unknown-proposal-type", func(d *den) *trial {
		p := &refmls.Proposal{Type: 0x7a7a, Raw: []byte{1, 2, 3}}
		return &trial{raw: d.commit([]refmls.ProposalOrRef{val(p)}, true, none).Raw}
	})

	// --- references ---
	add("unknown-ref", func(d *den) *trial {
		return &trial{raw: d.commit([]refmls.ProposalOrRef{{Ref: refmls.Bytes(d.R, d.S.Nh())}}, true, none).Raw}
	})
	add("empty-ref", func(d *den) *trial {
		return &trial{raw: d.commit([]refmls.ProposalOrRef{{Ref: []byte{}}}, true, none).Raw}
	})
	add("truncated-ref", func(d *den) *trial {
		ref := d.sendProposal(d.third, pUpdate(d.third.Ref.NewUpdateLeaf(nil, nil, nil)))
		return &trial{raw: d.commit([]refmls.ProposalOrRef{{Ref: ref[:len(ref)-1]}}, true, none).Raw}
	})
	// as if what the reference resembles had been meant
	for _, v := range []struct {
		name string
		f    func(ref []byte) []byte
	}{
		{"truncated", func(b []byte) []byte { return b[:len(b)-1] }},
		{"half", func(b []byte) []byte { return b[:len(b)/2] }},
		{"first-byte", func(b []byte) []byte { return b[:1] }},
		{"end", func(b []byte) []byte { return b[1:] }},
		{"empty", func(b []byte) []byte { return []byte{} }},
		{"extended", func(b []byte) []byte { return append(append([]byte{}, b...), 0) }},
		{"first-flipped", func(b []byte) []byte { return flip(b, 0) }},
		{"last-flipped", func(b []byte) []byte { return flip(b, len(b)-1) }},
		{"zero", func(b []byte) []byte { return make([]byte, len(b)) }},
	} {
		add("ref-"+v.name+"-resolved", func(d *den) *trial {
			by, p := d.third, (*refmls.Proposal)(nil)
			if d.R.Intn(2) == 0 {
				p = pUpdate(by.Ref.NewUpdateLeaf(nil, nil, nil))
			} else {
				p = pAdd(refmls.NewMember(d.S, d.R, nil))
			}
			ref := d.sendProposal(by, p)
			return &trial{raw: d.commit([]refmls.ProposalOrRef{{Ref: v.f(ref)}}, true, refmls.Hooks{ApplyProps: []*refmls.Proposal{p}, ApplySender: []uint32{by.Ref.MyLeaf}}).Raw}
		})
	}
	for _, n := range []int{0, 1} {
		add(fmt.Sprintf("ref-of-past-epoch-%d", n), func(d *den) *trial {
			m := refmls.NewMember(d.S, d.R, nil)
			p := pAdd(m)
			ref := d.sendProposal(d.peer, p)
			d.Commit(&sim.Spec{By: d.evil, Path: true, Seal: d.RandSeal()})
			h := none
			if n == 1 {
				h = refmls.Hooks{ApplyProps: []*refmls.Proposal{p}, ApplySender: []uint32{d.peer.Ref.MyLeaf}}
			}
			return &trial{raw: d.commit([]refmls.ProposalOrRef{{Ref: ref}}, true, h).Raw}
		})
	}
	add("ref-not-delivered", func(d *den) *trial {
		m := refmls.NewMember(d.S, d.R, nil)
		p := pAdd(m)
		raw, ref := d.peer.Ref.Clone().Propose(p, &refmls.SealOpts{Public: true})
		d.evil.Ref.Process(raw)
		return &trial{raw: d.commit([]refmls.ProposalOrRef{{Ref: ref}}, true, refmls.Hooks{}).Raw}
	})
	add("ref-of-forged-proposal", func(d *den) *trial {
		// a proposal whose signature is wrong must not become pending
		m := refmls.NewMember(d.S, d.R, nil)
		p := pAdd(m)
		raw, ref := d.peer.Ref.Clone().Propose(p, &refmls.SealOpts{Public: true, SigKey: d.evil.Ref.SigPriv})
		for _, l := range d.Libs() {
			if _, err := d.LibProcess(l, raw); err == nil {
				d.X.Fail("forged-proposal", "library member accepted a proposal signed with another member's key")
			}
		}
		return &trial{raw: d.commit([]refmls.ProposalOrRef{{Ref: ref}}, true, refmls.Hooks{ApplyProps: []*refmls.Proposal{p}, ApplySender: []uint32{d.peer.Ref.MyLeaf}}).Raw}
	})

	// --- update proposals ---
	add("update-leaf-signature", func(d *den) *trial {
		return d.updateWith(nil, nil, func(l *refmls.LeafNode) { l.Sig = flip(l.Sig, len(l.Sig)-1) })
	})
	add("update-leaf-other-key", func(d *den) *trial {
		return d.updateWith(nil, d.evil.Ref.SigPriv, nil)
	})
	add("update-leaf-source-keypackage", func(d *den) *trial {
		return d.updateWith(func(l *refmls.LeafNode) {
			l.Source = refmls.SrcKeyPackage
			l.NotBefore, l.NotAfter = unixNow()-day, unixNow()+20*day
		}, nil, nil)
	})
	add("update-leaf-source-commit", func(d *den) *trial {
		return d.updateWith(func(l *refmls.LeafNode) { l.Source = refmls.SrcCommit; l.ParentHash = []byte{} }, nil, nil)
	})
	add("update-leaf-same-enckey", func(d *den) *trial {
		old := d.peer.Ref.Tree.Leaf(d.peer.Ref.MyLeaf).EncKey
		return d.updateWith(func(l *refmls.LeafNode) { l.EncKey = old }, nil, nil)
	})
	add("update-leaf-other-enckey", func(d *den) *trial {
		k := d.otherLeaf().EncKey
		return d.updateWith(func(l *refmls.LeafNode) { l.EncKey = k }, nil, nil)
	})
	add("update-leaf-other-sigkey", func(d *den) *trial {
		// the two collude
		o := d.third.Ref
		return d.updateWith(func(l *refmls.LeafNode) { l.SigKey = o.Tree.Leaf(o.MyLeaf).SigKey }, o.SigPriv, nil)
	})
	add("update-leaf-extension", func(d *den) *trial {
		return d.updateWith(func(l *refmls.LeafNode) {
			l.Exts = append([]refmls.Extension{{Type: 0xabcd, Data: []byte{1}}}, l.Exts...)
		}, nil, nil)
	})
	add("update-leaf-credential", func(d *den) *trial {
		return d.updateWith(func(l *refmls.LeafNode) {
			l.Cred = refmls.Credential{Type: 2, Certs: [][]byte{{1}}}
			l.Caps.Credentials = append([]uint16{2}, l.Caps.Credentials...)
		}, nil, nil)
	})
	add("update-leaf-credentials-dropped", func(d *den) *trial {
		return d.updateWith(func(l *refmls.LeafNode) { l.Caps.Credentials = []uint16{2} }, nil, nil)
	})
	add("update-leaf-of-other-index", func(d *den) *trial {
		// signed for the third member's position
		g := d.peer.Ref.Clone()
		g.MyLeaf = d.third.Ref.MyLeaf
		l := d.peer.Ref.Tree.Leaf(d.peer.Ref.MyLeaf).Clone()
		pub, _ := d.S.GenKEM(d.R)
		l.EncKey, l.Source, l.ParentHash = pub, refmls.SrcUpdate, nil
		l.Sig = d.S.SignWithLabel(d.peer.Ref.SigPriv, "LeafNodeTBS", l.TBS(g.Ctx.GroupID, g.MyLeaf))
		return d.refProposal(d.peer, pUpdate(l))
	})
	add("update-leaf-of-other-group", func(d *den) *trial {
		l := d.peer.Ref.Tree.Leaf(d.peer.Ref.MyLeaf).Clone()
		pub, _ := d.S.GenKEM(d.R)
		l.EncKey, l.Source, l.ParentHash = pub, refmls.SrcUpdate, nil
		l.Sig = d.S.SignWithLabel(d.peer.Ref.SigPriv, "LeafNodeTBS", l.TBS(append([]byte{1}, d.peer.Ref.Ctx.GroupID...), d.peer.Ref.MyLeaf))
		return d.refProposal(d.peer, pUpdate(l))
	})
	add("two-updates-same-enckey", func(d *den) *trial {
		pub, _ := d.S.GenKEM(d.R)
		set := func(l *refmls.LeafNode) { l.EncKey = pub }
		a := d.sendProposal(d.peer, pUpdate(d.peer.Ref.NewUpdateLeaf(set, nil, nil)))
		b := d.sendProposal(d.third, pUpdate(d.third.Ref.NewUpdateLeaf(set, nil, nil)))
		return &trial{raw: d.commit([]refmls.ProposalOrRef{{Ref: a}, {Ref: b}}, true, refmls.Hooks{}).Raw}
	})
	add("update-enckey-equals-added", func(d *den) *trial {
		m := refmls.NewMember(d.S, d.R, nil)
		set := func(l *refmls.LeafNode) { l.EncKey = m.KP.Leaf.EncKey }
		a := d.sendProposal(d.peer, pUpdate(d.peer.Ref.NewUpdateLeaf(set, nil, nil)))
		return &trial{raw: d.commit([]refmls.ProposalOrRef{{Ref: a}, val(pAdd(m))}, true, refmls.Hooks{}).Raw}
	})
	add("update-enckey-equals-path-leaf", func(d *den) *trial {
		pub, _ := d.S.GenKEM(d.R)
		set := func(l *refmls.LeafNode) { l.EncKey = pub }
		a := d.sendProposal(d.peer, pUpdate(d.peer.Ref.NewUpdateLeaf(set, nil, nil)))
		return &trial{raw: d.commit([]refmls.ProposalOrRef{{Ref: a}}, true, refmls.Hooks{LeafPre: set}).Raw}
	})
	add("update-enckey-equals-inner-node", func(d *den) *trial {
		k, ok := d.staying()
		if !ok {
			return nil
		}
		return d.updateWith(func(l *refmls.LeafNode) { l.EncKey = k }, nil, nil)
	})
	return rs
}

// hidden is the position in the malicious member's path of a node that is not
// above the far member.
func (d *den) hidden() int { return d.R.Intn(d.below()) }

// below counts the nodes in the malicious member's path that are not above
// the far member.
func (d *den) below() int {
	t := d.evil.Ref.Tree
	path, _ := t.FilteredPath(d.evil.Ref.MyLeaf)
	n := 0
	for _, p := range path {
		if !isAncestor(p, d.LeafOf(d.far), len(t)) {
			n++
		}
	}
	return n
}

// oldPath lists the keys on the malicious member's direct path, all of which
// a commit replaces.
func (d *den) oldPath() (ks [][]byte) {
	t := d.evil.Ref.Tree
	for _, p := range refmls.DirectPath(2*int(d.evil.Ref.MyLeaf), len(t)) {
		if t[p] != nil {
			ks = append(ks, t[p].EncKey())
		}
	}
	return ks
}

// staying is the key of an inner node that is on neither the malicious
// member's path nor its honest peer's.
func (d *den) staying() ([]byte, bool) {
	t := d.evil.Ref.Tree
	on := map[int]bool{}
	for _, m := range []*sim.Member{d.evil, d.peer} {
		for _, p := range refmls.DirectPath(2*int(m.Ref.MyLeaf), len(t)) {
			on[p] = true
		}
	}
	var ks [][]byte
	for x, n := range t {
		if n != nil && n.Parent != nil && !on[x] {
			ks = append(ks, n.Parent.EncKey)
		}
	}
	if len(ks) == 0 {
		return nil, false
	}
	return ks[d.R.Intn(len(ks))], true
}

// c05Positive plays unusual but valid commits, which must be applied: a
// refusal of everything is no defence.
func c05Positive(x *run.Ctx) {
	d := newDen(x, nil)
	do := func(name string, sp *sim.Spec) {
		sp.Seal = d.RandSeal()
		d.Commit(sp)
		d.Agree()
		x.Seen("positive|%d|%s|%s", d.S.ID, name, d.Shape())
	}
	// somebody is removed and comes back with the same signature key
	back := func(m *sim.Member, lib bool) *sim.Client {
		mm := refmls.NewMember(d.S, d.R, &refmls.MemberOpts{Identity: []byte("again"), SigPub: m.C.M.KP.Leaf.SigKey, SigPriv: m.C.M.SigPriv})
		c := &sim.Client{M: mm, Name: m.Name + "'"}
		if lib {
			c.KPP = sim.LibClientFrom(x, mm)
		}
		return c
	}
	do("replace-same-sigkey", &sim.Spec{By: d.evil, Path: true, Removes: []*sim.Member{d.third}, Adds: []*sim.Client{back(d.third, true)}, AddLib: []bool{true}})
	do("replace-lib-same-sigkey", &sim.Spec{By: d.peer, Path: true, Removes: []*sim.Member{d.near}, Adds: []*sim.Client{back(d.near, true)}, AddLib: []bool{true}})
	do("newsig", &sim.Spec{By: d.evil, Path: true, NewSig: true})
	do("plain", &sim.Spec{By: d.peer, Path: true})
	// an update that also rotates the signature key
	refs := d.Refs()
	u := refs[len(refs)-1]
	if u != d.evil && u != d.peer {
		pub, priv := d.S.GenSig(d.R)
		l := u.Ref.NewUpdateLeaf(func(l *refmls.LeafNode) { l.SigKey = pub }, priv, nil)
		raw, ref := u.Ref.Propose(pUpdate(l), nil)
		d.DeliverProposal(raw, u)
		res := d.evil.Ref.Commit(&refmls.CommitOpts{List: []refmls.ProposalOrRef{{Ref: ref}}, Path: true, Seal: d.RandSeal()})
		d.DeliverCommit(res.Raw, d.evil.Name, d.evil, nil)
		d.evil.Ref = res.Next
		u.Ref.SigPriv = priv
		d.Agree()
		d.Say(u, d.SmallPayload(), nil, nil)
		x.Seen("positive|%d|update-newsig", d.S.ID)
	}
	// all members of the right half leave
	t := d.evil.Ref.Tree
	sp := &sim.Spec{By: d.evil, Path: true}
	for _, m := range d.Members {
		if d.LeafOf(m) >= t.NumLeaves()/2 && m != d.evil {
			sp.Removes = append(sp.Removes, m)
		}
	}
	do("shrink", sp)
	do("plain", &sim.Spec{By: d.peer, Path: true})
}
