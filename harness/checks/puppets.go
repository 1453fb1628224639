package checks

import (
	"bytes"
	"fmt"
	"math/rand"

	mls "github.com/emersion/go-mls"
	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

// puppets is a group with one library member; all other leaves are played by
// one reference view that knows everything, so groups can be large.
type puppets struct {
	x    *run.Ctx
	r    *rand.Rand
	s    *refmls.Suite
	g    *refmls.Group
	sig  map[string][]byte // by signature key
	lib  *mls.Group
	libC *refmls.Member
	n    int
	log  []string
}

func (p *puppets) member() *refmls.Member {
	p.n++
	m := refmls.NewMember(p.s, p.r, &refmls.MemberOpts{Identity: []byte(fmt.Sprint("p", p.n))})
	p.sig[string(m.KP.Leaf.SigKey)] = m.SigPriv
	return m
}

// newPuppets makes a group of n members whose leaf at is a library member.
func newPuppets(x *run.Ctx, s *refmls.Suite, n, at int) *puppets {
	p := &puppets{x: x, r: x.Rng, s: s, sig: map[string][]byte{}}
	gid := refmls.Bytes(p.r, 8)
	p.libC = refmls.NewMember(s, p.r, &refmls.MemberOpts{Identity: []byte("lib")})
	kpp := sim.LibClientFrom(x, p.libC)
	if at == 0 {
		var err error
		x.Lib("CreateGroup", func() { p.lib, err = mls.CreateGroup(gid, kpp) })
		if err != nil {
			x.Fail("create", "CreateGroup: %v", err)
		}
		p.invite(n - 1)
		return p
	}
	first := p.member()
	p.g = refmls.Create(gid, first, 0, nil, p.r)
	var ms []*refmls.Member
	for i := 1; i < n; i++ {
		if i == at {
			ms = append(ms, p.libC)
			continue
		}
		ms = append(ms, p.member())
	}
	res := p.g.Commit(&refmls.CommitOpts{List: addsOf(ms), Path: p.r.Intn(2) == 0})
	p.g = res.Next
	p.join(res.Welcome.MsgBytes(), kpp)
	return p
}

func addsOf(ms []*refmls.Member) (out []refmls.ProposalOrRef) {
	for _, m := range ms {
		out = append(out, val(pAdd(m)))
	}
	return
}

func (p *puppets) join(raw []byte, kpp *mls.KeyPairPackage) {
	p.x.Lib("GroupFromWelcome", func() {
		w, err := mls.UnmarshalWelcome(raw)
		if err == nil {
			p.lib, err = mls.GroupFromWelcome(w, kpp)
		}
		if err != nil {
			p.x.Fail("join", "library client cannot join (suite %d, %s): %v", p.s.ID, p.shape(), err)
		}
	})
	p.x.Eval(1)
}

func (p *puppets) shape() string {
	return fmt.Sprintf("%d members in %d leaves, after %v", len(p.g.Tree.Members()), p.g.Tree.NumLeaves(), p.log)
}

func (p *puppets) libLeaf() uint32 {
	for _, li := range p.g.Tree.Members() {
		if bytes.Equal(p.g.Tree.Leaf(li).SigKey, p.libC.KP.Leaf.SigKey) {
			return li
		}
	}
	panic("the library member is gone")
}

// others lists the leaves of puppets in random order.
func (p *puppets) others() []uint32 {
	var out []uint32
	me := p.libLeaf()
	for _, li := range p.g.Tree.Members() {
		if li != me {
			out = append(out, li)
		}
	}
	p.r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func (p *puppets) as(li uint32) *refmls.Group {
	g := p.g.Clone()
	g.MyLeaf, g.SigPriv = li, p.sig[string(p.g.Tree.Leaf(li).SigKey)]
	g.HSGen = 0
	return g
}

func (p *puppets) give(what string, raw []byte) {
	var err error
	p.x.Lib(what, func() { _, err = p.lib.UnmarshalAndProcessMessage(raw) })
	p.x.Eval(1)
	if err != nil {
		p.x.Fail("refused", "library member at leaf %d refused a valid %s (suite %d, %s): %v", p.libLeaf(), what, p.s.ID, p.shape(), err)
	}
}

// commit makes a puppet commit.
func (p *puppets) commit(by uint32, removes []uint32, updates []uint32, adds int, path bool) {
	p.log = append(p.log, fmt.Sprintf("{by %d remove %v update %v add %d path %v}", by, removes, updates, adds, path))
	if len(p.log) > 12 {
		p.log = p.log[len(p.log)-12:]
	}
	var list []refmls.ProposalOrRef
	for _, li := range updates {
		g := p.as(li)
		raw, ref := g.Propose(pUpdate(g.NewUpdateLeaf(nil, nil, nil)), &refmls.SealOpts{Public: p.r.Intn(2) == 0})
		p.give("update proposal", raw)
		if _, err := p.as(by).Process(raw); err != nil {
			panic(err)
		}
		p.g.Pending = append(p.g.Pending, g.Pending[len(g.Pending)-1])
		list = append(list, refmls.ProposalOrRef{Ref: ref})
	}
	for _, li := range removes {
		list = append(list, val(pRemove(li)))
	}
	var ms []*refmls.Member
	for i := 0; i < adds; i++ {
		ms = append(ms, p.member())
	}
	list = append(list, addsOf(ms)...)
	p.r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	res := p.as(by).Commit(&refmls.CommitOpts{List: list, Path: path || len(updates)+len(removes) > 0 || len(list) == 0, Seal: refmls.SealOpts{Public: p.r.Intn(2) == 0}})
	p.give("commit", res.Raw)
	p.g = res.Next
}

// invite makes the library member commit.
func (p *puppets) invite(n int) {
	var ms []*refmls.Member
	var kps []mls.KeyPackage
	for i := 0; i < n; i++ {
		m := p.member()
		ms = append(ms, m)
		kps = append(kps, sim.LibClientFrom(p.x, m).Public)
	}
	p.log = append(p.log, fmt.Sprintf("{library adds %d}", n))
	var w *mls.Welcome
	var raw []byte
	var err error
	p.x.Lib("CreateWelcome", func() {
		w, raw, err = p.lib.CreateWelcome(kps)
		if err == nil {
			_, err = p.lib.UnmarshalAndProcessMessage(raw)
		}
	})
	p.x.Eval(1)
	if err != nil {
		p.x.Fail("invite", "library member cannot invite %d members (suite %d): %v", n, p.s.ID, err)
	}
	wel, err := refmls.ParseWelcome(w.Bytes())
	if err != nil {
		p.x.Fail("welcome", "the Welcome does not decode: %v", err)
	}
	g, err := refmls.Join(wel, ms[p.r.Intn(len(ms))], &refmls.JoinOpts{Rng: p.r})
	if err != nil {
		p.x.Fail("welcome", "conforming client cannot join from a Welcome (suite %d): %v", p.s.ID, err)
	}
	if p.g == nil {
		p.g = g
		return
	}
	p.g.Lenient = true
	if _, err := p.g.Process(raw); err != nil {
		p.x.Fail("emission", "conforming member refuses the commit of the library member (suite %d, %s): %v", p.s.ID, p.shape(), err)
	}
	if !bytes.Equal(p.g.Tree.Bytes(), g.Tree.Bytes()) {
		p.x.Fail("tree", "the Welcome of the library member has another tree (suite %d, %s)", p.s.ID, p.shape())
	}
}

// agree sends one message in both directions.
func (p *puppets) agree() {
	var raw []byte
	var err error
	data := refmls.Bytes(p.r, 8)
	p.x.Lib("CreateApplicationMessage", func() { raw, err = p.lib.CreateApplicationMessage(data) })
	if err != nil {
		p.x.Fail("send", "library member cannot send (suite %d, %s): %v", p.s.ID, p.shape(), err)
	}
	v := p.as(p.others()[0])
	v.Lenient = true
	_, ev, err := v.Open(raw)
	p.x.Eval(1)
	if err != nil || !bytes.Equal(ev.App, data) || ev.Sender != p.libLeaf() {
		p.x.Fail("disagree", "conforming member cannot read the library member's message (suite %d, %s): %v", p.s.ID, p.shape(), err)
	}
	for _, li := range p.others()[:1] {
		v := p.as(li)
		v.AppGen = 0
		var out []byte
		p.x.Lib("UnmarshalAndProcessMessage", func() { out, err = p.lib.UnmarshalAndProcessMessage(v.App(data, nil)) })
		p.x.Eval(1)
		if err != nil || !bytes.Equal(out, data) {
			p.x.Fail("disagree", "library member cannot read a message of leaf %d (suite %d, %s): %v", li, p.s.ID, p.shape(), err)
		}
	}
}

// step makes a random change with up to max leaves touched per kind.
func (p *puppets) step(max int) {
	o := p.others()
	if p.r.Intn(5) == 0 {
		p.invite(1 + p.r.Intn(max))
		return
	}
	by := o[0]
	o = o[1:]
	k := 0
	if len(o) > 1 && p.r.Intn(2) == 0 {
		k = p.r.Intn(min(max, len(o)-1) + 1)
	}
	rm := o[:k]
	o = o[k:]
	k = 0
	if len(o) > 0 && p.r.Intn(3) == 0 {
		k = p.r.Intn(min(3, len(o)) + 1)
	}
	adds := 0
	if p.r.Intn(2) == 0 {
		adds = p.r.Intn(max + 1)
	}
	p.commit(by, rm, o[:k], adds, p.r.Intn(2) == 0)
}
